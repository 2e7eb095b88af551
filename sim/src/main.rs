//! Whole-program simulation of scc (the game's script compiler replacement) and redscript-cli over a simulated
//! operating system.
mod api;
mod argv;
mod bases;
mod checks;
mod cli;
mod decl;
mod flaws;
mod game;
mod lang;
mod scc;
mod simfs;
mod sys;
mod tools;

struct SimLog;
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        simfs::log_line(format!("[{}] {}", r.level(), r.args()));
    }
    fn flush(&self) {}
}
static LOG: SimLog = SimLog;

fn main() {
    argv::install();
    sys::install();
    log::set_logger(&LOG).ok();
    log::set_max_level(log::LevelFilter::Info);
    cli::provide();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("gen-bases") {
        let predef = std::fs::read("/repo/resources/predef.redscripts").expect("predef");
        for v in 0..4 {
            std::fs::write(format!("{}/base{v}.redscripts", a[2]), bases::generate(&predef, v)).expect("write");
        }
        return;
    }
    if a.get(1).map(String::as_str) == Some("corpus") {
        return scc::try_corpus();
    }
    if a.get(1).map(String::as_str) == Some("flaws") {
        return flaws::show(&a[2..]);
    }
    simkit::main_entry(checks::all());
}

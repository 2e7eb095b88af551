//! The two command line programs, compiled into the simulator from the repository's sources.
mod redcli {
    include!("/repo/cli/src/main.rs");

    pub fn sim_main() -> impl std::process::Termination {
        main()
    }
}

#[path = "/repo/scc/cli/src"]
mod scccli {
    include!("/repo/scc/cli/src/main.rs");

    pub fn sim_main() -> impl std::process::Termination {
        main()
    }
}

/// Runs a program's main with its command line; true is exit status 0.
fn program<T: std::process::Termination>(name: &str, args: &[&str], main: fn() -> T) -> bool {
    crate::argv::set(std::iter::once(name).chain(args.iter().copied()));
    let code = main().report();
    format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<Box<dyn std::any::Any + Send>>> = const { std::cell::RefCell::new(None) };
}

/// `scc_compile`, which would abort the whole simulator if scc-lib panicked: the panic is passed on below instead.
extern "C" fn compile_caught(settings: Box<scc_lib::api::SccSettings>) -> Box<scc_lib::api::SccResult> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scc_lib::compile(&settings))) {
        Ok(r) => r,
        Err(e) => {
            PANIC.with(|p| *p.borrow_mut() = Some(e));
            Box::new(scc_lib::api::SccResult::Error(anyhow::anyhow!("panicked")))
        }
    }
}

pub fn provide() {
    use scc_lib::api::*;
    minidl::provide("scc_compile", compile_caught as usize);
    minidl::provide("scc_get_success", scc_get_success as usize);
    minidl::provide("scc_free_result", scc_free_result as usize);
}

/// redscript-cli; true is exit status 0.
pub fn redscript(args: &[&str]) -> bool {
    argh::set_args(args.iter().map(|s| s.to_string()).collect());
    program("redscript-cli", args, redcli::sim_main)
}

/// scc; true is exit status 0.
pub fn scc(args: &[&str]) -> bool {
    let r = program("scc", args, scccli::sim_main);
    if let Some(e) = PANIC.with(|p| p.borrow_mut().take()) {
        std::panic::resume_unwind(e);
    }
    r
}

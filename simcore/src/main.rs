mod alloc;
mod conv;
mod core_checks;
mod dec_checks;
mod gen;
mod files;
mod hist;
mod model;
mod sem;
mod streams;

#[global_allocator]
static ALLOC: alloc::Guard = alloc::Guard;

fn main() {
    let mut all = core_checks::checks();
    all.extend(dec_checks::checks());
    all.extend(files::checks());
    simkit::main_entry(all)
}

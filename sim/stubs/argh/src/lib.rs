//! Offline stand-in for `argh`: options, switches and subcommands; the arguments come from the simulator, per
//! simulated process, instead of the real command line.
pub use argh_derive::FromArgs;
use std::cell::RefCell;

thread_local! {
    static ARGV: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn set_args(args: Vec<String>) {
    ARGV.with(|a| *a.borrow_mut() = args);
}

pub trait FromArgs: Sized {
    fn from_args(args: &[String]) -> Result<Self, String>;
    fn command_name() -> Option<&'static str> {
        None
    }
}

pub fn from_env<T: FromArgs>() -> T {
    let args = ARGV.with(|a| a.borrow().clone());
    match T::from_args(&args) {
        Ok(v) => v,
        Err(e) => panic!("argument error: {e}"),
    }
}

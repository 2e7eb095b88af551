//! The command line of the simulated process that has its turn, in place of the simulator's own: std reads it from the
//! array the kernel made, which is rewritten here.
use libc::c_char;
use std::cell::RefCell;
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);
const ROOM: usize = 64;
const PAD: &str = "(room)";

thread_local! {
    static MINE: RefCell<Vec<CString>> = const { RefCell::new(Vec::new()) };
}

extern "C" fn capture(argc: libc::c_int, argv: *mut *const c_char, _: *const *const c_char) {
    ARGC.store(argc as usize, Ordering::Relaxed);
    ARGV.store(argv, Ordering::Relaxed);
}
#[used]
#[link_section = ".init_array"]
static CAPTURE: extern "C" fn(libc::c_int, *mut *const c_char, *const *const c_char) = capture;

/// Makes room in the array (by starting the program again with more arguments).
pub fn install() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < ROOM {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").arg0(&args[0]).args(&args[1..]).args(vec![PAD; ROOM]).env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0").exec();
        panic!("exec: {e}");
    }
    if let Some(n) = args.iter().position(|a| a == PAD) {
        // std stops at a null pointer
        unsafe { *ARGV.load(Ordering::Relaxed).add(n) = std::ptr::null() };
    }
}

pub fn set<'a>(args: impl Iterator<Item = &'a str>) {
    let v: Vec<CString> = args.map(|a| CString::new(a).expect("argument")).collect();
    assert!(v.len() < ARGC.load(Ordering::Relaxed), "too many arguments");
    MINE.with(|m| *m.borrow_mut() = v);
    turn();
}

/// Called when a simulated process gets its turn.
pub fn turn() {
    MINE.try_with(|m| {
        let m = m.borrow();
        if !m.is_empty() {
            let a = ARGV.load(Ordering::Relaxed);
            for (k, s) in m.iter().enumerate() {
                unsafe { *a.add(k) = s.as_ptr() };
            }
            unsafe { *a.add(m.len()) = std::ptr::null() };
        }
    })
    .ok();
}

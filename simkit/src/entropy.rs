//! The process's entropy source, under the simulator's control: `getrandom` is interposed, and returns a stream decided
//! by a per-thread seed, so that std's randomised hash maps take the keys the simulation chose.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn set_thread_seed(seed: u64) {
    SEED.with(|s| s.set(seed));
}
/// How many times this thread asked the (simulated) operating system for randomness.
pub fn calls() -> u64 {
    CALLS.try_with(|c| c.get()).unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED
        .try_with(|s| {
            let v = s.get();
            s.set(v.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
            v
        })
        .unwrap_or(7);
    CALLS.try_with(|c| c.set(c.get() + 1)).ok();
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    len as isize
}

/// Keeps the interposed symbol in the link.
pub fn install() {
    let f: unsafe extern "C" fn(*mut u8, usize, u32) -> isize = getrandom;
    std::hint::black_box(f as usize);
}

/// Runs `f` on a fresh thread whose randomised hashers are seeded with `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| {
        s.spawn(move || {
            set_thread_seed(seed);
            f()
        })
        .join()
    })
}

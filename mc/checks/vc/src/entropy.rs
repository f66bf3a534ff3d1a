//! Per-thread fixed answers of the operating system's random source.
//!
//! The executable defines `getrandom` itself; threads that did not opt in get real randomness. On
//! a fresh thread that opted in, the keys of `std` hash maps (and everything seeded from them, such
//! as the branch order of `tokio::select!`) are a function of the seed.

use std::cell::Cell;

thread_local! {
    static FIXED: Cell<Option<u64>> = const { Cell::new(None) };
}

/// # Safety
/// Called by libc users with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if let Ok(Some(state)) = FIXED.try_with(|f| f.get()) {
        let mut state = state;
        for i in 0..len {
            // splitmix64, one byte per step
            state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = state;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            *(buf as *mut u8).add(i) = (z ^ (z >> 31)) as u8;
        }
        let _ = FIXED.try_with(|f| f.set(Some(state)));
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

/// From now on this thread's random bytes are determined by `seed`.
pub fn fix(seed: u64) {
    FIXED.with(|f| f.set(Some(seed)));
}

//! Owns every source of randomness in the process.
//!
//! `HashMap` iteration order (`RandomState`), `Uuid::new_v4` and `rand::rng()` all bottom out in
//! either the libc function `getrandom` or the raw system call of the same name. Both symbols are
//! overridden here. While a thread has a seed, both produce a deterministic stream.

use std::cell::Cell;

thread_local! {
    static STATE: Cell<Option<u64>> = const { Cell::new(None) };
}

pub fn set_seed(seed: Option<u64>) {
    STATE.with(|s| s.set(seed));
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

unsafe fn fill(buf: *mut u8, len: usize) -> bool {
    let Ok(Some(mut state)) = STATE.try_with(|s| s.get()) else {
        return false;
    };

    for i in 0..len {
        *buf.add(i) = (splitmix(&mut state) >> 32) as u8;
    }

    let _ = STATE.try_with(|s| s.set(Some(state)));
    true
}

/// # Safety
///
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    if fill(buf as *mut u8, len) {
        len as libc::ssize_t
    } else {
        syscall(
            libc::SYS_getrandom,
            buf as usize,
            len,
            flags as usize,
            0,
            0,
            0,
        ) as libc::ssize_t
    }
}

/// # Safety
///
/// Same contract as the libc function.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: libc::c_long,
    a1: usize,
    a2: usize,
    a3: usize,
    a4: usize,
    a5: usize,
    a6: usize,
) -> libc::c_long {
    if num == libc::SYS_getrandom && fill(a1 as *mut u8, a2) {
        return a2 as libc::c_long;
    }

    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") num as isize => ret,
        in("rdi") a1,
        in("rsi") a2,
        in("rdx") a3,
        in("r10") a4,
        in("r8") a5,
        in("r9") a6,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack),
    );

    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = -ret as libc::c_int;
        -1
    } else {
        ret as libc::c_long
    }
}

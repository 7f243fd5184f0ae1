//! Raw system calls: the only way the runtime itself talks to the real kernel.
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize) -> isize {
    raw6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// kernel convention -> libc convention
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    raw6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
/// Print on the real stderr (never captured, never scheduled).
pub fn eprint(s: &str) {
    unsafe {
        raw(libc::SYS_write, 2, s.as_ptr() as usize, s.len());
    }
}

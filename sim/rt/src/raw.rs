//! Real system calls, bypassing every interposed symbol.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    ret
}

pub fn exit_group(code: i32) -> ! {
    unsafe { sc6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); }
    loop {}
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { sc6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0); }
}

pub fn futex_wake(addr: *const u32, n: i32) {
    unsafe { sc6(libc::SYS_futex, addr as i64, 1 | 128, n as i64, 0, 0, 0); }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) { continue }
        if r <= 0 { return }
        b = &b[r as usize..];
    }
}

/// Converts a raw kernel return into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; -1 } else { r }
}

//! Scheduling points inside the code under test: the callbacks that the compiler's thread-sanitizer
//! instrumentation inserts (function entries and atomic operations; memory accesses are off).
use crate::sched::{point, Kind};
use core::sync::atomic::*;
use core::sync::atomic::Ordering::{Relaxed, SeqCst};

#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: *const u8) { point(Kind::Func) }
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { point(Kind::Atomic); fence(SeqCst) }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) { compiler_fence(SeqCst) }

// ---- finding a counter ----

extern "C" { static __data_start: u8; static _end: u8; }

static LEARNING: AtomicBool = AtomicBool::new(false);
static mut SEEN: [(usize, usize); 32] = [(0, 0); 32];
static SEEN_N: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
fn note(p: usize, size: usize) { if LEARNING.load(Relaxed) { remember(p, size) } }

#[cold]
fn remember(p: usize, size: usize) {
    unsafe {
        if p < core::ptr::addr_of!(__data_start) as usize || p >= core::ptr::addr_of!(_end) as usize { return }
        let n = SEEN_N.load(SeqCst);
        if n >= 32 || (0..n).any(|i| SEEN[i].0 == p) { return }
        SEEN[n] = (p, size);
        SEEN_N.store(n + 1, SeqCst);
    }
}

/// A static word that goes up by the same amount each time something is done.
pub struct Counter { at: usize, size: usize, step: u64 }

unsafe fn word(at: usize, size: usize) -> u64 {
    match size { 1 => *(at as *const u8) as u64, 2 => *(at as *const u16) as u64, 4 => *(at as *const u32) as u64, _ => *(at as *const u64) }
}

/// Does `f` some times and returns the one static atomic word it counts up, if it is just one and all others come back to
/// what they were. The process must have no other threads.
pub fn learn(times: usize, f: &dyn Fn()) -> Option<Counter> {
    SEEN_N.store(0, SeqCst);
    LEARNING.store(true, SeqCst);
    f();
    let n = SEEN_N.load(SeqCst);
    let all: Vec<(usize, usize)> = (0..n).map(|i| unsafe { SEEN[i] }).collect();
    let mut rows: Vec<Vec<u64>> = vec![all.iter().map(|x| unsafe { word(x.0, x.1) }).collect()];
    for _ in 0..times { f(); rows.push(all.iter().map(|x| unsafe { word(x.0, x.1) }).collect()) }
    LEARNING.store(false, SeqCst);
    if SEEN_N.load(SeqCst) != n { return None }
    let mut found = None;
    for (i, x) in all.iter().enumerate() {
        let d: Vec<u64> = rows.windows(2).map(|w| w[1][i].wrapping_sub(w[0][i])).collect();
        if d.iter().all(|d| *d == 0) { continue }
        if d[0] == 0 || d[0] > 16 || d.iter().any(|y| *y != d[0]) || found.is_some() { return None }
        found = Some(Counter { at: x.0, size: x.1, step: d[0] });
    }
    found
}

impl Counter {
    /// As if it had been done `n` times more.
    pub fn advance(&self, n: u64) {
        let d = n.wrapping_mul(self.step);
        unsafe {
            match self.size {
                1 => { let p = self.at as *mut u8; *p = (*p).wrapping_add(d as u8) }
                2 => { let p = self.at as *mut u16; *p = (*p).wrapping_add(d as u16) }
                4 => { let p = self.at as *mut u32; *p = (*p).wrapping_add(d as u32) }
                _ => { let p = self.at as *mut u64; *p = (*p).wrapping_add(d) }
            }
        }
    }
}

macro_rules! atomics {
    ($($A:ident $T:ty: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas_s:ident $cas_w:ident $cas_v:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $A, _o: i32) -> $T { point(Kind::Atomic); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $A, v: $T, _o: i32) { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $A, v: $T, _o: i32) -> $T { note(p as usize, core::mem::size_of::<$T>()); point(Kind::Atomic); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas_s(p: *const $A, c: *mut $T, v: $T, _o: i32, _f: i32) -> i32 { note(p as usize, core::mem::size_of::<$T>());
            point(Kind::Atomic);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cas_w(p: *const $A, c: *mut $T, v: $T, o: i32, f: i32) -> i32 { $cas_s(p, c, v, o, f) }
        #[no_mangle] pub unsafe extern "C" fn $cas_v(p: *const $A, c: $T, v: $T, _o: i32, _f: i32) -> $T { note(p as usize, core::mem::size_of::<$T>());
            point(Kind::Atomic);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    )*};
}

atomics! {
    AtomicU8 u8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    AtomicU16 u16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    AtomicU32 u32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    AtomicU64 u64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}

// Memory accesses are not instrumented (a build without the flag that turns them off still links).
macro_rules! nops { ($($n:ident)*) => {$( #[no_mangle] pub extern "C" fn $n(_: *const u8) {} )*} }
nops! {
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_vptr_read __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
}
#[no_mangle] pub extern "C" fn __tsan_vptr_update(_: *const u8, _: *const u8) {}
#[no_mangle] pub extern "C" fn __tsan_read_range(_: *const u8, _: usize) {}
#[no_mangle] pub extern "C" fn __tsan_write_range(_: *const u8, _: usize) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { libc::memcpy(d.cast(), s.cast(), n).cast() }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { libc::memmove(d.cast(), s.cast(), n).cast() }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { libc::memset(d.cast(), c, n).cast() }

#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Replacements of C library functions through which the real code would reach time, randomness,
//! the kernel's scheduler and the file system. They act only on simulated threads.
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::sim::*;

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
fn ns(ts: *const libc::timespec) -> u64 {
    unsafe { ((*ts).tv_sec as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec as u64) }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if let Some(t) = sim_thread_active() {
        let _h = Host::enter();
        if n == libc::SYS_futex {
            let op = b as i32 & 0x7f;
            return match op {
                0 | 9 => {
                    let ts = d as *const libc::timespec;
                    let dl = if ts.is_null() {
                        None
                    } else if op == 0 {
                        Some(sim().now.saturating_add(ns(ts)))
                    } else if b as i32 & 256 != 0 {
                        Some(ns(ts).saturating_sub(REAL_BASE))
                    } else {
                        Some(ns(ts).saturating_sub(MONO_BASE))
                    };
                    ret(futex_wait(t, a, c as u32, dl))
                }
                1 | 10 => futex_wake(a, c as u32),
                _ => host_error("futex operation not simulated"),
            };
        }
        if n == libc::SYS_getrandom {
            fill(t, a as *mut u8, b);
            return b as i64;
        }
        if n == libc::SYS_sched_yield {
            yield_thread(t);
            return 0;
        }
        if n == libc::SYS_gettid {
            return 1000 + t.id as i64;
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}
unsafe fn fill(t: &Thread, p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        let node = &mut s.nodes[t.node];
        if i % 8 == 0 {
            node.rand += 1;
        }
        let (r, inc) = (node.rand, t.inc);
        *p.add(i) = (s.derive(0x4a2d, (t.node as u64) << 8 | inc as u64, r) >> (8 * (i % 8))) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if let Some(t) = sim_thread_active() {
        let _h = Host::enter();
        fill(t, p, n);
        return n as isize;
    }
    ret(raw6(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if sim_thread_active().is_some() {
        let now = sim().now + if id == libc::CLOCK_REALTIME || id == 5 { REAL_BASE } else { MONO_BASE };
        (*ts).tv_sec = (now / SEC) as i64;
        (*ts).tv_nsec = (now % SEC) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(t) = sim_thread_active() {
        let _h = Host::enter();
        let until = if flags & libc::TIMER_ABSTIME != 0 { ns(req).saturating_sub(MONO_BASE) } else { sim().now + ns(req) };
        sleep_thread(t, until);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(t) = sim_thread_active() {
        let _h = Host::enter();
        let until = sim().now + ns(req);
        sleep_thread(t, until);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = sim_thread_active() {
        let _h = Host::enter();
        yield_thread(t);
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if sim_thread_active().is_some() {
        std::ptr::write_bytes(mask, 0, size);
        *mask = 0x0f;
        return 0;
    }
    let r = raw6(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        return ret(r) as i32;
    }
    if (r as usize) < size {
        std::ptr::write_bytes(mask.add(r as usize), 0, size - r as usize);
    }
    0
}
unsafe fn real_open(slot: &AtomicUsize, name: &[u8], path: *const i8, flags: i32, mode: u32) -> i32 {
    let mut f = slot.load(Ordering::Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
        slot.store(f, Ordering::Relaxed);
    }
    let f: extern "C" fn(*const i8, i32, u32) -> i32 = std::mem::transmute(f);
    f(path, flags, mode)
}
static OPEN: AtomicUsize = AtomicUsize::new(0);
static OPEN64: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    if sim_thread_active().is_some() {
        set_errno(libc::ENOENT);
        return -1;
    }
    real_open(&OPEN, b"open\0", path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    if sim_thread_active().is_some() {
        set_errno(libc::ENOENT);
        return -1;
    }
    real_open(&OPEN64, b"open64\0", path, flags, mode)
}
/// Nothing a simulated node prints reaches the real output.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    // Standard error is /dev/null, unless somebody looks for a fault in the simulator.
    if sim_thread_active().is_some() && fd != 2 {
        return n as isize;
    }
    ret(raw6(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim_thread_active().is_some() {
        let mut k = 0;
        for i in 0..n as usize {
            k += (*iov.add(i)).iov_len;
        }
        return k as isize;
    }
    ret(raw6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)) as isize
}

//! What the runtime modules see as `libc`: constants and types of the real
//! one, system calls of the simulated machine.
#![allow(non_camel_case_types)]
pub use ::libc::*;
use crate::world::{Fd, US, cx, w};

fn fail(e: i32) -> i32 {
    *w().errno() = e;
    -1
}

pub unsafe fn mprotect(_: *mut c_void, _: usize, _: i32) -> i32 {
    0
}

pub unsafe fn pipe(fds: *mut i32) -> i32 {
    let i = w().pipes.len();
    w().pipes.push(0);
    let a = 900 + 2 * i as i32;
    w().fds.insert(a, Fd { pipe: Some(i), ..Fd::default() });
    w().fds.insert(a + 1, Fd { pipe: Some(i), write_end: true, ..Fd::default() });
    unsafe {
        *fds = a;
        *fds.add(1) = a + 1;
    }
    0
}

pub unsafe fn pipe2(fds: *mut i32, flags: i32) -> i32 {
    unsafe {
        pipe(fds);
        if flags & O_NONBLOCK != 0 {
            fcntl(*fds, F_SETFL, O_NONBLOCK);
            fcntl(*fds.add(1), F_SETFL, O_NONBLOCK);
        }
    }
    0
}

pub unsafe fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32 {
    if cmd == F_SETFL
        && let Some(f) = w().fds.get_mut(&fd)
    {
        f.nonblock = arg & O_NONBLOCK != 0;
    }
    0
}

pub unsafe fn read(fd: i32, _buf: *mut c_void, n: usize) -> isize {
    w().yield_point();
    let f = w().fds.get(&fd).cloned().unwrap_or_default();
    let Some(p) = f.pipe else { return fail(EBADF) as isize };
    if crate::hooks::fault_read() {
        cx().fault("read_eintr");
        return fail(EINTR) as isize;
    }
    let have = w().pipes[p];
    if have == 0 {
        if f.nonblock {
            return fail(EAGAIN) as isize;
        }
        w().abort("hang", "a blocking read of the wake-up channel".into());
    }
    let k = have.min(n);
    w().pipes[p] -= k;
    cx().log(|| format!("  read fd {fd}: {k} of {have} bytes"));
    k as isize
}

pub unsafe fn write(fd: i32, _buf: *const c_void, n: usize) -> isize {
    w().yield_point();
    let f = w().fds.get(&fd).cloned().unwrap_or_default();
    let Some(p) = f.pipe else { return fail(EBADF) as isize };
    w().pipes[p] += n;
    cx().log(|| format!("  write fd {fd}: now {} bytes", w().pipes[p]));
    n as isize
}

pub unsafe fn flock(fd: i32, op: i32) -> i32 {
    w().yield_point();
    match crate::hooks::native_op("flock", fd as i64, op as i64) {
        Ok(v) => v as i32,
        Err(e) => fail(e),
    }
}

pub unsafe fn open(path: *const c_char, flags: i32, mode: c_uint) -> i32 {
    w().yield_point();
    let s = unsafe { std::ffi::CStr::from_ptr(path) }.to_str().unwrap_or("?");
    let n: i64 = s.trim_start_matches("/fifo/").parse().unwrap_or(-1);
    match crate::hooks::native_op("open", n, flags as i64 | (mode as i64) << 32) {
        Ok(v) => v as i32,
        Err(e) => fail(e),
    }
}

fn revents(fd: i32, ev: i16) -> i16 {
    let Some(f) = w().fds.get(&fd) else { return POLLNVAL };
    let r = match f.pipe {
        Some(p) if f.write_end => {
            let _ = p;
            POLLOUT
        }
        Some(p) => {
            if w().pipes[p] > 0 {
                POLLIN
            } else {
                0
            }
        }
        None => f.ready,
    };
    r & (ev | POLLERR | POLLHUP | POLLNVAL)
}

pub unsafe fn poll(fds: *mut pollfd, n: nfds_t, timeout: i32) -> i32 {
    w().yield_point();
    w().now += 2 * US;
    let v = unsafe { std::slice::from_raw_parts_mut(fds, n as usize) };
    if w().poll_err > 0 && cx().chance(w().poll_err, 256) {
        cx().fault("poll_enomem");
        w().poll_fails += 1;
        return fail(ENOMEM);
    }
    w().fire_now();
    let ready = |v: &mut [pollfd]| {
        let mut c = 0;
        for p in v.iter_mut() {
            p.revents = if p.fd < 0 { 0 } else { revents(p.fd, p.events) };
            if p.revents != 0 {
                c += 1;
            }
        }
        c
    };
    let c = ready(v);
    if c > 0 || timeout == 0 {
        return c;
    }
    let deadline = if timeout < 0 { None } else { Some(w().now + timeout as u64 * 1_000_000) };
    if w().eintr > 0 && cx().chance(w().eintr, 256) {
        cx().fault("poll_eintr");
        return fail(EINTR);
    }
    w().intr = false;
    w().in_wait = true;
    let p = v as *mut [pollfd];
    let r = w().block(
        &mut || {
            let v = unsafe { &*p };
            v.iter().any(|x| x.fd >= 0 && revents(x.fd, x.events) != 0)
        },
        deadline,
    );
    w().in_wait = false;
    if r {
        return ready(v);
    }
    if std::mem::take(&mut w().intr) {
        cx().fault("poll_eintr");
        return fail(EINTR);
    }
    0
}

pub unsafe fn nanosleep(ts: *const timespec, _rem: *mut timespec) -> i32 {
    w().yield_point();
    w().now += 200;
    let t = unsafe { &*ts };
    if t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1_000_000_000 {
        return fail(EINVAL);
    }
    let d = (t.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64);
    let deadline = w().now.saturating_add(d);
    let mut end = deadline;
    let mut early = false;
    if w().eintr > 0 && cx().chance(w().eintr, 256) {
        // a signal nobody here knows about interrupts it half way
        end = w().now + (d / 2).min(1_000_000_000);
        early = true;
    }
    w().intr = false;
    w().in_wait = true;
    w().block(&mut || false, Some(end));
    w().in_wait = false;
    if std::mem::take(&mut w().intr) || (early && w().now < deadline) {
        cx().fault("sleep_eintr");
        return fail(EINTR);
    }
    0
}

//! The two system calls that wait, and the names around them.
pub use libc::*;
use crate::world::w;

pub fn set_errno(e: i32) -> i32 {
    unsafe { *::libc::__errno_location() = e };
    -1
}
pub unsafe fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let p = unsafe { std::slice::from_raw_parts_mut(p, n as usize) };
    let limit = (timeout >= 0).then(|| w().now.saturating_add(timeout as u64 * 1_000_000));
    let r = w().kernel_wait(limit, |w| {
        let mut n = 0;
        for f in p.iter_mut() {
            f.revents = if f.fd < 0 { 0 } else { w.ready(f.fd, f.events) };
            n += (f.revents != 0) as i32;
        }
        Ok(n)
    });
    match r {
        Ok(n) => n,
        Err(e) => set_errno(e),
    }
}
/// Bits of a set that may be longer than `fd_set`.
unsafe fn bits(p: *mut fd_set, n: i32) -> Vec<i32> {
    if p.is_null() {
        return vec![];
    }
    let p = p as *const u64;
    (0..n).filter(|i| unsafe { *p.add(*i as usize / 64) } >> (i % 64) & 1 != 0).collect()
}
pub unsafe fn select(n: c_int, r: *mut fd_set, wr: *mut fd_set, e: *mut fd_set, tv: *mut timeval) -> c_int {
    let sets = unsafe { [bits(r, n), bits(wr, n), bits(e, n)] };
    let start = w().now;
    let limit = if tv.is_null() {
        None
    } else {
        let t = unsafe { &*tv };
        if t.tv_sec < 0 || t.tv_usec < 0 {
            return set_errno(EINVAL);
        }
        Some(start.saturating_add((t.tv_sec as u64).saturating_mul(1_000_000_000)).saturating_add(t.tv_usec as u64 * 1000))
    };
    const WANT: [i16; 3] = [POLLIN | POLLHUP | POLLERR, POLLOUT | POLLERR, POLLPRI];
    let mut out: [Vec<i32>; 3] = Default::default();
    let res = w().kernel_wait(limit, |w| {
        let mut n = 0;
        for k in 0..3 {
            out[k].clear();
            for &fd in &sets[k] {
                let r = w.ready(fd, WANT[k]);
                if r & POLLNVAL != 0 {
                    return Err(EBADF);
                }
                if r & WANT[k] != 0 {
                    out[k].push(fd);
                    n += 1;
                }
            }
        }
        Ok(n)
    });
    if let Some(l) = limit {
        let left = l.saturating_sub(w().now);
        unsafe {
            (*tv).tv_sec = (left / 1_000_000_000) as i64;
            (*tv).tv_usec = (left % 1_000_000_000 / 1000) as i64;
        }
    }
    match res {
        Ok(cnt) => {
            for (p, o) in [(r, &out[0]), (wr, &out[1]), (e, &out[2])] {
                if p.is_null() {
                    continue;
                }
                let p = p as *mut u64;
                for i in 0..(n as usize).div_ceil(64) {
                    unsafe { *p.add(i) = 0 };
                }
                for &fd in o {
                    unsafe { *p.add(fd as usize / 64) |= 1 << (fd % 64) };
                }
            }
            cnt
        }
        Err(e) => set_errno(e),
    }
}

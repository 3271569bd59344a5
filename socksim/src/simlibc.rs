//! What the module under test sees as `libc`. Only what is listed here
//! exists, so that no call can reach the real system.
#![allow(non_camel_case_types, non_upper_case_globals)]
use crate::kern::{k, set_errno};
pub use ::libc::{
    AF_INET, AF_INET6, AF_UNIX, AF_UNSPEC, EACCES, EADDRINUSE, EADDRNOTAVAIL, EAGAIN, EALREADY, EBADF, ECONNABORTED, ECONNREFUSED, ECONNRESET, EDESTADDRREQ, EINPROGRESS, EINTR, EINVAL, EIO,
    EISCONN, EMFILE, EMSGSIZE, ENFILE, ENOBUFS, ENOENT, ENOMEM, ENOTCONN, EPIPE, ETIMEDOUT, EWOULDBLOCK, F_DUPFD_CLOEXEC, F_GETFD, F_GETFL, F_SETFD, F_SETFL, FD_CLOEXEC, INADDR_ANY, INADDR_BROADCAST,
    INADDR_LOOPBACK, IPPROTO_IP, IPPROTO_IPV6, IPPROTO_TCP, IPPROTO_UDP, IPV6_V6ONLY, MSG_DONTWAIT, MSG_NOSIGNAL, MSG_OOB, MSG_PEEK, MSG_TRUNC, MSG_WAITALL, O_NONBLOCK, PF_INET, PF_INET6, PF_UNIX,
    PF_UNSPEC, POLLERR, POLLHUP, POLLIN, POLLNVAL, POLLOUT, SHUT_RD, SHUT_RDWR, SHUT_WR, SO_BROADCAST, SO_ERROR, SO_KEEPALIVE, SO_LINGER, SO_OOBINLINE, SO_RCVBUF, SO_REUSEADDR, SO_REUSEPORT,
    SO_SNDBUF, SO_TYPE, SOCK_CLOEXEC, SOCK_DGRAM, SOCK_NONBLOCK, SOCK_RAW, SOCK_SEQPACKET, SOCK_STREAM, SOL_SOCKET, SOMAXCONN, TCP_NODELAY, addrinfo, c_char, c_int, c_short, c_uint, c_ulong,
    c_void, in_addr, iovec, msghdr, nfds_t, pollfd, sa_family_t, size_t, sockaddr, sockaddr_in, sockaddr_storage, sockaddr_un, socklen_t, ssize_t,
};

unsafe fn addr(p: *const sockaddr, n: socklen_t) -> Vec<u8> {
    if p.is_null() { vec![] } else { unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec() }
}
unsafe fn put(a: &[u8], p: *mut sockaddr, n: *mut socklen_t) {
    if p.is_null() {
        return;
    }
    unsafe {
        let m = a.len().min(*n as usize);
        std::ptr::copy_nonoverlapping(a.as_ptr(), p as *mut u8, m);
        *n = a.len() as socklen_t;
    }
}

pub unsafe fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    k().socket(d, t, p)
}
pub unsafe fn socketpair(d: c_int, t: c_int, p: c_int, fds: *mut c_int) -> c_int {
    match k().socketpair(d, t, p) {
        Ok((a, b)) => unsafe {
            *fds = a;
            *fds.add(1) = b;
            0
        },
        Err(e) => set_errno(e),
    }
}
pub unsafe fn bind(fd: c_int, p: *const sockaddr, n: socklen_t) -> c_int {
    k().bind(fd, unsafe { addr(p, n) })
}
pub unsafe fn listen(fd: c_int, n: c_int) -> c_int {
    k().listen(fd, n)
}
pub unsafe fn accept(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    unsafe { accept4(fd, p, n, 0) }
}
pub unsafe fn accept4(fd: c_int, p: *mut sockaddr, n: *mut socklen_t, flags: c_int) -> c_int {
    match k().accept(fd, flags) {
        Ok((fd, a)) => {
            unsafe { put(&a, p, n) };
            fd
        }
        Err(e) => set_errno(e),
    }
}
pub unsafe fn connect(fd: c_int, p: *const sockaddr, n: socklen_t) -> c_int {
    k().connect(fd, unsafe { addr(p, n) })
}
pub unsafe fn getsockname(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    match k().name(fd, false) {
        Ok(a) => {
            unsafe { put(&a, p, n) };
            0
        }
        Err(e) => set_errno(e),
    }
}
pub unsafe fn getpeername(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    match k().name(fd, true) {
        Ok(a) => {
            unsafe { put(&a, p, n) };
            0
        }
        Err(e) => set_errno(e),
    }
}
pub unsafe fn getsockopt(fd: c_int, level: c_int, opt: c_int, p: *mut c_void, n: *mut socklen_t) -> c_int {
    match k().getsockopt(fd, level, opt) {
        Ok(v) => unsafe {
            if (*n as usize) < 4 {
                return set_errno(EINVAL);
            }
            (p as *mut i32).write_unaligned(v);
            *n = 4;
            0
        },
        Err(e) => set_errno(e),
    }
}
pub unsafe fn setsockopt(fd: c_int, level: c_int, opt: c_int, p: *const c_void, n: socklen_t) -> c_int {
    k().setsockopt(fd, level, opt, unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) })
}
pub unsafe fn shutdown(fd: c_int, how: c_int) -> c_int {
    k().shutdown(fd, how)
}
pub unsafe fn close(fd: c_int) -> c_int {
    k().close(fd, false)
}
pub unsafe fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, p: *mut sockaddr, n: *mut socklen_t) -> ssize_t {
    match k().recv(fd, len, flags) {
        Ok((d, a, full)) => unsafe {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            put(&a, p, n);
            if flags & MSG_TRUNC != 0 { full as ssize_t } else { d.len() as ssize_t }
        },
        Err(e) => set_errno(e) as ssize_t,
    }
}
pub unsafe fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    unsafe { recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut()) }
}
pub unsafe fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    unsafe {
        let m = &mut *m;
        let len = (0..m.msg_iovlen as usize).map(|i| (*m.msg_iov.add(i)).iov_len).sum();
        match k().recv(fd, len, flags) {
            Ok((d, a, full)) => {
                let mut rest = &d[..];
                for i in 0..m.msg_iovlen as usize {
                    let v = &*m.msg_iov.add(i);
                    let n = v.iov_len.min(rest.len());
                    std::ptr::copy_nonoverlapping(rest.as_ptr(), v.iov_base as *mut u8, n);
                    rest = &rest[n..];
                }
                put(&a, m.msg_name as *mut sockaddr, &mut m.msg_namelen);
                m.msg_flags = if full > d.len() { MSG_TRUNC } else { 0 };
                d.len() as ssize_t
            }
            Err(e) => set_errno(e) as ssize_t,
        }
    }
}
pub unsafe fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    k().send(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, len) }, flags, None)
}
pub unsafe fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, p: *const sockaddr, n: socklen_t) -> ssize_t {
    let to = unsafe { addr(p, n) };
    k().send(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, len) }, flags, if to.is_empty() { None } else { Some(to) })
}
pub unsafe fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    unsafe {
        let m = &*m;
        let mut d = vec![];
        for i in 0..m.msg_iovlen as usize {
            let v = &*m.msg_iov.add(i);
            d.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        let to = addr(m.msg_name as *const sockaddr, m.msg_namelen);
        k().send(fd, &d, flags, if to.is_empty() { None } else { Some(to) })
    }
}
pub unsafe fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    k().poll(unsafe { std::slice::from_raw_parts_mut(p, n as usize) }, timeout)
}
pub unsafe extern "C-unwind" fn fcntl(fd: c_int, cmd: c_int, mut args: ...) -> c_int {
    let arg = if cmd == F_GETFD || cmd == F_GETFL { 0 } else { unsafe { args.next_arg::<c_int>() } };
    k().fcntl(fd, cmd, arg)
}
pub unsafe fn getaddrinfo(host: *const c_char, _: *const c_char, _: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    let h = unsafe { std::ffi::CStr::from_ptr(host) }.to_str().unwrap();
    match k().resolve(h) {
        Ok(list) => {
            unsafe {
                *res = std::ptr::null_mut();
                for a in list.into_iter().rev() {
                    let mut ai: Box<addrinfo> = Box::new(std::mem::zeroed());
                    match a {
                        Some(a) => {
                            let mut s: Box<sockaddr_in> = Box::new(std::mem::zeroed());
                            s.sin_family = AF_INET as sa_family_t;
                            s.sin_addr.s_addr = a;
                            ai.ai_family = AF_INET;
                            ai.ai_addr = Box::into_raw(s) as *mut sockaddr;
                        }
                        None => ai.ai_family = AF_INET6,
                    }
                    ai.ai_next = *res;
                    *res = Box::into_raw(ai);
                }
                k().lists.push(*res as usize);
            }
            0
        }
        Err(e) => e,
    }
}
pub unsafe fn freeaddrinfo(p: *mut addrinfo) {
    let Some(i) = k().lists.iter().position(|l| *l == p as usize) else {
        crate::world::w().abort("leak", "an address list was freed twice".into());
    };
    k().lists.remove(i);
    let mut p = p;
    while !p.is_null() {
        let ai = unsafe { Box::from_raw(p) };
        if !ai.ai_addr.is_null() {
            drop(unsafe { Box::from_raw(ai.ai_addr as *mut sockaddr_in) });
        }
        p = ai.ai_next;
    }
}
pub unsafe fn gai_strerror(_: c_int) -> *const c_char {
    c"Name or service not known".as_ptr()
}

//! What the module under test sees as `libc`. Only what is listed here
//! exists, so that no call can reach the real system.
#![allow(non_camel_case_types, non_upper_case_globals)]
use crate::kern::k;
pub use ::libc::{
    c_char, c_int, c_long, c_uint, c_void, mode_t, pid_t, sighandler_t, size_t, ssize_t, E2BIG, EACCES, EAGAIN, EBADF, ECHILD, EINTR, EINVAL, EIO, EISDIR, EMFILE, ENFILE, ENOENT, ENOEXEC,
    ENOMEM, ENOTDIR, EPERM, ESRCH, ETXTBSY, FD_CLOEXEC, F_DUPFD, F_DUPFD_CLOEXEC, F_GETFD, F_SETFD, O_APPEND, O_CLOEXEC, O_CREAT, O_EXCL, O_RDONLY, O_RDWR, O_TRUNC, O_WRONLY, SIGCHLD, SIGHUP, SIGINT, SIGKILL,
    SIGPIPE, SIGQUIT, SIGSTOP, SIGTERM, SIG_DFL, SIG_IGN, WNOHANG, _SC_OPEN_MAX,
};

unsafe fn cstr(p: *const c_char) -> String {
    unsafe { std::ffi::CStr::from_ptr(p) }.to_str().unwrap().to_string()
}
unsafe fn list(p: *const *const c_char) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    unsafe {
        while !(*p.add(i)).is_null() {
            v.push(cstr(*p.add(i)));
            i += 1;
        }
    }
    v
}

pub unsafe fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    match k().pipe(flags & O_CLOEXEC != 0) {
        Ok((a, b)) => unsafe {
            *fds = a;
            *fds.add(1) = b;
            0
        },
        Err(r) => r,
    }
}
pub unsafe fn pipe(fds: *mut c_int) -> c_int {
    unsafe { pipe2(fds, 0) }
}
pub unsafe fn fork() -> pid_t {
    k().fork()
}
pub unsafe fn close(fd: c_int) -> c_int {
    k().close(fd)
}
pub unsafe fn close_range(a: c_uint, b: c_uint, _: c_int) -> c_int {
    let v: Vec<i32> = k().me.fds.keys().copied().filter(|f| (*f as u32) >= a && (*f as u32) <= b).collect();
    for f in v {
        k().close(f);
    }
    0
}
pub unsafe fn dup(fd: c_int) -> c_int {
    k().dupfd(fd, 0, false)
}
pub unsafe fn dup2(a: c_int, b: c_int) -> c_int {
    k().dup2(a, b, false)
}
pub unsafe fn dup3(a: c_int, b: c_int, flags: c_int) -> c_int {
    if a == b {
        return crate::kern::set_errno(EINVAL);
    }
    k().dup2(a, b, flags & O_CLOEXEC != 0)
}
pub unsafe extern "C-unwind" fn fcntl(fd: c_int, cmd: c_int, mut args: ...) -> c_int {
    let arg = if cmd == F_GETFD { 0 } else { unsafe { args.next_arg::<c_int>() } };
    match cmd {
        F_GETFD => match k().me.fds.get(&fd) {
            Some(f) => f.cloexec as i32,
            None => crate::kern::set_errno(EBADF),
        },
        F_SETFD => match k().me.fds.get_mut(&fd) {
            Some(f) => {
                f.cloexec = arg & FD_CLOEXEC != 0;
                0
            }
            None => crate::kern::set_errno(EBADF),
        },
        F_DUPFD => k().dupfd(fd, arg, false),
        F_DUPFD_CLOEXEC => k().dupfd(fd, arg, true),
        _ => crate::kern::set_errno(EINVAL),
    }
}
pub unsafe fn open(path: *const c_char, flags: c_int, perm: c_uint) -> c_int {
    k().open(unsafe { cstr(path) }, flags, perm)
}
pub unsafe fn chdir(path: *const c_char) -> c_int {
    k().chdir(unsafe { cstr(path) })
}
pub unsafe fn setpgid(pid: pid_t, pg: pid_t) -> c_int {
    k().setpgid(pid, pg)
}
pub unsafe fn umask(m: mode_t) -> mode_t {
    std::mem::replace(&mut k().me.umask, m)
}
pub unsafe fn signal(sig: c_int, h: sighandler_t) -> sighandler_t {
    let c = &mut k().me.caught;
    c.retain(|s| *s != sig);
    if h != SIG_DFL {
        c.push(sig);
    }
    SIG_DFL
}
pub unsafe fn sysconf(_: c_int) -> c_long {
    k().limit as c_long
}
pub unsafe fn getpid() -> pid_t {
    k().me.pid
}
pub unsafe fn execve(path: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe { k().execve(cstr(path), list(argv), list(envp)) }
}
pub unsafe fn _exit(code: c_int) -> ! {
    k().exit(code)
}
pub unsafe fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    k().read(fd, unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) })
}
pub unsafe fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    k().write(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, n) })
}
pub unsafe fn waitpid(pid: pid_t, raw: *mut c_int, flags: c_int) -> pid_t {
    k().waitpid(pid, unsafe { &mut *raw }, flags)
}

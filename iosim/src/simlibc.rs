//! What the stream modules see as `libc`.
#![allow(non_camel_case_types)]
use crate::kern::k;
pub use ::libc::{c_void, EAGAIN, EINTR, EINVAL, EIO, EBADF, EPIPE, ESPIPE, EWOULDBLOCK, FD_CLOEXEC, F_GETFD, F_GETFL, F_SETFD, F_SETFL, O_NONBLOCK, POLLIN, POLLOUT};

fn set_errno(e: std::io::Error) -> isize {
    unsafe { *libc::__errno_location() = e.raw_os_error().unwrap_or(libc::EIO) };
    -1
}

pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, mut args: ...) -> i32 {
    let arg = if matches!(cmd, F_SETFL | F_SETFD) { unsafe { args.next_arg::<i32>() } } else { 0 };
    unsafe { fcntl2(fd, cmd, arg) }
}

unsafe fn fcntl2(fd: i32, cmd: i32, arg: i32) -> i32 {
    let Some(o) = k().fds.get_mut(&fd) else {
        set_errno(crate::kern::errno(libc::EBADF));
        return -1;
    };
    match cmd {
        F_GETFL => {
            if o.nonblock {
                O_NONBLOCK
            } else {
                0
            }
        }
        F_SETFL => {
            o.nonblock = arg & O_NONBLOCK != 0;
            0
        }
        F_GETFD => {
            if o.cloexec {
                FD_CLOEXEC
            } else {
                0
            }
        }
        F_SETFD => {
            o.cloexec = arg & FD_CLOEXEC != 0;
            0
        }
        _ => -1,
    }
}

pub unsafe fn read(fd: i32, buf: *mut c_void, n: usize) -> isize {
    match k().read(fd, unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) }) {
        Ok(n) => n as isize,
        Err(e) => set_errno(e),
    }
}
pub unsafe fn write(fd: i32, buf: *const c_void, n: usize) -> isize {
    match k().write(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, n) }) {
        Ok(n) => n as isize,
        Err(e) => set_errno(e),
    }
}
pub unsafe fn fsync(_: i32) -> i32 {
    0
}
pub unsafe fn fdatasync(_: i32) -> i32 {
    0
}

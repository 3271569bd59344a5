//! What the stream modules see as `std`: everything real except files,
//! processes, terminals and lazily initialised statics.
pub use ::std::*;

pub mod io {
    pub use ::std::io::*;
    pub trait IsTerminal {
        fn is_terminal(&self) -> bool;
    }
}

pub mod sync {
    pub use ::std::sync::*;
    /// Re-initialised for every simulated run.
    pub struct LazyLock<T> {
        f: fn() -> T,
        v: ::std::cell::UnsafeCell<Option<(u64, Box<T>)>>,
    }
    unsafe impl<T> Sync for LazyLock<T> {}
    impl<T> LazyLock<T> {
        pub const fn new(f: fn() -> T) -> Self {
            LazyLock { f, v: ::std::cell::UnsafeCell::new(None) }
        }
    }
    impl<T> ::std::ops::Deref for LazyLock<T> {
        type Target = T;
        fn deref(&self) -> &T {
            let e = crate::kern::k().epoch;
            let v = unsafe { &mut *self.v.get() };
            if !matches!(v, Some((x, _)) if *x == e) {
                *v = Some((e, Box::new((self.f)())));
            }
            &v.as_ref().unwrap().1
        }
    }
}

pub mod fs {
    use crate::kern::k;
    use ::std::io::*;
    use ::std::os::fd::*;
    #[derive(Debug)]
    pub struct File(i32);
    impl Drop for File {
        fn drop(&mut self) {
            k().close(self.0);
        }
    }
    impl FromRawFd for File {
        unsafe fn from_raw_fd(fd: RawFd) -> Self {
            File(fd)
        }
    }
    impl AsRawFd for File {
        fn as_raw_fd(&self) -> RawFd {
            self.0
        }
    }
    impl IntoRawFd for File {
        fn into_raw_fd(self) -> RawFd {
            let fd = self.0;
            ::std::mem::forget(self);
            fd
        }
    }
    impl Read for File {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            k().read(self.0, buf)
        }
    }
    impl Read for &File {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            k().read(self.0, buf)
        }
    }
    impl Write for File {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            k().write(self.0, buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Write for &File {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            k().write(self.0, buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, s: SeekFrom) -> Result<u64> {
            k().seek(self.0, s)
        }
    }
    impl Seek for &File {
        fn seek(&mut self, s: SeekFrom) -> Result<u64> {
            k().seek(self.0, s)
        }
    }
    impl super::io::IsTerminal for File {
        fn is_terminal(&self) -> bool {
            k().fds.get(&self.0).is_some_and(|o| o.tty)
        }
    }
}

pub mod process {
    use crate::kern::k;
    use ::std::io::*;
    use ::std::os::fd::*;
    #[derive(Debug)]
    pub struct ChildStdin(pub super::fs::File);
    #[derive(Debug)]
    pub struct ChildStdout(pub super::fs::File);
    impl AsRawFd for ChildStdin {
        fn as_raw_fd(&self) -> RawFd {
            self.0.as_raw_fd()
        }
    }
    impl AsRawFd for ChildStdout {
        fn as_raw_fd(&self) -> RawFd {
            self.0.as_raw_fd()
        }
    }
    impl Write for ChildStdin {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            self.0.write(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl Read for ChildStdout {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            self.0.read(buf)
        }
    }
    #[derive(Debug)]
    pub struct Child {
        pub stdin: Option<ChildStdin>,
        pub stdout: Option<ChildStdout>,
        pub waits: u32,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct ExitStatus(pub i32);
    impl Child {
        pub fn id(&self) -> u32 {
            4711
        }
        pub fn wait(&mut self) -> Result<ExitStatus> {
            // a real child ends only when its stdin is closed
            if self.stdin.is_some() {
                k().note("waiting for a child whose stdin is still open");
            }
            self.waits += 1;
            Ok(ExitStatus(0x2a00))
        }
    }
}

pub mod os {
    pub mod fd {
        pub use ::std::os::fd::*;
    }
    pub mod unix {
        pub mod process {
            pub trait ExitStatusExt {
                fn into_raw(self) -> i32;
            }
            impl ExitStatusExt for crate::simstd::process::ExitStatus {
                fn into_raw(self) -> i32 {
                    self.0
                }
            }
        }
    }
}

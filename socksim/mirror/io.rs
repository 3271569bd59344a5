pub(crate) fn wait_fd_single(
    vm: &mut Executor,
    globals: &mut Globals,
    fd: i32,
    events: i16,
) -> Result<()> {
    loop {
        if crate::codegen::signal_table::PENDING_SIGNALS.load(std::sync::atomic::Ordering::Relaxed)
            != 0
            && crate::executor::execute_gc(vm, globals).is_none()
        {
            return Err(vm.take_error());
        }
        let mut pfd = libc::pollfd {
            fd,
            events,
            revents: 0,
        };
        // SAFETY: `poll` accepts a pointer to an array of pollfd; we pass
        // exactly one element with length 1.
        let ret = unsafe { libc::poll(&mut pfd, 1, -1) };
        if ret < 0 {
            let err = std::io::Error::last_os_error();
            if err.raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            return Err(MonorubyErr::ioerr(format!("poll failed: {err}")));
        }
        // Ready (or an error/hangup revent — the retried operation
        // surfaces the real outcome).
        return Ok(());
    }
}

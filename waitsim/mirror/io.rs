pub fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let temp_len = vm.temp_len();
    let res = io_select_inner(vm, globals, lfp);
    vm.temp_clear(temp_len);
    res
}

pub fn io_wait(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
    let self_val = lfp.self_val();
    if self_val.as_io_inner().is_closed() {
        return Err(MonorubyErr::ioerr("closed stream"));
    }
    let args = lfp.arg(0).as_array();

    if args.is_empty() {
        let revents = wait_single_fd_events(vm, globals, self_val, libc::POLLIN as i16, -1)?;
        return if revents == 0 {
            Ok(Value::nil())
        } else {
            Ok(self_val)
        };
    }

    // `wait` supports two shapes:
    //   * traditional: `wait(events, timeout=nil)` with events an Integer mask.
    //   * modern:      `wait(timeout=nil, *modes)` where modes are Symbols.
    // If any argument is a Symbol, use the modern form; otherwise traditional.
    let has_symbol = args.iter().any(|a| a.try_symbol().is_some());

    let mut events: i64 = 0;
    let mut timeout: Option<Value> = None;

    if has_symbol {
        for arg in args.iter().copied() {
            if let Some(sym) = arg.try_symbol() {
                let name = sym.get_name();
                match mode_symbol_to_events(&name) {
                    Some(bits) => events |= bits,
                    None => {
                        return Err(MonorubyErr::argumenterr(format!(
                            "unsupported mode: {name}"
                        )));
                    }
                }
            } else {
                if timeout.is_some() {
                    return Err(MonorubyErr::argumenterr("timeout given more than once"));
                }
                timeout = Some(arg);
            }
        }
    } else {
        if args.len() > 2 {
            return Err(MonorubyErr::argumenterr(format!(
                "wrong number of arguments (given {}, expected 0..2)",
                args.len()
            )));
        }
        events = args[0].coerce_to_int_i64(vm, globals)?;
        if events <= 0 {
            return Err(MonorubyErr::argumenterr(
                "Events must be positive integer!",
            ));
        }
        if args.len() == 2 {
            timeout = Some(args[1]);
        }
    }

    let timeout_ms = parse_wait_timeout(vm, globals, timeout)?;

    let mut poll_events: i16 = 0;
    if events & 1 != 0 {
        poll_events |= libc::POLLIN as i16;
    }
    if events & 2 != 0 {
        poll_events |= libc::POLLPRI as i16;
    }
    if events & 4 != 0 {
        poll_events |= libc::POLLOUT as i16;
    }

    let revents = wait_single_fd_events(vm, globals, self_val, poll_events, timeout_ms)?;

    if has_symbol {
        let ready = (revents & libc::POLLIN as i16) != 0
            || (revents & libc::POLLOUT as i16) != 0
            || (revents & libc::POLLPRI as i16) != 0;
        return if ready {
            Ok(self_val)
        } else {
            Ok(Value::nil())
        };
    }

    let mut mask: i64 = 0;
    if (revents & libc::POLLIN as i16) != 0 {
        mask |= 1;
    }
    if (revents & libc::POLLPRI as i16) != 0 {
        mask |= 2;
    }
    if (revents & libc::POLLOUT as i16) != 0 {
        mask |= 4;
    }
    if mask == 0 {
        return Ok(Value::nil());
    }
    Ok(Value::integer(mask))
}

pub fn io_wait_readable(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let self_val = lfp.self_val();
    let timeout_ms = parse_wait_timeout(vm, globals, lfp.try_arg(0))?;
    let revents = wait_single_fd_events(vm, globals, self_val, libc::POLLIN as i16, timeout_ms)?;
    if revents == 0 {
        return Ok(Value::nil());
    }
    Ok(self_val)
}

pub fn io_wait_writable(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let self_val = lfp.self_val();
    let timeout_ms = parse_wait_timeout(vm, globals, lfp.try_arg(0))?;
    let revents = wait_single_fd_events(vm, globals, self_val, libc::POLLOUT as i16, timeout_ms)?;
    if revents == 0 {
        return Ok(Value::nil());
    }
    Ok(self_val)
}

pub fn io_wait_priority(
    vm: &mut Executor,
    globals: &mut Globals,
    lfp: Lfp,
    _: BytecodePtr,
) -> Result<Value> {
    let self_val = lfp.self_val();
    let timeout_ms = parse_wait_timeout(vm, globals, lfp.try_arg(0))?;
    let revents = wait_single_fd_events(vm, globals, self_val, libc::POLLPRI as i16, timeout_ms)?;
    if revents == 0 {
        return Ok(Value::nil());
    }
    Ok(self_val)
}

pub fn io_select_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result<Value> {
    let read_arg = lfp.arg(0);
    let write_arg = lfp.try_arg(1).unwrap_or(Value::nil());
    let error_arg = lfp.try_arg(2).unwrap_or(Value::nil());
    let timeout_arg = lfp.try_arg(3).unwrap_or(Value::nil());

    // Parse timeout
    let timeout = if timeout_arg.is_nil() {
        None // block forever
    } else {
        let f = timeout_arg.coerce_to_f64(vm, globals)?;
        if f.is_nan() {
            return Err(MonorubyErr::rangeerr("NaN out of Time range"));
        }
        if f < 0.0 {
            return Err(MonorubyErr::argumenterr(
                "time interval must not be negative",
            ));
        }
        let secs = f.floor() as libc::time_t;
        let usecs = ((f - f.floor()) * 1_000_000.0) as libc::suseconds_t;
        Some(libc::timeval {
            tv_sec: secs,
            tv_usec: usecs,
        })
    };

    // Collect IO values and their fds
    let read_ios: Vec<Value> = if read_arg.is_nil() {
        vec![]
    } else {
        let ary = read_arg
            .try_array_ty()
            .ok_or_else(|| MonorubyErr::typeerr("no implicit conversion of Object into Array"))?;
        ary.to_vec()
    };

    let write_ios: Vec<Value> = if write_arg.is_nil() {
        vec![]
    } else {
        let ary = write_arg
            .try_array_ty()
            .ok_or_else(|| MonorubyErr::typeerr("no implicit conversion of Object into Array"))?;
        ary.to_vec()
    };

    let error_ios: Vec<Value> = if error_arg.is_nil() {
        vec![]
    } else {
        let ary = error_arg
            .try_array_ty()
            .ok_or_else(|| MonorubyErr::typeerr("no implicit conversion of Object into Array"))?;
        ary.to_vec()
    };

    // Get fds (non-IO entries convert through #to_io).
    let mut read_objs: Vec<Value> = Vec::with_capacity(read_ios.len());
    let mut read_fds: Vec<i32> = Vec::with_capacity(read_ios.len());
    for v in &read_ios {
        let io = value_to_io(vm, globals, *v)?;
        read_fds.push(io.as_io_inner().wait_fd_for(libc::POLLIN)?);
        read_objs.push(io);
    }
    let mut other_objs: Vec<Value> = vec![];
    let mut write_fds: Vec<i32> = Vec::with_capacity(write_ios.len());
    for v in &write_ios {
        let io = value_to_io(vm, globals, *v)?;
        write_fds.push(io.as_io_inner().wait_fd_for(libc::POLLOUT)?);
        other_objs.push(io);
    }
    let mut error_fds: Vec<i32> = Vec::with_capacity(error_ios.len());
    for v in &error_ios {
        let io = value_to_io(vm, globals, *v)?;
        error_fds.push(io.as_io_inner().wait_fd_for(libc::POLLPRI)?);
        other_objs.push(io);
    }

    // All sets empty, no timeout: with other live threads this parks
    // forever (until killed/woken) with status "sleep", like CRuby; on a
    // lone thread nothing could ever wake us, so return nil immediately.
    if read_ios.is_empty() && write_ios.is_empty() && error_ios.is_empty() {
        if crate::scheduler::has_other_live_threads() {
            let dur = timeout.map(|tv| {
                std::time::Duration::new(
                    tv.tv_sec.max(0) as u64,
                    (tv.tv_usec.clamp(0, 999_999) as u32) * 1000,
                )
            });
            crate::scheduler::sleep(vm, globals, dur)?;
            return Ok(Value::nil());
        }
        if timeout.is_none() {
            return Ok(Value::nil());
        }
    }

    // Green threads: wait on the scheduler's fd poller instead of
    // blocking the whole process in select(2), so other threads keep
    // running while this one waits.
    if crate::scheduler::has_other_live_threads() {
        // An enormous timeout (e.g. select(..., 2**62)) must not
        // overflow Instant arithmetic — treat it as "no deadline".
        let deadline = timeout.and_then(|tv| {
            std::time::Instant::now().checked_add(std::time::Duration::new(
                tv.tv_sec.max(0) as u64,
                (tv.tv_usec.clamp(0, 999_999) as u32) * 1000,
            ))
        });
        // Probe raw fds (the io lists may hold non-IO objects converted
        // through #to_io — the fd lists are the source of truth).
        let probe = |fd: i32, events: i16| -> Result<bool> {
            let mut pfd = libc::pollfd {
                fd,
                events,
                revents: 0,
            };
            // SAFETY: one valid pollfd, length 1, zero timeout.
            let ret = unsafe { libc::poll(&mut pfd, 1, 0) };
            if ret < 0 {
                let err = std::io::Error::last_os_error();
                if err.raw_os_error() == Some(libc::EINTR) {
                    return Ok(false);
                }
                return Err(MonorubyErr::ioerr(format!("poll failed: {err}")));
            }
            Ok(pfd.revents != 0)
        };
        loop {
            let mut ready_read = vec![];
            for (i, &fd) in read_fds.iter().enumerate() {
                if io_read_pending(read_objs[i]) || probe(fd, libc::POLLIN | libc::POLLPRI)? {
                    ready_read.push(read_ios[i]);
                }
            }
            let mut ready_write = vec![];
            for (i, &fd) in write_fds.iter().enumerate() {
                if probe(fd, libc::POLLOUT)? {
                    ready_write.push(write_ios[i]);
                }
            }
            let mut ready_error = vec![];
            for (i, &fd) in error_fds.iter().enumerate() {
                if probe(fd, libc::POLLPRI)? {
                    ready_error.push(error_ios[i]);
                }
            }
            if !ready_read.is_empty() || !ready_write.is_empty() || !ready_error.is_empty() {
                let r = Value::array_from_vec(ready_read);
                let w = Value::array_from_vec(ready_write);
                let e = Value::array_from_vec(ready_error);
                return Ok(Value::array_from_vec(vec![r, w, e]));
            }
            if let Some(dl) = deadline
                && std::time::Instant::now() >= dl
            {
                return Ok(Value::nil());
            }
            let mut fds: Vec<(i32, i16)> = vec![];
            for &fd in &read_fds {
                fds.push((fd, libc::POLLIN | libc::POLLPRI));
            }
            for &fd in &write_fds {
                fds.push((fd, libc::POLLOUT));
            }
            for &fd in &error_fds {
                fds.push((fd, libc::POLLPRI));
            }
            crate::scheduler::wait_fds(vm, globals, &fds, deadline)?;
            // The fd of a stream closed while this thread was parked is
            // gone, or belongs to another stream by now.
            if read_objs.iter().chain(&other_objs).any(|io| io.as_io_inner().is_closed()) {
                return Err(MonorubyErr::ioerr("stream closed in another thread"));
            }
        }
    }

    // Buffered read data makes an IO immediately ready (see
    // `io_read_pending`): report those without entering select(2),
    // adding any other fds that are kernel-ready right now.
    if read_objs.iter().any(|v| io_read_pending(*v)) {
        let poll0 = |fd: i32, events: i16| -> bool {
            let mut pfd = libc::pollfd {
                fd,
                events,
                revents: 0,
            };
            // SAFETY: one valid pollfd, length 1, zero timeout.
            let ret = unsafe { libc::poll(&mut pfd, 1, 0) };
            ret > 0 && pfd.revents != 0
        };
        let mut ready_read = vec![];
        for (i, &fd) in read_fds.iter().enumerate() {
            if io_read_pending(read_objs[i]) || poll0(fd, libc::POLLIN | libc::POLLPRI) {
                ready_read.push(read_ios[i]);
            }
        }
        let mut ready_write = vec![];
        for (i, &fd) in write_fds.iter().enumerate() {
            if poll0(fd, libc::POLLOUT) {
                ready_write.push(write_ios[i]);
            }
        }
        let mut ready_error = vec![];
        for (i, &fd) in error_fds.iter().enumerate() {
            if poll0(fd, libc::POLLPRI) {
                ready_error.push(error_ios[i]);
            }
        }
        return Ok(Value::array_from_vec(vec![
            Value::array_from_vec(ready_read),
            Value::array_from_vec(ready_write),
            Value::array_from_vec(ready_error),
        ]));
    }

    // Find max fd
    let nfds = read_fds
        .iter()
        .chain(write_fds.iter())
        .chain(error_fds.iter())
        .copied()
        .max()
        .map(|m| m + 1)
        .unwrap_or(0);

    // SAFETY: libc fd_set operations are standard POSIX.
    unsafe {
        // As many sets in a row as the largest fd needs: a single `fd_set`
        // ends at FD_SETSIZE.
        let sets = (nfds as usize).div_ceil(libc::FD_SETSIZE).max(1);
        let mut readfds: Vec<libc::fd_set> = vec![std::mem::zeroed(); sets];
        let mut writefds = readfds.clone();
        let mut errorfds = readfds.clone();
        let set_and_bit = |fd: i32| {
            let fd = fd as usize;
            (fd / libc::FD_SETSIZE, (fd % libc::FD_SETSIZE) as i32)
        };

        // On Linux, select(2) updates the timeval to the time not slept,
        // so re-entering after an EINTR (below) continues with the
        // remaining timeout rather than starting over.
        let mut tv_storage = timeout.unwrap_or(libc::timeval {
            tv_sec: 0,
            tv_usec: 0,
        });

        let ret = loop {
            // select(2) mutates the fd sets, so rebuild them each attempt.
            readfds.fill(std::mem::zeroed());
            writefds.fill(std::mem::zeroed());
            errorfds.fill(std::mem::zeroed());

            for &fd in &read_fds {
                let (set, bit) = set_and_bit(fd);
                libc::FD_SET(bit, &mut readfds[set]);
            }
            for &fd in &write_fds {
                let (set, bit) = set_and_bit(fd);
                libc::FD_SET(bit, &mut writefds[set]);
            }
            for &fd in &error_fds {
                let (set, bit) = set_and_bit(fd);
                libc::FD_SET(bit, &mut errorfds[set]);
            }

            let timeout_ptr = if timeout.is_some() {
                &mut tv_storage as *mut libc::timeval
            } else {
                std::ptr::null_mut()
            };

            let ret = libc::select(
                nfds,
                if read_fds.is_empty() {
                    std::ptr::null_mut()
                } else {
                    readfds.as_mut_ptr()
                },
                if write_fds.is_empty() {
                    std::ptr::null_mut()
                } else {
                    writefds.as_mut_ptr()
                },
                if error_fds.is_empty() {
                    std::ptr::null_mut()
                } else {
                    errorfds.as_mut_ptr()
                },
                timeout_ptr,
            );

            if ret < 0 {
                let err = std::io::Error::last_os_error();
                if err.raw_os_error() == Some(libc::EINTR) {
                    // A signal interrupted the wait: run the VM poll
                    // point (raise the converted SignalException, or run
                    // the trap handler and retry the select), matching
                    // CRuby, which restarts select after processing
                    // interrupts instead of surfacing Errno::EINTR.
                    if crate::executor::execute_gc(vm, globals).is_none() {
                        return Err(vm.take_error());
                    }
                    continue;
                }
                return Err(MonorubyErr::errno_with_msg(
                    &globals.store,
                    &err,
                    "select(2)",
                ));
            }
            break ret;
        };

        if ret == 0 {
            return Ok(Value::nil());
        }

        // Build result arrays
        let mut ready_read = vec![];
        for (i, &fd) in read_fds.iter().enumerate() {
            let (set, bit) = set_and_bit(fd);
            if libc::FD_ISSET(bit, &readfds[set]) {
                ready_read.push(read_ios[i]);
            }
        }
        let mut ready_write = vec![];
        for (i, &fd) in write_fds.iter().enumerate() {
            let (set, bit) = set_and_bit(fd);
            if libc::FD_ISSET(bit, &writefds[set]) {
                ready_write.push(write_ios[i]);
            }
        }
        let mut ready_error = vec![];
        for (i, &fd) in error_fds.iter().enumerate() {
            let (set, bit) = set_and_bit(fd);
            if libc::FD_ISSET(bit, &errorfds[set]) {
                ready_error.push(error_ios[i]);
            }
        }

        let r = Value::array_from_vec(ready_read);
        let w = Value::array_from_vec(ready_write);
        let e = Value::array_from_vec(ready_error);
        Ok(Value::array_from_vec(vec![r, w, e]))
    }
}

pub fn parse_wait_timeout(
    vm: &mut Executor,
    globals: &mut Globals,
    arg: Option<Value>,
) -> Result<i32> {
    let Some(v) = arg else {
        return Ok(-1);
    };
    if v.is_nil() {
        return Ok(-1);
    }
    let f = v.coerce_to_f64(vm, globals)?;
    if f.is_nan() {
        return Err(MonorubyErr::rangeerr("NaN out of Time range"));
    }
    if f < 0.0 {
        return Err(MonorubyErr::argumenterr(
            "time interval must not be negative",
        ));
    }
    let ms = (f * 1000.0).ceil();
    let capped = if ms > i32::MAX as f64 {
        i32::MAX
    } else {
        ms as i32
    };
    Ok(capped)
}

pub fn wait_single_fd_events(
    vm: &mut Executor,
    globals: &mut Globals,
    self_val: Value,
    events: i16,
    timeout_ms: i32,
) -> Result<i16> {
    // Unread bytes in the buffer can be read without the kernel (see
    // `io_read_pending`).
    if events & libc::POLLIN as i16 != 0 && io_read_pending(self_val) {
        let others = poll_single_fd(self_val, events & !(libc::POLLIN as i16), 0)?;
        return Ok(others | libc::POLLIN as i16);
    }
    let deadline = if timeout_ms >= 0 {
        Some(std::time::Instant::now() + std::time::Duration::from_millis(timeout_ms as u64))
    } else {
        None
    };
    let mut remaining_ms = timeout_ms;
    while !crate::scheduler::has_other_live_threads() {
        let revents = poll_single_fd(self_val, events, remaining_ms)?;
        if revents != 0 {
            return Ok(revents);
        }
        if let Some(dl) = deadline {
            let left = dl.saturating_duration_since(std::time::Instant::now());
            if left.is_zero() {
                return Ok(0);
            }
            remaining_ms = left.as_nanos().div_ceil(1_000_000) as i32;
        }
        // A signal interrupted the wait: run its handler (or raise), then
        // wait for the rest of the time.
        if crate::executor::execute_gc(vm, globals).is_none() {
            return Err(vm.take_error());
        }
    }
    loop {
        // Zero-timeout probe; also raises IOError once the stream is
        // closed (including by another thread while we were parked).
        let revents = poll_single_fd(self_val, events, 0)?;
        if revents != 0 {
            return Ok(revents);
        }
        if let Some(dl) = deadline
            && std::time::Instant::now() >= dl
        {
            return Ok(0);
        }
        let fd = self_val.as_io_inner().wait_fd_for(events)?;
        crate::scheduler::wait_fd(vm, globals, fd, events, deadline)?;
    }
}

pub fn mode_symbol_to_events(name: &str) -> Option<i64> {
    match name {
        "r" | "read" | "readable" => Some(1),
        "w" | "write" | "writable" => Some(4),
        "p" | "priority" => Some(2),
        "rw" | "read_write" | "readable_writable" => Some(1 | 4),
        _ => None,
    }
}

pub fn value_to_io(vm: &mut Executor, globals: &mut Globals, v: Value) -> Result<Value> {
    if let Some(rv) = v.try_rvalue() {
        if rv.ty() == ObjTy::IO {
            return Ok(v);
        }
    }
    // Duck typing: CRuby converts non-IO entries through #to_io.
    let to_io = IdentId::get_id("to_io");
    if globals.check_method(v, to_io).is_some() {
        let io = vm.invoke_method_inner(globals, to_io, v, &[], None, None)?;
        if let Some(rv) = io.try_rvalue()
            && rv.ty() == ObjTy::IO
        {
            // Nobody else may know the converted IO: keep it alive.
            vm.temp_push(io);
            return Ok(io);
        }
    }
    Err(MonorubyErr::typeerr(format!(
        "no implicit conversion of {} into IO",
        globals.get_class_name(v.class())
    )))
}

pub fn io_read_pending(v: Value) -> bool {
    v.ty() == Some(crate::value::rvalue::ObjTy::IO) && v.as_io_inner().has_buffered_data()
}

pub fn poll_single_fd(self_val: Value, events: i16, timeout_ms: i32) -> Result<i16> {
    if self_val.as_io_inner().is_closed() {
        return Err(MonorubyErr::ioerr("closed stream"));
    }
    let fd = self_val.as_io_inner().wait_fd_for(events)?;
    let mut pfd = libc::pollfd {
        fd,
        events,
        revents: 0,
    };
    // SAFETY: `poll` accepts a pointer to an array of pollfd; we pass
    // exactly one element with length 1.
    let ret = unsafe { libc::poll(&mut pfd, 1, timeout_ms) };
    if ret < 0 {
        let err = std::io::Error::last_os_error();
        if err.raw_os_error() == Some(libc::EINTR) {
            return Ok(0);
        }
        return Err(MonorubyErr::ioerr(format!("poll failed: {err}")));
    }
    if (pfd.revents & (libc::POLLNVAL as i16)) != 0 {
        return Err(MonorubyErr::ioerr("closed stream"));
    }
    // A hang-up or an error makes every requested operation possible: it
    // ends at once. (The kernel reports them without POLLIN / POLLOUT.)
    if (pfd.revents & (libc::POLLHUP | libc::POLLERR) as i16) != 0 {
        return Ok(pfd.revents | events);
    }
    Ok(pfd.revents)
}

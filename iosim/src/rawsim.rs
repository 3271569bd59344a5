//! The two buffers on their own, judged strictly.

use crate::kern::*;
use crate::raw::rawbuf::*;
use crate::simstd::fs::File;
use simcore::{ensure, fail, mix64, Ctx, RunResult};
use std::io::{BufRead, Read, Seek, SeekFrom};
use std::os::fd::FromRawFd;

pub fn swarm(ctx: &mut Ctx) -> Faults {
    let mut r = || [0, 3, 8, 30][ctx.draw(4)];
    let mut f = Faults { short: r(), eintr: r(), eintr_sig: r(), sig_between: r(), eagain: r(), hard: 0 };
    f.hard = [0, 0, 0, 12, 40][ctx.draw(5)];
    if ctx.draw(6) == 0 {
        f = Faults::default();
    }
    f
}

pub fn size(ctx: &mut Ctx) -> usize {
    match ctx.draw(8) {
        0 => 1,
        1 => 0,
        2 | 3 => ctx.draw(20),
        4 => ctx.draw(300),
        5 => 8190 + ctx.draw(5),
        6 => 4000 + ctx.draw(6000),
        _ => ctx.draw(20000),
    }
}

/// Bytes that differ from their neighbours and name their position.
pub fn body(from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| (mix64(i as u64) % 251) as u8).collect()
}

pub fn writer(ctx: &mut Ctx) -> RunResult {
    let k = k();
    k.reset(ctx);
    k.f = swarm(ctx);
    let file = ctx.draw(2) == 0;
    let fd = if file {
        k.files.push(vec![]);
        k.open(Kind::File(0))
    } else {
        k.chans.push(Chan { space: 100, ..Chan::default() });
        k.open(Kind::Chan { r: None, w: Some(0) })
    };
    k.fds.get_mut(&fd).unwrap().nonblock = ctx.draw(3) == 2;
    let mut sink = unsafe { File::from_raw_fd(fd) };
    let tty = ctx.draw(4) == 3;
    let mut sync = ctx.draw(3) == 2;
    let mut w = WriteBuf::new(sync, tty);
    let mut acc: Vec<u8> = vec![];
    ctx.log(|| format!("raw writer file={file} tty={tty} sync={sync}"));
    let ops = 1 + ctx.draw(30);
    ctx.set_ops(ops as _);
    let mut done = false;
    loop {
        let last = !ctx.next_op();
        let op = if last { 2 } else { ctx.weighted(&[8, 2, 2]) };
        match op {
            1 => {
                sync = ctx.draw(2) == 0;
                w.set_sync(sync);
                ctx.log(|| format!("sync={sync}"));
            }
            _ => {
                let data = if op == 0 { body(acc.len(), size(ctx)) } else { vec![] };
                let mut progress = 0;
                ctx.log(|| if op == 0 { format!("write {} bytes", data.len()) } else { "flush".to_string() });
                for attempt in 0.. {
                    k.begin(ctx);
                    if attempt > 20 {
                        k.budget = 0;
                        k.f = Faults::default();
                    }
                    let p0 = progress;
                    let poll = || crate::kern::k().poll_signal();
                    let r = if op == 0 { w.write(&mut sink, &data, &mut progress, &poll) } else { w.drain(&mut sink, &poll) };
                    ensure!(progress >= p0 && progress <= data.len(), "wrong-progress", "progress went from {p0} to {progress} of {}", data.len());
                    acc.extend_from_slice(&data[p0..progress]);
                    let out = if file { &k.files[0] } else { &k.chans[0].out };
                    ensure!(out.len() + w.buffered_len() == acc.len(), "bytes-lost", "{} bytes accepted, {} written, {} buffered", acc.len(), out.len(), w.buffered_len());
                    ensure!(acc.starts_with(out), "wrong-bytes", "the descriptor did not receive the accepted bytes in order");
                    if let Some(b) = k.bad.take() {
                        fail!("kernel-misuse", "{b}");
                    }
                    ctx.state(mix64(op as u64 | (w.buffered_len().min(8200) as u64 / 100) << 8 | (r.is_ok() as u64) << 40 | (sync as u64) << 41));
                    match r {
                        Ok(()) => {
                            ensure!(progress == data.len(), "short-write", "a successful write accepted {progress} of {} bytes", data.len());
                            ensure!(op == 0 && !sync && !tty || w.buffered_len() == 0, "not-flushed", "{} bytes stay buffered", w.buffered_len());
                            done = done || !data.is_empty();
                            break;
                        }
                        Err(DrainErr::Signal) => {
                            ensure!(k.pending, "invented-signal", "an interrupt was reported although no signal is pending");
                            ctx.probe("signal reported");
                            ctx.nontrivial();
                            k.pending = false;
                        }
                        Err(DrainErr::WouldBlock) => {
                            ensure!(k.eagains > 0, "invented-wait", "a wait was reported although the descriptor was ready");
                            ctx.probe("would block");
                            ctx.nontrivial();
                            k.drain_peer(0);
                        }
                        Err(DrainErr::Io(_)) => {
                            ensure!(k.hards > 0, "invented-error", "an error was reported although the descriptor had none");
                            ctx.probe("hard error");
                            ctx.nontrivial();
                            if last {
                                continue;
                            }
                            break;
                        }
                    }
                    if !last && ctx.draw(6) == 5 {
                        ctx.log(|| "abandoned".to_string());
                        break;
                    }
                }
            }
        }
        if last {
            break;
        }
    }
    let out = if file { &k.files[0] } else { &k.chans[0].out };
    ensure!(*out == acc, "bytes-lost", "after the last flush the descriptor has {} of {} bytes", out.len(), acc.len());
    ctx.mix(acc.len() as u64);
    if done && ctx.draw(2) == 0 {
        ctx.probe("drained");
    }
    Ok(())
}

pub fn reader(ctx: &mut Ctx) -> RunResult {
    let k = k();
    k.reset(ctx);
    k.f = swarm(ctx);
    let file = ctx.draw(2) == 0;
    let len = match ctx.draw(4) {
        0 => ctx.draw(50),
        1 => ctx.draw(9000),
        2 => 8190 + ctx.draw(5),
        _ => ctx.draw(40000),
    };
    let all = body(0, len);
    let fd = if file {
        k.files.push(all.clone());
        k.open(Kind::File(0))
    } else {
        k.chans.push(Chan { todo: all.iter().copied().collect(), ..Chan::default() });
        k.open(Kind::Chan { r: Some(0), w: None })
    };
    k.fds.get_mut(&fd).unwrap().nonblock = ctx.draw(3) == 2;
    let mut r = IoReader::new(unsafe { File::from_raw_fd(fd) });
    let mut pos = 0usize;
    ctx.log(|| format!("raw reader file={file} {len} bytes"));
    let ops = 1 + ctx.draw(40);
    ctx.set_ops(ops as _);
    while ctx.next_op() {
        k.begin(ctx);
        let held = r.buffer().to_vec();
        let avail = if pos <= len { &all[pos..] } else { &all[len..] };
        ensure!(avail.starts_with(&held), "wrong-buffer", "the {} buffered bytes are not those at position {pos}", held.len());
        let op = ctx.weighted(&[6, 3, 3, if file { 4 } else { 1 }]);
        let mut failed = false;
        match op {
            0 => {
                let n = size(ctx);
                let mut out = vec![0u8; n];
                let x = r.read(&mut out);
                ctx.log(|| format!("read {n} -> {x:?}"));
                match x {
                    Ok(m) => {
                        ensure!(m <= n && avail.starts_with(&out[..m]), "wrong-bytes", "read {m} bytes at {pos} that are not the stream's");
                        ensure!(m > 0 || n == 0 || avail.is_empty(), "false-eof", "end of file reported at {pos} of {len}");
                        pos += m;
                    }
                    Err(_) => failed = true,
                }
            }
            1 => {
                let x = r.fill_buf().map(|b| b.to_vec());
                ctx.log(|| format!("peek -> {:?}", x.as_ref().map(|b| b.len())));
                match x {
                    Ok(b) => {
                        ensure!(avail.starts_with(&b), "wrong-bytes", "peeked {} bytes at {pos} that are not the stream's", b.len());
                        ensure!(!b.is_empty() || avail.is_empty(), "false-eof", "end of file reported at {pos} of {len}");
                        ensure!(held.is_empty() || k.reads == 0, "needless-read", "the kernel was entered although {} bytes were buffered", held.len());
                    }
                    Err(_) => failed = true,
                }
            }
            2 => {
                let n = if held.is_empty() { 0 } else { ctx.draw(held.len() + 1) };
                r.consume(n);
                pos += n;
                ctx.log(|| format!("consume {n}"));
            }
            _ => {
                let s = match ctx.draw(6) {
                    0 => SeekFrom::Current(0),
                    1 => SeekFrom::Start(ctx.draw(len + 10) as u64),
                    2 => SeekFrom::Current(ctx.draw(200) as i64 - 100),
                    3 => SeekFrom::End(-(ctx.draw(len + 2) as i64)),
                    4 => SeekFrom::Current(i64::MIN + ctx.draw(3) as i64),
                    _ => SeekFrom::Current(i64::MAX - ctx.draw(3) as i64),
                };
                let x = r.seek(s);
                ctx.log(|| format!("{s:?} -> {x:?}"));
                let want = match s {
                    SeekFrom::Start(n) => Some(n as i64),
                    SeekFrom::Current(n) => (pos as i64).checked_add(n),
                    SeekFrom::End(n) => (len as i64).checked_add(n),
                };
                match x {
                    Ok(p) => {
                        ensure!(file, "false-seek", "a pipe was repositioned");
                        ensure!(want == Some(p as i64), "wrong-position", "{s:?} from {pos} gave {p}");
                        pos = p as usize;
                        ensure!(r.buffer().is_empty(), "stale-buffer", "{} bytes stay buffered after a seek", r.buffer().len());
                    }
                    Err(e) => {
                        ensure!(
                            !file || want.is_none_or(|w| w < 0) || e.raw_os_error() == Some(libc::EIO),
                            "false-error",
                            "{s:?} from {pos} failed: {e}"
                        );
                    }
                }
            }
        }
        if failed {
            ctx.nontrivial();
            ensure!(r.buffer() == held, "failed-call-changed", "a failed call changed the buffer");
            if k.eagains > 0 {
                k.peer(0, true);
            }
        }
        k.pending = false;
        if file {
            let fp = k.fds[&fd].pos as usize;
            ensure!(fp == pos + r.buffer().len(), "wrong-offset", "descriptor at {fp}, logical position {pos}, {} buffered", r.buffer().len());
        }
        if let Some(b) = k.bad.take() {
            fail!("kernel-misuse", "{b}");
        }
        ctx.state(mix64(op as u64 | (r.buffer().len() as u64 / 64) << 8 | (failed as u64) << 40 | (file as u64) << 41));
        ctx.mix(pos as u64);
    }
    Ok(())
}

//! Whole streams: a file, pipe, socket, terminal, standard descriptor or
//! child process behind the real stream object, driven the way the IO
//! methods drive it, against a model that knows every byte.

use crate::kern::*;
use crate::rawsim::{body, size, swarm};
use crate::simstd::fs::File;
use crate::simstd::process::{Child, ChildStdin, ChildStdout};
use crate::value::rvalue::{fd_is_owned, flush_std_streams, flush_stdout, new_fd, new_file, new_popen, new_socket, new_stderr, new_stdin, new_stdout, write_stdout, IoInner, NonblockGuard, NonblockRead, NonblockWrite};
use crate::{MonorubyErr, Store};
use simcore::{ensure, fail, mix64, Ctx, RunResult, Violation};
use std::os::fd::FromRawFd;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    File,
    Append,
    Tty,
    Pipe,
    Sock,
    Std,
    Err,
    Popen,
}

enum Out<V> {
    Done(V),
    Abandoned,
    Hard { read: bool },
    Closed(String),
}

struct W {
    t: T,
    r: bool,
    w: bool,
    fd: i32,
    wfd: i32,
    green: bool,
    user_nonblock: bool,
    // model
    content: Vec<u8>,
    pos: usize,
    push: Vec<u8>,
    input: Vec<u8>,
    ipos: usize,
    acc: Vec<u8>,
    rc: Option<usize>,
    wc: Option<usize>,
    sync: bool,
    // regular files: what is known to be on disk, and what was accepted since
    base: Vec<u8>,
    base_pos: usize,
    since: Vec<u8>,
    counter: usize,
    wclosed: bool,
    autoclose: bool,
}

/// Lines, paragraphs and characters with a few odd bytes.
fn text(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let style = ctx.draw(5);
    (0..n)
        .map(|i| {
            let h = mix64(i as u64 * 7 + style as u64);
            match style {
                0 => (h % 251) as u8,
                1 => {
                    if h % 9 == 0 {
                        b'\n'
                    } else {
                        b'a' + (i % 26) as u8
                    }
                }
                2 => {
                    if h % 3 == 0 {
                        b'\n'
                    } else {
                        b'a' + (i % 26) as u8
                    }
                }
                3 => "aé漢😀\n".as_bytes()[i % 11],
                _ => {
                    if i % 5000 == 4999 {
                        b'\n'
                    } else {
                        b'0' + (i / 100 % 10) as u8
                    }
                }
            }
        })
        .collect()
}

impl W {
    fn file(&self) -> bool {
        matches!(self.t, T::File | T::Append)
    }
    /// Everything a reader has still to see.
    fn rest(&self) -> Vec<u8> {
        let mut v = self.push.clone();
        if self.file() {
            v.extend_from_slice(self.content.get(self.pos..).unwrap_or(&[]));
        } else {
            v.extend_from_slice(&self.input[self.ipos..]);
        }
        v
    }
    fn take(&mut self, n: usize) {
        let a = n.min(self.push.len());
        self.push.drain(..a);
        if self.file() {
            self.pos += n - a;
        } else {
            self.ipos += n - a;
        }
    }
    fn accept(&mut self, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        self.counter += d.len();
        if self.file() {
            if self.t == T::Append {
                self.pos = self.content.len();
            }
            if self.since.is_empty() {
                self.base_pos = self.pos;
            }
            let e = self.pos + d.len();
            if self.content.len() < e {
                self.content.resize(e, 0);
            }
            self.content[self.pos..e].copy_from_slice(d);
            self.pos = e;
            self.since.extend_from_slice(d);
        } else {
            self.acc.extend_from_slice(d);
        }
    }
    /// What reached the kernel is a prefix of what was accepted; all of it
    /// when `all`.
    fn kernel(&mut self, all: bool) -> RunResult {
        let k = k();
        if self.file() {
            let disk = &k.files[0];
            if all {
                if *disk != self.content {
                    let at = disk.iter().zip(&self.content).take_while(|(a, b)| a == b).count();
                    fail!(
                        "bytes-lost",
                        "the file has {} bytes, {} expected, first difference at {at}",
                        disk.len(),
                        self.content.len()
                    );
                }
                self.base = self.content.clone();
                self.since.clear();
                return Ok(());
            }
            let from = self.base_pos;
            let j = (0..self.since.len())
                .take_while(|i| disk.get(from + i) == Some(&self.since[*i]))
                .count();
            let mut want = self.base.clone();
            if j > 0 {
                if want.len() < from + j {
                    want.resize(from + j, 0);
                }
                want[from..from + j].copy_from_slice(&self.since[..j]);
            }
            ensure!(
                *disk == want,
                "wrong-bytes",
                "the file is not the old content with a prefix of the {} bytes accepted at {from}",
                self.since.len()
            );
            return Ok(());
        }
        let Some(c) = self.wc else { return Ok(()) };
        let out = &k.chans[c].out;
        ensure!(
            self.acc.starts_with(out),
            "wrong-bytes",
            "after {} accepted bytes the peer received {} bytes that are not their prefix",
            self.acc.len(),
            out.len()
        );
        ensure!(
            !all || out.len() == self.acc.len(),
            "bytes-lost",
            "{} of {} accepted bytes reached the peer",
            out.len(),
            self.acc.len()
        );
        Ok(())
    }
    fn through(&self) -> bool {
        self.sync || self.t == T::Tty
    }
    /// One method call: run, and restart after an interrupt.
    fn call<V>(
        &mut self,
        ctx: &mut Ctx,
        io: &mut IoInner,
        abandon: bool,
        mut f: impl FnMut(&mut W, &mut IoInner) -> std::result::Result<V, MonorubyErr>,
    ) -> Result<Out<V>, Violation> {
        let k = k();
        let keep = k.f.clone();
        for n in 0.. {
            k.begin(ctx);
            k.pending = false;
            if n > 12 {
                k.f = Faults { eagain: 0, ..Faults::default() };
            }
            let before: Vec<bool> = [self.fd, self.wfd].iter().map(|fd| k.fds.get(fd).is_some_and(|o| o.nonblock)).collect();
            let guard = if self.green {
                let fd = if ctx.draw(2) == 0 { self.fd } else { self.wfd };
                if fd > 2 && k.fds.contains_key(&fd) { NonblockGuard::set(fd) } else { None }
            } else {
                None
            };
            let res = f(self, io);
            drop(guard);
            if let Some(b) = k.bad.take() {
                k.f = keep;
                fail!("kernel-misuse", "{b}");
            }
            if !self.user_nonblock {
                for (fd, b) in [self.fd, self.wfd].iter().zip(&before) {
                    if let Some(o) = k.fds.get(fd) {
                        ensure!(o.nonblock == *b, "mode-leak", "descriptor {fd} stays non-blocking after the call");
                    }
                }
            }
            let e = match res {
                Ok(v) => {
                    k.f = keep;
                    return Ok(Out::Done(v));
                }
                Err(e) => e,
            };
            ctx.log(|| format!("  -> {e:?}"));
            match e {
                MonorubyErr::Signal => {
                    ensure!(k.pending, "invented-signal", "an interrupt was reported although no signal is pending");
                    ctx.probe("restart after a signal");
                    ctx.nontrivial();
                }
                MonorubyErr::WouldBlock => {
                    ensure!(k.eagains > 0, "invented-wait", "a wait was reported although the descriptor was ready");
                    ctx.probe("restart after a wait");
                    ctx.nontrivial();
                }
                MonorubyErr::Errno(libc::EINTR) | MonorubyErr::Errno(libc::EAGAIN)
                    if k.pending || k.eagains > 0 || k.eintrs > 0 => {}
                MonorubyErr::Other(s) if s == "closed stream" || s.starts_with("not opened") => {
                    k.f = keep;
                    return Ok(Out::Closed(s));
                }
                e => {
                    k.f = keep;
                    ensure!(k.hards > 0, "invented-error", "failed with {e:?} although the descriptor reported nothing");
                    ctx.probe("hard error");
                    ctx.nontrivial();
                    return Ok(Out::Hard { read: k.rhards > 0 });
                }
            }
            // the wait: the peer makes progress
            if let Some(c) = self.rc {
                k.peer(c, true);
            }
            if let Some(c) = self.wc {
                k.drain_peer(c);
            }
            if abandon && n < 12 && ctx.draw(8) == 7 {
                ctx.log(|| "  abandoned".to_string());
                ctx.probe("abandoned");
                k.f = keep;
                return Ok(Out::Abandoned);
            }
        }
        unreachable!()
    }
}

fn missing(b: &[u8]) -> usize {
    let n = b.len();
    for back in 1..=3.min(n) {
        let x = b[n - back];
        if x & 0xc0 == 0x80 {
            continue;
        }
        let want = match x {
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            0xf0..=0xf7 => 4,
            _ => 1,
        };
        return usize::saturating_sub(want, back);
    }
    0
}

/// What a line read returns and how many bytes it uses up.
fn getline(s: &[u8], sep: Option<&[u8]>, limit: Option<usize>, utf8: bool) -> (Option<Vec<u8>>, usize) {
    if limit == Some(0) {
        return (Some(vec![]), 0);
    }
    let mut at = 0;
    if sep == Some(b"") {
        while s.get(at) == Some(&b'\n') {
            at += 1;
        }
    }
    let from = at;
    let mut para = false;
    let mut cut = false;
    loop {
        if limit.is_some_and(|l| at - from >= l) {
            cut = true;
            break;
        }
        if at >= s.len() {
            break;
        }
        at += 1;
        match sep {
            None => {}
            Some(b"") => {
                if s[from..at].ends_with(b"\n\n") {
                    para = true;
                    break;
                }
            }
            Some(x) => {
                if s[from..at].ends_with(x) {
                    break;
                }
            }
        }
    }
    if cut && utf8 {
        for _ in 0..16 {
            if missing(&s[from..at]) == 0 || at >= s.len() {
                break;
            }
            at += 1;
        }
    }
    let line = if at == from { None } else { Some(s[from..at].to_vec()) };
    if para {
        while s.get(at) == Some(&b'\n') {
            at += 1;
        }
    }
    (line, at)
}

fn short(v: &[u8]) -> String {
    format!("{} bytes {:?}", v.len(), String::from_utf8_lossy(&v[..v.len().min(24)]))
}

pub fn run(ctx: &mut Ctx, out: bool) -> RunResult {
    let k = k();
    k.reset(ctx);
    let faults = swarm(ctx);
    let t = if out {
        [T::File, T::Pipe, T::Append, T::Tty, T::Sock, T::Std, T::Err, T::Popen][ctx.draw(8)]
    } else {
        [T::File, T::Pipe, T::Append, T::Sock, T::Std, T::Popen][ctx.draw(6)]
    };
    let len = if out {
        [0, 10, 9000][ctx.draw(3)]
    } else {
        match ctx.draw(5) {
            0 => ctx.draw(60),
            1 => ctx.draw(1000),
            2 => 8180 + ctx.draw(30),
            3 => ctx.draw(20000),
            _ => 16380 + ctx.draw(20),
        }
    };
    let data = text(ctx, len);
    let mut w = W {
        t,
        r: !out,
        w: out,
        fd: -1,
        wfd: -1,
        green: ctx.draw(2) == 1,
        user_nonblock: false,
        content: vec![],
        pos: 0,
        push: vec![],
        input: vec![],
        ipos: 0,
        acc: vec![],
        rc: None,
        wc: None,
        sync: false,
        base: vec![],
        base_pos: 0,
        since: vec![],
        counter: 0,
        wclosed: false,
        autoclose: true,
    };
    let st = Store;
    let mut io = match t {
        T::File | T::Append => {
            w.content = data.clone();
            w.base = data.clone();
            k.files.push(data);
            let fd = k.open(Kind::File(0));
            w.fd = fd;
            w.wfd = fd;
            k.fds.get_mut(&fd).unwrap().append = t == T::Append;
            if !out {
                w.w = ctx.draw(2) == 1;
            }
            if ctx.draw(2) == 0 {
                new_file(unsafe { File::from_raw_fd(fd) }, w.r, w.w)
            } else {
                w.autoclose = ctx.draw(2) == 0;
                new_fd(fd, w.r, w.w, w.autoclose)
            }
        }
        T::Tty | T::Pipe | T::Sock => {
            k.chans.push(Chan { todo: data.iter().copied().collect(), space: 4096, ..Chan::default() });
            let rr = t == T::Sock || !out;
            let ww = t == T::Sock || out;
            let fd = k.open(Kind::Chan { r: rr.then_some(0), w: ww.then_some(0) });
            k.fds.get_mut(&fd).unwrap().tty = t == T::Tty;
            w.fd = fd;
            w.wfd = fd;
            w.input = data;
            w.rc = rr.then_some(0);
            w.wc = ww.then_some(0);
            w.r = rr;
            w.w = ww;
            if t == T::Sock {
                w.sync = true;
                new_socket(unsafe { File::from_raw_fd(fd) })
            } else {
                w.autoclose = ctx.draw(4) != 3;
                new_fd(fd, rr, ww, w.autoclose)
            }
        }
        T::Std | T::Err => {
            k.chans.push(Chan { todo: data.iter().copied().collect(), space: 4096, ..Chan::default() });
            let fd = if !out {
                0
            } else if t == T::Std {
                1
            } else {
                2
            };
            let kind = Kind::Chan { r: (!out).then_some(0), w: out.then_some(0) };
            k.fds.insert(fd, Ofd { kind, pos: 0, append: false, nonblock: false, tty: false, cloexec: false });
            w.fd = fd;
            w.wfd = fd;
            w.input = data;
            if out {
                w.wc = Some(0)
            } else {
                w.rc = Some(0)
            }
            w.sync = t == T::Err;
            if !out {
                new_stdin()
            } else if t == T::Std {
                new_stdout()
            } else {
                new_stderr()
            }
        }
        T::Popen => {
            k.chans.push(Chan { todo: data.iter().copied().collect(), ..Chan::default() });
            k.chans.push(Chan { space: 4096, ..Chan::default() });
            let both = ctx.draw(2) == 0;
            let (rr, ww) = if both { (true, true) } else { (!out, out) };
            let mut child = Child { stdin: None, stdout: None, waits: 0 };
            if rr {
                w.fd = k.open(Kind::Chan { r: Some(0), w: None });
                w.rc = Some(0);
                child.stdout = Some(ChildStdout(unsafe { File::from_raw_fd(w.fd) }));
            }
            if ww {
                w.wfd = k.open(Kind::Chan { r: None, w: Some(1) });
                w.wc = Some(1);
                child.stdin = Some(ChildStdin(unsafe { File::from_raw_fd(w.wfd) }));
            }
            w.r = rr;
            w.w = ww;
            w.input = data;
            w.sync = true;
            new_popen(child)
        }
    };
    if ctx.draw(3) == 2 {
        w.sync = ctx.draw(2) == 0;
        io.set_sync(w.sync);
    }
    let owned = matches!(t, T::File | T::Append | T::Tty | T::Pipe | T::Sock) && w.autoclose;
    ctx.log(|| format!("{t:?} r={} w={} {} bytes sync={} green={} autoclose={}", w.r, w.w, len, w.sync, w.green, w.autoclose));
    let want_writes = out || ctx.draw(2) == 0;
    let ops = 1 + ctx.draw(30);
    ctx.set_ops(ops as _);
    let mut closed = false;
    while ctx.next_op() {
        k.f = faults.clone();
        ensure!(
            w.fd <= 2 || t == T::Popen || fd_is_owned(w.fd) == owned,
            "wrong-owner",
            "descriptor {} is {}recorded as owned",
            w.fd,
            if owned { "not " } else { "" }
        );
        let reads = w.r && (!out || t == T::Popen && ctx.draw(3) == 0);
        let writes = w.w && !w.wclosed && want_writes && !(w.file() && w.r && !w.push.is_empty());
        let rw: u32 = reads as u32;
        let ww = writes as u32 * if out { 4 } else { 1 };
        let fw = w.file() as u32;
        if !reads && !writes && !w.file() {
            continue;
        }
        let op = ctx.weighted(&[
            4 * rw,            // 0 read(n)
            3 * rw,            // 1 gets
            2 * rw,            // 2 readpartial
            2 * rw,            // 3 read_buffered(1) / getc
            rw,                // 4 sysread
            rw,                // 5 read_nonblock
            2 * rw,            // 6 ungetc
            rw,                // 7 read(nil)
            3 * ww,            // 8 write
            ww,                // 9 flush
            writes as u32,     // 10 sync=
            writes as u32,     // 11 write_nonblock
            2 * fw,            // 12 seek
            fw,                // 13 pos
            writes as u32,     // 14 fsync
            (out && t == T::Std) as u32 * 2, // 15 Kernel#print
            (t == T::Popen && writes && ctx.run % 4 == 0) as u32, // 16 close_write
        ]);
        let rest = if op <= 7 { w.rest() } else { vec![] };
        let had = io.has_buffered_data();
        let pushed = io.pushback_len() > 0;
        let mut outcome = 0u64;
        // a call that fails for good may have used up input
        let mut hard_read = false;
        macro_rules! go {
            ($ab:expr, $f:expr) => {
                match w.call(ctx, &mut io, $ab, $f)? {
                    Out::Done(v) => Some(v),
                    Out::Abandoned => {
                        outcome = 1;
                        None
                    }
                    Out::Hard { read } => {
                        outcome = 2;
                        hard_read = read || op <= 7;
                        None
                    }
                    Out::Closed(s) => fail!("wrong-error", "{s} on an open stream"),
                }
            };
        }
        macro_rules! prefix {
            ($v:expr, $n:expr, $what:expr) => {{
                let v: Vec<u8> = $v;
                let n: usize = $n;
                ctx.log(|| format!("  {} of {}", v.len(), rest.len()));
                ensure!(v.len() <= n, "too-many", "{} returned {} of at most {n} bytes", $what, v.len());
                ensure!(rest.starts_with(&v), "wrong-bytes", "{} returned {}, the stream continues with {}", $what, short(&v), short(&rest));
                ensure!(!v.is_empty() || n == 0 || rest.is_empty(), "false-eof", "{} reported the end, {} bytes are left", $what, rest.len());
                w.take(v.len());
            }};
        }
        match op {
            0 | 3 => {
                let n = if op == 3 && ctx.draw(3) > 0 { 1 } else { size(ctx) };
                ctx.log(|| format!("{} {n}", if op == 0 { "read" } else { "getc/read_buffered" }));
                if let Some(v) = go!(true, |_, io| if op == 0 { io.read(Some(n)) } else { io.read_buffered(Some(n)) }) {
                    ctx.log(|| format!("  {} of {}", v.len(), rest.len()));
                    ensure!(
                        v == rest[..n.min(rest.len())],
                        "wrong-bytes",
                        "read({n}) returned {}, the stream continues with {}",
                        short(&v),
                        short(&rest)
                    );
                    w.take(v.len());
                }
            }
            7 => {
                ctx.log(|| "read all".to_string());
                if let Some(v) = go!(true, |_, io| io.read(None)) {
                    ensure!(v == rest, "wrong-bytes", "read returned {}, the stream continues with {}", short(&v), short(&rest));
                    w.take(v.len());
                }
            }
            1 => {
                let seps: [Option<&[u8]>; 6] = [Some(b"\n"), Some(b"\n"), Some(b""), None, Some(b"ab"), Some(b"\n\n")];
                let sep = seps[ctx.draw(6)];
                let limit = match ctx.draw(4) {
                    0 | 1 => None,
                    2 => Some(ctx.draw(12)),
                    _ => Some(size(ctx)),
                };
                let utf8 = ctx.draw(2) == 0;
                // a slurp without a limit is read(nil); keep a few
                ctx.log(|| format!("gets {sep:?} limit {limit:?} utf8={utf8}"));
                // blank lines skipped before a paragraph are gone even if
                // the call is given up, as in the reference implementation
                let ab = sep != Some(b"");
                if let Some(v) = go!(ab, |_, io| io.getline(sep, limit, utf8)) {
                    let (want, used) = getline(&rest, sep, limit, utf8);
                    ensure!(
                        v == want,
                        "wrong-bytes",
                        "gets({sep:?}, {limit:?}) returned {:?}, expected {:?}",
                        v.as_ref().map(|v| short(v)),
                        want.as_ref().map(|v| short(v))
                    );
                    w.take(used);
                }
            }
            2 => {
                let n = size(ctx).max(1);
                ctx.log(|| format!("readpartial {n}"));
                if let Some(v) = go!(true, |_, io| io.readpartial(n)) {
                    ensure!(!had || k.reads == 0, "needless-read", "readpartial entered the kernel although data was buffered");
                    prefix!(v, n, "readpartial");
                }
            }
            4 => {
                let n = size(ctx).max(1);
                ctx.log(|| format!("sysread {n}"));
                if let Some(v) = go!(true, |_, io| io.sysread(n)) {
                    prefix!(v, n, "sysread");
                }
            }
            5 => {
                let n = size(ctx).max(1);
                ctx.log(|| format!("read_nonblock {n}"));
                w.user_nonblock = true;
                match go!(true, |_, io| io.read_nonblock(n, &st)) {
                    Some(NonblockRead::Data(v)) => {
                        ensure!(!v.is_empty(), "empty-read", "read_nonblock returned nothing");
                        prefix!(v, n, "read_nonblock");
                    }
                    Some(NonblockRead::WouldBlock) => {
                        ctx.log(|| "  would block".to_string());
                        ensure!(k.eagains > 0 && !pushed, "invented-wait", "read_nonblock would block although data was available");
                        outcome = 3;
                        k.peer(w.rc.unwrap(), false);
                    }
                    Some(NonblockRead::Eof) => {
                        ctx.log(|| "  eof".to_string());
                        ensure!(rest.is_empty(), "false-eof", "read_nonblock reported the end, {} bytes are left", rest.len());
                    }
                    None => {}
                }
            }
            6 => {
                let mut b = if !rest.is_empty() && ctx.draw(2) == 0 { vec![rest[0]] } else { vec![] };
                let extra = ctx.draw(5);
                b.extend((0..extra).map(|_| [b'\n', b'X', 0xe6, b'a', b'b'][ctx.draw(5)]));
                ctx.log(|| format!("unget {b:?}"));
                if let Err(e) = io.unget(&b) {
                    fail!("wrong-error", "unget failed: {e:?}");
                }
                w.push.splice(0..0, b.iter().copied());
            }
            8 => {
                let d = body(w.counter, size(ctx));
                ctx.log(|| format!("write {}", d.len()));
                // reads moved the position: everything before is on disk
                if w.file() && !w.since.is_empty() && w.t == T::File && w.pos != w.base_pos + w.since.len() {
                    w.kernel(true)?;
                }
                let mut progress = 0;
                let r = go!(true, |w, io| {
                    let p = progress;
                    let r = io.write(&d, &mut progress, &Store);
                    w.accept(&d[p..progress.max(p).min(d.len())]);
                    r
                });
                ensure!(progress <= d.len(), "wrong-progress", "{progress} of {} bytes reported", d.len());
                ensure!(r.is_none() || progress == d.len(), "short-write", "a successful write accepted {progress} of {}", d.len());
                w.kernel(r.is_some() && w.through())?;
            }
            9 => {
                ctx.log(|| "flush".to_string());
                let r = go!(true, |_, io| io.flush(&Store));
                w.kernel(r.is_some())?;
            }
            10 => {
                w.sync = ctx.draw(2) == 0;
                ctx.log(|| format!("sync={}", w.sync));
                io.set_sync(w.sync);
                ensure!(io.sync() == w.sync, "wrong-mode", "sync reads back {}", io.sync());
            }
            11 => {
                let d = body(w.counter, size(ctx));
                ctx.log(|| format!("write_nonblock {}", d.len()));
                w.user_nonblock = true;
                if w.file() && !w.since.is_empty() && w.t == T::File && w.pos != w.base_pos + w.since.len() {
                    w.kernel(true)?;
                }
                match go!(true, |_, io| io.write_nonblock(&d, &st)) {
                    Some(NonblockWrite::Written(n)) => {
                        ctx.log(|| format!("  wrote {n}"));
                        ensure!(n <= d.len(), "wrong-progress", "{n} of {} bytes reported", d.len());
                        w.accept(&d[..n]);
                        w.kernel(true)?;
                    }
                    Some(NonblockWrite::WouldBlock) => {
                        ctx.log(|| "  would block".to_string());
                        ensure!(k.eagains > 0 || k.pending, "invented-wait", "write_nonblock would block although there was space");
                        w.kernel(false)?;
                        outcome = 3;
                        if let Some(c) = w.wc {
                            k.drain_peer(c);
                        }
                    }
                    None => w.kernel(false)?,
                }
            }
            12 => {
                let (off, whence) = match ctx.draw(6) {
                    0 => (ctx.draw(w.content.len() + 20) as i64, 0),
                    1 => (ctx.draw(40) as i64 - 20, 1),
                    2 => (-(ctx.draw(w.content.len() + 3) as i64), 2),
                    3 => (-(ctx.draw(3) as i64) - 1, 0),
                    4 => (ctx.draw(9000) as i64 - 4500, 1),
                    _ => (0, 2),
                };
                ctx.log(|| format!("seek {off} {whence}"));
                let here = w.pos as i64 - w.push.len() as i64;
                let want = match whence {
                    0 => off,
                    1 => here + off,
                    _ => w.content.len() as i64 + off,
                };
                // asking for the current position does not move
                if whence == 1 && off == 0 {
                    continue;
                }
                if here < 0 && whence == 1 {
                    continue;
                }
                let r = w.call(ctx, &mut io, true, |_, io| io.seek(off, whence).map_err(|e| MonorubyErr::Errno(e.raw_os_error().unwrap_or(0))).or_else(|e| if e == MonorubyErr::Errno(libc::EINVAL) { Ok(u64::MAX) } else { Err(e) }))?;
                match r {
                    Out::Done(u64::MAX) => ensure!(want < 0, "false-error", "seek({off}, {whence}) from {here} refused"),
                    Out::Done(p) => {
                        ensure!(want == p as i64, "wrong-position", "seek({off}, {whence}) from {here} gave {p}");
                        w.kernel(true)?;
                        w.pos = p as usize;
                        w.push.clear();
                    }
                    _ => outcome = 1,
                }
            }
            13 => {
                let want = w.pos as i64 - w.push.len() as i64;
                let r = w.call(ctx, &mut io, true, |_, io| {
                    let p = io.seek(0, 1).map_err(|e| MonorubyErr::Errno(e.raw_os_error().unwrap_or(0)))?;
                    Ok(p as i64 - io.pushback_len() as i64)
                })?;
                if let Out::Done(p) = r {
                    ctx.log(|| format!("pos {p}"));
                    ensure!(p == want, "wrong-position", "position {p} reported, {want} expected");
                    w.kernel(true)?;
                }
            }
            14 => {
                ctx.log(|| "fsync".to_string());
                let data_only = ctx.draw(2) == 0;
                if t == T::Popen && w.fd < 0 {
                    continue;
                }
                let r = go!(true, |_, io| io.fsync(data_only, &Store));
                w.kernel(r.is_some())?;
            }
            15 => {
                // printed without a stream object, through the same buffer
                let d = body(w.counter, size(ctx));
                ctx.log(|| format!("print {}", d.len()));
                k.begin(ctx);
                k.budget = 0;
                k.pending = false;
                k.chans[0].space = 1 << 20;
                if let Err(e) = write_stdout(&d, &st) {
                    fail!("invented-error", "print failed: {e:?}");
                }
                w.accept(&d);
                w.kernel(w.through())?;
                if ctx.draw(2) == 0 {
                    if let Err(e) = flush_stdout(&st) {
                        fail!("invented-error", "flush failed: {e:?}");
                    }
                    w.kernel(true)?;
                }
            }
            _ => {
                ctx.log(|| "close_write".to_string());
                k.begin(ctx);
                k.f = Faults::default();
                k.pending = false;
                k.ending = true;
                k.chans[1].space = 1 << 20;
                io.popen_close_write();
                k.ending = false;
                w.wclosed = true;
                w.kernel(true)?;
                ensure!(!k.fds.contains_key(&w.wfd), "not-closed", "the write side is still open");
                if !w.r {
                    ensure!(io.is_closed(), "not-closed", "both sides are closed, the stream is not");
                    closed = true;
                }
                if let Err(e) = io.ensure_writable() {
                    ctx.mix(matches!(e, MonorubyErr::Other(_)) as u64);
                } else {
                    fail!("not-closed", "still writable after close_write");
                }
            }
        }
        if had && op <= 5 && op != 1 {
            ctx.probe("read with data buffered");
        }
        ctx.state(mix64(t as u64 | (op as u64) << 4 | outcome << 10 | (had as u64) << 12 | (pushed as u64) << 13 | (w.sync as u64) << 14 | ((w.rest().len().min(9000) / 1000) as u64) << 16));
        ctx.mix(w.pos as u64 ^ (w.ipos as u64) << 20 ^ (w.acc.len() as u64) << 40);
        if hard_read {
            // after a failed read input may be missing, but never repeated
            // or reordered
            k.f = Faults::default();
            let rest = w.rest();
            let r = w.call(ctx, &mut io, false, |_, io| io.read(None))?;
            let Out::Done(v) = r else { fail!("invented-error", "reading on after an error failed") };
            ctx.log(|| format!("  after the error: {} of {}", v.len(), rest.len()));
            ensure!(rest.ends_with(&v), "wrong-bytes", "after a failed read the stream continues with {}, which is no tail of {}", short(&v), short(&rest));
            ctx.probe("read on after an error");
            return Ok(());
        }
        if closed {
            return Ok(());
        }
    }
    // the end: exit of the process, garbage collection, or close
    k.f = faults.clone();
    if !w.r && t == T::Std || t == T::Err {
        ctx.log(|| "exit".to_string());
        k.begin(ctx);
        k.f = Faults { short: k.f.short, eintr: k.f.eintr, ..Faults::default() };
        k.ending = true;
        k.fds.get_mut(&w.fd).unwrap().nonblock = false;
        k.pending = ctx.draw(2) == 0;
        flush_std_streams();
        k.ending = false;
        return w.kernel(true);
    }
    if t == T::Std {
        return Ok(());
    }
    if ctx.draw(3) == 0 {
        ctx.log(|| "dropped".to_string());
        ctx.probe("dropped without close");
        k.begin(ctx);
        k.f = Faults { short: k.f.short, eintr: k.f.eintr, ..Faults::default() };
        k.ending = true;
        for c in k.chans.iter_mut() {
            c.space = 1 << 20;
        }
        k.pending = ctx.draw(2) == 0;
        drop(io);
        k.ending = false;
        k.pending = false;
    } else {
        ctx.log(|| "close".to_string());
        loop {
            match w.call(ctx, &mut io, false, |_, io| io.close(&Store))? {
                Out::Done(st) => {
                    ensure!(st.is_some() == (t == T::Popen), "wrong-status", "close returned {st:?}");
                    break;
                }
                Out::Hard { .. } => {
                    ensure!(!io.is_closed(), "bytes-lost", "a failed close closed the stream");
                    k.f = Faults::default();
                }
                _ => fail!("wrong-error", "the stream closed itself"),
            }
        }
        ensure!(io.is_closed(), "not-closed", "the stream is open after close");
        for (what, r) in [
            ("read", io.read(Some(1)).map(|_| ())),
            ("write", io.write(b"x", &mut 0, &st)),
            ("close", io.close(&st).map(|_| ())),
            ("gets", io.getline(Some(b"\n"), None, false).map(|_| ())),
            ("unget", io.unget(b"x")),
        ] {
            ensure!(r == Err(MonorubyErr::Other("closed stream".to_string())), "wrong-error", "{what} on a closed stream gave {r:?}");
        }
        drop(io);
    }
    if let Some(b) = k.bad.take() {
        fail!("kernel-misuse", "{b}");
    }
    w.kernel(true)?;
    let open = k.fds.keys().any(|f| *f > 2);
    ensure!(open != w.autoclose, "not-closed", "the descriptor is {} at the end", if open { "still open" } else { "closed although not owned" });
    ensure!(!fd_is_owned(w.fd), "wrong-owner", "a closed descriptor is recorded as owned");
    Ok(())
}

//! Programs that use sockets, and what their calls have to do.
use crate::builtins::socket as api;
use crate::kern::{Faults, Kern, S, inet, k, same, un};
use crate::simlibc::*;
use crate::stubs::*;
use crate::world::{Call, Rec, St, ctx, w};
use simcore::{Ctx, Prop, RunResult, Violation};

type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

#[derive(Default)]
struct Prog {
    ios: Vec<Value>,
    wt: Vec<u32>,
    sent: u64,
    got: u64,
    next: usize,
    depth: [u32; 8],
    bad_close: u32,
    /// How the block of the current call ended.
    block: [Vec<(Value, Result<Value>)>; 8],
    close_err: [bool; 8],
}
static mut PROG: *mut Prog = std::ptr::null_mut();
fn p() -> &'static mut Prog {
    unsafe { &mut *PROG }
}
pub fn start() {}

fn int(i: i64) -> Option<Value> {
    Some(Value::integer(i))
}
fn bad(class: &str, msg: String) {
    w().judge(false, class, || msg);
}
fn class(n: &'static str) -> Value {
    val(V::Class(ClassId(n)))
}
fn fd_of(v: Value) -> Option<i32> {
    match v.v() {
        V::Io(i) => i.file.as_ref().map(|f| f.0),
        _ => None,
    }
}

fn class_of(v: Value) -> &'static str {
    match v.v() {
        V::Io(i) => i.class.0,
        _ => "",
    }
}

struct Done {
    r: Result<Value>,
    c: Call,
    closed: bool,
    start: u64,
}

#[derive(Clone, Copy, Default)]
struct How {
    now: bool,
    needs: i16,
    /// Unusable arguments.
    bad: bool,
    timeout: Option<f64>,
    block: bool,
    /// An error that counts as success.
    fine: [i32; 2],
    /// `exception: false`
    soft: bool,
}

/// Calls a method and judges what holds for every call.
fn call(name: &'static str, f: Func, self_: Value, args: Vec<Option<Value>>, how: How) -> Done {
    let io = matches!(self_.v(), V::Io(_)).then_some(self_);
    let closed = io.is_some_and(|v| fd_of(v).is_none());
    ctx().log(|| format!("  [{}] {name}({self_:?}, {:?}){}", w().cur, args.iter().flatten().collect::<Vec<_>>(), if how.block { " {}" } else { "" }));
    let start = k().now;
    let t = w().cur;
    w().tasks[t].calls.push(Call { name, io, now: how.now, needs: how.needs, ..Call::default() });
    let lfp = Lfp::new(self_, args, how.block);
    let mut vm = Executor { error: None };
    let mut g = Globals { store: Store };
    let r = f(&mut vm, &mut g, lfp, BytecodePtr);
    let t = w().cur;
    let c = w().tasks[t].calls.last().unwrap();
    ctx().log(|| format!("  [{t}] {name} = {r:?}"));
    let key = simcore::mix64(
        name.len() as u64 ^ (name.as_bytes()[0] as u64) << 8 ^ (name.as_bytes()[name.len() - 1] as u64) << 16 ^ (c.recs.last().map_or(0, |r| r.err as u64)) << 24 ^ (c.waited as u64) << 40 ^ (c.interrupted as u64) << 41
            ^ (closed as u64) << 42 ^ (c.recs.len().min(7) as u64) << 44 ^ match &r { Ok(_) => 0, Err(e) => match e.e { E::Errno(n) => n as u64, E::Io => 300, E::Raised => 301, _ => 302 } } << 48,
    );
    let here = io.and_then(fd_of).and_then(|f| k().sock(f)).map_or(0, |s| 1 + s.st as u64 + ((s.rx.len().min(3) as u64) << 4) + ((s.eof as u64) << 6) + ((s.shut_rd as u64) << 7) + ((s.shut_wr as u64) << 8) + ((s.queue.len().min(3) as u64) << 9) + ((s.nonblock as u64) << 11));
    let parked = w().tasks.iter().filter(|t| matches!(t.st, St::Parked { .. })).count() as u64;
    ctx().state(simcore::mix64(key ^ simcore::mix64(here ^ parked << 16)));
    let open = io.is_none_or(|v| fd_of(v).is_some());
    let raised_in_block = how.block && matches!(p().block[w().cur].last(), Some((_, Err(_))));
    // general rules
    let past = how.timeout.is_some_and(|t| (k().now - start) as f64 >= t * 1e9 - 1000.0);
    match &r {
        Ok(v) => {
            if closed {
                bad("closed", format!("a closed socket answers {v:?}"));
            }
            if !open {
                bad("closed", format!("{v:?} for a socket that was closed in the meantime"));
            }
            if let Some(e) = c.fails.last()
                && !how.fine.contains(e)
            {
                bad("hidden", format!("{v:?} although the kernel reported error {e}"));
            }
            if c.interrupted {
                bad("interrupt", format!("an interrupt of the waiting thread is lost, the result is {v:?}"));
            }
        }
        Err(e) => match &e.e {
            E::Errno(n) => {
                let timed = *n == ETIMEDOUT && past;
                if closed || !open {
                    bad("closed", format!("error {n} instead of an IOError for a closed socket"));
                }
                let told = how.now && (*n != EAGAIN || name == "connect_nonblock") && c.recs.last().is_some_and(|r| r.err == *n);
                if c.fails.last() != Some(n) && !timed && !told {
                    bad("error", format!("error {n} is reported, the kernel reported {:?}", c.fails));
                }
                if c.interrupted {
                    bad("interrupt", "an interrupt of the waiting thread is lost".into());
                }
            }
            E::Io => {
                if open && !closed {
                    bad("error", format!("IOError ({}) for an open socket", e.msg));
                }
            }
            E::Raised => {
                if !c.interrupted && !raised_in_block {
                    bad("error", "an interrupt without a cause".into());
                }
            }
            E::Class(cl) => {
                let ok = match cl.0 {
                    "SocketError" => how.bad,
                    "EAGAINWaitReadable" => how.now && !how.soft && name.starts_with("recv") && c.recs.last().is_some_and(|r| r.err == EAGAIN),
                    "EAGAINWaitWritable" => how.now && !how.soft && name.starts_with("send") && c.recs.last().is_some_and(|r| r.err == EAGAIN),
                    "EINPROGRESSWaitWritable" => how.now && !how.soft && c.recs.last().is_some_and(|r| matches!(r.err, EINPROGRESS | EALREADY)),
                    _ => false,
                };
                if !ok {
                    bad("error", format!("{} without a cause", cl.0));
                }
            }
            E::Type | E::Argument => {
                if !how.bad {
                    bad("error", format!("arguments refused: {}", e.msg));
                }
            }
            E::Runtime => {
                if !(how.block && p().close_err[w().cur]) {
                    bad("error", format!("error without a cause: {}", e.msg));
                }
            }
        },
    }
    if closed && !matches!(&r, Err(e) if e.e == E::Io || (how.bad && matches!(e.e, E::Type | E::Argument | E::Class(_)))) {
        bad("closed", "no IOError for a closed socket".into());
    }
    if let Some(t) = how.timeout
        && (k().now - start) as f64 > t * 1e9 + 20e6
        && !how.block
        && t < 1e6
    {
        bad("late", format!("the call took {} ms with a limit of {} ms", (k().now - start) / 1_000_000, t * 1e3));
    }
    if r.is_err() && c.recs.iter().any(|r| r.err == 0 && matches!(r.op, "recv" | "send") && (r.took > 0 || r.op == "send")) {
        bad("lost", "data was taken by a call that failed".into());
    }
    if how.now && c.waited {
        bad("wait", "a call that must not wait waited".into());
    }
    // descriptors
    if let Ok(v) = &r
        && let V::Ary(a) = v.v()
        && let Some(n) = a.first().and_then(|v| v.try_fixnum())
        && name == "accept_raw"
    {
        k().raw.push(n as i32);
    }
    if let Ok(v) = &r
        && name == "sysaccept"
        && let Some(n) = v.try_fixnum()
    {
        k().raw.push(n as i32);
    }
    for &fd in &c.created {
        if !k().fds.contains_key(&fd) {
            continue;
        }
        if !k().owner.contains_key(&fd) && !k().raw.contains(&fd) {
            w().judge(true, "leak", || format!("descriptor {fd} stays open and belongs to nobody after {r:?}"));
        }
        let s = k().sock(fd).unwrap();
        if !s.cloexec {
            w().judge(true, "inherit", || format!("descriptor {fd} would be inherited by other programs"));
        }
        if s.nonblock && s.st != S::Listening && !how.block {
            w().judge(true, "mode", || format!("descriptor {fd} is handed out in non-blocking mode"));
        }
    }
    if !k().lists.is_empty() {
        w().judge(true, "leak", || "an address list is not freed".into());
    }
    let c = w().tasks[t].calls.pop().unwrap();
    if let Ok(v) = &r {
        keep(*v);
    }
    Done { r, c, closed, start }
}
fn keep(v: Value) {
    match v.v() {
        V::Io(_) => {
            if !p().ios.iter().any(|i| i.0 == v.0) {
                p().ios.push(v);
            }
        }
        V::Ary(a) => a.iter().for_each(|v| keep(*v)),
        _ => {}
    }
}

fn close_io(v: Value) {
    if let V::Io(i) = v.v()
        && let Some(f) = i.file.take()
    {
        let fd = f.0;
        ctx().log(|| format!("  [{}] close(io{})", w().cur, i.id));
        w().wake_fd(fd);
        drop(f);
    }
}
/// `close` as called at the end of a block.
pub fn close_method(v: Value) -> Result<Value> {
    if fd_of(v).is_none() && ctx().chance(1, 2) {
        return Err(MonorubyErr::ioerr("closed stream"));
    }
    close_io(v);
    if ctx().chance(p().bad_close, 100) {
        ctx().fault("close raises");
        p().close_err[w().cur] = true;
        return Err(MonorubyErr::of(E::Runtime, "close failed"));
    }
    Ok(Value::nil())
}
/// The block of a constructor.
pub fn block(v: Value) -> Result<Value> {
    keep(v);
    p().close_err[w().cur] = false;
    // the method has handed the descriptor over
    if p().depth[w().cur] < 2 {
        p().depth[w().cur] += 1;
        for _ in 0..ctx().draw(3) {
            match ctx().draw(3) {
                0 => send(v),
                1 => recv(v),
                _ => op(),
            }
        }
        p().depth[w().cur] -= 1;
    }
    if ctx().chance(1, 4) {
        close_io(v);
    }
    p().close_err[w().cur] = false;
    let r = if ctx().chance(1, 4) {
        ctx().fault("block raises");
        Err(MonorubyErr::of(E::Raised, "from the block"))
    } else {
        Ok(Value::integer(77))
    };
    p().block[w().cur].push((v, r.clone()));
    r
}

fn some_io(want: impl Fn(&crate::kern::Sock) -> bool) -> Option<Value> {
    let good: Vec<Value> = p().ios.iter().copied().filter(|v| fd_of(*v).and_then(|f| k().sock(f)).is_some_and(&want)).collect();
    if !good.is_empty() && !ctx().chance(1, 10) {
        return Some(good[ctx().draw(good.len())]);
    }
    let n = p().ios.len();
    (n > 0).then(|| p().ios[ctx().draw(n)])
}
fn host() -> (Option<Value>, bool) {
    match ctx().weighted(&[6, 3, 3, 1, 1, 1]) {
        0 => (Some(Value::nil()), false),
        1 => (Some(Value::string("127.0.0.1".into())), false),
        2 => (Some(Value::string("localhost".into())), true),
        3 => (Some(Value::string("nowhere".into())), true),
        4 => (Some(val(V::Obj(None))), true),
        _ => (Some(Value::string(String::new())), false),
    }
}
fn port(n: u16) -> (Option<Value>, bool) {
    match ctx().weighted(&[8, 2, 1, 1]) {
        0 => (int(n as i64), false),
        1 => (Some(Value::string(n.to_string())), false),
        2 => (int([-1, 65536, 1 << 40][ctx().draw(3)]), true),
        _ => (Some(Value::string("http".into())), true),
    }
}
fn dest_port() -> u16 {
    match ctx().weighted(&[6, 3, 1, 1]) {
        0 => [7001, 7002][ctx().draw(2)],
        1 => 9001,
        2 => 9002,
        _ => 9003,
    }
}
fn limit() -> (Option<Value>, Option<f64>) {
    match ctx().weighted(&[5, 2, 2, 1, 1, 1]) {
        0 => (None, None),
        1 => (int(1), Some(1.0)),
        2 => {
            let f = [0.0005, 0.03, 2.5, 0.0][ctx().draw(4)];
            (Some(val(V::Float(f))), Some(f))
        }
        3 => (Some(Value::nil()), None),
        4 => (Some(val(V::Float(-1.0))), Some(0.0)),
        _ => {
            let f = [f64::INFINITY, 1e30, 1e18][ctx().draw(3)];
            (Some(val(V::Float(f))), Some(f))
        }
    }
}
fn message() -> Vec<u8> {
    let n = [0, 1, 3, 12, 30, 64][ctx().weighted(&[1, 3, 4, 4, 2, 1])];
    let from = p().next;
    p().next += n;
    (from..from + n).map(|i| b'A' + (i % 58) as u8).collect()
}

/// What the block form of a constructor has to do.
fn block_form(d: &Done) {
    let Some((v, b)) = p().block[w().cur].pop() else { return };
    let want = match (&b, p().close_err[w().cur]) {
        (Err(e), _) => Err(e.e.clone()),
        (Ok(_), true) => Err(E::Runtime),
        (Ok(_), false) => Ok(77),
    };
    let got = match &d.r {
        Ok(v) => Ok(v.try_fixnum().unwrap_or(-1)),
        Err(e) => Err(e.e.clone()),
    };
    if want != got {
        bad("block", format!("the block form gives {got:?} instead of {want:?}"));
    }
    if fd_of(v).is_some() {
        w().judge(true, "leak", || "the socket is still open after the block".into());
    }
}

fn connected(name: &str, v: Value, to: &[u8]) {
    match fd_of(v).and_then(|f| k().sock(f)) {
        None => bad("connect", format!("{name} gives a closed socket")),
        // another thread used the socket meanwhile and was told
        Some(s) if s.told.is_some_and(|t| t != w().cur) => {}
        Some(s) if s.st != S::Connected && s.ty == SOCK_STREAM => bad("connect", format!("{name} is done, but there is no connection")),
        Some(s) if !same(&s.paddr, to) => bad("connect", format!("{name} is connected to the wrong place")),
        _ => {}
    }
}

fn recv(io: Value) {
    let Some(f) = fd_of(io) else {
        let d = call("recv", api::basic_recv, io, vec![int(5), None, None], How::default());
        let _ = d;
        return;
    };
    let stream = k().sock(f).unwrap().ty == SOCK_STREAM;
    let max = [0usize, 1, 4, 10, 50][ctx().weighted(&[1, 3, 4, 4, 4])];
    let peek = ctx().chance(1, 6);
    let flags = if peek { MSG_PEEK } else { 0 };
    let out = ctx().chance(1, 4).then(|| val(V::Str(RStringInner { b: b"old contents".to_vec(), enc: Encoding::Utf8 })));
    let kind = ctx().weighted(&[5, 3, 3, 2, 2, 1]);
    let needs = if max > 0 || !stream { POLLIN } else { 0 };
    let soft = ctx().chance(1, 2);
    let n = int(max as i64);
    let fl = int(flags as i64);
    let d = match kind {
        0 => call("recv", api::basic_recv, io, vec![n, if peek || ctx().chance(1, 2) { fl } else { None }, out], How { needs, ..How::default() }),
        1 => call("recv_nonblock", api::basic_recv_nonblock, io, vec![n, fl, out, soft.then(|| Value::bool(false))], How { now: true, soft, ..How::default() }),
        2 => call("recvfrom", api::recvfrom_raw, io, vec![n, fl, Some(Value::bool(true))], How { needs, ..How::default() }),
        3 => call("recvmsg", api::recvmsg_raw, io, vec![n, fl, Some(Value::bool(true))], How { needs, ..How::default() }),
        4 => call("recvfrom_nonblock", api::recvfrom_raw, io, vec![n, fl, Some(Value::bool(false))], How { now: true, ..How::default() }),
        _ => call("recvmsg_nonblock", api::recvmsg_raw, io, vec![n, fl, Some(Value::bool(false))], How { now: true, ..How::default() }),
    };
    let Ok(v) = &d.r else { return };
    let oks: Vec<&Rec> = d.c.recs.iter().filter(|r| r.op == "recv" && r.err == 0).collect();
    if let V::Sym(s) = v.v() {
        if !(kind == 1 && soft && s.0 == "wait_readable" && oks.is_empty() && d.c.recs.iter().any(|r| r.op == "recv" && r.err == EAGAIN)) {
            bad("result", format!("{v:?}"));
        }
        return;
    }
    if kind == 1 && oks.is_empty() {
        bad("result", format!("{v:?} without data"));
        return;
    }
    if oks.len() != 1 {
        bad("result", format!("{v:?} from {} receptions", oks.len()));
        return;
    }
    let r = oks[0];
    let want = &r.data[..max.min(r.data.len())];
    p().got += want.len() as u64;
    let end = r.stream && want.is_empty();
    if end {
        let nil = v.is_nil();
        if max > 0 && !nil {
            bad("end", format!("{v:?} at the end of the stream"));
        }
        if nil {
            return;
        }
    } else if v.is_nil() {
        bad("end", "nil although there was data".into());
        return;
    }
    let (s, rest) = match v.v() {
        V::Ary(a) if kind >= 2 && a.len() >= 2 => (a[0], a[1..].to_vec()),
        _ => (*v, vec![]),
    };
    let Some(s_) = s.is_rstring_inner() else {
        bad("result", format!("{v:?}"));
        return;
    };
    if s_.as_bytes() != want {
        bad("data", format!("{v:?}, but {:?} was received", want.escape_ascii().to_string()));
    }
    if kind <= 1
        && let Some(o) = out
        && (o.0 != s.0 || s_.enc != Encoding::Utf8)
    {
        bad("result", "the data is not in the given buffer".into());
    }
    if kind >= 2 {
        if rest.first().and_then(|v| v.is_rstring_inner()).is_none_or(|a| a.as_bytes() != r.addr) {
            bad("sender", format!("{:?} is not the sender's address", rest.first()));
        }
        if matches!(kind, 3 | 5) {
            let cut = !r.stream && r.data.len() > max;
            if rest.get(1).and_then(|v| v.try_fixnum()).is_none_or(|f| (f as i32 & MSG_TRUNC != 0) != cut) {
                bad("result", format!("flags {:?}", rest.get(1)));
            }
        }
    }
    if peek != (r.took == 0) && !want.is_empty() {
        bad("data", "looking at data consumes it, or receiving does not".into());
    }
}

fn send(io: Value) {
    let msg = message();
    let m = Some(Value::bytes(msg.clone()));
    let Some(f) = fd_of(io) else {
        call("send", api::basic_send, io, vec![m, int(0), None], How::default());
        return;
    };
    let (fam, ty) = { let s = k().sock(f).unwrap(); (s.fam, s.ty) };
    let to = (ty == SOCK_DGRAM && fam == AF_INET && ctx().chance(1, 2)).then(|| [8001u16, 8002, 9002][ctx().draw(3)]);
    let dest = to.map(|n| Value::bytes(inet(n)));
    let wrong = ctx().chance(1, 20);
    let kind = ctx().weighted(&[4, 2, 2, 4]);
    let zero = int(0);
    let how = How { needs: POLLOUT, bad: wrong, ..How::default() };
    let d = match kind {
        0 => call("send", api::basic_send, io, vec![m, zero, if wrong { int(3) } else { dest }], how),
        1 => call("sendmsg", api::sendmsg_raw, io, vec![m, zero, if wrong { int(3) } else { dest }, Some(Value::bool(true))], how),
        2 => call("sendmsg_nonblock", api::sendmsg_raw, io, vec![m, zero, if wrong { int(3) } else { dest }, Some(Value::bool(false))], How { now: true, needs: 0, ..how }),
        _ if ty == SOCK_DGRAM && fam == AF_INET => match to {
            Some(n) if ctx().chance(1, 2) => {
                let (h, b) = host();
                let (po, b2) = port(n);
                call("udp_send", api::udp_send, io, vec![m, zero, h, po], How { bad: b || b2, ..how })
            }
            _ => call("udp_send", api::udp_send, io, vec![m, zero, if wrong { int(3) } else { dest }, None], how),
        },
        _ => call("send", api::basic_send, io, vec![m, zero, None], How { bad: false, ..how }),
    };
    let Ok(v) = &d.r else { return };
    let oks: Vec<&Rec> = d.c.recs.iter().filter(|r| r.op == "send" && r.err == 0).collect();
    if oks.len() != 1 {
        bad("result", format!("{v:?} from {} transmissions", oks.len()));
        return;
    }
    let r = oks[0];
    p().sent += r.took as u64;
    let n = r.space.min(msg.len());
    if r.data != msg[..n] {
        bad("data", format!("{:?} was handed over instead of {:?}", r.data.escape_ascii().to_string(), msg[..n].escape_ascii().to_string()));
    }
    if v.try_fixnum() != Some(n as i64) {
        bad("result", format!("{v:?} although {n} bytes were handed over"));
    }
    if let Some(t) = to
        && ty == SOCK_DGRAM
        && !same(&r.addr, &inet(t))
    {
        bad("data", "the datagram goes to the wrong address".into());
    }
}

fn accept(io: Value) {
    let kind = ctx().weighted(&[4, 2, 3, 2]);
    let how = How { needs: POLLIN, ..How::default() };
    let tcp = fd_of(io).and_then(|f| k().sock(f)).is_some_and(|s| s.fam == AF_INET);
    let plain = class_of(io) == "TCPServer";
    let d = match kind {
        0 if plain => call("accept", api::tcp_server_accept, io, vec![], how),
        1 if plain => call("sysaccept", api::tcp_server_sysaccept, io, vec![], how),
        3 => call("accept_raw", api::accept_raw, io, vec![Some(Value::nil())], how),
        _ => call("accept_raw", api::accept_raw, io, vec![Some(class(if tcp { "Socket" } else { "UNIXSocket" }))], how),
    };
    let Ok(v) = &d.r else { return };
    let oks: Vec<&Rec> = d.c.recs.iter().filter(|r| r.op == "accept" && r.err == 0).collect();
    if oks.len() != 1 {
        bad("result", format!("{v:?} from {} connections", oks.len()));
        return;
    }
    let (first, addr) = match v.v() {
        V::Ary(a) if a.len() == 2 => (a[0], Some(a[1])),
        _ => (*v, None),
    };
    let fd = fd_of(first).or(first.try_fixnum().map(|f| f as i32));
    if fd != Some(oks[0].new_fd) {
        bad("result", format!("{v:?} is not the accepted connection"));
    }
    if let Some(a) = addr
        && a.as_rstring_inner().as_bytes() != oks[0].addr
    {
        bad("sender", format!("{a:?} is not the client's address"));
    }
    if let V::Io(i) = first.v() {
        let want = match d.c.name {
            "accept" => "TCPSocket",
            _ if tcp => "Socket",
            _ => "UNIXSocket",
        };
        if i.class.0 != want {
            bad("result", format!("a {} is accepted", i.class.0));
        }
    }
    p().got += 1;
    if let Some(n) = first.try_fixnum()
        && ctx().chance(1, 2)
    {
        for_fd(n as i32);
    }
}
fn for_fd(fd: i32) {
    // hands the descriptor over
    let t = w().cur;
    w().tasks[t].calls.push(Call { name: "for_fd", created: vec![fd], ..Call::default() });
    k().raw.retain(|f| *f != fd);
    let lfp = Lfp::new(class("Socket"), vec![int(fd as i64)], false);
    let r = api::socket_for_fd(&mut Executor { error: None }, &mut Globals { store: Store }, lfp, BytecodePtr);
    match r {
        Ok(v) if fd_of(v) == Some(fd) => keep(v),
        r => bad("result", format!("{r:?}")),
    }
    w().tasks[t].calls.pop();
}

fn op() {
    let kind = ctx().weighted(&p().wt);
    match kind {
        0 => {
            if let Some(v) = some_io(|s| (s.st == S::Connected || s.ty == SOCK_DGRAM) && s.st != S::Listening) {
                recv(v)
            }
        }
        1 => {
            if let Some(v) = some_io(|s| (s.st == S::Connected || s.ty == SOCK_DGRAM) && s.st != S::Listening) {
                send(v)
            }
        }
        2 => {
            if let Some(v) = some_io(|s| s.st == S::Listening) {
                accept(v)
            }
        }
        3 => {
            // TCPServer.new
            let n = [7001u16, 7002, 0][ctx().weighted(&[3, 2, 1])];
            let (po, b) = port(n);
            let (h, b2) = host();
            let two = ctx().chance(1, 2);
            let block = ctx().chance(1, 6);
            let args = if two { vec![h, po] } else { vec![po, None] };
            let d = call("TCPServer.new", api::tcp_server_new, class("TCPServer"), args, How { bad: b || (two && b2), block, ..How::default() });
            if block {
                block_form(&d);
            } else if let Ok(v) = &d.r {
                match fd_of(*v).and_then(|f| k().sock(f)) {
                    Some(s) if s.st == S::Listening && (n == 0 || same(&s.local, &inet(n))) && s.nonblock => {}
                    _ => bad("result", "the server does not listen where it was asked to".into()),
                }
            }
        }
        4 => {
            // TCPSocket.new
            let n = dest_port();
            let (h, b) = host();
            let (po, b2) = port(n);
            let (l1, t1) = limit();
            let (l2, t2) = if ctx().chance(1, 4) { limit() } else { (None, None) };
            let timeout = match (t1, t2) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            };
            let mut b3 = false;
            let mut args = vec![h, po, None, None, l1, l2];
            let mut lport = 0;
            if ctx().chance(1, 4) {
                let (lh, x) = host();
                lport = [0u16, 6001, 7001][ctx().draw(3)];
                let (lp, y) = port(lport);
                b3 = x || y;
                args[2] = lh;
                args[3] = lp;
            }
            let block = ctx().chance(1, 6);
            let d = call("TCPSocket.new", api::tcp_socket_new, class("TCPSocket"), args, How { bad: b || b2 || b3, needs: POLLOUT, timeout, block, ..How::default() });
            if block {
                block_form(&d);
            } else if let Ok(v) = &d.r {
                connected("TCPSocket.new", *v, &inet(n));
                if fd_of(*v).and_then(|f| k().sock(f)).is_some_and(|s| s.paddr.len() >= 8 && s.paddr[4..8] != [127, 0, 0, 1]) {
                    bad("connect", "TCPSocket.new connects to another host".into());
                }
                if lport != 0 && fd_of(*v).and_then(|f| k().sock(f)).is_some_and(|s| !same(&s.local, &inet(lport))) {
                    bad("connect", "the local address is not the one asked for".into());
                }
            }
        }
        5 => {
            let path = ["/s1", "/s2"][ctx().draw(2)];
            let bad_ = ctx().chance(1, 12);
            let a = if bad_ { [val(V::Obj(None)), Value::string("/s1\0x".into()), Value::string("/".repeat(200))][ctx().draw(3)] } else { Value::string(path.into()) };
            let d = call("UNIXServer.new", api::unix_server_new, class("UNIXServer"), vec![Some(a)], How { bad: bad_, ..How::default() });
            if let Ok(v) = &d.r {
                match fd_of(*v).and_then(|f| k().sock(f)) {
                    Some(s) if !bad_ && s.st == S::Listening && same(&s.local, &un(path)) && s.nonblock => {}
                    _ => bad("result", "the server does not listen where it was asked to".into()),
                }
            }
        }
        6 => {
            let path = ["/s1", "/s2"][ctx().draw(2)];
            let d = call("UNIXSocket.new", api::unix_socket_new, class("UNIXSocket"), vec![Some(Value::string(path.into()))], How { needs: POLLOUT, ..How::default() });
            if let Ok(v) = &d.r {
                connected("UNIXSocket.new", *v, &un(path));
            }
        }
        7 => {
            let dg = ctx().chance(1, 2);
            let t = if dg { Value::symbol(IdentId("DGRAM")) } else { Value::symbol(IdentId("STREAM")) };
            let d = if ctx().chance(1, 2) {
                call("UNIXSocket.pair", api::unix_pair, class("UNIXSocket"), vec![Some(t), None], How::default())
            } else {
                call("Socket.pair", api::socket_pair, class("Socket"), vec![Some(Value::symbol(IdentId("UNIX"))), Some(t), None], How::default())
            };
            if let Ok(v) = &d.r {
                let ok = match v.v() {
                    V::Ary(a) if a.len() == 2 => match (fd_of(a[0]), fd_of(a[1])) {
                        (Some(x), Some(y)) => x != y && k().sock(x).unwrap().peer == Some(k().fds[&y]),
                        _ => false,
                    },
                    _ => false,
                };
                if !ok {
                    bad("result", format!("{v:?} is not a connected pair"));
                }
            }
        }
        8 => {
            let u = ctx().chance(1, 3);
            let d = call("UDPSocket.new", api::udp_socket_new, class("UDPSocket"), vec![u.then(|| Value::symbol(IdentId("INET")))], How::default());
            if let Ok(v) = &d.r {
                let n = [8001u16, 8002][ctx().draw(2)];
                let (h, b) = host();
                let (po, b2) = port(n);
                if ctx().chance(2, 3) {
                    let r = call("udp_bind", api::udp_bind, *v, vec![h, po], How { bad: b || b2, ..How::default() });
                    if r.r.is_ok() && fd_of(*v).and_then(|f| k().sock(f)).is_some_and(|s| !same(&s.local, &inet(n))) {
                        bad("result", "bound to another address".into());
                    }
                }
                if ctx().chance(1, 3) {
                    let n = [8001u16, 8002, 9002][ctx().draw(3)];
                    let (h, b) = host();
                    let r = call("udp_connect", api::udp_connect, *v, vec![h, int(n as i64)], How { bad: b, ..How::default() });
                    if r.r.is_ok() {
                        connected("udp_connect", *v, &inet(n));
                    }
                }
            }
        }
        9 => {
            // Socket.new, then used as a client or a server
            let inet_ = ctx().chance(1, 2);
            let f = if inet_ { Value::integer(AF_INET as i64) } else { Value::symbol(IdentId("UNIX")) };
            let d = call("Socket.new", api::socket_new, class("Socket"), vec![Some(f), Some(Value::string("SOCK_STREAM".into())), None], How::default());
            if let Ok(v) = &d.r
                && ctx().chance(1, 3)
            {
                let a = if inet_ { inet([7001u16, 7002][ctx().draw(2)]) } else { un(["/s1", "/s2"][ctx().draw(2)]) };
                let r = call("bind", api::socket_bind, *v, vec![Some(Value::bytes(a.clone()))], How::default());
                if r.r.is_ok() {
                    if fd_of(*v).and_then(|f| k().sock(f)).is_some_and(|s| !same(&s.local, &a)) {
                        bad("result", "bound to another address".into());
                    }
                    let n = ctx().draw(8) as i64;
                    call("listen", api::socket_listen, *v, vec![int(n)], How::default());
                }
            }
        }
        10 => {
            let Some(io) = some_io(|s| s.ty == SOCK_STREAM && matches!(s.st, S::Fresh | S::Connecting | S::Failed)) else { return };
            // two threads do not connect one socket at a time
            if w().tasks.iter().any(|t| t.calls.iter().any(|c| c.name == "connect" && c.io.is_some_and(|v| v.0 == io.0))) {
                return;
            }
            let fam = fd_of(io).and_then(|f| k().sock(f)).map_or(AF_INET, |s| s.fam);
            if class_of(io) != "Socket" || fd_of(io).and_then(|f| k().sock(f)).is_some_and(|s| s.ty != SOCK_STREAM || s.st == S::Listening) {
                return;
            }
            let a = if fam == AF_INET { inet(dest_port()) } else { un(["/s1", "/s2", "/s3"][ctx().weighted(&[3, 3, 1])]) };
            let mut arg = Value::bytes(a.clone());
            let mut b = false;
            if ctx().chance(1, 8) {
                arg = val(V::Obj(Some(arg)));
            } else if ctx().chance(1, 12) {
                arg = val(V::Obj(None));
                b = true;
            }
            // a connection under way goes where it was sent first
            let fresh = fd_of(io).and_then(|f| k().sock(f)).is_none_or(|s| matches!(s.st, S::Fresh | S::Failed));
            if ctx().chance(2, 3) {
                let (l, timeout) = limit();
                let was = fd_of(io).and_then(|f| k().sock(f)).map(|s| s.nonblock);
                let d = call("connect", api::socket_connect, io, vec![Some(arg), l], How { bad: b, needs: POLLOUT, timeout, ..How::default() });
                match &d.r {
                    Ok(v) => {
                        if fresh {
                            connected("connect", io, &a);
                        }
                        if v.try_fixnum() != Some(0) {
                            bad("result", format!("{v:?}"));
                        }
                    }
                    Err(_) => {}
                }
                if was == Some(false) && fd_of(io).and_then(|f| k().sock(f)).is_some_and(|s| s.nonblock) {
                    w().judge(true, "mode", || format!("connect leaves the descriptor in non-blocking mode after {:?}", d.r));
                }
            } else {
                let soft = ctx().chance(1, 2);
                let d = call("connect_nonblock", api::socket_connect_nonblock, io, vec![Some(arg), soft.then(|| Value::bool(false))], How { bad: b, now: true, soft, fine: [EALREADY, if soft { EISCONN } else { 0 }], ..How::default() });
                if let Ok(v) = &d.r {
                    match v.v() {
                        V::Sym(s) if soft && s.0 == "wait_writable" && d.c.recs.last().is_some_and(|r| matches!(r.err, EINPROGRESS | EALREADY)) => {}
                        V::Int(0) => {
                            if fresh {
                                connected("connect_nonblock", io, &a);
                            }
                        }
                        _ => bad("result", format!("{v:?}")),
                    }
                }
            }
        }
        11 => {
            if let Some(v) = some_io(|_| true) {
                close_io(v);
            }
        }
        12 => {
            let Some(io) = some_io(|s| s.st == S::Connected) else { return };
            let how = ctx().draw(4);
            let a = [None, Some(Value::integer(SHUT_RD as i64)), Some(Value::symbol(IdentId("WR"))), Some(Value::string("SHUT_RDWR".into()))][how];
            let d = call("shutdown", api::shutdown_, io, vec![a], How::default());
            let want = [SHUT_RDWR, SHUT_RD, SHUT_WR, SHUT_RDWR][how];
            if d.r.is_ok() && !d.c.recs.iter().any(|r| r.op == "shutdown" && r.num[0] == want) {
                bad("result", "the wrong direction was shut down".into());
            }
        }
        13 => {
            let Some(io) = some_io(|_| true) else { return };
            let (n, f, peer): (_, Func, _) = match ctx().draw(5) {
                0 => ("addr", api::socket_addr, false),
                1 => ("peeraddr", api::socket_peeraddr, true),
                2 => ("sockname", api::sockname_raw, false),
                3 => ("peername", api::peername_raw, true),
                _ => ("path", api::unix_path, false),
            };
            let fam = fd_of(io).and_then(|f| k().sock(f)).map_or(AF_INET, |s| s.fam);
            if (fam != AF_INET) != (n == "path") && !n.ends_with("name") {
                return;
            }
            let (local, paddr) = fd_of(io).and_then(|f| k().sock(f)).map_or((vec![], vec![]), |s| (s.local.clone(), s.paddr.clone()));
            let d = call(n, f, io, vec![], How::default());
            let Ok(v) = &d.r else { return };
            let a = if peer { paddr } else { local };
            let ok = match n {
                "sockname" | "peername" => a.is_empty() || v.as_rstring_inner().as_bytes() == a,
                "path" => v.as_rstring_inner().as_bytes() == a.get(2..).unwrap_or(&[]).iter().copied().take_while(|c| *c != 0).collect::<Vec<u8>>(),
                _ => match v.v() {
                    V::Ary(x) if x.len() == 4 => {
                        let port = if a.is_empty() { 0 } else { u16::from_be_bytes([a[2], a[3]]) };
                        x[0].is_str() == Some("AF_INET") && x[1].try_fixnum() == Some(port as i64) && x[2].is_str() == x[3].is_str() && x[2].is_str().is_some_and(|s| a.is_empty() || s == format!("{}.{}.{}.{}", a[4], a[5], a[6], a[7]))
                    }
                    _ => false,
                },
            };
            if !ok {
                bad("result", format!("{v:?} is not the address"));
            }
        }
        14 => {
            let Some(io) = some_io(|_| true) else { return };
            let (lv, l) = [(Value::integer(SOL_SOCKET as i64), SOL_SOCKET), (Value::symbol(IdentId("SOCKET")), SOL_SOCKET)][ctx().draw(2)];
            let (ov, o) = [(Value::symbol(IdentId("REUSEADDR")), SO_REUSEADDR), (Value::string("SO_KEEPALIVE".into()), SO_KEEPALIVE)][ctx().draw(2)];
            let (xv, x) = [(Value::bool(true), 1), (Value::bool(false), 0), (Value::integer(5), 5), (Value::bytes(7i32.to_ne_bytes().to_vec()), 7)][ctx().draw(4)];
            let d = call("setsockopt", api::setsockopt, io, vec![Some(lv), Some(ov), Some(xv)], How::default());
            if d.r.is_ok() {
                let d = call("getsockopt", api::getsockopt, io, vec![Some(lv), Some(ov)], How::default());
                if let Ok(v) = &d.r
                    && (v.try_fixnum() != Some(x as i64) || d.c.recs.last().is_none_or(|r| r.num != [l, o, x]))
                {
                    bad("result", format!("{v:?} after setting {x}"));
                }
            }
        }
        15 => {
            // interrupts another thread
            let n = w().tasks.len();
            let t = ctx().draw(n);
            if t != w().cur && w().tasks[t].st != St::Done {
                ctx().fault("thread interrupted");
                w().tasks[t].intr = true;
            }
        }
        _ => {
            let n = k().raw.len();
            if n > 0 {
                let fd = k().raw[ctx().draw(n)];
                if ctx().chance(1, 2) {
                    for_fd(fd);
                } else {
                    k().close(fd, true);
                }
            }
        }
    }
}

fn body(t: usize) {
    while !w().ending && ctx().next_op() {
        op();
        // between calls nobody waits
        w().tasks[t].intr = false;
        w().cur = t;
    }
}

fn run(ctx: &mut Ctx, desc: bool) -> RunResult {
    let mut prog = Prog::default();
    //              rcv snd acc srv tcp usv uxs pai udp new con cls shu nam opt int raw
    prog.wt = vec![12, 12, 8, 3, 5, 2, 3, 2, 2, 2, 4, 2, 1, 2, 1, 2, 1];
    for i in 2..prog.wt.len() {
        match ctx.weighted(&[4, 2, 1]) {
            0 => {}
            1 => prog.wt[i] = 0,
            _ => prog.wt[i] *= 4,
        }
    }
    if prog.wt[3] + prog.wt[4] + prog.wt[5] + prog.wt[7] + prog.wt[8] == 0 {
        prog.wt[4] = 4;
    }
    prog.bad_close = if ctx.chance(1, 3) { 20 } else { 0 };
    let mut rate = |a: [u32; 3]| a[ctx.weighted(&[3, 2, 1])];
    let f = Faults {
        eintr: rate([0, 5, 25]),
        again: rate([0, 5, 20]),
        emfile: rate([0, 4, 20]),
        neterr: rate([0, 5, 25]),
        abort: rate([0, 10, 30]),
        full: rate([0, 10, 30]),
        clients: rate([0, 2, 6]),
        slow: rate([0, 30, 80]),
    };
    let mut kern = Kern::default();
    kern.f = f;
    kern.limit = [8, 16, 64][ctx.draw(3)];
    let n = 1 + ctx.weighted(&[2, 3, 3, 1]);
    let ops = [10, 25, 60, 120][ctx.weighted(&[2, 3, 3, 1])];
    ctx.set_ops(ops);
    unsafe { PROG = &mut prog };
    ctx.log(|| format!("{n} threads"));
    let world = crate::world::run(ctx, n, desc, kern, body);
    let mut fail = world.fail.clone();
    ctx.sim_ns = world.kern.now;
    if fail.is_none() && desc {
        // every descriptor has one owner
        for fd in world.kern.fds.keys() {
            if !world.kern.owner.contains_key(fd) && !world.kern.raw.contains(fd) {
                fail = Some(("leak".into(), format!("descriptor {fd} belongs to nobody at the end")));
            }
        }
    }
    if prog.got + prog.sent > 20 || world.kern.socks.len() > 6 {
        ctx.nontrivial();
    }
    crate::world::finish();
    clear_values();
    match fail {
        Some((c, m)) => Err(Violation::new(c, m)),
        None => Ok(()),
    }
}

fn run_calls(ctx: &mut Ctx) -> RunResult {
    run(ctx, false)
}
fn run_desc(ctx: &mut Ctx) -> RunResult {
    run(ctx, true)
}

const REAL: &[&str] = &["builtins/socket.rs: every constructor and method of sockets", "the single-thread wait of builtins/io.rs", "the closing of block forms of builtins/file.rs"];
const STUB: &[&str] = &[
    "the kernel's sockets, descriptors, name resolution and clock",
    "the other ends of connections outside the process",
    "the scheduler's waits and safepoints (simulated in C14 and C15)",
    "values, argument frames and IO objects",
    "stdlib/socket.rb",
];
const ASSUME: &[&str] = &["Linux rules for socket calls", "closing an IO object wakes the threads that wait for its descriptor"];

pub const PROPS: &[Prop] = &[
    Prop {
        quick_runs: 1_500_000,
        quick_secs: 45.0,
        rule: "A violation is reported when a socket call gives a result, an error, data or an address other than the simulated kernel's answers require, waits when it must not or keeps waiting when it could go on, or loses data or an interrupt.",
        measure: "distinct tuples of call, last error of the kernel, outcome, number of system calls (up to 7), waited, interrupted, closed, state of the socket and number of parked threads after the call",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        ..Prop::base("C37", run_calls)
    },
    Prop {
        quick_runs: 1_500_000,
        quick_secs: 45.0,
        rule: "A violation is reported when a descriptor or address list opened by a socket call belongs to nobody after the call, is closed twice, is used after another socket got it, would be inherited, or is left in the wrong mode.",
        measure: "distinct tuples of call, last error of the kernel, outcome, number of system calls (up to 7), waited, interrupted, closed, state of the socket and number of parked threads after the call",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        ..Prop::base("C38", run_desc)
    },
];

//! Programs that wait for streams, and what their calls have to do.
use crate::builtins as api;
use crate::stubs::*;
use crate::world::{Call, Faults, MS, St, Stream, Want, World, ctx, w};
use libc::{POLLERR, POLLHUP, POLLIN, POLLOUT, POLLPRI};
use simcore::{Ctx, Prop, RunResult, Violation};

type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

#[derive(Default)]
struct Prog {
    /// The object of each stream.
    ios: Vec<Value>,
    wt: Vec<u32>,
    base: i32,
    calls: u32,
    waited: u32,
}
static mut PROG: *mut Prog = std::ptr::null_mut();
fn p() -> &'static mut Prog {
    unsafe { &mut *PROG }
}

fn new_fd() -> i32 {
    let used: Vec<i32> = w().streams.iter().flat_map(|s| [s.fd, s.wfd]).flatten().collect();
    (p().base..).find(|f| !used.contains(f)).unwrap()
}
fn open() {
    let n = w().streams.len();
    if n >= 24 {
        return;
    }
    let mut s = Stream { fd: Some(new_fd()), ..Stream::default() };
    for b in &mut s.bits {
        *b = [0, POLLIN, POLLOUT, POLLIN | POLLOUT, POLLHUP, POLLHUP | POLLERR | POLLIN, POLLPRI][ctx().weighted(&[8, 2, 2, 1, 1, 1, 1])];
    }
    w().streams.push(s);
    if ctx().chance(1, 6) {
        w().streams[n].wfd = Some(new_fd());
    }
    ctx().log(|| format!("open {n}: {:?}", w().streams[n]));
    p().ios.push(val(V::Io(IoInner(n))));
}
fn setup(_: &mut World) {
    for _ in 0..1 + ctx().draw(4) {
        open();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Limit {
    None,
    At(f64),
    Bad,
}
fn limit() -> (Option<Value>, Limit) {
    let at = |f: f64| (Some(val(V::Float(f))), Limit::At(f));
    match ctx().weighted(&[6, 2, 3, 8, 2, 1, 1, 1]) {
        0 => (None, Limit::None),
        1 => (Some(Value::nil()), Limit::None),
        2 => {
            let i = ctx().draw(3) as i64;
            (Some(Value::integer(i)), Limit::At(i as f64))
        }
        3 => at([0.0, 0.001, 0.0305, 0.25, 1.5, 0.0000007][ctx().draw(6)]),
        4 => (Some(val(V::Float([f64::INFINITY, 1e18, 1e300][ctx().draw(3)]))), Limit::None),
        5 => (Some(val(V::Float([f64::NAN, -0.5, f64::NEG_INFINITY][ctx().draw(3)]))), Limit::Bad),
        6 => (Some(Value::integer(-1)), Limit::Bad),
        _ => (Some(val(V::Obj)), Limit::Bad),
    }
}

/// A stream for a call: the newest ones are preferred.
fn pick() -> usize {
    let n = w().streams.len();
    if ctx().chance(1, 3) { ctx().draw(n) } else { n - 1 - ctx().draw(n.min(4)) }
}

struct Done {
    r: Result<Value>,
    c: Call,
    start: u64,
}

/// Calls a method and judges what holds for every call.
fn call(name: &'static str, f: Func, self_: Value, args: Vec<Option<Value>>, wants: Vec<Want>, lim: Limit, bad: bool) -> Done {
    let t = w().cur;
    let start = w().now;
    ctx().log(|| format!("[{t}] {name} {self_:?} {args:?} at {}us", start / 1000));
    let deadline = match lim {
        Limit::At(f) => Some(start + (f * 1e9) as u64),
        _ => None,
    };
    w().tasks[t].call = Call { name, wants, deadline, busy: w().busy, active: true, ..Call::default() };
    w().sample();
    let mut vm = Executor { error: None, temp: vec![] };
    let mut g = Globals { store: Store };
    let r = f(&mut vm, &mut g, Lfp::new(self_, args), BytecodePtr);
    let c = std::mem::take(&mut w().tasks[t].call);
    ctx().log(|| format!("[{t}] => {r:?} at {}us", w().now / 1000));
    w().tasks[t].call.name = name;
    p().calls += 1;
    p().waited += c.waited as u32;
    let closed = c.wants.iter().any(|x| w().streams[x.stream].fd.is_none());
    let kind = match &r {
        Ok(v) if v.is_nil() => 0,
        Ok(_) => 1,
        Err(e) => match e.e {
            E::Raised => 2,
            E::Io => 3,
            E::Errno(_) => 4,
            _ => 5,
        },
    };
    let mut h = 0u64;
    let parked = w().tasks.iter().filter(|t| matches!(t.st, St::Parked { .. })).count() as u64;
    let mut sum = 0u64;
    for x in c.wants.iter().take(2) {
        let s = &w().streams[x.stream];
        sum = sum.wrapping_add(simcore::mix64(x.ev as u64 | (s.bits[0] as u64) << 8 | (s.buffered as u64) << 20 | (s.wfd.is_some() as u64) << 21));
    }
    for v in [name.len() as u64 * 31 + name.bytes().last().unwrap() as u64, kind, c.waited as u64, c.interrupted as u64, closed as u64, c.steps.min(4) as u64, parked, c.deadline.is_some() as u64, sum] {
        h = simcore::mix64(h ^ v);
    }
    ctx().state(h);
    let bad_args = bad || lim == Limit::Bad;
    let fail = |class: &str, msg: String| -> ! { w().abort(class, msg) };
    if bad_args {
        if c.waited {
            fail("argument", "waited with unusable arguments".into());
        }
        match &r {
            Err(e) if !matches!(e.e, E::Raised | E::Errno(_)) => {}
            r => fail("argument", format!("{r:?} with unusable arguments")),
        }
        return Done { r, c, start };
    }
    if c.interrupted != matches!(&r, Err(e) if e.e == E::Raised) {
        fail("interrupt", format!("{r:?}, interrupted: {}", c.interrupted));
    }
    if c.interrupted {
        return Done { r, c, start };
    }
    match &r {
        Err(e) => {
            let why = match e.e {
                E::Io => closed || c.failed,
                E::Errno(_) => c.failed,
                _ => false,
            };
            if !why {
                fail("error", format!("{e:?} although nothing failed"));
            }
        }
        Ok(v) => {
            if closed && !c.failed {
                fail("closed", format!("{v:?} although a stream was closed meanwhile"));
            }
            if v.is_nil() {
                if c.deadline.is_none() {
                    fail("early", "gives up without a limit".into());
                }
                // a microsecond may be lost
                if w().now + 1000 < c.deadline.unwrap() {
                    fail("early", format!("gives up at {}us, its time is over at {}us", w().now / 1000, c.deadline.unwrap() / 1000));
                }
                if w().late(&c) {
                    fail("late", format!("gives up at {}us, its time was over at {}us", w().now / 1000, c.deadline.unwrap() / 1000));
                }
            }
        }
    }
    Done { r, c, start }
}

/// What was reported must have been ready, what was not must have been
/// not.
fn judge(c: &Call, reported: &[bool]) {
    for (x, &rep) in c.wants.iter().zip(reported) {
        let what = match x.ev {
            POLLIN => "readable",
            POLLOUT => "writable",
            _ => "urgent",
        };
        if rep && !x.was {
            w().abort("wrong", format!("stream {} is reported {what} but is not", x.stream));
        }
        if !rep && !x.was_not && !c.failed {
            w().abort("missed", format!("stream {} is {what} but is not reported", x.stream));
        }
    }
}
fn want(stream: usize, ev: i16) -> Want {
    Want { stream, ev, was: false, was_not: false }
}

fn select() {
    let mut wants = vec![];
    let mut objs: Vec<Value> = vec![];
    let mut bad = false;
    let mut args = vec![];
    for (k, ev) in [POLLIN, POLLOUT, POLLPRI].into_iter().enumerate() {
        let n = if ctx().chance(1, [5, 3, 2][k]) { 0 } else { 1 + ctx().draw(3) };
        if n == 0 {
            args.push(match ctx().weighted(&[6, 6, 1]) {
                0 => Some(Value::nil()),
                1 => Some(Value::array_from_vec(vec![])),
                _ if ctx().chance(1, 4) => {
                    bad = true;
                    Some(val(V::Obj))
                }
                _ => Some(Value::nil()),
            });
            continue;
        }
        let mut a: Vec<Value> = vec![];
        let mut seen = vec![];
        for _ in 0..n {
            let s = pick();
            if seen.contains(&s) {
                continue;
            }
            seen.push(s);
            let mut v = p().ios[s];
            match ctx().weighted(&[30, 6, 1]) {
                0 => {}
                1 => v = val(V::Conv(Some(v))),
                _ if ctx().chance(1, 3) => {
                    bad = true;
                    let o = val(V::Obj);
                    v = [o, val(V::Conv(None)), val(V::Conv(Some(o)))][ctx().draw(3)];
                }
                _ => {}
            }
            bad |= w().streams[s].fd.is_none();
            a.push(v);
            objs.push(v);
            wants.push(want(s, ev));
        }
        args.push(Some(Value::array_from_vec(a)));
    }
    let (l, lim) = limit();
    if wants.is_empty() && lim == Limit::None && !w().others() {
        // nothing could ever end it
        return;
    }
    let nsets: Vec<usize> = [POLLIN, POLLOUT, POLLPRI].iter().map(|e| wants.iter().filter(|x| x.ev == *e).count()).collect();
    args.push(l);
    let d = call("IO.select", api::io_select, val(V::Obj), args, wants, lim, bad);
    if let Ok(v) = &d.r
        && !d.c.interrupted
    {
        let mut rep = vec![false; objs.len()];
        if !v.is_nil() {
            let sets = v.try_array_ty().cloned().unwrap_or_default();
            if sets.len() != 3 {
                w().abort("result", format!("{v:?}"));
            }
            let mut at = 0;
            let mut total = 0;
            for (k, s) in sets.iter().enumerate() {
                let Some(s) = s.try_array_ty() else { w().abort("result", format!("{v:?}")) };
                let mut next = 0;
                for i in at..at + nsets[k] {
                    if next < s.len() && s[next].0 == objs[i].0 {
                        rep[i] = true;
                        next += 1;
                    }
                }
                if next != s.len() {
                    w().abort("result", format!("{v:?} is not a part of what was asked for"));
                }
                total += next;
                at += nsets[k];
            }
            if total == 0 {
                w().abort("result", "nothing is reported".into());
            }
        }
        judge(&d.c, &rep);
    }
}

fn wait() {
    let s = pick();
    let io = p().ios[s];
    let closed = w().streams[s].fd.is_none();
    let (l, lim) = limit();
    let which = ctx().weighted(&[4, 3, 1, 3, 3, 1]);
    let one = |name, f: Func, ev| {
        let d = call(name, f, io, vec![l], vec![want(s, ev)], lim, closed);
        if let Ok(v) = &d.r {
            if !v.is_nil() && v.0 != io.0 {
                w().abort("result", format!("{v:?}"));
            }
            judge(&d.c, &[!v.is_nil()]);
        }
    };
    match which {
        0 => one("IO#wait_readable", api::io_wait_readable, POLLIN),
        1 => one("IO#wait_writable", api::io_wait_writable, POLLOUT),
        2 => one("IO#wait_priority", api::io_wait_priority, POLLPRI),
        3 => {
            // an event mask and a limit
            let dual = w().streams[s].wfd.is_some();
            let mut mask = 1 + ctx().draw(7) as i64;
            if dual {
                mask = [1, 4, 2][ctx().draw(3)];
            }
            let evs: Vec<(i64, i16)> = [(1, POLLIN), (2, POLLPRI), (4, POLLOUT)].into_iter().filter(|e| mask & e.0 != 0).collect();
            let mut bad = closed;
            let mut m = Value::integer(mask);
            if ctx().chance(1, 30) {
                bad = true;
                m = [Value::integer(0), Value::integer(-1), val(V::Obj)][ctx().draw(3)];
            }
            let wants = evs.iter().map(|e| want(s, e.1)).collect();
            let args = Value::array_from_vec(vec![m, l.unwrap_or_else(Value::nil)]);
            let d = call("IO#wait(events)", api::io_wait, io, vec![Some(args)], wants, lim, bad);
            if let Ok(v) = &d.r {
                let got = match v.v() {
                    V::Nil => 0,
                    V::Int(i) if *i > 0 && *i & !mask == 0 => *i,
                    _ => w().abort("result", format!("{v:?}")),
                };
                judge(&d.c, &evs.iter().map(|e| got & e.0 != 0).collect::<Vec<_>>());
            }
        }
        4 => {
            // a limit and modes
            let dual = w().streams[s].wfd.is_some();
            let modes: &[(&'static str, &[i16])] = &[
                ("r", &[POLLIN]),
                ("readable", &[POLLIN]),
                ("read", &[POLLIN]),
                ("w", &[POLLOUT]),
                ("write", &[POLLOUT]),
                ("writable", &[POLLOUT]),
                ("p", &[POLLPRI]),
                ("priority", &[POLLPRI]),
                ("rw", &[POLLIN, POLLOUT]),
                ("read_write", &[POLLIN, POLLOUT]),
                ("readable_writable", &[POLLIN, POLLOUT]),
            ];
            let (m, evs) = modes[ctx().draw(if dual { 8 } else { modes.len() })];
            let wants: Vec<Want> = evs.iter().map(|e| want(s, *e)).collect();
            let mut a = vec![val(V::Sym(m))];
            let mut bad = closed;
            if ctx().chance(1, 30) {
                bad = true;
                a.push([val(V::Sym("x")), Value::integer(1)][ctx().draw(2)]);
                if a[1].try_symbol().is_none() {
                    a.push(Value::integer(1));
                }
            }
            if let Some(l) = l {
                let at = if ctx().chance(1, 2) { 0 } else { a.len() };
                a.insert(at, l);
            }
            let d = call("IO#wait(modes)", api::io_wait, io, vec![Some(Value::array_from_vec(a))], wants, lim, bad);
            if let Ok(v) = &d.r {
                if v.is_nil() {
                    judge(&d.c, &vec![false; evs.len()]);
                } else if v.0 != io.0 {
                    w().abort("result", format!("{v:?}"));
                } else if !d.c.wants.iter().any(|x| x.was) {
                    w().abort("wrong", "the stream is reported ready but is not".into());
                }
            }
        }
        _ => {
            let d = call("IO#wait", api::io_wait, io, vec![Some(Value::array_from_vec(vec![]))], vec![want(s, POLLIN)], Limit::None, closed);
            if let Ok(v) = &d.r {
                if !v.is_nil() && v.0 != io.0 {
                    w().abort("result", format!("{v:?}"));
                }
                judge(&d.c, &[!v.is_nil()]);
            }
        }
    }
}

fn op() {
    let t = w().cur;
    match ctx().weighted(&p().wt) {
        0 => select(),
        1 => wait(),
        2 => w().change(),
        3 => {
            let s = pick();
            if w().streams[s].fd.is_some() {
                let waited = w().tasks.iter().any(|t| t.call.wants.iter().any(|x| x.stream == s));
                if waited {
                    ctx().fault("closed while waited for");
                }
                ctx().log(|| format!("[{t}] close {s}"));
                w().close(s);
                if ctx().chance(1, 2) {
                    open();
                }
            }
        }
        4 => open(),
        5 => {
            let o = ctx().draw(w().tasks.len());
            if o != t && w().tasks[o].st != St::Done {
                ctx().fault("thread interrupted");
                w().tasks[o].intr = true;
            }
        }
        6 => {
            // a read takes more than it was asked for, or the rest of it
            let s = pick();
            if !w().tasks.iter().any(|t| t.call.wants.iter().any(|x| x.stream == s)) {
                let x = &mut w().streams[s];
                x.buffered = !x.buffered;
                x.bits[0] &= !POLLIN;
                ctx().log(|| format!("[{t}] buffer of {s}: {}", w().streams[s].buffered));
            }
        }
        _ => {
            w().tasks[t].intr = false;
            let _ = w().safepoint();
        }
    }
}

fn body(t: usize) {
    while !w().ending && ctx().next_op() {
        op();
        w().cur = t;
        w().tasks[t].call = Call::default();
        // between calls nobody waits
        w().tasks[t].intr = false;
        if ctx().chance(1, 2) {
            let _ = w().safepoint();
            w().cur = t;
            w().tasks[t].intr = false;
        }
    }
}

fn run(ctx: &mut Ctx) -> RunResult {
    let mut prog = Prog::default();
    //             sel wai chg cls opn int buf yld
    prog.wt = vec![10, 10, 6, 2, 2, 2, 2, 3];
    for i in 0..prog.wt.len() {
        match ctx.weighted(&[4, 2, 1]) {
            0 => {}
            1 => prog.wt[i] = if i < 2 { 4 } else { 0 },
            _ => prog.wt[i] *= 4,
        }
    }
    prog.base = [3, 3, 3, 3, 1020, 4090][ctx.draw(6)];
    let mut rate = |a: [u32; 3]| a[ctx.weighted(&[3, 2, 1])];
    let f = Faults { eintr: rate([0, 6, 30]), fail: rate([0, 0, 6]), spurious: rate([0, 4, 20]), change: rate([0, 10, 60]) };
    let n = 1 + ctx.weighted(&[3, 3, 2, 1]);
    let ops = [4, 12, 30, 60][ctx.weighted(&[2, 3, 3, 1])];
    ctx.set_ops(ops);
    unsafe { PROG = &mut prog };
    ctx.log(|| format!("{n} threads, {f:?}"));
    let world = crate::world::run(ctx, n, f, body, setup);
    let fail = world.fail.clone();
    ctx.sim_ns = world.now.min(1 << 50);
    if prog.calls > 3 && prog.waited > 1 {
        ctx.nontrivial();
    }
    clear_values();
    match fail {
        Some((c, m)) => Err(Violation::new(c, m)),
        None => Ok(()),
    }
}

pub const PROPS: &[Prop] = &[Prop {
    quick_runs: 1_500_000,
    quick_secs: 45.0,
    rule: "A violation is reported when a call that waits for streams reports one that is not ready, leaves out one that is, gives up before its limit or without one, goes on waiting although it could end, holds up other threads, does not notice a close, loses an interrupt, or panics.",
    measure: "distinct tuples of call, outcome, waited, interrupted, closed, number of waits (up to 4), parked threads, limit given, and the set of requested events with the state of their streams",
    real: &["builtins/io.rs: IO.select, IO#wait, IO#wait_readable, IO#wait_writable, IO#wait_priority and everything of that file they call"],
    stub: &["streams, their descriptors and buffers", "the kernel's poll and select and the clock", "the rest of the machine that makes streams ready", "the scheduler's waits and safepoints (simulated in C14 and C15)", "values and argument frames"],
    assumptions: &["Linux rules for poll and select", "closing a stream wakes the threads that wait for its descriptor", "a hang-up or error may be reported for any kind of wait"],
    ..Prop::base("C39", run)
}];

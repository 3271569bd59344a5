//! External enumeration: programs that advance enumerators from the root and
//! from inside other producers, against a model of CRuby's rules.
use crate::alloc::GC;
use crate::builtins::enum_methods as em;
use crate::fib::method;
use crate::world::{ctx, w};
use crate::*;
use simcore::{Ctx, RunResult};
use std::hash::{DefaultHasher, Hash, Hasher};

pub const REAL: &[&str] = &[
    "monoruby/src/value/rvalue/enumerator.rs: whole file",
    "monoruby/src/builtins/enumerator.rs: next, next_values, peek, peek_values, rewind, feed",
    "monoruby/src/globals/store/function.rs: the body of an enumerator's fiber and the block it passes to its source",
    "monoruby/src/value/rvalue/fiber.rs, fiber part of monoruby/src/executor.rs",
];
pub const STUB: &[&str] = &[
    "assembled stack switches: same links and saved stack pointers, written in the simulator",
    "sources of enumerators: drawn programs",
    "values, frames, exceptions, method calls: stand-ins",
];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum St {
    Created,
    Suspended,
    Active,
    Dead,
}

/// A producer: one run of an enumerator's source.
struct Inst {
    e: usize,
    st: St,
    /// It was started, or the enumerator went on with another one.
    started: bool,
    dropped: bool,
    vm: *mut Executor,
    out: Option<Out>,
    /// What its pending yield returns.
    fed: Option<i64>,
}

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Yield(Vec<i64>),
    Return(i64),
    Raise(MonorubyErrKind),
}

struct E {
    obj: Value,
    src: Value,
    fib: Option<usize>,
    ahead: Option<Vec<i64>>,
    feed: Option<i64>,
    stop: Option<i64>,
    init: bool,
    /// Number that goes into method, argument and size.
    tag: i64,
    /// Rewound by its own producer: what a nested call sees is left open.
    unclear: u32,
}

#[derive(Clone, PartialEq, Debug)]
enum R {
    Vals(Vec<i64>),
    Stop(Option<i64>),
    Err(MonorubyErrKind),
}

struct Prog {
    e: Vec<E>,
    inst: Vec<Inst>,
    /// Producers that run, innermost last.
    chain: Vec<usize>,
    next: i64,
    max: usize,
    wt: Vec<u32>,
    handed: u32,
    /// What the source answers to rewind.
    hook: u32,
}

static mut PROG: *mut Prog = std::ptr::null_mut();

fn p() -> &'static mut Prog {
    unsafe { &mut *PROG }
}

fn fresh() -> i64 {
    p().next += 1;
    p().next
}

fn vm_of(me: Option<usize>) -> &'static mut Executor {
    match me {
        None => unsafe { &mut *(&mut *w().root as *mut Executor) },
        Some(i) => unsafe { &mut *p().inst[i].vm },
    }
}

fn ints(v: Value) -> Vec<i64> {
    match v.try_array() {
        Some(a) => a.iter().map(|v| v.try_int().unwrap_or(-1)).collect(),
        None => vec![-2],
    }
}

fn name(me: Option<usize>) -> String {
    me.map_or("root".into(), |i| format!("producer {i} of {}", p().e[p().inst[i].e].src.id() / 64))
}

/// The source of an enumerator is asked to rewind.
pub fn source_rewind(_: Value) -> Result<Option<Value>> {
    match p().hook {
        0 => Ok(None),
        1 => Ok(Some(Value::nil())),
        k => Err(MonorubyErr::new(MonorubyErrKind::User(-(k as i64)), "raised by rewind")),
    }
}

/// The body of an enumerator's fiber.
pub fn body(vm: *mut Executor) -> Result<Value> {
    let s = w().start.take().unwrap();
    let vm = unsafe { &mut *vm };
    method(em::enum_yielder, vm, &mut w().globals, s.self_val, vec![], None)
}

/// The source runs.
pub fn produce(vm: &mut Executor, src: Value, method: IdentId, args: &[Value]) -> Result<Value> {
    let pr = p();
    let Some(&i) = pr.chain.last() else { w().abort("producer", "a source was started that nobody asked for".into()) };
    if pr.inst[i].started || pr.e[pr.inst[i].e].src != src {
        w().abort("producer", format!("the source {} was started instead of {}", src.id() / 64, name(Some(i))));
    }
    let tag = pr.e[pr.inst[i].e].tag;
    if method != IdentId(tag as u32) || args != [Value::integer(7000 + tag)] {
        w().abort("producer", format!("{} was started with {method:?} {args:?} instead of {tag}", name(Some(i))));
    }
    pr.inst[i].started = true;
    pr.inst[i].vm = vm;
    let r = loop {
        match step(Some(i)) {
            Ok(None) => {}
            Ok(Some(v)) => break Ok(v),
            Err(e) => break Err(e),
        }
    };
    match &r {
        Ok(v) => {
            ctx().log(|| format!("{} returns {v}", name(Some(i))));
            p().inst[i].out = Some(Out::Return(*v));
        }
        Err(e) => {
            ctx().log(|| format!("{} raises {:?}", name(Some(i)), e.kind));
            p().inst[i].out = Some(Out::Raise(e.kind.clone()));
        }
    }
    p().inst[i].st = St::Dead;
    r.map(Value::integer)
}

/// One operation; a value ends the producer.
fn step(me: Option<usize>) -> Result<Option<i64>> {
    if !ctx().next_op() {
        return Ok(Some(fresh()));
    }
    let c = ctx();
    let pr = p();
    let mut wt = pr.wt.clone();
    if me.is_none() {
        wt[0] = 0;
        wt[8] = 0;
        wt[9] = 0;
    }
    match c.weighted(&wt) {
        0 => hand_over(me.unwrap()),
        k @ 1..=4 => {
            let e = c.draw(pr.e.len());
            advance(me, e, k)?;
        }
        5 => rewind(me)?,
        6 => feed(me)?,
        7 => {
            if pr.e.len() < pr.max {
                new_enum(c.chance(1, 6));
            }
        }
        8 => {
            c.fault("error raised by the source");
            return Err(MonorubyErr::new(MonorubyErrKind::User(fresh()), "raised"));
        }
        9 => return Ok(Some(fresh())),
        _ => reinit(),
    }
    check();
    Ok(None)
}

fn new_enum(uninit: bool) {
    let pr = p();
    let n = pr.e.len();
    let src = Value::plain();
    let tag = 100 + n as i64;
    ctx().log(|| format!("new enumerator {n}{}", if uninit { ", not initialized" } else { "" }));
    let inner = if uninit {
        EnumeratorInner::new_uninit()
    } else {
        EnumeratorInner::new(src, IdentId(tag as u32), Proc(n), vec![Value::integer(7000 + tag)], None, Some(Value::integer(9000 + tag)))
    };
    let obj = Value::new_enum(inner);
    pr.e.push(E { obj, src, fib: None, ahead: None, feed: None, stop: None, init: !uninit, tag, unclear: 0 });
}

fn reinit() {
    let pr = p();
    let e = ctx().draw(pr.e.len());
    if active(e) {
        return;
    }
    pr.e[e].tag += 20;
    let tag = pr.e[e].tag;
    ctx().log(|| format!("enumerator {e} is initialized again"));
    pr.e[e].obj.enumerator_inner().initialize(pr.e[e].src, IdentId(tag as u32), Proc(e), vec![Value::integer(7000 + tag)], None, Some(Value::integer(9000 + tag)));
    drop_producer(e);
    let x = &mut pr.e[e];
    x.ahead = None;
    x.feed = None;
    x.stop = None;
    x.init = true;
}

fn active(e: usize) -> bool {
    p().chain.iter().any(|i| p().inst[*i].e == e)
}

/// The enumerator goes on without its producer.
fn drop_producer(e: usize) {
    let pr = p();
    if let Some(i) = pr.e[e].fib.take() {
        pr.inst[i].dropped = true;
        if pr.inst[i].st == St::Suspended {
            w().park.insert(pr.inst[i].vm as usize, crate::world::Park::Collected);
        }
    }
}

fn rewind(me: Option<usize>) -> Result<()> {
    let pr = p();
    let c = ctx();
    let e = c.draw(pr.e.len());
    if pr.e[e].unclear > 0 {
        return Ok(());
    }
    pr.hook = [0, 1, 5][c.weighted(&[4, 2, 1])];
    c.log(|| format!("{}: rewind {e} (source answers {})", name(me), pr.hook));
    let r = method(em::rewind, vm_of(me), &mut w().globals, pr.e[e].obj, vec![], None);
    if !pr.e[e].init {
        return uninit(r.err());
    }
    if pr.hook == 5 {
        c.fault("source refuses to rewind");
        return match r {
            Err(x) if x.kind == MonorubyErrKind::User(-5) => rescue(x),
            r => w().abort("rewind", format!("rewind of {e} gave {r:?}; its source had raised")),
        };
    }
    if !r.as_ref().is_ok_and(|v| *v == pr.e[e].obj) {
        w().abort("rewind", format!("rewind of {e} gave {r:?}"));
    }
    if active(e) {
        c.fault("rewound by its own producer");
        pr.e[e].unclear = pr.chain.iter().filter(|i| pr.inst[**i].e == e).count() as u32;
    }
    drop_producer(e);
    let x = &mut pr.e[e];
    x.ahead = None;
    x.feed = None;
    x.stop = None;
    Ok(())
}

fn uninit(e: Option<MonorubyErr>) -> Result<()> {
    ctx().fault("not initialized");
    match e {
        Some(x) if x.kind == MonorubyErrKind::Argument => rescue(x),
        x => w().abort("uninitialized", format!("an enumerator without a source gave {x:?}")),
    }
}

fn feed(me: Option<usize>) -> Result<()> {
    let pr = p();
    let c = ctx();
    let e = c.draw(pr.e.len());
    if pr.e[e].unclear > 0 {
        return Ok(());
    }
    let v = fresh();
    c.log(|| format!("{}: feed {e} {v}", name(me)));
    let r = method(em::feed, vm_of(me), &mut w().globals, pr.e[e].obj, vec![Some(Value::integer(v))], None);
    if !pr.e[e].init {
        return uninit(r.err());
    }
    match (pr.e[e].feed, r) {
        (None, Ok(_)) => {
            pr.e[e].feed = Some(v);
            Ok(())
        }
        (Some(_), Err(x)) if x.kind == MonorubyErrKind::Argument => {
            c.fault("fed twice");
            rescue(x)
        }
        (had, r) => w().abort("feed", format!("feed of {e} with {had:?} already fed gave {r:?}")),
    }
}

/// The program rescues an error, or lets it pass.
fn rescue(e: MonorubyErr) -> Result<()> {
    if ctx().chance(2, 3) {
        ctx().log(|| format!("rescued {:?}", e.kind));
        return Ok(());
    }
    Err(e)
}

/// The producer passes values to whoever asked for them.
fn hand_over(i: usize) {
    let pr = p();
    let c = ctx();
    let vals: Vec<i64> = (0..c.weighted(&[1, 6, 3, 1])).map(|_| fresh()).collect();
    c.log(|| format!("{} yields {vals:?}", name(Some(i))));
    pr.inst[i].out = Some(Out::Yield(vals.clone()));
    pr.inst[i].st = St::Suspended;
    let a = Value::array_from_vec(vals.iter().map(|v| Value::integer(*v)).collect());
    let r = method(em::yielder, vm_of(Some(i)), &mut w().globals, Value::nil(), vec![Some(a)], None);
    let pr = p();
    if pr.chain.last() != Some(&i) || pr.inst[i].st != St::Active || pr.inst[i].dropped {
        w().abort("producer", format!("{} went on although nobody asked it to", name(Some(i))));
    }
    let want = pr.inst[i].fed.take();
    let got = r.as_ref().ok().map(|v| v.try_int());
    if got != Some(want) {
        w().abort("feed", format!("the yield of {} returned {r:?}; {want:?} had been fed", name(Some(i))));
    }
    if want.is_some() {
        ctx().probe("value fed");
    }
}

fn advance(me: Option<usize>, e: usize, kind: usize) -> Result<()> {
    let pr = p();
    let peek = kind >= 3;
    let what = ["", "next", "next_values", "peek", "peek_values"][kind];
    let f = [em::next, em::next, em::next_values, em::peek, em::peek_values][kind];
    if pr.e[e].unclear > 0 {
        return Ok(());
    }
    ctx().log(|| format!("{}: {what} {e}", name(me)));
    let obj = pr.e[e].obj;
    let go = move || method(f, vm_of(me), &mut w().globals, obj, vec![], None);
    if !pr.e[e].init {
        return uninit(go().err());
    }
    // what must come
    let (r, want) = if let Some(a) = pr.e[e].ahead.clone() {
        if !peek {
            pr.e[e].ahead = None;
        }
        ctx().probe("look-ahead");
        (go(), R::Vals(a))
    } else if let Some(v) = pr.e[e].stop {
        ctx().probe("asked after the end");
        (go(), R::Stop(Some(v)))
    } else {
        if pr.e[e].fib.is_none_or(|i| pr.inst[i].st == St::Dead) {
            pr.e[e].fib = Some(pr.inst.len());
            pr.inst.push(Inst {
                e,
                st: St::Created,
                started: false,
                dropped: false,
                vm: std::ptr::null_mut(),
                out: None,
                fed: None,
            });
        }
        let i = pr.e[e].fib.unwrap();
        if pr.inst[i].st == St::Active {
            ctx().fault("asked by its own producer");
            (go(), R::Err(MonorubyErrKind::Fiber))
        } else {
            if pr.inst[i].st == St::Suspended {
                pr.inst[i].fed = pr.e[e].feed.take();
            }
            pr.inst[i].st = St::Active;
            pr.inst[i].out = None;
            pr.chain.push(i);
            let r = go();
            let pr = p();
            if pr.chain.pop() != Some(i) {
                w().abort("[harness] chain", "chain".into());
            }
            let Some(out) = pr.inst[i].out.take() else {
                w().abort("producer", format!("{what} of {e} returned {r:?} without running its producer"))
            };
            let x = &mut pr.e[e];
            if x.unclear > 0 {
                x.unclear -= 1;
            }
            let want = match out {
                Out::Yield(v) => {
                    if peek {
                        x.ahead = Some(v.clone());
                    }
                    pr.handed += 1;
                    R::Vals(v)
                }
                Out::Return(v) => {
                    x.stop = Some(v);
                    x.ahead = None;
                    x.feed = None;
                    x.fib = None;
                    R::Stop(Some(v))
                }
                Out::Raise(MonorubyErrKind::StopIteration) => {
                    x.fib = None;
                    R::Stop(None)
                }
                Out::Raise(k) => {
                    x.fib = None;
                    R::Err(k)
                }
            };
            if pr.inst[i].dropped && pr.inst[i].st == St::Suspended {
                w().park.insert(pr.inst[i].vm as usize, crate::world::Park::Collected);
            }
            (r, want)
        }
    };
    let values = kind == 2 || kind == 4;
    let ok = match (&r, &want) {
        (Ok(v), R::Vals(a)) => {
            if values || a.len() > 1 {
                v.try_array().is_some() && ints(*v) == *a
            } else {
                v.try_int() == a.first().copied() && (!a.is_empty() || v.is_nil())
            }
        }
        (Err(x), R::Stop(v)) => x.kind == MonorubyErrKind::StopIteration && (v.is_none() || x.result.and_then(|r| r.try_int()) == *v),
        (Err(x), R::Err(k)) => x.kind == *k,
        _ => false,
    };
    if !ok {
        w().abort("result", format!("{what} of {e} gave {:?}; {want:?} was due", r.map(|v| if v.try_array().is_some() { format!("{:?}", ints(v)) } else { format!("{v:?}") })));
    }
    match r {
        Ok(v) => {
            // the caller may do with its array what it likes
            if let Some(a) = v.elements()
                && ctx().chance(1, 4)
            {
                ctx().log(|| "the array is changed by the caller".into());
                a.push(Value::integer(-9));
                a.remove(0);
            }
            Ok(())
        }
        Err(x) => rescue(x),
    }
}

/// What a collection reaches, and the state that was seen.
fn check() {
    let pr = p();
    let mut h = DefaultHasher::new();
    for (k, x) in pr.e.iter().enumerate() {
        let st = x.fib.map(|i| pr.inst[i].st);
        (st, x.ahead.as_ref().map(|a| a.len()), x.feed.is_some(), x.stop.is_some(), x.init, x.unclear).hash(&mut h);
        if !x.init || x.unclear > 0 || active(k) {
            continue;
        }
        let mut a = crate::alloc::Allocator::new();
        x.obj.enumerator_inner().mark(&mut a);
        let mut due: Vec<i64> = x.ahead.iter().flatten().copied().collect();
        due.extend(x.feed);
        due.extend(x.stop);
        due.push(7000 + x.tag);
        due.push(9000 + x.tag);
        let seen = due.iter().all(|v| a.values.contains(&Value::integer(*v).id()))
            && a.values.contains(&x.src.id())
            && a.procs.contains(&k)
            && x.fib.is_none_or(|i| pr.inst[i].st != St::Suspended || a.execs.contains(&(pr.inst[i].vm as usize)));
        if !seen {
            w().abort("mark", format!("a collection does not reach all that enumerator {k} needs"));
        }
    }
    for i in &pr.chain {
        pr.inst[*i].e.hash(&mut h);
    }
    ctx().state(h.finish());
}

fn root() {
    new_enum(false);
    let g = GeneratorInner::new(Proc(3));
    let mut a = crate::alloc::Allocator::new();
    g.mark(&mut a);
    if !a.procs.contains(&3) || !a.values.contains(&g.yielder().id()) {
        w().abort("mark", "a collection does not reach all that a generator needs".into());
    }
    while ctx().next_op() {
        if let Err(e) = step(None) {
            ctx().log(|| format!("root got {:?}", e.kind));
        }
    }
}

pub fn run(ctx: &mut Ctx) -> RunResult {
    let mut prog = Prog { e: vec![], inst: vec![], chain: vec![], next: 0, max: 0, wt: vec![], handed: 0, hook: 0 };
    //              yld nxt nvs pek pvs rew fed new err ret ini
    prog.wt = vec![14, 8, 3, 4, 3, 2, 3, 2, 1, 2, 1];
    for k in [2usize, 3, 4, 5, 6, 8, 9, 10] {
        match ctx.weighted(&[3, 2, 1]) {
            0 => {}
            1 => prog.wt[k] = 0,
            _ => prog.wt[k] *= 4,
        }
    }
    prog.max = 1 + ctx.draw(4);
    let ops = [12, 25, 50, 120][ctx.weighted(&[2, 3, 3, 1])];
    ctx.set_ops(ops);
    unsafe { PROG = &mut prog };
    heap().clear();
    let world = crate::world::run(ctx, (root, body));
    if prog.handed >= 3 {
        ctx.nontrivial();
    }
    crate::fib::end(&world)
}

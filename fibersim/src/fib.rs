//! C34: programs of fibers against the rules of control transfer.
use crate::builtins::methods;
use crate::world::{Park, ctx, w};
use crate::*;
use simcore::{Ctx, Prop, RunResult, Violation};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ptr::NonNull;

const REAL: &[&str] = &[
    "monoruby/src/value/rvalue/fiber.rs: whole file, with its stack allocation",
    "monoruby/src/builtins/fiber.rs: Fiber.new, .yield, .current, #resume, #transfer, #raise, #kill, #alive?",
    "monoruby/src/executor.rs: the fiber part of the executor and the hook at the end of a body",
];
const STUB: &[&str] = &[
    "assembled stack switches: same links and saved stack pointers, written in the simulator",
    "fiber bodies: drawn programs",
    "values, frames, exceptions, the running thread: stand-ins",
    "collector: a fiber nobody can reach is marked and must not be entered again",
];

pub fn props() -> &'static [Prop] {
    static P: &[Prop] = &[Prop {
        rule: "runs with at least three switches between fibers",
        measure: "distinct states of the fiber graph (who waits for whom, yielded, killed, finished, running)",
        real: REAL,
        stub: STUB,
        quick_runs: 2_000_000,
        ..Prop::base("C34", run34)
    }, Prop {
        rule: "runs with at least three switches between fibers",
        measure: "distinct states of the fiber graph with the storage of each fiber",
        real: REAL,
        stub: STUB,
        quick_runs: 1_000_000,
        ..Prop::base("C35", run35)
    }, Prop {
        rule: "runs with at least three values handed over",
        measure: "distinct states of the enumerators (producer, look-ahead, fed value, end) and who drives whom",
        real: crate::enu::REAL,
        stub: crate::enu::STUB,
        quick_runs: 2_000_000,
        ..Prop::base("C36", crate::enu::run)
    }];
    P
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum St {
    Created,
    Live,
    Dead,
}

#[derive(Clone, Hash, Debug)]
struct F {
    st: St,
    prev: Option<usize>,
    resuming: Option<usize>,
    yielding: bool,
    killed: bool,
    iter: bool,
    storage: Option<BTreeMap<usize, i64>>,
    blocking: bool,
}

#[derive(Clone, Hash, Debug, Default)]
struct Model {
    f: Vec<F>,
    cur: usize,
}

/// What arrives where control arrives.
#[derive(Clone, PartialEq, Debug)]
enum D {
    Nil,
    Int(i64),
    Arr(Vec<D>),
    Obj(u64),
    Err(MonorubyErrKind),
    Start(Vec<D>),
}

#[derive(Clone, Debug)]
struct Alt {
    m: Model,
    d: D,
}

struct Prog {
    m: Model,
    alts: Vec<Alt>,
    vm: Vec<*mut Executor>,
    obj: Vec<Option<Value>>,
    gone: Vec<bool>,
    wt: Vec<u32>,
    next: i64,
    max: usize,
    /// An executor the root moved away from.
    old: Option<Box<Executor>>,
}

static mut PROG: *mut Prog = std::ptr::null_mut();

fn p() -> &'static mut Prog {
    unsafe { &mut *PROG }
}

fn describe(v: Value) -> D {
    if v.is_nil() {
        D::Nil
    } else if let Some(i) = v.try_int() {
        D::Int(i)
    } else if let Some(a) = v.try_array() {
        D::Arr(a.iter().map(|v| describe(*v)).collect())
    } else {
        D::Obj(v.id())
    }
}

fn pass(args: &[i64]) -> D {
    match args {
        [] => D::Nil,
        [a] => D::Int(*a),
        _ => D::Arr(ints(args)),
    }
}

fn ints(args: &[i64]) -> Vec<D> {
    args.iter().map(|a| D::Int(*a)).collect()
}

const MISUSE: D = D::Err(MonorubyErrKind::Fiber);
const KILL: D = D::Err(MonorubyErrKind::FiberKill);

impl Model {
    fn here(&self, d: D) -> Vec<Alt> {
        vec![Alt { m: self.clone(), d }]
    }

    fn resumable(&self, f: usize) -> bool {
        let x = &self.f[f];
        f != self.cur && x.prev.is_none() && x.resuming.is_none() && (x.st == St::Created || x.st == St::Live && x.yielding)
    }

    fn transferable(&self, f: usize) -> bool {
        let x = &self.f[f];
        x.st != St::Dead && x.resuming.is_none() && !x.yielding
    }

    fn enter_resumed(&self, f: usize, start: Vec<D>, d: D) -> Vec<Alt> {
        let mut m = self.clone();
        m.f[m.cur].resuming = Some(f);
        m.f[f].prev = Some(m.cur);
        m.enter(f, start, d)
    }

    fn enter(mut self, f: usize, start: Vec<D>, d: D) -> Vec<Alt> {
        let d = if self.f[f].st == St::Created { D::Start(start) } else { d };
        self.f[f].st = St::Live;
        self.f[f].yielding = false;
        self.cur = f;
        vec![Alt { m: self, d }]
    }

    fn resume(&self, f: usize, args: &[i64]) -> Vec<Alt> {
        if !self.resumable(f) {
            return self.here(MISUSE);
        }
        self.enter_resumed(f, ints(args), pass(args))
    }

    fn transfer(&self, f: usize, args: &[i64]) -> Vec<Alt> {
        if !self.transferable(f) {
            return self.here(MISUSE);
        }
        if f == self.cur {
            return self.here(pass(args));
        }
        self.clone().enter(f, ints(args), pass(args))
    }

    fn leave(&self, d: D) -> Vec<Alt> {
        let mut m = self.clone();
        let c = m.cur;
        let to = match m.f[c].prev.take() {
            Some(p) => {
                m.f[p].resuming = None;
                p
            }
            None => m.deepest(0),
        };
        m.enter(to, vec![], d)
    }

    fn yields(&self, d: D) -> Vec<Alt> {
        if self.f[self.cur].prev.is_none() {
            return self.here(MISUSE);
        }
        let mut m = self.clone();
        m.f[m.cur].yielding = true;
        m.leave(d)
    }

    /// The body of the running fiber ended.
    fn ends(&self, d: D) -> Vec<Alt> {
        let mut m = self.clone();
        let c = m.cur;
        m.f[c].st = St::Dead;
        // the kill of a fiber ends with it
        let d = if m.f[c].killed && d == KILL { D::Nil } else { d };
        m.leave(d)
    }

    fn deepest(&self, mut f: usize) -> usize {
        while let Some(n) = self.f[f].resuming {
            f = n;
        }
        f
    }

    fn inject(&self, f: usize, d: D) -> Vec<Alt> {
        if self.f[f].yielding { self.enter_resumed(f, vec![], d) } else { self.clone().enter(f, vec![], d) }
    }

    fn raise(&self, f: usize, d: D) -> Vec<Alt> {
        if f == self.cur {
            return self.here(d);
        }
        match self.f[f].st {
            St::Created | St::Dead => self.here(MISUSE),
            St::Live => {
                let deep = self.deepest(f);
                if deep == self.cur {
                    return self.here(d);
                }
                let mut a = self.inject(deep, d.clone());
                if deep != f {
                    // the innermost fiber waited for, or the caller whose
                    // unwinding reaches it
                    a.extend(self.here(d));
                }
                a
            }
        }
    }

    fn kill(&self, f: usize) -> Vec<Alt> {
        if f == 0 {
            return self.here(MISUSE);
        }
        match self.f[f].st {
            St::Dead => [self.here(MISUSE), self.here(D::Nil)].concat(),
            St::Created => {
                let mut m = self.clone();
                m.f[f].st = St::Dead;
                m.here(D::Nil)
            }
            St::Live => {
                let mut m = self.clone();
                let again = std::mem::replace(&mut m.f[f].killed, true);
                let mut a = m.raise(f, KILL);
                if again {
                    a.extend(self.here(D::Nil));
                }
                a
            }
        }
    }

    fn next(&self, f: usize, feed: D, start: Vec<D>) -> Vec<Alt> {
        if self.f[f].st == St::Dead {
            return self.here(D::Err(MonorubyErrKind::StopIteration));
        }
        if !self.resumable(f) {
            return self.here(MISUSE);
        }
        self.enter_resumed(f, start, feed)
    }
}

/// Control arrived in `me`: compares with what the rules say.
fn arrive(me: usize, d: D, any: bool) {
    let pr = p();
    let hit = pr.alts.iter().position(|a| {
        a.m.cur == me && (a.d == d || any && !matches!(a.d, D::Err(_) | D::Start(_)) && !matches!(d, D::Err(_) | D::Start(_)))
    });
    let Some(i) = hit else {
        let want: Vec<String> = pr.alts.iter().map(|a| format!("fiber {} with {:?}", a.m.cur, a.d)).collect();
        w().abort("control", format!("fiber {me} received {d:?}; the rules say {}", want.join(" or ")));
    };
    pr.m = pr.alts.swap_remove(i).m;
    pr.alts.clear();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    pr.m.hash(&mut h);
    ctx().state(h.finish());
    ctx().log(|| format!("  fiber {me} gets {d:?}"));
}

fn call(me: usize, alts: Vec<Alt>, any: bool, f: impl FnOnce(&mut Executor, &mut Globals) -> Result<Value>) -> Result<Value> {
    p().alts = alts;
    let vm = unsafe { &mut *p().vm[me] };
    let r = f(vm, &mut w().globals);
    arrive(
        me,
        match &r {
            Ok(v) => describe(*v),
            Err(e) => D::Err(e.kind.clone()),
        },
        any,
    );
    r
}

pub fn method(
    f: fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>,
    vm: &mut Executor,
    g: &mut Globals,
    self_val: Value,
    args: Vec<Option<Value>>,
    block: Option<usize>,
) -> Result<Value> {
    let mut fr = Frame { self_val, args, block };
    f(vm, g, Lfp(NonNull::from(&mut fr)), BytecodePtr)
}

fn arr(args: &[i64]) -> Vec<Option<Value>> {
    vec![Some(Value::array_from_iter(args.iter().map(|i| Value::integer(*i))))]
}

fn args() -> Vec<i64> {
    let n = ctx().weighted(&[4, 2, 1, 1]);
    let n = [1, 0, 2, 3][n];
    (0..n)
        .map(|_| {
            p().next += 1;
            p().next
        })
        .collect()
}

/// A fiber to act on: mostly one the rules allow.
fn pick(ok: impl Fn(usize) -> bool) -> Option<usize> {
    let all: Vec<usize> = (0..p().m.f.len()).filter(|f| !p().gone[*f] && p().obj[*f].is_some() && !p().m.f[*f].iter).collect();
    let good: Vec<usize> = all.iter().copied().filter(|f| ok(*f)).collect();
    let v = if !good.is_empty() && !ctx().chance(1, 6) { good } else { all };
    if v.is_empty() { None } else { Some(v[ctx().draw(v.len())]) }
}

fn add(vm: *mut Executor, obj: Option<Value>, iter: bool, storage: Option<BTreeMap<usize, i64>>, blocking: bool) {
    let pr = p();
    pr.m.f.push(F { st: St::Created, prev: None, resuming: None, yielding: false, killed: false, iter, storage, blocking });
    pr.vm.push(vm);
    pr.obj.push(obj);
    pr.gone.push(false);
}

/// The enumerator is only handed through.
fn as_enum(o: Value) -> Enumerator {
    unsafe { std::mem::transmute(o) }
}

fn sym(s: &str) -> Value {
    Value::symbol(IdentId::get_id(s))
}

const KEYS: [&str; 3] = ["a", "b", "c"];

fn hash_from(v: Vec<(Value, Value)>) -> Value {
    let h = Value::hash(RubyMap);
    *h.entries().unwrap() = v;
    h
}

fn hash_of(m: &BTreeMap<usize, i64>) -> Value {
    hash_from(m.iter().map(|(k, v)| (sym(KEYS[*k]), Value::integer(*v))).collect())
}

fn map_of(v: Value) -> Option<BTreeMap<usize, i64>> {
    let h = v.entries()?;
    Some(h.iter().map(|(k, v)| (KEYS.iter().position(|s| sym(s) == *k).unwrap_or(9), v.try_int().unwrap_or(-1))).collect())
}

fn some_map() -> BTreeMap<usize, i64> {
    let mut m = BTreeMap::new();
    for _ in 0..ctx().draw(3) {
        p().next += 1;
        m.insert(ctx().draw(3), p().next);
    }
    m
}

/// The program goes on using a hash of its own.
fn scribble(h: Value) {
    let e = h.entries().unwrap();
    e.retain(|x| x.0 != sym("a"));
    e.push((sym("a"), Value::integer(-7)));
}

fn storage(me: usize) -> Result<()> {
    let c = ctx();
    let pr = p();
    let vm = unsafe { &mut *pr.vm[me] };
    let g = &mut w().globals;
    let here = pr.m.f[me].storage.clone();
    match c.draw(8) {
        0 => {
            let k = c.draw(3);
            let r = method(methods::class_storage_get, vm, g, Value::nil(), vec![Some(sym(KEYS[k]))], None)?;
            let want = here.as_ref().and_then(|m| m.get(&k).copied()).map_or(D::Nil, D::Int);
            c.log(|| format!("fiber {me}: reads {} = {want:?}", KEYS[k]));
            if describe(r) != want {
                w().abort("storage", format!("fiber {me} reads {:?} for {}; {want:?} was stored", describe(r), KEYS[k]));
            }
        }
        1 | 2 => {
            let k = c.draw(3);
            pr.next += 1;
            let v = pr.next;
            let del = c.chance(1, 5);
            c.log(|| format!("fiber {me}: stores {} = {}", KEYS[k], if del { "nil".into() } else { v.to_string() }));
            let val = if del { Value::nil() } else { Value::integer(v) };
            method(methods::class_storage_set, vm, g, Value::nil(), vec![Some(sym(KEYS[k])), Some(val)], None)?;
            let m = pr.m.f[me].storage.get_or_insert_default();
            if del {
                m.remove(&k);
            } else {
                m.insert(k, v);
            }
        }
        3 => {
            let Some(o) = pr.obj[me] else { return Ok(()) };
            let r = method(methods::storage_get, vm, g, o, vec![], None)?;
            c.log(|| format!("fiber {me}: storage is {here:?}"));
            let got = map_of(r);
            // none and empty read alike
            if got.clone().unwrap_or_default() != here.clone().unwrap_or_default() {
                w().abort("storage", format!("fiber {me} has storage {got:?}; {here:?} was stored"));
            }
            if r.entries().is_some() {
                scribble(r);
            }
        }
        4 => {
            let Some(o) = pr.obj[me] else { return Ok(()) };
            let m = if c.chance(1, 5) { None } else { Some(some_map()) };
            c.log(|| format!("fiber {me}: storage = {m:?}"));
            let h = m.as_ref().map_or(Value::nil(), hash_of);
            method(methods::storage_set, vm, g, o, vec![Some(h)], None)?;
            if m.is_some() {
                scribble(h);
            }
            pr.m.f[me].storage = m;
        }
        6 => {
            // what a new thread starts with
            c.log(|| format!("fiber {me}: new thread"));
            let r = methods::current_fiber_storage(vm, g)?;
            let got = r.and_then(map_of);
            if got.clone().unwrap_or_default() != here.clone().unwrap_or_default() {
                w().abort("storage", format!("a thread created by fiber {me} starts with {got:?}; {here:?} was stored"));
            }
            if let Some(h) = r {
                scribble(h);
            }
        }
        7 => {
            c.fault("bad storage");
            let bad = match c.draw(3) {
                0 => Value::integer(5),
                1 => hash_from(vec![(sym("a"), Value::integer(1)), (Value::integer(3), Value::integer(1))]),
                _ => {
                    c.log(|| format!("fiber {me}: stores under a number"));
                    let r = method(methods::class_storage_set, vm, g, Value::nil(), vec![Some(Value::integer(3)), Some(Value::integer(1))], None);
                    if r.is_ok() {
                        w().abort("storage", format!("fiber {me} stored under a key that is no symbol"));
                    }
                    return Ok(());
                }
            };
            c.log(|| format!("fiber {me}: bad storage"));
            let r = match pr.obj[me] {
                Some(o) if c.chance(1, 2) => method(methods::storage_set, vm, g, o, vec![Some(bad)], None),
                _ => method(methods::fiber_new, vm, g, Value::nil(), vec![Some(hash_from(vec![(sym("storage"), bad)]))], Some(77)),
            };
            if r.is_ok() {
                w().abort("storage", format!("fiber {me} was given a storage that is no table of symbols"));
            }
        }
        _ => {
            let Some(f) = pick(|f| f != me) else { return Ok(()) };
            if f == me {
                return Ok(());
            }
            let set = c.chance(1, 2);
            c.log(|| format!("fiber {me}: {} the storage of {f}", if set { "sets" } else { "reads" }));
            c.fault("storage of another fiber");
            let o = pr.obj[f].unwrap();
            let r = if set {
                method(methods::storage_set, vm, g, o, vec![Some(hash_of(&some_map()))], None)
            } else {
                method(methods::storage_get, vm, g, o, vec![], None)
            };
            match r {
                Err(e) if e.kind == MonorubyErrKind::Argument => {}
                r => w().abort("storage", format!("fiber {me} accessed the storage of fiber {f}: {r:?}")),
            }
        }
    }
    Ok(())
}

fn check_blocking(me: usize) {
    let pr = p();
    let vm = unsafe { &mut *pr.vm[me] };
    let r = method(methods::class_blocking_p, vm, &mut w().globals, Value::nil(), vec![], None);
    let want = pr.m.f[me].blocking;
    if !pr.m.f[me].iter && r.as_ref().is_ok_and(|v| v.as_bool()) != want {
        w().abort("blocking", format!("Fiber.blocking? of fiber {me} says {}", !want));
    }
    for f in 1..pr.m.f.len() {
        if pr.gone[f] || pr.m.f[f].iter {
            continue;
        }
        let r = method(methods::blocking_p, vm, &mut w().globals, pr.obj[f].unwrap(), vec![], None);
        if r.is_ok_and(|v| v.as_bool()) != pr.m.f[f].blocking {
            w().abort("blocking", format!("blocking? of fiber {f} says {}", !pr.m.f[f].blocking));
        }
    }
}

/// The block of Fiber.blocking.
pub fn in_block(bh: usize, args: &[Value]) -> Result<Value> {
    let me = bh / 8;
    let pr = p();
    if args.len() != 1 || pr.obj[me].is_some_and(|o| o != args[0]) {
        w().abort("current", format!("the block in fiber {me} was given another fiber"));
    }
    pr.obj[me] = Some(args[0]);
    check_blocking(me);
    block(me, bh % 8 + 1, usize::MAX)
}

enum Flow {
    On,
    Return(Value),
}

fn one(me: usize, depth: usize) -> Result<Flow> {
    let c = ctx();
    let pr = p();
    let n = pr.m.f.len();
    match c.weighted(&pr.wt) {
        0 => {
            let Some(f) = pick(|f| p().m.resumable(f)) else { return Ok(Flow::On) };
            let a = args();
            ctx().log(|| format!("fiber {me}: resume {f} {a:?}"));
            let alts = p().m.resume(f, &a);
            if alts[0].d == MISUSE {
                ctx().fault("misuse");
            }
            let o = p().obj[f].unwrap();
            call(me, alts, false, |vm, g| method(methods::resume, vm, g, o, arr(&a), None))?;
        }
        1 => {
            let a = args();
            ctx().log(|| format!("fiber {me}: yield {a:?}"));
            let alts = p().m.yields(pass(&a));
            if alts[0].d == MISUSE {
                ctx().fault("misuse");
            }
            if a.len() == 1 && (p().m.f[me].iter || ctx().chance(1, 3)) {
                call(me, alts, false, |vm, _| vm.yield_fiber(Value::integer(a[0])))?;
            } else {
                call(me, alts, false, |vm, g| method(methods::fiber_yield, vm, g, Value::nil(), arr(&a), None))?;
            }
        }
        2 if n < pr.max => {
            let mut kw = vec![];
            let mut storage = pr.m.f[me].storage.clone();
            let mut blocking = false;
            let mut given = None;
            if pr.wt[15] > 0 && c.chance(1, 2) {
                match c.draw(4) {
                    0 => {}
                    1 => {
                        kw.push((sym("storage"), Value::nil()));
                        storage = None;
                    }
                    2 => kw.push((sym("storage"), Value::bool(true))),
                    _ => {
                        let m = some_map();
                        given = Some(hash_of(&m));
                        kw.push((sym("storage"), given.unwrap()));
                        storage = Some(m);
                    }
                }
            }
            if c.chance(1, 8) {
                blocking = c.chance(1, 2);
                kw.push((sym("blocking"), Value::bool(blocking)));
            }
            c.log(|| format!("fiber {me}: new fiber {n} storage {storage:?} blocking {blocking}"));
            let kw = if kw.is_empty() { None } else { Some(hash_from(kw)) };
            let vm = unsafe { &mut *pr.vm[me] };
            let r = method(methods::fiber_new, vm, &mut w().globals, Value::nil(), vec![kw], Some(n));
            let v = match r {
                Ok(v) => v,
                Err(e) => w().abort("new", format!("Fiber.new raised {e:?}")),
            };
            // the caller's hash is not the fiber's
            if let Some(g) = given {
                scribble(g);
            }
            add(v.fiber_inner().executor_ptr(), Some(v), false, storage, blocking);
        }
        3 => {
            let Some(f) = pick(|f| p().m.transferable(f)) else { return Ok(Flow::On) };
            let a = args();
            ctx().log(|| format!("fiber {me}: transfer {f} {a:?}"));
            let alts = p().m.transfer(f, &a);
            ctx().fault(if alts[0].d == MISUSE { "misuse" } else { "transfer" });
            let o = p().obj[f].unwrap();
            call(me, alts, false, |vm, g| method(methods::transfer, vm, g, o, arr(&a), None))?;
        }
        4 if depth < 3 => {
            c.log(|| format!("fiber {me}: begin"));
            let r = block(me, depth + 1, usize::MAX);
            if let Err(e) = r {
                let caught = e.kind != MonorubyErrKind::FiberKill && ctx().chance(1, 2);
                ctx().log(|| format!("fiber {me}: {} {:?}", if caught { "rescued" } else { "ensure for" }, e.kind));
                let k = ctx().weighted(&[3, 1, 1, 1]);
                if k > 0 {
                    ctx().fault("operations while unwinding");
                    block(me, depth + 1, k)?;
                }
                if !caught {
                    return Err(e);
                }
            }
        }
        5 => {
            let Some(f) = pick(|f| p().m.f[f].st == St::Live) else { return Ok(Flow::On) };
            p().next += 1;
            let e = p().next;
            ctx().log(|| format!("fiber {me}: raise {e} in {f}"));
            ctx().fault("error raised in another fiber");
            let alts = p().m.raise(f, D::Err(MonorubyErrKind::User(e)));
            let o = p().obj[f].unwrap();
            call(me, alts, false, |vm, g| method(methods::fiber_raise, vm, g, o, vec![Some(Value::integer(e))], None))?;
        }
        6 => {
            let Some(f) = pick(|f| p().m.f[f].st != St::Dead && f != 0) else { return Ok(Flow::On) };
            // a kill that has to pass a fiber being killed itself
            if p().m.f[f].resuming.is_some() {
                let mut x = p().m.deepest(f);
                let mut unclear = p().m.f[me].killed || p().m.f[x].killed;
                while x != f {
                    unclear |= p().m.f[x].killed;
                    match p().m.f[x].prev {
                        Some(q) => x = q,
                        None => break,
                    }
                }
                if unclear {
                    return Ok(Flow::On);
                }
            }
            ctx().log(|| format!("fiber {me}: kill {f}"));
            ctx().fault("fiber killed");
            let alts = p().m.kill(f);
            let o = p().obj[f].unwrap();
            call(me, alts, true, |vm, g| method(methods::kill, vm, g, o, vec![], None))?;
        }
        7 => {
            let v: Vec<usize> = (0..n).filter(|f| pr.m.f[*f].iter && !pr.gone[*f]).collect();
            if v.is_empty() {
                return Ok(Flow::On);
            }
            let f = v[c.draw(v.len())];
            let o = pr.obj[f].unwrap();
            let mut fb = Fiber::new(o);
            if c.chance(1, 3) {
                p().next += 1;
                let y = p().next;
                ctx().log(|| format!("fiber {me}: generator next {f} {y}"));
                let alts = p().m.next(f, D::Nil, vec![D::Int(y)]);
                call(me, alts, false, |vm, g| fb.generator_yield_values(vm, g, Value::integer(y)))?;
            } else {
                p().next += 1;
                let y = p().next;
                ctx().log(|| format!("fiber {me}: enumerator next {f} {y}"));
                let alts = p().m.next(f, D::Int(y), vec![]);
                call(me, alts, false, |vm, g| fb.enum_yield_values(vm, g, as_enum(o), Value::integer(y)))?;
            }
        }
        8 if n < pr.max => {
            c.log(|| format!("fiber {me}: new enumerator {n}"));
            let mut fb = Fiber::from(Proc(n));
            let v = unsafe { std::mem::transmute_copy::<Fiber, Value>(&fb) };
            add(fb.executor_ptr(), Some(v), true, None, true);
        }
        9 => {
            for f in 1..n {
                if pr.gone[f] {
                    continue;
                }
                let vm = unsafe { &mut *pr.vm[me] };
                let r = method(methods::alive_p, vm, &mut w().globals, pr.obj[f].unwrap(), vec![], None)?;
                if r.as_bool() != (pr.m.f[f].st != St::Dead) {
                    w().abort("alive", format!("fiber {f} is {:?} but alive? says {}", pr.m.f[f].st, r.as_bool()));
                }
                let mut a = crate::alloc::Allocator::new();
                crate::alloc::GC::mark(pr.obj[f].unwrap().fiber_inner(), &mut a);
                if !a.execs.contains(&(pr.vm[f] as usize)) || !a.procs.contains(&f) {
                    w().abort("mark", format!("a collection does not reach the context and the body of fiber {f}"));
                }
            }
        }
        10 => {
            let vm = unsafe { &mut *pr.vm[me] };
            let r = method(methods::current, vm, &mut w().globals, Value::nil(), vec![], None)?;
            match pr.obj[me] {
                Some(o) if o != r => w().abort("current", format!("the current fiber of fiber {me} is another one")),
                Some(_) => {}
                None => pr.obj[me] = Some(r),
            }
        }
        11 => {
            let Some(f) = pick(|f| p().m.f[f].st == St::Live) else { return Ok(Flow::On) };
            let k = ctx().draw(4);
            ctx().log(|| format!("fiber {me}: call {k} of {f} from another thread"));
            ctx().fault("call from another thread");
            w().thread = 2;
            let o = p().obj[f].unwrap();
            let alts = p().m.here(MISUSE);
            let r = call(me, alts, false, |vm, g| match k {
                0 => method(methods::resume, vm, g, o, arr(&[1]), None),
                1 => method(methods::transfer, vm, g, o, arr(&[1]), None),
                2 => method(methods::fiber_raise, vm, g, o, vec![Some(Value::integer(1))], None),
                _ => method(methods::kill, vm, g, o, vec![], None),
            });
            w().thread = 1;
            let _ = r;
        }
        12 => {
            // nobody can reach the fiber any more
            let d = pr.m.deepest(0);
            let v: Vec<usize> = (1..n)
                .filter(|f| {
                    let x = &pr.m.f[*f];
                    !pr.gone[*f] && *f != me && *f != d && x.prev.is_none() && x.resuming.is_none()
                })
                .collect();
            if v.is_empty() {
                return Ok(Flow::On);
            }
            let f = v[c.draw(v.len())];
            c.log(|| format!("fiber {me}: fiber {f} is collected"));
            c.fault("fiber collected");
            pr.gone[f] = true;
            w().park.insert(pr.vm[f] as usize, Park::Collected);
        }
        13 => {
            p().next += 1;
            let e = p().next;
            ctx().log(|| format!("fiber {me}: raise {e}"));
            ctx().fault("error raised in the body");
            return Err(MonorubyErr::new(MonorubyErrKind::User(e), "raised"));
        }
        14 => {
            p().next += 1;
            return Ok(Flow::Return(Value::integer(p().next)));
        }
        15 => storage(me)?,
        16 if depth < 3 => {
            c.log(|| format!("fiber {me}: Fiber.blocking"));
            let old = pr.m.f[me].blocking;
            pr.m.f[me].blocking = true;
            let vm = unsafe { &mut *pr.vm[me] };
            let r = method(methods::class_blocking, vm, &mut w().globals, Value::nil(), vec![], Some(me * 8 + depth));
            p().m.f[me].blocking = old;
            check_blocking(me);
            r?;
        }
        17 => check_blocking(me),
        _ => {}
    }
    Ok(Flow::On)
}

fn block(me: usize, depth: usize, mut limit: usize) -> Result<Value> {
    while limit > 0 && ctx().next_op() {
        limit -= 1;
        if let Flow::Return(v) = one(me, depth)? {
            return Ok(v);
        }
    }
    p().next += 1;
    Ok(Value::integer(p().next))
}

/// The body of a fiber, on its own stack.
pub fn body(vm: *mut Executor) -> Result<Value> {
    let s = w().start.take().unwrap();
    let me = s.body;
    if p().vm[me] != vm {
        w().abort("control", format!("the body of fiber {me} runs on another context"));
    }
    arrive(me, D::Start(s.args.iter().map(|v| describe(*v)).collect()), false);
    // where a collection from here starts
    let root = unsafe { (*vm).thread_root_or_self() }.as_ptr();
    if root != p().vm[0] {
        w().abort("root", format!("fiber {me} takes another context for the root of its thread"));
    }
    let r = block(me, 0, usize::MAX);
    let d = match &r {
        Ok(v) => describe(*v),
        Err(e) => D::Err(e.kind.clone()),
    };
    ctx().log(|| format!("fiber {me} ends with {d:?}"));
    p().alts = p().m.ends(d);
    r
}

pub fn root() {
    p().vm[0] = &mut *w().root;
    let c = ctx();
    if p().wt[15] > 0 && c.chance(1, 3) {
        // the thread was created by a fiber with storage
        let m = some_map();
        w().root.inherited_storage = Some(hash_of(&m));
        p().m.f[0].storage = Some(m);
    }
    if c.chance(1, 6) {
        // the root context is moved after its object was made
        let mut old = Box::new(Executor::default());
        old.inherited_storage = w().root.inherited_storage;
        let _ = method(methods::current, &mut old, &mut w().globals, Value::nil(), vec![], None);
        std::mem::swap(&mut *w().root, &mut *old);
        p().old = Some(old);
        c.fault("root context moved");
    }
    if p().old.is_some() || c.chance(1, 2) {
        let r = method(methods::current, unsafe { &mut *p().vm[0] }, &mut w().globals, Value::nil(), vec![], None);
        p().obj[0] = r.ok();
    }
    while ctx().next_op() {
        match one(0, 0) {
            Ok(Flow::On) => {}
            Ok(Flow::Return(_)) => {}
            Err(e) => ctx().log(|| format!("root got {:?}", e.kind)),
        }
    }
}

fn run34(ctx: &mut Ctx) -> RunResult {
    run(ctx, 34)
}

fn run35(ctx: &mut Ctx) -> RunResult {
    run(ctx, 35)
}

fn run(ctx: &mut Ctx, prop: u32) -> RunResult {
    let mut prog = Prog {
        m: Model::default(),
        alts: vec![],
        vm: vec![],
        obj: vec![],
        gone: vec![],
        wt: vec![],
        next: 0,
        max: 0,
        old: None,
    };
    //                res yld new tra beg rse kil nxt enm alv cur thr gc  err ret sto blk bl?
    prog.wt = match prop {
        34 => vec![10, 7, 5, 6, 4, 2, 2, 4, 2, 1, 1, 1, 1, 1, 2, 0, 0, 0],
        _ => vec![10, 7, 5, 3, 2, 1, 1, 0, 0, 1, 2, 0, 1, 1, 2, 20, 3, 2u32],
    };
    // not every kind of operation in every run
    for k in [3usize, 4, 5, 6, 7, 8, 11, 12, 13, 16] {
        match ctx.weighted(&[3, 2, 1]) {
            0 => {}
            1 => prog.wt[k] = 0,
            _ => prog.wt[k] *= 4,
        }
    }
    prog.max = 3 + ctx.draw(7);
    let ops = [12, 25, 50, 120][ctx.weighted(&[2, 3, 3, 1])];
    ctx.set_ops(ops);
    unsafe { PROG = &mut prog };
    heap().clear();
    prog.m.f.push(F { st: St::Live, prev: None, resuming: None, yielding: false, killed: false, iter: false, storage: None, blocking: true });
    prog.obj.push(None);
    prog.gone.push(false);
    // the root executor is made by the world
    prog.vm.push(std::ptr::null_mut());
    let world = crate::world::run(ctx, (root, body));
    if world.switches >= 3 {
        ctx.nontrivial();
    }
    end(&world)
}

/// What was left behind, and the verdict.
pub fn end(world: &crate::world::World) -> RunResult {
    heap().clear();
    let mut fail = world.fail.clone();
    if fail.is_none() {
        if let Some(e) = crate::mem::mem().err.take() {
            fail = Some(("stack".into(), e));
        } else if !crate::mem::mem().live.is_empty() {
            fail = Some(("stack".into(), "stacks of collected fibers were not freed".into()));
        }
    }
    crate::mem::reset();
    match fail {
        Some((c, m)) => Err(Violation::new(c, m)),
        None => Ok(()),
    }
}

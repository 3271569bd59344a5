//! Unordered table, map and set: histories with and without faults
//! (C08, C09, C10, C11).

use crate::ctl::*;
use crate::galloc::{self, st};
use crate::omap::{Ent, Obs};
use hashbrown::{hash_map, hash_set, hash_table, HashMap, HashSet, HashTable};
use simcore::{ensure, fail, mix64, Ctx, RunResult, Violation};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    Raise,
    Panic,
    /// Traversals are abandoned or leaked.
    Abandon,
}

type Model = Vec<Ent>;
type Real<'a, C> = Box<dyn FnOnce(&mut [C; 2], &mut Env, &mut Glob, &mut Obs) -> Result<(), Raise> + 'a>;

/// What a partially consumed traversal did, filled in by the call.
#[derive(Default)]
pub struct Seen {
    pub yielded: Vec<Ent>,
    pub visited: Vec<u32>,
}
type Log = Rc<RefCell<Seen>>;
type Adopt<'a> = Box<dyn FnOnce(&Seen, &mut [Model; 2]) -> RunResult + 'a>;

pub struct Plan<'a, C> {
    name: &'static str,
    args: String,
    real: Real<'a, C>,
    after: [Model; 2],
    exp: Obs,
    partial: Vec<[Model; 2]>,
    fresh: [bool; 2],
    seen: Log,
    adopt: Option<Adopt<'a>>,
    leak: bool,
}

pub trait Hc: Sized + Clone {
    const VALUES: bool;
    const OWNED: bool;
    fn with(cap: usize) -> Self;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn bytes(&self) -> usize;
    fn list(&self) -> Vec<Ent>;
    /// Looks one element up by class and identity.
    fn lookup(&self, class: u32, kid: u32, e: &mut Env, g: &mut Glob) -> Result<Option<Ent>, Raise>;
    fn put(&mut self, class: u32, val: u32, e: &mut Env, g: &mut Glob) -> Result<u32, Raise>;
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self>;
    const MULTI: bool;
}

pub struct World<C: Hc> {
    m: [C; 2],
    d: [Model; 2],
    mode: Mode,
    universe: u32,
    next_val: u32,
    fault: u32,
    raise_id: u64,
    at_range: usize,
    leak_ok: bool,
    weights: Vec<u32>,
    /// Set while the history fills (true) or empties (false) a table.
    phase: Option<bool>,
}

const GROUPS: usize = 10;
const STEP: u32 = 1_000_000;

fn tok(x: &Ent) -> u64 {
    mix64((x.class as u64) << 32 | x.kid as u64) ^ mix64(x.val as u64 + 77)
}

pub fn run_any(ctx: &mut Ctx, mode: Mode) -> RunResult {
    match ctx.draw(5) {
        0 => run::<HMap>(ctx, mode),
        1 => run::<HSet>(ctx, mode),
        2 => run::<HTab<Pair>>(ctx, mode),
        3 => run::<HTab<Flat>>(ctx, mode),
        _ => run::<HTab<Big>>(ctx, mode),
    }
}

fn run<C: Hc>(ctx: &mut Ctx, mode: Mode) -> RunResult {
    reset();
    pick_hash(ctx);
    let mut universe = [3u32, 6, 10, 15, 29, 60, 120, 300][ctx.draw(8)];
    if universe == 300 && spread() && ctx.draw(2) == 1 {
        universe = 2500;
    }
    let fault = if matches!(mode, Mode::Raise | Mode::Panic) { [2u32, 5, 10][ctx.draw(3)] } else { 0 };
    let at_range = [2usize, 6, 20, 100][ctx.draw(4)];
    let mut weights: Vec<u32> = (0..GROUPS).map(|_| [1u32, 0, 3, 8][ctx.draw(4)]).collect();
    weights[0] += 2;
    if mode == Mode::Abandon {
        weights[8] = 6;
    }
    let nops = [20, 60, 150, 300][ctx.draw(4)] + ctx.draw(20);
    let caps = [[0usize, 1, 3, 7, 14, 28, 100][ctx.draw(7)], [0usize, 4, 30][ctx.draw(3)]];
    let mut w = World {
        m: [C::with(caps[0]), C::with(caps[1])],
        d: [vec![], vec![]],
        mode,
        universe,
        next_val: 1,
        fault,
        raise_id: 1,
        at_range,
        leak_ok: false,
        weights,
        phase: None,
    };
    // histories that fill a table to the brim and then thin it out, so that
    // deleted slots pile up
    let wear = universe >= 15 && ctx.draw(2) == 0;
    let mut filling = true;
    let mut floor = 0;
    ctx.log(|| {
        format!(
            "config {} mode={mode:?} universe={universe} hmode={} fault={fault}/20 caps={caps:?}",
            std::any::type_name::<C>(),
            ctl().hmode
        )
    });
    let fill = ctx.draw(3) * ctx.draw(universe as usize + 1);
    let (mut e, mut g) = env();
    for c in 0..fill.min(universe as usize) as u32 {
        let v = w.val();
        let m = &mut w.m[0];
        match call(|| m.put(c, v, &mut e, &mut g)) {
            Call::Ret(Ok(kid)) => w.d[0].push(Ent {
                class: c,
                kid,
                val: v * C::VALUES as u32,
            }),
            _ => fail!("insert-failed", "plain insertion of {c} failed"),
        }
    }
    ctx.set_ops(nops as u32);
    let mut n = 0;
    w.verify(ctx, true)?;
    while ctx.next_op() {
        n += 1;
        let mut group = ctx.weighted(&w.weights.clone());
        let mut s = ctx.draw(2);
        w.phase = None;
        if wear && ctx.draw(12) > 0 {
            s = 0;
            let (len, cap) = (w.d[0].len(), w.m[0].cap());
            if filling && len > 0 && len >= cap.min(universe as usize * 9 / 10) {
                filling = false;
                floor = ctx.draw(len / 2 + 1);
            } else if !filling && len <= floor {
                filling = true;
            }
            w.phase = Some(filling);
            group = if filling { [0, 0, 2][ctx.draw(3)] } else { [3, 3, 3, 8][ctx.draw(4)] };
            if group == 8 && ctx.draw(4) > 0 {
                group = 3;
            }
        }
        let plan = C::plan(&mut w, ctx, group, s);
        w.execute(ctx, plan, s)?;
        w.verify(ctx, universe < 40 || n % if universe > 300 { 60 } else { 8 } == 0)?;
    }
    w.verify(ctx, true)?;
    let World { m, leak_ok, .. } = w;
    ctl().begin_op();
    match call(move || drop(m)) {
        Call::Ret(()) => {}
        Call::Other(p) => fail!("panic-in-drop", "dropping the table panicked: {p}"),
        _ => unreachable!(),
    }
    galloc::flush_quarantine();
    if !leak_ok {
        let c = ctl();
        ensure!(c.klive == 0 && c.vlive == 0, "leak", "{} keys and {} values were never dropped", c.klive, c.vlive);
        ensure!(st().live == 0, "memory-leak", "{} blocks were never freed", st().live);
    }
    Ok(())
}

impl<C: Hc> World<C> {
    fn val(&mut self) -> u32 {
        self.next_val += 1;
        self.next_val % (STEP - 1)
    }
    fn class(&self, ctx: &mut Ctx) -> u32 {
        ctx.draw(self.universe as usize) as u32
    }
    fn pos(&self, s: usize, class: u32) -> Option<usize> {
        self.d[s].iter().position(|x| x.class == class)
    }
    fn new_plan<'a>(&self, name: &'static str, args: String, real: Real<'a, C>) -> Plan<'a, C> {
        Plan {
            name,
            args,
            real,
            after: self.d.clone(),
            exp: Obs::default(),
            partial: vec![],
            fresh: [false; 2],
            seen: Log::default(),
            adopt: None,
            leak: false,
        }
    }

    fn verify(&mut self, ctx: &mut Ctx, deep: bool) -> RunResult {
        ctl().begin_op();
        let mut total = 0;
        for s in 0..2 {
            let (m, d) = (&self.m[s], &self.d[s]);
            total += d.len() as i64;
            ensure!(m.len() == d.len(), "wrong-length", "length {} instead of {}", m.len(), d.len());
            ensure!(m.cap() >= d.len(), "wrong-capacity", "capacity {} below length {}", m.cap(), d.len());
            let mut l = m.list();
            ensure!(l.len() == d.len(), "wrong-iteration", "iteration gives {} elements, the length is {}", l.len(), d.len());
            let mut w = d.clone();
            l.sort_by_key(|x| x.kid);
            w.sort_by_key(|x| x.kid);
            for (a, b) in l.iter().zip(&w) {
                ensure!(a == b, "wrong-contents", "the table holds {a:?} where the model has {b:?}");
            }
            if deep {
                let (mut e, mut g) = env();
                for x in d.iter() {
                    match call(|| m.lookup(x.class, x.kid, &mut e, &mut g)) {
                        Call::Ret(Ok(Some(y))) if y == *x => {}
                        Call::Ret(Ok(y)) => fail!("wrong-lookup", "lookup of {x:?} gave {y:?}"),
                        Call::Ret(Err(_)) => fail!("error-invented", "a lookup failed although nothing raised"),
                        Call::Other(p) => fail!("panic-in-lookup", "lookup panicked: {p}"),
                        _ => unreachable!(),
                    }
                }
                let step = if self.universe > 60 { 7 } else { 1 };
                for c in (0..self.universe).step_by(step) {
                    if !d.iter().any(|x| x.class == c) {
                        match call(|| m.lookup(c, u32::MAX, &mut e, &mut g)) {
                            Call::Ret(Ok(None)) => {}
                            Call::Ret(Ok(y)) => fail!("wrong-lookup", "absent key {c} found as {y:?}"),
                            _ => fail!("panic-in-lookup", "lookup of an absent key failed"),
                        }
                    }
                }
            }
            ctx.mix(d.len() as u64);
        }
        if !self.leak_ok && C::OWNED {
            let c = ctl();
            ensure!(
                c.klive == total && c.vlive == if C::VALUES { total } else { 0 },
                "ownership",
                "{} keys and {} values alive, the tables hold {total} elements",
                c.klive,
                c.vlive
            );
        }
        Ok(())
    }

    fn execute(&mut self, ctx: &mut Ctx, plan: Plan<C>, s: usize) -> RunResult {
        let Plan {
            name,
            args,
            real,
            mut after,
            exp,
            partial,
            fresh,
            seen,
            adopt,
            leak,
        } = plan;
        let before = self.d.clone();
        let c = ctl();
        c.begin_op();
        let mut armed = false;
        if self.fault > 0 && ctx.chance(self.fault, 20) {
            armed = true;
            let p = self.mode == Mode::Panic;
            let mask = if p {
                match ctx.draw(4) {
                    0 => PANIC_MASK,
                    1 => PANIC_MASK & !(1 << Cb::Drop as u32),
                    2 => 1 << Cb::Hasher as u32,
                    _ => 1 << Cb::Closure as u32 | 1 << Cb::Eql as u32 | 1 << Cb::Iter as u32,
                }
            } else {
                1 << Cb::Eql as u32 | 1 << Cb::VEql as u32
            };
            self.raise_id += 1;
            c.arm(mask, ctx.draw(self.at_range) as u32, p, self.raise_id);
        }
        ctx.log(|| format!("m{s}.{name}({args}){}", if armed { " [fault armed]" } else { "" }));
        let (mut e, mut g) = env();
        let mut obs = Obs(Vec::with_capacity(exp.0.len() + 64));
        {
            let _t = galloc::Track::off();
            let mut sn = seen.borrow_mut();
            sn.yielded.reserve(before[s].len() + 8);
            sn.visited.reserve(before[s].len() * 2 + 8);
        }
        let mem = self.m[s].bytes();
        let m = &mut self.m;
        let o = &mut obs;
        let r = call(|| real(m, &mut e, &mut g, o));
        let c = ctl();
        if c.counts[Cb::Hasher as usize] > 1 && matches!(name, "insert_unique" | "entry" | "replace_other" | "insert" | "reserve") {
            if self.m[s].bytes() == mem {
                ctx.probe(if c.fired.is_some() { "fault during in-place rehash" } else { "in-place rehash" });
            } else {
                ctx.probe("resize");
            }
        }
        let (fired, after_fire, was_panic) = (c.fired, c.after_fire, c.panic);
        c.armed = false;
        let mut h = 0u64;
        for b in name.bytes() {
            h = mix64(h ^ b as u64);
        }
        let shape = (self.m[s].cap() as u64) << 32 | before[s].len() as u64;
        if leak {
            self.leak_ok = true;
            ctx.probe("traversal leaked");
        }
        match r {
            Call::Ret(Ok(())) => {
                if let Some(k) = fired {
                    ctx.fault(CB_NAMES[k as usize]);
                    fail!(
                        if was_panic { "panic-swallowed" } else { "raise-swallowed" },
                        "{name}({args}): the {} callback failed but the call returned normally",
                        CB_NAMES[k as usize]
                    );
                }
                ensure!(obs == exp, "wrong-result", "{name}({args}): got {:?}, expected {:?}", obs.0, exp.0);
                if let Some(a) = adopt {
                    let sn = seen.borrow();
                    a(&sn, &mut after)?;
                }
                self.d = after;
                for i in 0..2 {
                    if fresh[i] {
                        self.adopt_clone(i)?;
                    }
                }
                ctx.state(h ^ mix64(shape));
                ctx.mix(h);
                for v in &obs.0 {
                    ctx.mix(*v);
                }
            }
            Call::Ret(Err(r)) => {
                let Some(k) = fired else {
                    fail!("error-invented", "{name}({args}): error although nothing raised");
                };
                ctx.fault(CB_NAMES[k as usize]);
                ctx.nontrivial();
                ctx.state(mix64(h ^ k as u64 ^ 1) ^ mix64(shape));
                ctx.log(|| format!("  -> raised from {}", CB_NAMES[k as usize]));
                ensure!(r.0 == self.raise_id, "wrong-error", "{name}({args}): another error was returned");
                ensure!(after_fire == 0, "callback-after-raise", "{name}({args}): {after_fire} key callbacks ran after the raise");
                let lists = [self.m[0].list(), self.m[1].list()];
                let same = |want: &[Model; 2]| {
                    (0..2).all(|i| {
                        let (mut a, mut b) = (lists[i].clone(), want[i].clone());
                        a.sort_by_key(|x| x.kid);
                        b.sort_by_key(|x| x.kid);
                        a == b
                    })
                };
                if !same(&before) {
                    match partial.iter().find(|p| same(p)) {
                        Some(p) => {
                            ctx.probe("bulk operation stopped midway");
                            self.d = p.clone();
                        }
                        None => fail!(
                            "changed-by-raise",
                            "{name}({args}): contents after the raise are {:?}, before {:?}",
                            lists,
                            before
                        ),
                    }
                }
            }
            Call::Injected => {
                let k = fired.unwrap();
                ctx.fault(CB_NAMES[k as usize]);
                ctx.nontrivial();
                ctx.state(mix64(h ^ k as u64 ^ 2) ^ mix64(shape));
                ctx.log(|| format!("  -> panicked in {}", CB_NAMES[k as usize]));
                if k == Cb::Drop {
                    self.leak_ok = true;
                }
                self.adopt_after_panic(name, &args, &before, &after, &partial)?;
            }
            Call::Oom => unreachable!(),
            Call::Other(p) => fail!("panic", "{name}({args}): unexpected panic: {p}"),
        }
        Ok(())
    }

    fn adopt_clone(&mut self, i: usize) -> RunResult {
        let l = self.m[i].list();
        ensure!(l.len() == self.d[i].len(), "clone-mismatch", "a clone has {} elements instead of {}", l.len(), self.d[i].len());
        let mut rest = self.d[i].clone();
        let mut out = vec![];
        for x in l {
            let o = ctl().origin[x.kid as usize];
            match rest.iter().position(|y| y.kid == o && y.class == x.class && y.val == x.val) {
                Some(p) => {
                    rest.swap_remove(p);
                    out.push(x);
                }
                None => fail!("clone-mismatch", "the clone holds {x:?}, which is no clone of an original element"),
            }
        }
        self.d[i] = out;
        Ok(())
    }

    fn adopt_after_panic(&mut self, name: &str, args: &str, before: &[Model; 2], after: &[Model; 2], partial: &[[Model; 2]]) -> RunResult {
        let mut kids = vec![];
        for i in 0..2 {
            let l = self.m[i].list();
            ensure!(
                l.len() == self.m[i].len(),
                "length-after-panic",
                "{name}({args}): after the panic the table reports {} elements but iterates {}",
                self.m[i].len(),
                l.len()
            );
            for x in &l {
                let o = ctl().origin[x.kid as usize];
                let known = |y: &Ent| {
                    (y.kid == x.kid || y.kid == o) && y.class == x.class && (y.val % STEP == x.val % STEP || x.val == 0)
                };
                let ok = before.iter().chain(after.iter()).chain(partial.iter().flatten()).any(|d| d.iter().any(known));
                ensure!(ok, "foreign-element", "{name}({args}): after the panic the table holds {x:?}, which was never added");
                ensure!(!kids.contains(&x.kid), "duplicate-element", "{name}({args}): after the panic {x:?} is held twice");
                kids.push(x.kid);
            }
            self.d[i] = l;
        }
        Ok(())
    }

    fn pick(&self, ctx: &mut Ctx, s: usize) -> u32 {
        match self.phase {
            Some(true) => {
                let a = self.class(ctx);
                return (0..self.universe).map(|i| (a + i) % self.universe).find(|c| self.pos(s, *c).is_none()).unwrap_or(a);
            }
            Some(false) if !self.d[s].is_empty() => return self.d[s][ctx.draw(self.d[s].len())].class,
            _ => {}
        }
        if !self.d[s].is_empty() && ctx.draw(3) > 0 {
            self.d[s][ctx.draw(self.d[s].len())].class
        } else {
            self.class(ctx)
        }
    }

    /// Clone, clone_from and swap, common to all containers.
    fn plan_clone<'a>(&mut self, ctx: &mut Ctx, s: usize) -> Plan<'a, C>
    where
        C: 'a,
    {
        let t = 1 - s;
        match ctx.draw(3) {
            0 => {
                let mut p = self.new_plan(
                    "clone_into_other",
                    String::new(),
                    Box::new(move |m, _, _, o| {
                        let c = m[s].clone();
                        m[t] = c;
                        o.n(m[t].len());
                        Ok(())
                    }),
                );
                p.after[t] = self.d[s].clone();
                p.exp.n(self.d[s].len());
                p.fresh[t] = true;
                p
            }
            1 => {
                let mut p = self.new_plan(
                    "clone_from",
                    String::new(),
                    Box::new(move |m, _, _, _| {
                        let (a, b) = m.split_at_mut(1);
                        let (src, dst) = if s == 0 { (&a[0], &mut b[0]) } else { (&b[0], &mut a[0]) };
                        dst.clone_from(src);
                        Ok(())
                    }),
                );
                p.after[t] = self.d[s].clone();
                p.fresh[t] = true;
                p
            }
            _ => {
                let mut p = self.new_plan(
                    "swap",
                    String::new(),
                    Box::new(|m, _, _, _| {
                        m.swap(0, 1);
                        Ok(())
                    }),
                );
                p.after.swap(0, 1);
                p
            }
        }
    }
}

/// How the caller of a traversal stops.
#[derive(Clone, Copy, Debug)]
struct Stop {
    take: usize,
    /// 0 drop, 1 consume the rest, 2 leak.
    end: usize,
}

fn draw_stop(ctx: &mut Ctx, n: usize, mode: Mode) -> Stop {
    let take = match ctx.draw(3) {
        0 => 0,
        1 => n,
        _ => ctx.draw(n + 1),
    };
    let end = if mode == Mode::Abandon { [0, 0, 1, 2][ctx.draw(4)] } else { ctx.draw(2) };
    Stop { take, end }
}

/// Consumes a traversal as told, noting what it yields. Returns whether the
/// reported sizes were right.
fn play<I: Iterator>(mut it: I, stop: Stop, exact: Option<usize>, mut ent: impl FnMut(I::Item) -> Ent, seen: &Log) -> bool {
    let mut ok = true;
    let mut left = exact;
    let check = |it: &I, left: Option<usize>| match left {
        Some(n) => it.size_hint() == (n, Some(n)),
        None => true,
    };
    ok &= check(&it, left);
    for _ in 0..stop.take {
        match it.next() {
            Some(x) => {
                let x = ent(x);
                seen.borrow_mut().yielded.push(x);
                left = left.map(|n| n.wrapping_sub(1));
            }
            None => break,
        }
        ok &= check(&it, left);
    }
    match stop.end {
        0 => drop(it),
        1 => {
            it.for_each(|x| {
                let x = ent(x);
                seen.borrow_mut().yielded.push(x)
            });
        }
        _ => std::mem::forget(it),
    }
    ok
}

fn distinct(v: &[Ent], of: &[Ent], what: &str) -> RunResult {
    let mut kids = vec![];
    for x in v {
        ensure!(
            of.iter().any(|y| y.kid == x.kid && y.class == x.class && y.val % STEP == x.val % STEP),
            "foreign-element",
            "{what} yielded {x:?}, which was not in the table"
        );
        ensure!(!kids.contains(&x.kid), "yielded-twice", "{what} yielded {x:?} twice");
        kids.push(x.kid);
    }
    Ok(())
}

/// Adoption for draining traversals: everything must be yielded if consumed
/// to the end, and the table is empty afterwards.
fn adopt_drain<'a>(before: Model, s: usize, stop: Stop, what: &'static str) -> Adopt<'a> {
    Box::new(move |seen, after| {
        distinct(&seen.yielded, &before, what)?;
        let want = if stop.end == 1 { before.len() } else { stop.take.min(before.len()) };
        ensure!(
            seen.yielded.len() == want,
            "wrong-yield",
            "{what} yielded {} of {} elements instead of {want}",
            seen.yielded.len(),
            before.len()
        );
        after[s].clear();
        Ok(())
    })
}

/// Adoption for extracting traversals with the predicate `val % k == 0`.
fn adopt_extract<'a>(before: Model, s: usize, k: u32, stop: Stop, mutate: bool) -> Adopt<'a> {
    Box::new(move |seen, after| {
        distinct(&seen.yielded, &before, "extract_if")?;
        let key = |x: &Ent| x.kid;
        let hit = |x: &Ent| (x.kid % k) == 0;
        let total = before.iter().filter(|x| hit(x)).count();
        let want = if stop.end == 1 { total } else { stop.take.min(total) };
        ensure!(
            seen.yielded.len() == want && seen.yielded.iter().all(hit),
            "wrong-yield",
            "extract_if yielded {:?}, {want} of the matching elements expected",
            seen.yielded
        );
        let mut v = seen.visited.clone();
        v.sort();
        v.dedup();
        ensure!(v.len() == seen.visited.len(), "visited-twice", "extract_if visited an element twice");
        if stop.end == 1 || stop.take > total {
            ensure!(v.len() == before.len(), "not-visited", "extract_if visited {} of {} elements", v.len(), before.len());
        }
        after[s] = before
            .iter()
            .filter(|x| !seen.yielded.iter().any(|y| y.kid == key(x)))
            .map(|x| {
                let mut x = *x;
                if mutate && seen.visited.contains(&x.kid) {
                    x.val += STEP;
                }
                x
            })
            .collect();
        Ok(())
    })
}

fn adopt_retain<'a>(before: Model, s: usize, k: u32, mutate: bool) -> Adopt<'a> {
    Box::new(move |seen, after| {
        let mut v = seen.visited.clone();
        v.sort();
        v.dedup();
        ensure!(
            v.len() == seen.visited.len() && v.len() == before.len(),
            "visited-twice",
            "retain visited {} elements of {}, {} distinct",
            seen.visited.len(),
            before.len(),
            v.len()
        );
        after[s] = before
            .iter()
            .filter(|x| x.kid % k != 0)
            .map(|x| {
                let mut x = *x;
                if mutate {
                    x.val += STEP;
                }
                x
            })
            .collect();
        Ok(())
    })
}

/// The pair a bare value belongs to: one with that value not yielded yet.
fn of_value(of: &[Ent], val: u32, seen: &Log) -> Ent {
    let sn = seen.borrow();
    of.iter()
        .find(|x| x.val == val && !sn.yielded.iter().any(|y| y.kid == x.kid))
        .copied()
        .unwrap_or(Ent {
            class: 0,
            kid: u32::MAX,
            val,
        })
}

fn closure(seen: &Log, kid: u32) {
    cb_p(Cb::Closure);
    seen.borrow_mut().visited.push(kid);
}

/// Iterator handed to bulk insertions.
struct Feed<T> {
    v: std::vec::IntoIter<T>,
    hint: usize,
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        cb_p(Cb::Iter);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => (self.v.len(), Some(self.v.len())),
            _ => (self.v.len() / 2, None),
        }
    }
}

// ---- table -------------------------------------------------------------------

/// Element of a table.
pub trait El: Clone + 'static {
    const OWNED: bool;
    fn new(class: u32, val: u32) -> Self;
    fn ent(&self) -> Ent;
    fn bump(&mut self);
    fn class(&self) -> u32 {
        self.ent().class
    }
    fn kid(&self) -> u32 {
        self.ent().kid
    }
}

#[derive(Clone)]
pub struct Pair(K, V);
impl El for Pair {
    const OWNED: bool = true;
    fn new(class: u32, val: u32) -> Self {
        Pair(K::new(class), V::new(val))
    }
    fn ent(&self) -> Ent {
        Ent {
            class: self.0.class(),
            kid: self.0.id(),
            val: self.1.val(),
        }
    }
    fn bump(&mut self) {
        let v = self.1.val();
        self.1.set(v + STEP);
    }
}

/// Element without destructor.
pub struct Flat {
    e: Ent,
    sum: u32,
}
impl Flat {
    fn sum(e: &Ent) -> u32 {
        mix64(tok(e)) as u32
    }
}
impl El for Flat {
    const OWNED: bool = false;
    fn new(class: u32, val: u32) -> Self {
        let _t = galloc::Track::off();
        let c = ctl();
        let kid = c.ks.len() as u32;
        c.ks.push(1);
        c.origin.push(kid);
        let e = Ent { class, kid, val };
        Flat { e, sum: Flat::sum(&e) }
    }
    fn ent(&self) -> Ent {
        if Flat::sum(&self.e) != self.sum {
            simcore::fatal("garbage-element", "an element that was never initialised (or was overwritten) was used");
        }
        self.e
    }
    fn bump(&mut self) {
        self.e.val += STEP;
        self.sum = Flat::sum(&self.e);
    }
}
impl Clone for Flat {
    fn clone(&self) -> Self {
        let e = self.ent();
        cb_p(Cb::Clone);
        let f = Flat::new(e.class, e.val);
        ctl().origin[f.e.kid as usize] = e.kid;
        f
    }
}

/// Large, over-aligned element.
#[repr(align(64))]
#[derive(Clone)]
pub struct Big {
    k: K,
    v: V,
    pad: [u8; 90],
}
impl El for Big {
    const OWNED: bool = true;
    fn new(class: u32, val: u32) -> Self {
        Big {
            k: K::new(class),
            v: V::new(val),
            pad: [class as u8; 90],
        }
    }
    fn ent(&self) -> Ent {
        let class = self.k.class();
        if self as *const _ as usize % 64 != 0 || self.pad.iter().any(|b| *b != class as u8) {
            simcore::fatal("garbage-element", "an element was misaligned or partly overwritten");
        }
        Ent {
            class,
            kid: self.k.id(),
            val: self.v.val(),
        }
    }
    fn bump(&mut self) {
        let v = self.v.val();
        self.v.set(v + STEP);
    }
}

pub type HTab<T> = HashTable<T, Env, Glob, Raise>;

fn hasher<T: El>(x: &T) -> u64 {
    let c = x.class();
    cb_p(Cb::Hasher);
    ctl().hash(c)
}
fn hash_of(class: u32) -> u64 {
    ctl().hash(class)
}

/// Comparison by identity when one is given, by class otherwise.
fn eq<T: El>(class: u32, kid: Option<u32>) -> impl FnMut(&T, &mut Env, &mut Glob) -> Result<bool, Raise> {
    move |x, e, g| {
        let x = x.ent();
        if e.0 != 0xE0E0 || g.0 != 0x6060 {
            simcore::fatal("bad-context", "a callback received foreign context arguments");
        }
        cb_r(Cb::Eql)?;
        Ok(x.class == class && kid.is_none_or(|k| k == x.kid))
    }
}

impl<T: El> Hc for HTab<T> {
    const VALUES: bool = true;
    const OWNED: bool = T::OWNED;
    const MULTI: bool = true;
    fn with(cap: usize) -> Self {
        if cap == 0 {
            HashTable::default()
        } else {
            let t = HashTable::with_capacity(cap);
            assert!(t.capacity() >= cap);
            t
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn bytes(&self) -> usize {
        self.allocation_size()
    }
    fn list(&self) -> Vec<Ent> {
        self.iter().map(|x| x.ent()).collect()
    }
    fn lookup(&self, class: u32, kid: u32, e: &mut Env, g: &mut Glob) -> Result<Option<Ent>, Raise> {
        Ok(self
            .find(hash_of(class), eq(class, (kid != u32::MAX).then_some(kid)), e, g)?
            .map(|x| x.ent()))
    }
    fn put(&mut self, class: u32, val: u32, _: &mut Env, _: &mut Glob) -> Result<u32, Raise> {
        let x = T::new(class, val);
        let kid = x.kid();
        self.insert_unique(hash_of(class), x, hasher);
        Ok(kid)
    }
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self> {
        w.plan_table(ctx, group, s)
    }
}

impl<T: El> World<HTab<T>> {
    fn plan_table<'a>(&mut self, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, HTab<T>> {
        let n = self.d[s].len();
        let before = self.d[s].clone();
        // a target: an existing element, or an absent class
        let class = self.pick(ctx, s);
        let all: Vec<Ent> = before.iter().filter(|x| x.class == class).copied().collect();
        let target = if all.is_empty() { None } else { Some(all[ctx.draw(all.len())]) };
        let kid = if all.len() > 1 || ctx.draw(2) == 0 { target.map(|x| x.kid) } else { None };
        let val = self.val();
        match group {
            0 => {
                let x = T::new(class, val);
                let kid = x.kid();
                let dup = !all.is_empty() && ctx.draw(3) > 0;
                if dup && n > 0 {
                    drop(x);
                    return self.plan_table(ctx, 1, s);
                }
                let mut p = self.new_plan(
                    "insert_unique",
                    format!("{class}"),
                    Box::new(move |m, _, _, o| {
                        let e = m[s].insert_unique(hash_of(class), x, hasher);
                        o.0.push(tok(&e.get().ent()));
                        Ok(())
                    }),
                );
                let en = Ent { class, kid, val };
                p.exp.0.push(tok(&en));
                p.after[s].push(en);
                p
            }
            1 => {
                // find variants
                let how = ctx.draw(3);
                let mut p = self.new_plan(
                    ["find", "find_mut", "find_entry"][how],
                    format!("{class},{kid:?}"),
                    Box::new(move |m, e, g, o| {
                        let r = match how {
                            0 => m[s].find(hash_of(class), eq(class, kid), e, g)?.map(|x| x.ent()),
                            1 => m[s].find_mut(hash_of(class), eq(class, kid), e, g)?.map(|x| {
                                let old = x.ent();
                                x.bump();
                                old
                            }),
                            _ => match m[s].find_entry(hash_of(class), eq(class, kid), e, g)? {
                                Ok(x) => {
                                    let r = x.get().ent();
                                    x.into_table();
                                    Some(r)
                                }
                                Err(x) => {
                                    x.into_table();
                                    None
                                }
                            },
                        };
                        o.0.push(r.map_or(0, |x| tok(&x)));
                        Ok(())
                    }),
                );
                p.exp.0.push(target.map_or(0, |x| tok(&x)));
                if how == 1 {
                    if let Some(t) = target {
                        p.after[s].iter_mut().find(|x| x.kid == t.kid).unwrap().val += STEP;
                    }
                }
                p
            }
            2 => {
                // entry: insert, or_insert, or_insert_with, and_modify
                let how = ctx.draw(6);
                let x = T::new(class, val);
                let en = x.ent();
                let mut p = self.new_plan(
                    "entry",
                    format!("{class},{kid:?} kind {how}"),
                    Box::new(move |m, e, g, o| {
                        if how == 4 {
                            let en = m[s].entry_sym(
                                hash_of(class),
                                |y: &T| {
                                    let y = y.ent();
                                    cb_p(Cb::Closure);
                                    y.class == class && kid.is_none_or(|k| k == y.kid)
                                },
                                hasher,
                            );
                            o.0.push(tok(&en.or_insert(x).get().ent()));
                            return Ok(());
                        }
                        let en = m[s].entry(hash_of(class), eq(class, kid), hasher, e, g)?;
                        let r = match how {
                            0 => en.insert(x),
                            1 => en.or_insert(x),
                            2 => en.or_insert_with(move || {
                                cb_p(Cb::Closure);
                                x
                            }),
                            3 => en
                                .and_modify(|y| {
                                    cb_p(Cb::Closure);
                                    y.bump()
                                })
                                .or_insert(x),
                            _ => match en {
                                hash_table::Entry::Occupied(y) => {
                                    let (old, v) = y.remove();
                                    o.0.push(tok(&old.ent()));
                                    v.insert(x)
                                }
                                hash_table::Entry::Vacant(v) => {
                                    let t = v.into_table();
                                    t.insert_unique(hash_of(class), x, hasher)
                                }
                            },
                        };
                        o.0.push(tok(&r.get().ent()));
                        Ok(())
                    }),
                );
                match target {
                    Some(t) => {
                        let i = p.after[s].iter().position(|y| y.kid == t.kid).unwrap();
                        match how {
                            0 => p.after[s][i] = en,
                            3 => p.after[s][i].val += STEP,
                            5 => {
                                p.exp.0.push(tok(&t));
                                p.after[s][i] = en;
                            }
                            _ => {}
                        }
                        let now = p.after[s][i];
                        p.exp.0.push(tok(&now));
                    }
                    None => {
                        p.exp.0.push(tok(&en));
                        p.after[s].push(en);
                    }
                }
                p
            }
            3 => {
                // removal
                let mut p = self.new_plan(
                    "remove",
                    format!("{class},{kid:?}"),
                    Box::new(move |m, e, g, o| {
                        match m[s].find_entry(hash_of(class), eq(class, kid), e, g)? {
                            Ok(x) => {
                                let (x, v) = x.remove();
                                let x2 = x.ent();
                                o.n(v.into_table().len());
                                o.0.push(tok(&x2));
                            }
                            Err(_) => o.none(),
                        }
                        Ok(())
                    }),
                );
                match target {
                    Some(t) => {
                        p.after[s].retain(|x| x.kid != t.kid);
                        p.exp.n(n - 1);
                        p.exp.0.push(tok(&t));
                    }
                    None => p.exp.none(),
                }
                p
            }
            4 => {
                // churn: remove and insert others, wearing out empty slots
                let x = T::new(class, val);
                let en = x.ent();
                let how = ctx.draw(2);
                let victim = if before.is_empty() { None } else { Some(before[ctx.draw(n)]) };
                let mut p = self.new_plan(
                    "replace_other",
                    format!("{victim:?} by {class}"),
                    Box::new(move |m, e, g, o| {
                        if let Some(v) = victim {
                            match m[s].find_entry(hash_of(v.class), eq(v.class, Some(v.kid)), e, g)? {
                                Ok(y) => o.0.push(tok(&y.remove().0.ent())),
                                Err(_) => o.none(),
                            }
                        }
                        if how == 0 {
                            m[s].insert_unique(hash_of(class), x, hasher);
                        } else {
                            drop(x);
                        }
                        Ok(())
                    }),
                );
                if let Some(v) = victim {
                    p.after[s].retain(|y| y.kid != v.kid);
                    p.exp.0.push(tok(&v));
                    p.partial.push(p.after.clone());
                }
                if how == 0 {
                    p.after[s].push(en);
                }
                p
            }
            5 => {
                let k = ctx.draw(60);
                let how = ctx.draw(4);
                let mut p = self.new_plan(
                    ["reserve", "shrink_to_fit", "shrink_to", "clear"][how],
                    format!("{k}"),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        let old = (t.capacity(), t.allocation_size());
                        match how {
                            0 => {
                                t.reserve(k, hasher);
                                o.b(t.capacity() >= t.len() + k);
                            }
                            1 => {
                                t.shrink_to_fit(hasher);
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len());
                            }
                            2 => {
                                t.shrink_to(k, hasher);
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len().max(k.min(old.0)));
                            }
                            _ => {
                                t.clear();
                                o.b(t.is_empty());
                            }
                        }
                        Ok(())
                    }),
                );
                p.exp.b(true);
                if how == 3 {
                    p.after[s].clear();
                }
                p
            }
            6 => {
                // elements of one hash
                let how = ctx.draw(2);
                let seen = Log::default();
                let lg = seen.clone();
                let mut p = self.new_plan(
                    ["iter_hash", "iter_hash_mut"][how],
                    format!("{class}"),
                    Box::new(move |m, _, _, _| {
                        let mut sn = lg.borrow_mut();
                        if how == 0 {
                            for x in m[s].iter_hash(hash_of(class)) {
                                sn.yielded.push(x.ent());
                            }
                        } else {
                            for x in m[s].iter_hash_mut(hash_of(class)) {
                                sn.yielded.push(x.ent());
                                x.bump();
                            }
                        }
                        Ok(())
                    }),
                );
                p.seen = seen;
                p.adopt = Some(Box::new(move |seen, after| {
                    distinct(&seen.yielded, &before, "iter_hash")?;
                    for x in &before {
                        if hash_of(x.class) == hash_of(class) {
                            ensure!(
                                seen.yielded.iter().any(|y| y.kid == x.kid),
                                "not-visited",
                                "the traversal of one hash missed {x:?}"
                            );
                        }
                    }
                    if how == 1 {
                        for x in &mut after[s] {
                            if seen.yielded.iter().any(|y| y.kid == x.kid) {
                                x.val += STEP;
                            }
                        }
                    }
                    Ok(())
                }));
                p
            }
            7 => self.plan_clone(ctx, s),
            8 => {
                // traversals that remove
                let stop = draw_stop(ctx, n, self.mode);
                let seen = Log::default();
                let lg = seen.clone();
                let k = 1 + ctx.draw(4) as u32;
                let mutate = ctx.draw(2) == 0;
                let how = ctx.draw(4);
                let mut p = self.new_plan(
                    ["drain", "into_iter", "extract_if", "retain"][how],
                    format!("{stop:?} k={k}"),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        o.b(match how {
                            0 => play(t.drain(), stop, Some(n), |x: T| x.ent(), &lg),
                            1 => {
                                let t = std::mem::take(t);
                                play(t.into_iter(), stop, Some(n), |x: T| x.ent(), &lg)
                            }
                            2 => {
                                let lg2 = lg.clone();
                                let it = t.extract_if(move |x| {
                                    closure(&lg2, x.kid());
                                    if mutate {
                                        x.bump();
                                    }
                                    x.kid() % k == 0
                                });
                                play(it, stop, None, |x| x.ent(), &lg)
                            }
                            _ => {
                                t.retain(|x| {
                                    closure(&lg, x.kid());
                                    if mutate {
                                        x.bump();
                                    }
                                    x.kid() % k != 0
                                });
                                true
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.leak = stop.end == 2 && how < 3;
                p.adopt = Some(match how {
                    0 | 1 => adopt_drain(before, s, stop, "drain"),
                    2 => adopt_extract(before, s, k, stop, mutate),
                    _ => adopt_retain(before, s, k, mutate),
                });
                p
            }
            _ => {
                // traversals that do not
                let how = ctx.draw(3);
                let seen = Log::default();
                let lg = seen.clone();
                let mut p = self.new_plan(
                    ["iter", "iter_mut", "iter_clone"][how],
                    String::new(),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        let stop = Stop { take: n / 2, end: 1 };
                        o.b(match how {
                            0 => play(t.iter(), stop, Some(n), |x| x.ent(), &lg),
                            1 => play(
                                t.iter_mut(),
                                stop,
                                Some(n),
                                |x| {
                                    let e = x.ent();
                                    x.bump();
                                    e
                                },
                                &lg,
                            ),
                            _ => {
                                let mut it = t.iter();
                                for _ in 0..n / 3 {
                                    let x = it.next().unwrap();
                                    lg.borrow_mut().yielded.push(x.ent());
                                }
                                play(it.clone(), stop, Some(n - n / 3), |x| x.ent(), &lg) && it.count() == n - n / 3
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.adopt = Some(Box::new(move |seen, after| {
                    distinct(&seen.yielded, &before, "iteration")?;
                    ensure!(seen.yielded.len() == n, "wrong-yield", "iteration yielded {} of {n}", seen.yielded.len());
                    if how == 1 {
                        for x in &mut after[s] {
                            x.val += STEP;
                        }
                    }
                    Ok(())
                }));
                p
            }
        }
    }
}

// ---- map -----------------------------------------------------------------------

pub type HMap = HashMap<K, V, Env, Glob, Raise, Bh>;

fn kv(k: &K, v: &V) -> Ent {
    Ent {
        class: k.class(),
        kid: k.id(),
        val: v.val(),
    }
}

impl Hc for HMap {
    const VALUES: bool = true;
    const OWNED: bool = true;
    const MULTI: bool = false;
    fn with(cap: usize) -> Self {
        let m = HMap::with_capacity_and_hasher(cap, Bh);
        assert!(m.capacity() >= cap);
        m
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn bytes(&self) -> usize {
        self.allocation_size()
    }
    fn list(&self) -> Vec<Ent> {
        self.iter().map(|(k, v)| kv(k, v)).collect()
    }
    fn lookup(&self, class: u32, _: u32, e: &mut Env, g: &mut Glob) -> Result<Option<Ent>, Raise> {
        let q = K::new(class);
        let r = self.get_key_value(&q, e, g)?.map(|(k, v)| kv(k, v));
        if self.contains_key(&q, e, g)? != r.is_some() || self.get(&q, e, g)?.map(|v| v.val()) != r.map(|r| r.val) {
            return Ok(None);
        }
        Ok(r)
    }
    fn put(&mut self, class: u32, val: u32, e: &mut Env, g: &mut Glob) -> Result<u32, Raise> {
        let k = K::new(class);
        let kid = k.id();
        self.insert(k, V::new(val), e, g)?;
        Ok(kid)
    }
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self> {
        w.plan_hmap(ctx, group, s)
    }
}

impl<'a> From<&'a K> for K {
    fn from(k: &'a K) -> K {
        K::new(k.class())
    }
}

impl World<HMap> {
    fn plan_hmap<'a>(&mut self, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, HMap> {
        let n = self.d[s].len();
        let before = self.d[s].clone();
        let class = self.pick(ctx, s);
        let at = self.pos(s, class);
        let val = self.val();
        match group {
            0 => {
                let k = K::new(class);
                let kid = k.id();
                let v = V::new(val);
                let how = ctx.draw(3);
                let mut p = self.new_plan(
                    ["insert", "try_insert", "insert_unique_unchecked"][how],
                    format!("{class},{val}"),
                    Box::new(move |m, e, g, o| {
                        match how {
                            0 => o.ov(m[s].insert(k, v, e, g)?),
                            1 => match m[s].try_insert(k, v, e, g)? {
                                Ok(v) => o.v(v),
                                Err(x) => {
                                    o.none();
                                    o.v(&x.value);
                                    o.v(x.entry.get());
                                }
                            },
                            _ => {
                                if at.is_none() {
                                    // SAFETY: the key is not in the map
                                    let (k, v) = unsafe { m[s].insert_unique_unchecked(k, v) };
                                    o.kv(k, v);
                                } else {
                                    o.ov(m[s].insert(k, v, e, g)?);
                                }
                            }
                        }
                        Ok(())
                    }),
                );
                let en = Ent { class, kid, val };
                match (at, how) {
                    (Some(i), 1) => {
                        p.exp.none();
                        p.exp.val(val);
                        p.exp.val(before[i].val);
                    }
                    (Some(i), _) => {
                        p.exp.val(before[i].val);
                        p.after[s][i].val = val;
                    }
                    (None, h) => {
                        match h {
                            0 => p.exp.none(),
                            1 => p.exp.val(val),
                            _ => p.exp.ent(&en),
                        }
                        p.after[s].push(en);
                    }
                }
                p
            }
            1 => {
                let q = K::new(class);
                let how = ctx.draw(4);
                let mut p = self.new_plan(
                    ["get", "get_key_value", "get_key_value_mut", "get_mut"][how],
                    format!("{class}"),
                    Box::new(move |m, e, g, o| {
                        match how {
                            0 => o.rv(m[s].get(&q, e, g)?),
                            1 => o.rkv(m[s].get_key_value(&q, e, g)?),
                            2 => match m[s].get_key_value_mut(&q, e, g)? {
                                Some((k, v)) => {
                                    o.kv(k, v);
                                    v.set(val);
                                }
                                None => o.none(),
                            },
                            _ => match m[s].get_mut(&q, e, g)? {
                                Some(v) => {
                                    o.v(v);
                                    v.set(val);
                                }
                                None => o.none(),
                            },
                        }
                        Ok(())
                    }),
                );
                match how {
                    0 | 3 => p.exp.oval(at.map(|i| before[i].val)),
                    _ => p.exp.oent(at.map(|i| &before[i])),
                }
                if let (Some(i), 2..) = (at, how) {
                    p.after[s][i].val = val;
                }
                p
            }
            2 | 6 => self.plan_hmap_entry(ctx, s, class, val),
            3 => {
                let q = K::new(class);
                let how = ctx.draw(3);
                let mut p = self.new_plan(
                    ["remove", "remove_entry", "entry remove"][how],
                    format!("{class}"),
                    Box::new(move |m, e, g, o| {
                        match how {
                            0 => o.ov(m[s].remove(&q, e, g)?),
                            1 => o.okv(m[s].remove_entry(&q, e, g)?),
                            _ => match m[s].entry(q, e, g)? {
                                hash_map::Entry::Occupied(x) => o.okv(Some(x.remove_entry())),
                                hash_map::Entry::Vacant(x) => {
                                    x.into_key();
                                    o.none()
                                }
                            },
                        }
                        Ok(())
                    }),
                );
                match how {
                    0 => p.exp.oval(at.map(|i| before[i].val)),
                    _ => p.exp.oent(at.map(|i| &before[i])),
                }
                if let Some(i) = at {
                    p.after[s].remove(i);
                }
                p
            }
            4 => {
                // bulk
                let cnt = ctx.draw(20);
                let hint = ctx.draw(3);
                let from = ctx.draw(3) == 0;
                let mut items = vec![];
                let mut meta = vec![];
                for _ in 0..cnt {
                    let c = self.class(ctx);
                    let (k, v) = (K::new(c), self.val());
                    meta.push(Ent {
                        class: c,
                        kid: k.id(),
                        val: v,
                    });
                    items.push((k, V::new(v)));
                }
                let mut p = self.new_plan(
                    if from { "from_iter" } else { "extend" },
                    format!("{:?} hint {hint}", meta.iter().map(|x| x.class).collect::<Vec<_>>()),
                    Box::new(move |m, e, g, _| {
                        let f = Feed { v: items.into_iter(), hint };
                        if from {
                            let new = HMap::from_iter(f, e, g)?;
                            m[s] = new;
                        } else {
                            m[s].extend(f, e, g)?;
                        }
                        Ok(())
                    }),
                );
                if from {
                    p.after[s].clear();
                }
                for x in meta {
                    match p.after[s].iter_mut().find(|y| y.class == x.class) {
                        Some(y) => y.val = x.val,
                        None => p.after[s].push(x),
                    }
                    if !from {
                        p.partial.push(p.after.clone());
                    }
                }
                p
            }
            5 => {
                let k = ctx.draw(60);
                let how = ctx.draw(5);
                let t = 1 - s;
                let mut p = self.new_plan(
                    ["reserve", "shrink_to_fit", "shrink_to", "clear", "eql"][how],
                    format!("{k}"),
                    Box::new(move |m, e, g, o| {
                        if how == 4 {
                            use ruby_traits::RubyEql;
                            o.b(m[s].eql(&m[t], e, g)?);
                            return Ok(());
                        }
                        let t = &mut m[s];
                        let old = (t.capacity(), t.allocation_size());
                        match how {
                            0 => {
                                t.reserve(k);
                                o.b(t.capacity() >= t.len() + k);
                            }
                            1 => {
                                t.shrink_to_fit();
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len());
                            }
                            2 => {
                                t.shrink_to(k);
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len().max(k.min(old.0)));
                            }
                            _ => {
                                t.clear();
                                o.b(t.is_empty());
                            }
                        }
                        Ok(())
                    }),
                );
                if how == 4 {
                    let same = n == self.d[t].len()
                        && before.iter().all(|x| self.d[t].iter().any(|y| y.class == x.class && y.val == x.val));
                    p.exp.b(same);
                } else {
                    p.exp.b(true);
                }
                if how == 3 {
                    p.after[s].clear();
                }
                p
            }
            7 => self.plan_clone(ctx, s),
            8 => {
                let stop = draw_stop(ctx, n, self.mode);
                let seen = Log::default();
                let lg = seen.clone();
                let k = 1 + ctx.draw(4) as u32;
                let mutate = ctx.draw(2) == 0;
                let how = ctx.draw(6);
                let bf = before.clone();
                let mut p = self.new_plan(
                    ["drain", "into_iter", "into_keys", "into_values", "extract_if", "retain"][how],
                    format!("{stop:?} k={k}"),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        let pair = |(k, v): (K, V)| kv(&k, &v);
                        o.b(match how {
                            0 => play(t.drain(), stop, Some(n), pair, &lg),
                            1 => play(std::mem::take(t).into_iter(), stop, Some(n), pair, &lg),
                            2 => play(
                                std::mem::take(t).into_keys(),
                                stop,
                                Some(n),
                                |k| bf.iter().find(|x| x.kid == k.id()).copied().unwrap_or(Ent { class: k.class(), kid: k.id(), val: 0 }),
                                &lg,
                            ),
                            3 => play(
                                std::mem::take(t).into_values(),
                                stop,
                                Some(n),
                                |v| of_value(&bf, v.val(), &lg),
                                &lg,
                            ),
                            4 => {
                                let lg2 = lg.clone();
                                let it = t.extract_if(move |k2, v| {
                                    closure(&lg2, k2.id());
                                    if mutate {
                                        let x = v.val();
                                        v.set(x + STEP);
                                    }
                                    k2.id() % k == 0
                                });
                                play(it, stop, None, pair, &lg)
                            }
                            _ => {
                                t.retain(|k2, v| {
                                    closure(&lg, k2.id());
                                    if mutate {
                                        let x = v.val();
                                        v.set(x + STEP);
                                    }
                                    k2.id() % k != 0
                                });
                                true
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.leak = stop.end == 2 && how < 5;
                p.adopt = Some(match how {
                    0..=3 => adopt_drain(before, s, stop, p.name),
                    4 => adopt_extract(before, s, k, stop, mutate),
                    _ => adopt_retain(before, s, k, mutate),
                });
                p
            }
            _ => {
                let how = ctx.draw(6);
                let seen = Log::default();
                let lg = seen.clone();
                let bf = before.clone();
                let mut p = self.new_plan(
                    ["iter", "iter_mut", "keys", "values", "values_mut", "iter_clone"][how],
                    String::new(),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        let stop = Stop { take: n / 2, end: 1 };
                        let by_val = |v: u32| of_value(&bf, v, &lg);
                        o.b(match how {
                            0 => play(t.iter(), stop, Some(n), |(k, v)| kv(k, v), &lg),
                            1 => play(
                                t.iter_mut(),
                                stop,
                                Some(n),
                                |(k, v)| {
                                    let e = kv(k, v);
                                    v.set(e.val + STEP);
                                    e
                                },
                                &lg,
                            ),
                            2 => play(t.keys(), stop, Some(n), |k| bf.iter().find(|x| x.kid == k.id()).copied().unwrap(), &lg),
                            3 => play(t.values(), stop, Some(n), |v| by_val(v.val()), &lg),
                            4 => play(
                                t.values_mut(),
                                stop,
                                Some(n),
                                |v| {
                                    let x = v.val();
                                    v.set(x + STEP);
                                    by_val(x)
                                },
                                &lg,
                            ),
                            _ => {
                                let mut it = t.iter();
                                for _ in 0..n / 3 {
                                    let (k, v) = it.next().unwrap();
                                    lg.borrow_mut().yielded.push(kv(k, v));
                                }
                                play(it.clone(), stop, Some(n - n / 3), |(k, v)| kv(k, v), &lg) && it.count() == n - n / 3
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.adopt = Some(Box::new(move |seen, after| {
                    distinct(&seen.yielded, &before, "iteration")?;
                    ensure!(seen.yielded.len() == n, "wrong-yield", "iteration yielded {} of {n}", seen.yielded.len());
                    if how == 1 || how == 4 {
                        for x in &mut after[s] {
                            x.val += STEP;
                        }
                    }
                    Ok(())
                }));
                p
            }
        }
    }

    fn plan_hmap_entry<'a>(&mut self, ctx: &mut Ctx, s: usize, class: u32, val: u32) -> Plan<'a, HMap> {
        let before = self.d[s].clone();
        let at = self.pos(s, class);
        let how = ctx.draw(14);
        let kid = ctl().ks.len() as u32;
        let k = K::new(class);
        let v = V::new(val);
        let keep = ctx.draw(2) == 0;
        const NAMES: [&str; 14] = [
            "entry insert",
            "entry or_insert",
            "entry or_insert_with",
            "entry or_insert_with_key",
            "entry and_modify",
            "entry and_replace_entry_with",
            "entry replace_entry_with",
            "entry or_default",
            "entry insert_entry",
            "entry get_mut",
            "entry_ref or_insert",
            "entry_ref or_insert_with_key",
            "entry_ref and_modify",
            "entry_ref insert",
        ];
        let mut p = self.new_plan(
            NAMES[how],
            format!("{class},{val} keep={keep}"),
            Box::new(move |m, e, g, o| {
                use hash_map::{Entry, EntryRef};
                let t = &mut m[s];
                let bump = |v: &mut V| {
                    cb_p(Cb::Closure);
                    let x = v.val();
                    v.set(x + STEP);
                };
                if how >= 10 {
                    let q = k;
                    let en = t.entry_ref(&q, e, g)?;
                    match how {
                        10 => o.v(en.or_insert(v)),
                        11 => o.v(en.or_insert_with_key(|q| {
                            cb_p(Cb::Closure);
                            q.class();
                            v
                        })),
                        12 => o.v(en.and_modify(bump).or_insert(v)),
                        _ => match en {
                            EntryRef::Occupied(mut x) => {
                                let old = x.insert(v);
                                o.v(&old);
                                o.v(x.get());
                            }
                            EntryRef::Vacant(x) => {
                                let x = x.insert_entry(v);
                                o.v(x.get());
                            }
                        },
                    }
                    return Ok(());
                }
                let en = t.entry(k, e, g)?;
                match how {
                    0 => {
                        let x = en.insert(v);
                        o.kv(x.key(), x.get());
                    }
                    1 => o.v(en.or_insert(v)),
                    2 => o.v(en.or_insert_with(|| {
                        cb_p(Cb::Closure);
                        v
                    })),
                    3 => o.v(en.or_insert_with_key(|k| {
                        cb_p(Cb::Closure);
                        k.class();
                        v
                    })),
                    4 => o.v(en.and_modify(bump).or_insert(v)),
                    5 => {
                        let en = en.and_replace_entry_with(|k, old| {
                            k.class();
                            cb_p(Cb::Closure);
                            let x = old.val();
                            drop(old);
                            keep.then(|| V::new(x + STEP))
                        });
                        match en {
                            Entry::Occupied(x) => o.v(x.get()),
                            Entry::Vacant(_) => o.none(),
                        }
                    }
                    6 => match en {
                        Entry::Occupied(x) => {
                            let en = x.replace_entry_with(|_, old| {
                                cb_p(Cb::Closure);
                                keep.then_some(old)
                            });
                            // a removed key can be inserted again through the entry
                            match en {
                                Entry::Occupied(x) => o.v(x.get()),
                                Entry::Vacant(x) => o.v(x.insert(v)),
                            }
                        }
                        Entry::Vacant(_) => o.none(),
                    },
                    7 => o.v(en.or_default()),
                    8 => match en {
                        Entry::Occupied(x) => o.v(x.into_mut()),
                        Entry::Vacant(x) => {
                            x.key().class();
                            let x = x.insert_entry(v);
                            o.v(x.get());
                        }
                    },
                    _ => match en {
                        Entry::Occupied(mut x) => {
                            bump(x.get_mut());
                            o.v(x.get());
                        }
                        Entry::Vacant(_) => o.none(),
                    },
                }
                Ok(())
            }),
        );
        let en = Ent { class, kid, val };
        let a = &mut p.after[s];
        match at {
            Some(i) => {
                let old = before[i].val;
                match how {
                    0 => {
                        a[i].val = val;
                        let x = a[i];
                        p.exp.ent(&x);
                    }
                    4 | 9 | 12 => {
                        a[i].val += STEP;
                        p.exp.val(old + STEP);
                    }
                    5 => {
                        if keep {
                            a[i].val += STEP;
                            p.exp.val(old + STEP);
                        } else {
                            a.remove(i);
                            p.exp.none();
                        }
                    }
                    6 => {
                        if keep {
                            p.exp.val(old);
                        } else {
                            a[i].val = val;
                            p.exp.val(val);
                        }
                    }
                    13 => {
                        a[i].val = val;
                        p.exp.val(old);
                        p.exp.val(val);
                    }
                    _ => p.exp.val(old),
                }
            }
            None => match how {
                5 | 6 | 9 => p.exp.none(),
                7 => {
                    a.push(Ent { val: 0, ..en });
                    p.exp.val(0);
                }
                0 => {
                    a.push(en);
                    p.exp.ent(&en);
                }
                10.. => {
                    // the key is made from the borrowed one
                    a.push(Ent { kid: kid + 1, ..en });
                    p.exp.val(val);
                }
                _ => {
                    a.push(en);
                    p.exp.val(val);
                }
            },
        }
        p
    }
}

// ---- set -----------------------------------------------------------------------

pub type HSet = HashSet<K, Env, Glob, Raise, Bh>;

fn ke(k: &K) -> Ent {
    Ent {
        class: k.class(),
        kid: k.id(),
        val: 0,
    }
}

impl Hc for HSet {
    const VALUES: bool = false;
    const OWNED: bool = true;
    const MULTI: bool = false;
    fn with(cap: usize) -> Self {
        HSet::with_capacity_and_hasher(cap, Bh)
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn bytes(&self) -> usize {
        self.allocation_size()
    }
    fn list(&self) -> Vec<Ent> {
        self.iter().map(ke).collect()
    }
    fn lookup(&self, class: u32, _: u32, e: &mut Env, g: &mut Glob) -> Result<Option<Ent>, Raise> {
        let q = K::new(class);
        let r = self.get(&q, e, g)?.map(ke);
        if self.contains(&q, e, g)? != r.is_some() {
            return Ok(None);
        }
        Ok(r)
    }
    fn put(&mut self, class: u32, _: u32, e: &mut Env, g: &mut Glob) -> Result<u32, Raise> {
        let k = K::new(class);
        let kid = k.id();
        self.insert(k, e, g)?;
        Ok(kid)
    }
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self> {
        w.plan_hset(ctx, group, s)
    }
}

impl World<HSet> {
    fn plan_hset<'a>(&mut self, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, HSet> {
        let n = self.d[s].len();
        let t = 1 - s;
        let before = self.d[s].clone();
        let class = self.pick(ctx, s);
        let at = self.pos(s, class);
        match group {
            0 | 2 | 6 => {
                let kid = ctl().ks.len() as u32;
                let k = K::new(class);
                let how = ctx.draw(8);
                let mut p = self.new_plan(
                    [
                        "insert",
                        "get_or_insert",
                        "get_or_insert_with",
                        "replace",
                        "entry insert",
                        "entry or_insert",
                        "entry vacant",
                        "insert_unique_unchecked",
                    ][how],
                    format!("{class}"),
                    Box::new(move |m, e, g, o| {
                        let m = &mut m[s];
                        match how {
                            0 => o.b(m.insert(k, e, g)?),
                            1 => o.0.push(m.get_or_insert(k, e, g)?.tok()),
                            2 => {
                                let q = k;
                                let r = m.get_or_insert_with(
                                    &q,
                                    |q| {
                                        cb_p(Cb::Closure);
                                        K::new(q.class())
                                    },
                                    e,
                                    g,
                                )?;
                                o.0.push(r.tok());
                            }
                            3 => match m.replace(k, e, g)? {
                                Some(k) => o.0.push(k.tok()),
                                None => o.none(),
                            },
                            4 => o.0.push(m.entry(k, e, g)?.insert().get().tok()),
                            5 => m.entry(k, e, g)?.or_insert(),
                            6 => match m.entry(k, e, g)? {
                                hash_set::Entry::Occupied(x) => o.0.push(x.get().tok()),
                                hash_set::Entry::Vacant(x) => {
                                    o.none();
                                    x.insert();
                                }
                            },
                            _ => {
                                if at.is_none() {
                                    // SAFETY: the element is not in the set
                                    o.0.push(unsafe { m.insert_unique_unchecked(k) }.tok());
                                }
                            }
                        }
                        Ok(())
                    }),
                );
                let en = Ent { class, kid, val: 0 };
                let tk = |x: &Ent| (x.class as u64) << 32 | x.kid as u64;
                match at {
                    Some(i) => match how {
                        0 => p.exp.b(false),
                        3 => {
                            p.exp.0.push(tk(&before[i]));
                            p.after[s][i] = en;
                        }
                        5 | 7 => {}
                        _ => p.exp.0.push(tk(&before[i])),
                    },
                    None => {
                        let en = if how == 2 { Ent { kid: kid + 1, ..en } } else { en };
                        match how {
                            0 => p.exp.b(true),
                            3 | 6 => p.exp.none(),
                            5 => {}
                            _ => p.exp.0.push(tk(&en)),
                        }
                        p.after[s].push(en);
                    }
                }
                p
            }
            1 => {
                let how = ctx.draw(3);
                let mut p = self.new_plan(
                    ["is_subset", "is_superset", "eql"][how],
                    String::new(),
                    Box::new(move |m, e, g, o| {
                        use ruby_traits::RubyEql;
                        o.b(match how {
                            0 => m[s].is_subset(&m[t], e, g)?,
                            1 => m[s].is_superset(&m[t], e, g)?,
                            _ => m[s].eql(&m[t], e, g)?,
                        });
                        Ok(())
                    }),
                );
                let sub = |a: &Model, b: &Model| a.iter().all(|x| b.iter().any(|y| y.class == x.class));
                p.exp.b(match how {
                    0 => sub(&self.d[s], &self.d[t]),
                    1 => sub(&self.d[t], &self.d[s]),
                    _ => self.d[s].len() == self.d[t].len() && sub(&self.d[s], &self.d[t]),
                });
                p
            }
            3 => {
                let q = K::new(class);
                let how = ctx.draw(3);
                let mut p = self.new_plan(
                    ["remove", "take", "entry remove"][how],
                    format!("{class}"),
                    Box::new(move |m, e, g, o| {
                        let r = match how {
                            0 => {
                                o.b(m[s].remove(&q, e, g)?);
                                return Ok(());
                            }
                            1 => m[s].take(&q, e, g)?,
                            _ => match m[s].entry(q, e, g)? {
                                hash_set::Entry::Occupied(x) => Some(x.remove()),
                                hash_set::Entry::Vacant(x) => {
                                    x.into_value();
                                    None
                                }
                            },
                        };
                        match r {
                            Some(k) => o.0.push(k.tok()),
                            None => o.none(),
                        }
                        Ok(())
                    }),
                );
                match how {
                    0 => p.exp.b(at.is_some()),
                    _ => match at {
                        Some(i) => p.exp.0.push((class as u64) << 32 | before[i].kid as u64),
                        None => p.exp.none(),
                    },
                }
                if let Some(i) = at {
                    p.after[s].remove(i);
                }
                p
            }
            4 => {
                let cnt = ctx.draw(20);
                let hint = ctx.draw(3);
                let from = ctx.draw(3) == 0;
                let mut items = vec![];
                let mut meta = vec![];
                for _ in 0..cnt {
                    let k = K::new(self.class(ctx));
                    meta.push(ke(&k));
                    items.push(k);
                }
                let mut p = self.new_plan(
                    if from { "from_iter" } else { "extend" },
                    format!("{:?} hint {hint}", meta.iter().map(|x| x.class).collect::<Vec<_>>()),
                    Box::new(move |m, e, g, _| {
                        let f = Feed { v: items.into_iter(), hint };
                        if from {
                            let new = HSet::from_iter(f, e, g)?;
                            m[s] = new;
                        } else {
                            m[s].extend(f, e, g)?;
                        }
                        Ok(())
                    }),
                );
                if from {
                    p.after[s].clear();
                }
                for x in meta {
                    if !p.after[s].iter().any(|y| y.class == x.class) {
                        p.after[s].push(x);
                    }
                    if !from {
                        p.partial.push(p.after.clone());
                    }
                }
                p
            }
            5 => {
                let k = ctx.draw(60);
                let how = ctx.draw(4);
                let mut p = self.new_plan(
                    ["reserve", "shrink_to_fit", "shrink_to", "clear"][how],
                    format!("{k}"),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        let old = (t.capacity(), t.allocation_size());
                        match how {
                            0 => {
                                t.reserve(k);
                                o.b(t.capacity() >= t.len() + k);
                            }
                            1 => {
                                t.shrink_to_fit();
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len());
                            }
                            2 => {
                                t.shrink_to(k);
                                o.b(t.allocation_size() <= old.1 && t.capacity() >= t.len().max(k.min(old.0)));
                            }
                            _ => {
                                t.clear();
                                o.b(t.is_empty());
                            }
                        }
                        Ok(())
                    }),
                );
                p.exp.b(true);
                if how == 3 {
                    p.after[s].clear();
                }
                p
            }
            7 => self.plan_clone(ctx, s),
            8 => {
                let stop = draw_stop(ctx, n, self.mode);
                let seen = Log::default();
                let lg = seen.clone();
                let k = 1 + ctx.draw(4) as u32;
                let how = ctx.draw(4);
                let mut p = self.new_plan(
                    ["drain", "into_iter", "extract_if", "retain"][how],
                    format!("{stop:?} k={k}"),
                    Box::new(move |m, _, _, o| {
                        let t = &mut m[s];
                        o.b(match how {
                            0 => play(t.drain(), stop, Some(n), |x| ke(&x), &lg),
                            1 => play(std::mem::take(t).into_iter(), stop, Some(n), |x| ke(&x), &lg),
                            2 => {
                                let lg2 = lg.clone();
                                let it = t.extract_if(move |x| {
                                    closure(&lg2, x.id());
                                    x.id() % k == 0
                                });
                                play(it, stop, None, |x| ke(&x), &lg)
                            }
                            _ => {
                                t.retain(|x| {
                                    closure(&lg, x.id());
                                    x.id() % k != 0
                                });
                                true
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.leak = stop.end == 2 && how < 3;
                p.adopt = Some(match how {
                    0 | 1 => adopt_drain(before, s, stop, p.name),
                    2 => adopt_extract(before, s, k, stop, false),
                    _ => adopt_retain(before, s, k, false),
                });
                p
            }
            _ => {
                let seen = Log::default();
                let lg = seen.clone();
                let how = ctx.draw(2);
                let mut p = self.new_plan(
                    "iter",
                    String::new(),
                    Box::new(move |m, _, _, o| {
                        let t = &m[s];
                        let stop = Stop { take: n / 2, end: 1 };
                        o.b(match how {
                            0 => play(t.iter(), stop, Some(n), ke, &lg),
                            _ => {
                                let mut it = t.iter();
                                for _ in 0..n / 3 {
                                    lg.borrow_mut().yielded.push(ke(it.next().unwrap()));
                                }
                                play(it.clone(), stop, Some(n - n / 3), ke, &lg) && it.count() == n - n / 3
                            }
                        });
                        Ok(())
                    }),
                );
                p.exp.b(true);
                p.seen = seen;
                p.adopt = Some(Box::new(move |seen, _| {
                    distinct(&seen.yielded, &before, "iteration")?;
                    ensure!(seen.yielded.len() == n, "wrong-yield", "iteration yielded {} of {n}", seen.yielded.len());
                    Ok(())
                }));
                p
            }
        }
    }
}

#[allow(dead_code)]
fn unused(_: Violation) {}

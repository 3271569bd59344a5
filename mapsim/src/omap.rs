//! Ordered hash: histories with and without faults (C01, C02, C04, C07).

use crate::ctl::*;
use crate::galloc::{self, st};
use rubymap::map::{Entry, IndexedEntry, OccupiedEntry};
use rubymap::RubyMap;
use simcore::{ensure, fail, Ctx, RunResult, Violation};
use std::cmp::Ordering;
use std::ops::Bound;

pub type Map = RubyMap<K, V, Env, Glob, Raise, Bh>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ent {
    pub class: u32,
    pub kid: u32,
    pub val: u32,
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Model {
    pub e: Vec<Ent>,
}

impl Model {
    pub fn pos(&self, class: u32) -> Option<usize> {
        self.e.iter().position(|x| x.class == class)
    }
    pub fn sorted(&self) -> bool {
        self.e.windows(2).all(|w| w[0].class < w[1].class)
    }
    pub fn put(&mut self, class: u32, kid: u32, val: u32) -> (usize, Option<u32>) {
        match self.pos(class) {
            Some(i) => {
                let old = self.e[i].val;
                self.e[i].val = val;
                (i, Some(old))
            }
            None => {
                self.e.push(Ent { class, kid, val });
                (self.e.len() - 1, None)
            }
        }
    }
    pub fn swap_remove(&mut self, i: usize) -> Ent {
        self.e.swap_remove(i)
    }
    pub fn move_index(&mut self, from: usize, to: usize) {
        let x = self.e.remove(from);
        self.e.insert(to, x);
    }
}

const NONE: u64 = u64::MAX;

/// Observations of one call.
#[derive(Default, PartialEq, Eq, Debug)]
pub struct Obs(pub Vec<u64>);
impl Obs {
    pub fn n(&mut self, v: usize) {
        self.0.push(v as u64);
    }
    pub fn b(&mut self, v: bool) {
        self.0.push(v as u64);
    }
    pub fn none(&mut self) {
        self.0.push(NONE);
    }
    pub fn on(&mut self, v: Option<usize>) {
        self.0.push(v.map_or(NONE, |x| x as u64));
    }
    pub fn v(&mut self, v: &V) {
        self.0.push(v.val() as u64);
    }
    pub fn ov(&mut self, v: Option<V>) {
        self.0.push(v.map_or(NONE, |x| x.val() as u64));
    }
    pub fn rv(&mut self, v: Option<&V>) {
        self.0.push(v.map_or(NONE, |x| x.val() as u64));
    }
    pub fn kv(&mut self, k: &K, v: &V) {
        self.0.push(k.tok());
        self.0.push(v.val() as u64);
    }
    pub fn okv(&mut self, v: Option<(K, V)>) {
        match v {
            Some((k, v)) => self.kv(&k, &v),
            None => self.none(),
        }
    }
    pub fn rkv(&mut self, v: Option<(&K, &V)>) {
        match v {
            Some((k, v)) => self.kv(k, v),
            None => self.none(),
        }
    }
    pub fn val(&mut self, v: u32) {
        self.0.push(v as u64);
    }
    pub fn oval(&mut self, v: Option<u32>) {
        self.0.push(v.map_or(NONE, |x| x as u64));
    }
    pub fn ent(&mut self, e: &Ent) {
        self.0.push((e.class as u64) << 32 | e.kid as u64);
        self.0.push(e.val as u64);
    }
    pub fn oent(&mut self, e: Option<&Ent>) {
        match e {
            Some(e) => self.ent(e),
            None => self.none(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// No faults.
    Plain,
    /// hash/eql? callbacks raise.
    Raise,
    /// Callbacks panic.
    Panic,
    /// The allocator refuses speculative requests.
    Refuse,
}

/// What the histories need to know about a container.
pub trait Cont: Sized {
    fn with(cap: usize) -> Self;
    fn len(&self) -> usize;
    fn capacity(&self) -> usize;
    fn list(&self) -> Vec<Ent>;
    fn put(&mut self, k: K, val: u32, e: &mut Env, g: &mut Glob) -> Result<bool, Raise>;
    fn check(&self, d: &Model, universe: u32, deep: bool) -> RunResult;
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self>;
    /// Values alive per entry.
    const VALUES: i64;
    /// Size of one stored entry.
    const ENTRY: usize;
}

impl Cont for Map {
    fn with(cap: usize) -> Self {
        match cap {
            0 => Map::with_hasher(Bh),
            n => Map::with_capacity_and_hasher(n, Bh),
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn capacity(&self) -> usize {
        self.capacity()
    }
    fn list(&self) -> Vec<Ent> {
        self.iter()
            .map(|(k, v)| Ent {
                class: k.class(),
                kid: k.id(),
                val: v.val(),
            })
            .collect()
    }
    fn put(&mut self, k: K, val: u32, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        Ok(self.insert(k, V::new(val), e, g)?.is_none())
    }
    fn check(&self, d: &Model, universe: u32, deep: bool) -> RunResult {
        check_map(self, d, universe, deep)
    }
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self> {
        w.plan_map(ctx, group, s)
    }
    const VALUES: i64 = 1;
    const ENTRY: usize = std::mem::size_of::<K>() + std::mem::size_of::<V>() + 8;
}

pub struct World<C: Cont> {
    pub m: [C; 2],
    pub d: [Model; 2],
    pub mode: Mode,
    pub universe: u32,
    pub next_val: u32,
    fault_num: u32,
    raise_id: u64,
    deep_every: u32,
    weights: Vec<u32>,
    at_range: usize,
    leak_ok: bool,
}

pub type RealFn<'a, C> = Box<dyn FnOnce(&mut [C; 2], &mut Env, &mut Glob, &mut Obs) -> Result<(), Raise> + 'a>;

/// A planned operation: the call, the same on the model, and the intermediate
/// contents a bulk operation may stop at.
pub struct Plan<'a, C> {
    pub name: &'static str,
    pub args: String,
    pub real: RealFn<'a, C>,
    pub after: [Model; 2],
    pub exp: Obs,
    /// Contents allowed after an error, besides the ones before the call.
    pub partial: Vec<[Model; 2]>,
    /// Whether keys get fresh identities (clones); compared by class and
    /// value, then adopted.
    pub fresh: [bool; 2],
    /// Room asked for beyond the entries themselves.
    pub need: usize,
}

pub const GROUPS: usize = 13;

pub fn run<C: Cont>(ctx: &mut Ctx, mode: Mode) -> RunResult {
    reset();
    pick_hash(ctx);
    let mut universe = [3u32, 6, 9, 10, 14, 24, 60, 150, 400][ctx.draw(9)];
    if universe == 400 && spread() && ctx.draw(2) == 1 {
        universe = 2500;
    }
    let mut weights = vec![];
    for _ in 0..GROUPS {
        weights.push([1u32, 0, 3, 8][ctx.draw(4)]);
    }
    weights[0] += 2; // inserts always possible
    let fault_num = if mode == Mode::Plain { 0 } else { [2u32, 5, 10][ctx.draw(3)] };
    let at_range = [2usize, 6, 20, 100][ctx.draw(4)];
    let nops = match ctx.draw(4) {
        0 => 8 + ctx.draw(12),
        1 => 20 + ctx.draw(40),
        2 => 60 + ctx.draw(80),
        _ => 100 + ctx.draw(200),
    };
    let deep_every = if universe > 400 { 60 } else if universe > 100 { 12 } else if universe > 20 { 4 } else { 1 };
    let c0 = [0usize, 1, 8, 9, 16, 100][ctx.draw(6)];
    let c1 = [0usize, 8, 20][ctx.draw(3)];
    let mut w = World {
        m: [C::with(c0), C::with(c1)],
        d: [Model::default(), Model::default()],
        mode,
        universe,
        next_val: 1,
        fault_num,
        raise_id: 1,
        deep_every,
        weights,
        at_range,
        leak_ok: false,
    };
    ctx.log(|| format!("config mode={mode:?} universe={universe} hmode={} fault={fault_num}/20 caps={c0},{c1}", ctl().hmode));
    // sometimes start with a filled container
    let fill = ctx.draw(3) * ctx.draw(universe as usize + 1);
    if fill > 0 {
        let (mut e, mut g) = env();
        for i in 0..fill.min(universe as usize) {
            let (k, v) = (K::new(i as u32), w.next_val);
            w.next_val += 1;
            w.d[0].put(i as u32, k.id(), v * C::VALUES as u32);
            let m = &mut w.m[0];
            match call(|| m.put(k, v, &mut e, &mut g)) {
                Call::Ret(Ok(true)) => {}
                _ => fail!("insert-result", "insert of a new key did not return none"),
            }
        }
        w.verify(ctx, true)?;
    }
    ctx.set_ops(nops as u32);
    let mut count = 0;
    while ctx.next_op() {
        count += 1;
        w.step(ctx)?;
        let deep = count % w.deep_every == 0;
        w.verify(ctx, deep)?;
    }
    w.verify(ctx, true)?;
    w.finish(ctx)
}

impl<C: Cont> World<C> {
    pub fn val(&mut self) -> u32 {
        self.next_val += 1;
        self.next_val
    }
    fn kv(&mut self, class: u32) -> (K, V, u32, u32) {
        let k = K::new(class);
        let v = self.val();
        let kid = k.id();
        (k, V::new(v), kid, v)
    }
    pub fn class(&mut self, ctx: &mut Ctx) -> u32 {
        ctx.draw(self.universe as usize) as u32
    }

    fn finish(self, ctx: &mut Ctx) -> RunResult {
        let World { m, leak_ok, .. } = self;
        ctl().begin_op();
        match call(move || drop(m)) {
            Call::Ret(()) => {}
            Call::Injected | Call::Oom => {}
            Call::Other(p) => fail!("panic-in-drop", "dropping the container panicked: {p}"),
        }
        galloc::flush_quarantine();
        if !leak_ok {
            let c = ctl();
            ensure!(c.klive == 0, "key-leak", "{} keys were never dropped", c.klive);
            ensure!(c.vlive == 0, "value-leak", "{} values were never dropped", c.vlive);
            ensure!(
                st().live == 0,
                "memory-leak",
                "{} blocks ({} bytes) were never freed",
                st().live,
                st().live_bytes
            );
        }
        let _ = ctx;
        Ok(())
    }

    /// Compares the container with the model.
    pub fn verify(&mut self, ctx: &mut Ctx, deep: bool) -> RunResult {
        ctl().begin_op();
        for s in 0..2 {
            self.m[s].check(&self.d[s], self.universe, deep)?;
            ctx.mix(self.d[s].e.len() as u64);
        }
        if !self.leak_ok {
            let want: i64 = self.d.iter().map(|d| d.e.len() as i64).sum();
            let c = ctl();
            ensure!(
                c.klive == want && c.vlive == want * C::VALUES,
                "ownership",
                "{} keys and {} values alive, the containers hold {want} pairs",
                c.klive,
                c.vlive
            );
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx) -> RunResult {
        let group = ctx.weighted(&self.weights.clone());
        let s = ctx.draw(2);
        let plan = C::plan(self, ctx, group, s);
        self.execute(ctx, plan, s)
    }

    fn execute(&mut self, ctx: &mut Ctx, plan: Plan<C>, s: usize) -> RunResult {
        let Plan {
            name,
            args,
            real,
            after,
            exp,
            partial,
            fresh,
            need,
        } = plan;
        let before = self.d.clone();
        let c = ctl();
        c.begin_op();
        let mut armed = false;
        match self.mode {
            Mode::Plain => {}
            Mode::Raise | Mode::Panic => {
                if ctx.chance(self.fault_num, 20) {
                    armed = true;
                    let p = self.mode == Mode::Panic;
                    let mask = if p {
                        match ctx.draw(4) {
                            0 => PANIC_MASK,
                            1 => PANIC_MASK & !(1 << Cb::Drop as u32),
                            2 => 1 << Cb::Closure as u32 | 1 << Cb::Cmp as u32 | 1 << Cb::Iter as u32,
                            _ => KEY_MASK,
                        }
                    } else {
                        [RAISE_MASK, 1 << Cb::Eql as u32, 1 << Cb::Hash as u32][ctx.draw(3)]
                    };
                    let at = ctx.draw(self.at_range) as u32;
                    self.raise_id += 1;
                    c.arm(mask, at, p, self.raise_id);
                }
            }
            Mode::Refuse => {
                if ctx.chance(self.fault_num, 20) {
                    armed = true;
                    let a = st();
                    a.refuse_in = 1 + ctx.draw(2) as u32;
                    a.refuse_n = 1 + ctx.draw(3) as u32;
                    // larger than anything this call needs; small linear
                    // storage may double
                    let most = before.iter().chain(after.iter()).map(|d| d.e.len()).max().unwrap();
                    a.refuse_above = (most + need).max(16) * C::ENTRY;
                    a.refused = 0;
                    a.refused_size = 0;
                }
            }
        }
        ctx.log(|| format!("m{s}.{name}({args}){}", if armed { " [fault armed]" } else { "" }));
        let (mut e, mut g) = env();
        let mut obs = Obs(Vec::with_capacity(exp.0.len() + 64));
        let m = &mut self.m;
        let o = &mut obs;
        let r = call(|| real(m, &mut e, &mut g, o));
        let a = st();
        let refused = a.refused;
        a.refuse_in = 0;
        a.refused = 0;
        let c = ctl();
        let fired = c.fired;
        let after_fire = c.after_fire;
        let was_panic = c.panic;
        c.armed = false;
        let cap = self.m[s].capacity();
        let mut h = 0u64;
        for b in name.bytes() {
            h = simcore::mix64(h ^ b as u64);
        }
        match r {
            Call::Ret(Ok(())) => {
                if refused > 0 {
                    ctx.fault("speculative allocation refused");
                    ctx.nontrivial();
                    ctx.state(simcore::mix64(h ^ 7) ^ cap as u64 ^ (before[s].e.len() as u64) << 20);
                }
                if let Some(k) = fired {
                    if !was_panic {
                        ctx.fault(CB_NAMES[k as usize]);
                        fail!(
                            "raise-swallowed",
                            "{name}({args}): the {} callback raised but the call returned normally",
                            CB_NAMES[k as usize]
                        );
                    }
                    fail!(
                        "panic-swallowed",
                        "{name}({args}): a callback panicked but the call returned normally"
                    );
                }
                ensure!(
                    obs == exp,
                    "wrong-result",
                    "{name}({args}) on {:?}: got {:?}, expected {:?}",
                    short(&before[s]),
                    obs.0,
                    exp.0
                );
                self.d = after;
                for i in 0..2 {
                    if fresh[i] {
                        self.adopt_clone(i)?;
                    }
                }
                ctx.state(h ^ simcore::mix64(cap as u64 ^ (before[s].e.len() as u64) << 20));
                ctx.mix(h);
                for v in &obs.0 {
                    ctx.mix(*v);
                }
            }
            Call::Ret(Err(r)) => {
                let Some(k) = fired else {
                    fail!("error-invented", "{name}({args}): returned error {r:?} although no callback raised");
                };
                ctx.fault(CB_NAMES[k as usize]);
                ctx.nontrivial();
                ctx.state(simcore::mix64(h ^ k as u64 ^ 1) ^ cap as u64 ^ (before[s].e.len() as u64) << 20);
                ensure!(
                    r.0 == self.raise_id,
                    "wrong-error",
                    "{name}({args}): another error than the raised one was returned"
                );
                ensure!(
                    after_fire == 0,
                    "callback-after-raise",
                    "{name}({args}): {after_fire} key callbacks ran after the {} callback had raised",
                    CB_NAMES[k as usize]
                );
                ctx.log(|| format!("  -> raised from {}", CB_NAMES[k as usize]));
                ctx.mix(h ^ 0xE);
                // contents must be unchanged, or a prefix of a bulk operation
                let mut ok = self.matches(&before);
                if !ok {
                    for p in &partial {
                        if self.matches(p) {
                            self.d = p.clone();
                            ok = true;
                            ctx.probe("bulk operation stopped midway");
                            break;
                        }
                    }
                }
                if !ok {
                    fail!(
                        "changed-by-raise",
                        "{name}({args}): after the {} callback raised the contents are m0={} m1={}, before the call m0={} m1={}",
                        CB_NAMES[k as usize],
                        show(&self.m[0].list()),
                        show(&self.m[1].list()),
                        short(&before[0]),
                        short(&before[1])
                    );
                }
            }
            Call::Injected => {
                let k = fired.unwrap();
                ctx.fault(CB_NAMES[k as usize]);
                ctx.nontrivial();
                ctx.state(simcore::mix64(h ^ k as u64 ^ 2) ^ cap as u64 ^ (before[s].e.len() as u64) << 20);
                ctx.log(|| format!("  -> panicked in {}", CB_NAMES[k as usize]));
                ctx.mix(h ^ 0xF);
                if k == Cb::Drop {
                    // a panicking destructor may stop other destructors
                    self.leak_ok = true;
                }
                let mut allowed: Vec<Ent> = vec![];
                for x in [&before, &after].into_iter().chain(partial.iter()) {
                    for d in x {
                        allowed.extend_from_slice(&d.e);
                    }
                }
                self.adopt_after_panic(name, &args, &allowed)?;
            }
            Call::Oom => {
                fail!(
                    "growth-not-retried",
                    "{name}({args}) with {} entries gave up after a request of {} bytes was refused, {} are enough",
                    before[s].e.len(),
                    st().refused_size,
                    st().refuse_above
                );
            }
            Call::Other(p) => {
                fail!("panic", "{name}({args}) on {}: unexpected panic: {p}", short(&before[s]));
            }
        }
        Ok(())
    }

    fn matches(&self, want: &[Model; 2]) -> bool {
        (0..2).all(|i| {
            self.m[i].len() == want[i].e.len()
                && self.m[i].list() == want[i].e
        })
    }

    /// After cloning, key identities are new; check class, value and origin.
    fn adopt_clone(&mut self, i: usize) -> RunResult {
        let m = &self.m[i];
        let d = &mut self.d[i];
        ensure!(m.len() == d.e.len(), "clone-mismatch", "a clone has {} entries instead of {}", m.len(), d.e.len());
        for (k, x) in m.list().into_iter().zip(&mut d.e) {
            ensure!(
                k.class == x.class && k.val == x.val,
                "clone-mismatch",
                "a clone holds ({},{}) where the original holds ({},{})",
                k.class,
                k.val,
                x.class,
                x.val
            );
            ensure!(
                ctl().origin[k.kid as usize] == x.kid,
                "clone-mismatch",
                "a cloned key was not cloned from the original key"
            );
            x.kid = k.kid;
        }
        Ok(())
    }

    fn adopt_after_panic(&mut self, name: &str, args: &str, allowed: &[Ent]) -> RunResult {
        for i in 0..2 {
            let mut now = Model::default();
            for x in self.m[i].list() {
                let known = allowed.contains(&x)
                    // a clone made before the panic
                    || allowed.iter().any(|a| a.class == x.class && a.val == x.val
                        && ctl().origin[x.kid as usize] == a.kid);
                ensure!(
                    known,
                    "foreign-entry",
                    "{name}({args}): after a panic the container holds a pair ({},{}) that was neither there before nor being added",
                    x.class,
                    x.val
                );
                now.e.push(x);
            }
            self.d[i] = now;
        }
        for i in 0..2 {
            self.m[i].check(&self.d[i], self.universe, true).map_err(|v| {
                Violation::new(
                    format!("inconsistent-after-panic-{}", v.class),
                    format!("{name}({args}): after a callback panicked the container is inconsistent: {}", v.msg),
                )
            })?;
        }
        Ok(())
    }
}

pub fn short(d: &Model) -> String {
    let mut s = String::from("[");
    for x in d.e.iter().take(24) {
        s.push_str(&format!("{}:{} ", x.class, x.val));
    }
    if d.e.len() > 24 {
        s.push_str("...");
    }
    s.push(']');
    s
}

fn show(m: &[Ent]) -> String {
    let mut s = String::from("[");
    for x in m.iter().take(24) {
        s.push_str(&format!("{}:{} ", x.class, x.val));
    }
    if m.len() > 24 {
        s.push_str("...");
    }
    s.push(']');
    s
}

/// All observables of `m` against the model.
pub fn check_map(m: &Map, d: &Model, universe: u32, deep: bool) -> RunResult {
    let n = d.e.len();
    ensure!(m.len() == n, "wrong-length", "length {} instead of {n}", m.len());
    ensure!(m.is_empty() == (n == 0), "wrong-length", "is_empty disagrees with length {n}");
    ensure!(m.capacity() >= n, "wrong-capacity", "capacity {} below length {n}", m.capacity());
    let mut it = m.iter();
    for (i, x) in d.e.iter().enumerate() {
        ensure!(it.len() == n - i, "wrong-iteration", "iterator reports {} left instead of {}", it.len(), n - i);
        let Some((k, v)) = it.next() else {
            fail!("wrong-iteration", "iteration ended after {i} of {n} entries");
        };
        ensure!(
            k.class() == x.class && k.id() == x.kid && v.val() == x.val,
            "wrong-iteration",
            "entry {i} is ({},{}) instead of ({},{})",
            k.class(),
            v.val(),
            x.class,
            x.val
        );
    }
    ensure!(it.next().is_none(), "wrong-iteration", "iteration goes on after {n} entries");
    if !deep {
        return Ok(());
    }
    let (mut e, mut g) = env();
    let r = call(|| -> Result<Result<(), Violation>, Raise> {
        for c in 0..universe {
            let q = K::new(c);
            let want = d.pos(c);
            let got = m.get_index_of(&q, &mut e, &mut g)?;
            if got != want {
                return Ok(Err(Violation::new(
                    "wrong-lookup",
                    format!("key {c} found at {got:?} instead of {want:?} ({n} entries)"),
                )));
            }
            if c % 3 == 0 {
                let got = m.get_full(&q, &mut e, &mut g)?.map(|(i, k, v)| (i, k.id(), v.val()));
                let want = want.map(|i| (i, d.e[i].kid, d.e[i].val));
                if got != want || m.contains_key(&q, &mut e, &mut g)? != want.is_some() {
                    return Ok(Err(Violation::new("wrong-lookup", format!("full lookup of key {c} gave {got:?} instead of {want:?}"))));
                }
            }
        }
        for (i, x) in d.e.iter().enumerate() {
            match m.get_index(i) {
                Some((k, v)) if k.id() == x.kid && v.val() == x.val => {}
                _ => return Ok(Err(Violation::new("wrong-position", format!("position {i} does not hold the model's pair")))),
            }
        }
        if m.get_index(n).is_some() {
            return Ok(Err(Violation::new("wrong-position", format!("position {n} exists in a map of {n}"))));
        }
        let mut rev = m.iter();
        for x in d.e.iter().rev() {
            if rev.next_back().map(|(k, _)| k.id()) != Some(x.kid) {
                return Ok(Err(Violation::new("wrong-iteration", "backward iteration differs".to_string())));
            }
        }
        Ok(Ok(()))
    });
    match r {
        Call::Ret(Ok(x)) => x,
        Call::Ret(Err(r)) => fail!("error-invented", "a lookup returned error {r:?} although no callback raised"),
        Call::Injected | Call::Oom => unreachable!(),
        Call::Other(p) => fail!("panic-in-lookup", "a lookup panicked: {p}"),
    }
}

pub fn bounds(ctx: &mut Ctx, n: usize) -> (usize, usize) {
    let a = ctx.draw(n + 1);
    let b = a + ctx.draw(n - a + 1);
    (a, b)
}

impl World<Map> {
    fn plan_map<'a>(&mut self, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Map> {
        let mut after = self.d.clone();
        let mut exp = Obs::default();
        let mut partial: Vec<[Model; 2]> = vec![];
        let mut fresh = [false; 2];
        let n = self.d[s].e.len();
        let mut need = 0;
        let (name, args, real): (&'static str, String, RealFn<'a, Map>) = match group {
            // ---- insertion
            0 => {
                let class = self.class(ctx);
                let (k, v, kid, val) = self.kv(class);
                let args = format!("{class},{val}");
                match ctx.draw(9) {
                    0 | 1 => {
                        let (_, old) = after[s].put(class, kid, val);
                        exp.oval(old);
                        ("insert", args, Box::new(move |m, e, g, o| {
                            o.ov(m[s].insert(k, v, e, g)?);
                            Ok(())
                        }))
                    }
                    2 => {
                        let (i, old) = after[s].put(class, kid, val);
                        exp.n(i);
                        exp.oval(old);
                        ("insert_full", args, Box::new(move |m, e, g, o| {
                            let (i, old) = m[s].insert_full(k, v, e, g)?;
                            o.n(i);
                            o.ov(old);
                            Ok(())
                        }))
                    }
                    3 => {
                        let i = ctx.draw(n + 1);
                        match after[s].pos(class) {
                            Some(p) => {
                                let to = if i > p { i - 1 } else { i };
                                let old = after[s].e[p].val;
                                after[s].e[p].val = val;
                                after[s].move_index(p, to);
                                exp.n(to);
                                exp.val(old);
                            }
                            None => {
                                after[s].e.insert(i, Ent { class, kid, val });
                                exp.n(i);
                                exp.none();
                            }
                        }
                        ("insert_before", format!("{i},{args}"), Box::new(move |m, e, g, o| {
                            let (i, old) = m[s].insert_before(i, k, v, e, g)?;
                            o.n(i);
                            o.ov(old);
                            Ok(())
                        }))
                    }
                    4 => {
                        let present = after[s].pos(class);
                        let i = if present.is_some() { ctx.draw(n) } else { ctx.draw(n + 1) };
                        match present {
                            Some(p) => {
                                exp.val(after[s].e[p].val);
                                after[s].e[p].val = val;
                                after[s].move_index(p, i);
                            }
                            None => {
                                after[s].e.insert(i, Ent { class, kid, val });
                                exp.none();
                            }
                        }
                        ("shift_insert", format!("{i},{args}"), Box::new(move |m, e, g, o| {
                            o.ov(m[s].shift_insert(i, k, v, e, g)?);
                            Ok(())
                        }))
                    }
                    5 if self.d[s].sorted() => {
                        match after[s].e.binary_search_by(|x| x.class.cmp(&class)) {
                            Ok(i) => {
                                exp.n(i);
                                exp.val(after[s].e[i].val);
                                after[s].e[i].val = val;
                            }
                            Err(i) => {
                                exp.n(i);
                                exp.none();
                                after[s].e.insert(i, Ent { class, kid, val });
                            }
                        }
                        ("insert_sorted", args, Box::new(move |m, e, g, o| {
                            let (i, old) = m[s].insert_sorted(k, v, e, g)?;
                            o.n(i);
                            o.ov(old);
                            Ok(())
                        }))
                    }
                    6 => {
                        // the key object is made by the container
                        drop(k);
                        let kid2 = ctl().ks.len() as u32;
                        let (i, old) = after[s].put(class, kid2, val);
                        let full = ctx.draw(2) == 1;
                        if full {
                            exp.n(i);
                        }
                        exp.oval(old);
                        ("insert_sym", args, Box::new(move |m, _, _, o| {
                            if full {
                                let (i, old) = m[s].insert_sym_full(Sym { class }, v);
                                o.n(i);
                                o.ov(old);
                            } else {
                                o.ov(m[s].insert_sym(Sym { class }, v));
                            }
                            Ok(())
                        }))
                    }
                    7 => {
                        let (_, old) = after[s].put(class, kid, val);
                        exp.oval(old);
                        let h = ctl().hash(class) as usize;
                        ("insert_prehashed", args, Box::new(move |m, _, _, o| {
                            o.ov(m[s].insert_prehashed(h, k, v));
                            Ok(())
                        }))
                    }
                    _ => {
                        let (_, old) = after[s].put(class, kid, val);
                        exp.oval(old);
                        let h = ctl().hash(class) as usize;
                        ("insert_prehashed_with", args, Box::new(move |m, _, _, o| {
                            o.ov(m[s].insert_prehashed_with(h, k, v, |x| {
                                cb_p(Cb::Closure);
                                x.class() == class
                            }));
                            Ok(())
                        }))
                    }
                }
            }
            // ---- lookup
            1 => {
                let class = self.class(ctx);
                let q = K::new(class);
                let p = after[s].pos(class);
                let args = format!("{class}");
                match ctx.draw(9) {
                    0 => {
                        exp.oval(p.map(|i| after[s].e[i].val));
                        ("get", args, Box::new(move |m, e, g, o| {
                            o.rv(m[s].get(&q, e, g)?);
                            Ok(())
                        }))
                    }
                    1 => {
                        exp.oent(p.map(|i| &after[s].e[i]));
                        ("get_key_value", args, Box::new(move |m, e, g, o| {
                            o.rkv(m[s].get_key_value(&q, e, g)?);
                            Ok(())
                        }))
                    }
                    2 => {
                        exp.on(p);
                        exp.oent(p.map(|i| &after[s].e[i]));
                        ("get_full", args, Box::new(move |m, e, g, o| {
                            let r = m[s].get_full(&q, e, g)?;
                            o.on(r.map(|r| r.0));
                            o.rkv(r.map(|r| (r.1, r.2)));
                            Ok(())
                        }))
                    }
                    3 => {
                        exp.b(p.is_some());
                        ("contains_key", args, Box::new(move |m, e, g, o| {
                            o.b(m[s].contains_key(&q, e, g)?);
                            Ok(())
                        }))
                    }
                    4 => {
                        let nv = self.val();
                        exp.oval(p.map(|i| after[s].e[i].val));
                        if let Some(i) = p {
                            after[s].e[i].val = nv;
                        }
                        ("get_mut", args, Box::new(move |m, e, g, o| {
                            match m[s].get_mut(&q, e, g)? {
                                Some(v) => {
                                    o.v(v);
                                    v.set(nv);
                                }
                                None => o.none(),
                            }
                            Ok(())
                        }))
                    }
                    5 => {
                        let nv = self.val();
                        exp.on(p);
                        if let Some(i) = p {
                            exp.ent(&after[s].e[i]);
                            after[s].e[i].val = nv;
                        }
                        ("get_full_mut", args, Box::new(move |m, e, g, o| {
                            match m[s].get_full_mut(&q, e, g)? {
                                Some((i, k, v)) => {
                                    o.n(i);
                                    o.kv(k, v);
                                    v.set(nv);
                                }
                                None => o.none(),
                            }
                            Ok(())
                        }))
                    }
                    6 => {
                        let c2 = self.class(ctx);
                        if c2 == class {
                            exp.on(p);
                            ("get_index_of", args, Box::new(move |m, e, g, o| {
                                o.on(m[s].get_index_of(&q, e, g)?);
                                Ok(())
                            }))
                        } else {
                            let q2 = K::new(c2);
                            let p2 = after[s].pos(c2);
                            let (a, b) = (self.val(), self.val());
                            exp.oval(p.map(|i| after[s].e[i].val));
                            exp.oval(p2.map(|i| after[s].e[i].val));
                            if let Some(i) = p {
                                after[s].e[i].val = a;
                            }
                            if let Some(i) = p2 {
                                after[s].e[i].val = b;
                            }
                            ("get_disjoint_mut", format!("{class},{c2}"), Box::new(move |m, e, g, o| {
                                let [x, y] = m[s].get_disjoint_mut([&q, &q2], e, g)?;
                                o.rv(x.as_deref());
                                o.rv(y.as_deref());
                                if let Some(x) = x {
                                    x.set(a);
                                }
                                if let Some(y) = y {
                                    y.set(b);
                                }
                                Ok(())
                            }))
                        }
                    }
                    7 => {
                        exp.oval(p.map(|i| after[s].e[i].val));
                        let h = ctl().hash(class) as usize;
                        ("get_prehashed", args, Box::new(move |m, e, g, o| {
                            o.rv(m[s].get_prehashed(h, &q, e, g)?);
                            Ok(())
                        }))
                    }
                    _ => {
                        exp.oval(p.map(|i| after[s].e[i].val));
                        let h = ctl().hash(class) as usize;
                        ("get_prehashed_with", args, Box::new(move |m, e, g, o| {
                            o.rv(m[s].get_prehashed_with(
                                h,
                                |x| {
                                    cb_p(Cb::Closure);
                                    x.class() == class
                                },
                                e,
                                g,
                            )?);
                            drop(q);
                            Ok(())
                        }))
                    }
                }
            }
            // ---- removal by key
            2 | 3 => {
                let class = if n > 0 && ctx.draw(3) > 0 {
                    self.d[s].e[ctx.draw(n)].class
                } else {
                    self.class(ctx)
                };
                let q = K::new(class);
                let p = after[s].pos(class);
                let args = format!("{class}");
                let swap = group == 2;
                let ent = p.map(|i| if swap { after[s].swap_remove(i) } else { after[s].e.remove(i) });
                match ctx.draw(4) {
                    0 => {
                        exp.oval(ent.map(|x| x.val));
                        (if swap { "swap_remove" } else { "shift_remove" }, args, Box::new(move |m, e, g, o| {
                            o.ov(if swap { m[s].swap_remove(&q, e, g)? } else { m[s].shift_remove(&q, e, g)? });
                            Ok(())
                        }))
                    }
                    1 => {
                        exp.oent(ent.as_ref());
                        (if swap { "swap_remove_entry" } else { "shift_remove_entry" }, args, Box::new(move |m, e, g, o| {
                            o.okv(if swap { m[s].swap_remove_entry(&q, e, g)? } else { m[s].shift_remove_entry(&q, e, g)? });
                            Ok(())
                        }))
                    }
                    2 if swap => {
                        exp.oent(ent.as_ref());
                        ("remove_entry", args, Box::new(move |m, e, g, o| {
                            #[allow(deprecated)]
                            o.okv(m[s].remove_entry(&q, e, g)?);
                            Ok(())
                        }))
                    }
                    _ => {
                        exp.on(p);
                        exp.oent(ent.as_ref());
                        (if swap { "swap_remove_full" } else { "shift_remove_full" }, args, Box::new(move |m, e, g, o| {
                            let r = if swap { m[s].swap_remove_full(&q, e, g)? } else { m[s].shift_remove_full(&q, e, g)? };
                            match r {
                                Some((i, k, v)) => {
                                    o.n(i);
                                    o.kv(&k, &v);
                                }
                                None => {
                                    o.none();
                                    o.none();
                                }
                            }
                            Ok(())
                        }))
                    }
                }
            }
            // ---- removal and moves by position
            4 => {
                let i = ctx.draw(n + 1);
                match ctx.draw(5) {
                    0 => {
                        let x = (i < n).then(|| after[s].swap_remove(i));
                        exp.oent(x.as_ref());
                        ("swap_remove_index", format!("{i}"), Box::new(move |m, e, g, o| {
                            o.okv(m[s].swap_remove_index(i, e, g)?);
                            Ok(())
                        }))
                    }
                    1 => {
                        let x = (i < n).then(|| after[s].e.remove(i));
                        exp.oent(x.as_ref());
                        ("shift_remove_index", format!("{i}"), Box::new(move |m, e, g, o| {
                            o.okv(m[s].shift_remove_index(i, e, g)?);
                            Ok(())
                        }))
                    }
                    2 => {
                        let x = after[s].e.pop();
                        exp.oent(x.as_ref());
                        ("pop", String::new(), Box::new(move |m, e, g, o| {
                            o.okv(m[s].pop(e, g)?);
                            Ok(())
                        }))
                    }
                    3 if n > 0 => {
                        let (a, b) = (ctx.draw(n), ctx.draw(n));
                        after[s].move_index(a, b);
                        ("move_index", format!("{a},{b}"), Box::new(move |m, e, g, _| m[s].move_index(a, b, e, g)))
                    }
                    _ => {
                        let l = ctx.draw(n + 3);
                        after[s].e.truncate(l);
                        ("truncate", format!("{l}"), Box::new(move |m, e, g, _| m[s].truncate(l, e, g)))
                    }
                }
            }
            // ---- positions and ranges
            5 => {
                let (a, b) = bounds(ctx, n);
                let nv = self.val();
                match ctx.draw(9) {
                    0 => {
                        let bad = ctx.draw(4) == 1;
                        let (x, y) = if bad { (a, n + 1) } else { (a, b) };
                        if !bad {
                            exp.n(b - a);
                            for t in &after[s].e[a..b] {
                                exp.ent(t);
                            }
                        } else {
                            exp.none();
                        }
                        ("get_range", format!("{x}..{y}"), Box::new(move |m, _, _, o| {
                            match m[s].get_range(x..y) {
                                Some(sl) => {
                                    o.n(sl.len());
                                    for (k, v) in sl {
                                        o.kv(k, v);
                                    }
                                }
                                None => o.none(),
                            }
                            Ok(())
                        }))
                    }
                    1 => {
                        for t in &mut after[s].e[a..b] {
                            t.val = nv;
                        }
                        exp.n(b - a);
                        let ex = ctx.draw(2) == 1;
                        ("get_range_mut", format!("{a}..{b}"), Box::new(move |m, _, _, o| {
                            let r = if ex && a > 0 {
                                m[s].get_range_mut((Bound::Excluded(a - 1), Bound::Excluded(b)))
                            } else {
                                m[s].get_range_mut(a..b)
                            };
                            match r {
                                Some(sl) => {
                                    o.n(sl.len());
                                    for (_, v) in sl {
                                        v.set(nv);
                                    }
                                }
                                None => o.none(),
                            }
                            Ok(())
                        }))
                    }
                    2 => {
                        if a < n {
                            exp.ent(&after[s].e[a]);
                            after[s].e[a].val = nv;
                        } else {
                            exp.none();
                        }
                        ("get_index_mut", format!("{a}"), Box::new(move |m, _, _, o| {
                            match m[s].get_index_mut(a) {
                                Some((k, v)) => {
                                    o.kv(k, v);
                                    v.set(nv);
                                }
                                None => o.none(),
                            }
                            Ok(())
                        }))
                    }
                    3 => {
                        exp.oent(after[s].e.first());
                        exp.oent(after[s].e.last());
                        if let Some(x) = after[s].e.first_mut() {
                            x.val = nv;
                        }
                        let nv2 = self.val();
                        if let Some(x) = after[s].e.last_mut() {
                            x.val = nv2;
                        }
                        ("first/last", String::new(), Box::new(move |m, _, _, o| {
                            o.rkv(m[s].first());
                            o.rkv(m[s].last());
                            if let Some((_, v)) = m[s].first_mut() {
                                v.set(nv);
                            }
                            if let Some((_, v)) = m[s].last_mut() {
                                v.set(nv2);
                            }
                            Ok(())
                        }))
                    }
                    4 => {
                        let c = ctx.draw(n + 2);
                        let over = a == b || a == c || b == c;
                        let oob = a >= n || b >= n || c >= n;
                        if oob || over {
                            exp.n(if oob { 1 } else { 2 });
                            // either error may be reported when both apply
                            if oob && over {
                                exp.0.clear();
                            }
                        } else {
                            for i in [a, b, c] {
                                exp.ent(&after[s].e[i]);
                            }
                            for (j, i) in [a, b, c].into_iter().enumerate() {
                                after[s].e[i].val = nv + j as u32;
                            }
                            self.next_val += 3;
                        }
                        ("get_disjoint_indices_mut", format!("{a},{b},{c}"), Box::new(move |m, _, _, o| {
                            match m[s].get_disjoint_indices_mut([a, b, c]) {
                                Ok(r) => {
                                    for (j, (k, v)) in r.into_iter().enumerate() {
                                        o.kv(k, v);
                                        v.set(nv + j as u32);
                                    }
                                }
                                Err(x) => {
                                    if !(oob && over) {
                                        o.n(match x {
                                            rubymap::GetDisjointMutError::IndexOutOfBounds => 1,
                                            _ => 2,
                                        });
                                    }
                                }
                            }
                            Ok(())
                        }))
                    }
                    5 => {
                        for t in &after[s].e {
                            exp.ent(t);
                        }
                        for (i, t) in after[s].e.iter_mut().enumerate() {
                            t.val = nv + i as u32;
                        }
                        self.next_val += n as u32;
                        let how = ctx.draw(4);
                        ("iter_mut", format!("{how}"), Box::new(move |m, _, _, o| {
                            for (k, v) in m[s].iter() {
                                o.kv(k, v);
                            }
                            match how {
                                0 => m[s].iter_mut().enumerate().for_each(|(i, (_, v))| v.set(nv + i as u32)),
                                1 => m[s].values_mut().enumerate().for_each(|(i, v)| v.set(nv + i as u32)),
                                2 => {
                                    let n = m[s].len();
                                    m[s].iter_mut().rev().enumerate().for_each(|(i, (_, v))| v.set(nv + (n - 1 - i) as u32))
                                }
                                _ => {
                                    for i in 0..m[s].len() {
                                        m[s][i].set(nv + i as u32);
                                    }
                                }
                            }
                            Ok(())
                        }))
                    }
                    6 => {
                        // keys and values, both directions, skipping
                        let k = ctx.draw(3) + 1;
                        for t in after[s].e.iter().skip(a) {
                            exp.0.push((t.class as u64) << 32 | t.kid as u64);
                        }
                        for t in after[s].e.iter().rev().step_by(k) {
                            exp.val(t.val);
                        }
                        exp.oent(after[s].e.get(a));
                        ("keys/values", format!("{a},{k}"), Box::new(move |m, _, _, o| {
                            for k in m[s].keys().skip(a) {
                                o.0.push(k.tok());
                            }
                            for v in m[s].values().rev().step_by(k) {
                                o.v(v);
                            }
                            o.rkv(m[s].iter().nth(a));
                            Ok(())
                        }))
                    }
                    7 => {
                        // slices
                        let mid = a;
                        for t in &after[s].e {
                            exp.ent(t);
                        }
                        exp.n(mid);
                        exp.n(n - mid);
                        exp.oent(after[s].e.first());
                        exp.oent(after[s].e.last());
                        exp.b(true);
                        ("slice", format!("{mid}"), Box::new(move |m, _, _, o| {
                            let sl = m[s].as_slice();
                            let (x, y) = sl.split_at(mid);
                            for (k, v) in x.iter().chain(y.iter()) {
                                o.kv(k, v);
                            }
                            o.n(x.len());
                            o.n(y.len());
                            o.rkv(sl.split_first().map(|p| p.0));
                            o.rkv(sl.split_last().map(|p| p.0));
                            o.b(sl.split_first().is_none_or(|p| p.1 == &sl[1..]));
                            Ok(())
                        }))
                    }
                    _ => {
                        if self.d[s].sorted() {
                            let class = self.class(ctx);
                            let q = K::new(class);
                            let r = after[s].e.binary_search_by(|x| x.class.cmp(&class));
                            let (f, i) = match r {
                                Ok(i) => (true, i),
                                Err(i) => (false, i),
                            };
                            let pp = after[s].e.partition_point(|x| x.class < class);
                            exp.b(f);
                            exp.n(i);
                            exp.n(i);
                            exp.n(i);
                            exp.n(pp);
                            ("binary_search", format!("{class}"), Box::new(move |m, _, _, o| {
                                let r = m[s].binary_search_keys(&q);
                                o.b(r.is_ok());
                                o.n(r.unwrap_or_else(|x| x));
                                o.n(m[s]
                                    .binary_search_by(|k, _| {
                                        cb_p(Cb::Closure);
                                        k.class().cmp(&class)
                                    })
                                    .unwrap_or_else(|x| x));
                                o.n(m[s].binary_search_by_key(&class, |k, _| k.class()).unwrap_or_else(|x| x));
                                o.n(m[s].partition_point(|k, _| k.class() < class));
                                Ok(())
                            }))
                        } else {
                            after[s].e.sort_by_key(|x| x.class);
                            ("sort_keys", String::new(), Box::new(move |m, _, _, _| {
                                m[s].sort_keys();
                                Ok(())
                            }))
                        }
                    }
                }
            }
            // ---- reorder
            6 => match ctx.draw(6) {
                0 => {
                    after[s].e.sort_by_key(|x| x.class);
                    ("sort_keys", String::new(), Box::new(move |m, _, _, _| {
                        m[s].sort_keys();
                        Ok(())
                    }))
                }
                1 => {
                    let md = 1 + ctx.draw(7) as u32;
                    after[s].e.sort_by(|x, y| (x.val % md).cmp(&(y.val % md)));
                    ("sort_by", format!("val%{md}"), Box::new(move |m, _, _, _| {
                        m[s].sort_by(|_, x, _, y| {
                            cb_p(Cb::Cmp);
                            (x.val() % md).cmp(&(y.val() % md))
                        });
                        Ok(())
                    }))
                }
                2 => {
                    after[s].e.sort_by(|x, y| y.class.cmp(&x.class));
                    ("sort_unstable_by", "desc".into(), Box::new(move |m, _, _, _| {
                        m[s].sort_unstable_by(|x, _, y, _| y.cmp(x));
                        Ok(())
                    }))
                }
                3 => {
                    let md = 1 + ctx.draw(7) as u32;
                    after[s].e.sort_by_key(|x| x.val % md);
                    ("sort_by_cached_key", format!("val%{md}"), Box::new(move |m, _, _, _| {
                        m[s].sort_by_cached_key(|_, v| {
                            cb_p(Cb::Closure);
                            v.val() % md
                        });
                        Ok(())
                    }))
                }
                4 => {
                    after[s].e.sort_by_key(|x| x.class);
                    ("sort_unstable_keys", String::new(), Box::new(move |m, _, _, _| {
                        m[s].sort_unstable_keys();
                        Ok(())
                    }))
                }
                _ => {
                    after[s].e.reverse();
                    ("reverse", String::new(), Box::new(move |m, _, _, _| {
                        m[s].reverse();
                        Ok(())
                    }))
                }
            },
            // ---- retain, drain, split_off
            7 => match ctx.draw(4) {
                0 | 1 => {
                    let md = 2 + ctx.draw(4) as u32;
                    let r = ctx.draw(md as usize) as u32;
                    let bump = ctx.draw(2) == 1;
                    let nv = self.val();
                    // contents while the predicate has seen only part of it
                    let full = after[s].e.clone();
                    after[s].e.retain_mut(|x| {
                        let keep = (x.class % md) != r;
                        if keep && bump {
                            x.val = nv;
                        }
                        keep
                    });
                    if bump {
                        let mut p = after.clone();
                        p[s].e = full.iter().map(|x| Ent { val: nv, ..*x }).collect();
                        partial.push(p);
                    }
                    ("retain", format!("class%{md}!={r}"), Box::new(move |m, _, _, _| {
                        m[s].retain(|k, v| {
                            cb_p(Cb::Closure);
                            let keep = (k.class() % md) != r;
                            if keep && bump {
                                v.set(nv);
                            }
                            keep
                        });
                        Ok(())
                    }))
                }
                2 => {
                    let (a, b) = bounds(ctx, n);
                    for t in after[s].e.drain(a..b) {
                        exp.ent(&t);
                    }
                    ("drain", format!("{a}..{b}"), Box::new(move |m, e, g, o| {
                        for (k, v) in m[s].drain(a..b, e, g)? {
                            o.kv(&k, &v);
                        }
                        Ok(())
                    }))
                }
                _ => {
                    // split_off replaces the other container
                    let t = 1 - s;
                    let at = ctx.draw(n + 1);
                    let tail = after[s].e.split_off(at);
                    after[t].e = tail;
                    ("split_off", format!("{at}"), Box::new(move |m, e, g, _| {
                        let x = m[s].split_off(at, e, g)?;
                        m[t] = x;
                        Ok(())
                    }))
                }
            },
            // ---- bulk insertion
            8 => {
                let cnt = [ctx.draw(4), ctx.draw(12), ctx.draw(40)][ctx.draw(3)];
                let mut items = vec![];
                let append = ctx.draw(3) == 1;
                let t = 1 - s;
                if append {
                    let moved = std::mem::take(&mut after[t].e);
                    let mut p = after.clone();
                    partial.push(p.clone());
                    for (i, x) in moved.iter().enumerate() {
                        p[s].put(x.class, x.kid, x.val);
                        // the source may keep what was not moved
                        let mut q = p.clone();
                        q[t].e = moved[i + 1..].to_vec();
                        partial.push(q);
                    }
                    let mut q = self.d.clone();
                    for (i, x) in moved.iter().enumerate() {
                        let mut r = q.clone();
                        r[t].e = moved[i..].to_vec();
                        partial.push(r);
                        q[s].put(x.class, x.kid, x.val);
                    }
                    after = p;
                    ("append", String::new(), Box::new(move |m, e, g, _| {
                        let [x, y] = m;
                        if s == 0 {
                            x.append(y, e, g)
                        } else {
                            y.append(x, e, g)
                        }
                    }))
                } else {
                    let mut args = String::new();
                    for _ in 0..cnt {
                        let class = self.class(ctx);
                        let (k, v, kid, val) = self.kv(class);
                        args.push_str(&format!("{class}:{val} "));
                        partial.push(after.clone());
                        after[s].put(class, kid, val);
                        items.push((k, v));
                    }
                    let hint = ctx.draw(3);
                    need = cnt;
                    if ctx.draw(4) == 1 {
                        // build a new container instead
                        let mut new = [Model::default(), Model::default()];
                        for (k, v) in &items {
                            new[s].put(k.class(), k.id(), v.val());
                        }
                        after[s] = new[s].clone();
                        partial.clear();
                        // values being added
                        if self.mode == Mode::Panic {
                            partial.push(after.clone());
                        }
                        ("from_iter", args, Box::new(move |m, e, g, _| {
                            let x = Map::from_iter(Feed { it: items.into_iter(), hint }, e, g)?;
                            m[s] = x;
                            Ok(())
                        }))
                    } else {
                        ("extend", args, Box::new(move |m, e, g, _| m[s].extend(Feed { it: items.into_iter(), hint }, e, g)))
                    }
                }
            }
            // ---- capacity
            9 => match ctx.draw(6) {
                0 => {
                    let x = ctx.draw(60);
                    need = x;
                    ("reserve", format!("{x}"), Box::new(move |m, _, _, o| {
                        m[s].reserve(x);
                        let ok = m[s].capacity() >= m[s].len() + x;
                        if !ok {
                            o.none();
                        }
                        Ok(())
                    }))
                }
                1 => {
                    let x = ctx.draw(40);
                    need = x;
                    ("reserve_exact", format!("{x}"), Box::new(move |m, _, _, o| {
                        m[s].reserve_exact(x);
                        if m[s].capacity() < m[s].len() + x {
                            o.none();
                        }
                        Ok(())
                    }))
                }
                2 | 3 => ("shrink_to_fit", String::new(), Box::new(move |m, _, _, _| {
                    m[s].shrink_to_fit();
                    Ok(())
                })),
                4 => {
                    let x = ctx.draw(60);
                    need = x;
                    ("shrink_to", format!("{x}"), Box::new(move |m, _, _, _| {
                        m[s].shrink_to(x);
                        Ok(())
                    }))
                }
                _ => {
                    after[s].e.clear();
                    ("clear", String::new(), Box::new(move |m, _, _, _| {
                        m[s].clear();
                        Ok(())
                    }))
                }
            },
            // ---- entry API
            10 | 11 => {
                let class = self.class(ctx);
                let (k, v, kid, val) = self.kv(class);
                let p = after[s].pos(class);
                let args = format!("{class},{val}");
                exp.n(p.unwrap_or(n));
                let act = ctx.draw(12);
                if act < 7 || p.is_none() && act < 9 || p.is_none() && act >= 9 && false {
                    // uniform entry methods
                    let a = act % 6;
                    match a {
                        0 | 1 | 2 | 5 => {
                            if p.is_none() {
                                after[s].put(class, kid, if a == 5 { 0 } else { val });
                            }
                            exp.val(after[s].e[after[s].pos(class).unwrap()].val);
                        }
                        3 => {
                            let nv = val + 1_000_000;
                            match p {
                                Some(i) => after[s].e[i].val = nv,
                                None => {
                                    after[s].put(class, kid, val);
                                }
                            }
                            exp.val(after[s].e[after[s].pos(class).unwrap()].val);
                            if p.is_some() {
                                let mut q = after.clone();
                                q[s].e[p.unwrap()].val = nv;
                                partial.push(q);
                            }
                        }
                        _ => {
                            after[s].put(class, kid, val);
                            exp.n(p.unwrap_or(n));
                        }
                    }
                    (
                        ["entry.or_insert", "entry.or_insert_with", "entry.or_insert_with_key", "entry.and_modify", "entry.insert_entry", "entry.or_default"][a],
                        args,
                        Box::new(move |m, e, g, o| {
                            let en = m[s].entry(k, e, g)?;
                            o.n(en.index());
                            if en.key().class() != class {
                                o.none();
                            }
                            match a {
                                0 => o.v(en.or_insert(v)),
                                1 => o.v(en.or_insert_with(|| {
                                    cb_p(Cb::Closure);
                                    v
                                })),
                                2 => o.v(en.or_insert_with_key(|k| {
                                    cb_p(Cb::Closure);
                                    k.check();
                                    v
                                })),
                                3 => o.v(en
                                    .and_modify(|x| {
                                        x.set(val + 1_000_000);
                                        cb_p(Cb::Closure);
                                    })
                                    .or_insert(v)),
                                5 => o.v(en.or_default()),
                                _ => {
                                    let oc = en.insert_entry(v);
                                    o.n(oc.index());
                                }
                            }
                            Ok(())
                        }),
                    )
                } else if let Some(i) = p {
                    let a = ctx.draw(9);
                    let to = ctx.draw(n);
                    match a {
                        0 => {
                            exp.ent(&after[s].e[i]);
                            after[s].e[i].val = val;
                        }
                        1 => {
                            let x = after[s].swap_remove(i);
                            exp.val(x.val);
                        }
                        2 => {
                            let x = after[s].e.remove(i);
                            exp.val(x.val);
                        }
                        3 => {
                            let x = after[s].swap_remove(i);
                            exp.ent(&x);
                        }
                        4 => {
                            let x = after[s].e.remove(i);
                            exp.ent(&x);
                        }
                        5 => after[s].move_index(i, to),
                        6 => {
                            exp.val(after[s].e[i].val);
                            after[s].e[i].val = val;
                        }
                        7 => {
                            // through the positional entry and back
                            exp.n(i);
                            let x = after[s].e.remove(i);
                            exp.ent(&x);
                        }
                        _ => {
                            exp.n(i);
                            exp.n(i);
                            let x = after[s].swap_remove(i);
                            exp.ent(&x);
                        }
                    }
                    (
                        ["occ.insert", "occ.swap_remove", "occ.shift_remove", "occ.swap_remove_entry", "occ.shift_remove_entry", "occ.move_index", "occ.into_mut", "occ->indexed.shift_remove_entry", "indexed->occ.swap_remove_entry"][a],
                        format!("{args} to {to}"),
                        Box::new(move |m, e, g, o| {
                            let en = m[s].entry(k, e, g)?;
                            o.n(en.index());
                            let Entry::Occupied(mut oc) = en else {
                                o.none();
                                return Ok(());
                            };
                            match a {
                                0 => {
                                    let kk = oc.key().tok();
                                    o.0.push(kk);
                                    if oc.get().val() == val {
                                        o.none();
                                    }
                                    let old = oc.insert(v);
                                    o.v(&old);
                                }
                                1 => o.v(&oc.swap_remove(e, g)?),
                                2 => o.v(&oc.shift_remove(e, g)?),
                                3 => {
                                    let (k, v) = oc.swap_remove_entry(e, g)?;
                                    o.kv(&k, &v)
                                }
                                4 => {
                                    let (k, v) = oc.shift_remove_entry(e, g)?;
                                    o.kv(&k, &v)
                                }
                                5 => oc.move_index(to, e, g)?,
                                6 => {
                                    let r = oc.into_mut();
                                    o.v(r);
                                    *r = v;
                                }
                                7 => {
                                    let ix = IndexedEntry::from(oc);
                                    o.n(ix.index());
                                    let (k, v) = ix.shift_remove_entry(e, g)?;
                                    o.kv(&k, &v)
                                }
                                _ => {
                                    let i = oc.index();
                                    drop(oc);
                                    let ix = m[s].get_index_entry(i).expect("entry exists");
                                    o.n(ix.index());
                                    let oc = OccupiedEntry::from_index(ix, e, g)?;
                                    o.n(oc.index());
                                    let (k, v) = oc.swap_remove_entry(e, g)?;
                                    o.kv(&k, &v)
                                }
                            }
                            Ok(())
                        }),
                    )
                } else {
                    let a = ctx.draw(5);
                    let at = ctx.draw(n + 1);
                    let sorted = self.d[s].sorted();
                    match a {
                        1 => {
                            exp.n(n);
                            after[s].put(class, kid, val);
                        }
                        2 if sorted => {
                            let i = after[s].e.partition_point(|x| x.class < class);
                            exp.n(i);
                            after[s].e.insert(i, Ent { class, kid, val });
                        }
                        3 => {
                            after[s].e.insert(at, Ent { class, kid, val });
                            exp.val(val);
                        }
                        4 => exp.0.push((class as u64) << 32 | kid as u64),
                        _ => {
                            after[s].put(class, kid, val);
                            exp.val(val);
                        }
                    }
                    (
                        ["vac.insert", "vac.insert_entry", "vac.insert_sorted", "vac.shift_insert", "vac.into_key"][a],
                        format!("{args} at {at}"),
                        Box::new(move |m, e, g, o| {
                            let en = m[s].entry(k, e, g)?;
                            o.n(en.index());
                            let Entry::Vacant(va) = en else {
                                o.none();
                                return Ok(());
                            };
                            match a {
                                1 => {
                                    let oc = va.insert_entry(v);
                                    o.n(oc.index());
                                }
                                2 if sorted => {
                                    let (i, _) = va.insert_sorted(v, e, g)?;
                                    o.n(i);
                                }
                                3 => o.v(va.shift_insert(at, v, e, g)?),
                                4 => {
                                    let k = va.into_key();
                                    o.0.push(k.tok());
                                }
                                _ => o.v(va.insert(v)),
                            }
                            Ok(())
                        }),
                    )
                }
            }
            // ---- whole-container operations
            _ => {
                let t = 1 - s;
                match ctx.draw(9) {
                    0 | 1 => {
                        after[t] = after[s].clone();
                        fresh[t] = true;
                        let from = ctx.draw(2) == 1;
                        (if from { "clone_from" } else { "clone" }, format!("m{t} <- m{s}"), Box::new(move |m, _, _, _| {
                            if from {
                                let [x, y] = m;
                                if t == 0 {
                                    x.clone_from(y);
                                } else {
                                    y.clone_from(x);
                                }
                            } else {
                                let c = m[s].clone();
                                m[t] = c;
                            }
                            Ok(())
                        }))
                    }
                    2 => {
                        // pairs leave through a consuming iterator
                        let how = ctx.draw(6);
                        let e2 = std::mem::take(&mut after[s].e);
                        for x in e2.iter() {
                            match how {
                                2 => exp.0.push((x.class as u64) << 32 | x.kid as u64),
                                3 => exp.val(x.val),
                                _ => {}
                            }
                        }
                        if how < 2 || how == 4 {
                            let mut l = e2.clone();
                            if how == 1 {
                                l.reverse();
                            }
                            for x in &l {
                                exp.ent(x);
                            }
                        }
                        if how == 5 {
                            let mut l = e2.clone();
                            l.sort_by(|a, b| b.class.cmp(&a.class));
                            for x in &l {
                                exp.ent(x);
                            }
                        }
                        ("into_iter", format!("kind {how}"), Box::new(move |m, _, _, o| {
                            let x = std::mem::replace(&mut m[s], Map::with_hasher(Bh));
                            match how {
                                0 => x.into_iter().for_each(|(k, v)| o.kv(&k, &v)),
                                1 => x.into_iter().rev().for_each(|(k, v)| o.kv(&k, &v)),
                                2 => x.into_keys().for_each(|k| o.0.push(k.tok())),
                                3 => x.into_values().for_each(|v| o.v(&v)),
                                4 => x.into_boxed_slice().into_iter().for_each(|(k, v)| o.kv(&k, &v)),
                                _ => x
                                    .sorted_by(|a, _, b, _| {
                                        cb_p(Cb::Cmp);
                                        b.class().cmp(&a.class())
                                    })
                                    .for_each(|(k, v)| o.kv(&k, &v)),
                            }
                            Ok(())
                        }))
                    }
                    3 => {
                        let mv = ctx.draw(2) == 1;
                        // equality through default-hashed copies
                        let eq = {
                            let (x, y) = (&self.d[0].e, &self.d[1].e);
                            x.len() == y.len() && x.iter().all(|a| y.iter().any(|b| b.class == a.class && b.val == a.val))
                        };
                        exp.b(eq);
                        exp.b(true);
                        ("eql", format!("{mv}"), Box::new(move |m, e, g, o| {
                            let a = copy_default(&m[0], 11, e, g)?;
                            let mut b = copy_default(&m[1], 77, e, g)?;
                            o.b(ruby_traits::RubyEql::eql(&a, &b, e, g)?);
                            b = copy_default(&m[0], 5, e, g)?;
                            if mv {
                                b.reverse();
                            }
                            o.b(ruby_traits::RubyEql::eql(&a, &b, e, g)?);
                            Ok(())
                        }))
                    }
                    4 => {
                        after.swap(0, 1);
                        ("swap", String::new(), Box::new(move |m, _, _, _| {
                            m.swap(0, 1);
                            Ok(())
                        }))
                    }
                    5 => {
                        // unsized key maps use the same core: plain integers
                        let list: Vec<(u64, u64)> = self.d[s].e.iter().map(|x| (x.class as u64, x.val as u64)).collect();
                        exp.b(true);
                        exp.b(true);
                        exp.b(list.is_empty());
                        ("plain-map", String::new(), Box::new(move |_, _, _, o| {
                            let mut a: RubyMap<u64, u64, (), (), ()> = RubyMap::new();
                            for (k, v) in &list {
                                let _ = a.insert(*k, *v, &mut (), &mut ());
                            }
                            let mut b: RubyMap<u64, u64, (), (), ()> = RubyMap::with_capacity(3);
                            let _ = b.extend(list.iter().rev().copied(), &mut (), &mut ());
                            o.b(a == b);
                            o.b(list.iter().all(|(k, v)| a[k] == *v && b[k] == *v));
                            if let Some((k, _)) = list.first() {
                                let _ = b.insert(*k, u64::MAX, &mut (), &mut ());
                            }
                            o.b(a == b);
                            Ok(())
                        }))
                    }
                    6 => {
                        let first = ctx.draw(2) == 0;
                        let nv = self.val();
                        let i = if first { 0 } else { n.wrapping_sub(1) };
                        if n > 0 {
                            exp.n(i);
                            exp.ent(&after[s].e[i]);
                            let how = nv % 4;
                            match how {
                                0 => after[s].e[i].val = nv,
                                1 => {
                                    after[s].e.remove(i);
                                }
                                2 => {
                                    after[s].swap_remove(i);
                                }
                                _ => after[s].move_index(i, n / 2),
                            }
                        } else {
                            exp.none();
                        }
                        ("first/last_entry", format!("{first},{nv}"), Box::new(move |m, e, g, o| {
                            let en = if first { m[s].first_entry() } else { m[s].last_entry() };
                            let Some(mut en) = en else {
                                o.none();
                                return Ok(());
                            };
                            o.n(en.index());
                            let kt = en.key().tok();
                            o.0.push(kt);
                            o.v(en.get());
                            match nv % 4 {
                                0 => {
                                    en.insert(V::new(nv));
                                }
                                1 => {
                                    en.shift_remove(e, g)?;
                                }
                                2 => {
                                    en.swap_remove(e, g)?;
                                }
                                _ => en.move_index(n / 2, e, g)?,
                            }
                            Ok(())
                        }))
                    }
                    7 => {
                        let cs: Vec<u32> = (0..3).map(|_| self.class(ctx)).collect();
                        let mut md = Model::default();
                        let mut it = vec![];
                        for c in &cs {
                            let (k, v, kid, val) = self.kv(*c);
                            md.put(*c, kid, val);
                            it.push((k, v));
                        }
                        for x in &md.e {
                            exp.ent(x);
                        }
                        ("from_ary", format!("{cs:?}"), Box::new(move |_, e, g, o| {
                            let mut it = it.into_iter();
                            let arr = [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()];
                            let x: RubyMap<K, V, Env, Glob, Raise> = RubyMap::from_ary(arr, e, g)?;
                            for (k, v) in &x {
                                o.kv(k, v);
                            }
                            Ok(())
                        }))
                    }
                    _ => {
                        for x in &after[s].e {
                            exp.0.push(x.class as u64);
                            exp.val(x.val);
                        }
                        fresh[s] = false;
                        ("boxed_slice", String::new(), Box::new(move |m, _, _, o| {
                            let b = m[s].clone().into_boxed_slice();
                            let c = b.clone();
                            for (k, v) in c.iter() {
                                o.n(k.class() as usize);
                                o.v(v);
                            }
                            if b != c || b.cmp_classes(&c) != Ordering::Equal {
                                o.none();
                            }
                            Ok(())
                        }))
                    }
                }
            }
        };
        Plan {
            name,
            args,
            real,
            after,
            exp,
            partial,
            fresh,
            need,
        }
    }
}

trait CmpClasses {
    fn cmp_classes(&self, o: &Self) -> Ordering;
}
impl CmpClasses for Box<rubymap::map::Slice<K, V>> {
    fn cmp_classes(&self, o: &Self) -> Ordering {
        self.keys().map(|k| k.class()).cmp(o.keys().map(|k| k.class()))
    }
}

type DefMap = RubyMap<K, V, Env, Glob, Raise>;

fn copy_default(m: &Map, seed: u64, e: &mut Env, g: &mut Glob) -> Result<DefMap, Raise> {
    // RandomState with fixed keys keeps the run deterministic
    let rs: std::collections::hash_map::RandomState = unsafe { std::mem::transmute([seed, seed.wrapping_mul(0x9e37_79b9)]) };
    let mut x: DefMap = RubyMap::with_capacity_and_hasher(0, rs);
    for (k, v) in m {
        x.insert(k.clone(), v.clone(), e, g)?;
    }
    Ok(x)
}

/// Iterator with a size hint of its own and a callback per element.
pub struct Feed {
    pub it: std::vec::IntoIter<(K, V)>,
    pub hint: usize,
}
impl Iterator for Feed {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        cb_p(Cb::Iter);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => self.it.size_hint(),
            _ => (self.it.len() / 2, Some(self.it.len())),
        }
    }
}

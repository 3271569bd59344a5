//! Bulk iterators of ordered hashes and sets, abandoned at any point (C05).

use crate::ctl::*;
use crate::galloc::{self, st};
use crate::omap::{Ent, Map, Model};
use crate::oset::Set;
use simcore::{ensure, fail, mix64, Ctx, RunResult, Violation};

/// One container kind: how to build it and how to take it apart.
trait Bulk: Sized {
    const VALUES: i64;
    fn new() -> Self;
    fn put(&mut self, k: K, val: u32, e: &mut Env, g: &mut Glob) -> Result<(), Raise>;
    fn cut(&mut self, class: u32, shift: bool, e: &mut Env, g: &mut Glob) -> Result<bool, Raise>;
    fn clear(&mut self);
    fn check(&self, d: &Model, universe: u32) -> RunResult;
    fn act(&mut self, s: &mut Script) -> Result<(), Raise>;
    const KINDS: usize;
}

/// One traversal: what the caller does with the iterator, what it got.
struct Script {
    kind: usize,
    range: (usize, usize),
    steps: Vec<(u8, usize)>,
    /// 0 drop, 1 fold, 2 rfold, 3 collect, 4 count, 5 last, 6 leak
    end: u8,
    before: Vec<Ent>,
    after: Vec<Ent>,
    bad: Option<Violation>,
    leaked: bool,
    hold: bool,
    got: usize,
}

const ENDS: [&str; 7] = ["drop", "fold", "rfold", "collect", "count", "last", "leak"];

impl Script {
    /// Plays the script on an iterator that must yield `want` in order.
    fn play<I>(&mut self, mut it: I, want: &[Ent], mut tok: impl FnMut(&I::Item, &Ent) -> bool, as_left: impl Fn(&I) -> Option<usize>)
    where
        I: DoubleEndedIterator + ExactSizeIterator,
    {
        let mut lo = 0;
        let mut hi = want.len();
        let mut bad: Option<Violation> = None;
        let mut held = vec![];
        macro_rules! note {
            ($($a:tt)*) => {
                if bad.is_none() {
                    let _t = galloc::Track::off();
                    bad = Some(Violation::new("wrong-yield", format!($($a)*)));
                }
            };
        }
        {
            let _t = galloc::Track::off();
            held.reserve(want.len());
        }
        for (op, n) in self.steps.clone() {
            if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                note!("the iterator reports {} pairs left instead of {}", it.len(), hi - lo);
            }
            if let Some(l) = as_left(&it) {
                if l != hi - lo {
                    note!("the slice view has {l} pairs instead of {}", hi - lo);
                }
            }
            let (x, i) = match op {
                0 => (it.next(), (lo < hi).then_some(lo)),
                1 => (it.next_back(), (lo < hi).then(|| hi - 1)),
                2 => (it.nth(n), (lo + n < hi).then_some(lo + n)),
                _ => (it.nth_back(n), (lo + n < hi).then(|| hi - 1 - n)),
            };
            match (x, i) {
                (Some(x), Some(i)) => {
                    if !tok(&x, &want[i]) {
                        note!("step {op} did not yield pair {i}");
                    }
                    match op {
                        0 => lo += 1,
                        1 => hi -= 1,
                        2 => lo = i + 1,
                        _ => hi = i,
                    }
                    self.got += 1;
                    if self.hold {
                        held.push(x);
                    }
                }
                (None, None) => {
                    if op >= 2 {
                        // running past the end consumes the rest
                        lo = hi;
                    }
                }
                (Some(_), None) => note!("the iterator goes on after its end"),
                (None, Some(i)) => note!("the iterator ended before pair {i}"),
            }
        }
        let rest = &want[lo..hi];
        match self.end {
            0 => drop(it),
            1 => {
                let n = it.fold(0, |i, x| {
                    if i >= rest.len() || !tok(&x, &rest[i]) {
                        note!("fold did not yield pair {i} of the rest");
                    }
                    i + 1
                });
                if n != rest.len() {
                    note!("fold yielded {n} of {} pairs", rest.len());
                }
            }
            2 => {
                let n = it.rfold(0, |i, x| {
                    if i >= rest.len() || !tok(&x, &rest[rest.len() - 1 - i]) {
                        note!("rfold did not yield pair {i} of the rest");
                    }
                    i + 1
                });
                if n != rest.len() {
                    note!("rfold yielded {n} of {} pairs", rest.len());
                }
            }
            3 => {
                let v: Vec<I::Item> = it.collect();
                if v.len() != rest.len() || v.iter().zip(rest).any(|(a, b)| !tok(a, b)) {
                    note!("collect gave {} pairs instead of {}", v.len(), rest.len());
                }
            }
            4 => {
                let n = it.count();
                if n != rest.len() {
                    note!("count gave {n} instead of {}", rest.len());
                }
            }
            5 => match (it.last(), rest.last()) {
                (Some(a), Some(b)) => {
                    if !tok(&a, b) {
                        note!("last gave another pair");
                    }
                }
                (None, None) => {}
                _ => note!("last disagrees with the rest"),
            },
            _ => {
                std::mem::forget(it);
                self.leaked = true;
            }
        }
        drop(held);
        self.bad = bad;
    }
}

fn pair(x: &(K, V), e: &Ent) -> bool {
    x.0.id() == e.kid && x.1.val() == e.val
}

impl Bulk for Map {
    const VALUES: i64 = 1;
    const KINDS: usize = 16;
    fn new() -> Self {
        Map::with_hasher(Bh)
    }
    fn put(&mut self, k: K, val: u32, e: &mut Env, g: &mut Glob) -> Result<(), Raise> {
        self.insert(k, V::new(val), e, g).map(|_| ())
    }
    fn cut(&mut self, class: u32, shift: bool, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        let q = K::new(class);
        Ok(if shift { self.shift_remove(&q, e, g)? } else { self.swap_remove(&q, e, g)? }.is_some())
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn check(&self, d: &Model, universe: u32) -> RunResult {
        crate::omap::check_map(self, d, universe, true)
    }
    fn act(&mut self, s: &mut Script) -> Result<(), Raise> {
        let (mut e, mut g) = env();
        let (a, b) = s.range;
        let all = s.before.clone();
        let take = |m: &mut Map| std::mem::replace(m, Map::with_hasher(Bh));
        match s.kind {
            0..=4 => {
                let it = match s.kind {
                    0 => self.drain(a..b, &mut e, &mut g)?,
                    1 => self.drain(a.., &mut e, &mut g)?,
                    2 => self.drain(..b, &mut e, &mut g)?,
                    3 => self.drain(.., &mut e, &mut g)?,
                    _ if b > a => self.drain(a..=b - 1, &mut e, &mut g)?,
                    _ => self.drain(a..b, &mut e, &mut g)?,
                };
                let (a, b) = match s.kind {
                    1 => (a, all.len()),
                    2 => (0, b),
                    3 => (0, all.len()),
                    _ => (a, b),
                };
                s.range = (a, b);
                s.play(it, &all[a..b], pair, |it| Some(it.as_slice().len()));
                s.after.drain(a..b);
            }
            5 => {
                let it = take(self).into_iter();
                s.play(it, &all, pair, |it| Some(it.as_slice().len()));
                s.after.clear();
            }
            6 => {
                let it = take(self).into_keys();
                s.play(it, &all, |k, e| k.id() == e.kid, |_| None);
                s.after.clear();
            }
            7 => {
                let it = take(self).into_values();
                s.play(it, &all, |v, e| v.val() == e.val, |_| None);
                s.after.clear();
            }
            8 => {
                let it = take(self).sorted_by(|k1, _, k2, _| k2.cmp(k1));
                let mut want = all.clone();
                want.sort_by(|x, y| y.class.cmp(&x.class));
                s.play(it, &want, pair, |it| Some(it.as_slice().len()));
                s.after.clear();
            }
            9 => {
                let it = take(self).sorted_unstable_by(|_, v1, _, v2| v1.val().cmp(&v2.val()));
                let mut want = all.clone();
                want.sort_by(|x, y| x.val.cmp(&y.val));
                s.play(it, &want, pair, |it| Some(it.as_slice().len()));
                s.after.clear();
            }
            10 => {
                let bx = take(self).into_boxed_slice();
                match b % 3 {
                    0 => s.play(bx.into_iter(), &all, pair, |_| None),
                    1 => s.play(bx.into_keys(), &all, |k, e| k.id() == e.kid, |_| None),
                    _ => s.play(bx.into_values(), &all, |v, e| v.val() == e.val, |_| None),
                }
                s.after.clear();
            }
            11 => {
                let rest = self.split_off(a, &mut e, &mut g)?;
                rest.check(&Model { e: all[a..].to_vec() }, 12).unwrap_or_else(|v| s.bad = Some(v));
                if s.bad.is_none() {
                    s.play(rest.into_iter(), &all[a..], pair, |_| None);
                }
                s.after.truncate(a);
            }
            12 => {
                s.play(self.iter(), &all, |x, e| x.0.id() == e.kid && x.1.val() == e.val, |it| Some(it.as_slice().len()));
            }
            13 => {
                s.play(self.iter_mut(), &all, |x, e| x.0.id() == e.kid && x.1.val() == e.val, |it| Some(it.as_slice().len()));
            }
            14 => match b % 3 {
                0 => s.play(self.keys(), &all, |k, e| k.id() == e.kid, |_| None),
                1 => s.play(self.values(), &all, |v, e| v.val() == e.val, |_| None),
                _ => s.play(self.values_mut(), &all, |v, e| v.val() == e.val, |_| None),
            },
            _ => {
                let mut i = 0;
                let mut bad = None;
                self.retain(|k, v| {
                    if i >= all.len() || k.id() != all[i].kid || v.val() != all[i].val {
                        bad = Some(i);
                    }
                    let keep = i < a || i >= b;
                    i += 1;
                    keep
                });
                if bad.is_some() || i != all.len() {
                    s.bad = Some(Violation::new("wrong-yield", format!("retain visited {i} of {} pairs, first wrong {bad:?}", all.len())));
                }
                s.after.drain(a..b);
            }
        }
        Ok(())
    }
}

impl Bulk for Set {
    const VALUES: i64 = 0;
    const KINDS: usize = 9;
    fn new() -> Self {
        Set::with_hasher(Bh)
    }
    fn put(&mut self, k: K, _: u32, e: &mut Env, g: &mut Glob) -> Result<(), Raise> {
        self.insert(k, e, g).map(|_| ())
    }
    fn cut(&mut self, class: u32, shift: bool, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        let q = K::new(class);
        if shift {
            self.shift_remove(&q, e, g)
        } else {
            self.swap_remove(&q, e, g)
        }
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn check(&self, d: &Model, universe: u32) -> RunResult {
        crate::omap::Cont::check(self, d, universe, true)
    }
    fn act(&mut self, s: &mut Script) -> Result<(), Raise> {
        let (mut e, mut g) = env();
        let (a, b) = s.range;
        let all = s.before.clone();
        let take = |m: &mut Set| std::mem::replace(m, Set::with_hasher(Bh));
        let key = |k: &K, e: &Ent| k.id() == e.kid;
        match s.kind {
            0 | 1 => {
                let it = self.drain(a..b, &mut e, &mut g)?;
                s.play(it, &all[a..b], key, |it| Some(it.as_slice().len()));
                s.after.drain(a..b);
            }
            2 => {
                let it = take(self).into_iter();
                s.play(it, &all, key, |_| None);
                s.after.clear();
            }
            3 => {
                let it = take(self).sorted_by(|x, y| y.cmp(x));
                let mut want = all.clone();
                want.sort_by(|x, y| y.class.cmp(&x.class));
                s.play(it, &want, key, |_| None);
                s.after.clear();
            }
            4 => {
                let it = take(self).sorted_unstable_by(|x, y| x.cmp(y));
                let mut want = all.clone();
                want.sort_by(|x, y| x.class.cmp(&y.class));
                s.play(it, &want, key, |_| None);
                s.after.clear();
            }
            5 => {
                let it = take(self).into_boxed_slice().into_iter();
                s.play(it, &all, key, |_| None);
                s.after.clear();
            }
            6 => {
                let rest = self.split_off(a, &mut e, &mut g)?;
                s.play(rest.into_iter(), &all[a..], key, |_| None);
                s.after.truncate(a);
            }
            7 => s.play(self.iter(), &all, |k, e| k.id() == e.kid, |_| None),
            _ => {
                let mut i = 0;
                let mut bad = None;
                self.retain(|k| {
                    if i >= all.len() || k.id() != all[i].kid {
                        bad = Some(i);
                    }
                    let keep = i < a || i >= b;
                    i += 1;
                    keep
                });
                if bad.is_some() || i != all.len() {
                    s.bad = Some(Violation::new("wrong-yield", format!("retain visited {i} of {} elements", all.len())));
                }
                s.after.drain(a..b);
            }
        }
        Ok(())
    }
}

pub fn run(ctx: &mut Ctx) -> RunResult {
    if ctx.draw(3) == 2 {
        go::<Set>(ctx)
    } else {
        go::<Map>(ctx)
    }
}

fn go<C: Bulk>(ctx: &mut Ctx) -> RunResult {
    reset();
    pick_hash(ctx);
    let mut universe = [6u32, 9, 12, 20, 60, 200][ctx.draw(6)];
    if universe == 200 && spread() && ctx.draw(6) == 5 {
        universe = 1200;
    }
    let leaks = ctx.draw(2) == 0;
    ctx.log(|| format!("config universe={universe} hmode={} leaks={leaks} {}", ctl().hmode, std::any::type_name::<C>()));
    let mut m = C::new();
    let mut d = Model::default();
    let mut lost = 0i64;
    let mut leaked = false;
    let mut next = 1u32;
    let (mut e, mut g) = env();
    let ops = 4 + ctx.draw(24);
    ctx.set_ops(ops as _);
    while ctx.next_op() {
        // refill: some insertions and removals
        for _ in 0..ctx.draw(universe as usize + 1) {
            ctl().begin_op();
            let class = ctx.draw(universe as usize) as u32;
            if ctx.draw(4) == 0 {
                let shift = ctx.draw(2) == 0;
                let Call::Ret(Ok(r)) = call(|| m.cut(class, shift, &mut e, &mut g)) else {
                    fail!("removal-failed", "removal of {class} failed");
                };
                ensure!(r == d.pos(class).is_some(), "wrong-result", "removal of {class} gave {r}");
                if let Some(i) = d.pos(class) {
                    if shift {
                        d.e.remove(i);
                    } else {
                        d.e.swap_remove(i);
                    }
                }
            } else {
                next += 1;
                let k = K::new(class);
                d.put(class, k.id(), next * C::VALUES as u32);
                let Call::Ret(Ok(())) = call(|| m.put(k, next, &mut e, &mut g)) else {
                    fail!("insertion-failed", "insertion of {class} failed: {}", simcore::last_panic());
                };
            }
        }
        let n = d.e.len();
        let (a, b) = crate::omap::bounds(ctx, n);
        let kind = ctx.draw(C::KINDS);
        let nsteps = [0, 1, ctx.draw(6), ctx.draw(n + 3)][ctx.draw(4)];
        let mut steps = vec![];
        for _ in 0..nsteps {
            let op = [0u8, 1, 0, 1, 2, 3][ctx.draw(6)];
            steps.push((op, if op >= 2 { ctx.draw(4) } else { 0 }));
        }
        let end = if leaks { ctx.draw(7) } else { ctx.draw(6) } as u8;
        let hold = ctx.draw(2) == 0;
        ctx.log(|| format!("{n} pairs: kind {kind} range {a}..{b} steps {steps:?} then {}", ENDS[end as usize]));
        let mut s = Script {
            kind,
            range: (a, b),
            steps,
            end,
            before: d.e.clone(),
            after: d.e.clone(),
            bad: None,
            leaked: false,
            hold,
            got: 0,
        };
        ctl().begin_op();
        let (k0, v0) = (ctl().klive, ctl().vlive);
        match call(|| {
            let _t = galloc::Track::off();
            m.act(&mut s)
        }) {
            Call::Ret(Ok(())) => {}
            Call::Ret(Err(_)) => fail!("error-invented", "a traversal failed although nothing raised"),
            Call::Other(p) => fail!("panic", "a traversal panicked: {p}"),
            _ => unreachable!(),
        }
        if let Some(v) = s.bad {
            return Err(v);
        }
        ctx.nontrivial();
        ctx.probe(ENDS[end as usize]);
        ctx.state(mix64(kind as u64 | (end as u64) << 8 | (n as u64) << 16 | (a as u64) << 32 | (s.got as u64) << 44));
        d.e = s.after;
        let borrowed = match C::VALUES {
            1 => matches!(kind, 12..=15),
            _ => matches!(kind, 7..),
        };
        if s.leaked && !borrowed {
            ctx.fault("iterator leaked");
            leaked = true;
            // leaked pairs stay alive, nothing else may
            let max = (s.before.len() - s.got) as i64;
            let left = ctl().klive - k0 + (s.before.len() as i64);
            ensure!(left >= 0 && left <= max.max(0), "ownership", "{left} keys alive after leaking an iterator with at most {max} left");
            ensure!(ctl().vlive - v0 <= 0, "ownership", "values appeared");
            let draining = C::VALUES == 1 && kind <= 4 || C::VALUES == 0 && kind <= 1;
            if draining && s.range.1 < s.before.len() {
                // the pairs behind the range are lost with the iterator; the
                // container is usable again once cleared
                match call(|| m.clear()) {
                    Call::Ret(()) => {}
                    _ => fail!("clear-after-leak", "clearing after a leaked drain failed"),
                }
                d.e.clear();
                ctx.probe("cleared after a leaked drain");
            }
            lost = ctl().klive - d.e.len() as i64;
        }
        ctl().begin_op();
        m.check(&d, universe)?;
        let want = d.e.len() as i64;
        ensure!(
            ctl().klive == want + lost,
            "ownership",
            "{} keys alive, {want} in the container and {lost} leaked",
            ctl().klive
        );
        if !leaked {
            ensure!(ctl().vlive == want * C::VALUES, "ownership", "{} values alive for {want} pairs", ctl().vlive);
        }
        ctx.mix(want as u64 ^ (kind as u64) << 20);
    }
    drop(m);
    galloc::flush_quarantine();
    ensure!(ctl().klive == lost, "leak", "{} keys were never dropped", ctl().klive - lost);
    if !leaked {
        ensure!(ctl().vlive == 0, "leak", "{} values were never dropped", ctl().vlive);
        ensure!(st().live == 0, "memory-leak", "{} blocks were never freed", st().live);
    }
    Ok(())
}

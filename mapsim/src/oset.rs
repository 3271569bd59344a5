//! Ordered set histories (C06, and the set half of C02, C04, C07).

use crate::ctl::*;
use crate::omap::*;
use ruby_traits::RubyEql;
use rubymap::RubySet;
use simcore::{ensure, fail, Ctx, RunResult, Violation};

pub type Set = RubySet<K, Env, Glob, Raise, Bh>;

impl Cont for Set {
    fn with(cap: usize) -> Self {
        match cap {
            0 => Set::with_hasher(Bh),
            n => Set::with_capacity_and_hasher(n, Bh),
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn capacity(&self) -> usize {
        self.capacity()
    }
    fn list(&self) -> Vec<Ent> {
        self.iter()
            .map(|k| Ent {
                class: k.class(),
                kid: k.id(),
                val: 0,
            })
            .collect()
    }
    fn put(&mut self, k: K, _: u32, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        self.insert(k, e, g)
    }
    fn check(&self, d: &Model, universe: u32, deep: bool) -> RunResult {
        check_set(self, d, universe, deep)
    }
    fn plan<'a>(w: &mut World<Self>, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Self> {
        w.plan_set(ctx, group, s)
    }
    const VALUES: i64 = 0;
    const ENTRY: usize = std::mem::size_of::<K>() + 8;
}

fn tok(x: &Ent) -> u64 {
    (x.class as u64) << 32 | x.kid as u64
}

impl Obs {
    fn k(&mut self, k: &K) {
        self.0.push(k.tok());
    }
    fn ok(&mut self, k: Option<K>) {
        match k {
            Some(k) => self.k(&k),
            None => self.none(),
        }
    }
    fn rk(&mut self, k: Option<&K>) {
        match k {
            Some(k) => self.k(k),
            None => self.none(),
        }
    }
    fn x(&mut self, x: &Ent) {
        self.0.push(tok(x));
    }
    fn ox(&mut self, x: Option<&Ent>) {
        match x {
            Some(x) => self.x(x),
            None => self.none(),
        }
    }
}

pub fn check_set(m: &Set, d: &Model, universe: u32, deep: bool) -> RunResult {
    let n = d.e.len();
    ensure!(m.len() == n, "wrong-length", "length {} instead of {n}", m.len());
    ensure!(m.is_empty() == (n == 0), "wrong-length", "is_empty disagrees with length {n}");
    ensure!(m.capacity() >= n, "wrong-capacity", "capacity {} below length {n}", m.capacity());
    let mut it = m.iter();
    for (i, x) in d.e.iter().enumerate() {
        let Some(k) = it.next() else {
            fail!("wrong-iteration", "iteration ended after {i} of {n} elements");
        };
        ensure!(
            k.class() == x.class && k.id() == x.kid,
            "wrong-iteration",
            "element {i} is {} instead of {}",
            k.class(),
            x.class
        );
    }
    ensure!(it.next().is_none(), "wrong-iteration", "iteration goes on after {n} elements");
    if !deep {
        return Ok(());
    }
    let (mut e, mut g) = env();
    let r = call(|| -> Result<Result<(), Violation>, Raise> {
        for c in 0..universe {
            let q = K::new(c);
            let want = d.pos(c);
            let got = m.get_index_of(&q, &mut e, &mut g)?;
            if got != want || m.contains(&q, &mut e, &mut g)? != want.is_some() {
                return Ok(Err(Violation::new(
                    "wrong-lookup",
                    format!("element {c} found at {got:?} instead of {want:?} ({n} elements)"),
                )));
            }
            let got = m.get(&q, &mut e, &mut g)?.map(|k| k.id());
            if got != want.map(|i| d.e[i].kid) {
                return Ok(Err(Violation::new("wrong-lookup", format!("lookup of {c} gave another element"))));
            }
        }
        for (i, x) in d.e.iter().enumerate() {
            if m.get_index(i).map(|k| k.id()) != Some(x.kid) {
                return Ok(Err(Violation::new("wrong-position", format!("position {i} does not hold the model's element"))));
            }
        }
        let mut rev = m.iter();
        for x in d.e.iter().rev() {
            if rev.next_back().map(|k| k.id()) != Some(x.kid) {
                return Ok(Err(Violation::new("wrong-iteration", "backward iteration differs".to_string())));
            }
        }
        Ok(Ok(()))
    });
    match r {
        Call::Ret(Ok(x)) => x,
        Call::Ret(Err(r)) => fail!("error-invented", "a lookup returned error {r:?} although no callback raised"),
        Call::Injected | Call::Oom => unreachable!(),
        Call::Other(p) => fail!("panic-in-lookup", "a lookup panicked: {p}"),
    }
}

struct FeedK {
    it: std::vec::IntoIter<K>,
    hint: usize,
}
impl Iterator for FeedK {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        cb_p(Cb::Iter);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => self.it.size_hint(),
            _ => (self.it.len() / 2, Some(self.it.len())),
        }
    }
}

impl World<Set> {
    fn plan_set<'a>(&mut self, ctx: &mut Ctx, group: usize, s: usize) -> Plan<'a, Set> {
        let mut after = self.d.clone();
        let mut exp = Obs::default();
        let mut partial: Vec<[Model; 2]> = vec![];
        let mut fresh = [false; 2];
        let n = self.d[s].e.len();
        let t = 1 - s;
        let mut need = 0;
        let (name, args, real): (&'static str, String, RealFn<'a, Set>) = match group {
            0 | 10 => {
                let class = self.class(ctx);
                let k = K::new(class);
                let kid = k.id();
                let p = after[s].pos(class);
                let args = format!("{class}");
                let new = Ent { class, kid, val: 0 };
                match ctx.draw(7) {
                    0 => {
                        exp.b(p.is_none());
                        if p.is_none() {
                            after[s].e.push(new);
                        }
                        ("insert", args, Box::new(move |m, e, g, o| {
                            o.b(m[s].insert(k, e, g)?);
                            Ok(())
                        }))
                    }
                    1 => {
                        exp.n(p.unwrap_or(n));
                        exp.b(p.is_none());
                        if p.is_none() {
                            after[s].e.push(new);
                        }
                        ("insert_full", args, Box::new(move |m, e, g, o| {
                            let (i, b) = m[s].insert_full(k, e, g)?;
                            o.n(i);
                            o.b(b);
                            Ok(())
                        }))
                    }
                    2 => {
                        let i = ctx.draw(n + 1);
                        match p {
                            Some(p) => {
                                let to = if i > p { i - 1 } else { i };
                                after[s].move_index(p, to);
                                exp.n(to);
                                exp.b(false);
                            }
                            None => {
                                after[s].e.insert(i, new);
                                exp.n(i);
                                exp.b(true);
                            }
                        }
                        ("insert_before", format!("{i},{args}"), Box::new(move |m, e, g, o| {
                            let (i, b) = m[s].insert_before(i, k, e, g)?;
                            o.n(i);
                            o.b(b);
                            Ok(())
                        }))
                    }
                    3 => {
                        let i = if p.is_some() { ctx.draw(n) } else { ctx.draw(n + 1) };
                        match p {
                            Some(p) => after[s].move_index(p, i),
                            None => after[s].e.insert(i, new),
                        }
                        exp.b(p.is_none());
                        ("shift_insert", format!("{i},{args}"), Box::new(move |m, e, g, o| {
                            o.b(m[s].shift_insert(i, k, e, g)?);
                            Ok(())
                        }))
                    }
                    4 if self.d[s].sorted() => {
                        let i = after[s].e.partition_point(|x| x.class < class);
                        exp.n(i);
                        exp.b(p.is_none());
                        if p.is_none() {
                            after[s].e.insert(i, new);
                        }
                        ("insert_sorted", args, Box::new(move |m, e, g, o| {
                            let (i, b) = m[s].insert_sorted(k, e, g)?;
                            o.n(i);
                            o.b(b);
                            Ok(())
                        }))
                    }
                    _ => {
                        let full = ctx.draw(2) == 1;
                        if full {
                            exp.n(p.unwrap_or(n));
                        }
                        exp.ox(p.map(|i| &after[s].e[i]));
                        match p {
                            Some(i) => after[s].e[i] = new,
                            None => after[s].e.push(new),
                        }
                        ("replace", args, Box::new(move |m, e, g, o| {
                            if full {
                                let (i, old) = m[s].replace_full(k, e, g)?;
                                o.n(i);
                                o.ok(old);
                            } else {
                                o.ok(m[s].replace(k, e, g)?);
                            }
                            Ok(())
                        }))
                    }
                }
            }
            1 => {
                let class = self.class(ctx);
                let q = K::new(class);
                let p = after[s].pos(class);
                exp.b(p.is_some());
                exp.ox(p.map(|i| &after[s].e[i]));
                exp.on(p);
                exp.on(p);
                let order = ctx.draw(2);
                ("lookup", format!("{class}"), Box::new(move |m, e, g, o| {
                    let m = &m[s];
                    if order == 0 {
                        o.b(m.contains(&q, e, g)?);
                        o.rk(m.get(&q, e, g)?);
                        o.on(m.get_index_of(&q, e, g)?);
                        o.on(m.get_full(&q, e, g)?.map(|x| x.0));
                    } else {
                        let f = m.get_full(&q, e, g)?;
                        o.b(f.is_some());
                        o.rk(f.map(|f| f.1));
                        o.on(f.map(|f| f.0));
                        o.on(m.get_index_of(&q, e, g)?);
                    }
                    Ok(())
                }))
            }
            2 | 3 => {
                let class = if n > 0 && ctx.draw(3) > 0 {
                    self.d[s].e[ctx.draw(n)].class
                } else {
                    self.class(ctx)
                };
                let q = K::new(class);
                let p = after[s].pos(class);
                let swap = group == 2;
                let x = p.map(|i| if swap { after[s].swap_remove(i) } else { after[s].e.remove(i) });
                let how = ctx.draw(3);
                match how {
                    0 => exp.b(p.is_some()),
                    1 => exp.ox(x.as_ref()),
                    _ => {
                        exp.on(p);
                        exp.ox(x.as_ref());
                    }
                }
                (
                    [["shift_remove", "shift_take", "shift_remove_full"], ["swap_remove", "swap_take", "swap_remove_full"]][swap as usize][how],
                    format!("{class}"),
                    Box::new(move |m, e, g, o| {
                        let m = &mut m[s];
                        match (how, swap) {
                            (0, true) => o.b(m.swap_remove(&q, e, g)?),
                            (0, false) => o.b(m.shift_remove(&q, e, g)?),
                            (1, true) => o.ok(m.swap_take(&q, e, g)?),
                            (1, false) => o.ok(m.shift_take(&q, e, g)?),
                            _ => {
                                let r = if swap { m.swap_remove_full(&q, e, g)? } else { m.shift_remove_full(&q, e, g)? };
                                match r {
                                    Some((i, k)) => {
                                        o.n(i);
                                        o.k(&k);
                                    }
                                    None => {
                                        o.none();
                                        o.none();
                                    }
                                }
                            }
                        }
                        Ok(())
                    }),
                )
            }
            4 => {
                let i = ctx.draw(n + 1);
                match ctx.draw(5) {
                    0 => {
                        let x = (i < n).then(|| after[s].swap_remove(i));
                        exp.ox(x.as_ref());
                        ("swap_remove_index", format!("{i}"), Box::new(move |m, e, g, o| {
                            o.ok(m[s].swap_remove_index(i, e, g)?);
                            Ok(())
                        }))
                    }
                    1 => {
                        let x = (i < n).then(|| after[s].e.remove(i));
                        exp.ox(x.as_ref());
                        ("shift_remove_index", format!("{i}"), Box::new(move |m, e, g, o| {
                            o.ok(m[s].shift_remove_index(i, e, g)?);
                            Ok(())
                        }))
                    }
                    2 => {
                        let x = after[s].e.pop();
                        exp.ox(x.as_ref());
                        ("pop", String::new(), Box::new(move |m, e, g, o| {
                            o.ok(m[s].pop(e, g)?);
                            Ok(())
                        }))
                    }
                    3 if n > 0 => {
                        let (a, b) = (ctx.draw(n), ctx.draw(n));
                        after[s].move_index(a, b);
                        ("move_index", format!("{a},{b}"), Box::new(move |m, e, g, _| m[s].move_index(a, b, e, g)))
                    }
                    _ => {
                        let l = ctx.draw(n + 3);
                        after[s].e.truncate(l);
                        ("truncate", format!("{l}"), Box::new(move |m, e, g, _| m[s].truncate(l, e, g)))
                    }
                }
            }
            5 => {
                let (a, b) = bounds(ctx, n);
                for x in &after[s].e[a..b] {
                    exp.x(x);
                }
                exp.ox(after[s].e.first());
                exp.ox(after[s].e.last());
                exp.ox(after[s].e.get(a));
                exp.b(true);
                let sorted = self.d[s].sorted();
                let class = self.class(ctx);
                let q = K::new(class);
                if sorted {
                    let i = after[s].e.partition_point(|x| x.class < class);
                    for _ in 0..4 {
                        exp.n(i);
                    }
                    exp.b(after[s].pos(class).is_some());
                }
                ("views", format!("{a}..{b},{class}"), Box::new(move |m, _, _, o| {
                    let m = &m[s];
                    for k in m.get_range(a..b).expect("valid range") {
                        o.k(k);
                    }
                    o.rk(m.first());
                    o.rk(m.last());
                    o.rk(m.get_index(a));
                    let sl = m.as_slice();
                    let (x, y) = sl.split_at(a);
                    let mut fine = x.len() == a && y.len() == sl.len() - a;
                    fine &= m.get_range(a..sl.len() + 1).is_none();
                    fine &= sl.split_first().map(|p| p.0.id()) == m.first().map(|k| k.id());
                    fine &= sl.split_last().map(|p| p.0.id()) == m.last().map(|k| k.id());
                    fine &= m[a..b].len() == b - a && m[a..b].iter().zip(&sl[a..b]).all(|(x, y)| x.id() == y.id());
                    o.b(fine);
                    if sorted {
                        let r = m.binary_search(&q);
                        o.n(r.unwrap_or_else(|x| x));
                        o.n(m.binary_search_by(|k| k.class().cmp(&class)).unwrap_or_else(|x| x));
                        o.n(m.binary_search_by_key(&class, |k| k.class()).unwrap_or_else(|x| x));
                        o.n(m.partition_point(|k| {
                            cb_p(Cb::Closure);
                            k.class() < class
                        }));
                        o.b(r.is_ok());
                    }
                    Ok(())
                }))
            }
            6 => match ctx.draw(4) {
                0 => {
                    after[s].e.sort_by_key(|x| x.class);
                    let un = ctx.draw(2) == 1;
                    ("sort", String::new(), Box::new(move |m, _, _, _| {
                        if un {
                            m[s].sort_unstable();
                        } else {
                            m[s].sort();
                        }
                        Ok(())
                    }))
                }
                1 => {
                    let md = 1 + ctx.draw(6) as u32;
                    let cached = ctx.draw(2) == 1;
                    after[s].e.sort_by_key(|x| x.class % md);
                    ("sort_by", format!("class%{md}"), Box::new(move |m, _, _, _| {
                        if cached {
                            m[s].sort_by_cached_key(|x| {
                                cb_p(Cb::Closure);
                                x.class() % md
                            });
                        } else {
                            m[s].sort_by(|x, y| {
                                cb_p(Cb::Cmp);
                                (x.class() % md).cmp(&(y.class() % md))
                            });
                        }
                        Ok(())
                    }))
                }
                2 => {
                    after[s].e.sort_by(|x, y| y.class.cmp(&x.class));
                    ("sort_unstable_by", "desc".into(), Box::new(move |m, _, _, _| {
                        m[s].sort_unstable_by(|x, y| y.cmp(x));
                        Ok(())
                    }))
                }
                _ => {
                    after[s].e.reverse();
                    ("reverse", String::new(), Box::new(move |m, _, _, _| {
                        m[s].reverse();
                        Ok(())
                    }))
                }
            },
            7 => match ctx.draw(3) {
                0 => {
                    let md = 2 + ctx.draw(4) as u32;
                    let r = ctx.draw(md as usize) as u32;
                    after[s].e.retain(|x| x.class % md != r);
                    ("retain", format!("class%{md}!={r}"), Box::new(move |m, _, _, _| {
                        m[s].retain(|k| {
                            cb_p(Cb::Closure);
                            k.class() % md != r
                        });
                        Ok(())
                    }))
                }
                1 => {
                    let (a, b) = bounds(ctx, n);
                    for x in after[s].e.drain(a..b) {
                        exp.x(&x);
                    }
                    ("drain", format!("{a}..{b}"), Box::new(move |m, e, g, o| {
                        for k in m[s].drain(a..b, e, g)? {
                            o.k(&k);
                        }
                        Ok(())
                    }))
                }
                _ => {
                    let at = ctx.draw(n + 1);
                    after[t].e = after[s].e.split_off(at);
                    ("split_off", format!("{at}"), Box::new(move |m, e, g, _| {
                        let x = m[s].split_off(at, e, g)?;
                        m[t] = x;
                        Ok(())
                    }))
                }
            },
            8 => {
                if ctx.draw(3) == 1 {
                    let moved = std::mem::take(&mut after[t].e);
                    let mut p = after.clone();
                    partial.push(p.clone());
                    for (i, x) in moved.iter().enumerate() {
                        let mut q = p.clone();
                        q[t].e = moved[i..].to_vec();
                        partial.push(q);
                        if p[s].pos(x.class).is_none() {
                            p[s].e.push(*x);
                        }
                        partial.push(p.clone());
                    }
                    after = p;
                    ("append", String::new(), Box::new(move |m, e, g, _| {
                        let [x, y] = m;
                        if s == 0 {
                            x.append(y, e, g)
                        } else {
                            y.append(x, e, g)
                        }
                    }))
                } else {
                    let cnt = [ctx.draw(4), ctx.draw(12), ctx.draw(40)][ctx.draw(3)];
                    need = cnt;
                    let mut items = vec![];
                    let mut args = String::new();
                    let fi = ctx.draw(4) == 1;
                    if fi {
                        after[s].e.clear();
                    }
                    for _ in 0..cnt {
                        let class = self.class(ctx);
                        let k = K::new(class);
                        args.push_str(&format!("{class} "));
                        if !fi || self.mode == Mode::Panic {
                            partial.push(after.clone());
                        }
                        if after[s].pos(class).is_none() {
                            after[s].e.push(Ent { class, kid: k.id(), val: 0 });
                        }
                        items.push(k);
                    }
                    let hint = ctx.draw(3);
                    if fi {
                        ("from_iter", args, Box::new(move |m, e, g, _| {
                            let x = Set::from_iter(FeedK { it: items.into_iter(), hint }, e, g)?;
                            m[s] = x;
                            Ok(())
                        }))
                    } else {
                        ("extend", args, Box::new(move |m, e, g, _| m[s].extend(FeedK { it: items.into_iter(), hint }, e, g)))
                    }
                }
            }
            9 => match ctx.draw(5) {
                0 | 1 => {
                    let x = ctx.draw(50);
                    need = x;
                    let exact = ctx.draw(2) == 1;
                    ("reserve", format!("{x}"), Box::new(move |m, _, _, o| {
                        if exact {
                            m[s].reserve_exact(x);
                        } else {
                            m[s].reserve(x);
                        }
                        if m[s].capacity() < m[s].len() + x {
                            o.none();
                        }
                        Ok(())
                    }))
                }
                2 | 3 => {
                    let x = ctx.draw(50);
                    need = x;
                    let fit = ctx.draw(2) == 1;
                    ("shrink", format!("{x}"), Box::new(move |m, _, _, _| {
                        if fit {
                            m[s].shrink_to_fit();
                        } else {
                            m[s].shrink_to(x);
                        }
                        Ok(())
                    }))
                }
                _ => {
                    after[s].e.clear();
                    ("clear", String::new(), Box::new(move |m, _, _, _| {
                        m[s].clear();
                        Ok(())
                    }))
                }
            },
            // relations between the two sets
            11 => {
                let (x, y) = (&self.d[s].e, &self.d[t].e);
                let common = x.iter().filter(|a| y.iter().any(|b| b.class == a.class)).count();
                let rel = ctx.draw(4);
                exp.b(match rel {
                    0 => common == 0,
                    1 => common == x.len(),
                    2 => common == y.len(),
                    _ => common == x.len() && common == y.len(),
                });
                (["is_disjoint", "is_subset", "is_superset", "eql"][rel], format!("m{t}"), Box::new(move |m, e, g, o| {
                    let (x, y) = (&m[s], &m[t]);
                    o.b(match rel {
                        0 => x.is_disjoint(y, e, g)?,
                        1 => x.is_subset(y, e, g)?,
                        2 => x.is_superset(y, e, g)?,
                        _ => x.eql(y, e, g)?,
                    });
                    Ok(())
                }))
            }
            _ => match ctx.draw(5) {
                0 | 1 => {
                    after[t] = after[s].clone();
                    fresh[t] = true;
                    need = n;
                    ("copy", format!("m{t} <- m{s}"), Box::new(move |m, e, g, _| {
                        let c = Set::from_iter(m[s].iter().cloned(), e, g)?;
                        m[t] = c;
                        Ok(())
                    }))
                }
                2 => {
                    let how = ctx.draw(4);
                    let mut l = std::mem::take(&mut after[s].e);
                    match how {
                        1 => l.reverse(),
                        2 => l.sort_by(|a, b| b.class.cmp(&a.class)),
                        _ => {}
                    }
                    for x in &l {
                        exp.x(x);
                    }
                    ("into_iter", format!("kind {how}"), Box::new(move |m, _, _, o| {
                        let x = std::mem::replace(&mut m[s], Set::with_hasher(Bh));
                        match how {
                            0 => x.into_iter().for_each(|k| o.k(&k)),
                            1 => x.into_iter().rev().for_each(|k| o.k(&k)),
                            2 => x
                                .sorted_by(|a, b| {
                                    cb_p(Cb::Cmp);
                                    b.class().cmp(&a.class())
                                })
                                .for_each(|k| o.k(&k)),
                            _ => x.into_boxed_slice().into_iter().for_each(|k| o.k(&k)),
                        }
                        Ok(())
                    }))
                }
                3 => {
                    after.swap(0, 1);
                    ("swap", String::new(), Box::new(move |m, _, _, _| {
                        m.swap(0, 1);
                        Ok(())
                    }))
                }
                _ => {
                    let list: Vec<u64> = self.d[s].e.iter().map(|x| x.class as u64).collect();
                    let list2: Vec<u64> = self.d[t].e.iter().map(|x| x.class as u64).collect();
                    let eq = list.len() == list2.len() && list.iter().all(|x| list2.contains(x));
                    exp.b(eq);
                    exp.b(true);
                    ("plain-set", String::new(), Box::new(move |_, _, _, o| {
                        let a: RubySet<u64> = RubySet::from_iter(list.iter().copied(), &mut (), &mut ()).unwrap();
                        let b: RubySet<u64> = RubySet::from_iter(list2.iter().copied(), &mut (), &mut ()).unwrap();
                        o.b(a == b);
                        o.b(a.iter().copied().eq(list.iter().copied()) && b.iter().rev().copied().eq(list2.iter().rev().copied()));
                        Ok(())
                    }))
                }
            },
        };
        Plan {
            name,
            args,
            real,
            after,
            exp,
            partial,
            fresh,
            need,
        }
    }
}

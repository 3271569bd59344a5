//! Plain keys and hash builders that differ between two containers: copies,
//! comparisons, slices, indexing, entry handles and the small print of the
//! iterators (C01, C06, C08), and composite keys (C01, C02, C08, C10).

use crate::ctl::*;
use hashbrown::{HashMap, HashSet};
use rubymap::{RubyMap, RubySet};
use simcore::{ensure, fail, mix64, Ctx, RunResult};
use std::hash::{BuildHasher, Hash, Hasher};

/// Hash builder with state: two of them disagree about every hash.
#[derive(Clone, Default)]
pub struct Sb(u64);
pub struct Sh(u64);
impl BuildHasher for Sb {
    type Hasher = Sh;
    fn build_hasher(&self) -> Sh {
        Sh(mix64(self.0))
    }
}
impl Hasher for Sh {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix64(self.0 ^ *x as u64);
        }
    }
    fn write_u32(&mut self, v: u32) {
        self.0 = mix64(self.0 ^ v as u64);
    }
}

fn digest<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Sh(1);
    t.hash(&mut h);
    h.finish()
}

type Pairs = Vec<(u32, u32)>;
const E: &str = "view";

macro_rules! same {
    ($a:expr, $b:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            fail!(E, "{}: got {:?}, expected {:?}", $what, a, b);
        }
    }};
}

/// Walks an exact-size double-ended iterator from both ends by a drawn
/// script, checking the announced length all the way.
macro_rules! walk {
    ($ctx:expr, $it:expr, $exp:expr, $map:expr, $what:expr) => {{
        let mut it = $it;
        let mut exp: std::collections::VecDeque<_> = $exp.into_iter().collect();
        loop {
            same!(it.len(), exp.len(), concat!($what, " len"));
            same!(it.size_hint(), (exp.len(), Some(exp.len())), concat!($what, " size_hint"));
            match $ctx.draw(6) {
                0 | 1 => {
                    let x = it.next().map($map);
                    let y = exp.pop_front();
                    same!(x, y, concat!($what, " next"));
                    if y.is_none() {
                        break;
                    }
                }
                2 => {
                    let x = it.next_back().map($map);
                    let y = exp.pop_back();
                    same!(x, y, concat!($what, " next_back"));
                    if y.is_none() {
                        break;
                    }
                }
                3 => {
                    let n = $ctx.draw(4);
                    let x = it.nth(n).map($map);
                    let k = n.min(exp.len());
                    exp.drain(..k);
                    let y = exp.pop_front();
                    same!(x, y, concat!($what, " nth"));
                    if y.is_none() {
                        break;
                    }
                }
                4 => {
                    let n = $ctx.draw(4);
                    let x = it.nth_back(n).map($map);
                    let k = exp.len() - n.min(exp.len());
                    exp.truncate(k);
                    let y = exp.pop_back();
                    same!(x, y, concat!($what, " nth_back"));
                    if y.is_none() {
                        break;
                    }
                }
                _ => {
                    match $ctx.draw(3) {
                        0 => same!(it.count(), exp.len(), concat!($what, " count")),
                        1 => same!(it.last().map($map), exp.pop_back(), concat!($what, " last")),
                        _ => {
                            let x: Vec<_> = it.map($map).collect();
                            let y: Vec<_> = exp.into_iter().collect();
                            same!(x, y, concat!($what, " rest"));
                        }
                    }
                    break;
                }
            }
        }
    }};
}

fn two(ctx: &mut Ctx, n: usize) -> (usize, usize) {
    let a = ctx.draw(n + 1);
    let b = ctx.draw(n + 1);
    (a.min(b), a.max(b))
}

struct Cfg {
    universe: usize,
    ops: usize,
}
fn cfg(ctx: &mut Ctx) -> Cfg {
    let c = Cfg {
        universe: [4usize, 9, 20, 70, 600][ctx.weighted(&[8, 8, 8, 7, 1])],
        ops: 5 + ctx.draw(60),
    };
    ctx.set_ops(c.ops as u32);
    c
}

// ---- ordered map ---------------------------------------------------------------

type Om = RubyMap<u32, u32, (), (), (), Sb>;
type Od = RubyMap<u32, u32, (), (), ()>;

fn om_put(d: &mut Pairs, k: u32, v: u32) -> Option<u32> {
    match d.iter_mut().find(|p| p.0 == k) {
        Some(p) => Some(std::mem::replace(&mut p.1, v)),
        None => {
            d.push((k, v));
            None
        }
    }
}

pub fn ordered_map(ctx: &mut Ctx) -> RunResult {
    reset();
    ctx.nontrivial();
    let cf = cfg(ctx);
    let (mut u, mut g) = ((), ());
    let mut m = [Om::with_hasher(Sb(1)), Om::with_capacity_and_hasher(ctx.draw(9), Sb(2))];
    let mut d: [Pairs; 2] = [vec![], vec![]];
    let mut nv = 1;
    while ctx.next_op() {
        let s = ctx.draw(2);
        let k = ctx.draw(cf.universe) as u32;
        nv += 1;
        let op = ctx.draw(24);
        ctx.log(|| format!("op {op} on {s} key {k} val {nv}, {:?} / {:?}", d[0], d[1]));
        let n = d[s].len();
        match op {
            0..=4 => {
                let r = m[s].insert(k, nv, &mut u, &mut g).unwrap();
                same!(r, om_put(&mut d[s], k, nv), "insert");
            }
            5 => {
                let p = d[s].iter().position(|x| x.0 == k);
                let r = m[s].shift_remove(&k, &mut u, &mut g).unwrap();
                same!(r, p.map(|p| d[s].remove(p).1), "shift_remove");
            }
            6 => {
                let p = d[s].iter().position(|x| x.0 == k);
                let r = m[s].swap_remove_entry(&k, &mut u, &mut g).unwrap();
                same!(r, p.map(|p| d[s].swap_remove(p)), "swap_remove_entry");
            }
            7 => {
                let (a, b) = m.split_at_mut(1);
                let (a, b) = if s == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
                a.clone_from(b);
                d[s] = d[1 - s].clone();
            }
            8 => {
                let c = m[s].clone();
                m[1 - s] = c;
                d[1 - s] = d[s].clone();
            }
            9 => m.swap(0, 1),
            10 => {
                let add: Pairs = (0..ctx.draw(6)).map(|i| (ctx.draw(cf.universe) as u32, nv + 100 * i as u32)).collect();
                for &(k, v) in &add {
                    om_put(&mut d[s], k, v);
                }
                m[s].extend(add, &mut u, &mut g).unwrap();
            }
            11 => {
                let r = m[s].get_full(&k, &mut u, &mut g).unwrap().map(|(i, a, b)| (i, *a, *b));
                same!(r, d[s].iter().position(|x| x.0 == k).map(|p| (p, d[s][p].0, d[s][p].1)), "get_full");
                if d[s].iter().any(|x| x.0 == k) {
                    same!(m[s][&k], d[s].iter().find(|x| x.0 == k).unwrap().1, "index by key");
                }
            }
            12 if n > 0 => {
                let i = ctx.draw(n);
                same!(m[s][i], d[s][i].1, "index by position");
                m[s][i] = nv;
                d[s][i].1 = nv;
            }
            13 => {
                // out of bounds: reported, nothing changed
                let i = n + ctx.draw(3);
                same!(m[s].get_index(i), None, "get_index past the end");
                let c = call(|| m[s][i]);
                ensure!(matches!(c, Call::Other(_)), E, "index {i} past the end of {n} accepted");
                let (a, _) = two(ctx, n);
                same!(m[s].get_range(a..n + 1), None, "get_range past the end");
                if n > 0 {
                    same!(m[s].get_range(n..n - 1), None, "get_range backwards");
                }
                same!(m[s].get_range(n + 1..), None, "get_range starting past the end");
            }
            14 => ranges(ctx, &mut m[s], &mut d[s], nv)?,
            15 => slices(ctx, &mut m[s], &mut d[s], nv)?,
            16 => {
                let x = d[s].clone();
                match ctx.draw(8) {
                    0 => walk!(ctx, m[s].iter(), x, |(a, b)| (*a, *b), "iter"),
                    1 => walk!(ctx, m[s].keys(), x.iter().map(|p| p.0).collect::<Vec<_>>(), |a| *a, "keys"),
                    2 => walk!(ctx, m[s].values(), x.iter().map(|p| p.1).collect::<Vec<_>>(), |a| *a, "values"),
                    3 => walk!(ctx, m[s].iter_mut(), x, |(a, b)| (*a, *b), "iter_mut"),
                    4 => walk!(ctx, m[s].values_mut(), x.iter().map(|p| p.1).collect::<Vec<_>>(), |a| *a, "values_mut"),
                    5 => walk!(ctx, m[s].clone().into_iter(), x, |a| a, "into_iter"),
                    6 => walk!(ctx, m[s].clone().into_keys(), x.iter().map(|p| p.0).collect::<Vec<_>>(), |a| a, "into_keys"),
                    _ => walk!(ctx, m[s].clone().into_values(), x.iter().map(|p| p.1).collect::<Vec<_>>(), |a| a, "into_values"),
                }
            }
            17 => {
                // rests of partly consumed iterators
                let i = ctx.draw(n + 1);
                let rest = d[s][i..].to_vec();
                let mut it = m[s].iter();
                let mut ks = m[s].keys();
                let mut vs = m[s].values();
                for _ in 0..i {
                    it.next();
                    ks.next();
                    vs.next();
                }
                ensure!(it.as_slice() == &rest[..], E, "rest of iter as slice");
                same!(it.clone().map(|(a, b)| (*a, *b)).collect::<Pairs>(), rest, "cloned iter");
                same!(ks.clone().copied().collect::<Vec<_>>(), rest.iter().map(|p| p.0).collect::<Vec<_>>(), "cloned keys");
                same!(vs.clone().copied().collect::<Vec<_>>(), rest.iter().map(|p| p.1).collect::<Vec<_>>(), "cloned values");
                if !rest.is_empty() {
                    let j = ctx.draw(rest.len());
                    same!(ks[j], rest[j].0, "keys index");
                }
                same!(format!("{it:?}"), format!("{rest:?}"), "debug of iter");
                let mut it = m[s].iter_mut();
                for _ in 0..i {
                    it.next();
                }
                ensure!(it.as_slice() == &rest[..], E, "rest of iter_mut as slice");
                let sl = it.into_slice();
                ensure!(&*sl == &rest[..], E, "rest of iter_mut into slice");
                for (_, v) in sl.iter_mut() {
                    *v += 1;
                }
                for p in &mut d[s][i..] {
                    p.1 += 1;
                }
                let rest = d[s][i..].to_vec();
                let mut it = m[s].clone().into_iter();
                for _ in 0..i {
                    it.next();
                }
                ensure!(it.as_slice() == &rest[..], E, "rest of into_iter as slice");
                ensure!(&*it.as_mut_slice() == &rest[..], E, "rest of into_iter as mutable slice");
                same!(rubymap::map::Iter::<u32, u32>::default().len(), 0, "default iter");
                same!(rubymap::map::IntoIter::<u32, u32>::default().len(), 0, "default into_iter");
                same!(rubymap::map::Keys::<u32, u32>::default().len(), 0, "default keys");
                same!(rubymap::map::Values::<u32, u32>::default().len(), 0, "default values");
            }
            18 => {
                let (a, b) = two(ctx, n);
                let x: Pairs = d[s].drain(a..b).collect();
                let it = m[s].drain(a..b, &mut u, &mut g).unwrap();
                ensure!(it.as_slice() == &x[..], E, "drain as slice");
                walk!(ctx, it, x, |a| a, "drain");
            }
            19 => {
                // comparison, through builders that need not agree
                let mut a = Od::new();
                let mut b = Od::default();
                for &(k, v) in &d[0] {
                    a.insert(k, v, &mut u, &mut g).unwrap();
                }
                for &(k, v) in &d[1] {
                    b.insert(k, v, &mut u, &mut g).unwrap();
                }
                let eq = |x: &Pairs, y: &Pairs| x.len() == y.len() && x.iter().all(|p| y.contains(p));
                same!(a == b, eq(&d[0], &d[1]), "map equality");
                let mut c = d[s].clone();
                if !c.is_empty() {
                    let i = ctx.draw(c.len());
                    match ctx.draw(4) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i].1 += 1,
                        2 => c[i].0 = cf.universe as u32 + 1,
                        _ => c.reverse(),
                    }
                }
                let o = if s == 0 { &a } else { &b };
                let cm = Od::from_iter(c.clone(), &mut u, &mut g).unwrap();
                same!(*o == cm, eq(&d[s], &c), "equality with a changed copy");
                same!(cm == *o, eq(&d[s], &c), "equality with a changed copy, reversed");
            }
            20 => {
                let m2 = Om::from_iter(d[s].clone(), &mut u, &mut g).unwrap();
                same!(m2.iter().map(|(a, b)| (*a, *b)).collect::<Pairs>(), d[s], "from_iter");
                let (a, b, c) = (k, (k + 1) % cf.universe as u32, ctx.draw(cf.universe) as u32);
                let arr = [(a, 1), (b, 2), (c, 3)];
                let f = Od::from_ary(arr, &mut u, &mut g).unwrap();
                let mut x = vec![];
                for (k, v) in arr {
                    om_put(&mut x, k, v);
                }
                same!(f.iter().map(|(a, b)| (*a, *b)).collect::<Pairs>(), x, "from_ary");
                for &(k, v) in &x {
                    same!(f.get(&k, &mut u, &mut g).unwrap(), Some(&v), "lookup after from_ary");
                }
            }
            21 => {
                let bx = m[s].clone().into_boxed_slice();
                ensure!(*bx == d[s][..], E, "boxed slice");
                let b2 = bx.clone();
                let (x, keys) = (d[s].clone(), d[s].iter().map(|p| p.0).collect::<Vec<_>>());
                match ctx.draw(3) {
                    0 => walk!(ctx, b2.into_keys(), keys, |a| a, "boxed into_keys"),
                    1 => walk!(ctx, b2.into_values(), x.iter().map(|p| p.1).collect::<Vec<_>>(), |a| a, "boxed into_values"),
                    _ => walk!(ctx, IntoIterator::into_iter(b2), x, |a| a, "boxed into_iter"),
                }
            }
            22 => {
                same!(format!("{:?}", m[s]), format!("{{{}}}", d[s].iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>().join(", ")), "debug");
                same!(m[s].first().map(|(a, b)| (*a, *b)), d[s].first().copied(), "first");
                same!(m[s].last().map(|(a, b)| (*a, *b)), d[s].last().copied(), "last");
                same!(m[s].is_empty(), d[s].is_empty(), "is_empty");
            }
            _ => {
                let x = m[s].pop(&mut u, &mut g);
                same!(x, Ok(d[s].pop()), "pop");
            }
        }
        let sw = op == 9;
        if sw {
            d.swap(0, 1);
        }
        for s in 0..2 {
            same!(m[s].len(), d[s].len(), "len");
            same!(m[s].iter().map(|(a, b)| (*a, *b)).collect::<Pairs>(), d[s], "contents");
            for k in 0..cf.universe as u32 {
                let r = m[s].get(&k, &mut u, &mut g).unwrap().copied();
                same!(r, d[s].iter().find(|x| x.0 == k).map(|x| x.1), "lookup");
            }
        }
        ctx.state(mix64((op * 1000 + n) as u64));
    }
    Ok(())
}

fn ranges(ctx: &mut Ctx, m: &mut Om, d: &mut Pairs, nv: u32) -> RunResult {
    let n = d.len();
    let (a, b) = two(ctx, n);
    ensure!(m[..] == d[..], E, "[..]");
    ensure!(m[a..] == d[a..], E, "[{a}..]");
    ensure!(m[..b] == d[..b], E, "[..{b}]");
    ensure!(m[a..b] == d[a..b], E, "[{a}..{b}]");
    if b > a {
        ensure!(m[a..=b - 1] == d[a..b], E, "[{a}..={}]", b - 1);
        ensure!(m[..=b - 1] == d[..b], E, "[..={}]", b - 1);
    }
    use std::ops::Bound::*;
    if a > 0 {
        ensure!(m[(Excluded(a - 1), Excluded(b))] == d[a..b], E, "bounds ({}, {b})", a - 1);
    }
    let r = m.get_range((Included(a), Unbounded));
    ensure!(r.is_some_and(|r| *r == d[a..]), E, "get_range {a}..");
    for (k, v) in m[a..b].iter_mut() {
        *v = nv ^ *k;
    }
    for p in &mut d[a..b] {
        p.1 = nv ^ p.0;
    }
    if let Some(r) = m.get_range_mut(a..b) {
        for v in r.values_mut() {
            *v += 1;
        }
    }
    for p in &mut d[a..b] {
        p.1 += 1;
    }
    Ok(())
}

fn slices(ctx: &mut Ctx, m: &mut Om, d: &mut Pairs, nv: u32) -> RunResult {
    let n = d.len();
    let (a, b) = two(ctx, n);
    let (c, e) = two(ctx, n);
    let w = d[a..b].to_vec();
    {
        let (x, y) = (&m[a..b], &m[c..e]);
        same!(x.len(), b - a, "slice len");
        same!(x.is_empty(), a == b, "slice is_empty");
        same!(x == y, d[a..b] == d[c..e], "slice ==");
        same!(x.partial_cmp(y), d[a..b].partial_cmp(&d[c..e]), "slice partial_cmp");
        same!(x.cmp(y), d[a..b].cmp(&d[c..e]), "slice cmp");
        same!(*x == d[c..e], d[a..b] == d[c..e], "slice == pairs");
        same!(d[c..e] == *x, d[a..b] == d[c..e], "pairs == slice");
        if b - a >= 2 {
            let mut arr = [w[0], w[1]];
            let head = &x[..2];
            ensure!(*head == arr, E, "slice == array");
            ensure!(arr == *head, E, "array == slice");
            match ctx.draw(3) {
                0 => arr[1].1 ^= 1,
                1 => arr[0].0 ^= 1,
                _ => arr.swap(0, 1),
            }
            ensure!(*head != arr, E, "slice == a different array");
            ensure!(arr != *head, E, "a different array == slice");
            // a hash tells the order, the length and every field
            same!(digest(head) == digest(&x[..1]), false, "hash of slices of different length");
            let m2 = {
                let mut m2 = Om::default();
                m2.insert(w[0].0, w[0].1, &mut (), &mut ()).unwrap();
                m2.insert(w[1].0, w[1].1 ^ 1, &mut (), &mut ()).unwrap();
                m2
            };
            ensure!(digest(head) != digest(&m2[..]), E, "hash ignores a value");
        }
        same!(digest(x) == digest(y), d[a..b] == d[c..e], "slice hash");
        same!(format!("{x:?}"), format!("{w:?}"), "slice debug");
        same!(x.first().map(|(a, b)| (*a, *b)), w.first().copied(), "slice first");
        same!(x.last().map(|(a, b)| (*a, *b)), w.last().copied(), "slice last");
        if let Some((f, r)) = x.split_first() {
            same!((*f.0, *f.1), w[0], "split_first");
            ensure!(*r == w[1..], E, "rest of split_first");
        } else {
            ensure!(w.is_empty(), E, "split_first of a filled slice is nothing");
        }
        if let Some((f, r)) = x.split_last() {
            same!((*f.0, *f.1), w[w.len() - 1], "split_last");
            ensure!(*r == w[..w.len() - 1], E, "rest of split_last");
        } else {
            ensure!(w.is_empty(), E, "split_last of a filled slice is nothing");
        }
        let i = ctx.draw(w.len() + 1);
        let (l, r) = x.split_at(i);
        ensure!(*l == w[..i] && *r == w[i..], E, "split_at {i}");
        same!(x.get_index(i).map(|(a, b)| (*a, *b)), w.get(i).copied(), "slice get_index");
        if i < w.len() {
            same!(x[i], w[i].1, "slice index");
        }
        let (p, q) = two(ctx, w.len());
        ensure!(x[p..q] == w[p..q] && x[p..] == w[p..] && x[..q] == w[..q], E, "slice of slice");
        ensure!(x.get_range(p..q).is_some_and(|r| *r == w[p..q]), E, "slice get_range");
        ensure!(x.get_range(p..w.len() + 1).is_none(), E, "slice get_range past the end");
        walk!(ctx, x.iter(), w.clone(), |(a, b)| (*a, *b), "slice iter");
        walk!(ctx, x.keys(), w.iter().map(|p| p.0).collect::<Vec<_>>(), |a| *a, "slice keys");
        walk!(ctx, x.values(), w.iter().map(|p| p.1).collect::<Vec<_>>(), |a| *a, "slice values");
        let bx: Box<rubymap::map::Slice<u32, u32>> = x.into();
        ensure!(*bx == w[..], E, "boxed copy of a slice");
        let t = ctx.draw(80) as u32;
        // searches on a sorted copy
        let mut sm = Om::default();
        let mut sw = w.clone();
        sw.sort();
        for &(k, v) in &sw {
            sm.insert(k, v, &mut (), &mut ()).unwrap();
        }
        let sx = &sm[..];
        same!(sx.binary_search_keys(&t), sw.binary_search_by(|p| p.0.cmp(&t)), "binary_search_keys");
        same!(sx.binary_search_by(|k, _| k.cmp(&t)), sw.binary_search_by(|p| p.0.cmp(&t)), "binary_search_by");
        same!(sx.binary_search_by_key(&(t / 2), |k, _| *k / 2).is_ok(), sw.iter().any(|p| p.0 / 2 == t / 2), "binary_search_by_key");
        same!(sx.partition_point(|k, _| *k < t), sw.partition_point(|p| p.0 < t), "partition_point");
    }
    // through mutable slices
    let x = &mut m[a..b];
    if let Some((_, v)) = x.first_mut() {
        *v = nv;
        d[a].1 = nv;
    }
    if let Some((_, v)) = x.last_mut() {
        *v = nv + 1;
        d[b - 1].1 = nv + 1;
    }
    let i = ctx.draw(b - a + 1);
    let (l, r) = x.split_at_mut(i);
    same!((l.len(), r.len()), (i, b - a - i), "split_at_mut");
    for v in r.values_mut() {
        *v += 3;
    }
    for p in &mut d[a + i..b] {
        p.1 += 3;
    }
    if let Some((f, r)) = x.split_first_mut() {
        *f.1 += 5;
        d[a].1 += 5;
        same!(r.len(), b - a - 1, "rest of split_first_mut");
    }
    if let Some((f, r)) = x.split_last_mut() {
        *f.1 += 7;
        d[b - 1].1 += 7;
        same!(r.len(), b - a - 1, "rest of split_last_mut");
    }
    if b > a {
        let j = ctx.draw(b - a);
        x[j] = nv + 9;
        d[a + j].1 = nv + 9;
        if let Some((_, v)) = x.get_index_mut(j) {
            *v += 1;
        }
        d[a + j].1 += 1;
        let j2 = ctx.draw(b - a + 1);
        match x.get_disjoint_mut([j, j2]) {
            Ok([p, q]) => {
                ensure!(j != j2 && j2 < b - a, E, "get_disjoint_mut accepted {j}, {j2} of {}", b - a);
                std::mem::swap(p.1, q.1);
                let t = d[a + j].1;
                d[a + j].1 = d[a + j2].1;
                d[a + j2].1 = t;
            }
            Err(_) => ensure!(j == j2 || j2 >= b - a, E, "get_disjoint_mut refused {j}, {j2} of {}", b - a),
        }
    }
    Ok(())
}

// ---- ordered set ----------------------------------------------------------------

type Os = RubySet<u32, (), (), (), Sb>;

pub fn ordered_set(ctx: &mut Ctx) -> RunResult {
    reset();
    ctx.nontrivial();
    let cf = cfg(ctx);
    let (mut u, mut g) = ((), ());
    let mut m = [Os::with_hasher(Sb(1)), Os::with_capacity_and_hasher(ctx.draw(9), Sb(2))];
    let mut d: [Vec<u32>; 2] = [vec![], vec![]];
    while ctx.next_op() {
        let s = ctx.draw(2);
        let k = ctx.draw(cf.universe) as u32;
        let op = ctx.draw(14);
        ctx.log(|| format!("op {op} on {s} key {k}, {:?} / {:?}", d[0], d[1]));
        let n = d[s].len();
        match op {
            0..=3 => {
                let r = m[s].insert(k, &mut u, &mut g).unwrap();
                same!(r, !d[s].contains(&k), "insert");
                if r {
                    d[s].push(k);
                }
            }
            4 => {
                let p = d[s].iter().position(|x| *x == k);
                let r = m[s].shift_remove(&k, &mut u, &mut g).unwrap();
                same!(r, p.map(|p| d[s].remove(p)).is_some(), "shift_remove");
            }
            5 => {
                m[s].clear();
                m[s].extend(d[1 - s].clone(), &mut u, &mut g).unwrap();
                d[s] = d[1 - s].clone();
            }
            6 => {
                m.swap(0, 1);
                d.swap(0, 1);
            }
            7 => {
                let (a, b) = two(ctx, n);
                let (c, e) = two(ctx, n);
                let w = d[s][a..b].to_vec();
                let (x, y) = (&m[s][a..b], &m[s][c..e]);
                same!(x.len(), w.len(), "slice len");
                same!(x.is_empty(), w.is_empty(), "slice is_empty");
                same!(x == y, d[s][a..b] == d[s][c..e], "slice ==");
                same!(x.cmp(y), d[s][a..b].cmp(&d[s][c..e]), "slice cmp");
                same!(x.partial_cmp(y), d[s][a..b].partial_cmp(&d[s][c..e]), "slice partial_cmp");
                same!(*x == d[s][c..e], d[s][a..b] == d[s][c..e], "slice == elements");
                same!(d[s][c..e] == *x, d[s][a..b] == d[s][c..e], "elements == slice");
                same!(digest(x) == digest(y), d[s][a..b] == d[s][c..e], "slice hash");
                same!(format!("{x:?}"), format!("{w:?}"), "slice debug");
                same!(x.first(), w.first(), "slice first");
                same!(x.last(), w.last(), "slice last");
                same!(x.split_first().map(|(f, r)| (*f, r.iter().copied().collect::<Vec<_>>())), w.split_first().map(|(f, r)| (*f, r.to_vec())), "split_first");
                same!(x.split_last().map(|(f, r)| (*f, r.iter().copied().collect::<Vec<_>>())), w.split_last().map(|(f, r)| (*f, r.to_vec())), "split_last");
                let i = ctx.draw(w.len() + 1);
                let (l, r) = x.split_at(i);
                ensure!(*l == w[..i] && *r == w[i..], E, "split_at {i}");
                same!(x.get_index(i), w.get(i), "slice get_index");
                if i < w.len() {
                    same!(x[i], w[i], "slice index");
                }
                ensure!(x.get_range(i..).is_some_and(|r| *r == w[i..]), E, "slice get_range");
                ensure!(x.get_range(i..w.len() + 1).is_none(), E, "slice get_range past the end");
                ensure!(x[i..] == w[i..] && x[..i] == w[..i], E, "slice of slice");
                if w.len() >= 2 {
                    let mut arr = [w[0], w[1]];
                    ensure!(x[..2] == arr && arr == x[..2], E, "slice == array");
                    arr.swap(0, 1);
                    ensure!(x[..2] != arr && arr != x[..2], E, "slice == a different array");
                }
                walk!(ctx, x.iter(), w.clone(), |a| *a, "slice iter");
                let bx: Box<rubymap::set::Slice<u32>> = x.into();
                walk!(ctx, IntoIterator::into_iter(bx.clone()), w.clone(), |a| a, "boxed into_iter");
                let mut sm = Os::default();
                let mut sw = w.clone();
                sw.sort();
                for &k in &sw {
                    sm.insert(k, &mut u, &mut g).unwrap();
                }
                let t = ctx.draw(80) as u32;
                same!(sm[..].binary_search(&t), sw.binary_search(&t), "binary_search");
                same!(sm[..].binary_search_by(|k| k.cmp(&t)), sw.binary_search(&t), "binary_search_by");
                same!(sm[..].binary_search_by_key(&t, |k| *k), sw.binary_search(&t), "binary_search_by_key");
                same!(sm[..].partition_point(|k| *k < t), sw.partition_point(|k| *k < t), "partition_point");
            }
            8 => {
                let i = n + ctx.draw(3);
                same!(m[s].get_index(i), None, "get_index past the end");
                same!(m[s].get_range(..n + 1), None, "get_range past the end");
                if n > 0 {
                    let i = ctx.draw(n);
                    same!(m[s].get_index(i), d[s].get(i), "get_index");
                }
            }
            9 => {
                let x = d[s].clone();
                match ctx.draw(3) {
                    0 => walk!(ctx, m[s].iter(), x, |a| *a, "iter"),
                    1 => walk!(ctx, Os::from_iter(d[s].clone(), &mut u, &mut g).unwrap().into_iter(), x, |a| a, "into_iter"),
                    _ => {
                        let (a, b) = two(ctx, n);
                        let x: Vec<u32> = d[s].drain(a..b).collect();
                        let it = m[s].drain(a..b, &mut u, &mut g).unwrap();
                        ensure!(it.as_slice() == &x[..], E, "drain as slice");
                        walk!(ctx, it, x, |a| a, "drain");
                    }
                }
            }
            10 => {
                let i = ctx.draw(n + 1);
                let mut it = m[s].iter();
                let mut io = Os::from_iter(d[s].clone(), &mut u, &mut g).unwrap().into_iter();
                for _ in 0..i {
                    it.next();
                    io.next();
                }
                same!(io.collect::<Vec<_>>(), d[s][i..].to_vec(), "rest of into_iter");
                same!(it.clone().copied().collect::<Vec<_>>(), d[s][i..].to_vec(), "cloned iter");
                same!(format!("{it:?}"), format!("{:?}", &d[s][i..]), "debug of iter");
            }
            11 => {
                type D = RubySet<u32, (), (), ()>;
                let a = D::from_iter(d[0].clone(), &mut u, &mut g).unwrap();
                let b = D::from_iter(d[1].clone(), &mut u, &mut g).unwrap();
                let eq = |x: &Vec<u32>, y: &Vec<u32>| x.len() == y.len() && x.iter().all(|p| y.contains(p));
                same!(a == b, eq(&d[0], &d[1]), "set equality");
                let (mut ca, mut cb) = (a.clone(), b.clone());
                same!(ca.iter().copied().collect::<Vec<_>>(), d[0], "cloned set");
                cb.clone_from(&ca);
                ca.insert(k, &mut u, &mut g).unwrap();
                same!(cb.iter().copied().collect::<Vec<_>>(), d[0], "set copied onto another");
                for k in &d[0] {
                    ensure!(cb.contains(k, &mut u, &mut g).unwrap(), E, "element {k} of a copied set not found");
                }
                let mut c = d[s].clone();
                if !c.is_empty() {
                    let i = ctx.draw(c.len());
                    match ctx.draw(3) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i] = cf.universe as u32 + 1,
                        _ => c.reverse(),
                    }
                }
                let cm = D::from_iter(c.clone(), &mut u, &mut g).unwrap();
                let o = if s == 0 { &a } else { &b };
                same!(*o == cm, eq(&d[s], &c), "equality with a changed copy");
                same!(cm == *o, eq(&d[s], &c), "equality with a changed copy, reversed");
                let arr = [k, (k + 1) % cf.universe as u32, ctx.draw(cf.universe) as u32];
                let f = D::from_ary(arr, &mut u, &mut g).unwrap();
                let mut x = vec![];
                for k in arr {
                    if !x.contains(&k) {
                        x.push(k);
                    }
                }
                same!(f.iter().copied().collect::<Vec<_>>(), x, "from_ary");
            }
            12 => {
                let (a, b) = (&m[0], &m[1]);
                same!(a.is_subset(b, &mut u, &mut g).unwrap(), d[0].iter().all(|k| d[1].contains(k)), "is_subset");
                same!(b.is_subset(a, &mut u, &mut g).unwrap(), d[1].iter().all(|k| d[0].contains(k)), "is_subset reversed");
                same!(a.is_disjoint(b, &mut u, &mut g).unwrap(), !d[0].iter().any(|k| d[1].contains(k)), "is_disjoint");
                same!(b.is_disjoint(a, &mut u, &mut g).unwrap(), !d[0].iter().any(|k| d[1].contains(k)), "is_disjoint reversed");
            }
            _ => {
                same!(m[s].pop(&mut u, &mut g), Ok(d[s].pop()), "pop");
            }
        }
        for s in 0..2 {
            same!(m[s].len(), d[s].len(), "len");
            same!(m[s].iter().copied().collect::<Vec<_>>(), d[s], "contents");
            for k in 0..cf.universe as u32 {
                same!(m[s].contains(&k, &mut u, &mut g).unwrap(), d[s].contains(&k), "lookup");
            }
        }
        ctx.state(mix64((op * 1000 + n) as u64));
    }
    Ok(())
}

// ---- unordered map and set ---------------------------------------------------------

type Hm = HashMap<u32, u32, (), (), (), Sb>;
type Hs = HashSet<u32, (), (), (), Sb>;

fn sorted<T: Ord>(it: impl Iterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = it.collect();
    v.sort();
    v
}

/// Announced length while an iterator is consumed; contents unordered.
macro_rules! drain_all {
    ($ctx:expr, $it:expr, $exp:expr, $map:expr, $what:expr) => {{
        let mut it = $it;
        let exp = sorted($exp.into_iter());
        let mut got = vec![];
        let stop = $ctx.draw(exp.len() + 2);
        loop {
            same!(it.len(), exp.len() - got.len(), concat!($what, " len"));
            same!(it.size_hint(), (exp.len() - got.len(), Some(exp.len() - got.len())), concat!($what, " size_hint"));
            if got.len() == stop {
                let n = got.len();
                let got2 = it.fold(got, |mut v, x| {
                    v.push($map(x));
                    v
                });
                got = got2;
                let _ = n;
                break;
            }
            match it.next() {
                Some(x) => got.push($map(x)),
                None => break,
            }
        }
        got.sort();
        same!(got, exp, $what);
    }};
}

pub fn unordered(ctx: &mut Ctx) -> RunResult {
    reset();
    ctx.nontrivial();
    let cf = cfg(ctx);
    let (mut u, mut g) = ((), ());
    let mut m = [Hm::with_hasher(Sb(1)), Hm::with_capacity_and_hasher(ctx.draw(9), Sb(2))];
    let mut t = [Hs::with_hasher(Sb(3)), Hs::with_capacity_and_hasher(ctx.draw(9), Sb(4))];
    let mut d: [Pairs; 2] = [vec![], vec![]];
    let mut nv = 1;
    while ctx.next_op() {
        let s = ctx.draw(2);
        let k = ctx.draw(cf.universe) as u32;
        nv += 1;
        let op = ctx.draw(16);
        ctx.log(|| format!("op {op} on {s} key {k} val {nv}, {:?} / {:?}", d[0], d[1]));
        let n = d[s].len();
        let p = d[s].iter().position(|x| x.0 == k);
        match op {
            0..=3 => {
                let r = m[s].insert(k, nv, &mut u, &mut g).unwrap();
                same!(t[s].insert(k, &mut u, &mut g).unwrap(), p.is_none(), "set insert");
                same!(r, om_put(&mut d[s], k, nv), "insert");
            }
            4 => {
                same!(m[s].remove_entry(&k, &mut u, &mut g).unwrap(), p.map(|p| d[s].remove(p)), "remove_entry");
                same!(t[s].remove(&k, &mut u, &mut g).unwrap(), p.is_some(), "set remove");
            }
            5 => {
                let (a, b) = m.split_at_mut(1);
                let (a, b) = if s == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
                a.clone_from(b);
                let (a, b) = t.split_at_mut(1);
                let (a, b) = if s == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
                a.clone_from(b);
                d[s] = d[1 - s].clone();
            }
            6 => {
                m[1 - s] = m[s].clone();
                t[1 - s] = t[s].clone();
                d[1 - s] = d[s].clone();
            }
            7 => {
                use hashbrown::hash_map::Entry;
                match m[s].entry(k, &mut u, &mut g).unwrap() {
                    Entry::Occupied(mut o) => {
                        same!(Some(*o.key()), p.map(|p| d[s][p].0), "occupied key");
                        let p = p.unwrap();
                        same!(*o.get(), d[s][p].1, "occupied value");
                        match ctx.draw(5) {
                            0 => same!(o.insert(nv), std::mem::replace(&mut d[s][p].1, nv), "occupied insert"),
                            1 => {
                                *o.get_mut() += 1;
                                d[s][p].1 += 1;
                            }
                            2 => {
                                *o.into_mut() += 2;
                                d[s][p].1 += 2;
                            }
                            3 => {
                                same!(o.remove(), d[s].remove(p).1, "occupied remove");
                                t[s].remove(&k, &mut u, &mut g).unwrap();
                            }
                            _ => {
                                same!(o.remove_entry(), d[s].remove(p), "occupied remove_entry");
                                t[s].take(&k, &mut u, &mut g).unwrap();
                            }
                        }
                    }
                    Entry::Vacant(v) => {
                        ensure!(p.is_none(), E, "vacant entry for a present key");
                        same!(*v.key(), k, "vacant key");
                        match ctx.draw(3) {
                            0 => same!(v.into_key(), k, "vacant into_key"),
                            1 => {
                                *v.insert(nv) += 1;
                                d[s].push((k, nv + 1));
                                t[s].insert(k, &mut u, &mut g).unwrap();
                            }
                            _ => {
                                let o = v.insert_entry(nv);
                                same!((*o.key(), *o.get()), (k, nv), "insert_entry");
                                d[s].push((k, nv));
                                t[s].replace(k, &mut u, &mut g).unwrap();
                            }
                        }
                    }
                }
            }
            8 => {
                let e = m[s].entry(k, &mut u, &mut g).unwrap();
                same!(*e.key(), k, "entry key");
                let x = ctx.draw(5);
                match x {
                    0 => {
                        let r = *e.or_insert(nv);
                        same!(r, p.map_or(nv, |p| d[s][p].1), "or_insert");
                    }
                    1 => {
                        let r = *e.or_insert_with(|| nv);
                        same!(r, p.map_or(nv, |p| d[s][p].1), "or_insert_with");
                    }
                    2 => {
                        let r = *e.or_insert_with_key(|k| *k + nv);
                        same!(r, p.map_or(nv + k, |p| d[s][p].1), "or_insert_with_key");
                    }
                    3 => {
                        let r = *e.or_default();
                        same!(r, p.map_or(0, |p| d[s][p].1), "or_default");
                    }
                    _ => {
                        let r = *e.and_modify(|v| *v += 7).or_insert(nv);
                        same!(r, p.map_or(nv, |p| d[s][p].1 + 7), "and_modify");
                    }
                }
                match p {
                    Some(p) => d[s][p].1 += if x == 4 { 7 } else { 0 },
                    None => {
                        d[s].push((k, [nv, nv, nv + k, 0, nv][x]));
                        t[s].get_or_insert_with(&k, |k| *k, &mut u, &mut g).unwrap();
                    }
                }
            }
            9 => {
                // entries by reference
                let mut hs: HashMap<String, u32, (), (), (), Sb> = HashMap::with_hasher(Sb(5));
                let mut x: Vec<(String, u32)> = d[s].iter().map(|(k, v)| (k.to_string(), *v)).collect();
                for (k, v) in x.clone() {
                    hs.insert(k, v, &mut u, &mut g).unwrap();
                }
                let key = k.to_string();
                let e = hs.entry_ref(key.as_str(), &mut u, &mut g).unwrap();
                same!(e.key(), key.as_str(), "entry_ref key");
                let how = ctx.draw(7);
                let old = p.map(|p| d[s][p].1);
                let new = match how {
                    0 => *e.or_insert(nv),
                    1 => *e.or_insert_with(|| nv),
                    2 => *e.or_insert_with_key(|k| k.len() as u32 + nv),
                    3 => *e.or_default(),
                    4 => *e.and_modify(|v| *v += 7).or_insert(nv),
                    5 => {
                        let o = e.insert(nv);
                        same!((o.key().as_str(), *o.get()), (key.as_str(), nv), "ref insert");
                        nv
                    }
                    _ => {
                        if let hashbrown::hash_map::EntryRef::Vacant(v) = e {
                            same!(v.key(), key.as_str(), "vacant ref key");
                            *v.insert(nv)
                        } else {
                            old.unwrap_or(0)
                        }
                    }
                };
                let exp = match (how, old) {
                    (4, Some(v)) => v + 7,
                    (5, _) => nv,
                    (_, Some(v)) => v,
                    (2, None) => key.len() as u32 + nv,
                    (3, None) => 0,
                    (_, None) => nv,
                };
                same!(new, exp, "entry by reference");
                match x.iter_mut().find(|x| x.0 == key) {
                    Some(x) => x.1 = exp,
                    None => x.push((key, exp)),
                }
                same!(sorted(hs.iter().map(|(a, b)| (a.clone(), *b))), sorted(x.into_iter()), "contents after entry_ref");
            }
            10 => {
                use hashbrown::hash_set::Entry;
                let e = t[s].entry(k, &mut u, &mut g).unwrap();
                same!(*e.get(), k, "set entry");
                match e {
                    Entry::Occupied(o) => {
                        let p = p.ok_or(()).or_else(|_| -> Result<usize, simcore::Violation> { fail!(E, "occupied set entry for an absent key") })?;
                        same!(*o.get(), k, "occupied set entry");
                        if ctx.draw(2) == 0 {
                            same!(o.remove(), k, "set entry remove");
                            d[s].remove(p);
                            m[s].remove(&k, &mut u, &mut g).unwrap();
                        }
                    }
                    Entry::Vacant(v) => {
                        ensure!(p.is_none(), E, "vacant set entry for a present key");
                        same!(*v.get(), k, "vacant set entry");
                        match ctx.draw(3) {
                            0 => same!(v.into_value(), k, "vacant set entry into_value"),
                            _ => {
                                v.insert();
                                d[s].push((k, nv));
                                m[s].insert(k, nv, &mut u, &mut g).unwrap();
                            }
                        }
                    }
                }
            }
            11 => {
                let x = d[s].clone();
                let ks: Vec<u32> = x.iter().map(|p| p.0).collect();
                let vs: Vec<u32> = x.iter().map(|p| p.1).collect();
                match ctx.draw(12) {
                    0 => drain_all!(ctx, m[s].iter(), x, |(a, b): (&u32, &u32)| (*a, *b), "iter"),
                    1 => drain_all!(ctx, m[s].iter_mut(), x, |(a, b): (&u32, &mut u32)| (*a, *b), "iter_mut"),
                    2 => drain_all!(ctx, m[s].keys(), ks, |a: &u32| *a, "keys"),
                    3 => drain_all!(ctx, m[s].values(), vs, |a: &u32| *a, "values"),
                    4 => drain_all!(ctx, m[s].values_mut(), vs, |a: &mut u32| *a, "values_mut"),
                    5 => drain_all!(ctx, m[s].clone().into_iter(), x, |a| a, "into_iter"),
                    6 => drain_all!(ctx, m[s].clone().into_keys(), ks, |a| a, "into_keys"),
                    7 => drain_all!(ctx, m[s].clone().into_values(), vs, |a| a, "into_values"),
                    8 => {
                        let mut c = m[s].clone();
                        drain_all!(ctx, c.drain(), x, |a| a, "drain");
                        same!(c.len(), 0, "len after drain");
                    }
                    9 => drain_all!(ctx, t[s].iter(), ks, |a: &u32| *a, "set iter"),
                    10 => drain_all!(ctx, t[s].clone().into_iter(), ks, |a| a, "set into_iter"),
                    _ => {
                        let mut c = t[s].clone();
                        drain_all!(ctx, c.drain(), ks, |a| a, "set drain");
                        same!(c.len(), 0, "set len after drain");
                    }
                }
            }
            12 => {
                // what an iterator shows of itself
                let i = ctx.draw(n + 1);
                let mut it = m[s].iter();
                let mut ks = m[s].keys();
                let mut vs = m[s].values();
                let mut ti = t[s].iter();
                let mut seen = vec![];
                for _ in 0..i {
                    seen.push(it.next().map(|(a, b)| (*a, *b)).unwrap());
                    ks.next();
                    vs.next();
                    ti.next();
                }
                let rest: Pairs = sorted(d[s].iter().copied().filter(|p| !seen.contains(p)));
                same!(sorted(it.clone().map(|(a, b)| (*a, *b))), rest, "cloned iter");
                same!(sorted(ks.clone().copied()), rest.iter().map(|p| p.0).collect::<Vec<_>>(), "cloned keys");
                same!(sorted(vs.clone().copied()), sorted(rest.iter().map(|p| p.1)), "cloned values");
                same!(ti.clone().count(), rest.len(), "cloned set iter");
                same!(it.map(|(a, b)| (*a, *b)).count(), n - i, "rest of iter");
                same!(hashbrown::hash_map::Iter::<u32, u32>::default().len(), 0, "default iter");
                same!(hashbrown::hash_map::IterMut::<u32, u32>::default().len(), 0, "default iter_mut");
                same!(hashbrown::hash_map::IntoIter::<u32, u32>::default().len(), 0, "default into_iter");
                same!(hashbrown::hash_map::Keys::<u32, u32>::default().len(), 0, "default keys");
                same!(hashbrown::hash_map::Values::<u32, u32>::default().len(), 0, "default values");
                same!(hashbrown::hash_set::Iter::<u32>::default().len(), 0, "default set iter");
                let mut c = 0;
                for (k, v) in &m[s] {
                    ensure!(d[s].contains(&(*k, *v)), E, "&map yields {k}, {v}");
                    c += 1;
                }
                for (k, v) in &mut m[s] {
                    ensure!(d[s].contains(&(*k, *v)), E, "&mut map yields {k}, {v}");
                    *v += 1;
                    c += 1;
                }
                for p in &mut d[s] {
                    p.1 += 1;
                }
                same!(c, 2 * n, "number of pairs in for loops");
            }
            13 => {
                type D = HashMap<u32, u32, (), (), ()>;
                type T = HashSet<u32, (), (), ()>;
                let a = D::from_iter(d[0].clone(), &mut u, &mut g).unwrap();
                let b = D::from_iter(d[1].clone(), &mut u, &mut g).unwrap();
                let eq = |x: &Pairs, y: &Pairs| x.len() == y.len() && x.iter().all(|p| y.contains(p));
                same!(a == b, eq(&d[0], &d[1]), "map equality");
                let mut c = d[s].clone();
                if !c.is_empty() {
                    let i = ctx.draw(c.len());
                    match ctx.draw(4) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i].1 += 1,
                        2 => c[i].0 = cf.universe as u32 + 1,
                        _ => c.reverse(),
                    }
                }
                let o = if s == 0 { &a } else { &b };
                let cm = D::from_iter(c.clone(), &mut u, &mut g).unwrap();
                same!(*o == cm, eq(&d[s], &c), "equality with a changed copy");
                same!(cm == *o, eq(&d[s], &c), "equality with a changed copy, reversed");
                let ks = |x: &Pairs| sorted(x.iter().map(|p| p.0));
                let ts = T::from_iter(ks(&d[s]), &mut u, &mut g).unwrap();
                let tc = T::from_iter(ks(&c), &mut u, &mut g).unwrap();
                same!(ts == tc, ks(&d[s]) == ks(&c), "set equality");
                same!(tc == ts, ks(&d[s]) == ks(&c), "set equality, reversed");
                same!(ts.is_subset(&tc, &mut u, &mut g).unwrap(), ks(&d[s]).iter().all(|k| ks(&c).contains(k)), "is_subset");
                let fs: T = T::from(o.iter().map(|(k, _)| (*k, ())).fold(HashMap::new(), |mut m: HashMap<u32, (), (), (), ()>, (k, v)| {
                    m.insert(k, v, &mut (), &mut ()).unwrap();
                    m
                }));
                same!(fs == ts, true, "set from map");
                let arr = [(k, 1), ((k + 1) % cf.universe as u32, 2), (ctx.draw(cf.universe) as u32, 3)];
                let f = D::from_ary(arr, &mut u, &mut g).unwrap();
                let mut x = vec![];
                for (k, v) in arr {
                    om_put(&mut x, k, v);
                }
                same!(sorted(f.iter().map(|(a, b)| (*a, *b))), sorted(x.iter().copied()), "from_ary");
                let f = T::from_ary(arr.map(|p| p.0), &mut u, &mut g).unwrap();
                same!(sorted(f.iter().copied()), sorted(x.iter().map(|p| p.0)), "set from_ary");
            }
            14 => {
                if p.is_some() {
                    same!(m[s][&k], d[s][p.unwrap()].1, "index by key");
                }
                same!(m[s].get_key_value(&k, &mut u, &mut g).unwrap().map(|(a, b)| (*a, *b)), p.map(|p| d[s][p]), "get_key_value");
            }
            _ => {
                let add: Pairs = (0..ctx.draw(12)).map(|i| (ctx.draw(cf.universe) as u32, nv + 100 * i as u32)).collect();
                for &(k, v) in &add {
                    om_put(&mut d[s], k, v);
                }
                t[s].extend(add.iter().map(|p| p.0), &mut u, &mut g).unwrap();
                m[s].extend(add, &mut u, &mut g).unwrap();
            }
        }
        for s in 0..2 {
            same!(m[s].len(), d[s].len(), "len");
            same!(t[s].len(), d[s].len(), "set len");
            same!(sorted(m[s].iter().map(|(a, b)| (*a, *b))), sorted(d[s].iter().copied()), "contents");
            for k in 0..cf.universe as u32 {
                let r = m[s].get(&k, &mut u, &mut g).unwrap().copied();
                same!(r, d[s].iter().find(|x| x.0 == k).map(|x| x.1), "lookup");
                same!(t[s].contains(&k, &mut u, &mut g).unwrap(), r.is_some(), "set lookup");
            }
        }
        ctx.state(mix64((op * 1000 + n) as u64));
    }
    Ok(())
}

// ---- composite keys ---------------------------------------------------------------

type Om2 = RubyMap<Option<Vec<K>>, V, Env, Glob, Raise, Bh>;
type Om3 = RubyMap<Vec<K>, V, Env, Glob, Raise, Bh>;
type Hm3 = HashMap<Vec<K>, V, Env, Glob, Raise, Bh>;

trait Comp {
    fn new() -> Self;
    fn put(&mut self, k: Vec<K>, v: V, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise>;
    fn del(&mut self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise>;
    fn look(&self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise>;
    fn list(&self) -> Vec<(Vec<u32>, u32)>;
    const ORDER: bool;
}
fn cls(k: &[K]) -> Vec<u32> {
    k.iter().map(|k| k.class()).collect()
}
impl Comp for Om3 {
    fn new() -> Self {
        Om3::with_hasher(Bh)
    }
    fn put(&mut self, k: Vec<K>, v: V, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.insert(k, v, e, g)?.map(|v| v.val()))
    }
    fn del(&mut self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.shift_remove(k, e, g)?.map(|v| v.val()))
    }
    fn look(&self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.get(k, e, g)?.map(|v| v.val()))
    }
    fn list(&self) -> Vec<(Vec<u32>, u32)> {
        self.iter().map(|(k, v)| (cls(k), v.val())).collect()
    }
    const ORDER: bool = true;
}
/// The empty key stands for the absent one.
fn opt(k: Vec<K>) -> Option<Vec<K>> {
    if k.is_empty() {
        None
    } else {
        Some(k)
    }
}
impl Comp for Om2 {
    fn new() -> Self {
        Om2::with_hasher(Bh)
    }
    fn put(&mut self, k: Vec<K>, v: V, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.insert(opt(k), v, e, g)?.map(|v| v.val()))
    }
    fn del(&mut self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        let k: Vec<K> = k.iter().map(|k| K::new(k.class())).collect();
        Ok(self.shift_remove(&opt(k), e, g)?.map(|v| v.val()))
    }
    fn look(&self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        let k: Vec<K> = k.iter().map(|k| K::new(k.class())).collect();
        Ok(self.get(&opt(k), e, g)?.map(|v| v.val()))
    }
    fn list(&self) -> Vec<(Vec<u32>, u32)> {
        self.iter().map(|(k, v)| (k.as_ref().map_or(vec![], |k| cls(k)), v.val())).collect()
    }
    const ORDER: bool = true;
}
impl Comp for Hm3 {
    fn new() -> Self {
        Hm3::with_hasher(Bh)
    }
    fn put(&mut self, k: Vec<K>, v: V, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.insert(k, v, e, g)?.map(|v| v.val()))
    }
    fn del(&mut self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        // looked up through the borrowed form
        Ok(self.remove(&k[..], e, g)?.map(|v| v.val()))
    }
    fn look(&self, k: &Vec<K>, e: &mut Env, g: &mut Glob) -> Result<Option<u32>, Raise> {
        Ok(self.get(&k[..], e, g)?.map(|v| v.val()))
    }
    fn list(&self) -> Vec<(Vec<u32>, u32)> {
        let mut l: Vec<_> = self.iter().map(|(k, v)| (cls(k), v.val())).collect();
        l.sort();
        l
    }
    const ORDER: bool = false;
}

pub fn composite_ordered(ctx: &mut Ctx, raise: bool) -> RunResult {
    if ctx.draw(2) == 0 {
        composite::<Om3>(ctx, raise)
    } else {
        composite::<Om2>(ctx, raise)
    }
}
pub fn composite_unordered(ctx: &mut Ctx, raise: bool) -> RunResult {
    composite::<Hm3>(ctx, raise)
}

fn composite<C: Comp>(ctx: &mut Ctx, raise: bool) -> RunResult {
    reset();
    pick_hash(ctx);
    if !raise {
        ctx.nontrivial();
    }
    let universe = 2 + ctx.draw(3);
    let nops = 5 + ctx.draw(60);
    ctx.set_ops(nops as u32);
    let mut m = C::new();
    let mut d: Vec<(Vec<u32>, u32)> = vec![];
    let mut nv = 0;
    let mut rid = 0;
    let (mut e, mut g) = env();
    while ctx.next_op() {
        let key: Vec<u32> = (0..ctx.draw(4)).map(|_| ctx.draw(universe) as u32).collect();
        nv += 1;
        rid += 1;
        let op = ctx.draw(5);
        let at = ctx.draw(12) as u32;
        let arm = raise && ctx.draw(3) != 0;
        ctx.log(|| format!("op {op} key {key:?} val {nv} raise {arm} at {at}; {d:?}"));
        let p = d.iter().position(|x| x.0 == key);
        let kk = || key.iter().map(|c| K::new(*c)).collect::<Vec<K>>();
        ctl().begin_op();
        let (k, v) = (kk(), V::new(nv));
        if arm {
            ctl().arm(RAISE_MASK, at, false, rid);
        }
        let exp = p.map(|p| d[p].1);
        let (r, name) = if op <= 2 {
            (m.put(k, v, &mut e, &mut g), "insert")
        } else {
            let r = if op == 3 { (m.del(&k, &mut e, &mut g), "remove") } else { (m.look(&k, &mut e, &mut g), "lookup") };
            drop((k, v));
            r
        };
        let fired = ctl().fired;
        ctl().begin_op();
        match (r, fired) {
            (Ok(x), None) => {
                same!(x, exp, name);
                match (op, p) {
                    (0..=2, Some(p)) => d[p].1 = nv,
                    (0..=2, None) => d.push((key.clone(), nv)),
                    (3, Some(p)) => {
                        d.remove(p);
                    }
                    _ => {}
                }
            }
            (Err(x), Some(cb)) => {
                ctx.fault(CB_NAMES[cb as usize]);
                ctx.nontrivial();
                ensure!(x == Raise(rid), E, "{name} returned another error than the one raised");
            }
            (Ok(_), Some(cb)) => fail!(E, "{name} swallowed the error raised by {}", CB_NAMES[cb as usize]),
            (Err(_), None) => fail!(E, "{name} failed although nothing raised"),
        }
        let mut x = d.clone();
        if !C::ORDER {
            x.sort();
        }
        same!(m.list(), x, "contents");
        for (key, v) in &d {
            let k: Vec<K> = key.iter().map(|c| K::new(*c)).collect();
            same!(m.look(&k, &mut e, &mut g), Ok(Some(*v)), "lookup of a present key");
        }
        let n: usize = d.iter().map(|x| x.0.len()).sum();
        same!(ctl().klive, n as i64, "live keys");
        same!(ctl().vlive, d.len() as i64, "live values");
        ctx.state(mix64((op * 1000 + d.len() * 10 + fired.map_or(9, |f| f as usize)) as u64));
    }
    Ok(())
}

//! Deferred deletion in ordered hashes (C03).

use crate::ctl::*;
use crate::galloc::{self, st};
use crate::omap::Ent;
use rubymap::RubyMap;
use simcore::{ensure, fail, Ctx, RunResult};

type Tm = RubyMap<Option<K>, V, Env, Glob, Raise, Bh>;
type Pm = RubyMap<K, V, Env, Glob, Raise, Bh>;

/// A traversal that walks the positions of the map.
struct Cursor {
    at: usize,
    /// Keys alive when the traversal started, in order, and not yet visited.
    todo: Vec<u32>,
    seen: Vec<u32>,
}

struct W {
    m: Option<Tm>,
    /// One slot per position; `None` is a deleted position.
    d: Vec<Option<Ent>>,
    universe: u32,
    next_val: u32,
    curs: Vec<Cursor>,
    raise_id: u64,
    fault: u32,
}

pub fn run(ctx: &mut Ctx) -> RunResult {
    reset();
    pick_hash(ctx);
    let mut universe = [4u32, 8, 9, 12, 20, 60, 200][ctx.draw(7)];
    if universe == 200 && spread() && ctx.draw(6) == 5 {
        universe = 1200;
    }
    let fault = [0u32, 3, 8][ctx.draw(3)];
    let nops = 10 + ctx.draw(150);
    let mut w = W {
        m: Some(Tm::with_hasher(Bh)),
        d: vec![],
        universe,
        next_val: 1,
        curs: vec![],
        raise_id: 1,
        fault,
    };
    ctx.log(|| format!("config universe={universe} hmode={} fault={fault}/20", ctl().hmode));
    let fill = ctx.draw(universe as usize + 1);
    for c in 0..fill {
        w.insert(ctx, c as u32)?;
    }
    let wt: Vec<u32> = (0..12).map(|_| [1u32, 0, 3, 6][ctx.draw(4)]).collect();
    let mut wt2 = wt.clone();
    wt2[0] += 1;
    ctx.set_ops(nops as u32);
    while ctx.next_op() {
        let op = ctx.weighted(&wt2);
        w.step(ctx, op)?;
        w.verify(ctx)?;
    }
    // close the window
    w.compact(ctx)?;
    w.verify(ctx)?;
    let W { m, .. } = w;
    ctl().begin_op();
    drop(m);
    galloc::flush_quarantine();
    let c = ctl();
    ensure!(c.klive == 0 && c.vlive == 0, "leak", "{} keys and {} values were never dropped", c.klive, c.vlive);
    ensure!(st().live == 0, "memory-leak", "{} blocks were never freed", st().live);
    Ok(())
}

impl W {
    fn dead(&self) -> usize {
        self.d.iter().filter(|x| x.is_none()).count()
    }
    fn pos(&self, class: u32) -> Option<usize> {
        self.d.iter().position(|x| x.is_some_and(|x| x.class == class))
    }
    fn class(&self, ctx: &mut Ctx) -> u32 {
        ctx.draw(self.universe as usize) as u32
    }
    fn arm(&mut self, ctx: &mut Ctx) -> bool {
        let c = ctl();
        c.begin_op();
        if ctx.chance(self.fault, 20) {
            self.raise_id += 1;
            let mask = [RAISE_MASK, 1 << Cb::Eql as u32, 1 << Cb::Hash as u32][ctx.draw(3)];
            c.arm(mask, ctx.draw(4) as u32, false, self.raise_id);
            return true;
        }
        false
    }

    /// Runs one call; Ok(None) means it raised and nothing may have changed.
    fn op<T>(
        &mut self,
        ctx: &mut Ctx,
        name: &str,
        f: impl FnOnce(&mut Tm, &mut Env, &mut Glob) -> Result<T, Raise>,
    ) -> Result<Option<T>, simcore::Violation> {
        self.arm(ctx);
        let (mut e, mut g) = env();
        let m = self.m.as_mut().unwrap();
        let r = call(|| f(m, &mut e, &mut g));
        let c = ctl();
        let (fired, after) = (c.fired, c.after_fire);
        c.begin_op();
        match r {
            Call::Ret(Ok(v)) => {
                if let Some(k) = fired {
                    fail!("raise-swallowed", "{name}: {} raised but the call returned normally", CB_NAMES[k as usize]);
                }
                Ok(Some(v))
            }
            Call::Ret(Err(r)) => {
                let Some(k) = fired else {
                    fail!("error-invented", "{name}: error without a raising callback");
                };
                ctx.fault(CB_NAMES[k as usize]);
                ctx.log(|| format!("  -> raised from {}", CB_NAMES[k as usize]));
                ensure!(r.0 == self.raise_id, "wrong-error", "{name}: another error was returned");
                ensure!(after == 0, "callback-after-raise", "{name}: key callbacks ran after the raise");
                Ok(None)
            }
            Call::Other(p) => fail!("panic", "{name}: unexpected panic: {p}"),
            _ => unreachable!(),
        }
    }

    fn insert(&mut self, ctx: &mut Ctx, class: u32) -> RunResult {
        self.next_val += 1;
        let (k, val) = (K::new(class), self.next_val);
        let kid = k.id();
        let how = ctx.draw(3);
        let p = self.pos(class);
        let len = self.d.len();
        ctx.log(|| format!("insert({class},{val}) kind {how}"));
        let old = self.op(ctx, "insert", move |m, e, g| {
            let v = V::new(val);
            Ok(match how {
                0 => (None, m.insert(Some(k), v, e, g)?.map(|v| v.val())),
                1 => {
                    let (i, v) = m.insert_full(Some(k), v, e, g)?;
                    (Some(i), v.map(|v| v.val()))
                }
                _ => {
                    let en = m.entry(Some(k), e, g)?;
                    let i = en.index();
                    match en {
                        rubymap::map::Entry::Occupied(mut o) => (Some(i), Some(o.insert(v).val())),
                        rubymap::map::Entry::Vacant(x) => {
                            x.insert(v);
                            (Some(i), None)
                        }
                    }
                }
            })
        })?;
        let Some((i, old)) = old else { return Ok(()) };
        ensure!(
            old == p.map(|p| self.d[p].unwrap().val),
            "wrong-result",
            "insert of {class} returned {old:?}"
        );
        if let Some(i) = i {
            ensure!(i == p.unwrap_or(len), "wrong-result", "insert of {class} reports position {i} instead of {:?}", p.unwrap_or(len));
        }
        match p {
            Some(p) => self.d[p].as_mut().unwrap().val = val,
            None => self.d.push(Some(Ent { class, kid, val })),
        }
        Ok(())
    }

    fn compact(&mut self, ctx: &mut Ctx) -> RunResult {
        ctx.log(|| "compact".to_string());
        if self.dead() > 0 {
            ctx.probe("compaction with deleted entries");
            ctx.nontrivial();
        }
        // traversals end before the window closes
        self.finish_cursors(ctx)?;
        self.op(ctx, "compact", |m, _, _| {
            m.compact_tombstones(|k| k.is_none());
            Ok(())
        })?;
        self.d.retain(|x| x.is_some());
        Ok(())
    }

    fn finish_cursors(&mut self, ctx: &mut Ctx) -> RunResult {
        while let Some(i) = self.curs.len().checked_sub(1) {
            while self.advance(ctx, i)? {}
            self.curs.remove(i);
        }
        Ok(())
    }

    /// One step of a traversal. False when it is over.
    fn advance(&mut self, ctx: &mut Ctx, i: usize) -> Result<bool, simcore::Violation> {
        let m = self.m.as_ref().unwrap();
        loop {
            let at = self.curs[i].at;
            let Some((k, v)) = m.get_index(at) else {
                let missed: Vec<u32> = self.curs[i].todo.iter().copied().filter(|c| self.pos(*c).is_some()).collect();
                ensure!(missed.is_empty(), "traversal-missed", "a traversal ended without visiting {missed:?}");
                ctx.probe("traversal completed");
                return Ok(false);
            };
            self.curs[i].at += 1;
            let Some(k) = k else { continue };
            let c = k.class();
            ensure!(
                self.d[at].is_some_and(|x| x.kid == k.id() && x.val == v.val()),
                "position-moved",
                "position {at} holds key {c}, the model has {:?}",
                self.d[at]
            );
            ensure!(!self.curs[i].seen.contains(&c), "traversal-repeated", "a traversal visited key {c} twice");
            let cu = &mut self.curs[i];
            cu.seen.push(c);
            cu.todo.retain(|x| *x != c);
            ctx.log(|| format!("traversal {i} visits {c} at {at}"));
            return Ok(true);
        }
    }

    fn step(&mut self, ctx: &mut Ctx, op: usize) -> RunResult {
        let live: Vec<usize> = (0..self.d.len()).filter(|i| self.d[*i].is_some()).collect();
        ctx.state(simcore::mix64((op as u64) << 32 | (self.d.len() as u64) << 16 | self.dead() as u64) ^ self.curs.len() as u64);
        match op {
            // delete by key
            0 | 1 => {
                let class = if !live.is_empty() && ctx.draw(4) > 0 {
                    self.d[live[ctx.draw(live.len())]].unwrap().class
                } else {
                    self.class(ctx)
                };
                let p = self.pos(class);
                ctx.log(|| format!("delete({class})"));
                let q = Some(K::new(class));
                let r = self.op(ctx, "delete", move |m, e, g| {
                    let r = m.tombstone_remove(&q, None, V::new(0), e, g)?;
                    Ok(r.map(|(i, k, v)| (i, k.as_ref().map(|k| k.id()), v.val())))
                })?;
                let Some(r) = r else { return Ok(()) };
                let want = p.map(|i| (i, Some(self.d[i].unwrap().kid), self.d[i].unwrap().val));
                ensure!(r == want, "wrong-result", "deferred delete of {class} gave {r:?} instead of {want:?}");
                if let Some(p) = p {
                    self.d[p] = None;
                    ctx.nontrivial();
                    ctx.probe("deferred deletion");
                }
            }
            // delete by position
            2 if !live.is_empty() => {
                let i = if ctx.draw(2) == 0 { live[0] } else { live[ctx.draw(live.len())] };
                ctx.log(|| format!("delete_at({i})"));
                let r = self.op(ctx, "delete_at", move |m, e, g| {
                    let r = m.tombstone_index(i, None, V::new(0), e, g)?;
                    Ok(r.map(|(k, v)| (k.map(|k| k.id()), v.val())))
                })?;
                let Some(r) = r else { return Ok(()) };
                let x = self.d[i].unwrap();
                ensure!(r == Some((Some(x.kid), x.val)), "wrong-result", "deferred delete at {i} gave {r:?}");
                self.d[i] = None;
                ctx.nontrivial();
                ctx.probe("deferred deletion by position");
            }
            // out of range
            2 => {
                let i = self.d.len() + ctx.draw(3);
                let r = self.op(ctx, "delete_at", move |m, e, g| Ok(m.tombstone_index(i, None, V::new(0), e, g)?.is_none()))?;
                ensure!(r != Some(false), "wrong-result", "deferred delete at {i}, past the end, removed something");
            }
            // store: new keys only while nothing is deleted
            3 | 4 => {
                let class = if self.dead() > 0 || !self.curs.is_empty() {
                    if live.is_empty() {
                        return Ok(());
                    }
                    self.d[live[ctx.draw(live.len())]].unwrap().class
                } else {
                    self.class(ctx)
                };
                self.insert(ctx, class)?;
            }
            // lookup and update
            5 => {
                let class = self.class(ctx);
                let p = self.pos(class);
                self.next_val += 1;
                let nv = self.next_val;
                ctx.log(|| format!("update({class},{nv})"));
                let q = Some(K::new(class));
                let r = self.op(ctx, "update", move |m, e, g| {
                    Ok(m.get_full_mut(&q, e, g)?.map(|(i, _, v)| {
                        let old = v.val();
                        v.set(nv);
                        (i, old)
                    }))
                })?;
                let Some(r) = r else { return Ok(()) };
                let want = p.map(|i| (i, self.d[i].unwrap().val));
                ensure!(r == want, "wrong-lookup", "lookup of {class} gave {r:?} instead of {want:?}");
                if let Some(p) = p {
                    self.d[p].as_mut().unwrap().val = nv;
                }
            }
            // traversals
            6 => {
                if self.curs.len() < 3 {
                    let todo = live.iter().map(|i| self.d[*i].unwrap().class).collect();
                    ctx.log(|| "start traversal".to_string());
                    self.curs.push(Cursor {
                        at: 0,
                        todo,
                        seen: vec![],
                    });
                }
            }
            7 | 8 => {
                if !self.curs.is_empty() {
                    let i = ctx.draw(self.curs.len());
                    if !self.advance(ctx, i)? {
                        self.curs.remove(i);
                    }
                }
            }
            9 => self.compact(ctx)?,
            // re-key: unwrap and wrap again
            10 => {
                if self.dead() == 0 {
                    ctx.log(|| "rekey".to_string());
                    ctl().begin_op();
                    let m = self.m.take().unwrap();
                    let mut visited = vec![];
                    let vs = &mut visited;
                    let r = call(move || {
                        let p: Pm = m.map_keys(|k| {
                            let k = k.expect("live key");
                            let _t = galloc::Track::off();
                            vs.push(k.id());
                            k
                        });
                        let back: Tm = p.map_keys(Some);
                        back
                    });
                    match r {
                        Call::Ret(m) => self.m = Some(m),
                        Call::Other(p) => fail!("panic", "re-keying panicked: {p}"),
                        _ => unreachable!(),
                    }
                    let want: Vec<u32> = self.d.iter().map(|x| x.unwrap().kid).collect();
                    ensure!(visited == want, "rekey-visits", "re-keying visited {visited:?} instead of {want:?}");
                    ctx.probe("re-keyed");
                }
            }
            // ordinary removal between windows
            _ => {
                if self.dead() == 0 && self.curs.is_empty() && !live.is_empty() {
                    let i = ctx.draw(live.len());
                    let class = self.d[i].unwrap().class;
                    ctx.log(|| format!("shift_remove({class})"));
                    let q = Some(K::new(class));
                    let r = self.op(ctx, "shift_remove", move |m, e, g| Ok(m.shift_remove(&q, e, g)?.map(|v| v.val())))?;
                    let Some(r) = r else { return Ok(()) };
                    ensure!(r == Some(self.d[i].unwrap().val), "wrong-result", "removal of {class} gave {r:?}");
                    self.d.remove(i);
                }
            }
        }
        Ok(())
    }

    fn verify(&mut self, ctx: &mut Ctx) -> RunResult {
        ctl().begin_op();
        let m = self.m.as_ref().unwrap();
        ensure!(m.len() == self.d.len(), "wrong-length", "{} positions instead of {}", m.len(), self.d.len());
        for (i, ((k, v), x)) in m.iter().zip(&self.d).enumerate() {
            let got = k.as_ref().map(|k| (k.class(), k.id(), v.val()));
            let want = x.map(|x| (x.class, x.kid, x.val));
            ensure!(got == want, "position-moved", "position {i} holds {got:?} instead of {want:?}");
        }
        let (mut e, mut g) = env();
        let stepc = if self.universe > 40 { 5 } else { 1 };
        for c in (0..self.universe).step_by(stepc) {
            let q = Some(K::new(c));
            let want = self.pos(c);
            match call(|| m.get_index_of(&q, &mut e, &mut g)) {
                Call::Ret(Ok(got)) => ensure!(got == want, "wrong-lookup", "key {c} found at {got:?} instead of {want:?}"),
                Call::Ret(Err(_)) => fail!("error-invented", "lookup of {c} failed"),
                Call::Other(p) => fail!("panic-in-lookup", "lookup of {c} panicked: {p}"),
                _ => unreachable!(),
            }
        }
        let live = self.d.iter().filter(|x| x.is_some()).count() as i64;
        let cl = ctl();
        ensure!(
            cl.klive == live && cl.vlive == self.d.len() as i64,
            "ownership",
            "{} keys and {} values alive, {live} pairs in {} positions",
            cl.klive,
            cl.vlive,
            self.d.len()
        );
        ctx.mix(live as u64);
        Ok(())
    }
}

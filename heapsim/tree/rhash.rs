//! C30: Ruby hashes against an insertion-ordered model.
//!
//! Blocks, user-defined key methods and default procs are the points where
//! other code runs in the middle of an operation: there the simulator may
//! collect garbage, raise, or work on any hash, the one being processed
//! included.
use crate::alloc::{self, ALLOC};
use crate::natives as n;
use crate::*;
use simcore::{Ctx, Violation};

fn fatal(class: &'static str, msg: String) -> ! {
    simcore::violate(class, msg)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Val {
    Nil,
    Int(i64),
    /// A string made for one store.
    Str(u32, u64),
    /// An object of the pool.
    Pool(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Key {
    cls: u32,
    id: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Default {
    None,
    Val(Val),
    Proc,
}

#[derive(Clone, Debug)]
struct Model {
    pairs: Vec<(Key, Val)>,
    ident: bool,
    default: Default,
    /// Guarded iterations under way.
    depth: u32,
    frozen: bool,
    /// Counts changes.
    ver: u64,
    /// Keys removed, for iterations to look up.
    gone: Vec<u64>,
}

impl Model {
    fn new() -> Self {
        Model { pairs: vec![], ident: false, default: Default::None, depth: 0, frozen: false, ver: 0, gone: vec![] }
    }
    fn find(&self, k: Key) -> Option<usize> {
        self.pairs.iter().position(|p| if self.ident { p.0.id == k.id } else { p.0.cls == k.cls })
    }
    fn same(&self, a: Key, b: Key) -> bool {
        if self.ident { a.id == b.id } else { a.cls == b.cls }
    }
}

struct PoolKey {
    v: Value,
    cls: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Each,
    Retain,
    Soft,
    Merge,
    Missing,
}

struct It {
    slot: usize,
    kind: Kind,
    start: Vec<(Key, Val)>,
    pos: usize,
    seen: Vec<u64>,
    gone0: usize,
    /// Given pairs and what the block answered.
    out: Vec<(Value, Value, bool)>,
    answer: Value,
    /// Values a merge block answered with; one that was merged over may
    /// be gone.
    given: Vec<Val>,
}

struct Sim<'a> {
    c: &'a mut Ctx,
    slots: Vec<Value>,
    m: Vec<Model>,
    pool: Vec<PoolKey>,
    its: Vec<It>,
    g: Globals,
    stamp: u32,
    /// No faults while the oracle itself asks.
    quiet: u32,
    depth: u32,
    budget: u32,
    raise: u32,
    gc: u32,
    reenter: u32,
    group_hash: i64,
    procs: Value,
    w: Vec<u32>,
    wide: usize,
    probing: Vec<usize>,
}

struct Roots<'a, 'b>(&'a Sim<'b>, &'a Executor);
impl GC<RValue> for Roots<'_, '_> {
    fn mark(&self, a: &mut Allocator<RValue>) {
        for v in &self.0.slots {
            v.mark(a);
        }
        for k in &self.0.pool {
            k.v.mark(a);
        }
        for it in &self.0.its {
            it.answer.mark(a);
        }
        self.0.procs.mark(a);
        self.1.mark(a);
    }
}
impl GCRoot<RValue> for Roots<'_, '_> {}

const RAISED: &str = "Injected";

impl Sim<'_> {
    fn collect(&mut self, vm: &mut Executor) {
        let major = self.c.chance(1, 4);
        alloc::request_gc(major);
        self.c.fault("collection inside a callback");
        self.c.log(|| format!("    gc{}", if major { " (full)" } else { "" }));
        ALLOC.with(|a| a.borrow_mut().gc(&Roots(self, vm)));
    }

    fn make_val(&mut self) -> (Val, Value) {
        match self.c.draw(8) {
            0 => (Val::Nil, Value::nil()),
            1 | 2 => {
                let i = self.c.draw(4) as i64;
                (Val::Int(i), Value::integer(i))
            }
            3 | 4 => {
                self.stamp += 1;
                let s = self.stamp;
                (Val::Int(1000 + s as i64), Value::integer(1000 + s as i64))
            }
            5 => {
                let i = self.c.draw(self.pool.len());
                (Val::Pool(i), self.pool[i].v)
            }
            _ => {
                self.stamp += 1;
                let s = self.stamp;
                let v = Value::string_from_str(&format!("v{s}"));
                (Val::Str(s, v.id()), v)
            }
        }
    }

    fn is_val(&self, v: Value, m: Val) -> bool {
        match m {
            Val::Nil => v.is_nil(),
            Val::Int(i) => v.try_fixnum() == Some(i),
            Val::Pool(i) => v == self.pool[i].v,
            Val::Str(s, id) => {
                v.id() == id && {
                    let r = v.rvalue();
                    if !r.sim_live() {
                        fatal("freed", format!("value v{s} was reclaimed while a hash holds it"));
                    }
                    v.is_rstring_inner().is_some_and(|x| x.0.bytes == format!("v{s}").as_bytes())
                }
            }
        }
    }
    fn val(&self, m: Val) -> Value {
        match m {
            Val::Nil => Value::nil(),
            Val::Int(i) => Value::integer(i),
            Val::Pool(i) => self.pool[i].v,
            Val::Str(_, id) => Value::from_u64(id),
        }
    }

    /// Equality class of a value, for `==` and `eql?`.
    fn val_class(&self, m: Val) -> (u8, u64) {
        match m {
            Val::Nil => (0, 0),
            Val::Int(i) => {
                // an integer value may equal an integer key of the pool
                match self.pool.iter().find(|p| p.v.try_fixnum() == Some(i)) {
                    Some(p) => (1, p.cls as u64),
                    None => (2, i as u64),
                }
            }
            Val::Str(s, _) => (3, s as u64),
            Val::Pool(i) => (1, self.pool[i].cls as u64),
        }
    }
    fn val_eq(&self, a: Val, b: Val) -> bool {
        self.val_class(a) == self.val_class(b)
    }
    fn key_val_eq(&self, k: Key, v: Val) -> bool {
        self.val_class(v) == (1, k.cls as u64)
    }

    fn key(&self, i: usize) -> Key {
        Key { cls: self.pool[i].cls, id: self.pool[i].v.id() }
    }
    fn pick_key(&mut self) -> usize {
        self.c.draw(self.wide.min(self.pool.len()))
    }
    /// A key that is likely present.
    fn pick_present(&mut self, s: usize) -> usize {
        let ids: Vec<u32> = self.m[s].pairs.iter().map(|p| p.0.cls).collect();
        if ids.is_empty() || self.c.chance(1, 3) {
            return self.pick_key();
        }
        let cls = ids[self.c.draw(ids.len())];
        let of: Vec<usize> = (0..self.pool.len()).filter(|i| self.pool[*i].cls == cls).collect();
        of[self.c.draw(of.len())]
    }

    fn cls_of(&self, v: Value) -> Option<u32> {
        if let Some(p) = self.pool.iter().find(|p| p.v == v) {
            return Some(p.cls);
        }
        let s = v.is_rstring_inner()?;
        self.pool.iter().find(|p| p.v.is_rstring_inner().is_some_and(|x| x == s)).map(|p| p.cls)
    }

    /// The native methods run in a frame whose values are roots.
    fn call(
        &mut self,
        vm: &mut Executor,
        f: fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>,
        slot: Value,
        args: &[Value],
        block: Option<u32>,
    ) -> Result<Value> {
        let fr = Frame { slf: slot, args: args.iter().map(|a| Some(*a)).collect(), block: block.map(BlockHandler) };
        vm.frames.push(&fr);
        let (t, a) = (vm.temp.len(), vm.args.len());
        let mut g = Globals { store: Store };
        let r = f(vm, &mut g, Lfp::of(&fr), BytecodePtr);
        vm.frames.pop();
        if vm.temp.len() != t || vm.args.len() != a {
            fatal("roots", "a native method left values on the temporary stack".to_string());
        }
        r
    }

    /// Contents, order and lookups of one hash.
    fn check(&mut self, vm: &mut Executor, s: usize, what: &str) {
        self.quiet += 1;
        let v = self.slots[s];
        if !v.rvalue().sim_live() {
            fatal("freed", format!("{what}: hash {s} was reclaimed"));
        }
        let h = v.as_hash();
        let m = self.m[s].clone();
        if h.len() != m.pairs.len() {
            fatal("contents", format!("{what}: hash {s} has {} pairs, model {}", h.len(), m.pairs.len()));
        }
        if h.is_compare_by_identity() != m.ident {
            fatal("identity", format!("{what}: hash {s} identity mode {}", h.is_compare_by_identity()));
        }
        let got: Vec<(Value, Value)> = h.iter().collect();
        if got.len() != m.pairs.len() {
            fatal("contents", format!("{what}: hash {s} lists {} pairs, model {}", got.len(), m.pairs.len()));
        }
        for (i, ((k, x), (mk, mx))) in got.iter().zip(&m.pairs).enumerate() {
            if k.id() != mk.id {
                fatal("order", format!("{what}: hash {s} pair {i} has another key"));
            }
            if let Some(r) = k.try_rvalue()
                && !r.sim_live()
            {
                fatal("freed", format!("{what}: key {i} of hash {s} was reclaimed"));
            }
            if !self.is_val(*x, *mx) {
                fatal("contents", format!("{what}: hash {s} pair {i} has another value, not {mx:?}"));
            }
        }
        // lookups
        for i in 0..self.pool.len().min(self.wide + 4) {
            let k = self.key(i);
            let want = m.find(k).map(|j| m.pairs[j].1);
            let got = h.get(self.pool[i].v, vm, &mut self.g).unwrap();
            match (got, want) {
                (None, None) => {}
                (Some(a), Some(b)) if self.is_val(a, b) => {}
                _ => fatal("lookup", format!("{what}: hash {s} lookup of key {i} (class {}) gives {got:?}, model {want:?}", k.cls)),
            }
        }
        for (k, x) in &m.pairs {
            let got = h.get(Value::from_u64(k.id), vm, &mut self.g).unwrap();
            if !got.is_some_and(|g| self.is_val(g, *x)) {
                fatal("lookup", format!("{what}: hash {s} does not find its own key of class {}", k.cls));
            }
        }
        // positions
        let live = (0..h.entry_count()).filter(|i| h.live_at(*i)).count();
        if live != m.pairs.len() || (m.depth == 0 && h.entry_count() < m.pairs.len()) {
            fatal("positions", format!("{what}: hash {s} has {live} live positions of {}", h.entry_count()));
        }
        let d = match m.default {
            Default::Val(x) => Some(x),
            _ => None,
        };
        let got = h.defalut_value();
        match (got, d) {
            (None, None) => {}
            (Some(a), Some(b)) if self.is_val(a, b) => {}
            (None, Some(Val::Nil)) => {}
            (Some(a), None) if a.is_nil() => {}
            _ => fatal("default", format!("{what}: hash {s} default {got:?}, model {d:?}")),
        }
        self.quiet -= 1;
        let form = (h.entry_count() as u64) << 1 | (v.rvalue().ty_flags() & 7 == 7) as u64;
        let d = match m.default {
            Default::None => 0,
            Default::Val(_) => 1,
            Default::Proc => 2,
        };
        let old = v.rvalue().is_old() as u64;
        let its = self.its.iter().fold(0u64, |a, i| a * 8 + 1 + i.kind as u64);
        self.c.state(simcore::mix64(its << 40 | (m.pairs.len() as u64) << 24 | form << 12 | (m.depth as u64) << 5 | d << 3 | old << 2 | (m.ident as u64) << 1 | m.frozen as u64));
    }

    fn changed(&mut self, s: usize) {
        self.m[s].ver += 1;
    }

    /// Expected outcome of an attempt to change a hash.
    fn locked(&self, s: usize) -> Option<&'static str> {
        self.m[s].frozen.then_some("FrozenError")
    }

    fn raised(&self, e: &MonorubyErr) -> bool {
        e.class == RAISED
    }

    fn put(&mut self, s: usize, k: Key, x: Val) {
        match self.m[s].find(k) {
            Some(i) => self.m[s].pairs[i].1 = x,
            None => self.m[s].pairs.push((k, x)),
        }
        self.changed(s);
    }
    fn del(&mut self, s: usize, i: usize) -> (Key, Val) {
        let p = self.m[s].pairs.remove(i);
        self.m[s].gone.push(p.0.id);
        self.changed(s);
        p
    }

    fn store(&mut self, vm: &mut Executor, s: usize) {
        let i = self.pick_key();
        let (x, xv) = self.make_val();
        let k = self.key(i);
        self.c.log(|| format!("h{s}[k{i} class {}] = {x:?}", k.cls));
        let new = self.m[s].find(k).is_none();
        self.probing.push(s);
        let r = self.call(vm, n::index_assign, self.slots[s], &[self.pool[i].v, xv], None);
        self.probing.pop();
        match r {
            Ok(_) => {
                if self.locked(s).is_some() {
                    fatal("frozen", format!("store into frozen hash {s} accepted"));
                }
                if new && self.m[s].depth > 0 {
                    fatal("guard", format!("a new key was added to hash {s} during iteration"));
                }
                let mut k = k;
                if new {
                    let (last, _) = self.slots[s].as_hash().iter().last().unwrap_or((Value::nil(), Value::nil()));
                    let pv = self.pool[i].v;
                    if last != pv {
                        let copy = !self.m[s].ident && !pv.is_frozen() && pv.ty() == Some(ObjTy::STRING);
                        if !copy || last.is_rstring_inner() != pv.is_rstring_inner() || !last.is_frozen() {
                            fatal("key", format!("hash {s} stored another key than k{i}"));
                        }
                        k.id = last.id();
                    }
                }
                self.put(s, k, x);
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => {
                let want = self.locked(s).unwrap_or(if new && self.m[s].depth > 0 { "RuntimeError" } else { "none" });
                if e.class != want {
                    fatal("error", format!("store into hash {s} raised {}, expected {want}", e.class));
                }
            }
        }
    }

    fn delete(&mut self, vm: &mut Executor, s: usize) {
        let i = self.pick_present(s);
        let k = self.key(i);
        self.c.log(|| format!("h{s}.delete k{i} class {}", k.cls));
        let at = self.m[s].find(k);
        let blk = self.c.chance(1, 3);
        if blk {
            self.start(s, Kind::Missing);
        }
        self.probing.push(s);
        let id = self.its.len() as u32;
        // values are compared before anything can reuse their memory
        let before = at.map(|j| self.m[s].pairs[j].1);
        let r = self.call(vm, n::delete, self.slots[s], &[self.pool[i].v], blk.then_some(id));
        self.probing.pop();
        let it = if blk { self.its.pop() } else { None };
        match r {
            Ok(v) => {
                if self.locked(s).is_some() {
                    fatal("frozen", format!("delete from frozen hash {s} accepted"));
                }
                match (at, it) {
                    (Some(j), it) => {
                        if it.is_some_and(|it| it.pos > 0) {
                            fatal("block", "delete of a present key called its block".to_string());
                        }
                        if !self.is_val(v, before.unwrap()) {
                            fatal("result", format!("delete from hash {s} returned another value"));
                        }
                        self.del(s, j);
                    }
                    (None, Some(it)) => {
                        if it.pos != 1 {
                            fatal("block", format!("delete of a missing key called its block {} times", it.pos));
                        }
                    }
                    (None, None) => {
                        if !v.is_nil() {
                            fatal("result", format!("delete of a missing key from hash {s} returned a value"));
                        }
                    }
                }
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => {
                if Some(&e.class[..]) != self.locked(s) {
                    fatal("error", format!("delete from hash {s} raised {}", e.class));
                }
            }
        }
    }

    fn shift(&mut self, vm: &mut Executor, s: usize) {
        self.c.log(|| format!("h{s}.shift"));
        let first = self.m[s].pairs.first().copied();
        self.probing.push(s);
        let r = self.call(vm, n::shift, self.slots[s], &[], None);
        self.probing.pop();
        match r {
            Ok(v) => {
                if self.locked(s).is_some() {
                    fatal("frozen", format!("shift of frozen hash {s} accepted"));
                }
                match first {
                    None if v.is_nil() => {}
                    Some((k, x)) if v.try_array_ty().is_some_and(|a| a.len() == 2 && a[0].id() == k.id && self.is_val(a[1], x)) => {
                        self.del(s, 0);
                    }
                    _ => fatal("result", format!("shift of hash {s} returned {v:?}, first pair {first:?}")),
                }
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => {
                if Some(&e.class[..]) != self.locked(s) {
                    fatal("error", format!("shift of hash {s} raised {}", e.class));
                }
            }
        }
    }

    /// clear, compare_by_identity and replace: refused during iteration.
    fn whole(&mut self, vm: &mut Executor, s: usize) {
        let what = self.c.draw(3);
        let o = self.c.draw(self.slots.len());
        if what == 1 && self.m[s].pairs.is_empty() && !self.m[s].frozen && self.c.chance(1, 2) {
            let to = self.c.chance(1, 2);
            self.c.log(|| format!("h{s} made an identity hash: {to}"));
            let r = self.slots[s].as_hash().set_compare_by_identity_empty(to);
            if r.is_ok() == (self.m[s].depth > 0) {
                fatal("guard", format!("change of mode of empty hash {s} under {} iterations: {r:?}", self.m[s].depth));
            }
            if r.is_ok() {
                self.m[s].ident = to;
                self.changed(s);
            }
            return;
        }
        let slot = self.slots[s];
        let r = match what {
            0 => {
                self.c.log(|| format!("h{s}.clear"));
                self.call(vm, n::clear, slot, &[], None)
            }
            1 => {
                self.c.log(|| format!("h{s}.compare_by_identity"));
                self.call(vm, n::compare_by_identity, slot, &[], None)
            }
            _ => {
                self.c.log(|| format!("h{s}.replace h{o}"));
                let other = self.slots[o];
                self.call(vm, n::replace, slot, &[other], None)
            }
        };
        match r {
            Ok(v) => {
                if v != slot {
                    fatal("result", "the receiver was not returned".to_string());
                }
                if self.locked(s).is_some() {
                    fatal("frozen", format!("change of frozen hash {s} accepted"));
                }
                if self.m[s].depth > 0 && !(what == 1 && self.m[s].ident) && !(what == 0 && self.m[s].pairs.is_empty()) {
                    fatal("guard", format!("hash {s} was cleared or replaced during iteration"));
                }
                match what {
                    0 => {
                        while !self.m[s].pairs.is_empty() {
                            self.del(s, 0);
                        }
                    }
                    1 => self.m[s].ident = true,
                    _ => {
                        let (p, i, d) = (self.m[o].pairs.clone(), self.m[o].ident, self.m[o].default);
                        let gone: Vec<u64> = self.m[s].pairs.iter().map(|p| p.0.id).collect();
                        self.m[s].gone.extend(gone);
                        self.m[s].pairs = p;
                        self.m[s].ident = i;
                        self.m[s].default = d;
                    }
                }
                self.changed(s);
            }
            Err(e) => {
                let want = self.locked(s).unwrap_or(if self.m[s].depth > 0 { "RuntimeError" } else { "none" });
                if e.class != want {
                    fatal("error", format!("change of hash {s} raised {}, expected {want}", e.class));
                }
            }
        }
    }

    fn start(&mut self, s: usize, kind: Kind) {
        self.its.push(It {
            slot: s,
            kind,
            start: self.m[s].pairs.clone(),
            pos: 0,
            seen: vec![],
            gone0: self.m[s].gone.len(),
            out: vec![],
            answer: Value::nil(),
            given: vec![],
        });
    }

    /// The pair given to a block must be the next remaining one.
    fn visited(&mut self, k: Value, v: Value) {
        let it = self.its.last().unwrap();
        let (s, kind) = (it.slot, it.kind);
        let m = &self.m[s];
        if kind == Kind::Soft {
            // a copy of the pairs may be walked
            let known = it.start.iter().any(|p| p.0.id == k.id()) || m.pairs.iter().any(|p| p.0.id == k.id());
            if !known {
                fatal("iteration", format!("a pair not in hash {s} was visited"));
            }
            if it.seen.contains(&k.id()) && !m.gone[it.gone0..].contains(&k.id()) {
                fatal("iteration", format!("a pair of hash {s} was visited twice"));
            }
            for x in [k, v] {
                if let Some(r) = x.try_rvalue()
                    && !r.sim_live()
                {
                    fatal("freed", format!("a block was given a reclaimed object of hash {s}"));
                }
            }
            let ok = m.pairs.iter().chain(&it.start).any(|p| p.0.id == k.id() && self.is_val(v, p.1));
            if !ok && !m.gone[it.gone0..].contains(&k.id()) {
                fatal("iteration", format!("a pair of hash {s} was visited with another value"));
            }
            self.its.last_mut().unwrap().seen.push(k.id());
            return;
        }
        let mut p = it.pos;
        while p < it.start.len() && !m.pairs.iter().any(|x| x.0.id == it.start[p].0.id) {
            p += 1;
        }
        if p == it.start.len() {
            fatal("iteration", format!("hash {s}: a block call after the last remaining pair"));
        }
        let want = it.start[p].0.id;
        if k.id() != want {
            let i = it.start.iter().position(|x| x.0.id == k.id());
            fatal("iteration", format!("hash {s}: pair {p} should be visited next, not {i:?}"));
        }
        let x = m.pairs.iter().find(|x| x.0.id == want).unwrap().1;
        if !self.is_val(v, x) {
            fatal("iteration", format!("hash {s}: pair {p} visited with another value than {x:?}"));
        }
        self.its.last_mut().unwrap().pos = p + 1;
    }

    fn finished(&self, it: &It) {
        let m = &self.m[it.slot];
        if it.kind == Kind::Soft {
            for p in &it.start {
                if !it.seen.contains(&p.0.id) && !m.gone[it.gone0..].contains(&p.0.id) {
                    fatal("iteration", format!("a pair of hash {} was not visited", it.slot));
                }
            }
            return;
        }
        for p in &it.start[it.pos..] {
            if m.pairs.iter().any(|x| x.0.id == p.0.id) {
                fatal("iteration", format!("a remaining pair of hash {} was not visited", it.slot));
            }
        }
    }

    /// The loop of the Ruby-level `each`.
    fn each(&mut self, vm: &mut Executor, s: usize) {
        self.c.log(|| format!("h{s}.each do"));
        let h = self.slots[s];
        let guard = self.call(vm, n::iter_begin, h, &[], None).unwrap();
        self.start(s, Kind::Each);
        self.m[s].depth += 1;
        self.c.probe(match self.m[s].depth {
            1 => "iteration",
            2..=3 => "nested iteration",
            _ => "deeply nested iteration",
        });
        let id = self.its.len() as u32;
        let mut i = 0;
        let mut err = None;
        loop {
            let cnt = self.call(vm, n::entry_count, h, &[], None).unwrap().try_fixnum().unwrap();
            if i >= cnt {
                break;
            }
            if self.call(vm, n::live_at, h, &[Value::integer(i)], None).unwrap().as_bool() {
                let k = self.call(vm, n::key_at, h, &[Value::integer(i)], None).unwrap();
                let v = self.call(vm, n::value_at, h, &[Value::integer(i)], None).unwrap();
                let mut g = Globals { store: Store };
                if let Err(e) = vm.invoke_block(&mut g, &BlockHandler(id), &[k, v]) {
                    err = Some(e);
                    break;
                }
                if self.c.draw(10) == 9 && !self.m[s].frozen {
                    // transform_values!
                    if let Some(j) = self.m[s].pairs.iter().position(|p| p.0.id == k.id())
                        && self.call(vm, n::live_at, h, &[Value::integer(i)], None).unwrap().as_bool()
                    {
                        let (x, xv) = self.make_val();
                        self.c.log(|| format!("h{s} value at {i} = {x:?}"));
                        self.call(vm, n::set_value_at, h, &[Value::integer(i), xv], None).unwrap();
                        self.m[s].pairs[j].1 = x;
                        self.changed(s);
                    }
                }
            }
            i += 1;
        }
        let it = self.its.pop().unwrap();
        self.call(vm, n::iter_end, h, &[guard], None).unwrap();
        self.m[s].depth -= 1;
        match err {
            None => self.finished(&it),
            Some(e) => {
                if e.class != RAISED {
                    fatal("error", format!("iteration raised {}", e.class));
                }
            }
        }
        self.c.log(|| format!("h{s} end"));
    }

    /// select!, keep_if, delete_if, reject!
    fn retain(&mut self, vm: &mut Executor, s: usize) {
        let which = self.c.draw(4);
        let f = [n::select_, n::keep_if, n::delete_if, n::reject_][which];
        self.c.log(|| format!("h{s}.{} do", ["select!", "keep_if", "delete_if", "reject!"][which]));
        self.start(s, Kind::Retain);
        let id = self.its.len() as u32;
        self.m[s].depth += 1;
        let r = self.call(vm, f, self.slots[s], &[], Some(id));
        self.m[s].depth -= 1;
        let it = self.its.pop().unwrap();
        let remove: Vec<u64> = it.out.iter().filter(|o| o.2 == (which >= 2)).map(|o| o.0.id()).collect();
        let rm: Vec<usize> = (0..self.m[s].pairs.len()).filter(|i| remove.contains(&self.m[s].pairs[*i].0.id) && it.start.iter().any(|p| p.0.id == self.m[s].pairs[*i].0.id)).collect();
        match r {
            Ok(v) => {
                if self.locked(s).is_some() {
                    fatal("frozen", format!("change of frozen hash {s} accepted"));
                }
                self.finished(&it);
                for i in rm.into_iter().rev() {
                    self.del(s, i);
                }
                if v != self.slots[s] && !(v.is_nil() && (which == 0 || which == 3)) {
                    fatal("result", "the receiver was not returned".to_string());
                }
            }
            Err(e) if self.raised(&e) => {
                // what was removed before is a leading part
                let live: Vec<u64> = self.slots[s].as_hash().iter().map(|p| p.0.id()).collect();
                let want: Vec<u64> = self.m[s].pairs.iter().map(|p| p.0.id).collect();
                let missing: Vec<u64> = want.iter().copied().filter(|k| !live.contains(k)).collect();
                let order: Vec<u64> = rm.iter().map(|i| self.m[s].pairs[*i].0.id).collect();
                if missing[..] != order[..missing.len().min(order.len())] {
                    fatal("contents", format!("hash {s} lost other pairs than the ones chosen"));
                }
                for k in missing {
                    let i = self.m[s].pairs.iter().position(|p| p.0.id == k).unwrap();
                    self.del(s, i);
                }
            }
            Err(e) => {
                if Some(&e.class[..]) != self.locked(s) {
                    fatal("error", format!("hash {s}: {}", e.class));
                }
            }
        }
        self.c.log(|| format!("h{s} end"));
    }

    /// select, reject: a new hash.
    fn select(&mut self, vm: &mut Executor, s: usize) {
        let keep = self.c.chance(1, 2);
        let to = self.c.draw(self.slots.len());
        self.c.log(|| format!("h{s}.{} do", if keep { "select" } else { "reject" }));
        self.start(s, Kind::Soft);
        let id = self.its.len() as u32;
        let ident = self.m[s].ident;
        let r = self.call(vm, if keep { n::select } else { n::reject }, self.slots[s], &[], Some(id));
        let it = self.its.pop().unwrap();
        self.c.log(|| format!("h{s} end"));
        match r {
            Ok(v) => {
                self.finished(&it);
                let want: Vec<(Value, Value)> = it.out.iter().filter(|o| o.2 == keep).map(|o| (o.0, o.1)).collect();
                let Some(h) = v.try_hash_ty() else { fatal("result", "no hash returned".to_string()) };
                let got: Vec<(Value, Value)> = h.iter().collect();
                if got != want || h.is_compare_by_identity() != ident {
                    fatal("result", format!("the new hash has {} pairs, chosen were {}", got.len(), want.len()));
                }
                self.adopt(vm, to, v, "select");
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => fatal("error", format!("select raised {}", e.class)),
        }
    }

    /// Puts a hash into a slot that is not being iterated and reads its
    /// model from it.
    fn adopt(&mut self, vm: &mut Executor, to: usize, v: Value, what: &str) {
        let h = v.as_hash();
        if self.m[to].depth > 0 || self.its.iter().any(|i| i.slot == to) || self.probing.contains(&to) {
            return;
        }
        let mut m = Model::new();
        m.ident = h.is_compare_by_identity();
        for (k, x) in h.iter() {
            for o in [k, x] {
                if let Some(r) = o.try_rvalue()
                    && !r.sim_live()
                {
                    fatal("freed", format!("{what}: the new hash holds a reclaimed object"));
                }
            }
            let (Some(cls), Some(x)) = (self.cls_of(k), self.model_val(x)) else {
                return;
            };
            m.pairs.push((Key { cls, id: k.id() }, x));
        }
        for i in 0..m.pairs.len() {
            for j in 0..i {
                if m.same(m.pairs[i].0, m.pairs[j].0) {
                    fatal("contents", format!("{what}: the new hash has a key twice"));
                }
            }
        }
        if let Some(d) = h.defalut_value() {
            match self.model_val(d) {
                Some(d) => m.default = Default::Val(d),
                None => return,
            }
        }
        if h.defalut_proc().is_some() {
            m.default = Default::Proc;
        }
        m.frozen = v.is_frozen();
        self.slots[to] = v;
        m.ver = self.m[to].ver + 1;
        self.m[to] = m;
        self.c.log(|| format!("h{to} = result"));
        self.check(vm, to, what);
    }

    fn model_val(&self, v: Value) -> Option<Val> {
        if v.is_nil() {
            return Some(Val::Nil);
        }
        if let Some(i) = v.try_fixnum() {
            return Some(Val::Int(i));
        }
        if let Some(i) = self.pool.iter().position(|p| p.v == v) {
            return Some(Val::Pool(i));
        }
        let s = v.is_rstring_inner()?;
        let t = std::str::from_utf8(&s.0.bytes).ok()?.strip_prefix('v')?.parse().ok()?;
        Some(Val::Str(t, v.id()))
    }

    fn merge(&mut self, vm: &mut Executor, s: usize) {
        let o = self.c.draw(self.slots.len());
        let inplace = self.c.chance(1, 2);
        let blk = self.c.chance(1, 2);
        let to = self.c.draw(self.slots.len());
        self.c.log(|| format!("h{s}.merge{} h{o}{}", if inplace { "!" } else { "" }, if blk { " do" } else { "" }));
        self.start(s, Kind::Merge);
        self.its.last_mut().unwrap().pos = inplace as usize;
        let id = self.its.len() as u32;
        let (v0, v1) = (self.m[s].ver, self.m[o].ver);
        let arg = Value::array_from_vec(vec![self.slots[o]]);
        self.probing.push(s);
        self.probing.push(o);
        let before = self.m[s].clone();
        let other = self.m[o].pairs.clone();
        let r = self.call(vm, if inplace { n::merge_ } else { n::merge }, self.slots[s], &[arg], blk.then_some(id));
        self.probing.pop();
        self.probing.pop();
        let it = self.its.pop().unwrap();
        let calm = v0 == self.m[s].ver && v1 == self.m[o].ver;
        let ok = r.is_ok();
        if let Err(e) = &r {
            let want = if !inplace {
                "none"
            } else {
                self.locked(s).unwrap_or(if self.m[s].depth > 0 { "RuntimeError" } else { "none" })
            };
            if !self.raised(e) && e.class != want {
                fatal("error", format!("merge raised {}, expected {want}", e.class));
            }
            if inplace && want == "FrozenError" {
                return;
            }
        }
        let res = if inplace {
            self.slots[s]
        } else {
            match r {
                Ok(v) => v,
                Err(_) => return,
            }
        };
        let got: Vec<(Value, Value)> = res.as_hash().iter().collect();
        // own keys first, in order, then those of the other hash
        if calm {
            let mut calls = it.given.iter();
            let mut want = before.clone();
            for (k, x) in &other {
                match want.find(*k) {
                    Some(i) if blk => match calls.next() {
                        Some(v) => want.pairs[i].1 = *v,
                        None => break,
                    },
                    Some(i) => want.pairs[i].1 = *x,
                    None if want.depth > 0 && inplace => break,
                    None => want.pairs.push((*k, *x)),
                }
            }
            let full = |n: usize| {
                got.iter().zip(&want.pairs).take(n).all(|(g, w)| {
                    g.0.id() == w.0.id || (self.cls_of(g.0) == Some(w.0.cls) && !want.ident)
                })
            };
            if ok {
                if got.len() != want.pairs.len() || !full(got.len()) || !got.iter().zip(&want.pairs).all(|(g, w)| self.is_val(g.1, w.1)) {
                    fatal("result", format!("merge gives {} pairs, expected {}: {got:?} {:?}", got.len(), want.pairs.len(), want.pairs));
                }
            } else if got.len() < before.pairs.len() || !full(before.pairs.len()) {
                fatal("result", "a failed merge lost or moved pairs".to_string());
            }
        } else if inplace && v0 == self.m[s].ver {
            let lead = got.iter().zip(&before.pairs).all(|(g, w)| g.0.id() == w.0.id);
            if got.len() < before.pairs.len() || !lead {
                fatal("result", "merge lost or moved pairs".to_string());
            }
        }
        if inplace {
            self.reread(s, "merge!");
        } else {
            self.adopt(vm, to, res, "merge");
        }
    }

    /// Takes over the pairs of a hash after a change whose exact extent is
    /// not modelled.
    fn reread(&mut self, s: usize, what: &str) {
        let h = self.slots[s].as_hash();
        let mut pairs = vec![];
        for (k, x) in h.iter() {
            for o in [k, x] {
                if let Some(r) = o.try_rvalue()
                    && !r.sim_live()
                {
                    fatal("freed", format!("{what}: hash {s} holds a reclaimed object"));
                }
            }
            let Some(cls) = self.cls_of(k) else { fatal("contents", format!("{what}: hash {s} has an unknown key")) };
            let Some(x) = self.model_val(x) else { fatal("contents", format!("{what}: hash {s} has an unknown value")) };
            pairs.push((Key { cls, id: k.id() }, x));
        }
        let m = &mut self.m[s];
        for p in &m.pairs {
            if !pairs.iter().any(|x| x.0.id == p.0.id) {
                m.gone.push(p.0.id);
            }
        }
        m.pairs = pairs;
        self.changed(s);
        let m = &self.m[s];
        for i in 0..m.pairs.len() {
            for j in 0..i {
                if m.same(m.pairs[i].0, m.pairs[j].0) {
                    fatal("contents", format!("{what}: hash {s} has a key twice"));
                }
            }
        }
    }

    fn copy(&mut self, vm: &mut Executor, s: usize) {
        let to = self.c.draw(self.slots.len());
        if self.m[to].depth > 0 || self.its.iter().any(|i| i.slot == to) || self.probing.contains(&to) {
            return;
        }
        let how = self.c.draw(4);
        self.c.log(|| format!("h{to} = copy {how} of h{s}"));
        let v = self.slots[s];
        let c = match how {
            0 => self.call(vm, n::clone, v, &[], None).unwrap(),
            1 => self.call(vm, n::dup_table, v, &[], None).unwrap(),
            2 => v.dup(),
            _ => v.clone_value(),
        };
        if c == v {
            fatal("copy", format!("the copy of hash {s} is the hash itself"));
        }
        let mut m = self.m[s].clone();
        m.depth = 0;
        m.gone.clear();
        if how == 1 {
            m.default = Default::None;
        }
        m.frozen = m.frozen && how == 3 && c.is_frozen();
        self.slots[to] = c;
        m.ver = self.m[to].ver + 1;
        self.m[to] = m;
        self.check(vm, to, "copy");
    }

    fn fresh(&mut self, vm: &mut Executor) {
        let to = self.c.draw(self.slots.len());
        if self.m[to].depth > 0 || self.its.iter().any(|i| i.slot == to) || self.probing.contains(&to) {
            return;
        }
        self.c.log(|| format!("h{to} = new"));
        self.slots[to] = match self.c.draw(3) {
            0 => Value::hash(RubyMap::default()),
            1 => Value::hash_from_inner(HashmapInner::default()),
            _ => Value::hash_from_inner(HashmapInner::with_capacity(self.c.draw(40))),
        };
        self.m[to] = Model { ver: self.m[to].ver + 1, ..Model::new() };
        self.check(vm, to, "new");
    }

    fn default(&mut self, vm: &mut Executor, s: usize) {
        self.changed(s);
        if self.c.draw(3) == 0 {
            if self.m[s].frozen {
                return;
            }
            self.c.log(|| format!("h{s}.default_proc="));
            let p = Proc::new(self.procs);
            let mut g = Globals { store: Store };
            self.slots[s].as_hash().set_defalut_proc(p, vm, &mut g).unwrap();
            self.m[s].default = Default::Proc;
            return;
        }
        let (x, xv) = self.make_val();
        self.c.log(|| format!("h{s}.default = {x:?}"));
        match self.call(vm, n::default_assign, self.slots[s], &[xv], None) {
            Ok(_) if self.m[s].frozen => fatal("frozen", "default= on a frozen hash accepted".to_string()),
            Ok(_) => self.m[s].default = if x == Val::Nil { Default::None } else { Default::Val(x) },
            Err(e) => {
                if Some(&e.class[..]) != self.locked(s) {
                    fatal("error", format!("default= raised {}", e.class));
                }
            }
        }
    }

    fn lookup(&mut self, vm: &mut Executor, s: usize) {
        let i = self.pick_present(s);
        let k = self.key(i);
        let want = self.m[s].find(k).map(|j| self.m[s].pairs[j].1);
        let kv = self.pool[i].v;
        let h = self.slots[s];
        let how = self.c.draw(6);
        let ver = self.m[s].ver;
        self.c.log(|| format!("h{s} lookup {how} k{i}"));
        self.probing.push(s);
        let r = match how {
            0 | 1 => self.call(vm, n::index, h, &[kv], None),
            2 => self.call(vm, n::fetch, h, &[kv], None),
            3 => self.call(vm, n::fetch, h, &[kv, Value::integer(-7)], None),
            4 => self.call(vm, n::include, h, &[kv], None),
            _ => self.call(vm, n::get_or_key, h, &[kv], None),
        };
        self.probing.pop();
        match r {
            Ok(v) => {
                let ok = match (how, want) {
                    (4, w) => v.as_bool() == w.is_some(),
                    (_, Some(w)) => self.is_val(v, w),
                    (0 | 1, None) if ver != self.m[s].ver => true,
                    (0 | 1, None) => match self.m[s].default {
                        Default::Proc => true,
                        Default::Val(d) => self.is_val(v, d),
                        Default::None => v.is_nil(),
                    },
                    (2, None) => false,
                    (3, None) => v.try_fixnum() == Some(-7),
                    (_, None) => v == kv,
                };
                if !ok {
                    fatal("lookup", format!("lookup {how} of k{i} in hash {s} gives {v:?}, model {want:?}"));
                }
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => {
                if !(how == 2 && want.is_none() && e.class == "KeyError") {
                    fatal("error", format!("lookup in hash {s} raised {}", e.class));
                }
            }
        }
    }

    fn query(&mut self, vm: &mut Executor, s: usize) {
        let h = self.slots[s];
        let pairs = self.m[s].pairs.clone();
        let how = self.c.draw(8);
        self.c.log(|| format!("h{s} query {how}"));
        match how {
            0 => {
                let a = self.call(vm, n::keys, h, &[], None).unwrap().as_array();
                if a.len() != pairs.len() || a.iter().zip(&pairs).any(|(a, b)| a.id() != b.0.id) {
                    fatal("result", format!("keys of hash {s}"));
                }
            }
            1 => {
                let a = self.call(vm, n::values, h, &[], None).unwrap().as_array();
                if a.len() != pairs.len() || a.iter().zip(&pairs).any(|(a, b)| !self.is_val(*a, b.1)) {
                    fatal("result", format!("values of hash {s}"));
                }
            }
            2 => {
                let a = self.call(vm, n::size, h, &[], None).unwrap().try_fixnum();
                let e = self.call(vm, n::empty_, h, &[], None).unwrap().as_bool();
                if a != Some(pairs.len() as i64) || e != pairs.is_empty() {
                    fatal("result", format!("size of hash {s}"));
                }
            }
            3 | 4 => {
                // first pair with this value
                let t = if pairs.is_empty() || self.c.chance(1, 4) { self.make_val().0 } else { pairs[self.c.draw(pairs.len())].1 };
                if let Val::Str(..) = t
                    && !pairs.iter().any(|p| p.1 == t)
                {
                    return;
                }
                let tv = self.val(t);
                let ver = self.m[s].ver;
                let r = self.call(vm, if how == 3 { n::key } else { n::rassoc }, h, &[tv], None);
                if ver != self.m[s].ver {
                    return;
                }
                let want = pairs.iter().find(|p| self.val_eq(p.1, t));
                match r {
                    Ok(v) => {
                        let ok = match want {
                            None => v.is_nil(),
                            Some(p) if how == 3 => v.id() == p.0.id,
                            Some(p) => v.try_array_ty().is_some_and(|a| a.len() == 2 && a[0].id() == p.0.id && self.is_val(a[1], p.1)),
                        };
                        if !ok {
                            fatal("result", format!("search for {t:?} in hash {s} gives {v:?}, expected {want:?}"));
                        }
                    }
                    Err(e) if self.raised(&e) => {}
                    Err(e) => fatal("error", format!("search raised {}", e.class)),
                }
            }
            5 => {
                if self.m[s].ident {
                    return;
                }
                let i = self.pick_present(s);
                let ver = self.m[s].ver;
                let r = self.call(vm, n::assoc, h, &[self.pool[i].v], None);
                if ver != self.m[s].ver {
                    return;
                }
                let want = self.m[s].find(self.key(i)).map(|j| pairs[j]);
                match r {
                    Ok(v) => {
                        let ok = match want {
                            None => v.is_nil(),
                            Some(p) => v.try_array_ty().is_some_and(|a| a.len() == 2 && a[0].id() == p.0.id && self.is_val(a[1], p.1)),
                        };
                        if !ok {
                            fatal("result", format!("assoc of k{i} in hash {s} gives {v:?}, expected {want:?}"));
                        }
                    }
                    Err(e) if self.raised(&e) => {}
                    Err(e) => fatal("error", format!("assoc raised {}", e.class)),
                }
            }
            6 => {
                self.probing.push(s);
                let ver = self.m[s].ver;
                let r = self.call(vm, n::invert, h, &[], None);
                self.probing.pop();
                if ver != self.m[s].ver {
                    return;
                }
                match r {
                    Ok(v) => {
                        let mut want: Vec<(Val, u64)> = vec![];
                        for (k, x) in &pairs {
                            match want.iter().position(|w| self.val_eq(w.0, *x)) {
                                Some(i) => want[i].1 = k.id,
                                None => want.push((*x, k.id)),
                            }
                        }
                        let got: Vec<(Value, Value)> = v.as_hash().iter().collect();
                        if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| !self.is_val(g.0, w.0) || g.1.id() != w.1) {
                            fatal("result", format!("invert of hash {s}"));
                        }
                    }
                    Err(e) if self.raised(&e) => {}
                    Err(e) => fatal("error", format!("invert raised {}", e.class)),
                }
            }
            _ => {
                let mut ks = vec![];
                let mut want = vec![];
                for _ in 0..1 + self.c.draw(4) {
                    let i = self.pick_present(s);
                    ks.push(self.pool[i].v);
                    want.push(self.m[s].find(self.key(i)).map(|j| pairs[j].1));
                }
                let a = Value::array_from_vec(ks);
                let ver = self.m[s].ver;
                let r = self.call(vm, n::values_at, h, &[a], None);
                if ver != self.m[s].ver || self.m[s].default == Default::Proc {
                    return;
                }
                let d = match self.m[s].default {
                    Default::Val(d) => d,
                    _ => Val::Nil,
                };
                match r {
                    Ok(v) => {
                        let a = v.as_array();
                        if a.len() != want.len() || a.iter().zip(&want).any(|(g, w)| !self.is_val(*g, w.unwrap_or(d))) {
                            fatal("result", format!("values_at of hash {s}"));
                        }
                    }
                    Err(e) if self.raised(&e) => {}
                    Err(e) => fatal("error", format!("values_at raised {}", e.class)),
                }
            }
        }
    }

    /// Every pair of `a` is in `b`.
    fn within(&self, a: usize, b: usize) -> bool {
        self.m[a].pairs.iter().all(|(k, x)| self.m[b].find(*k).is_some_and(|j| self.val_eq(self.m[b].pairs[j].1, *x)))
    }

    /// A hash with equal contents made in another order, of other equal
    /// objects, possibly with removed pairs in between.
    fn twin(&mut self, vm: &mut Executor, s: usize) {
        self.quiet += 1;
        let m = self.m[s].clone();
        let mut order: Vec<usize> = (0..m.pairs.len()).collect();
        for i in (1..order.len()).rev() {
            let j = self.c.draw(i + 1);
            order.swap(i, j);
        }
        let t = match self.c.draw(3) {
            0 => Value::hash(RubyMap::default()),
            1 => Value::hash_from_inner(HashmapInner::with_capacity(20)),
            _ => Value::hash_from_inner(HashmapInner::default()),
        };
        let mark = vm.args.len();
        vm.args.push(t);
        let mut g = Globals { store: Store };
        let mut h = t.as_hash();
        if m.ident {
            h.compare_by_identity(vm, &mut g).unwrap();
        }
        let extra = self.c.draw(4);
        for i in 0..extra {
            let k = Value::symbol(IdentId(100_000 + i as u32));
            h.insert(k, Value::nil(), vm, &mut g).unwrap();
        }
        for i in order {
            let (k, x) = m.pairs[i];
            let same: Vec<Value> = self.pool.iter().filter(|p| p.cls == k.cls).map(|p| p.v).collect();
            let kv = if m.ident { Value::from_u64(k.id) } else { same[self.c.draw(same.len())].frozen_hash_key() };
            let xv = match x {
                Val::Str(n, _) => Value::string_from_str(&format!("v{n}")),
                _ => self.val(x),
            };
            h.insert(kv, xv, vm, &mut g).unwrap();
        }
        let guard = self.c.chance(1, 2).then(|| h.iter_incr());
        for i in 0..extra {
            let k = Value::symbol(IdentId(100_000 + i as u32));
            h.remove(k, vm, &mut g).unwrap();
        }
        if let Some(r) = guard {
            h.iter_decr(r);
        }
        self.c.log(|| format!("h{s} compared with an equal hash"));
        let a = self.slots[s];
        for (what, f) in [("==", n::eq as fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>), ("eql?", n::eql), ("<=", n::le), (">=", n::ge)] {
            for (x, y) in [(a, t), (t, a)] {
                if !self.call(vm, f, x, &[y], None).unwrap().as_bool() {
                    fatal("compare", format!("hash {s} is not {what} to an equal hash"));
                }
            }
        }
        for (what, f) in [("<", n::lt as fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>), (">", n::gt)] {
            if self.call(vm, f, a, &[t], None).unwrap().as_bool() {
                fatal("compare", format!("hash {s} is {what} an equal hash"));
            }
        }
        if self.call(vm, n::hash, a, &[], None).unwrap() != self.call(vm, n::hash, t, &[], None).unwrap() {
            fatal("digest", format!("hash {s} and an equal hash have different digests"));
        }
        let outer = Value::hash(RubyMap::default());
        vm.args.push(outer);
        outer.as_hash().insert(a, Value::integer(1), vm, &mut g).unwrap();
        if !outer.as_hash().contains_key(t, vm, &mut g).unwrap() {
            fatal("digest", format!("hash {s} as a key is not found by an equal hash"));
        }
        // one pair less, or another value
        if !m.pairs.is_empty() {
            let (k, _) = h.iter().next().unwrap();
            let less = self.c.chance(1, 2);
            if less {
                h.remove(k, vm, &mut g).unwrap();
            } else {
                h.insert(k, Value::symbol(IdentId(99_999)), vm, &mut g).unwrap();
            }
            let r = [
                self.call(vm, n::eq, a, &[t], None).unwrap().as_bool(),
                self.call(vm, n::eql, a, &[t], None).unwrap().as_bool(),
                self.call(vm, n::le, a, &[t], None).unwrap().as_bool(),
                self.call(vm, n::lt, a, &[t], None).unwrap().as_bool(),
                self.call(vm, n::ge, a, &[t], None).unwrap().as_bool(),
                self.call(vm, n::gt, a, &[t], None).unwrap().as_bool(),
                outer.as_hash().contains_key(t, vm, &mut g).unwrap(),
            ];
            if r != [false, false, false, false, less, less, false] {
                fatal("compare", format!("hash {s} against one that differs in a pair: {r:?}"));
            }
        }
        vm.args.truncate(mark);
        self.quiet -= 1;
    }

    fn compare(&mut self, vm: &mut Executor, s: usize) {
        if self.c.chance(1, 2) {
            return self.twin(vm, s);
        }
        let o = self.c.draw(self.slots.len());
        let how = self.c.draw(8);
        self.c.log(|| format!("h{s} compare {how} h{o}"));
        let (a, b) = (self.slots[s], self.slots[o]);
        let (la, lb) = (self.m[s].pairs.len(), self.m[o].pairs.len());
        let v = (self.m[s].ver, self.m[o].ver);
        let same = s == o
            || (la == lb && (la == 0 || (self.m[s].ident == self.m[o].ident && self.within(s, o))));
        self.probing.push(s);
        self.probing.push(o);
        let (r, want) = match how {
            0 => (self.call(vm, n::eq, a, &[b], None), same),
            1 => (self.call(vm, n::eql, a, &[b], None), same),
            2 => (self.call(vm, n::lt, a, &[b], None), la < lb && self.within(s, o)),
            3 => (self.call(vm, n::le, a, &[b], None), la <= lb && self.within(s, o)),
            4 => (self.call(vm, n::gt, a, &[b], None), la > lb && self.within(o, s)),
            5 => (self.call(vm, n::ge, a, &[b], None), la >= lb && self.within(o, s)),
            6 => {
                // equal hashes have equal digests
                let x = self.call(vm, n::hash, a, &[], None);
                let y = self.call(vm, n::hash, b, &[], None);
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        if same && la > 0 && v == (self.m[s].ver, self.m[o].ver) && x != y {
                            fatal("digest", format!("hashes {s} and {o} are equal and their digests differ"));
                        }
                        (Ok(Value::nil()), false)
                    }
                    (Err(e), _) | (_, Err(e)) => (Err(e), false),
                }
            }
            _ => {
                // as keys of another hash
                let outer = Value::hash(RubyMap::default());
                let p = vm.args.len();
                vm.args.push(outer);
                let mut g = Globals { store: Store };
                let r = outer.as_hash().insert(a, Value::integer(1), vm, &mut g);
                let r = match r {
                    Ok(_) => outer.as_hash().contains_key(b, vm, &mut g).map(Value::bool),
                    Err(e) => Err(e),
                };
                vm.args.truncate(p);
                let same = same && (self.m[s].ident == self.m[o].ident);
                (r, same)
            }
        };
        self.probing.pop();
        self.probing.pop();
        match r {
            Ok(x) => {
                if v == (self.m[s].ver, self.m[o].ver) && x.as_bool() != want {
                    fatal("compare", format!("comparison {how} of hashes {s} and {o} gives {}", x.as_bool()));
                }
            }
            Err(e) if self.raised(&e) => {}
            Err(e) => fatal("error", format!("comparison raised {}", e.class)),
        }
    }

    fn op(&mut self, vm: &mut Executor) {
        let s = self.c.draw(self.slots.len());
        let w = self.w.clone();
        match self.c.weighted(&w) {
            0 => self.store(vm, s),
            1 => self.delete(vm, s),
            2 => self.lookup(vm, s),
            3 => self.each(vm, s),
            4 => self.retain(vm, s),
            5 => self.select(vm, s),
            6 => self.merge(vm, s),
            7 => self.copy(vm, s),
            8 => self.whole(vm, s),
            9 => self.shift(vm, s),
            10 => self.query(vm, s),
            11 => self.compare(vm, s),
            12 => self.default(vm, s),
            13 => self.fresh(vm),
            14 => self.collect(vm),
            _ => {
                if self.depth == 0 && self.c.chance(1, 6) {
                    self.c.log(|| format!("h{s}.freeze"));
                    self.slots[s].set_frozen();
                    self.m[s].frozen = true;
                }
            }
        }
        for s in 0..self.slots.len() {
            self.check(vm, s, "after");
        }
    }

    /// What other code does in the middle of an operation. Returns whether
    /// it raises.
    fn intrude(&mut self, vm: &mut Executor, may_change: bool) -> bool {
        if self.quiet > 0 {
            return false;
        }
        if self.c.draw(100) < self.gc as usize {
            self.collect(vm);
        }
        if may_change && self.depth < 4 && self.budget > 0 && self.c.draw(100) < self.reenter as usize {
            self.depth += 1;
            let hold = std::mem::take(&mut self.probing);
            for _ in 0..1 + self.c.draw(3) {
                if self.budget == 0 {
                    break;
                }
                self.budget -= 1;
                self.c.fault("operation inside a callback");
                self.op(vm);
            }
            self.probing = hold;
            self.depth -= 1;
        }
        if self.c.draw(100) < self.raise as usize {
            self.c.fault("callback raised");
            self.c.log(|| "    raise".into());
            return true;
        }
        false
    }
}

impl Host for Sim<'_> {
    fn block(&mut self, vm: &mut Executor, _: &mut Globals, bh: BlockHandler, args: &[Value]) -> Result<Value> {
        if bh.0 as usize != self.its.len() {
            panic!("block of another call");
        }
        let kind = self.its.last().unwrap().kind;
        match kind {
            Kind::Each | Kind::Retain | Kind::Soft => {
                self.visited(args[0], args[1]);
                let m = self.its.len();
                self.c.log(|| format!("  block {m}"));
            }
            Kind::Merge => {
                self.c.log(|| "  merge block".into());
                let it = self.its.last().unwrap();
                if it.pos == 1 {
                    // the pairs merged so far are in the hash
                    let s = it.slot;
                    let ver = self.m[s].ver;
                    self.reread(s, "merge!");
                    self.m[s].ver = ver;
                }
            }
            Kind::Missing => {
                self.its.last_mut().unwrap().pos += 1;
            }
        }
        if self.intrude(vm, kind != Kind::Missing) {
            return Err(MonorubyErr::new(RAISED));
        }
        for a in args {
            if let Some(r) = a.try_rvalue()
                && !r.sim_live()
            {
                panic!("block argument not kept alive by the simulator");
            }
        }
        let it_len = self.its.len();
        match kind {
            Kind::Merge => {
                let (m, v) = self.make_val();
                self.its[it_len - 1].answer = v;
                self.its[it_len - 1].given.push(m);
                Ok(v)
            }
            _ => {
                let b = self.c.chance(1, 2);
                if kind != Kind::Missing {
                    self.its[it_len - 1].out.push((args[0], args[1], b));
                }
                Ok(Value::bool(b))
            }
        }
    }

    fn method(&mut self, vm: &mut Executor, g: &mut Globals, id: IdentId, recv: Value, args: &[Value]) -> Result<Value> {
        if id == IdentId::HASH {
            if let Some(grp) = recv.group() {
                if self.intrude(vm, false) {
                    return Err(MonorubyErr::new(RAISED));
                }
                return Ok(Value::integer(grp % self.group_hash));
            }
            if recv.try_hash_ty().is_some() {
                return self.call(vm, n::hash, recv, &[], None);
            }
            let h = recv.calculate_hash(vm, g)?;
            return Ok(Value::integer((h >> 8) as i64));
        }
        if id == IdentId::EQL_ || id == IdentId::EQ {
            if recv.group().is_some() {
                if self.intrude(vm, id == IdentId::EQ && self.probing.is_empty()) {
                    return Err(MonorubyErr::new(RAISED));
                }
                return Ok(Value::bool(recv.group() == args[0].group()));
            }
            return Ok(Value::bool(RubyEql::eql(&recv, &args[0], vm, g)?));
        }
        if id == IdentId::get_id("default") {
            return self.call(vm, n::default, recv, args, None);
        }
        panic!("unexpected method call");
    }

    fn proc(&mut self, vm: &mut Executor, g: &mut Globals, _: Value, args: &[Value]) -> Result<Value> {
        let Some(s) = self.slots.iter().position(|v| *v == args[0]) else { return Ok(Value::nil()) };
        self.c.log(|| format!("  default proc of h{s}"));
        let hold = std::mem::take(&mut self.probing);
        let r = self.intrude(vm, true);
        self.probing = hold;
        if r { Err(MonorubyErr::new(RAISED)) } else { Ok(Value::nil()) }
    }
}

pub fn run(c: &mut Ctx) -> std::result::Result<(), Violation> {
    let word: &'static mut u32 = Box::leak(Box::new(0));
    poll_flag::register(word as *mut u32);
    COARSE.with(|m| m.set([u64::MAX, 7, 0xff00_0000_0000_0003, 0][0]));
    let coarse = [u64::MAX, 0xff, 7, 0xfe00_0000_0000_0001][c.draw(4)];
    COARSE.with(|m| m.set(coarse));
    let nslots = 1 + c.draw(4);
    let w = (0..16).map(|i| if i == 0 { 2 + c.draw(12) as u32 } else { c.draw(6) as u32 }).collect();
    let ops = 6 + c.draw(if c.thorough { 150 } else { 60 });
    // keys
    let mut pool = vec![];
    let mut cls = 0;
    let kinds: Vec<u32> = (0..6).map(|_| c.draw(3) as u32).collect();
    let kinds = if kinds.iter().sum::<u32>() == 0 { vec![1, 0, 0, 0, 0, 0] } else { kinds };
    let size = [4, 8, 16, 40, 90][c.draw(5)];
    while pool.len() < size {
        cls += 1;
        let same = 1 + c.draw(3);
        match c.weighted(&kinds) {
            0 => pool.push(PoolKey { v: Value::integer(cls as i64), cls }),
            1 => pool.push(PoolKey { v: Value::symbol(IdentId(cls)), cls }),
            2 => {
                for i in 0..same {
                    let v = Value::string_from_str(&format!("key{cls}"));
                    if i % 2 == 1 {
                        v.set_frozen();
                    }
                    pool.push(PoolKey { v, cls });
                }
            }
            3 => {
                for _ in 0..same {
                    let v = RValue::sim_new(OBJECT_CLASS, ObjTy::OBJECT, &[Value::integer(cls as i64)], None).pack();
                    pool.push(PoolKey { v, cls });
                }
            }
            4 => pool.push(PoolKey { v: RValue::sim_new(OBJECT_CLASS, ObjTy::OBJECT, &[], None).pack(), cls }),
            _ => {
                for _ in 0..same {
                    pool.push(PoolKey { v: Value::array_from_vec(vec![Value::integer(cls as i64), Value::nil()]), cls });
                }
            }
        }
    }
    let wide = 1 + c.draw(pool.len());
    let raise = [0, 0, 3, 15][c.draw(4)];
    let gc = [0, 5, 20, 60][c.draw(4)];
    let reenter = [0, 10, 40, 80][c.draw(4)];
    let group_hash = [1000, 3, 1][c.draw(3)];
    c.set_ops(ops as u32);
    let mut s = Sim {
        slots: (0..nslots).map(|_| Value::hash(RubyMap::default())).collect(),
        m: (0..nslots).map(|_| Model::new()).collect(),
        pool,
        its: vec![],
        g: Globals { store: Store },
        stamp: 0,
        quiet: 0,
        depth: 0,
        budget: 60,
        raise,
        gc,
        reenter,
        group_hash,
        procs: RValue::sim_new(PROC_CLASS, ObjTy::PROC, &[], None).pack(),
        w,
        wide,
        probing: vec![],
        c,
    };
    struct Nothing;
    impl Host for Nothing {
        fn block(&mut self, _: &mut Executor, _: &mut Globals, _: BlockHandler, _: &[Value]) -> Result<Value> {
            panic!()
        }
        fn method(&mut self, _: &mut Executor, _: &mut Globals, _: IdentId, _: Value, _: &[Value]) -> Result<Value> {
            panic!()
        }
        fn proc(&mut self, _: &mut Executor, _: &mut Globals, _: Value, _: &[Value]) -> Result<Value> {
            panic!()
        }
    }
    let host: *mut (dyn Host + '_) = &mut s;
    // the executor does not outlive the simulation
    let host: *mut (dyn Host + 'static) = unsafe { std::mem::transmute(host) };
    let mut vm = Executor { host, temp: vec![], frames: vec![], args: vec![] };
    let mut done = 0;
    while s.c.next_op() {
        s.op(&mut vm);
        done += 1;
    }
    if done > 5 {
        s.c.nontrivial();
    }
    // nothing is reclaimed that the hashes hold, and all of the rest is
    s.quiet += 1;
    for _ in 0..2 {
        alloc::request_gc(true);
        ALLOC.with(|a| a.borrow_mut().gc(&Roots(&s, &vm)));
        for i in 0..s.slots.len() {
            s.check(&mut vm, i, "end");
        }
    }
    Ok(())
}

//! C29: the collector against a model of the object graph.
use crate::alloc::{self, ALLOC};
use crate::*;
use ROOT::sys;
use simcore::{Ctx, Violation};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ref {
    Nil,
    Int(i64),
    Obj(usize),
}

struct Obj {
    at: u64,
    serial: u32,
    ty: ObjTy,
    /// Number counted by the destructor of the payload.
    tok: u32,
    /// Same for the table of instance variables.
    table: u32,
    frame: usize,
    kids: Vec<Ref>,
    ivars: Vec<Option<Ref>>,
    pairs: Vec<(Ref, Ref)>,
    ident: bool,
    default: Ref,
    frozen: bool,
}

struct Roots(Vec<Value>);
impl GC<RValue> for Roots {
    fn mark(&self, a: &mut Allocator<RValue>) {
        for v in &self.0 {
            v.mark(a);
        }
    }
}
impl GCRoot<RValue> for Roots {}

struct NoHost;
impl Host for NoHost {
    fn block(&mut self, _: &mut Executor, _: &mut Globals, _: BlockHandler, _: &[Value]) -> Result<Value> {
        panic!()
    }
    fn method(&mut self, _: &mut Executor, _: &mut Globals, _: IdentId, _: Value, _: &[Value]) -> Result<Value> {
        panic!()
    }
    fn proc(&mut self, _: &mut Executor, _: &mut Globals, _: Value, _: &[Value]) -> Result<Value> {
        panic!()
    }
}

const KINDS: [ObjTy; 28] = [
    ObjTy::ARRAY,
    ObjTy::OBJECT,
    ObjTy::STRING,
    ObjTy::HASH,
    ObjTy::STRUCT,
    ObjTy::BIGNUM,
    ObjTy::FLOAT,
    ObjTy::CLASS,
    ObjTy::MODULE,
    ObjTy::COMPLEX,
    ObjTy::TIME,
    ObjTy::RANGE,
    ObjTy::EXCEPTION,
    ObjTy::PROC,
    ObjTy::REGEXP,
    ObjTy::IO,
    ObjTy::METHOD,
    ObjTy::UMETHOD,
    ObjTy::FIBER,
    ObjTy::THREAD,
    ObjTy::ENUMERATOR,
    ObjTy::GENERATOR,
    ObjTy::BINDING,
    ObjTy::MATCHDATA,
    ObjTy::RATIONAL,
    ObjTy::ARITHMETIC_SEQUENCE,
    ObjTy::IO_BUFFER,
    ObjTy::ARGF,
];

/// How many references the payload of a kind takes.
fn width(ty: ObjTy) -> (usize, usize) {
    match ty {
        ObjTy::BIGNUM | ObjTy::FLOAT | ObjTy::TIME | ObjTy::REGEXP | ObjTy::UMETHOD | ObjTy::HASH => (0, 0),
        ObjTy::COMPLEX | ObjTy::RANGE | ObjTy::PROC | ObjTy::METHOD => (2, 2),
        ObjTy::STRING => (0, 1),
        ObjTy::OBJECT => (0, 6),
        ObjTy::FRAME => (1, 4),
        _ => (0, 5),
    }
}

fn barriered(ty: ObjTy) -> bool {
    matches!(ty, ObjTy::OBJECT | ObjTy::STRING | ObjTy::BIGNUM | ObjTy::FLOAT | ObjTy::ARRAY | ObjTy::STRUCT | ObjTy::HASH)
}

struct Sim<'a> {
    c: &'a mut Ctx,
    objs: Vec<Option<Obj>>,
    spare: Vec<usize>,
    by_addr: std::collections::HashMap<u64, usize>,
    roots: Vec<Ref>,
    serial: u32,
    tok: u32,
    frames: usize,
    vm: Executor,
    g: Globals,
    allocated: usize,
    enabled: bool,
    allow_major: bool,
    minors: usize,
    /// Pages taken into use since the last time the request was answered.
    pages_at_ack: usize,
    boxed: i64,
    gcs: u64,
    mix: Vec<u32>,
    forced: bool,
}

fn bad<T>(class: &str, msg: String) -> std::result::Result<T, Violation> {
    Err(Violation { class: class.into(), msg })
}

macro_rules! al {
    ($f:expr) => {
        ALLOC.with(|a| {
            #[allow(unused_mut)]
            let mut a = a.borrow_mut();
            #[allow(clippy::redundant_closure_call)]
            ($f)(&mut *a)
        })
    };
}

impl Sim<'_> {
    fn val(&self, r: Ref) -> Value {
        match r {
            Ref::Nil => Value::nil(),
            Ref::Int(i) => Value::integer(i),
            Ref::Obj(i) => Value::from_u64(self.objs[i].as_ref().unwrap().at),
        }
    }
    fn obj(&mut self, i: usize) -> &mut Obj {
        self.objs[i].as_mut().unwrap()
    }

    /// Objects reachable from the roots (and, if asked, from old objects).
    fn reach(&self, old: bool) -> Vec<bool> {
        let mut seen = vec![false; self.objs.len()];
        let mut todo: Vec<usize> = self.roots.iter().filter_map(|r| if let Ref::Obj(i) = r { Some(*i) } else { None }).collect();
        if old {
            for (i, o) in self.objs.iter().enumerate() {
                if let Some(o) = o
                    && Value::from_u64(o.at).rvalue().is_old()
                {
                    todo.push(i);
                }
            }
        }
        while let Some(i) = todo.pop() {
            if std::mem::replace(&mut seen[i], true) {
                continue;
            }
            let o = self.objs[i].as_ref().unwrap();
            let refs = o
                .kids
                .iter()
                .copied()
                .chain(o.ivars.iter().flatten().copied())
                .chain(o.pairs.iter().flat_map(|(k, v)| [*k, *v]))
                .chain([o.default]);
            for r in refs {
                if let Ref::Obj(j) = r
                    && !seen[j]
                {
                    todo.push(j);
                }
            }
        }
        seen
    }

    /// A reference to something the program can get at.
    fn pick(&mut self) -> Ref {
        match self.c.draw(6) {
            0 => Ref::Nil,
            1 => Ref::Int(self.c.draw(50) as i64),
            _ => match self.pick_obj() {
                Some(i) => Ref::Obj(i),
                None => Ref::Nil,
            },
        }
    }

    /// Walks from a random root for a random number of steps.
    fn pick_obj(&mut self) -> Option<usize> {
        let live: Vec<usize> = self.roots.iter().filter_map(|r| if let Ref::Obj(i) = r { Some(*i) } else { None }).collect();
        if live.is_empty() {
            return None;
        }
        let mut at = live[self.c.draw(live.len())];
        for _ in 0..self.c.draw(4) {
            let o = self.objs[at].as_ref().unwrap();
            let next: Vec<usize> = o
                .kids
                .iter()
                .chain(o.ivars.iter().flatten())
                .chain(o.pairs.iter().flat_map(|(k, v)| [k, v]))
                .filter_map(|r| if let Ref::Obj(i) = r { Some(*i) } else { None })
                .collect();
            if next.is_empty() {
                break;
            }
            at = next[self.c.draw(next.len())];
        }
        Some(at)
    }

    fn alloc(&mut self, ty: ObjTy, kids: Vec<Ref>) -> std::result::Result<usize, Violation> {
        self.serial += 1;
        let serial = self.serial;
        let class = ClassId::new(serial);
        let before = al!(|a: &mut Allocator<RValue>| (a.page_count(), a.allocatable_slots(), a.empty_page_count(), a.total_allocated_pages()));
        let vals: Vec<Value> = kids.iter().map(|k| self.val(*k)).collect();
        let mut frame = 0;
        let v = if ty == ObjTy::HASH {
            let mut v = Value::hash(RubyMap::default());
            v.change_class(class);
            v
        } else {
            if ty == ObjTy::FRAME {
                self.frames += 1;
                frame = self.frames;
            }
            RValue::sim_new(class, ty, &vals, (frame != 0).then_some(frame)).pack()
        };
        self.placed(before)?;
        let i = self.enter(v, ty, serial, frame)?;
        let o = self.obj(i);
        if ty == ObjTy::OBJECT {
            o.ivars = kids.into_iter().map(Some).collect();
        } else {
            o.kids = kids;
        }
        Ok(i)
    }

    /// What an allocation may do to the pages.
    fn placed(&mut self, before: (usize, usize, usize, usize)) -> std::result::Result<(), Violation> {
        let (pages, slots, empty, taken) = before;
        let now = al!(|a: &mut Allocator<RValue>| (a.page_count(), a.empty_page_count(), a.total_allocated_pages()));
        self.allocated += 1;
        if slots > 0 && now.0 != pages {
            return bad("growth", format!("a page was added with {slots} slots free"));
        }
        if slots == 0 && now.0 != pages + 1 {
            return bad("growth", format!("{} pages became {} for one object", pages, now.0));
        }
        if empty > 0 && now.2 != taken {
            return bad("growth", format!("memory for a page was taken with {empty} empty pages at hand"));
        }
        Ok(())
    }

    fn enter(&mut self, v: Value, ty: ObjTy, serial: u32, frame: usize) -> std::result::Result<usize, Violation> {
        let at = v.id();
        if at % 64 != 0 {
            return bad("address", format!("object at {at:x}"));
        }
        if let Some(j) = self.by_addr.get(&at) {
            let s = self.objs[*j].as_ref().unwrap().serial;
            return bad("overlap", format!("object {serial} was given the memory of object {s}, which was not reclaimed"));
        }
        if v.rvalue().is_old() || al!(|a: &mut Allocator<RValue>| a.is_old(v.rvalue())) {
            return bad("new-old", format!("new object {serial} belongs to the old generation"));
        }
        let mut tok = 0;
        if let Some(p) = v.cell().sim_payload() {
            self.tok += 1;
            tok = self.tok;
            p.tok.0.set(tok);
        }
        let i = self.spare.pop().unwrap_or_else(|| {
            self.objs.push(None);
            self.objs.len() - 1
        });
        self.by_addr.insert(at, i);
        self.objs[i] = Some(Obj {
            at,
            serial,
            ty,
            tok,
            table: 0,
            frame,
            kids: vec![],
            ivars: vec![],
            pairs: vec![],
            ident: false,
            default: Ref::Nil,
            frozen: false,
        });
        self.name_table(i);
        Ok(i)
    }

    fn name_table(&mut self, i: usize) {
        let v = Value::from_u64(self.obj(i).at);
        if let Some(t) = v.cell().sim_table()
            && t.tok.0.get() == 0
        {
            self.tok += 1;
            t.tok.0.set(self.tok);
            self.objs[i].as_mut().unwrap().table = self.tok;
        }
    }

    /// The cell of a live object has what the model says.
    fn intact(&self, i: usize) -> std::result::Result<(), Violation> {
        let o = self.objs[i].as_ref().unwrap();
        let v = Value::from_u64(o.at);
        let r = v.cell();
        let s = o.serial;
        if !r.sim_live() {
            return bad("freed-live", format!("object {s} is reachable but was reclaimed"));
        }
        if r.class().u32() != s || r.ty() != o.ty {
            return bad("altered", format!("object {s}: class or type changed ({:?} {:?})", r.class(), r.ty()));
        }
        if r.is_frozen() != o.frozen {
            return bad("altered", format!("object {s}: frozen flag changed"));
        }
        if o.tok != 0 && (drops(o.tok) != 0 || r.sim_payload().unwrap().tok.0.get() != o.tok) {
            return bad("altered", format!("object {s}: payload destroyed or replaced"));
        }
        if o.table != 0 && drops(o.table) != 0 {
            return bad("altered", format!("object {s}: instance variable table destroyed"));
        }
        if o.frame != 0 && sys::WATCHED[o.frame].load(Relaxed) != 0 {
            return bad("altered", format!("object {s}: frame released"));
        }
        for (n, x) in o.ivars.iter().enumerate() {
            let got = r.get_ivar_by_ivarid(IvarId(n as u32));
            if got != x.map(|x| self.val(x)) {
                return bad("altered", format!("object {s}: instance variable {n} changed"));
            }
        }
        if o.ty == ObjTy::HASH {
            let h = v.as_hash();
            if h.len() != o.pairs.len() {
                return bad("altered", format!("object {s}: hash has {} pairs instead of {}", h.len(), o.pairs.len()));
            }
            for ((k, x), (mk, mx)) in h.iter().zip(&o.pairs) {
                if k != self.val(*mk) || x != self.val(*mx) {
                    return bad("altered", format!("object {s}: hash contents changed"));
                }
            }
        } else if o.ty != ObjTy::OBJECT {
            let kids = r.sim_kids();
            if kids.len() != o.kids.len() || kids.iter().zip(&o.kids).any(|(a, b)| *a != self.val(*b)) {
                if !(o.kids.is_empty() && kids.iter().all(|k| k.is_nil())) {
                    return bad("altered", format!("object {s}: references changed"));
                }
            }
        }
        Ok(())
    }

    fn gc(&mut self) -> std::result::Result<(), Violation> {
        let roots = Roots(self.roots.iter().map(|r| self.val(*r)).collect());
        let (major0, minor0, total0) = al!(|a: &mut Allocator<RValue>| (a.major_gc_count(), a.minor_gc_count(), a.total_gc_counter()));
        let must_major = self.serial != 0 && self.forced;
        let rooted = self.reach(false);
        let kept = self.reach(true);
        let was_old: Vec<bool> = self.objs.iter().map(|o| o.as_ref().is_some_and(|o| Value::from_u64(o.at).rvalue().is_old())).collect();
        sys::LOW_STACK.store(usize::MAX, Relaxed);
        let here = 0u8;
        let base = &here as *const u8 as usize;
        al!(|a: &mut Allocator<RValue>| a.gc(&roots));
        let depth = base.saturating_sub(sys::LOW_STACK.load(Relaxed).min(base));
        if depth > 256 << 10 {
            return bad("stack", format!("marking used {depth} bytes of stack"));
        }
        let (major, minor, total) = al!(|a: &mut Allocator<RValue>| (a.major_gc_count(), a.minor_gc_count(), a.total_gc_counter()));
        if !self.enabled {
            if (major, minor, total) != (major0, minor0, total0) {
                return bad("disabled", "a collection ran while collection was disabled".into());
            }
            if poll_flag::gc_requested() {
                return bad("disabled", "the request stays pending while collection is disabled".into());
            }
            self.pages_at_ack = al!(|a: &mut Allocator<RValue>| a.page_count());
            return self.all_intact(&rooted);
        }
        self.gcs += 1;
        if total != total0 + 1 || major + minor != major0 + minor0 + 1 {
            return bad("count", "the collection counts do not add up".into());
        }
        let is_major = major == major0 + 1;
        self.forced = false;
        if must_major && !is_major {
            return bad("kind", "an explicit request did not collect everything".into());
        }
        self.minors = if is_major { 0 } else { self.minors + 1 };
        if self.allow_major && self.minors > 64 {
            return bad("kind", format!("{} collections without one that collects everything", self.minors));
        }
        self.c.probe(if is_major { "major" } else { "minor" });
        // survivors and victims
        let mut live = 0;
        let mut old = 0;
        let mut freed = 0;
        for i in 0..self.objs.len() {
            let Some(o) = &self.objs[i] else { continue };
            let r = Value::from_u64(o.at).cell();
            if rooted[i] {
                live += 1;
                old += r.is_old() as usize;
                self.intact(i)?;
                continue;
            }
            let dead = !r.sim_live();
            let s = o.serial;
            if !dead && is_major {
                return bad("leak", format!("object {s} is unreachable and survived a full collection"));
            }
            if !dead && !kept[i] {
                return bad("leak", format!("young object {s} is unreachable from roots and old objects and survived"));
            }
            if dead && !is_major && was_old[i] {
                return bad("freed-old", format!("old object {s} was reclaimed by a minor collection"));
            }
            if !dead {
                live += 1;
                old += r.is_old() as usize;
                continue;
            }
            freed += 1;
            for t in [o.tok, o.table] {
                if t != 0 && drops(t) != 1 {
                    return bad("destructor", format!("object {s} was reclaimed without running its destructor"));
                }
            }
            if o.frame != 0 && sys::WATCHED[o.frame].load(Relaxed) != 1 {
                return bad("destructor", format!("object {s} was reclaimed and its frame released {} times", sys::WATCHED[o.frame].load(Relaxed)));
            }
            self.by_addr.remove(&o.at);
            self.objs[i] = None;
            self.spare.push(i);
        }
        // what a kept object refers to must be kept as well
        for i in 0..self.objs.len() {
            let Some(o) = &self.objs[i] else { continue };
            let refs = o.kids.iter().copied().chain(o.ivars.iter().flatten().copied()).chain(o.pairs.iter().flat_map(|(k, v)| [*k, *v])).chain([o.default]);
            for r in refs {
                if let Ref::Obj(j) = r
                    && self.objs[j].is_none()
                {
                    let s = o.serial;
                    if rooted[i] {
                        return bad("freed-live", format!("object {s} is reachable and refers to a reclaimed object"));
                    }
                    return bad("dangling", format!("object {s} was kept and refers to a reclaimed object"));
                }
            }
        }
        let n = al!(|a: &mut Allocator<RValue>| {
            [
                a.live_count(),
                a.free_count(),
                a.total_allocated(),
                a.total_freed(),
                a.available_slots(),
                a.allocatable_slots(),
                a.old_count(),
                a.page_count(),
            ]
        });
        self.c.log(|| format!("  gc {} live {live} old {old} freed {freed} pages {}", if is_major { "major" } else { "minor" }, n[7]));
        let rem = al!(|a: &mut Allocator<RValue>| a.remembered_count());
        self.c.state(simcore::mix64((live as u64) << 40 | (old as u64) << 20 | (rem as u64) << 9 | (is_major as u64) << 8 | n[7] as u64));
        let eq = |what: &str, got: usize, want: usize| -> std::result::Result<(), Violation> {
            if got != want { bad("count", format!("{what} is {got}, actual number {want}")) } else { Ok(()) }
        };
        eq("number of live objects", n[0], live)?;
        eq("number of allocated objects", n[2], self.allocated)?;
        eq("number of freed objects", n[3], self.allocated - live)?;
        eq("number of slots in use", n[4] - n[5], live)?;
        eq("number of old objects", n[6], old)?;
        if n[1] > n[5] {
            return bad("count", format!("{} free slots out of {} allocatable", n[1], n[5]));
        }
        self.pages_at_ack = n[7];
        if poll_flag::gc_requested() != al!(|a: &mut Allocator<RValue>| a.stress()) {
            return bad("request", "request flag wrong after a collection".into());
        }
        let (amount, limit) = (alloc::malloc_amount(), alloc::malloc_gc_threshold());
        if amount != sys::LEDGER.load(Relaxed) {
            return bad("count", format!("{amount} bytes of buffers counted, {} in use", sys::LEDGER.load(Relaxed)));
        }
        if limit <= amount || limit > 2 * amount + (1 << 20) {
            return bad("threshold", format!("{amount} bytes in use, next collection at {limit}"));
        }
        Ok(())
    }

    fn all_intact(&self, rooted: &[bool]) -> std::result::Result<(), Violation> {
        for (i, r) in rooted.iter().enumerate() {
            if *r {
                self.intact(i)?;
            }
        }
        Ok(())
    }

    /// The request for a collection must be up when it is due.
    fn due(&mut self) -> std::result::Result<(), Violation> {
        if !self.enabled {
            return Ok(());
        }
        let pages = al!(|a: &mut Allocator<RValue>| a.page_count());
        let new = pages.saturating_sub(self.pages_at_ack);
        let limit = 8.max(pages / 16) + 2;
        if new > limit && !poll_flag::gc_requested() {
            return bad("request", format!("{new} pages taken into use since the last collection without a request for one"));
        }
        Ok(())
    }

    fn safepoint(&mut self) -> std::result::Result<(), Violation> {
        self.due()?;
        if poll_flag::gc_requested() && self.c.chance(3, 4) {
            self.gc()?;
        }
        Ok(())
    }

    fn new_object(&mut self) -> std::result::Result<usize, Violation> {
        let ty = match self.c.draw(3) {
            0 => KINDS[self.c.draw(5)],
            1 => KINDS[self.c.draw(KINDS.len())],
            _ => {
                let k = self.c.weighted(&self.mix.clone());
                if k == KINDS.len() { ObjTy::FRAME } else { KINDS[k] }
            }
        };
        let ty = if ty == ObjTy::FRAME && self.frames + 2 >= sys::WATCHED.len() { ObjTy::ARRAY } else { ty };
        let (lo, hi) = width(ty);
        let n = lo + self.c.draw(hi - lo + 1);
        let kids = (0..n).map(|_| if ty == ObjTy::STRING { self.pick_string() } else { self.pick() }).collect::<Vec<_>>();
        let kids = if ty == ObjTy::STRING && kids == [Ref::Nil] { vec![] } else { kids };
        self.c.log(|| format!("new {} {ty:?} {kids:?}", self.serial + 1));
        self.alloc(ty, kids)
    }

    fn pick_string(&mut self) -> Ref {
        match self.pick() {
            Ref::Obj(i) if self.obj(i).ty == ObjTy::STRING => Ref::Obj(i),
            _ => Ref::Nil,
        }
    }

    fn store(&mut self) -> std::result::Result<(), Violation> {
        let Some(i) = self.pick_obj() else { return Ok(()) };
        let r = self.pick();
        let v = self.val(r);
        let at = Value::from_u64(self.obj(i).at);
        let ty = self.obj(i).ty;
        let s = self.obj(i).serial;
        match self.c.draw(4) {
            // instance variable
            0 => {
                let n = self.c.draw(10);
                if self.c.draw(5) == 4 {
                    at.cell().remove_ivar_by_ivarid(IvarId(n as u32));
                    if n < self.obj(i).ivars.len() {
                        self.obj(i).ivars[n] = None;
                    }
                    self.c.log(|| format!("{s}.ivar{n} removed"));
                    return Ok(());
                }
                if self.c.draw(8) == 7 && at.cell().sim_table().map_or(0, |t| t.len()) < n + 1 {
                    at.cell().extend_ivar(n + 1);
                    self.name_table(i);
                    self.c.log(|| format!("{s} ivar table of {n}"));
                }
                at.cell().set_ivar_by_ivarid(IvarId(n as u32), v);
                if self.obj(i).ivars.len() <= n {
                    self.obj(i).ivars.resize(n + 1, None);
                }
                self.obj(i).ivars[n] = Some(r);
                self.name_table(i);
                self.c.log(|| format!("{s}.ivar{n} = {r:?}"));
            }
            _ if ty == ObjTy::HASH => return self.hash_op(i),
            _ if ty == ObjTy::STRING || ty == ObjTy::OBJECT || width(ty).1 == 0 => {}
            1 | 2 => {
                let n = self.obj(i).kids.len();
                if n == 0 {
                    return Ok(());
                }
                let k = self.c.draw(n);
                if barriered(ty) && self.c.draw(6) == 5 {
                    at.cell().sim_store(k, v);
                    at.write_barrier_bulk();
                } else {
                    at.cell().sim_store(k, v);
                    if barriered(ty) {
                        at.write_barrier(v);
                    }
                }
                self.obj(i).kids[k] = r;
                self.c.log(|| format!("{s}[{k}] = {r:?}"));
            }
            _ => {
                // grow or shrink
                if !matches!(ty, ObjTy::ARRAY | ObjTy::EXCEPTION | ObjTy::FIBER | ObjTy::GENERATOR) {
                    return Ok(());
                }
                if self.c.draw(3) == 0 {
                    at.cell().sim_payload().unwrap().kids.pop();
                    self.obj(i).kids.pop();
                    self.c.log(|| format!("{s}.pop"));
                } else {
                    at.cell().sim_payload().unwrap().kids.push(v);
                    if barriered(ty) {
                        at.write_barrier(v);
                    }
                    self.obj(i).kids.push(r);
                    self.c.log(|| format!("{s}.push {r:?}"));
                }
            }
        }
        Ok(())
    }

    fn hash_op(&mut self, i: usize) -> std::result::Result<(), Violation> {
        let at = Value::from_u64(self.obj(i).at);
        let mut h = at.as_hash();
        let s = self.obj(i).serial;
        let mut vm = std::mem::replace(&mut self.vm, Executor { host: Box::leak(Box::new(NoHost)), temp: vec![], frames: vec![], args: vec![] });
        let r = (|| -> std::result::Result<(), Violation> {
            match self.c.draw(12) {
                0..=5 => {
                    let k = if self.obj(i).ident && self.c.chance(1, 2) { self.pick() } else { Ref::Int(self.c.draw(14) as i64) };
                    let r = self.pick();
                    let (kv, rv) = (self.val(k), self.val(r));
                    h.insert(kv, rv, &mut vm, &mut self.g).unwrap();
                    let o = self.obj(i);
                    match o.pairs.iter_mut().find(|p| p.0 == k) {
                        Some(p) => p.1 = r,
                        None => o.pairs.push((k, r)),
                    }
                    self.c.log(|| format!("{s}[{k:?}] = {r:?} (hash)"));
                }
                6 | 7 => {
                    if self.obj(i).pairs.is_empty() {
                        return Ok(());
                    }
                    let n = self.obj(i).pairs.len();
                    let n = self.c.draw(n);
                    let (k, _) = self.obj(i).pairs[n];
                    let kv = self.val(k);
                    h.remove(kv, &mut vm, &mut self.g).unwrap();
                    self.obj(i).pairs.remove(n);
                    self.c.log(|| format!("{s}.delete {k:?}"));
                }
                8 => {
                    if self.obj(i).pairs.iter().all(|p| !matches!(p.0, Ref::Obj(_))) || self.obj(i).ident {
                        h.compare_by_identity(&mut vm, &mut self.g).unwrap();
                        self.obj(i).ident = true;
                        self.c.log(|| format!("{s}.compare_by_identity"));
                    }
                }
                9 => {
                    h.clear().unwrap();
                    self.obj(i).pairs.clear();
                    self.c.log(|| format!("{s}.clear"));
                }
                10 => {
                    let r = self.pick();
                    let v = self.val(r);
                    h.set_defalut_value(v, &mut vm, &mut self.g).unwrap();
                    self.obj(i).default = r;
                    self.c.log(|| format!("{s}.default = {r:?}"));
                }
                _ => {
                    if self.obj(i).pairs.is_empty() {
                        return Ok(());
                    }
                    h.shift(&mut vm, &mut self.g).unwrap();
                    self.obj(i).pairs.remove(0);
                    self.c.log(|| format!("{s}.shift"));
                }
            }
            Ok(())
        })();
        self.vm = vm;
        r
    }

    fn copy(&mut self) -> std::result::Result<Option<usize>, Violation> {
        let Some(i) = self.pick_obj() else { return Ok(None) };
        let o = self.objs[i].as_ref().unwrap();
        if !matches!(o.ty, ObjTy::ARRAY | ObjTy::OBJECT | ObjTy::STRING | ObjTy::HASH | ObjTy::STRUCT | ObjTy::RANGE | ObjTy::COMPLEX) {
            return Ok(None);
        }
        let at = Value::from_u64(o.at);
        let clone = self.c.chance(1, 2);
        let before = al!(|a: &mut Allocator<RValue>| (a.page_count(), a.allocatable_slots(), a.empty_page_count(), a.total_allocated_pages()));
        let v = if clone { at.clone_value() } else { at.dup() };
        let (ty, old, frozen) = (o.ty, o.serial, o.frozen && clone && v.is_frozen());
        self.placed(before)?;
        if v.rvalue().ty() != ty {
            return bad("copy", format!("copy of object {old} has another type"));
        }
        self.serial += 1;
        let serial = self.serial;
        let mut v = v;
        v.change_class(ClassId::new(serial));
        self.c.log(|| format!("{serial} = {old}.{}", if clone { "clone" } else { "dup" }));
        let j = self.enter(v, ty, serial, 0)?;
        let o = self.objs[i].as_ref().unwrap();
        let (kids, ivars, pairs, ident, default) = (o.kids.clone(), o.ivars.clone(), o.pairs.clone(), o.ident, o.default);
        let d = self.obj(j);
        d.kids = kids;
        d.ivars = ivars;
        d.pairs = pairs;
        d.ident = ident;
        d.default = default;
        d.frozen = frozen;
        self.intact(j)?;
        Ok(Some(j))
    }

    fn set_root(&mut self, r: Ref) {
        let n = self.c.draw(self.roots.len());
        self.roots[n] = r;
        self.c.log(|| format!("root{n} = {r:?}"));
    }

    fn step(&mut self) -> std::result::Result<(), Violation> {
        match self.c.weighted(&[30, 30, 12, 6, 10, 4, 3, 3, 4, 3, 2, 2, 1]) {
            0 => {
                let i = self.new_object()?;
                self.set_root(Ref::Obj(i));
            }
            1 => {
                // make and attach
                if self.c.chance(1, 2)
                    && let Some(p) = self.pick_obj()
                    && matches!(self.obj(p).ty, ObjTy::ARRAY)
                {
                    let i = self.new_object()?;
                    let v = self.val(Ref::Obj(i));
                    let at = Value::from_u64(self.obj(p).at);
                    at.cell().sim_payload().unwrap().kids.push(v);
                    at.write_barrier(v);
                    self.obj(p).kids.push(Ref::Obj(i));
                    let s = self.obj(p).serial;
                    self.c.log(|| format!("{s}.push {i}"));
                } else {
                    self.store()?;
                }
            }
            2 => self.store()?,
            3 => {
                let r = if self.c.chance(1, 2) { Ref::Nil } else { self.pick() };
                self.set_root(r);
            }
            4 => {
                self.c.log(|| "collection".into());
                self.c.fault("collection");
                alloc::request_gc(false);
                self.gc()?;
            }
            5 => {
                self.c.log(|| "full collection".into());
                self.c.fault("full collection");
                alloc::request_gc(true);
                self.forced = true;
                self.gc()?;
            }
            6 => {
                if let Some(i) = self.copy()? {
                    self.set_root(Ref::Obj(i));
                }
            }
            7 => {
                // garbage
                let slots = al!(|a: &mut Allocator<RValue>| a.available_slots() / a.page_count());
                let n = match self.c.draw(4) {
                    0 => 1 + self.c.draw(20),
                    1 => slots / 2 + self.c.draw(slots),
                    2 => slots * (1 + self.c.draw(3)),
                    _ => slots * (1 + self.c.draw(if slots > 1000 { 3 } else { 12 })),
                };
                self.c.log(|| format!("{n} garbage objects"));
                self.c.fault("garbage burst");
                let keep = if self.c.chance(1, 4) { 1 + self.c.draw(40) } else { 0 };
                let ty = KINDS[self.c.draw(5)];
                for k in 0..n {
                    let kids = if keep != 0 && k % keep == 0 { self.roots[0..1].to_vec() } else { vec![] };
                    let kids = if matches!(ty, ObjTy::ARRAY | ObjTy::STRUCT | ObjTy::OBJECT) { kids } else { vec![] };
                    let i = self.alloc(ty, kids)?;
                    if keep != 0 && k % keep == 0 && ty == ObjTy::ARRAY {
                        self.roots[0] = Ref::Obj(i);
                    }
                    if k % 64 == 0 {
                        self.due()?;
                    }
                }
            }
            8 => {
                // buffers
                let Some(i) = self.pick_obj() else { return Ok(()) };
                let at = Value::from_u64(self.obj(i).at);
                if let Some(p) = at.cell().sim_payload() {
                    let n = [0, 100, 5000, 70_000, 300_000, 900_000][self.c.draw(6)];
                    p.buf.set(n);
                    let s = self.obj(i).serial;
                    self.c.log(|| format!("{s} buffer of {n}"));
                    self.c.fault("buffer pressure");
                    if n > 0 && self.enabled && alloc::malloc_amount() >= alloc::malloc_gc_threshold() && !poll_flag::gc_requested() {
                        return bad("request", "buffers over the limit and no collection requested".into());
                    }
                }
            }
            9 => match self.c.draw(6) {
                0 => {
                    self.enabled = !self.enabled;
                    let e = self.enabled;
                    alloc::set_gc_enabled(e);
                    al!(|a: &mut Allocator<RValue>| a.gc_enabled = e);
                    self.c.log(|| format!("enabled {e}"));
                    self.c.fault("collection switched on or off");
                    if e {
                        self.pages_at_ack = al!(|a: &mut Allocator<RValue>| a.page_count());
                    }
                }
                1 => {
                    let on = self.c.chance(1, 3);
                    al!(|a: &mut Allocator<RValue>| a.set_stress(on));
                    self.c.log(|| format!("stress {on}"));
                    self.c.fault("stress switched");
                }
                2 => {
                    self.allow_major = self.c.chance(2, 3);
                    let on = self.allow_major;
                    self.minors = 0;
                    al!(|a: &mut Allocator<RValue>| a.set_allow_full_mark(on));
                    self.c.log(|| format!("full collections allowed {on}"));
                }
                3 => {
                    let on = self.c.chance(1, 2);
                    al!(|a: &mut Allocator<RValue>| a.set_profile_enabled(on));
                }
                4 => {
                    let on = self.c.chance(1, 2);
                    al!(|a: &mut Allocator<RValue>| a.set_measure_time(on));
                }
                _ => {
                    if let Some(i) = self.pick_obj() {
                        Value::from_u64(self.obj(i).at).set_frozen();
                        self.obj(i).frozen = true;
                    }
                }
            },
            10 => {
                // a long chain
                let n = [40, 200, 2000, 6000][self.c.draw(4)];
                let mut r = self.pick();
                let how = self.c.draw(3);
                self.c.log(|| format!("chain of {n}"));
                for _ in 0..n {
                    let i = match how {
                        0 => self.alloc(ObjTy::ARRAY, vec![r])?,
                        1 => self.alloc(ObjTy::OBJECT, vec![r])?,
                        _ => self.alloc(ObjTy::RANGE, vec![r, Ref::Nil])?,
                    };
                    r = Ref::Obj(i);
                }
                self.set_root(r);
            }
            11 => {
                // exchange the contents of two arrays
                let (Some(i), Some(j)) = (self.pick_obj(), self.pick_obj()) else { return Ok(()) };
                if i != j && self.obj(i).ty == ObjTy::ARRAY && self.obj(j).ty == ObjTy::ARRAY {
                    let (a, b) = (Value::from_u64(self.obj(i).at), Value::from_u64(self.obj(j).at));
                    a.cell().swap_kind(b.cell());
                    let (k, t) = (std::mem::take(&mut self.obj(i).kids), self.obj(i).tok);
                    let (k2, t2) = (std::mem::replace(&mut self.obj(j).kids, k), self.obj(j).tok);
                    self.obj(j).tok = t;
                    self.obj(i).tok = t2;
                    self.obj(i).kids = k2;
                    self.c.log(|| format!("swap {i} {j}"));
                }
            }
            _ => {
                // drop nearly everything
                for r in self.roots.iter_mut().skip(1) {
                    *r = Ref::Nil;
                }
                self.c.log(|| "roots cleared".into());
            }
        }
        self.safepoint()
    }
}

pub fn run(c: &mut Ctx) -> std::result::Result<(), Violation> {
    COARSE.with(|m| m.set(u64::MAX));
    let word: &'static mut u32 = Box::leak(Box::new(0));
    poll_flag::register(word as *mut u32);
    let nroots = 2 + c.draw(12);
    let mix: Vec<u32> = (0..=KINDS.len()).map(|_| c.draw(4) as u32).collect();
    let mix = if mix.iter().sum::<u32>() == 0 { vec![1; KINDS.len() + 1] } else { mix };
    let ops = 10 + c.draw(if c.thorough { 400 } else { 120 });
    c.set_ops(ops as u32);
    let mut s = Sim {
        objs: vec![],
        spare: vec![],
        by_addr: Default::default(),
        roots: vec![Ref::Nil; nroots],
        serial: 1000,
        tok: 0,
        frames: 0,
        vm: Executor { host: Box::leak(Box::new(NoHost)), temp: vec![], frames: vec![], args: vec![] },
        g: Globals { store: Store },
        allocated: 0,
        enabled: true,
        allow_major: true,
        minors: 0,
        pages_at_ack: 1,
        boxed: MAP_STATES.with(|m| m.get()),
        gcs: 0,
        mix,
        forced: false,
        c,
    };
    while s.c.next_op() {
        s.step()?;
    }
    // everything left is collected at the end
    if !s.enabled {
        s.enabled = true;
        alloc::set_gc_enabled(true);
        al!(|a: &mut Allocator<RValue>| a.gc_enabled = true);
    }
    s.c.log(|| "end".into());
    alloc::request_gc(true);
    s.forced = true;
    s.gc()?;
    for r in s.roots.iter_mut() {
        *r = Ref::Nil;
    }
    alloc::request_gc(true);
    s.forced = true;
    s.gc()?;
    if s.objs.iter().any(|o| o.is_some()) {
        return bad("leak", "objects remain without roots".into());
    }
    let left = MAP_STATES.with(|m| m.get()) - s.boxed;
    if left != 0 {
        return bad("destructor", format!("{left} hash tables were not destroyed with their hashes"));
    }
    if s.gcs > 3 {
        s.c.nontrivial();
    }
    Ok(())
}

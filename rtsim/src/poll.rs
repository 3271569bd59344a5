//! C14: requests to the interpreter through the poll word.
use crate::hooks::{self, Harness};
use crate::simstd::sync::atomic::{AtomicU32, Ordering};
use crate::world::{self, MS, US, cx, w};
use crate::*;
use simcore::{Ctx, Prop, Violation};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Owner {
    A,
    B,
    Nobody,
    Unknown,
}

/// One visit of a safepoint, until control leaves the thread or it returns.
#[derive(Default)]
struct Visit {
    id: u32,
    main: bool,
    /// Somebody else is alive.
    company: bool,
    tick_before: bool,
    tick_during: bool,
    soft_before: bool,
    soft_during: bool,
    gc_before: bool,
    quiet: bool,
    gc_ran: u32,
    delivered: Option<i32>,
    during: u32,
    raised: bool,
}

struct P {
    word: &'static AtomicU32,
    g: Globals,
    gc_req: bool,
    tick: bool,
    tick_soft: bool,
    /// Signals recorded and not seen by a draining safepoint since.
    def: u32,
    /// Signals that may or may not have been drained together with another.
    weak: u32,
    inflight: Vec<(i32, bool)>,
    visit: Option<Visit>,
    owner: Owner,
    busy: u32,
    live: Vec<Value>,
    visits: u32,
    stop: bool,
    /// An interpreter is being torn down: no signal arrives.
    torn: bool,
    signallers: u32,
    others: u32,
    ids: Vec<(u64, u64)>,
}

static mut P0: Option<P> = None;
#[allow(static_mut_refs)]
fn p() -> &'static mut P {
    unsafe { P0.as_mut().unwrap() }
}

fn bit(n: i32) -> u32 {
    1 << (n - 1)
}

const SIGS: [i32; 6] = [1, 2, 10, 15, 31, 32];

impl Harness for P {
    fn signal_sent(&mut self, n: i32) {
        self.inflight.push((n, self.owner != Owner::A));
    }
    fn signal_recorded(&mut self, n: i32) {
        let i = self.inflight.iter().position(|x| x.0 == n).unwrap();
        let (_, soft) = self.inflight.swap_remove(i);
        let soft = soft || self.owner != Owner::A;
        if let Some(v) = &mut self.visit {
            v.during |= bit(n);
        }
        match &self.visit {
            Some(v) if v.main => {
                if soft {
                    self.weak |= bit(n);
                }
            }
            _ if soft => self.weak |= bit(n),
            _ => self.def |= bit(n),
        }
    }
    fn trapped(&mut self, vm: &mut Executor, _: &mut Globals, n: i32) -> Result<Value> {
        cx().probe("signal delivered");
        if scheduler::current_thread(vm) != scheduler::main_thread(vm) {
            w().abort("offmain", format!("signal {n} was delivered on another thread than main"));
        }
        let Some(v) = &mut self.visit else {
            w().abort("invented", format!("signal {n} delivered outside a safepoint"));
        };
        if v.delivered.is_some() {
            w().abort("invented", "one safepoint delivered two signals".into());
        }
        v.delivered = Some(n);
        if cx().chance(1, 8) {
            cx().fault("handler_raises");
            v.raised = true;
            return Err(MonorubyErr::of(RUNTIME, "from handler"));
        }
        if cx().chance(1, 8) {
            poll_flag::set_gc();
            self.gc_req = true;
        }
        Ok(Value::nil())
    }
    fn gc(&mut self, _: &[u64], _: usize) {
        cx().probe("collection");
        if !self.gc_req {
            w().abort("invented", "a collection ran that nobody requested".into());
        }
        self.gc_req = false;
        match &mut self.visit {
            Some(v) => v.gc_ran += 1,
            None => w().abort("invented", "a collection ran outside a safepoint".into()),
        }
    }
    fn word_write(&mut self, _os: usize) {
        // another OS thread: the timer's tick, or a signal's arming (which
        // is accounted for by the handler's own notes)
        if self.inflight.is_empty() {
            cx().probe("tick");
            match &mut self.visit {
                Some(v) => v.tick_during = true,
                None => self.tick = true,
            }
        } else {
            // cannot tell a tick from an arming here
            match &mut self.visit {
                Some(v) => v.soft_during = true,
                None => self.tick_soft = true,
            }
        }
    }
    fn body(&mut self, vm: &mut Executor, g: &mut Globals, id: u64, _: Vec<Value>) -> Result<Value> {
        turn();
        while !p().stop {
            if !step(vm, g, false, id) {
                break;
            }
        }
        Ok(Value::nil())
    }
}

/// Another thread got to run.
fn turn() {
    if p().visit.is_some() {
        settle(true);
    }
}

fn settle(passed: bool) {
    let p = p();
    let v = p.visit.take().unwrap();
    let tick = v.tick_before || v.tick_during;
    if v.tick_before && v.company && !passed && !v.raised {
        w().abort("lost", "a timeslice tick was pending but the safepoint did not switch".into());
    }
    let soft = v.soft_before || v.soft_during;
    if passed && !tick && !soft {
        w().abort("invented", "a safepoint switched threads without a tick".into());
    }
    p.tick_soft = false;
    if passed {
        // entering consumed what was there; what came later may remain
        p.tick_soft = v.tick_during || v.soft_during;
    } else if v.raised || !v.company {
        p.tick_soft = tick || soft;
    } else {
        p.tick = v.tick_during;
        p.tick_soft = soft;
    }
    if v.gc_before && v.quiet && v.during == 0 && p.inflight.is_empty() && v.gc_ran == 0 && !v.raised {
        w().abort("lost", "a collection was requested but the safepoint did not collect".into());
    }
    if v.main {
        match v.delivered {
            None => {
                if p.def != 0 {
                    w().abort("lost", format!("signals {:#x} were pending but the safepoint delivered none", p.def));
                }
                // nothing drained: what came in meanwhile is pending
                p.weak &= !(p.weak & !v.during & v.during);
                if p.owner == Owner::A {
                    p.def |= v.during & !p.weak;
                } else {
                    p.weak |= v.during;
                }
            }
            Some(d) => {
                let all = p.def | p.weak | v.during | p.inflight.iter().fold(0, |a, x| a | bit(x.0));
                if all & bit(d) == 0 {
                    w().abort("invented", format!("signal {d} was delivered but not sent since it was last drained"));
                }
                if p.def != 0 && p.def.trailing_zeros() < (d - 1) as u32 {
                    w().abort("order", format!("signal {d} was delivered before lower ones ({:#x})", p.def));
                }
                p.def = 0;
                // what overlapped may have been drained along with it
                p.weak = v.during;
                for x in &mut p.inflight {
                    x.1 = true;
                }
            }
        }
    }
}

fn safepoint(vm: &mut Executor, g: &mut Globals, main: bool) {
    {
        let p = p();
        p.visits += 1;
        p.visit = Some(Visit {
            id: p.visits,
            main,
            company: !main || p.live.iter().any(|t| !t.as_thread_inner().is_dead()),
            tick_before: std::mem::take(&mut p.tick),
            soft_before: p.tick_soft,
            gc_before: p.gc_req,
            quiet: p.def == 0 && p.weak == 0 && p.inflight.is_empty(),
            ..Visit::default()
        });
    }
    let id = p().visits;
    let q = p();
    let alive = q.live.iter().filter(|t| !t.as_thread_inner().is_dead()).count() as u64;
    cx().state(
        q.word.peek() as u64
            ^ (q.def as u64) << 20
            ^ (q.weak as u64) << 28
            ^ (q.inflight.len() as u64) << 52
            ^ alive << 56
            ^ (q.owner as u64) << 59
            ^ (main as u64) << 62,
    );
    if p().word.load(Ordering::Relaxed) != 0 {
        cx().log(|| format!("safepoint ({})", if main { "main" } else { "thread" }));
        if executor::execute_gc(vm, g).is_none() {
            let e = vm.take_error();
            if !e.message.contains("handler") {
                w().abort("error", format!("the safepoint failed: {}", e.message));
            }
        }
    }
    match &p().visit {
        Some(v) if v.id == id => settle(false),
        _ => turn(),
    }
}

/// One step of a Ruby thread; false when the run's work is done.
fn step(vm: &mut Executor, g: &mut Globals, main: bool, id: u64) -> bool {
    let Some(()) = cx().next_op().then_some(()) else { return false };
    match cx().weighted(&[8, 4, 3, 2, if main { 1 } else { 0 }, 2]) {
        0 => safepoint(vm, g, main),
        1 => {
            cx().log(|| format!("thread {id}: request a collection"));
            poll_flag::set_gc();
            p().gc_req = true;
            // a poll with the request in place must collect even if a
            // signal is only being recorded right now
        }
        2 => {
            let d = [10 * US, MS, 5 * MS, 11 * MS, 25 * MS][cx().draw(5) as usize];
            cx().log(|| format!("thread {id}: compute {} us", d / US));
            w().advance(d);
        }
        3 => {
            cx().log(|| format!("thread {id}: pass"));
            if let Err(e) = scheduler::pass(vm, g) {
                w().abort("error", format!("pass failed: {}", e.message));
            }
            turn();
        }
        4 => {
            cx().log(|| "adopt the signal registry".into());
            own(Owner::Unknown);
            p().busy += 1;
            poll_flag::adopt_signal_registry();
            p().busy -= 1;
            own(Owner::A);
        }
        _ => {
            for _ in 0..3 {
                w().yield_point();
            }
        }
    }
    true
}

fn own(o: Owner) {
    let p = p();
    p.owner = if p.busy > 0 { Owner::Unknown } else { o };
    if p.owner != Owner::A {
        for x in &mut p.inflight {
            x.1 = true;
        }
    }
}

fn signaller() {
    let n = 1 + cx().draw(4);
    for _ in 0..n {
        let d = [0, 100 * US, 3 * MS, 20 * MS][cx().draw(4) as usize];
        if d > 0 {
            w().os_sleep(d);
        }
        let s = SIGS[cx().draw(SIGS.len())];
        w().os_wait(|| !p().torn);
        w().raise_signal(s);
        w().intr = false;
    }
    p().signallers -= 1;
}

/// Another interpreter in the same process.
fn other() {
    let rounds = 1 + cx().draw(2);
    for _ in 0..rounds {
        let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
        own(Owner::Unknown);
        p().busy += 1;
        poll_flag::register(word.as_ptr());
        p().busy -= 1;
        own(Owner::B);
        preempt::register_flag(word.as_ptr());
        if cx().chance(1, 2) {
            preempt::on_thread_count(2);
        }
        for _ in 0..1 + cx().draw(4) {
            match cx().draw(4) {
                0 => {
                    poll_flag::set_gc();
                    if !poll_flag::gc_requested() {
                        w().abort("lost", "a request in a second interpreter did not register".into());
                    }
                    poll_flag::clear_gc();
                    if poll_flag::gc_requested() {
                        w().abort("invented", "an answered request is still there".into());
                    }
                }
                1 => w().os_sleep(12 * MS),
                2 => {
                    poll_flag::set_preempt();
                    if !poll_flag::consume_preempt() {
                        w().abort("lost", "a switch request in a second interpreter did not register".into());
                    }
                }
                _ => w().yield_point(),
            }
        }
        // no handler is half way through when it goes away (assumption)
        p().torn = true;
        w().os_wait(|| p().inflight.is_empty());
        let was = p().owner;
        own(if was == Owner::A { Owner::A } else { Owner::Unknown });
        poll_flag::unregister(word.as_ptr());
        preempt::codegen_dropped();
        if p().owner != Owner::A {
            own(Owner::Nobody);
        }
        w().dead_words.push(word.as_ptr() as usize);
        p().torn = false;
        cx().probe("second interpreter");
    }
    p().others -= 1;
}

fn interp() {
    let c = cx();
    w().switch = [0, 16, 64, 128, 200][c.draw(5) as usize];
    w().slice = [1, 2, 6][c.draw(3) as usize];
    let n = [20, 60, 150][c.draw(3)];
    c.set_ops(n);
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    unsafe {
        P0 = Some(P {
            word,
            g: Globals::default(),
            gc_req: false,
            tick: false,
            tick_soft: false,
            def: 0,
            weak: 0,
            inflight: vec![],
            visit: None,
            owner: Owner::A,
            busy: 0,
            live: vec![],
            visits: 0,
            stop: false,
            torn: false,
            signallers: 0,
            others: 0,
            ids: vec![],
        });
    }
    hooks::set(p());
    poll_flag::register(word.as_ptr());
    preempt::register_flag(word.as_ptr());
    w().watch = Some(word.as_ptr() as usize);
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let g: &'static mut Globals = Box::leak(Box::new(Globals::default()));
    let n = 1 + c.draw(2);
    for i in 0..n {
        let t = Value::new_thread(THREAD_CLASS, value::rvalue::ThreadInner::new(Proc(i as u64 + 1), vec![]));
        scheduler::spawn(vm, t);
        p().live.push(t);
    }
    let k = c.draw(3) as u32;
    p().signallers = k;
    for _ in 0..k {
        w().spawn_os("signaller", Box::new(signaller));
    }
    if c.chance(1, 4) {
        p().others = 1;
        w().spawn_os("other", Box::new(other));
    }
    while step(vm, g, true, 0) {}
    // let everything come to rest
    while !w().block(&mut || p().signallers == 0 && p().others == 0 && p().inflight.is_empty(), None) {
        w().intr = false;
    }
    w().switch = 0;
    let weak = p().weak != 0 || p().owner != Owner::A;
    if weak {
        poll_flag::adopt_signal_registry();
        poll_flag::set_gc();
        p().gc_req = true;
    }
    for _ in 0..6 {
        safepoint(vm, g, true);
    }
    let q = p();
    if q.gc_req {
        w().abort("lost", "a collection request was never answered".into());
    }
    if codegen::signal_table::has_pending_signals() || q.def != 0 {
        w().abort("lost", "a signal was never drained".into());
    }
    q.stop = true;
    for _ in 0..100 {
        if q.live.iter().all(|t| t.as_thread_inner().is_dead()) {
            break;
        }
        let _ = scheduler::pass(vm, g);
        turn();
    }
    // teardown
    w().switch = [0, 100][cx().draw(2) as usize];
    poll_flag::unregister(word.as_ptr());
    preempt::codegen_dropped();
    w().dead_words.push(word.as_ptr() as usize);
    w().watch = None;
    for _ in 0..4 {
        w().advance(7 * MS);
        w().raise_signal(15);
        poll_flag::set_gc();
        poll_flag::clear_signal();
        w().advance(7 * MS);
    }
    cx().nontrivial();
}

fn run(ctx: &mut Ctx) -> std::result::Result<(), Violation> {
    world::run(ctx, interp)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        isolate: true,
        quick_runs: 250_000,
        quick_secs: 45.0,
        rule: "requests recorded by the harness at the moment they complete must be answered by the next safepoint that may answer them, and nothing else may be",
        measure: "(request word, signals recorded and possibly recorded, handlers in flight, live threads, owner of the signal registry, thread) at each safepoint",
        real: &["monoruby/src/poll_flag.rs", "monoruby/src/codegen/signal_table.rs", "monoruby/src/preempt.rs", "monoruby/src/scheduler.rs", "execute_gc of monoruby/src/executor.rs"],
        stub: &["collector", "trap handlers", "OS threads, clock and signals"],
        assumptions: &["sequentially consistent memory", "no handler is half way through while its interpreter is torn down"],
        ..Prop::base("C14", run)
    }]
}

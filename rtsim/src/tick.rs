//! C15: the timeslice timer.
use crate::hooks::{self, Harness};
use crate::simstd::sync::atomic::AtomicU32;
use crate::world::{self, MS, US, cx, w};
use crate::*;
use simcore::{Ctx, Prop, Violation};

const TICK: u64 = 10 * MS;
/// Longest time without a tick while two threads are alive, or with ticks
/// after fewer are.
const BOUND: u64 = 5 * TICK;

struct T {
    writes: Vec<(u64, usize)>,
    live: usize,
    since: u64,
    calm: u64,
}

static mut T0: Option<T> = None;
#[allow(static_mut_refs)]
fn t() -> &'static mut T {
    unsafe { T0.as_mut().unwrap() }
}

impl Harness for T {
    fn word_write(&mut self, os: usize) {
        let now = w().now;
        cx().probe("tick");
        if w().max_late > 0 {
            cx().fault("timer_late");
        }
        cx().log(|| format!("  tick by os thread {os} at {} us", now / US));
        if self.live < 2 && now > self.since + BOUND {
            w().abort("tick", format!("a tick {} us after fewer than two threads were left", (now - self.since) / US));
        }
        self.writes.push((now, os));
        let n = self.writes.iter().filter(|x| x.0 + 10 * TICK > now).count();
        if n > 15 {
            w().abort("rate", format!("{n} ticks within ten periods: more than one timer is active"));
        }
        self.calm = now;
    }
}

fn judge() {
    let t = t();
    let from = t.calm.max(t.since);
    if t.live >= 2 && w().now > from + BOUND + 4 * w().max_late {
        w().abort("silent", format!("no tick for {} us while {} threads are alive", (w().now - from) / US, t.live));
    }
}

fn interp() {
    let c = cx();
    w().switch = [0, 32, 128, 200][c.draw(4) as usize];
    w().slice = [1, 2, 5][c.draw(3) as usize];
    w().max_late = [0, MS, 4 * MS][c.draw(3) as usize];
    let n = [10, 40, 120][c.draw(3)];
    c.set_ops(n);
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    unsafe { T0 = Some(T { writes: vec![], live: 1, since: w().now, calm: w().now }) };
    hooks::set(t());
    w().watch = Some(word.as_ptr() as usize);
    poll_flag::register(word.as_ptr());
    preempt::register_flag(word.as_ptr());
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let mut word = word;
    while cx().next_op() {
        match cx().weighted(&[8, 8, 6, 4, 1, 1]) {
            4 => {
                // the process forks and goes on as the child
                cx().fault("fork");
                cx().log(|| "fork".into());
                w().vanish_others();
                scheduler::fork_child_reset_threads(vm);
                t().writes.clear();
                t().since = w().now;
                // its own threads count from here
                let n = 1 + cx().draw(3);
                t().live = n;
                preempt::on_thread_count(n);
            }
            5 => {
                // the interpreter is torn down and another one set up
                cx().fault("restart");
                cx().log(|| "teardown and setup".into());
                poll_flag::unregister(word.as_ptr());
                preempt::codegen_dropped();
                w().dead_words.push(word.as_ptr() as usize);
                w().watch = None;
                t().live = 1;
                t().writes.clear();
                w().advance([0, 5 * MS, 30 * MS][cx().draw(3)]);
                word = Box::leak(Box::new(AtomicU32::new(0)));
                w().watch = Some(word.as_ptr() as usize);
                poll_flag::register(word.as_ptr());
                preempt::register_flag(word.as_ptr());
                t().since = w().now;
            }
            0 => {
                let d = [0, 20 * US, MS, 9 * MS, 10 * MS, 11 * MS, 30 * MS, 200 * MS][cx().draw(8) as usize];
                cx().log(|| format!("compute {} us", d / US));
                // in small steps, like code between safepoints
                let mut left = d;
                while left > 0 {
                    let s = left.min(2 * MS);
                    w().advance(s);
                    left -= s;
                    judge();
                }
            }
            1 => {
                let n = 1 + cx().draw(4) as usize;
                cx().log(|| format!("{n} threads alive at {} us", w().now / US));
                let was = t().live;
                preempt::on_thread_count(n);
                if (was < 2) != (n < 2) {
                    t().since = w().now;
                }
                t().live = n;
                cx().state(n as u64 ^ (w().os.len() as u64) << 8 ^ (w().now / (500 * US) % 20) << 32);
            }
            2 => {
                // quick churn
                for n in [2, 1, 2] {
                    let was = t().live;
                    preempt::on_thread_count(n);
                    if (was < 2) != (n < 2) {
                        t().since = w().now;
                    }
                    t().live = n;
                }
                cx().probe("churn");
            }
            _ => {
                w().yield_point();
                if poll_flag::consume_preempt() {
                    cx().probe("consumed");
                }
            }
        }
        judge();
    }
    // torn down with the timer in any state
    poll_flag::unregister(word.as_ptr());
    preempt::codegen_dropped();
    w().dead_words.push(word.as_ptr() as usize);
    w().watch = None;
    w().advance(40 * MS);
    if w().os.iter().any(|o| !matches!(o.state, world::OsState::Done | world::OsState::Gone)) {
        w().abort("leak", "a timer thread is still there four periods after the teardown".into());
    }
    cx().nontrivial();
}

fn run(ctx: &mut Ctx) -> std::result::Result<(), Violation> {
    world::run(ctx, interp)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        isolate: true,
        quick_runs: 250_000,
        quick_secs: 45.0,
        rule: "a tick at least every five periods while two threads are alive, none five periods after fewer are, never more than the rate of one timer, no access after teardown",
        measure: "(live threads, timers started so far, phase of the tick period in half milliseconds) at each change",
        real: &["monoruby/src/preempt.rs", "monoruby/src/poll_flag.rs"],
        stub: &["OS threads and clock"],
        assumptions: &["sequentially consistent memory"],
        ..Prop::base("C15", run)
    }]
}

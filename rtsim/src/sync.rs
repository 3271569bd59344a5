//! C24-C28: the mutexes, queues, condition variables and monitors of the Ruby
//! library. Their Ruby code runs on the real scheduler; timeslices may end at
//! every safepoint and threads are interrupted, killed and woken anywhere.
use crate::rb::{self, Args, Ctl, Cx, R};
use crate::simstd::sync::atomic::AtomicU32;
use crate::world::{MS, SEC, US, cx, w};
use crate::*;
use simcore::{Ctx, Prop, Violation};
use std::collections::HashMap;
use std::time::Duration;
use value::rvalue::ThreadInner;

const MAX_THREADS: usize = 7;
const OPS: usize = 25;
const LIMIT: u64 = 60_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Do {
    Run,
    Sleep,
    /// lock or synchronize before its block
    Lock(usize),
    Unlock(usize),
    /// something that must be refused at once
    Misuse,
    /// asleep or taking the lock again
    LockSleep(usize),
    Wait(usize, usize),
    Push(usize),
    Pop(usize),
}

struct T {
    v: Value,
    doing: Do,
    until: Option<u64>,
    /// Time to wait, and how long the process had waited when it began.
    limit: (u64, u64),
    /// Locks it must hold, once for each time it entered.
    held: Vec<usize>,
    /// Monitors that may be entered once more, after an interruption.
    unsure: Vec<usize>,
    /// Woken by somebody since it began to wait.
    woken: bool,
    ended: bool,
}

/// A condition variable.
struct Cv {
    v: Value,
    lock: usize,
    waits: Vec<usize>,
    /// So many of the waits must end.
    owed: usize,
    signals: u64,
    /// Signals being sent.
    sending: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Push {
    Going,
    Done,
    /// Interrupted: it may have happened.
    Maybe,
    Failed,
}

struct Item {
    start: u64,
    end: u64,
    push: Push,
    /// Times of the pop.
    pop: Option<(u64, u64)>,
    maybe_cleared: bool,
}

struct Q {
    v: Value,
    sized: bool,
    items: HashMap<i64, Item>,
    /// Pops that were interrupted: one item each may be gone.
    lost: usize,
    /// Start and end of the first finished close.
    close_start: u64,
    close_end: u64,
    clears: Vec<(u64, u64)>,
    clearing: Vec<u64>,
    /// Largest capacity since the last look, smallest is not needed.
    cap_hi: i64,
    len: i64,
    resizing: u32,
    waits: Vec<usize>,
}

struct S {
    th: Vec<T>,
    lock: Vec<Value>,
    cv: Vec<Cv>,
    q: Vec<Q>,
    word: &'static AtomicU32,
    weights: [u32; OPS],
    cx: Cx,
    prop: u32,
    seq: u64,
    steps: u64,
    stop: bool,
    ints: u64,
    next_item: i64,
    /// Chance of the timeslice ending at a safepoint, in 1/64.
    tick: u32,
    /// Time spent computing; the process waited for the rest.
    busy: u64,
    /// Monitors made by including the module.
    mixed: Vec<usize>,
}

static mut S0: Option<S> = None;
#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { S0.as_mut().unwrap() }
}

fn bad(class: &str, msg: String) -> ! {
    w().abort(class, msg)
}

fn name(i: usize) -> String {
    if i == 0 { "main".into() } else { format!("t{i}") }
}

fn seq() -> u64 {
    s().seq += 1;
    s().seq
}

fn monitors() -> bool {
    s().prop == 28
}

fn alive(i: usize) -> bool {
    !s().th[i].ended && !s().th[i].v.as_thread_inner().is_dead()
}

/// Why a call did not return.
#[derive(PartialEq, Debug)]
enum Why {
    Killed,
    Interrupted,
    /// raised by the block of the harness
    Own,
    Error(ClassId, String),
}

fn why(e: &Ctl) -> Why {
    match e {
        Ctl::Err(e) => {
            if matches!(e.kind(), MonorubyErrKind::Throw(..)) {
                Why::Killed
            } else if e.message.starts_with("int ") {
                Why::Interrupted
            } else if e.message == "own" {
                Why::Own
            } else {
                Why::Error(e.class_id(), e.message.clone())
            }
        }
        e => rb::cannot(format!("control left a call: {}", rb::describe(e))),
    }
}

fn strange(i: usize, what: &str, e: &Ctl) -> ! {
    bad("error", format!("{}: {what} raised {}", name(i), rb::describe(e)))
}

/// Any interruption is passed on, other errors are not expected.
fn only_interrupts(i: usize, what: &str, e: &Ctl) {
    if let Why::Error(..) = why(e) {
        strange(i, what, e)
    }
}

/// A call that answers with its receiver.
fn is_self(i: usize, what: &str, recv: Value, r: &R) {
    if let Ok(v) = r
        && *v != recv
    {
        bad("result", format!("{}: {what} answered {}", name(i), rb::to_s(*v)));
    }
}

fn ask(v: Value, name: &str) -> Value {
    match rb::peek(s().cx, v, name, Args::default()) {
        Ok(v) => v,
        Err(e) => bad("error", format!("{name} raised {}", rb::describe(&e))),
    }
}

fn ask_as(cx: Cx, v: Value, name: &str) -> bool {
    match rb::peek(cx, v, name, Args::default()) {
        Ok(v) => v.as_bool(),
        Err(e) => bad("error", format!("{name} raised {}", rb::describe(&e))),
    }
}

/// Called at every safepoint.
fn safepoint(vm: &mut Executor, g: &mut Globals) -> Result<()> {
    s().steps += 1;
    if s().steps > LIMIT {
        s().stop = true;
        if s().steps > 4 * LIMIT {
            bad("livelock", "the threads run without getting anywhere".into());
        }
    }
    if cx().chance(1, 6) {
        let d = [1, 10, 100][cx().draw(3)] * (1 + cx().draw(9) as u64) * US;
        let t = w().now;
        w().advance(d);
        s().busy += w().now - t;
    }
    if s().tick > 0 && cx().chance(s().tick, 64) {
        poll_flag::set_preempt();
    }
    if s().word.peek() == 0 {
        return Ok(());
    }
    cx().probe("safepoint taken");
    match executor::execute_gc(vm, g) {
        Some(_) => Ok(()),
        None => Err(vm.take_error()),
    }
}

fn dur() -> u64 {
    match cx().draw(5) {
        0 => 1 + cx().draw(20) as u64,
        1 => 50 * US,
        2 => 300 * US,
        3 => MS,
        _ => 4 * MS,
    }
}

fn secs(d: u64) -> Value {
    rb::flt(d as f64 / 1e9)
}

fn begin(i: usize, d: Do, until: Option<u64>) {
    let t = &mut s().th[i];
    t.doing = d;
    t.until = until;
    t.limit = (until.map_or(0, |u| u.saturating_sub(w().now)), w().now - s().busy);
    t.woken = false;
}

fn done(i: usize) {
    s().th[i].doing = Do::Run;
    s().th[i].until = None;
}

fn sleep(i: usize, c: Cx, d: u64) -> R<()> {
    let start = w().now;
    begin(i, Do::Sleep, Some(start + d));
    let r = scheduler::sleep(c.vm(), c.g(), Some(Duration::from_nanos(d)));
    done(i);
    if r.is_ok() && w().now < start + d && !s().th[i].woken {
        bad("early", format!("{} slept {} ns instead of {d} although nobody woke it", name(i), w().now - start));
    }
    r?;
    Ok(())
}

// ---- locks ------------------------------------------------------------------

fn holds(i: usize, m: usize) -> bool {
    s().th[i].held.contains(&m)
}

fn outside(i: usize, m: usize) -> bool {
    matches!(s().th[i].doing, Do::LockSleep(x) | Do::Wait(x, _) if x == m)
}

/// `i` has just been given lock `m`.
fn acquired(i: usize, m: usize) {
    for j in 0..s().th.len() {
        if j != i && alive(j) && holds(j, m) && !outside(j, m) {
            bad("exclusion", format!("{} and {} both hold lock {m}", name(i), name(j)));
        }
    }
}

/// One of the two names of a monitor's method; an object that includes
/// monitor methods has only the second.
fn either(a: &'static str, b: &'static str, m: usize) -> &'static str {
    if s().mixed.contains(&m) || cx().chance(1, 2) { b } else { a }
}

fn owned(c: Cx, m: usize) -> bool {
    ask_as(c, s().lock[m], if monitors() { "mon_owned?" } else { "owned?" })
}

fn check_held(i: usize, c: Cx, m: usize) {
    if !holds(i, m) {
        return;
    }
    if !owned(c, m) {
        bad("lost", format!("{} is inside lock {m} and does not own it", name(i)));
    }
    if !ask_as(c, s().lock[m], if monitors() { "mon_locked?" } else { "locked?" }) {
        bad("lost", format!("{} is inside lock {m} which reports to be free", name(i)));
    }
}

fn release(i: usize, m: usize) {
    let h = &mut s().th[i].held;
    let k = h.iter().rposition(|x| *x == m).unwrap();
    h.remove(k);
}

/// The block inside a lock. `m` is held throughout.
fn inside(i: usize, c: Cx, m: usize, depth: u32) -> R<()> {
    check_held(i, c, m);
    for _ in 0..cx().draw(4) {
        match cx().draw(4) {
            0 => c.poll()?,
            1 => sleep(i, c, dur())?,
            _ => {
                if cx().next_op() {
                    op(i, c, depth + 1)?
                }
            }
        }
        check_held(i, c, m);
    }
    if cx().chance(1, 12) {
        return rb::raise(RUNTIME, "own");
    }
    Ok(())
}

/// A lock this thread may take without waiting for itself in a circle.
fn pick_lock(i: usize) -> Option<usize> {
    let n = s().lock.len();
    if monitors() && !s().th[i].held.is_empty() && cx().chance(1, 3) {
        // enter again
        return s().th[i].held.last().copied();
    }
    let lo = s().th[i].held.iter().max().map_or(0, |x| x + 1);
    if lo >= n {
        return None;
    }
    Some(lo + cx().draw(n - lo))
}

fn synchronize(i: usize, c: Cx, m: usize, depth: u32, f: impl Fn(Cx) -> R<()> + 'static) -> R<()> {
    cx().log(|| format!("{} synchronize {m}", name(i)));
    begin(i, Do::Lock(m), None);
    let b = move |c: Cx, _: &[Value]| -> R {
        done(i);
        cx().log(|| format!("{} is in {m}", name(i)));
        acquired(i, m);
        s().th[i].held.push(m);
        let r = f(c);
        check_held(i, c, m);
        release(i, m);
        begin(i, Do::Unlock(m), None);
        cx().log(|| format!("{} ends {m}{}", name(i), if r.is_err() { " (raised)" } else { "" }));
        r?;
        Ok(Value::integer(7000 + m as i64))
    };
    let _ = depth;
    let nm = if monitors() && cx().chance(1, 2) { "mon_synchronize" } else { "synchronize" };
    let r = rb::call(c, s().lock[m], nm, Args::default().block(b));
    done(i);
    let again = holds(i, m);
    if owned(c, m) != again && !s().th[i].unsure.contains(&m) {
        bad(
            "leak",
            format!("{} left synchronize {m} {} and {} it", name(i), r.as_ref().err().map_or("".into(), rb::describe), if again { "no longer owns" } else { "still owns" }),
        );
    }
    match r {
        Ok(v) => {
            if v != Value::integer(7000 + m as i64) {
                bad("result", format!("{}: synchronize did not answer with the value of its block", name(i)));
            }
            cx().probe("synchronized");
            Ok(())
        }
        Err(e) => {
            only_interrupts(i, "synchronize", &e);
            cx().probe("synchronize interrupted");
            Err(e)
        }
    }
}

fn lock(i: usize, c: Cx, m: usize) -> R<()> {
    cx().log(|| format!("{} lock {m}", name(i)));
    let again = holds(i, m);
    begin(i, Do::Lock(m), None);
    let r = rb::call(c, s().lock[m], if monitors() { either("enter", "mon_enter", m) } else { "lock" }, Args::default());
    done(i);
    if !monitors() {
        is_self(i, "lock", s().lock[m], &r);
    }
    match r {
        Ok(_) => {
            acquired(i, m);
            s().th[i].held.push(m);
            cx().log(|| format!("{} has {m}", name(i)));
            check_held(i, c, m);
            Ok(())
        }
        Err(e) => {
            if again && monitors() {
                only_interrupts(i, "enter", &e);
                s().th[i].unsure.push(m);
                return Err(e);
            }
            if owned(c, m) != again {
                bad("leak", format!("lock {m} was interrupted and {} owns it", name(i)));
            }
            only_interrupts(i, "lock", &e);
            cx().probe("lock interrupted");
            Err(e)
        }
    }
}

fn unlock(i: usize, c: Cx, m: usize) -> R<()> {
    cx().log(|| format!("{} unlock {m}", name(i)));
    check_held(i, c, m);
    release(i, m);
    let again = holds(i, m);
    begin(i, Do::Unlock(m), None);
    let r = rb::call(c, s().lock[m], if monitors() { either("exit", "mon_exit", m) } else { "unlock" }, Args::default());
    done(i);
    if !monitors() {
        is_self(i, "unlock", s().lock[m], &r);
    }
    if let Err(e) = r {
        only_interrupts(i, "unlock", &e);
        // not done yet?
        if again {
            s().th[i].unsure.push(m);
        } else if owned(c, m) {
            s().th[i].held.push(m);
        }
        return Err(e);
    }
    if owned(c, m) != again && !s().th[i].unsure.contains(&m) {
        bad("leak", format!("{} unlocked {m} and {} it", name(i), if again { "no longer owns" } else { "still owns" }));
    }
    Ok(())
}

/// Gives back what is still held, however often interrupted.
fn let_go(i: usize, c: Cx, base: usize) -> R<()> {
    let mut last = Ok(());
    for _ in 0..200 {
        if s().th[i].held.len() <= base {
            let Some(&m) = s().th[i].unsure.last() else { return last };
            if !owned(c, m) {
                s().th[i].unsure.pop();
                continue;
            }
            if let Err(e) = rb::call(c, s().lock[m], "mon_exit", Args::default()) {
                only_interrupts(i, "exit", &e);
                if why(&e) == Why::Killed {
                    return Err(e);
                }
                last = Err(e);
            }
            continue;
        }
        let m = *s().th[i].held.last().unwrap();
        if monitors() && !owned(c, m) {
            // an interrupted exit did its work
            release(i, m);
            continue;
        }
        if let Err(e) = unlock(i, c, m) {
            if why(&e) == Why::Killed {
                return Err(e);
            }
            last = Err(e);
        }
    }
    bad("leak", format!("{} cannot release its locks", name(i)));
}

fn try_lock(i: usize, c: Cx, m: usize) -> R<bool> {
    let again = holds(i, m);
    // somebody may be in the course of taking it
    let taken = |s: &S| {
        s.th.iter()
            .enumerate()
            .any(|(j, t)| j != i && !t.ended && (t.held.contains(&m) || matches!(t.doing, Do::Lock(x) | Do::Unlock(x) | Do::LockSleep(x) | Do::Wait(x, _) if x == m)))
    };
    let t0 = taken(s());
    let steps = s().steps;
    let r = rb::call(c, s().lock[m], if monitors() { either("try_enter", "mon_try_enter", m) } else { "try_lock" }, Args::default());
    match r {
        Ok(v) => {
            cx().log(|| format!("{} try_lock {m}: {}", name(i), v.as_bool()));
            if v.as_bool() {
                if again && !monitors() {
                    bad("exclusion", format!("{} locked {m} twice", name(i)));
                }
                acquired(i, m);
                s().th[i].held.push(m);
                check_held(i, c, m);
                return Ok(true);
            }
            if again && monitors() {
                bad("refused", format!("{} owns monitor {m} and was refused", name(i)));
            }
            let alone = s().steps <= steps + 1;
            if !again && !t0 && alone && !taken(s()) {
                bad("refused", format!("{} was refused lock {m} which nobody has", name(i)));
            }
            Ok(false)
        }
        Err(e) => {
            if !again && owned(c, m) {
                bad("leak", format!("try_lock {m} was interrupted and {} owns it", name(i)));
            }
            only_interrupts(i, "try_lock", &e);
            Err(e)
        }
    }
}

/// Misuse is refused and changes nothing.
fn misuse(i: usize, c: Cx) -> R<()> {
    let m = cx().draw(s().lock.len());
    if holds(i, m) {
        if monitors() {
            return Ok(());
        }
        cx().log(|| format!("{} locks {m} again", name(i)));
        begin(i, Do::Misuse, None);
        let r = rb::call(c, s().lock[m], "lock", Args::default());
        done(i);
        match r {
            Ok(_) => bad("misuse", format!("{} locked {m} twice", name(i))),
            Err(e) => match why(&e) {
                Why::Error(THREADERR, _) => {}
                Why::Error(..) => strange(i, "second lock", &e),
                _ => return Err(e),
            },
        }
        check_held(i, c, m);
        return Ok(());
    }
    cx().log(|| format!("{} unlocks {m} of others", name(i)));
    begin(i, Do::Misuse, None);
    let r = rb::call(c, s().lock[m], if monitors() { either("exit", "mon_exit", m) } else { "unlock" }, Args::default());
    done(i);
    match r {
        Ok(_) => bad("misuse", format!("{} unlocked {m} which it does not own", name(i))),
        Err(e) => match why(&e) {
            Why::Error(THREADERR, _) => Ok(()),
            Why::Error(..) => strange(i, "unlock", &e),
            _ => Err(e),
        },
    }
}

// ---- condition variables ------------------------------------------------------

/// A call that must be refused with an ArgumentError and change nothing.
fn refused(i: usize, c: Cx, what: &str, v: Value, name: &str, a: Args) -> R<()> {
    cx().log(|| format!("{} tries {what}", self::name(i)));
    cx().fault("invalid argument");
    begin(i, Do::Misuse, None);
    let r = rb::call(c, v, name, a);
    done(i);
    match r {
        Ok(v) => bad("misuse", format!("{}: {what} answered {}", self::name(i), rb::to_s(v))),
        Err(e) => match why(&e) {
            Why::Error(ARGUMENT, _) => Ok(()),
            Why::Error(..) => strange(i, what, &e),
            _ => Err(e),
        },
    }
}

/// Sleeps with the lock given back for the time.
fn lock_sleep(i: usize, c: Cx, m: usize) -> R<()> {
    if cx().chance(1, 12) {
        let r = refused(i, c, "Mutex#sleep of less than nothing", s().lock[m], "sleep", Args::of(&[rb::flt(-0.25)]));
        check_held(i, c, m);
        return r;
    }
    let d = dur();
    let start = w().now;
    cx().log(|| format!("{} sleeps outside {m} for {d}", name(i)));
    begin(i, Do::LockSleep(m), Some(start + d));
    let r = rb::call(c, s().lock[m], "sleep", Args::of(&[secs(d)]));
    done(i);
    back(i, c, m, "sleep");
    match r {
        Ok(_) => {
            if w().now + US < start + d && !s().th[i].woken {
                bad("early", format!("{} slept outside {m} for {} ns instead of {d}", name(i), w().now - start));
            }
            Ok(())
        }
        Err(e) => {
            if matches!(why(&e), Why::Error(..)) {
                strange(i, "Mutex#sleep", &e)
            }
            Err(e)
        }
    }
}

fn back(i: usize, c: Cx, m: usize, what: &str) {
    for j in 0..s().th.len() {
        if j != i && alive(j) && holds(j, m) && !outside(j, m) {
            bad("exclusion", format!("{} returned from {what} with lock {m} which {} holds", name(i), name(j)));
        }
    }
    if !owned(c, m) {
        bad("unowned", format!("{} came out of {what} without lock {m}", name(i)));
    }
}

fn wait(i: usize, c: Cx, k: usize) -> R<()> {
    let m = s().cv[k].lock;
    let d = if cx().chance(1, 3) { Some(dur()) } else { None };
    let start = w().now;
    cx().log(|| format!("{} waits for c{k} {d:?}", name(i)));
    cx().probe("wait");
    begin(i, Do::Wait(m, k), d.map(|d| start + d));
    let mut args = vec![];
    if !monitors() {
        args.push(s().lock[m]);
    }
    if let Some(d) = d {
        args.push(secs(d));
    }
    let sig = if s().cv[k].sending > 0 { u64::MAX } else { s().cv[k].signals };
    s().cv[k].waits.push(i);
    let r = rb::call(c, s().cv[k].v, "wait", Args::of(&args));
    let woken = s().th[i].woken;
    s().th[i].doing = Do::Run;
    s().th[i].until = None;
    cx().log(|| format!("{} is back from c{k}: {}", name(i), r.as_ref().err().map_or("".into(), rb::describe)));
    back(i, c, m, "wait");
    let v = &mut s().cv[k];
    v.waits.retain(|x| *x != i);
    match r {
        Ok(_) => {
            v.owed = v.owed.saturating_sub(1).min(v.waits.len());
            let timed_out = d.is_some_and(|d| w().now + US >= start + d);
            if v.signals == sig && !woken && !timed_out {
                bad("early", format!("{} returned from waiting for c{k} although nobody signalled", name(i)));
            }
            Ok(())
        }
        Err(e) => {
            only_interrupts(i, "wait", &e);
            cx().probe("wait interrupted");
            if v.signals != sig {
                // it may pass the signal on, to one who began to wait later
                v.signals += 1;
            }
            v.owed = v.owed.min(v.waits.len());
            Err(e)
        }
    }
}

fn signal(i: usize, c: Cx, k: usize, all: bool) -> R<()> {
    let m = s().cv[k].lock;
    let sure = holds(i, m);
    cx().log(|| format!("{} {} c{k}", name(i), if all { "broadcasts" } else { "signals" }));
    s().cv[k].signals += 1;
    s().cv[k].sending += 1;
    let waits = s().cv[k].waits.clone();
    let r = rb::call(c, s().cv[k].v, if all { "broadcast" } else { "signal" }, Args::default());
    s().cv[k].signals += 1;
    s().cv[k].sending -= 1;
    match r {
        Ok(_) => {
            let v = &mut s().cv[k];
            if sure {
                // those who waited when it began and still do
                let n = waits.iter().filter(|x| v.waits.contains(x)).count();
                let gone = waits.len() - n;
                v.owed = if all { n } else { (v.owed + 1 - gone.min(1)).min(v.waits.len()) };
                if n > 0 {
                    cx().probe(if all { "broadcast to waiters" } else { "signal to waiters" });
                }
            }
            Ok(())
        }
        Err(e) => {
            only_interrupts(i, "signal", &e);
            Err(e)
        }
    }
}

// ---- queues -------------------------------------------------------------------

/// Looks at the length: a bounded queue may not have grown over its limit.
fn look(k: usize) {
    let q = &mut s().q[k];
    let n = ask(q.v, "size").as_i64();
    if q.sized {
        let cap = ask(q.v, "max").as_i64();
        q.cap_hi = q.cap_hi.max(cap);
        if n > q.len.max(q.cap_hi) {
            bad("overfull", format!("queue {k} of capacity {} holds {n} items", q.cap_hi));
        }
        q.len = n;
        if q.resizing == 0 {
            q.cap_hi = cap;
        }
    }
}

fn push(i: usize, c: Cx, k: usize) -> R<()> {
    let it = s().next_item;
    s().next_item += 1;
    let start = seq();
    let q = &mut s().q[k];
    let maybe_cleared = !q.clearing.is_empty();
    q.items.insert(it, Item { start, end: u64::MAX, push: Push::Going, pop: None, maybe_cleared });
    let mut a = Args::of(&[Value::integer(it)]);
    let mut nonblock = false;
    let mut timeout = None;
    if q.sized {
        match cx().draw(4) {
            0 => {
                nonblock = true;
                a.pos.push(Value::bool(true));
            }
            1 => {
                let d = dur();
                timeout = Some(w().now + d);
                a = a.kw("timeout", secs(d));
            }
            _ => {}
        }
    }
    cx().log(|| format!("{} pushes {it} to q{k}{}{}", name(i), if nonblock { " nonblock" } else { "" }, if timeout.is_some() { " timed" } else { "" }));
    begin(i, Do::Push(k), timeout);
    let nm = ["push", "<<", "enq"][cx().draw(3)];
    let r = rb::call(c, q.v, if nonblock || timeout.is_some() { "push" } else { nm }, a);
    done(i);
    let end = seq();
    let q = &mut s().q[k];
    let x = q.items.get_mut(&it).unwrap();
    x.end = end;
    let popped = x.pop.is_some();
    match r {
        Ok(v) if v.is_nil() => {
            x.push = Push::Failed;
            if !timeout.is_some_and(|t| w().now + US >= t) {
                bad("early", format!("{} gave up pushing to q{k} before its time", name(i)));
            }
            if popped {
                bad("ghost", format!("item {it} was popped although its push timed out"));
            }
            cx().probe("push timed out");
        }
        Ok(v) => {
            if v != q.v {
                bad("result", format!("{}: push answered {}", name(i), rb::to_s(v)));
            }
            x.push = Push::Done;
            if q.close_end < start {
                bad("closed", format!("{} pushed {it} to q{k} after it was closed", name(i)));
            }
            cx().probe("pushed");
        }
        Err(e) => match why(&e) {
            Why::Error(rb::CLOSEDQ, _) => {
                x.push = Push::Failed;
                if q.close_start == u64::MAX {
                    bad("closed", format!("push to q{k} failed: closed, but it is not"));
                }
                if popped {
                    bad("ghost", format!("item {it} was popped although its push failed"));
                }
                cx().probe("push to closed");
            }
            Why::Error(THREADERR, _) if nonblock => {
                x.push = Push::Failed;
                if popped {
                    bad("ghost", format!("item {it} was popped although its push failed"));
                }
                cx().probe("push to full");
            }
            Why::Error(..) => strange(i, "push", &e),
            _ => {
                x.push = Push::Maybe;
                cx().probe("push interrupted");
                cx().log(|| format!("{} push of {it} interrupted", name(i)));
                look(k);
                return Err(e);
            }
        },
    }
    look(k);
    Ok(())
}

fn pop(i: usize, c: Cx, k: usize, drain: bool) -> R<bool> {
    if !drain && cx().chance(1, 24) {
        let a = Args::of(&[Value::bool(true)]).kw("timeout", secs(dur()));
        refused(i, c, "a nonblocking pop with a timeout", s().q[k].v, "pop", a)?;
        return Ok(true);
    }
    let start = seq();
    let q = &mut s().q[k];
    let mut a = Args::default();
    let mut nonblock = drain;
    let mut timeout = None;
    if drain {
        a.pos.push(Value::bool(true));
    } else {
        match cx().draw(5) {
            0 => {
                nonblock = true;
                a.pos.push(Value::bool(true));
            }
            1 => {
                let d = if cx().chance(1, 4) { 0 } else { dur() };
                timeout = Some(w().now + d);
                a = a.kw("timeout", secs(d));
            }
            _ => {}
        }
    }
    cx().log(|| format!("{} pops from q{k}{}{}", name(i), if nonblock { " nonblock" } else { "" }, if timeout.is_some() { " timed" } else { "" }));
    begin(i, Do::Pop(k), timeout);
    let nm = ["pop", "shift", "deq"][cx().draw(3)];
    let closed_before = q.close_start != u64::MAX;
    let r = rb::call(c, q.v, nm, a);
    done(i);
    let end = seq();
    let q = &mut s().q[k];
    let _ = closed_before;
    let empty = match r {
        Ok(v) if v.is_nil() => {
            if nonblock {
                bad("nil", format!("a nonblocking pop of q{k} answered nil"));
            }
            let timed_out = timeout.is_some_and(|t| w().now + US >= t);
            if q.close_start == u64::MAX && !timed_out {
                bad("nil", format!("{} popped nil from q{k} which is not closed", name(i)));
            }
            cx().probe(if timed_out { "pop timed out" } else { "pop at the end" });
            true
        }
        Ok(v) => {
            let it = v.as_i64();
            cx().log(|| format!("{} got {it} from q{k}", name(i)));
            popped(i, k, it, start, end);
            false
        }
        Err(e) => match why(&e) {
            Why::Error(THREADERR, _) if nonblock => true,
            Why::Error(..) => strange(i, "pop", &e),
            _ => {
                q.lost += 1;
                cx().probe("pop interrupted");
                cx().log(|| format!("{} pop from q{k} interrupted", name(i)));
                return Err(e);
            }
        },
    };
    if empty {
        // not while an item was there all the time
        s().q[k].waits.push(0);
        let q = &s().q[k];
        let lost = q.lost;
        let there = q.items.iter().filter(|(_, x)| x.push == Push::Done && x.end < start && x.pop.is_none() && !x.maybe_cleared).count();
        // popped by others, but their pops may already have taken it
        let going = s().th.iter().enumerate().filter(|(j, t)| *j != i && matches!(t.doing, Do::Pop(x) if x == k)).count();
        if there > lost + going {
            let it = q.items.iter().filter(|(_, x)| x.push == Push::Done && x.end < start && x.pop.is_none() && !x.maybe_cleared).map(|x| *x.0).min().unwrap();
            bad("empty", format!("{} found q{k} empty although {it} was in it", name(i)));
        }
    }
    look(k);
    Ok(!empty)
}

fn popped(i: usize, k: usize, it: i64, start: u64, end: u64) {
    let q = &mut s().q[k];
    let Some(x) = q.items.get(&it) else {
        bad("ghost", format!("{} popped {it} which was never pushed to q{k}", name(i)));
    };
    if x.pop.is_some() {
        bad("twice", format!("{} popped {it} from q{k} again", name(i)));
    }
    if x.push == Push::Failed {
        bad("ghost", format!("{} popped {it} from q{k} whose push failed", name(i)));
    }
    let (ps, pe) = (x.start, x.end);
    if let Some(cl) = q.clears.iter().find(|cl| pe < cl.0 && start > cl.1) {
        bad("cleared", format!("{} popped {it} from q{k} which was cleared before ({}..{})", name(i), cl.0, cl.1));
    }
    for (o, y) in &q.items {
        // `o` entered after `it` and left before it
        if let Some((_, e)) = y.pop
            && pe < y.start
            && e < start
        {
            bad("order", format!("{} popped {it} from q{k} after {o} which was pushed later", name(i)));
        }
    }
    let _ = ps;
    q.items.get_mut(&it).unwrap().pop = Some((start, end));
    cx().probe("popped");
}

fn close(i: usize, c: Cx, k: usize) -> R<()> {
    cx().log(|| format!("{} closes q{k}", name(i)));
    let t = seq();
    let q = &mut s().q[k];
    q.close_start = q.close_start.min(t);
    let r = rb::call(c, q.v, "close", Args::default());
    is_self(i, "close", s().q[k].v, &r);
    match r {
        Ok(_) => {
            let t = seq();
            let q = &mut s().q[k];
            q.close_end = q.close_end.min(t);
            if !ask(q.v, "closed?").as_bool() {
                bad("closed", format!("q{k} was closed and is not"));
            }
            Ok(())
        }
        Err(e) => {
            only_interrupts(i, "close", &e);
            Err(e)
        }
    }
}

fn clear(i: usize, c: Cx, k: usize) -> R<()> {
    cx().log(|| format!("{} clears q{k}", name(i)));
    let t = seq();
    let q = &mut s().q[k];
    for x in q.items.values_mut() {
        x.maybe_cleared |= x.pop.is_none();
    }
    q.clearing.push(t);
    let r = rb::call(c, q.v, "clear", Args::default());
    is_self(i, "clear", s().q[k].v, &r);
    let q = &mut s().q[k];
    q.clearing.retain(|x| *x != t);
    match r {
        Ok(_) => {
            let e = seq();
            s().q[k].clears.push((t, e));
            look(k);
            Ok(())
        }
        Err(e) => {
            only_interrupts(i, "clear", &e);
            Err(e)
        }
    }
}

fn resize(i: usize, c: Cx, k: usize) -> R<()> {
    let q = &mut s().q[k];
    if !q.sized {
        return Ok(());
    }
    if cx().chance(1, 8) {
        let n = -(cx().draw(2) as i64);
        let v = q.v;
        let r = refused(i, c, "a capacity that is not positive", v, "max=", Args::of(&[Value::integer(n)]));
        if ask(v, "max").as_i64() <= 0 {
            bad("misuse", format!("q{k} has a capacity of {}", ask(v, "max").as_i64()));
        }
        return r;
    }
    let n = 1 + cx().draw(4) as i64;
    cx().log(|| format!("{} resizes q{k} to {n}", name(i)));
    q.resizing += 1;
    q.cap_hi = q.cap_hi.max(n).max(ask(q.v, "max").as_i64());
    let r = rb::call(c, q.v, "max=", Args::of(&[Value::integer(n)]));
    s().q[k].resizing -= 1;
    look(k);
    if let Err(e) = r {
        only_interrupts(i, "max=", &e);
        return Err(e);
    }
    Ok(())
}

// ---- threads ------------------------------------------------------------------

fn other(i: usize) -> Option<usize> {
    let l: Vec<usize> = (1..s().th.len()).filter(|&j| j != i && alive(j)).collect();
    if l.is_empty() { None } else { Some(l[cx().draw(l.len())]) }
}

fn spawn(i: usize, c: Cx) {
    let n = s().th.len();
    if n >= MAX_THREADS || s().stop {
        return;
    }
    let v = Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(n as u64), vec![]));
    c.g().store.set_ivar(v, IdentId::get_id("@report_on_exception"), Value::bool(false));
    cx().log(|| format!("{} starts t{n}", name(i)));
    s().th.push(T { v, doing: Do::Run, until: None, limit: (0, 0), held: vec![], unsure: vec![], woken: false, ended: false });
    scheduler::spawn(c.vm(), v);
}

fn interrupt(i: usize, c: Cx, j: usize, kill: bool) -> R<()> {
    if kill {
        cx().fault("kill");
        cx().log(|| format!("{} kills {} ({:?})", name(i), name(j), s().th[j].doing));
        rb::call(c, s().th[j].v, "kill", Args::default())?;
    } else {
        cx().fault("raise");
        s().ints += 1;
        let n = s().ints;
        cx().log(|| format!("{} interrupts {} with {n} ({:?})", name(i), name(j), s().th[j].doing));
        rb::call(c, s().th[j].v, "raise", Args::of(&[RUNTIME.val(), Value::string(format!("int {n}"))]))?;
    }
    Ok(())
}

fn pick_queue() -> Option<usize> {
    let n = s().q.len();
    if n == 0 { None } else { Some(cx().draw(n)) }
}

fn op(i: usize, c: Cx, depth: u32) -> R<()> {
    let wt = s().weights;
    let k = cx().weighted(&wt);
    let main = i == 0;
    match k {
        0 => c.poll()?,
        1 => {
            let d = dur();
            cx().log(|| format!("{} sleeps {d}", name(i)));
            sleep(i, c, d)?;
        }
        2 => scheduler::pass(c.vm(), c.g())?,
        3 | 4 => {
            if let Some(j) = other(i) {
                interrupt(i, c, j, k == 4)?;
            }
        }
        5 => {
            if let Some(j) = other(i) {
                cx().fault("wakeup");
                cx().log(|| format!("{} wakes {} ({:?})", name(i), name(j), s().th[j].doing));
                s().th[j].woken = true;
                scheduler::wakeup(s().th[j].v);
            }
        }
        6 if !main && depth < 4 => {
            if let Some(m) = pick_lock(i) {
                synchronize(i, c, m, depth, move |c| inside(i, c, m, depth))?;
            }
        }
        7 if !main && depth < 4 => {
            if let Some(m) = pick_lock(i) {
                lock(i, c, m)?;
                inside(i, c, m, depth)?;
                if holds(i, m) {
                    unlock(i, c, m)?;
                }
            }
        }
        8 if depth < 4 => {
            let n = s().lock.len();
            if n > 0 {
                let m = cx().draw(n);
                if (!main || cx().chance(1, 4)) && try_lock(i, c, m)? {
                    if !main {
                        inside(i, c, m, depth)?;
                    }
                    if holds(i, m) {
                        unlock(i, c, m)?;
                    }
                }
            }
        }
        9 if !s().lock.is_empty() => misuse(i, c)?,
        10 if !main && !monitors() => {
            if let Some(&m) = s().th[i].held.last() {
                lock_sleep(i, c, m)?;
            } else if let Some(m) = pick_lock(i) {
                synchronize(i, c, m, depth, move |c| lock_sleep(i, c, m))?;
            }
        }
        11 if !main && !s().cv.is_empty() => {
            let k = cx().draw(s().cv.len());
            let m = s().cv[k].lock;
            if holds(i, m) {
                wait(i, c, k)?;
            } else if s().th[i].held.iter().all(|x| *x < m) {
                synchronize(i, c, m, depth, move |c| {
                    if cx().chance(1, 4) {
                        c.poll()?;
                    }
                    wait(i, c, k)?;
                    if cx().chance(1, 3) { inside(i, c, m, depth) } else { Ok(()) }
                })?;
            }
        }
        12 | 13 if !s().cv.is_empty() => {
            let all = k == 13;
            let k = cx().draw(s().cv.len());
            let m = s().cv[k].lock;
            if holds(i, m) {
                signal(i, c, k, all)?;
            } else if monitors() || (!main && cx().chance(3, 4)) {
                if !main && s().th[i].held.iter().all(|x| *x < m) {
                    synchronize(i, c, m, depth, move |c| signal(i, c, k, all))?;
                }
            } else {
                signal(i, c, k, all)?;
            }
        }
        14 if !main => {
            if let Some(k) = pick_queue() {
                push(i, c, k)?;
            }
        }
        15 | 16 if !main => {
            if let Some(k) = pick_queue() {
                pop(i, c, k, false)?;
            }
        }
        17 => {
            if let Some(k) = pick_queue() {
                close(i, c, k)?;
            }
        }
        18 => {
            if let Some(k) = pick_queue() {
                clear(i, c, k)?;
            }
        }
        19 => {
            if let Some(k) = pick_queue() {
                resize(i, c, k)?;
            }
        }
        20 => {
            if let Some(k) = pick_queue() {
                look(k);
            }
        }
        21 if !main && depth < 3 => {
            let t = ["never", "on_blocking", "immediate"][cx().draw(3)];
            cx().log(|| format!("{} masks {t}", name(i)));
            let h = Value::alloc(Obj::Hash(vec![(RUNTIME.val(), rb::sym(rbparse::intern(t)))]));
            let base = s().th[i].held.len();
            let r = rb::call(
                c,
                THREAD_CLASS.val(),
                "handle_interrupt",
                Args::of(&[h]).block(move |c, _| {
                    let mut r = Ok(());
                    for _ in 0..1 + cx().draw(3) {
                        if cx().next_op() {
                            r = op(i, c, depth + 1);
                        }
                        if r.is_err() {
                            break;
                        }
                    }
                    r?;
                    Ok(Value::nil())
                }),
            );
            let _ = base;
            r?;
        }
        22 if depth > 0 => return rb::raise(RUNTIME, "own"),
        23 if !main => {
            cx().log(|| format!("{} ends itself", name(i)));
            rb::call(c, s().th[i].v, "kill", Args::default())?;
        }
        24 => spawn(i, c),
        _ => {}
    }
    Ok(())
}

impl hooks::Harness for S {
    fn body(&mut self, vm: &mut Executor, g: &mut Globals, id: u64, _: Vec<Value>) -> Result<Value> {
        let i = id as usize;
        let c = Cx::new(vm, g);
        cx().log(|| format!("{} runs", name(i)));
        let mut out = Ok(Value::nil());
        while !s().stop && cx().next_op() {
            if let Err(e) = op(i, c, 0) {
                done(i);
                if why(&e) == Why::Killed {
                    let Ctl::Err(e) = e else { unreachable!() };
                    cx().log(|| format!("{} is killed", name(i)));
                    out = Err(*e);
                    break;
                }
                // it rescues, and gives back what it locked by hand
                if let Err(e) = let_go(i, c, 0)
                    && why(&e) == Why::Killed
                {
                    let Ctl::Err(e) = e else { unreachable!() };
                    out = Err(*e);
                    break;
                }
            }
        }
        cx().log(|| format!("{} ends, holding {:?}", name(i), s().th[i].held));
        if !s().th[i].held.is_empty() {
            cx().fault("owner ends");
        }
        s().th[i].ended = true;
        out
    }
}

/// The process waits: every thread is blocked. None may be whose time has
/// come.
fn idle(_: Option<u64>) {
    if !w().in_wait {
        return;
    }
    let mut h = 0;
    for i in 0..s().th.len() {
        if !alive(i) {
            continue;
        }
        let t = &s().th[i];
        let late = t.until.is_some() && w().now - s().busy > t.limit.1 + t.limit.0 + MS;
        let free = |m: usize| !ask(s().lock[m], if monitors() { "mon_locked?" } else { "locked?" }).as_bool();
        h = simcore::mix64(h ^ ((i as u64) << 8) ^ std::mem::discriminant(&t.doing).hash_u64());
        match t.doing {
            Do::Lock(m) if free(m) => bad("stuck", format!("{} waits for lock {m} which is free", name(i))),
            Do::LockSleep(m) | Do::Wait(m, _) if late && free(m) => {
                bad("stuck", format!("{} waits outside lock {m} past its time", name(i)))
            }
            Do::Push(k) => {
                let q = &s().q[k];
                if ask(q.v, "closed?").as_bool() {
                    bad("stuck", format!("{} waits to push to q{k} which is closed", name(i)));
                }
                if ask(q.v, "size").as_i64() < ask(q.v, "max").as_i64() {
                    bad("stuck", format!("{} waits to push to q{k} which is not full", name(i)));
                }
                if late {
                    bad("stuck", format!("{} waits to push past its time", name(i)));
                }
            }
            Do::Pop(k) => {
                let q = &s().q[k];
                if ask(q.v, "closed?").as_bool() {
                    bad("stuck", format!("{} waits to pop from q{k} which is closed", name(i)));
                }
                if ask(q.v, "size").as_i64() > 0 {
                    bad("stuck", format!("{} waits to pop from q{k} which holds items", name(i)));
                }
                if late {
                    bad("stuck", format!("{} waits to pop past its time", name(i)));
                }
            }
            Do::Misuse => bad("stuck", format!("{} waits in a call that must be refused", name(i))),
            Do::Sleep if late => bad("stuck", format!("{} sleeps past its time", name(i))),
            _ => {}
        }
    }
    for (k, v) in s().cv.iter().enumerate() {
        if v.owed > 0 && !ask(s().lock[v.lock], if monitors() { "mon_locked?" } else { "locked?" }).as_bool() {
            bad("signal", format!("c{k} was signalled and {} of {:?} should no longer wait", v.owed, v.waits.iter().map(|i| name(*i)).collect::<Vec<_>>()));
        }
    }
    cx().state(h);
}

trait HashU64 {
    fn hash_u64(&self) -> u64;
}
impl<T: std::hash::Hash> HashU64 for T {
    fn hash_u64(&self) -> u64 {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}

fn make(c: Cx, class: &[&str], args: &[Value]) -> Value {
    match rb::peek(c, rb::class_at(class).val(), "new", Args::of(args)) {
        Ok(v) => v,
        Err(e) => bad("error", format!("{class:?} cannot be made: {}", rb::describe(&e))),
    }
}

fn interp(prop: u32) {
    let x = cx();
    #[allow(static_mut_refs)]
    if let Some(Err(e)) = unsafe { &LOADED } {
        simcore::fatal("harness", e);
    }
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    w().max_late = MS;
    let n = [12, 30, 80][x.weighted(&[2, 3, 2])];
    x.set_ops(n);
    //            saf slp pas rse kil wak syn lck try mis msl wai sig bro psh pop po2 cls clr max loo msk own end spn
    let mut wt = match prop {
        24 => [4, 5, 2, 4, 1, 2, 9, 7, 3, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 1, 2],
        25 => [3, 5, 2, 4, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 12, 9, 6, 1, 1, 0, 2, 2, 0, 1, 2],
        26 => [3, 5, 2, 4, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 14, 7, 4, 1, 1, 3, 2, 2, 0, 1, 2],
        27 => [4, 5, 2, 4, 1, 2, 2, 2, 1, 0, 2, 14, 9, 3, 0, 0, 0, 0, 0, 0, 0, 2, 1, 1, 2],
        _ => [4, 5, 2, 4, 1, 2, 8, 5, 3, 1, 0, 7, 5, 2, 0, 0, 0, 0, 0, 0, 0, 2, 1, 1, 2u32],
    };
    for k in [1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 17, 18, 19, 21, 22, 23] {
        if x.chance(1, 4) {
            wt[k] = 0;
        }
    }
    let tick = [0, 4, 16, 32][x.weighted(&[1, 2, 3, 2])];
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let g: &'static mut Globals = Box::leak(Box::new(Globals::default()));
    poll_flag::register(word.as_ptr());
    preempt::register_flag(word.as_ptr());
    let main = scheduler::main_thread(vm);
    let c = Cx::new(vm, g);
    unsafe {
        S0 = Some(S {
            th: vec![],
            lock: vec![],
            cv: vec![],
            q: vec![],
            word,
            weights: wt,
            cx: c,
            prop,
            seq: 0,
            steps: 0,
            stop: false,
            ints: 0,
            next_item: 1,
            tick,
            busy: 0,
            mixed: vec![],
        });
        rb::POLL = Some(safepoint);
    }
    hooks::set(s());
    w().on_idle = Some(idle);
    s().th.push(T { v: main, doing: Do::Run, until: None, limit: (0, 0), held: vec![], unsure: vec![], woken: false, ended: false });
    match prop {
        24 | 27 | 28 => {
            let n = if prop == 24 { 1 + x.draw(3) } else { 1 + x.draw(2) };
            for m in 0..n {
                let l = if prop == 28 && x.chance(1, 3) {
                    s().mixed.push(m);
                    let k = rb::new_class("Guarded", OBJECT_CLASS);
                    if let Err(e) = rb::mix_in(c, k, rb::class_at(&["MonitorMixin"])) {
                        bad("error", format!("the monitor methods cannot be included: {}", rb::describe(&e)));
                    }
                    make(c, &["Guarded"], &[])
                } else if prop == 28 {
                    make(c, &["Monitor"], &[])
                } else {
                    make(c, &["Thread", "Mutex"], &[])
                };
                s().lock.push(l);
                if prop != 24 {
                    for _ in 0..1 + x.draw(2) {
                        let v = if prop == 28 { ask(l, "new_cond") } else { make(c, &["Thread", "ConditionVariable"], &[]) };
                        s().cv.push(Cv { v, lock: m, waits: vec![], owed: 0, signals: 0, sending: 0 });
                    }
                }
            }
        }
        _ => {
            for _ in 0..1 + x.draw(2) {
                let sized = prop == 26;
                let cap = 1 + x.draw(3) as i64;
                let mut items = HashMap::new();
                let v = if sized {
                    make(c, &["Thread", "SizedQueue"], &[Value::integer(cap)])
                } else if x.chance(1, 3) {
                    let mut l = vec![];
                    for _ in 0..x.draw(4) {
                        let it = s().next_item;
                        s().next_item += 1;
                        items.insert(it, Item { start: seq(), end: seq(), push: Push::Done, pop: None, maybe_cleared: false });
                        l.push(Value::integer(it));
                    }
                    make(c, &["Thread", "Queue"], &[Value::alloc(Obj::Arr(l))])
                } else {
                    make(c, &["Thread", "Queue"], &[])
                };
                let len = items.len() as i64;
                s().q.push(Q {
                    v,
                    sized,
                    items,
                    lost: 0,
                    close_start: u64::MAX,
                    close_end: u64::MAX,
                    clears: vec![],
                    clearing: vec![],
                    cap_hi: cap,
                    len,
                    resizing: 0,
                    waits: vec![],
                });
            }
        }
    }
    for _ in 0..2 + x.draw(3) {
        spawn(0, c);
    }
    while !s().stop && cx().next_op() {
        if let Err(e) = op(0, c, 0) {
            only_interrupts(0, "an operation", &e);
        }
        if cx().chance(1, 2) {
            let d = dur();
            if let Err(e) = sleep(0, c, d) {
                strange(0, "sleep", &e);
            }
        }
    }
    s().stop = true;
    wind_down(c);
    cx().probe_n("safepoints", s().steps);
    if s().steps > 20 {
        cx().nontrivial();
    }
}

/// Everybody finishes; those who wait for something that will not come are
/// killed.
fn wind_down(c: Cx) {
    cx().log(|| "the end".into());
    s().tick = s().tick.min(4);
    for k in 0..80 {
        let left: Vec<usize> = (1..s().th.len()).filter(|&i| !s().th[i].v.as_thread_inner().is_dead()).collect();
        if left.is_empty() {
            break;
        }
        if k == 79 {
            bad("stuck", format!("{} never ends ({:?})", name(left[0]), s().th[left[0]].doing));
        }
        if k > 3 {
            for &i in &left {
                cx().log(|| format!("main kills {}", name(i)));
                scheduler::interrupt(c.vm(), c.g(), s().th[i].v, value::rvalue::PendingInterrupt::Kill).ok();
            }
        }
        if let Err(e) = sleep(0, c, 6 * MS) {
            strange(0, "sleep", &e);
        }
    }
    for m in 0..s().lock.len() {
        match try_lock(0, c, m) {
            Ok(true) => {
                unlock(0, c, m).ok();
            }
            _ => bad("refused", format!("lock {m} cannot be taken although every other thread has ended")),
        }
    }
    for k in 0..s().q.len() {
        while let Ok(true) = pop(0, c, k, true) {}
        let q = &s().q[k];
        let missing: Vec<i64> = q.items.iter().filter(|(_, x)| x.push == Push::Done && x.pop.is_none() && !x.maybe_cleared).map(|x| *x.0).collect();
        if missing.len() > q.lost {
            bad("missing", format!("{} items of q{k} were never popped, {} pops were interrupted", missing.len(), q.lost));
        }
        if !ask(q.v, "empty?").as_bool() || ask(q.v, "num_waiting").as_i64() != 0 {
            bad("left", format!("q{k} is not empty at the end"));
        }
    }
}

/// Reads the library once; a source that cannot be read stops the checks that
/// need it.
pub fn load() {
    let r = rb::load(&[
        ("thread.rb", include_str!(concat!(env!("OUT_DIR"), "/thread.rb"))),
        ("monitor.rb", include_str!(concat!(env!("OUT_DIR"), "/monitor.rb"))),
    ]);
    unsafe { LOADED = Some(r) };
}
static mut LOADED: Option<std::result::Result<(), String>> = None;

macro_rules! runs {
    ($($f:ident $b:ident $n:literal),*) => {$(
        fn $b() {
            interp($n)
        }
        fn $f(ctx: &mut Ctx) -> std::result::Result<(), Violation> {
            world::run(ctx, $b)
        }
    )*};
}
runs!(r24 b24 24, r25 b25 25, r26 b26 26, r27 b27 27, r28 b28 28);

pub fn props() -> Vec<Prop> {
    const fn p(id: &'static str, run: fn(&mut Ctx) -> std::result::Result<(), Violation>) -> Prop {
        Prop {
            isolate: true,
            quick_runs: 200_000,
            quick_secs: 45.0,
            rule: "locks exclude each other by a shadow record, calls return by their rules, items form a first-in-first-out history, and whenever the process waits no thread is blocked whose condition holds",
            measure: "kinds of blocking of all threads whenever the process waits",
            real: &["Mutex, Queue, SizedQueue and ConditionVariable of monoruby/builtins/thread.rb, monoruby/builtins/monitor.rb", "monoruby/src/scheduler.rs", "monoruby/src/value/rvalue/thread.rs", "execute_gc of monoruby/src/executor.rs"],
            stub: &["evaluator of the Ruby code, built-in methods, machine stacks (coroutines), clock, poll"],
            assumptions: &["safepoints are method and block entry and loop heads; built-in methods have none"],
            ..Prop::base(id, run)
        }
    }
    vec![p("C24", r24), p("C25", r25), p("C26", r26), p("C27", r27), p("C28", r28)]
}

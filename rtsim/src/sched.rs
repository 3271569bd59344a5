//! C17-C23: the green-thread scheduler under seeded programs, judged by a
//! model of every thread: what it waits for, what is queued for it, what it
//! is masked against and how it ended.
use crate::hooks::{self, Harness};
use crate::simstd::sync::atomic::AtomicU32;
use crate::simstd::time::Instant;
use crate::value::rvalue::{InterruptTiming, PendingInterrupt, ThreadInner, ThreadState};
use crate::world::{self, Ev, MS, SEC, US, cx, w};
use crate::*;
use simcore::{Ctx, Prop, Violation};
use std::collections::VecDeque;
use std::time::Duration;

/// Time between the harness's reading of the clock and the scheduler's.
const SLOP: u64 = 20 * US;
const NOBODY: usize = usize::MAX;
const MAX_THREADS: usize = 7;

#[derive(Clone, Debug, PartialEq)]
struct MErr {
    class: ClassId,
    msg: String,
    how: Option<ExcHow>,
}

impl MErr {
    fn new(class: ClassId, msg: impl Into<String>) -> MErr {
        MErr { class, msg: msg.into(), how: None }
    }
    /// What the target of a raise sees.
    fn delivered(&self) -> MErr {
        match self.how {
            None => self.clone(),
            Some(ExcHow::Itself) => self.clone(),
            Some(ExcHow::Other) => MErr { class: self.class, msg: format!("{}'", self.msg), how: Some(ExcHow::Itself) },
            Some(ExcHow::NotAnException) => MErr::new(TYPE, "exception object expected"),
            Some(ExcHow::Raises) => MErr::new(RUNTIME, format!("{}!", self.msg)),
        }
    }
    fn is(&self, e: &MonorubyErr) -> bool {
        e.class_id() == self.class && e.message == self.msg
    }
}

#[derive(Clone, Debug)]
enum Int {
    Kill,
    Raise(MErr),
}

#[derive(Clone, Debug)]
enum Out {
    Val(i64),
    Exc(MErr),
    Killed,
}

#[derive(Clone, Debug)]
enum Park {
    Sleep(Option<u64>),
    Join(usize, Option<u64>),
    Fd(Vec<(i32, i16)>, Option<u64>),
    Pass,
}

struct Th {
    v: Value,
    started: bool,
    out: Option<Out>,
    /// Did not survive a fork.
    gone: bool,
    park: Option<Park>,
    /// Counts the times it was parked.
    parks: u64,
    switches: u64,
    woken: bool,
    /// May return early without a reason of its own.
    excused: bool,
    pending: VecDeque<Int>,
    masks: Vec<Vec<(ClassId, InterruptTiming)>>,
    unint: u32,
    permit: bool,
    due: Option<u64>,
    refuses: bool,
    abort: Option<bool>,
    report: Option<bool>,
    open: u32,
    cleaned: u32,
    killed: bool,
}

impl Th {
    fn new(v: Value) -> Th {
        Th {
            v,
            started: false,
            out: None,
            gone: false,
            park: None,
            parks: 0,
            switches: u64::MAX,
            woken: false,
            excused: false,
            pending: VecDeque::new(),
            masks: vec![],
            unint: 0,
            permit: false,
            due: None,
            refuses: false,
            abort: None,
            report: None,
            open: 0,
            cleaned: 0,
            killed: false,
        }
    }
    fn live(&self) -> bool {
        self.out.is_none() && !self.gone
    }
}

struct M {
    th: Vec<Th>,
    cur: usize,
    turn: u64,
    word: &'static AtomicU32,
    weights: [u32; OPS],
    reports: VecDeque<(u64, MErr)>,
    class_report: Option<bool>,
    class_abort: Option<bool>,
    raises: u32,
    poll_fails: u64,
    stop: bool,
    exiting: bool,
    forked: bool,
    handler_raised: bool,
    /// Status a forked child without its main thread must end with now.
    exit_due: Option<i32>,
    prop: u32,
    ops: u32,
}

static mut M0: Option<M> = None;
#[allow(static_mut_refs)]
fn m() -> &'static mut M {
    unsafe { M0.as_mut().unwrap() }
}

fn bad(class: &str, msg: String) -> ! {
    w().abort(class, msg)
}

fn name(i: usize) -> String {
    if i == 0 { "main".into() } else { format!("t{i}") }
}

fn ms(t: u64) -> String {
    format!("{:.3} ms", (t as f64 - SEC as f64) / 1e6)
}

// ---- the model ----------------------------------------------------------

fn timing(i: usize, int: &Int) -> InterruptTiming {
    let t = &m().th[i];
    if t.unint > 0 {
        return InterruptTiming::Never;
    }
    let Int::Raise(e) = int else { return InterruptTiming::Immediate };
    for f in t.masks.iter().rev() {
        for (c, k) in f {
            if e.class.is_a(*c) {
                return *k;
            }
        }
    }
    InterruptTiming::Immediate
}

fn deliverable(i: usize, blocking: bool) -> Option<usize> {
    m().th[i].pending.iter().position(|p| match timing(i, p) {
        InterruptTiming::Immediate => true,
        InterruptTiming::OnBlocking => blocking,
        InterruptTiming::Never => false,
    })
}

fn wake_worthy(i: usize) -> bool {
    m().th[i].pending.iter().any(|p| timing(i, p) != InterruptTiming::Never)
}

fn fd_ready(fds: &[(i32, i16)]) -> bool {
    fds.iter().any(|(fd, ev)| match w().fds.get(fd) {
        Some(f) => f.ready & (ev | libc::POLLERR | libc::POLLHUP | libc::POLLNVAL) != 0,
        None => true,
    })
}

fn deadline(i: usize) -> Option<u64> {
    match &m().th[i].park {
        Some(Park::Sleep(d)) | Some(Park::Join(_, d)) | Some(Park::Fd(_, d)) => *d,
        _ => None,
    }
}

/// Whether thread `i` has a reason to run that the scheduler must have seen
/// by now.
fn due(i: usize) -> bool {
    let t = &m().th[i];
    if !t.live() {
        return false;
    }
    if !t.started {
        return true;
    }
    let Some(p) = &t.park else { return false };
    if wake_worthy(i) || deadline(i).is_some_and(|d| d.saturating_add(SLOP) <= w().now) {
        return true;
    }
    match p {
        Park::Sleep(_) => t.woken,
        Park::Join(j, _) => !m().th[*j].live(),
        Park::Fd(f, _) => fd_ready(f),
        Park::Pass => true,
    }
}

/// No thread can ever run again.
fn deadlocked() -> bool {
    sync();
    (0..m().th.len()).all(|i| {
        let t = &m().th[i];
        !t.live() || (t.park.is_some() && !due(i) && deadline(i).is_none() && !matches!(t.park, Some(Park::Fd(..))))
    })
}

/// A thread ended.
fn ended(i: usize, out: Out) {
    let q = m();
    cx().log(|| format!("{} ended: {:?}", name(i), out));
    q.th[i].pending.clear();
    if let Out::Exc(e) = &out {
        let exit = e.class == SYSEXIT;
        if !exit && q.th[i].report.or(q.class_report).unwrap_or(true) {
            q.reports.push_back((q.th[i].v.id(), e.clone()));
        }
        if exit || q.th[i].abort.unwrap_or(false) || q.class_abort.unwrap_or(false) {
            cx().probe("forwarded to main");
            if q.th[0].live() {
                q.th[0].pending.push_back(Int::Raise(e.clone()));
            } else if q.exit_due.is_none() {
                q.exit_due = Some(if exit { 3 } else { 1 });
            }
        }
    }
    q.th[i].out = Some(out);
    q.th[i].park = None;
}

/// Threads that died without ever running.
fn sync() {
    for i in 1..m().th.len() {
        let t = &m().th[i];
        if t.live() && !t.started && t.v.as_thread_inner().is_dead() {
            match t.pending.front().cloned() {
                None => bad("died", format!("{} died before it ran and without an interrupt", name(i))),
                Some(Int::Kill) => ended(i, Out::Killed),
                Some(Int::Raise(e)) => ended(i, Out::Exc(e)),
            }
            cx().probe("died unstarted");
        }
    }
}

fn audit(vm: &mut Executor) {
    sync();
    let mut real: Vec<u64> = scheduler::thread_list(vm).iter().map(|v| v.id()).collect();
    let mut want: Vec<u64> = m().th.iter().filter(|t| t.live()).map(|t| t.v.id()).collect();
    real.sort();
    want.sort();
    if real != want {
        bad("list", format!("the thread list has {} threads, {} are alive", real.len(), want.len()));
    }
    let others = m().th.iter().enumerate().any(|(i, t)| i != m().cur && t.live());
    if scheduler::has_other_live_threads() != others {
        bad("list", format!("other live threads: reported {}, model {others}", !others));
    }
    for i in 1..m().th.len() {
        let t = &m().th[i];
        let inner = t.v.as_thread_inner();
        if inner.is_dead() == t.live() {
            bad("list", format!("{} is {} in the model", name(i), if t.live() { "alive" } else { "dead" }));
        }
        if !t.gone && t.out.is_some() {
            outcome(i);
        }
    }
}

/// Compares what a dead thread left with how it ended.
fn outcome(i: usize) {
    let inner = m().th[i].v.as_thread_inner();
    let ok = match m().th[i].out.as_ref().unwrap() {
        Out::Val(v) => inner.exception.is_none() && inner.result == Some(Value::integer(*v)),
        Out::Exc(e) => inner.exception.as_ref().is_some_and(|x| e.is(x)) && inner.result.is_none(),
        Out::Killed => inner.exception.is_none() && inner.result.is_none(),
    };
    if !ok {
        bad(
            "outcome",
            format!(
                "{} ended with {:?} but left value {:?}, exception {:?}",
                name(i),
                m().th[i].out,
                inner.result.map(|v| v.as_i64()),
                inner.exception.as_ref().map(|e| (e.class_id(), e.message.clone()))
            ),
        );
    }
}

fn starving() {
    let q = m();
    q.turn += 1;
    let n = q.th.len() as u64;
    for i in 0..q.th.len() {
        if i == q.cur || !due(i) || (i == 0 && matches!(q.th[0].park, Some(Park::Pass))) {
            q.th[i].due = None;
            continue;
        }
        let since = *q.th[i].due.get_or_insert(q.turn);
        let bound = if i == 0 { 2 } else { 2 * n + 4 };
        if q.turn - since > bound {
            bad("starved", format!("{} could run but {} others ran instead ({:?})", name(i), q.turn - since, q.th[i].park));
        }
    }
}

fn park(i: usize, p: Park) {
    let t = &mut m().th[i];
    t.park = Some(p);
    t.parks += 1;
    t.switches = unsafe { SWITCHES };
    t.woken = false;
    t.excused = false;
    m().cur = NOBODY;
}

/// Thread `i` runs (again). Returns what it was parked in.
fn resumed(i: usize, vm: &mut Executor) -> Option<Park> {
    let q = m();
    if let Some(code) = q.exit_due {
        bad("exit", format!("{} runs although the process was to exit with {code}", name(i)));
    }
    if q.th[i].gone {
        bad("ghost", format!("{} runs in the forked child", name(i)));
    }
    if q.th[i].out.is_some() {
        bad("undead", format!("{} runs after it ended", name(i)));
    }
    if q.cur != NOBODY {
        bad("two", format!("{} runs while {} does", name(i), name(q.cur)));
    }
    q.cur = i;
    if i != 0 && q.th[i].switches != unsafe { SWITCHES } {
        starving();
    }
    sync();
    if scheduler::current_thread(vm) != m().th[i].v {
        bad("current", format!("{} runs but is not the current thread", name(i)));
    }
    let t = &mut m().th[i];
    t.due = None;
    t.park.take()
}

/// Judges the result of a scheduler call that thread `i` is back from.
/// `dead`: whether the model saw a deadlock just before.
fn judge(i: usize, err: Option<&MonorubyErr>, blocking: bool, dead: bool, fails: u64) {
    let Some(e) = err else {
        if let Some(k) = deliverable(i, blocking) {
            bad("undelivered", format!("{} went on although {:?} was due to be delivered", name(i), m().th[i].pending[k]));
        }
        return;
    };
    if i == 0 && e.class_id() == FATAL {
        cx().probe("deadlock reported");
        if !dead {
            let s: Vec<String> = (0..m().th.len()).map(|j| format!("{} {:?}", name(j), m().th[j].park)).collect();
            bad("falsedeadlock", format!("deadlock was reported although a thread can still run: {}", s.join(", ")));
        }
        return;
    }
    if i == 0 && e.class_id() == IOERR && e.message.starts_with("poll failed") && w().poll_fails > fails {
        return;
    }
    if e.message == "from handler" && std::mem::take(&mut m().handler_raised) {
        return;
    }
    delivered(i, e, blocking);
}

/// Thread `i` got `e`: it must be the interrupt that is first in turn.
fn delivered(i: usize, e: &MonorubyErr, blocking: bool) {
    let Some(k) = deliverable(i, blocking) else {
        bad("invented", format!("{} was interrupted by {:?} {} with nothing deliverable queued ({:?})", name(i), e.class_id(), e.message, m().th[i].pending));
    };
    let int = m().th[i].pending.remove(k).unwrap();
    let want = match &int {
        Int::Kill if i == 0 => MErr::new(SYSEXIT, "exit"),
        Int::Kill => MErr::new(THROW, "throw"),
        Int::Raise(r) => r.delivered(),
    };
    if matches!(int, Int::Kill) {
        m().th[i].killed = true;
    }
    cx().probe("interrupt delivered");
    if !want.is(e) {
        bad("order", format!("{} got {:?} {} instead of {:?}", name(i), e.class_id(), e.message, want));
    }
}

// ---- operations ---------------------------------------------------------

const OPS: usize = 24;

fn duration() -> Option<u64> {
    Some([0, US, 300 * US, MS, 1500 * US, 3 * MS, 20 * MS, SEC, 20 * SEC][cx().weighted(&[4, 2, 4, 6, 4, 6, 4, 2, 1])])
}

fn till(d: Option<u64>) -> Option<u64> {
    d.map(|d| w().now.saturating_add(d))
}

fn sleep(i: usize, vm: &mut Executor, g: &mut Globals, d: Option<u64>) -> Result<()> {
    sync();
    let t0 = w().now;
    cx().log(|| format!("{} sleeps {:?} us at {}", name(i), d.map(|d| d / US), ms(t0)));
    let at_entry = deliverable(i, true).is_some();
    let permit = m().th[i].permit && !at_entry;
    let turn = unsafe { SWITCHES };
    let huge = d == Some(u64::MAX);
    park(i, Park::Sleep(if huge { None } else { till(d) }));
    let fails = w().poll_fails;
    let r = scheduler::sleep(vm, g, if huge { Some(Duration::MAX) } else { d.map(Duration::from_nanos) });
    let dead = deadlocked();
    let (woken, excused) = (m().th[i].woken, m().th[i].excused);
    let Some(Park::Sleep(end)) = resumed(i, vm) else { unreachable!() };
    if (at_entry || permit) && unsafe { SWITCHES } != turn {
        bad("parked", format!("{} was put to sleep although {}", name(i), if permit { "it had been woken" } else { "an interrupt was due" }));
    }
    // a wake during this sleep does not count for a later one
    m().th[i].permit = false;
    judge(i, r.as_ref().err(), true, dead, fails);
    let e = r?;
    let now = w().now;
    let e = e.as_nanos() as u64;
    if permit {
        if e != 0 {
            bad("elapsed", format!("a sleep that did not happen took {e} ns"));
        }
        return Ok(());
    }
    if !woken && !excused && end.is_none_or(|x| now < x) {
        bad("early", format!("{} was not woken but returned at {}, its deadline is {:?}", name(i), ms(now), end.map(ms)));
    }
    if e > now - t0 || e + SLOP < now - t0 {
        bad("elapsed", format!("{} slept {} ns but {e} ns were reported", name(i), now - t0));
    }
    Ok(())
}

fn pass(i: usize, vm: &mut Executor, g: &mut Globals) -> Result<()> {
    sync();
    cx().log(|| format!("{} passes", name(i)));
    park(i, Park::Pass);
    let fails = w().poll_fails;
    let r = scheduler::pass(vm, g);
    resumed(i, vm);
    judge(i, r.as_ref().err(), false, false, fails);
    r
}

fn join(i: usize, vm: &mut Executor, g: &mut Globals, j: usize, d: Option<u64>) -> Result<()> {
    sync();
    let target = m().th[j].v;
    if i == j {
        match scheduler::join(vm, g, target, d.map(Duration::from_nanos)) {
            Err(e) if e.class_id() == THREADERR => return Ok(()),
            _ => bad("join", "a thread joined itself".into()),
        }
    }
    cx().log(|| format!("{} joins {} for {:?} us at {}", name(i), name(j), d.map(|d| d / US), ms(w().now)));
    let huge = d.is_some_and(|d| d == u64::MAX);
    park(i, Park::Join(j, if huge { None } else { till(d) }));
    let fails = w().poll_fails;
    let r = scheduler::join(vm, g, target, if huge { Some(Duration::MAX) } else { d.map(Duration::from_nanos) });
    let dead = deadlocked();
    let Some(Park::Join(_, end)) = resumed(i, vm) else { unreachable!() };
    judge(i, r.as_ref().err(), true, dead, fails);
    match r? {
        true => {
            cx().probe("joined");
            if m().th[j].live() {
                bad("join", format!("{} joined {} which is alive", name(i), name(j)));
            }
            if !m().th[j].gone {
                outcome(j);
            }
        }
        false => {
            cx().probe("join timed out");
            if !m().th[j].live() {
                bad("join", format!("{} timed out joining {} which has ended", name(i), name(j)));
            }
            if end.is_none_or(|x| w().now < x) {
                bad("early", format!("{} timed out joining at {}, its deadline is {:?}", name(i), ms(w().now), end.map(ms)));
            }
        }
    }
    Ok(())
}

fn wait(i: usize, vm: &mut Executor, g: &mut Globals, fds: Vec<(i32, i16)>, d: Option<u64>) -> Result<()> {
    sync();
    cx().log(|| format!("{} waits for {:?} for {:?} us at {}", name(i), fds, d.map(|d| d / US), ms(w().now)));
    let end = d.map(|d| Instant::now() + Duration::from_nanos(d));
    park(i, Park::Fd(fds.clone(), d.map(|d| w().now - 50 + d)));
    let fails = w().poll_fails;
    let r = scheduler::wait_fds(vm, g, &fds, end);
    let dead = deadlocked();
    let excused = m().th[i].excused;
    let Some(Park::Fd(_, end)) = resumed(i, vm) else { unreachable!() };
    judge(i, r.as_ref().err(), true, dead, fails);
    r?;
    if fd_ready(&fds) {
        cx().probe("descriptor ready");
    } else if !excused && end.is_none_or(|x| w().now < x) {
        bad("early", format!("{} returned at {} with no descriptor ready, its deadline is {:?}", name(i), ms(w().now), end.map(ms)));
    }
    // it uses what it waited for
    if cx().chance(2, 3) {
        for (fd, _) in &fds {
            clear(*fd);
        }
    }
    Ok(())
}

/// A descriptor is not ready any more; whoever was about to return because
/// it was may still do so.
fn clear(fd: i32) {
    for j in 0..m().th.len() {
        if let Some(Park::Fd(f, _)) = &m().th[j].park
            && f.iter().any(|x| x.0 == fd)
            && fd_ready(f)
        {
            m().th[j].excused = true;
        }
    }
    if let Some(f) = w().fds.get_mut(&fd) {
        f.ready = 0;
    }
}

fn wakeup(i: usize, j: usize, permit: bool) {
    sync();
    let t = &mut m().th[j];
    cx().log(|| format!("{} wakes {} (permit: {permit})", name(i), name(j)));
    let state = t.v.as_thread_inner().state();
    if t.live() && t.started && matches!(t.park, None | Some(Park::Pass)) && state != ThreadState::Runnable {
        bad("state", format!("{} runs or can run but is {state:?}", name(j)));
    }
    if matches!(t.park, Some(Park::Sleep(_))) && t.live() && !due(j) && !t.excused && state != ThreadState::Sleeping && j != 0 {
        // between its deadline and the slop it may have been promoted
        let close = deadline(j).is_some_and(|d| d <= w().now);
        if !close {
            bad("early", format!("{} sleeps but is {:?}", name(j), state));
        }
    }
    let r = if permit { scheduler::wakeup_permit(t.v) } else { scheduler::wakeup(t.v) };
    if r != t.live() {
        bad("wakeup", format!("waking {} reported {r}", name(j)));
    }
    if !t.live() {
        return;
    }
    if matches!(t.park, Some(Park::Sleep(_))) && state == ThreadState::Sleeping {
        t.woken = true;
        cx().probe("woken");
    } else if permit && state == ThreadState::Runnable {
        t.permit = true;
    }
}

fn raise_err() -> (MErr, MonorubyErr) {
    m().raises += 1;
    let class = [RUNTIME, ARGUMENT, INTERRUPT, STANDARD][cx().draw(4)];
    let msg = format!("r{}", m().raises);
    let mut e = MonorubyErr::of(class, msg.clone());
    let mut me = MErr::new(class, msg.clone());
    if cx().chance(1, 3) {
        let how = [ExcHow::Itself, ExcHow::Other, ExcHow::NotAnException, ExcHow::Raises][cx().weighted(&[3, 2, 1, 1])];
        me.how = Some(how);
        e = e.with_original(Value::alloc(Obj::Exc(ExceptionInner { class, msg, how })));
    }
    (me, e)
}

fn interrupt(i: usize, vm: &mut Executor, g: &mut Globals, j: usize, kill: bool) -> Result<()> {
    sync();
    let (int, real) = if kill {
        (Int::Kill, PendingInterrupt::Kill)
    } else {
        let (a, b) = raise_err();
        (Int::Raise(a), PendingInterrupt::Raise(b))
    };
    cx().log(|| format!("{} interrupts {}: {:?}", name(i), name(j), int));
    let live = m().th[j].live();
    if live {
        m().th[j].pending.push_back(int);
    }
    let r = scheduler::interrupt(vm, g, m().th[j].v, real);
    match (&r, i == j && deliverable(i, false).is_some()) {
        (Err(e), true) => delivered(i, e, false),
        (Ok(()), false) => {}
        (Err(e), false) => bad("invented", format!("interrupting {} failed: {}", name(j), e.message)),
        (Ok(()), true) => bad("undelivered", format!("{} interrupted itself and went on", name(i))),
    }
    r
}

fn boundary(i: usize, vm: &mut Executor, g: &mut Globals, blocking: bool) -> Result<()> {
    let r = scheduler::deliver_pending_now(vm, g, m().th[i].v, blocking);
    match &r {
        Ok(()) => {
            if let Some(k) = deliverable(i, blocking) {
                bad("undelivered", format!("{} passed a delivery point with {:?} due", name(i), m().th[i].pending[k]));
            }
        }
        Err(e) => delivered(i, e, blocking),
    }
    r
}

fn masked(i: usize, vm: &mut Executor, g: &mut Globals, depth: u32) -> Result<()> {
    let mut mask = vec![];
    for _ in 0..1 + cx().draw(2) {
        let c = [RUNTIME, STANDARD, EXCEPTION, ARGUMENT, INTERRUPT, OBJECT_CLASS][cx().draw(6)];
        let t = [InterruptTiming::Never, InterruptTiming::OnBlocking, InterruptTiming::Immediate][cx().weighted(&[3, 3, 2])];
        mask.push((c, t));
    }
    cx().log(|| format!("{} masks {:?}", name(i), mask));
    scheduler::push_interrupt_mask(vm, mask.iter().map(|(c, t)| (c.val(), *t)).collect());
    m().th[i].masks.push(mask);
    let r = match boundary(i, vm, g, false) {
        Err(e) => Err(e),
        Ok(()) => block(i, vm, g, depth + 1),
    };
    scheduler::pop_interrupt_mask(vm);
    m().th[i].masks.pop();
    cx().log(|| format!("{} unmasks", name(i)));
    boundary(i, vm, g, false)?;
    r
}

fn uninterruptible(i: usize, vm: &mut Executor, g: &mut Globals, depth: u32) -> Result<()> {
    cx().log(|| format!("{} uninterruptible", name(i)));
    scheduler::set_uninterruptible(m().th[i].v, true);
    m().th[i].unint += 1;
    let r = block(i, vm, g, depth + 1);
    scheduler::set_uninterruptible(m().th[i].v, false);
    m().th[i].unint -= 1;
    m().th[i].permit = false;
    cx().log(|| format!("{} interruptible", name(i)));
    boundary(i, vm, g, true)?;
    r
}

fn ensured(i: usize, vm: &mut Executor, g: &mut Globals, depth: u32) -> Result<()> {
    m().th[i].open += 1;
    let r = block(i, vm, g, depth + 1);
    if m().th[i].refuses && r.is_err() && m().exiting {
        cx().fault("refuses_to_die");
        loop {
            let _ = pass(i, vm, g);
        }
    }
    cx().log(|| format!("{} cleans up", name(i)));
    let mut over = None;
    for _ in 0..cx().draw(3) {
        match cx().draw(4) {
            0 => w().advance(30 * US),
            1 => {
                if let Err(e) = pass(i, vm, g) {
                    over = Some(e);
                    break;
                }
            }
            2 => {
                let j = cx().draw(m().th.len());
                if j != i {
                    wakeup(i, j, false);
                }
            }
            _ => {
                if m().prop != 23 || cx().chance(1, 4) {
                    let (_, e) = plain_err();
                    over = Some(e);
                    break;
                }
            }
        }
    }
    m().th[i].open -= 1;
    m().th[i].cleaned += 1;
    match over {
        Some(e) => Err(e),
        None => r,
    }
}

/// An error the thread's own code raises.
fn plain_err() -> (MErr, MonorubyErr) {
    m().raises += 1;
    let class = [RUNTIME, ARGUMENT][cx().draw(2)];
    let msg = format!("e{}", m().raises);
    (MErr::new(class, msg.clone()), MonorubyErr::of(class, msg))
}

fn spawn(i: usize, vm: &mut Executor, g: &mut Globals) {
    let n = m().th.len();
    if n >= MAX_THREADS || m().stop {
        return;
    }
    let v = Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(n as u64), vec![Value::integer(n as i64)]));
    let mut t = Th::new(v);
    if cx().chance(1, 5) {
        let b = cx().chance(1, 2);
        t.report = Some(b);
        g.store.set_ivar(v, IdentId::get_id("@report_on_exception"), Value::bool(b));
    }
    if cx().chance(1, 6) {
        let b = cx().chance(2, 3);
        t.abort = Some(b);
        g.store.set_ivar(v, IdentId::get_id("@abort_on_exception"), Value::bool(b));
    }
    t.refuses = m().prop == 23 && cx().chance(1, 40);
    cx().log(|| format!("{} starts t{n}", name(i)));
    m().th.push(t);
    scheduler::spawn(vm, v);
}

fn safepoint(i: usize, vm: &mut Executor, g: &mut Globals) -> Result<()> {
    let word = m().word.peek();
    if word == 0 {
        return Ok(());
    }
    sync();
    let switches = word & poll_flag::PREEMPT_LANE != 0 && m().th.iter().enumerate().any(|(j, t)| j != i && t.live());
    cx().log(|| format!("{} safepoint{}", name(i), if switches { " (tick)" } else { "" }));
    if !switches {
        return match executor::execute_gc(vm, g) {
            Some(_) => Ok(()),
            None => {
                let e = vm.take_error();
                if !std::mem::take(&mut m().handler_raised) {
                    bad("invented", format!("a safepoint raised {}", e.message));
                }
                Err(e)
            }
        };
    }
    cx().probe("preempted");
    park(i, Park::Pass);
    let fails = w().poll_fails;
    let r = match executor::execute_gc(vm, g) {
        Some(_) => Ok(()),
        None => Err(vm.take_error()),
    };
    resumed(i, vm);
    judge(i, r.as_ref().err(), false, false, fails);
    r
}

fn fork(i: usize, vm: &mut Executor) {
    if m().forked || m().exiting || m().stop {
        return;
    }
    sync();
    cx().fault("fork");
    cx().log(|| format!("{} forks; the run goes on as the child", name(i)));
    m().forked = true;
    w().vanish_others();
    scheduler::fork_child_reset_threads(vm);
    for j in 0..m().th.len() {
        let t = &mut m().th[j];
        if j != i && t.out.is_none() {
            t.gone = true;
            t.pending.clear();
        }
    }
    if i != 0 {
        cx().probe("forked by another thread than main");
    }
    audit(vm);
}

fn op(i: usize, vm: &mut Executor, g: &mut Globals, depth: u32) -> Result<bool> {
    let q = m();
    q.ops += 1;
    let n = q.th.len();
    let mut wt = q.weights;
    let unint = q.th[i].unint > 0;
    if unint {
        wt[3] = 0;
        wt[9] /= 2;
    }
    if depth > 3 {
        wt[10] = 0;
        wt[11] = 0;
        wt[12] = 0;
        wt[13] = 0;
    }
    if depth == 0 {
        wt[23] = if i == 0 { 0 } else { 1 };
    }
    if i == 0 {
        wt[20] = 0;
        wt[21] = 0;
    }
    match cx().weighted(&wt) {
        0 => {
            let d = [0, 20 * US, MS, 4 * MS, 12 * MS, 40 * MS][cx().weighted(&[2, 3, 3, 2, 2, 1])];
            cx().log(|| format!("{} computes {} us", name(i), d / US));
            w().advance(d);
        }
        1 => pass(i, vm, g)?,
        2 => {
            let d = duration();
            sleep(i, vm, g, d)?
        }
        3 => {
            let d = if cx().chance(1, 8) { Some(u64::MAX) } else { None };
            sleep(i, vm, g, d)?
        }
        4 => {
            let j = cx().draw(n);
            let d = if unint {
                Some(MS * cx().draw(20) as u64)
            } else {
                match cx().draw(4) {
                    0 | 1 => None,
                    2 => duration(),
                    _ if cx().chance(1, 4) => Some(u64::MAX),
                    _ => Some(2 * MS),
                }
            };
            join(i, vm, g, j, d)?
        }
        5 => {
            let k = 1 + cx().draw(2);
            let fds = (0..k).map(|_| (3 + cx().draw(3) as i32, [libc::POLLIN, libc::POLLOUT, libc::POLLIN | libc::POLLOUT][cx().weighted(&[4, 1, 1])])).collect();
            let d = if unint { Some(3 * MS) } else { [None, duration(), Some(5 * MS)][cx().draw(3)] };
            wait(i, vm, g, fds, d)?
        }
        6 | 7 if n < 2 => {}
        6 => {
            let j = cx().draw(n);
            wakeup(i, j, false)
        }
        7 => {
            let j = cx().draw(n);
            wakeup(i, j, true)
        }
        8 => {
            let j = cx().draw(n);
            interrupt(i, vm, g, j, false)?
        }
        9 => {
            let j = cx().draw(n);
            interrupt(i, vm, g, j, true)?
        }
        10 => masked(i, vm, g, depth)?,
        11 => uninterruptible(i, vm, g, depth)?,
        12 => {
            if let Err(e) = block(i, vm, g, depth + 1) {
                // rescue => e
                let exit = matches!(e.kind(), MonorubyErrKind::SystemExit(_) | MonorubyErrKind::Throw(..) | MonorubyErrKind::MethodReturn(_) | MonorubyErrKind::BlockBreak(_));
                if exit || !e.class_id().is_a(STANDARD) {
                    return Err(e);
                }
                cx().log(|| format!("{} rescues {}", name(i), e.message));
            }
        }
        13 => ensured(i, vm, g, depth)?,
        14 => spawn(i, vm, g),
        15 => safepoint(i, vm, g)?,
        16 => {
            let fd = 3 + cx().draw(3) as i32;
            let mask = [libc::POLLIN, libc::POLLOUT, libc::POLLIN | libc::POLLOUT, libc::POLLHUP, libc::POLLERR, 0][cx().weighted(&[5, 1, 1, 1, 1, 1])];
            let d = [0, 100 * US, 2 * MS, 30 * MS][cx().draw(4)];
            cx().log(|| format!("{} schedules fd {fd} -> {mask:#x} in {} us", name(i), d / US));
            let at = w().now + d;
            w().at(
                at,
                Ev::Call(Box::new(move || {
                    cx().fault("readiness");
                    if mask == 0 {
                        clear(fd);
                    } else {
                        // readiness replaced by another kind is withdrawn
                        clear(fd);
                        w().fds.get_mut(&fd).unwrap().ready = mask;
                    }
                })),
            );
            w().fire_now();
        }
        17 => {
            let s = [10, 15, 2][cx().draw(3)];
            let at = w().now + [0, 500 * US, 5 * MS][cx().draw(3)];
            w().at(at, Ev::Signal(s));
            w().fire_now();
        }
        18 => fork(i, vm),
        19 => poll_flag::set_gc(),
        20 => {
            cx().log(|| format!("{} exits", name(i)));
            return Err(MonorubyErr::new(MonorubyErrKind::SystemExit(3), "exit"));
        }
        21 => {
            let e = match cx().weighted(&[5, 1, 1, 1]) {
                0 => plain_err().1,
                1 => MonorubyErr::new(MonorubyErrKind::MethodReturn(Value::nil()), "return"),
                2 => MonorubyErr::new(MonorubyErrKind::BlockBreak(Value::nil()), "break"),
                _ => MonorubyErr::throw(Value::object(OBJECT_CLASS), Value::nil()),
            };
            cx().log(|| format!("{} raises {}", name(i), e.message));
            return Err(e);
        }
        22 => {
            audit(vm);
            let j = cx().draw(n);
            let f = [None, Some(RUNTIME), Some(STANDARD), Some(INTERRUPT)][cx().draw(4)];
            let got = scheduler::pending_interrupt_p(&g.store, m().th[j].v, f.map(|c| g.store.get_module(c)));
            let want = m().th[j].pending.iter().any(|p| match (p, f) {
                (_, None) | (Int::Kill, _) => true,
                (Int::Raise(e), Some(c)) => e.class.is_a(c),
            });
            if got != want && !m().th[j].gone {
                bad("pending", format!("{} has a pending interrupt: reported {got}, model {want}", name(j)));
            }
        }
        _ => return Ok(false),
    }
    Ok(true)
}

fn block(i: usize, vm: &mut Executor, g: &mut Globals, depth: u32) -> Result<()> {
    while !m().stop && cx().next_op() {
        if !op(i, vm, g, depth)? {
            break;
        }
    }
    Ok(())
}

impl Harness for M {
    fn trapped(&mut self, vm: &mut Executor, _: &mut Globals, n: i32) -> Result<Value> {
        cx().probe("signal delivered");
        cx().log(|| format!("handler of signal {n}"));
        if scheduler::current_thread(vm) != m().th[0].v {
            bad("offmain", format!("signal {n} was delivered off the main thread"));
        }
        if cx().chance(1, 4) {
            m().handler_raised = true;
            return Err(MonorubyErr::of(RUNTIME, "from handler"));
        }
        Ok(Value::nil())
    }
    fn exited(&mut self, code: i32) {
        exited(code)
    }
    fn stderr(&mut self, text: &str) {
        reported(text)
    }
    fn report(&mut self, _: &mut Executor, _: &mut Globals, text: &str) -> Result<Value> {
        reported(text);
        if cx().chance(1, 8) {
            cx().fault("report_fails");
            return Err(MonorubyErr::of(IOERR, "stderr"));
        }
        Ok(Value::nil())
    }
    fn body(&mut self, vm: &mut Executor, g: &mut Globals, id: u64, args: Vec<Value>) -> Result<Value> {
        let i = id as usize;
        if m().th[i].started {
            bad("undead", format!("{} is started twice", name(i)));
        }
        if args.len() != 1 || args[0].as_i64() != i as i64 {
            bad("args", format!("{} got the wrong arguments", name(i)));
        }
        resumed(i, vm);
        cx().log(|| format!("{} starts at {}", name(i), ms(w().now)));
        if let Some(p) = m().th[i].pending.front() {
            bad("undelivered", format!("{} was started although {p:?} was queued for it", name(i)));
        }
        m().th[i].started = true;
        let r = block(i, vm, g, 0);
        sync();
        let out = match &r {
            Ok(()) => Out::Val(1000 + i as i64),
            Err(e) => match e.kind() {
                MonorubyErrKind::Throw(..) if m().th[i].killed => Out::Killed,
                MonorubyErrKind::MethodReturn(_) => Out::Exc(MErr::new(JUMP, "unexpected return")),
                MonorubyErrKind::BlockBreak(_) => Out::Exc(MErr::new(JUMP, "break from proc-closure")),
                _ => Out::Exc(MErr { class: e.class_id(), msg: e.message.clone(), how: e.original.and_then(|v| v.is_exception().map(|x| x.how)) }),
            },
        };
        ended(i, out);
        m().cur = NOBODY;
        r.map(|_| Value::integer(1000 + i as i64))
    }
}

/// A report of a thread that died was written.
fn reported(text: &str) {
    sync();
    cx().probe("report written");
    let Some((id, e)) = m().reports.pop_front() else {
        bad("report", format!("an unexpected report: {text}"));
    };
    if !text.contains(&format!("0x{:016x}", id << 1)) || !text.contains(&format!("{} (C{})", e.msg, e.class.0)) {
        bad("report", format!("expected a report of {e:?}, got {text}"));
    }
}

/// The process is about to wait until `until`.
fn idle(until: Option<u64>) {
    if !w().in_wait {
        return;
    }
    sync();
    for i in 0..m().th.len() {
        if due(i) {
            bad("stuck", format!("the process waits although {} can run ({:?} at {})", name(i), m().th[i].park, ms(w().now)));
        }
    }
    let first = (0..m().th.len()).filter(|&i| m().th[i].live()).filter_map(deadline).min();
    match (first, until) {
        (Some(d), Some(u)) if u > d + SLOP => {
            bad("overslept", format!("the process waits until {} although a deadline is at {}", ms(u), ms(d)));
        }
        (Some(d), None) => bad("overslept", format!("the process waits without limit although a deadline is at {}", ms(d))),
        (None, Some(u)) => bad("stale", format!("the process waits until {} although no thread has a deadline", ms(u))),
        _ => {}
    }
    let fds: Vec<i32> = m().th.iter().filter(|t| t.live()).filter_map(|t| if let Some(Park::Fd(f, _)) = &t.park { Some(f[0].0) } else { None }).collect();
    if fds.is_empty() && first.is_none() {
        bad("hang", "the process waits although no thread can ever run again".into());
    }
    if first.is_none() && w().events_left() == 0 {
        let fd = fds[0];
        let at = w().now + MS;
        w().at(at, Ev::Call(Box::new(move || w().fds.get_mut(&fd).unwrap().ready = libc::POLLHUP)));
    }
}

/// A forked child without its main thread ended itself.
fn exited(code: i32) {
    sync();
    let left = (0..m().th.len()).filter(|&i| m().th[i].live()).count();
    if m().th[0].live() {
        bad("exit", format!("the process exited with {code}"));
    }
    if let Some(want) = m().exit_due {
        if code != want {
            bad("exit", format!("the process exited with {code} instead of {want}"));
        }
    } else if left > 0 && !deadlocked() {
        bad("exit", format!("the process exited with {code} while {left} threads could run"));
    }
    if !m().reports.is_empty() {
        bad("report", format!("{} reports were never written", m().reports.len()));
    }
    cx().probe("child without main exited");
    cx().nontrivial();
}

fn interp(prop: u32) {
    let c = cx();
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    w().max_late = MS;
    let n = [15, 40, 100][c.weighted(&[2, 3, 2])];
    c.set_ops(n);
    //            adv pas slp stp joi fd  wak prm rse kil msk uni rsc ens spn saf evt sig frk gc  exi err chk end
    let base = [4, 5, 5, 1, 3, 2, 3, 1, 2, 1, 1, 1, 2, 1, 4, 4, 2, 1, 0, 1, 1, 1, 2, 1u32];
    let mut wt = base;
    let boost: &[(usize, u32)] = match prop {
        17 => &[(2, 14), (3, 3), (6, 8), (7, 2), (0, 6)],
        18 => &[(4, 14), (14, 6), (9, 2), (21, 3), (2, 6)],
        19 => &[(8, 9), (9, 4), (10, 8), (11, 4), (12, 4), (3, 4)],
        20 => &[(5, 14), (16, 10), (17, 3), (1, 8)],
        21 => &[(3, 8), (4, 8), (2, 2), (5, 1), (6, 1), (14, 5)],
        22 => &[(1, 10), (14, 7), (15, 8), (0, 8), (21, 3), (20, 2)],
        _ => &[(18, 2), (13, 6), (11, 3), (14, 6), (3, 3)],
    };
    for (k, v) in boost {
        wt[*k] = *v;
    }
    // swarm: some kinds of operation are left out of a run
    for k in 0..OPS {
        if k != 0 && k != 14 && k != 1 && c.chance(1, 6) {
            wt[k] = 0;
        }
    }
    w().eintr = [0, 0, 30][c.draw(3)];
    w().poll_err = if prop == 20 || prop == 17 { [0, 0, 0, 12][c.draw(4)] } else { 0 };
    for fd in 3..6 {
        w().fds.insert(fd, world::Fd::default());
    }
    unsafe {
        M0 = Some(M {
            th: vec![],
            cur: 0,
            turn: 0,
            word,
            weights: wt,
            reports: VecDeque::new(),
            class_report: None,
            class_abort: None,
            raises: 0,
            poll_fails: 0,
            stop: false,
            exiting: false,
            forked: false,
            handler_raised: false,
            exit_due: None,
            prop,
            ops: 0,
        });
    }
    hooks::set(m());
    w().on_idle = Some(idle);
    poll_flag::register(word.as_ptr());
    preempt::register_flag(word.as_ptr());
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let g: &'static mut Globals = Box::leak(Box::new(Globals::default()));
    let class = THREAD_CLASS.val();
    if c.chance(1, 8) {
        let b = c.chance(1, 2);
        m().class_report = Some(b);
        g.store.set_ivar(class, IdentId::get_id("@report_on_exception"), Value::bool(b));
    }
    if c.chance(1, 12) {
        m().class_abort = Some(true);
        g.store.set_ivar(class, IdentId::get_id("@abort_on_exception"), Value::bool(true));
    }
    let main = scheduler::main_thread(vm);
    let mut t = Th::new(main);
    t.started = true;
    m().th.push(t);
    for _ in 0..1 + c.draw(3) {
        spawn(0, vm, g);
    }
    // the main program
    while cx().next_op() {
        match op(0, vm, g, 0) {
            Ok(_) => {}
            Err(e) => {
                cx().log(|| format!("main rescues {}", e.message));
                if matches!(e.kind(), MonorubyErrKind::SystemExit(_)) && cx().chance(1, 2) {
                    break;
                }
            }
        }
    }
    audit(vm);
    let states = m().th.iter().fold(m().turn, |a, t| simcore::mix64(a ^ (t.parks << 8) ^ t.out.is_some() as u64 ^ (t.killed as u64) << 1));
    cx().state(states);
    cx().probe_n("turns", m().turn);
    if m().turn > 2 {
        cx().nontrivial();
    }
    m().stop = true;
    if prop == 23 && cx().chance(2, 3) {
        exit(vm, g);
    } else {
        wind_down(vm, g);
    }
}

/// Everybody is told to end, and must.
fn wind_down(vm: &mut Executor, g: &mut Globals) {
    w().clear_events();
    for k in 0..60 {
        sync();
        let left: Vec<usize> = (1..m().th.len()).filter(|&i| m().th[i].live()).collect();
        if left.is_empty() {
            break;
        }
        if k == 59 {
            bad("stuck", format!("{} never ends", name(left[0])));
        }
        for fd in 3..6 {
            w().fds.get_mut(&fd).unwrap().ready = libc::POLLHUP;
        }
        for &i in &left {
            wakeup(0, i, false);
            if !m().th[i].pending.iter().any(|p| matches!(p, Int::Kill)) {
                let _ = interrupt(0, vm, g, i, true);
            }
        }
        let _ = sleep(0, vm, g, Some(2 * MS));
    }
    for _ in 0..20 {
        if pass(0, vm, g).is_ok() && m().reports.is_empty() {
            break;
        }
    }
    if !m().reports.is_empty() {
        bad("report", format!("{} reports were never written", m().reports.len()));
    }
    audit(vm);
}

/// The process exits.
fn exit(vm: &mut Executor, g: &mut Globals) {
    cx().fault("exit");
    cx().log(|| "the process exits".into());
    sync();
    m().exiting = true;
    let mut slow = vec![];
    for i in 1..m().th.len() {
        let t = &mut m().th[i];
        if !t.live() {
            continue;
        }
        t.pending.push_back(Int::Kill);
        if t.park.is_some() {
            t.excused = true;
        }
        // waits again, for as long as its deadline says
        if t.unint > 0 && matches!(t.park, Some(Park::Join(..))) {
            slow.push(i);
        }
    }
    let targets: Vec<usize> = (1..m().th.len()).filter(|&i| m().th[i].live()).collect();
    // the main thread passes many times; what is queued for it goes nowhere
    m().th[0].park = Some(Park::Pass);
    m().cur = NOBODY;
    scheduler::terminate_all(vm, g);
    resumed(0, vm);
    m().th[0].pending.clear();
    for i in targets {
        if m().th[i].live() && !m().th[i].refuses && !slow.contains(&i) {
            bad("survived", format!("{} is still alive after the process ended its threads", name(i)));
        }
        if !m().th[i].live() && m().th[i].open > 0 {
            bad("cleanup", format!("{} ended without running its cleanup", name(i)));
        }
        if m().th[i].live() == m().th[i].v.as_thread_inner().is_dead() {
            bad("cleanup", format!("{} was declared dead without being unwound", name(i)));
        }
    }
    audit(vm);
}

macro_rules! runs {
    ($($f:ident $b:ident $n:literal),*) => {$(
        fn $b() {
            interp($n)
        }
        fn $f(ctx: &mut Ctx) -> std::result::Result<(), Violation> {
            world::run(ctx, $b)
        }
    )*};
}
runs!(r17 b17 17, r18 b18 18, r19 b19 19, r20 b20 20, r21 b21 21, r22 b22 22, r23 b23 23);

pub fn props() -> Vec<Prop> {
    const fn p(id: &'static str, run: fn(&mut Ctx) -> std::result::Result<(), Violation>) -> Prop {
        Prop {
            isolate: true,
            quick_runs: 250_000,
            quick_secs: 45.0,
            rule: "every return from a scheduler call must be justified by the model of the calling thread, every thread with a reason to run must run within a bounded number of turns, and the process may wait only while no thread has one",
            measure: "(turns, parks and outcome of every thread) of a run",
            real: &["monoruby/src/scheduler.rs", "monoruby/src/value/rvalue/thread.rs", "monoruby/src/preempt.rs", "monoruby/src/poll_flag.rs", "execute_gc of monoruby/src/executor.rs"],
            stub: &["machine stacks (coroutines), values and exceptions, clock, poll, nanosleep, signals"],
            assumptions: &["thread bodies are seeded programs of scheduler calls instead of Ruby code"],
            ..Prop::base(id, run)
        }
    }
    vec![p("C17", r17), p("C18", r18), p("C19", r19), p("C20", r20), p("C21", r21), p("C22", r22), p("C23", r23)]
}

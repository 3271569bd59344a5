//! The simulated process: threads, streams, the clock, and the changes the
//! rest of the machine makes to streams.
use crate::co;
use crate::stubs::*;
use libc::{EINTR, ENOMEM, POLLERR, POLLHUP, POLLIN, POLLNVAL, POLLOUT, POLLPRI};
use simcore::Ctx;
use std::sync::atomic::Ordering::Relaxed;

const STACK: usize = 256 * 1024;
/// Nanoseconds a system call takes.
pub const TICK: u64 = 10_000;
pub const MS: u64 = 1_000_000;

#[derive(Clone, PartialEq, Debug)]
pub enum St {
    New,
    Ready,
    Parked { fds: Vec<(i32, i16)>, deadline: Option<u64>, wake: bool },
    Done,
}

/// A stream; with two descriptors, the second one is written to.
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub fd: Option<i32>,
    pub wfd: Option<i32>,
    pub bits: [i16; 2],
    pub buffered: bool,
}
impl Stream {
    /// What of `ev` certainly holds, and what may be reported as such.
    pub fn holds(&self, ev: i16) -> (bool, bool) {
        let b = if ev == POLLOUT && self.wfd.is_some() { self.bits[1] } else { self.bits[0] };
        let err = b & (POLLERR | POLLHUP) != 0;
        match ev {
            POLLIN => (b & (POLLIN | POLLHUP | POLLERR) != 0 || self.buffered, b & (POLLIN | POLLPRI) != 0 || err || self.buffered),
            POLLOUT => (b & (POLLOUT | POLLERR) != 0, b & POLLOUT != 0 || err),
            _ => (b & POLLPRI != 0, b & POLLPRI != 0 || err),
        }
    }
}

/// A stream a call waits for.
#[derive(Clone, Debug)]
pub struct Want {
    pub stream: usize,
    pub ev: i16,
    /// Since the call last went on: was once not ready, was once ready.
    pub was_not: bool,
    pub was: bool,
}

#[derive(Default)]
pub struct Call {
    pub name: &'static str,
    pub wants: Vec<Want>,
    pub deadline: Option<u64>,
    pub waited: bool,
    pub interrupted: bool,
    pub failed: bool,
    pub syscalls: u32,
    pub steps: u32,
    /// Time spent working when the call began.
    pub busy: u64,
    pub active: bool,
}

pub struct Task {
    pub st: St,
    sp: usize,
    pub intr: bool,
    pub woken: bool,
    pub call: Call,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    pub eintr: u32,
    pub fail: u32,
    pub spurious: u32,
    pub change: u32,
}

pub struct World {
    pub ctx: *mut Ctx,
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub fail: Option<(String, String)>,
    pub ending: bool,
    pub raising: bool,
    pub now: u64,
    /// Time somebody worked.
    pub busy: u64,
    pub streams: Vec<Stream>,
    pub f: Faults,
    pub switches: u64,
    body: fn(usize),
    harness: usize,
    dead: usize,
}

static mut W: *mut World = std::ptr::null_mut();

pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *w().ctx }
}

fn stack(i: usize) -> usize {
    static mut TOPS: Vec<usize> = vec![];
    unsafe {
        while TOPS.len() <= i {
            let base = libc::mmap(std::ptr::null_mut(), STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            if base == libc::MAP_FAILED {
                simcore::fatal("[harness]", "mmap of a stack failed");
            }
            libc::mprotect(base, 4096, libc::PROT_NONE);
            TOPS.push(base as usize + STACK);
        }
        TOPS[i]
    }
}

extern "C" fn entry(i: usize) {
    let r = std::panic::catch_unwind(|| (w().body)(i));
    if r.is_err() {
        w().abort("panic", format!("panicked: {}", simcore::last_panic()));
    }
    w().tasks[i].st = St::Done;
    w().to_harness();
    unreachable!()
}

impl World {
    pub fn abort(&mut self, class: &str, msg: String) -> ! {
        if self.fail.is_none() {
            let name = self.call().name;
            self.fail = Some((class.into(), format!("{name}: {msg}")));
        }
        self.to_harness();
        unreachable!()
    }
    fn to_harness(&mut self) {
        let t = self.cur;
        let to = self.harness;
        let save = if self.fail.is_some() { &raw mut self.dead } else { &raw mut self.tasks[t].sp };
        unsafe { co::swap(save, to) };
    }
    pub fn call(&mut self) -> &mut Call {
        let c = self.cur;
        &mut self.tasks[c].call
    }
    /// Whether another thread than the current one is alive.
    pub fn others(&self) -> bool {
        self.tasks.iter().enumerate().any(|(i, t)| i != self.cur && t.st != St::Done)
    }
    /// Notes what the streams of the running call look like.
    pub fn sample(&mut self) {
        let c = self.cur;
        let (t, s) = (&mut self.tasks[c], &self.streams);
        for x in &mut t.call.wants {
            let (must, may) = s[x.stream].holds(x.ev);
            x.was_not |= !must;
            x.was |= may;
        }
    }
    /// The call goes on after a wait: what was before no longer counts.
    fn resumed(&mut self) {
        for x in &mut self.call().wants {
            (x.was, x.was_not) = (false, false);
        }
        self.sample();
    }
    pub fn tick(&mut self) {
        self.now += TICK;
        self.busy += TICK;
        if ctx().chance(self.f.change, 400) {
            self.change();
        }
    }
    /// The rest of the machine does something to a stream.
    pub fn change(&mut self) {
        let n = self.streams.len();
        if n == 0 {
            return;
        }
        // mostly to one that is waited for
        let mut s = ctx().draw(n);
        if ctx().chance(1, 2) {
            let all: Vec<usize> = self.tasks.iter().flat_map(|t| t.call.wants.iter().map(|x| x.stream)).collect();
            if !all.is_empty() {
                s = all[ctx().draw(all.len())];
            }
        }
        let side = ctx().draw(2);
        let b = &mut self.streams[s].bits[side];
        let bit = [POLLIN, POLLOUT, POLLPRI, POLLHUP, POLLERR][ctx().weighted(&[8, 8, 2, 2, 1])];
        if bit == POLLHUP || bit == POLLERR {
            // for good
            *b |= bit;
            if ctx().chance(1, 2) {
                *b |= POLLIN;
            }
        } else {
            *b ^= bit;
        }
        ctx().log(|| format!("  stream {s}.{side} is now {:#x}", self.streams[s].bits[side]));
        if self.tasks[self.cur].call.active {
            self.sample();
        }
    }
    pub fn ready(&self, fd: i32, events: i16) -> i16 {
        for s in &self.streams {
            if s.fd == Some(fd) {
                let b = if s.wfd.is_some() { s.bits[0] & !POLLOUT } else { s.bits[0] };
                return b & (events | POLLERR | POLLHUP);
            }
            if s.fd.is_some() && s.wfd == Some(fd) {
                return s.bits[1] & !POLLIN & (events | POLLERR | POLLHUP);
            }
        }
        POLLNVAL
    }
    /// Time goes on until something happens, at most to `until`; false:
    /// nothing will.
    fn idle(&mut self, until: Option<u64>) -> bool {
        let step = [MS / 2, 3 * MS, 40 * MS, 700 * MS][ctx().weighted(&[3, 4, 3, 1])];
        if let Some(u) = until
            && u <= self.now + step
        {
            self.now = u.max(self.now);
            return true;
        }
        if until.is_none_or(|u| u > self.now + 20_000_000 * MS) && ctx().chance(1, 24) {
            return false;
        }
        self.now += step;
        self.change();
        true
    }
    /// A system call that waits for streams.
    pub fn kernel_wait(&mut self, limit: Option<u64>, mut scan: impl FnMut(&World) -> std::result::Result<i32, i32>) -> std::result::Result<i32, i32> {
        let start = self.now;
        self.tick();
        self.sample();
        let c = self.call();
        c.syscalls += 1;
        if c.syscalls > 5000 {
            self.abort("spin", "the call runs without getting on".into());
        }
        if ctx().chance(self.f.fail, 300) {
            ctx().fault("ENOMEM");
            self.call().failed = true;
            return Err(ENOMEM);
        }
        let mut signal = None;
        if ctx().chance(self.f.eintr, 60) {
            signal = Some(self.now + [0, MS, 10 * MS, 200 * MS][ctx().draw(4)]);
        }
        let blocking = limit.is_none_or(|l| l > start);
        if blocking {
            self.call().waited = true;
            if self.others() {
                self.abort("blocked", "the call waits inside the system while other threads could run".into());
            }
        }
        let mut first = true;
        let mut idles = 0;
        loop {
            let n = scan(self)?;
            if n > 0 {
                return Ok(n);
            }
            if signal.is_some_and(|s| s <= self.now) {
                ctx().fault("EINTR");
                crate::codegen::signal_table::PENDING_SIGNALS.store(1, Relaxed);
                if ctx().chance(1, 5) {
                    self.raising = true;
                    ctx().fault("handler raises");
                }
                return Err(EINTR);
            }
            if !blocking || limit.is_some_and(|l| l <= self.now) {
                return Ok(0);
            }
            if first {
                first = false;
                ctx().probe("waits inside the system");
            }
            let i = self.cur;
            self.stuck(i);
            if self.fail.is_some() {
                self.to_harness();
            }
            let until = match (limit, signal) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            };
            idles += 1;
            if idles > 300 || !self.idle(until) {
                // nothing will ever happen again
                self.ending = true;
                self.raising = true;
                crate::codegen::signal_table::PENDING_SIGNALS.store(1, Relaxed);
                return Err(EINTR);
            }
            self.resumed();
        }
    }
    fn interrupt(&mut self) -> Result<()> {
        let c = self.cur;
        if std::mem::take(&mut self.tasks[c].intr) {
            ctx().probe("interrupted");
            self.call().interrupted = true;
            return Err(MonorubyErr::of(E::Raised, "interrupt"));
        }
        Ok(())
    }
    pub fn safepoint(&mut self) -> Result<()> {
        self.tick();
        let c = self.cur;
        if crate::codegen::signal_table::PENDING_SIGNALS.swap(0, Relaxed) != 0 {
            ctx().probe("handler");
            if ctx().chance(1, 3) {
                let d = [MS, 30 * MS][ctx().draw(2)];
                self.now += d;
                self.busy += d;
            }
            if ctx().chance(1, 3) {
                self.change();
            }
            if std::mem::take(&mut self.raising) {
                self.tasks[c].intr = true;
            }
        }
        if self.others() && ctx().chance(1, 3) {
            self.tasks[c].st = St::Ready;
            self.to_harness();
        }
        self.resumed();
        self.interrupt()
    }
    pub fn park(&mut self, fds: Vec<(i32, i16)>, deadline: Option<u64>, wake: bool) -> Result<()> {
        self.interrupt()?;
        let c = self.cur;
        let call = self.call();
        call.waited = true;
        call.steps += 1;
        if call.steps > 300 {
            self.tasks[c].intr = true;
        }
        ctx().probe("parked");
        self.tasks[c].woken = false;
        self.tasks[c].st = St::Parked { fds, deadline, wake };
        self.to_harness();
        self.resumed();
        self.interrupt()
    }
    pub fn close(&mut self, s: usize) {
        let fds = [self.streams[s].fd.take(), self.streams[s].wfd.take()];
        for t in &mut self.tasks {
            if let St::Parked { fds: f, .. } = &t.st
                && f.iter().any(|(fd, _)| fds.contains(&Some(*fd)))
            {
                t.woken = true;
            }
        }
    }
    fn runnable(&self, i: usize) -> bool {
        let t = &self.tasks[i];
        match &t.st {
            St::New | St::Ready => true,
            St::Done => false,
            St::Parked { fds, deadline, .. } => t.intr || t.woken || deadline.is_some_and(|d| d <= self.now) || fds.iter().any(|(fd, ev)| self.ready(*fd, *ev) != 0),
        }
    }
    pub fn late(&self, c: &Call) -> bool {
        c.deadline.is_some_and(|d| self.now > d + (self.busy - c.busy) + 2 * MS)
    }
    /// A thread waits although its call could be completed.
    pub fn stuck(&mut self, i: usize) {
        let c = &self.tasks[i].call;
        if !c.active {
            return;
        }
        let late = self.late(c);
        for x in &c.wants {
            let s = &self.streams[x.stream];
            if s.fd.is_some() && s.holds(x.ev).0 {
                self.cur = i;
                self.fail = Some(("stuck".into(), format!("{}: keeps waiting although stream {} is ready", c.name, x.stream)));
                return;
            }
            if s.fd.is_none() {
                self.cur = i;
                self.fail = Some(("stuck".into(), format!("{}: keeps waiting although stream {} was closed", c.name, x.stream)));
                return;
            }
        }
        if late {
            self.cur = i;
            self.fail = Some(("late".into(), format!("{}: keeps waiting although its time is over", c.name)));
        }
    }
    fn drive(&mut self) {
        let mut idle = 0;
        while self.fail.is_none() {
            let run: Vec<usize> = (0..self.tasks.len()).filter(|i| self.runnable(*i)).collect();
            if !run.is_empty() {
                let i = run[ctx().draw(run.len())];
                self.cur = i;
                self.switches += 1;
                if self.switches > 20_000 {
                    self.fail = Some(("spin".into(), "the threads run without getting on".into()));
                    return;
                }
                let fresh = self.tasks[i].st == St::New;
                self.tasks[i].st = St::Ready;
                let to = if fresh { unsafe { co::frame(stack(i), entry, i) } } else { self.tasks[i].sp };
                unsafe { co::swap(&raw mut self.harness, to) };
                continue;
            }
            if self.tasks.iter().all(|t| t.st == St::Done) {
                return;
            }
            // a wait may also end for no reason
            let p: Vec<usize> = (0..self.tasks.len()).filter(|i| matches!(self.tasks[*i].st, St::Parked { wake: true, .. })).collect();
            if !p.is_empty() && ctx().chance(self.f.spurious, 40) {
                let t = p[ctx().draw(p.len())];
                self.tasks[t].woken = true;
                ctx().fault("spurious wake-up");
                continue;
            }
            for i in 0..self.tasks.len() {
                if matches!(self.tasks[i].st, St::Parked { .. }) && self.fail.is_none() {
                    self.stuck(i);
                }
            }
            let dl = self.tasks.iter().filter_map(|t| if let St::Parked { deadline, .. } = t.st { deadline } else { None }).min();
            idle += 1;
            if self.fail.is_some() || (idle < 400 && self.idle(dl)) {
                continue;
            }
            // nothing will ever happen again: the threads are killed
            self.ending = true;
            for t in &mut self.tasks {
                if t.st != St::Done {
                    t.intr = true;
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx, n: usize, f: Faults, body: fn(usize), setup: fn(&mut World)) -> Box<World> {
    let mut world = Box::new(World {
        ctx,
        tasks: (0..n).map(|_| Task { st: St::New, sp: 0, intr: false, woken: false, call: Call::default() }).collect(),
        cur: 0,
        fail: None,
        ending: false,
        raising: false,
        now: 0,
        busy: 0,
        streams: vec![],
        f,
        switches: 0,
        body,
        harness: 0,
        dead: 0,
    });
    crate::codegen::signal_table::PENDING_SIGNALS.store(0, Relaxed);
    unsafe { W = &mut *world };
    setup(w());
    world.drive();
    world
}

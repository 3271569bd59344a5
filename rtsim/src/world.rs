//! The simulated machine: one clock, one interpreter thread, other OS threads
//! run as coroutines, descriptors, signals and timed events. Every choice
//! comes from the run's seeded stream.
use crate::co::Co;
use simcore::{Ctx, Violation};
use std::collections::BTreeMap;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub enum OsState {
    Ready,
    Until(u64),
    Wait(Box<dyn FnMut() -> bool>),
    Done,
    /// Did not survive a fork.
    Gone,
}

pub struct Os {
    pub co: Option<Box<Co>>,
    pub state: OsState,
    pub ready_at: u64,
    pub name: &'static str,
}

pub enum Ev {
    /// Set the readiness bits of a descriptor.
    Ready(i32, i16),
    Signal(i32),
    Call(Box<dyn FnOnce()>),
}

#[derive(Default, Clone, Debug)]
pub struct Fd {
    /// Readiness of a plain test descriptor.
    pub ready: i16,
    /// Since when (turn count) the readiness has been unchanged.
    pub since: u64,
    /// Pipe: index of the shared buffer.
    pub pipe: Option<usize>,
    pub write_end: bool,
    pub nonblock: bool,
}

pub struct World {
    pub ctx: *mut Ctx,
    pub now: u64,
    main: *mut Co,
    /// 0: interpreter, i: os[i - 1]
    pub cur: usize,
    pub os: Vec<Os>,
    errno: Vec<i32>,
    pub viol: Option<Violation>,
    /// Chance of another OS thread running at a yield point of the
    /// interpreter thread, in 1/256.
    pub switch: u32,
    /// How many yield points an OS thread runs through at most.
    pub slice: u32,
    budget: u32,
    /// An OS thread that can run is not left waiting longer than this while
    /// the clock moves.
    pub max_late: u64,
    pub fds: BTreeMap<i32, Fd>,
    pub pipes: Vec<usize>,
    evs: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    pub dead_words: Vec<usize>,
    pub intr: bool,
    /// Chance in 1/256 of a spurious EINTR in a wait.
    pub eintr: u32,
    /// Chance in 1/256 of poll failing.
    pub poll_err: u32,
    /// How often it did.
    pub poll_fails: u64,
    pub in_wait: bool,
    /// Called on entering a wait of the interpreter and whenever time moves
    /// within one.
    pub on_idle: Option<fn(until: Option<u64>)>,
    pub steps: u64,
    pub watch: Option<usize>,
}

static mut W: *mut World = std::ptr::null_mut();

pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *w().ctx }
}

/// Runs `body` as the interpreter thread of a fresh machine.
pub fn run(ctx: &mut Ctx, body: fn()) -> Result<(), Violation> {
    let world = Box::new(World {
        ctx,
        now: SEC,
        main: std::ptr::null_mut(),
        cur: 0,
        os: vec![],
        errno: vec![0],
        viol: None,
        switch: 0,
        slice: 1,
        budget: 0,
        max_late: 2 * MS,
        fds: BTreeMap::new(),
        pipes: vec![],
        evs: BTreeMap::new(),
        seq: 0,
        dead_words: vec![],
        intr: false,
        eintr: 0,
        poll_err: 0,
        poll_fails: 0,
        in_wait: false,
        on_idle: None,
        steps: 0,
        watch: None,
    });
    unsafe { W = Box::into_raw(world) };
    let mut co = Co::new(body);
    w().main = &mut *co;
    co.resume();
    let t = w().now - SEC;
    cx().sim_ns += t;
    match w().viol.take() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

impl World {
    pub fn abort(&mut self, class: &str, msg: String) -> ! {
        if self.viol.is_none() {
            self.viol = Some(Violation { class: class.to_string(), msg });
        }
        self.finish()
    }
    /// Ends the run from any context.
    pub fn finish(&mut self) -> ! {
        unsafe { (*self.main).escape() }
    }

    pub fn errno(&mut self) -> &mut i32 {
        let c = self.cur;
        if self.errno.len() <= c {
            self.errno.resize(c + 1, 0);
        }
        &mut self.errno[c]
    }

    pub fn at(&mut self, time: u64, ev: Ev) {
        self.seq += 1;
        self.evs.insert((time, self.seq), ev);
    }
    pub fn events_left(&self) -> usize {
        self.evs.len()
    }
    pub fn clear_events(&mut self) {
        self.evs.clear();
    }

    pub fn fire_now(&mut self) {
        self.fire();
    }

    fn fire(&mut self) {
        while let Some((&(t, s), _)) = self.evs.iter().next() {
            if t > self.now {
                break;
            }
            match self.evs.remove(&(t, s)).unwrap() {
                Ev::Ready(fd, m) => {
                    let st = self.steps;
                    if let Some(f) = self.fds.get_mut(&fd) {
                        f.ready = m;
                        f.since = st;
                    }
                }
                Ev::Signal(n) => self.raise_signal(n),
                Ev::Call(f) => f(),
            }
        }
    }

    pub fn raise_signal(&mut self, n: i32) {
        cx().fault("signal");
        cx().log(|| format!("signal {n}"));
        crate::hooks::signal_sent(n);
        crate::codegen::signal_table::signal_handler(n);
        crate::hooks::signal_recorded(n);
        self.intr = true;
    }

    fn can_run(&mut self, i: usize) -> bool {
        let now = self.now;
        let p: *mut Os = &mut self.os[i];
        let o = unsafe { &mut *p };
        let r = match &mut o.state {
            OsState::Ready => true,
            OsState::Until(t) => *t <= now,
            OsState::Wait(c) => c(),
            _ => false,
        };
        if r && o.ready_at == u64::MAX {
            o.ready_at = match o.state {
                OsState::Until(t) => t,
                _ => now,
            };
        }
        r
    }

    /// Runs OS thread `i` for up to `budget` yield points.
    fn run_os(&mut self, i: usize, budget: u32) {
        assert_eq!(self.cur, 0);
        self.cur = i + 1;
        self.budget = budget;
        self.os[i].state = OsState::Ready;
        self.os[i].ready_at = u64::MAX;
        cx().log(|| format!("  os thread {} runs", i + 1));
        let co: *mut Co = &mut **self.os[i].co.as_mut().unwrap();
        unsafe {
            (*co).resume();
            if (*co).done {
                self.os[i].state = OsState::Done;
                self.os[i].co = None;
            }
        }
        self.cur = 0;
    }

    fn runnable(&mut self) -> Vec<usize> {
        (0..self.os.len()).filter(|&i| self.can_run(i)).collect()
    }

    fn suspend_os(&mut self) {
        let c = self.cur;
        let co: *mut Co = &mut **self.os[c - 1].co.as_mut().unwrap();
        unsafe { (*co).suspend() };
    }

    /// A point at which another OS thread may run.
    pub fn yield_point(&mut self) {
        self.steps += 1;
        if self.steps > 2_000_000 {
            simcore::fatal("endless", "the simulated process does not come to an end");
        }
        if self.cur != 0 {
            if self.budget == 0 {
                let c = self.cur;
                self.os[c - 1].state = OsState::Ready;
                self.suspend_os();
            } else {
                self.budget -= 1;
            }
        } else if self.switch > 0 && !self.os.is_empty() && cx().chance(self.switch, 256) {
            let r = self.runnable();
            if !r.is_empty() {
                let i = r[cx().draw(r.len())];
                let b = cx().draw(self.slice as usize) as u32;
                self.run_os(i, b);
            }
        }
    }

    /// Blocks the current OS thread until `cond`.
    pub fn os_wait(&mut self, mut cond: impl FnMut() -> bool + 'static) {
        assert!(self.cur != 0);
        while !cond() {
            // the condition is re-checked by the scheduler of OS threads
            let c = self.cur;
            let p: *mut _ = &mut cond;
            self.os[c - 1].state = OsState::Wait(Box::new(move || unsafe { (*p)() }));
            self.suspend_os();
        }
    }

    pub fn os_sleep(&mut self, d: u64) {
        if self.cur == 0 {
            self.block(&mut || false, Some(self.now.saturating_add(d)));
        } else {
            let c = self.cur;
            self.os[c - 1].state = OsState::Until(self.now + d);
            self.suspend_os();
        }
    }

    pub fn spawn_os(&mut self, name: &'static str, f: Box<dyn FnOnce()>) -> usize {
        self.os.push(Os { co: Some(Co::new(move || f())), state: OsState::Ready, ready_at: u64::MAX, name });
        self.os.len() - 1
    }

    pub fn os_done(&self, i: usize) -> bool {
        matches!(self.os[i].state, OsState::Done)
    }

    /// The interpreter's OS thread forked: nobody else came along.
    pub fn vanish_others(&mut self) {
        for o in &mut self.os {
            if !matches!(o.state, OsState::Done) {
                o.state = OsState::Gone;
            }
        }
    }

    fn next_time(&mut self) -> Option<u64> {
        let mut t = self.evs.keys().next().map(|k| k.0);
        for o in &self.os {
            if let OsState::Until(u) = o.state {
                t = Some(t.map_or(u, |x: u64| x.min(u)));
            }
        }
        t
    }

    /// The interpreter thread computes for `d`.
    pub fn advance(&mut self, d: u64) {
        assert_eq!(self.cur, 0);
        let end = self.now.saturating_add(d);
        loop {
            self.fire();
            let late: Vec<usize> = (0..self.os.len())
                .filter(|&i| self.can_run(i) && self.os[i].ready_at.saturating_add(self.max_late) <= self.now)
                .collect();
            for i in late {
                if self.can_run(i) {
                    self.run_os(i, 1000);
                }
            }
            let r = self.runnable();
            if !r.is_empty() && cx().chance(1, 2) {
                let i = r[cx().draw(r.len())];
                let b = cx().draw(self.slice as usize) as u32;
                self.run_os(i, b);
                continue;
            }
            if self.now >= end {
                break;
            }
            let mut t = self.next_time().filter(|t| *t > self.now).unwrap_or(end).min(end);
            if !r.is_empty() {
                // somebody waits for a processor: do not skip past the point
                // where it has waited long enough
                let m = r.iter().map(|&i| self.os[i].ready_at.saturating_add(self.max_late)).min().unwrap();
                t = t.min(m.max(self.now + 1));
            }
            self.now = t;
        }
        self.fire();
    }

    /// Blocks the interpreter thread until `cond`, the deadline, or a signal
    /// (returns false for the latter two).
    pub fn block(&mut self, cond: &mut dyn FnMut() -> bool, deadline: Option<u64>) -> bool {
        assert_eq!(self.cur, 0);
        let mut quiet = 0;
        loop {
            self.fire();
            if cond() {
                return true;
            }
            if self.intr || deadline.is_some_and(|d| d <= self.now) {
                return false;
            }
            let r = self.runnable();
            if !r.is_empty() {
                let i = r[cx().draw(r.len())];
                let b = cx().draw(self.slice as usize) as u32;
                self.run_os(i, b);
                continue;
            }
            if let Some(f) = self.on_idle {
                f(deadline);
            }
            let had = self.evs.len();
            let mut t = self.next_time();
            if let Some(d) = deadline {
                t = Some(t.map_or(d, |x| x.min(d)));
            }
            match t {
                Some(t) if quiet < 64 => {
                    self.now = self.now.max(t);
                    if deadline.is_none() && had == 0 {
                        quiet += 1;
                    } else {
                        quiet = 0;
                    }
                }
                _ => self.abort("hang", "the process waits forever".into()),
            }
        }
    }

    /// Blocks the interpreter thread until `cond`, whatever signals arrive.
    pub fn block_hard(&mut self, cond: &mut dyn FnMut() -> bool) {
        let (intr, idle) = (self.intr, self.on_idle.take());
        loop {
            self.intr = false;
            if self.block(cond, None) {
                break;
            }
        }
        self.intr = intr;
        self.on_idle = idle;
    }

    /// Access to a shared word.
    pub fn touch(&mut self, addr: usize, write: bool) {
        if self.dead_words.contains(&addr) {
            let c = self.cur;
            self.abort("freed", format!("{} a torn-down request word (os thread {c})", if write { "wrote to" } else { "read" }));
        }
        if write && self.watch == Some(addr) && self.cur != 0 {
            crate::hooks::word_write(self.cur);
        }
    }
}

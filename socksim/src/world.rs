//! The threads of the simulated process and the switches between them.
use crate::co;
use crate::kern::Kern;
use crate::stubs::*;
use simcore::Ctx;

const STACK: usize = 256 * 1024;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    New,
    Ready,
    Parked { fd: i32, events: i16, deadline: Option<u64> },
    Done,
}

/// One system call of a method call.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub op: &'static str,
    pub fd: i32,
    pub err: i32,
    /// Data that was there to be received, or that was taken over.
    pub data: Vec<u8>,
    pub took: usize,
    pub space: usize,
    pub addr: Vec<u8>,
    pub stream: bool,
    pub new_fd: i32,
    pub num: [i32; 3],
}

/// One method call of a thread.
#[derive(Default)]
pub struct Call {
    pub name: &'static str,
    pub io: Option<Value>,
    /// Must not wait.
    pub now: bool,
    /// What has to come true before the call can go on.
    pub needs: i16,
    pub waited: bool,
    pub interrupted: bool,
    pub recs: Vec<Rec>,
    /// Failures the kernel reported and that are no reason to try again.
    pub fails: Vec<i32>,
    /// Descriptors the call opened.
    pub created: Vec<i32>,
    pub lists: usize,
    pub steps: u32,
    /// Safepoints since it last waited.
    pub dry: u32,
}

pub struct Task {
    pub st: St,
    sp: usize,
    pub intr: bool,
    pub woken: bool,
    pub calls: Vec<Call>,
}

pub struct World {
    pub ctx: *mut Ctx,
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub fail: Option<(String, String)>,
    pub ending: bool,
    pub raising: bool,
    pub kern: Kern,
    /// Which property is judged.
    pub desc: bool,
    pub switches: u64,
    body: fn(usize),
    harness: usize,
    dead: usize,
}

static mut W: *mut World = std::ptr::null_mut();

pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *w().ctx }
}
pub fn active() -> bool {
    unsafe { !W.is_null() }
}

fn stack(i: usize) -> usize {
    static mut TOPS: Vec<usize> = vec![];
    unsafe {
        while TOPS.len() <= i {
            let base = libc::mmap(std::ptr::null_mut(), STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            if base == libc::MAP_FAILED {
                simcore::fatal("[harness]", "mmap of a stack failed");
            }
            libc::mprotect(base, 4096, libc::PROT_NONE);
            TOPS.push(base as usize + STACK);
        }
        TOPS[i]
    }
}

extern "C" fn entry(i: usize) {
    let r = std::panic::catch_unwind(|| (w().body)(i));
    if r.is_err() {
        w().abort("panic", format!("panicked: {}", simcore::last_panic()));
    }
    w().tasks[i].st = St::Done;
    w().to_harness();
    unreachable!()
}

impl World {
    pub fn abort(&mut self, class: &str, msg: String) -> ! {
        if self.fail.is_none() {
            self.fail = Some((class.into(), msg));
        }
        self.to_harness();
        unreachable!()
    }
    /// Only the judged property's rules count.
    pub fn judge(&mut self, desc: bool, class: &str, msg: impl FnOnce() -> String) {
        if desc == self.desc {
            let name = self.call().map_or("", |c| c.name);
            self.abort(class, format!("{name}: {}", msg()));
        }
    }
    fn to_harness(&mut self) {
        let t = self.cur;
        let to = self.harness;
        let save = if self.fail.is_some() { &raw mut self.dead } else { &raw mut self.tasks[t].sp };
        unsafe { co::swap(save, to) };
    }
    pub fn call(&mut self) -> Option<&mut Call> {
        let c = self.cur;
        self.tasks.get_mut(c).and_then(|t| t.calls.last_mut())
    }
    /// Whether another thread than the current one is alive.
    pub fn others(&self) -> bool {
        self.tasks.iter().enumerate().any(|(i, t)| i != self.cur && t.st != St::Done)
    }
    fn interrupt(&mut self) -> Result<()> {
        let c = self.cur;
        if std::mem::take(&mut self.tasks[c].intr) {
            ctx().probe("interrupted");
            if let Some(c) = self.call() {
                c.interrupted = true;
            }
            return Err(MonorubyErr::of(E::Raised, "interrupt"));
        }
        Ok(())
    }
    pub fn safepoint(&mut self) -> Result<()> {
        use std::sync::atomic::Ordering::Relaxed;
        crate::kern::k().tick();
        let c = self.cur;
        let call = self.call().unwrap();
        call.steps += 1;
        call.dry += 1;
        if call.dry > 60 {
            self.abort("spin", "a call tries again and again without waiting".into());
        }
        let call = self.call().unwrap();
        if call.steps > 200 {
            // nobody else will ever let it go on
            self.tasks[c].intr = true;
        }
        if crate::codegen::signal_table::PENDING_SIGNALS.swap(0, Relaxed) != 0 {
            ctx().probe("handler");
            if std::mem::take(&mut self.raising) {
                self.tasks[c].intr = true;
            }
        }
        if self.others() && ctx().chance(1, 3) {
            self.tasks[c].st = St::Ready;
            self.to_harness();
        }
        self.interrupt()
    }
    pub fn wait_fd(&mut self, fd: i32, events: i16, deadline: Option<u64>) -> Result<()> {
        self.interrupt()?;
        let c = self.cur;
        let call = self.call().unwrap();
        call.waited = true;
        call.dry = 0;
        call.steps += 1;
        if call.steps > 200 {
            self.tasks[c].intr = true;
        }
        if self.call().unwrap().now {
            self.abort("wait", "a call that must not wait waits".into());
        }
        ctx().probe("parked");
        self.tasks[c].woken = false;
        self.tasks[c].st = St::Parked { fd, events, deadline };
        self.to_harness();
        self.interrupt()
    }
    /// A method closes the descriptor: whoever waits for it goes on.
    pub fn wake_fd(&mut self, fd: i32) {
        for t in &mut self.tasks {
            if matches!(t.st, St::Parked { fd: f, .. } if f == fd) {
                t.woken = true;
            }
        }
    }
    fn runnable(&mut self, i: usize) -> bool {
        match self.tasks[i].st {
            St::New | St::Ready => true,
            St::Done => false,
            St::Parked { fd, events, deadline } => self.tasks[i].intr || self.tasks[i].woken || deadline.is_some_and(|d| d <= self.kern.now) || self.kern.ready(fd, events) != 0,
        }
    }
    /// A thread whose call could go on waits for something else.
    pub fn stuck(&mut self, i: usize) {
        if let Some(c) = self.tasks[i].calls.last() {
            let fd = match c.io {
                Some(io) => match io.v() {
                    V::Io(i) => i.file.as_ref().map(|f| f.0),
                    _ => None,
                },
                None => c.created.first().copied(),
            };
            let Some(fd) = fd else { return };
            let needs = c.needs;
            let name = c.name;
            if needs != 0 && self.kern.ready(fd, needs) != 0 {
                self.cur = i;
                if !self.desc {
                    self.fail = Some(("stuck".into(), format!("{name}: a thread keeps waiting although its call could be completed")));
                }
            }
        }
    }
    fn drive(&mut self) {
        let mut idle = 0;
        while self.fail.is_none() {
            let mut run: Vec<usize> = vec![];
            for i in 0..self.tasks.len() {
                if self.runnable(i) {
                    run.push(i);
                }
            }
            if !run.is_empty() {
                let i = run[ctx().draw(run.len())];
                self.cur = i;
                self.switches += 1;
                if self.switches > 50_000 {
                    self.fail = Some(("spin".into(), "the threads run without getting on".into()));
                    return;
                }
                let fresh = self.tasks[i].st == St::New;
                self.tasks[i].st = St::Ready;
                let to = if fresh { unsafe { co::frame(stack(i), entry, i) } } else { self.tasks[i].sp };
                unsafe { co::swap(&raw mut self.harness, to) };
                continue;
            }
            if self.tasks.iter().all(|t| t.st == St::Done) {
                return;
            }
            // a wait may also end for no reason
            if ctx().chance(1, 16) {
                let p: Vec<usize> = (0..self.tasks.len()).filter(|i| matches!(self.tasks[*i].st, St::Parked { .. })).collect();
                let t = p[ctx().draw(p.len())];
                self.tasks[t].woken = true;
                ctx().fault("spurious wake-up");
                continue;
            }
            for i in 0..self.tasks.len() {
                if matches!(self.tasks[i].st, St::Parked { .. }) {
                    self.stuck(i);
                }
            }
            let dl = self.tasks.iter().filter_map(|t| if let St::Parked { deadline, .. } = t.st { deadline } else { None }).min();
            idle += 1;
            if idle < 2000 && self.kern.idle(dl) {
                continue;
            }
            // nothing will ever happen again: the threads are killed
            self.ending = true;
            for t in &mut self.tasks {
                if t.st != St::Done {
                    t.intr = true;
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx, n: usize, desc: bool, kern: Kern, body: fn(usize)) -> Box<World> {
    let mut world = Box::new(World {
        ctx,
        tasks: (0..n).map(|_| Task { st: St::New, sp: 0, intr: false, woken: false, calls: vec![] }).collect(),
        cur: 0,
        fail: None,
        ending: false,
        raising: false,
        kern,
        desc,
        switches: 0,
        body,
        harness: 0,
        dead: 0,
    });
    crate::codegen::signal_table::PENDING_SIGNALS.store(0, std::sync::atomic::Ordering::Relaxed);
    unsafe { W = &mut *world };
    crate::sock::start();
    world.drive();
    world
}
pub fn finish() {
    unsafe { W = std::ptr::null_mut() };
}

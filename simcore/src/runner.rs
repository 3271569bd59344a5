use super::*;
use std::io::Write as _;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> RunResult,
    /// Runs aimed at in the quick tier.
    pub quick_runs: u64,
    pub quick_secs: f64,
    pub thorough_runs: u64,
    pub thorough_secs: f64,
    /// The code under test keeps process-global state: every run gets a
    /// process of its own.
    pub isolate: bool,
    pub batch: u64,
    pub rule: &'static str,
    /// What one distinct state is.
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

impl Prop {
    pub const fn base(id: &'static str, run: fn(&mut Ctx) -> RunResult) -> Prop {
        Prop {
            id,
            run,
            quick_runs: 300_000,
            quick_secs: 60.0,
            thorough_runs: 20_000_000,
            thorough_secs: 900.0,
            isolate: false,
            batch: 500,
            rule: "",
            measure: "",
            real: &[],
            stub: &[],
            assumptions: &[],
        }
    }
}

pub struct Suite {
    pub name: &'static str,
    pub props: &'static [Prop],
    /// Called at the start of every process that executes runs.
    pub init: fn(),
}

const HANG_SECS: u64 = 60;

#[derive(Debug, Clone)]
enum Outcome {
    Ok,
    Bad { class: String, msg: String },
}

struct Area {
    sh: Shared,
}

impl Area {
    fn new() -> Area {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SH_WORDS * 4,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            die("mmap of shared area failed");
        }
        Area {
            sh: Shared { base: p as *mut u32 },
        }
    }
    fn run(&self) -> u64 {
        self.sh.get(SH_RUN_LO) as u64 | (self.sh.get(SH_RUN_HI) as u64) << 32
    }
    fn hash(&self) -> u64 {
        self.sh.get(SH_HASH_LO) as u64 | (self.sh.get(SH_HASH_HI) as u64) << 32
    }
    fn choices(&self) -> Vec<u32> {
        let n = self.sh.get(SH_NCHOICE) as usize;
        (0..n).map(|i| self.sh.get(SH_CHOICES + i)).collect()
    }
    fn spans(&self) -> Vec<usize> {
        let n = self.sh.get(SH_NSPAN) as usize;
        (0..n).map(|i| self.sh.get(SH_SPANS + i) as usize).collect()
    }
    fn put_violation(&self, class: &str, msg: &str) {
        let mut bytes = class.as_bytes().to_vec();
        bytes.truncate(400);
        let cl = bytes.len();
        bytes.extend_from_slice(msg.as_bytes());
        bytes.truncate(SH_MSG_WORDS * 4 - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(
                bytes.as_ptr(),
                self.sh.base.add(SH_MSG) as *mut u8,
                bytes.len(),
            );
        }
        self.sh.set(SH_CLASSLEN, cl as u32);
        self.sh.set(SH_MSGLEN, bytes.len() as u32);
    }
    fn violation(&self) -> (String, String) {
        let n = self.sh.get(SH_MSGLEN) as usize;
        let c = self.sh.get(SH_CLASSLEN) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.sh.base.add(SH_MSG) as *const u8, n) };
        (
            String::from_utf8_lossy(&b[..c]).into_owned(),
            String::from_utf8_lossy(&b[c..]).into_owned(),
        )
    }
    fn begin(&self, run: u64) {
        self.sh.set(SH_RUN_LO, run as u32);
        self.sh.set(SH_RUN_HI, (run >> 32) as u32);
        self.sh.set(SH_NCHOICE, 0);
        self.sh.set(SH_NSPAN, 0);
        self.sh.set(SH_MSGLEN, 0);
        self.sh.set(SH_CLASSLEN, 0);
        self.sh.set(SH_CRASHNOTE, 0);
        self.sh.set(SH_ACTIVE, 1);
        self.sh.set(SH_BEAT, self.sh.get(SH_BEAT).wrapping_add(1));
    }
}

fn die(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(2);
}

struct Cfg {
    seed: u64,
    thorough: bool,
    verbose: bool,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = info.payload();
        let text = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "payload".to_string()
        };
        LAST_PANIC.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                *c = format!("{text} at {loc}");
            }
        });
    }));
}

/// Text of the last panic seen by the hook.
pub(crate) fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// Executes one run in this process.
fn exec(prop: &Prop, area: &Area, run: u64, mode: Mode, cfg: &Cfg, agg: &mut Agg) -> (Outcome, Vec<String>) {
    area.begin(run);
    let mut ctx = Ctx {
        mode,
        pos: 0,
        shared: area.sh.base,
        nspan: 0,
        ops_left: 0,
        hash: 0x1234_5678,
        verbose: cfg.verbose,
        log: vec![],
        seed: cfg.seed,
        run,
        thorough: cfg.thorough,
        sim_ns: 0,
        nontrivial: false,
        agg,
    };
    let f = prop.run;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
    let out = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Bad {
            class: v.class,
            msg: v.msg,
        },
        Err(e) if e.is::<Violation>() => {
            let v = e.downcast::<Violation>().unwrap();
            Outcome::Bad {
                class: v.class,
                msg: v.msg,
            }
        }
        Err(_) => {
            let p = last_panic();
            if p.starts_with("simcore:") {
                die(&format!("run {run}: {p}"));
            }
            Outcome::Bad {
                class: "panic".into(),
                msg: format!("unexpected panic: {p}"),
            }
        }
    };
    let n = ctx.pos;
    for i in 0..n {
        let v = area.sh.get(SH_CHOICES + i);
        ctx.mix(v as u64);
    }
    if let Outcome::Bad { class, msg } = &out {
        for b in class.bytes().chain(msg.bytes()) {
            ctx.mix(b as u64);
        }
        ctx.log.push(format!("VIOLATED [{class}] {msg}"));
    }
    agg.runs += 1;
    agg.choices += n as u64;
    agg.sim_ns += ctx.sim_ns;
    if ctx.nontrivial {
        agg.nontrivial_runs += 1;
        if agg.traces.len() < STATE_CAP {
            agg.traces.insert(ctx.hash);
        }
    }
    area.sh.set(SH_HASH_LO, ctx.hash as u32);
    area.sh.set(SH_HASH_HI, (ctx.hash >> 32) as u32);
    if let Outcome::Bad { class, msg } = &out {
        area.put_violation(class, msg);
    }
    area.sh.set(SH_ACTIVE, 0);
    (out, ctx.log)
}

// ---- Agg transport ---------------------------------------------------------

fn intern(s: &str) -> &'static str {
    thread_local! {
        static T: std::cell::RefCell<std::collections::BTreeSet<&'static str>> = Default::default();
    }
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(l);
        l
    })
}

impl Agg {
    fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        let u = |o: &mut Vec<u8>, v: u64| o.extend_from_slice(&v.to_le_bytes());
        let s = |o: &mut Vec<u8>, v: &str| {
            o.extend_from_slice(&(v.len() as u64).to_le_bytes());
            o.extend_from_slice(v.as_bytes());
        };
        for v in [self.runs, self.choices, self.ops, self.sim_ns, self.nontrivial_runs] {
            u(&mut o, v);
        }
        for m in [&self.faults, &self.probes] {
            u(&mut o, m.len() as u64);
            for (k, v) in m {
                s(&mut o, k);
                u(&mut o, *v);
            }
        }
        u(&mut o, self.known.len() as u64);
        for (k, v) in &self.known {
            s(&mut o, k);
            u(&mut o, *v);
        }
        for h in [&self.traces, &self.states] {
            u(&mut o, h.len() as u64);
            for v in h {
                u(&mut o, *v);
            }
        }
        u(&mut o, self.samples.len() as u64);
        for v in &self.samples {
            s(&mut o, v);
        }
        o
    }

    fn merge_bytes(&mut self, b: &[u8]) -> Option<()> {
        let mut p = 0;
        fn u(b: &[u8], p: &mut usize) -> Option<u64> {
            let v = u64::from_le_bytes(b.get(*p..*p + 8)?.try_into().ok()?);
            *p += 8;
            Some(v)
        }
        fn s(b: &[u8], p: &mut usize) -> Option<String> {
            let n = u(b, p)? as usize;
            let v = String::from_utf8_lossy(b.get(*p..*p + n)?).into_owned();
            *p += n;
            Some(v)
        }
        self.runs += u(b, &mut p)?;
        self.choices += u(b, &mut p)?;
        self.ops += u(b, &mut p)?;
        self.sim_ns += u(b, &mut p)?;
        self.nontrivial_runs += u(b, &mut p)?;
        for which in 0..2 {
            for _ in 0..u(b, &mut p)? {
                let k = s(b, &mut p)?;
                let v = u(b, &mut p)?;
                let m = if which == 0 { &mut self.faults } else { &mut self.probes };
                *m.entry(intern(&k)).or_insert(0) += v;
            }
        }
        for _ in 0..u(b, &mut p)? {
            let k = s(b, &mut p)?;
            let v = u(b, &mut p)?;
            *self.known.entry(k).or_insert(0) += v;
        }
        for which in 0..2 {
            let n = u(b, &mut p)?;
            let h = if which == 0 { &mut self.traces } else { &mut self.states };
            for _ in 0..n {
                let v = u(b, &mut p)?;
                if h.len() < STATE_CAP {
                    h.insert(v);
                }
            }
        }
        for _ in 0..u(b, &mut p)? {
            let v = s(b, &mut p)?;
            if self.samples.len() < 8 {
                self.samples.push(v);
            }
        }
        Some(())
    }
}

fn memfd() -> i32 {
    let fd = unsafe { libc::memfd_create(c"agg".as_ptr(), 0) };
    if fd < 0 {
        die("memfd_create failed");
    }
    fd
}

fn write_fd(fd: i32, b: &[u8]) {
    unsafe {
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut off = 0;
        while off < b.len() {
            let n = libc::write(fd, b[off..].as_ptr() as _, b.len() - off);
            if n <= 0 {
                die("write of results failed");
            }
            off += n as usize;
        }
    }
}

fn read_fd(fd: i32) -> Vec<u8> {
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END) as usize;
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut v = vec![0u8; len];
        let mut off = 0;
        while off < len {
            let n = libc::read(fd, v[off..].as_mut_ptr() as _, len - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        v.truncate(off);
        v
    }
}

fn signal_name(sig: i32) -> String {
    match sig {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGTRAP => "SIGTRAP".into(),
        libc::SIGFPE => "SIGFPE".into(),
        libc::SIGKILL => "SIGKILL".into(),
        n => format!("signal {n}"),
    }
}

fn describe_death(status: i32, area: &Area) -> (String, String) {
    if libc::WIFSIGNALED(status) {
        let n = signal_name(libc::WTERMSIG(status));
        // a check inside the process may have left a note before dying
        let (c, m) = area.violation();
        if area.sh.get(SH_CRASHNOTE) != 0 && !c.is_empty() {
            return (c, m);
        }
        (format!("crash-{n}"), format!("process died with {n} during the run"))
    } else {
        let code = libc::WEXITSTATUS(status);
        (
            format!("exit-{code}"),
            format!("process exited with status {code} during the run"),
        )
    }
}

static mut CURRENT_AREA: *mut u32 = std::ptr::null_mut();

/// Reports a violation from a place that cannot return an error (allocator,
/// destructor, no-unwind callback) and ends the process.
pub fn fatal(class: &str, msg: &str) -> ! {
    unsafe {
        let base = CURRENT_AREA;
        if !base.is_null() {
            let a = Area {
                sh: Shared { base },
            };
            a.put_violation(class, msg);
            a.sh.set(SH_CRASHNOTE, 1);
        }
        libc::signal(libc::SIGABRT, libc::SIG_DFL);
        libc::abort();
    }
}

/// Reports a violation from deep inside a run by unwinding to the runner.
pub fn violate(class: &str, msg: String) -> ! {
    std::panic::panic_any(Violation {
        class: class.into(),
        msg,
    })
}

/// Forks a child that executes one run and returns its outcome.
fn exec_forked(
    suite: &Suite,
    prop: &Prop,
    area: &Area,
    run: u64,
    choices: Option<Vec<u32>>,
    cfg: &Cfg,
    agg: &mut Agg,
    timeout: Duration,
    want_log: bool,
) -> (Outcome, Vec<String>) {
    let fd = memfd();
    let logfd = if want_log { memfd() } else { -1 };
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        die("fork failed");
    }
    if pid == 0 {
        unsafe { CURRENT_AREA = area.sh.base };
        (suite.init)();
        let mut a = Agg::default();
        let mode = match choices {
            Some(c) => Mode::Replay(c),
            None => Mode::Record(Rng::new(cfg.seed, run)),
        };
        let (out, log) = exec(prop, area, run, mode, cfg, &mut a);
        write_fd(fd, &a.to_bytes());
        if want_log {
            write_fd(logfd, log.join("\n").as_bytes());
        }
        unsafe { libc::_exit(if matches!(out, Outcome::Ok) { 0 } else { 10 }) };
    }
    let start = Instant::now();
    let mut status = 0;
    let mut spins = 0u32;
    let out = loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            break if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
                Outcome::Ok
            } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 10 {
                let (class, msg) = area.violation();
                Outcome::Bad { class, msg }
            } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 2 {
                die("error inside a run");
            } else {
                let (class, msg) = describe_death(status, area);
                Outcome::Bad { class, msg }
            };
        }
        if start.elapsed() > timeout {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            break Outcome::Bad {
                class: "hang".into(),
                msg: format!("run did not finish within {} s", timeout.as_secs()),
            };
        }
        spins += 1;
        if spins > 200 {
            std::thread::sleep(Duration::from_micros(if spins > 2000 { 1000 } else { 50 }));
        } else {
            unsafe { libc::sched_yield() };
        }
    };
    let b = read_fd(fd);
    if !b.is_empty() {
        agg.merge_bytes(&b);
    }
    unsafe { libc::close(fd) };
    let mut log = vec![];
    if want_log {
        let b = read_fd(logfd);
        log = String::from_utf8_lossy(&b).lines().map(|s| s.to_string()).collect();
        unsafe { libc::close(logfd) };
    }
    (out, log)
}

// ---- known findings --------------------------------------------------------

#[derive(Clone)]
struct Known {
    class: String,
    what: String,
}

fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let mut v = vec![];
    let Ok(text) = std::fs::read_to_string(path) else {
        return v;
    };
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("KNOWN-FINDING:") else {
            continue;
        };
        let mut it = rest.trim().splitn(3, ' ');
        let (Some(p), Some(c), Some(w)) = (it.next(), it.next(), it.next()) else {
            continue;
        };
        if p == format!("property={prop}") {
            if let Some(c) = c.strip_prefix("class=") {
                v.push(Known {
                    class: c.to_string(),
                    what: w.to_string(),
                });
            }
        }
    }
    v
}

// ---- check -----------------------------------------------------------------

struct Slot {
    area: Area,
    fd: i32,
    pid: i32,
    batch: u64,
    beat: u32,
    beat_at: Instant,
}

struct Found {
    run: u64,
    class: String,
    msg: String,
    choices: Vec<u32>,
    spans: Vec<usize>,
}

/// Parent-to-worker word: highest run number still wanted.
struct Stop(*mut u64);

fn worker(suite: &Suite, prop: &Prop, slot: &Slot, stop: &Stop, cfg: &Cfg, known: &[Known], lo: u64, hi: u64) -> ! {
    unsafe {
        libc::setpgid(0, 0);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        CURRENT_AREA = slot.area.sh.base;
    }
    if !prop.isolate {
        (suite.init)();
    }
    let mut agg = Agg::default();
    for run in lo..hi {
        if run > unsafe { std::ptr::read_volatile(stop.0) } {
            break;
        }
        let out = if prop.isolate {
            exec_forked(
                suite,
                prop,
                &slot.area,
                run,
                None,
                cfg,
                &mut agg,
                Duration::from_secs(HANG_SECS),
                false,
            )
            .0
        } else {
            exec(prop, &slot.area, run, Mode::Record(Rng::new(cfg.seed, run)), cfg, &mut agg).0
        };
        if let Outcome::Bad { class, msg } = out {
            if known.iter().any(|k| k.class == class) {
                *agg.known.entry(class).or_insert(0) += 1;
                continue;
            }
            slot.area.put_violation(&class, &msg);
            write_fd(slot.fd, &agg.to_bytes());
            unsafe { libc::_exit(10) };
        }
    }
    write_fd(slot.fd, &agg.to_bytes());
    unsafe { libc::_exit(0) };
}

fn explore(
    suite: &Suite,
    prop: &Prop,
    cfg: &Cfg,
    known: &[Known],
    runs: u64,
    secs: f64,
    nworkers: usize,
    agg: &mut Agg,
) -> Option<Found> {
    let start = Instant::now();
    let stop = Stop(unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u64
    });
    unsafe { *stop.0 = u64::MAX };
    let mut slots: Vec<Slot> = (0..nworkers)
        .map(|_| Slot {
            area: Area::new(),
            fd: memfd(),
            pid: 0,
            batch: 0,
            beat: 0,
            beat_at: Instant::now(),
        })
        .collect();
    let nbatch = runs.div_ceil(prop.batch);
    let mut next = 0u64;
    let mut found: Option<Found> = None;
    let mut timed_out = false;
    loop {
        if !timed_out && start.elapsed().as_secs_f64() > secs {
            timed_out = true;
            if found.is_none() {
                unsafe { std::ptr::write_volatile(stop.0, 0) };
            }
        }
        let mut live = 0;
        for i in 0..slots.len() {
            if slots[i].pid != 0 {
                let mut status = 0;
                let r = unsafe { libc::waitpid(slots[i].pid, &mut status, libc::WNOHANG) };
                let mut bad = None;
                if r == slots[i].pid {
                    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
                    } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 10 {
                        bad = Some(slots[i].area.violation());
                    } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 2 {
                        die("error inside a worker");
                    } else {
                        bad = Some(describe_death(status, &slots[i].area));
                    }
                    slots[i].pid = 0;
                } else {
                    let b = slots[i].area.sh.get(SH_BEAT);
                    if b != slots[i].beat {
                        slots[i].beat = b;
                        slots[i].beat_at = Instant::now();
                    } else if slots[i].beat_at.elapsed() > Duration::from_secs(HANG_SECS + 5) {
                        unsafe {
                            libc::kill(-slots[i].pid, libc::SIGKILL);
                            libc::waitpid(slots[i].pid, &mut status, 0);
                        }
                        slots[i].pid = 0;
                        bad = Some(("hang".into(), format!("run did not finish within {HANG_SECS} s")));
                    }
                }
                if slots[i].pid == 0 {
                    let b = read_fd(slots[i].fd);
                    if !b.is_empty() {
                        agg.merge_bytes(&b);
                    }
                    if let Some((class, msg)) = bad {
                        let run = slots[i].area.run();
                        if known.iter().any(|k| k.class == class) {
                            // died with a known finding: continue after it
                            *agg.known.entry(class).or_insert(0) += 1;
                            let lo = run + 1;
                            let hi = ((slots[i].batch + 1) * prop.batch).min(runs);
                            spawn(suite, prop, &mut slots, i, &stop, cfg, known, lo, hi);
                            live += 1;
                            continue;
                        }
                        if found.as_ref().is_none_or(|f| run < f.run) {
                            found = Some(Found {
                                run,
                                class,
                                msg,
                                choices: slots[i].area.choices(),
                                spans: slots[i].area.spans(),
                            });
                            unsafe { std::ptr::write_volatile(stop.0, run) };
                        }
                    }
                }
            }
            if slots[i].pid == 0 {
                let want = next < nbatch
                    && !timed_out
                    && found.as_ref().is_none_or(|f| next * prop.batch < f.run);
                if want {
                    let lo = next * prop.batch;
                    let hi = ((next + 1) * prop.batch).min(runs);
                    slots[i].batch = next;
                    next += 1;
                    spawn(suite, prop, &mut slots, i, &stop, cfg, known, lo, hi);
                }
            }
            if slots[i].pid != 0 {
                live += 1;
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    for s in &slots {
        unsafe {
            libc::close(s.fd);
            libc::munmap(s.area.sh.base as _, SH_WORDS * 4);
        }
    }
    found
}

fn spawn(suite: &Suite, prop: &Prop, slots: &mut [Slot], i: usize, stop: &Stop, cfg: &Cfg, known: &[Known], lo: u64, hi: u64) {
    unsafe {
        libc::ftruncate(slots[i].fd, 0);
    }
    slots[i].beat_at = Instant::now();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        die("fork failed");
    }
    if pid == 0 {
        worker(suite, prop, &slots[i], stop, cfg, known, lo, hi);
    }
    slots[i].pid = pid;
}

// ---- minimiser -------------------------------------------------------------

struct Mini<'a> {
    suite: &'a Suite,
    prop: &'a Prop,
    cfg: &'a Cfg,
    area: Area,
    run: u64,
    class: String,
    deadline: Instant,
    tried: u64,
    best: Vec<u32>,
    spans: Vec<usize>,
    msg: String,
}

impl Mini<'_> {
    fn try_it(&mut self, cand: Vec<u32>) -> bool {
        if Instant::now() > self.deadline || cand == self.best {
            return false;
        }
        self.tried += 1;
        let t = if self.class == "hang" { 4 } else { 20 };
        let mut agg = Agg::default();
        let (out, _) = exec_forked(
            self.suite,
            self.prop,
            &self.area,
            self.run,
            Some(cand.clone()),
            self.cfg,
            &mut agg,
            Duration::from_secs(t),
            false,
        );
        if let Outcome::Bad { class, msg } = out {
            if class == self.class {
                let used = self.area.choices();
                let mut used = if used.len() < cand.len() { used } else { used[..cand.len()].to_vec() };
                while used.last() == Some(&0) {
                    used.pop();
                }
                if used.len() > self.best.len() || used == self.best {
                    return false;
                }
                self.best = used;
                self.spans = self.area.spans();
                self.msg = msg;
                return true;
            }
        }
        false
    }

    fn minimise(&mut self) {
        let mut progress = true;
        while progress && Instant::now() < self.deadline {
            progress = false;
            // delete operations, large chunks first
            let mut size = (self.spans.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < self.spans.len() {
                    if Instant::now() > self.deadline {
                        return;
                    }
                    let a = self.spans[i].min(self.best.len());
                    let b = self
                        .spans
                        .get(i + size)
                        .copied()
                        .unwrap_or(self.best.len())
                        .min(self.best.len());
                    if a < b {
                        let mut c = self.best[..a].to_vec();
                        c.extend_from_slice(&self.best[b..]);
                        if self.try_it(c) {
                            progress = true;
                            continue;
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // delete and zero chunks of single choices
            for size in [32usize, 8, 2, 1] {
                let mut i = 0;
                while i < self.best.len() {
                    if Instant::now() > self.deadline {
                        return;
                    }
                    let e = (i + size).min(self.best.len());
                    if self.best[i..e].iter().any(|&v| v != 0) {
                        let mut c = self.best.clone();
                        c[i..e].fill(0);
                        if self.try_it(c) {
                            progress = true;
                            continue;
                        }
                    }
                    if size <= 8 && e < self.best.len() {
                        let mut c = self.best[..i].to_vec();
                        c.extend_from_slice(&self.best[e..]);
                        if self.try_it(c) {
                            progress = true;
                            continue;
                        }
                    }
                    i += size;
                }
            }
            // lower values
            let mut i = 0;
            while i < self.best.len() {
                if Instant::now() > self.deadline {
                    return;
                }
                let mut v = self.best[i];
                while v > 1 {
                    let mut ok = false;
                    for t in [1, v / 2, v - 1] {
                        if t < v && i < self.best.len() {
                            let mut c = self.best.clone();
                            c[i] = t;
                            if self.try_it(c) {
                                progress = true;
                                ok = true;
                                break;
                            }
                        }
                    }
                    if !ok || i >= self.best.len() {
                        break;
                    }
                    v = self.best[i];
                }
                i += 1;
            }
        }
    }
}

// ---- files -----------------------------------------------------------------

fn replay_json(prop: &Prop, cfg: &Cfg, run: u64, class: &str, msg: &str, choices: &[u32], hash: u64, log: &[String], orig_len: usize, tried: u64) -> Json {
    Json::obj(vec![
        ("property", Json::s(prop.id)),
        ("seed", Json::Int(cfg.seed as i128)),
        ("run", Json::Int(run as i128)),
        ("tier", Json::s(if cfg.thorough { "thorough" } else { "quick" })),
        ("class", Json::s(class)),
        ("message", Json::s(msg)),
        ("trace_hash", Json::s(format!("{hash:016x}"))),
        ("choices_before_minimising", Json::Int(orig_len as i128)),
        ("minimiser_executions", Json::Int(tried as i128)),
        (
            "choices",
            Json::Arr(choices.iter().map(|&c| Json::Int(c as i128)).collect()),
        ),
        (
            "events",
            Json::Arr(log.iter().map(|l| Json::s(l.clone())).collect()),
        ),
    ])
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn nworkers() -> usize {
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    env_u64("SIM_WORKERS", n as u64).max(1) as usize
}

fn no_aslr() {
    if std::env::var_os("SIM_NOASLR").is_some() {
        return;
    }
    unsafe {
        libc::personality(0x0040000);
    }
    std::env::set_var("SIM_NOASLR", "1");
    let args: Vec<std::ffi::CString> = std::env::args_os()
        .map(|a| {
            use std::os::unix::ffi::OsStrExt;
            std::ffi::CString::new(a.as_bytes()).unwrap()
        })
        .collect();
    let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    unsafe {
        libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
    }
    // exec failed: carry on with address randomisation
}

pub fn main(suite: &Suite) -> ! {
    no_aslr();
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let find = |id: &str| {
        suite
            .props
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| die(&format!("{}: no property {id}", suite.name)))
    };
    match cmd {
        "check" => check(suite, find(&args[2]), &root),
        "replay" => replay(suite, &args[2], args.iter().any(|a| a == "-q")),
        "show" => {
            let prop = find(&args[2]);
            let cfg = Cfg {
                seed: env_u64("VERIF_SEED", 1),
                thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
                verbose: true,
            };
            let area = Area::new();
            let mut agg = Agg::default();
            let run = args[3].parse().unwrap();
            let (out, log) = exec_forked(suite, prop, &area, run, None, &cfg, &mut agg, Duration::from_secs(HANG_SECS), true);
            for l in log {
                println!("{l}");
            }
            println!("{out:?} hash={:016x} choices={}", area.hash(), area.choices().len());
            println!("faults {:?}\nprobes {:?}", agg.faults, agg.probes);
            std::process::exit(0);
        }
        "determinism" => determinism(suite, find(&args[2]), args[3].parse().unwrap()),
        "list" => {
            for p in suite.props {
                println!("{}", p.id);
            }
            std::process::exit(0);
        }
        _ => die("usage: check PROP | replay FILE [-q] | show PROP RUN | determinism PROP N | list"),
    }
}

/// Runs N runs one by one in fresh forks, and again as batches, and compares
/// every trace hash.
fn determinism(suite: &Suite, prop: &Prop, n: u64) -> ! {
    let cfg = Cfg {
        seed: env_u64("VERIF_SEED", 1),
        thorough: false,
        verbose: false,
    };
    let vcfg = Cfg {
        seed: cfg.seed,
        thorough: false,
        verbose: true,
    };
    let area = Area::new();
    let mut bad = 0;
    let mut h = 0u64;
    for run in 0..n {
        let mut agg = Agg::default();
        exec_forked(suite, prop, &area, run, None, &cfg, &mut agg, Duration::from_secs(HANG_SECS), false);
        let a = area.hash();
        let ch = area.choices();
        exec_forked(suite, prop, &area, run, None, &vcfg, &mut agg, Duration::from_secs(HANG_SECS), true);
        let b = area.hash();
        exec_forked(suite, prop, &area, run, Some(ch), &cfg, &mut agg, Duration::from_secs(HANG_SECS), false);
        let c = area.hash();
        if a != b || a != c {
            bad += 1;
            println!("run {run}: {a:016x} {b:016x} {c:016x}");
        }
        h = mix64(h ^ a);
    }
    println!("{}: {n} runs, each 3 times (recorded, recorded with logging, replayed from choices): {bad} differ; digest {h:016x}", prop.id);
    std::process::exit(if bad == 0 { 0 } else { 2 });
}

fn replay(suite: &Suite, path: &str, quiet: bool) -> ! {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let j = Json::parse(&text).unwrap_or_else(|| die("replay file does not parse"));
    let id = j.get("property").and_then(Json::as_str).unwrap_or("");
    let Some(prop) = suite.props.iter().find(|p| p.id == id) else {
        die("replay file is for another simulator")
    };
    let choices: Vec<u32> = j
        .get("choices")
        .and_then(Json::as_arr)
        .unwrap_or(&[])
        .iter()
        .filter_map(|v| v.as_int().map(|v| v as u32))
        .collect();
    let cfg = Cfg {
        seed: j.get("seed").and_then(Json::as_int).unwrap_or(0) as u64,
        thorough: j.get("tier").and_then(Json::as_str) == Some("thorough"),
        verbose: true,
    };
    let run = j.get("run").and_then(Json::as_int).unwrap_or(0) as u64;
    let area = Area::new();
    let mut agg = Agg::default();
    let (out, log) = exec_forked(
        suite,
        prop,
        &area,
        run,
        Some(choices),
        &cfg,
        &mut agg,
        Duration::from_secs(HANG_SECS),
        true,
    );
    if !quiet {
        for l in &log {
            println!("{l}");
        }
    }
    match out {
        Outcome::Ok => {
            println!("replay: property {id} held");
            std::process::exit(0)
        }
        Outcome::Bad { class, msg } => {
            println!("replay: class={class} hash={:016x} {msg}", area.hash());
            if !quiet {
                println!("VIOLATION property={id} replay={path}");
            }
            std::process::exit(1)
        }
    }
}

fn check(suite: &Suite, prop: &Prop, root: &str) -> ! {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    println!("{}: property {} seed {} tier {}", suite.name, prop.id, seed, if thorough { "thorough" } else { "quick" });
    let _ = std::io::stdout().flush();
    let cfg = Cfg {
        seed,
        thorough,
        verbose: false,
    };
    let known = load_known(&format!("{root}/known_findings.txt"), prop.id);
    let (mut runs, mut secs) = if thorough {
        (prop.thorough_runs, prop.thorough_secs)
    } else {
        (prop.quick_runs, prop.quick_secs)
    };
    runs = env_u64("SIM_RUNS", runs);
    secs = env_u64("SIM_SECS", secs as u64) as f64;
    let mut agg = Agg::default();
    let nw = nworkers();
    let found = explore(suite, prop, &cfg, &known, runs, secs, nw, &mut agg);
    let explore_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut replay_path = String::new();
    let mut vmsg = String::new();
    let mut determinism_runs = 0;
    if let Some(f) = found {
        violations = 1;
        let mut m = Mini {
            suite,
            prop,
            cfg: &cfg,
            area: Area::new(),
            run: f.run,
            class: f.class.clone(),
            deadline: Instant::now() + Duration::from_secs(45),
            tried: 0,
            best: f.choices.clone(),
            spans: f.spans.clone(),
            msg: f.msg.clone(),
        };
        m.minimise();
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-seed{}-run{}.json", prop.id, seed, f.run);
        let vcfg = Cfg {
            seed,
            thorough,
            verbose: true,
        };
        let exe = std::env::current_exe().unwrap();
        let mut confirmed = false;
        for attempt in 0..6 {
            // minimised list first, the recorded one as fallback
            let cand = if attempt < 3 { m.best.clone() } else { f.choices.clone() };
            let (out, log) = exec_forked(
                suite,
                prop,
                &m.area,
                f.run,
                Some(cand.clone()),
                &vcfg,
                &mut Agg::default(),
                Duration::from_secs(HANG_SECS),
                true,
            );
            let Outcome::Bad { class, msg } = out else {
                continue;
            };
            let hash = m.area.hash();
            let j = replay_json(prop, &cfg, f.run, &class, &msg, &cand, hash, &log, f.choices.len(), m.tried);
            let mut text = String::new();
            j.render(&mut text, 0);
            if std::fs::write(&path, text).is_err() {
                die("cannot write replay file");
            }
            // a fresh process must reproduce it
            let o = std::process::Command::new(&exe)
                .args(["replay", &path, "-q"])
                .env_remove("SIM_NOASLR")
                .output();
            if let Ok(o) = o {
                let so = String::from_utf8_lossy(&o.stdout);
                let crash = class.starts_with("crash") || class == "hang";
                if o.status.code() == Some(1)
                    && so.contains(&format!("class={class} "))
                    && (crash || so.contains(&format!("hash={hash:016x}")))
                {
                    confirmed = true;
                    vmsg = format!("[{class}] {msg}");
                    break;
                }
            }
        }
        if !confirmed {
            // Undefined behaviour in the code under test may show up
            // differently in every process. The unminimised run has to fail
            // again, in whatever way.
            let j = replay_json(prop, &cfg, f.run, "memory-corruption", "fails in different ways", &f.choices, 0, &[], f.choices.len(), 0);
            let mut text = String::new();
            j.render(&mut text, 0);
            if std::fs::write(&path, text).is_err() {
                die("cannot write replay file");
            }
            let again = (0..3).all(|_| {
                std::process::Command::new(&exe)
                    .args(["replay", &path, "-q"])
                    .env_remove("SIM_NOASLR")
                    .output()
                    .is_ok_and(|o| o.status.code() == Some(1))
            });
            if again {
                confirmed = true;
                vmsg = format!("[{}] {} (fails in every process, but not always in this way)", f.class, f.msg);
            }
        }
        if !confirmed {
            die(&format!(
                "run {} failed ([{}] {}) but does not reproduce in a fresh process",
                f.run, f.class, f.msg
            ));
        }
        replay_path = path;
    } else {
        // sampled determinism: the same run twice in fresh processes
        let area = Area::new();
        let step = (agg.runs / 12).max(1);
        for i in 0..12 {
            let run = i * step;
            if run >= agg.runs {
                break;
            }
            let mut h = [0u64; 2];
            for h in &mut h {
                exec_forked(suite, prop, &area, run, None, &cfg, &mut Agg::default(), Duration::from_secs(HANG_SECS), false);
                *h = area.hash();
            }
            if h[0] != h[1] {
                die(&format!("run {run} is not deterministic"));
            }
            determinism_runs += 1;
        }
    }
    // written-out samples
    let area = Area::new();
    let vcfg = Cfg {
        seed,
        thorough,
        verbose: true,
    };
    let mut samples = vec![];
    for run in 0..3u64 {
        let (_, mut log) = exec_forked(suite, prop, &area, run, None, &vcfg, &mut Agg::default(), Duration::from_secs(HANG_SECS), true);
        let n = log.len();
        if n > 40 {
            log.truncate(40);
            log.push(format!("... {} more events", n - 40));
        }
        samples.push(Json::obj(vec![
            ("run", Json::Int(run as i128)),
            ("trace_hash", Json::s(format!("{:016x}", area.hash()))),
            ("events", Json::Arr(log.into_iter().map(Json::Str).collect())),
        ]));
    }
    let total_faults: u64 = agg.faults.values().sum();
    let cov = vec![
        ("evaluations", Json::Int(agg.runs as i128)),
        ("distinct_nontrivial", Json::Int(agg.traces.len() as i128)),
        ("rule", Json::s(prop.rule)),
        ("samples", Json::Arr(samples)),
        ("simulated_runs_per_hour", Json::Int((agg.runs as f64 / explore_s.max(0.001) * 3600.0) as i128)),
        ("operations", Json::Int(agg.ops as i128)),
        ("choices_drawn", Json::Int(agg.choices as i128)),
        ("simulated_time_s", Json::Num(agg.sim_ns as f64 / 1e9)),
        ("faults_injected_total", Json::Int(total_faults as i128)),
        ("faults_injected", Json::counts(&agg.faults)),
        ("probes_reached", Json::counts(&agg.probes)),
        ("distinct_states", Json::Int(agg.states.len() as i128)),
        ("distinct_state_measure", Json::s(prop.measure)),
        ("distinct_counts_capped_at", Json::Int(STATE_CAP as i128)),
        ("determinism_runs_repeated", Json::Int(determinism_runs)),
        ("workers", Json::Int(nw as i128)),
        (
            "real_components",
            Json::Arr(prop.real.iter().map(|s| Json::s(*s)).collect()),
        ),
        (
            "stub_components",
            Json::Arr(prop.stub.iter().map(|s| Json::s(*s)).collect()),
        ),
        ("known_findings_hit", Json::counts(&agg.known)),
    ];
    let ev = Json::obj(vec![
        ("property", Json::s(prop.id)),
        ("tier", Json::s(if thorough { "thorough" } else { "quick" })),
        ("seed", Json::Int(seed as i128)),
        ("level", Json::s("exploration")),
        ("coverage", Json::obj(cov)),
        (
            "assumptions",
            Json::Arr(prop.assumptions.iter().map(|s| Json::s(*s)).collect()),
        ),
        ("wall_s", Json::Num(t0.elapsed().as_secs_f64())),
        ("violations", Json::Int(violations)),
    ]);
    let mut text = String::new();
    ev.render(&mut text, 0);
    text.push('\n');
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{}.json", prop.id), text).is_err() {
        die("cannot write evidence");
    }
    for (class, n) in &agg.known {
        if let Some(k) = known.iter().find(|k| &k.class == class) {
            println!("KNOWN-FINDING: property={} {} (class {class}, {n} runs)", prop.id, k.what);
        }
    }
    println!(
        "{}: {} runs, {} ops, {} faults, {} states, {:.1} s",
        prop.id,
        agg.runs,
        agg.ops,
        total_faults,
        agg.states.len(),
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        if vmsg.starts_with("[harness]") {
            die(&vmsg);
        }
        println!("{vmsg}");
        println!("VIOLATION property={} replay={}", prop.id, replay_path);
        std::process::exit(1);
    }
    if agg.runs == 0 {
        die("no run was executed");
    }
    std::process::exit(0);
}

//! Common machinery of the simulators: seeded choice source, run loop in
//! forked workers, minimiser, replay files, evidence files.
//!
//! Every decision of a simulated run is one `draw` from the choice source.
//! In record mode the value comes from a PRNG seeded by (seed, run number);
//! in replay mode it comes from a list. Value 0 is always the simplest choice
//! ("no fault", "stop", "first"), so that shortening or zeroing the list
//! simplifies the run.

mod json;
mod prng;
mod runner;

pub use json::Json;
pub use prng::{mix64, Rng};
pub use runner::{fatal, violate, main, Prop, Suite};

use std::collections::{BTreeMap, HashSet};

/// Largest number of choices kept for one run.
pub const MAX_CHOICES: usize = 1 << 20;
/// Largest number of operation spans kept for one run.
pub const MAX_SPANS: usize = 1 << 16;

#[derive(Debug, Clone)]
pub struct Violation {
    /// Short stable class of the failure, e.g. `lookup-mismatch`.
    pub class: String,
    /// Human-readable description.
    pub msg: String,
}

impl Violation {
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation {
            class: class.into(),
            msg: msg.into(),
        }
    }
}

pub type RunResult = Result<(), Violation>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::Violation::new($class, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::Violation::new($class, format!($($arg)*)));
        }
    };
}

enum Mode {
    Record(Rng),
    Replay(Vec<u32>),
}

/// Choice buffer living in memory shared with the parent, so that the choices
/// of a run survive the death of the worker.
pub(crate) struct Shared {
    pub(crate) base: *mut u32,
}

// layout of the shared area in u32 words
pub(crate) const SH_RUN_LO: usize = 0;
pub(crate) const SH_RUN_HI: usize = 1;
pub(crate) const SH_NCHOICE: usize = 2;
pub(crate) const SH_NSPAN: usize = 3;
pub(crate) const SH_BEAT: usize = 4;
pub(crate) const SH_ACTIVE: usize = 5;
pub(crate) const SH_MSGLEN: usize = 6;
pub(crate) const SH_CLASSLEN: usize = 7;
pub(crate) const SH_HASH_LO: usize = 8;
pub(crate) const SH_HASH_HI: usize = 9;
pub(crate) const SH_CRASHNOTE: usize = 10;
pub(crate) const SH_MSG: usize = 16;
pub(crate) const SH_MSG_WORDS: usize = 4096;
pub(crate) const SH_CHOICES: usize = SH_MSG + SH_MSG_WORDS;
pub(crate) const SH_SPANS: usize = SH_CHOICES + MAX_CHOICES;
pub(crate) const SH_WORDS: usize = SH_SPANS + MAX_SPANS;

impl Shared {
    pub(crate) fn get(&self, i: usize) -> u32 {
        unsafe { std::ptr::read_volatile(self.base.add(i)) }
    }
    pub(crate) fn set(&self, i: usize, v: u32) {
        unsafe { std::ptr::write_volatile(self.base.add(i), v) }
    }
}

/// Everything a simulated run sees of the outside.
pub struct Ctx {
    mode: Mode,
    pos: usize,
    shared: *mut u32,
    nspan: usize,
    ops_left: u32,
    hash: u64,
    verbose: bool,
    log: Vec<String>,
    pub seed: u64,
    pub run: u64,
    pub thorough: bool,
    /// Simulated nanoseconds of this run.
    pub sim_ns: u64,
    nontrivial: bool,
    pub(crate) agg: *mut Agg,
}

/// Aggregated over the runs of one worker.
#[derive(Default)]
pub(crate) struct Agg {
    pub runs: u64,
    pub choices: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub nontrivial_runs: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub traces: HashSet<u64, Ident>,
    pub states: HashSet<u64, Ident>,
    pub samples: Vec<String>,
}

#[derive(Default, Clone, Copy)]
pub struct Ident;
pub struct IdentHasher(u64);
impl std::hash::BuildHasher for Ident {
    type Hasher = IdentHasher;
    fn build_hasher(&self) -> IdentHasher {
        IdentHasher(0)
    }
}
impl std::hash::Hasher for IdentHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

const STATE_CAP: usize = 3_000_000;

impl Ctx {
    fn draw_raw(&mut self, n: u32) -> u32 {
        let v = match &mut self.mode {
            Mode::Record(r) => r.below(n),
            Mode::Replay(list) => match list.get(self.pos) {
                Some(&v) if v < n => v,
                Some(&v) => v % n,
                None => 0,
            },
        };
        self.push(v);
        v
    }

    fn push(&mut self, v: u32) {
        if self.pos >= MAX_CHOICES {
            panic!("simcore: run makes more than {MAX_CHOICES} choices");
        }
        unsafe {
            *self.shared.add(SH_CHOICES + self.pos) = v;
            self.pos += 1;
            *self.shared.add(SH_NCHOICE) = self.pos as u32;
        }
    }

    /// A number in `0..n`.
    pub fn draw(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        assert!(n <= u32::MAX as usize);
        self.draw_raw(n as u32) as usize
    }

    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        let v = match &mut self.mode {
            Mode::Record(r) => (r.below(den) < num) as u32,
            Mode::Replay(list) => list.get(self.pos).map_or(0, |&v| (v != 0) as u32),
        };
        self.push(v);
        v != 0
    }

    /// Index drawn with the given weights; index 0 is the simple choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        assert!(total > 0);
        let v = match &mut self.mode {
            Mode::Record(r) => {
                let mut x = r.below(total);
                let mut i = 0;
                while x >= w[i] {
                    x -= w[i];
                    i += 1;
                }
                i as u32
            }
            Mode::Replay(list) => {
                let v = list.get(self.pos).map_or(0, |&v| v % w.len() as u32);
                // never land on a disabled choice
                if w[v as usize] == 0 {
                    w.iter().position(|&x| x > 0).unwrap() as u32
                } else {
                    v
                }
            }
        };
        self.push(v);
        v as usize
    }

    /// Full-width value.
    pub fn draw_u32(&mut self) -> u32 {
        let v = match &mut self.mode {
            Mode::Record(r) => (r.next() >> 32) as u32,
            Mode::Replay(list) => list.get(self.pos).copied().unwrap_or(0),
        };
        self.push(v);
        v
    }

    /// Sets how many operations `next_op` grants in record mode.
    pub fn set_ops(&mut self, n: u32) {
        self.ops_left = n;
    }

    /// Starts the next operation of the run; `false` ends the run. The
    /// minimiser deletes whole operations.
    pub fn next_op(&mut self) -> bool {
        unsafe {
            if self.nspan < MAX_SPANS {
                *self.shared.add(SH_SPANS + self.nspan) = self.pos as u32;
                self.nspan += 1;
                *self.shared.add(SH_NSPAN) = self.nspan as u32;
            }
        }
        let v = match &mut self.mode {
            Mode::Record(_) => {
                if self.ops_left > 0 {
                    self.ops_left -= 1;
                    1
                } else {
                    0
                }
            }
            Mode::Replay(list) => list.get(self.pos).map_or(0, |&v| (v != 0) as u32),
        };
        self.push(v);
        if v != 0 {
            self.agg().ops += 1;
        }
        v != 0
    }

    #[allow(clippy::mut_from_ref)]
    fn agg(&self) -> &mut Agg {
        unsafe { &mut *self.agg }
    }

    /// Adds to the trace hash of the run.
    pub fn mix(&mut self, v: u64) {
        self.hash = mix64(self.hash ^ v).wrapping_add(0x9e37_79b9_7f4a_7c15);
    }

    pub fn trace_hash(&self) -> u64 {
        self.hash
    }

    /// Event line; the text is built only when the run is being shown.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }

    pub fn verbose(&self) -> bool {
        self.verbose
    }

    /// Counts one injected fault.
    pub fn fault(&mut self, kind: &'static str) {
        *self.agg().faults.entry(kind).or_insert(0) += 1;
        self.nontrivial = true;
    }

    /// Counts one reached situation.
    pub fn probe(&mut self, kind: &'static str) {
        *self.agg().probes.entry(kind).or_insert(0) += 1;
    }

    pub fn probe_n(&mut self, kind: &'static str, n: u64) {
        *self.agg().probes.entry(kind).or_insert(0) += n;
    }

    /// Registers a visited state by hash.
    pub fn state(&mut self, h: u64) {
        let a = self.agg();
        if a.states.len() < STATE_CAP {
            a.states.insert(mix64(h));
        }
    }

    /// Marks the run as non-trivial.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// Text of the last panic seen by the panic hook.
pub fn last_panic() -> String {
    runner::last_panic()
}

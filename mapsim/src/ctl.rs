//! Keys, values and callbacks under simulator control.

use crate::galloc::{self, Track};
use ruby_traits::{RubyEql, RubyHash, RubySymEql, RubySymHash};
use simcore::mix64;
use std::borrow::Borrow;
use std::cmp::Ordering;

/// Callback kinds at which a fault can fire.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Cb {
    Hash = 0,
    Eql = 1,
    Cmp = 2,
    Clone = 3,
    Drop = 4,
    Closure = 5,
    Iter = 6,
    Hasher = 7,
    VEql = 8,
}
pub const NCB: usize = 9;
pub const CB_NAMES: [&str; NCB] = [
    "hash", "eql?", "comparison", "clone", "drop", "closure", "iterator", "hasher", "value eql?",
];
pub const KEY_MASK: u32 = 1 << 0 | 1 << 1;
pub const RAISE_MASK: u32 = 1 << 0 | 1 << 1 | 1 << 8;
pub const PANIC_MASK: u32 = (1 << NCB) - 1;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Raise(pub u64);

pub struct SimPanic;

/// Unwinding from an allocation that cannot be done with less memory.
pub struct SimOom;

pub fn install_oom_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        if galloc::st().refused > 0 {
            let _t = Track::off();
            galloc::st().refuse_in = 0;
            std::panic::resume_unwind(Box::new(SimOom));
        }
        simcore::fatal("allocation-failed", &format!("allocation of {} bytes failed", l.size()));
    });
}

#[derive(Default)]
pub struct Ctl {
    pub armed: bool,
    pub mask: u32,
    pub left: u32,
    pub panic: bool,
    pub raise_id: u64,
    pub fired: Option<Cb>,
    pub after_fire: u32,
    pub counts: [u32; NCB],
    pub budget: u64,
    // hash function of this run
    pub hmode: usize,
    pub hsalt: u64,
    pub hk: u64,
    // ledger: 0 unknown, 1 live, 2 dropped
    pub ks: Vec<u8>,
    pub vs: Vec<u8>,
    pub klive: i64,
    pub vlive: i64,
    pub origin: Vec<u32>,
}

static mut CTL: *mut Ctl = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn ctl() -> &'static mut Ctl {
    unsafe {
        if CTL.is_null() {
            CTL = Box::into_raw(Box::default());
        }
        &mut *CTL
    }
}

/// Starts a run: empty ledger, no fault armed.
pub fn reset() {
    let c = ctl();
    *c = Ctl::default();
    c.budget = 50_000_000;
    let s = galloc::st();
    s.track = false;
    s.live = 0;
    s.live_bytes = 0;
    s.refuse_in = 0;
    s.refuse_n = 0;
    s.refused = 0;
    s.refuse_above = 0;
}

impl Ctl {
    pub fn hash(&self, class: u32) -> u64 {
        let c = class as u64;
        match self.hmode {
            0 => mix64(c ^ self.hsalt),
            1 => c,
            2 => self.hsalt,
            3 => mix64(c % self.hk ^ self.hsalt),
            4 => mix64(c ^ self.hsalt) & 0xff00_0000_0000_0000,
            5 => mix64(c ^ self.hsalt) >> 8,
            6 => (c << 57) | (c % self.hk),
            7 => !c,
            8 => c % self.hk,
            9 => (mix64(c % self.hk) << 7) ^ (mix64(c ^ self.hsalt) & 0xfe00_0000_0000_0000),
            _ => 0,
        }
    }

    /// Arms one fault at the `at`-th callback of the kinds in `mask`.
    pub fn arm(&mut self, mask: u32, at: u32, panic: bool, id: u64) {
        self.armed = true;
        self.mask = mask;
        self.left = at;
        self.panic = panic;
        self.raise_id = id;
        self.fired = None;
        self.after_fire = 0;
    }

    pub fn begin_op(&mut self) {
        self.armed = false;
        self.fired = None;
        self.after_fire = 0;
        self.counts = [0; NCB];
    }
}

pub const HMODES: usize = 10;

enum Act {
    Go,
    Raise(u64),
    Panic,
}

fn cb(kind: Cb) -> Act {
    let c = ctl();
    c.counts[kind as usize] += 1;
    c.budget -= 1;
    if c.budget == 0 {
        simcore::fatal("livelock", "more than 50 million callbacks in one run");
    }
    if c.fired.is_some() && (1 << kind as u32) & KEY_MASK != 0 {
        c.after_fire += 1;
    }
    if c.armed && c.mask & (1 << kind as u32) != 0 {
        if c.panic && std::thread::panicking() {
            return Act::Go;
        }
        if c.left == 0 {
            c.armed = false;
            c.fired = Some(kind);
            return if c.panic { Act::Panic } else { Act::Raise(c.raise_id) };
        }
        c.left -= 1;
    }
    Act::Go
}

fn go_panic() -> ! {
    let _t = Track::off();
    std::panic::resume_unwind(Box::new(SimPanic))
}

/// Callback that can panic but not raise.
pub fn cb_p(kind: Cb) {
    let _t = Track::off();
    match cb(kind) {
        Act::Go => {}
        _ => go_panic(),
    }
}

/// Callback that can raise or panic.
pub fn cb_r(kind: Cb) -> Result<(), Raise> {
    let _t = Track::off();
    match cb(kind) {
        Act::Go => Ok(()),
        Act::Raise(id) => Err(Raise(id)),
        Act::Panic => go_panic(),
    }
}

pub struct Env(pub u32);
pub struct Glob(pub u32);

fn check_env(e: &Env, g: &Glob) {
    if e.0 != 0xE0E0 || g.0 != 0x6060 {
        simcore::fatal("bad-context", "a callback received foreign context arguments");
    }
}
pub fn env() -> (Env, Glob) {
    (Env(0xE0E0), Glob(0x6060))
}

// ---- keys ------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sym {
    pub class: u32,
}

const KMAGIC: u64 = 0x6b65_7921_6b65_7921;
const VMAGIC: u64 = 0x7661_6c21_7661_6c21;

pub struct K {
    sym: Sym,
    id: u32,
    magic: u64,
}

impl K {
    pub fn new(class: u32) -> K {
        let _t = Track::off();
        let c = ctl();
        let id = c.ks.len() as u32;
        c.ks.push(1);
        c.origin.push(id);
        c.klive += 1;
        K {
            sym: Sym { class },
            id,
            magic: KMAGIC ^ id as u64,
        }
    }
    pub fn check(&self) {
        if self.magic != KMAGIC ^ self.id as u64 {
            simcore::fatal("garbage-key", "a key that was never initialised (or was overwritten) was used");
        }
        if ctl().ks[self.id as usize] != 1 {
            simcore::fatal("key-use-after-drop", "a key was used after it was dropped");
        }
    }
    pub fn class(&self) -> u32 {
        self.check();
        self.sym.class
    }
    pub fn id(&self) -> u32 {
        self.check();
        self.id
    }
    /// Packs class and identity.
    pub fn tok(&self) -> u64 {
        (self.class() as u64) << 32 | self.id as u64
    }
}

impl Drop for K {
    fn drop(&mut self) {
        if self.magic != KMAGIC ^ self.id as u64 {
            simcore::fatal("garbage-key-drop", "a key that was never initialised (or was overwritten) was dropped");
        }
        let c = ctl();
        if c.ks[self.id as usize] != 1 {
            simcore::fatal("key-double-drop", "a key was dropped twice");
        }
        c.ks[self.id as usize] = 2;
        c.klive -= 1;
        cb_p(Cb::Drop);
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        self.check();
        cb_p(Cb::Clone);
        let k = K::new(self.sym.class);
        ctl().origin[k.id as usize] = self.id;
        k
    }
}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.class())
    }
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.check();
        o.check();
        cb_p(Cb::Cmp);
        self.sym.class == o.sym.class
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.check();
        o.check();
        cb_p(Cb::Cmp);
        self.sym.class.cmp(&o.sym.class)
    }
}

impl RubyEql<Env, Glob, Raise> for K {
    fn eql(&self, o: &K, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        self.check();
        o.check();
        check_env(e, g);
        cb_r(Cb::Eql)?;
        Ok(self.sym.class == o.sym.class)
    }
}

impl RubyHash<Env, Glob, Raise> for K {
    fn ruby_hash<H: std::hash::Hasher>(&self, s: &mut H, e: &mut Env, g: &mut Glob) -> Result<(), Raise> {
        self.check();
        check_env(e, g);
        cb_r(Cb::Hash)?;
        s.write_u64(ctl().hash(self.sym.class));
        Ok(())
    }
}

impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.check();
        cb_p(Cb::Hasher);
        s.write_u64(ctl().hash(self.sym.class));
    }
}

impl RubySymHash for Sym {
    fn ruby_hash<H: std::hash::Hasher>(&self, s: &mut H) {
        s.write_u64(ctl().hash(self.class));
    }
}
impl RubySymEql for Sym {
    fn eql(&self, o: &Sym) -> bool {
        self.class == o.class
    }
}
impl Borrow<Sym> for K {
    fn borrow(&self) -> &Sym {
        self.check();
        &self.sym
    }
}
impl From<Sym> for K {
    fn from(s: Sym) -> K {
        K::new(s.class)
    }
}

// ---- values ----------------------------------------------------------------

pub struct V {
    pub val: u32,
    id: u32,
    magic: u64,
}

impl V {
    pub fn new(val: u32) -> V {
        let _t = Track::off();
        let c = ctl();
        let id = c.vs.len() as u32;
        c.vs.push(1);
        c.vlive += 1;
        V {
            val,
            id,
            magic: VMAGIC ^ id as u64,
        }
    }
    pub fn val(&self) -> u32 {
        if self.magic != VMAGIC ^ self.id as u64 {
            simcore::fatal("garbage-value", "a value that was never initialised (or was overwritten) was used");
        }
        if ctl().vs[self.id as usize] != 1 {
            simcore::fatal("value-use-after-drop", "a value was used after it was dropped");
        }
        self.val
    }
    pub fn set(&mut self, v: u32) {
        self.val();
        self.val = v;
    }
}

impl Drop for V {
    fn drop(&mut self) {
        if self.magic != VMAGIC ^ self.id as u64 {
            simcore::fatal("garbage-value-drop", "a value that was never initialised (or was overwritten) was dropped");
        }
        let c = ctl();
        if c.vs[self.id as usize] != 1 {
            simcore::fatal("value-double-drop", "a value was dropped twice");
        }
        c.vs[self.id as usize] = 2;
        c.vlive -= 1;
        cb_p(Cb::Drop);
    }
}

impl Clone for V {
    fn clone(&self) -> V {
        let v = self.val();
        cb_p(Cb::Clone);
        V::new(v)
    }
}

impl Default for V {
    fn default() -> V {
        cb_p(Cb::Closure);
        V::new(0)
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.val())
    }
}

impl RubyEql<Env, Glob, Raise> for V {
    fn eql(&self, o: &V, e: &mut Env, g: &mut Glob) -> Result<bool, Raise> {
        check_env(e, g);
        let (a, b) = (self.val(), o.val());
        cb_r(Cb::VEql)?;
        Ok(a == b)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        let (a, b) = (self.val(), o.val());
        cb_p(Cb::Cmp);
        a == b
    }
}
impl Eq for V {}

// ---- pass-through hasher ----------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Bh;
pub struct PassHasher(u64);
impl std::hash::BuildHasher for Bh {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}
impl std::hash::Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix64(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 ^= v;
    }
}

// ---- calls into the code under test ------------------------------------------

/// How a call into the code under test ended.
pub enum Call<T> {
    Ret(T),
    /// Panic injected by the simulator.
    Injected,
    /// The simulated allocator refused a request that had no fallback.
    Oom,
    /// Any other panic.
    Other(String),
}

pub fn call<T>(f: impl FnOnce() -> T) -> Call<T> {
    let r = {
        let _t = Track::on();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Call::Ret(v),
        Err(p) => {
            if p.is::<SimPanic>() {
                Call::Injected
            } else if p.is::<SimOom>() {
                Call::Oom
            } else {
                Call::Other(simcore::last_panic())
            }
        }
    }
}

/// Order and hash configuration of a run.
pub fn pick_hash(ctx: &mut simcore::Ctx) {
    let c = ctl();
    c.hmode = ctx.draw(HMODES);
    c.hk = 1 + ctx.draw(5) as u64;
    c.hsalt = ctx.draw(1000) as u64 * 0x1_0001_0001;
}

/// Whether the hashes of many keys differ, so that large containers are cheap.
pub fn spread() -> bool {
    matches!(ctl().hmode, 0 | 1 | 5 | 7)
}

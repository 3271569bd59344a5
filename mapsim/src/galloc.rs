//! Global allocator of the simulator: red zones, poisoning, quarantine,
//! layout checks, leak accounting and refusal of requests. All state is
//! process-global; the simulator is single-threaded.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

#[global_allocator]
static A: SimAlloc = SimAlloc;

const LIVE: u64 = 0x51A1_1A3E_C0DE_0001;
const DEAD: u64 = 0x51A1_1A3E_DEAD_0002;
/// Bytes in front of a block (besides the header) and behind it.
const FRONT: usize = 512;
const TAILN: usize = 64;
const GUARD: u8 = 0x11;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0x5A;
const FILL_MAX: usize = 8192;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    tracked: usize,
}

pub struct State {
    /// Calls into the code under test are running.
    pub track: bool,
    pub live: isize,
    pub live_bytes: isize,
    pub allocs: u64,
    /// Countdown to refusals among tracked requests; 0 = off.
    pub refuse_in: u32,
    /// How many requests in a row to refuse.
    pub refuse_n: u32,
    /// Refuse only requests larger than this (and of word alignment: entry
    /// storage, not index tables).
    pub refuse_above: usize,
    pub refused: u32,
    /// Size of the last refused request.
    pub refused_size: usize,
}

pub static mut ST: State = State {
    track: false,
    live: 0,
    live_bytes: 0,
    allocs: 0,
    refuse_in: 0,
    refuse_n: 0,
    refuse_above: 0,
    refused: 0,
    refused_size: 0,
};

const QN: usize = 64;
static mut QUAR: [(*mut u8, usize, usize, usize); QN] = [(std::ptr::null_mut(), 0, 0, 0); QN];
static mut QPOS: usize = 0;

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe { &mut ST }
}

fn off(align: usize) -> usize {
    (FRONT + 32).next_multiple_of(align.max(16))
}

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if s.track {
            if s.refuse_in > 0 && l.size() > s.refuse_above && l.align() <= 8 {
                if s.refuse_in == 1 {
                    if s.refuse_n > 0 {
                        s.refuse_n -= 1;
                        if s.refuse_n == 0 {
                            s.refuse_in = 0;
                        }
                        s.refused += 1;
                        s.refused_size = l.size();
                        return std::ptr::null_mut();
                    }
                } else {
                    s.refuse_in -= 1;
                }
            }
            s.allocs += 1;
        }
        let o = off(l.align());
        let Some(total) = l.size().checked_add(o + TAILN) else {
            return std::ptr::null_mut();
        };
        if total > 1 << 34 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let u = p.add(o);
        let h = u.sub(32) as *mut Head;
        (*h).magic = LIVE;
        (*h).size = l.size();
        (*h).align = l.align();
        (*h).tracked = s.track as usize;
        if s.track {
            s.live += 1;
            s.live_bytes += l.size() as isize;
        }
        std::ptr::write_bytes(u, FRESH, l.size().min(FILL_MAX));
        if s.track {
            std::ptr::write_bytes(p, GUARD, o - 32);
        }
        std::ptr::write_bytes(u.add(l.size()), GUARD, TAILN);
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let s = st();
        let o = off(l.align());
        let h = u.sub(32) as *mut Head;
        if (*h).magic == DEAD {
            simcore::fatal("double-free", "a block was freed twice");
        }
        if (*h).magic != LIVE {
            simcore::fatal("bad-free", "a pointer that is no allocation (or an overwritten header) was freed");
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            simcore::fatal("layout-mismatch", "a block was freed with another layout than it was allocated with");
        }
        let tail = std::slice::from_raw_parts(u.add(l.size()), TAILN);
        let front = std::slice::from_raw_parts(u.sub(o), o - 32);
        if tail.iter().any(|b| *b != GUARD) || ((*h).tracked != 0 && front.iter().any(|b| *b != GUARD)) {
            simcore::fatal("buffer-overrun", "memory around a block was overwritten");
        }
        if (*h).tracked != 0 {
            s.live -= 1;
            s.live_bytes -= l.size() as isize;
        }
        (*h).magic = DEAD;
        std::ptr::write_bytes(u, FREED, l.size().min(FILL_MAX));
        if (*h).tracked != 0 && l.size() <= FILL_MAX {
            let old = QUAR[QPOS];
            QUAR[QPOS] = (u, l.size(), l.align(), 1);
            QPOS = (QPOS + 1) % QN;
            if !old.0.is_null() {
                release(old.0, old.1, old.2);
            }
        } else {
            System.dealloc(
                u.sub(o),
                Layout::from_size_align_unchecked(l.size() + o + TAILN, l.align().max(16)),
            );
        }
    }
}

unsafe fn release(u: *mut u8, size: usize, align: usize) {
    for i in 0..size {
        if *u.add(i) != FREED {
            simcore::fatal("write-after-free", "freed memory was written");
        }
    }
    let o = off(align);
    System.dealloc(
        u.sub(o),
        Layout::from_size_align_unchecked(size + o + TAILN, align.max(16)),
    );
}

/// Empties the quarantine, checking every block.
#[allow(static_mut_refs)]
pub fn flush_quarantine() {
    unsafe {
        for i in 0..QN {
            let old = std::mem::replace(&mut QUAR[i], (std::ptr::null_mut(), 0, 0, 0));
            if !old.0.is_null() {
                release(old.0, old.1, old.2);
            }
        }
        QPOS = 0;
    }
}

/// Turns tracking on or off for a scope.
pub struct Track(bool);
impl Track {
    pub fn on() -> Track {
        let old = st().track;
        st().track = true;
        Track(old)
    }
    pub fn off() -> Track {
        let old = st().track;
        st().track = false;
        Track(old)
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        st().track = self.0;
    }
}

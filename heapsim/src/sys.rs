//! What the copied modules see instead of the system: allocator, clock,
//! environment and process exit; and the checking allocator of the
//! simulator itself.
pub use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};

/// The system allocator behind the tracked one. Large requests are the cell
/// arena; others are the simulated buffers, which have no memory.
pub struct System;

static ARENA: AtomicUsize = AtomicUsize::new(0);
pub static ARENA_LEN: AtomicUsize = AtomicUsize::new(0);
pub static LEDGER: AtomicUsize = AtomicUsize::new(0);
static FAKE: AtomicUsize = AtomicUsize::new(0x1000_0000_0000);

const ARENA_AT: usize = 0x2000_0000_0000;

impl System {
    /// # Safety
    /// none needed: addresses are made up or mapped here
    pub unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() >= 64 << 20 {
            if ARENA.load(Ordering::Relaxed) != 0 {
                simcore::fatal("arena", "a second arena was requested");
            }
            assert!(ARENA_AT % layout.align() == 0);
            let p = unsafe {
                libc::mmap(
                    ARENA_AT as *mut _,
                    layout.size(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                    -1,
                    0,
                )
            };
            assert!(p as usize == ARENA_AT, "arena could not be mapped");
            ARENA.store(p as usize, Ordering::Relaxed);
            ARENA_LEN.store(layout.size(), Ordering::Relaxed);
            // fresh memory has no defined content
            unsafe { std::ptr::write_bytes(p as *mut u8, 0xA5, 3 << 18) };
            return p as *mut u8;
        }
        LEDGER.fetch_add(layout.size(), Ordering::Relaxed);
        FAKE.fetch_add(layout.size().next_multiple_of(64) + 64, Ordering::Relaxed) as *mut u8
    }
    /// # Safety
    /// none needed
    pub unsafe fn dealloc(&self, _: *mut u8, layout: Layout) {
        LEDGER.fetch_sub(layout.size(), Ordering::Relaxed);
    }
}

static NOW: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(NOW.fetch_add(1000, Ordering::Relaxed))
    }
    pub fn elapsed(&self) -> std::time::Duration {
        std::time::Duration::from_nanos(NOW.fetch_add(1000, Ordering::Relaxed) - self.0)
    }
}

pub mod env {
    pub fn var(_: &str) -> Result<String, ()> {
        Err(())
    }
    pub fn var_os(_: &str) -> Option<std::ffi::OsString> {
        None
    }
}

pub fn process_abort() -> ! {
    simcore::fatal("abort", "the allocator aborted the process")
}

/// Allocator of the simulator: each block carries a tag, so that a block
/// released twice is noticed, and released memory is overwritten.
pub struct Checking;

const LIVE: u32 = 0x5afe_b10c;
const DEAD: u32 = 0xdead_b10c;
pub static WATCHED: [AtomicU32; 4096] = [const { AtomicU32::new(0) }; 4096];

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pre = l.align().max(16);
        unsafe {
            let Ok(big) = Layout::from_size_align(l.size() + pre, pre) else { return std::ptr::null_mut() };
            let p = std::alloc::System.alloc(big);
            if p.is_null() {
                return p;
            }
            let u = p.add(pre);
            (u.sub(8) as *mut u32).write(LIVE);
            (u.sub(4) as *mut u32).write(0);
            u
        }
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let pre = l.align().max(16);
        unsafe {
            let tag = u.sub(8) as *mut u32;
            if *tag != LIVE {
                simcore::fatal("double-free", "a memory block was released twice");
            }
            let id = *(u.sub(4) as *mut u32) as usize;
            if id != 0 && id < WATCHED.len() {
                WATCHED[id].fetch_add(1, Ordering::Relaxed);
            }
            tag.write(DEAD);
            std::ptr::write_bytes(u, 0xDD, l.size());
            let big = Layout::from_size_align_unchecked(l.size() + pre, pre);
            std::alloc::System.dealloc(u.sub(pre), big);
        }
    }
}

/// Number of times the block registered as `id` was released.
pub fn watch(p: *mut u8, id: usize) {
    assert!(id != 0 && id < WATCHED.len());
    unsafe { (p.sub(4) as *mut u32).write(id as u32) }
}

#[global_allocator]
static GLOBAL: Checking = Checking;

/// Lowest stack address seen by marking since the last reset.
pub static LOW_STACK: AtomicUsize = AtomicUsize::new(usize::MAX);
#[inline(never)]
pub fn note_stack() {
    let x = 0u8;
    LOW_STACK.fetch_min(&x as *const u8 as usize, Ordering::Relaxed);
}

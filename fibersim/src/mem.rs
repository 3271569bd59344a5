//! The memory of fiber stacks: real memory, with a record of what was done.
pub use std::alloc::Layout;
use std::collections::HashMap;

#[derive(Default)]
pub struct Mem {
    pub live: HashMap<usize, (Layout2, bool)>,
    pub err: Option<String>,
    pub total: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Layout2(usize, usize);

static mut MEM: Option<Mem> = None;

#[allow(static_mut_refs)]
pub fn mem() -> &'static mut Mem {
    unsafe { MEM.get_or_insert_default() }
}

fn err(s: String) {
    mem().err.get_or_insert(s);
}

pub unsafe fn alloc(l: Layout) -> *mut u8 {
    let p = unsafe { std::alloc::alloc(l) };
    if p.is_null() {
        simcore::fatal("harness", "no memory for a fiber stack");
    }
    mem().live.insert(p as usize, (Layout2(l.size(), l.align()), false));
    mem().total += 1;
    p
}

pub unsafe fn alloc_zeroed(l: Layout) -> *mut u8 {
    let p = unsafe { alloc(l) };
    unsafe { std::ptr::write_bytes(p, 0, l.size()) };
    p
}

pub fn handle_alloc_error(_: Layout) -> ! {
    panic!("allocation failed")
}

pub unsafe fn dealloc(p: *mut u8, l: Layout) {
    match mem().live.get(&(p as usize)) {
        None => return err("a stack was freed that was not allocated".into()),
        Some((_, true)) => return err("a stack was freed with its guard page still protected".into()),
        Some((k, false)) if *k != Layout2(l.size(), l.align()) => {
            return err(format!("a stack of {k:?} was freed as {l:?}"));
        }
        Some(_) => {}
    }
    mem().live.remove(&(p as usize));
    unsafe { std::alloc::dealloc(p, l) }
}

pub unsafe fn mprotect(p: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    match mem().live.get_mut(&(p as usize)) {
        Some(x) if len >= 4096 && len < x.0.0 => x.1 = prot == libc::PROT_NONE,
        _ => err(format!("protection of {len} bytes that are not the end of a stack changed")),
    }
    unsafe { libc::mprotect(p, len, prot) }
}

/// The stack whose end this is.
pub fn guarded_stack(top: usize) -> std::result::Result<(), String> {
    match mem().live.iter().find(|(b, x)| **b + x.0.0 == top) {
        None => Err("the fiber does not start at the end of a stack of its own".into()),
        Some((_, x)) if !x.1 => Err("the stack of the fiber has no guard page".into()),
        _ => Ok(()),
    }
}

/// Frees what a failed run left.
pub fn reset() {
    for (p, (l, _)) in mem().live.drain() {
        unsafe {
            libc::mprotect(p as _, 4096, libc::PROT_READ | libc::PROT_WRITE);
            std::alloc::dealloc(p as _, Layout::from_size_align(l.0, l.1).unwrap());
        }
    }
    mem().err = None;
}

//! Stack switches: what the assembled stubs of the interpreter do, and the
//! context of the simulated program's root.
use std::arch::naked_asm;

const STACK: usize = 512 * 1024;

#[unsafe(naked)]
pub unsafe extern "C" fn swap(_save: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret"
    )
}

#[unsafe(naked)]
unsafe extern "C" fn start() {
    naked_asm!("mov rdi, r12", "call r13", "ud2")
}

/// A frame on a fresh stack that enters `f(arg)`; `swap` to the result.
pub unsafe fn frame(top: usize, f: extern "C" fn(usize), arg: usize) -> usize {
    let top = (top - 64) & !15;
    // popped by `swap`: r15 r14 r13 r12 rbx rbp ret
    let sp = (top - 7 * 8) as *mut usize;
    unsafe {
        *sp = 0;
        *sp.add(1) = 0;
        *sp.add(2) = f as *const () as usize;
        *sp.add(3) = arg;
        *sp.add(4) = 0;
        *sp.add(5) = 0;
        *sp.add(6) = start as *const () as usize;
    }
    sp as usize
}

/// A stack for the root context, kept for all runs of a process.
pub fn root_stack() -> usize {
    static mut TOP: usize = 0;
    unsafe {
        if TOP == 0 {
            let base = libc::mmap(
                std::ptr::null_mut(),
                STACK,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            if base == libc::MAP_FAILED {
                simcore::fatal("harness", "mmap of the root stack failed");
            }
            libc::mprotect(base, 4096, libc::PROT_NONE);
            TOP = base as usize + STACK;
        }
        TOP
    }
}

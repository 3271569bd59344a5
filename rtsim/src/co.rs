//! Stackful coroutines: the contexts of simulated threads.
use std::arch::naked_asm;

const STACK: usize = 256 * 1024;

pub struct Co {
    rsp: usize,
    caller: usize,
    pub done: bool,
    f: Option<Box<dyn FnOnce()>>,
}

#[unsafe(naked)]
unsafe extern "C" fn swap(_save: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret"
    )
}

#[unsafe(naked)]
unsafe extern "C" fn start() {
    naked_asm!("mov rdi, r12", "call r13", "ud2")
}

extern "C" fn entry(co: *mut Co) {
    let f = unsafe { (*co).f.take().unwrap() };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
        crate::world::w().abort("panic", format!("panicked: {}", simcore::last_panic()));
    }
    unsafe {
        (*co).done = true;
        let mut dead = 0usize;
        swap(&mut dead, (*co).caller);
    }
    unreachable!();
}

impl Co {
    pub fn new(f: impl FnOnce() + 'static) -> Box<Co> {
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                STACK,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if base == libc::MAP_FAILED {
            simcore::fatal("harness", "mmap of a coroutine stack failed");
        }
        let mut co = Box::new(Co { rsp: 0, caller: 0, done: false, f: Some(Box::new(f)) });
        unsafe {
            libc::mprotect(base, 4096, libc::PROT_NONE);
            let top = (base as usize + STACK - 64) & !15;
            // frame popped by `swap`: r15 r14 r13 r12 rbx rbp ret
            let sp = (top - 7 * 8) as *mut usize;
            *sp = 0;
            *sp.add(1) = 0;
            *sp.add(2) = entry as *const () as usize;
            *sp.add(3) = &mut *co as *mut Co as usize;
            *sp.add(4) = 0;
            *sp.add(5) = 0;
            *sp.add(6) = start as *const () as usize;
            co.rsp = sp as usize;
        }
        co
    }

    /// Runs the coroutine until it suspends or ends.
    #[track_caller]
    pub fn resume(&mut self) {
        assert!(!self.done);
        unsafe { swap(&mut self.caller, self.rsp) }
    }

    /// Called on the coroutine's own stack.
    pub fn suspend(&mut self) {
        unsafe { swap(&mut self.rsp, self.caller) }
    }

    /// Leaves every stack for the caller of this coroutine, for good.
    pub fn escape(&mut self) -> ! {
        self.done = true;
        let mut dead = 0usize;
        unsafe { swap(&mut dead, self.caller) };
        unreachable!()
    }
}

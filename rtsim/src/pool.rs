//! C16: blocking calls on native workers.
use crate::hooks::{self, Harness};
use crate::simstd::sync::atomic::AtomicU32;
use crate::value::rvalue::{PendingInterrupt, ThreadInner};
use crate::world::{self, Ev, MS, SEC, US, cx, w};
use crate::*;
use native_pool::{NativeOp, run_blocking};
use simcore::{Ctx, Prop, Violation};

#[derive(Clone, Debug)]
struct Op {
    kind: u8,
    takes: u64,
    fails: bool,
    eintr: u64,
    performed: u32,
    /// The worker's OS thread, once it runs.
    os: usize,
    by: u64,
    waiting: bool,
    done: bool,
    /// Flags of the call, its mode in the upper half.
    arg: i64,
    errno: i32,
    ret: i64,
}

#[derive(Default)]
struct S {
    ops: Vec<Op>,
    threads: Vec<Value>,
    read_fault: u32,
    killed: u32,
    hits: u32,
    left: u32,
}

static mut S0: Option<S> = None;
#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { S0.as_mut().unwrap() }
}

fn errno_of(i: usize) -> i32 {
    s().ops[i].errno
}
fn ret_of(i: usize) -> i64 {
    s().ops[i].ret
}

impl Harness for S {
    fn fault_read(&mut self) -> bool {
        self.read_fault > 0 && cx().chance(self.read_fault, 256)
    }
    fn native_op(&mut self, kind: &str, a: i64, b: i64) -> std::result::Result<i64, i32> {
        let i = a as usize;
        if i >= self.ops.len() {
            w().abort("wrong", format!("a worker was given an operation nobody asked for ({kind} {a})"));
        }
        let o = &mut s().ops[i];
        o.os = w().cur;
        if w().cur == 0 {
            w().abort("inline", "a blocking call ran on the interpreter's own thread".into());
        }
        if o.kind != 2 && b != o.arg {
            w().abort("wrong", format!("operation {i} is called with flags {b:#x} instead of {:#x}", o.arg));
        }
        if o.eintr > 0 && o.kind != 2 {
            o.eintr -= 1;
            cx().fault("eintr");
            w().os_sleep(100 * US);
            return Err(libc::EINTR);
        }
        w().os_sleep(o.takes);
        let o = &mut s().ops[i];
        o.performed += 1;
        cx().log(|| format!("  operation {i} performed"));
        if o.performed > 1 {
            w().abort("twice", format!("operation {i} was performed {} times", o.performed));
        }
        if o.fails && o.kind != 2 {
            return Err(errno_of(i));
        }
        Ok(if o.kind == 0 { 0 } else { ret_of(i) })
    }
    fn body(&mut self, vm: &mut Executor, g: &mut Globals, id: u64, _: Vec<Value>) -> Result<Value> {
        while cx().next_op() {
            step(vm, g, id)?;
        }
        Ok(Value::nil())
    }
}

fn offload(vm: &mut Executor, g: &mut Globals, id: u64) -> Result<()> {
    let i = s().ops.len();
    let kind = cx().draw(3) as u8;
    s().ops.push(Op {
        kind,
        takes: [0, 50 * US, MS, 3 * MS, 100 * MS][cx().draw(5) as usize],
        fails: cx().chance(1, 4),
        eintr: cx().weighted(&[6, 1, 1]) as u64,
        performed: 0,
        os: 0,
        by: id,
        waiting: true,
        done: false,
        arg: match kind {
            0 => [2, 1, 8][cx().draw(3) as usize],
            // any access mode, with and without creation and close-on-exec
            1 => (cx().draw(3) as i64) | [0, 0o2000000, 0o2000100, 0o2001][cx().draw(4) as usize] | ([0i64, 0o644, 0o600][cx().draw(3) as usize]) << 32,
            _ => 0,
        },
        errno: match cx().draw(7) {
            0 => 300 + i as i32,
            x => [libc::EAGAIN, 2, 9, 6, 37, 110][x as usize - 1],
        },
        ret: match (kind, cx().draw(8)) {
            (1 | 2, 7) => 0,
            (2, 6) => -1,
            (2, 5) => i64::MIN,
            _ => 1000 + i as i64,
        },
    });
    let arg = s().ops[i].arg;
    let fails = s().ops[i].fails && kind != 2;
    let op = match kind {
        0 => NativeOp::Flock { fd: i as i32, op: arg as i32 },
        1 => NativeOp::Open { path: std::ffi::CString::new(format!("/fifo/{i}")).unwrap(), flags: arg as i32, mode: (arg >> 32) as u32 },
        _ => NativeOp::Ffi(builtins::fiddle::FfiWorkerCall(i as i64)),
    };
    cx().log(|| format!("thread {id}: operation {i} (kind {kind})"));
    let r = run_blocking(vm, g, op);
    s().ops[i].waiting = false;
    match r {
        Ok(c) => {
            s().ops[i].done = true;
            s().hits += 1;
            let (er, ee) = if fails { (-1, errno_of(i)) } else { (if kind == 0 { 0 } else { ret_of(i) }, 0) };
            if s().ops[i].performed != 1 {
                w().abort("early", format!("operation {i} returned before it was performed"));
            }
            if (c.ret, c.errno) != (er, ee) {
                w().abort("wrong", format!("operation {i} returned ({}, {}) instead of ({er}, {ee})", c.ret, c.errno));
            }
            cx().log(|| format!("thread {id}: operation {i} returned"));
            Ok(())
        }
        Err(e) => {
            cx().fault("waiter_interrupted");
            cx().log(|| format!("thread {id}: operation {i} abandoned"));
            if e.class_id() == FATAL {
                w().abort("deadlock", format!("a deadlock was reported to the waiter of operation {i}"));
            }
            Err(e)
        }
    }
}

fn step(vm: &mut Executor, g: &mut Globals, id: u64) -> Result<()> {
    match cx().weighted(&[5, 3, 2, 2, 2, 2]) {
        0 => match offload(vm, g, id) {
            Err(e) if matches!(e.kind(), MonorubyErrKind::Other(_)) && cx().chance(1, 2) => Ok(()),
            r => r,
        },
        1 => {
            w().advance([0, 30 * US, MS, 4 * MS][cx().draw(4) as usize]);
            Ok(())
        }
        2 => scheduler::pass(vm, g),
        3 => {
            if scheduler::has_other_live_threads() {
                let d = [0, 100 * US, 2 * MS][cx().draw(3) as usize];
                scheduler::sleep(vm, g, Some(std::time::Duration::from_nanos(d))).map(|_| ())
            } else {
                w().advance(MS);
                Ok(())
            }
        }
        4 => {
            let n = s().threads.len();
            let t = s().threads[cx().draw(n)];
            if t == scheduler::current_thread(vm) {
                return Ok(());
            }
            let int = if cx().chance(1, 3) && t != scheduler::main_thread(vm) {
                PendingInterrupt::Kill
            } else {
                PendingInterrupt::Raise(MonorubyErr::of(RUNTIME, "interrupted"))
            };
            cx().log(|| format!("thread {id}: interrupt {}", t.id()));
            scheduler::interrupt(vm, g, t, int)
        }
        _ => {
            if s().left > 0 {
                s().left -= 1;
                let n = s().threads.len() as u64;
                let t = Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(n), vec![]));
                s().threads.push(t);
                cx().log(|| format!("thread {id}: start thread {n}"));
                scheduler::spawn(vm, t);
            }
            Ok(())
        }
    }
}

fn idle(_: Option<u64>) {
    for (i, o) in s().ops.iter().enumerate() {
        if o.waiting && o.performed > 0 && w().in_wait && w().os_done(o.os - 1) {
            w().abort("stuck", format!("operation {i} has finished but its caller stays blocked while the process waits"));
        }
    }
}

fn interp() {
    let c = cx();
    unsafe { S0 = Some(S::default()) };
    hooks::set(s());
    w().switch = [0, 16, 64, 160][c.draw(4) as usize];
    w().slice = [1, 3, 8][c.draw(3) as usize];
    w().eintr = [0, 0, 20][c.draw(3) as usize];
    s().read_fault = [0, 0, 30][c.draw(3) as usize];
    s().left = 1 + c.draw(5) as u32;
    let n = [10, 30, 80][c.draw(3)];
    c.set_ops(n);
    w().on_idle = Some(idle);
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    poll_flag::register(word.as_ptr());
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let g: &'static mut Globals = Box::leak(Box::new(Globals::default()));
    let m = scheduler::main_thread(vm);
    s().threads.push(m);
    while s().left > 0 && (s().threads.len() < 2 || cx().chance(1, 2)) {
        s().left -= 1;
        let n = s().threads.len() as u64;
        let t = Value::new_thread(THREAD_CLASS, ThreadInner::new(Proc(n), vec![]));
        s().threads.push(t);
        scheduler::spawn(vm, t);
    }
    while cx().next_op() {
        if let Err(e) = step(vm, g, 0) {
            cx().log(|| format!("main: {}", e.message));
        }
    }
    // everybody ends
    for k in 0..200 {
        if s().threads[1..].iter().all(|t| t.as_thread_inner().is_dead()) {
            break;
        }
        if k == 199 {
            w().abort("stuck", "a thread never ended".into());
        }
        let t = *s().threads[1..].iter().find(|t| !t.as_thread_inner().is_dead()).unwrap();
        if let Err(e) = scheduler::join(vm, g, t, None)
            && e.class_id() == FATAL
        {
            w().abort("deadlock", "a deadlock was reported while operations were under way".into());
        }
    }
    w().on_idle = None;
    w().block(&mut || w().os.iter().all(|o| matches!(o.state, world::OsState::Done)), Some(w().now + 10 * SEC));
    for (i, o) in s().ops.iter().enumerate() {
        if o.performed != 1 {
            w().abort("lost", format!("operation {i} was performed {} times", o.performed));
        }
    }
    let n = simstd::collections::entries();
    if n != 0 {
        w().abort("leak", format!("{n} entries are left behind after everything has finished"));
    }
    cx().probe_n("operations", s().ops.len() as u64);
    cx().state(s().ops.iter().fold(s().hits as u64, |a, o| simcore::mix64(a ^ (o.os as u64 * 4 + o.done as u64))));
    if s().hits > 0 {
        cx().nontrivial();
    }
}

fn run(ctx: &mut Ctx) -> std::result::Result<(), Violation> {
    world::run(ctx, interp)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        isolate: true,
        quick_runs: 250_000,
        quick_secs: 45.0,
        rule: "each operation performed once, its own result to its own caller, no caller blocked after its operation finished, nothing left behind",
        measure: "assignment of operations to workers and outcomes",
        real: &["monoruby/src/native_pool.rs", "monoruby/src/scheduler.rs", "monoruby/src/value/rvalue/thread.rs"],
        stub: &["system calls, OS threads, pipe, clock"],
        assumptions: &["sequentially consistent memory", "a one-byte write to the wake-up pipe succeeds"],
        ..Prop::base("C16", run)
    }]
}

//! The simulated process: which contexts are parked, and the switches
//! between them.
use crate::co;
use crate::*;
use simcore::Ctx;
use std::collections::HashMap;
use std::ptr::NonNull;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Park {
    Running,
    Parked,
    Finished,
    Collected,
}

pub struct Start {
    pub body: usize,
    pub self_val: Value,
    pub args: Vec<Value>,
}

pub struct World {
    pub ctx: *mut Ctx,
    /// Number of the running thread.
    pub thread: i64,
    pub park: HashMap<usize, Park>,
    /// What a switch carries.
    reg: Option<Value>,
    pub start: Option<Start>,
    pub fail: Option<(String, String)>,
    harness: usize,
    pub switches: u64,
    pub root: Box<Executor>,
    pub globals: Globals,
    /// The root program and the bodies of fibers.
    pub program: (fn(), fn(*mut Executor) -> Result<Value>),
}

static mut W: *mut World = std::ptr::null_mut();

pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *w().ctx }
}

impl World {
    /// Leaves every stack for the harness, for good.
    pub fn abort(&mut self, class: &str, msg: String) -> ! {
        if self.fail.is_none() {
            self.fail = Some((class.into(), msg));
        }
        self.leave()
    }

    pub fn leave(&mut self) -> ! {
        let mut dead = 0usize;
        unsafe { co::swap(&mut dead, self.harness) };
        unreachable!()
    }

    fn enter(&mut self, to: *mut Executor) -> usize {
        match self.park.get(&(to as usize)) {
            Some(Park::Parked) => {}
            Some(p) => self.abort("wrong-context", format!("control was switched to a context that is {p:?}")),
            None => self.abort("wrong-context", "control was switched to a context that never ran".into()),
        }
        self.park.insert(to as usize, Park::Running);
        self.switches += 1;
        unsafe { (*to).rsp_save }.map_or(0, |p| p.as_ptr() as usize)
    }

    fn switch(&mut self, vm: *mut Executor, to: *mut Executor, reg: Option<Value>) -> Option<Value> {
        let sp = self.enter(to);
        self.park.insert(vm as usize, Park::Parked);
        self.reg = reg;
        unsafe { co::swap(&raw mut (*vm).rsp_save as *mut usize, sp) };
        w().reg.take()
    }
}

extern "C" fn resume_raw(vm: *mut Executor, child: &mut Executor, val: u64) -> Option<Value> {
    child.parent_fiber = NonNull::new(vm);
    w().switch(vm, child, unsafe { std::mem::transmute::<u64, Option<Value>>(val) })
}

extern "C" fn transfer_raw(vm: *mut Executor, child: &mut Executor, val: u64) -> Option<Value> {
    w().switch(vm, child, unsafe { std::mem::transmute::<u64, Option<Value>>(val) })
}

pub extern "C" fn yield_fiber(vm: *mut Executor, val: Value) -> Option<Value> {
    match unsafe { (*vm).parent_fiber } {
        Some(p) => w().switch(vm, p.as_ptr(), Some(val)),
        None => w().abort("wrong-context", "a fiber without a resumer was made to yield".into()),
    }
}

pub type Switch = extern "C" fn(*mut Executor, &mut Executor, Value) -> Option<Value>;
type RawSwitch = extern "C" fn(*mut Executor, &mut Executor, u64) -> Option<Value>;

pub fn resume_fiber() -> Switch {
    unsafe { std::mem::transmute(resume_raw as RawSwitch) }
}

pub fn transfer_fiber() -> Switch {
    unsafe { std::mem::transmute(transfer_raw as RawSwitch) }
}

fn first(
    vm: &mut Executor,
    proc: &ProcData,
    self_val: Value,
    args: *const Value,
    len: usize,
    child: &mut Executor,
    resumed: bool,
) -> Option<Value> {
    let w = w();
    if w.park.contains_key(&(child as *mut Executor as usize)) {
        w.abort("wrong-context", "a fiber's body was started twice".into());
    }
    if resumed {
        child.parent_fiber = NonNull::new(vm);
    }
    let args = if len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(args, len) }.to_vec() };
    w.start = Some(Start { body: proc.0, self_val, args });
    let Some(top) = child.rsp_save else { w.abort("wrong-context", "a fiber was started without a stack".into()) };
    if let Err(e) = crate::mem::guarded_stack(top.as_ptr() as usize) {
        w.abort("stack", e);
    }
    if child.limit != top.as_ptr() as usize {
        w.abort("stack", "the stack limit of the fiber is not that of its stack".into());
    }
    w.park.insert(child as *mut Executor as usize, Park::Running);
    w.park.insert(vm as *mut Executor as usize, Park::Parked);
    w.switches += 1;
    unsafe {
        let sp = co::frame(top.as_ptr() as usize, body_entry, child as *mut Executor as usize);
        co::swap(&raw mut vm.rsp_save as *mut usize, sp);
    }
    crate::world::w().reg.take()
}

extern "C" fn body_entry(child: usize) {
    let child = child as *mut Executor;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (crate::world::w().program.1)(child)));
    let w = w();
    let Ok(r) = r else { w.abort("panic", format!("panicked: {}", simcore::last_panic())) };
    let reg = match r {
        Ok(v) => Some(v),
        Err(e) => {
            unsafe { (*child).set_error(e) };
            None
        }
    };
    w.park.insert(child as usize, Park::Finished);
    let to = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fiber_on_terminate(unsafe { &mut *child })));
    let Ok(to) = to else { w.abort("panic", format!("panicked: {}", simcore::last_panic())) };
    let sp = w.enter(to);
    w.reg = reg;
    let mut dead = 0usize;
    unsafe { co::swap(&mut dead, sp) };
    unreachable!();
}

pub extern "C" fn invoke(
    vm: &mut Executor,
    _: &mut Globals,
    p: &ProcData,
    s: Value,
    a: *const Value,
    n: usize,
    child: &mut Executor,
) -> Option<Value> {
    first(vm, p, s, a, n, child, true)
}

pub extern "C" fn invoke_transfer(
    vm: &mut Executor,
    _: &mut Globals,
    p: &ProcData,
    s: Value,
    a: *const Value,
    n: usize,
    child: &mut Executor,
) -> Option<Value> {
    first(vm, p, s, a, n, child, false)
}

extern "C" fn root_entry(_: usize) {
    if std::panic::catch_unwind(w().program.0).is_err() {
        w().abort("panic", format!("panicked: {}", simcore::last_panic()));
    }
    w().leave()
}

/// Runs the root program on its own stack.
pub fn run(ctx: &mut Ctx, program: (fn(), fn(*mut Executor) -> Result<Value>)) -> Box<World> {
    let mut world = Box::new(World {
        ctx,
        program,
        thread: 1,
        park: HashMap::new(),
        reg: None,
        start: None,
        fail: None,
        harness: 0,
        switches: 0,
        root: Box::new(Executor::default()),
        globals: Globals {
            store: Store::default(),
            invokers: Invokers { fiber: invoke, fiber_with_self: invoke, fiber_transfer: invoke_transfer },
            root_fiber_objs: vec![],
        },
    });
    let root = &mut *world.root as *mut Executor as usize;
    world.park.insert(root, Park::Running);
    unsafe {
        W = &mut *world;
        let sp = co::frame(co::root_stack(), root_entry, 0);
        co::swap(&mut world.harness, sp);
    }
    world
}

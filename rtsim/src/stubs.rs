//! Stand-ins for the parts of the interpreter the runtime modules refer to:
//! values, exceptions, classes, executors and the context switch stubs.
use crate::alloc::{Allocator, GC, GCRoot};
use crate::co::Co;
use crate::value::rvalue::ThreadInner;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ptr::NonNull;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Value(u64);

pub enum Obj {
    Thread(Box<ThreadInner>),
    Str(String),
    Exc(ExceptionInner),
    Class(ClassId),
    Plain,
    Proc(u64),
    // values of the Ruby code of the thread library
    Arr(Vec<Value>),
    Flt(f64),
    Sym(&'static str),
    Hash(Vec<(Value, Value)>),
    Inst(ClassId),
    Closure(std::rc::Rc<crate::rb::Block>),
}

static mut HEAP: Vec<Box<Obj>> = Vec::new();

#[allow(static_mut_refs)]
fn heap() -> &'static mut Vec<Box<Obj>> {
    unsafe { &mut HEAP }
}

const NIL: u64 = 4;
const FALSE: u64 = 12;
const TRUE: u64 = 20;

impl Default for Value {
    fn default() -> Self {
        Value(NIL)
    }
}

impl Value {
    pub fn alloc(o: Obj) -> Value {
        heap().push(Box::new(o));
        Value(heap().len() as u64 * 64)
    }
    pub fn obj(&self) -> Option<&'static mut Obj> {
        if self.0 % 64 == 0 && self.0 > 0 { heap().get_mut(self.0 as usize / 64 - 1).map(|b| &mut **b) } else { None }
    }
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn nil() -> Value {
        Value(NIL)
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { TRUE } else { FALSE })
    }
    pub fn integer(i: i64) -> Value {
        Value(((i as u64) << 1) | 1)
    }
    pub fn as_i64(&self) -> i64 {
        (self.0 as i64) >> 1
    }
    pub fn object(_: ClassId) -> Value {
        Value::alloc(Obj::Plain)
    }
    pub fn string(s: String) -> Value {
        Value::alloc(Obj::Str(s))
    }
    pub fn new_thread(_: ClassId, t: ThreadInner) -> Value {
        Value::alloc(Obj::Thread(Box::new(t)))
    }
    pub fn as_thread_inner(&self) -> &'static ThreadInner {
        self.as_thread_inner_mut2()
    }
    fn as_thread_inner_mut2(&self) -> &'static mut ThreadInner {
        match self.obj() {
            Some(Obj::Thread(t)) => t,
            _ => panic!("not a thread"),
        }
    }
    pub fn as_thread_inner_mut(&mut self) -> &'static mut ThreadInner {
        self.as_thread_inner_mut2()
    }
    pub fn is_nil(&self) -> bool {
        self.0 == NIL
    }
    pub fn as_bool(&self) -> bool {
        self.0 != NIL && self.0 != FALSE
    }
    pub fn is_str(&self) -> Option<&'static str> {
        match self.obj() {
            Some(Obj::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn is_exception(&self) -> Option<&'static ExceptionInner> {
        match self.obj() {
            Some(Obj::Exc(e)) => Some(e),
            _ => None,
        }
    }
    pub fn is_class_or_module(&self) -> Option<Module> {
        match self.obj() {
            Some(Obj::Class(c)) => Some(Module(*c)),
            _ => None,
        }
    }
}

impl GC<RValue> for Value {
    fn mark(&self, a: &mut Allocator<RValue>) {
        if let Some(o) = self.obj()
            && a.see(self.0)
            && let Obj::Thread(t) = o
        {
            t.mark(a);
        }
    }
}

pub struct RValue;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ClassId(pub u32);
pub const OBJECT_CLASS: ClassId = ClassId(1);
pub const THREAD_CLASS: ClassId = ClassId(2);
pub const EXCEPTION: ClassId = ClassId(3);
pub const STANDARD: ClassId = ClassId(4);
pub const RUNTIME: ClassId = ClassId(5);
pub const ARGUMENT: ClassId = ClassId(6);
pub const TYPE: ClassId = ClassId(7);
pub const IOERR: ClassId = ClassId(8);
pub const THREADERR: ClassId = ClassId(9);
pub const FATAL: ClassId = ClassId(10);
pub const INTERRUPT: ClassId = ClassId(11);
pub const SIGNAL: ClassId = ClassId(12);
pub const SYSEXIT: ClassId = ClassId(13);
pub const JUMP: ClassId = ClassId(14);
pub const THROW: ClassId = ClassId(15);

impl ClassId {
    pub fn superclass(self) -> Option<ClassId> {
        Some(match self {
            OBJECT_CLASS => return None,
            THREAD_CLASS | EXCEPTION => OBJECT_CLASS,
            STANDARD | FATAL | SIGNAL | SYSEXIT => EXCEPTION,
            INTERRUPT => SIGNAL,
            c if c.0 >= 16 => crate::rb::superclass(c),
            _ => STANDARD,
        })
    }
    pub fn is_a(self, o: ClassId) -> bool {
        let mut c = Some(self);
        while let Some(x) = c {
            if x == o {
                return true;
            }
            c = x.superclass();
        }
        false
    }
    /// The class object.
    pub fn val(self) -> Value {
        thread_local!(static M: RefCell<HashMap<u32, Value>> = RefCell::new(HashMap::new()));
        M.with(|m| *m.borrow_mut().entry(self.0).or_insert_with(|| Value::alloc(Obj::Class(self))))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Module(ClassId);
impl Module {
    pub fn id(&self) -> ClassId {
        self.0
    }
    pub fn superclass(&self) -> Option<Module> {
        self.0.superclass().map(Module)
    }
    pub fn as_val(&self) -> Value {
        self.0.val()
    }
}

#[derive(Debug)]
pub struct ExceptionInner {
    pub class: ClassId,
    pub msg: String,
    /// What calling `exception` on it does.
    pub how: ExcHow,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExcHow {
    Itself,
    Other,
    NotAnException,
    Raises,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IdentId(&'static str);
impl IdentId {
    pub fn get_id(s: &'static str) -> IdentId {
        IdentId(s)
    }
    pub fn name(&self) -> &'static str {
        self.0
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Loc;
#[derive(Clone, Debug)]
pub struct SourceInfoRef;
#[derive(Clone, Copy, Debug)]
pub struct FuncId;

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErrKind {
    Throw(Value, Value),
    SystemExit(i64),
    MethodReturn(Value),
    BlockBreak(Value),
    Other(ClassId),
}

#[derive(Clone, Debug)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub message: String,
    pub trace: Vec<(Option<(Loc, SourceInfoRef)>, Option<FuncId>)>,
    pub original: Option<Value>,
    pub explicit_cause: Option<Value>,
}

impl GC<RValue> for MonorubyErr {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}

impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, m: impl Into<String>) -> Self {
        MonorubyErr { kind, message: m.into(), trace: vec![], original: None, explicit_cause: None }
    }
    pub fn of(c: ClassId, m: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::Other(c), m)
    }
    pub fn threaderr(_: &Store, m: impl Into<String>) -> Self {
        Self::of(THREADERR, m)
    }
    pub fn fatal(m: impl Into<String>) -> Self {
        Self::of(FATAL, m)
    }
    pub fn ioerr(m: impl Into<String>) -> Self {
        Self::of(IOERR, m)
    }
    pub fn typeerr(m: impl Into<String>) -> Self {
        Self::of(TYPE, m)
    }
    pub fn localjumperr(m: impl Into<String>) -> Self {
        Self::of(JUMP, m)
    }
    pub fn interrupt(m: impl Into<String>) -> Self {
        Self::of(INTERRUPT, m)
    }
    pub fn signalexception(m: impl Into<String>) -> Self {
        Self::of(SIGNAL, m)
    }
    pub fn throw(tag: Value, v: Value) -> Self {
        Self::new(MonorubyErrKind::Throw(tag, v), "throw")
    }
    pub fn new_from_exception(e: &ExceptionInner) -> Self {
        Self::of(e.class, e.msg.clone())
    }
    pub fn with_original(mut self, v: Value) -> Self {
        self.original = Some(v);
        self
    }
    pub fn class_id(&self) -> ClassId {
        match &self.kind {
            MonorubyErrKind::Other(c) => *c,
            MonorubyErrKind::SystemExit(_) => SYSEXIT,
            MonorubyErrKind::Throw(..) => THROW,
            _ => JUMP,
        }
    }
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn class_name(&self, _: &Store) -> String {
        format!("C{}", self.class_id().0)
    }
}

#[derive(Default)]
pub struct Store {
    ivars: HashMap<(u64, IdentId), Value>,
}
impl Store {
    pub fn get_module(&self, c: ClassId) -> Module {
        Module(c)
    }
    pub fn get_ivar(&self, v: Value, i: IdentId) -> Option<Value> {
        self.ivars.get(&(v.id(), i)).copied()
    }
    pub fn set_ivar(&mut self, v: Value, i: IdentId, x: Value) {
        self.ivars.insert((v.id(), i), x);
    }
    pub fn location(&self, _: Option<FuncId>, _: &SourceInfoRef, _: Loc) -> String {
        "loc".into()
    }
    pub fn internal_location(&self, _: FuncId) -> String {
        "internal".into()
    }
}

#[derive(Default)]
pub struct Globals {
    pub store: Store,
}
impl Globals {
    pub fn get_gvar(&self, _: IdentId) -> Option<Value> {
        Some(Value::nil())
    }
    pub(crate) fn signal_disposition(&self, signo: i32) -> crate::codegen::signal_table::SignalDisposition {
        crate::hooks::disposition(signo)
    }
}
impl GC<RValue> for Globals {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FiberState {
    Created,
    Suspended,
    Terminated,
}

#[derive(Clone, Debug)]
pub struct Proc(pub u64);
impl GC<RValue> for Proc {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}

pub struct ProcData(pub u64);
pub struct Outer;
impl ProcData {
    pub fn from_proc(p: &Proc) -> Self {
        ProcData(p.0)
    }
    pub fn outer(&self) -> Outer {
        Outer
    }
}

pub struct Executor {
    pub err: Option<MonorubyErr>,
    pub state: FiberState,
    pub co: Option<Box<Co>>,
    passed: u64,
    ret: Option<Value>,
    pub parent_fiber: Option<NonNull<Executor>>,
    pub id: u64,
}
impl Default for Executor {
    fn default() -> Self {
        thread_local!(static N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
        let id = N.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        Executor { err: None, state: FiberState::Created, co: None, passed: 0, ret: None, parent_fiber: None, id }
    }
}
impl std::fmt::Debug for Executor {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Executor")
    }
}
impl GC<RValue> for Executor {
    fn mark(&self, a: &mut Allocator<RValue>) {
        a.execs.push(self.id);
    }
}
impl Executor {
    pub fn parent_fiber(&self) -> Option<NonNull<Executor>> {
        self.parent_fiber
    }
    pub fn thread_root(&self) -> Option<NonNull<Executor>> {
        None
    }
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.err = Some(e);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.err.take().expect("no error set")
    }
    pub fn fiber_state(&self) -> FiberState {
        self.state
    }
    pub fn save_rsp(&mut self, _: *mut u8) {}
    pub fn set_stack_limit(&mut self, _: *mut u8) {}
    pub fn set_inherited_storage(&mut self, _: Value) {}
    pub fn enter_root_svar_scope(&mut self, _: Outer) {}
    pub fn invoke_method_inner(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<Value> {
        crate::hooks::invoke(self, globals, name.name(), recv, args)
    }
}

/// How often control went to or came from a green thread.
pub static mut SWITCHES: u64 = 0;

pub struct Codegen {
    pub thread_invoker: fn(&mut Executor, &mut Globals, &ProcData, Value, *const Value, usize) -> Option<Value>,
    pub switch_to_scheduler: fn(*mut Executor, Value) -> Option<Value>,
    pub scheduler_resume: fn(*mut Executor, u64) -> Option<Value>,
}
thread_local! {
    pub static CODEGEN: RefCell<Codegen> = const { RefCell::new(Codegen {
        thread_invoker,
        switch_to_scheduler,
        scheduler_resume,
    }) };
}

fn leave(exec: *mut Executor) -> Option<Value> {
    let e = unsafe { &mut *exec };
    if e.co.as_ref().unwrap().done {
        e.co = None;
        e.state = FiberState::Terminated;
    }
    e.ret
}

fn thread_invoker(e: &mut Executor, g: &mut Globals, p: &ProcData, _: Value, args: *const Value, n: usize) -> Option<Value> {
    unsafe { SWITCHES += 1 };
    let args = unsafe { std::slice::from_raw_parts(args, n) }.to_vec();
    let (ep, gp, id) = (e as *mut Executor, g as *mut Globals, p.0);
    e.state = FiberState::Suspended;
    e.co = Some(Co::new(move || {
        let e = unsafe { &mut *ep };
        match crate::hooks::body(e, unsafe { &mut *gp }, id, args) {
            Ok(v) => e.ret = Some(v),
            Err(err) => {
                e.set_error(err);
                e.ret = None;
            }
        }
    }));
    let co: *mut Co = &mut **e.co.as_mut().unwrap();
    unsafe { (*co).resume() };
    leave(ep)
}

fn switch_to_scheduler(exec: *mut Executor, v: Value) -> Option<Value> {
    let e = unsafe { &mut *exec };
    e.ret = Some(v);
    let Some(co) = e.co.as_mut() else {
        crate::world::w().abort("context", "the main thread was parked as a green thread".into());
    };
    let co: *mut Co = &mut **co;
    unsafe { (*co).suspend() };
    let e = unsafe { &mut *exec };
    if e.passed == 0 { None } else { Some(Value::nil()) }
}

fn scheduler_resume(exec: *mut Executor, v: u64) -> Option<Value> {
    unsafe { SWITCHES += 1 };
    let e = unsafe { &mut *exec };
    e.passed = v;
    let Some(co) = e.co.as_mut() else {
        crate::world::w().abort("context", "a context that is not suspended was resumed".into());
    };
    let co: *mut Co = &mut **co;
    unsafe { (*co).resume() };
    leave(exec)
}

pub struct Root<'a, 'b> {
    pub globals: &'a Globals,
    pub executor: &'b Executor,
}
impl GC<RValue> for Root<'_, '_> {
    fn mark(&self, a: &mut Allocator<RValue>) {
        self.globals.mark(a);
        self.executor.mark(a);
        crate::scheduler::mark(a);
    }
}
impl GCRoot<RValue> for Root<'_, '_> {}

//! Stand-ins for the parts of the interpreter the fiber code refers to.
use crate::alloc::{Allocator, GC};
use crate::value::rvalue::enumerator::{EnumeratorInner, GeneratorInner};
use crate::value::rvalue::fiber::FiberInner;
use std::num::NonZeroU64;
use std::ptr::NonNull;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[repr(transparent)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Value(NonZeroU64);

pub enum Obj {
    Fiber(Box<FiberInner>),
    Enumerator(Box<EnumeratorInner>),
    Generator(Box<GeneratorInner>),
    Array(Vec<Value>),
    Hash(Vec<(Value, Value)>),
    Plain,
}

static mut HEAP: Vec<Obj> = Vec::new();

#[allow(static_mut_refs)]
pub fn heap() -> &'static mut Vec<Obj> {
    unsafe { &mut HEAP }
}

const NIL: u64 = 4;
const FALSE: u64 = 12;
const TRUE: u64 = 20;

impl Default for Value {
    fn default() -> Self {
        Value::nil()
    }
}

fn raw(v: u64) -> Value {
    Value(NonZeroU64::new(v).unwrap())
}

impl Value {
    fn alloc(o: Obj) -> Value {
        heap().push(o);
        raw(heap().len() as u64 * 64)
    }
    fn obj(&self) -> Option<&'static mut Obj> {
        let v = self.0.get();
        if v % 64 == 0 { heap().get_mut(v as usize / 64 - 1) } else { None }
    }
    pub fn id(&self) -> u64 {
        self.0.get()
    }
    pub fn nil() -> Value {
        raw(NIL)
    }
    pub fn is_nil(&self) -> bool {
        self.0.get() == NIL
    }
    pub fn bool(b: bool) -> Value {
        raw(if b { TRUE } else { FALSE })
    }
    pub fn as_bool(&self) -> bool {
        self.0.get() != NIL && self.0.get() != FALSE
    }
    pub fn integer(i: i64) -> Value {
        raw(((i as u64) << 1) | 1)
    }
    pub fn try_int(&self) -> Option<i64> {
        (self.0.get() & 1 == 1).then_some((self.0.get() as i64) >> 1)
    }
    pub fn symbol(id: IdentId) -> Value {
        raw(id.0 as u64 * 64 + 36)
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        (self.0.get() % 64 == 36).then_some(IdentId((self.0.get() / 64) as u32))
    }
    pub fn is_str(&self) -> Option<&'static str> {
        None
    }
    pub fn coerce_to_symbol_or_string(&self, _: &mut Executor, _: &mut Globals) -> Result<IdentId> {
        Err(MonorubyErr::typeerr("not a symbol"))
    }
    pub fn hash(_: RubyMap) -> Value {
        Value::alloc(Obj::Hash(vec![]))
    }
    pub fn entries(&self) -> Option<&'static mut Vec<(Value, Value)>> {
        match self.obj() {
            Some(Obj::Hash(h)) => Some(h),
            _ => None,
        }
    }
    pub fn dup(&self) -> Value {
        match self.entries() {
            Some(h) => Value::alloc(Obj::Hash(h.clone())),
            None => match self.try_array() {
                Some(a) => Value::alloc(Obj::Array(a.to_vec())),
                None => *self,
            },
        }
    }
    pub fn is_frozen(&self) -> bool {
        false
    }
    pub fn is_exception(&self) -> Option<()> {
        None
    }
    pub fn try_hash_ty(&self) -> Option<HashStub> {
        self.entries().map(|_| HashStub(*self))
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        String::new()
    }
    pub fn as_class_id(&self) -> ClassId {
        FIBER_CLASS
    }
    pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Value {
        Value::alloc(Obj::Array(i.collect()))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        Value::alloc(Obj::Array(v))
    }
    pub fn as_array(&self) -> Array {
        assert!(matches!(self.obj(), Some(Obj::Array(_))), "not an array");
        Array(*self)
    }
    pub fn try_array(&self) -> Option<&'static [Value]> {
        match self.obj() {
            Some(Obj::Array(a)) => Some(a),
            _ => None,
        }
    }
    pub fn plain() -> Value {
        Value::alloc(Obj::Plain)
    }
    pub fn new_fiber(f: FiberInner) -> Value {
        Value::alloc(Obj::Fiber(Box::new(f)))
    }
    pub fn new_fiber_with_class(f: FiberInner, _: ClassId) -> Value {
        Value::new_fiber(f)
    }
    pub fn ty(&self) -> Option<ObjTy> {
        match self.obj() {
            Some(Obj::Fiber(_)) => Some(ObjTy::FIBER),
            Some(Obj::Enumerator(_)) => Some(ObjTy::ENUMERATOR),
            Some(Obj::Generator(_)) => Some(ObjTy::GENERATOR),
            _ => None,
        }
    }
    pub fn fiber_inner(&self) -> &'static mut FiberInner {
        match self.obj() {
            Some(Obj::Fiber(f)) => f,
            _ => panic!("not a fiber"),
        }
    }
}

impl Value {
    pub fn new_enum(e: EnumeratorInner) -> Value {
        Value::alloc(Obj::Enumerator(Box::new(e)))
    }
    pub fn enumerator_inner(&self) -> &'static mut EnumeratorInner {
        match self.obj() {
            Some(Obj::Enumerator(e)) => e,
            _ => panic!("not an enumerator"),
        }
    }
    pub fn generator_inner(&self) -> &'static mut GeneratorInner {
        match self.obj() {
            Some(Obj::Generator(e)) => e,
            _ => panic!("not a generator"),
        }
    }
    pub fn yielder_object() -> Value {
        Value::plain()
    }
    pub fn elements(&self) -> Option<&'static mut Vec<Value>> {
        match self.obj() {
            Some(Obj::Array(a)) => Some(a),
            _ => None,
        }
    }
}

impl GC<RValue> for Value {
    fn mark(&self, a: &mut Allocator<RValue>) {
        a.values.push(self.id());
    }
}

impl GC<RValue> for Array {
    fn mark(&self, a: &mut Allocator<RValue>) {
        self.0.mark(a);
        self.iter().for_each(|v| v.mark(a));
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Hashmap;
impl GC<RValue> for Hashmap {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}

pub const YIELDER_FUNCID: FuncId = FuncId(2);
pub struct BlockHandler;
impl BlockHandler {
    pub fn from_current(_: FuncId) -> BlockHandler {
        BlockHandler
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ObjTy(u8);
impl ObjTy {
    pub const FIBER: ObjTy = ObjTy(16);
    pub const ENUMERATOR: ObjTy = ObjTy(17);
    pub const GENERATOR: ObjTy = ObjTy(18);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Array(Value);
impl Array {
    pub fn peel(self) -> Value {
        if self.len() == 0 {
            Value::nil()
        } else if self.len() == 1 {
            self[0]
        } else {
            self.0
        }
    }
}
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        self.0.try_array().unwrap()
    }
}

#[derive(Default)]
pub struct RubyMap;

pub struct HashStub(Value);
impl HashStub {
    fn e(&self) -> &'static mut Vec<(Value, Value)> {
        self.0.entries().unwrap()
    }
    pub fn len(&self) -> usize {
        self.e().len()
    }
    pub fn keys(&self) -> Vec<Value> {
        self.e().iter().map(|x| x.0).collect()
    }
    pub fn get(&self, k: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        Ok(self.e().iter().find(|x| x.0 == k).map(|x| x.1))
    }
    pub fn insert(&mut self, k: Value, v: Value, _: &mut Executor, _: &mut Globals) -> Result<()> {
        match self.e().iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v,
            None => self.e().push((k, v)),
        }
        Ok(())
    }
    pub fn remove(&mut self, k: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        let i = self.e().iter().position(|x| x.0 == k);
        Ok(i.map(|i| self.e().remove(i).1))
    }
}

pub struct RValue;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ClassId(pub u32);
pub const FIBER_CLASS: ClassId = ClassId(1);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct FuncId(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IdentId(pub u32);
impl IdentId {
    pub const TO_STR: IdentId = IdentId(0);
    pub const EACH: IdentId = IdentId(1);
    pub fn get_id(s: &str) -> IdentId {
        let mut h = 17u32;
        for b in s.bytes() {
            h = h.wrapping_mul(31).wrapping_add(b as u32);
        }
        IdentId(h)
    }
}

/// A block: the number of the body it stands for.
#[derive(Clone, Copy, Debug)]
pub struct Proc(pub usize);
impl Proc {
    pub fn func_id(&self) -> FuncId {
        FuncId(self.0 as u32)
    }
}
impl GC<RValue> for Proc {
    fn mark(&self, a: &mut Allocator<RValue>) {
        a.procs.push(self.0);
    }
}

pub struct ProcData(pub usize);
impl ProcData {
    pub fn from_proc(p: &Proc) -> ProcData {
        ProcData(p.0)
    }
    pub fn outer(&self) -> Option<Lfp> {
        None
    }
}

#[derive(Clone, Copy)]
pub struct BytecodePtr;

pub struct Frame {
    pub self_val: Value,
    pub args: Vec<Option<Value>>,
    pub block: Option<usize>,
}

#[derive(Clone, Copy)]
pub struct Lfp(pub NonNull<Frame>);
impl Lfp {
    fn f(&self) -> &Frame {
        unsafe { self.0.as_ref() }
    }
    pub fn arg(&self, i: usize) -> Value {
        self.f().args[i].unwrap()
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.f().args.get(i).copied().flatten()
    }
    pub fn self_val(&self) -> Value {
        self.f().self_val
    }
    pub fn block(&self) -> Option<usize> {
        self.f().block
    }
    pub fn expect_block(&self) -> Result<usize> {
        self.f().block.ok_or_else(|| MonorubyErr::argumenterr("no block"))
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MonorubyErrKind {
    Fiber,
    FiberKill,
    StopIteration,
    Argument,
    User(i64),
}

#[derive(Clone, Debug)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub msg: String,
    pub explicit_cause: Option<Value>,
    pub result: Option<Value>,
    pub original: Option<Value>,
}

impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, msg: impl Into<String>) -> Self {
        MonorubyErr { kind, msg: msg.into(), explicit_cause: None, result: None, original: None }
    }
    pub fn fibererr(msg: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::Fiber, msg)
    }
    pub fn stopiterationerr(msg: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::StopIteration, msg)
    }
    pub fn stopiterationerr_with_result(msg: impl Into<String>, v: Value) -> Self {
        let mut e = Self::new(MonorubyErrKind::StopIteration, msg);
        e.result = Some(v);
        e
    }
    pub fn argumenterr(msg: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::Argument, msg)
    }
    pub fn typeerr(msg: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::Argument, msg)
    }
    pub fn frozenerr(msg: impl Into<String>) -> Self {
        Self::new(MonorubyErrKind::Argument, msg)
    }
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
}

pub type FiberInvoker =
    extern "C" fn(&mut Executor, &mut Globals, &ProcData, Value, *const Value, usize, &mut Executor) -> Option<Value>;

pub struct Invokers {
    pub fiber: FiberInvoker,
    pub fiber_with_self: FiberInvoker,
    pub fiber_transfer: FiberInvoker,
}

#[derive(Default)]
pub struct Store(std::collections::HashMap<(Value, IdentId), Value>);
impl Store {
    pub fn set_ivar(&mut self, o: Value, id: IdentId, v: Value) -> Result<()> {
        self.0.insert((o, id), v);
        Ok(())
    }
    pub fn get_ivar(&self, o: Value, id: IdentId) -> Option<Value> {
        self.0.get(&(o, id)).copied()
    }
}

impl Globals {
    pub fn check_method(&self, _: Value, _: IdentId) -> Option<FuncId> {
        None
    }
}

pub struct Globals {
    pub store: Store,
    pub invokers: Invokers,
    pub root_fiber_objs: Vec<Value>,
}

pub struct Codegen {
    pub resume_fiber: extern "C" fn(*mut Executor, &mut Executor, Value) -> Option<Value>,
    pub transfer_fiber: extern "C" fn(*mut Executor, &mut Executor, Value) -> Option<Value>,
    pub yield_fiber: extern "C" fn(*mut Executor, Value) -> Option<Value>,
}

thread_local! {
    pub static CODEGEN: std::cell::RefCell<Codegen> = std::cell::RefCell::new(Codegen {
        resume_fiber: crate::world::resume_fiber(),
        transfer_fiber: crate::world::transfer_fiber(),
        yield_fiber: crate::world::yield_fiber,
    });
}

#[derive(Debug, PartialEq)]
pub enum FiberState {
    Created,
    Suspended,
    Terminated,
}

#[derive(Debug)]
pub struct Executor {
    pub rsp_save: Option<NonNull<u8>>,
    pub parent_fiber: Option<NonNull<Executor>>,
    pub(crate) current_fiber: Option<Value>,
    pub(crate) resuming_fiber: Option<NonNull<Executor>>,
    pub(crate) return_to: Option<NonNull<Executor>>,
    pub(crate) yielding: bool,
    pub(crate) transferred: bool,
    pub(crate) fiber_blocking: bool,
    pub(crate) killed: bool,
    pub(crate) thread_root: Option<NonNull<Executor>>,
    pub(crate) root_fiber_obj: Option<Value>,
    pub(crate) inherited_storage: Option<Value>,
    pub(crate) exception: Option<MonorubyErr>,
    pub(crate) limit: usize,
}

impl Default for Executor {
    fn default() -> Self {
        Executor {
            rsp_save: None,
            parent_fiber: None,
            current_fiber: None,
            resuming_fiber: None,
            return_to: None,
            yielding: false,
            transferred: false,
            fiber_blocking: true,
            killed: false,
            thread_root: None,
            root_fiber_obj: None,
            inherited_storage: None,
            exception: None,
            limit: 0,
        }
    }
}

impl Executor {
    pub fn parent_fiber(&self) -> Option<NonNull<Executor>> {
        self.parent_fiber
    }
    pub fn current_fiber(&self) -> Option<Value> {
        self.current_fiber
    }
    pub fn set_current_fiber(&mut self, v: Value) {
        self.current_fiber = Some(v);
    }
    pub fn set_stack_limit(&mut self, top: *const u8) {
        self.limit = top as usize;
    }
    pub fn invoke_method_if_exists(
        &mut self,
        _: &mut Globals,
        _: IdentId,
        obj: Value,
        _: &[Value],
        _: Option<BlockHandler>,
        _: Option<Hashmap>,
    ) -> Result<Option<Value>> {
        crate::enu::source_rewind(obj)
    }
    pub fn invoke_method_inner(
        &mut self,
        _: &mut Globals,
        m: IdentId,
        obj: Value,
        args: &[Value],
        _: Option<BlockHandler>,
        _: Option<Hashmap>,
    ) -> Result<Value> {
        crate::enu::produce(self, obj, m, args)
    }
    pub fn invoke_block_once(&mut self, _: &mut Globals, bh: usize, args: &[Value]) -> Result<Value> {
        crate::fib::in_block(bh, args)
    }
    pub fn enter_root_svar_scope(&mut self, _: Option<Lfp>) {}
    pub fn errinfo(&self) -> Value {
        Value::nil()
    }
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.exception = Some(e);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        match self.exception.take() {
            Some(e) => e,
            None => panic!("no error to take"),
        }
    }
    pub fn generate_proc(&mut self, _: &mut Globals, bh: usize, _: BytecodePtr) -> Result<Proc> {
        Ok(Proc(bh))
    }
}

impl GC<RValue> for Executor {
    fn mark(&self, a: &mut Allocator<RValue>) {
        a.execs.push(self as *const Executor as usize);
    }
}

include!(concat!(env!("OUT_DIR"), "/executor.rs"));

impl From<Array> for Value {
    fn from(a: Array) -> Value {
        a.0
    }
}
impl Array {
    pub fn dup(&self) -> Array {
        Array(self.0.dup())
    }
}
impl Array {
    pub fn new_from_vec(v: Vec<Value>) -> Array {
        Array(Value::array_from_vec(v))
    }
}

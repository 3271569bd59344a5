//! Values and the parts of the interpreter the copied modules name.
use crate::*;
pub use crate::alloc::{Allocator, GC, GCBox, GCRoot};
pub use std::num::NonZeroU64;

pub mod rvalue;
pub use rvalue::*;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

/// A seeded digest; half of the runs let most digests collide.
#[derive(Debug)]
pub struct SimState {
    tok: Token,
}
thread_local! {
    pub static COARSE: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
    pub static MAP_STATES: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl Default for SimState {
    fn default() -> Self {
        MAP_STATES.with(|m| m.set(m.get() + 1));
        SimState { tok: Token::none() }
    }
}
impl Clone for SimState {
    fn clone(&self) -> Self {
        SimState::default()
    }
}
impl Drop for SimState {
    fn drop(&mut self) {
        MAP_STATES.with(|m| m.set(m.get() - 1));
    }
}
pub struct SimHasher(u64);
impl std::hash::BuildHasher for SimState {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher(0x9e37)
    }
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = simcore::mix64(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = simcore::mix64(self.0 ^ x);
    }
    fn finish(&self) -> u64 {
        self.0 & COARSE.with(|c| c.get())
    }
}

pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr, SimState>;
pub fn map_with_capacity<K, V>(n: usize) -> RubyMap<K, V> {
    RubyMap::with_capacity_and_hasher(n, SimState::default())
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct ClassId(std::num::NonZeroU32);
impl ClassId {
    pub const fn new(n: u32) -> Self {
        ClassId(std::num::NonZeroU32::new(n).unwrap())
    }
    pub const fn u32(&self) -> u32 {
        self.0.get()
    }
}
pub const OBJECT_CLASS: ClassId = ClassId::new(1);
pub const NIL_CLASS: ClassId = ClassId::new(2);
pub const TRUE_CLASS: ClassId = ClassId::new(3);
pub const FALSE_CLASS: ClassId = ClassId::new(4);
pub const SYMBOL_CLASS: ClassId = ClassId::new(5);
pub const HASH_CLASS: ClassId = ClassId::new(6);
pub const STRING_CLASS: ClassId = ClassId::new(7);
pub const ARRAY_CLASS: ClassId = ClassId::new(8);
pub const PROC_CLASS: ClassId = ClassId::new(9);
pub const RATIONAL_CLASS: ClassId = ClassId::new(10);
pub const COMPLEX_CLASS: ClassId = ClassId::new(11);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IvarId(pub u32);
impl IvarId {
    pub fn get(&self) -> u32 {
        self.0
    }
    pub fn into_usize(&self) -> usize {
        self.0 as usize
    }
    pub fn is_inline(&self) -> bool {
        (self.0 as usize) < OBJECT_INLINE_IVAR
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Value(NonZeroU64);

impl Default for Value {
    fn default() -> Self {
        Value::nil()
    }
}
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if let Some(i) = self.try_fixnum() {
            write!(f, "{i}")
        } else {
            write!(f, "v{:x}", self.id())
        }
    }
}

const NIL: u64 = 4;
const FALSE: u64 = 0x14;
const TRUE: u64 = 0x1c;

impl Value {
    pub const fn from_u64(w: u64) -> Value {
        Value(NonZeroU64::new(w).unwrap())
    }
    pub const fn nil() -> Value {
        Value::from_u64(NIL)
    }
    pub fn bool(b: bool) -> Value {
        Value::from_u64(if b { TRUE } else { FALSE })
    }
    pub fn integer(i: i64) -> Value {
        Value::from_u64(((i as u64) << 1) | 1)
    }
    pub fn fixnum(i: i64) -> Value {
        Value::integer(i)
    }
    pub fn symbol(id: IdentId) -> Value {
        Value::from_u64(((id.0 as u64) << 32) | 0x0c)
    }
    pub fn id(&self) -> u64 {
        self.0.get()
    }
    pub fn is_nil(&self) -> bool {
        self.id() == NIL
    }
    pub fn as_bool(&self) -> bool {
        self.id() != NIL && self.id() != FALSE
    }
    pub fn is_packed_value(&self) -> bool {
        self.id() & 7 != 0
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        (self.id() & 1 == 1).then_some((self.id() as i64) >> 1)
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        (self.id() & 0xff == 0x0c).then_some(IdentId((self.id() >> 32) as u32))
    }
    pub fn try_rvalue(&self) -> Option<&RValue> {
        (!self.is_packed_value()).then(|| unsafe { &*(self.id() as *const RValue) })
    }
    pub fn try_rvalue_mut(&mut self) -> Option<&mut RValue> {
        (!self.is_packed_value()).then(|| unsafe { &mut *(self.id() as *mut RValue) })
    }
    pub fn rvalue(&self) -> &RValue {
        self.try_rvalue().expect("a heap object")
    }
    pub fn rvalue_mut(&mut self) -> &mut RValue {
        unsafe { &mut *(self.id() as *mut RValue) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn cell(&self) -> &'static mut RValue {
        assert!(!self.is_packed_value());
        unsafe { &mut *(self.id() as *mut RValue) }
    }
    pub fn ty(&self) -> Option<ObjTy> {
        self.try_rvalue().map(|r| r.ty())
    }
    pub fn mark(&self, alloc: &mut Allocator<RValue>) {
        ROOT::sys::note_stack();
        if let Some(r) = self.try_rvalue() {
            r.mark(alloc)
        }
    }
    pub fn from_ptr(p: *mut RValue) -> Value {
        Value::from_u64(p as u64)
    }
    pub fn write_barrier(&self, v: Value) {
        if let Some(r) = self.clone().try_rvalue_mut() {
            r.write_barrier(v)
        }
    }
    pub fn write_barrier_bulk(&self) {
        if let Some(r) = self.clone().try_rvalue_mut() {
            r.write_barrier_bulk()
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
        let r = self.try_rvalue()?;
        (r.ty() == ObjTy::STRING).then(|| unsafe { r.as_rstring() })
    }
    pub fn as_hashmap_inner(&self) -> HashRef<'_> {
        unsafe { self.rvalue().as_hashmap() }
    }
    fn as_hashmap_inner_mut(&mut self) -> HashRefMut<'_> {
        unsafe { self.rvalue_mut().as_hashmap_mut() }
    }
    pub fn as_hash(self) -> Hashmap {
        Hashmap::new(self)
    }
    pub fn as_hash_mut(&self, store: &Store) -> Result<Hashmap> {
        self.ensure_not_frozen(store)?;
        Ok(Hashmap::new(*self))
    }
    pub fn try_hash_ty(self) -> Option<Hashmap> {
        (self.ty() == Some(ObjTy::HASH)).then(|| Hashmap::new(self))
    }
    pub fn hash(map: RubyMap<Value, Value>) -> Value {
        RValue::new_hash(map).pack()
    }
    pub fn hash_from_inner(inner: HashmapInner) -> Value {
        RValue::new_hash_from_inner(inner).pack()
    }
    pub fn is_frozen(&self) -> bool {
        self.try_rvalue().is_none_or(|r| r.is_frozen())
    }
    pub fn set_frozen(&self) {
        self.cell().set_frozen()
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::new("FrozenError")) } else { Ok(()) }
    }
    pub fn class(&self) -> ClassId {
        self.try_rvalue().map_or(NIL_CLASS, |r| r.class())
    }
    pub fn real_class(&self, _: &Store) -> Class {
        Class(self.class())
    }
    pub fn change_class(&mut self, c: ClassId) {
        self.rvalue_mut().change_class(c)
    }
    pub fn string_from_str(s: &str) -> Value {
        let mut r = RValue::sim_new(STRING_CLASS, ObjTy::STRING, &[], None);
        r.sim_payload().unwrap().bytes = s.as_bytes().to_vec();
        r.pack()
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        RValue::sim_new(ARRAY_CLASS, ObjTy::ARRAY, &v, None).pack()
    }
    pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Value {
        Value::array_from_vec(i.collect())
    }
    pub fn array2(a: Value, b: Value) -> Value {
        Value::array_from_vec(vec![a, b])
    }
    pub fn array_empty() -> Value {
        Value::array_from_vec(vec![])
    }
    pub fn as_array(&self) -> Array {
        assert!(self.ty() == Some(ObjTy::ARRAY));
        Array(*self)
    }
    pub fn expect_array_ty(&self, _: &Store) -> Result<Array> {
        if self.ty() == Some(ObjTy::ARRAY) { Ok(Array(*self)) } else { Err(MonorubyErr::new("TypeError")) }
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        (self.ty() == Some(ObjTy::ARRAY)).then(|| Array(*self))
    }
    pub fn dup(&self) -> Value {
        match self.try_rvalue() {
            Some(r) => r.dup().pack(),
            None => *self,
        }
    }
    pub fn clone_value(&self) -> Value {
        match self.try_rvalue() {
            Some(r) => r.clone_value().pack(),
            None => *self,
        }
    }
    pub fn frozen_hash_key(self) -> Value {
        if self.ty() == Some(ObjTy::STRING) && !self.is_frozen() {
            let d = self.dup();
            d.set_frozen();
            d
        } else {
            self
        }
    }
    pub fn debug(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn inspect(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn inspect_inner(&self, _: &Store, _: &mut std::collections::HashSet<u64>) -> String {
        format!("{self:?}")
    }
    pub fn to_s(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn coerce_to_hash(&self, _: &mut Executor, _: &mut Globals) -> Result<Hashmap> {
        self.try_hash_ty().ok_or_else(|| MonorubyErr::new("TypeError"))
    }
    pub fn coerce_to_i64(&self, _: &Globals) -> Result<i64> {
        self.try_fixnum().ok_or_else(|| MonorubyErr::new("TypeError"))
    }
    pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        self.try_fixnum().ok_or_else(|| MonorubyErr::new("TypeError"))
    }
    pub fn from_hash_digest(h: u64) -> Value {
        Value::integer((h as i64) >> 1)
    }
    pub fn ruby_hash_packed<H: Hasher>(&self, h: &mut H) {
        self.id().hash(h)
    }
    pub fn calculate_hash(self, e: &mut Executor, g: &mut Globals) -> Result<u64> {
        let mut h = SimHasher(1);
        RubyHash::ruby_hash(&self, &mut h, e, g)?;
        Ok(h.0)
    }
    pub fn eql(&self, o: &Value, e: &mut Executor, g: &mut Globals) -> Result<bool> {
        RubyEql::eql(self, o, e, g)
    }
}

/// A key object has user-defined methods when it has this variable.
pub const GROUP: IvarId = IvarId(0);

impl Value {
    /// The group of a key whose `hash` and `eql?` are user methods.
    pub fn group(&self) -> Option<i64> {
        if self.ty() == Some(ObjTy::OBJECT) { self.rvalue().sim_object()[0]?.try_fixnum() } else { None }
    }
}

impl RubyHash<Executor, Globals, MonorubyErr> for Value {
    fn ruby_hash<H: Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
        match self.ty() {
            None => self.ruby_hash_packed(state),
            Some(ObjTy::STRING) => unsafe { self.rvalue().as_rstring() }.hash(state),
            Some(ObjTy::ARRAY) => {
                for v in self.as_array().iter() {
                    v.ruby_hash(state, e, g)?;
                }
            }
            Some(ObjTy::HASH) => self.as_hashmap_inner().ruby_hash(state, e, g)?,
            _ if self.group().is_some() => {
                let h = e.invoke_method_inner(g, IdentId::HASH, *self, &[], None, None)?;
                h.try_fixnum().unwrap().hash(state);
            }
            _ => simcore::mix64(self.id()).hash(state),
        }
        Ok(())
    }
}
impl RubyEql<Executor, Globals, MonorubyErr> for Value {
    fn eql(&self, o: &Self, e: &mut Executor, g: &mut Globals) -> Result<bool> {
        if self.id() == o.id() {
            return Ok(true);
        }
        let (Some(a), Some(b)) = (self.ty(), o.ty()) else { return Ok(false) };
        if a != b {
            return Ok(false);
        }
        match a {
            ObjTy::STRING => Ok(unsafe { self.rvalue().as_rstring() } == unsafe { o.rvalue().as_rstring() }),
            ObjTy::ARRAY => {
                let (a, b) = (self.as_array(), o.as_array());
                if a.len() != b.len() {
                    return Ok(false);
                }
                for i in 0..a.len() {
                    if !RubyEql::eql(&a[i], &b[i], e, g)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            ObjTy::HASH => self.as_hashmap_inner().eql(&o.as_hashmap_inner(), e, g),
            _ if self.group().is_some() => Ok(e.invoke_method_inner(g, IdentId::EQL_, *self, &[*o], None, None)?.as_bool()),
            _ => Ok(false),
        }
    }
}

pub fn seeded_hasher() -> SimHasher {
    SimHasher(0x51ed)
}

pub fn symbol_hash_label(id: IdentId, _: bool) -> String {
    format!("{id:?}: ")
}

pub struct Class(ClassId);
impl Class {
    pub fn id(&self) -> ClassId {
        self.0
    }
}

#[derive(Clone, Copy)]
pub struct Array(pub Value);
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        &self.0.cell().sim_payload().unwrap().kids
    }
}
impl Array {
    pub fn push(&mut self, v: Value) {
        self.0.cell().sim_payload().unwrap().kids.push(v);
        self.0.write_barrier(v);
    }
}
impl From<Array> for Value {
    fn from(a: Array) -> Value {
        a.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Proc(Value);
impl Proc {
    pub fn new(v: Value) -> Self {
        Proc(v)
    }
    pub fn mark(&self, a: &mut Allocator<RValue>) {
        self.0.mark(a)
    }
}
impl Proc {
    pub fn as_val(self) -> Value {
        self.0
    }
}
impl From<Proc> for Value {
    fn from(p: Proc) -> Value {
        p.0
    }
}
impl Value {
    pub fn is_proc(self) -> Option<Proc> {
        (self.ty() == Some(ObjTy::PROC)).then(|| Proc(self))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct IdentId(pub u32);
impl IdentId {
    pub const HASH: IdentId = IdentId(1);
    pub const EQL_: IdentId = IdentId(2);
    pub const EACH: IdentId = IdentId(3);
    pub const EQ: IdentId = IdentId(4);
    pub fn get_id(s: &str) -> IdentId {
        let mut h = 7u64;
        for b in s.bytes() {
            h = simcore::mix64(h ^ b as u64);
        }
        IdentId(h as u32 | 0x8000_0000)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MonorubyErr {
    pub class: String,
}
impl MonorubyErr {
    pub fn new(c: &str) -> Self {
        MonorubyErr { class: c.to_string() }
    }
    pub fn runtimeerr(_: impl ToString) -> Self {
        Self::new("RuntimeError")
    }
    pub fn argumenterr(_: impl ToString) -> Self {
        Self::new("ArgumentError")
    }
    pub fn typeerr(_: impl ToString) -> Self {
        Self::new("TypeError")
    }
    pub fn keyerr_with(_: impl ToString, _: Value, _: Value) -> Self {
        Self::new("KeyError")
    }
}

pub struct Store;
pub struct Globals {
    pub store: Store,
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}

/// Arguments of a native method.
#[derive(Clone, Copy)]
pub struct Lfp {
    f: *const Frame,
    pub base: *mut u64,
    pub len: usize,
}
pub struct Frame {
    pub slf: Value,
    pub args: Vec<Option<Value>>,
    pub block: Option<BlockHandler>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BlockHandler(pub u32);
pub type ProcData = BlockHandler;
#[derive(Clone, Copy)]
pub struct BytecodePtr;
impl Lfp {
    fn f(&self) -> &Frame {
        unsafe { &*self.f }
    }
    pub fn of(f: &Frame) -> Lfp {
        Lfp { f, base: std::ptr::null_mut(), len: 0 }
    }
    pub unsafe fn from_heap_buffer(base: *mut u64, len: usize) -> Lfp {
        Lfp { f: std::ptr::null(), base, len }
    }
    /// Words of a frame moved to the heap.
    pub fn words(&self) -> &[u64] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    pub fn mark_contents(&self, alloc: &mut Allocator<RValue>) {
        for w in self.words() {
            if *w == 0xDDDD_DDDD_DDDD_DDDD {
                simcore::fatal("use-after-free", "a reachable frame was released");
            }
            Value::from_u64(*w).mark(alloc);
        }
    }
    pub fn self_val(&self) -> Value {
        self.f().slf
    }
    pub fn arg(&self, i: usize) -> Value {
        self.f().args[i].unwrap()
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.f().args.get(i).copied().flatten()
    }
    pub fn iter(&self) -> impl Iterator<Item = Value> {
        self.f().args.clone().into_iter().flatten()
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.f().block
    }
    pub fn expect_no_block(&self) -> Result<()> {
        if self.f().block.is_some() { Err(MonorubyErr::new("ArgumentError")) } else { Ok(()) }
    }
    pub fn expect_block(&self) -> Result<BlockHandler> {
        self.f().block.ok_or_else(|| MonorubyErr::new("ArgumentError"))
    }
}

/// Calls leaving the natives: blocks and user methods.
pub trait Host {
    fn block(&mut self, vm: &mut Executor, g: &mut Globals, bh: BlockHandler, args: &[Value]) -> Result<Value>;
    fn method(&mut self, vm: &mut Executor, g: &mut Globals, id: IdentId, recv: Value, args: &[Value]) -> Result<Value>;
    fn proc(&mut self, vm: &mut Executor, g: &mut Globals, p: Value, args: &[Value]) -> Result<Value>;
}

pub struct Executor {
    pub host: *mut dyn Host,
    pub temp: Vec<Value>,
    pub frames: Vec<*const Frame>,
    pub args: Vec<Value>,
}
impl GC<RValue> for Executor {
    fn mark(&self, alloc: &mut Allocator<RValue>) {
        for v in &self.temp {
            v.mark(alloc);
        }
        for v in &self.args {
            v.mark(alloc);
        }
        for f in &self.frames {
            let f = unsafe { &**f };
            f.slf.mark(alloc);
            for a in f.args.iter().flatten() {
                a.mark(alloc);
            }
        }
    }
}
impl Executor {
    fn host(&self) -> &'static mut dyn Host {
        unsafe { &mut *self.host }
    }
    fn with_args<T>(&mut self, vals: &[Value], f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.args.len();
        self.args.extend_from_slice(vals);
        let r = f(self);
        self.args.truncate(n);
        r
    }
    pub fn get_block_data(&mut self, _: &mut Globals, bh: BlockHandler) -> Result<BlockHandler> {
        Ok(bh)
    }
    pub fn invoke_block(&mut self, g: &mut Globals, bh: &BlockHandler, args: &[Value]) -> Result<Value> {
        let bh = *bh;
        self.with_args(args, |vm| vm.host().block(vm, g, bh, args))
    }
    pub fn invoke_block_once(&mut self, g: &mut Globals, bh: BlockHandler, args: &[Value]) -> Result<Value> {
        self.invoke_block(g, &bh, args)
    }
    pub fn invoke_proc(&mut self, g: &mut Globals, p: &Proc, args: &[Value]) -> Result<Value> {
        let p = p.0;
        self.with_args(args, |vm| vm.host().proc(vm, g, p, args))
    }
    pub fn invoke_method_inner(
        &mut self,
        g: &mut Globals,
        id: IdentId,
        recv: Value,
        args: &[Value],
        _: Option<BlockHandler>,
        _: Option<Hashmap>,
    ) -> Result<Value> {
        let mut a = args.to_vec();
        a.push(recv);
        self.with_args(&a, |vm| vm.host().method(vm, g, id, recv, args))
    }
    pub fn eq_values_bool(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
        if a.id() == b.id() {
            return Ok(true);
        }
        if let (Some(_), Some(_)) = (a.try_hash_ty(), b.try_hash_ty()) {
            let f = Frame { slf: a, args: vec![Some(b)], block: None };
            self.frames.push(&f);
            let r = crate::natives::eq(self, g, Lfp::of(&f), BytecodePtr);
            self.frames.pop();
            return Ok(r?.as_bool());
        }
        if a.group().is_some() && b.group().is_some() {
            return Ok(self.invoke_method_inner(g, IdentId::EQ, a, &[b], None, None)?.as_bool());
        }
        if a.group().is_some() || b.group().is_some() {
            return Ok(false);
        }
        RubyEql::eql(&a, &b, self, g)
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temp.len();
        let r = f(self);
        self.temp.truncate(n);
        r
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }
    pub fn temp_len(&self) -> usize {
        self.temp.len()
    }
    pub fn temp_clear(&mut self, n: usize) {
        self.temp.truncate(n);
    }
    pub fn temp_at(&self, i: usize) -> Value {
        self.temp[i]
    }
    pub fn generate_enumerator_with_size(
        &mut self,
        _: IdentId,
        _: Value,
        _: Vec<Value>,
        _: BytecodePtr,
        _: Option<Value>,
    ) -> Result<Value> {
        Ok(Value::nil())
    }
}

thread_local! {
    static PAIRS: std::cell::RefCell<Vec<(u64, u64)>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn exec_recursive_paired<T>(a: u64, b: u64, f: impl FnOnce() -> Result<T>, default: T) -> Result<T> {
    if PAIRS.with(|p| p.borrow().contains(&(a, b))) {
        return Ok(default);
    }
    PAIRS.with(|p| p.borrow_mut().push((a, b)));
    let r = f();
    PAIRS.with(|p| p.borrow_mut().pop());
    r
}
pub fn exec_recursive_outer<T>(a: u64, f: impl FnOnce() -> Result<T>, default: T) -> Result<T> {
    exec_recursive_paired(a, a, f, default)
}

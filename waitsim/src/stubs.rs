//! Values, errors and the executor as far as the waiting methods look at
//! them.
use std::cell::RefCell;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Errno(i32),
    Io,
    Argument,
    Range,
    Type,
    /// An interrupt of the thread, or raised by a handler.
    Raised,
    /// Raised by `to_io`.
    Conversion,
}
#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr {
    pub e: E,
    pub msg: String,
}
impl MonorubyErr {
    pub fn of(e: E, msg: impl ToString) -> Self {
        MonorubyErr { e, msg: msg.to_string() }
    }
    pub fn argumenterr(s: impl ToString) -> Self {
        Self::of(E::Argument, s)
    }
    pub fn typeerr(s: impl ToString) -> Self {
        Self::of(E::Type, s)
    }
    pub fn ioerr(s: impl ToString) -> Self {
        Self::of(E::Io, s)
    }
    pub fn rangeerr(s: impl ToString) -> Self {
        Self::of(E::Range, s)
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, m: impl ToString) -> Self {
        Self::of(E::Errno(e.raw_os_error().unwrap_or(0)), m)
    }
    pub fn from_io_err(_: &Store, e: &std::io::Error, m: impl ToString) -> Self {
        Self::of(E::Errno(e.raw_os_error().unwrap_or(0)), m)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(pub &'static str);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(pub &'static str);
impl IdentId {
    pub fn get_id(s: &str) -> IdentId {
        assert_eq!(s, "to_io");
        IdentId("to_io")
    }
    pub fn get_name(&self) -> String {
        self.0.to_string()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ObjTy {
    IO,
    OBJECT,
}
/// A stream: index into the simulated streams.
#[derive(Debug)]
pub struct IoInner(pub usize);
impl IoInner {
    pub fn is_closed(&self) -> bool {
        crate::world::w().streams[self.0].fd.is_none()
    }
    pub fn fileno(&self) -> Result<i32> {
        crate::world::w().streams[self.0].fd.ok_or_else(|| MonorubyErr::ioerr("closed stream"))
    }
    pub fn wait_fd_for(&self, events: i16) -> Result<i32> {
        let s = &crate::world::w().streams[self.0];
        match (s.fd, s.wfd) {
            (Some(_), Some(w)) if events & libc::POLLOUT != 0 => Ok(w),
            _ => self.fileno(),
        }
    }
    pub fn has_buffered_data(&self) -> bool {
        crate::world::w().streams[self.0].buffered
    }
}

#[derive(Debug)]
pub enum V {
    Nil,
    Int(i64),
    Float(f64),
    Sym(&'static str),
    Ary(Vec<Value>),
    Io(IoInner),
    /// Answers to `to_io` with a value, or by raising.
    Conv(Option<Value>),
    Obj,
}
#[derive(Clone, Copy)]
pub struct Value(pub *mut V);
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.v() {
            V::Nil => write!(f, "nil"),
            V::Int(i) => write!(f, "{i}"),
            V::Float(i) => write!(f, "{i:?}"),
            V::Sym(s) => write!(f, ":{s}"),
            V::Ary(a) => write!(f, "{a:?}"),
            V::Io(n) => write!(f, "io{}", n.0),
            V::Conv(Some(v)) => write!(f, "object({v:?})"),
            V::Conv(None) => write!(f, "raiser"),
            V::Obj => write!(f, "object"),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Lfp(*const LfpData);
pub struct LfpData {
    self_val: Value,
    args: Vec<Option<Value>>,
}
#[derive(Clone, Copy)]
pub struct BytecodePtr;

thread_local! {
    static ARENA: RefCell<(Vec<Box<V>>, Vec<Box<LfpData>>)> = const { RefCell::new((vec![], vec![])) };
}
pub fn clear_values() {
    let old = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
    drop(old);
}
pub fn val(v: V) -> Value {
    ARENA.with(|a| {
        let mut b = Box::new(v);
        let p = &mut *b as *mut V;
        a.borrow_mut().0.push(b);
        Value(p)
    })
}
impl Lfp {
    pub fn new(self_val: Value, args: Vec<Option<Value>>) -> Lfp {
        ARENA.with(|a| {
            let b = Box::new(LfpData { self_val, args });
            let p = &*b as *const LfpData;
            a.borrow_mut().1.push(b);
            Lfp(p)
        })
    }
    fn d(&self) -> &'static LfpData {
        unsafe { &*self.0 }
    }
    pub fn arg(&self, i: usize) -> Value {
        self.d().args[i].expect("missing argument")
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.d().args.get(i).copied().flatten()
    }
    pub fn self_val(&self) -> Value {
        self.d().self_val
    }
}
pub struct RV(ObjTy);
impl RV {
    pub fn ty(&self) -> ObjTy {
        self.0
    }
}
fn wrong<T>() -> Result<T> {
    Err(MonorubyErr::typeerr("no implicit conversion"))
}
impl Value {
    pub fn v(&self) -> &'static mut V {
        unsafe { &mut *self.0 }
    }
    pub fn nil() -> Value {
        val(V::Nil)
    }
    pub fn integer(i: i64) -> Value {
        val(V::Int(i))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        val(V::Ary(v))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.v(), V::Nil)
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        match self.v() {
            V::Sym(s) => Some(IdentId(s)),
            _ => None,
        }
    }
    pub fn try_array_ty(&self) -> Option<&'static Vec<Value>> {
        match self.v() {
            V::Ary(a) => Some(a),
            _ => None,
        }
    }
    pub fn as_array(&self) -> &'static Vec<Value> {
        self.try_array_ty().expect("not an array")
    }
    pub fn as_io_inner(&self) -> &'static IoInner {
        match self.v() {
            V::Io(n) => n,
            x => panic!("{x:?} taken for an IO"),
        }
    }
    pub fn ty(&self) -> Option<ObjTy> {
        match self.v() {
            V::Io(_) => Some(ObjTy::IO),
            V::Conv(_) | V::Obj | V::Ary(_) => Some(ObjTy::OBJECT),
            _ => None,
        }
    }
    pub fn try_rvalue(&self) -> Option<RV> {
        self.ty().map(RV)
    }
    pub fn class(&self) -> ClassId {
        ClassId("Object")
    }
    pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        match self.v() {
            V::Int(i) => Ok(*i),
            _ => wrong(),
        }
    }
    pub fn coerce_to_f64(self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
        match self.v() {
            V::Int(i) => Ok(*i as f64),
            V::Float(f) => Ok(*f),
            _ => wrong(),
        }
    }
}

pub struct Store;
pub struct Globals {
    pub store: Store,
}
impl Globals {
    pub fn check_method(&self, v: Value, _: IdentId) -> Option<()> {
        matches!(v.v(), V::Conv(_)).then_some(())
    }
    pub fn get_class_name(&self, c: ClassId) -> String {
        c.0.to_string()
    }
}
pub struct Executor {
    pub error: Option<MonorubyErr>,
    pub temp: Vec<Value>,
}
impl Executor {
    pub fn temp_len(&self) -> usize {
        self.temp.len()
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }
    pub fn temp_clear(&mut self, len: usize) {
        self.temp.truncate(len);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("an error is taken that was not set")
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, recv: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
        match recv.v() {
            V::Conv(Some(v)) => Ok(*v),
            _ => Err(MonorubyErr::of(E::Conversion, "raised by to_io")),
        }
    }
}

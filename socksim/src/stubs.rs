//! Values, errors and the executor as far as the socket module looks at
//! them.
use crate::simstd::fs::File;
use std::cell::RefCell;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Errno(i32),
    Io,
    Argument,
    Type,
    Runtime,
    Class(ClassId),
    /// An interrupt of the thread, or raised by a block or a handler.
    Raised,
}
#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr {
    pub e: E,
    pub msg: String,
}
pub enum MonorubyErrKind {
    Other(ClassId),
}
impl MonorubyErr {
    pub fn of(e: E, msg: impl ToString) -> Self {
        MonorubyErr { e, msg: msg.to_string() }
    }
    pub fn new(k: MonorubyErrKind, msg: impl ToString) -> Self {
        let MonorubyErrKind::Other(c) = k;
        Self::of(E::Class(c), msg)
    }
    pub fn argumenterr(s: impl ToString) -> Self {
        Self::of(E::Argument, s)
    }
    pub fn typeerr(s: impl ToString) -> Self {
        Self::of(E::Type, s)
    }
    pub fn ioerr(s: impl ToString) -> Self {
        Self::of(E::Io, s)
    }
    pub fn rangeerr(s: impl ToString) -> Self {
        Self::of(E::Argument, s)
    }
    pub fn runtimeerr(s: impl ToString) -> Self {
        Self::of(E::Runtime, s)
    }
    pub fn from_io_err(_: &Store, e: &std::io::Error, m: String) -> Self {
        Self::of(E::Errno(e.raw_os_error().unwrap_or(0)), m)
    }
    pub fn message(&self) -> &str {
        &self.msg
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(pub &'static str);
pub const OBJECT_CLASS: ClassId = ClassId("Object");

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(pub &'static str);
fn intern(s: &str) -> &'static str {
    const NAMES: &[&str] = &[
        "IO", "SocketError", "TCPSocket", "TCPServer", "UDPSocket", "UNIXSocket", "UNIXServer", "Socket", "BasicSocket", "EAGAINWaitReadable", "EAGAINWaitWritable", "EINPROGRESSWaitWritable", "wait_readable",
        "wait_writable", "close", "to_sockaddr", "INET", "UNIX", "STREAM", "DGRAM", "REUSEADDR", "SO_KEEPALIVE", "SOCKET", "SOL_SOCKET", "RD", "WR", "SHUT_RDWR", "KEEPALIVE", "AF_INET", "SOCK_STREAM",
    ];
    NAMES.iter().find(|n| **n == s).copied().unwrap_or("?")
}
impl IdentId {
    pub fn get_id(s: &str) -> IdentId {
        IdentId(intern(s))
    }
    pub fn get_name(&self) -> String {
        self.0.to_string()
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Encoding {
    Binary,
    Utf8,
}
#[derive(Debug, Clone, PartialEq)]
pub struct RStringInner {
    pub b: Vec<u8>,
    pub enc: Encoding,
}
impl RStringInner {
    pub fn from_encoding(b: &[u8], enc: Encoding) -> Self {
        RStringInner { b: b.to_vec(), enc }
    }
    pub fn encoding(&self) -> Encoding {
        self.enc
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.b
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.b.clone()
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn is_empty(&self) -> bool {
        self.b.is_empty()
    }
}
#[derive(Debug)]
pub struct IoInner {
    pub file: Option<File>,
    pub class: ClassId,
    pub name: String,
    pub id: usize,
}
impl IoInner {
    pub fn is_closed(&self) -> bool {
        self.file.is_none()
    }
    pub fn fileno(&self) -> Result<i32> {
        self.file.as_ref().map(|f| f.0).ok_or_else(|| MonorubyErr::ioerr("closed stream"))
    }
}

#[derive(Debug)]
pub enum V {
    Nil,
    Bool(bool),
    Int(i64),
    Float(f64),
    Sym(IdentId),
    Str(RStringInner),
    Ary(Vec<Value>),
    Io(IoInner),
    Class(ClassId),
    /// An object without conversions, or one with `to_sockaddr`.
    Obj(Option<Value>),
}
#[derive(Clone, Copy)]
pub struct Value(pub *mut V);

#[derive(Clone, Copy)]
pub struct Lfp(*const LfpData);
pub struct LfpData {
    self_val: Value,
    args: Vec<Option<Value>>,
    block: Option<BlockHandler>,
}
#[derive(Clone, Copy)]
pub struct BlockHandler;
#[derive(Clone, Copy)]
pub struct BytecodePtr;

thread_local! {
    static ARENA: RefCell<(Vec<Box<V>>, Vec<Box<LfpData>>)> = const { RefCell::new((vec![], vec![])) };
}
pub fn clear_values() {
    let old = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
    drop(old);
}
pub fn val(v: V) -> Value {
    ARENA.with(|a| {
        let mut b = Box::new(v);
        let p = &mut *b as *mut V;
        a.borrow_mut().0.push(b);
        Value(p)
    })
}
impl Lfp {
    pub fn new(self_val: Value, args: Vec<Option<Value>>, block: bool) -> Lfp {
        ARENA.with(|a| {
            let b = Box::new(LfpData { self_val, args, block: block.then_some(BlockHandler) });
            let p = &*b as *const LfpData;
            a.borrow_mut().1.push(b);
            Lfp(p)
        })
    }
    fn d(&self) -> &'static LfpData {
        unsafe { &*self.0 }
    }
    pub fn arg(&self, i: usize) -> Value {
        self.d().args[i].expect("missing argument")
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.d().args.get(i).copied().flatten()
    }
    pub fn self_val(&self) -> Value {
        self.d().self_val
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.d().block
    }
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.v() {
            V::Nil => write!(f, "nil"),
            V::Bool(b) => write!(f, "{b}"),
            V::Int(i) => write!(f, "{i}"),
            V::Float(i) => write!(f, "{i:?}"),
            V::Sym(s) => write!(f, ":{}", s.0),
            V::Str(s) => write!(f, "{:?}", s.b.escape_ascii().to_string()),
            V::Ary(a) => write!(f, "{a:?}"),
            V::Io(n) => write!(f, "io{}", n.id),
            V::Class(c) => write!(f, "{}", c.0),
            V::Obj(_) => write!(f, "object"),
        }
    }
}
#[derive(Clone, Copy)]
pub struct Module(ClassId);
impl Module {
    pub fn id(&self) -> ClassId {
        self.0
    }
}
pub struct RStr(Value);
impl RStr {
    pub fn as_val(&self) -> Value {
        self.0
    }
}
impl std::ops::Deref for RStr {
    type Target = RStringInner;
    fn deref(&self) -> &RStringInner {
        self.0.as_rstring_inner()
    }
}
fn wrong<T>() -> Result<T> {
    Err(MonorubyErr::typeerr("no implicit conversion"))
}
impl Value {
    pub fn v(&self) -> &'static mut V {
        unsafe { &mut *self.0 }
    }
    pub fn nil() -> Value {
        val(V::Nil)
    }
    pub fn integer(i: i64) -> Value {
        val(V::Int(i))
    }
    pub fn bool(i: bool) -> Value {
        val(V::Bool(i))
    }
    pub fn symbol(i: IdentId) -> Value {
        val(V::Sym(i))
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        val(V::Str(RStringInner { b, enc: Encoding::Binary }))
    }
    pub fn string(s: String) -> Value {
        val(V::Str(RStringInner { b: s.into_bytes(), enc: Encoding::Utf8 }))
    }
    pub fn string_from_vec(b: Vec<u8>) -> Value {
        val(V::Str(RStringInner { b, enc: Encoding::Utf8 }))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        val(V::Ary(v))
    }
    pub fn array_from_iter(v: impl Iterator<Item = Value>) -> Value {
        val(V::Ary(v.collect()))
    }
    pub fn new_socket(file: File, name: String, class: ClassId) -> Value {
        let id = crate::kern::k().owned(file.0);
        val(V::Io(IoInner { file: Some(file), class, name, id }))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.v(), V::Nil)
    }
    pub fn as_bool(&self) -> bool {
        !matches!(self.v(), V::Nil | V::Bool(false))
    }
    pub fn is_str(&self) -> Option<&'static str> {
        match self.v() {
            V::Str(s) => std::str::from_utf8(&s.b).ok(),
            _ => None,
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        match self.v() {
            V::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_rstring(&self) -> Option<RStr> {
        self.is_rstring_inner().map(|_| RStr(*self))
    }
    pub fn as_rstring_inner(&self) -> &'static RStringInner {
        self.is_rstring_inner().expect("not a string")
    }
    pub fn as_rstring_inner_mut(&mut self) -> &'static mut RStringInner {
        match self.v() {
            V::Str(s) => s,
            _ => panic!("not a string"),
        }
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        match self.v() {
            V::Sym(s) => Some(*s),
            _ => None,
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.v() {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn as_io_inner(&self) -> &'static IoInner {
        match self.v() {
            V::Io(n) => n,
            x => panic!("{x:?} taken for an IO"),
        }
    }
    pub fn class(&self) -> ClassId {
        match self.v() {
            V::Io(i) => i.class,
            _ => OBJECT_CLASS,
        }
    }
    pub fn as_class(&self) -> Module {
        self.is_class_or_module().expect("not a class")
    }
    pub fn is_class_or_module(&self) -> Option<Module> {
        match self.v() {
            V::Class(c) => Some(Module(*c)),
            _ => None,
        }
    }
    pub fn coerce_to_rstring(self, _: &mut Executor, _: &mut Globals) -> Result<RStr> {
        self.is_rstring().map_or_else(wrong, Ok)
    }
    pub fn coerce_to_i64(self, _: &Store) -> Result<i64> {
        self.try_fixnum().map_or_else(wrong, Ok)
    }
    pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        self.try_fixnum().map_or_else(wrong, Ok)
    }
    pub fn coerce_to_f64(self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
        match self.v() {
            V::Int(i) => Ok(*i as f64),
            V::Float(f) => Ok(*f),
            _ => wrong(),
        }
    }
}

pub struct Store;
impl Store {
    pub fn get_constant_noautoload(&self, _: ClassId, id: IdentId) -> Option<Value> {
        Some(val(V::Class(ClassId(id.0))))
    }
    pub fn get_class_name(&self, c: ClassId) -> String {
        c.0.to_string()
    }
}
pub struct Globals {
    pub store: Store,
}
pub struct Executor {
    pub error: Option<MonorubyErr>,
}
impl Executor {
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("an error is taken that was not set")
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, id: IdentId, recv: Value, _: &[Value], _: Option<BlockHandler>, _: Option<()>) -> Result<Value> {
        match id.0 {
            "close" => crate::sock::close_method(recv),
            "to_sockaddr" => match recv.v() {
                V::Obj(Some(v)) => Ok(*v),
                _ => Err(MonorubyErr::of(E::Runtime, "undefined method")),
            },
            _ => panic!("method {} called", id.0),
        }
    }
    pub fn invoke_block_once(&mut self, _: &mut Globals, _: BlockHandler, args: &[Value]) -> Result<Value> {
        crate::sock::block(args[0])
    }
}

//! Values, errors and the executor as far as the process start module
//! looks at them.
use std::cell::RefCell;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone, PartialEq)]
pub enum MonorubyErr {
    Errno(i32, String),
    Argument(String),
    Type(String),
    /// Raised by a signal handler or by a conversion method.
    Raised,
}
pub struct Store;
impl MonorubyErr {
    pub fn argumenterr(s: impl ToString) -> Self {
        MonorubyErr::Argument(s.to_string())
    }
    pub fn typeerr(s: impl ToString) -> Self {
        MonorubyErr::Type(s.to_string())
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, m: impl AsRef<str>) -> Self {
        MonorubyErr::Errno(e.raw_os_error().unwrap_or(0), m.as_ref().to_string())
    }
    pub fn errno_plain(_: &Store, e: &std::io::Error) -> Self {
        MonorubyErr::Errno(e.raw_os_error().unwrap_or(0), String::new())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Nil,
    Bool(bool),
    Int(i64),
    Sym(String),
    Str(String),
    Ary(Vec<Value>),
    Hash(Vec<(Value, Value)>),
    Io(i32),
    /// An object converting to the inner value, or raising.
    Conv(Value, bool),
    Class,
    Status(i64, i64),
}
#[derive(Clone, Copy)]
pub struct Value(*const V);

thread_local! {
    static ARENA: RefCell<Vec<Box<V>>> = const { RefCell::new(vec![]) };
}
pub fn clear_values() {
    ARENA.with(|a| a.borrow_mut().clear());
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.v() {
            V::Nil => write!(f, "nil"),
            V::Bool(b) => write!(f, "{b}"),
            V::Int(i) => write!(f, "{i}"),
            V::Sym(s) => write!(f, ":{s}"),
            V::Str(s) => write!(f, "{s:?}"),
            V::Ary(a) => write!(f, "{a:?}"),
            V::Hash(h) => {
                write!(f, "{{")?;
                for (k, v) in h {
                    write!(f, "{k:?}=>{v:?}, ")?;
                }
                write!(f, "}}")
            }
            V::Io(n) => write!(f, "io{n}"),
            V::Conv(v, r) => write!(f, "conv({v:?}{})", if *r { ", raising" } else { "" }),
            V::Class => write!(f, "class"),
            V::Status(a, b) => write!(f, "status({a},{b})"),
        }
    }
}
impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        self.v() == o.v()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const IO: ObjTy = ObjTy(1);
    pub const OTHER: ObjTy = ObjTy(2);
}
pub struct HashRef(&'static Vec<(Value, Value)>);
impl HashRef {
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + use<> {
        self.0.iter().copied()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
pub struct StrRef(&'static str);
impl StrRef {
    pub fn as_bytes(&self) -> &'static [u8] {
        self.0.as_bytes()
    }
}
pub struct IoRef(i32);
impl IoRef {
    pub fn fileno(&self) -> Result<i32> {
        Ok(self.0)
    }
}

pub fn val(v: V) -> Value {
    ARENA.with(|a| {
        let b = Box::new(v);
        let p = &*b as *const V;
        a.borrow_mut().push(b);
        Value(p)
    })
}
pub fn sym(s: &str) -> Value {
    val(V::Sym(s.into()))
}
pub fn st(s: &str) -> Value {
    val(V::Str(s.into()))
}

impl Value {
    pub fn v(&self) -> &'static V {
        unsafe { &*self.0 }
    }
    pub fn nil() -> Value {
        val(V::Nil)
    }
    pub fn bool(b: bool) -> Value {
        val(V::Bool(b))
    }
    pub fn integer(i: i64) -> Value {
        val(V::Int(i))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.v(), V::Nil)
    }
    pub fn try_hash_ty(&self) -> Option<HashRef> {
        match self.v() {
            V::Hash(h) => Some(HashRef(h)),
            _ => None,
        }
    }
    pub fn try_array_ty(&self) -> Option<&'static Vec<Value>> {
        match self.v() {
            V::Ary(h) => Some(h),
            _ => None,
        }
    }
    pub fn is_rstring(&self) -> Option<StrRef> {
        match self.v() {
            V::Str(s) => Some(StrRef(s)),
            _ => None,
        }
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        match self.v() {
            V::Sym(s) => Some(IdentId(s)),
            _ => None,
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.v() {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn ty(&self) -> Option<ObjTy> {
        match self.v() {
            V::Nil | V::Bool(_) | V::Int(_) | V::Sym(_) => None,
            V::Io(_) => Some(ObjTy::IO),
            _ => Some(ObjTy::OTHER),
        }
    }
    pub fn as_io_inner(&self) -> IoRef {
        match self.v() {
            V::Io(n) => IoRef(*n),
            x => simcore::violate("type", format!("{x:?} taken for an IO")),
        }
    }
    fn conv(&self) -> Result<Value> {
        match self.v() {
            V::Conv(_, true) => Err(MonorubyErr::Raised),
            V::Conv(v, false) => Ok(*v),
            _ => Ok(*self),
        }
    }
    pub fn coerce_to_str(self, _: &mut Executor, _: &mut Globals) -> Result<String> {
        match self.conv()?.v() {
            V::Str(s) => Ok(s.clone()),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
    pub fn coerce_to_path_rstring(self, _: &mut Executor, _: &mut Globals) -> Result<StrRef> {
        match self.conv()?.v() {
            V::Str(s) => Ok(StrRef(s)),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
    pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        match self.conv()?.v() {
            V::Int(s) => Ok(*s),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
        }
    }
    pub fn coerce_to_hash(self, _: &mut Executor, _: &mut Globals) -> Result<HashRef> {
        match self.conv()?.v() {
            V::Hash(h) => Ok(HashRef(h)),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Hash")),
        }
    }
    pub fn coerce_to_array(self, _: &mut Executor, _: &mut Globals) -> Result<&'static Vec<Value>> {
        match self.conv()?.v() {
            V::Ary(h) => Ok(h),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Array")),
        }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Object".into()
    }
    pub fn inspect(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn to_s(&self, _: &Store) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(&'static str);
impl IdentId {
    pub const NEW: IdentId = IdentId("new");
    pub fn get_id(s: &str) -> IdentId {
        IdentId(match s {
            "to_hash" => "to_hash",
            "to_ary" => "to_ary",
            "to_io" => "to_io",
            "to_str" => "to_str",
            "to_path" => "to_path",
            "new" => "new",
            _ => "other",
        })
    }
    pub fn get_name(&self) -> String {
        self.0.to_string()
    }
}
impl std::fmt::Display for IdentId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

pub struct ClassId;
pub const OBJECT_CLASS: ClassId = ClassId;
pub struct Globals {
    pub store: Store,
}
impl Globals {
    pub fn check_method(&self, v: Value, id: IdentId) -> Option<u32> {
        match v.v() {
            V::Conv(inner, _) => {
                let name = match inner.v() {
                    V::Hash(_) => "to_hash",
                    V::Ary(_) => "to_ary",
                    V::Io(_) => "to_io",
                    V::Str(_) => "to_str",
                    _ => "none",
                };
                (name == id.0).then_some(1)
            }
            _ => None,
        }
    }
}
pub struct Executor {
    pub error: Option<MonorubyErr>,
}
impl Executor {
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().unwrap_or_else(|| simcore::violate("error", "an error is taken that was not set".into()))
    }
    pub fn get_qualified_constant(&mut self, _: &mut Globals, _: ClassId, _: &[&str]) -> Result<Value> {
        Ok(val(V::Class))
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<()>, _: Option<()>) -> Result<Value>
    {
        match id.0 {
            "new" => match (args[0].v(), args[1].v()) {
                (V::Int(a), V::Int(b)) => Ok(val(V::Status(*a, *b))),
                _ => Err(MonorubyErr::typeerr("status")),
            },
            _ => recv.conv(),
        }
    }
}

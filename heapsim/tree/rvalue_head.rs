//! Payloads standing in for the interpreter's, in front of the real cells.
use super::*;
use rubymap::RubyEql;
use std::collections::HashSet;
use std::mem::ManuallyDrop;

pub mod hash;
pub use hash::*;

/// Destruction of one payload is counted by its number.
#[derive(Debug)]
pub struct Token(pub std::cell::Cell<u32>);

thread_local! {
    pub static DROPS: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
}

impl Token {
    pub fn none() -> Self {
        Token(std::cell::Cell::new(0))
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::none()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let n = self.0.get() as usize;
        if n != 0 {
            if n > 1 << 24 {
                simcore::fatal("destructor", "the destructor of an object ran on released memory");
            }
            DROPS.with(|d| {
                let mut d = d.borrow_mut();
                if d.len() <= n {
                    d.resize(n + 64, 0);
                }
                d[n] = d[n].saturating_add(1);
                if d[n] > 1 {
                    simcore::fatal("destructor", "the destructor of an object ran twice");
                }
            });
        }
    }
}
pub fn drops(n: u32) -> u8 {
    DROPS.with(|d| d.borrow().get(n as usize).copied().unwrap_or(0))
}

/// Bytes owned by an object and known to the tracked allocator.
#[derive(Debug)]
pub struct SimBuf {
    pub at: *mut u8,
    pub len: usize,
}
impl SimBuf {
    pub fn none() -> Self {
        SimBuf { at: std::ptr::null_mut(), len: 0 }
    }
    pub fn set(&mut self, len: usize) {
        use ROOT::sys::{GlobalAlloc, Layout};
        unsafe {
            if self.len != 0 {
                alloc::GLOBAL_ALLOC.dealloc(self.at, Layout::from_size_align(self.len, 8).unwrap());
            }
            self.len = len;
            if len != 0 {
                self.at = alloc::GLOBAL_ALLOC.alloc(Layout::from_size_align(len, 8).unwrap());
            }
        }
    }
}
impl Clone for SimBuf {
    fn clone(&self) -> Self {
        let mut b = SimBuf::none();
        b.set(self.len);
        b
    }
}
impl Drop for SimBuf {
    fn drop(&mut self) {
        self.set(0);
    }
}

#[derive(Clone, Debug)]
pub struct P {
    pub tok: Token,
    pub kids: Vec<Value>,
    pub bytes: Vec<u8>,
    pub buf: SimBuf,
}
impl P {
    pub fn new(kids: Vec<Value>) -> P {
        P { tok: Token::none(), kids, bytes: vec![], buf: SimBuf::none() }
    }
}

macro_rules! owned {
    ($($t:ident)*) => {$(
        #[derive(Clone, Debug)]
        pub struct $t(pub Box<P>);
        impl $t {
            pub fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
                ROOT::sys::note_stack();
                for k in &self.0.kids { k.mark(alloc); }
            }
            pub fn iter(&self) -> std::slice::Iter<'_, Value> { self.0.kids.iter() }
            pub fn shared_root(&self) -> Option<Value> { self.0.kids.first().copied() }
            pub fn dup(&self) -> Self { self.clone() }
            pub fn len(&self) -> usize { self.0.kids.len() }
        }
        impl std::ops::Deref for $t {
            type Target = [Value];
            fn deref(&self) -> &[Value] { &self.0.kids }
        }
    )*};
}
macro_rules! plain {
    ($($t:ident)*) => {$(
        #[derive(Clone, Copy, Debug)]
        pub struct $t { pub kids: [Value; 2] }
        impl $t {
            pub fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
                ROOT::sys::note_stack();
                for k in &self.kids { k.mark(alloc); }
            }
            pub fn dup(&self) -> Self { *self }
        }
    )*};
}
owned!(ModuleInner BigInt RStringInner TimeInner ArrayInner ExceptionInner RegexpInner IoInner FiberInner ThreadInner EnumeratorInner GeneratorInner BindingInner MatchDataInner RationalInner StructInner ArithmeticSequenceInner IoBufferInner ArgfInner);
plain!(ComplexInner RangeInner ProcInner MethodInner UMethodInner);

impl Hash for RStringInner {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(&self.0.bytes);
    }
}
impl PartialEq for RStringInner {
    fn eq(&self, o: &Self) -> bool {
        self.0.bytes == o.0.bytes
    }
}

/// The instance variable table beyond the inline slots.
#[derive(Clone, Debug)]
pub struct MonoVec<T> {
    pub v: Vec<T>,
    pub tok: Token,
}
impl<T> std::ops::Deref for MonoVec<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.v
    }
}
impl<T> std::ops::DerefMut for MonoVec<T> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.v
    }
}
impl MonoVec<Option<Value>> {
    pub fn resize(&mut self, n: usize) {
        self.v.resize(n, None);
    }
}
impl<T> MonoVec<T> {
    pub fn new() -> Self {
        MonoVec { v: vec![], tok: Token::none() }
    }
    pub fn with_capacity(n: usize) -> Self {
        MonoVec { v: Vec::with_capacity(n), tok: Token::none() }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
}

impl std::fmt::Debug for RValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cell {:?}", self.ty())
    }
}

fn dead_rvalue_abort(_: &RValue, _: &alloc::Allocator<RValue>) -> ! {
    simcore::fatal("dead-object", "marking reached an object that had been reclaimed")
}

impl RValue {
    pub fn sim_new(class: ClassId, ty: ObjTy, kids: &[Value], frame: Option<usize>) -> RValue {
        let p = || P::new(kids.to_vec());
        let k2 = || [kids.first().copied().unwrap_or_default(), kids.get(1).copied().unwrap_or_default()];
        let kind = match ty {
            ObjTy::CLASS | ObjTy::MODULE => ObjKind { class: ManuallyDrop::new(ModuleInner(Box::new(p()))) },
            ObjTy::OBJECT => {
                let mut a = [None; OBJECT_INLINE_IVAR];
                for (i, k) in kids.iter().enumerate().take(OBJECT_INLINE_IVAR) {
                    a[i] = Some(*k);
                }
                ObjKind { object: a }
            }
            ObjTy::BIGNUM => ObjKind { bignum: ManuallyDrop::new(BigInt(Box::new(p()))) },
            ObjTy::FLOAT => ObjKind { float: 1.5 },
            ObjTy::COMPLEX => ObjKind { complex: ManuallyDrop::new(ComplexInner { kids: k2() }) },
            ObjTy::STRING => ObjKind { string: ManuallyDrop::new(RStringInner(Box::new(p()))) },
            ObjTy::TIME => ObjKind { time: ManuallyDrop::new(TimeInner(Box::new(p()))) },
            ObjTy::ARRAY => ObjKind { array: ManuallyDrop::new(ArrayInner(Box::new(p()))) },
            ObjTy::RANGE => ObjKind { range: ManuallyDrop::new(RangeInner { kids: k2() }) },
            ObjTy::EXCEPTION => ObjKind { exception: ManuallyDrop::new(Box::new(ExceptionInner(Box::new(p())))) },
            ObjTy::PROC => ObjKind { proc: ManuallyDrop::new(ProcInner { kids: k2() }) },
            ObjTy::REGEXP => ObjKind { regexp: ManuallyDrop::new(RegexpInner(Box::new(p()))) },
            ObjTy::IO => ObjKind { io: ManuallyDrop::new(IoInner(Box::new(p()))) },
            ObjTy::METHOD => ObjKind { method: ManuallyDrop::new(MethodInner { kids: k2() }) },
            ObjTy::UMETHOD => ObjKind { umethod: ManuallyDrop::new(UMethodInner { kids: [Value::nil(); 2] }) },
            ObjTy::FIBER => ObjKind { fiber: ManuallyDrop::new(FiberInner(Box::new(p()))) },
            ObjTy::THREAD => ObjKind { thread: ManuallyDrop::new(Box::new(ThreadInner(Box::new(p())))) },
            ObjTy::ENUMERATOR => ObjKind { enumerator: ManuallyDrop::new(Box::new(EnumeratorInner(Box::new(p())))) },
            ObjTy::GENERATOR => ObjKind { generator: ManuallyDrop::new(GeneratorInner(Box::new(p()))) },
            ObjTy::BINDING => ObjKind { binding: ManuallyDrop::new(BindingInner(Box::new(p()))) },
            ObjTy::MATCHDATA => ObjKind { matchdata: ManuallyDrop::new(MatchDataInner(Box::new(p()))) },
            ObjTy::RATIONAL => ObjKind { rational: ManuallyDrop::new(Box::new(RationalInner(Box::new(p())))) },
            ObjTy::STRUCT => ObjKind { struct_inner: ManuallyDrop::new(StructInner(Box::new(p()))) },
            ObjTy::ARITHMETIC_SEQUENCE => ObjKind { arithmetic_sequence: ManuallyDrop::new(ArithmeticSequenceInner(Box::new(p()))) },
            ObjTy::IO_BUFFER => ObjKind { io_buffer: ManuallyDrop::new(Box::new(IoBufferInner(Box::new(p())))) },
            ObjTy::ARGF => ObjKind { argf: ManuallyDrop::new(Box::new(ArgfInner(Box::new(p())))) },
            ObjTy::FRAME => {
                let words: Box<[u64]> = kids.iter().map(|k| k.id()).collect();
                let len = words.len();
                let base = Box::into_raw(words) as *mut u64;
                ROOT::sys::watch(base as *mut u8, frame.unwrap());
                ObjKind { frame: FrameInner { base, len } }
            }
            _ => panic!("no constructor for {ty:?}"),
        };
        RValue { header: Header::new(class, ty), var_table: None, kind }
    }

    /// The payload of the kinds that own memory.
    pub fn sim_payload(&mut self) -> Option<&mut P> {
        unsafe {
            Some(match self.ty() {
                ObjTy::CLASS | ObjTy::MODULE => &mut (*self.kind.class).0,
                ObjTy::BIGNUM => &mut (*self.kind.bignum).0,
                ObjTy::STRING => &mut (*self.kind.string).0,
                ObjTy::TIME => &mut (*self.kind.time).0,
                ObjTy::ARRAY => &mut (*self.kind.array).0,
                ObjTy::EXCEPTION => &mut (*self.kind.exception).0,
                ObjTy::REGEXP => &mut (*self.kind.regexp).0,
                ObjTy::IO => &mut (*self.kind.io).0,
                ObjTy::FIBER => &mut (*self.kind.fiber).0,
                ObjTy::THREAD => &mut (*self.kind.thread).0,
                ObjTy::ENUMERATOR => &mut (*self.kind.enumerator).0,
                ObjTy::GENERATOR => &mut (*self.kind.generator).0,
                ObjTy::BINDING => &mut (*self.kind.binding).0,
                ObjTy::MATCHDATA => &mut (*self.kind.matchdata).0,
                ObjTy::RATIONAL => &mut (*self.kind.rational).0,
                ObjTy::STRUCT => &mut (*self.kind.struct_inner).0,
                ObjTy::ARITHMETIC_SEQUENCE => &mut (*self.kind.arithmetic_sequence).0,
                ObjTy::IO_BUFFER => &mut (*self.kind.io_buffer).0,
                ObjTy::ARGF => &mut (*self.kind.argf).0,
                _ => return None,
            })
        }
    }

    /// References held in the payload (not hashes).
    pub fn sim_kids(&mut self) -> Vec<Value> {
        unsafe {
            match self.ty() {
                ObjTy::COMPLEX => self.kind.complex.kids.to_vec(),
                ObjTy::RANGE => self.kind.range.kids.to_vec(),
                ObjTy::PROC => self.kind.proc.kids.to_vec(),
                ObjTy::METHOD => self.kind.method.kids.to_vec(),
                ObjTy::FRAME => self.kind.frame.lfp().words().iter().map(|w| Value::from_u64(*w)).collect(),
                _ => self.sim_payload().map(|p| p.kids.clone()).unwrap_or_default(),
            }
        }
    }
    /// Store into a slot of the payload, without a barrier.
    pub fn sim_store(&mut self, i: usize, v: Value) {
        unsafe {
            match self.ty() {
                ObjTy::COMPLEX => (*self.kind.complex).kids[i] = v,
                ObjTy::RANGE => (*self.kind.range).kids[i] = v,
                ObjTy::PROC => (*self.kind.proc).kids[i] = v,
                ObjTy::METHOD => (*self.kind.method).kids[i] = v,
                ObjTy::FRAME => *self.kind.frame.base.add(i) = v.id(),
                _ => self.sim_payload().unwrap().kids[i] = v,
            }
        }
    }
    pub fn sim_object(&self) -> [Option<Value>; OBJECT_INLINE_IVAR] {
        unsafe { self.kind.object }
    }
    pub fn sim_table(&mut self) -> Option<&mut MonoVec<Option<Value>>> {
        self.var_table.as_deref_mut()
    }
    pub fn sim_live(&self) -> bool {
        self.header.is_live()
    }
    pub fn sim_frame_words(&self) -> usize {
        unsafe { self.kind.frame.len }
    }
}

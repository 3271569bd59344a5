#![allow(dead_code, unused_imports, static_mut_refs, improper_ctypes_definitions, clippy::all)]
mod co;
mod enu;
mod fib;
mod mem;
mod stubs;
mod world;
pub use stubs::*;

pub mod alloc {
    use std::marker::PhantomData;
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub struct Allocator<T> {
        p: PhantomData<T>,
        pub execs: Vec<usize>,
        pub procs: Vec<usize>,
        pub values: Vec<u64>,
    }
    impl<T> Allocator<T> {
        pub fn new() -> Self {
            Allocator { p: PhantomData, execs: vec![], procs: vec![], values: vec![] }
        }
    }
}

pub mod value {
    pub mod rvalue {
        pub use crate::*;
        include!(concat!(env!("OUT_DIR"), "/mods.rs"));
    }
}
pub use value::rvalue::enumerator::*;
pub use value::rvalue::fiber::*;

pub mod scheduler {
    use crate::*;
    /// The running thread's object; its number tells whose fiber is called.
    pub fn current_thread(_: &mut Executor) -> Value {
        Value::integer(crate::world::w().thread)
    }
}

pub mod builtins {
    include!(concat!(env!("OUT_DIR"), "/meth_mod.rs"));
    pub mod thread {
        use crate::*;
        pub fn build_async_error(
            _: &mut Executor,
            _: &mut Globals,
            args: &[Value],
            _: Option<Value>,
        ) -> Result<MonorubyErr> {
            Ok(MonorubyErr::new(MonorubyErrKind::User(args[0].try_int().unwrap()), "raised"))
        }
    }
}

fn init() {}

fn main() {
    simcore::main(&simcore::Suite { name: "fibersim", props: fib::props(), init });
}

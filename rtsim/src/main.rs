#![allow(dead_code, unused_imports, clippy::all)]
/// Text written to standard error by the code under test.
macro_rules! eprint {
    ($($a:tt)*) => { $crate::hooks::stderr(&format!($($a)*)) };
}
mod co;
mod hooks;
mod poll;
mod pool;
mod rb;
mod rbparse;
mod sync;
mod sched;
mod simlibc;
mod simstd;
mod stubs;
mod tick;
mod world;

pub use stubs::*;

/// Thread-local variables: one instance per simulated OS thread and run.
#[macro_export]
macro_rules! sim_thread_local {
    () => {};
    ($(#[$m:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } ; $($rest:tt)*) => {
        $(#[$m])* $v static $n: $crate::SimKey<$t> = $crate::SimKey::new(|| $e);
        $crate::sim_thread_local!($($rest)*);
    };
    ($(#[$m:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr }) => {
        $(#[$m])* $v static $n: $crate::SimKey<$t> = $crate::SimKey::new(|| $e);
    };
    ($(#[$m:meta])* $v:vis static $n:ident : $t:ty = $e:expr ; $($rest:tt)*) => {
        $(#[$m])* $v static $n: $crate::SimKey<$t> = $crate::SimKey::new(|| $e);
        $crate::sim_thread_local!($($rest)*);
    };
    ($(#[$m:meta])* $v:vis static $n:ident : $t:ty = $e:expr) => {
        $(#[$m])* $v static $n: $crate::SimKey<$t> = $crate::SimKey::new(|| $e);
    };
}

pub struct SimKey<T: 'static> {
    f: fn() -> T,
    v: std::cell::UnsafeCell<Vec<(usize, &'static T)>>,
}
unsafe impl<T> Sync for SimKey<T> {}
impl<T: 'static> SimKey<T> {
    pub const fn new(f: fn() -> T) -> Self {
        SimKey { f, v: std::cell::UnsafeCell::new(Vec::new()) }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let c = world::w().cur;
        let v = unsafe { &mut *self.v.get() };
        if let Some((_, t)) = v.iter().find(|x| x.0 == c) {
            return f(*t);
        }
        let t: &'static T = Box::leak(Box::new((self.f)()));
        unsafe { (*self.v.get()).push((c, t)) };
        f(t)
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> std::result::Result<R, ()> {
        Ok(self.with(f))
    }
}
impl<T: Copy> SimKey<std::cell::Cell<T>> {
    pub fn get(&'static self) -> T {
        self.with(|c| c.get())
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

pub mod alloc {
    use crate::RValue;
    use std::cell::RefCell;
    use std::marker::PhantomData;
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub trait GCRoot<T>: GC<T> {}
    pub struct Allocator<T> {
        p: PhantomData<T>,
        seen: Vec<u64>,
        pub execs: Vec<u64>,
        count: usize,
    }
    impl<T> Allocator<T> {
        pub fn see(&mut self, id: u64) -> bool {
            let new = !self.seen.contains(&id);
            if new {
                self.seen.push(id);
            }
            new
        }
        pub fn gc_counter(&self) -> usize {
            self.count
        }
        pub fn gc(&mut self, root: &impl GCRoot<T>) {
            self.count += 1;
            self.seen.clear();
            self.execs.clear();
            root.mark(self);
            crate::hooks::gc(&self.execs, self.seen.len());
            // a completed collection answers the request
            crate::poll_flag::clear_gc();
        }
    }
    thread_local! {
        pub static ALLOC: RefCell<Allocator<RValue>> =
            const { RefCell::new(Allocator { p: PhantomData, seen: vec![], execs: vec![], count: 0 }) };
    }
}

pub mod value {
    pub mod rvalue {
        pub use crate::*;
        include!(concat!(env!("OUT_DIR"), "/thread_mod.rs"));
        pub use thread::*;
        pub mod io {
            pub fn flush_std_streams() {}
        }
    }
}
pub use value::rvalue;

pub mod executor {
    pub use crate::{Executor, Result};
    use crate::*;
    include!(concat!(env!("OUT_DIR"), "/safepoint.rs"));
}

pub mod globals {
    pub use crate::Globals;
    pub use crate::{INTERRUPT as INTERRUPT_CLASS, SIGNAL as SIGNAL_EXCEPTION_CLASS};
}

pub mod codegen {
    include!(concat!(env!("OUT_DIR"), "/sig_mod.rs"));
}

pub mod builtins {
    pub mod fiddle {
        pub(crate) struct FfiWorkerCall(pub i64);
        impl FfiWorkerCall {
            pub(crate) fn run(&self) -> i64 {
                crate::hooks::native_op("ffi", self.0, 0).unwrap_or(-1)
            }
        }
    }
}

include!(concat!(env!("OUT_DIR"), "/mods.rs"));

fn main() {
    let mut props = vec![];
    props.extend(poll::props());
    props.extend(tick::props());
    props.extend(pool::props());
    props.extend(sched::props());
    props.extend(sync::props());
    simcore::main(&simcore::Suite { name: "rtsim", props: props.leak(), init: sync::load });
}

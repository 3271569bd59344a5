#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]
mod co;
mod prog;
mod simlibc;
mod simstd;
mod stubs;
mod world;

pub mod builtins {
    use crate::stubs::*;
    include!(concat!(env!("OUT_DIR"), "/io.rs"));
}
pub mod value {
    pub mod rvalue {
        pub use crate::stubs::ObjTy;
    }
}
pub mod codegen {
    pub mod signal_table {
        pub static PENDING_SIGNALS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    }
}
pub mod executor {
    use crate::stubs::*;
    /// The safepoint: signal handlers, interrupts and other threads.
    pub fn execute_gc(vm: &mut Executor, _: &mut Globals) -> Option<Value> {
        match crate::world::w().safepoint() {
            Ok(()) => Some(Value::nil()),
            Err(e) => {
                vm.error = Some(e);
                None
            }
        }
    }
}
pub mod scheduler {
    use crate::simstd::time::{Duration, Instant};
    use crate::stubs::*;
    pub fn has_other_live_threads() -> bool {
        crate::world::w().others()
    }
    pub fn wait_fd(vm: &mut Executor, g: &mut Globals, fd: i32, events: i16, deadline: Option<Instant>) -> Result<()> {
        wait_fds(vm, g, &[(fd, events)], deadline)
    }
    pub fn wait_fds(_: &mut Executor, _: &mut Globals, fds: &[(i32, i16)], deadline: Option<Instant>) -> Result<()> {
        crate::world::w().park(fds.to_vec(), deadline.map(|d| d.ns()), true)
    }
    pub fn sleep(_: &mut Executor, _: &mut Globals, d: Option<Duration>) -> Result<()> {
        let w = crate::world::w();
        w.park(vec![], d.map(|d| w.now.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64)), false)
    }
}

fn init() {}

fn main() {
    simcore::main(&simcore::Suite { name: "waitsim", props: prog::PROPS, init })
}

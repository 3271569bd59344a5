#![feature(c_variadic)]
#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]
mod co;
mod kern;
mod simlibc;
mod simstd;
mod sock;
mod stubs;
mod world;

pub mod builtins {
    pub use crate::stubs::*;
    include!(concat!(env!("OUT_DIR"), "/mods.rs"));
    pub mod io {
        use crate::stubs::*;
        include!(concat!(env!("OUT_DIR"), "/io.rs"));
        pub fn io_wait_class(_: &Globals, name: &str) -> Option<ClassId> {
            Some(ClassId(IdentId::get_id(name).0))
        }
    }
    pub mod file {
        use crate::stubs::*;
        include!(concat!(env!("OUT_DIR"), "/file.rs"));
    }
}

pub mod codegen {
    pub mod signal_table {
        pub static PENDING_SIGNALS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    }
}

pub mod executor {
    use crate::stubs::*;
    /// The safepoint: signal handlers, interrupts and other threads.
    pub fn execute_gc(vm: &mut Executor, _: &mut Globals) -> Option<Value> {
        match crate::world::w().safepoint() {
            Ok(()) => Some(Value::nil()),
            Err(e) => {
                vm.error = Some(e);
                None
            }
        }
    }
}

pub mod scheduler {
    use crate::stubs::*;
    pub fn has_other_live_threads() -> bool {
        crate::world::w().others()
    }
    pub fn wait_fd(_: &mut Executor, _: &mut Globals, fd: i32, events: i16, deadline: Option<crate::simstd::time::Instant>) -> Result<()> {
        crate::world::w().wait_fd(fd, events, deadline.map(|d| d.0.as_nanos().min(u64::MAX as u128) as u64))
    }
}

fn init() {}

fn main() {
    simcore::main(&simcore::Suite { name: "socksim", props: sock::PROPS, init })
}

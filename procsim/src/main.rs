#![feature(c_variadic)]
#![allow(dead_code, unused_imports, clippy::all)]
mod kern;
mod simlibc;
mod start;
mod stubs;

pub mod builtins {
    pub use crate::stubs::*;
    include!(concat!(env!("OUT_DIR"), "/mods.rs"));
    pub mod kernel {
        /// Word splitting, or the shell for a command with a metacharacter.
        pub fn prepare_command_arg(input: &str) -> (String, Vec<String>) {
            if input.contains([';', '$', '|']) {
                return ("sh".into(), vec!["-c".into(), input.into()]);
            }
            let mut w = input.split_whitespace().map(|s| s.to_string());
            let p = w.next().unwrap_or_default();
            (p, w.collect())
        }
    }
    pub mod file {
        use crate::stubs::*;
        pub fn oflags_from_mode_string(mode: &str) -> Result<(i64, bool)> {
            let f = match mode {
                "r" => libc::O_RDONLY,
                "w" => libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC,
                "a" => libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND,
                _ => return Err(MonorubyErr::argumenterr("invalid access mode")),
            };
            Ok((f as i64, false))
        }
    }
}

pub mod executor {
    use crate::stubs::*;
    /// The safepoint after an interrupted call: runs the signal handler.
    pub fn execute_gc(vm: &mut Executor, _: &mut Globals) -> Option<Value> {
        let k = crate::kern::k();
        crate::kern::ctx().probe("handler");
        if std::mem::take(&mut k.raising) {
            k.raised = true;
            vm.error = Some(MonorubyErr::Raised);
            return None;
        }
        Some(Value::nil())
    }
}

pub mod scheduler {
    use crate::stubs::*;
    pub fn set_last_status(_: &mut Executor, v: Value) {
        if let V::Status(a, b) = v.v() {
            crate::kern::k().status = Some((*a, *b));
        }
    }
}

fn init() {}

fn main() {
    simcore::main(&simcore::Suite { name: "procsim", props: start::PROPS, init })
}

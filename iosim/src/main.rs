#![feature(c_variadic)]
#![allow(dead_code, unused_imports, clippy::all)]
mod kern;
mod rawsim;
mod simlibc;
mod simstd;
mod stream;

pub mod raw {
    include!(concat!(env!("OUT_DIR"), "/raw.rs"));
}

pub mod codegen {
    pub mod signal_table {
        pub struct Sig;
        impl Sig {
            pub fn load(&self, _: std::sync::atomic::Ordering) -> u32 {
                crate::kern::k().poll_signal() as u32 * 2
            }
        }
        pub static PENDING_SIGNALS: Sig = Sig;
        pub fn has_pending_signals() -> bool {
            crate::kern::k().poll_signal()
        }
    }
}

pub mod alloc {
    pub struct Allocator<T>(std::marker::PhantomData<T>);
}

pub struct Store;
pub struct RValue;

#[derive(Debug, Clone, PartialEq)]
pub enum MonorubyErr {
    Signal,
    WouldBlock,
    Errno(i32),
    Other(String),
}

impl MonorubyErr {
    pub fn signal_interrupt() -> Self {
        MonorubyErr::Signal
    }
    pub fn would_block_interrupt() -> Self {
        MonorubyErr::WouldBlock
    }
    pub fn is_signal_interrupt(&self) -> bool {
        *self == MonorubyErr::Signal
    }
    pub fn is_would_block_interrupt(&self) -> bool {
        *self == MonorubyErr::WouldBlock
    }
    fn of(e: &std::io::Error) -> Self {
        MonorubyErr::Errno(e.raw_os_error().unwrap_or(0))
    }
    pub fn errno_plain(_: &Store, e: &std::io::Error) -> Self {
        Self::of(e)
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, _: &str) -> Self {
        Self::of(e)
    }
    pub fn from_io_err(_: &Store, e: &std::io::Error, _: impl Into<String>) -> Self {
        Self::of(e)
    }
    pub fn runtimeerr(s: impl ToString) -> Self {
        MonorubyErr::Other(s.to_string())
    }
    pub fn ioerr(s: impl ToString) -> Self {
        MonorubyErr::Other(s.to_string())
    }
    pub fn argumenterr(s: impl ToString) -> Self {
        MonorubyErr::Other(s.to_string())
    }
}

pub mod value {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Encoding {
        Utf8,
        Ascii8,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Value(pub u64);
    impl Value {
        pub fn mark(&self, _: &mut crate::alloc::Allocator<crate::RValue>) {}
    }
    pub mod rvalue {
        pub(crate) use super::Value;
        pub(crate) use crate::{alloc, MonorubyErr, RValue, Store};
        pub type Result<T> = std::result::Result<T, MonorubyErr>;
        include!(concat!(env!("OUT_DIR"), "/mods.rs"));
        use crate::simstd::fs::File;
        pub use io::*;

        pub fn new_stdin() -> IoInner {
            IoInner::stdin()
        }
        pub fn new_stdout() -> IoInner {
            IoInner::stdout()
        }
        pub fn new_stderr() -> IoInner {
            IoInner::stderr()
        }
        pub fn new_file(file: File, r: bool, w: bool) -> IoInner {
            IoInner::file(file, "f".to_string(), None, r, w)
        }
        pub fn new_socket(file: File) -> IoInner {
            IoInner::socket(file, "s".to_string())
        }
        pub fn new_popen(c: crate::simstd::process::Child) -> IoInner {
            IoInner::popen(c)
        }
        pub fn new_fd(fd: i32, r: bool, w: bool, autoclose: bool) -> IoInner {
            IoInner::from_raw_fd_autoclose(fd, "p".to_string(), false, r, w, autoclose)
        }
    }
}
pub use value::rvalue;
pub use value::Value;

use simcore::{Ctx, Prop, RunResult, Suite};

fn c12(ctx: &mut Ctx) -> RunResult {
    if ctx.draw(4) == 3 { rawsim::writer(ctx) } else { stream::run(ctx, true) }
}
fn c13(ctx: &mut Ctx) -> RunResult {
    if ctx.draw(4) == 3 { rawsim::reader(ctx) } else { stream::run(ctx, false) }
}

const REAL: &[&str] = &["monoruby/src/value/rvalue/io.rs", "monoruby/src/value/rvalue/io/buf.rs (text of /repo, std and libc redirected)"];
const STUB: &[&str] = &["kernel (files, pipes, terminals, children)", "signal bitmap", "error values", "the retry loop of the IO methods"];

static PROPS: &[Prop] = &[
    Prop { rule: "runs in which bytes were written and a transfer was short, interrupted or refused", measure: "distinct (stream kind, operation, outcome, bytes buffered class)", real: REAL, stub: STUB, quick_runs: 1_500_000, ..Prop::base("C12", c12) },
    Prop { rule: "runs in which bytes were read and a transfer was short, interrupted or refused", measure: "distinct (stream kind, operation, outcome, bytes left class)", real: REAL, stub: STUB, quick_runs: 1_500_000, ..Prop::base("C13", c13) },
];

fn init() {}

fn main() {
    simcore::main(&Suite { name: "iosim", props: PROPS, init })
}

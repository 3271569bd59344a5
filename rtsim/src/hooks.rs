//! Calls from the simulated machine and the interpreter stand-ins into the
//! harness of the running property.
use crate::codegen::signal_table::SignalDisposition;
use crate::{ExcHow, Executor, Globals, MonorubyErr, Obj, RUNTIME, Result, Value};

pub trait Harness {
    fn signal_sent(&mut self, _n: i32) {}
    fn signal_recorded(&mut self, _n: i32) {}
    fn trapped(&mut self, _vm: &mut Executor, _g: &mut Globals, _n: i32) -> Result<Value> {
        Ok(Value::nil())
    }
    /// What the process does with a signal: a handler if true.
    fn has_handler(&mut self, _n: i32) -> bool {
        true
    }
    fn fault_read(&mut self) -> bool {
        false
    }
    fn native_op(&mut self, _kind: &str, _a: i64, _b: i64) -> std::result::Result<i64, i32> {
        Ok(0)
    }
    fn report(&mut self, _vm: &mut Executor, _g: &mut Globals, _text: &str) -> Result<Value> {
        Ok(Value::nil())
    }
    fn body(&mut self, _vm: &mut Executor, _g: &mut Globals, _id: u64, _args: Vec<Value>) -> Result<Value> {
        Ok(Value::nil())
    }
    fn gc(&mut self, _execs: &[u64], _seen: usize) {}
    fn word_write(&mut self, _os: usize) {}
    fn stderr(&mut self, _text: &str) {}
    fn exited(&mut self, code: i32) {
        crate::world::w().abort("exit", format!("the process ended itself with status {code}"))
    }
}

static mut H: Option<*mut dyn Harness> = None;

pub fn set(h: &'static mut dyn Harness) {
    unsafe { H = Some(h) }
}

fn h() -> Option<&'static mut dyn Harness> {
    unsafe { H.map(|p| &mut *p) }
}

pub fn signal_sent(n: i32) {
    if let Some(h) = h() {
        h.signal_sent(n)
    }
}
pub fn signal_recorded(n: i32) {
    if let Some(h) = h() {
        h.signal_recorded(n)
    }
}
pub fn disposition(n: i32) -> SignalDisposition {
    if h().is_some_and(|h| h.has_handler(n)) {
        SignalDisposition::Handler(Value::nil())
    } else {
        SignalDisposition::Default
    }
}
pub fn env(_k: &str) -> Option<&'static str> {
    None
}
pub fn fault_read() -> bool {
    h().is_some_and(|h| h.fault_read())
}
pub fn native_op(kind: &str, a: i64, b: i64) -> std::result::Result<i64, i32> {
    h().unwrap().native_op(kind, a, b)
}
pub fn body(vm: &mut Executor, g: &mut Globals, id: u64, args: Vec<Value>) -> Result<Value> {
    h().unwrap().body(vm, g, id, args)
}
pub fn gc(execs: &[u64], seen: usize) {
    if let Some(h) = h() {
        h.gc(execs, seen)
    }
}
/// The code under test ends the process.
pub fn exited(code: i32) -> ! {
    h().unwrap().exited(code);
    crate::world::w().finish()
}
pub fn stderr(text: &str) {
    if let Some(h) = h() {
        h.stderr(text)
    }
}
pub fn word_write(os: usize) {
    if let Some(h) = h() {
        h.word_write(os)
    }
}

pub fn invoke(vm: &mut Executor, g: &mut Globals, name: &str, recv: Value, args: &[Value]) -> Result<Value> {
    match name {
        "call" => h().unwrap().trapped(vm, g, args[0].as_i64() as i32),
        "write" => h().unwrap().report(vm, g, args[0].is_str().unwrap_or("")),
        "exception" => {
            let e = recv.is_exception().unwrap();
            match e.how {
                ExcHow::Itself => Ok(recv),
                ExcHow::Other => Ok(Value::alloc(Obj::Exc(crate::ExceptionInner {
                    class: e.class,
                    msg: format!("{}'", e.msg),
                    how: ExcHow::Itself,
                }))),
                ExcHow::NotAnException => Ok(Value::nil()),
                ExcHow::Raises => Err(MonorubyErr::of(RUNTIME, format!("{}!", e.msg))),
            }
        }
        _ => panic!("unexpected call of {name}"),
    }
}

//! Runs the Ruby code of the interpreter's thread library. Methods, blocks
//! and loop heads are safepoints, as in the real machine; the built-in
//! methods the library calls are not. Scheduling calls go to the real
//! scheduler.
use crate::rbparse::{A, Blk, Func, L, N, Params, Parser, S, SP, intern};
use crate::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const INTEGER: ClassId = ClassId(16);
pub const FLOAT: ClassId = ClassId(17);
pub const STRING: ClassId = ClassId(18);
pub const SYMBOL: ClassId = ClassId(19);
pub const ARRAY: ClassId = ClassId(20);
pub const HASH: ClassId = ClassId(21);
pub const NILCLASS: ClassId = ClassId(22);
pub const TRUECLASS: ClassId = ClassId(23);
pub const FALSECLASS: ClassId = ClassId(24);
pub const CLASS: ClassId = ClassId(25);
pub const MODULE: ClassId = ClassId(26);
pub const PROC: ClassId = ClassId(27);
pub const NUMERIC: ClassId = ClassId(28);
pub const KERNEL: ClassId = ClassId(29);
pub const PROCESS: ClassId = ClassId(30);
pub const FIBER: ClassId = ClassId(31);
pub const INDEXERR: ClassId = ClassId(32);
pub const STOPITER: ClassId = ClassId(33);
pub const CLOSEDQ: ClassId = ClassId(34);
pub const NAMEERR: ClassId = ClassId(35);
pub const NOMETHOD: ClassId = ClassId(36);
pub const RANGEERR: ClassId = ClassId(37);
pub const FROZENERR: ClassId = ClassId(38);
pub const KEYERR: ClassId = ClassId(39);
pub const ZERODIV: ClassId = ClassId(40);
pub const SYSCALLERR: ClassId = ClassId(41);
pub const SCRIPTERR: ClassId = ClassId(42);
pub const NOTIMPL: ClassId = ClassId(43);
pub const MARSHAL: ClassId = ClassId(44);
pub const COMPARABLE: ClassId = ClassId(45);
pub const OBJSPACE: ClassId = ClassId(46);
const FIRST_FREE: u32 = 47;

const BUILTIN: &[(ClassId, &str, ClassId)] = &[
    (OBJECT_CLASS, "Object", OBJECT_CLASS),
    (THREAD_CLASS, "Thread", OBJECT_CLASS),
    (EXCEPTION, "Exception", OBJECT_CLASS),
    (STANDARD, "StandardError", EXCEPTION),
    (RUNTIME, "RuntimeError", STANDARD),
    (ARGUMENT, "ArgumentError", STANDARD),
    (TYPE, "TypeError", STANDARD),
    (IOERR, "IOError", STANDARD),
    (THREADERR, "ThreadError", STANDARD),
    (FATAL, "fatal", EXCEPTION),
    (INTERRUPT, "Interrupt", SIGNAL),
    (SIGNAL, "SignalException", EXCEPTION),
    (SYSEXIT, "SystemExit", EXCEPTION),
    (JUMP, "LocalJumpError", STANDARD),
    (THROW, "UncaughtThrowError", ARGUMENT),
    (INTEGER, "Integer", NUMERIC),
    (FLOAT, "Float", NUMERIC),
    (STRING, "String", OBJECT_CLASS),
    (SYMBOL, "Symbol", OBJECT_CLASS),
    (ARRAY, "Array", OBJECT_CLASS),
    (HASH, "Hash", OBJECT_CLASS),
    (NILCLASS, "NilClass", OBJECT_CLASS),
    (TRUECLASS, "TrueClass", OBJECT_CLASS),
    (FALSECLASS, "FalseClass", OBJECT_CLASS),
    (CLASS, "Class", MODULE),
    (MODULE, "Module", OBJECT_CLASS),
    (PROC, "Proc", OBJECT_CLASS),
    (NUMERIC, "Numeric", OBJECT_CLASS),
    (KERNEL, "Kernel", OBJECT_CLASS),
    (PROCESS, "Process", OBJECT_CLASS),
    (FIBER, "Fiber", OBJECT_CLASS),
    (INDEXERR, "IndexError", STANDARD),
    (STOPITER, "StopIteration", INDEXERR),
    (CLOSEDQ, "ClosedQueueError", STOPITER),
    (NAMEERR, "NameError", STANDARD),
    (NOMETHOD, "NoMethodError", NAMEERR),
    (RANGEERR, "RangeError", STANDARD),
    (FROZENERR, "FrozenError", RUNTIME),
    (KEYERR, "KeyError", INDEXERR),
    (ZERODIV, "ZeroDivisionError", STANDARD),
    (SYSCALLERR, "SystemCallError", STANDARD),
    (SCRIPTERR, "ScriptError", EXCEPTION),
    (NOTIMPL, "NotImplementedError", SCRIPTERR),
    (MARSHAL, "Marshal", OBJECT_CLASS),
    (COMPARABLE, "Comparable", OBJECT_CLASS),
    (OBJSPACE, "ObjectSpace", OBJECT_CLASS),
];

pub fn is_builtin(c: ClassId) -> bool {
    c.0 < FIRST_FREE
}

/// Superclass of a class that is not one of the scheduler's own.
pub fn superclass(c: ClassId) -> ClassId {
    if c.0 < FIRST_FREE {
        return BUILTIN.iter().find(|b| b.0 == c).map_or(OBJECT_CLASS, |b| b.2);
    }
    world().classes[c.0 as usize].sup
}

/// Control leaving an expression.
pub enum Ctl {
    Err(Box<MonorubyErr>),
    Ret(u64, Value),
    Brk(u64, Value),
    Nxt(Value),
    LBrk(Value),
    LNxt,
    Retry,
}
pub type R<T = Value> = std::result::Result<T, Ctl>;

impl From<MonorubyErr> for Ctl {
    fn from(e: MonorubyErr) -> Ctl {
        Ctl::Err(Box::new(e))
    }
}

pub fn raise<X>(c: ClassId, m: impl Into<String>) -> R<X> {
    Err(MonorubyErr::of(c, m).into())
}

/// The evaluator cannot do this: the check is at fault, not the code.
pub fn cannot(m: String) -> ! {
    simcore::fatal("harness", &format!("evaluator: {m}"))
}

#[derive(Clone)]
enum Meth {
    Ruby(&'static Func, ClassId),
    Reader(S),
    Writer(S),
    Block(Rc<Block>, ClassId),
    /// the built-in method of this name
    Native(S),
    Poison(String),
}

struct Class {
    name: String,
    sup: ClassId,
    module: bool,
    meths: HashMap<S, Meth>,
    sing: HashMap<S, Meth>,
    consts: HashMap<S, Value>,
    mixins: Vec<ClassId>,
    cvars: HashMap<S, Value>,
    module_function: bool,
}

struct World {
    classes: Vec<Class>,
    gvars: HashMap<S, Value>,
    frames: u64,
    errinfo: HashMap<u64, Value>,
}

static mut RB: Option<World> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { RB.as_mut().unwrap() }
}

/// Called at every safepoint of Ruby code.
pub static mut POLL: Option<fn(&mut Executor, &mut Globals) -> Result<()>> = None;
/// Code run to look at an object, not by a thread: no safepoints.
pub static mut QUIET: bool = false;

#[derive(Clone, Copy)]
pub struct Cx {
    pub vm: *mut Executor,
    pub g: *mut Globals,
}
impl Cx {
    pub fn new(vm: &mut Executor, g: &mut Globals) -> Cx {
        Cx { vm, g }
    }
    pub fn vm(&self) -> &'static mut Executor {
        unsafe { &mut *self.vm }
    }
    pub fn g(&self) -> &'static mut Globals {
        unsafe { &mut *self.g }
    }
    /// A safepoint of Ruby code.
    pub fn poll(&self) -> R<()> {
        unsafe {
            if !QUIET && let Some(f) = POLL {
                f(self.vm(), self.g())?;
            }
        }
        Ok(())
    }
}

pub struct Env {
    vars: RefCell<Vec<(S, Value)>>,
    parent: Option<Rc<Env>>,
}
impl Env {
    fn new(parent: Option<Rc<Env>>) -> Rc<Env> {
        Rc::new(Env { vars: RefCell::new(vec![]), parent })
    }
    fn get(&self, s: S) -> Option<Value> {
        let mut e = Some(self);
        while let Some(x) = e {
            if let Some((_, v)) = x.vars.borrow().iter().find(|(n, _)| std::ptr::eq(*n, s)) {
                return Some(*v);
            }
            e = x.parent.as_deref();
        }
        None
    }
    fn set(&self, s: S, v: Value) {
        let mut e = Some(self);
        while let Some(x) = e {
            if let Some(p) = x.vars.borrow_mut().iter_mut().find(|(n, _)| std::ptr::eq(*n, s)) {
                p.1 = v;
                return;
            }
            e = x.parent.as_deref();
        }
        self.bind(s, v);
    }
    fn bind(&self, s: S, v: Value) {
        let mut b = self.vars.borrow_mut();
        match b.iter_mut().find(|(n, _)| std::ptr::eq(*n, s)) {
            Some(p) => p.1 = v,
            None => b.push((s, v)),
        }
    }
}

struct Frame {
    id: u64,
    me: Value,
    /// where the running method was found
    owner: ClassId,
    name: S,
    args: Args,
    /// enclosing modules, innermost last
    nest: Rc<Vec<ClassId>>,
    /// methods are defined here
    into: (ClassId, bool),
}

pub enum Block {
    Ruby { blk: &'static Blk, env: Rc<Env>, f: Rc<Frame>, tag: u64, lambda: bool },
    Native(Box<dyn Fn(Cx, &[Value]) -> R>),
    Sym(S),
}

#[derive(Default, Clone)]
pub struct Args {
    pub pos: Vec<Value>,
    pub kw: Vec<(S, Value)>,
    pub block: Option<Rc<Block>>,
}
impl Args {
    pub fn of(pos: &[Value]) -> Args {
        Args { pos: pos.to_vec(), kw: vec![], block: None }
    }
    pub fn kw(mut self, k: S, v: Value) -> Args {
        self.kw.push((intern(k), v));
        self
    }
    pub fn block(mut self, f: impl Fn(Cx, &[Value]) -> R + 'static) -> Args {
        self.block = Some(Rc::new(Block::Native(Box::new(f))));
        self
    }
}

// ---- set-up ---------------------------------------------------------------

/// Reads and runs the library sources.
pub fn load(files: &[(&str, &str)]) -> std::result::Result<(), String> {
    let mut classes: Vec<Class> = vec![];
    for id in 0..FIRST_FREE {
        let b = BUILTIN.iter().find(|b| b.0.0 == id);
        classes.push(Class {
            name: b.map_or(String::new(), |b| b.1.to_string()),
            sup: b.map_or(OBJECT_CLASS, |b| b.2),
            module: matches!(ClassId(id), KERNEL | PROCESS | MARSHAL | COMPARABLE | OBJSPACE),
            meths: HashMap::new(),
            sing: HashMap::new(),
            consts: HashMap::new(),
            mixins: vec![],
            cvars: HashMap::new(),
            module_function: false,
        });
    }
    for b in BUILTIN {
        classes[OBJECT_CLASS.0 as usize].consts.insert(intern(b.1), b.0.val());
    }
    classes[PROCESS.0 as usize].consts.insert(intern("CLOCK_MONOTONIC"), Value::integer(1));
    classes[PROCESS.0 as usize].consts.insert(intern("CLOCK_REALTIME"), Value::integer(0));
    unsafe { RB = Some(World { classes, gvars: HashMap::new(), frames: 0, errinfo: HashMap::new() }) };
    let vm: &'static mut Executor = Box::leak(Box::new(Executor::default()));
    let g: &'static mut Globals = Box::leak(Box::new(Globals::default()));
    let cx = Cx::new(vm, g);
    for (f, src) in files {
        let mut p = Parser::new(src);
        let n = p.program().map_err(|e| format!("{f}:{}: {}", e.1, e.0))?;
        let n: &'static N = Box::leak(Box::new(n));
        let main = Value::alloc(Obj::Plain);
        let fr = Rc::new(Frame {
            id: 0,
            me: main,
            owner: OBJECT_CLASS,
            name: "",
            args: Args::default(),
            nest: Rc::new(vec![]),
            into: (OBJECT_CLASS, false),
        });
        let env = Env::new(None);
        body_stmts(cx, &fr, &env, n).map_err(|e| format!("{f}: {}", describe(&e)))?;
    }
    Ok(())
}

pub fn describe(c: &Ctl) -> String {
    match c {
        Ctl::Err(e) => format!("{}: {}", class_name(e.class_id()), e.message),
        Ctl::Ret(..) => "return".into(),
        Ctl::Brk(..) | Ctl::LBrk(_) => "break".into(),
        Ctl::Nxt(_) | Ctl::LNxt => "next".into(),
        Ctl::Retry => "retry".into(),
    }
}

/// Statements of a class body or a program. One that needs something that
/// is not there is left out.
fn body_stmts(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, n: &'static N) -> R<()> {
    let one;
    let v: &[N] = match n {
        N::Seq(v) => v,
        n => {
            one = n;
            std::slice::from_ref(one)
        }
    };
    for n in v {
        match eval(cx, f, env, n) {
            Ok(_) => {}
            Err(Ctl::Err(e)) => {
                if std::env::var("RB_DEBUG").is_ok() {
                    std::eprintln!("skipped: {}", e.message);
                }
            }
            Err(c) => return Err(c),
        }
    }
    Ok(())
}

pub fn class_at(path: &[&str]) -> ClassId {
    let mut c = OBJECT_CLASS;
    for p in path {
        match world().classes[c.0 as usize].consts.get(intern(p)).and_then(|v| v.is_class_or_module()) {
            Some(m) => c = m.id(),
            None => cannot(format!("no class {p}")),
        }
    }
    c
}

pub fn has_class(path: &[&str]) -> bool {
    let mut c = OBJECT_CLASS;
    for p in path {
        match world().classes[c.0 as usize].consts.get(intern(p)).and_then(|v| v.is_class_or_module()) {
            Some(m) => c = m.id(),
            None => return false,
        }
    }
    true
}

pub fn class_name(c: ClassId) -> String {
    world().classes[c.0 as usize].name.clone()
}

pub fn class_of(v: Value) -> ClassId {
    if v.is_nil() {
        return NILCLASS;
    }
    if v == Value::bool(true) {
        return TRUECLASS;
    }
    if v == Value::bool(false) {
        return FALSECLASS;
    }
    if v.id() & 1 == 1 {
        return INTEGER;
    }
    match v.obj() {
        Some(Obj::Thread(_)) => THREAD_CLASS,
        Some(Obj::Str(_)) => STRING,
        Some(Obj::Exc(e)) => e.class,
        Some(Obj::Class(c)) => {
            if world().classes[c.0 as usize].module {
                MODULE
            } else {
                CLASS
            }
        }
        Some(Obj::Plain) => OBJECT_CLASS,
        Some(Obj::Proc(_)) => PROC,
        Some(Obj::Arr(_)) => ARRAY,
        Some(Obj::Flt(_)) => FLOAT,
        Some(Obj::Sym(_)) => SYMBOL,
        Some(Obj::Hash(_)) => HASH,
        Some(Obj::Inst(c)) => *c,
        Some(Obj::Closure(_)) => PROC,
        None => cannot(format!("what is value {}", v.id())),
    }
}

fn is_int(v: Value) -> bool {
    v.id() & 1 == 1
}
pub fn flt(f: f64) -> Value {
    Value::alloc(Obj::Flt(f))
}
pub fn sym(s: S) -> Value {
    thread_local!(static M: RefCell<HashMap<&'static str, Value>> = RefCell::new(HashMap::new()));
    let s = intern(s);
    M.with(|m| *m.borrow_mut().entry(s).or_insert_with(|| Value::alloc(Obj::Sym(s))))
}
fn arr(v: Vec<Value>) -> Value {
    Value::alloc(Obj::Arr(v))
}
pub fn as_f64(v: Value) -> Option<f64> {
    if is_int(v) {
        return Some(v.as_i64() as f64);
    }
    match v.obj() {
        Some(Obj::Flt(f)) => Some(*f),
        _ => None,
    }
}
pub fn as_arr(v: Value) -> Option<&'static mut Vec<Value>> {
    match v.obj() {
        Some(Obj::Arr(a)) => Some(a),
        _ => None,
    }
}

/// Classes searched for a method of an instance of `c`.
fn lineage(c: ClassId) -> Vec<ClassId> {
    let mut v = vec![];
    let mut c = c;
    loop {
        v.push(c);
        for m in world().classes[c.0 as usize].mixins.iter().rev() {
            v.push(*m);
        }
        if c == OBJECT_CLASS {
            break;
        }
        c = superclass(c);
    }
    v.push(KERNEL);
    v
}

fn find(recv: Value, name: S, after: Option<ClassId>) -> Option<(Meth, ClassId)> {
    if let Some(m) = recv.is_class_or_module() {
        // methods of the class itself
        let mut skip = after.is_some();
        let mut c = m.id();
        loop {
            if !skip && let Some(x) = world().classes[c.0 as usize].sing.get(name) {
                return Some((x.clone(), c));
            }
            if Some(c) == after {
                skip = false;
            }
            if c == OBJECT_CLASS || world().classes[c.0 as usize].module {
                break;
            }
            c = superclass(c);
        }
    }
    let mut skip = after.is_some();
    for c in lineage(class_of(recv)) {
        if !skip && let Some(x) = world().classes[c.0 as usize].meths.get(name) {
            return Some((x.clone(), c));
        }
        if Some(c) == after {
            skip = false;
        }
    }
    None
}

// ---- calls ----------------------------------------------------------------

/// Calls a method as the running thread.
pub fn call(cx: Cx, recv: Value, name: &str, args: Args) -> R {
    send(cx, recv, intern(name), args)
}

/// Calls a method without safepoints, to look at the object.
pub fn peek(cx: Cx, recv: Value, name: &str, args: Args) -> R {
    unsafe { QUIET = true };
    let r = send(cx, recv, intern(name), args);
    unsafe { QUIET = false };
    r
}

pub fn ivar(cx: Cx, v: Value, name: &str) -> Value {
    cx.g().store.get_ivar(v, IdentId::get_id(intern(name))).unwrap_or(Value::nil())
}

fn send(cx: Cx, recv: Value, name: S, args: Args) -> R {
    match find(recv, name, None) {
        Some((m, c)) => invoke(cx, recv, name, m, c, args),
        None => native(cx, recv, name, args),
    }
}

fn invoke(cx: Cx, recv: Value, name: S, m: Meth, at: ClassId, args: Args) -> R {
    match m {
        Meth::Ruby(f, owner) => ruby(cx, recv, f, if world().classes[owner.0 as usize].module { at } else { owner }, owner, args),
        Meth::Reader(i) => Ok(cx.g().store.get_ivar(recv, IdentId::get_id(i)).unwrap_or(Value::nil())),
        Meth::Writer(i) => {
            cx.g().store.set_ivar(recv, IdentId::get_id(i), args.pos[0]);
            Ok(args.pos[0])
        }
        Meth::Native(n) => native(cx, recv, n, args),
        Meth::Block(b, _) => call_block_as(cx, &b, args, Some(recv)),
        Meth::Poison(why) => cannot(format!("method {name} could not be read: {why}")),
    }
}

#[inline(never)]
fn ruby(cx: Cx, recv: Value, func: &'static Func, at: ClassId, owner: ClassId, args: Args) -> R {
    let _ = at;
    let w = world();
    w.frames += 1;
    let id = w.frames;
    let env = Env::new(None);
    let fr = Rc::new(Frame {
        id,
        me: recv,
        owner,
        name: func.name,
        args,
        nest: nest_of(owner),
        into: (owner, false),
    });
    bind(cx, &fr, &env, &func.params, &fr.args.pos, &fr.args.kw, &fr.args.block, true, func.name)?;
    cx.poll()?;
    match eval(cx, &fr, &env, &func.body) {
        Err(Ctl::Ret(i, v)) if i == id => Ok(v),
        r => r,
    }
}

/// The modules a class is nested in, from its name.
fn nest_of(c: ClassId) -> Rc<Vec<ClassId>> {
    thread_local!(static M: RefCell<HashMap<u32, Rc<Vec<ClassId>>>> = RefCell::new(HashMap::new()));
    M.with(|m| {
        m.borrow_mut()
            .entry(c.0)
            .or_insert_with(|| {
                let mut v = vec![];
                let mut cur = OBJECT_CLASS;
                for p in world().classes[c.0 as usize].name.split("::") {
                    if let Some(x) = world().classes[cur.0 as usize].consts.get(intern(p)).and_then(|v| v.is_class_or_module()) {
                        cur = x.id();
                        v.push(cur);
                    }
                }
                Rc::new(v)
            })
            .clone()
    })
}

#[allow(clippy::too_many_arguments)]
fn bind(
    cx: Cx,
    fr: &Rc<Frame>,
    env: &Rc<Env>,
    p: &'static Params,
    pos: &[Value],
    kw: &[(S, Value)],
    block: &Option<Rc<Block>>,
    strict: bool,
    name: S,
) -> R<()> {
    let mut pos = pos.to_vec();
    let mut kw = kw.to_vec();
    if p.kw.is_empty() && p.kwrest.is_none() && !kw.is_empty() {
        let h = kw.drain(..).map(|(k, v)| (sym(k), v)).collect();
        pos.push(Value::alloc(Obj::Hash(h)));
    }
    let need = p.req.len() + p.post.len();
    if strict {
        if pos.len() < need || (p.rest.is_none() && pos.len() > need + p.opt.len()) {
            return raise(ARGUMENT, format!("wrong number of arguments (given {}, expected {need}) for {name}", pos.len()));
        }
    } else {
        let many = need + p.opt.len() + p.rest.is_some() as usize;
        if pos.len() == 1
            && (many > 1)
            && let Some(a) = as_arr(pos[0])
        {
            pos = a.clone();
        }
        while pos.len() < need {
            pos.push(Value::nil());
        }
    }
    let mut it = pos.iter().copied();
    let mut left = pos.len();
    for l in &p.req {
        let v = it.next().unwrap();
        left -= 1;
        bind_one(cx, fr, env, l, v)?;
    }
    for (s, d) in &p.opt {
        let v = if left > p.post.len() {
            left -= 1;
            it.next().unwrap()
        } else {
            eval(cx, fr, env, d)?
        };
        env.bind(s, v);
    }
    let extra = left - p.post.len().min(left);
    let rest: Vec<Value> = it.by_ref().take(extra).collect();
    if let Some(s) = p.rest {
        env.bind(s, arr(rest));
    }
    for l in &p.post {
        let v = it.next().unwrap_or(Value::nil());
        bind_one(cx, fr, env, l, v)?;
    }
    for (s, d) in &p.kw {
        let v = match kw.iter().position(|x| std::ptr::eq(x.0, *s)) {
            Some(i) => kw.remove(i).1,
            None => match d {
                Some(d) => eval(cx, fr, env, d)?,
                None => return raise(ARGUMENT, format!("missing keyword: :{s}")),
            },
        };
        env.bind(s, v);
    }
    if let Some(s) = p.kwrest {
        env.bind(s, Value::alloc(Obj::Hash(kw.iter().map(|(k, v)| (sym(k), *v)).collect())));
    } else if strict && !kw.is_empty() {
        return raise(ARGUMENT, format!("unknown keyword: :{}", kw[0].0));
    }
    if let Some(s) = p.block {
        let v = match block {
            Some(b) => Value::alloc(Obj::Closure(b.clone())),
            None => Value::nil(),
        };
        env.bind(s, v);
    }
    Ok(())
}

fn bind_one(cx: Cx, fr: &Rc<Frame>, env: &Rc<Env>, l: &'static L, v: Value) -> R<()> {
    match l {
        L::Lvar(s) => {
            env.bind(s, v);
            Ok(())
        }
        L::Nested(m) => {
            let a = as_arr(v).map_or(vec![v], |a| a.clone());
            multi(cx, fr, env, m, a)
        }
        l => assign(cx, fr, env, l, v),
    }
}

pub fn call_block(cx: Cx, b: &Rc<Block>, args: &[Value]) -> R {
    call_block_as(cx, b, Args::of(args), None)
}

fn call_block_as(cx: Cx, b: &Rc<Block>, args: Args, me: Option<Value>) -> R {
    match &**b {
        Block::Native(f) => {
            cx.poll()?;
            match f(cx, &args.pos) {
                Err(Ctl::Nxt(v)) => Ok(v),
                r => r,
            }
        }
        Block::Sym(s) => {
            let mut a = args;
            let r = a.pos.remove(0);
            send(cx, r, s, a)
        }
        Block::Ruby { blk, env, f, lambda, .. } => {
            let e = Env::new(Some(env.clone()));
            let f2;
            let f = match me {
                None => f,
                Some(v) => {
                    f2 = Rc::new(Frame {
                        id: f.id,
                        me: v,
                        owner: f.owner,
                        name: f.name,
                        args: f.args.clone(),
                        nest: f.nest.clone(),
                        into: f.into,
                    });
                    &f2
                }
            };
            bind(cx, f, &e, &blk.params, &args.pos, &args.kw, &args.block, *lambda || me.is_some(), "block")?;
            cx.poll()?;
            match eval(cx, f, &e, &blk.body) {
                Err(Ctl::Nxt(v)) => Ok(v),
                Err(Ctl::Ret(_, v)) if *lambda => Ok(v),
                r => r,
            }
        }
    }
}

// ---- expressions ----------------------------------------------------------

fn eval(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, n: &'static N) -> R {
    Ok(match n {
        N::Nil => Value::nil(),
        N::True => Value::bool(true),
        N::False => Value::bool(false),
        N::SelfN => f.me,
        N::Int(i) => Value::integer(*i),
        N::Flt(x) => flt(*x),
        N::Sym(s) => sym(s),
        N::Lvar(s) => env.get(s).unwrap_or(Value::nil()),
        N::Ivar(s) => cx.g().store.get_ivar(f.me, IdentId::get_id(s)).unwrap_or(Value::nil()),
        N::Gvar(s) => gvar(cx, s),
        N::Cvar(s) => world().classes[f.into.0.0 as usize].cvars.get(s).copied().unwrap_or(Value::nil()),
        N::And(a, b) => {
            let v = eval(cx, f, env, a)?;
            if v.as_bool() { eval(cx, f, env, b)? } else { v }
        }
        N::Or(a, b) => {
            let v = eval(cx, f, env, a)?;
            if v.as_bool() { v } else { eval(cx, f, env, b)? }
        }
        N::Not(a) => Value::bool(!eval(cx, f, env, a)?.as_bool()),
        N::If(c, a, b) => {
            if eval(cx, f, env, c)?.as_bool() {
                eval(cx, f, env, a)?
            } else {
                eval(cx, f, env, b)?
            }
        }
        N::Seq(v) => {
            let mut r = Value::nil();
            for n in v {
                r = eval(cx, f, env, n)?;
            }
            r
        }
        N::Asgn(l, v) => return asgn(cx, f, env, l, v),
        N::Call { .. } => return eval_call(cx, f, env, n),
        N::While { cond, until, body, first } => return eval_while(cx, f, env, cond, *until, body, *first),
        N::Begin { body, rescue, els, ensure } => return eval_begin(cx, f, env, body, rescue, els, ensure),
        N::Return(v) => {
            let v = match v {
                Some(v) => eval(cx, f, env, v)?,
                None => Value::nil(),
            };
            return Err(Ctl::Ret(f.id, v));
        }
        N::Break(lp, v) => {
            let v = match v {
                Some(v) => eval(cx, f, env, v)?,
                None => Value::nil(),
            };
            return Err(if *lp { Ctl::LBrk(v) } else { Ctl::Brk(tag_of(env), v) });
        }
        N::Next(lp, v) => {
            let v = match v {
                Some(v) => eval(cx, f, env, v)?,
                None => Value::nil(),
            };
            return Err(if *lp { Ctl::LNxt } else { Ctl::Nxt(v) });
        }
        N::Retry => return Err(Ctl::Retry),
        n => return eval_rare(cx, f, env, n),
    })
}

/// The call a block belongs to, for `break`.
fn tag_of(env: &Rc<Env>) -> u64 {
    let mut e = Some(env.clone());
    while let Some(x) = e {
        if let Some(p) = &x.parent {
            for (n, v) in p.vars.borrow().iter() {
                if *n == "%tag" {
                    return v.as_i64() as u64;
                }
            }
        }
        e = x.parent.clone();
    }
    0
}

#[inline(never)]
fn asgn(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, l: &'static L, n: &'static N) -> R {
    match l {
        L::Lvar(s) => {
            let v = eval(cx, f, env, n)?;
            env.set(s, v);
            Ok(v)
        }
        L::Ivar(s) => {
            let v = eval(cx, f, env, n)?;
            cx.g().store.set_ivar(f.me, IdentId::get_id(s), v);
            Ok(v)
        }
        L::Attr(r, name, safe) => {
            let r = eval(cx, f, env, r)?;
            if *safe && r.is_nil() {
                return Ok(r);
            }
            let v = eval(cx, f, env, n)?;
            send(cx, r, name, Args::of(&[v]))?;
            Ok(v)
        }
        L::Index(r, a) => {
            let r = eval(cx, f, env, r)?;
            let mut a = args(cx, f, env, a)?;
            let v = eval(cx, f, env, n)?;
            a.pos.push(v);
            send(cx, r, "[]=", a)?;
            Ok(v)
        }
        l => {
            let v = eval(cx, f, env, n)?;
            assign(cx, f, env, l, v)?;
            Ok(v)
        }
    }
}

fn assign(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, l: &'static L, v: Value) -> R<()> {
    match l {
        L::Lvar(s) => env.set(s, v),
        L::Ivar(s) => cx.g().store.set_ivar(f.me, IdentId::get_id(s), v),
        L::Gvar(s) => {
            world().gvars.insert(s, v);
        }
        L::Cvar(s) => {
            world().classes[f.into.0.0 as usize].cvars.insert(s, v);
        }
        L::Const(s) => {
            let c = f.into.0;
            if let Some(m) = v.is_class_or_module()
                && world().classes[m.id().0 as usize].name.is_empty()
            {
                world().classes[m.id().0 as usize].name = path_name(c, s);
            }
            world().classes[c.0 as usize].consts.insert(s, v);
        }
        L::Attr(r, name, _) => {
            let r = eval(cx, f, env, r)?;
            send(cx, r, name, Args::of(&[v]))?;
        }
        L::Index(r, a) => {
            let r = eval(cx, f, env, r)?;
            let mut a = args(cx, f, env, a)?;
            a.pos.push(v);
            send(cx, r, "[]=", a)?;
        }
        L::Nested(m) => {
            let a = as_arr(v).map_or(vec![v], |a| a.clone());
            multi(cx, f, env, m, a)?;
        }
    }
    Ok(())
}

fn multi(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, m: &'static [(L, bool)], a: Vec<Value>) -> R<()> {
    let sp = m.iter().position(|x| x.1);
    let after = sp.map_or(0, |i| m.len() - i - 1);
    let mut i = 0;
    for (l, splat) in m {
        if *splat {
            let e = a.len().saturating_sub(after).max(i);
            assign(cx, f, env, l, arr(a[i.min(a.len())..e.min(a.len())].to_vec()))?;
            i = e;
        } else {
            assign(cx, f, env, l, a.get(i).copied().unwrap_or(Value::nil()))?;
            i += 1;
        }
    }
    Ok(())
}

fn path_name(c: ClassId, s: S) -> String {
    if c == OBJECT_CLASS { s.to_string() } else { format!("{}::{s}", class_name(c)) }
}

fn gvar(cx: Cx, s: S) -> Value {
    match s {
        "$!" => world().errinfo.get(&cx.vm().id).copied().unwrap_or(Value::nil()),
        s => world().gvars.get(s).copied().unwrap_or(Value::nil()),
    }
}

fn konst(f: &Rc<Frame>, s: S) -> Option<Value> {
    for c in f.nest.iter().rev() {
        if let Some(v) = world().classes[c.0 as usize].consts.get(s) {
            return Some(*v);
        }
    }
    if let Some(c) = f.nest.last() {
        for c in lineage(*c) {
            if let Some(v) = world().classes[c.0 as usize].consts.get(s) {
                return Some(*v);
            }
        }
    }
    world().classes[OBJECT_CLASS.0 as usize].consts.get(s).copied()
}

#[inline(never)]
fn args(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, a: &'static [A]) -> R<Args> {
    let mut r = Args::default();
    for a in a {
        match a {
            A::N(n) => {
                let v = eval(cx, f, env, n)?;
                r.pos.push(v);
            }
            A::Splat(n) => {
                let v = eval(cx, f, env, n)?;
                match as_arr(v) {
                    Some(a) => r.pos.extend(a.iter().copied()),
                    None if v.is_nil() => {}
                    None => r.pos.push(v),
                }
            }
            A::Pair(k, v) => {
                let k = eval(cx, f, env, k)?;
                let v = eval(cx, f, env, v)?;
                match k.obj() {
                    Some(Obj::Sym(s)) => r.kw.push((s, v)),
                    _ => cannot("keyword that is not a symbol".into()),
                }
            }
            A::DSplat(n) => {
                let h = eval(cx, f, env, n)?;
                match h.obj() {
                    Some(Obj::Hash(h)) => {
                        for (k, v) in h.iter() {
                            if let Some(Obj::Sym(s)) = k.obj() {
                                r.kw.push((s, *v));
                            }
                        }
                    }
                    _ if h.is_nil() => {}
                    _ => cannot("double splat".into()),
                }
            }
            A::Block(None) => {
                if let Some(v) = env.get(intern("&"))
                    && let Some(Obj::Closure(b)) = v.obj()
                {
                    r.block = Some(b.clone());
                }
            }
            A::Block(Some(n)) => {
                let v = eval(cx, f, env, n)?;
                r.block = match v.obj() {
                    _ if v.is_nil() => None,
                    Some(Obj::Closure(b)) => Some(b.clone()),
                    Some(Obj::Sym(s)) => Some(Rc::new(Block::Sym(s))),
                    _ => return raise(TYPE, "wrong argument type (expected Proc)"),
                };
            }
        }
    }
    Ok(r)
}

/// Gives the arguments a literal block; the tag identifies the call.
fn with_block(f: &Rc<Frame>, env: &Rc<Env>, a: &mut Args, b: &'static Option<Box<Blk>>) -> u64 {
    let Some(b) = b else { return 0 };
    let w = self::world();
    w.frames += 1;
    let tag = w.frames;
    let e = Env::new(Some(env.clone()));
    e.bind("%tag", Value::integer(tag as i64));
    a.block = Some(Rc::new(Block::Ruby { blk: &**b, env: e, f: f.clone(), tag, lambda: false }));
    tag
}

#[inline(never)]
fn eval_call(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, n: &'static N) -> R {
    let N::Call { recv, name, args: a, block, safe, vcall } = n else { unreachable!() };
    let me = match recv {
        Some(r) => {
            let v = eval(cx, f, env, r)?;
            if *safe && v.is_nil() {
                return Ok(v);
            }
            v
        }
        None => f.me,
    };
    let mut a = args(cx, f, env, a)?;
    let tag = with_block(f, env, &mut a, block);
    let r = if recv.is_none() && keyword_call(name) && find(me, name, None).is_none() {
        fcall(cx, f, env, name, a)
    } else if recv.is_none() && *vcall && find(me, name, None).is_none() && matches!(class_of(me), OBJECT_CLASS) {
        raise(NAMEERR, format!("undefined local variable or method '{name}'"))
    } else {
        send(cx, me, name, a)
    };
    match r {
        Err(Ctl::Brk(t, v)) if t == tag && tag != 0 => Ok(v),
        r => r,
    }
}

fn keyword_call(n: S) -> bool {
    matches!(
        n,
        "block_given?"
            | "private"
            | "public"
            | "protected"
            | "module_function"
            | "private_constant"
            | "private_class_method"
            | "public_class_method"
            | "attr_reader"
            | "attr_writer"
            | "attr_accessor"
            | "alias_method"
            | "define_method"
            | "undef_method"
            | "remove_method"
            | "include"
            | "extend"
            | "prepend"
            | "proc"
            | "lambda"
            | "__method__"
            | "binding"
            | "require"
            | "require_relative"
    )
}

/// Calls that depend on where they are written.
#[inline(never)]
fn fcall(cx: Cx, f: &Rc<Frame>, _env: &Rc<Env>, name: S, a: Args) -> R {
    let names = |v: Value| -> Vec<S> {
        match v.obj() {
            Some(Obj::Sym(s)) => vec![*s],
            Some(Obj::Str(s)) => vec![intern(s)],
            Some(Obj::Arr(a)) => a
                .iter()
                .filter_map(|v| match v.obj() {
                    Some(Obj::Sym(s)) => Some(*s),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        }
    };
    let (c, sing) = f.into;
    let table = |c: ClassId| if sing { &mut world().classes[c.0 as usize].sing } else { &mut world().classes[c.0 as usize].meths };
    match name {
        "block_given?" => return Ok(Value::bool(f.args.block.is_some())),
        "__method__" => return Ok(sym(f.name)),
        "proc" | "lambda" => {
            let Some(b) = a.block else { return raise(ARGUMENT, "tried to create Proc object without a block") };
            let b = match (&*b, name) {
                (Block::Ruby { blk, env, f, tag, .. }, "lambda") => {
                    Rc::new(Block::Ruby { blk, env: env.clone(), f: f.clone(), tag: *tag, lambda: true })
                }
                _ => b,
            };
            return Ok(Value::alloc(Obj::Closure(b)));
        }
        "attr_reader" | "attr_writer" | "attr_accessor" => {
            for v in &a.pos {
                for s in names(*v) {
                    let iv = intern(&format!("@{s}"));
                    if name != "attr_writer" {
                        table(c).insert(s, Meth::Reader(iv));
                    }
                    if name != "attr_reader" {
                        table(c).insert(intern(&format!("{s}=")), Meth::Writer(iv));
                    }
                }
            }
        }
        "module_function" => {
            if a.pos.is_empty() {
                world().classes[c.0 as usize].module_function = true;
            }
            for v in &a.pos {
                for s in names(*v) {
                    if let Some(m) = world().classes[c.0 as usize].meths.get(s).cloned() {
                        world().classes[c.0 as usize].sing.insert(s, m);
                    }
                }
            }
        }
        "alias_method" => {
            let (n, o) = (names(a.pos[0])[0], names(a.pos[1])[0]);
            alias(c, sing, n, o);
        }
        "define_method" => {
            let n = names(a.pos[0])[0];
            if let Some(b) = &a.block {
                table(c).insert(n, Meth::Block(b.clone(), c));
            }
        }
        "undef_method" | "remove_method" => {
            for v in &a.pos {
                for s in names(*v) {
                    table(c).remove(s);
                }
            }
        }
        "include" | "prepend" => {
            for v in &a.pos {
                if let Some(m) = v.is_class_or_module() {
                    mix_in(cx, c, m.id())?;
                }
            }
        }
        _ => {}
    }
    let _ = cx;
    Ok(a.pos.first().copied().unwrap_or(Value::nil()))
}

/// `include` of a module by a class.
pub fn mix_in(cx: Cx, c: ClassId, m: ClassId) -> R<()> {
    world().classes[c.0 as usize].mixins.push(m);
    if let Some(x) = world().classes[m.0 as usize].sing.get(intern("included")).cloned() {
        invoke(cx, m.val(), intern("included"), x, m, Args::of(&[c.val()]))?;
    }
    Ok(())
}

/// A new class of the simulated program.
pub fn new_class(name: &str, sup: ClassId) -> ClassId {
    let id = ClassId(world().classes.len() as u32);
    world().classes.push(Class {
        name: name.into(),
        sup,
        module: false,
        meths: HashMap::new(),
        sing: HashMap::new(),
        consts: HashMap::new(),
        mixins: vec![],
        cvars: HashMap::new(),
        module_function: false,
    });
    world().classes[OBJECT_CLASS.0 as usize].consts.insert(intern(name), id.val());
    id
}

fn alias(c: ClassId, sing: bool, new: S, old: S) {
    let m = if sing {
        let mut k = c;
        loop {
            if let Some(m) = world().classes[k.0 as usize].sing.get(old) {
                break m.clone();
            }
            if k == OBJECT_CLASS {
                break Meth::Native(old);
            }
            k = superclass(k);
        }
    } else {
        lineage(c).iter().find_map(|k| world().classes[k.0 as usize].meths.get(old).cloned()).unwrap_or(Meth::Native(old))
    };
    let w = &mut world().classes[c.0 as usize];
    if sing {
        w.sing.insert(new, m);
    } else {
        w.meths.insert(new, m);
    }
}

#[inline(never)]
fn eval_while(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, cond: &'static N, until: bool, body: &'static N, first: bool) -> R {
    let mut first = first;
    let mut n = 0u32;
    loop {
        n += 1;
        if n > 100_000 {
            cannot("a loop does not end".into());
        }
        cx.poll()?;
        if !std::mem::take(&mut first) && eval(cx, f, env, cond)?.as_bool() == until {
            return Ok(Value::nil());
        }
        match eval(cx, f, env, body) {
            Ok(_) | Err(Ctl::LNxt) => {}
            Err(Ctl::LBrk(v)) => return Ok(v),
            Err(e) => return Err(e),
        }
    }
}

fn rescuable(e: &MonorubyErr) -> bool {
    matches!(e.kind(), MonorubyErrKind::Other(_) | MonorubyErrKind::SystemExit(_))
}

pub fn exc_value(e: &MonorubyErr) -> Value {
    match e.original {
        Some(v) => v,
        None => Value::alloc(Obj::Exc(ExceptionInner { class: e.class_id(), msg: e.message.clone(), how: ExcHow::Itself })),
    }
}

type Rescue = (Vec<N>, Option<L>, N);

#[inline(never)]
fn eval_begin(
    cx: Cx,
    f: &Rc<Frame>,
    env: &Rc<Env>,
    body: &'static N,
    rescue: &'static [Rescue],
    els: &'static Option<Box<N>>,
    ensure: &'static Option<Box<N>>,
) -> R {
    let r = eval_rescue(cx, f, env, body, rescue, els);
    if let Some(e) = ensure {
        // an exception or jump out of the clause takes over
        let saved = world().errinfo.get(&cx.vm().id).copied();
        if let Err(Ctl::Err(e)) = &r {
            let v = exc_value(e);
            world().errinfo.insert(cx.vm().id, v);
        }
        eval(cx, f, env, e)?;
        match saved {
            Some(v) => world().errinfo.insert(cx.vm().id, v),
            None => world().errinfo.remove(&cx.vm().id),
        };
    }
    r
}

#[inline(never)]
fn eval_rescue(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, body: &'static N, rescue: &'static [Rescue], els: &'static Option<Box<N>>) -> R {
    loop {
        let e = match eval(cx, f, env, body) {
            Ok(v) => {
                return match els {
                    Some(e) => eval(cx, f, env, e),
                    None => Ok(v),
                };
            }
            Err(Ctl::Err(e)) if rescuable(&e) => e,
            Err(c) => return Err(c),
        };
        let mut hit = None;
        'find: for r in rescue {
            if r.0.is_empty() {
                if e.class_id().is_a(STANDARD) {
                    hit = Some(r);
                    break;
                }
                continue;
            }
            for c in &r.0 {
                let c = eval(cx, f, env, c)?;
                if c.is_class_or_module().is_some_and(|m| e.class_id().is_a(m.id())) {
                    hit = Some(r);
                    break 'find;
                }
            }
        }
        let Some(r) = hit else { return Err(Ctl::Err(e)) };
        let v = exc_value(&e);
        let saved = world().errinfo.insert(cx.vm().id, v);
        if let Some(l) = &r.1 {
            assign(cx, f, env, l, v)?;
        }
        let res = eval(cx, f, env, &r.2);
        match saved {
            Some(v) => world().errinfo.insert(cx.vm().id, v),
            None => world().errinfo.remove(&cx.vm().id),
        };
        match res {
            Err(Ctl::Retry) => continue,
            r => return r,
        }
    }
}

#[inline(never)]
fn eval_rare(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, n: &'static N) -> R {
    Ok(match n {
        N::Str(parts) => {
            let mut s = String::new();
            for p in parts {
                match p {
                    SP::S(x) => s.push_str(x),
                    SP::N(n) => {
                        let v = eval(cx, f, env, n)?;
                        s.push_str(&to_s(v));
                    }
                }
            }
            Value::string(s)
        }
        N::Arr(a) => arr(args(cx, f, env, a)?.pos),
        N::Hash(a) => {
            let mut v = vec![];
            for a in a {
                match a {
                    A::Pair(k, x) => {
                        let k = eval(cx, f, env, k)?;
                        let x = eval(cx, f, env, x)?;
                        v.push((k, x));
                    }
                    _ => cannot("hash literal".into()),
                }
            }
            Value::alloc(Obj::Hash(v))
        }
        N::Const(base, s, root) => {
            let v = match base {
                Some(b) => {
                    let b = eval(cx, f, env, b)?;
                    let Some(m) = b.is_class_or_module() else { return raise(TYPE, "not a class/module") };
                    lineage(m.id()).iter().find_map(|c| world().classes[c.0 as usize].consts.get(s).copied())
                }
                None if *root => world().classes[OBJECT_CLASS.0 as usize].consts.get(s).copied(),
                None => konst(f, s),
            };
            match v {
                Some(v) => v,
                None => return raise(NAMEERR, format!("uninitialized constant {s}")),
            }
        }
        N::OpAsgn(l, op, v) => return op_asgn(cx, f, env, l, op, v),
        N::Multi(m, v) => {
            let v = eval(cx, f, env, v)?;
            let a = as_arr(v).map_or(vec![v], |a| a.clone());
            multi(cx, f, env, m, a)?;
            v
        }
        N::Super(a, b) => {
            let mut a = match a {
                Some(a) => args(cx, f, env, a)?,
                None => f.args.clone(),
            };
            let tag = if b.is_some() { with_block(f, env, &mut a, b) } else { 0 };
            if a.block.is_none() {
                a.block = f.args.block.clone();
            }
            let r = match find(f.me, f.name, Some(f.owner)) {
                Some((m, c)) => invoke(cx, f.me, f.name, m, c, a),
                None => native(cx, f.me, f.name, a),
            };
            return match r {
                Err(Ctl::Brk(t, v)) if t == tag && tag != 0 => Ok(v),
                r => r,
            };
        }
        N::Yield(a) => {
            let a = args(cx, f, env, a)?;
            let Some(b) = f.args.block.clone() else { return raise(JUMP, "no block given (yield)") };
            return call_block_as(cx, &b, a, None);
        }
        N::Defined(n) => {
            let d = match &**n {
                N::Ivar(s) => cx.g().store.get_ivar(f.me, IdentId::get_id(s)).is_some(),
                N::Const(None, s, _) => konst(f, s).is_some(),
                N::Lvar(_) => true,
                N::Yield(_) => f.args.block.is_some(),
                N::Call { recv: None, name, .. } => find(f.me, name, None).is_some(),
                _ => cannot("defined?".into()),
            };
            if d { Value::string("expression".into()) } else { Value::nil() }
        }
        N::Case(s, whens, els) => {
            let v = match s {
                Some(s) => Some(eval(cx, f, env, s)?),
                None => None,
            };
            for (c, body) in whens {
                for c in args(cx, f, env, c)?.pos {
                    let hit = match v {
                        Some(v) => send(cx, c, "===", Args::of(&[v]))?.as_bool(),
                        None => c.as_bool(),
                    };
                    if hit {
                        return eval(cx, f, env, body);
                    }
                }
            }
            eval(cx, f, env, els)?
        }
        N::Def { on, name, f: func } => {
            let (mut c, mut sing) = f.into;
            if let Some(o) = on {
                let v = eval(cx, f, env, o)?;
                match v.is_class_or_module() {
                    Some(m) => (c, sing) = (m.id(), true),
                    None => cannot("method of a single object".into()),
                }
            }
            let w = &mut world().classes[c.0 as usize];
            let m = Meth::Ruby(func, c);
            if sing {
                w.sing.insert(name, m);
            } else {
                if w.module_function {
                    w.sing.insert(name, m.clone());
                }
                w.meths.insert(name, m);
            }
            sym(name)
        }
        N::Poison(name, why) => {
            let (c, sing) = f.into;
            let w = &mut world().classes[c.0 as usize];
            let m = Meth::Poison(why.clone());
            if sing {
                w.sing.insert(name, m);
            } else {
                w.meths.insert(name, m);
            }
            Value::nil()
        }
        N::Alias(a, b) => {
            alias(f.into.0, f.into.1, a, b);
            Value::nil()
        }
        N::Class { path, sup, body, module } => {
            let sup = match sup {
                Some(s) => match eval(cx, f, env, s)?.is_class_or_module() {
                    Some(m) => m.id(),
                    None => return raise(TYPE, "superclass must be a Class"),
                },
                None => OBJECT_CLASS,
            };
            let (base, s) = match &**path {
                N::Const(None, s, false) => (f.into.0, *s),
                N::Const(None, s, true) => (OBJECT_CLASS, *s),
                N::Const(Some(b), s, _) => match eval(cx, f, env, b)?.is_class_or_module() {
                    Some(m) => (m.id(), *s),
                    None => return raise(TYPE, "not a class/module"),
                },
                _ => unreachable!(),
            };
            let c = match world().classes[base.0 as usize].consts.get(s).and_then(|v| v.is_class_or_module()) {
                Some(m) => m.id(),
                None => {
                    let id = ClassId(world().classes.len() as u32);
                    world().classes.push(Class {
                        name: path_name(base, s),
                        sup,
                        module: *module,
                        meths: HashMap::new(),
                        sing: HashMap::new(),
                        consts: HashMap::new(),
                        mixins: vec![],
                        cvars: HashMap::new(),
                        module_function: false,
                    });
                    world().classes[base.0 as usize].consts.insert(s, id.val());
                    id
                }
            };
            in_class(cx, f, c, false, body)?;
            Value::nil()
        }
        N::SClass(o, body) => {
            let v = eval(cx, f, env, o)?;
            match v.is_class_or_module() {
                Some(m) => in_class(cx, f, m.id(), true, body)?,
                None => cannot("singleton class of an object".into()),
            }
            Value::nil()
        }
        N::Lambda(b) => Value::alloc(Obj::Closure(Rc::new(Block::Ruby { blk: b, env: env.clone(), f: f.clone(), tag: 0, lambda: true }))),
        N::Range(..) => cannot("range".into()),
        N::For(..) => cannot("for".into()),
        _ => cannot("expression".into()),
    })
}

fn in_class(cx: Cx, f: &Rc<Frame>, c: ClassId, sing: bool, body: &'static N) -> R<()> {
    let mut nest = (*f.nest).clone();
    if nest.last() != Some(&c) {
        nest.push(c);
    }
    let fr = Rc::new(Frame { id: 0, me: c.val(), owner: c, name: "", args: Args::default(), nest: Rc::new(nest), into: (c, sing) });
    let r = body_stmts(cx, &fr, &Env::new(None), body);
    world().classes[c.0 as usize].module_function = false;
    r
}

#[inline(never)]
fn op_asgn(cx: Cx, f: &Rc<Frame>, env: &Rc<Env>, l: &'static L, op: S, n: &'static N) -> R {
    // receiver and index are evaluated once
    let (recv, idx) = match l {
        L::Attr(r, ..) => (Some(eval(cx, f, env, r)?), None),
        L::Index(r, a) => {
            let r = eval(cx, f, env, r)?;
            (Some(r), Some(args(cx, f, env, a)?))
        }
        _ => (None, None),
    };
    let old = match l {
        L::Lvar(s) => env.get(s).unwrap_or(Value::nil()),
        L::Ivar(s) => cx.g().store.get_ivar(f.me, IdentId::get_id(s)).unwrap_or(Value::nil()),
        L::Gvar(s) => gvar(cx, s),
        L::Cvar(s) => world().classes[f.into.0.0 as usize].cvars.get(s).copied().unwrap_or(Value::nil()),
        L::Const(s) => konst(f, s).unwrap_or(Value::nil()),
        L::Attr(_, name, safe) => {
            if *safe && recv.unwrap().is_nil() {
                return Ok(Value::nil());
            }
            send(cx, recv.unwrap(), intern(&name[..name.len() - 1]), Args::default())?
        }
        L::Index(..) => send(cx, recv.unwrap(), "[]", idx.clone().unwrap())?,
        L::Nested(_) => unreachable!(),
    };
    let v = match op {
        "||" if old.as_bool() => return Ok(old),
        "&&" if !old.as_bool() => return Ok(old),
        "||" | "&&" => eval(cx, f, env, n)?,
        op => {
            let r = eval(cx, f, env, n)?;
            send(cx, old, op, Args::of(&[r]))?
        }
    };
    match l {
        L::Attr(_, name, _) => {
            send(cx, recv.unwrap(), name, Args::of(&[v]))?;
        }
        L::Index(..) => {
            let mut a = idx.unwrap();
            a.pos.push(v);
            send(cx, recv.unwrap(), "[]=", a)?;
        }
        l => assign(cx, f, env, l, v)?,
    }
    Ok(v)
}

// ---- built-in methods -----------------------------------------------------

pub fn to_s(v: Value) -> String {
    if is_int(v) {
        return v.as_i64().to_string();
    }
    match v.obj() {
        Some(Obj::Str(s)) => s.clone(),
        Some(Obj::Sym(s)) => s.to_string(),
        Some(Obj::Flt(f)) => format!("{f:?}"),
        Some(Obj::Class(c)) => class_name(*c),
        Some(Obj::Exc(e)) => e.msg.clone(),
        _ if v.is_nil() => String::new(),
        _ if v == Value::bool(true) => "true".into(),
        _ if v == Value::bool(false) => "false".into(),
        _ => format!("#<{}>", class_name(class_of(v))),
    }
}

pub fn equal(a: Value, b: Value) -> bool {
    if a == b {
        return true;
    }
    if let (Some(x), Some(y)) = (as_f64(a), as_f64(b)) {
        return x == y;
    }
    match (a.obj(), b.obj()) {
        (Some(Obj::Str(x)), Some(Obj::Str(y))) => x == y,
        (Some(Obj::Arr(x)), Some(Obj::Arr(y))) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| equal(*a, *b)),
        _ => false,
    }
}

pub fn is_a(v: Value, c: ClassId) -> bool {
    lineage(class_of(v)).contains(&c)
}

fn fiber_of(vm: &mut Executor) -> Value {
    thread_local!(static M: RefCell<HashMap<u64, Value>> = RefCell::new(HashMap::new()));
    M.with(|m| *m.borrow_mut().entry(vm.id).or_insert_with(|| Value::alloc(Obj::Inst(FIBER))))
}

fn duration(v: Value) -> R<std::time::Duration> {
    let Some(s) = as_f64(v) else { return raise(TYPE, "can't convert into time interval") };
    if s.is_nan() || s < 0.0 {
        return raise(ARGUMENT, "time interval must not be negative or NaN");
    }
    Ok(std::time::Duration::try_from_secs_f64(s).unwrap_or(std::time::Duration::MAX))
}

/// Makes the error of `raise`.
fn make_error(cx: Cx, a: &[Value]) -> R<MonorubyErr> {
    let Some(x) = a.first() else {
        let e = gvar(cx, "$!");
        return Ok(match e.is_exception() {
            Some(i) => MonorubyErr::new_from_exception(i).with_original(e),
            None => MonorubyErr::of(RUNTIME, "unhandled exception"),
        });
    };
    Ok(match x.obj() {
        Some(Obj::Class(c)) if c.is_a(EXCEPTION) => {
            let m = a.get(1).map_or_else(|| class_name(*c), |m| to_s(*m));
            MonorubyErr::of(*c, m)
        }
        Some(Obj::Str(s)) => MonorubyErr::of(RUNTIME, s.clone()),
        Some(Obj::Exc(e)) => MonorubyErr::new_from_exception(e).with_original(*x),
        _ => return raise(TYPE, "exception class/object expected"),
    })
}

/// Methods every object has, that are not played here.
const EVERYWHERE: &[&str] = &[
    "method", "methods", "singleton_class", "define_singleton_method", "extend", "instance_variables", "clone", "display", "=~", "!~", "<=>",
    "to_enum", "enum_for", "public_method", "singleton_methods", "rand", "format", "sprintf", "printf", "catch", "throw", "require",
    "require_relative", "load", "binding", "caller", "caller_locations", "exit", "exit!", "abort", "at_exit", "gets", "srand", "Array", "String", "Hash", "Rational",
    "Complex", "autoload", "system", "trap", "spawn", "fork", "select", "open", "test", "pp", "putc", "to_i", "to_f", "to_h", "to_r", "rationalize", "&", "|", "^",
    "remove_instance_variable", "instance_variable_names", "yield_self", "eval", "set_trace_func", "local_variables", "global_variables", "refine", "using",
    "private_constant", "freeze", "dup", "initialize_copy", "initialize_dup", "initialize_clone", "object_id", "untaint", "taint", "gem", "timeout",
];

fn missing(recv: Value, name: S) -> R {
    let c = class_of(recv);
    let known = recv.is_nil() || matches!(c, TRUECLASS | FALSECLASS) || matches!(recv.obj(), Some(Obj::Inst(_)));
    if known && !EVERYWHERE.contains(&name) && !name.starts_with("__") {
        return raise(NOMETHOD, format!("undefined method '{name}' for {}", class_name(c)));
    }
    // a built-in method that is not played here
    cannot(format!("undefined method '{name}' for {}", class_name(c)))
}

#[inline(never)]
fn native(cx: Cx, recv: Value, name: S, a: Args) -> R {
    let (vm, g) = (cx.vm(), cx.g());
    let arg = |i: usize| a.pos.get(i).copied().unwrap_or(Value::nil());
    let r = match recv.obj() {
        Some(Obj::Class(c)) => native_class(cx, *c, name, &a)?,
        Some(Obj::Thread(_)) => match name {
            "alive?" => Some(Value::bool(!matches!(recv.as_thread_inner().state(), crate::value::rvalue::ThreadState::Dead))),
            "__wakeup_permit" => {
                if !scheduler::wakeup_permit(recv) {
                    return raise(THREADERR, "killed thread");
                }
                Some(recv)
            }
            "wakeup" => {
                if !scheduler::wakeup(recv) {
                    return raise(THREADERR, "killed thread");
                }
                Some(recv)
            }
            "raise" => {
                let e = make_error(cx, &a.pos)?;
                scheduler::interrupt(vm, g, recv, crate::value::rvalue::PendingInterrupt::Raise(e))?;
                Some(Value::nil())
            }
            "kill" => {
                scheduler::interrupt(vm, g, recv, crate::value::rvalue::PendingInterrupt::Kill)?;
                Some(recv)
            }
            "join" => {
                let t = if arg(0).is_nil() { None } else { Some(duration(arg(0))?) };
                Some(if scheduler::join(vm, g, recv, t)? { recv } else { Value::nil() })
            }
            _ => None,
        },
        Some(Obj::Arr(v)) => native_array(cx, recv, v, name, &a)?,
        Some(Obj::Hash(h)) => match name {
            "[]" => Some(h.iter().find(|x| equal(x.0, arg(0))).map_or(Value::nil(), |x| x.1)),
            "[]=" | "store" => {
                match h.iter_mut().find(|x| equal(x.0, arg(0))) {
                    Some(x) => x.1 = arg(1),
                    None => h.push((arg(0), arg(1))),
                }
                Some(arg(1))
            }
            "delete" => Some(h.iter().position(|x| equal(x.0, arg(0))).map_or(Value::nil(), |i| h.remove(i).1)),
            "key?" | "has_key?" | "include?" => Some(Value::bool(h.iter().any(|x| equal(x.0, arg(0))))),
            "empty?" => Some(Value::bool(h.is_empty())),
            "size" | "length" => Some(Value::integer(h.len() as i64)),
            "clear" => {
                h.clear();
                Some(recv)
            }
            "keys" => Some(arr(h.iter().map(|x| x.0).collect())),
            "values" => Some(arr(h.iter().map(|x| x.1).collect())),
            _ => None,
        },
        Some(Obj::Closure(b)) if matches!(name, "call" | "()" | "yield" | "===" | "[]") => {
            let b = b.clone();
            return call_block_as(cx, &b, a, None);
        }
        Some(Obj::Str(s)) => match name {
            "to_str" | "to_s" | "dup" | "freeze" | "+@" | "-@" => Some(recv),
            "empty?" => Some(Value::bool(s.is_empty())),
            "size" | "length" => Some(Value::integer(s.len() as i64)),
            "+" => Some(Value::string(format!("{s}{}", to_s(arg(0))))),
            "inspect" => Some(Value::string(format!("{s:?}"))),
            _ => None,
        },
        Some(Obj::Exc(e)) if name == "message" => Some(Value::string(e.msg.clone())),
        _ if is_int(recv) || matches!(recv.obj(), Some(Obj::Flt(_))) => native_num(cx, recv, name, &a)?,
        _ => None,
    };
    if let Some(v) = r {
        return Ok(v);
    }
    Ok(match name {
        "==" | "eql?" => Value::bool(equal(recv, arg(0))),
        "equal?" => Value::bool(recv == arg(0)),
        "!=" => Value::bool(!equal(recv, arg(0))),
        "!" => Value::bool(!recv.as_bool()),
        "===" => Value::bool(equal(recv, arg(0))),
        "nil?" => Value::bool(recv.is_nil()),
        "class" => class_of(recv).val(),
        "is_a?" | "kind_of?" | "instance_of?" => match arg(0).is_class_or_module() {
            Some(m) => Value::bool(if name == "instance_of?" { class_of(recv) == m.id() } else { is_a(recv, m.id()) }),
            None => return raise(TYPE, "class or module required"),
        },
        "respond_to?" => {
            let Some(Obj::Sym(s)) = arg(0).obj() else { return raise(TYPE, "not a symbol") };
            let n = is_int(recv) || matches!(recv.obj(), Some(Obj::Flt(_)));
            Value::bool(match *s {
                "to_int" | "to_i" | "to_f" => n,
                "to_a" => as_arr(recv).is_some() || recv.is_nil(),
                "to_str" => recv.is_str().is_some(),
                s => find(recv, s, None).is_some(),
            })
        }
        "to_s" | "inspect" => Value::string(to_s(recv)),
        "to_a" if recv.is_nil() => arr(vec![]),
        "hash" | "object_id" | "__id__" => Value::integer((recv.id() >> 3) as i64),
        "frozen?" => Value::bool(false),
        "freeze" | "itself" | "dup" => recv,
        "instance_variable_get" => ivar(cx, recv, intern(&to_s(arg(0)))),
        "instance_variable_set" => {
            g.store.set_ivar(recv, IdentId::get_id(intern(&to_s(arg(0)))), arg(1));
            arg(1)
        }
        "instance_variable_defined?" => Value::bool(g.store.get_ivar(recv, IdentId::get_id(intern(&to_s(arg(0))))).is_some()),
        "send" | "__send__" | "public_send" => {
            let n = intern(&to_s(arg(0)));
            let mut a = a;
            a.pos.remove(0);
            return send(cx, recv, n, a);
        }
        "tap" | "then" => {
            let Some(b) = &a.block else { return raise(JUMP, "no block given") };
            let v = call_block(cx, b, &[recv])?;
            if name == "tap" { recv } else { v }
        }
        "instance_eval" | "instance_exec" => match &a.block {
            Some(b) => return call_block_as(cx, b, Args::of(&a.pos), Some(recv)),
            None => cannot("instance_eval of text".into()),
        },
        "initialize" => Value::nil(),
        "raise" | "fail" => return Err(make_error(cx, &a.pos)?.into()),
        "sleep" => {
            if arg(0).is_nil() && !a.pos.is_empty() {
                return raise(TYPE, "can't convert NilClass into time interval");
            }
            let d = match a.pos.first() {
                Some(v) => Some(duration(*v)?),
                None => None,
            };
            let t = scheduler::sleep(vm, g, d)?;
            Value::integer(t.as_secs() as i64)
        }
        "loop" => {
            let Some(b) = &a.block else { return raise(JUMP, "no block given") };
            loop {
                match call_block(cx, b, &[]) {
                    Ok(_) => {}
                    Err(Ctl::Err(e)) if e.class_id().is_a(STOPITER) && rescuable(&e) => return Ok(Value::nil()),
                    Err(e) => return Err(e),
                }
            }
        }
        "Integer" => Value::integer(as_f64(arg(0)).unwrap_or(0.0) as i64),
        "Float" => flt(as_f64(arg(0)).unwrap_or(0.0)),
        "warn" | "puts" | "p" | "print" => Value::nil(),
        _ => return missing(recv, name),
    })
}

#[inline(never)]
fn native_class(cx: Cx, c: ClassId, name: S, a: &Args) -> R<Option<Value>> {
    let (vm, g) = (cx.vm(), cx.g());
    let arg = |i: usize| a.pos.get(i).copied().unwrap_or(Value::nil());
    Ok(Some(match (c, name) {
        (THREAD_CLASS, "current") => scheduler::current_thread(vm),
        (THREAD_CLASS, "main") => scheduler::main_thread(vm),
        (THREAD_CLASS, "pass") => {
            scheduler::pass(vm, g)?;
            Value::nil()
        }
        (THREAD_CLASS, "stop") => {
            scheduler::sleep(vm, g, None)?;
            Value::nil()
        }
        (THREAD_CLASS, "__uninterruptible") => {
            let Some(b) = &a.block else { return raise(JUMP, "no block given") };
            let cur = scheduler::current_thread(vm);
            scheduler::set_uninterruptible(cur, true);
            let r = call_block(cx, b, &[]);
            scheduler::set_uninterruptible(cur, false);
            scheduler::deliver_pending_now(vm, g, cur, true)?;
            r?
        }
        (THREAD_CLASS, "handle_interrupt") => {
            use crate::value::rvalue::InterruptTiming as T;
            let Some(b) = &a.block else { return raise(JUMP, "no block given") };
            let mut mask = vec![];
            if let Some(Obj::Hash(h)) = arg(0).obj() {
                for (k, v) in h.iter() {
                    mask.push((
                        *k,
                        match v.obj() {
                            Some(Obj::Sym("immediate")) => T::Immediate,
                            Some(Obj::Sym("on_blocking")) => T::OnBlocking,
                            Some(Obj::Sym("never")) => T::Never,
                            _ => return raise(ARGUMENT, "unknown mask signature"),
                        },
                    ));
                }
            } else {
                return raise(ARGUMENT, "unknown mask signature");
            }
            let cur = scheduler::current_thread(vm);
            scheduler::push_interrupt_mask(vm, mask);
            let r = match scheduler::deliver_pending_now(vm, g, cur, false) {
                Err(e) => Err(e.into()),
                Ok(()) => call_block(cx, b, &[]),
            };
            scheduler::pop_interrupt_mask(vm);
            scheduler::deliver_pending_now(vm, g, cur, false)?;
            r?
        }
        (FIBER, "current") => fiber_of(vm),
        (PROCESS, "clock_gettime") => {
            let n = crate::world::w().now;
            flt(n as f64 / 1e9)
        }
        (_, "===") => Value::bool(is_a(arg(0), c)),
        (_, "name") | (_, "to_s") | (_, "inspect") => Value::string(class_name(c)),
        (_, "allocate") | (_, "__builtin_allocate__") => Value::alloc(Obj::Inst(c)),
        (_, "new") if c.is_a(EXCEPTION) => {
            let m = a.pos.first().map_or_else(|| class_name(c), |m| to_s(*m));
            Value::alloc(Obj::Exc(ExceptionInner { class: c, msg: m, how: ExcHow::Itself }))
        }
        (CLASS, "new") => {
            let sup = arg(0).is_class_or_module().map_or(OBJECT_CLASS, |m| m.id());
            new_class("", sup).val()
        }
        (ARRAY, "new") => arr(match (a.pos.first(), a.pos.get(1)) {
            (Some(n), v) if is_int(*n) => vec![v.copied().unwrap_or(Value::nil()); n.as_i64() as usize],
            _ => vec![],
        }),
        (HASH, "new") => Value::alloc(Obj::Hash(vec![])),
        (_, "new") if c.0 >= FIRST_FREE || c == OBJECT_CLASS => {
            let v = Value::alloc(Obj::Inst(c));
            send(cx, v, "initialize", a.clone())?;
            v
        }
        (_, "class_eval") | (_, "module_eval") | (_, "class_exec") => {
            let Some(b) = &a.block else { cannot("class_eval of text".into()) };
            let Block::Ruby { blk, env, f, .. } = &**b else { cannot("class_eval".into()) };
            let fr = Rc::new(Frame {
                id: f.id,
                me: c.val(),
                owner: f.owner,
                name: f.name,
                args: f.args.clone(),
                nest: f.nest.clone(),
                into: (c, false),
            });
            eval(cx, &fr, &Env::new(Some(env.clone())), &blk.body)?
        }
        (_, "alias_method" | "define_method" | "attr_reader" | "attr_accessor" | "include" | "private" | "public") => {
            let fr = Rc::new(Frame { id: 0, me: c.val(), owner: c, name: "", args: Args::default(), nest: Rc::new(vec![c]), into: (c, false) });
            fcall(cx, &fr, &Env::new(None), name, a.clone())?
        }
        (_, "instance_methods" | "ancestors") => cannot(format!("{name} of a class")),
        (_, "superclass") => superclass(c).val(),
        (_, "included" | "extended" | "inherited" | "extend_object" | "method_added") => Value::nil(),
        _ => return Ok(None),
    }))
}

#[inline(never)]
fn native_array(cx: Cx, recv: Value, v: &'static mut Vec<Value>, name: S, a: &Args) -> R<Option<Value>> {
    let arg = |i: usize| a.pos.get(i).copied().unwrap_or(Value::nil());
    Ok(Some(match name {
        "<<" | "push" | "append" => {
            v.extend(a.pos.iter().copied());
            recv
        }
        "unshift" | "prepend" => {
            for (i, x) in a.pos.iter().enumerate() {
                v.insert(i, *x);
            }
            recv
        }
        "pop" => v.pop().unwrap_or(Value::nil()),
        "shift" => {
            if v.is_empty() {
                Value::nil()
            } else {
                v.remove(0)
            }
        }
        "first" => v.first().copied().unwrap_or(Value::nil()),
        "last" => v.last().copied().unwrap_or(Value::nil()),
        "[]" | "at" | "slice" => {
            let i = arg(0).as_i64();
            if a.pos.len() == 2 {
                let n = arg(1).as_i64() as usize;
                arr(v.iter().skip(i as usize).take(n).copied().collect())
            } else {
                let i = if i < 0 { i + v.len() as i64 } else { i };
                v.get(i as usize).copied().unwrap_or(Value::nil())
            }
        }
        "[]=" => {
            let i = arg(0).as_i64() as usize;
            while v.len() <= i {
                v.push(Value::nil());
            }
            v[i] = arg(1);
            arg(1)
        }
        "delete" => {
            let n = v.len();
            v.retain(|x| !equal(*x, arg(0)));
            if v.len() < n { arg(0) } else { Value::nil() }
        }
        "delete_at" => {
            let i = arg(0).as_i64() as usize;
            if i < v.len() { v.remove(i) } else { Value::nil() }
        }
        "index" | "find_index" if a.block.is_none() => v.iter().position(|x| equal(*x, arg(0))).map_or(Value::nil(), |i| Value::integer(i as i64)),
        "include?" | "member?" => Value::bool(v.iter().any(|x| equal(*x, arg(0)))),
        "empty?" => Value::bool(v.is_empty()),
        "size" | "length" => Value::integer(v.len() as i64),
        "count" if a.block.is_none() && a.pos.is_empty() => Value::integer(v.len() as i64),
        "clear" => {
            v.clear();
            recv
        }
        "concat" => {
            for x in &a.pos {
                if let Some(y) = as_arr(*x) {
                    v.extend(y.clone());
                }
            }
            recv
        }
        "replace" => {
            if let Some(y) = as_arr(arg(0)) {
                *v = y.clone();
            }
            recv
        }
        "dup" | "clone" => arr(v.clone()),
        "to_a" | "to_ary" | "freeze" => recv,
        "+" => {
            let mut x = v.clone();
            if let Some(y) = as_arr(arg(0)) {
                x.extend(y.iter().copied());
            }
            arr(x)
        }
        "reverse" => arr(v.iter().rev().copied().collect()),
        "each" | "map" | "select" | "filter" | "reject" | "any?" | "all?" | "none?" | "find" | "detect" | "each_with_index" | "reverse_each" | "delete_if" | "reject!"
        | "find_index" | "index" | "count" => {
            let Some(b) = a.block.clone() else {
                return match name {
                    "any?" => Ok(Some(Value::bool(v.iter().any(|x| x.as_bool())))),
                    _ => cannot(format!("Array#{name} without a block")),
                };
            };
            let mut out = vec![];
            let mut keep = vec![];
            let mut i = 0;
            let (mut any, mut all, mut n) = (false, true, 0);
            if name == "reverse_each" {
                let c: Vec<Value> = v.iter().rev().copied().collect();
                for x in c {
                    call_block(cx, &b, &[x])?;
                }
                return Ok(Some(recv));
            }
            while let Some(x) = as_arr(recv).unwrap().get(i).copied() {
                let r = if name == "each_with_index" { call_block(cx, &b, &[x, Value::integer(i as i64)])? } else { call_block(cx, &b, &[x])? };
                let t = r.as_bool();
                any |= t;
                all &= t;
                n += t as i64;
                match name {
                    "map" => out.push(r),
                    "select" | "filter" if t => out.push(x),
                    "reject" if !t => out.push(x),
                    "find" | "detect" if t => return Ok(Some(x)),
                    "find_index" | "index" if t => return Ok(Some(Value::integer(i as i64))),
                    "any?" if t => return Ok(Some(Value::bool(true))),
                    "all?" if !t => return Ok(Some(Value::bool(false))),
                    _ => {}
                }
                if !t {
                    keep.push(x);
                }
                i += 1;
            }
            match name {
                "map" | "select" | "filter" | "reject" => arr(out),
                "any?" => Value::bool(any),
                "all?" => Value::bool(all),
                "none?" => Value::bool(!any),
                "count" => Value::integer(n),
                "find" | "detect" | "find_index" | "index" => Value::nil(),
                "delete_if" | "reject!" => {
                    *as_arr(recv).unwrap() = keep;
                    recv
                }
                _ => recv,
            }
        }
        _ => return Ok(None),
    }))
}

#[inline(never)]
fn native_num(cx: Cx, recv: Value, name: S, a: &Args) -> R<Option<Value>> {
    let arg = |i: usize| a.pos.get(i).copied().unwrap_or(Value::nil());
    if let Some(y) = a.pos.first().and_then(|v| as_f64(*v)) {
        let x = as_f64(recv).unwrap();
        let ints = is_int(recv) && is_int(arg(0));
        let (i, j) = (recv.as_i64(), arg(0).as_i64());
        let num = |f: f64, k: i64| if ints { Value::integer(k) } else { flt(f) };
        return Ok(Some(match name {
            "+" => num(x + y, if ints { i + j } else { 0 }),
            "-" => num(x - y, if ints { i - j } else { 0 }),
            "*" => num(x * y, if ints { i * j } else { 0 }),
            "/" => {
                if ints && j == 0 {
                    return raise(ZERODIV, "divided by 0");
                }
                num(x / y, if ints { i.div_euclid(j) } else { 0 })
            }
            "%" => num(x.rem_euclid(y), if ints && j != 0 { i.rem_euclid(j) } else { 0 }),
            "<" => Value::bool(x < y),
            ">" => Value::bool(x > y),
            "<=" => Value::bool(x <= y),
            ">=" => Value::bool(x >= y),
            "==" | "===" => Value::bool(x == y),
            "<=>" => x.partial_cmp(&y).map_or(Value::nil(), |o| Value::integer(o as i64)),
            "&" if ints => Value::integer(i & j),
            "|" if ints => Value::integer(i | j),
            _ => return Ok(None),
        }));
    }
    let x = as_f64(recv).unwrap();
    Ok(Some(match name {
        "to_i" | "to_int" | "truncate" => Value::integer(x as i64),
        "to_f" => flt(x),
        "round" => Value::integer(x.round() as i64),
        "ceil" => Value::integer(x.ceil() as i64),
        "floor" => Value::integer(x.floor() as i64),
        "zero?" => Value::bool(x == 0.0),
        "positive?" => Value::bool(x > 0.0),
        "negative?" => Value::bool(x < 0.0),
        "nan?" => Value::bool(x.is_nan()),
        "infinite?" => Value::bool(x.is_infinite()),
        "-@" => {
            if is_int(recv) {
                Value::integer(-recv.as_i64())
            } else {
                flt(-x)
            }
        }
        "abs" => {
            if is_int(recv) {
                Value::integer(recv.as_i64().abs())
            } else {
                flt(x.abs())
            }
        }
        "succ" | "next" => Value::integer(recv.as_i64() + 1),
        "pred" => Value::integer(recv.as_i64() - 1),
        "times" => {
            let Some(b) = a.block.clone() else { cannot("times without a block".into()) };
            for k in 0..recv.as_i64() {
                call_block(cx, &b, &[Value::integer(k)])?;
            }
            recv
        }
        "+" | "-" | "*" | "/" | "<" | ">" | "<=" | ">=" => return raise(if matches!(name, "<" | ">" | "<=" | ">=") { ARGUMENT } else { TYPE }, "not a number"),
        _ => return Ok(None),
    }))
}

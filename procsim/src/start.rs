//! Starting processes: every history of spawn and exec calls, with every
//! system call allowed to fail, against a model of the started image.
use crate::builtins::spawn;
use crate::kern::*;
use crate::stubs::*;
use simcore::{Ctx, Prop, RunResult, ensure, fail};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

const REAL: &[&str] = &["monoruby/src/builtins/spawn.rs (text of /repo, libc redirected): argument parsing, process start, child set-up, error report, reaping, exec in place"];
const STUB: &[&str] = &["kernel (descriptor tables, pipes, fork, exec, wait, files, signals)", "Ruby values and their conversions", "word splitting of commands", "signal handlers"];

pub static PROPS: &[Prop] = &[Prop {
    rule: "runs in which a process was started or its start failed in the child",
    measure: "distinct (options, redirect shapes, failing calls, outcome)",
    real: REAL,
    stub: STUB,
    ..Prop::base("C33", run)
}];

#[derive(Debug, Clone, PartialEq)]
enum Tgt {
    Fd(i32),
    File(String, i32, u32),
    Close,
    Child(i32),
}

#[derive(Debug, Clone)]
struct Plan {
    args: Vec<Value>,
    env: Vec<String>,
    cands: Vec<String>,
    by_path: bool,
    argv: Vec<String>,
    prog: String,
    chdir: Option<String>,
    umask: Option<u32>,
    pgroup: Option<i32>,
    reds: Vec<(Vec<i32>, Tgt)>,
    close_others: bool,
    bad: bool,
}

fn conv(ctx: &mut Ctx, bad: &mut bool, v: Value) -> Value {
    match ctx.weighted(&[24, 3, 1]) {
        0 => v,
        1 => val(V::Conv(v, false)),
        _ if ctx.draw(8) == 7 => {
            *bad = true;
            val(V::Conv(v, true))
        }
        _ => v,
    }
}

fn fd_value(ctx: &mut Ctx, fd: i32) -> Value {
    match ctx.draw(3) {
        0 if fd < 3 => sym(["in", "out", "err"][fd as usize]),
        2 => val(V::Io(fd)),
        _ => Value::integer(fd as i64),
    }
}

fn plan(ctx: &mut Ctx, parent: &Proc) -> Plan {
    let mut bad = false;
    let mut args = vec![];
    let mut env: Vec<(String, String)> = std::env::vars().collect();
    // environment
    let mut ops: Vec<(String, Option<String>)> = vec![];
    if ctx.draw(3) == 2 {
        let n = ctx.draw(4);
        let mut h = vec![];
        for _ in 0..n {
            let key = ["A", "B", "C", "PATH"][ctx.draw(4)];
            if ops.iter().any(|(x, _)| x == key) {
                continue;
            }
            let v = match (key, ctx.draw(3)) {
                (_, 0) => None,
                ("PATH", 1) => Some("/b".to_string()),
                ("PATH", _) => Some("/c::/a:/b".to_string()),
                (_, x) => Some(format!("v{x}")),
            };
            let kv = conv(ctx, &mut bad, st(key));
            let vv = match &v {
                None => Value::nil(),
                Some(s) => conv(ctx, &mut bad, st(s)),
            };
            h.push((kv, vv));
            ops.push((key.to_string(), v));
        }
        if ctx.draw(40) == 39 {
            h.push((st(["X=Y", "X\0"][ctx.draw(2)]), st("1")));
            bad = true;
        }
        let hv = val(V::Hash(h));
        args.push(if ctx.draw(8) == 7 { val(V::Conv(hv, false)) } else { hv });
    }
    // options
    let mut o: Vec<(Value, Value)> = vec![];
    let mut p = Plan {
        args: vec![],
        env: vec![],
        cands: vec![],
        by_path: false,
        argv: vec![],
        prog: String::new(),
        chdir: None,
        umask: None,
        pgroup: None,
        reds: vec![],
        close_others: false,
        bad: false,
    };
    let mut unset = false;
    if ctx.draw(6) == 5 {
        let d = ["/d", "/e/f", "/nodir"][ctx.draw(3)];
        p.chdir = Some(d.into());
        let v = conv(ctx, &mut bad, st(d));
        o.push((sym("chdir"), v));
    }
    if ctx.draw(6) == 5 {
        let m = [0o77, 0o22, 0][ctx.draw(3)];
        p.umask = Some(m);
        o.push((sym("umask"), Value::integer(m as i64)));
    }
    if ctx.draw(6) == 5 {
        let v = match ctx.draw(6) {
            0 => Value::nil(),
            1 => Value::bool(false),
            2 => {
                p.pgroup = Some(0);
                Value::bool(true)
            }
            3 => {
                p.pgroup = Some(0);
                Value::integer(0)
            }
            4 => {
                p.pgroup = Some(77);
                Value::integer(77)
            }
            _ => {
                bad = true;
                [Value::integer(-1), sym("x")][ctx.draw(2)]
            }
        };
        o.push((sym("pgroup"), v));
    }
    if ctx.draw(6) == 5 {
        unset = ctx.draw(2) == 1;
        o.push((sym("unsetenv_others"), if unset { Value::bool(true) } else { Value::bool(false) }));
    }
    if ctx.draw(4) == 3 {
        p.close_others = ctx.draw(3) > 0;
        o.push((sym("close_others"), Value::bool(p.close_others)));
    }
    if ctx.draw(60) == 59 {
        bad = true;
        o.push(match ctx.draw(4) {
            0 => (sym("bogus"), Value::integer(1)),
            1 => (st("key"), Value::integer(1)),
            2 => (sym("close_others"), Value::integer(1)),
            _ => (sym("out"), sym("bogus")),
        });
    }
    // redirects
    let open: Vec<i32> = parent.fds.keys().copied().collect();
    let mut used: Vec<i32> = vec![];
    let n = [0usize, 1, 2, 3, 4, 6][ctx.draw(6)];
    let mut nchild = 0;
    for _ in 0..n {
        let mut fds = vec![];
        for _ in 0..1 + (ctx.draw(4) == 3) as usize {
            let f = if ctx.draw(2) == 0 { ctx.draw(3) as i32 } else { ctx.draw(12) as i32 };
            if !used.contains(&f) {
                used.push(f);
                fds.push(f);
            }
        }
        if fds.is_empty() {
            continue;
        }
        let t = match ctx.weighted(&[6, 4, 2, 3]) {
            0 => {
                let s = if open.is_empty() || ctx.draw(16) == 15 { 9 + ctx.draw(4) as i32 } else { open[ctx.draw(open.len())] };
                if fds.contains(&s) && !open.contains(&s) {
                    continue;
                }
                Tgt::Fd(s)
            }
            1 => {
                let path = ["/f0", "/f1", "/f2", "/nofile"][ctx.weighted(&[8, 4, 4, 1])];
                Tgt::File(path.into(), 0, 0)
            }
            2 => {
                if fds.iter().any(|f| !open.contains(f)) {
                    used.retain(|f| !fds.contains(f));
                    continue;
                }
                Tgt::Close
            }
            _ => {
                nchild += 1;
                // the source is chosen below
                Tgt::Child(-1)
            }
        };
        p.reds.push((fds, t));
    }
    if nchild > 0 {
        // sources of [:child, fd]: redirected ones, or untouched standard ones
        let mut src: Vec<i32> = vec![];
        for (f, t) in &p.reds {
            if matches!(t, Tgt::Fd(_) | Tgt::File(..)) {
                src.extend(f);
            }
        }
        src.extend((0..3).filter(|f| !used.contains(f) && open.contains(f)));
        if src.is_empty() {
            p.reds.retain(|r| !matches!(r.1, Tgt::Child(_)));
        }
        for r in &mut p.reds {
            if let Tgt::Child(s) = &mut r.1 {
                *s = src[ctx.draw(src.len())];
            }
        }
    }
    for (fds, t) in &mut p.reds {
        let key = if fds.len() == 1 && ctx.draw(4) < 3 {
            fd_value(ctx, fds[0])
        } else {
            let v = fds.iter().map(|f| fd_value(ctx, *f)).collect();
            val(V::Ary(v))
        };
        let v = match t {
            Tgt::Fd(s) => {
                let v = fd_value(ctx, *s);
                if matches!(v.v(), V::Io(_)) { conv(ctx, &mut bad, v) } else { v }
            }
            Tgt::Close => sym("close"),
            Tgt::Child(s) => {
                let v = fd_value(ctx, *s);
                val(V::Ary(vec![sym("child"), v]))
            }
            Tgt::File(path, flags, perm) => {
                *perm = 0o644;
                let form = ctx.draw(4);
                let pv = st(path);
                match form {
                    0 => {
                        *flags = if fds[..] == [0] { libc::O_RDONLY } else { libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC };
                        pv
                    }
                    1 => {
                        *flags = libc::O_RDONLY;
                        val(V::Ary(vec![pv]))
                    }
                    _ => {
                        let i = ctx.draw(4);
                        *flags = [libc::O_RDONLY, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND, libc::O_RDWR][i];
                        let m = if i < 3 && ctx.draw(2) == 0 { st(["r", "w", "a"][i]) } else { Value::integer(*flags as i64) };
                        let pv = conv(ctx, &mut bad, pv);
                        let mut a = vec![pv, m];
                        if form == 3 {
                            *perm = 0o600;
                            a.push(Value::integer(0o600));
                        }
                        val(V::Ary(a))
                    }
                }
            }
        };
        let at = o.len();
        o.insert(at, (key, v));
    }
    // command
    let name = ["p0", "p1", "p2", "/x/p0", "./q"][ctx.weighted(&[4, 3, 3, 3, 1])];
    p.prog = name.into();
    p.argv = vec![name.into()];
    let extra = ctx.draw(3);
    let mut shell = false;
    match ctx.draw(4) {
        0 => {
            let mut s = name.to_string();
            for i in 0..extra {
                s += &format!(" a{i}");
                p.argv.push(format!("a{i}"));
            }
            let v = conv(ctx, &mut bad, st(&s));
            args.push(v);
        }
        1 => {
            let s = format!("{name} $A; q");
            args.push(st(&s));
            p.argv = vec!["sh".into(), "-c".into(), s];
            p.prog = "sh".into();
            shell = true;
        }
        x => {
            if x == 2 {
                p.argv[0] = "zero".into();
                let a = val(V::Ary(vec![st(name), st("zero")]));
                args.push(if ctx.draw(8) == 7 { val(V::Conv(a, false)) } else { a });
            } else {
                args.push(st(name));
            }
            let n = if x == 3 { extra + 1 } else { extra };
            for i in 0..n {
                let v = conv(ctx, &mut bad, st(&format!("a {i}")));
                args.push(v);
                p.argv.push(format!("a {i}"));
            }
        }
    }
    if !o.is_empty() || ctx.draw(4) == 3 {
        args.push(val(V::Hash(o)));
    }
    if unset {
        env.clear();
    }
    for (key, v) in ops {
        env.retain(|e| e.0 != key);
        if let Some(v) = v {
            env.push((key, v));
        }
    }
    let path = env.iter().find(|e| e.0 == "PATH").map(|e| e.1.clone()).unwrap_or_default();
    p.cands = if shell {
        vec!["/bin/sh".into()]
    } else if name.contains('/') {
        vec![name.into()]
    } else {
        p.by_path = true;
        path.split(':').filter(|d| !d.is_empty()).map(|d| format!("{d}/{name}")).collect()
    };
    p.env = env.into_iter().map(|(a, b)| format!("{a}={b}")).collect();
    p.env.sort();
    p.args = args;
    p.bad = bad;
    p
}

/// The started image by the model, or the acceptable errors of exec.
fn expect_exec(p: &Plan) -> std::result::Result<(String, Vec<String>), Vec<i32>> {
    let many = p.cands.len() > 1;
    for c in &p.cands {
        match k().kind(c) {
            Kind::Runs => return Ok((c.clone(), p.argv.clone())),
            Kind::Script => {
                let mut a = vec!["/bin/sh".to_string(), c.clone()];
                a.extend(p.argv.iter().skip(1).cloned());
                return Ok(("/bin/sh".into(), a));
            }
            x @ (Kind::Big | Kind::Busy) => return Err(vec![kind_errno(x)]),
            _ if many => {}
            Kind::NoPerm | Kind::Dir => return Err(if p.by_path { vec![libc::EACCES, libc::ENOENT] } else { vec![libc::EACCES] }),
            Kind::NotDir => return Err(vec![libc::ENOTDIR, libc::ENOENT]),
            Kind::Missing => return Err(vec![libc::ENOENT]),
        }
    }
    Err(vec![libc::ENOENT])
}

/// The descriptor table of the started program, or the error.
fn expect_fds(p: &Plan, parent: &Proc) -> std::result::Result<BTreeMap<i32, Obj>, i32> {
    let mut t = parent.fds.clone();
    let mut error = 0;
    for (i, (fds, tgt)) in p.reds.iter().enumerate() {
        for f in fds {
            let obj = match tgt {
                Tgt::Fd(s) => match parent.fds.get(s) {
                    Some(x) => x.obj.clone(),
                    None => {
                        error = libc::EBADF;
                        continue;
                    }
                },
                Tgt::File(path, flags, perm) => {
                    if path.starts_with("/no") {
                        error = libc::ENOENT;
                    }
                    Obj::File { path: path.clone(), flags: *flags, perm: *perm, serial: 1000 + i as u32 }
                }
                _ => continue,
            };
            t.insert(*f, Fd { obj, cloexec: false });
        }
    }
    if error != 0 {
        return Err(error);
    }
    for (fds, tgt) in &p.reds {
        if *tgt == Tgt::Close {
            for f in fds {
                t.remove(f);
            }
        }
    }
    let view = t.clone();
    for (fds, tgt) in &p.reds {
        if let Tgt::Child(s) = tgt {
            for f in fds {
                t.insert(*f, Fd { obj: view[s].obj.clone(), cloexec: false });
            }
        }
    }
    t.retain(|f, x| !x.cloexec && !(p.close_others && *f >= 3 && !p.reds.iter().any(|r| r.0.contains(f))));
    Ok(t.into_iter().map(|(f, x)| (f, x.obj)).collect())
}

fn judge_image(p: &Plan, parent: &Proc, pid: i32, i: &Image) -> RunResult {
    let fds = match expect_fds(p, parent) {
        Ok(x) => x,
        Err(e) => fail!("started", "the program is started although a redirect fails with {e}"),
    };
    match expect_exec(p) {
        Err(e) => fail!("started", "{} is started, but the search should fail with {e:?}", i.path),
        Ok((path, argv)) => {
            ensure!(path == i.path, "program", "{} is started instead of {path}", i.path);
            ensure!(argv == i.argv, "argv", "arguments are {:?}, expected {argv:?}", i.argv);
        }
    }
    let mut env = i.envp.clone();
    env.sort();
    ensure!(env == p.env, "env", "the environment of the started program differs");
    // descriptors: files are compared by the redirect that opened them
    let mut serial: BTreeMap<u32, u32> = BTreeMap::new();
    let mut back: BTreeMap<u32, u32> = BTreeMap::new();
    for (f, o) in &fds {
        let Some(x) = i.proc.fds.get(f) else { fail!("fd-missing", "descriptor {f} is closed, expected {o:?}") };
        match (o, &x.obj) {
            (Obj::File { path, flags, perm, serial: a }, Obj::File { path: p2, flags: f2, perm: m2, serial: b }) if *a >= 1000 => {
                ensure!(path == p2 && flags == f2 && perm == m2, "fd-object", "descriptor {f} is {:?}, expected {o:?}", x.obj);
                ensure!(*serial.entry(*a).or_insert(*b) == *b && *back.entry(*b).or_insert(*a) == *a, "fd-object", "descriptor {f} is {:?}: opened by another redirect", x.obj);
            }
            (a, b) => ensure!(a == b, "fd-object", "descriptor {f} is {b:?}, expected {a:?}"),
        }
    }
    for (f, x) in &i.proc.fds {
        ensure!(fds.contains_key(f), "fd-leak", "descriptor {f} ({:?}) is open in the started program", x.obj);
    }
    ensure!(i.proc.umask == p.umask.unwrap_or(parent.umask), "umask", "umask is {:o}", i.proc.umask);
    ensure!(i.proc.cwd == p.chdir.clone().unwrap_or(parent.cwd.clone()), "cwd", "working directory is {}", i.proc.cwd);
    let pg = match p.pgroup {
        None => parent.pgid,
        Some(0) => pid,
        Some(n) => n,
    };
    ensure!(i.proc.pgid == pg, "pgroup", "process group is {}, expected {pg}", i.proc.pgid);
    ensure!(i.proc.caught.is_empty(), "signals", "signals {:?} are not restored", i.proc.caught);
    Ok(())
}

/// The error of a start that failed in the child.
fn judge_error(p: &Plan, parent: &Proc, e: &MonorubyErr) -> RunResult {
    let errs = k().errs.clone();
    let MonorubyErr::Errno(n, msg) = e else { fail!("error", "{e:?} instead of a system error") };
    let real: Vec<i32> = errs.iter().map(|x| x.1).collect();
    if real.is_empty() {
        if let Err(x) = expect_fds(p, parent) {
            fail!("error", "{e:?} although a redirect has to fail with {x}");
        }
        match expect_exec(p) {
            Ok((path, _)) => fail!("error", "{e:?} although {path} can be started and no call failed"),
            Err(x) => {
                ensure!(x.contains(n), "errno", "error {n} is reported, expected {x:?}");
                ensure!(*msg == p.prog, "message", "the message names {msg:?} instead of {:?}", p.prog);
            }
        }
    } else {
        ensure!(real.contains(n), "errno", "error {n} is reported, but the failing calls were {errs:?}");
        if errs.len() == 1 && errs[0].0 == "chdir" {
            ensure!(Some(msg) == p.chdir.as_ref(), "message", "the message names {msg:?} instead of the directory");
        }
    }
    Ok(())
}

enum Got {
    Ret(Result<i64>),
    Ended(End),
}

fn guarded(f: impl FnOnce() -> Result<i64>) -> Got {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Got::Ret(r),
        Err(e) => match e.downcast::<Ended>() {
            Ok(e) => Got::Ended(e.0),
            Err(e) => resume_unwind(e),
        },
    }
}

fn judge_parent(before: &Proc, unchanged: bool) -> RunResult {
    let now = &k().me;
    if now.fds != before.fds {
        let more: Vec<_> = now.fds.iter().filter(|(f, x)| before.fds.get(f) != Some(x)).collect();
        let less: Vec<_> = before.fds.iter().filter(|(f, _)| !now.fds.contains_key(f)).collect();
        fail!("parent-fds", "descriptors of the parent changed: new {more:?}, gone {less:?}");
    }
    ensure!(!unchanged || now.umask == before.umask && now.cwd == before.cwd && now.pgid == before.pgid && now.caught == before.caught && now.pid == before.pid, "parent", "attributes of the parent changed: {now:?}");
    Ok(())
}

fn spawn_op(ctx: &mut Ctx, vm: &mut Executor, globals: &mut Globals, p: &Plan, spec: &spawn::ExecSpec) -> RunResult {
    let before = k().me.clone();
    let (np, nf, npid) = (k().next_pipe, k().files, k().next_pid);
    {
        let k = k();
        k.pass = Pass::Child;
        k.forked = false;
        k.child = None;
        k.before.clear();
        k.errs.clear();
        k.perrs.clear();
        k.pipes.clear();
        k.status = None;
        k.raising = false;
        k.raised = false;
        k.calls = 0;
    }
    let end = match guarded(|| spawn::do_spawn(vm, globals, spec)) {
        Got::Ended(e) => e,
        Got::Ret(r) => {
            ensure!(!k().forked, "child-returns", "the forked child returns to the caller with {r:?}");
            let Err(e) = r else { fail!("result", "spawn returns {r:?} without a process") };
            ctx.log(|| format!("spawn: {e:?}"));
            let MonorubyErr::Errno(n, _) = e else { fail!("error", "{e:?} instead of a system error") };
            ensure!(k().perrs.iter().any(|x| x.1 == n), "errno", "error {n} is reported, but the failing calls were {:?}", k().perrs);
            ensure!(k().status.is_none(), "status", "$? is set although no process was started");
            ctx.state(hash_of(&(1, n)));
            return judge_parent(&before, true);
        }
    };
    let held = k().forked;
    ensure!(held, "exec", "the parent itself is replaced or ended by spawn");
    ctx.nontrivial();
    ctx.log(|| match &end {
        End::Exec(i) => format!("  child runs {} {:?} fds {:?}", i.path, i.argv, i.proc.fds),
        End::Exit(c) => format!("  child exits with {c}"),
    });
    let pid = k().me.pid;
    if let End::Exec(i) = &end {
        judge_image(p, &before, pid, i)?;
        if !k().errs.is_empty() {
            ctx.probe("started after a failing call");
        }
    }
    {
        let k = k();
        let pipes = std::mem::take(&mut k.pipes);
        k.child = Some(ChildLog { pid, end: end.clone(), reaped: false, pipes });
        k.me = before.clone();
        k.next_pipe = np;
        k.files = nf;
        k.next_pid = npid;
        k.pass = Pass::Parent;
        k.forked = false;
    }
    let r = match guarded(|| spawn::do_spawn(vm, globals, spec)) {
        Got::Ret(r) => r,
        Got::Ended(_) => fail!("parent-ends", "the parent ends or is replaced"),
    };
    ctx.log(|| format!("spawn: {r:?}"));
    let kk = k();
    let reaped = kk.child.as_ref().unwrap().reaped;
    judge_parent(&before, true)?;
    let shape: Vec<_> = p.reds.iter().map(|(f, t)| (f.len(), matches!(t, Tgt::Fd(_)) as u8 + 2 * matches!(t, Tgt::Close) as u8 + 3 * matches!(t, Tgt::Child(_)) as u8)).collect();
    ctx.state(hash_of(&(p.close_others, p.chdir.is_some(), p.umask, p.pgroup, shape, kk.errs.clone(), r.is_ok(), kk.raised, p.cands.len())));
    if kk.raised {
        ctx.probe("handler raises");
        ensure!(r == Err(MonorubyErr::Raised), "error", "the error of the signal handler is lost: {r:?}");
        return Ok(());
    }
    match (&r, &end) {
        (Ok(n), End::Exec(_)) => {
            ensure!(*n == pid as i64, "result", "spawn returns {n}, the process is {pid}");
            ensure!(!reaped && kk.status.is_none(), "status", "the running process is reaped");
        }
        (Ok(_), End::Exit(c)) => fail!("lost-error", "spawn returns a process that ended with {c} before its program: {:?}", kk.errs),
        (Err(e), End::Exec(_)) => fail!("error", "{e:?} although the program runs"),
        (Err(e), End::Exit(c)) => {
            judge_error(p, &before, e)?;
            ensure!(reaped, "zombie", "the failed child is not reaped");
            ensure!(*c == 127, "status", "the failed child exits with {c}");
            ensure!(kk.status == Some((127 << 8, pid as i64)), "status", "$? is {:?} after the failed start of {pid}", kk.status);
        }
    }
    Ok(())
}

fn exec_op(ctx: &mut Ctx, globals: &mut Globals, p: &Plan, spec: &spawn::ExecSpec) -> RunResult {
    let before = k().me.clone();
    {
        let k = k();
        k.pass = Pass::Exec;
        k.forked = false;
        k.child = None;
        k.errs.clear();
        k.perrs.clear();
        k.calls = 0;
    }
    ctx.nontrivial();
    match guarded(|| Err(spawn::do_exec(globals, spec))) {
        Got::Ended(End::Exec(i)) => {
            ctx.log(|| format!("  runs {} {:?} fds {:?}", i.path, i.argv, i.proc.fds));
            judge_image(p, &before, before.pid, &i)
        }
        Got::Ended(End::Exit(c)) => fail!("exit", "exec exits with {c}"),
        Got::Ret(Err(e)) => {
            ctx.log(|| format!("exec: {e:?}"));
            judge_error(p, &before, &e)
        }
        Got::Ret(Ok(_)) => unreachable!(),
    }
}

fn run(ctx: &mut Ctx) -> RunResult {
    clear_values();
    unsafe {
        std::env::set_var("A", "a0");
        std::env::set_var("B", "b0");
        std::env::remove_var("C");
        std::env::set_var("PATH", ["/a:/b:/c", "/a", "/b:/a"][ctx.draw(3)]);
    }
    let limit = [64, 20, 12, 8][ctx.weighted(&[6, 2, 2, 1])];
    let rate = [0u32, 0, 2, 8, 20][ctx.draw(5)];
    let mut fds = BTreeMap::new();
    let mut old = 0;
    for f in 0..12 {
        let open = if f < 3 { ctx.draw(12) != 11 } else { ctx.draw(3) == 2 };
        if open && f < limit {
            fds.insert(f, Fd { obj: Obj::Old(old), cloexec: f >= 3 && ctx.draw(2) == 0 });
            old += 1;
        }
    }
    if fds.is_empty() {
        fds.insert(2, Fd { obj: Obj::Old(old), cloexec: false });
        old += 1;
    }
    ctx.log(|| format!("limit {limit}, error rate {rate}, descriptors {fds:?}, PATH {:?}", std::env::var("PATH")));
    install(Kern {
        me: Proc { pid: 100, fds, umask: 0o22, cwd: "/home".into(), pgid: 90, caught: vec![libc::SIGPIPE, libc::SIGINT, libc::SIGCHLD] },
        limit,
        pipes: BTreeMap::new(),
        next_pipe: 0,
        next_pid: 101,
        files: 0,
        fs: BTreeMap::new(),
        pass: Pass::Parent,
        forked: false,
        before: VecDeque::new(),
        child: None,
        errs: vec![],
        perrs: vec![],
        rate,
        raising: false,
        raised: false,
        status: None,
        ctx: ctx as *mut Ctx,
        calls: 0,
    });
    let mut vm = Executor { error: None };
    let mut globals = Globals { store: Store };
    let n = 1 + ctx.draw(8);
    ctx.set_ops(n as u32);
    while ctx.next_op() {
        match ctx.weighted(&[10, 1, 1, 1]) {
            1 => {
                let f = ctx.draw(12) as i32;
                if f < limit && !k().me.fds.contains_key(&f) {
                    k().me.fds.insert(f, Fd { obj: Obj::Old(old), cloexec: ctx.draw(2) == 1 });
                    old += 1;
                    ctx.log(|| format!("open {f}"));
                }
                continue;
            }
            2 => {
                let f = 3 + ctx.draw(9) as i32;
                k().me.fds.remove(&f);
                ctx.log(|| format!("close {f}"));
                continue;
            }
            op => {
                let before = k().me.clone();
                let p = plan(ctx, &before);
                let name = if op == 3 { "exec" } else { "spawn" };
                let mut p = p;
                if ctx.draw(60) == 59 {
                    // no command at all
                    let h = val(V::Hash(vec![]));
                    p.args = [vec![], vec![h], vec![h, h]][ctx.draw(3)].clone();
                    p.bad = true;
                }
                ctx.log(|| format!("{name} {:?}", p.args));
                k().calls = 0;
                let spec = match spawn::parse_spawn_args(&mut vm, &mut globals, &p.args) {
                    Ok(_) if p.bad => fail!("validation", "wrong arguments are accepted"),
                    Ok(s) => s,
                    Err(e) => {
                        ensure!(p.bad && !matches!(e, MonorubyErr::Errno(..)), "validation", "{e:?} for right arguments");
                        ensure!(k().calls == 0, "validation", "system calls are made for wrong arguments");
                        continue;
                    }
                };
                if op == 3 {
                    return exec_op(ctx, &mut globals, &p, &spec);
                }
                spawn_op(ctx, &mut vm, &mut globals, &p, &spec)?;
            }
        }
    }
    Ok(())
}

fn hash_of(x: &impl std::hash::Hash) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

//! The simulated kernel: one parent process, the child under construction,
//! descriptor tables, pipes, a file system of program kinds.
use simcore::Ctx;
use std::collections::{BTreeMap, VecDeque};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Obj {
    /// Open from the start.
    Old(u32),
    File { path: String, flags: i32, perm: u32, serial: u32 },
    Rd(u32),
    Wr(u32),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fd {
    pub obj: Obj,
    pub cloexec: bool,
}

#[derive(Debug, Clone)]
pub struct Proc {
    pub pid: i32,
    pub fds: BTreeMap<i32, Fd>,
    pub umask: u32,
    pub cwd: String,
    pub pgid: i32,
    /// Signals with another disposition than the default.
    pub caught: Vec<i32>,
}

#[derive(Debug, Clone)]
pub struct Image {
    pub path: String,
    pub argv: Vec<String>,
    pub envp: Vec<String>,
    pub proc: Proc,
}

#[derive(Debug, Clone)]
pub enum End {
    Exec(Image),
    Exit(i32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Missing,
    Runs,
    NoPerm,
    Script,
    Dir,
    NotDir,
    Big,
    Busy,
}

/// What the child of the current call did.
#[derive(Debug, Clone)]
pub struct ChildLog {
    pub pid: i32,
    pub end: End,
    pub reaped: bool,
    pub pipes: BTreeMap<u32, VecDeque<u8>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pass {
    Child,
    Parent,
    Exec,
}

pub struct Kern {
    pub me: Proc,
    pub limit: i32,
    pub pipes: BTreeMap<u32, VecDeque<u8>>,
    pub next_pipe: u32,
    pub next_pid: i32,
    pub files: u32,
    pub fs: BTreeMap<String, Kind>,
    pub pass: Pass,
    pub forked: bool,
    /// Decisions taken before the fork, taken again in the second pass.
    pub before: VecDeque<i32>,
    pub child: Option<ChildLog>,
    /// Errors met by the child (or by exec), with the call.
    pub errs: Vec<(&'static str, i32)>,
    /// Errors of the parent.
    pub perrs: Vec<(&'static str, i32)>,
    pub rate: u32,
    pub raising: bool,
    pub raised: bool,
    pub status: Option<(i64, i64)>,
    pub ctx: *mut Ctx,
    pub calls: u32,
}

static mut K: Option<Kern> = None;

pub fn install(x: Kern) {
    unsafe { *std::ptr::addr_of_mut!(K) = Some(x) }
}
pub fn k() -> &'static mut Kern {
    unsafe { (*std::ptr::addr_of_mut!(K)).as_mut().unwrap() }
}
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *k().ctx }
}

pub struct Ended(pub End);

pub fn set_errno(e: i32) -> i32 {
    unsafe { *libc::__errno_location() = e };
    -1
}

impl Kern {
    fn err(&mut self, call: &'static str, e: i32) -> i32 {
        ctx().log(|| format!("  {call} fails with {e}"));
        if self.forked && self.pass == Pass::Parent || !self.forked && self.pass != Pass::Exec {
            self.perrs.push((call, e));
        } else {
            self.errs.push((call, e));
        }
        set_errno(e)
    }
    /// An injected error for `call`, or 0.
    fn inject(&mut self, call: &'static str, errs: &[i32]) -> i32 {
        self.calls += 1;
        if self.calls > 5000 {
            simcore::violate("endless", "more than 5000 system calls in one start of a process".into());
        }
        if self.pass == Pass::Parent && !self.forked {
            return self.before.pop_front().unwrap_or(0);
        }
        let c = ctx();
        let e = if self.rate > 0 && c.chance(self.rate, 100) { errs[c.draw(errs.len())] } else { 0 };
        if e != 0 {
            c.fault(call);
        }
        if self.pass == Pass::Child && !self.forked {
            self.before.push_back(e);
        }
        e
    }
    fn lowest(&self, min: i32) -> Option<i32> {
        (min..self.limit).find(|f| !self.me.fds.contains_key(f))
    }

    pub fn pipe(&mut self, cloexec: bool) -> Result<(i32, i32), i32> {
        let e = self.inject("pipe", &[libc::EMFILE, libc::ENFILE]);
        if e != 0 {
            return Err(self.err("pipe", e));
        }
        let Some(a) = self.lowest(0) else { return Err(self.err("pipe", libc::EMFILE)) };
        let Some(b) = self.lowest(a + 1) else { return Err(self.err("pipe", libc::EMFILE)) };
        let p = self.next_pipe;
        self.next_pipe += 1;
        self.pipes.insert(p, VecDeque::new());
        self.me.fds.insert(a, Fd { obj: Obj::Rd(p), cloexec });
        self.me.fds.insert(b, Fd { obj: Obj::Wr(p), cloexec });
        Ok((a, b))
    }

    pub fn fork(&mut self) -> i32 {
        let e = self.inject("fork", &[libc::EAGAIN, libc::ENOMEM]);
        if e != 0 {
            return self.err("fork", e);
        }
        if self.forked {
            simcore::violate("fork", "a second process is forked".into());
        }
        self.forked = true;
        let pid = self.next_pid;
        self.next_pid += 1;
        match self.pass {
            Pass::Child => {
                self.me.pid = pid;
                0
            }
            Pass::Parent => {
                let c = self.child.as_ref().unwrap();
                for (p, b) in &c.pipes {
                    self.pipes.insert(*p, b.clone());
                }
                pid
            }
            Pass::Exec => simcore::violate("fork", "exec forks".into()),
        }
    }

    pub fn close(&mut self, fd: i32) -> i32 {
        self.calls += 1;
        if self.me.fds.remove(&fd).is_none() {
            return set_errno(libc::EBADF);
        }
        0
    }

    pub fn dup2(&mut self, src: i32, dst: i32, cloexec: bool) -> i32 {
        let e = self.inject("dup2", &[libc::EMFILE, libc::EIO]);
        if e != 0 {
            return self.err("dup2", e);
        }
        let Some(f) = self.me.fds.get(&src).cloned() else { return self.err("dup2", libc::EBADF) };
        if dst < 0 || dst >= self.limit {
            return self.err("dup2", libc::EBADF);
        }
        if src != dst {
            self.me.fds.insert(dst, Fd { obj: f.obj, cloexec });
        }
        dst
    }

    pub fn dupfd(&mut self, fd: i32, min: i32, cloexec: bool) -> i32 {
        let e = self.inject("dup", &[libc::EMFILE]);
        if e != 0 {
            return self.err("dup", e);
        }
        let Some(f) = self.me.fds.get(&fd).cloned() else { return self.err("dup", libc::EBADF) };
        if min >= self.limit {
            return self.err("dup", libc::EINVAL);
        }
        let Some(n) = self.lowest(min) else { return self.err("dup", libc::EMFILE) };
        self.me.fds.insert(n, Fd { obj: f.obj, cloexec });
        n
    }

    pub fn open(&mut self, path: String, flags: i32, perm: u32) -> i32 {
        let e = self.inject("open", &[libc::EACCES, libc::EMFILE, libc::ENFILE]);
        if e != 0 {
            return self.err("open", e);
        }
        if path.starts_with("/no") {
            return self.err("open", libc::ENOENT);
        }
        let Some(n) = self.lowest(0) else { return self.err("open", libc::EMFILE) };
        let serial = self.files;
        self.files += 1;
        self.me.fds.insert(n, Fd { obj: Obj::File { path, flags: flags & !libc::O_CLOEXEC, perm, serial }, cloexec: flags & libc::O_CLOEXEC != 0 });
        n
    }

    pub fn chdir(&mut self, path: String) -> i32 {
        let e = self.inject("chdir", &[libc::EACCES]);
        if e != 0 {
            return self.err("chdir", e);
        }
        if path.starts_with("/no") {
            return self.err("chdir", libc::ENOENT);
        }
        self.me.cwd = path;
        0
    }

    pub fn setpgid(&mut self, pid: i32, pg: i32) -> i32 {
        let e = self.inject("setpgid", &[libc::EPERM]);
        if e != 0 {
            return self.err("setpgid", e);
        }
        if pid != 0 && pid != self.me.pid {
            return self.err("setpgid", libc::ESRCH);
        }
        self.me.pgid = if pg == 0 { self.me.pid } else { pg };
        0
    }

    pub fn kind(&mut self, path: &str) -> Kind {
        if path == "/bin/sh" {
            return Kind::Runs;
        }
        if let Some(x) = self.fs.get(path) {
            return *x;
        }
        use Kind::*;
        let x = [Runs, Missing, NoPerm, Script, Dir, NotDir, Big, Busy][ctx().weighted(&[10, 6, 3, 3, 1, 1, 1, 1])];
        self.fs.insert(path.to_string(), x);
        x
    }

    pub fn execve(&mut self, path: String, argv: Vec<String>, envp: Vec<String>) -> i32 {
        self.calls += 1;
        let e = match self.kind(&path) {
            Kind::Runs => {
                let mut proc = self.me.clone();
                proc.fds.retain(|_, f| !f.cloexec);
                std::panic::resume_unwind(Box::new(Ended(End::Exec(Image { path, argv, envp, proc }))))
            }
            x => kind_errno(x),
        };
        if self.calls > 5000 {
            simcore::violate("endless", "more than 5000 system calls in one start of a process".into());
        }
        ctx().log(|| format!("  execve of {path} fails with {e}"));
        set_errno(e)
    }

    pub fn exit(&mut self, code: i32) -> ! {
        if self.pass != Pass::Child || !self.forked {
            simcore::violate("exit", "the parent exits".into());
        }
        std::panic::resume_unwind(Box::new(Ended(End::Exit(code))))
    }

    fn open_elsewhere(&self, p: u32) -> Option<&'static str> {
        if self.me.fds.values().any(|f| f.obj == Obj::Wr(p)) {
            return Some("the parent itself");
        }
        if self.pass == Pass::Parent
            && let Some(c) = &self.child
            && let End::Exec(i) = &c.end
            && i.proc.fds.values().any(|f| f.obj == Obj::Wr(p))
        {
            return Some("the started program");
        }
        None
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8]) -> isize {
        let e = if self.pass == Pass::Parent { self.inject("read", &[libc::EINTR]) } else { 0 };
        if e != 0 {
            self.raising = ctx().draw(4) == 3;
            set_errno(e);
            return -1;
        }
        let Some(f) = self.me.fds.get(&fd) else { return self.err("read", libc::EBADF) as isize };
        let Obj::Rd(p) = f.obj else { return self.err("read", libc::EBADF) as isize };
        let q = self.pipes.get_mut(&p).unwrap();
        if q.is_empty() {
            if let Some(who) = self.open_elsewhere(p) {
                simcore::violate("hang", format!("the parent waits for a pipe that {who} holds open"));
            }
            return 0;
        }
        let n = q.len().min(buf.len());
        for b in &mut buf[..n] {
            *b = q.pop_front().unwrap();
        }
        n as isize
    }

    pub fn write(&mut self, fd: i32, buf: &[u8]) -> isize {
        self.calls += 1;
        let Some(f) = self.me.fds.get(&fd) else { return self.err("write", libc::EBADF) as isize };
        match &f.obj {
            Obj::Wr(p) => {
                self.pipes.get_mut(p).unwrap().extend(buf);
                buf.len() as isize
            }
            o => simcore::violate("stray", format!("bytes are written to {o:?}")),
        }
    }

    pub fn waitpid(&mut self, pid: i32, raw: &mut i32, flags: i32) -> i32 {
        let e = self.inject("waitpid", &[libc::EINTR]);
        if e != 0 {
            self.raising = ctx().draw(4) == 3;
            return set_errno(e);
        }
        let Some(c) = self.child.as_mut().filter(|c| self.forked && !c.reaped && (pid == c.pid || pid == -1)) else {
            return set_errno(libc::ECHILD);
        };
        match &c.end {
            End::Exit(code) => {
                c.reaped = true;
                *raw = code << 8;
                c.pid
            }
            End::Exec(_) if flags & libc::WNOHANG != 0 => 0,
            End::Exec(_) => simcore::violate("hang", "the parent waits for the end of the started program".into()),
        }
    }
}

pub fn kind_errno(x: Kind) -> i32 {
    match x {
        Kind::Missing => libc::ENOENT,
        Kind::NoPerm => libc::EACCES,
        Kind::Script => libc::ENOEXEC,
        Kind::Dir => libc::EISDIR,
        Kind::NotDir => libc::ENOTDIR,
        Kind::Big => libc::E2BIG,
        Kind::Busy => libc::ETXTBSY,
        Kind::Runs => 0,
    }
}

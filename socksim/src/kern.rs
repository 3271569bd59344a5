//! The sockets of the simulated kernel and what happens at their other
//! ends.
use crate::simlibc::*;
use crate::world::{Rec, ctx, w};
use std::collections::{BTreeMap, VecDeque};

pub fn k() -> &'static mut Kern {
    &mut w().kern
}
pub fn set_errno(e: i32) -> i32 {
    unsafe { *::libc::__errno_location() = e };
    -1
}
/// Nanoseconds a system call takes.
const TICK: u64 = 10_000;
const MS: u64 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S {
    Fresh,
    Listening,
    Connecting,
    Connected,
    Failed,
}
pub struct Sock {
    pub fam: i32,
    pub ty: i32,
    pub st: S,
    pub nonblock: bool,
    pub cloexec: bool,
    pub soerr: i32,
    /// The thread that was told the last pending error.
    pub told: Option<usize>,
    pub local: Vec<u8>,
    pub paddr: Vec<u8>,
    pub peer: Option<usize>,
    pub rx: VecDeque<u8>,
    fly: usize,
    pub eof: bool,
    pub shut_rd: bool,
    pub shut_wr: bool,
    cap: usize,
    pub queue: VecDeque<usize>,
    backlog: usize,
    dq: VecDeque<(Vec<u8>, Vec<u8>)>,
    full_until: u64,
    pub ext: bool,
    pub open: bool,
    last_arr: u64,
    announced: bool,
    pub opts: BTreeMap<(i32, i32), i32>,
    /// Bytes written by the far end so far, for their pattern.
    wrote: usize,
}
impl Sock {
    fn tell(&mut self) -> i32 {
        if self.soerr != 0 {
            self.told = Some(w().cur);
        }
        std::mem::take(&mut self.soerr)
    }
}
enum Ev {
    Settle { s: usize, tries: u32 },
    Data { to: usize, bytes: Vec<u8> },
    Fin { to: usize },
    Rst { to: usize },
    Far { s: usize, left: u32 },
    Client { l: usize, left: u32 },
    Nothing,
}
#[derive(Default, Clone)]
pub struct Faults {
    pub eintr: u32,
    pub again: u32,
    pub emfile: u32,
    pub neterr: u32,
    pub abort: u32,
    pub full: u32,
    pub clients: u32,
    pub slow: u32,
}
#[derive(Default)]
pub struct Kern {
    pub now: u64,
    pub socks: Vec<Sock>,
    pub fds: BTreeMap<i32, usize>,
    pub owner: BTreeMap<i32, usize>,
    /// Descriptors handed to the program as numbers.
    pub raw: Vec<i32>,
    pub limit: i32,
    pub f: Faults,
    pub ids: usize,
    ev: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    paths: Vec<Vec<u8>>,
    port: u16,
    pub lists: Vec<usize>,
    pub moved: u64,
    ticking: bool,
}

pub fn inet(port: u16) -> Vec<u8> {
    let mut v = vec![0u8; 16];
    v[..2].copy_from_slice(&(AF_INET as u16).to_ne_bytes());
    v[2..4].copy_from_slice(&port.to_be_bytes());
    v[4..8].copy_from_slice(&[127, 0, 0, 1]);
    v
}
pub fn un(path: &str) -> Vec<u8> {
    let mut v = vec![0u8; 2 + path.len() + 1];
    v[..2].copy_from_slice(&(AF_UNIX as u16).to_ne_bytes());
    v[2..2 + path.len()].copy_from_slice(path.as_bytes());
    v
}
/// Port or path of an address.
fn key(a: &[u8]) -> Option<(i32, Vec<u8>)> {
    if a.len() < 2 {
        return None;
    }
    let f = u16::from_ne_bytes([a[0], a[1]]) as i32;
    match f {
        AF_INET if a.len() >= 16 => Some((f, a[2..4].to_vec())),
        AF_UNIX => Some((f, a[2..].iter().copied().take_while(|c| *c != 0).collect())),
        _ => None,
    }
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    key(a) == key(b)
}

impl Kern {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        let s = self.seq;
        self.ev.insert((t, s), e);
    }
    pub fn tick(&mut self) {
        self.now += TICK;
        self.due();
    }
    fn due(&mut self) {
        if std::mem::replace(&mut self.ticking, true) {
            return;
        }
        while let Some((&(t, s), _)) = self.ev.first_key_value() {
            if t > self.now {
                break;
            }
            let e = self.ev.remove(&(t, s)).unwrap();
            self.happen(e);
        }
        self.ticking = false;
    }
    /// Lets time pass until something happens; false when nothing will.
    pub fn idle(&mut self, limit: Option<u64>) -> bool {
        let next = self.ev.first_key_value().map(|(k, _)| k.0);
        let t = match (next, limit) {
            (None, None) => return false,
            (a, b) => a.unwrap_or(u64::MAX).min(b.unwrap_or(u64::MAX)),
        };
        if t > self.now + 3_600_000_000_000 {
            return false;
        }
        self.now = self.now.max(t);
        self.due();
        true
    }
    fn delay(&mut self) -> u64 {
        match ctx().weighted(&[4, 3, 2, 1]) {
            0 => 0,
            1 => TICK * (1 + ctx().draw(20) as u64),
            2 => MS * (1 + ctx().draw(60) as u64),
            _ => 1000 * MS * (1 + ctx().draw(3) as u64),
        }
    }

    fn happen(&mut self, e: Ev) {
        match e {
            Ev::Nothing => {}
            Ev::Settle { s, tries } => self.settle(s, tries),
            Ev::Data { to, bytes } => {
                let n = bytes.len();
                let s = &mut self.socks[to];
                s.fly -= n;
                if s.open {
                    s.rx.extend(bytes);
                }
            }
            Ev::Fin { to } => self.socks[to].eof = true,
            Ev::Rst { to } => {
                let s = &mut self.socks[to];
                if s.open && !s.eof {
                    s.soerr = ECONNRESET;
                    s.eof = true;
                    s.shut_wr = true;
                    ctx().fault("connection reset");
                }
            }
            Ev::Client { l, left } => {
                if !self.socks[l].open || self.socks[l].st != S::Listening {
                    return;
                }
                if self.socks[l].queue.len() <= self.socks[l].backlog {
                    let c = self.far(self.socks[l].fam);
                    let a = if self.socks[l].fam == AF_INET { inet(50_000 + (self.seq % 1000) as u16) } else { vec![] };
                    self.socks[c].local = a;
                    self.pair_up(c, l);
                    ctx().probe("client from outside");
                }
                if left > 0 {
                    let t = self.now + self.delay();
                    self.at(t, Ev::Client { l, left: left - 1 });
                }
            }
            Ev::Far { s, left } => {
                if left == 0 || !self.socks[s].open {
                    return;
                }
                match ctx().weighted(&[6, 6, 2, 1, 1]) {
                    0 => {
                        let n = 1 + ctx().draw(24);
                        let from = self.socks[s].wrote;
                        let d: Vec<u8> = (from..from + n).map(|i| b'a' + (i % 26) as u8).collect();
                        if let Some(p) = self.socks[s].peer
                            && !self.socks[s].shut_wr
                            && self.socks[p].open
                        {
                            let space = self.socks[p].cap.saturating_sub(self.socks[p].rx.len() + self.socks[p].fly);
                            let m = n.min(space);
                            self.socks[s].wrote += m;
                            self.carry(p, d[..m].to_vec());
                        }
                    }
                    1 => {
                        let n = self.socks[s].rx.len();
                        let n = if n > 0 { 1 + ctx().draw(n) } else { 0 };
                        self.socks[s].rx.drain(..n);
                    }
                    2 => {}
                    3 => {
                        if !self.socks[s].shut_wr {
                            self.socks[s].shut_wr = true;
                            self.fin(s);
                        }
                    }
                    _ => {
                        self.socks[s].open = false;
                        if let Some(p) = self.socks[s].peer {
                            if ctx().chance(1, 2) {
                                let t = self.socks[p].last_arr.max(self.now);
                                self.at(t, Ev::Rst { to: p });
                            } else if !self.socks[s].shut_wr {
                                self.fin(s);
                            }
                        }
                        return;
                    }
                }
                let t = self.now + self.delay() + TICK;
                self.at(t, Ev::Far { s, left: left - 1 });
            }
        }
    }
    /// An endpoint outside the process.
    fn far(&mut self, fam: i32) -> usize {
        let s = self.new_sock(fam, SOCK_STREAM);
        self.socks[s].ext = true;
        let n = 2 + ctx().draw(12) as u32;
        let t = self.now + TICK;
        self.at(t, Ev::Far { s, left: n });
        s
    }
    fn carry(&mut self, to: usize, bytes: Vec<u8>) {
        if bytes.is_empty() {
            return;
        }
        self.moved += bytes.len() as u64;
        let d = if ctx().chance(self.f.slow, 100) { self.delay() } else { 0 };
        let t = (self.now + d).max(self.socks[to].last_arr);
        if t <= self.now && self.socks[to].fly == 0 {
            self.socks[to].rx.extend(bytes);
        } else {
            self.socks[to].fly += bytes.len();
            self.socks[to].last_arr = t;
            self.at(t, Ev::Data { to, bytes });
        }
    }
    fn fin(&mut self, s: usize) {
        if let Some(p) = self.socks[s].peer {
            let t = self.socks[p].last_arr.max(self.now);
            if t <= self.now && self.socks[p].fly == 0 {
                self.socks[p].eof = true;
            } else {
                self.at(t, Ev::Fin { to: p });
            }
        }
    }
    fn new_sock(&mut self, fam: i32, ty: i32) -> usize {
        let cap = [4, 16, 40, 200][ctx().draw(4)];
        self.socks.push(Sock {
            fam,
            ty,
            st: S::Fresh,
            nonblock: false,
            cloexec: false,
            soerr: 0,
            told: None,
            local: vec![],
            paddr: vec![],
            peer: None,
            rx: VecDeque::new(),
            fly: 0,
            eof: false,
            shut_rd: false,
            shut_wr: false,
            cap,
            queue: VecDeque::new(),
            backlog: 0,
            dq: VecDeque::new(),
            full_until: 0,
            ext: false,
            open: true,
            last_arr: 0,
            announced: false,
            opts: BTreeMap::new(),
            wrote: 0,
        });
        self.socks.len() - 1
    }
    fn new_fd(&mut self, s: usize) -> Option<i32> {
        let fd = (3..).find(|f| !self.fds.contains_key(f)).unwrap();
        if fd >= self.limit {
            ctx().fault("descriptors used up");
            return None;
        }
        self.fds.insert(fd, s);
        if let Some(c) = w().call() {
            c.created.push(fd);
        }
        Some(fd)
    }
    fn rec(&mut self, r: Rec) {
        let w = w();
        let Some(c) = w.call() else { return };
        if r.err != 0 && !matches!(r.err, EAGAIN | EINTR | EINPROGRESS) && !(r.op == "accept" && r.err == ECONNABORTED) && r.op != "fcntl" {
            c.fails.push(r.err);
        }
        c.recs.push(r);
        if c.recs.len() > 8000 {
            w.abort("spin", "the call makes system calls without getting on".into());
        }
    }
    fn fail(&mut self, op: &'static str, fd: i32, err: i32) -> i32 {
        ctx().log(|| format!("    {op}({fd}) fails with {err}"));
        self.rec(Rec { op, fd, err, ..Rec::default() });
        err
    }
    /// The socket behind a descriptor the current call may use.
    fn get(&mut self, op: &'static str, fd: i32) -> Result<usize, i32> {
        self.tick();
        let Some(&s) = self.fds.get(&fd) else { return Err(self.fail(op, fd, EBADF)) };
        let mine = match w().call() {
            None => true,
            Some(c) => {
                c.created.contains(&fd)
                    || c.io.is_some_and(|v| match v.v() {
                        crate::stubs::V::Io(i) => i.file.as_ref().is_some_and(|f| f.0 == fd),
                        _ => false,
                    })
            }
        };
        if !mine {
            w().judge(true, "foreign", || format!("{op} is called for descriptor {fd}, which now belongs to another socket"));
        }
        Ok(s)
    }
    pub fn owned(&mut self, fd: i32) -> usize {
        self.ids += 1;
        if !self.fds.contains_key(&fd) {
            w().judge(true, "dangling", || format!("an object was made for descriptor {fd}, which is not open"));
        }
        if self.owner.contains_key(&fd) {
            w().judge(true, "double-owner", || format!("two objects own descriptor {fd}"));
        }
        self.raw.retain(|f| *f != fd);
        self.owner.insert(fd, self.ids);
        self.ids
    }
    pub fn sock(&self, fd: i32) -> Option<&Sock> {
        self.fds.get(&fd).map(|s| &self.socks[*s])
    }

    pub fn socket(&mut self, d: i32, t: i32, _: i32) -> i32 {
        self.tick();
        let ty = t & 0xf;
        if !matches!(d, AF_INET | AF_UNIX) || !matches!(ty, SOCK_STREAM | SOCK_DGRAM) {
            return set_errno(self.fail("socket", -1, ::libc::EAFNOSUPPORT));
        }
        if ctx().chance(self.f.emfile, 100) {
            ctx().fault("socket fails");
            let e = [EMFILE, ENFILE, ENOBUFS, ENOMEM][ctx().draw(4)];
            return set_errno(self.fail("socket", -1, e));
        }
        let s = self.new_sock(d, ty);
        let Some(fd) = self.new_fd(s) else { return set_errno(self.fail("socket", -1, EMFILE)) };
        self.socks[s].cloexec = t & SOCK_CLOEXEC != 0;
        self.socks[s].nonblock = t & SOCK_NONBLOCK != 0;
        self.rec(Rec { op: "socket", new_fd: fd, ..Rec::default() });
        fd
    }
    pub fn socketpair(&mut self, d: i32, t: i32, _: i32) -> Result<(i32, i32), i32> {
        self.tick();
        let ty = t & 0xf;
        if d != AF_UNIX || !matches!(ty, SOCK_STREAM | SOCK_DGRAM) {
            return Err(self.fail("socketpair", -1, ::libc::EOPNOTSUPP));
        }
        if ctx().chance(self.f.emfile, 100) {
            ctx().fault("socketpair fails");
            return Err(self.fail("socketpair", -1, EMFILE));
        }
        let a = self.new_sock(d, ty);
        let b = self.new_sock(d, ty);
        let Some(x) = self.new_fd(a) else { return Err(self.fail("socketpair", -1, EMFILE)) };
        let Some(y) = self.new_fd(b) else {
            self.fds.remove(&x);
            w().call().unwrap().created.retain(|f| *f != x);
            return Err(self.fail("socketpair", -1, EMFILE));
        };
        for (s, p) in [(a, b), (b, a)] {
            self.socks[s].peer = Some(p);
            self.socks[s].st = S::Connected;
            self.socks[s].announced = true;
            self.socks[s].local = (AF_UNIX as u16).to_ne_bytes().to_vec();
            self.socks[s].paddr = self.socks[s].local.clone();
        }
        self.rec(Rec { op: "socketpair", ..Rec::default() });
        Ok((x, y))
    }
    fn bound(&self, a: &[u8], ty: i32) -> Option<usize> {
        self.socks.iter().position(|s| s.open && !s.ext && s.ty == ty && s.st != S::Connected && !s.local.is_empty() && same(&s.local, a))
    }
    fn auto(&mut self) -> Vec<u8> {
        self.port += 1;
        inet(40_000 + self.port)
    }
    pub fn bind(&mut self, fd: i32, mut a: Vec<u8>) -> i32 {
        let s = match self.get("bind", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        let ty = self.socks[s].ty;
        self.usable(s, &a);
        let e = match key(&a) {
            None => EINVAL,
            Some((f, _)) if f != self.socks[s].fam => ::libc::EAFNOSUPPORT,
            _ if !self.socks[s].local.is_empty() => EINVAL,
            Some((AF_UNIX, p)) if self.paths.contains(&p) => EADDRINUSE,
            Some((AF_INET, p)) if p != [0, 0] && self.bound(&a, ty).is_some() => EADDRINUSE,
            _ if ctx().chance(self.f.neterr, 100) => {
                ctx().fault("bind fails");
                [EADDRINUSE, EACCES, EADDRNOTAVAIL][ctx().draw(3)]
            }
            _ => 0,
        };
        if e != 0 {
            return set_errno(self.fail("bind", fd, e));
        }
        match key(&a).unwrap() {
            (AF_UNIX, p) => self.paths.push(p),
            (_, p) if p == [0, 0] => {
                let n = self.auto();
                a[2..4].copy_from_slice(&n[2..4]);
            }
            _ => {}
        }
        self.socks[s].local = a.clone();
        self.rec(Rec { op: "bind", fd, addr: a, ..Rec::default() });
        0
    }
    pub fn listen(&mut self, fd: i32, n: i32) -> i32 {
        let s = match self.get("listen", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        let k = &self.socks[s];
        let e = if k.ty != SOCK_STREAM {
            ::libc::EOPNOTSUPP
        } else if !matches!(k.st, S::Fresh | S::Listening) || (k.fam == AF_UNIX && k.local.is_empty()) {
            EINVAL
        } else if ctx().chance(self.f.neterr, 200) {
            ctx().fault("listen fails");
            EADDRINUSE
        } else {
            0
        };
        if e != 0 {
            return set_errno(self.fail("listen", fd, e));
        }
        if self.socks[s].local.is_empty() {
            let a = self.auto();
            self.socks[s].local = a;
        }
        let first = self.socks[s].st != S::Listening;
        self.socks[s].st = S::Listening;
        // a small queue even where a long one is asked for
        self.socks[s].backlog = if n > 4 { 2 } else { n.max(0) as usize };
        self.rec(Rec { op: "listen", fd, num: [n, 0, 0], ..Rec::default() });
        if first && self.f.clients > 0 {
            let t = self.now + self.delay();
            let left = self.f.clients;
            self.at(t, Ev::Client { l: s, left });
        }
        0
    }
    /// Links a client with a new socket in the queue of a listener.
    fn pair_up(&mut self, c: usize, l: usize) {
        let fam = self.socks[l].fam;
        let n = self.new_sock(fam, SOCK_STREAM);
        let la = self.socks[l].local.clone();
        let ca = self.socks[c].local.clone();
        let k = &mut self.socks[n];
        k.st = S::Connected;
        k.announced = true;
        k.local = la.clone();
        k.paddr = if fam == AF_UNIX && ca.is_empty() { (AF_UNIX as u16).to_ne_bytes().to_vec() } else { ca };
        k.peer = Some(c);
        let k = &mut self.socks[c];
        k.st = S::Connected;
        if k.paddr.is_empty() {
            k.paddr = la;
        }
        k.peer = Some(n);
        self.socks[l].queue.push_back(n);
    }
    fn settle(&mut self, s: usize, tries: u32) {
        if !self.socks[s].open || self.socks[s].st != S::Connecting {
            return;
        }
        let a = self.socks[s].paddr.clone();
        if let Some(l) = self.bound(&a, SOCK_STREAM)
            && self.socks[l].st == S::Listening
        {
            if self.socks[l].queue.len() <= self.socks[l].backlog {
                self.pair_up(s, l);
            } else if tries < 3 {
                let t = self.now + 1000 * MS;
                self.at(t, Ev::Settle { s, tries: tries + 1 });
            } else {
                self.socks[s].soerr = ETIMEDOUT;
                self.socks[s].st = S::Failed;
            }
            return;
        }
        match u16::from_be_bytes([a[2], a[3]]) {
            9001 => {
                let f = self.far(AF_INET);
                self.socks[f].st = S::Connected;
                self.socks[f].peer = Some(s);
                self.socks[s].peer = Some(f);
                self.socks[s].st = S::Connected;
            }
            9003 if tries == 0 => {
                let t = self.now + 100_000 * MS;
                self.at(t, Ev::Settle { s, tries: 1 });
            }
            9003 => {
                self.socks[s].soerr = ETIMEDOUT;
                self.socks[s].st = S::Failed;
            }
            _ => {
                ctx().fault("connection refused");
                self.socks[s].soerr = ECONNREFUSED;
                self.socks[s].st = S::Failed;
            }
        }
    }
    pub fn connect(&mut self, fd: i32, a: Vec<u8>) -> i32 {
        let s = match self.get("connect", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        let e = self.connect_(s, a.clone());
        if e != 0 {
            return set_errno(self.fail("connect", fd, e));
        }
        self.rec(Rec { op: "connect", fd, addr: a, ..Rec::default() });
        0
    }
    /// No program gives an address of another family.
    fn usable(&self, s: usize, a: &[u8]) {
        if key(a).is_none_or(|(f, _)| f != self.socks[s].fam) {
            w().judge(false, "address", || format!("the system is given the address {a:?}"));
        }
    }
    fn connect_(&mut self, s: usize, a: Vec<u8>) -> i32 {
        self.usable(s, &a);
        let Some((f, p)) = key(&a) else { return EINVAL };
        if f != self.socks[s].fam {
            return ::libc::EAFNOSUPPORT;
        }
        if self.socks[s].ty == SOCK_DGRAM {
            if ctx().chance(self.f.neterr, 100) {
                ctx().fault("connect fails");
                return ::libc::ENETUNREACH;
            }
            if self.socks[s].local.is_empty() && f == AF_INET {
                let l = self.auto();
                self.socks[s].local = l;
            }
            self.socks[s].paddr = a;
            return 0;
        }
        match self.socks[s].st {
            S::Listening => return if f == AF_INET { EISCONN } else { EINVAL },
            S::Connecting => return EALREADY,
            S::Connected => return if f == AF_INET && !std::mem::replace(&mut self.socks[s].announced, true) { 0 } else { EISCONN },
            S::Failed if self.socks[s].soerr != 0 => {
                self.socks[s].st = S::Fresh;
                return self.socks[s].tell();
            }
            _ => {}
        }
        if ctx().chance(self.f.neterr, 100) {
            ctx().fault("connect fails");
            return [::libc::ENETUNREACH, EADDRNOTAVAIL, EACCES][ctx().draw(3)];
        }
        self.socks[s].paddr = a.clone();
        if f == AF_UNIX {
            if !self.paths.contains(&p) {
                return ENOENT;
            }
            let Some(l) = self.bound(&a, SOCK_STREAM).filter(|l| self.socks[*l].st == S::Listening) else { return ECONNREFUSED };
            if !self.socks[s].nonblock && ctx().chance(self.f.eintr, 100) {
                ctx().fault("EINTR");
                return EINTR;
            }
            if self.socks[l].queue.len() > self.socks[l].backlog {
                ctx().fault("queue of the server full");
                return EAGAIN;
            }
            self.pair_up(s, l);
            self.socks[s].announced = true;
            return 0;
        }
        if self.socks[s].local.is_empty() {
            let l = self.auto();
            self.socks[s].local = l;
        }
        self.socks[s].st = S::Connecting;
        self.socks[s].announced = false;
        let d = if ctx().chance(1, 4) { 0 } else { self.delay() + TICK };
        if d == 0 {
            self.settle(s, 0);
            if self.socks[s].st == S::Connected {
                self.socks[s].announced = true;
                return 0;
            }
            if self.socks[s].st == S::Failed {
                self.socks[s].st = S::Fresh;
                return self.socks[s].tell();
            }
        } else {
            let t = self.now + d;
            self.at(t, Ev::Settle { s, tries: 0 });
        }
        if !self.socks[s].nonblock {
            w().judge(false, "blocked", || "the call waits for a connection inside the kernel".into());
        }
        if !w().call().is_some_and(|c| c.now) && ctx().chance(self.f.eintr, 100) {
            ctx().fault("EINTR");
            return EINTR;
        }
        EINPROGRESS
    }
    fn retry(&mut self, s: usize) -> i32 {
        if w().call().is_some_and(|c| c.now) {
            return 0;
        }
        if ctx().chance(self.f.eintr, 100) {
            ctx().fault("EINTR");
            return EINTR;
        }
        if ctx().chance(self.f.again, 100) {
            ctx().fault("EAGAIN although ready");
            return EAGAIN;
        }
        let _ = s;
        0
    }
    fn would_block(&mut self, s: usize, flags: i32) -> i32 {
        if !self.socks[s].nonblock && flags & MSG_DONTWAIT == 0 && w().others() {
            w().judge(false, "blocked", || "the call waits inside the kernel while other threads could run".into());
        }
        EAGAIN
    }
    pub fn accept(&mut self, fd: i32, flags: i32) -> Result<(i32, Vec<u8>), i32> {
        let s = self.get("accept", fd)?;
        if self.socks[s].ty != SOCK_STREAM {
            return Err(self.fail("accept", fd, ::libc::EOPNOTSUPP));
        }
        if self.socks[s].st != S::Listening {
            return Err(self.fail("accept", fd, EINVAL));
        }
        let e = self.retry(s);
        if e != 0 {
            return Err(self.fail("accept", fd, e));
        }
        if self.socks[s].queue.is_empty() {
            let e = self.would_block(s, 0);
            return Err(self.fail("accept", fd, e));
        }
        if ctx().chance(self.f.abort, 100) {
            ctx().fault("connection aborted");
            let n = self.socks[s].queue.pop_front().unwrap();
            self.shut(n);
            return Err(self.fail("accept", fd, ECONNABORTED));
        }
        if ctx().chance(self.f.emfile, 100) {
            ctx().fault("accept fails");
            return Err(self.fail("accept", fd, EMFILE));
        }
        let n = self.socks[s].queue[0];
        let Some(new) = self.new_fd(n) else { return Err(self.fail("accept", fd, EMFILE)) };
        self.socks[s].queue.pop_front();
        self.socks[n].cloexec = flags & SOCK_CLOEXEC != 0;
        self.socks[n].nonblock = flags & SOCK_NONBLOCK != 0;
        let a = self.socks[n].paddr.clone();
        self.rec(Rec { op: "accept", fd, new_fd: new, addr: a.clone(), ..Rec::default() });
        Ok((new, a))
    }
    pub fn name(&mut self, fd: i32, peer: bool) -> Result<Vec<u8>, i32> {
        let op = if peer { "getpeername" } else { "getsockname" };
        let s = self.get(op, fd)?;
        let k = &self.socks[s];
        if peer && (k.paddr.is_empty() || (k.ty == SOCK_STREAM && k.st != S::Connected)) {
            return Err(self.fail(op, fd, ENOTCONN));
        }
        if ctx().chance(self.f.neterr, 200) {
            ctx().fault("name not available");
            return Err(self.fail(op, fd, ENOBUFS));
        }
        let mut a = if peer { k.paddr.clone() } else { k.local.clone() };
        if a.is_empty() {
            a = (k.fam as u16).to_ne_bytes().to_vec();
            if k.fam == AF_INET {
                a.resize(16, 0);
            }
        }
        self.rec(Rec { op, fd, addr: a.clone(), ..Rec::default() });
        Ok(a)
    }
    pub fn getsockopt(&mut self, fd: i32, level: i32, opt: i32) -> Result<i32, i32> {
        let s = self.get("getsockopt", fd)?;
        let v = match (level, opt) {
            (SOL_SOCKET, SO_ERROR) => {
                let e = self.socks[s].tell();
                if e != 0 {
                    w().call().unwrap().fails.push(e);
                }
                e
            }
            (SOL_SOCKET, SO_TYPE) => self.socks[s].ty,
            _ => self.socks[s].opts.get(&(level, opt)).copied().unwrap_or(0),
        };
        self.rec(Rec { op: "getsockopt", fd, num: [level, opt, v], ..Rec::default() });
        Ok(v)
    }
    pub fn setsockopt(&mut self, fd: i32, level: i32, opt: i32, b: &[u8]) -> i32 {
        let s = match self.get("setsockopt", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        if b.len() < 4 {
            return set_errno(self.fail("setsockopt", fd, EINVAL));
        }
        let v = i32::from_ne_bytes(b[..4].try_into().unwrap());
        self.socks[s].opts.insert((level, opt), v);
        self.rec(Rec { op: "setsockopt", fd, num: [level, opt, v], ..Rec::default() });
        0
    }
    pub fn shutdown(&mut self, fd: i32, how: i32) -> i32 {
        let s = match self.get("shutdown", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        if self.socks[s].paddr.is_empty() || (self.socks[s].ty == SOCK_STREAM && self.socks[s].st != S::Connected) {
            return set_errno(self.fail("shutdown", fd, ENOTCONN));
        }
        if how != SHUT_WR {
            self.socks[s].shut_rd = true;
        }
        if how != SHUT_RD && !self.socks[s].shut_wr {
            self.socks[s].shut_wr = true;
            if self.socks[s].ty == SOCK_STREAM {
                self.fin(s);
            }
        }
        self.rec(Rec { op: "shutdown", fd, num: [how, 0, 0], ..Rec::default() });
        0
    }
    /// Everything about a socket ends.
    fn shut(&mut self, s: usize) {
        self.socks[s].open = false;
        if self.socks[s].st == S::Connected && self.socks[s].ty == SOCK_STREAM {
            if !self.socks[s].rx.is_empty() && self.socks[s].fam == AF_INET {
                if let Some(p) = self.socks[s].peer {
                    let t = self.socks[p].last_arr.max(self.now);
                    self.at(t, Ev::Rst { to: p });
                }
            } else if !self.socks[s].shut_wr {
                self.fin(s);
            }
        }
        for n in std::mem::take(&mut self.socks[s].queue) {
            self.shut(n);
        }
    }
    pub fn close(&mut self, fd: i32, own: bool) -> i32 {
        if !crate::world::active() {
            return 0;
        }
        self.tick();
        let Some(s) = self.fds.get(&fd).copied() else {
            w().judge(true, "double-close", || format!("descriptor {fd} is closed a second time"));
            return set_errno(EBADF);
        };
        if !own {
            let mine = w().call().is_some_and(|c| c.created.contains(&fd));
            if !mine || self.owner.contains_key(&fd) {
                w().judge(true, "foreign", || format!("descriptor {fd} of another socket is closed"));
            }
        }
        self.fds.remove(&fd);
        self.owner.remove(&fd);
        self.raw.retain(|f| *f != fd);
        for t in &mut w().tasks {
            for c in &mut t.calls {
                c.created.retain(|f| *f != fd);
            }
        }
        self.shut(s);
        0
    }
    pub fn fcntl(&mut self, fd: i32, cmd: i32, arg: i32) -> i32 {
        let s = match self.get("fcntl", fd) {
            Ok(s) => s,
            Err(e) => return set_errno(e),
        };
        let k = &mut self.socks[s];
        match cmd {
            F_GETFD => k.cloexec as i32,
            F_SETFD => {
                k.cloexec = arg & FD_CLOEXEC != 0;
                0
            }
            F_GETFL => ::libc::O_RDWR | if k.nonblock { O_NONBLOCK } else { 0 },
            F_SETFL => {
                k.nonblock = arg & O_NONBLOCK != 0;
                0
            }
            _ => set_errno(EINVAL),
        }
    }
    pub fn recv(&mut self, fd: i32, len: usize, flags: i32) -> Result<(Vec<u8>, Vec<u8>, usize), i32> {
        let s = self.get("recv", fd)?;
        let e = self.retry(s);
        if e != 0 {
            return Err(self.fail("recv", fd, e));
        }
        let peek = flags & MSG_PEEK != 0;
        let k = &mut self.socks[s];
        if k.ty == SOCK_DGRAM {
            if k.soerr != 0 {
                let e = k.tell();
                return Err(self.fail("recv", fd, e));
            }
            let front = if peek { k.dq.front().cloned() } else { k.dq.pop_front() };
            let Some((d, a)) = front else {
                if k.shut_rd {
                    self.rec(Rec { op: "recv", fd, ..Rec::default() });
                    return Ok((vec![], vec![], 0));
                }
                let e = self.would_block(s, flags);
                return Err(self.fail("recv", fd, e));
            };
            let n = d.len();
            let got = d[..n.min(len)].to_vec();
            self.rec(Rec { op: "recv", fd, data: d, took: if peek { 0 } else { 1 }, addr: a.clone(), ..Rec::default() });
            return Ok((got, a, n));
        }
        if k.st != S::Connected {
            if k.soerr != 0 {
                let e = k.tell();
                return Err(self.fail("recv", fd, e));
            }
            let e = if k.fam == AF_UNIX { EINVAL } else { ENOTCONN };
            if k.st == S::Connecting {
                let e = self.would_block(s, flags);
                return Err(self.fail("recv", fd, e));
            }
            return Err(self.fail("recv", fd, e));
        }
        let avail: Vec<u8> = k.rx.iter().copied().collect();
        if avail.is_empty() && len > 0 && !k.shut_rd {
            if k.soerr != 0 {
                let e = k.tell();
                return Err(self.fail("recv", fd, e));
            }
            if !k.eof {
                let e = self.would_block(s, flags);
                return Err(self.fail("recv", fd, e));
            }
        }
        let n = avail.len().min(len);
        if !peek {
            k.rx.drain(..n);
        }
        let got = avail[..n].to_vec();
        self.rec(Rec { op: "recv", fd, data: avail, took: if peek { 0 } else { n }, stream: true, ..Rec::default() });
        Ok((got, vec![], n))
    }
    pub fn send(&mut self, fd: i32, d: &[u8], flags: i32, to: Option<Vec<u8>>) -> isize {
        match self.send_(fd, d, flags, to) {
            Ok(n) => n as isize,
            Err(e) => set_errno(e) as isize,
        }
    }
    fn space(&self, s: usize) -> usize {
        match self.socks[s].peer {
            Some(p) if self.socks[p].open => self.socks[p].cap.saturating_sub(self.socks[p].rx.len() + self.socks[p].fly),
            _ => usize::MAX,
        }
    }
    fn send_(&mut self, fd: i32, d: &[u8], flags: i32, to: Option<Vec<u8>>) -> Result<usize, i32> {
        let s = self.get("send", fd)?;
        let e = self.retry(s);
        if e != 0 {
            return Err(self.fail("send", fd, e));
        }
        if self.socks[s].full_until <= self.now && ctx().chance(self.f.full, 100) {
            ctx().fault("send buffer full");
            let t = self.now + self.delay() + TICK;
            self.socks[s].full_until = t;
            self.at(t, Ev::Nothing);
        }
        let k = &mut self.socks[s];
        if k.ty == SOCK_DGRAM {
            if k.shut_wr {
                return Err(self.fail("send", fd, EPIPE));
            }
            if k.soerr != 0 {
                let e = k.tell();
                return Err(self.fail("send", fd, e));
            }
            let dest = match (&to, k.peer) {
                (None, Some(_)) => vec![],
                (Some(t), _) => t.clone(),
                (None, None) if !k.paddr.is_empty() => k.paddr.clone(),
                _ => {
                    let e = if k.fam == AF_INET { EDESTADDRREQ } else { ENOTCONN };
                    return Err(self.fail("send", fd, e));
                }
            };
            if d.len() > 60 {
                return Err(self.fail("send", fd, EMSGSIZE));
            }
            if k.full_until > self.now {
                let e = self.would_block(s, flags);
                return Err(self.fail("send", fd, e));
            }
            let p = if let (None, Some(p)) = (&to, self.socks[s].peer) {
                if !self.socks[p].open {
                    return Err(self.fail("send", fd, ECONNREFUSED));
                }
                if self.socks[p].dq.len() >= 3 {
                    let e = self.would_block(s, flags);
                    return Err(self.fail("send", fd, e));
                }
                Some(p)
            } else {
                let fam = self.socks[s].fam;
                match key(&dest) {
                    Some((f, _)) if f == fam => {}
                    _ => return Err(self.fail("send", fd, EINVAL)),
                }
                let p = self.bound(&dest, SOCK_DGRAM);
                if fam == AF_UNIX && p.is_none() {
                    return Err(self.fail("send", fd, ECONNREFUSED));
                }
                p
            };
            if self.socks[s].local.is_empty() && self.socks[s].fam == AF_INET {
                let l = self.auto();
                self.socks[s].local = l;
            }
            let from = if self.socks[s].fam == AF_INET { self.socks[s].local.clone() } else { vec![] };
            match p {
                Some(p) if self.socks[p].dq.len() < 8 => self.socks[p].dq.push_back((d.to_vec(), from)),
                Some(_) => ctx().fault("datagram dropped"),
                None if to.is_none() => {
                    ctx().fault("destination unreachable");
                    self.socks[s].soerr = ECONNREFUSED;
                }
                None => {}
            }
            self.moved += 1;
            self.rec(Rec { op: "send", fd, data: d.to_vec(), took: d.len(), space: usize::MAX, addr: dest, ..Rec::default() });
            return Ok(d.len());
        }
        if k.st == S::Connecting {
            let e = self.would_block(s, flags);
            return Err(self.fail("send", fd, e));
        }
        if k.soerr != 0 {
            let e = k.tell();
            return Err(self.fail("send", fd, e));
        }
        if k.st != S::Connected || k.shut_wr {
            let e = if k.fam == AF_UNIX && k.st != S::Connected { ENOTCONN } else { EPIPE };
            return Err(self.fail("send", fd, e));
        }
        if to.is_some() && k.fam == AF_UNIX {
            return Err(self.fail("send", fd, EISCONN));
        }
        if k.full_until > self.now {
            let e = self.would_block(s, flags);
            return Err(self.fail("send", fd, e));
        }
        let p = k.peer.unwrap();
        if !self.socks[p].open {
            if self.socks[s].fam == AF_UNIX {
                return Err(self.fail("send", fd, EPIPE));
            }
            // answered with a reset
            let t = self.now + TICK;
            self.at(t, Ev::Rst { to: s });
            self.rec(Rec { op: "send", fd, data: d.to_vec(), took: d.len(), space: usize::MAX, stream: true, ..Rec::default() });
            return Ok(d.len());
        }
        let space = self.space(s);
        if space == 0 && !d.is_empty() {
            let e = self.would_block(s, flags);
            return Err(self.fail("send", fd, e));
        }
        let n = space.min(d.len());
        self.carry(p, d[..n].to_vec());
        self.rec(Rec { op: "send", fd, data: d[..n].to_vec(), took: n, space, stream: true, ..Rec::default() });
        Ok(n)
    }
    /// The events of a descriptor that `poll` reports.
    pub fn ready(&self, fd: i32, events: i16) -> i16 {
        let Some(&s) = self.fds.get(&fd) else { return POLLNVAL };
        let k = &self.socks[s];
        let mut r = 0;
        if k.ty == SOCK_DGRAM {
            if !k.dq.is_empty() || k.shut_rd {
                r |= POLLIN;
            }
            let full = k.full_until > self.now || k.peer.is_some_and(|p| self.socks[p].open && self.socks[p].dq.len() >= 3);
            if !full {
                r |= POLLOUT;
            }
        } else {
            match k.st {
                S::Listening => {
                    if !k.queue.is_empty() {
                        r |= POLLIN;
                    }
                }
                S::Connecting => {}
                S::Fresh => r |= POLLOUT | POLLHUP,
                S::Failed => r |= POLLIN | POLLOUT | POLLHUP,
                S::Connected => {
                    if !k.rx.is_empty() || k.eof || k.shut_rd {
                        r |= POLLIN;
                    }
                    if k.shut_wr || (k.full_until <= self.now && self.space(s) > 0) {
                        r |= POLLOUT;
                    }
                    if k.shut_wr && k.eof {
                        r |= POLLHUP;
                    }
                }
            }
        }
        if k.soerr != 0 {
            r |= POLLERR;
        }
        r & (events | POLLERR | POLLHUP)
    }
    pub fn poll(&mut self, p: &mut [pollfd], timeout: i32) -> i32 {
        self.tick();
        let start = self.now;
        if timeout != 0 {
            let call = w().call().unwrap();
            call.waited = true;
            call.dry = 0;
            if call.now {
                w().abort("wait", "a call that must not wait waits".into());
            }
            if w().others() {
                w().judge(false, "blocked", || "the call waits inside the kernel while other threads could run".into());
            }
            if ctx().chance(self.f.eintr, 50) {
                ctx().fault("EINTR");
                self.signal();
                return set_errno(EINTR);
            }
            if ctx().chance(1, 20) {
                ctx().fault("spurious wake-up");
                return 1;
            }
        }
        let limit = (timeout >= 0).then(|| start + timeout as u64 * MS);
        loop {
            let mut n = 0;
            for f in p.iter_mut() {
                f.revents = self.ready(f.fd, f.events);
                n += (f.revents != 0) as i32;
            }
            if n > 0 || limit.is_some_and(|l| l <= self.now) {
                return n;
            }
            let i = w().cur;
            w().stuck(i);
            if w().fail.is_some() {
                let (c, m) = w().fail.clone().unwrap();
                w().abort(&c, m);
            }
            if !self.idle(limit) {
                // nothing will ever happen again
                w().ending = true;
                w().raising = true;
                crate::codegen::signal_table::PENDING_SIGNALS.store(1, std::sync::atomic::Ordering::Relaxed);
                return set_errno(EINTR);
            }
        }
    }
    fn signal(&mut self) {
        crate::codegen::signal_table::PENDING_SIGNALS.store(1, std::sync::atomic::Ordering::Relaxed);
        if ctx().chance(1, 4) {
            w().raising = true;
            ctx().fault("handler raises");
        }
    }
    pub fn resolve(&mut self, h: &str) -> Result<Vec<Option<u32>>, i32> {
        self.tick();
        if h != "localhost" {
            ctx().fault("name not known");
            return Err(::libc::EAI_NONAME);
        }
        if ctx().chance(self.f.neterr, 200) {
            ctx().fault("no address of the wanted kind");
            return Ok(vec![None]);
        }
        let a = u32::from_ne_bytes([127, 0, 0, 1]);
        Ok(if ctx().chance(1, 3) { vec![None, Some(a)] } else { vec![Some(a), Some(0)] })
    }
}

//! The simulated kernel: open files, pipes, terminals, and the faults the
//! seed decides on.

use simcore::Ctx;
use std::collections::BTreeMap;
use std::collections::VecDeque;

#[derive(Default, Clone)]
pub struct Faults {
    /// All rates are "one in n"; 0 = never.
    pub short: usize,
    pub eintr: usize,
    pub eintr_sig: usize,
    pub sig_between: usize,
    pub eagain: usize,
    pub hard: usize,
}

pub enum Kind {
    File(usize),
    /// Reading end of a pipe, writing end of a pipe.
    Chan { r: Option<usize>, w: Option<usize> },
}

pub struct Ofd {
    pub kind: Kind,
    pub pos: u64,
    pub append: bool,
    pub nonblock: bool,
    pub tty: bool,
    pub cloexec: bool,
}

/// A byte channel between the interpreter and a peer.
#[derive(Default)]
pub struct Chan {
    /// In the kernel, not yet read.
    pub data: VecDeque<u8>,
    /// What the peer is still going to write, then it closes.
    pub todo: VecDeque<u8>,
    pub eof: bool,
    /// Everything the interpreter wrote.
    pub out: Vec<u8>,
    /// Space left for the interpreter's writes before the peer reads.
    pub space: usize,
    /// The peer has gone.
    pub gone: bool,
}

pub struct Kern {
    ctx: *mut Ctx,
    pub f: Faults,
    pub fds: BTreeMap<i32, Ofd>,
    pub files: Vec<Vec<u8>>,
    pub chans: Vec<Chan>,
    pub pending: bool,
    /// Faults still allowed in the current call.
    pub budget: u32,
    // what happened during the current call
    pub reads: u32,
    pub writes: u32,
    pub eagains: u32,
    pub hards: u32,
    pub delivered: usize,
    pub rhards: u32,
    pub eintrs: u32,
    /// The write happens where no signal can be handled any more.
    pub ending: bool,
    pub bad: Option<String>,
    pub double_close: u32,
    pub next_fd: i32,
    pub epoch: u64,
}

static mut K: Kern = Kern {
    ctx: std::ptr::null_mut(),
    f: Faults { short: 0, eintr: 0, eintr_sig: 0, sig_between: 0, eagain: 0, hard: 0 },
    fds: BTreeMap::new(),
    files: vec![],
    chans: vec![],
    pending: false,
    budget: 0,
    reads: 0,
    writes: 0,
    eagains: 0,
    hards: 0,
    delivered: 0,
    rhards: 0,
    eintrs: 0,
    ending: false,
    bad: None,
    double_close: 0,
    next_fd: 3,
    epoch: 1,
};

#[allow(static_mut_refs)]
pub fn k() -> &'static mut Kern {
    unsafe { &mut K }
}

pub fn errno(e: i32) -> std::io::Error {
    std::io::Error::from_raw_os_error(e)
}

impl Kern {
    pub fn reset(&mut self, ctx: &mut Ctx) {
        let epoch = self.epoch + 1;
        *self = Kern {
            ctx,
            f: Faults::default(),
            fds: BTreeMap::new(),
            files: vec![],
            chans: vec![],
            pending: false,
            budget: 0,
            reads: 0,
            writes: 0,
            eagains: 0,
            hards: 0,
            delivered: 0,
            rhards: 0,
            eintrs: 0,
            ending: false,
            bad: None,
            double_close: 0,
            next_fd: 3,
            epoch,
        };
    }
    pub fn begin(&mut self, ctx: &mut Ctx) {
        self.ctx = ctx;
        self.reads = 0;
        self.writes = 0;
        self.eagains = 0;
        self.hards = 0;
        self.delivered = 0;
        self.rhards = 0;
        self.eintrs = 0;
        self.budget = 5;
    }
    fn ctx(&self) -> &'static mut Ctx {
        unsafe { &mut *self.ctx }
    }
    fn chance(&mut self, n: usize) -> bool {
        if n == 0 || self.budget == 0 {
            return false;
        }
        let hit = self.ctx().draw(n) == n - 1;
        if hit {
            self.budget -= 1;
        }
        hit
    }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some(s.into());
        }
    }
    /// The interpreter looks whether a signal is pending.
    pub fn poll_signal(&mut self) -> bool {
        if !self.pending && self.chance(self.f.sig_between) {
            self.ctx().fault("signal between kernel entries");
            self.pending = true;
        }
        self.pending
    }
    pub fn open(&mut self, kind: Kind) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, Ofd { kind, pos: 0, append: false, nonblock: false, tty: false, cloexec: true });
        fd
    }
    pub fn close(&mut self, fd: i32) {
        if self.fds.remove(&fd).is_none() {
            self.double_close += 1;
            self.note(format!("descriptor {fd} closed twice"));
        }
    }
    fn interrupts(&mut self, what: &'static str) -> Option<std::io::Error> {
        if self.chance(self.f.eintr) {
            self.ctx().fault("EINTR without a signal");
            self.eintrs += 1;
            return Some(errno(libc::EINTR));
        }
        if self.chance(self.f.eintr_sig) {
            self.ctx().fault("EINTR with a signal");
            self.eintrs += 1;
            self.pending = true;
            return Some(errno(libc::EINTR));
        }
        if self.chance(self.f.hard) {
            self.ctx().fault(what);
            self.hards += 1;
            self.rhards += (what == "read error") as u32;
            return Some(errno(if what == "read error" { libc::EIO } else { libc::ENOSPC }));
        }
        None
    }
    fn len(&mut self, want: usize) -> usize {
        if want > 1 && self.chance(self.f.short) {
            self.ctx().fault("short transfer");
            let c = self.ctx();
            return match c.draw(3) {
                0 => 1,
                1 => 1 + c.draw(want.min(16)),
                _ => 1 + c.draw(want),
            }
            .min(want);
        }
        want
    }
    pub fn read(&mut self, fd: i32, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if !self.fds.contains_key(&fd) {
            self.note(format!("read from closed descriptor {fd}"));
            return Err(errno(libc::EBADF));
        }
        if let Some(e) = self.interrupts("read error") {
            return Err(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let (file, chan, nonblock) = {
            let o = &self.fds[&fd];
            match o.kind {
                Kind::File(i) => (Some(i), None, o.nonblock),
                Kind::Chan { r, .. } => (None, r, o.nonblock),
            }
        };
        if let Some(i) = file {
            let pos = self.fds[&fd].pos as usize;
            let avail = self.files[i].len().saturating_sub(pos);
            let n = self.len(avail.min(buf.len()));
            if n > 0 {
                buf[..n].copy_from_slice(&self.files[i][pos..pos + n]);
            }
            self.fds.get_mut(&fd).unwrap().pos += n as u64;
            self.delivered += n;
            return Ok(n);
        }
        let Some(c) = chan else {
            self.note(format!("read from write end {fd}"));
            return Err(errno(libc::EBADF));
        };
        if self.chans[c].data.is_empty() && !self.chans[c].eof {
            if nonblock || self.chance(self.f.eagain) {
                self.ctx().fault("EAGAIN on read");
                self.eagains += 1;
                return Err(errno(libc::EAGAIN));
            }
            // blocks until the peer does something
            self.peer(c, true);
        }
        let avail = self.chans[c].data.len();
        let n = self.len(avail.min(buf.len()));
        for b in buf[..n].iter_mut() {
            *b = self.chans[c].data.pop_front().unwrap();
        }
        self.delivered += n;
        Ok(n)
    }
    /// The peer of a channel writes its next chunk, or closes.
    pub fn peer(&mut self, c: usize, must: bool) {
        let ctx = self.ctx();
        let left = self.chans[c].todo.len();
        if left == 0 {
            self.chans[c].eof = true;
            return;
        }
        let n = match ctx.draw(4) {
            0 => left,
            1 => 1 + ctx.draw(left.min(4)),
            2 => 1 + ctx.draw(left.min(64)),
            _ => {
                if must {
                    1 + ctx.draw(left)
                } else {
                    0
                }
            }
        }
        .min(left);
        for _ in 0..n {
            let b = self.chans[c].todo.pop_front().unwrap();
            self.chans[c].data.push_back(b);
        }
    }
    pub fn write(&mut self, fd: i32, buf: &[u8]) -> std::io::Result<usize> {
        self.writes += 1;
        if !self.fds.contains_key(&fd) {
            self.note(format!("write to closed descriptor {fd}"));
            return Err(errno(libc::EBADF));
        }
        if self.pending && !self.ending && !self.fds[&fd].nonblock {
            self.note("write entered with a signal already pending");
        }
        if let Some(e) = self.interrupts("write error") {
            return Err(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let (file, chan, nonblock) = {
            let o = &self.fds[&fd];
            match o.kind {
                Kind::File(i) => (Some(i), None, o.nonblock),
                Kind::Chan { w, .. } => (None, w, o.nonblock),
            }
        };
        if let Some(i) = file {
            let n = self.len(buf.len());
            let o = self.fds.get_mut(&fd).unwrap();
            if o.append {
                o.pos = self.files[i].len() as u64;
            }
            let p = o.pos as usize;
            let f = &mut self.files[i];
            if f.len() < p + n {
                f.resize(p + n, 0);
            }
            f[p..p + n].copy_from_slice(&buf[..n]);
            o.pos += n as u64;
            return Ok(n);
        }
        let Some(c) = chan else {
            self.note(format!("write to read end {fd}"));
            return Err(errno(libc::EBADF));
        };
        if self.chans[c].gone {
            self.ctx().fault("EPIPE");
            self.hards += 1;
            return Err(errno(libc::EPIPE));
        }
        if self.chans[c].space == 0 {
            if nonblock || self.chance(self.f.eagain) {
                self.ctx().fault("EAGAIN on write");
                self.eagains += 1;
                return Err(errno(libc::EAGAIN));
            }
            self.drain_peer(c);
        }
        let n = self.len(buf.len().min(self.chans[c].space));
        self.chans[c].out.extend_from_slice(&buf[..n]);
        self.chans[c].space -= n;
        Ok(n)
    }
    /// The peer of a channel reads: there is space again.
    pub fn drain_peer(&mut self, c: usize) {
        let ctx = self.ctx();
        self.chans[c].space = [65536, 4096, 100, 1][ctx.draw(4)];
    }
    pub fn seek(&mut self, fd: i32, s: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let Some(o) = self.fds.get(&fd) else {
            self.note(format!("seek on closed descriptor {fd}"));
            return Err(errno(libc::EBADF));
        };
        let Kind::File(i) = o.kind else { return Err(errno(libc::ESPIPE)) };
        let base = match s {
            Start(n) => {
                if n > i64::MAX as u64 {
                    return Err(errno(libc::EINVAL));
                }
                n as i64
            }
            Current(n) => match (o.pos as i64).checked_add(n) {
                Some(x) => x,
                None => return Err(errno(libc::EOVERFLOW)),
            },
            End(n) => match (self.files[i].len() as i64).checked_add(n) {
                Some(x) => x,
                None => return Err(errno(libc::EOVERFLOW)),
            },
        };
        if base < 0 {
            return Err(errno(libc::EINVAL));
        }
        if self.f.hard > 0 && self.chance(self.f.hard * 2) {
            self.ctx().fault("seek error");
            self.hards += 1;
            return Err(errno(libc::EIO));
        }
        self.fds.get_mut(&fd).unwrap().pos = base as u64;
        Ok(base as u64)
    }
}

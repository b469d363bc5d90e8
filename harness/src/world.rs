//! The closed environment of one client: byte pipe to a model server, with every environment
//! answer (split, short write, not ready, fault) decided by the explorer.

use crate::explore::{lock, Ch, Fnv};
use crate::server::Server;
use std::future::Future;
use std::hash::Hasher;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug, Default)]
pub struct Env {
    /// Deviations the explorer may choose at each I/O call.
    pub dev_split: bool,
    pub dev_pend: bool,
    pub dev_short: bool,
    pub dev_fault: bool,
    /// Uniform behaviour (no choice points).
    pub read_chunk: Option<usize>,
    pub write_chunk: Option<usize>,
    pub pend_always: bool,
    /// Written bytes reach the server only when flushed.
    pub write_back: bool,
    /// Bounded buffering.
    pub c2s_cap: Option<usize>,
    pub s2c_cap: Option<usize>,
    /// Fault injected at the k-th I/O call (0-based) of the stream.
    pub fault_at: Option<(usize, Fault)>,
    /// One fault at the first read during this operation.
    pub read_fault_in: Option<usize>,
    /// How errors are made, see `io_error`.
    pub err_form: u8,
    /// After a fault every later call fails the same way.
    pub fault_sticky: bool,
    /// The connection dies after this many bytes have been accepted from the client.
    pub cut_write_at: Option<usize>,
    /// The server dies after having received this many bytes: the client may go on writing, but
    /// the server sees nothing more; what it answered so far is lost (true) or still readable.
    pub server_dies_at: Option<(usize, bool)>,
    /// The server's byte stream ends (EOF) after this many bytes.
    pub eof_at: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Err(u8), // index into KINDS
    Eof,
    Zero,
}
/// The first `FEW` are those connections usually fail with.
pub const FEW: u8 = 8;
pub const KINDS: [io::ErrorKind; 35] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::TooManyLinks,
    io::ErrorKind::ArgumentListTooLong,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
];

/// A caller's own error type inside of an I/O error.
#[derive(Debug)]
pub struct Marker(pub u8);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "own error number {}", self.0)
    }
}
impl std::error::Error for Marker {}
pub const FORMS: u8 = 4;
/// With a text, of a kind only, with an own error type, by a system error number.
pub fn io_error(form: u8, k: u8) -> io::Error {
    let kind = KINDS[k as usize % KINDS.len()];
    match form {
        0 => io::Error::new(kind, "injected fault"),
        1 => kind.into(),
        2 => io::Error::new(kind, Marker(k)),
        _ => io::Error::from_raw_os_error(k as i32),
    }
}
/// What identifies an I/O error.
pub fn io_seen(e: &io::Error) -> String {
    format!("{:?} {:?} {:?} {e}", e.kind(), e.raw_os_error(), e.get_ref().and_then(|x| x.downcast_ref::<Marker>()).map(|m| m.0))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Io {
    Read,
    Write,
    Flush,
}

#[derive(Clone, Debug)]
pub struct WriteRec {
    pub start: usize,
    pub len: usize,
    /// Server bytes the client had consumed when this write was accepted.
    pub consumed: usize,
}

#[derive(Clone, Debug)]
pub struct Blocked {
    pub on: Io,
    pub unflushed: usize,
    pub written: usize,
    pub srv_taken: usize,
    pub consumed: usize,
}

pub struct World {
    pub ch: Ch,
    pub env: Env,
    pub server: Option<Box<dyn Server>>,
    pub written: Vec<u8>,
    pub flushed: usize,
    pub srv_taken: usize,
    pub s2c: Vec<u8>,
    pub pending_out: Vec<u8>,
    /// Bytes handed to the client's buffer / consumed by the client.
    pub presented: usize,
    pub consumed: usize,
    pub closed: bool, // server has closed: EOF after s2c is exhausted
    pub writes: Vec<WriteRec>,
    pub calls: usize,
    pub eof_reads: usize,
    pub livelock: bool,
    pub blocked: Option<Blocked>,
    pub fault: Option<(usize, Io, Fault)>, // call index, where, what
    pub fault_op: usize,
    /// Bytes the client had consumed and written at the first fault.
    pub fault_when: (usize, usize),
    pub fault_ops: Vec<usize>, // operations during which a fault was handed to the client
    /// A read really blocked while written bytes were not flushed.
    pub blocked_unflushed: bool,
    pub cur_op: usize,
    pub op_marks: Vec<(usize, usize)>, // (written.len() at start of op, op)
    pub reads_before_write: usize,     // read calls answered or blocked before the first write
    pub pend_next: bool,
    /// Who waits for the transport.
    waiting: Vec<Waker>,
    wake_due: bool,
    pub shut: bool,
    whash: Fnv,
    pub polls: usize,
    pub src_reads: usize,
}

pub type W = Arc<Mutex<World>>;

pub fn world(ch: &Ch, env: Env, server: Option<Box<dyn Server>>) -> W {
    Arc::new(Mutex::new(World {
        ch: ch.clone(),
        env,
        server,
        written: Vec::new(),
        flushed: 0,
        srv_taken: 0,
        s2c: Vec::new(),
        pending_out: Vec::new(),
        presented: 0,
        consumed: 0,
        closed: false,
        writes: Vec::new(),
        calls: 0,
        eof_reads: 0,
        livelock: false,
        blocked: None,
        fault: None,
        fault_op: usize::MAX,
        fault_when: (0, 0),
        fault_ops: Vec::new(),
        blocked_unflushed: false,
        cur_op: 0,
        op_marks: Vec::new(),
        reads_before_write: 0,
        pend_next: false,
        waiting: Vec::new(),
        wake_due: false,
        shut: false,
        whash: Fnv::default(),
        polls: 0,
        src_reads: 0,
    }))
}

enum Dev {
    None,
    Pend,
    Fault(Fault),
    Part(usize),
}

impl World {
    pub fn state(&self) -> u64 {
        let mut h = self.whash.clone();
        h.write_usize(self.written.len());
        h.write_usize(self.flushed);
        h.write_usize(self.s2c.len());
        h.write_usize(self.presented);
        h.write_usize(self.consumed);
        h.write_usize(self.cur_op);
        h.write_usize(self.calls);
        h.write_u8(self.fault.is_some() as u8);
        h.write_usize(self.src_reads);
        if let Some(s) = &self.server {
            h.write_u64(s.state());
        }
        h.finish()
    }

    pub fn begin_op(&mut self, op: usize) {
        self.cur_op = op;
        let at = self.written.len();
        self.op_marks.push((at, op));
        self.blocked = None;
    }
    pub fn op_of(&self, off: usize) -> usize {
        self.op_marks.iter().rev().find(|(o, _)| *o <= off).map_or(usize::MAX, |x| x.1)
    }
    /// How many server bytes the client had consumed when it wrote byte `off`.
    pub fn consumed_when_written(&self, off: usize) -> Option<usize> {
        let k = self.writes.partition_point(|w| w.start + w.len <= off);
        self.writes.get(k).map(|w| w.consumed)
    }

    /// Lets the server make as much progress as it can. Returns true if anything changed.
    pub fn pump(&mut self) -> bool {
        let mut any = false;
        loop {
            let mut progress = false;
            if !self.pending_out.is_empty() {
                let room = match self.env.s2c_cap {
                    None => usize::MAX,
                    Some(c) => c.saturating_sub(self.s2c.len() - self.consumed),
                };
                let n = room.min(self.pending_out.len());
                if n > 0 {
                    self.s2c.extend(self.pending_out.drain(..n));
                    progress = true;
                }
            }
            if let Some(e) = self.env.eof_at {
                let total = self.s2c.len();
                if total > e {
                    self.s2c.truncate(e.max(self.presented));
                    self.pending_out.clear();
                    self.closed = true;
                }
                if self.s2c.len() >= e && !self.closed {
                    self.closed = true;
                }
            }
            if self.pending_out.is_empty() {
                let mut vis = if self.env.write_back { self.flushed } else { self.written.len() };
                if let Some((k, lose)) = self.env.server_dies_at {
                    if self.srv_taken >= k && !self.closed {
                        self.closed = true;
                        if lose {
                            let p = self.presented;
                            self.s2c.truncate(p);
                            self.pending_out.clear();
                        }
                        progress = true;
                    }
                    vis = vis.min(k);
                }
                let vis = vis.max(self.srv_taken);
                if self.closed {
                    any |= progress;
                    return any;
                }
                if let Some(mut s) = self.server.take() {
                    let base = self.s2c.len();
                    let n = s.step(&self.written[self.srv_taken..vis], self.srv_taken, base, &mut self.pending_out, &self.ch, &self.op_marks);
                    self.srv_taken += n;
                    if n > 0 || !self.pending_out.is_empty() {
                        progress = true;
                    }
                    if s.closed() && !self.closed {
                        self.closed = true;
                        progress = true;
                    }
                    self.server = Some(s);
                }
            }
            any |= progress;
            if !progress {
                return any;
            }
        }
    }

    fn faulted(&mut self, io: Io, f: Fault) {
        if self.fault_ops.last() != Some(&self.cur_op) {
            self.fault_ops.push(self.cur_op);
        }
        if self.fault.is_none() {
            self.fault = Some((self.calls - 1, io, f));
            self.fault_op = self.cur_op;
            self.fault_when = (self.consumed, self.written.len());
        }
    }

    /// Common prelude of every I/O call: counts it and decides forced faults / deviations.
    fn decide(&mut self, io: Io, parts: usize) -> Dev {
        self.calls += 1;
        let limit = 2_000_000 + 4 * (self.written.len().min(64 << 20) + self.s2c.len());
        if self.calls > limit || self.written.len() > 512 << 20 {
            self.livelock = true;
        }
        if let Some((k, f)) = self.env.fault_at {
            if self.calls - 1 == k || (self.env.fault_sticky && self.calls > k) {
                self.faulted(io, f);
                return Dev::Fault(f);
            }
        }
        if self.env.fault_sticky {
            if let Some((_, _, f)) = self.fault {
                self.faulted(io, f);
                return Dev::Fault(f);
            }
        }
        if io == Io::Read && self.env.read_fault_in == Some(self.cur_op) && self.fault.is_none() {
            self.faulted(io, Fault::Err(2));
            return Dev::Fault(Fault::Err(2));
        }
        if self.env.pend_always {
            self.pend_next = !self.pend_next;
            if self.pend_next {
                return Dev::Pend;
            }
        }
        let e = &self.env;
        let np = e.dev_pend as usize;
        let part_ok = match io {
            Io::Read => e.dev_split,
            Io::Write => e.dev_short,
            Io::Flush => false,
        };
        let nparts = if part_ok { parts } else { 0 };
        let nf = if e.dev_fault && self.fault.is_none() { 2 } else { 0 };
        let n = 1 + np + nparts + nf;
        if n == 1 {
            return Dev::None;
        }
        let st = self.state();
        let k = self.ch.dev(n, st);
        if k == 0 {
            return Dev::None;
        }
        let k = k - 1;
        if k < np {
            return Dev::Pend;
        }
        let k = k - np;
        if k < nparts {
            return Dev::Part(k + 1);
        }
        let f = match (io, k - nparts) {
            (_, 0) => Fault::Err(0),
            (Io::Read, _) => Fault::Eof,
            (Io::Write, _) => Fault::Zero,
            (Io::Flush, _) => Fault::Err(1),
        };
        self.faulted(io, f);
        Dev::Fault(f)
    }


    /// Not ready now, but soon: the wake-up comes after the poll.
    fn later(&mut self, cx: &mut Context) {
        self.waiting.push(cx.waker().clone());
        self.wake_due = true;
    }
    /// What happens while the client is suspended: the server goes on, and whoever waits is woken.
    /// False: nothing happens any more.
    pub fn meanwhile(&mut self) -> bool {
        let due = std::mem::take(&mut self.wake_due) | self.pump();
        if due {
            self.waiting.drain(..).for_each(Waker::wake);
        }
        due
    }

    fn block(&mut self, on: Io) {
        if on == Io::Read && self.written.len() > self.flushed {
            self.blocked_unflushed = true;
        }
        self.blocked = Some(Blocked {
            on,
            unflushed: self.written.len() - self.flushed,
            written: self.written.len(),
            srv_taken: self.srv_taken,
            consumed: self.consumed,
        });
    }

    /// Next chunk for the client's read buffer. Ok(empty) is end of stream.
    fn read_more(&mut self, cx: &mut Context) -> Poll<io::Result<std::ops::Range<usize>>> {
        if self.written.is_empty() {
            self.reads_before_write += 1;
        }
        self.pump();
        let avail = self.s2c.len() - self.presented;
        if avail == 0 && !self.closed {
            // Nothing to read and nothing coming unless the client acts: block.
            self.block(Io::Read);
            self.waiting.push(cx.waker().clone());
            return Poll::Pending;
        }
        let d = self.decide(Io::Read, avail.saturating_sub(1));
        if self.livelock {
            return Poll::Pending;
        }
        match d {
            Dev::Pend => {
                self.later(cx);
                return Poll::Pending;
            }
            Dev::Fault(f) => return self.read_fault(f),
            _ => {}
        }
        if avail == 0 {
            self.eof_reads += 1;
            if self.eof_reads > 10_000 {
                self.livelock = true;
                return Poll::Pending;
            }
            return Poll::Ready(Ok(self.presented..self.presented));
        }
        let n = match d {
            Dev::Part(k) => k,
            _ => self.env.read_chunk.unwrap_or(avail).min(avail),
        };
        let r = self.presented..self.presented + n;
        self.presented += n;
        Poll::Ready(Ok(r))
    }

    fn read_fault(&mut self, f: Fault) -> Poll<io::Result<std::ops::Range<usize>>> {
        match f {
            Fault::Err(k) => Poll::Ready(Err(io_error(self.env.err_form, k))),
            Fault::Eof | Fault::Zero => {
                self.eof_reads += 1;
                if self.eof_reads > 10_000 {
                    self.livelock = true;
                    return Poll::Pending;
                }
                if self.env.fault_sticky {
                    self.closed = true;
                }
                Poll::Ready(Ok(self.presented..self.presented))
            }
        }
    }

    fn write(&mut self, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if let Some(cut) = self.env.cut_write_at {
            if self.written.len() >= cut {
                self.calls += 1;
                self.faulted(Io::Write, Fault::Err(1));
                return Poll::Ready(Err(io_error(self.env.err_form, 1)));
            }
        }
        let mut room = buf.len();
        if let Some(cap) = self.env.c2s_cap {
            self.pump();
            let space = |w: &World| cap.saturating_sub(w.written.len() - w.srv_taken);
            if space(self) == 0 && self.env.write_back {
                // A buffering stream that is full sends what it has.
                self.flushed = self.written.len();
                self.pump();
            }
            room = room.min(space(self));
            if room == 0 {
                self.block(Io::Write);
                self.waiting.push(cx.waker().clone());
                return Poll::Pending;
            }
        }
        // Short writes: 1 byte, half, all but one.
        let mut opts = vec![];
        if self.env.dev_short {
            for k in [1, room / 2, room.saturating_sub(1)] {
                if k > 0 && k < room && !opts.contains(&k) {
                    opts.push(k);
                }
            }
        }
        let d = self.decide(Io::Write, opts.len());
        if self.livelock {
            return Poll::Pending;
        }
        let n = match d {
            Dev::Pend => {
                self.later(cx);
                return Poll::Pending;
            }
            Dev::Fault(Fault::Err(k)) => return Poll::Ready(Err(io_error(self.env.err_form, k))),
            Dev::Fault(Fault::Zero) => return Poll::Ready(Ok(0)),
            Dev::Fault(Fault::Eof) => return Poll::Ready(Err(io_error(self.env.err_form, 1))),
            Dev::Part(k) => opts[k - 1],
            Dev::None => self.env.write_chunk.unwrap_or(room).min(room),
        };
        let n = match self.env.cut_write_at {
            Some(cut) => n.min(cut - self.written.len()),
            None => n,
        };
        let start = self.written.len();
        self.writes.push(WriteRec { start, len: n, consumed: self.consumed });
        self.written.extend_from_slice(&buf[..n]);
        self.whash.write(&buf[..n]);
        if !self.env.write_back {
            self.pump();
        }
        Poll::Ready(Ok(n))
    }

    fn flush(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        let d = self.decide(Io::Flush, 0);
        if self.livelock {
            return Poll::Pending;
        }
        match d {
            Dev::Pend => {
                self.later(cx);
                return Poll::Pending;
            }
            Dev::Fault(Fault::Err(k)) => return Poll::Ready(Err(io_error(self.env.err_form, k))),
            Dev::Fault(_) => return Poll::Ready(Err(io_error(self.env.err_form, 1))),
            _ => {}
        }
        self.flushed = self.written.len();
        self.pump();
        Poll::Ready(Ok(()))
    }
}

/// The stream handed to the client.
pub struct Pipe {
    pub w: W,
    buf: Vec<u8>,
    pos: usize,
}

impl Pipe {
    pub fn new(w: &W) -> Pipe {
        Pipe { w: w.clone(), buf: Vec::new(), pos: 0 }
    }
    fn fill(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        if self.pos < self.buf.len() {
            return Poll::Ready(Ok(()));
        }
        let mut w = lock(&self.w);
        match w.read_more(cx) {
            Poll::Ready(Ok(r)) => {
                self.buf.clear();
                self.pos = 0;
                self.buf.extend_from_slice(&w.s2c[r]);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn eat(&mut self, n: usize) {
        let n = n.min(self.buf.len() - self.pos);
        self.pos += n;
        lock(&self.w).consumed += n;
    }
    /// Bytes not yet consumed by the client: own buffer, then what the server already emitted.
    pub fn unread(&self) -> Vec<u8> {
        let mut v = self.buf[self.pos..].to_vec();
        let w = lock(&self.w);
        v.extend_from_slice(&w.s2c[w.presented..]);
        v.extend_from_slice(&w.pending_out);
        v
    }
}

impl std::fmt::Debug for Pipe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pipe")
    }
}

/// A message source with its own chunking, delays and faults.
#[derive(Clone, Default)]
pub struct SrcCfg {
    pub chunk: Option<usize>,
    pub pend_always: bool,
    pub dev: bool, // explorer may split / delay each read
    pub fail_at: Option<(usize, u8)>,
    /// How the error is made, see `io_error`.
    pub err_form: u8,
    /// What follows the failure: 0 the same again, 1 the end, 2 the rest of the data.
    pub after_fail: u8,
}
pub struct Source {
    data: Arc<Vec<u8>>,
    pos: usize,
    cfg: SrcCfg,
    w: Option<W>,
    pended: bool,
    failed: bool,
}
impl Source {
    pub fn new(data: &[u8], cfg: SrcCfg, w: Option<&W>) -> Source {
        Source { data: Arc::new(data.to_vec()), pos: 0, cfg, w: w.cloned(), pended: false, failed: false }
    }
    fn next(&mut self, cx: &mut Context, room: usize) -> Poll<io::Result<std::ops::Range<usize>>> {
        if self.cfg.pend_always {
            self.pended = !self.pended;
            if self.pended {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if let Some((at, k)) = self.cfg.fail_at {
            if self.failed && self.cfg.after_fail == 1 {
                return Poll::Ready(Ok(self.pos..self.pos));
            }
            if self.pos >= at && !(self.failed && self.cfg.after_fail == 2) {
                self.failed = true;
                return Poll::Ready(Err(io_error(self.cfg.err_form, k)));
            }
        }
        let mut lim = self.data.len();
        if let Some((at, _)) = self.cfg.fail_at {
            if !self.failed {
                lim = lim.min(at);
            }
        }
        let mut n = (lim - self.pos).min(room);
        if let Some(c) = self.cfg.chunk {
            n = n.min(c);
        }
        if self.cfg.dev {
            if let Some(w) = &self.w {
                let mut w = lock(w);
                w.src_reads += 1;
                let st = w.state();
                let alts = n.saturating_sub(1).min(12);
                let k = w.ch.dev(2 + alts, st);
                if k == 1 {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                if k >= 2 {
                    n = k - 1;
                }
            }
        }
        let r = self.pos..self.pos + n;
        self.pos += n;
        Poll::Ready(Ok(r))
    }
}

#[cfg(feature = "rt-tokio")]
mod imp {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    pub fn poll_message(m: Pin<&mut async_smtp::Message>, n: usize, pre: usize) -> Poll<io::Result<Vec<u8>>> {
        let mut store = vec![0xEEu8; pre + n];
        let mut b = ReadBuf::new(&mut store);
        b.put_slice(&vec![0xDDu8; pre]);
        match m.poll_read(&mut Context::from_waker(Waker::noop()), &mut b) {
            Poll::Ready(Ok(())) => {
                let f = b.filled();
                if f.len() < pre || f[..pre].iter().any(|x| *x != 0xDD) {
                    return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "prefilled bytes damaged")));
                }
                Poll::Ready(Ok(f[pre..].to_vec()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    impl AsyncRead for Pipe {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Ready(Ok(())) => {
                    let n = b.remaining().min(me.buf.len() - me.pos);
                    b.put_slice(&me.buf[me.pos..me.pos + n]);
                    me.eat(n);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncBufRead for Pipe {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.buf[me.pos..])),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().eat(n)
        }
    }
    impl AsyncWrite for Pipe {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            lock(&self.w).write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            lock(&self.w).flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            lock(&self.w).shut = true;
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncRead for Source {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let me = self.get_mut();
            match me.next(cx, b.remaining()) {
                Poll::Ready(Ok(r)) => {
                    b.put_slice(&me.data[r]);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
}

#[cfg(feature = "rt-async-std")]
mod imp {
    use super::*;
    use futures_io::{AsyncBufRead, AsyncRead, AsyncWrite};
    pub fn poll_message(m: Pin<&mut async_smtp::Message>, n: usize, _pre: usize) -> Poll<io::Result<Vec<u8>>> {
        let mut store = vec![0xEEu8; n];
        match m.poll_read(&mut Context::from_waker(Waker::noop()), &mut store) {
            Poll::Ready(Ok(k)) => Poll::Ready(Ok(store[..k.min(n)].to_vec())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    impl AsyncRead for Pipe {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Ready(Ok(())) => {
                    let n = b.len().min(me.buf.len() - me.pos);
                    b[..n].copy_from_slice(&me.buf[me.pos..me.pos + n]);
                    me.eat(n);
                    Poll::Ready(Ok(n))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncBufRead for Pipe {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let me = self.get_mut();
            match me.fill(cx) {
                Poll::Ready(Ok(())) => Poll::Ready(Ok(&me.buf[me.pos..])),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
        fn consume(self: Pin<&mut Self>, n: usize) {
            self.get_mut().eat(n)
        }
    }
    impl AsyncWrite for Pipe {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            lock(&self.w).write(cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            lock(&self.w).flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            lock(&self.w).shut = true;
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncRead for Source {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
            let me = self.get_mut();
            match me.next(cx, b.len()) {
                Poll::Ready(Ok(r)) => {
                    let n = r.len();
                    b[..n].copy_from_slice(&me.data[r]);
                    Poll::Ready(Ok(n))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
}

pub use imp::poll_message;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stuck {
    /// Pending with no wake-up due: `Read`/`Write` says what the client waits for.
    Hang(String),
    Livelock,
    Dropped,
}

/// Runs one client operation to completion under the controlled executor. `drop_at`: drop the
/// future at its n-th suspension.
pub fn exec<F: Future>(w: &W, fut: F, drop_at: Option<usize>) -> Result<F::Output, Stuck> {
    crate::explore::beat();
    // Two wakers in turn, as for a future that moves between tasks: waking one that was used
    // earlier is no use.
    let flags = [0; 2].map(|_| Arc::new(Flag(AtomicBool::new(false))));
    let wakers = [0, 1].map(|i: usize| Waker::from(flags[i].clone()));
    let mut fut = Box::pin(fut);
    let mut pends = 0usize;
    loop {
        let flag = &flags[pends % 2].0;
        flag.store(false, Ordering::Relaxed);
        lock(w).waiting.clear();
        match fut.as_mut().poll(&mut Context::from_waker(&wakers[pends % 2])) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {}
        }
        let mut g = lock(w);
        g.polls += 1;
        if g.livelock || pends > 20_000_000 {
            return Err(Stuck::Livelock);
        }
        if drop_at == Some(pends) {
            return Err(Stuck::Dropped);
        }
        pends += 1;
        let due = g.meanwhile();
        if flag.load(Ordering::Relaxed) {
            continue;
        }
        let why = match &g.blocked {
            _ if due => "not woken although the transport is ready".to_string(),
            Some(b) if b.on == Io::Read => {
                format!("waiting to read, {} written bytes not flushed", g.written.len() - g.flushed)
            }
            Some(_) => "waiting to write into a full pipe".to_string(),
            None => "suspended without any pending I/O".to_string(),
        };
        return Err(Stuck::Hang(why));
    }
}

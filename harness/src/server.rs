//! Reference SMTP server: a strict RFC 5321 / 2920 / 3207 / 4954 state machine.
//!
//! What it answers to a command that is acceptable in its state is decided by a policy (usually
//! an explorer choice); commands that are not acceptable get the natural protocol error.

use crate::explore::{Ch, Fnv};
use crate::refs::{b64decode, find_crlf};
use std::hash::Hasher;

pub trait Server: Send {
    /// Consumes some of `input` (the not yet taken, visible client bytes, starting at absolute
    /// offset `off`), handles at most one command, appends replies to `out` (which will start at
    /// server-stream offset `out_base`). Returns the number of bytes consumed.
    fn step(&mut self, input: &[u8], off: usize, out_base: usize, out: &mut Vec<u8>, ch: &Ch, ops: &[(usize, usize)]) -> usize;
    fn closed(&self) -> bool {
        false
    }
    fn state(&self) -> u64 {
        0
    }
    fn rec(&self) -> &Rec;
    /// Forgets what belongs to the operations before the one under test.
    fn forget(&mut self) {}
}

/// Operations with these numbers prepare the connection; the answers to them are fixed.
pub const PRIOR_OP: usize = 1_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Greeting,
    Ehlo,
    Auth,
    AuthStep,
    StartTls,
    Mail,
    Rcpt,
    Data,
    Content,
    Rset,
    Quit,
    Noop,
    Other,
}

#[derive(Clone, Debug)]
pub struct Cmd {
    pub kind: Kind,
    pub op: usize,
    pub line: Vec<u8>, // without CRLF (empty for Content)
    pub start: usize,  // offset of the first byte in the client stream
    pub end: usize,
    pub rep_start: usize,
    pub rep_end: usize,
    pub reply: Vec<u8>,
    pub code: u16,
    pub lines: Vec<String>,
    pub proto_error: bool, // refused by the protocol state, not by the policy
    pub bare: bool,        // line contained a bare CR or LF
}

#[derive(Clone, Debug)]
pub struct Delivery {
    pub from: Vec<u8>,
    pub to: Vec<Vec<u8>>,
    pub mail_params: Vec<String>,
    pub content: Vec<u8>,
    pub op: usize, // operation that wrote the end of the content
    pub accepted: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub cmds: Vec<Cmd>,
    pub deliveries: Vec<Delivery>,
    pub greeting_end: usize,
    /// Content bytes of a message still being received.
    pub partial: Option<Vec<u8>>,
    pub sasl: Vec<Vec<u8>>, // decoded initial responses and answers, in order
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub bytes: Vec<u8>,
    pub code: u16,
    pub lines: Vec<String>,
    pub close: bool,
}

pub fn rep(code: u16, text: &str) -> Rep {
    reps(code, &[text])
}
pub fn reps<S: AsRef<str>>(code: u16, lines: &[S]) -> Rep {
    let mut bytes = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let sep = if i + 1 == lines.len() { ' ' } else { '-' };
        bytes.extend_from_slice(format!("{code:03}{sep}{}\r\n", l.as_ref()).as_bytes());
    }
    Rep { bytes, code, lines: lines.iter().map(|s| s.as_ref().to_string()).collect(), close: false }
}
pub fn raw(bytes: &[u8]) -> Rep {
    Rep { bytes: bytes.to_vec(), code: 0, lines: vec![], close: false }
}

pub struct Ask<'a> {
    pub kind: Kind,
    pub op: usize,
    pub index: usize,      // index of the command
    pub kind_index: usize, // how many commands of this kind were there before
    pub line: &'a [u8],
    pub tag: String, // " t<index>"
    pub ch: &'a Ch,
    /// For SASL steps: how many challenges have been sent in this exchange.
    pub step: usize,
    pub op_kind_index: usize, // commands of this kind before, within the same operation
}
pub type Policy = Box<dyn FnMut(&Ask) -> Option<Rep> + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Ls,
    Dot,
    DotCr,
    Cr,
    In,
}

pub struct Strict {
    pub rec: Rec,
    pub policy: Policy,
    pub ehlo: Vec<String>,
    greet: Option<Rep>,
    greeted: bool,
    line: Vec<u8>,
    line_start: usize,
    ehlo_done: bool,
    authed: bool,
    mail: Option<(Vec<u8>, Vec<String>)>,
    rcpts: Vec<Vec<u8>>,
    data: Option<(D, Vec<u8>, usize)>,
    sasl: Option<usize>,
    closed: bool,
    /// After an accepted STARTTLS the server speaks TLS: everything further is not ours.
    pub tls: bool,
    pub tls_bytes: Vec<u8>,
    /// Emitted right after the STARTTLS reply.
    pub after_starttls: Vec<u8>,
    /// Replies (after EHLO's) are held back until this many commands (MAIL and later) have
    /// arrived; used to observe that the client really sends ahead.
    pub hold: usize,
    held: Vec<u8>,
    forgotten: usize,
    counts: std::collections::HashMap<(Kind, usize), usize>,
    kind_counts: std::collections::HashMap<Kind, usize>,
}

/// The operation number tells what is to be rejected: PRIOR_OP + what (the low digit is free).
fn prior_reply(a: &Ask) -> Option<Rep> {
    let no = |c: u16| Some(reps(c, &[format!("no {}", a.tag), "earlier".to_string()]));
    match ((a.op - PRIOR_OP) % 100, a.kind, a.op_kind_index) {
        (2, Kind::Mail, _) => no(550),
        (3, Kind::Rcpt, 0) => no(550),
        (4, Kind::Rcpt, 2) => no(452),
        (5, Kind::Rcpt, _) => no(550),
        (6, Kind::Data, _) => no(451),
        (7, Kind::Content, _) => no(554),
        (9, Kind::Auth, _) => no(535),
        (10, Kind::Auth, _) => Some(rep(334, "Pz8/")),
        (11, Kind::Auth | Kind::AuthStep, _) => Some(rep(334, "VXNlcm5hbWU6")),
        (12, Kind::Auth, _) => Some(rep(334, "VXNlcm5hbWU6")),
        (12, Kind::AuthStep, 0) => Some(rep(334, "UGFzc3dvcmQ6")),
        (12, Kind::AuthStep, _) => no(535),
        _ => None,
    }
}

pub fn accept_all() -> Policy {
    Box::new(|_| None)
}

impl Strict {
    pub fn new(ehlo: &[&str], greeting: bool, policy: Policy) -> Strict {
        Strict {
            rec: Rec::default(),
            policy,
            ehlo: ehlo.iter().map(|s| s.to_string()).collect(),
            greet: if greeting { Some(rep(220, "mx.test ESMTP")) } else { None },
            greeted: false,
            line: vec![],
            line_start: 0,
            ehlo_done: false,
            authed: false,
            mail: None,
            rcpts: vec![],
            data: None,
            sasl: None,
            closed: false,
            tls: false,
            tls_bytes: vec![],
            after_starttls: vec![],
            hold: 0,
            held: vec![],
            forgotten: 0,
            counts: Default::default(),
            kind_counts: Default::default(),
        }
    }
    pub fn greeting(mut self, r: Option<Rep>) -> Strict {
        self.greet = r;
        self
    }

    fn finish(&mut self, kind: Kind, start: usize, end: usize, r: Rep, proto_error: bool, bare: bool, line: Vec<u8>, op: usize, out_base: usize, out: &mut Vec<u8>) {
        *self.counts.entry((kind, op)).or_default() += 1;
        *self.kind_counts.entry(kind).or_default() += 1;
        let rep_start = out_base + out.len() + self.held.len();
        if self.hold > 0 && op < PRIOR_OP && (matches!(kind, Kind::Mail | Kind::Rcpt) || !self.held.is_empty()) {
            self.held.extend_from_slice(&r.bytes);
            let n: usize = [Kind::Mail, Kind::Rcpt].iter().map(|k| self.kind_counts.get(k).copied().unwrap_or(0)).sum();
            if n >= self.hold {
                self.hold = 0;
                out.append(&mut self.held);
            }
        } else {
            out.extend_from_slice(&r.bytes);
        }
        if r.close {
            self.closed = true;
        }
        self.rec.cmds.push(Cmd {
            kind,
            op,
            line,
            start,
            end,
            rep_start,
            rep_end: rep_start + r.bytes.len(),
            reply: r.bytes,
            code: r.code,
            lines: r.lines,
            proto_error,
            bare,
        });
    }

    fn ask(&mut self, kind: Kind, op: usize, line: &[u8], ch: &Ch, step: usize, default: Rep) -> Rep {
        let index = self.rec.cmds.len() + self.forgotten;
        let kind_index = self.kind_counts.get(&kind).copied().unwrap_or(0);
        let op_kind_index = self.counts.get(&(kind, op)).copied().unwrap_or(0);
        let a = Ask { kind, op, index, kind_index, op_kind_index, line, tag: format!("t{index}"), ch, step };
        if op >= PRIOR_OP && op != usize::MAX {
            return prior_reply(&a).unwrap_or(default);
        }
        (self.policy)(&a).unwrap_or(default)
    }

    fn command(&mut self, start: usize, end: usize, line: Vec<u8>, op: usize, out_base: usize, out: &mut Vec<u8>, ch: &Ch) {
        let bare = line.iter().any(|b| *b == b'\r' || *b == b'\n');
        let idx = self.rec.cmds.len() + self.forgotten;
        let tag = format!("t{idx}");
        if let Some(step) = self.sasl {
            // A SASL answer (or "*" to cancel).
            if line == b"*" {
                self.sasl = None;
                let r = self.ask(Kind::Other, op, &line, ch, 0, rep(501, &format!("cancelled {tag}")));
                return self.finish(Kind::AuthStep, start, end, r, true, bare, line, op, out_base, out);
            }
            match b64decode(&line) {
                Some(d) => {
                    self.rec.sasl.push(d);
                    let r = self.ask(Kind::AuthStep, op, &line, ch, step, rep(235, &format!("authenticated {tag}")));
                    self.auth_result(&r, step);
                    return self.finish(Kind::AuthStep, start, end, r, false, bare, line, op, out_base, out);
                }
                None => {
                    self.sasl = None;
                    let r = rep(501, &format!("cannot decode {tag}"));
                    return self.finish(Kind::AuthStep, start, end, r, true, bare, line, op, out_base, out);
                }
            }
        }
        let upper: Vec<u8> = line.iter().map(|b| b.to_ascii_uppercase()).collect();
        let is = |p: &[u8]| upper.starts_with(p);
        let word = |p: &[u8]| upper == p || (upper.starts_with(p) && upper.get(p.len()) == Some(&b' '));
        let nok = |c: u16, t: &str| rep(c, &format!("{t} {tag}"));
        let (kind, r, pe): (Kind, Rep, bool);
        if bare {
            kind = Kind::Other;
            r = nok(500, "bare CR or LF");
            pe = true;
        } else if word(b"EHLO") || word(b"HELO") {
            kind = Kind::Ehlo;
            if line.len() < 6 {
                r = nok(501, "argument missing");
                pe = true;
            } else {
                let d = reps(250, &self.ehlo);
                r = self.ask(kind, op, &line, ch, 0, d);
                pe = false;
                if r.code / 100 == 2 {
                    self.ehlo_done = true;
                    self.mail = None;
                    self.rcpts.clear();
                }
            }
        } else if word(b"QUIT") {
            kind = Kind::Quit;
            let mut d = nok(221, "bye");
            d.close = true;
            r = self.ask(kind, op, &line, ch, 0, d);
            pe = false;
        } else if word(b"RSET") {
            kind = Kind::Rset;
            r = self.ask(kind, op, &line, ch, 0, nok(250, "reset"));
            pe = false;
            if r.code / 100 == 2 {
                self.mail = None;
                self.rcpts.clear();
            }
        } else if word(b"NOOP") {
            kind = Kind::Noop;
            r = nok(250, "noop");
            pe = false;
        } else if word(b"STARTTLS") {
            kind = Kind::StartTls;
            if upper != b"STARTTLS" {
                r = nok(501, "no parameters");
                pe = true;
            } else {
                r = self.ask(kind, op, &line, ch, 0, nok(220, "go ahead"));
                pe = false;
                if r.code / 100 == 2 {
                    self.tls = true;
                }
            }
        } else if word(b"AUTH") {
            kind = Kind::Auth;
            if !self.ehlo_done || self.authed || self.mail.is_some() {
                r = nok(503, "AUTH not permitted now");
                pe = true;
            } else {
                let mut it = line[4..].split(|b| *b == b' ').filter(|x| !x.is_empty());
                let mech = it.next().map(|m| m.to_ascii_uppercase()).unwrap_or_default();
                let ir = it.next().map(|x| x.to_vec());
                let extra = it.next().is_some();
                let dec = ir.as_ref().map(|x| if x == b"=" { Some(vec![]) } else { b64decode(x) });
                if extra || mech.is_empty() || matches!(dec, Some(None)) {
                    r = nok(501, "malformed AUTH");
                    pe = true;
                } else {
                    let had_ir = dec.is_some();
                    if let Some(Some(d)) = dec {
                        self.rec.sasl.push(d);
                    }
                    let d = if had_ir {
                        nok(235, "authenticated")
                    } else if mech == b"LOGIN" {
                        rep(334, "VXNlcm5hbWU6")
                    } else {
                        rep(334, "")
                    };
                    r = self.ask(kind, op, &line, ch, 0, d);
                    pe = false;
                    self.auth_result(&r, 0);
                }
            }
        } else if is(b"MAIL FROM:") {
            kind = Kind::Mail;
            match parse_path(&line[10..]) {
                None => {
                    r = nok(501, "malformed path");
                    pe = true;
                }
                Some((addr, params)) => {
                    if !self.ehlo_done {
                        r = nok(503, "EHLO first");
                        pe = true;
                    } else if self.mail.is_some() {
                        r = nok(503, "nested MAIL command");
                        pe = true;
                    } else {
                        r = self.ask(kind, op, &line, ch, 0, nok(250, "sender ok"));
                        pe = false;
                        if r.code / 100 == 2 {
                            self.mail = Some((addr, params));
                            self.rcpts.clear();
                        }
                    }
                }
            }
        } else if is(b"RCPT TO:") {
            kind = Kind::Rcpt;
            match parse_path(&line[8..]) {
                None => {
                    r = nok(501, "malformed path");
                    pe = true;
                }
                Some((addr, _)) => {
                    if self.mail.is_none() {
                        r = nok(503, "need MAIL");
                        pe = true;
                    } else {
                        r = self.ask(kind, op, &line, ch, 0, nok(250, "recipient ok"));
                        pe = false;
                        if r.code / 100 == 2 {
                            self.rcpts.push(addr);
                        }
                    }
                }
            }
        } else if word(b"DATA") {
            kind = Kind::Data;
            if upper != b"DATA" {
                r = nok(501, "no parameters");
                pe = true;
            } else if self.mail.is_none() || self.rcpts.is_empty() {
                r = nok(503, "no valid recipients");
                pe = true;
            } else {
                r = self.ask(kind, op, &line, ch, 0, nok(354, "go ahead"));
                pe = false;
                if r.code == 354 {
                    self.data = Some((D::Ls, vec![], end));
                    self.rec.partial = Some(vec![]);
                }
            }
        } else {
            kind = Kind::Other;
            r = nok(500, "unrecognized");
            pe = true;
        }
        let tls = self.tls;
        self.finish(kind, start, end, r, pe, bare, line, op, out_base, out);
        if tls && kind == Kind::StartTls {
            out.extend_from_slice(&self.after_starttls);
        }
    }

    fn auth_result(&mut self, r: &Rep, step: usize) {
        if r.code == 334 {
            self.sasl = Some(step + 1);
        } else {
            self.sasl = None;
            if r.code / 100 == 2 {
                self.authed = true;
            }
        }
    }
}

/// `<addr>[ SP param]*`
pub fn parse_path(s: &[u8]) -> Option<(Vec<u8>, Vec<String>)> {
    if s.first() != Some(&b'<') {
        return None;
    }
    let e = s.iter().position(|b| *b == b'>')?;
    let addr = s[1..e].to_vec();
    let rest = &s[e + 1..];
    if rest.is_empty() {
        return Some((addr, vec![]));
    }
    if rest[0] != b' ' {
        return None;
    }
    let params: Vec<String> = rest[1..].split(|b| *b == b' ').map(|p| String::from_utf8_lossy(p).to_string()).collect();
    if params.iter().any(|p| p.is_empty()) {
        return None;
    }
    Some((addr, params))
}

fn op_of(ops: &[(usize, usize)], off: usize) -> usize {
    ops.iter().rev().find(|(o, _)| *o <= off).map_or(usize::MAX, |x| x.1)
}

impl Server for Strict {
    fn step(&mut self, input: &[u8], off: usize, out_base: usize, out: &mut Vec<u8>, ch: &Ch, ops: &[(usize, usize)]) -> usize {
        if !self.greeted {
            self.greeted = true;
            if let Some(g) = &self.greet {
                out.extend_from_slice(&g.bytes);
                if g.close {
                    self.closed = true;
                }
                self.rec.greeting_end = out_base + out.len();
                return 0;
            }
        }
        if self.closed || input.is_empty() {
            return 0;
        }
        if self.tls {
            self.tls_bytes.extend_from_slice(input);
            return input.len();
        }
        if let Some((mut st, mut buf, start)) = self.data.take() {
            for (i, &b) in input.iter().enumerate() {
                st = match (st, b) {
                    (D::Ls, b'.') => D::Dot,
                    (D::Dot, b'\r') => D::DotCr,
                    (D::DotCr, b'\n') => {
                        // end of data
                        let op = op_of(ops, off + i);
                        let tag = self.rec.cmds.len() + self.forgotten;
                        let r = self.ask(Kind::Content, op, b"", ch, 0, rep(250, &format!("queued t{tag}")));
                        let (from, mail_params) = self.mail.take().unwrap_or_default();
                        let to = std::mem::take(&mut self.rcpts);
                        let accepted = r.code / 100 == 2;
                        self.rec.partial = None;
                        self.rec.deliveries.push(Delivery { from, to, mail_params, content: buf, op, accepted });
                        self.finish(Kind::Content, start, off + i + 1, r, false, false, vec![], op, out_base, out);
                        return i + 1;
                    }
                    (D::DotCr, b) => {
                        buf.push(b'\r');
                        buf.push(b);
                        if b == b'\r' {
                            D::Cr
                        } else {
                            D::In
                        }
                    }
                    (D::Cr, b'\n') => {
                        buf.push(b);
                        D::Ls
                    }
                    (_, b'\r') => {
                        buf.push(b);
                        D::Cr
                    }
                    (_, b) => {
                        buf.push(b);
                        D::In
                    }
                };
            }
            self.rec.partial = Some(vec![]); // content in progress
            self.data = Some((st, buf, start));
            return input.len();
        }
        // command line
        if self.line.is_empty() {
            self.line_start = off;
        }
        // find CRLF possibly split between self.line and input
        if self.line.last() == Some(&b'\r') && input[0] == b'\n' {
            let mut l = std::mem::take(&mut self.line);
            l.pop();
            let start = self.line_start;
            self.command(start, off + 1, l, op_of(ops, start), out_base, out, ch);
            return 1;
        }
        match find_crlf(input) {
            Some(p) => {
                let mut l = std::mem::take(&mut self.line);
                l.extend_from_slice(&input[..p]);
                let start = self.line_start;
                self.command(start, off + p + 2, l, op_of(ops, start), out_base, out, ch);
                p + 2
            }
            None => {
                self.line.extend_from_slice(input);
                input.len()
            }
        }
    }
    fn closed(&self) -> bool {
        self.closed
    }
    fn state(&self) -> u64 {
        let mut h = Fnv::default();
        h.write_usize(self.rec.cmds.len());
        h.write_usize(self.rec.deliveries.len());
        h.write_usize(self.line.len());
        for c in &self.rec.cmds {
            h.write_u16(c.code);
        }
        h.write_u8(self.data.is_some() as u8);
        h.finish()
    }
    fn rec(&self) -> &Rec {
        &self.rec
    }
    fn forget(&mut self) {
        self.forgotten += self.rec.cmds.len();
        self.rec.cmds.retain(|c| c.op < PRIOR_OP);
        self.forgotten -= self.rec.cmds.len();
        self.rec.deliveries.clear();
        self.rec.sasl.clear();
        self.counts.clear();
        self.kind_counts.clear();
    }
}

/// A server that answers the k-th thing it is asked (greeting first) with scripted bytes, whatever
/// the client sends; a new answer is due after every CRLF-terminated line (or end of data).
pub struct Script {
    pub rec: Rec,
    pub replies: Vec<Rep>,
    next: usize,
    pub close_after: bool,
    closed: bool,
}
impl Script {
    pub fn new(replies: Vec<Rep>, close_after: bool) -> Script {
        Script { rec: Rec::default(), replies, next: 0, close_after, closed: false }
    }
}
impl Server for Script {
    fn step(&mut self, input: &[u8], _off: usize, out_base: usize, out: &mut Vec<u8>, _ch: &Ch, _ops: &[(usize, usize)]) -> usize {
        let mut emit = |s: &mut Script| {
            if s.next < s.replies.len() {
                out.extend_from_slice(&s.replies[s.next].bytes);
                s.next += 1;
                if s.next == 1 {
                    s.rec.greeting_end = out_base + out.len();
                }
            }
            if s.next >= s.replies.len() && s.close_after {
                s.closed = true;
            }
        };
        if self.next == 0 {
            emit(self);
            return 0;
        }
        match find_crlf(input) {
            Some(p) => {
                emit(self);
                p + 2
            }
            None => 0,
        }
    }
    fn closed(&self) -> bool {
        self.closed
    }
    fn state(&self) -> u64 {
        self.next as u64
    }
    fn rec(&self) -> &Rec {
        &self.rec
    }
}

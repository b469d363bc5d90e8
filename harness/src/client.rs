//! Drives the real client through its public API.

use crate::explore::{lock, Ch};
use crate::server::{Rec, Strict};
use crate::world::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::Error;
use async_smtp::response::Response;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};

pub type T = SmtpTransport<Pipe>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok(Option<(u16, Vec<String>)>),
    Rej { transient: bool, code: u16, lines: Vec<String>, display: String },
    Fail(String),
    Hang(String),
    Livelock,
    Dropped,
}
impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Rej { .. } | Out::Fail(_))
    }
    pub fn is_rej(&self) -> bool {
        matches!(self, Out::Rej { .. })
    }
    /// Coarse class for comparing builds and schedules.
    pub fn class(&self) -> String {
        match self {
            Out::Ok(r) => format!("ok {r:?}"),
            Out::Rej { transient, code, lines, .. } => format!("rej {transient} {code} {lines:?}"),
            Out::Fail(k) => format!("fail {}", k.split(':').next().unwrap_or("")),
            Out::Hang(_) => "hang".into(),
            Out::Livelock => "livelock".into(),
            Out::Dropped => "dropped".into(),
        }
    }
}

pub fn code_of(r: &Response) -> u16 {
    r.code.severity as u16 * 100 + r.code.category as u16 * 10 + r.code.detail as u16
}

pub fn out_resp(r: &Response) -> Out {
    Out::Ok(Some((code_of(r), r.message.clone())))
}

thread_local!(static SEEN: std::cell::Cell<Option<(String, Vec<String>, String)>> = const { std::cell::Cell::new(None) });
/// The I/O error an operation reported last: itself, those reached by `source`, and the text shown.
pub fn take_seen() -> Option<(String, Vec<String>, String)> {
    SEEN.take()
}
fn chain(e: &Error) -> Vec<String> {
    let mut v = vec![];
    let mut at = std::error::Error::source(e);
    while let Some(x) = at {
        if let Some(x) = x.downcast_ref::<std::io::Error>() {
            v.push(io_seen(x));
        }
        at = x.source();
        if v.len() > 100 {
            break;
        }
    }
    v
}

pub fn out_err(e: &Error) -> Out {
    let display = e.to_string();
    match e {
        Error::Transient(r) => Out::Rej { transient: true, code: code_of(r), lines: r.message.clone(), display },
        Error::Permanent(r) => Out::Rej { transient: false, code: code_of(r), lines: r.message.clone(), display },
        Error::Io(x) => {
            SEEN.set(Some((io_seen(x), chain(e), display.clone())));
            Out::Fail(format!("io: {display}"))
        }
        Error::Parsing(_) => Out::Fail(format!("parsing: {display}")),
        Error::ResponseParsing(_) => Out::Fail(format!("response: {display}")),
        Error::ChallengeParsing(_) => Out::Fail(format!("challenge: {display}")),
        Error::Utf8Parsing(_) => Out::Fail(format!("utf8: {display}")),
        Error::Client(_) => Out::Fail(format!("client: {display}")),
        _ => Out::Fail(format!("other: {display}")),
    }
}

fn stuck(s: Stuck) -> Out {
    match s {
        Stuck::Hang(w) => Out::Hang(w),
        Stuck::Livelock => Out::Livelock,
        Stuck::Dropped => Out::Dropped,
    }
}

pub fn connect(w: &W, client: SmtpClient) -> (Option<T>, Out) {
    connect_pipe(w, client, Pipe::new(w), None)
}
pub fn connect_pipe(w: &W, client: SmtpClient, p: Pipe, drop_at: Option<usize>) -> (Option<T>, Out) {
    match exec(w, SmtpTransport::new(client, p), drop_at) {
        Ok(Ok(mut t)) => {
            let k = lock(w).ch.prior();
            if k > 0 {
                if let Err(o) = run_prior(w, &mut t, k) {
                    return (None, o);
                }
            }
            (Some(t), Out::Ok(None))
        }
        Ok(Err(e)) => (None, out_err(&e)),
        Err(s) => (None, stuck(s)),
    }
}

/// Histories that a connection may have before the operation under test.  (No accepted login: a
/// second one is refused by the server.)
pub const PRIORS: &[&str] = &[
    "nothing",
    "an accepted email",
    "a rejected sender",
    "a rejected first recipient",
    "a rejected last recipient",
    "all recipients rejected",
    "a rejected data request",
    "a rejected content",
    "a failing message source",
    "a rejected login",
    "a login given up",
    "a login with too many challenges",
    "a LOGIN exchange rejected at the end",
    "an email to 120 recipients",
    "a login without common mechanism",
    "an empty sender and an empty message",
    "a message of 20000 bytes",
    "30 accepted emails",
    "two rejected emails",
    "a rejected and an accepted email",
    "300 accepted emails",
    "12 rejected logins",
    "12 rejected emails",
    "280 rejected emails",
    "280 logins given up",
];

/// Without disturbances, whatever the environment does afterwards.
fn run_prior(w: &W, t: &mut T, k: usize) -> Result<(), Out> {
    use crate::server::PRIOR_OP;
    let env = {
        let mut g = lock(w);
        let e = g.env.clone();
        g.env = Env { write_back: e.write_back, c2s_cap: e.c2s_cap, s2c_cap: e.s2c_cap, ..Env::default() };
        e
    };
    let c = creds("earlier", "occasion");
    let mut n = 0;
    let mut go = |what: usize| -> Result<(), Out> {
        n += 1;
        begin(w, PRIOR_OP + 100 * n + what);
        let to: Vec<String> = (0..if what == 13 { 120 } else { 3 }).map(|i| format!("p{i}@earlier.test")).collect();
        let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
        let body: Vec<u8> = match what {
            15 => vec![],
            16 => b"earlier\r\n.\r\n".repeat(2000),
            _ => b"earlier message".to_vec(),
        };
        let o = match what {
            8 => {
                let b = Body::Reader(body, SrcCfg { chunk: Some(4), fail_at: Some((6, 0)), ..Default::default() });
                send(w, t, envelope(None, &tr), &b, None)
            }
            9 => auth(w, t, Mechanism::Plain, &c),
            10 | 11 | 12 => auth(w, t, Mechanism::Login, &c),
            14 => try_login(w, t, &c, &[]),
            15 => send(w, t, envelope(None, &tr), &Body::Bytes(body), None),
            _ => send(w, t, envelope(Some("p@earlier.test"), &tr), &Body::Bytes(body), None),
        };
        if matches!(o, Out::Hang(_) | Out::Livelock) {
            return Err(o);
        }
        Ok(())
    };
    match k {
        1..=16 => go(k)?,
        17 => (0..30).try_for_each(|_| go(1))?,
        18 => [2, 3].into_iter().try_for_each(&mut go)?,
        19 => [4, 1].into_iter().try_for_each(&mut go)?,
        20 => (0..300).try_for_each(|_| go(1))?,
        21 => (0..12).try_for_each(|_| go(9))?,
        22 => (0..12).try_for_each(|i| go(2 + i % 6))?,
        23 => (0..280).try_for_each(|i| go(2 + i % 6))?,
        _ => (0..280).try_for_each(|_| go(10))?,
    }
    let mut g = lock(w);
    g.env = env;
    let (calls, written, s2c) = (g.calls, g.written.len(), g.s2c.len());
    if let Some(x) = &mut g.env.fault_at {
        x.0 += calls;
    }
    if let Some(x) = &mut g.env.cut_write_at {
        *x += written;
    }
    if let Some(x) = &mut g.env.server_dies_at {
        x.0 += written;
    }
    if let Some(x) = &mut g.env.eof_at {
        *x += s2c;
    }
    if let Some(s) = &mut g.server {
        s.forget();
    }
    Ok(())
}

pub fn addr(s: &str) -> EmailAddress {
    EmailAddress::new(s.to_string()).expect("address used by the harness")
}
pub fn envelope(from: Option<&str>, to: &[&str]) -> Envelope {
    Envelope::new(from.map(addr), to.iter().map(|s| addr(s)).collect()).expect("envelope used by the harness")
}

#[derive(Clone)]
pub enum Body {
    Bytes(Vec<u8>),
    Reader(Vec<u8>, SrcCfg),
}
impl Body {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Body::Bytes(b) | Body::Reader(b, _) => b,
        }
    }
}
pub fn email(w: &W, env: Envelope, body: &Body) -> SendableEmail {
    match body {
        Body::Bytes(b) => SendableEmail::new(env, b.clone()),
        Body::Reader(b, c) => SendableEmail::new_with_reader(env, Box::new(Source::new(b, c.clone(), Some(w)))),
    }
}

pub fn send(w: &W, t: &mut T, env: Envelope, body: &Body, drop_at: Option<usize>) -> Out {
    let m = email(w, env, body);
    match exec(w, t.send(m), drop_at) {
        Ok(Ok(r)) => out_resp(&r),
        Ok(Err(e)) => out_err(&e),
        Err(s) => stuck(s),
    }
}
pub fn quit(w: &W, t: &mut T) -> Out {
    match exec(w, t.quit(), None) {
        Ok(Ok(())) => Out::Ok(None),
        Ok(Err(e)) => out_err(&e),
        Err(s) => stuck(s),
    }
}
pub fn auth(w: &W, t: &mut T, m: Mechanism, c: &Credentials) -> Out {
    match exec(w, t.auth(m, c), None) {
        Ok(Ok(r)) => out_resp(&r),
        Ok(Err(e)) => out_err(&e),
        Err(s) => stuck(s),
    }
}
pub fn try_login(w: &W, t: &mut T, c: &Credentials, ms: &[Mechanism]) -> Out {
    match exec(w, t.try_login(c, ms), None) {
        Ok(Ok(())) => Out::Ok(None),
        Ok(Err(e)) => out_err(&e),
        Err(s) => stuck(s),
    }
}
pub fn starttls(w: &W, t: T) -> (Option<Pipe>, Out) {
    match exec(w, t.starttls(), None) {
        Ok(Ok(p)) => (Some(p), Out::Ok(None)),
        Ok(Err(e)) => (None, out_err(&e)),
        Err(s) => (None, stuck(s)),
    }
}

pub fn creds(u: &str, p: &str) -> Credentials {
    Credentials::new(u.to_string(), p.to_string())
}

/// What the server recorded so far.
pub fn rec(w: &W) -> Rec {
    lock(w).server.as_ref().map(|s| s.rec().clone()).unwrap_or_default()
}
/// What the server recorded of one operation.
pub fn rec_of(w: &W, op: usize) -> Rec {
    let g = lock(w);
    let Some(s) = &g.server else { return Rec::default() };
    let r = s.rec();
    Rec {
        cmds: r.cmds.iter().filter(|c| c.op == op).cloned().collect(),
        deliveries: r.deliveries.iter().filter(|d| d.op == op).cloned().collect(),
        ..Rec::default()
    }
}
pub fn begin(w: &W, op: usize) {
    lock(w).begin_op(op)
}
pub fn strict(ch: &Ch, env: Env, s: Strict) -> W {
    world(ch, env, Some(Box::new(s)))
}
pub const ALL_EXT: &[&str] = &["mx.test", "PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"];
pub const PLAIN_EXT: &[&str] = &["mx.test", "SIZE 1000", "AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"];

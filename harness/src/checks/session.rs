//! Whole sessions with fixed verdicts, shared by C06, C07, C14, C17 and C22.

use super::*;
use async_smtp::authentication::Mechanism;
use async_smtp::SmtpClient;

#[derive(Clone, Debug)]
pub enum SOp {
    /// n recipients, message, bytes as a reader with this configuration (None: from bytes)
    Send(usize, &'static [u8], Option<SrcKind>),
    Auth(usize),
    TryLogin(&'static [usize]),
    StartTls,
    Quit,
}
#[derive(Clone, Copy, Debug)]
pub enum SrcKind {
    Plain,
    Chunk(usize),
    Slow,
    Dev,
    Fail(usize),
    /// Chunk taken from the scenario run (uniform exploration).
    Uniform,
}

#[derive(Clone)]
pub struct Sc {
    pub name: &'static str,
    pub ops: Vec<SOp>,
    pub plan: Vec<(usize, Kind, usize, V)>,
    pub raws: Vec<(usize, Kind, usize, Rep)>,
    pub greeting: Option<Rep>,
    pub no_greeting: bool,
    pub after_tls: &'static [u8],
    pub short: bool,
}

pub const MECHS: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
const HOT: &[u8] = b".lead\r\n..\r\n.\r\nmid \xff\r\r\n.x\n.y\r\nlast\r";

fn sc(name: &'static str, ops: Vec<SOp>, plan: Vec<(usize, Kind, usize, V)>, short: bool) -> Sc {
    Sc { name, ops, plan, raws: vec![], greeting: None, no_greeting: false, after_tls: b"", short }
}

pub fn scenarios() -> Vec<Sc> {
    use Kind::{AuthStep, Content, Data, Ehlo, Mail, Rcpt};
    use SOp::{Auth, Quit, Send, StartTls, TryLogin};
    let u = || vl(334, &["VXNlcm5hbWU6"]);
    let p = || vl(334, &["UGFzc3dvcmQ6"]);
    let mut v = vec![
        sc("hello", vec![], vec![], true),
        sc("send", vec![Send(1, b"hi\r\n", None)], vec![], true),
        sc("send-quit", vec![Send(2, HOT, None), Quit], vec![(1, Content, 0, vl(250, &["{}", "", "done {}"]))], false),
        sc("two-sends", vec![Send(1, b".", None), Send(2, b"", None)], vec![], false),
        sc("reader", vec![Send(1, HOT, Some(SrcKind::Dev))], vec![], true),
        sc("reader-fails", vec![Send(1, HOT, Some(SrcKind::Fail(9))), Send(1, b"x", None)], vec![], false),
        sc("mail-rejected", vec![Send(2, b"a", None), Send(1, b"b", None)], vec![(1, Mail, 0, vl(550, &["{}", "no"]))], false),
        sc("rcpt-rejected", vec![Send(3, b"a", None), Send(1, b"b", None)], vec![(1, Rcpt, 1, vl(451, &["{}", "", "later"]))], false),
        sc("rcpts-rejected", vec![Send(2, b"a", None)], vec![(1, Rcpt, 0, v(550)), (1, Rcpt, 1, v(451))], true),
        sc("data-rejected", vec![Send(1, b"a", None), Quit], vec![(1, Data, 0, v(451))], false),
        sc("content-rejected", vec![Send(1, b"a", None), Send(1, b"b\r\n", None)], vec![(1, Content, 0, vl(554, &["{}", "spam"]))], false),
        sc("plain", vec![Auth(0), Send(1, b"m", None)], vec![], false),
        sc("login", vec![Auth(1), Quit], vec![(1, AUTH, 0, u()), (1, AuthStep, 0, p())], true),
        sc("login-rejected", vec![Auth(1), Auth(0)], vec![(1, AUTH, 0, u()), (1, AuthStep, 0, p()), (1, AuthStep, 1, vl(535, &["{}", "wrong"]))], false),
        sc("xoauth2", vec![TryLogin(&[2, 0])], vec![(1, AUTH, 0, vl(334, &["eyJzdGF0dXMiOiI0MDAifQ=="])), (1, AuthStep, 0, v(535))], true),
        sc("login-gives-up", vec![Auth(1), Send(1, b"m", None)], vec![(1, AUTH, 0, vl(334, &["Pz8/"]))], false),
        sc("starttls", vec![StartTls], vec![], true),
        sc("starttls-refused", vec![StartTls], vec![(1, Kind::StartTls, 0, vl(454, &["{}", "later"]))], true),
        sc("ehlo-refused", vec![], vec![(0, Ehlo, 0, vl(502, &["what", "is this"]))], true),
        sc("non-ascii", vec![Send(1, b"m", None)], vec![(1, Mail, 0, vl(250, &["{} größe", "☃\u{10348}"])), (1, Content, 0, vl(552, &["zu groß ☃"]))], true),
        sc("closing", vec![Send(2, b"m", None)], vec![(1, Rcpt, 0, V { close: true, ..vl(421, &["{}", "bye"]) })], true),
    ];
    let mut s = sc("greeting", vec![Quit], vec![], true);
    s.greeting = Some(reps(220, &["mx.test", "", "ESMTP ready"]));
    v.push(s);
    let mut s = sc("greeting-refused", vec![], vec![], true);
    s.greeting = Some(reps(554, &["go", "away"]));
    v.push(s);
    let mut s = sc("no-greeting", vec![Send(1, b"m", None)], vec![], true);
    s.no_greeting = true;
    v.push(s);
    let mut s = sc("starttls-trailing", vec![StartTls], vec![], true);
    s.after_tls = b"\x16\x03\x01binary\r\n250 x\r\n";
    v.push(s);
    // answers that are no replies
    for (name, k, i, bytes) in [
        ("garbage", Mail, 0, &b"what?\r\n"[..]),
        ("mixed-codes", Rcpt, 0, b"250-a\r\n251 b\r\n"),
        ("cut", Data, 0, b"354"),
        ("cut-line", Content, 0, b"250-ok\r\n"),
        ("not-utf8", Rcpt, 1, b"250 \xff\xfe\r\n"),
    ] {
        let mut s = sc(name, vec![Send(2, b"m", None)], vec![], true);
        let mut r = raw(bytes);
        r.close = true;
        s.raws.push((1, k, i, r));
        v.push(s);
    }
    v
}
const AUTH: Kind = Kind::Auth;

pub struct Run {
    pub w: W,
    pub outs: Vec<(usize, Out)>,
    /// Bytes the stream returned by starttls still holds.
    pub rest: Option<Vec<u8>>,
}
impl Run {
    /// Everything a user or the server can observe, in one line.
    pub fn observation(&self) -> (Vec<u8>, String) {
        let g = lock(&self.w);
        let mut s = format!("{:?}", self.outs.iter().map(|(o, x)| format!("{o}:{}", x.class())).collect::<Vec<_>>());
        if let Some(sv) = &g.server {
            for d in &sv.rec().deliveries {
                s.push_str(&format!(" [{} {:?}->{:?} {} {:016x}]", d.op, d.from, d.to, d.accepted, {
                    use std::hash::Hasher;
                    let mut h = Fnv::default();
                    h.write(&d.content);
                    h.finish()
                }));
            }
        }
        s.push_str(&format!(" rest {:?}", self.rest));
        (g.written.clone(), s)
    }
}

pub fn run(cx: &mut Cx, s: &Sc, pipe: bool, env: Env, uniform: usize, src_dev: bool) -> Run {
    run_until(cx, s, pipe, env, uniform, src_dev, |_, _| false)
}

/// `stop(op, outcome)`: end the session after this operation.
pub fn run_until(cx: &mut Cx, s: &Sc, pipe: bool, env: Env, uniform: usize, src_dev: bool, stop: impl Fn(&W, usize) -> bool) -> Run {
    let p = plan();
    for (op, k, i, v) in &s.plan {
        set(&p, *op, *k, *i, v.clone());
    }
    let raws = s.raws.clone();
    let mut planned = plan_policy(&p);
    let mut srv = Strict::new(
        ext(pipe),
        true,
        Box::new(move |a| {
            if let Some(r) = raws.iter().find(|r| r.0 == a.op && r.1 == a.kind && r.2 == a.op_kind_index) {
                return Some(r.3.clone());
            }
            planned(a)
        }),
    );
    if let Some(g) = &s.greeting {
        srv = srv.greeting(Some(g.clone()));
    }
    if s.no_greeting {
        srv = srv.greeting(None);
    }
    srv.after_starttls = s.after_tls.to_vec();
    let w = strict(&cx.ch, env, srv);
    let mut c = SmtpClient::new();
    if s.no_greeting {
        c = c.without_greeting();
    }
    begin(&w, 0);
    let (t, o) = connect(&w, c);
    let mut run = Run { w: w.clone(), outs: vec![(0, o)], rest: None };
    let Some(mut t) = t else { return run };
    let cr = creds("alice", "wonderland");
    for (k, x) in s.ops.iter().enumerate() {
        if stop(&w, k) {
            return run;
        }
        let op = k + 1;
        begin(&w, op);
        let o = match x {
            SOp::Send(n, m, src) => {
                let to: Vec<String> = (0..*n).map(|i| format!("r{i}@y.test")).collect();
                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                let uni = |c: usize| SrcCfg { chunk: if c == 0 { None } else { Some(c) }, ..Default::default() };
                let b = match src {
                    None => Body::Bytes(m.to_vec()),
                    Some(SrcKind::Plain) => Body::Reader(m.to_vec(), SrcCfg::default()),
                    Some(SrcKind::Chunk(c)) => Body::Reader(m.to_vec(), uni(*c)),
                    Some(SrcKind::Uniform) => Body::Reader(m.to_vec(), uni(uniform)),
                    Some(SrcKind::Slow) => Body::Reader(m.to_vec(), SrcCfg { chunk: Some(3), pend_always: true, ..Default::default() }),
                    Some(SrcKind::Dev) => Body::Reader(m.to_vec(), SrcCfg { dev: src_dev, ..uni(uniform) }),
                    Some(SrcKind::Fail(at)) => Body::Reader(m.to_vec(), SrcCfg { fail_at: Some((*at, 4)), ..uni(uniform) }),
                };
                send(&w, &mut t, envelope(Some("s@x.test"), &tr), &b, None)
            }
            SOp::Auth(m) => auth(&w, &mut t, MECHS[*m], &cr),
            SOp::TryLogin(ms) => {
                let ms: Vec<Mechanism> = ms.iter().map(|m| MECHS[*m]).collect();
                try_login(&w, &mut t, &cr, &ms)
            }
            SOp::Quit => quit(&w, &mut t),
            SOp::StartTls => {
                let (p, o) = starttls(&w, t);
                run.rest = p.map(|p| p.unread());
                run.outs.push((op, o));
                return run;
            }
        };
        let dead = matches!(o, Out::Hang(_) | Out::Livelock);
        run.outs.push((op, o));
        if dead {
            return run;
        }
    }
    run
}

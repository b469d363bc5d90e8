//! C24: several sessions in one process, their steps interleaved in every way up to a number of
//! switches.

use super::*;
use crate::refs::show;
use async_smtp::authentication::Mechanism;
use async_smtp::extension::ClientId;
use async_smtp::{SmtpClient, SmtpTransport};
use std::future::Future;
use std::pin::Pin;

#[derive(Clone)]
enum POp {
    /// recipients, message, source configuration
    Send(usize, &'static [u8], Option<SrcCfg>),
    Auth(Mechanism),
    Try(&'static [Mechanism]),
    StartTls,
    Quit,
}

#[derive(Clone)]
struct Se {
    name: &'static str,
    ext: &'static [&'static str],
    utf8: bool,
    pl: bool,
    ops: Vec<POp>,
    plan: Vec<(usize, Kind, usize, V)>,
}

const HOT: &[u8] = b".lead\r\n..\r\n.\r\nmid \xff\r\r\n.x\n.y\r\nlast\r";

fn sessions() -> Vec<Se> {
    use POp::{Auth, Quit, Send, StartTls, Try};
    let slow = |c: usize| Some(SrcCfg { chunk: Some(c), pend_always: true, ..Default::default() });
    let u = || vl(334, &["VXNlcm5hbWU6"]);
    let p = || vl(334, &["UGFzc3dvcmQ6"]);
    let se = |name, pipe: bool, utf8, pl, ops, plan| Se { name, ext: ext(pipe), utf8, pl, ops, plan };
    vec![
        se("one by one", false, true, true, vec![Send(2, HOT, None), Quit], vec![(1, Kind::Content, 0, vl(250, &["{}", "", "done {}"]))]),
        se("pipelined", true, true, true, vec![Send(3, b"a.\r\n.b", slow(3))], vec![]),
        se("LOGIN", true, false, false, vec![Auth(Mechanism::Login), Send(1, b"..", slow(1))], vec![(1, Kind::Auth, 0, u()), (1, Kind::AuthStep, 0, p())]),
        Se { ext: &["mx.test", "SIZE 1000", "PIPELINING", "SMTPUTF8", "AUTH LOGIN"], ..se("rejected", true, true, true, vec![Send(2, b"x", None), Send(1, b"\r\n.\r\ny", None)], vec![(1, Kind::Rcpt, 1, vl(550, &["{}", "no", ""]))]) },
        Se { ext: &["mx.test", "8BITMIME", "AUTH PLAIN", "STARTTLS"], ..se("PLAIN", false, false, false, vec![Try(&[Mechanism::Xoauth2, Mechanism::Plain]), Quit], vec![(1, Kind::Auth, 0, vl(454, &["{}", "later"]))]) },
        Se { ext: &["mx.test"], ..se("source fails", true, true, true, vec![Send(1, HOT, Some(SrcCfg { chunk: Some(4), fail_at: Some((9, 4)), ..Default::default() })), Send(2, b"z\r", None)], vec![]) },
        se("starttls", true, false, true, vec![StartTls], vec![]),
        se("refused", false, false, true, vec![], vec![(0, Kind::Ehlo, 0, vl(502, &["what", "is this"]))]),
    ]
}

fn user(k: usize) -> (String, String) {
    (format!("user{k}"), format!("secret{}", k * 7))
}
fn client(s: &Se, k: usize) -> SmtpClient {
    SmtpClient::new().hello_name(ClientId::new(format!("client{k}.test"))).smtp_utf8(s.utf8).pipelining(s.pl)
}

fn start<'a>(ch: &Ch, s: &'a Se, k: usize, env: Env) -> (W, Pin<Box<dyn Future<Output = (Vec<Out>, Option<Vec<u8>>)> + 'a>>) {
    let p = plan();
    for (op, kd, i, v) in &s.plan {
        set(&p, *op, *kd, *i, v.clone());
    }
    let w = strict(ch, env, Strict::new(s.ext, true, plan_policy(&p)));
    let w2 = w.clone();
    let fut = async move {
        let w = w2;
        let mut outs = vec![];
        begin(&w, 0);
        let mut t = match SmtpTransport::new(client(s, k), Pipe::new(&w)).await {
            Ok(t) => t,
            Err(e) => return (vec![out_err(&e)], None),
        };
        outs.push(Out::Ok(None));
        let (u, p) = user(k);
        let c = creds(&u, &p);
        for (i, op) in s.ops.iter().enumerate() {
            begin(&w, i + 1);
            outs.push(match op {
                POp::Send(n, m, src) => {
                    let to: Vec<String> = (0..*n).map(|j| format!("r{j}.{i}@session{k}.test")).collect();
                    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                    let b = match src {
                        None => Body::Bytes(m.to_vec()),
                        Some(c) => Body::Reader(m.to_vec(), c.clone()),
                    };
                    match t.send(email(&w, envelope(Some(&format!("s{i}@session{k}.test")), &tr), &b)).await {
                        Ok(r) => out_resp(&r),
                        Err(e) => out_err(&e),
                    }
                }
                POp::Auth(m) => match t.auth(*m, &c).await {
                    Ok(r) => out_resp(&r),
                    Err(e) => out_err(&e),
                },
                POp::Try(ms) => match t.try_login(&c, ms).await {
                    Ok(()) => Out::Ok(None),
                    Err(e) => out_err(&e),
                },
                POp::Quit => match t.quit().await {
                    Ok(()) => Out::Ok(None),
                    Err(e) => out_err(&e),
                },
                POp::StartTls => {
                    return match t.starttls().await {
                        Ok(p) => {
                            outs.push(Out::Ok(None));
                            (outs, Some(p.unread()))
                        }
                        Err(e) => {
                            outs.push(out_err(&e));
                            (outs, None)
                        }
                    }
                }
            });
        }
        (outs, None)
    };
    (w, Box::pin(fut))
}

/// What one session sent and obtained.
#[derive(Clone, PartialEq, Debug)]
struct Obs {
    sent: Vec<u8>,
    outs: Vec<String>,
    rest: Option<Vec<u8>>,
    got: Vec<(Vec<u8>, Vec<Vec<u8>>, Vec<u8>, bool)>,
    sasl: Vec<Vec<u8>>,
}

/// Interleaves the sessions; `choose(current, runnable)` decides who goes on after a suspension.
fn interleave(ch: &Ch, ss: &[(usize, &Se)], env: &Env, mut choose: impl FnMut(usize, usize, u64) -> usize) -> Result<Vec<Obs>, String> {
    let mut worlds = vec![];
    let mut futs = vec![];
    for (k, s) in ss {
        let (w, f) = start(ch, s, *k, env.clone());
        worlds.push(w);
        futs.push(Some(f));
    }
    let mut res: Vec<Option<(Vec<Out>, Option<Vec<u8>>)>> = ss.iter().map(|_| None).collect();
    let flags: Vec<Arc<WakeFlag>> = ss.iter().map(|_| Arc::new(WakeFlag::default())).collect();
    let mut cur = 0;
    let mut steps = 0usize;
    let mut idle = 0;
    loop {
        let alive: Vec<usize> = (0..ss.len()).filter(|i| futs[*i].is_some()).collect();
        if alive.is_empty() {
            break;
        }
        if !alive.contains(&cur) {
            cur = alive[0];
        }
        crate::explore::beat();
        steps += 1;
        if steps > 200_000 {
            return Err("no end".into());
        }
        flags[cur].take();
        let waker = std::task::Waker::from(flags[cur].clone());
        let mut cx = std::task::Context::from_waker(&waker);
        let r = match futs[cur].as_mut() {
            Some(f) => f.as_mut().poll(&mut cx),
            None => continue,
        };
        match r {
            std::task::Poll::Ready(x) => {
                res[cur] = Some(x);
                futs[cur] = None;
                idle = 0;
                continue;
            }
            std::task::Poll::Pending => {
                lock(&worlds[cur]).meanwhile();
                if flags[cur].take() {
                    idle = 0;
                } else {
                    // This one waits for something; nobody but its own server could wake it.
                    idle += 1;
                    if idle > 2 * ss.len() {
                        return Err(format!("session {} ({}) hangs", cur, ss[cur].1.name));
                    }
                    let k = alive.iter().position(|i| *i == cur).unwrap_or(0);
                    cur = alive[(k + 1) % alive.len()];
                    continue;
                }
            }
        }
        if alive.len() > 1 {
            let st = worlds.iter().fold(cur as u64, |h, w| h.rotate_left(17) ^ lock(w).state());
            let k = alive.iter().position(|i| *i == cur).unwrap_or(0);
            let n = choose(cur, alive.len(), st);
            cur = alive[(k + n) % alive.len()];
        }
    }
    Ok(worlds
        .iter()
        .zip(res)
        .map(|(w, r)| {
            let g = lock(w);
            let rec = g.server.as_ref().map(|s| s.rec().clone()).unwrap_or_default();
            let (outs, rest) = r.unwrap_or_default();
            Obs {
                sent: g.written.clone(),
                outs: outs.iter().map(|o| o.class()).collect(),
                rest,
                got: rec.deliveries.iter().map(|d| (d.from.clone(), d.to.clone(), d.content.clone(), d.accepted)).collect(),
                sasl: rec.sasl.clone(),
            }
        })
        .collect())
}

#[derive(Default)]
struct WakeFlag(std::sync::atomic::AtomicBool);
impl WakeFlag {
    fn take(&self) -> bool {
        self.0.swap(false, std::sync::atomic::Ordering::Relaxed)
    }
}
impl std::task::Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}

/// Nothing that belongs to another session, and its own settings.
fn own(k: usize, s: &Se, o: &Obs) -> Result<(), String> {
    let text = show(&o.sent);
    let ehlo = format!("EHLO client{k}.test\r\n");
    if !o.sent.starts_with(ehlo.as_bytes()) {
        return Err(format!("does not start with its own {ehlo:?}: {text:?}"));
    }
    for l in o.sent.split(|b| *b == b'\n') {
        let l = String::from_utf8_lossy(l).to_ascii_uppercase();
        if l.starts_with("MAIL FROM:") {
            let has = |x: &str| s.ext.contains(&x);
            if l.contains("SMTPUTF8") != (s.utf8 && has("SMTPUTF8")) || l.contains("8BITMIME") != has("8BITMIME") {
                return Err(format!("{l:?} does not fit the settings and offers of its session"));
            }
        }
        if let Some(m) = l.strip_prefix("AUTH ") {
            let m = m.split_whitespace().next().unwrap_or("");
            if !s.ext.iter().any(|x| x.starts_with("AUTH ") && x.split(' ').any(|y| y == m)) {
                return Err(format!("{l:?} was not offered in its session"));
            }
        }
        if l.contains("@SESSION") && !l.contains(&format!("@SESSION{k}.TEST")) {
            return Err(format!("address of another session in {l:?}"));
        }
    }
    let (u, p) = user(k);
    for d in &o.sasl {
        let d = String::from_utf8_lossy(d);
        let mine = d == u || d == p || d.contains(&u) && d.contains(&p);
        if !mine {
            return Err(format!("credentials {d:?} are not its own"));
        }
    }
    for (from, to, content, _) in &o.got {
        let from = String::from_utf8_lossy(from).to_string();
        let i: usize = from.strip_prefix('s').and_then(|x| x.split('@').next()).and_then(|x| x.parse().ok()).unwrap_or(99);
        let Some(POp::Send(n, m, _)) = s.ops.get(i) else { return Err(format!("delivery from {from:?}")) };
        let to: Vec<String> = to.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect();
        if to != (0..*n).map(|j| format!("r{j}.{i}@session{k}.test")).collect::<Vec<_>>() {
            return Err(format!("delivery to {to:?}"));
        }
        let added = content.strip_prefix(*m);
        let whole = m.is_empty() || m.ends_with(b"\r\n");
        let fits = match added {
            Some(b"") => whole,
            Some(b"\r\n") => !whole,
            Some(b"\n") => m.ends_with(b"\r"),
            _ => false,
        };
        if !fits {
            return Err(format!("delivered {:?} instead of {:?}", show(content), show(m)));
        }
    }
    Ok(())
}

fn judge(cx: &mut Cx, ss: &[(usize, &Se)], env: &Env, choose: impl FnMut(usize, usize, u64) -> usize) {
    let ch = cx.ch.clone();
    let names: Vec<&str> = ss.iter().map(|s| s.1.name).collect();
    let mut alone = vec![];
    let again = |cx: &mut Cx| -> Option<Vec<Obs>> {
        let mut v = vec![];
        for x in ss {
            match interleave(&ch, &[*x], env, |_, _, _| 0) {
                Ok(o) => v.extend(o),
                Err(e) => {
                    cx.bad("alone", e);
                    return None;
                }
            }
        }
        Some(v)
    };
    if let Some(v) = again(cx) {
        alone = v;
    }
    if !cx.ok() {
        return;
    }
    let mut steps = String::new();
    let mut choose = choose;
    let r = interleave(&ch, ss, env, |c, n, s| {
        let k = choose(c, n, s);
        if k > 0 {
            steps.push_str(&format!(" {c}+{k}"));
        } else if !steps.is_empty() || k == 0 {
            steps.push('.');
        }
        k
    });
    if steps.len() > 200 {
        steps = format!("{}…", steps.chars().take(200).collect::<String>());
    }
    cx.note = format!("{names:?}, switches{steps}");
    let both = match r {
        Ok(x) => x,
        Err(e) => return cx.bad("stuck", e),
    };
    for (i, (k, s)) in ss.iter().enumerate() {
        if both[i] != alone[i] {
            return cx.bad("interference", format!("session {} ({}) together: {:?} {:?}, alone: {:?} {:?}", i, s.name, show(&both[i].sent), both[i].outs, show(&alone[i].sent), alone[i].outs));
        }
        if let Err(e) = own(*k, s, &both[i]) {
            return cx.bad("foreign", format!("session {} ({}): {e}", i, s.name));
        }
        cx.see(&both[i].sent);
        cx.see(&both[i].outs);
    }
    cx.see(&steps);
    // and afterwards nothing is left of it
    if let Some(v) = again(cx) {
        if v != alone {
            cx.bad("left-over", "a session on its own differs after the others have run");
        }
    }
}

fn alone(k: usize) -> Result<Vec<Obs>, String> {
    let all = sessions();
    let s = all.get(k).ok_or("no such session")?;
    interleave(&Ch::default(), &[(k + 1, s)], &Env::default(), |_, _, _| 0)
}
/// What session `k` does in a process of its own (`mc solo k`).
pub fn solo(k: &str) -> String {
    match alone(k.parse().unwrap_or(usize::MAX)) {
        Ok(o) => format!("{o:?}"),
        Err(e) => e,
    }
}

pub fn c24(tier: Tier) -> Check {
    let mut jobs = vec![];
    let all = sessions();
    // against a process in which nothing else has happened
    for k in 0..all.len() {
        jobs.push(job(format!("fresh/{k}"), 0, move |cx| {
            let n = sessions().len();
            let first = cx.ch.pick(n + 1);
            let exe = std::env::current_exe().map_err(|e| e.to_string());
            let out = exe.and_then(|e| std::process::Command::new(e).args(["solo", &k.to_string()]).output().map_err(|e| e.to_string()));
            let want = match out {
                Ok(o) => String::from_utf8_lossy(&o.stdout).trim_end().to_string(),
                Err(e) => panic!("cannot run the explorer again: {e}"),
            };
            for i in 0..n {
                let _ = alone((first + i) % n);
            }
            let got = match alone(k) {
                Ok(o) => format!("{o:?}"),
                Err(e) => e,
            };
            cx.eval(true);
            cx.note = format!("session {k} in a new process, and after all others beginning with {first}");
            if got != want {
                cx.bad("left-over", format!("in a new process: {want}, after others: {got}"));
            }
            cx.see(&got);
        }));
    }
    for a in 0..all.len() {
        for b in 0..all.len() {
            let (x, y) = (all[a].clone(), all[b].clone());
            jobs.push(job(format!("pair/{a}/{b}"), tier.pick(2, 3), move |cx| {
                let env = Env { pend_always: true, read_chunk: Some(9), ..Env::default() };
                let ch = cx.ch.clone();
                judge(cx, &[(1, &x), (2, &y)], &env, |_, n, st| ch.dev(n, st));
            }));
            // strict alternation and other regular patterns, at several granularities
            let (x, y) = (all[a].clone(), all[b].clone());
            jobs.push(job(format!("regular/{a}/{b}"), 0, move |cx| {
                let (p, q) = (1 + cx.ch.pick(tier.pick(6, 16)), 1 + cx.ch.pick(tier.pick(6, 16)));
                let chunk = cx.ch.of(&[1usize, 3, 9, 1000]);
                let write = cx.ch.of(&[None, Some(1usize), Some(7)]);
                let env = Env { pend_always: true, read_chunk: Some(chunk), write_chunk: write, ..Env::default() };
                let mut left = p;
                judge(cx, &[(1, &x), (2, &y)], &env, |c, _, _| {
                    left -= 1;
                    if left == 0 {
                        left = if c == 0 { q } else { p };
                        1
                    } else {
                        0
                    }
                });
            }));
        }
    }
    // three sessions
    for a in 0..all.len() {
        for b in 0..all.len() {
            for c in 0..all.len() {
                if tier != Tier::Thorough && (a + 2 * b + 3 * c) % 4 != 0 {
                    continue;
                }
                let v = [all[a].clone(), all[b].clone(), all[c].clone()];
                jobs.push(job(format!("triple/{a}/{b}/{c}"), tier.pick(1, 2), move |cx| {
                    let env = Env { pend_always: true, read_chunk: Some(30), ..Env::default() };
                    let ch = cx.ch.clone();
                    judge(cx, &[(1, &v[0]), (2, &v[1]), (3, &v[2])], &env, |_, n, st| ch.dev(n, st));
                }));
            }
        }
    }
    // many sessions at once, taking turns
    jobs.push(job("crowd", 0, |cx| {
        let all = sessions();
        let n = cx.ch.of(&[4usize, 8, 40, 150]);
        let every = 1 + cx.ch.pick(5);
        let ss: Vec<(usize, &Se)> = (0..n).map(|i| (i + 1, &all[(i * 3 + every) % all.len()])).collect();
        let env = Env { pend_always: true, read_chunk: Some(11), ..Env::default() };
        let mut left = every;
        judge(cx, &ss, &env, |_, _, _| {
            left -= 1;
            if left == 0 {
                left = every;
                1
            } else {
                0
            }
        });
    }));
    Check { jobs, rule: "one execution = one interleaving of the sessions; distinct = different schedule, bytes sent or outcomes" }
}

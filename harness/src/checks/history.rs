//! C04 replies stay matched over a history (safety), C18 the transport stays usable (liveness).

use super::*;
use crate::refs::*;
use async_smtp::authentication::Mechanism;
use async_smtp::SmtpClient;

pub fn sender(op: usize) -> String {
    format!("s{op}@x.test")
}
pub fn rcpts(op: usize, n: usize) -> Vec<String> {
    (0..n).map(|i| format!("r{i}-op{op}@y.test")).collect()
}
pub fn body(op: usize) -> Vec<u8> {
    format!("content of operation {op}\r\n.\r\n..{op}\r\nQUIT\r\n").into_bytes()
}

pub fn do_send(w: &W, t: &mut T, op: usize, n: usize, fail_at: Option<usize>) -> Out {
    let to = rcpts(op, n);
    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
    let b = match fail_at {
        None if op % 2 == 0 => Body::Bytes(body(op)),
        f => Body::Reader(body(op), SrcCfg { chunk: Some(5), fail_at: f.map(|x| (x, 4)), ..Default::default() }),
    };
    send(w, t, envelope(Some(&sender(op)), &tr), &b, None)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Did {
    Send(usize),
    Login,
    Quit,
    /// A send / anything else that was dropped, or met an I/O fault or a malformed reply.
    CutSend(usize),
    Cut,
}

/// Safety: every outcome and every delivery belongs to its own operation.
fn judge_history(cx: &mut Cx, w: &W, did: &[(usize, Did, Out)]) {
    let r = rec(w);
    for (op, d, o) in did {
        // replies handed out carry the tag of the command they answer
        let reply: Option<(u16, &Vec<String>)> = match o {
            Out::Ok(Some((c, l))) => Some((*c, l)),
            Out::Rej { code, lines, .. } => Some((*code, lines)),
            _ => None,
        };
        if let Some((code, lines)) = reply {
            let hit = r.cmds.iter().find(|c| c.code == code && c.lines == *lines);
            match hit {
                Some(c) if c.op == *op => {
                    if o.is_ok() && matches!(d, Did::Send(_)) && c.kind != Kind::Content {
                        return cx.bad("not-content-reply", format!("operation {op} {d:?} succeeded with the reply to {:?}", c.kind));
                    }
                    if o.is_rej() && c.kind == Kind::Rset {
                        // the reset of an earlier transaction belongs to this operation
                    }
                }
                Some(c) => return cx.bad("foreign-reply", format!("operation {op} {d:?} was given the reply to {:?} of operation {}: {lines:?}", c.kind, c.op)),
                None => return cx.bad("unknown-reply", format!("operation {op} {d:?} was given {code} {lines:?}, which the server never sent")),
            }
        }
        let mine: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == *op).collect();
        match d {
            Did::Send(n) => {
                let dels: Vec<&Delivery> = r.deliveries.iter().filter(|x| x.op == *op).collect();
                if dels.len() > 1 {
                    return cx.bad("duplicate", format!("operation {op} delivered {} messages", dels.len()));
                }
                let acc = dels.iter().any(|x| x.accepted);
                if acc != o.is_ok() {
                    return cx.bad("mismatch", format!("operation {op}: outcome {o:?}, accepted by the server: {acc}"));
                }
                for x in dels {
                    let to: Vec<Vec<u8>> = rcpts(*op, *n).into_iter().map(String::into_bytes).collect();
                    if x.from != sender(*op).as_bytes() || x.to != to {
                        return cx.bad("misdelivery", format!("operation {op}: submitted from {:?} to {:?}", show(&x.from), x.to.iter().map(|t| show(t)).collect::<Vec<_>>()));
                    }
                    if !content_ok(&body(*op), &x.content) {
                        return cx.bad("misdelivery", format!("operation {op}: submitted content {:?}", show(&x.content)));
                    }
                }
            }
            Did::CutSend(n) => {
                let to: Vec<Vec<u8>> = rcpts(*op, *n).into_iter().map(String::into_bytes).collect();
                for x in r.deliveries.iter().filter(|x| x.op == *op) {
                    if x.from != sender(*op).as_bytes() || x.to != to || !content_ok(&body(*op), &x.content) {
                        return cx.bad("misdelivery", format!("operation {op}, cut short: submitted {:?} from {:?} to {:?}", show(&x.content), show(&x.from), x.to));
                    }
                }
            }
            Did::Cut => {}
            Did::Login => {
                let ok = mine.iter().any(|c| matches!(c.kind, Kind::Auth | Kind::AuthStep) && c.code == 235);
                if ok != o.is_ok() {
                    return cx.bad("login-verdict", format!("operation {op}: login outcome {o:?}, server accepted: {ok}"));
                }
            }
            Did::Quit => {
                let ok = mine.iter().any(|c| c.kind == Kind::Quit && c.code / 100 == 2);
                if ok != o.is_ok() {
                    return cx.bad("quit-verdict", format!("operation {op}: quit outcome {o:?}, server said goodbye: {ok}"));
                }
            }
        }
    }
    for d in &r.deliveries {
        if !did.iter().any(|(op, x, _)| *op == d.op && matches!(x, Did::Send(_) | Did::CutSend(_))) {
            return cx.bad("misdelivery", format!("a message completed by operation {}", d.op));
        }
    }
}

/// The policy that lets the explorer choose every verdict.
pub fn free_policy(alts: usize) -> Policy {
    Box::new(move |a| {
        let k = match a.kind {
            Kind::Mail | Kind::Rcpt | Kind::Data | Kind::Content => a.ch.pick(alts),
            Kind::Auth => {
                let login = a.line.ends_with(b"LOGIN");
                match a.ch.pick(3) {
                    0 => return None,
                    1 => return Some(rep(535, &format!("no {}", a.tag))),
                    _ if login => return Some(rep(334, "Pz8/")), // "???"
                    _ => return Some(rep(334, "eyJzdGF0dXMiOiI0MDAifQ==")),
                }
            }
            Kind::AuthStep => match a.ch.pick(3) {
                0 => return None,
                1 => return Some(rep(535, &format!("no {}", a.tag))),
                _ => return Some(rep(334, ["UGFzc3dvcmQ6", "VXNlcm5hbWU6", "!!!!"][a.step.min(2)])),
            },
            Kind::Rset => a.ch.pick(if alts == 2 { 2 } else { 3 }),
            // the answer to "*"
            Kind::Other => match a.ch.pick(alts - 1) {
                0 => return None,
                1 => return Some(reps(501, &[format!("verdict {}", a.tag), "250 ok".into(), "334 ".into()])),
                _ => return Some(rep(535, &format!("verdict {}", a.tag))),
            },
            _ => return None,
        };
        let code = match a.kind {
            Kind::Mail => [0, 553, 421, 452][k],
            Kind::Rcpt => [0, 450, 550, 251][k],
            Kind::Data => [0, 451, 554, 503][k],
            Kind::Rset => [0, 502, 421][k],
            _ => [0, 552, 451, 250][k],
        };
        if code == 0 {
            return None;
        }
        let l = format!("verdict {}", a.tag);
        Some(if code % 2 == 0 { reps(code, &[l.as_str(), "", "more"]) } else { rep(code, &l) })
    })
}

/// Sequence: a conforming server is never sent a command that it has to refuse at that point.
pub fn judge_sequence(cx: &mut Cx, w: &W) {
    let r = rec(w);
    let mut authed = false;
    let mut mail: Option<&Cmd> = None;
    for c in &r.cmds {
        if c.bare {
            return cx.bad("sequence", format!("operation {} sent a bare CR or LF: {:?}", c.op, show(&c.line)));
        }
        let ok = match c.kind {
            _ if !c.proto_error => true,
            // Sent ahead of the reply that refused the sender.
            Kind::Rcpt => match mail {
                Some(m) if m.op == c.op && m.code / 100 != 2 => lock(w).consumed_when_written(c.start).is_some_and(|at| at < m.rep_end),
                _ => false,
            },
            // A login too many is the caller's.
            Kind::Auth => authed,
            Kind::AuthStep => c.line == b"*",
            _ => false,
        };
        if !ok {
            return cx.bad("sequence", format!("operation {} sent {:?}, answered {} {:?}; before: {:?}", c.op, show(&c.line), c.code, c.lines, r.cmds.iter().take_while(|x| x.start < c.start).map(|x| format!("{} {}", show(&x.line), x.code)).collect::<Vec<_>>()));
        }
        match c.kind {
            Kind::Mail => mail = Some(c),
            Kind::Auth | Kind::AuthStep => authed |= c.code / 100 == 2,
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Matched,
    Hangs,
    Sequence,
}

fn free_history(cx: &mut Cx, depth: usize, alts: usize, env: Env, narrow: bool) {
    free_history_judged(cx, depth, alts, env, narrow, Judge::Matched)
}
fn free_history_judged(cx: &mut Cx, depth: usize, alts: usize, env: Env, narrow: bool, j: Judge) {
    let pipe = cx.ch.flag();
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, free_policy(alts)));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    let c = creds("alice", "wonderland");
    let mut did = vec![];
    for op in 1..=depth {
        begin(&w, op);
        let n_ops = if op == depth { if narrow { 4 } else { 7 } } else if narrow { 3 } else { 6 };
        let k = cx.ch.pick(n_ops);
        let map = if narrow { [0usize, 1, 3, 6, 0, 0, 0] } else { [0, 1, 2, 3, 4, 5, 6] };
        let (d, o) = match map[k] {
            0 => (Did::Send(1), do_send(&w, &mut t, op, 1, None)),
            1 => (Did::Send(2), do_send(&w, &mut t, op, 2, None)),
            2 => (Did::Send(2), do_send(&w, &mut t, op, 2, Some(7))),
            3 => (Did::Login, auth(&w, &mut t, Mechanism::Plain, &c)),
            4 => (Did::Login, auth(&w, &mut t, Mechanism::Login, &c)),
            5 => (Did::Login, try_login(&w, &mut t, &c, &[Mechanism::Xoauth2])),
            _ => (Did::Quit, quit(&w, &mut t)),
        };
        if matches!(o, Out::Hang(_) | Out::Livelock) {
            if j == Judge::Sequence {
                judge_sequence(cx, &w);
                return;
            }
            return cx.bad("hang", format!("operation {op} {d:?}: {o:?}"));
        }
        did.push((op, d, o));
        if j == Judge::Sequence {
            judge_sequence(cx, &w);
        } else {
            judge_history(cx, &w, &did);
        }
        if !cx.ok() {
            break;
        }
    }
    cx.note = format!("pipelining {pipe}: {}", did.iter().map(|(_, d, o)| format!("{d:?} -> {}", o.class())).collect::<Vec<_>>().join("; "));
    let outs: Vec<Out> = did.into_iter().map(|x| x.2).collect();
    see_session(cx, &w, &outs);
}

/// Operation `first` is dropped at its `k`-th suspension, or meets a fault at the k-th I/O call of
/// the connection, or gets a malformed reply to its k-th command; `prior` operations come before,
/// two more after it. None: it was not cut short (k is past its end).
/// Judged is whether the other operations end (`hangs`), or whether everything fits together.
pub fn cut_history(cx: &mut Cx, prior: usize, first: usize, how: usize, k: usize, pipe: bool, then: [usize; 2], judge: Judge) -> Option<()> {
    let hangs = judge == Judge::Hangs;
    let cut_op = prior + 1;
    let mut env = match how {
        0 => Env { pend_always: true, ..Default::default() },
        1 => Env { pend_always: true, read_chunk: Some(5), write_chunk: Some(9), ..Default::default() },
        2 => Env { fault_at: Some((k, Fault::Err(2))), ..Default::default() },
        3 => Env { fault_at: Some((k, Fault::Eof)), ..Default::default() },
        4 => Env { fault_at: Some((k, Fault::Err(7))), read_chunk: Some(6), write_chunk: Some(4), ..Default::default() },
        _ => Env::default(),
    };
    env.fault_sticky = false;
    let bad_reply = |i: usize| -> Option<Rep> {
        let b: &[u8] = match i {
            5 => b"what?\r\n250 ok\r\n",
            6 => b"250-one\r\n354 two\r\n250 three\r\n",
            7 => b"\r\n250 ok\r\n354 ok\r\n235 ok\r\n",
            8 => b"250 a\xff\r\n250 b\r\n",
            _ => return None,
        };
        Some(raw(b))
    };
    let hit = Arc::new(Mutex::new(false));
    let h2 = hit.clone();
    let mut seen = 0;
    let policy: Policy = Box::new(move |a| {
        let r = bad_reply(how).filter(|_| a.op == cut_op);
        if let Some(r) = r {
            seen += 1;
            if seen == k + 1 {
                *lock(&h2) = true;
                return Some(r);
            }
        }
        match a.kind {
            Kind::Auth if a.line.ends_with(b"LOGIN") => Some(rep(334, "VXNlcm5hbWU6")),
            Kind::AuthStep if a.step == 1 => Some(rep(334, "UGFzc3dvcmQ6")),
            _ => None,
        }
    });
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, policy));
    let (t, _) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return if lock(&w).fault.is_some() { Some(()) } else { None } };
    let c = creds("alice", "wonderland");
    let mut did = vec![];
    let total = prior + 3;
    for op in 1..=total {
        begin(&w, op);
        let kind = if op < cut_op { op % 2 } else if op == cut_op { first } else { then[op - cut_op - 1] };
        let drop_at = if how < 2 && op == cut_op { Some(k) } else { None };
        let (d, o) = match kind {
            0 | 1 | 2 => {
                let n = [1, 2, 130][kind];
                let to = rcpts(op, n);
                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                (Did::Send(n), send(&w, &mut t, envelope(Some(&sender(op)), &tr), &Body::Bytes(body(op)), drop_at))
            }
            3 | 4 => {
                let m = [Mechanism::Plain, Mechanism::Login][kind - 3];
                let o = match exec(&w, t.auth(m, &c), drop_at) {
                    Ok(Ok(r)) => out_resp(&r),
                    Ok(Err(e)) => out_err(&e),
                    Err(Stuck::Dropped) => Out::Dropped,
                    Err(s) => Out::Hang(format!("{s:?}")),
                };
                (Did::Login, o)
            }
            _ => {
                let o = match exec(&w, t.quit(), drop_at) {
                    Ok(Ok(())) => Out::Ok(None),
                    Ok(Err(e)) => out_err(&e),
                    Err(Stuck::Dropped) => Out::Dropped,
                    Err(s) => Out::Hang(format!("{s:?}")),
                };
                (Did::Quit, o)
            }
        };
        let stuck = matches!(o, Out::Hang(_) | Out::Livelock);
        let faulted = lock(&w).fault_ops.contains(&op) || (op == cut_op && *lock(&hit));
        let d = match d {
            _ if !(faulted || stuck || o == Out::Dropped) => d,
            Did::Send(n) => Did::CutSend(n),
            _ => Did::Cut,
        };
        if how < 2 && stuck && op <= cut_op {
            // It hangs before the place is reached.
            if hangs {
                cx.bad("hang", format!("pipelining {pipe}, undisturbed operation {op} does not end"));
            }
            return None;
        }
        let cut = !matches!(d, Did::Send(_) | Did::Login | Did::Quit);
        if op == cut_op && how < 2 && !cut {
            return None;
        }
        // What the cut operation itself reports is for other properties.
        did.push((op, d, if cut { Out::Dropped } else { o }));
        if judge == Judge::Sequence {
            judge_sequence(cx, &w);
        } else if !hangs {
            judge_history(cx, &w, &did);
        } else if stuck && op != cut_op {
            cx.bad("hang", format!("pipelining {pipe}, operation {cut_op} cut short ({how}) at {k}: operation {op} does not end"));
        }
        if stuck || !cx.ok() {
            break;
        }
    }
    cx.eval(true);
    cx.note = format!("pipelining {pipe}, cut {how} at {k}: {}", did.iter().map(|(_, d, o)| format!("{d:?} -> {}", o.class())).collect::<Vec<_>>().join("; "));
    cx.see(&rec(&w).deliveries.len());
    cx.see(&cx.note.clone());
    if how >= 5 && !*lock(&hit) || (2..5).contains(&how) && lock(&w).fault.is_none() {
        return None;
    }
    Some(())
}

pub fn c04(tier: Tier) -> Check {
    let mut jobs = vec![];
    for how in 0..9usize {
        for first in 0..6usize {
            jobs.push(job(format!("cut{how}/{first}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let prior = cx.ch.pick(tier.pick3(2, 2, 4));
                let then = [cx.ch.of(&[0usize, 1, 3, 4, 5]), cx.ch.of(&[0usize, 1, 3])];
                let big = first == 2;
                let mut k = 0;
                while cut_history(cx, prior, first, how, k, pipe, then, Judge::Matched).is_some() && cx.ok() {
                    k += if big && k > 20 && k % 250 > 20 { tier.pick3(31, 31, 3) } else { 1 };
                }
            }));
        }
    }
    // The first two choices are pinned per job so that the trees run in parallel.
    for depth in 1..=tier.pick(3usize, 4) {
        jobs.push(job(format!("free{depth}/2"), 0, move |cx| free_history(cx, depth, 2, Env::default(), depth == 4)));
    }
    jobs.push(job("free2/4", 0, |cx| free_history(cx, 2, 4, Env::default(), false)));
    jobs.push(job("sends5", 0, move |cx| {
        // longer histories of sends only
        let pipe = cx.ch.flag();
        let n = 1 + cx.ch.pick(2);
        let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, free_policy(2)));
        let (t, o) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        let mut did = vec![];
        for op in 1..=tier.pick3(4, 5, 6) {
            begin(&w, op);
            let o = do_send(&w, &mut t, op, n, None);
            did.push((op, Did::Send(n), o));
        }
        judge_history(cx, &w, &did);
        cx.note = format!("pipelining {pipe}: {}", did.iter().map(|(_, _, o)| o.class()).collect::<Vec<_>>().join("; "));
        let outs: Vec<Out> = did.into_iter().map(|x| x.2).collect();
        see_session(cx, &w, &outs);
    }));
    jobs.push(job("mixed", 0, move |cx| mixed(cx, tier, For::Matched)));
    // many recipients with any one rejected, then another email
    for n in [3usize, 4, 8, 64, 150, 200, 300] {
        jobs.push(job(format!("wide{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let lines = cx.ch.flag();
            for i in 0..=n {
                if i > 20 && i + 20 < n && i % 13 != 0 {
                    continue;
                }
                let p = plan();
                set(&p, 1, Kind::Rcpt, i, if lines { vl(550, &["{}", "", "x"]) } else { v(450) });
                let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
                let (t, o) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                let mut did = vec![];
                for (op, k) in [(1, n), (2, 1), (3, 2)] {
                    begin(&w, op);
                    let o = do_send(&w, &mut t, op, k, None);
                    did.push((op, Did::Send(k), o));
                }
                cx.eval(true);
                cx.note = format!("pipelining {pipe}: {n} recipients, number {i} rejected, then two more emails");
                judge_history(cx, &w, &did);
                cx.see(&did.iter().map(|d| d.2.class()).collect::<Vec<_>>());
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // long histories, each operation failing in its own way
    for kind in 0..4usize {
        jobs.push(job(format!("long/{kind}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let many = tier.pick(300, 1100);
            let p = plan();
            let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
            let (t, o) = connect(&w, SmtpClient::new());
            let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
            let mut did = vec![];
            for op in 1..=many {
                begin(&w, op);
                let n = 1 + op % 3;
                match (kind, op % 5) {
                    (1, 0) => set(&p, op, Kind::Mail, 0, v(450)),
                    (1, 2) | (2, 0) => set(&p, op, Kind::Rcpt, n - 1, v(550)),
                    (2, _) => set(&p, op, Kind::Rcpt, 0, v(550)),
                    (3, 1) => set(&p, op, Kind::Data, 0, v(451)),
                    (3, 3) => set(&p, op, Kind::Content, 0, v(552)),
                    _ => {}
                }
                let (d, o) = if kind == 3 && op % 5 == 4 {
                    set(&p, op, Kind::Auth, 0, v(535));
                    (Did::Login, auth(&w, &mut t, Mechanism::Plain, &creds("alice", "wonderland")))
                } else {
                    (Did::Send(n), do_send(&w, &mut t, op, n, None))
                };
                let stuck = matches!(o, Out::Hang(_) | Out::Livelock);
                did.push((op, if stuck { Did::Cut } else { d }, o));
                if stuck {
                    break;
                }
            }
            cx.note = format!("pipelining {pipe}: {many} operations of kind {kind}");
            judge_history(cx, &w, &did);
            let outs: Vec<Out> = did.into_iter().map(|x| x.2).collect();
            see_session(cx, &w, &outs);
        }));
    }
    // every number of commands left unanswered by a send that a read error cut short
    for pipe in [true, false] {
        jobs.push(job(format!("outstanding/{pipe}"), 0, move |cx| {
            let then = cx.ch.of(&[0usize, 3, 5]);
            for n in (1..=tier.pick(290, 340)).chain([510, 511, 512, 1000, 1023, 1024]) {
                let env = Env { read_fault_in: Some(1), ..Default::default() };
                let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, accept_all()));
                let (t, o) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                let mut did = vec![];
                begin(&w, 1);
                send(&w, &mut t, envelope(Some(&sender(1)), &vec!["a"; n]), &Body::Bytes(body(1)), None);
                for op in 2..=4 {
                    begin(&w, op);
                    let (d, o) = match if op == 2 { then } else { 0 } {
                        0 => (Did::Send(op), do_send(&w, &mut t, op, op, None)),
                        3 => (Did::Login, auth(&w, &mut t, Mechanism::Plain, &creds("alice", "wonderland"))),
                        _ => (Did::Quit, quit(&w, &mut t)),
                    };
                    let stuck = matches!(o, Out::Hang(_) | Out::Livelock);
                    did.push((op, if stuck { Did::Cut } else { d }, o));
                    if stuck {
                        break;
                    }
                }
                cx.eval(true);
                cx.note = format!("pipelining {pipe}: {n} recipients, the first read fails, then {then}: {}", did.iter().map(|(_, d, o)| format!("{d:?} -> {}", o.class())).collect::<Vec<_>>().join("; "));
                did.insert(0, (1, Did::Cut, Out::Dropped));
                if rec(&w).deliveries.iter().any(|d| d.op == 1) {
                    return cx.bad("misdelivery", "the email cut short was submitted");
                }
                judge_history(cx, &w, &did);
                cx.see(&did.iter().map(|d| d.2.class()).collect::<Vec<_>>());
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // the same under uniformly awkward I/O
    for (k, env) in [
        Env { read_chunk: Some(1), ..Default::default() },
        Env { read_chunk: Some(3), write_chunk: Some(1), pend_always: true, ..Default::default() },
        Env { write_back: true, read_chunk: Some(7), ..Default::default() },
        Env { c2s_cap: Some(4096), s2c_cap: Some(5), ..Default::default() },
    ]
    .into_iter()
    .enumerate()
    {
        jobs.push(job(format!("awkward{k}"), 0, move |cx| free_history(cx, 2, 2, env.clone(), false)));
    }
    Check { jobs, rule: "one execution = one history of operations with one assignment of verdicts; distinct = different wire trace, deliveries or outcomes" }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Send { n: usize, verdict: &'static [(Kind, usize, u16)] },
    Source { at: usize },
    /// mechanism 0 PLAIN 1 LOGIN 2 XOAUTH2; replies to AUTH and to each answer (0 = a challenge follows)
    Login { mech: usize, replies: &'static [(u16, &'static str)], expect: Exp },
    NoCommon,
    /// Only as the last operation.
    StartTls,
    Quit,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exp {
    Ok,
    Rej(u16),
    Fail,
}

const U: &str = "VXNlcm5hbWU6";
const PW: &str = "UGFzc3dvcmQ6";
const OPS: &[Op] = &[
    Op::Send { n: 2, verdict: &[] },
    Op::Send { n: 2, verdict: &[(Kind::Mail, 0, 550)] },
    Op::Send { n: 2, verdict: &[(Kind::Rcpt, 0, 450)] },
    Op::Send { n: 2, verdict: &[(Kind::Rcpt, 1, 550)] },
    Op::Send { n: 2, verdict: &[(Kind::Rcpt, 0, 550), (Kind::Rcpt, 1, 451)] },
    Op::Send { n: 1, verdict: &[(Kind::Rcpt, 0, 550)] },
    Op::Send { n: 2, verdict: &[(Kind::Data, 0, 554)] },
    Op::Send { n: 1, verdict: &[(Kind::Content, 0, 552)] },
    Op::Source { at: 0 },
    Op::Source { at: 11 },
    Op::Login { mech: 0, replies: &[(535, "")], expect: Exp::Rej(535) },
    Op::Login { mech: 1, replies: &[(334, "Pz8/")], expect: Exp::Fail },
    Op::Login { mech: 1, replies: &[(334, U), (334, PW), (535, "")], expect: Exp::Rej(535) },
    Op::Login { mech: 2, replies: &[(334, "eyJzdGF0dXMiOiI0MDAifQ==")], expect: Exp::Fail },
    Op::Login { mech: 1, replies: &[(334, U), (334, "!not base64!")], expect: Exp::Fail },
    Op::Login { mech: 1, replies: &[(334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (334, U), (235, "")], expect: Exp::Fail },
    Op::Login { mech: 0, replies: &[(235, "")], expect: Exp::Ok },
    Op::NoCommon,
    Op::Login { mech: 1, replies: &[(454, "")], expect: Exp::Rej(454) },
    Op::Login { mech: 0, replies: &[(334, "")], expect: Exp::Fail },
    Op::Send { n: 1, verdict: &[(Kind::Data, 0, 451)] },
    Op::Send { n: 3, verdict: &[(Kind::Rcpt, 1, 452), (Kind::Content, 0, 250)] },
    Op::Send { n: 1, verdict: &[] },
    Op::Send { n: 2, verdict: &[(Kind::Mail, 0, 451), (Kind::Rcpt, 0, 550)] },
    Op::Login { mech: 1, replies: &[(334, U), (535, "")], expect: Exp::Rej(535) },
    Op::Login { mech: 1, replies: &[(334, U), (334, "/////w==")], expect: Exp::Fail },
];

/// The commands that make up an operation (not what merely cleans up), and which of them were sent
/// ahead of the reply to the one before.
fn own_lines(w: &W, op: usize) -> Vec<String> {
    let mut before = None;
    let mut v = vec![];
    for c in rec_of(w, op).cmds.iter().filter(|c| !matches!(c.kind, Kind::Rset | Kind::Other | Kind::Noop | Kind::Content)) {
        let at = lock(w).consumed_when_written(c.start);
        let ahead = matches!((before, at), (Some(b), Some(at)) if at < b);
        before = Some(c.rep_end);
        v.push(format!("{}{}", if ahead { "(ahead) " } else { "" }, show(&c.line)));
    }
    v
}

thread_local!(static FRESH: std::cell::RefCell<HashMap<(bool, usize, usize, bool), Vec<String>>> = Default::default());
/// The commands of an accepted email to `n` recipients as operation `op` on a fresh connection.
fn fresh_lines(cx: &Cx, pipe: bool, op: usize, n: usize, env: &Env) -> Vec<String> {
    FRESH.with(|f| {
        f.borrow_mut()
            .entry((pipe, op, n, env.s2c_cap.is_some()))
            .or_insert_with(|| {
                let plain = Env { c2s_cap: env.c2s_cap, s2c_cap: env.s2c_cap, ..Default::default() };
                let w = strict(&cx.ch, plain, Strict::new(ext(pipe), true, accept_all()));
                let (t, _) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return vec![] };
                begin(&w, op);
                do_send(&w, &mut t, op, n, None);
                own_lines(&w, op)
            })
            .clone()
    })
}

fn usable(cx: &mut Cx, pipe: bool, ops: &[Op], env: Env) {
    // Logins through `auth`, or through `try_login` with a list that makes the same choice.
    let via_list = if ops.iter().any(|x| matches!(x, Op::Login { .. })) { cx.ch.pick(3) } else { 0 };
    let p = plan();
    let mut planned = plan_policy(&p);
    // Replies to what an implementation may do on its own are long if there are many operations.
    let long = ops.len() % 2 == 0;
    let s = Strict::new(
        ext(pipe),
        true,
        Box::new(move |a| match a.kind {
            Kind::Rset if long => Some(reps(250, &[a.tag.as_str(), "", "550 no", "flushed"])),
            Kind::Other if long && a.line == b"*" => Some(reps(501, &[a.tag.as_str(), "250 ok", "cancelled"])),
            _ => planned(a),
        }),
    );
    let w = strict(&cx.ch, env.clone(), s);
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    let c = creds("alice", "wonderland");
    let mut authed = false;
    let mut outs = vec![];
    cx.note = format!("pipelining {pipe}, logins by {}: {ops:?}", ["auth", "try_login", "try_login with all mechanisms"][via_list]);
    for (k, x) in ops.iter().enumerate() {
        let op = k + 1;
        let failed_before = ops[..k].iter().any(|x| !matches!(x, Op::NoCommon | Op::Send { verdict: &[], .. } | Op::Login { expect: Exp::Ok, .. }));
        begin(&w, op);
        let (o, want) = match x {
            Op::Send { n, verdict } => {
                for (k, i, code) in *verdict {
                    set(&p, op, *k, *i, if *i == 1 { vl(*code, &["{}", "more"]) } else { v(*code) });
                }
                let first = verdict.iter().find(|x| is_neg(x.2));
                (do_send(&w, &mut t, op, *n, None), first.map_or(Exp::Ok, |x| Exp::Rej(x.2)))
            }
            Op::Source { at } => (do_send(&w, &mut t, op, 2, Some(*at)), Exp::Fail),
            Op::NoCommon => (try_login(&w, &mut t, &c, &[]), Exp::Ok),
            Op::Quit => (quit(&w, &mut t), Exp::Ok),
            Op::StartTls => {
                let o = starttls(&w, t).1;
                let seen = own_lines(&w, op);
                if failed_before && (!o.is_ok() || seen != ["STARTTLS"]) {
                    cx.bad("unusable", format!("STARTTLS as operation {op} gave {o:?}, sent {seen:?}"));
                }
                outs.push(o);
                break;
            }
            Op::Login { mech, replies, expect } => {
                for (i, (code, text)) in replies.iter().enumerate() {
                    let r = if *code == 334 { vl(334, &[text]) } else { v(*code) };
                    if i == 0 {
                        set(&p, op, Kind::Auth, 0, r);
                    } else {
                        set(&p, op, Kind::AuthStep, i - 1, r);
                    }
                }
                const MS: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
                let o = match via_list {
                    0 => auth(&w, &mut t, MS[*mech], &c),
                    1 => try_login(&w, &mut t, &c, &[MS[*mech]]),
                    _ => try_login(&w, &mut t, &c, &[MS[*mech], MS[(mech + 1) % 3], MS[(mech + 2) % 3]]),
                };
                let asked = rec_of(&w, op).cmds.iter().any(|c| c.kind == Kind::Auth);
                if !asked {
                    // Whether a login may be skipped after a successful one is for other properties.
                    if failed_before && !authed {
                        cx.bad("not-asked", format!("operation {op} {x:?}: no login was attempted, gave {o:?}"));
                    }
                    break;
                }
                if authed {
                    (o, Exp::Rej(503)) // a second authentication is refused by any server
                } else {
                    authed |= *expect == Exp::Ok;
                    (o, *expect)
                }
            }
        };
        let ok = match want {
            Exp::Ok => o.is_ok(),
            Exp::Rej(c) => matches!(&o, Out::Rej { code, .. } if *code == c),
            Exp::Fail => matches!(&o, Out::Fail(_)),
        };
        if !ok {
            if failed_before {
                cx.bad("unusable", format!("operation {op} {x:?} should give {want:?} as on a fresh connection, gave {o:?}"));
            }
            // otherwise the operation itself is at fault, which other properties judge
            break;
        }
        let r = rec_of(&w, op);
        let dels: Vec<&Delivery> = r.deliveries.iter().filter(|d| d.accepted).collect();
        if let (Op::Send { n, .. }, Exp::Ok) = (x, want) {
            let to: Vec<Vec<u8>> = rcpts(op, *n).into_iter().map(String::into_bytes).collect();
            if failed_before && (dels.len() != 1 || dels[0].to != to || dels[0].from != sender(op).as_bytes() || !content_ok(&body(op), &dels[0].content)) {
                cx.bad("not-delivered", format!("operation {op}: accepted email not delivered exactly once as given: {dels:?}"));
                break;
            }
            if failed_before {
                let (a, b) = (own_lines(&w, op), fresh_lines(cx, pipe, op, *n, &env));
                if a != b {
                    cx.bad("not-as-fresh", format!("operation {op} {x:?} sent {a:?}, on a fresh connection {b:?}"));
                    break;
                }
            }
        } else if failed_before && !dels.is_empty() {
            cx.bad("delivered", format!("operation {op} {x:?} delivered {:?}", dels));
            break;
        }
        outs.push(o);
    }
    see_session(cx, &w, &outs);
}

/// An email of one of several sizes and kinds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Mail {
    n: usize,
    body: usize,
    null: bool,
}
impl Mail {
    fn choose(cx: &Cx, ns: &[usize]) -> Mail {
        Mail { n: cx.ch.of(ns), body: cx.ch.pick(5), null: cx.ch.flag() }
    }
    fn bytes(&self, op: usize) -> Vec<u8> {
        match self.body {
            0 => vec![],
            1 => body(op),
            2 => format!(".{op}\r\n").into_bytes().repeat(14_000),
            3 => format!("line of {op}\r\n").into_bytes().repeat(11_000),
            _ => format!("{op} without end\r").into_bytes(),
        }
    }
    fn from(&self, op: usize) -> Option<String> {
        if self.null { None } else { Some(sender(op)) }
    }
    fn send(&self, w: &W, t: &mut T, op: usize) -> Out {
        let to = rcpts(op, self.n);
        let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
        let b = self.bytes(op);
        let b = if (op + self.body) % 2 == 0 { Body::Bytes(b) } else { Body::Reader(b, SrcCfg { chunk: Some(4093), ..Default::default() }) };
        begin(w, op);
        send(w, t, envelope(self.from(op).as_deref(), &tr), &b, None)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum For {
    Matched,
    Usable,
    Sequence,
}

/// A large, small, empty ... email, accepted or rejected at some stage, followed by others of
/// other sizes.
fn mixed(cx: &mut Cx, tier: Tier, what: For) {
    let pipe = cx.ch.flag();
    let ns: &[usize] = tier.pick3(&[1, 130], &[1, 130], &[1, 2, 130, 300]);
    let first = Mail::choose(cx, ns);
    let stage = cx.ch.pick(7);
    let second = Mail::choose(cx, ns);
    let mails = [first, second, Mail { n: 2, body: 1, null: false }];
    let p = plan();
    let code = if (first.n + second.body + stage) % 2 == 0 { 550 } else { 451 };
    let at = match stage {
        1 => Some((Kind::Mail, 0)),
        2 => Some((Kind::Rcpt, 0)),
        3 => Some((Kind::Rcpt, first.n - 1)),
        4 => Some((Kind::Data, 0)),
        5 => Some((Kind::Content, 0)),
        6 => Some((Kind::Rcpt, first.n / 2)),
        _ => None,
    };
    if let Some((k, i)) = at {
        set(&p, 1, k, i, vl(code, &["{}", "no"]));
    }
    let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    let outs: Vec<Out> = mails.iter().enumerate().map(|(k, m)| m.send(&w, &mut t, k + 1)).collect();
    cx.note = format!("pipelining {pipe}, {first:?} {}, then {second:?}: {}", at.map_or("accepted".to_string(), |a| format!("rejected at {a:?}")), outs.iter().map(|o| o.class()).collect::<Vec<_>>().join("; "));
    see_session(cx, &w, &outs);
    if what == For::Sequence {
        return judge_sequence(cx, &w);
    }
    let r = rec(&w);
    for (k, (m, o)) in mails.iter().zip(&outs).enumerate() {
        let op = k + 1;
        let dels: Vec<&Delivery> = r.deliveries.iter().filter(|d| d.op == op).collect();
        let exact = |d: &Delivery| d.from == m.from(op).unwrap_or_default().as_bytes() && d.to == rcpts(op, m.n).into_iter().map(String::into_bytes).collect::<Vec<_>>() && content_ok(&m.bytes(op), &d.content);
        match what {
            For::Matched => {
                let acc = dels.iter().filter(|d| d.accepted).count();
                if let Out::Ok(Some((code, lines))) | Out::Rej { code, lines, .. } = o {
                    if !r.cmds.iter().any(|c| c.op == op && c.code == *code && c.lines == *lines) {
                        cx.bad("foreign-reply", format!("operation {op} was given {code} {lines:?}, which is no reply to a command of its own"));
                    }
                }
                if dels.iter().any(|d| !exact(d)) || dels.len() > 1 || (acc == 1) != o.is_ok() {
                    cx.bad("mismatch", format!("operation {op} gave {}, {} messages completed, {acc} accepted", o.class(), dels.len()));
                }
            }
            _ if k > 0 && outs[0].is_rej() => {
                if !o.is_ok() || dels.len() != 1 || !exact(dels[0]) {
                    cx.bad("unusable", format!("operation {op} {m:?} gave {}, {} messages completed", o.class(), dels.len()));
                } else {
                    let (a, b) = (own_lines(&w, op), fresh_mail(cx, pipe, op, *m));
                    if a != b {
                        cx.bad("not-as-fresh", format!("operation {op} sent {} commands, not as on a fresh connection ({}): {:?}", a.len(), b.len(), a.iter().zip(&b).find(|(a, b)| a != b)));
                    }
                }
            }
            _ => {}
        }
        if !cx.ok() {
            return;
        }
    }
}

fn fresh_mail(cx: &Cx, pipe: bool, op: usize, m: Mail) -> Vec<String> {
    thread_local!(static MAILS: std::cell::RefCell<HashMap<(bool, usize, Mail), Vec<String>>> = Default::default());
    MAILS.with(|f| {
        f.borrow_mut()
            .entry((pipe, op, m))
            .or_insert_with(|| {
                let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, accept_all()));
                let (t, _) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return vec![] };
                m.send(&w, &mut t, op);
                own_lines(&w, op)
            })
            .clone()
    })
}

pub fn c18(tier: Tier) -> Check {
    let mut jobs = vec![];
    jobs.push(job("mixed", 0, move |cx| mixed(cx, tier, For::Usable)));
    let n = OPS.len();
    for a in 0..n {
        jobs.push(job(format!("three/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let b = cx.ch.pick(n);
            let c = cx.ch.pick(n);
            usable(cx, pipe, &[OPS[a], OPS[b], OPS[c]], Env::default());
        }));
        jobs.push(job(format!("ending/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let b = cx.ch.pick(n);
            let end = cx.ch.of(&[Op::StartTls, Op::Quit]);
            usable(cx, pipe, &[OPS[a], OPS[b], end], Env::default());
        }));
        // failing operations, then a login, then an email that must get through
        jobs.push(job(format!("closing/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let b = cx.ch.pick(n);
            let c = cx.ch.pick(n);
            let tail = if cx.ch.flag() { OPS[16] } else { OPS[22] };
            usable(cx, pipe, &[OPS[a], OPS[b], OPS[c], tail, OPS[0]], Env::default());
        }));
        if tier == Tier::Thorough {
            for b in 0..n {
                jobs.push(job(format!("five/{a}/{b}"), 0, move |cx| {
                    let pipe = cx.ch.flag();
                    let c = cx.ch.pick(n);
                    let d = cx.ch.pick(n);
                    let e = cx.ch.of(&[0usize, 3, 6, 10, 12, 16, 22]);
                    usable(cx, pipe, &[OPS[a], OPS[b], OPS[c], OPS[d], OPS[e]], Env::default());
                }));
            }
        }
        // under segmentation and delays
        jobs.push(job(format!("segmented/{a}"), tier.pick(1, 2), move |cx| {
            let pipe = cx.ch.flag();
            let env = Env { dev_split: true, dev_pend: true, ..Default::default() };
            usable(cx, pipe, &[OPS[a], OPS[0]], env);
        }));
        for (k, env) in [
            Env { read_chunk: Some(1), write_chunk: Some(1), pend_always: true, ..Default::default() },
            Env { write_back: true, ..Default::default() },
            Env { c2s_cap: Some(4096), s2c_cap: Some(3), ..Default::default() },
        ]
        .into_iter()
        .enumerate()
        {
            jobs.push(job(format!("awkward/{a}/{k}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let b = cx.ch.pick(n);
                usable(cx, pipe, &[OPS[a], OPS[b], OPS[0]], env.clone());
            }));
        }
    }
    // every code as rejection in every place, then an email and a login as on a fresh connection
    for (i, place) in [Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Content, Kind::Auth, Kind::AuthStep, Kind::Other].into_iter().enumerate() {
        jobs.push(job(format!("codes/{i}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let offers: &'static [&'static str] = cx.ch.of(&[
                ext(pipe),
                if pipe { &["mx.test", "PIPELINING", "8BITMIME", "AUTH LOGIN"] } else { &["mx.test", "8BITMIME", "SMTPUTF8", "AUTH LOGIN PLAIN"] },
            ]);
            let nth = if matches!(place, Kind::Rcpt | Kind::AuthStep) { cx.ch.pick(2) } else { 0 };
            let twice = cx.ch.flag();
            let text = cx.ch.pick(3);
            // (a conforming server answers the cancellation of a login with 501)
            for code in all_codes().into_iter().filter(|c| if place == Kind::Other { *c == 501 } else { is_neg(*c) && *c != 421 }) {
                let go = |fail: bool| -> (Vec<Vec<String>>, Vec<Out>, Vec<Out>) {
                    let p = plan();
                    let rej = match text {
                        0 => vl(code, &["{}"]),
                        1 => vl(code, &["{}", "5.7.1 no", ""]),
                        _ => vl(code, &["PIPELINING not supported", "8BITMIME not supported {}"]),
                    };
                    for op in 1..=5 {
                        set(&p, op, Kind::Auth, 0, vl(334, &[U]));
                        set(&p, op, Kind::AuthStep, 0, vl(334, &[PW]));
                    }
                    if place == Kind::Other {
                        set(&p, 1, Kind::Auth, 0, vl(334, &["Pz8/"]));
                        set(&p, 2, Kind::Auth, 0, vl(334, &["!!"]));
                    }
                    for op in 1..=1 + twice as usize {
                        set(&p, op, place, nth, rej.clone());
                    }
                    let w = strict(&cx.ch, Env::default(), Strict::new(offers, true, plan_policy(&p)));
                    let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(true));
                    let Some(mut t) = t else { return (vec![], vec![o], vec![]) };
                    let c = creds("alice", "wonderland");
                    let mut before = vec![];
                    let login = matches!(place, Kind::Auth | Kind::AuthStep | Kind::Other);
                    for op in 1..=1 + twice as usize {
                        begin(&w, op);
                        if fail {
                            before.push(if login { auth(&w, &mut t, Mechanism::Login, &c) } else { do_send(&w, &mut t, op, 2, None) });
                        }
                    }
                    begin(&w, 3);
                    let mut outs = vec![do_send(&w, &mut t, 3, 3, None)];
                    begin(&w, 4);
                    outs.push(try_login(&w, &mut t, &c, &[Mechanism::Login]));
                    begin(&w, 5);
                    outs.push(do_send(&w, &mut t, 5, 1, None));
                    ((3..=5).map(|op| own_lines(&w, op)).collect(), before, outs)
                };
                let (want, _, fresh) = go(false);
                let (got, before, outs) = go(true);
                cx.eval(true);
                cx.note = format!("pipelining {pipe}, offers {offers:?}: {place:?} {nth} refused with {code} (text {text}), twice {twice}");
                cx.see(&got);
                if !before.iter().all(|o| o.is_err()) || !fresh.iter().all(|o| o.is_ok()) {
                    continue; // for other properties
                }
                if got != want || !outs.iter().all(|o| o.is_ok()) {
                    return cx.bad("not-as-fresh", format!("then: sent {got:?}, outcomes {outs:?}; on a fresh connection {want:?}"));
                }
            }
        }));
    }
    // repeated failures of the same kind, then an email
    jobs.push(job("repeated", 0, move |cx| {
        let pipe = cx.ch.flag();
        let a = cx.ch.pick(n);
        let k = cx.ch.of(&[1usize, 2, 3, 9, 10, 11, 40, 101, 257]);
        let mut v = vec![OPS[a]; k];
        v.push(OPS[0]);
        usable(cx, pipe, &v, Env::default());
    }));
    // rejections in usual words
    for k in 0..4usize {
        jobs.push(job(format!("usual/{k}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let kind = [Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Content][k];
            let code = cx.ch.of(&[450u16, 452, 503, 550, 552, 554]);
            for t in super::usual::TEXTS {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                cx.note = format!("pipelining {pipe}: {kind:?} answered {code} {t:?}, then an accepted email");
                let p = plan();
                set(&p, 1, kind, 0, vl(code, t));
                let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
                let (tr, o) = connect(&w, SmtpClient::new());
                let Some(mut tr) = tr else { return cx.bad("connect", format!("{o:?}")) };
                begin(&w, 1);
                let o1 = do_send(&w, &mut tr, 1, 2, None);
                begin(&w, 2);
                let o2 = do_send(&w, &mut tr, 2, 2, None);
                let (a, b) = (own_lines(&w, 2), fresh_lines(cx, pipe, 2, 2, &Env::default()));
                if o1.is_rej() && (!o2.is_ok() || rec(&w).deliveries.iter().filter(|d| d.accepted).count() != 1 || a != b) {
                    cx.bad("unusable", format!("after {o1:?} an acceptable email gave {o2:?}, sent {a:?}"));
                }
                cx.see(&o1.class());
            }
        }));
    }
    // long histories of one failure and something else in turns
    for a in 0..n {
        jobs.push(job(format!("many/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let b = cx.ch.of(&[0usize, 2, 4, 7, 11]);
            let turn = cx.ch.of(&[2usize, 7]);
            let mut v: Vec<Op> = (0..tier.pick(300, 1100)).map(|i| if i % turn == 1 { OPS[b] } else { OPS[a] }).collect();
            v.push(OPS[0]);
            usable(cx, pipe, &v, Env::default());
            cx.note = format!("pipelining {pipe}: {} operations, {:?} and every {turn} {:?}", v.len(), OPS[a], OPS[b]);
        }));
    }
    // a large rejected group
    jobs.push(job("wide", 0, |cx| {
        let pipe = cx.ch.flag();
        let n = cx.ch.of(&[90usize, 120, 200, 300]);
        let at = cx.ch.of(&[0usize, 1, 50, 89]);
        let p = plan();
        set(&p, 1, Kind::Rcpt, at, v(550));
        let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
        let (t, o) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        begin(&w, 1);
        let o1 = do_send(&w, &mut t, 1, n, None);
        begin(&w, 2);
        let o2 = do_send(&w, &mut t, 2, n, None);
        cx.note = format!("pipelining {pipe}, {n} recipients, number {at} rejected; then again accepted");
        if o1.is_rej() && (!o2.is_ok() || rec(&w).deliveries.len() != 1) {
            cx.bad("unusable", format!("after {o1:?} an acceptable email gave {o2:?}"));
        }
        see_session(cx, &w, &[o1, o2]);
    }));
    Check { jobs, rule: "one execution = one history of failing and succeeding operations; distinct = different wire trace, deliveries or outcomes" }
}

// ---------------------------------------------------------------------------------------------

/// Performs the operations whatever their outcomes are; false: one does not end.
fn perform(cx: &mut Cx, pipe: bool, ops: &[Op], env: Env, mut extra: impl FnMut(&Ask) -> Option<Rep> + Send + 'static) -> W {
    let p = plan();
    let mut planned = plan_policy(&p);
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, Box::new(move |a| extra(a).or_else(|| planned(a)))));
    let (t, _) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return w };
    let c = creds("alice", "wonderland");
    for (k, x) in ops.iter().enumerate() {
        let op = k + 1;
        begin(&w, op);
        let o = match x {
            Op::Send { n, verdict } => {
                for (k, i, code) in *verdict {
                    set(&p, op, *k, *i, v(*code));
                }
                do_send(&w, &mut t, op, *n, None)
            }
            Op::Source { at } => do_send(&w, &mut t, op, 2, Some(*at)),
            Op::NoCommon => try_login(&w, &mut t, &c, &[]),
            Op::Quit => quit(&w, &mut t),
            Op::StartTls => {
                starttls(&w, t);
                return w;
            }
            Op::Login { mech, replies, .. } => {
                for (i, (code, text)) in replies.iter().enumerate() {
                    let r = if *code == 334 { vl(334, &[text]) } else { v(*code) };
                    if i == 0 {
                        set(&p, op, Kind::Auth, 0, r);
                    } else {
                        set(&p, op, Kind::AuthStep, i - 1, r);
                    }
                }
                auth(&w, &mut t, super::session::MECHS[*mech], &c)
            }
        };
        cx.see(&o.class());
        if matches!(o, Out::Hang(_) | Out::Livelock) {
            break;
        }
    }
    w
}

pub fn c25(tier: Tier) -> Check {
    let mut jobs = vec![];
    jobs.push(job("mixed", 0, move |cx| mixed(cx, tier, For::Sequence)));
    let n = OPS.len();
    for depth in 1..=tier.pick(3usize, 4) {
        jobs.push(job(format!("free{depth}/2"), 0, move |cx| free_history_judged(cx, depth, 2, Env::default(), depth == 4, Judge::Sequence)));
    }
    jobs.push(job("free2/4", 0, |cx| free_history_judged(cx, 2, 4, Env::default(), false, Judge::Sequence)));
    for (k, env) in [
        Env { read_chunk: Some(1), write_chunk: Some(3), pend_always: true, ..Default::default() },
        Env { write_back: true, s2c_cap: Some(5), c2s_cap: Some(4096), ..Default::default() },
    ]
    .into_iter()
    .enumerate()
    {
        jobs.push(job(format!("awkward{k}"), 0, move |cx| free_history_judged(cx, 2, 2, env.clone(), false, Judge::Sequence)));
    }
    for how in 0..9usize {
        for first in 0..6usize {
            jobs.push(job(format!("cut{how}/{first}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let prior = cx.ch.pick(2);
                let then = [cx.ch.of(&[0usize, 1, 3, 4, 5]), cx.ch.of(&[0usize, 3])];
                let big = first == 2;
                let mut k = 0;
                while cut_history(cx, prior, first, how, k, pipe, then, Judge::Sequence).is_some() && cx.ok() {
                    k += if big && k > 20 && k % 250 > 20 { tier.pick3(31, 31, 3) } else { 1 };
                }
            }));
        }
    }
    for a in 0..n {
        jobs.push(job(format!("three/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let ops = [OPS[a], OPS[cx.ch.pick(n)], OPS[cx.ch.pick(n)], cx.ch.of(&[OPS[0], OPS[16], OPS[12], Op::StartTls, Op::Quit])];
            cx.note = format!("pipelining {pipe}: {ops:?}");
            let w = perform(cx, pipe, &ops, Env::default(), |_| None);
            judge_sequence(cx, &w);
            see_session(cx, &w, &[]);
        }));
        if tier == Tier::Thorough {
            jobs.push(job(format!("four/{a}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let ops = [OPS[a], OPS[cx.ch.pick(n)], OPS[cx.ch.pick(n)], OPS[cx.ch.pick(n)], cx.ch.of(&[OPS[0], OPS[12], Op::StartTls])];
                cx.note = format!("pipelining {pipe}: {ops:?}");
                let w = perform(cx, pipe, &ops, Env::default(), |_| None);
                judge_sequence(cx, &w);
                see_session(cx, &w, &[]);
            }));
        }
        jobs.push(job(format!("many/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let b = cx.ch.of(&[0usize, 3, 11]);
            let turn = cx.ch.of(&[1000usize, 2]);
            let ops: Vec<Op> = (0..tier.pick(300, 1100)).map(|i| if i % turn == 1 { OPS[b] } else { OPS[a] }).collect();
            cx.note = format!("pipelining {pipe}: {} operations, {:?} and every {turn} {:?}", ops.len(), OPS[a], OPS[b]);
            let w = perform(cx, pipe, &ops, Env::default(), |_| None);
            judge_sequence(cx, &w);
            see_session(cx, &w, &[]);
        }));
        // cleaning up is refused, or answered like something else
        jobs.push(job(format!("refused/{a}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let kind = cx.ch.of(&[Kind::Rset, Kind::Other]);
            let code = cx.ch.of(&[421u16, 451, 500, 501, 502, 503, 550, 535]);
            let times = cx.ch.of(&[1usize, 2, 100]);
            let ops = [OPS[a], OPS[cx.ch.pick(n)], OPS[0], cx.ch.of(&[OPS[0], OPS[12]])];
            cx.note = format!("pipelining {pipe}: {kind:?} refused {times} times with {code}: {ops:?}");
            let mut seen = 0;
            let w = perform(cx, pipe, &ops, Env::default(), move |a| {
                if a.kind != kind || seen == times {
                    return None;
                }
                seen += 1;
                Some(rep(code, &format!("no {}", a.tag)))
            });
            judge_sequence(cx, &w);
            see_session(cx, &w, &[]);
        }));
    }
    // every code in every place
    for (i, place) in [Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Content, Kind::Auth, Kind::AuthStep, Kind::Rset, Kind::StartTls, Kind::Quit].into_iter().enumerate() {
        jobs.push(job(format!("codes/{i}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let nth = if matches!(place, Kind::Rcpt | Kind::AuthStep) { cx.ch.pick(2) } else { 0 };
            let (a, b) = (cx.ch.of(&[0usize, 5, 12]), cx.ch.of(&[0usize, 12]));
            let end = cx.ch.of(&[Op::StartTls, Op::Quit, OPS[0]]);
            let lines = cx.ch.flag();
            for code in all_codes() {
                // codes that mean nothing in this place are not a conforming server's
                let means = match place {
                    Kind::Data => code == 354 || is_neg(code),
                    Kind::Auth | Kind::AuthStep => code == 334 || code / 100 == 2 || is_neg(code),
                    _ => code / 100 != 3,
                };
                if !means {
                    continue;
                }
                let ops = [OPS[a], OPS[b], OPS[22], end];
                cx.eval(true);
                cx.note = format!("pipelining {pipe}: {place:?} {nth} answered {code}: {ops:?}");
                let w = perform(cx, pipe, &ops, Env::default(), move |a| {
                    (a.kind == place && a.op_kind_index == nth && a.op <= 2 || a.kind == place && a.op == 4).then(|| match lines {
                        false => rep(code, &format!("x {}", a.tag)),
                        true => reps(code, &["", a.tag.as_str(), "250 ok"]),
                    })
                });
                judge_sequence(cx, &w);
                see_session(cx, &w, &[]);
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // groups of many recipients, some rejected, and the sender rejected
    jobs.push(job("wide", 0, move |cx| {
        let pipe = cx.ch.flag();
        let n = cx.ch.of(&[1usize, 2, 3, 50, 100, 101, 150, 200, 300, 500]);
        let what = cx.ch.pick(5);
        let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, Box::new(move |a| {
            let no = a.op == 1 && match a.kind {
                Kind::Mail => what == 0,
                Kind::Rcpt => match what {
                    1 => a.op_kind_index == 0,
                    2 => a.op_kind_index + 1 == n,
                    3 => true,
                    4 => a.op_kind_index % 2 == 1,
                    _ => false,
                },
                _ => false,
            };
            no.then(|| rep(550, &format!("no {}", a.tag)))
        })));
        cx.note = format!("pipelining {pipe}: {n} recipients, rejected: {what}");
        let (t, _) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return };
        let mut outs = vec![];
        for (op, n) in [(1, n), (2, 2), (3, n)] {
            begin(&w, op);
            outs.push(do_send(&w, &mut t, op, n, None));
        }
        judge_sequence(cx, &w);
        see_session(cx, &w, &outs);
    }));
    Check { jobs, rule: "one execution = one history of operations with one assignment of replies; distinct = different wire trace, deliveries or outcomes" }
}

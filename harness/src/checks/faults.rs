//! C07 faults, ends of stream and malformed replies.

use super::sends::{at_place, Place, PLACES};
use super::session::*;
use super::*;
use crate::refs::*;
use crate::server::Rec;

fn judge_fault(cx: &mut Cx, x: &Run, what: &str) {
    let g = lock(&x.w);
    let hit = g.fault_ops.clone();
    drop(g);
    for (op, o) in &x.outs {
        if matches!(o, Out::Livelock) {
            return cx.bad("livelock", format!("{what}: operation {op} goes on without progress"));
        }
        if hit.contains(op) && !o.is_err() {
            return cx.bad("no-error", format!("{what}: operation {op} gave {o:?}"));
        }
    }
}

fn all_faults() -> Vec<(Fault, bool)> {
    let mut v = vec![];
    for k in 0..FEW {
        v.push((Fault::Err(k), false));
        v.push((Fault::Err(k), true));
    }
    v.push((Fault::Zero, false));
    v.push((Fault::Zero, true));
    v.push((Fault::Eof, true));
    v
}

pub fn c07(tier: Tier) -> Check {
    let mut jobs = vec![];
    for s in scenarios() {
        for pipe in [false, true] {
            // a. a fault at each I/O call
            let s1 = s.clone();
            jobs.push(job(format!("fault/{}/{pipe}", s.name), 0, move |cx| {
                let (f, sticky) = cx.ch.of(&all_faults());
                // coarse or byte-wise I/O, so that faults fall between and inside of replies
                let chunk = cx.ch.of(&[None, Some(1usize), Some(7)]);
                let pend_always = chunk == Some(7);
                let mut k = 0;
                loop {
                    let env = Env { fault_at: Some((k, f)), fault_sticky: sticky, read_chunk: chunk, write_chunk: chunk, pend_always, ..Default::default() };
                    let x = run_until(cx, &s1, pipe, env, 3, false, |w, _| !sticky && lock(w).fault.is_some());
                    let hit = lock(&x.w).fault;
                    let Some((_, io, _)) = hit else { break };
                    // Zero is "no byte accepted" for writes; for reads and flushes the kinds above cover it
                    if f != Fault::Zero || io == Io::Write {
                        cx.eval(true);
                        cx.note = format!("{} pipelining {pipe}: {f:?} (sticky {sticky}) at I/O call {k} ({io:?}), chunks {chunk:?}", s1.name);
                        judge_fault(cx, &x, "fault");
                        cx.see(&x.outs.iter().map(|o| o.1.class()).collect::<Vec<_>>());
                        if !cx.ok() {
                            return;
                        }
                    }
                    k += 1;
                }
                cx.see(&k);
            }));
            // the same for every other kind of error
            let s1 = s.clone();
            jobs.push(job(format!("kinds/{}/{pipe}", s.name), 0, move |cx| {
                let sticky = cx.ch.flag();
                for f in (FEW..KINDS.len() as u8).map(Fault::Err) {
                    for k in 0.. {
                        let env = Env { fault_at: Some((k, f)), fault_sticky: sticky, ..Default::default() };
                        let x = run_until(cx, &s1, pipe, env, 3, false, |w, _| !sticky && lock(w).fault.is_some());
                        let hit = lock(&x.w).fault;
                        let Some((_, io, _)) = hit else { break };
                        cx.eval(true);
                        cx.note = format!("{} pipelining {pipe}: {f:?} (sticky {sticky}) at I/O call {k} ({io:?})", s1.name);
                        judge_fault(cx, &x, "fault");
                        if !cx.ok() {
                            return;
                        }
                    }
                }
            }));
            // b. two one-time faults in a row cannot be told from one; a fault under splits
            let s1 = s.clone();
            if s.short {
                jobs.push(job(format!("split-fault/{}/{pipe}", s.name), 2, move |cx| {
                    let env = Env { dev_split: true, dev_fault: true, fault_sticky: true, ..Default::default() };
                    let x = run(cx, &s1, pipe, env, 0, false);
                    cx.note = format!("{} pipelining {pipe}: a lasting fault and a split, {:?}", s1.name, lock(&x.w).fault);
                    judge_fault(cx, &x, "fault");
                    cx.see(&x.outs.iter().map(|o| o.1.class()).collect::<Vec<_>>());
                }));
            }
            // c. the server's stream ends after every possible number of bytes
            let s1 = s.clone();
            jobs.push(job(format!("eof/{}/{pipe}", s.name), 0, move |cx| {
                let base = run(&mut Cx::default(), &s1, pipe, Env::default(), 3, false);
                let total = lock(&base.w).s2c.len();
                let brec = rec(&base.w);
                let rd = cx.ch.of(&[None, Some(1usize), Some(3)]);
                for at in 0..total {
                    let x = run(cx, &s1, pipe, Env { eof_at: Some(at), read_chunk: rd, ..Default::default() }, 3, false);
                    cx.eval(true);
                    cx.note = format!("{} pipelining {pipe}: the server's stream ends after {at} of {total} bytes", s1.name);
                    for (op, o) in &x.outs {
                        if matches!(o, Out::Hang(_) | Out::Livelock) {
                            return cx.bad("hang", format!("operation {op} gave {o:?}"));
                        }
                        // last reply this operation needs
                        let need = brec.cmds.iter().filter(|c| c.op == *op).map(|c| c.rep_end).max();
                        let need = if *op == 0 { need.max(Some(brec.greeting_end)) } else { need };
                        if o.is_ok() && need.is_some_and(|n| n > at) {
                            return cx.bad("no-error", format!("operation {op} gave {o:?}, its replies end at {need:?}"));
                        }
                        cx.see(&o.class());
                    }
                    if !cx.ok() {
                        return;
                    }
                }
            }));
            // d. writing fails after every possible number of bytes
            let s1 = s.clone();
            jobs.push(job(format!("cut/{}/{pipe}", s.name), 0, move |cx| {
                let base = run(&mut Cx::default(), &s1, pipe, Env::default(), 3, false);
                let total = lock(&base.w).written.len();
                for at in 0..total {
                    let x = run(cx, &s1, pipe, Env { cut_write_at: Some(at), ..Default::default() }, 3, false);
                    cx.eval(true);
                    cx.note = format!("{} pipelining {pipe}: writing fails after {at} of {total} bytes", s1.name);
                    judge_fault(cx, &x, "failing writes");
                    cx.see(&x.outs.iter().map(|o| o.1.class()).collect::<Vec<_>>());
                    if !cx.ok() {
                        return;
                    }
                }
            }));
            // e. the server dies after every possible number of bytes received
            let s1 = s.clone();
            jobs.push(job(format!("death/{}/{pipe}", s.name), 0, move |cx| {
                let base = run(&mut Cx::default(), &s1, pipe, Env::default(), 3, false);
                let total = lock(&base.w).written.len();
                let lose = cx.ch.flag();
                for at in 0..total {
                    let x = run(cx, &s1, pipe, Env { server_dies_at: Some((at, lose)), ..Default::default() }, 3, false);
                    cx.eval(true);
                    cx.note = format!("{} pipelining {pipe}: the server dies after {at} of {total} bytes", s1.name);
                    let r = rec(&x.w);
                    for (op, o) in &x.outs {
                        if matches!(o, Out::Hang(_) | Out::Livelock) {
                            return cx.bad("hang", format!("operation {op} gave {o:?}"));
                        }
                        if let (true, Some(SOp::Send(..))) = (o.is_ok(), op.checked_sub(1).and_then(|k| s1.ops.get(k))) {
                            if !r.deliveries.iter().any(|d| d.op == *op && d.accepted) {
                                return cx.bad("no-error", format!("operation {op} gave {o:?}, the message never arrived"));
                            }
                        }
                        cx.see(&o.class());
                    }
                }
            }));
        }
    }
    // after anything else that may have happened on the connection
    for s in scenarios() {
        if !matches!(s.name, "send" | "login" | "starttls" | "xoauth2") {
            continue;
        }
        jobs.push(job(format!("after/{}", s.name), 0, move |cx| {
            let prior = any_prior(cx, 20);
            let pipe = cx.ch.flag();
            let (f, sticky) = cx.ch.of(&[(Fault::Err(0), false), (Fault::Err(3), true), (Fault::Zero, true), (Fault::Eof, true)]);
            let chunk = cx.ch.of(&[None, Some(7usize)]);
            for k in 0.. {
                let env = Env { fault_at: Some((k, f)), fault_sticky: sticky, read_chunk: chunk, write_chunk: chunk, ..Default::default() };
                let x = run_until(cx, &s, pipe, env, 3, false, |w, _| !sticky && lock(w).fault.is_some());
                let hit = lock(&x.w).fault;
                let Some((_, io, _)) = hit else { break };
                if f != Fault::Zero || io == Io::Write {
                    cx.eval(true);
                    cx.note = format!("{prior}{} pipelining {pipe}: {f:?} (sticky {sticky}) at I/O call {k} ({io:?}), chunks {chunk:?}", s.name);
                    judge_fault(cx, &x, "fault");
                    cx.see(&x.outs.iter().map(|o| o.1.class()).collect::<Vec<_>>());
                    if !cx.ok() {
                        return;
                    }
                }
            }
        }));
    }
    // f. malformed answers in every place
    const AL: [&[u8]; 14] = [b"2", b"5", b"0", b"50", b"250", b"354", b"334", b"-", b" ", b"x", b"\r\n", b"\xff", b"\0", b"\xc3\xbc"];
    for place in PLACES.into_iter().chain([Place::Rset]) {
        let len = tier.pick(3usize, 4);
        jobs.push(job(format!("malformed/{place:?}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let tail = cx.ch.pick(3); // nothing + close, CRLF + close, CRLF + the session goes on
            for l in 0..=len {
                for i in 0..AL.len().pow(l as u32) {
                    let mut b: Vec<u8> = word(&AL, l, i).concat();
                    if tail > 0 {
                        b.extend_from_slice(b"\r\n");
                    }
                    malformed(cx, place, pipe, b, tail < 2);
                    if !cx.ok() {
                        return;
                    }
                }
            }
        }));
        jobs.push(job(format!("malformed-lines/{place:?}"), 0, move |cx| {
            const L: [&str; 16] = ["250-a", "250 b", "250", "251-a", "251 c", "550-x", "550 y", "", "2500 z", "25 w", "25O q", "650 v", "160 u", "260 t", "\u{ff12}50 s", "250\tr"];
            let pipe = cx.ch.flag();
            let close = cx.ch.flag();
            for l in 1..=3usize {
                for i in 0..L.len().pow(l as u32) {
                    let b = word(&L, l, i).iter().map(|l| format!("{l}\r\n")).collect::<String>().into_bytes();
                    malformed(cx, place, pipe, b, close);
                    if !cx.ok() {
                        return;
                    }
                }
            }
        }));
        // every byte at every position of a short answer
        jobs.push(job(format!("malformed-bytes/{place:?}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            for base in [&b"250-ab\r\n250 cd\r\n"[..], b"550 no\r\n", b"250\r\n"] {
                for pos in 0..base.len() {
                    for x in 0..=255u8 {
                        let mut b = base.to_vec();
                        b[pos] = x;
                        malformed(cx, place, pipe, b, true);
                        if !cx.ok() {
                            return;
                        }
                    }
                }
                for cut in 0..base.len() {
                    malformed(cx, place, pipe, base[..cut].to_vec(), true);
                }
            }
        }));
    }
    Check { jobs, rule: "one case = one session with one fault (kind, call), one end of stream, one cut of writing or one malformed answer; non-trivial = the fault was handed to the client, or the answer is no reply" }
}

/// Is the end of a reply (a line whose code is not followed by a hyphen) still to come?  The client
/// may wait for it before it judges the lines before.
fn may_continue(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while let Some(e) = find_crlf(&b[i..]) {
        let l = &b[i..i + e];
        if l.len() < 4 || l[3] != b'-' || ref_reply(&format!("{} \r\n", &s[i..i + 3])).is_none() {
            return false;
        }
        i += e + 2;
    }
    // the unfinished line may still become anything if it is a prefix of a line
    true
}

fn malformed(cx: &mut Cx, place: Place, pipe: bool, b: Vec<u8>, close: bool) {
    let text = String::from_utf8(b.clone()).ok();
    // A bare CR or LF has no specified meaning.
    let bare = (0..b.len()).any(|i| b[i] == b'\n' && (i == 0 || b[i - 1] != b'\r') || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'));
    let valid = match &text {
        // Invalid UTF-8: a reply all the same if its code and line structure are right; not judged
        // unless the beginning is no reply either.
        None => ref_reply(&b.iter().map(|c| if *c < 128 { *c as char } else { '?' }).collect::<String>()).is_some(),
        Some(t) => ref_reply(t).is_some(),
    };
    let undecided = text.as_deref().is_none_or(may_continue);
    if !close && (undecided || valid) {
        return;
    }
    let mut a = raw(&b);
    a.close = close;
    let (w, o) = at_place(cx, place, pipe, &a, Env::default());
    let judged = !valid && !bare;
    cx.eval(judged);
    cx.note = format!("{place:?} answered {:?}, then {}, pipelining {pipe}", show(&b), if close { "closed" } else { "open" });
    cx.see(&o.class());
    if matches!(o, Out::Livelock) || close && matches!(o, Out::Hang(_)) {
        return cx.bad("hang", format!("{o:?}"));
    }
    let sent = place == Place::Greeting || rec(&w).cmds.iter().any(|c| c.code == 0);
    if judged && sent && !o.is_err() {
        cx.bad("no-error", format!("{o:?}"));
    }
}

// ---------------------------------------------------------------------------------------------

/// Every I/O error: (form, number).
fn all_errors() -> Vec<(u8, u8)> {
    let mut v = vec![];
    for form in 0..3 {
        v.extend((0..KINDS.len() as u8).map(|k| (form, k)));
    }
    // system error numbers but for EINTR and EAGAIN
    v.extend((1..=133u8).filter(|k| *k != 4 && *k != 11).map(|k| (3, k)));
    v
}

fn judge_cause(cx: &mut Cx, err: (u8, u8), o: &Out, what: &str) {
    let want = io_error(err.0, err.1);
    let seen = take_seen();
    let ok = match (o, &seen) {
        (Out::Fail(_), Some((e, chain, text))) => *e == io_seen(&want) && chain.contains(e) && text.contains(&want.to_string()),
        _ => false,
    };
    if !ok {
        cx.bad("cause", format!("{what} failed with {:?}; the operation gave {o:?}, its I/O error {seen:?}", io_seen(&want)));
    }
}

/// One fault at I/O call `k`. False: the session has no such call.
fn cause_at(cx: &mut Cx, s: &Sc, base: &Rec, pipe: bool, err: (u8, u8), k: usize, chunk: Option<usize>, prior: &str) -> bool {
    let env = Env { fault_at: Some((k, Fault::Err(err.1))), err_form: err.0, read_chunk: chunk, write_chunk: chunk, ..Default::default() };
    take_seen();
    let x = run_until(cx, s, pipe, env, 3, false, |w, _| lock(w).fault.is_some());
    let g = lock(&x.w);
    let Some((_, io, _)) = g.fault else { return false };
    let (op, (consumed, _)) = (g.fault_op, g.fault_when);
    drop(g);
    cx.eval(true);
    cx.note = format!("{prior}{} pipelining {pipe}: error {:?} at I/O call {k} ({io:?}), chunks {chunk:?}", s.name, io_seen(&io_error(err.0, err.1)));
    let Some((last, o)) = x.outs.last() else { return true };
    cx.see(&o.class());
    if *last != op {
        return true; // the operation did not notice: C07
    }
    let r = rec(&x.w);
    // It had failed already: with a rejection, or because the login was given up.
    let rejected = r.cmds.iter().any(|c| c.op == op && is_neg(c.code) && c.rep_end <= consumed);
    let given_up = prior.is_empty() && base.cmds.iter().any(|c| c.op == op && c.line == b"*" && c.rep_start <= consumed);
    if rejected || given_up {
        if o.is_rej() && !r.cmds.iter().any(|c| c.op == op && is_rejection(o, c)) {
            cx.bad("cause", format!("operation {op} reports {o:?}, which the server did not say"));
        }
        return true;
    }
    judge_cause(cx, err, o, "an I/O call");
    true
}

pub fn c26(tier: Tier) -> Check {
    let mut jobs = vec![];
    for s in scenarios() {
        for pipe in [false, true] {
            let s1 = s.clone();
            jobs.push(job(format!("cause/{}/{pipe}", s.name), 0, move |cx| {
                let base = rec(&run(&mut Cx::default(), &s1, pipe, Env::default(), 3, false).w);
                let chunk = if tier == Tier::Thorough { cx.ch.of(&[None, Some(1usize), Some(7), Some(2), Some(30)]) } else { cx.ch.of(&[None, Some(7usize)]) };
                for err in all_errors() {
                    let mut k = 0;
                    while cause_at(cx, &s1, &base, pipe, err, k, chunk, "") && cx.ok() {
                        k += 1;
                    }
                    if !cx.ok() {
                        return;
                    }
                }
            }));
        }
        // after anything else that may have happened on the connection
        if matches!(s.name, "send" | "login" | "starttls" | "send-quit") {
            jobs.push(job(format!("after/{}", s.name), 0, move |cx| {
                let prior = any_prior(cx, 20);
                let pipe = cx.ch.flag();
                let err = cx.ch.of(&[(0u8, 3u8), (1, 2), (2, 23), (3, 104), (0, 34)]);
                let base = Rec::default();
                let mut k = 0;
                while cause_at(cx, &s, &base, pipe, err, k, None, &prior) && cx.ok() {
                    k += 1;
                }
            }));
        }
    }
    // the message source fails
    for (mi, m) in [&b""[..], b"one line\r\n", b".\r\n..\r\n\xff", &[b'y'; 9000]].into_iter().enumerate() {
        jobs.push(job(format!("source/{mi}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let chunk = cx.ch.of(&[None, Some(1usize), Some(4096)]);
            let pend_always = cx.ch.flag();
            let before = cx.ch.pick(2);
            let step = 1 + m.len() / 20;
            for err in all_errors() {
                let mut at = 0;
                while at <= m.len() {
                    for after_fail in 0..3 {
                        let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, accept_all()));
                        let (t, o) = connect(&w, async_smtp::SmtpClient::new());
                        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                        begin(&w, 1);
                        if before == 1 {
                            send(&w, &mut t, envelope(None, &["a@b.c"]), &Body::Bytes(m.to_vec()), None);
                        }
                        begin(&w, 2);
                        take_seen();
                        let cfg = SrcCfg { chunk, pend_always, fail_at: Some((at, err.1)), err_form: err.0, after_fail, ..Default::default() };
                        let o = send(&w, &mut t, envelope(None, &["a@b.c"]), &Body::Reader(m.to_vec(), cfg), None);
                        cx.eval(true);
                        cx.note = format!("pipelining {pipe}: a message of {} bytes whose source fails after {at} ({chunk:?}, then {after_fail}) with {:?}", m.len(), io_seen(&io_error(err.0, err.1)));
                        cx.see(&o.class());
                        judge_cause(cx, err, &o, "the source");
                        if !cx.ok() {
                            return;
                        }
                        if m.len() > 100 {
                            break;
                        }
                    }
                    at += step;
                }
            }
        }));
    }
    Check { jobs, rule: "one case = one session with one I/O error (form, kind or number, place) of the connection or of a message source" }
}

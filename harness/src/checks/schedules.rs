//! C06 independence of segmentation and timing, C22 ordering of commands and replies.

use super::history::{body, free_policy, rcpts, sender};
use super::session::*;
use super::*;
use crate::refs::*;
use async_smtp::authentication::Mechanism;
use async_smtp::SmtpClient;
use std::sync::OnceLock;

fn same(cx: &mut Cx, base: &(Vec<u8>, String), got: &(Vec<u8>, String)) {
    if base.0 != got.0 {
        let k = base.0.iter().zip(&got.0).take_while(|(a, b)| a == b).count();
        cx.bad("bytes", format!("bytes written differ from offset {k} on: {:?} against {:?} undisturbed", show(&got.0[k..]), show(&base.0[k..])));
    } else if base.1 != got.1 {
        cx.bad("outcome", format!("{} against {} undisturbed", got.1, base.1));
    }
}

struct Fixed {
    s: Sc,
    pipe: bool,
    base: OnceLock<(Vec<u8>, String)>,
}
impl Fixed {
    fn base(&self) -> &(Vec<u8>, String) {
        self.base.get_or_init(|| run(&mut Cx::default(), &self.s, self.pipe, Env::default(), 0, false).observation())
    }
}

fn big(kind: usize) -> &'static [u8] {
    static B: [OnceLock<Vec<u8>>; 5] = [const { OnceLock::new() }; 5];
    B[kind].get_or_init(|| match kind {
        0 => (0..20_000).flat_map(|i| format!(".line {i} of it\r\n").into_bytes()).collect(),
        1 => {
            let mut v = vec![b'z'; 70_001];
            for k in [31usize, 32, 63, 64, 511, 4095, 4096, 8191, 8192, 16_383, 32_767, 65_535] {
                v[k] = b'\r';
                v[k + 1] = b'\n';
                v[k + 2] = b'.';
            }
            v
        }
        2 => b"\r\n.".repeat(12_000),
        // nothing to be escaped for a long way
        3 => (0..30_000).flat_map(|i| format!("line {i} of it\r\n").into_bytes()).collect(),
        _ => (0..1_500_000u32).map(|i| b'0' + (i % 61) as u8).collect(),
    })
}

pub fn c06(tier: Tier) -> Check {
    let mut jobs = vec![];
    for s in scenarios() {
        for pipe in [false, true] {
            let f = Arc::new(Fixed { s: s.clone(), pipe, base: OnceLock::new() });
            let depth = if s.short { tier.pick(2, 3) } else { tier.pick(1, 2) };
            // Every placement of up to `depth` splits, short writes and delays.
            let g = f.clone();
            jobs.push(job(format!("placed/{}/{pipe}", s.name), depth, move |cx| {
                let env = Env { dev_split: true, dev_short: true, dev_pend: true, ..Default::default() };
                let o = run(cx, &g.s, g.pipe, env, 0, true).observation();
                cx.note = format!("{} pipelining {} with up to {depth} splits, short writes or delays", g.s.name, g.pipe);
                cx.see(&o);
                same(cx, g.base(), &o);
            }));
            // The same on top of one-byte reads and writes, or with delays before each call.
            let g = f.clone();
            jobs.push(job(format!("bytewise/{}/{pipe}", s.name), tier.pick(1, 2), move |cx| {
                let pend = cx.ch.flag();
                let env = Env { read_chunk: Some(1), write_chunk: Some(1), dev_pend: !pend, pend_always: pend, ..Default::default() };
                let o = run(cx, &g.s, g.pipe, env, 1, true).observation();
                cx.note = format!("{} pipelining {} byte by byte", g.s.name, g.pipe);
                cx.see(&o);
                same(cx, g.base(), &o);
            }));
            // Uniform chunk sizes of reads, writes and the message source.
            let g = f.clone();
            jobs.push(job(format!("uniform/{}/{pipe}", s.name), 0, move |cx| {
                let max = tier.pick(40usize, 120);
                let wr = cx.ch.of(&[None, Some(1), Some(2), Some(3), Some(5), Some(17), Some(64)]);
                let pend_always = cx.ch.flag();
                let write_back = cx.ch.flag();
                for rd in 1..=max {
                    for uni in [rd, (rd * 7) % 64 + 1] {
                        cx.eval(true);
                        let env = Env { read_chunk: Some(rd), write_chunk: wr, pend_always, write_back, ..Default::default() };
                        let o = run(cx, &g.s, g.pipe, env, uni, false).observation();
                        cx.note = format!("{} pipelining {}: reads of {rd}, writes of {wr:?}, source chunks {uni}, delays {pend_always}, write-back {write_back}", g.s.name, g.pipe);
                        cx.see(&o);
                        same(cx, g.base(), &o);
                        if !cx.ok() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // large messages and many recipients
    for kind in 0..5usize {
        for pipe in [false, true] {
            let s = Sc { name: "big", ops: vec![SOp::Send(if kind < 3 { 120 } else { 2 }, big(kind), Some(SrcKind::Uniform)), SOp::Quit], plan: vec![(1, Kind::Rcpt, 7, vl(251, &["{}", "forwarded"]))], raws: vec![], greeting: None, no_greeting: false, after_tls: b"", short: false };
            let f = Arc::new(Fixed { s, pipe, base: OnceLock::new() });
            jobs.push(job(format!("big{kind}/{pipe}"), 0, move |cx| {
                let uni = if kind < 3 { cx.ch.of(&[0usize, 1, 2, 3, 31, 32, 33, 64, 100, 511, 512, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 50_000]) } else { cx.ch.of(&[0usize, 1000, 4096, 8192, 65_536, 100_000]) };
                let (rd, wr) = if kind < 3 {
                    let k = cx.ch.pick(tier.pick(4, 6));
                    ([None, Some(1), Some(7), Some(8192), Some(100), Some(64)][k], [None, Some(1000), Some(1), Some(4096), Some(8191), Some(3)][k])
                } else {
                    // as sockets do it: large pieces, none of them all of it
                    (None, Some(cx.ch.of(&[512usize, 1448, 4096, 8192, 16_384, 65_535, 65_536, 131_072, 212_992, 300_001])))
                };
                let k = if wr == Some(1000) { 1 } else { 0 };
                let env = Env { read_chunk: rd, write_chunk: wr, pend_always: uni % 2 == 0 && k == 1, write_back: uni % 3 == 0, ..Default::default() };
                let o = run(cx, &f.s, f.pipe, env, uni, false).observation();
                cx.note = format!("large message {kind}: source chunks {uni}, reads {rd:?}, writes {wr:?}");
                cx.see(&o);
                same(cx, f.base(), &o);
            }));
        }
    }
    Check { jobs, rule: "one execution = one session under one placement of splits, short writes and delays (or one uniform setting), compared with the undisturbed session; distinct = different observation" }
}

// ---------------------------------------------------------------------------------------------

/// Every byte of every command against the replies consumed when it was written.
fn ordered(cx: &mut Cx, w: &W, ahead: bool) {
    let g = lock(w);
    let Some(sv) = &g.server else { return };
    let r = sv.rec();
    let mut bad = None;
    for (i, c) in r.cmds.iter().enumerate().skip(1) {
        // the last command whose reply this one has to wait for
        let mut dep = i - 1;
        if ahead && c.kind == Kind::Rcpt {
            // recipients may follow the sender and earlier recipients of the same email at once
            while dep > 0 && r.cmds[dep].kind == Kind::Rcpt && r.cmds[dep].op == c.op {
                dep -= 1;
            }
            if r.cmds[dep].kind == Kind::Mail && r.cmds[dep].op == c.op {
                if dep == 0 {
                    continue;
                }
                dep -= 1;
            } else {
                dep = i - 1;
            }
        }
        let need = r.cmds[dep].rep_end;
        if c.end == c.start {
            continue;
        }
        let at = g.consumed_when_written(c.start).unwrap_or(0);
        if at < need {
            bad = Some(format!(
                "{:?} {:?} (operation {}) was sent after {at} bytes of replies were read; the reply to {:?} {:?} ends at {need}",
                c.kind,
                show(&c.line),
                c.op,
                r.cmds[dep].kind,
                show(&r.cmds[dep].line)
            ));
            break;
        }
    }
    // bytes of a command or message that is not complete yet
    if bad.is_none() {
        if let Some(l) = r.cmds.last() {
            if g.written.len() > l.end {
                let at = g.consumed_when_written(l.end).unwrap_or(0);
                let rcpt = ahead && matches!(l.kind, Kind::Mail | Kind::Rcpt);
                if at < l.rep_end && !rcpt {
                    bad = Some(format!("{:?} was sent after {at} bytes of replies; the reply to {:?} ends at {}", show(&g.written[l.end..]), l.kind, l.rep_end));
                }
            }
        }
    }
    drop(g);
    if let Some(b) = bad {
        cx.bad("ran-ahead", format!("pipelining {ahead}: {b}"));
    }
}

fn history(cx: &mut Cx, depth: usize, alts: usize, env: Env, hold: usize) {
    let offer = cx.ch.flag();
    let enable = !offer || cx.ch.flag();
    let mut s = Strict::new(ext(offer), true, free_policy(alts));
    s.hold = if offer && enable { hold } else { 0 };
    let w = strict(&cx.ch, env, s);
    let (t, o) = connect(&w, SmtpClient::new().pipelining(enable));
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    let c = creds("alice", "wonderland");
    let mut note = vec![];
    let mut outs = vec![];
    for op in 1..=depth {
        begin(&w, op);
        let k = cx.ch.pick(if op == depth { 7 } else { 5 });
        let o = match k {
            0..=2 => {
                let n = [1, 2, 3][k];
                let to = rcpts(op, n);
                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                send(&w, &mut t, envelope(Some(&sender(op)), &tr), &Body::Bytes(body(op)), None)
            }
            3 => auth(&w, &mut t, Mechanism::Login, &c),
            4 => try_login(&w, &mut t, &c, &[Mechanism::Plain]),
            5 => quit(&w, &mut t),
            _ => {
                let (_, o) = starttls(&w, t);
                outs.push(o.clone());
                note.push(format!("starttls -> {}", o.class()));
                break;
            }
        };
        note.push(format!("{k} -> {}", o.class()));
        let dead = matches!(o, Out::Hang(_) | Out::Livelock);
        outs.push(o);
        if dead {
            break;
        }
    }
    cx.note = format!("pipelining offered {offer} enabled {enable}: {}", note.join("; "));
    ordered(cx, &w, offer && enable);
    see_session(cx, &w, &outs);
}

pub fn c22(tier: Tier) -> Check {
    let mut jobs = vec![];
    for depth in 1..=tier.pick3(2usize, 3, 4) {
        jobs.push(job(format!("free{depth}"), 0, move |cx| history(cx, depth, 2, Env::default(), 0)));
    }
    jobs.push(job("free1/4", 0, |cx| history(cx, 1, 4, Env::default(), 0)));
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let rd = cx.ch.of(&[None, Some(3usize)]);
        history(cx, 1, 2, Env { read_chunk: rd, ..Default::default() }, 0);
        cx.note = format!("{what}{}", cx.note);
    }));
    jobs.push(job("after/held", 0, |cx| {
        any_prior(cx, 99);
        history(cx, 1, 2, Env::default(), 2)
    }));
    // under placed splits, short writes and delays
    for s in scenarios() {
        for pipe in [false, true] {
            let s = s.clone();
            let d = if s.short { tier.pick(1, 2) } else { tier.pick(1, 2) };
            jobs.push(job(format!("placed/{}/{pipe}", s.name), d, move |cx| {
                let env = Env { dev_split: true, dev_short: true, dev_pend: true, ..Default::default() };
                let x = run(cx, &s, pipe, env, 0, true);
                cx.note = format!("{} pipelining {pipe}", s.name);
                ordered(cx, &x.w, pipe);
                cx.see(&x.observation());
            }));
        }
    }
    for (k, env) in [
        Env { read_chunk: Some(1), ..Default::default() },
        Env { read_chunk: Some(2), write_chunk: Some(1), pend_always: true, ..Default::default() },
        Env { write_back: true, read_chunk: Some(5), ..Default::default() },
        Env { c2s_cap: Some(4096), s2c_cap: Some(3), ..Default::default() },
    ]
    .into_iter()
    .enumerate()
    {
        jobs.push(job(format!("awkward{k}"), 0, move |cx| history(cx, tier.pick3(1, 2, 3), 2, env.clone(), 0)));
    }
    // replies to the pipelined group held back until all of it (here: the sender and one
    // recipient) has arrived
    jobs.push(job("held", 0, |cx| {
        let w = 2; // every email has at least one recipient
        history(cx, 1, 2, Env::default(), w)
    }));
    // any number of recipients, any one of them rejected, then another email
    for pipe in [false, true] {
        for part in 0..4usize {
            jobs.push(job(format!("wide/{pipe}/{part}"), 0, move |cx| {
                for n in (1..=tier.pick3(40usize, 100, 400)).chain([64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1024]) {
                    if n % 4 != part {
                        continue;
                    }
                    for rej in [None, Some(0), Some(n / 2), Some(n - 1)] {
                        for rd in [None, Some(11)] {
                            let p = plan();
                            if let Some(i) = rej {
                                set(&p, 1, Kind::Rcpt, i, vl(550, &["{}", "no"]));
                            }
                            let w = strict(&cx.ch, Env { read_chunk: rd, ..Default::default() }, Strict::new(ext(pipe), true, plan_policy(&p)));
                            let (t, o) = connect(&w, SmtpClient::new());
                            let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                            for op in 1..=2 {
                                begin(&w, op);
                                let to = rcpts(op, n);
                                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                                let o = send(&w, &mut t, envelope(Some(&sender(op)), &tr), &Body::Bytes(body(op)), None);
                                cx.see(&o.class());
                                if matches!(o, Out::Hang(_) | Out::Livelock) {
                                    break;
                                }
                            }
                            cx.eval(true);
                            cx.note = format!("pipelining {pipe}, {n} recipients, rejected {rej:?}, reads of {rd:?}");
                            ordered(cx, &w, pipe);
                            if !cx.ok() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    Check { jobs, rule: "one execution = one history under one assignment of verdicts and one schedule; distinct = different wire trace or outcomes" }
}

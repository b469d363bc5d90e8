//! C14 nobody waits for each other for ever.

use super::history::{body, free_policy, rcpts, sender};
use super::session::*;
use super::*;
use async_smtp::authentication::Mechanism;
use async_smtp::SmtpClient;

fn judge(cx: &mut Cx, w: &W, o: &Out) {
    match o {
        Out::Hang(why) => {
            let g = lock(w);
            let d = format!("{why}; {} bytes written, {} taken by the server, {} of {} reply bytes read", g.written.len(), g.srv_taken, g.consumed, g.s2c.len() + g.pending_out.len());
            drop(g);
            cx.bad("deadlock", d)
        }
        Out::Livelock => cx.bad("livelock", "the operation goes on without progress"),
        _ => {
            if lock(w).blocked_unflushed {
                cx.bad("unflushed", "waited for a reply while written bytes were not flushed");
            }
        }
    }
}

fn history(cx: &mut Cx, depth: usize, offer: bool, env: Env) {
    let w = strict(&cx.ch, env, Strict::new(ext(offer), true, free_policy(2)));
    let (t, o) = connect(&w, SmtpClient::new());
    judge(cx, &w, &o);
    let Some(mut t) = t else { return };
    let c = creds("alice", "wonderland");
    let mut outs = vec![];
    let mut note = vec![];
    for op in 1..=depth {
        begin(&w, op);
        let k = cx.ch.pick(if op == depth { 8 } else { 6 });
        let o = match k {
            0 | 1 => {
                let to = rcpts(op, k + 1);
                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                send(&w, &mut t, envelope(Some(&sender(op)), &tr), &Body::Bytes(body(op)), None)
            }
            2 => {
                let b = Body::Reader(body(op), SrcCfg { chunk: Some(4), fail_at: Some((8, 4)), ..Default::default() });
                send(&w, &mut t, envelope(None, &["r@y"]), &b, None)
            }
            3 => auth(&w, &mut t, Mechanism::Login, &c),
            4 => auth(&w, &mut t, Mechanism::Plain, &c),
            5 => try_login(&w, &mut t, &c, &[Mechanism::Xoauth2]),
            6 => quit(&w, &mut t),
            _ => {
                let (_, o) = starttls(&w, t);
                note.push(format!("starttls -> {}", o.class()));
                judge(cx, &w, &o);
                outs.push(o);
                break;
            }
        };
        note.push(format!("{k} -> {}", o.class()));
        judge(cx, &w, &o);
        outs.push(o);
        if !cx.ok() {
            break;
        }
    }
    cx.note = format!("pipelining {offer}: {}", note.join("; "));
    see_session(cx, &w, &outs);
}

/// One connection with the given buffers and two sends of `n` recipients each.
fn sends(cx: &mut Cx, offer: bool, enable: bool, env: Env, lens: &[usize], from: usize, rej: &[(Kind, usize, u16, usize)]) {
    let p = plan();
    for (k, i, code, lines) in rej {
        let l: Vec<String> = (0..*lines).map(|i| format!("line {i} {{}}")).collect();
        set(&p, 1, *k, *i, V { code: *code, lines: l, close: false });
    }
    cx.eval(true);
    cx.note = format!(
        "pipelining offered {offer} enabled {enable}, {} recipients of {:?}.. bytes, sender of {from}, room for commands {:?} and replies {:?}, write-back {}, verdicts {rej:?}",
        lens.len(),
        lens.iter().take(3).collect::<Vec<_>>(),
        env.c2s_cap,
        env.s2c_cap,
        env.write_back
    );
    let w = strict(&cx.ch, env, Strict::new(ext(offer), true, plan_policy(&p)));
    let (t, o) = connect(&w, SmtpClient::new().pipelining(enable));
    judge(cx, &w, &o);
    let Some(mut t) = t else { return };
    let to: Vec<String> = lens.iter().enumerate().map(|(i, n)| format!("{i}{}", "x".repeat(n.saturating_sub(i.to_string().len())))).collect();
    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
    let f = "f".repeat(from);
    for op in 1..=2 {
        begin(&w, op);
        let o = send(&w, &mut t, envelope(if from == 0 { None } else { Some(&f) }, &tr), &Body::Bytes(body(op)), None);
        judge(cx, &w, &o);
        cx.see(&o.class());
        if !cx.ok() {
            return;
        }
    }
    let g = lock(&w);
    let h = (g.written.len(), g.consumed);
    drop(g);
    cx.see(&h);
}

pub fn c14(tier: Tier) -> Check {
    let mut jobs = vec![];
    // after anything else that may have happened on the connection
    // after an operation that was dropped, met a fault or got a malformed reply
    for how in 0..9usize {
        for first in 0..6usize {
            jobs.push(job(format!("cut{how}/{first}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let prior = cx.ch.pick(2);
                let then = [cx.ch.of(&[0usize, 1, 3, 4, 5]), cx.ch.of(&[0usize, 3, 5])];
                let mut k = 0;
                while super::history::cut_history(cx, prior, first, how, k, pipe, then, super::history::Judge::Hangs).is_some() && cx.ok() {
                    k += if first == 2 && k > 20 && k % 250 > 20 { tier.pick(61, 11) } else { 1 };
                }
            }));
        }
    }
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let offer = cx.ch.flag();
        let env = cx.ch.of(&[
            Env { write_back: true, ..Default::default() },
            Env { c2s_cap: Some(4096), s2c_cap: Some(1), ..Default::default() },
            Env { c2s_cap: Some(4096), s2c_cap: Some(40), write_back: true, ..Default::default() },
        ]);
        history(cx, 1, offer, env);
        cx.note = format!("{what}{}", cx.note);
    }));
    jobs.push(job("after/wide", 0, |cx| {
        let what = any_prior(cx, 99);
        let offer = cx.ch.flag();
        let n = cx.ch.of(&[60usize, 100, 250]);
        let len = cx.ch.of(&[10usize, 64]);
        let s2c = cx.ch.of(&[1usize, 64]);
        sends(cx, offer, true, Env { c2s_cap: Some(4096), s2c_cap: Some(s2c), ..Default::default() }, &vec![len; n], 9, &[]);
        cx.note = format!("{what}{}", cx.note);
    }));
    // a. every history with write-back buffering: all that is needed must have been flushed
    for offer in [false, true] {
        for depth in 1..=tier.pick(2usize, 3) {
            jobs.push(job(format!("write-back{depth}/{offer}"), 0, move |cx| history(cx, depth, offer, Env { write_back: true, ..Default::default() })));
            jobs.push(job(format!("write-back-chunks{depth}/{offer}"), 0, move |cx| {
                let wr = cx.ch.of(&[1usize, 3]);
                history(cx, depth.min(2), offer, Env { write_back: true, write_chunk: Some(wr), read_chunk: Some(wr), pend_always: wr == 1, ..Default::default() })
            }));
        }
        // b. every history with tiny buffers (without pipelining) or 4096 bytes (with)
        jobs.push(job(format!("tiny-history/{offer}"), 0, move |cx| {
            let c = if offer { 4096 } else { cx.ch.of(&[1usize, 2, 7, 64]) };
            let s = cx.ch.of(&[1usize, 2, 13]);
            let wb = cx.ch.flag();
            history(cx, tier.pick3(1, 2, 2), offer, Env { c2s_cap: Some(c), s2c_cap: Some(s), write_back: wb, ..Default::default() });
        }));
    }
    for s in scenarios() {
        for pipe in [false, true] {
            let s = s.clone();
            jobs.push(job(format!("session/{}/{pipe}", s.name), tier.pick(1, 2), move |cx| {
                let caps = cx.ch.of(&[(None, None), (Some(4096), Some(1)), (Some(4096), Some(17))]);
                let env = Env { write_back: true, dev_split: true, dev_short: true, dev_pend: true, c2s_cap: caps.0, s2c_cap: caps.1, ..Default::default() };
                let x = run(cx, &s, pipe, env, 0, true);
                cx.note = format!("{} pipelining {pipe}, buffers {caps:?}", s.name);
                // answers that never become a reply end with the connection, so nothing may block
                for (_, o) in &x.outs {
                    judge(cx, &x.w, o);
                }
                cx.see(&x.observation());
            }));
        }
    }
    // c. without pipelining: every pair of buffer sizes
    for part in 0..8usize {
        jobs.push(job(format!("buffers/{part}"), 0, move |cx| {
            let offer = cx.ch.flag();
            let wb = cx.ch.flag();
            let max = tier.pick3(40usize, 60, 150);
            for c in 1..=max {
                for s in 1..=max {
                    if (c + s) % 8 != part {
                        continue;
                    }
                    if !cx.ok() {
                        return;
                    }
                    let env = Env { c2s_cap: Some(c), s2c_cap: Some(s), write_back: wb, ..Default::default() };
                    sends(cx, offer, false, env, &[8, 30, 2], 6, &[(Kind::Mail, 0, 250, 1 + c % 3), (Kind::Rcpt, 1, 251, s % 4 + 1)]);
                }
            }
        }));
        // d. with pipelining: 4096 bytes for commands, any room for replies, any number of recipients
        jobs.push(job(format!("groups/{part}"), 0, move |cx| {
            let wb = cx.ch.flag();
            let s = cx.ch.of(&[1usize, 64, 4096]);
            let c = cx.ch.of(&[4096usize, 4097, 5000]);
            let ns = (1..=tier.pick3(320usize, 400, 1000)).step_by(tier.pick3(3, 2, 1)).chain([999, 1000, 1001, 2000, 5000]);
            for n in ns {
                if n % 8 != part {
                    continue;
                }
                for rej in [&[][..], &[(Kind::Mail, 0, 550, 1)], &[(Kind::Rcpt, 0, 550, 3)]] {
                    if !cx.ok() {
                        return;
                    }
                    let env = Env { c2s_cap: Some(c), s2c_cap: Some(s), write_back: wb, ..Default::default() };
                    sends(cx, true, true, env, &vec![4 + (n * 7) % 60; n], n % 70, rej);
                }
            }
        }));
    }
    // e. lengths around every multiple of the limit
    jobs.push(job("edges", 0, move |cx| {
        let s = cx.ch.of(&[1usize, 300]);
        let wb = cx.ch.flag();
        let k = 1 + cx.ch.pick(3);
        for last in 3950..4100usize {
            for from in [0usize, 10, 4000, 4070, 4090, 5000] {
                if !cx.ok() {
                    return;
                }
                let mut lens = vec![30; k];
                lens.push(last);
                lens.push(20);
                lens.push(4200);
                lens.push(1);
                sends(cx, true, true, Env { c2s_cap: Some(4096), s2c_cap: Some(s), write_back: wb, ..Default::default() }, &lens, from, &[]);
            }
        }
    }));
    // f. long replies to each command of a group
    jobs.push(job("long-replies", 0, move |cx| {
        let n = cx.ch.of(&[1usize, 3, 90, 200]);
        let lines = cx.ch.of(&[1usize, 10, 400]);
        let s = cx.ch.of(&[1usize, 100, 5000]);
        let code = cx.ch.of(&[250u16, 550]);
        let at = cx.ch.of(&[0usize, 1, 50]);
        let c = if cx.ch.flag() { Some(4096) } else { None };
        let mut rej = vec![(Kind::Rcpt, at.min(n - 1), code, lines), (Kind::Content, 0, code, lines)];
        if at == 0 {
            rej.push((Kind::Mail, 0, code, lines));
        }
        sends(cx, true, true, Env { c2s_cap: c, s2c_cap: Some(s), ..Default::default() }, &vec![20; n], 9, &rej);
    }));
    // g. large content through small buffers
    jobs.push(job("content", 0, move |cx| {
        let c = cx.ch.of(&[1usize, 2, 3, 100, 4096]);
        let s = cx.ch.of(&[1usize, 5]);
        let wb = cx.ch.flag();
        let n = cx.ch.of(&[0usize, 1, 2, 3, 4095, 4096, 4097, 30_000]);
        let offer = c == 4096;
        let w = strict(&cx.ch, Env { c2s_cap: Some(c), s2c_cap: Some(s), write_back: wb, ..Default::default() }, Strict::new(ext(offer), true, accept_all()));
        let (t, o) = connect(&w, SmtpClient::new());
        judge(cx, &w, &o);
        let Some(mut t) = t else { return };
        begin(&w, 1);
        let b: Vec<u8> = b"\r\n.".iter().copied().cycle().take(n).collect();
        let o = send(&w, &mut t, envelope(Some("s@x"), &["r@y"]), &Body::Bytes(b), None);
        cx.note = format!("content of {n} bytes, buffers {c} and {s}, write-back {wb}");
        judge(cx, &w, &o);
        let o = quit(&w, &mut t);
        judge(cx, &w, &o);
        see_session(cx, &w, &[o]);
    }));
    Check { jobs, rule: "one case = one closed client-server system run to completion (or to the state where neither side can move); distinct = different wire trace or outcomes, or another configuration" }
}

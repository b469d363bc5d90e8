//! C03 truth of a send's outcome, C09 extensions, C20 classification of rejections.

use super::*;
use crate::refs::*;
use async_smtp::authentication::Mechanism;
use async_smtp::SmtpClient;

const MARK: &[u8] = b"MARKER-content-of-the-message";

/// Judges one send against what the server recorded for operation `op`.
pub fn judge_send(cx: &mut Cx, w: &W, op: usize, from: &str, to: &[String], body: &[u8], o: &Out) {
    let r = rec(w);
    let mine: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op).collect();
    let chain: Vec<&&Cmd> = mine.iter().filter(|c| matches!(c.kind, Kind::Mail | Kind::Rcpt | Kind::Data | Kind::Content)).collect();
    let first_rej = chain.iter().find(|c| is_neg(c.code));
    let early_rej = chain.iter().find(|c| is_neg(c.code) && c.kind != Kind::Content);
    // Replies whose meaning is not defined for the command: nothing to judge.
    if chain.iter().any(|c| c.code / 100 == 3 && c.kind != Kind::Data || c.kind == Kind::Data && !is_neg(c.code) && c.code != 354) {
        return;
    }
    let contents = mine.iter().filter(|c| c.kind == Kind::Content).count();
    let dels: Vec<&Delivery> = r.deliveries.iter().filter(|d| d.op == op).collect();
    if let Some(e) = early_rej {
        if !dels.is_empty() || contents > 0 || r.partial.is_some() {
            return cx.bad("content-after-rejection", format!("{:?} was answered {} but message content followed", e.kind, e.code));
        }
        let g = lock(w);
        let start = g.op_marks.iter().rev().find(|m| m.1 == op).map_or(0, |m| m.0);
        if find(&g.written[start..], MARK) {
            return cx.bad("content-after-rejection", format!("{:?} was answered {} but message content was written", e.kind, e.code));
        }
        drop(g);
    }
    match (first_rej, o) {
        (Some(c), o) if is_rejection(o, c) => {}
        (Some(c), o) => cx.bad("wrong-rejection", format!("first rejection is {} {:?} for {:?}, the send gave {o:?}", c.code, c.lines, c.kind)),
        (None, Out::Ok(Some((code, lines)))) => {
            let acc: Vec<&Cmd> = mine.iter().copied().filter(|c| c.kind == Kind::Content && c.code / 100 == 2).collect();
            if acc.len() != 1 || dels.len() != 1 {
                return cx.bad("false-success", format!("success {code} {lines:?}, but the server accepted {} messages", dels.len()));
            }
            if acc[0].code != *code || acc[0].lines != *lines {
                return cx.bad("wrong-reply", format!("success with {code} {lines:?}, the content was answered {} {:?}", acc[0].code, acc[0].lines));
            }
            let d = dels[0];
            if d.from != from.as_bytes() || d.to.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>() != to || !content_ok(body, &d.content) {
                cx.bad("false-success", format!("success, but the server accepted {:?} to {:?}", show(&d.from), d.to.iter().map(|x| show(x)).collect::<Vec<_>>()));
            }
        }
        (None, o) => cx.bad("false-failure", format!("the server rejected nothing ({} commands), the send gave {o:?}", mine.len())),
    }
}

fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

pub fn one_rcpts(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("r{i}@y.test")).collect()
}

fn run_send(cx: &mut Cx, pipe: bool, n: usize, env: Env, p: &Plan, small: bool) -> (W, Out) {
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, plan_policy(p)));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else {
        cx.bad("connect", format!("{o:?}"));
        return (w, o);
    };
    begin(&w, 1);
    let to = one_rcpts(n);
    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
    let mut body = MARK.to_vec();
    body.extend_from_slice(b"\r\n.\r\n..x\r\n");
    let o = send(&w, &mut t, envelope(Some("s@x.test"), &tr), &Body::Bytes(body.clone()), None);
    judge_send(cx, &w, 1, "s@x.test", &to, &body, &o);
    if small {
        see_session(cx, &w, std::slice::from_ref(&o));
    } else {
        cx.see(&o.class());
    }
    (w, o)
}

const STAGES: [Kind; 4] = [Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Content];

pub fn c03(tier: Tier) -> Check {
    let mut jobs = vec![];
    // a. every combination of {accept, accept otherwise, 4yz, 5yz} over all stages
    for n in 1..=tier.pick3(4usize, 5, 8) {
        for pipe in [false, true] {
            jobs.push(job(format!("combos{n}/{pipe}"), 0, move |cx| {
                let p = plan();
                let alts = if n <= 2 { 6 } else { 3 };
                let codes = [0u16, 450, 554, 251, 421, 550];
                let mut note = String::new();
                let mut put = |cx: &Cx, k: Kind, i: usize| {
                    let c = codes[cx.ch.pick(alts)];
                    note.push_str(&format!(" {k:?}{i}={c}"));
                    if c != 0 && !(k == Kind::Data && c == 251) {
                        set(&p, 1, k, i, v(c));
                    }
                };
                put(cx, Kind::Mail, 0);
                for i in 0..n {
                    put(cx, Kind::Rcpt, i);
                }
                put(cx, Kind::Data, 0);
                put(cx, Kind::Content, 0);
                cx.note = format!("pipelining {pipe}, {n} recipients, verdicts{note}");
                run_send(cx, pipe, n, Env::default(), &p, true);
            }));
        }
    }
    // b. every code, in every shape, at every stage
    for stage in 0..4usize {
        for pipe in [false, true] {
            jobs.push(job(format!("codes{stage}/{pipe}"), 0, move |cx| {
                let code = cx.ch.of(&definite_codes());
                let sh = cx.ch.pick(SHAPES.len());
                let at = if STAGES[stage] == Kind::Rcpt { cx.ch.pick(2) } else { 0 };
                let p = plan();
                set(&p, 1, STAGES[stage], at, shape(code, sh));
                cx.note = format!("pipelining {pipe}, {:?}{at} answered {code} in shape {sh}", STAGES[stage]);
                run_send(cx, pipe, 2, Env::default(), &p, true);
            }));
        }
    }
    // verdicts in usual words
    for stage in 0..4usize {
        jobs.push(job(format!("usual/{stage}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let code = cx.ch.of(&[250u16, 251, 450, 452, 550, 552]);
            let at = if STAGES[stage] == Kind::Rcpt { cx.ch.pick(2) } else { 0 };
            let code = if STAGES[stage] == Kind::Data && code / 100 == 2 { 354 } else { code };
            let t = super::usual::TEXTS[cx.ch.pick(super::usual::TEXTS.len())];
            let p = plan();
            set(&p, 1, STAGES[stage], at, vl(code, t));
            cx.note = format!("pipelining {pipe}, {:?}{at} answered {code} {t:?}", STAGES[stage]);
            run_send(cx, pipe, 2, Env::default(), &p, true);
        }));
    }
    // c. pairs of rejections: the first one counts
    jobs.push(job("pairs", 0, |cx| {
        let pipe = cx.ch.flag();
        let a = cx.ch.pick(5);
        let b = cx.ch.pick(5);
        let (ca, cb) = (cx.ch.of(&[421u16, 450, 501, 550, 559, 400]), cx.ch.of(&[421u16, 452, 550, 599 - 40, 500]));
        let (sa, sb) = (cx.ch.pick(3), cx.ch.pick(3));
        let p = plan();
        for (s, c, sh) in [(a, ca, sa), (b, cb, sb)] {
            let (k, i) = [(Kind::Mail, 0), (Kind::Rcpt, 0), (Kind::Rcpt, 1), (Kind::Rcpt, 2), (Kind::Content, 0)][s];
            set(&p, 1, k, i, shape(c, sh));
        }
        cx.note = format!("pipelining {pipe}: place {a} {ca}, place {b} {cb}");
        run_send(cx, pipe, 3, Env::default(), &p, true);
    }));
    // d. many recipients, one or two rejected at any place
    for n in [5usize, 17, 60, 99, 100, 101, 128, 255, 256, 257, 300] {
        jobs.push(job(format!("many{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let code = cx.ch.of(&[450u16, 550]);
            for i in 0..=n {
                let step = if n > 130 { 7 } else { 1 };
                if i % step != 0 && i + 3 < n {
                    continue;
                }
                let p = plan();
                if i < n {
                    set(&p, 1, Kind::Rcpt, i, v(code));
                    if i % 3 == 0 && i + 2 < n {
                        set(&p, 1, Kind::Rcpt, i + 2, v(559));
                    }
                }
                cx.eval(true);
                cx.note = format!("pipelining {pipe}, {n} recipients, recipient {i} answered {code}");
                run_send(cx, pipe, n, Env::default(), &p, false);
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    jobs.push(job("huge", 0, move |cx| {
        let pipe = cx.ch.flag();
        let at = cx.ch.of(&[None, Some(0usize), Some(255), Some(256), Some(65_534), Some(65_535), Some(65_536), Some(65_539)]);
        let p = plan();
        if let Some(i) = at {
            set(&p, 1, Kind::Rcpt, i, v(550));
        }
        cx.eval(true);
        cx.note = format!("65540 recipients, pipelining {pipe}, rejected {at:?}");
        run_send(cx, pipe, 65_540, Env::default(), &p, false);
    }));
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let pipe = cx.ch.flag();
        let n = 1 + cx.ch.pick(2);
        let p = plan();
        let mut note = String::new();
        for (k, i) in [(Kind::Mail, 0), (Kind::Rcpt, 0), (Kind::Rcpt, 1), (Kind::Data, 0), (Kind::Content, 0)] {
            if i < n {
                let c = cx.ch.of(&[0u16, 450, 550]);
                if c > 0 {
                    set(&p, 1, k, i, v(c));
                    note.push_str(&format!(" {k:?}{i}={c}"));
                }
            }
        }
        cx.note = format!("{what}pipelining {pipe}, {n} recipients, verdicts{note}");
        run_send(cx, pipe, n, Env::default(), &p, true);
    }));
    // e. rejection, then the server closes the connection
    jobs.push(job("closing", 0, |cx| {
        let pipe = cx.ch.flag();
        let (k, i) = cx.ch.of(&[(Kind::Mail, 0), (Kind::Rcpt, 0), (Kind::Rcpt, 1), (Kind::Data, 0), (Kind::Content, 0)]);
        let code = cx.ch.of(&[421u16, 554, 451]);
        let sh = cx.ch.pick(3);
        let p = plan();
        let mut x = shape(code, sh);
        x.close = true;
        set(&p, 1, k, i, x);
        cx.note = format!("pipelining {pipe}: {k:?}{i} answered {code}, connection closed");
        run_send(cx, pipe, 2, Env::default(), &p, true);
    }));
    // f. verdicts under segmentation and delays
    let d = tier.pick3(1, 2, 3);
    for pipe in [false, true] {
        for (n, (k, i)) in [(Kind::Mail, 0), (Kind::Rcpt, 0), (Kind::Rcpt, 1), (Kind::Data, 0), (Kind::Content, 0), (Kind::Noop, 0)].into_iter().enumerate() {
            jobs.push(job(format!("segmented{n}/{pipe}"), d, move |cx| {
                let p = plan();
                let code = cx.ch.of(&[450u16, 550]);
                set(&p, 1, k, i, vl(code, &["no {}", "really"]));
                let env = Env { dev_split: true, dev_short: true, dev_pend: true, ..Default::default() };
                cx.note = format!("pipelining {pipe}: {k:?}{i} answered {code}, split/short/pending deviations");
                run_send(cx, pipe, 2, env, &p, true);
            }));
        }
    }
    Check { jobs, rule: "one execution = one send against one assignment of replies to its commands; distinct = different wire trace, acceptance or outcome" }
}

// ---------------------------------------------------------------------------------------------

pub fn c09(tier: Tier) -> Check {
    const F: [&str; 9] = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "SIZE 10240000", "AUTH PLAIN LOGIN", "DSN", "CHUNKING", "BINARYMIME"];
    let bodies: [&[u8]; 4] = [b"plain\r\n", b"\xc3\xbcnicode \xff\r\n.\r\n", b"", b"Subject: \xe2\x98\x83\r\n\r\nx"];
    let mut jobs = vec![];
    for order in 0..tier.pick3(2usize, 3, 3) {
        for utf8 in [None, Some(false), Some(true)] {
            for pl in [None, Some(false), Some(true)] {
                jobs.push(job(format!("offers{order}/{utf8:?}/{pl:?}"), 0, move |cx| {
                    let mask = cx.ch.pick(1 << F.len());
                    let mut ehlo: Vec<&str> = vec!["mx.test greets"];
                    let mut fs: Vec<&str> = (0..F.len()).filter(|i| mask >> i & 1 == 1).map(|i| F[i]).collect();
                    match order {
                        1 => fs.reverse(),
                        2 if !fs.is_empty() => {
                            let k = fs.len() / 2;
                            fs.rotate_left(k)
                        }
                        _ => {}
                    }
                    ehlo.extend(fs);
                    let mut c = SmtpClient::new();
                    if let Some(u) = utf8 {
                        c = c.smtp_utf8(u);
                    }
                    if let Some(p) = pl {
                        c = c.pipelining(p);
                    }
                    let n = 1 + cx.ch.pick(tier.pick3(2, 3, 5));
                    let from = cx.ch.of(&[Some("s@x.test"), None]);
                    let ahead = mask & 1 == 1 && pl != Some(false);
                    let body = bodies[(mask + n) % bodies.len()];
                    let mut s = Strict::new(&ehlo, true, accept_all());
                    if ahead {
                        // The server answers nothing until all of them have arrived.
                        s.hold = n + 1;
                    }
                    let w = strict(&cx.ch, Env::default(), s);
                    cx.note = format!("offer {ehlo:?}, smtp_utf8 {utf8:?}, pipelining {pl:?}, {n} recipients, sender {from:?}");
                    let (t, o) = connect(&w, c);
                    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                    begin(&w, 1);
                    let to = one_rcpts(n);
                    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                    let o = send(&w, &mut t, envelope(from, &tr), &Body::Bytes(body.to_vec()), None);
                    if matches!(o, Out::Hang(_)) && ahead {
                        return cx.bad("not-pipelined", "PIPELINING is offered and enabled, but the client waits before all recipients are sent");
                    }
                    ext_judge(cx, &w, 1, mask, utf8 == Some(true), ahead);
                    see_session(cx, &w, &[o]);
                }));
            }
        }
    }
    // whatever server it is
    jobs.push(job("greetings", 0, move |cx| {
        let mask = cx.ch.pick(8);
        let (utf8, pl) = (cx.ch.flag(), cx.ch.flag());
        let g = super::usual::GREETINGS[cx.ch.pick(super::usual::GREETINGS.len())];
        let name = cx.ch.of(&["mx.test", "mx.test Hello client.x.test [192.0.2.1], pleased to meet you", "EX01.x.test Hello [192.0.2.1]", "mx.test at your service", "localhost"]);
        let mut ehlo: Vec<&str> = vec![name];
        ehlo.extend((0..3).filter(|i| mask >> i & 1 == 1).map(|i| F[i]));
        let ahead = mask & 1 == 1 && pl;
        let mut s = Strict::new(&ehlo, true, accept_all()).greeting(Some(reps(220, g)));
        if ahead {
            s.hold = 3;
        }
        let w = strict(&cx.ch, Env::default(), s);
        cx.note = format!("greeting {g:?}, offer {ehlo:?}, smtp_utf8 {utf8}, pipelining {pl}");
        let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(utf8).pipelining(pl));
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        begin(&w, 1);
        let o = send(&w, &mut t, envelope(Some("s@x.test"), &["a@y", "b@y"]), &Body::Bytes(b"\xfc\r\n".to_vec()), None);
        if matches!(o, Out::Hang(_)) && ahead {
            return cx.bad("not-pipelined", "PIPELINING is offered and enabled, but the client waits before all recipients are sent");
        }
        ext_judge(cx, &w, 1, mask, utf8, ahead);
        see_session(cx, &w, &[o]);
    }));
    // sizes of message and envelope
    for mask in 0..32usize {
        jobs.push(job(format!("sizes/{mask}"), 0, move |cx| {
            let utf8 = cx.ch.flag();
            let pl = cx.ch.flag();
            let mut ehlo: Vec<&str> = vec!["mx.test"];
            ehlo.extend((0..5).filter(|i| mask >> i & 1 == 1).map(|i| F[i]));
            let ahead = mask & 1 == 1 && pl;
            let mut sizes: Vec<(usize, usize)> = [0usize, 1, 76, 998, 999, 1001, 4096, 10_241, 65_537, 1_048_577, 10_240_001].map(|m| (m, 2)).to_vec();
            sizes.extend((1..=tier.pick3(20usize, 150, 260)).chain([300, 499, 500, 501, 1001, 1025]).map(|n| (5, n)));
            for (m, n) in sizes {
                if m > 2_000_000 && (tier == Tier::Small || mask % 4 != 3) {
                    continue;
                }
                let mut s = Strict::new(&ehlo, true, accept_all());
                // As long as they fit into one group all of them arrive before an answer.
                if ahead && n <= 100 {
                    s.hold = n + 1;
                }
                let w = strict(&cx.ch, Env::default(), s);
                let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(utf8).pipelining(pl));
                let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                begin(&w, 1);
                let to = one_rcpts(n);
                let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
                let text = if m % 2 == 0 { b'x' } else { 0xfc };
                let o = send(&w, &mut t, envelope(Some("s@x.test"), &tr), &Body::Bytes(vec![text; m]), None);
                cx.eval(true);
                cx.note = format!("offer {ehlo:?}, smtp_utf8 {utf8}, pipelining {pl}, {n} recipients, message of {m} bytes: {}", o.class());
                if matches!(o, Out::Hang(_)) && ahead {
                    return cx.bad("not-pipelined", "PIPELINING is offered and enabled, but the client waits before all recipients are sent");
                }
                params_judge(cx, &w, 1, mask, utf8);
                if ahead != ahead_of_replies(&w, 1) {
                    return cx.bad("pipelining", format!("commands were {}sent without waiting", if ahead { "not " } else { "" }));
                }
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // later sends on the same connection, after successes and rejections
    jobs.push(job("later", 0, |cx| {
        let mask = cx.ch.pick(8);
        let utf8 = cx.ch.flag();
        let pl = cx.ch.flag();
        let mut ehlo: Vec<&str> = vec!["mx.test"];
        ehlo.extend((0..3).filter(|i| mask >> i & 1 == 1).map(|i| F[i]));
        let p = plan();
        let w = strict(&cx.ch, Env::default(), Strict::new(&ehlo, true, plan_policy(&p)));
        let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(utf8).pipelining(pl));
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        let ahead = mask & 1 == 1 && pl;
        let mut outs = vec![];
        for op in 1..=3 {
            begin(&w, op);
            match cx.ch.pick(3) {
                0 => {}
                1 => set(&p, op, Kind::Mail, 0, v(555)),
                _ => set(&p, op, Kind::Rcpt, 1, v(450)),
            }
            outs.push(send(&w, &mut t, envelope(Some("s@x"), &["a@y", "b@y", "c@y"]), &Body::Bytes(b"x\xff".to_vec()), None));
            ext_judge(cx, &w, op, mask, utf8, ahead);
        }
        cx.note = format!("three sends, offer {ehlo:?}, smtp_utf8 {utf8}, pipelining {pl}");
        see_session(cx, &w, &outs);
    }));
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let mask = cx.ch.pick(8);
        let utf8 = cx.ch.flag();
        let pl = cx.ch.flag();
        let n = 1 + cx.ch.pick(2);
        let mut ehlo: Vec<&str> = vec!["mx.test", "AUTH PLAIN LOGIN"];
        ehlo.extend((0..3).filter(|i| mask >> i & 1 == 1).map(|i| F[i]));
        let ahead = mask & 1 == 1 && pl;
        let mut s = Strict::new(&ehlo, true, accept_all());
        if ahead {
            s.hold = n + 1;
        }
        let w = strict(&cx.ch, Env::default(), s);
        let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(utf8).pipelining(pl));
        cx.note = format!("{what}offer {ehlo:?}, smtp_utf8 {utf8}, pipelining {pl}, {n} recipients");
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        let to = one_rcpts(n);
        let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
        begin(&w, 1);
        let o = send(&w, &mut t, envelope(Some("s@x"), &tr), &Body::Bytes(b"x\xff".to_vec()), None);
        if matches!(o, Out::Hang(_)) && ahead {
            return cx.bad("not-pipelined", "PIPELINING is offered and enabled, but the client waits before all recipients are sent");
        }
        ext_judge(cx, &w, 1, mask, utf8, ahead);
        see_session(cx, &w, &[o]);
    }));
    Check { jobs, rule: "one execution = one session for one (offered set, client settings, envelope); distinct = different wire trace" }
}

/// Was any sender or recipient command sent before the reply to the one before had been read?
fn ahead_of_replies(w: &W, op: usize) -> bool {
    let r = rec(w);
    let seq: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op && matches!(c.kind, Kind::Mail | Kind::Rcpt)).collect();
    seq.windows(2).any(|p| lock(w).consumed_when_written(p[1].start).unwrap_or(0) < p[0].rep_end)
}

/// Parameters and send-ahead behaviour of one send.
fn ext_judge(cx: &mut Cx, w: &W, op: usize, mask: usize, utf8: bool, ahead: bool) {
    params_judge(cx, w, op, mask, utf8);
    if !cx.ok() {
        return;
    }
    let r = rec(w);
    let mine: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op).collect();
    // send-ahead
    let seq: Vec<&&Cmd> = mine.iter().filter(|c| matches!(c.kind, Kind::Mail | Kind::Rcpt)).collect();
    for k in 1..seq.len() {
        let at = lock(w).consumed_when_written(seq[k].start).unwrap_or(0);
        let waited = at >= seq[k - 1].rep_end;
        if waited == ahead {
            return cx.bad(
                "pipelining",
                format!("{} {} the reply to {}, but pipelining is {}", show(&seq[k].line), if waited { "waited for" } else { "was sent before" }, show(&seq[k - 1].line), if ahead { "offered and enabled" } else { "not to be used" }),
            );
        }
    }
}

fn params_judge(cx: &mut Cx, w: &W, op: usize, mask: usize, utf8: bool) {
    let r = rec(w);
    let mine: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op).collect();
    let mut want = vec![];
    if mask & 2 != 0 {
        want.push("BODY=8BITMIME".to_string());
    }
    if mask & 4 != 0 && utf8 {
        want.push("SMTPUTF8".to_string());
    }
    want.sort();
    let mut mails = 0;
    for c in &mine {
        if c.kind == Kind::Mail {
            mails += 1;
            let Some((_, mut ps)) = parse_path(&c.line[10..]) else {
                return cx.bad("malformed", show(&c.line));
            };
            for p in ps.iter_mut() {
                *p = p.to_ascii_uppercase();
            }
            ps.sort();
            if ps != want {
                return cx.bad("parameters", format!("sender command {:?}, expected parameters {want:?}", show(&c.line)));
            }
        }
        if c.kind == Kind::Rcpt {
            match parse_path(&c.line[8..]) {
                Some((_, ps)) if ps.is_empty() => {}
                _ => return cx.bad("parameters", format!("recipient command {:?}", show(&c.line))),
            }
        }
    }
    if mails == 0 {
        return cx.bad("no-mail", "the send transmitted no sender command".to_string());
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Greeting,
    Ehlo,
    AuthPlain,
    AuthLogin,
    LoginUser,
    LoginPass,
    TryLogin,
    StartTls,
    Mail,
    Rcpt,
    RcptLast,
    Data,
    Content,
    Quit,
    /// The command that ends a rejected transaction (whenever it is sent).
    Rset,
}
pub const PLACES: [Place; 14] = [
    Place::Greeting,
    Place::Ehlo,
    Place::AuthPlain,
    Place::AuthLogin,
    Place::LoginUser,
    Place::LoginPass,
    Place::TryLogin,
    Place::StartTls,
    Place::Mail,
    Place::Rcpt,
    Place::RcptLast,
    Place::Data,
    Place::Content,
    Place::Quit,
];

/// Brings a session to `place`, where the server answers `a`; returns that operation's outcome.
pub fn at_place(cx: &mut Cx, place: Place, pipe: bool, a: &Rep, env: Env) -> (W, Out) {
    use Place::*;
    let a2 = a.clone();
    let (kind, idx) = match place {
        Greeting => (Kind::Greeting, 0),
        Ehlo => (Kind::Ehlo, 0),
        AuthPlain | AuthLogin | TryLogin => (Kind::Auth, 0),
        LoginUser => (Kind::AuthStep, 0),
        LoginPass => (Kind::AuthStep, 1),
        StartTls => (Kind::StartTls, 0),
        Mail => (Kind::Mail, 0),
        Rcpt => (Kind::Rcpt, 0),
        RcptLast => (Kind::Rcpt, 1),
        Data => (Kind::Data, 0),
        Content => (Kind::Content, 0),
        Quit => (Kind::Quit, 0),
        Rset => (Kind::Rset, 0),
    };
    let mut s = Strict::new(
        ext(pipe),
        true,
        Box::new(move |q| {
            if q.kind == kind && q.kind_index == idx {
                return Some(a2.clone());
            }
            if q.kind == Kind::AuthStep && q.kind_index == 0 {
                return Some(rep(334, "UGFzc3dvcmQ6"));
            }
            if kind == Kind::Rset && q.kind == Kind::Rcpt && q.kind_index == 0 {
                return Some(rep(550, "no"));
            }
            None
        }),
    );
    if place == Greeting {
        s = s.greeting(Some(a.clone()));
    }
    let w = strict(&cx.ch, env, s);
    let (t, o) = connect(&w, SmtpClient::new());
    if matches!(place, Greeting | Ehlo) {
        return (w, o);
    }
    let Some(mut t) = t else { return (w, o) };
    begin(&w, 1);
    let c = creds("alice", "wonderland");
    let o = match place {
        Greeting | Ehlo => o,
        AuthPlain => auth(&w, &mut t, Mechanism::Plain, &c),
        AuthLogin | LoginUser | LoginPass => auth(&w, &mut t, Mechanism::Login, &c),
        TryLogin => try_login(&w, &mut t, &c, &[Mechanism::Xoauth2, Mechanism::Plain]),
        StartTls => starttls(&w, t).1,
        Mail | Rcpt | RcptLast | Data | Content => send(&w, &mut t, envelope(Some("s@x"), &["r@y", "q@z"]), &Body::Bytes(b"hi\r\n.\r\n".to_vec()), None),
        Quit => quit(&w, &mut t),
        Rset => {
            let mut o = Out::Ok(None);
            for op in 1..=2 {
                begin(&w, op);
                o = send(&w, &mut t, envelope(Some("s@x"), &["r@y", "q@z"]), &Body::Bytes(b"hi\r\n.\r\n".to_vec()), None);
                if op == 1 && !o.is_err() || rec(&w).cmds.iter().any(|c| c.kind == Kind::Rset) {
                    break;
                }
            }
            o
        }
    };
    (w, o)
}

fn classify(cx: &mut Cx, place: Place, r: &Rep, o: &Out) {
    let what = || format!("{place:?} answered {:?}", show(&r.bytes));
    if is_neg(r.code) {
        match o {
            Out::Rej { transient, code, lines, display } => {
                if *transient != (r.code / 100 == 4) {
                    cx.bad("class", format!("{}: transient = {transient}", what()));
                }
                if *code != r.code || *lines != r.lines {
                    cx.bad("report", format!("{}: reported as {code} {lines:?}", what()));
                }
                // the text shows the lines one after the other
                let mut rest = display.as_str();
                for l in &r.lines {
                    match rest.find(l.as_str()) {
                        Some(at) => rest = &rest[at + l.len()..],
                        None => {
                            cx.bad("text", format!("{}: error text {display:?} lacks {l:?} (after the lines before it)", what()));
                            break;
                        }
                    }
                }
            }
            o => cx.bad("not-reported", format!("{}: {o:?}", what())),
        }
    } else {
        // What follows a positive reply that the command does not expect is not defined.
        let definite = r.code / 100 == 2 && place != Place::Data;
        let same = matches!(o, Out::Rej { code, lines, .. } if *code == r.code && *lines == r.lines);
        if same || definite && o.is_rej() {
            cx.bad("positive-rejected", format!("{}: {o:?}", what()));
        }
    }
}

pub fn c20(tier: Tier) -> Check {
    let mut jobs = vec![];
    for place in PLACES {
        for pipe in [false, true] {
            jobs.push(job(format!("codes/{place:?}/{pipe}"), 0, move |cx| {
                let code = cx.ch.of(&all_codes());
                let sh = cx.ch.pick(SHAPES.len());
                let r = shape(code, sh).rep("q");
                let (w, o) = at_place(cx, place, pipe, &r, Env::default());
                cx.note = format!("{place:?} answered {:?}, pipelining {pipe}: {}", show(&r.bytes), o.class());
                classify(cx, place, &r, &o);
                see_session(cx, &w, &[o]);
            }));
            // every multi-line reply up to three lines over a small text alphabet
            jobs.push(job(format!("lines/{place:?}/{pipe}"), 0, move |cx| {
                const TXT: [&str; 8] = ["", "a", " lead", "trail ", "450 x", "; ", "ünï", "transient: "];
                let n = 1 + cx.ch.pick(3);
                let k = TXT.len();
                let code = cx.ch.of(&[450u16, 421, 550, 502]);
                for i in 0..k.pow(n as u32) {
                    if !cx.ok() {
                        return;
                    }
                    let lines: Vec<&str> = word(&TXT, n, i);
                    let r = reps(code, &lines);
                    cx.eval(true);
                    let (_, o) = at_place(cx, place, pipe, &r, Env::default());
                    classify(cx, place, &r, &o);
                    cx.see(&o.class());
                }
            }));
        }
        if !matches!(place, Place::Greeting | Place::Ehlo) {
            jobs.push(job(format!("after/{place:?}"), 0, move |cx| {
                let what = any_prior(cx, 99);
                let pipe = cx.ch.flag();
                let code = cx.ch.of(&[250u16, 450, 421, 452, 454, 535, 550, 552, 599 - 40]);
                let r = shape(code, 1).rep("q");
                let (w, o) = at_place(cx, place, pipe, &r, Env::default());
                cx.note = format!("{what}{place:?} answered {:?}, pipelining {pipe}: {}", show(&r.bytes), o.class());
                let asked = rec(&w).cmds.iter().any(|c| c.reply == r.bytes);
                if asked {
                    classify(cx, place, &r, &o);
                }
                see_session(cx, &w, &[o]);
            }));
        }
        // usual words
        jobs.push(job(format!("usual/{place:?}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let code = cx.ch.of(&[250u16, 421, 450, 454, 535, 550, 554]);
            for t in super::usual::TEXTS {
                for twice in [false, true] {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    let r = if twice { reps(code, &[*t, *t].concat()) } else { reps(code, t) };
                    cx.note = format!("{place:?} answered {:?}, pipelining {pipe}", show(&r.bytes));
                    let (_, o) = at_place(cx, place, pipe, &r, Env::default());
                    classify(cx, place, &r, &o);
                    cx.see(&o.class());
                }
            }
        }));
        // long replies
        jobs.push(job(format!("long/{place:?}"), 0, move |cx| {
            let n = cx.ch.of(&[10usize, 33, 100, 257]);
            let len = cx.ch.of(&[0usize, 1, 80, 513, tier.pick3(3000, 20000, 100000)]);
            let code = cx.ch.of(&[452u16, 554]);
            let lines: Vec<String> = (0..n).map(|i| format!("{i}{}", "x".repeat(len))).collect();
            let r = reps(code, &lines);
            let (_, o) = at_place(cx, place, false, &r, Env::default());
            cx.note = format!("{place:?} answered {code} with {n} lines of {len}");
            classify(cx, place, &r, &o);
            cx.see(&o.class());
        }));
        // under segmentation
        jobs.push(job(format!("segmented/{place:?}"), tier.pick3(1, 2, 3), move |cx| {
            let pipe = cx.ch.flag();
            let code = cx.ch.of(&[450u16, 550]);
            let r = reps(code, &["first", "", "ünï last"]);
            let (_, o) = at_place(cx, place, pipe, &r, Env { dev_split: true, dev_pend: true, ..Default::default() });
            cx.note = format!("{place:?} answered {code} in three lines, segmented");
            classify(cx, place, &r, &o);
            cx.see(&o.class());
        }));
    }
    // direct conversion of every code
    jobs.push(job("direct", 0, |cx| {
        use async_smtp::error::Error;
        use async_smtp::response::Response;
        let code = cx.ch.of(&all_codes());
        for lines in [&["one"][..], &["one", "two"], &["", "x", ""], &["a", "b", "c", "d"]] {
            let r = reps(code, lines);
            let Ok(resp) = String::from_utf8_lossy(&r.bytes).parse::<Response>() else {
                return cx.bad("parse", show(&r.bytes));
            };
            if resp.is_positive() == is_neg(code) {
                cx.bad("positive", format!("{code}: is_positive {}", resp.is_positive()));
            }
            cx.eval(true);
            if is_neg(code) {
                classify(cx, Place::Mail, &r, &out_err(&Error::from(resp)));
            }
        }
        cx.note = format!("Error::from a {code} reply");
    }));
    Check { jobs, rule: "one execution = one reply (code, lines) in one place of a session; distinct = different outcome or wire trace" }
}

//! C23: what was put into a value, or sent by the server, can be read back from it.

use super::*;
use crate::refs::*;
use async_smtp::response::{Category, Code, Detail, Response, Severity};
use async_smtp::{EmailAddress, Envelope, SendableEmail};
use std::ffi::OsStr;
use std::task::Poll;

const SEV: [Severity; 4] = [Severity::PositiveCompletion, Severity::PositiveIntermediate, Severity::TransientNegativeCompletion, Severity::PermanentNegativeCompletion];
const CAT: [Category; 6] = [Category::Syntax, Category::Information, Category::Connections, Category::Unspecified3, Category::Unspecified4, Category::MailSystem];
const DET: [Detail; 10] =
    [Detail::Zero, Detail::One, Detail::Two, Detail::Three, Detail::Four, Detail::Five, Detail::Six, Detail::Seven, Detail::Eight, Detail::Nine];

fn code(n: u16) -> Code {
    Code::new(SEV[n as usize / 100 - 2], CAT[n as usize / 10 % 10], DET[n as usize % 10])
}

fn reply(cx: &mut Cx, c: u16, lines: &[String], others: &mut dyn Iterator<Item = u16>) {
    let built = Response::new(code(c), lines.to_vec());
    let mut all = vec![("built", built.clone())];
    if !lines.is_empty() {
        let bytes = String::from_utf8(reps(c, lines).bytes).unwrap_or_default();
        match bytes.parse::<Response>() {
            Ok(r) => {
                if r != built {
                    return cx.bad("parsed", format!("{c} {lines:?} parsed as {r:?}"));
                }
                all.push(("parsed", r));
            }
            Err(e) => return cx.bad("parsed", format!("{bytes:?}: {e}")),
        }
    }
    let others: Vec<u16> = others.collect();
    for (how, r) in all {
        let what = || format!("{how} reply {c} {lines:?}");
        if r.code.to_string() != c.to_string() || code_of(&r) != c {
            return cx.bad("code", format!("{}: code reads {}", what(), r.code));
        }
        let parts = format!("{}{}{}", r.code.severity, r.code.category, r.code.detail);
        if parts != c.to_string() {
            return cx.bad("code", format!("{}: parts read {parts}", what()));
        }
        if r.message != lines {
            return cx.bad("lines", format!("{}: {:?}", what(), r.message));
        }
        if r.is_positive() != (c < 400) {
            return cx.bad("positive", format!("{}: is_positive is {}", what(), r.is_positive()));
        }
        for o in &others {
            if r.has_code(*o) != (*o == c) {
                return cx.bad("has-code", format!("{}: has_code({o}) is {}", what(), r.has_code(*o)));
            }
        }
        if r.first_line() != lines.first().map(|s| s.as_str()) {
            return cx.bad("first-line", format!("{}: {:?}", what(), r.first_line()));
        }
        // What a word is after leading or other white space is not specified.
        let plain = |l: &String| !l.starts_with(' ') && l.chars().all(|c| c == ' ' || !c.is_whitespace());
        if lines.first().map_or(true, plain) {
            let want = lines.first().and_then(|l| l.split(' ').next()).filter(|w| !w.is_empty());
            if r.first_word() != want {
                return cx.bad("first-word", format!("{}: {:?}", what(), r.first_word()));
            }
        }
        cx.see(&r.first_word().is_some());
    }
}

fn read_all(cx: &mut Cx, m: SendableEmail, data: &[u8], fail: Option<usize>, seq: &[usize], pre: usize, what: &str) {
    let mut m = Box::pin(m.message());
    let mut got: Vec<u8> = vec![];
    let mut pends = 0;
    let mut ended = 0;
    for k in 0.. {
        let n = seq.get(k).copied().unwrap_or(9);
        let at = || format!("{what}, read into buffers of {seq:?}: after {} bytes", data.len().min(99_999));
        match poll_message(m.as_mut(), n, pre) {
            Poll::Pending => {
                pends += 1;
                if pends > 4 * data.len() + 100 {
                    return cx.bad("stuck", at());
                }
            }
            Poll::Ready(Ok(b)) => {
                if b.len() > n {
                    return cx.bad("overrun", at());
                }
                got.extend_from_slice(&b);
                if !data.starts_with(&got) {
                    return cx.bad("bytes", format!("{}: {:?}", at(), show(&got)));
                }
                if b.is_empty() && n > 0 {
                    if fail.is_some() {
                        return cx.bad("error-lost", format!("{}: ended instead of failing", at()));
                    }
                    ended += 1;
                    if ended == 3 {
                        break;
                    }
                }
            }
            Poll::Ready(Err(e)) => {
                if fail != Some(got.len()) || !e.to_string().contains("injected fault") {
                    return cx.bad("error", format!("{}: {e} at {}", at(), got.len()));
                }
                return;
            }
        }
        if k > 8 * data.len() + 200 {
            return cx.bad("stuck", at());
        }
    }
    if got != data {
        cx.bad("bytes", format!("{what}, read into buffers of {seq:?}: {:?} of {:?}", show(&got), show(data)));
    }
}

pub fn c23(tier: Tier) -> Check {
    let mut jobs = vec![];
    // every code against every number
    for s in 0..8usize {
        jobs.push(job(format!("codes/{s}"), 0, move |cx| {
            for (i, c) in all_codes().into_iter().enumerate() {
                if i % 8 == s && cx.ok() {
                    cx.eval(true);
                    reply(cx, c, &["x y".to_string()], &mut (0..=u16::MAX));
                }
            }
            cx.note = "each code compared with every number".into();
        }));
    }
    // replies in usual words
    jobs.push(job("usual", 0, |cx| {
        for c in [220u16, 235, 250, 334, 354, 421, 450, 535, 550] {
            for t in super::usual::TEXTS.iter().chain(super::usual::GREETINGS).chain(super::usual::EHLOS) {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                let l: Vec<String> = t.iter().map(|s| s.to_string()).collect();
                reply(cx, c, &l, &mut [c - 1, c, c + 1, c / 10, c % 100, c * 10].into_iter());
                cx.note = format!("{c} {l:?}");
            }
        }
    }));
    // every word of text fragments
    const FR: [&str; 9] = ["a", " ", "b-c", "", "250", "ß☃", ".", "  ", "="];
    for len in 0..=tier.pick3(4usize, 5, 6) {
        let total = FR.len().pow(len as u32);
        let shards = (total / 400).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("lines{len}/{s}"), 0, move |cx| {
                let c = cx.ch.of(&[220u16, 250, 334, 421, 554]);
                let split = cx.ch.pick(3);
                let mut i = s;
                while i < total && cx.ok() {
                    let f = word(&FR, len, i);
                    // as one line, as one line per fragment, or in two halves
                    let lines: Vec<String> = match split {
                        0 => vec![f.concat()],
                        1 => f.iter().map(|x| x.to_string()).collect(),
                        _ => vec![f[..len / 2].concat(), f[len / 2..].concat()],
                    };
                    cx.eval(len > 0);
                    reply(cx, c, &lines, &mut [c - 1, c, c + 1, c / 10, c % 100, c * 10].into_iter());
                    cx.note = format!("{c} {lines:?}");
                    i += shards;
                }
            }));
        }
    }
    // addresses and envelopes
    jobs.push(job("addresses", 0, move |cx| {
        const AB: [&str; 9] = ["a", "A", "@", ".", "\"", "\\", "+", "x.test", "="];
        for len in 0..=tier.pick3(4usize, 6, 8) {
            for i in 0..AB.len().pow(len as u32) {
                let s = word(&AB, len, i).concat();
                cx.eval(true);
                let Ok(a) = EmailAddress::new(s.clone()) else { return cx.bad("refused", format!("{s:?}")) };
                let Ok(b) = s.parse::<EmailAddress>() else { return cx.bad("refused", format!("{s:?}")) };
                let r: &str = a.as_ref();
                let o: &OsStr = a.as_ref();
                if a.to_string() != s || r != s || o != OsStr::new(&s) || a != b || a.clone() != a {
                    return cx.bad("address", format!("{s:?} reads {a} / {r:?} / {o:?}"));
                }
                let Ok(other) = EmailAddress::new(format!("{s}x")) else { return };
                if a == other {
                    return cx.bad("address", format!("{a} equals {other}"));
                }
                cx.see(&s);
            }
        }
        cx.note = "addresses read back".into();
    }));
    jobs.push(job("envelopes", 0, move |cx| {
        let names = ["a@x", "b@x", "A@x", "c"];
        for n in 0..=tier.pick3(5usize, 6, 7) {
            for i in 0..names.len().pow(n as u32) {
                let to = word(&names, n, i);
                for from in [None, Some("a@x"), Some("c"), Some("")] {
                    cx.eval(n > 1);
                    let f = from.map(addr);
                    let t: Vec<EmailAddress> = to.iter().map(|s| addr(s)).collect();
                    let e = Envelope::new(f.clone(), t.clone());
                    let what = format!("Envelope::new({from:?}, {to:?})");
                    match e {
                        Err(_) if n == 0 => {}
                        Err(e) => return cx.bad("envelope", format!("{what}: {e}")),
                        Ok(_) if n == 0 => return cx.bad("envelope", format!("{what} accepted")),
                        Ok(e) => {
                            if e.from() != f.as_ref() || e.to() != &t[..] {
                                return cx.bad("envelope", format!("{what} holds {e:?}"));
                            }
                            let m = SendableEmail::new(e.clone(), b"m".to_vec());
                            let r = SendableEmail::new_with_reader(e.clone(), Box::new(Source::new(b"m", SrcCfg::default(), None)));
                            if *m.envelope() != e || *r.envelope() != e {
                                return cx.bad("email", format!("{what}: email holds {:?} / {:?}", m.envelope(), r.envelope()));
                            }
                        }
                    }
                    cx.see(&what);
                }
            }
        }
        cx.note = "envelopes read back".into();
    }));
    // messages: every sequence of buffer sizes, prefilled buffers, slow and failing sources
    for kind in 0..5usize {
        jobs.push(job(format!("message/{kind}"), 0, move |cx| {
            let data: Vec<u8> = (0..23u8).map(|b| b.wrapping_mul(11)).collect();
            let sizes = [0usize, 1, 2, 5, 64];
            let len = tier.pick3(4usize, 5, 7);
            let fail = cx.ch.of(&[None, Some(0usize), Some(1), Some(6), Some(22), Some(23)]);
            let pre = cx.ch.of(&[0usize, 1, 3, 40]);
            for i in 0..sizes.len().pow(len as u32) {
                if !cx.ok() {
                    return;
                }
                let seq = word(&sizes, len, i);
                cx.eval(true);
                let src = SrcCfg { chunk: [None, Some(1), Some(4), Some(7), None][kind], pend_always: kind == 2, fail_at: fail.map(|x| (x, 4)), ..Default::default() };
                let e = envelope(None, &["r@y"]);
                let bytes = kind == 4 && fail.is_none();
                let m = if bytes { SendableEmail::new(e, data.clone()) } else { SendableEmail::new_with_reader(e, Box::new(Source::new(&data, src, None))) };
                let what = format!("message of 23 bytes from {} failing at {fail:?}", if bytes { "bytes" } else { "a reader" });
                read_all(cx, m, &data, fail, &seq, pre, &what);
                cx.note = what;
            }
        }));
    }
    jobs.push(job("long-messages", 0, |cx| {
        let n = cx.ch.of(&[0usize, 1, 31, 32, 33, 4095, 4096, 4097, 8191, 8192, 8193, 65_536, 70_001]);
        let buf = cx.ch.of(&[1usize, 13, 32, 4096, 8192, 100_000]);
        let reader = cx.ch.flag();
        if n / buf > 9000 {
            return;
        }
        let data: Vec<u8> = (0..n).map(|i| (i * 31 >> 3) as u8).collect();
        let e = envelope(None, &["r@y"]);
        let m = if reader { SendableEmail::new_with_reader(e, Box::new(Source::new(&data, SrcCfg { chunk: Some(1000), ..Default::default() }, None))) } else { SendableEmail::new(e, data.clone()) };
        cx.note = format!("{n} bytes into buffers of {buf}");
        let note = cx.note.clone();
        let seq = vec![buf; n / buf + n / 1000 + 10];
        read_all(cx, m, &data, None, &seq, 0, &note);
        cx.see(&note);
    }));
    Check { jobs, rule: "one case = one value and everything that can be read from it; non-trivial = not empty" }
}

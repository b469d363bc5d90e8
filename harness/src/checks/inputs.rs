//! C05 reply parsing, C08 envelopes and addresses, C15 xtext, C21 command rendering.

use super::sends::{at_place, one_rcpts, Place};
use super::*;
use crate::refs::*;
use async_smtp::authentication::Mechanism;
use async_smtp::commands::*;
use async_smtp::extension::{ClientId, MailBodyParameter, MailParameter, RcptParameter};
use async_smtp::response::Response;
use async_smtp::util::XText;
use async_smtp::{EmailAddress, Envelope, SmtpClient};
use std::net::{Ipv4Addr, Ipv6Addr};

/// A CR or LF that is not part of a CRLF: what it means inside a reply is not specified.
fn bare_cr_lf(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| b[i] == b'\n' && (i == 0 || b[i - 1] != b'\r') || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'))
}

/// Response::from_str against the reference grammar.
fn parse_case(cx: &mut Cx, s: &str) -> bool {
    if bare_cr_lf(s) {
        return false;
    }
    let want = ref_reply(s);
    let got = s.parse::<Response>();
    match (&want, &got) {
        (None, Ok(r)) => cx.bad("accepted", format!("{:?} is not a reply, parsed as {} {:?}", show(s.as_bytes()), code_of(r), r.message)),
        (Some((c, l, n)), Ok(r)) => {
            if code_of(r) != *c || r.message != *l {
                cx.bad("wrong", format!("{:?} parsed as {} {:?}, expected {c} {l:?} ({n} bytes)", show(s.as_bytes()), code_of(r), r.message));
            }
        }
        (Some((c, l, n)), Err(e)) if *n == s.len() => cx.bad("refused", format!("{:?} is {c} {l:?}, refused: {e}", show(s.as_bytes()))),
        _ => {}
    }
    cx.see(&got.is_ok());
    want.is_some()
}

/// The same bytes as the answer to a command, followed by the end of the connection or not.
fn wire_case(cx: &mut Cx, bytes: &str, close: bool, env: Env) {
    let want = ref_reply(bytes);
    let mut a = raw(bytes.as_bytes());
    a.close = close;
    let (w, o) = at_place(cx, Place::AuthPlain, false, &a, env);
    cx.see(&o.class());
    let what = || format!("AUTH answered {:?} (then {}): {o:?}", show(bytes.as_bytes()), if close { "closed" } else { "open" });
    match &want {
        None => {
            if !matches!(o, Out::Fail(_)) && close {
                cx.bad("accepted", what());
            } else if matches!(o, Out::Ok(_) | Out::Rej { .. } | Out::Livelock) {
                cx.bad("accepted", what());
            }
        }
        Some((c, l, n)) => {
            if c / 100 != 3 {
                let same = match &o {
                    Out::Ok(Some((gc, gl))) => !is_neg(*c) && gc == c && gl == l,
                    Out::Rej { code, lines, .. } => is_neg(*c) && code == c && lines == l,
                    _ => false,
                };
                if !same {
                    return cx.bad("wrong", what());
                }
                let g = lock(&w);
                let Some(k) = g.server.as_ref().and_then(|s| s.rec().cmds.iter().find(|x| x.kind == Kind::Auth).map(|x| x.rep_start)) else {
                    return;
                };
                let eaten = g.consumed - k;
                drop(g);
                if eaten != *n {
                    cx.bad("consumed", format!("{}: {eaten} bytes consumed, the reply has {n}", what()));
                }
            }
        }
    }
}

const TOK: [&str; 12] = ["250", "251", "550", "2", "5", "-", " ", "\r\n", "\r", "\n", "a", ""];
const TOK2: [&str; 10] = ["250", "450", "-", " ", "\r\n", "x", "250-", "250 ", "25", "☃"];

pub fn c05(tier: Tier) -> Check {
    let mut jobs = vec![];
    for len in 0..=tier.pick(6usize, 7) {
        let total = TOK.len().pow(len as u32);
        let shards = (total / 40_000).clamp(1, 128);
        for s in 0..shards {
            jobs.push(job(format!("words{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let t = word(&TOK, len, i).concat();
                    let nt = parse_case(cx, &t);
                    cx.eval(nt);
                    i += shards;
                }
            }));
        }
    }
    for len in 1..=tier.pick(5usize, 6) {
        let total = TOK2.len().pow(len as u32);
        let shards = (total / 10_000).clamp(1, 128);
        for s in 0..shards {
            jobs.push(job(format!("words-b{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let t = word(&TOK2, len, i).concat();
                    let nt = parse_case(cx, &t);
                    parse_case(cx, &format!("{t}\r\n"));
                    parse_case(cx, &format!("250-{t}\r\n250 end\r\n"));
                    cx.eval(nt);
                    i += shards;
                }
            }));
        }
    }
    // over the wire
    for len in 1..=tier.pick(4usize, 5) {
        let total = TOK2.len().pow(len as u32);
        let shards = (total / 1000).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("wire{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let t = format!("{}\r\n", word(&TOK2, len, i).concat());
                    let nt = ref_reply(&t).is_some();
                    cx.eval(nt);
                    cx.note = format!("reply bytes {:?}", show(t.as_bytes()));
                    wire_case(cx, &t, true, Env::default());
                    if nt {
                        wire_case(cx, &t, false, Env::default());
                    }
                    i += shards;
                }
            }));
        }
    }
    // every three-digit code in every shape, complete, alone and with following bytes
    jobs.push(job("codes", 0, |cx| {
        for code in 0..1000u16 {
            for sh in SHAPES {
                let full: String = sh.iter().enumerate().map(|(i, l)| format!("{code:03}{}{l}\r\n", if i + 1 == sh.len() { ' ' } else { '-' })).collect();
                let no_text = format!("{}{code:03}\r\n", sh.iter().map(|l| format!("{code:03}-{l}\r\n")).collect::<String>());
                for t in [full.clone(), no_text, format!("{code:03}\r\n"), format!("{full}250 next\r\n"), format!("{full}x"), format!(" {full}"), full[..full.len() - 2].to_string(), format!("0{full}")] {
                    if !cx.ok() {
                        return;
                    }
                    let nt = parse_case(cx, &t);
                    cx.eval(nt);
                }
                if (200..600).contains(&code) && code / 100 != 3 && cx.ok() {
                    wire_case(cx, &full, false, Env::default());
                    wire_case(cx, &format!("{full}550 stray\r\n250-"), true, Env::default());
                }
            }
        }
        cx.note = "all 1000 codes in all shapes".into();
    }));
    // one line of a multi-line reply differs in one place
    jobs.push(job("mutations", 0, |cx| {
        let chars: Vec<char> = (' '..='~').chain(['é', '☃', '\u{660}', '\u{ff12}']).collect();
        for n in 1..=6usize {
            let lines: Vec<String> = (0..n).map(|i| format!("452{}t{i}", if i + 1 == n { ' ' } else { '-' })).collect();
            for i in 0..n {
                for pos in 0..5usize {
                    for c in &chars {
                        let mut m: Vec<char> = lines[i].chars().collect();
                        m[pos] = *c;
                        let mut v = lines.clone();
                        v[i] = m.into_iter().collect();
                        let t = v.join("\r\n") + "\r\n";
                        if !cx.ok() {
                            return;
                        }
                        cx.eval(true);
                        parse_case(cx, &t);
                        if pos < 4 || *c == 'é' {
                            wire_case(cx, &t, true, Env::default());
                        }
                    }
                }
                for cut in 0..=5usize {
                    let mut v = lines.clone();
                    v[i].truncate(cut);
                    let t = v.join("\r\n") + "\r\n";
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    parse_case(cx, &t);
                    wire_case(cx, &t, true, Env::default());
                }
            }
        }
        cx.note = "each line of a reply of 1..6 lines with one character replaced or cut".into();
    }));
    // replies as they occur
    jobs.push(job("usual", 0, |cx| {
        for code in [220u16, 221, 235, 250, 251, 421, 450, 451, 454, 530, 535, 550, 552, 554] {
            for t in super::usual::TEXTS.iter().chain(super::usual::GREETINGS).chain(super::usual::EHLOS) {
                let t = String::from_utf8_lossy(&reps(code, t).bytes).to_string();
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                cx.note = format!("reply {:?}", show(t.as_bytes()));
                parse_case(cx, &t);
                parse_case(cx, &format!("{t}{t}"));
                wire_case(cx, &t, false, Env::default());
                wire_case(cx, &format!("{t}250 next\r\n"), false, Env { read_chunk: Some(7), ..Default::default() });
            }
        }
        let lines: Vec<&str> = super::usual::TEXTS.iter().chain(super::usual::GREETINGS).map(|t| t[0]).collect();
        for a in &lines {
            for b in &lines {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                parse_case(cx, &format!("550-{a}\r\n550 {b}\r\n"));
                parse_case(cx, &format!("250-{a}\r\n250-{b}\r\n250 {a}\r\n"));
            }
        }
    }));
    // control characters in texts
    jobs.push(job("controls", 0, |cx| {
        for c in (0..0x20u8).chain([0x7f]).filter(|c| !matches!(c, b'\r' | b'\n')).map(char::from) {
            for t in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b"), format!("{c}{c} {c}"), format!("5.1.1{c}a")] {
                for code in [250u16, 550] {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    cx.note = format!("text {:?}", show(t.as_bytes()));
                    parse_case(cx, &format!("{code} {t}\r\n"));
                    parse_case(cx, &format!("{code}-{t}\r\n{code} {t}\r\n"));
                    parse_case(cx, &format!("{code}{c}x\r\n"));
                    parse_case(cx, &format!("{c}{code} x\r\n"));
                    wire_case(cx, &format!("{code}-{t}\r\n{code} {t}\r\n250 x"), false, Env::default());
                }
            }
        }
    }));
    // one line out of place anywhere in a reply of many lines
    jobs.push(job("far", 0, move |cx| {
        let n = cx.ch.of(&[2usize, 5, 8, 9, 16, 17, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257, 258, 512, 513, 1000, 1001, tier.pick3(1025, 2049, 5001)]);
        let what = cx.ch.pick(6);
        let mut at: Vec<usize> = if n <= 129 { (0..n).collect() } else { vec![0, 1, n / 2, 99, 100, 101, 127, 128, n - 3, n - 2, n - 1] };
        at.retain(|i| *i < n);
        at.dedup();
        cx.note = format!("reply of {n} lines, one of them altered ({what})");
        for i in at {
            let lines: Vec<String> = (0..n)
                .map(|k| {
                    let sep = if k + 1 == n { " " } else { "-" };
                    match what {
                        _ if k != i => format!("550{sep}line {k}"),
                        0 => format!("551{sep}line {k}"),
                        1 => format!("250{sep}line {k}"),
                        2 => format!("55{sep}line {k}"),
                        3 => format!("550{}line {k}", if sep == " " { "-" } else { " " }),
                        4 => format!("550xline {k}"),
                        _ => format!("650{sep}line {k}"),
                    }
                })
                .collect();
            let t = lines.join("\r\n") + "\r\n";
            if !cx.ok() {
                return;
            }
            cx.eval(true);
            parse_case(cx, &t);
            if n <= 257 && (n <= 17 || i % 16 == 0 || i + 3 > n) {
                wire_case(cx, &t, true, Env::default());
            }
        }
    }));
    // all pairs of codes in one reply
    jobs.push(job("code-pairs", 0, |cx| {
        let codes = all_codes();
        for a in &codes {
            for b in &codes {
                if !cx.ok() {
                    return;
                }
                cx.eval(a != b);
                parse_case(cx, &format!("{a}-x\r\n{b} y\r\n"));
                parse_case(cx, &format!("{b}-x\r\n{a}-z\r\n{b}\r\n"));
            }
        }
        cx.note = "all pairs of codes in one reply".into();
    }));
    // Unicode text (C0 controls and DEL aside)
    for s in 0..8u32 {
        jobs.push(job(format!("unicode/{s}"), 0, move |cx| {
            let mut c = s;
            while c <= 0x10_ffff && cx.ok() {
                if let Some(ch) = char::from_u32(c) {
                    if c >= 0x20 && c != 0x7f {
                        cx.eval(true);
                        parse_case(cx, &format!("250-{ch}a{ch}\r\n250 b{ch}\r\n"));
                        parse_case(cx, &format!("550 {ch}\r\n"));
                        parse_case(cx, &format!("25{ch} x\r\n"));
                        parse_case(cx, &format!("{ch}50 x\r\n"));
                        parse_case(cx, &format!("250{ch}x\r\n"));
                        if c < 0x2100 || c % 509 == 0 {
                            wire_case(cx, &format!("250-{ch}a\r\n250 b{ch}\r\nx{ch}"), false, Env::default());
                        }
                    }
                }
                c += 8;
            }
            cx.note = "every Unicode scalar in texts and in place of each code character".into();
        }));
    }
    // long lines, many lines
    jobs.push(job("long", 0, move |cx| {
        let n = cx.ch.of(&[1usize, 2, 3, 10, 64, 100, 255, 256, 257, 1000]);
        let len = cx.ch.of(&[0usize, 1, 99, 100, 101, 509, 510, 512, 1023, 1024, 4096, 8192, 65_536]);
        if n * len > tier.pick(1_000_000, 20_000_000) {
            return;
        }
        let code = cx.ch.of(&[250u16, 550]);
        let lines: Vec<String> = (0..n).map(|i| if i % 3 == 1 { String::new() } else { "y".repeat(len) }).collect();
        let r = reps(code, &lines);
        let t = String::from_utf8_lossy(&r.bytes).to_string();
        cx.note = format!("reply of {n} lines of {len} characters");
        if n * len <= 300_000 {
            parse_case(cx, &t);
        }
        if n <= 257 {
            wire_case(cx, &format!("{t}250-following"), false, Env::default());
            wire_case(cx, &t, false, Env { read_chunk: Some(1 + len / 3), ..Default::default() });
        }
    }));
    if tier != Tier::Small {
        jobs.push(job("huge", 0, move |cx| {
            let len = cx.ch.of(&[1_000_001usize, 2_097_153, 16_777_217, tier.pick(20_000_001, 67_108_865)]);
            let code = cx.ch.of(&[250u16, 450]);
            let z = "z".repeat(len);
            // alone, first of two, last of two, or the length spread over many lines
            let shape = cx.ch.pick(4);
            let k = tier.pick(12, 40);
            let t = match shape {
                0 => format!("{code} {z}\r\n"),
                1 => format!("{code}-{z}\r\n{code} x\r\n"),
                2 => format!("{code}-x\r\n{code} {z}\r\n"),
                _ => {
                    let part = "z".repeat(len / k);
                    format!("{}{code} x\r\n", format!("{code}-{part}\r\n").repeat(k))
                }
            };
            cx.note = format!("{len} characters in shape {shape}");
            parse_case(cx, &t);
            wire_case(cx, &format!("{t}250-following"), false, Env::default());
        }));
    }
    // exact consumption however the reply is cut into reads
    let replies = ["250 ok\r\n250 next\r\n", "250-a\r\n250 b\r\nxx", "535\r\n", "250-\r\n250-x\r\n250\r\n\r\n", "550-ü☃\r\n550 é\r\n5", "250-a\r\n251 b\r\n", "25\r\n", "250-x\r\n250-y\r\n"];
    for (k, t) in replies.into_iter().enumerate() {
        jobs.push(job(format!("split/{k}"), tier.pick3(2, 3, 4), move |cx| {
            let close = cx.ch.flag();
            if !close && ref_reply(t).is_none() {
                return;
            }
            cx.note = format!("{:?} split over reads", show(t.as_bytes()));
            wire_case(cx, t, close, Env { dev_split: true, dev_pend: true, ..Default::default() });
        }));
        jobs.push(job(format!("chunks/{k}"), 0, move |cx| {
            let close = cx.ch.flag();
            if !close && ref_reply(t).is_none() {
                return;
            }
            let n = 1 + cx.ch.pick(20);
            cx.note = format!("{:?} in chunks of {n}", show(t.as_bytes()));
            wire_case(cx, t, close, Env { read_chunk: Some(n), pend_always: n % 2 == 0, ..Default::default() });
        }));
    }
    Check { jobs, rule: "one case = one byte string parsed as a reply (Response::from_str, or as the answer read by an operation); non-trivial = the reference grammar finds a reply in it" }
}

// ---------------------------------------------------------------------------------------------

fn addr_allowed(s: &str) -> bool {
    s.chars().all(|c| ('!'..='~').contains(&c) && c != '<' && c != '>')
}

fn addr_case(cx: &mut Cx, s: &str) {
    let want = addr_allowed(s);
    cx.eval(!want);
    match EmailAddress::new(s.to_string()) {
        Ok(a) => {
            if !want {
                return cx.bad("constructed", format!("address {:?} was constructed", show(s.as_bytes())));
            }
            let r: &str = a.as_ref();
            let o: &std::ffi::OsStr = a.as_ref();
            if a.to_string() != s || r != s || o.to_str() != Some(s) {
                return cx.bad("changed", format!("address {:?} became {:?}", show(s.as_bytes()), a.to_string()));
            }
        }
        Err(_) => {
            if want {
                return cx.bad("refused", format!("address {:?} was refused", show(s.as_bytes())));
            }
        }
    }
    match s.parse::<EmailAddress>() {
        Ok(a) if want && a.to_string() == s => {}
        Err(_) if !want => {}
        x => cx.bad("from_str", format!("{:?} parsed as {x:?}", show(s.as_bytes()))),
    }
}

/// One send with this envelope; the server must see exactly these commands.
fn env_judge(cx: &mut Cx, w: &W, op: usize, from: Option<&str>, to: &[String], o: &Out) {
    let g = lock(w);
    let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return };
    let seen: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op && !matches!(c.kind, Kind::Rset | Kind::Data | Kind::Content)).collect();
    let want_n = 1 + to.len();
    let mut bad = None;
    for (i, c) in seen.iter().enumerate() {
        let (k, pre, a) = if i == 0 { (Kind::Mail, 10, from.unwrap_or("")) } else { (Kind::Rcpt, 8, to.get(i - 1).map_or("", |s| s.as_str())) };
        if c.kind != k || i >= want_n || c.bare {
            bad = Some(format!("command {i} is {:?}", show(&c.line)));
            break;
        }
        match parse_path(&c.line[pre..]) {
            Some((x, _)) if x == a.as_bytes() => {}
            _ => {
                bad = Some(format!("command {i} is {:?}, expected address {a:?}", show(&c.line)));
                break;
            }
        }
    }
    if bad.is_none() && seen.len() != want_n {
        bad = Some(format!("{} of {want_n} commands", seen.len()));
    }
    if let Some(b) = bad {
        let what = format!("sender {from:?}, {} recipients starting {:?}, outcome {}: {b}", to.len(), to.iter().take(4).collect::<Vec<_>>(), o.class());
        drop(g);
        cx.bad("envelope", what);
    }
}

fn env_case(cx: &mut Cx, pipe: bool, from: Option<&str>, to: &[String], env: Env) {
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, accept_all()));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    begin(&w, 1);
    let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
    let all: Option<Vec<EmailAddress>> = tr.iter().map(|a| EmailAddress::new(a.to_string()).ok()).collect();
    let by = from.map(|a| EmailAddress::new(a.to_string()));
    let e = match (all, by.transpose()) {
        (Some(all), Ok(by)) => Envelope::new(by, all).ok(),
        _ => None,
    };
    let Some(e) = e else {
        return cx.bad("refused", format!("an envelope from {from:?} to {} recipients is refused: {:?}", tr.len(), &tr[..tr.len().min(5)]));
    };
    if e.from().map(|a| a.to_string()).as_deref() != from || e.to().iter().map(|a| a.to_string()).collect::<Vec<_>>() != to {
        return cx.bad("envelope", format!("Envelope::new({from:?}, {tr:?}) holds {e:?}"));
    }
    let o = send(&w, &mut t, e, &Body::Bytes(b"x\r\n".to_vec()), None);
    env_judge(cx, &w, 1, from, to, &o);
}

pub fn c08(tier: Tier) -> Check {
    let mut jobs = vec![];
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let pipe = cx.ch.flag();
        let from = cx.ch.of(&[None, Some("s@x.test"), Some("p@earlier.test"), Some("p0@earlier.test")]);
        let al = ["a@x.test", "p0@earlier.test", "p1@earlier.test"];
        let heavy = what.contains("300") || what.contains("280");
        for n in 1..=if heavy { 2 } else { 3 } {
            for i in 0..3usize.pow(n as u32) {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                let to: Vec<String> = word(&al, n, i).into_iter().map(String::from).collect();
                cx.note = format!("{what}sender {from:?}, recipients {to:?}");
                env_case(cx, pipe, from, &to, Env::default());
            }
        }
    }));
    for s in 0..8u32 {
        jobs.push(job(format!("unicode/{s}"), 0, move |cx| {
            let mut c = s;
            while c <= 0x10_ffff && cx.ok() {
                if let Some(ch) = char::from_u32(c) {
                    addr_case(cx, &format!("{ch}"));
                    addr_case(cx, &format!("a{ch}b@c.d"));
                    addr_case(cx, &format!("a@b{ch}"));
                    addr_case(cx, &format!("\"{ch}\"@b"));
                }
                c += 8;
            }
            cx.note = "every Unicode scalar value in four contexts".into();
        }));
    }
    for len in 0..=tier.pick(3usize, 3) {
        let total = 128usize.pow(len as u32);
        let shards = (total / 30_000).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("ascii{len}/{s}"), 0, move |cx| {
                let al: Vec<char> = (0..128u8).map(char::from).collect();
                let mut i = s;
                while i < total && cx.ok() {
                    let t: String = word(&al, len, i).into_iter().collect();
                    addr_case(cx, &t);
                    i += shards;
                }
            }));
        }
    }
    if tier != Tier::Small {
        let al: Vec<char> = "a@<>\r\n \t\0\u{7f}\u{80}é\"\\.".chars().collect();
        for len in 4..=tier.pick3(4usize, 4, 6) {
            let total = al.len().pow(len as u32);
            let al = al.clone();
            jobs.push(job(format!("mixed{len}"), 0, move |cx| {
                for i in 0..total {
                    if !cx.ok() {
                        return;
                    }
                    let t: String = word(&al, len, i).into_iter().collect();
                    addr_case(cx, &t);
                }
            }));
        }
    }
    // addresses as they occur, in all pairs
    jobs.push(job("usual", 0, |cx| {
        const USUAL: [&str; 25] = [
            "joe@example.org",
            "Joe.Bloggs+Tag@Mail.EXAMPLE.COM",
            "JOE@EXAMPLE.ORG",
            "joe@Example.Org",
            "joe@example.org.",
            "joe.@example.org",
            ".joe@example.org",
            "j..oe@example.org",
            "\"joe\"@example.org",
            "\"j.o,e\"@example.org",
            "joe%example.org@relay.test",
            "a!b!joe@uucp.test",
            "@relay.test:joe@example.org",
            "joe@[192.0.2.1]",
            "joe@[IPv6:2001:DB8::0:1]",
            "joe@[IPv6:2001:db8:0:0:0:0:0:1]",
            "Postmaster",
            "postmaster@EXAMPLE.com",
            "MAILER-DAEMON",
            "joe=bloggs@example.org",
            "joe+@example.org",
            "xn--bcher-kva@xn--bcher-kva.EXAMPLE",
            "prvs=123=joe@Example.Net",
            "list-bounces+joe=example.org@lists.example.org",
            "joe@localhost",
        ];
        let pipe = cx.ch.flag();
        for a in USUAL {
            for b in USUAL {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                cx.note = format!("pipelining {pipe}, from {a:?} to {b:?} and others");
                env_case(cx, pipe, Some(a), &[b.to_string(), a.to_string(), b.to_string()], Env::default());
                env_case(cx, pipe, None, &[a.to_string(), b.to_string()], Env::default());
            }
        }
    }));
    jobs.push(job("positions", 0, move |cx| {
        for n in [5000usize, 8191, 10_001, 16_385, 65_537, 100_001, 1 << 20, tier.pick(1 << 21, 1 << 24)] {
            addr_case(cx, &"y".repeat(n));
            addr_case(cx, &format!("{}@{}", "y".repeat(n / 2), "y.".repeat(n / 4)));
            addr_case(cx, &format!("{}>", "y".repeat(n)));
            if n <= 1 << 20 && cx.ok() {
                let long = "y".repeat(n);
                env_case(cx, true, Some(&long), &["a@b".to_string(), long.clone()], Env::default());
                env_case(cx, false, None, &[long.clone()], Env::default());
            }
        }
        // one bad character at every position of long addresses
        for n in [1usize, 2, 15, 16, 17, 63, 64, 65, 254, 255, 256, 257, 320, 1024, 4097] {
            addr_case(cx, &"x".repeat(n));
            for i in 0..=n {
                for b in ["\n", "\r", ">", "<", " ", "é", "\0"] {
                    if n > 300 && i % 37 != 0 && i != n {
                        continue;
                    }
                    if !cx.ok() {
                        return;
                    }
                    addr_case(cx, &format!("{}{b}{}", "x".repeat(i), "x".repeat(n - i)));
                }
            }
        }
        if Envelope::new(None, vec![]).is_ok() || Envelope::new(Some(addr("a@b")), vec![]).is_ok() {
            cx.bad("empty", "an envelope without recipients was constructed");
        }
    }));
    // lists over the wire: sender, duplicates, order, one to three recipients
    let names: Vec<&'static str> = vec!["a@y", "b@y", "A@y", "postmaster", "\"x;y\"@z", "s@x"];
    let froms: Vec<Option<&'static str>> = vec![None, Some("s@x"), Some("a@y"), Some(""), Some("S@X")];
    for n in 1..=tier.pick3(3usize, 4, 5) {
        let (names, froms) = (names.clone(), froms.clone());
        jobs.push(job(format!("lists{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let from = cx.ch.of(&froms);
            for i in 0..names.len().pow(n as u32) {
                let to: Vec<String> = word(&names, n, i).iter().map(|s| s.to_string()).collect();
                cx.eval(true);
                cx.note = format!("pipelining {pipe}, from {from:?} to {to:?}");
                env_case(cx, pipe, from, &to, Env::default());
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // every allowed character on the wire
    jobs.push(job("characters", 0, |cx| {
        let pipe = cx.ch.flag();
        for c in '!'..='~' {
            if c == '<' || c == '>' {
                continue;
            }
            for s in [format!("{c}"), format!("{c}a@b"), format!("a{c}b@c"), format!("a@b{c}"), format!("{c}{c}")] {
                for d in ["r@y".to_string(), s.clone()] {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    env_case(cx, pipe, Some(&s), &[d, s.clone()], Env::default());
                }
            }
        }
    }));
    // numbers of recipients and lengths of addresses, across all internal limits
    jobs.push(job("counts", 0, move |cx| {
        let pipe = cx.ch.flag();
        for n in (1..=tier.pick3(260usize, 600, 1300)).chain([999, 1000, 1001, 1023, 1024, 1025, 4096]) {
            if !cx.ok() {
                return;
            }
            cx.eval(true);
            let to = one_rcpts(n);
            env_case(cx, pipe, Some("s@x"), &to, Env::default());
        }
    }));
    jobs.push(job("huge", 0, |cx| {
        let pipe = cx.ch.flag();
        let to = one_rcpts(65_540);
        cx.eval(true);
        env_case(cx, pipe, None, &to, Env::default());
    }));
    for s in 0..8usize {
        jobs.push(job(format!("lengths/{s}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let mut i = 0;
            for from in [0usize, 1, 64, 254, 1000, 2030, 4060] {
                for l1 in (1..=6usize).chain(60..70).chain(250..260).chain([510, 511, 512, 998, 999, 1000, 1001]).chain(4060..4100) {
                    for l2 in [1usize, 3, 40, 4096] {
                        i += 1;
                        if i % 8 != s {
                            continue;
                        }
                        if !cx.ok() {
                            return;
                        }
                        cx.eval(true);
                        let f = "f".repeat(from);
                        let to = ["p".repeat(l1), "q".repeat(l2), "p".repeat(l1), "r@z".to_string()];
                        env_case(cx, pipe, if from == 0 { None } else { Some(&f) }, &to, Env::default());
                    }
                }
            }
        }));
    }
    // a fixed total length around the pipelining limit, every split into recipients
    jobs.push(job("limit", 0, |cx| {
        let pipe = cx.ch.flag();
        for total in 4000usize..4110 {
            for (k, len) in [(2usize, 1000usize), (40, 80), (200, 5)] {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                let mut to: Vec<String> = (0..k).map(|i| format!("{i}{}", "x".repeat(len))).collect();
                let used: usize = to.iter().map(|s| s.len() + 12).sum();
                to.push("y".repeat(1 + total.saturating_sub(used) % 4200));
                to.push("last@y".into());
                env_case(cx, pipe, Some("s@x"), &to, Env::default());
            }
        }
    }));
    // later messages on one connection, after accepted and rejected ones
    jobs.push(job("later", 0, |cx| {
        let pipe = cx.ch.flag();
        let p = plan();
        let w = strict(&cx.ch, Env::default(), Strict::new(ext(pipe), true, plan_policy(&p)));
        let (t, o) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        let mut after_failure = false;
        for op in 1..=4 {
            begin(&w, op);
            let n = 1 + cx.ch.pick(2);
            let rej = cx.ch.pick(3);
            match rej {
                1 => set(&p, op, Kind::Content, 0, v(552)),
                2 => set(&p, op, Kind::Data, 0, v(451)),
                _ => {}
            }
            let from = if cx.ch.flag() { Some("s@x") } else { None };
            let to: Vec<String> = one_rcpts(n).into_iter().map(|s| format!("op{op}{s}")).collect();
            let tr: Vec<&str> = to.iter().map(|s| s.as_str()).collect();
            let o = send(&w, &mut t, envelope(from, &tr), &Body::Bytes(b"x\r\n".to_vec()), None);
            cx.note = format!("pipelining {pipe}, message {op} from {from:?} to {to:?}");
            if !after_failure || o.is_ok() {
                env_judge(cx, &w, op, from, &to, &o);
            }
            after_failure |= rej != 0;
            cx.see(&o.class());
        }
    }));
    // under awkward I/O
    for (k, env) in [
        Env { read_chunk: Some(1), write_chunk: Some(1), pend_always: true, ..Default::default() },
        Env { write_chunk: Some(5), write_back: true, ..Default::default() },
        Env { c2s_cap: Some(4096), s2c_cap: Some(7), ..Default::default() },
    ]
    .into_iter()
    .enumerate()
    {
        jobs.push(job(format!("awkward/{k}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            for n in [1usize, 2, 3, 50, 150] {
                cx.eval(true);
                env_case(cx, pipe, Some("s@x"), &one_rcpts(n), env.clone());
            }
        }));
    }
    Check { jobs, rule: "one case = one string offered as an address, or one envelope sent to the reference server; non-trivial = a string that must be refused, or any envelope on the wire" }
}

// ---------------------------------------------------------------------------------------------

fn xtext_judge(cx: &mut Cx, s: &str, e: &str, how: &str) {
    if e.bytes().any(|b| b <= b' ' || b == b'=' || b == 0x7f) {
        return cx.bad("unsafe", format!("{how}: {:?} encoded as {:?}", show(s.as_bytes()), show(e.as_bytes())));
    }
    match xtext_decode(e) {
        Some(d) if d == s => {}
        x => cx.bad("lossy", format!("{how}: {:?} encoded as {:?}, which decodes to {x:?}", show(s.as_bytes()), show(e.as_bytes()))),
    }
}

fn xtext_case(cx: &mut Cx, s: &str, all: bool) {
    cx.eval(s.bytes().any(|b| b <= b' ' || b == b'=' || b == b'+' || b >= 0x7f));
    let e = XText(s).to_string();
    xtext_judge(cx, s, &e, "XText");
    if all {
        let m = MailParameter::Other { keyword: "KEY".into(), value: Some(s.to_string()) }.to_string();
        match m.strip_prefix("KEY=") {
            Some(e) => xtext_judge(cx, s, e, "MailParameter"),
            None => cx.bad("parameter", format!("MailParameter {:?}", show(m.as_bytes()))),
        }
        let m = RcptParameter::Other { keyword: "KEY".into(), value: Some(s.to_string()) }.to_string();
        match m.strip_prefix("KEY=") {
            Some(e) => xtext_judge(cx, s, e, "RcptParameter"),
            None => cx.bad("parameter", format!("RcptParameter {:?}", show(m.as_bytes()))),
        }
        let c = MailCommand::new(None, vec![MailParameter::Other { keyword: "KEY".into(), value: Some(s.to_string()) }]).to_string();
        match c.strip_prefix("MAIL FROM:<> KEY=").and_then(|c| c.strip_suffix("\r\n")) {
            Some(e) => xtext_judge(cx, s, e, "MailCommand"),
            None => cx.bad("parameter", format!("MailCommand {:?}", show(c.as_bytes()))),
        }
    }
}

pub fn c15(tier: Tier) -> Check {
    let mut jobs = vec![];
    for len in 0..=3usize {
        let total = 128usize.pow(len as u32);
        let shards = (total / 30_000).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("ascii{len}/{s}"), 0, move |cx| {
                let al: Vec<char> = (0..128u8).map(char::from).collect();
                let mut i = s;
                while i < total && cx.ok() {
                    let t: String = word(&al, len, i).into_iter().collect();
                    xtext_case(cx, &t, len < 3);
                    i += shards;
                }
            }));
        }
    }
    for s in 0..16u32 {
        jobs.push(job(format!("unicode/{s}"), 0, move |cx| {
            let mut c = s;
            while c <= 0x10_ffff && cx.ok() {
                if let Some(ch) = char::from_u32(c) {
                    xtext_case(cx, &format!("{ch}"), true);
                    xtext_case(cx, &format!("{ch}+{ch}"), false);
                    xtext_case(cx, &format!("={ch}\u{1}"), false);
                    xtext_case(cx, &format!("a{ch}2B"), true);
                }
                c += 16;
            }
            cx.note = "every Unicode scalar value in four contexts".into();
        }));
    }
    let al: Vec<char> = "a0BF+= \n\u{7f}\u{1f}é☃".chars().collect();
    for len in 4..=tier.pick3(5usize, 6, 7) {
        let total = al.len().pow(len as u32);
        let shards = (total / 20_000).clamp(1, 64);
        for s in 0..shards {
            let al = al.clone();
            jobs.push(job(format!("critical{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let t: String = word(&al, len, i).into_iter().collect();
                    xtext_case(cx, &t, false);
                    i += shards;
                }
            }));
        }
    }
    // values as they occur, singly and joined
    jobs.push(job("usual", 0, |cx| {
        use super::usual::{NAMES, SECRETS, USERS, VALUES};
        for a in VALUES.iter().chain(USERS).chain(SECRETS).chain(NAMES) {
            xtext_case(cx, a, true);
            for b in VALUES.iter() {
                if !cx.ok() {
                    return;
                }
                for sep in ["", " ", ";", "+", "="] {
                    xtext_case(cx, &format!("{a}{sep}{b}"), false);
                }
            }
        }
    }));
    jobs.push(job("long", 0, |cx| {
        for n in [10usize, 100, 255, 256, 257, 1000, 10_000] {
            for p in ["+", "=", "a+", "é ", "\r\n", "xyz", "\u{7f}a\u{1}"] {
                if !cx.ok() {
                    return;
                }
                xtext_case(cx, &p.repeat(n), true);
                xtext_case(cx, &format!("{}{p}", "x".repeat(n)), true);
            }
        }
    }));
    Check { jobs, rule: "one case = one value encoded and decoded by an independent RFC 3461 decoder; non-trivial = it contains a character that must be escaped or is not ASCII" }
}

// ---------------------------------------------------------------------------------------------

fn line_is(cx: &mut Cx, got: String, want: &str) {
    cx.eval(true);
    let want = format!("{want}\r\n");
    if got != want {
        cx.bad("rendering", format!("{:?} instead of {:?}", show(got.as_bytes()), show(want.as_bytes())));
    }
}

fn one_line(cx: &mut Cx, got: &str) {
    let b = got.as_bytes();
    if !got.ends_with("\r\n") || b[..b.len() - 2].iter().any(|c| *c == b'\r' || *c == b'\n') {
        cx.bad("line", format!("{:?} is not one line", show(b)));
    }
}

/// xtext written out: RFC 3461 section 4, applied to the characters.
fn xtext_ref(s: &str) -> String {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    let mut o = String::new();
    for c in s.chars() {
        let n = c as u32;
        if n <= 0x20 || n == 0x7f || c == '+' || c == '=' {
            o.push('+');
            o.push(HEX[(n >> 4) as usize] as char);
            o.push(HEX[(n & 15) as usize] as char);
        } else {
            o.push(c);
        }
    }
    o
}

fn mail_params() -> Vec<(MailParameter, &'static str)> {
    let o = |k: &str, v: Option<&str>| MailParameter::Other { keyword: k.into(), value: v.map(|s| s.into()) };
    vec![
        (MailParameter::Body(MailBodyParameter::SevenBit), "BODY=7BIT"),
        (MailParameter::Body(MailBodyParameter::EightBitMime), "BODY=8BITMIME"),
        (MailParameter::Size(0), "SIZE=0"),
        (MailParameter::Size(1_048_576), "SIZE=1048576"),
        (MailParameter::SmtpUtfEight, "SMTPUTF8"),
        (o("KEY", None), "KEY"),
        (o("x-Key", Some("v")), "x-Key=v"),
        (o("ENVID", Some("a b=c+d")), "ENVID=a+20b+3Dc+2Bd"),
        (o("E", Some("")), "E="),
        (o("RET", Some("HDRS")), "RET=HDRS"),
    ]
}
fn rcpt_params() -> Vec<(RcptParameter, &'static str)> {
    let o = |k: &str, v: Option<&str>| RcptParameter::Other { keyword: k.into(), value: v.map(|s| s.into()) };
    vec![
        (o("KEY", None), "KEY"),
        (o("NOTIFY", Some("SUCCESS,FAILURE")), "NOTIFY=SUCCESS,FAILURE"),
        (o("ORCPT", Some("rfc822;a+b=c@d e")), "ORCPT=rfc822;a+2Bb+3Dc@d+20e"),
        (o("E", Some("")), "E="),
        (o("x", Some("é")), "x=é"),
    ]
}

pub fn c21(tier: Tier) -> Check {
    let mut jobs = vec![];
    let addrs = ["a@b", "x", "\"q;\"@d", "postmaster@example.org", ""];
    for n in 0..=tier.pick3(4usize, 5, 6) {
        jobs.push(job(format!("mail{n}"), 0, move |cx| {
            let ps = mail_params();
            let ai = cx.ch.pick(addrs.len() + 1);
            let a = if ai == addrs.len() { None } else { Some(addrs[ai]) };
            for i in 0..ps.len().pow(n as u32) {
                let pick: Vec<usize> = word(&(0..ps.len()).collect::<Vec<_>>(), n, i);
                let want: String = pick.iter().map(|k| format!(" {}", ps[*k].1)).collect();
                let got = MailCommand::new(a.map(addr), pick.iter().map(|k| ps[*k].0.clone()).collect()).to_string();
                line_is(cx, got, &format!("MAIL FROM:<{}>{want}", a.unwrap_or("")));
                if !cx.ok() {
                    return;
                }
            }
        }));
        jobs.push(job(format!("rcpt{n}"), 0, move |cx| {
            let ps = rcpt_params();
            let a = addrs[cx.ch.pick(addrs.len())];
            for i in 0..ps.len().pow(n as u32) {
                let pick: Vec<usize> = word(&(0..ps.len()).collect::<Vec<_>>(), n, i);
                let want: String = pick.iter().map(|k| format!(" {}", ps[*k].1)).collect();
                let got = RcptCommand::new(addr(a), pick.iter().map(|k| ps[*k].0.clone()).collect()).to_string();
                line_is(cx, got, &format!("RCPT TO:<{a}>{want}"));
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    jobs.push(job("many-parameters", 0, |cx| {
        for n in [5usize, 9, 10, 11, 32, 64, 100, 1000] {
            let ps: Vec<MailParameter> = (0..n).map(|i| MailParameter::Other { keyword: format!("K{i}"), value: if i % 2 == 0 { Some(i.to_string()) } else { None } }).collect();
            let want: String = (0..n).map(|i| if i % 2 == 0 { format!(" K{i}={i}") } else { format!(" K{i}") }).collect();
            line_is(cx, MailCommand::new(Some(addr("a@b")), ps).to_string(), &format!("MAIL FROM:<a@b>{want}"));
            let ps: Vec<RcptParameter> = (0..n).map(|i| RcptParameter::Other { keyword: format!("K{i}"), value: if i % 3 == 0 { Some(i.to_string()) } else { None } }).collect();
            let want: String = (0..n).map(|i| if i % 3 == 0 { format!(" K{i}={i}") } else { format!(" K{i}") }).collect();
            line_is(cx, RcptCommand::new(addr("a@b"), ps).to_string(), &format!("RCPT TO:<a@b>{want}"));
        }
    }));
    jobs.push(job("fixed", 0, |cx| {
        line_is(cx, StarttlsCommand.to_string(), "STARTTLS");
        line_is(cx, DataCommand.to_string(), "DATA");
        line_is(cx, QuitCommand.to_string(), "QUIT");
        line_is(cx, NoopCommand.to_string(), "NOOP");
        line_is(cx, RsetCommand.to_string(), "RSET");
        line_is(cx, HelpCommand::new(None).to_string(), "HELP");
    }));
    // text arguments: every character but CR and LF, words
    for s in 0..8u32 {
        jobs.push(job(format!("arguments/{s}"), 0, move |cx| {
            let mut c = s;
            while c <= 0x10_ffff && cx.ok() {
                if let Some(ch) = char::from_u32(c) {
                    if ch != '\r' && ch != '\n' {
                        for a in [format!("{ch}"), format!("a{ch}b c")] {
                            line_is(cx, HelpCommand::new(Some(a.clone())).to_string(), &format!("HELP {a}"));
                            line_is(cx, VrfyCommand::new(a.clone()).to_string(), &format!("VRFY {a}"));
                            line_is(cx, ExpnCommand::new(a.clone()).to_string(), &format!("EXPN {a}"));
                            line_is(cx, EhloCommand::new(ClientId::Domain(a.clone())).to_string(), &format!("EHLO {a}"));
                        }
                    }
                }
                c += 8;
            }
            cx.note = "every Unicode scalar value but CR and LF in the text arguments".into();
        }));
    }
    jobs.push(job("lengths", 0, |cx| {
        for n in (1..300usize).chain([511, 512, 513, 1000, 4096, 65_537]) {
            let a = "x".repeat(n);
            line_is(cx, HelpCommand::new(Some(a.clone())).to_string(), &format!("HELP {a}"));
            line_is(cx, VrfyCommand::new(a.clone()).to_string(), &format!("VRFY {a}"));
            line_is(cx, ExpnCommand::new(a.clone()).to_string(), &format!("EXPN {a}"));
            line_is(cx, EhloCommand::new(ClientId::new(a.clone())).to_string(), &format!("EHLO {a}"));
            line_is(cx, MailCommand::new(Some(addr(&a)), vec![]).to_string(), &format!("MAIL FROM:<{a}>"));
            line_is(cx, RcptCommand::new(addr(&a), vec![]).to_string(), &format!("RCPT TO:<{a}>"));
            if !cx.ok() {
                return;
            }
        }
    }));
    jobs.push(job("sizes", 0, |cx| {
        let mut v: Vec<usize> = (0..2000).collect();
        for k in 0..64u32 {
            let p = 1usize << k;
            v.extend([p - 1, p, p + 1]);
        }
        let mut t = 1usize;
        while let Some(x) = t.checked_mul(10) {
            v.extend([x - 1, x, x + 1]);
            t = x;
        }
        v.push(usize::MAX);
        for x in v {
            // decimal digits, computed here
            let mut d = vec![];
            let mut y = x;
            loop {
                d.push((b'0' + (y % 10) as u8) as char);
                y /= 10;
                if y == 0 {
                    break;
                }
            }
            let s: String = d.iter().rev().collect();
            line_is(cx, MailCommand::new(None, vec![MailParameter::Size(x)]).to_string(), &format!("MAIL FROM:<> SIZE={s}"));
            if !cx.ok() {
                return;
            }
        }
    }));
    jobs.push(job("client-ids", 0, |cx| {
        const B: [u8; 7] = [0, 1, 9, 10, 99, 127, 255];
        for i in 0..7usize.pow(4) {
            let o = word(&B, 4, i);
            let id = ClientId::Ipv4(Ipv4Addr::new(o[0], o[1], o[2], o[3]));
            line_is(cx, EhloCommand::new(id).to_string(), &format!("EHLO [{}.{}.{}.{}]", o[0], o[1], o[2], o[3]));
            if !cx.ok() {
                return;
            }
        }
        const H: [u16; 4] = [0, 1, 0xfe80, 0xffff];
        for i in 0..4usize.pow(8) {
            let h = word(&H, 8, i);
            let a = Ipv6Addr::new(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]);
            let got = EhloCommand::new(ClientId::Ipv6(a)).to_string();
            cx.eval(true);
            let back = got.strip_prefix("EHLO [IPv6:").and_then(|s| s.strip_suffix("]\r\n")).and_then(|s| s.parse::<Ipv6Addr>().ok());
            if back != Some(a) {
                return cx.bad("ipv6", format!("{a} rendered as {:?}", show(got.as_bytes())));
            }
        }
        for d in ["example.org", "localhost", "[127.0.0.1]", "a b", "é"] {
            line_is(cx, EhloCommand::new(ClientId::new(d.to_string())).to_string(), &format!("EHLO {d}"));
        }
        let h = EhloCommand::new(ClientId::hostname()).to_string();
        one_line(cx, &h);
        line_is(cx, EhloCommand::new(ClientId::default()).to_string(), "EHLO [127.0.0.1]");
    }));
    // names, arguments, keywords and values as they occur
    jobs.push(job("usual", 0, |cx| {
        use super::usual::{NAMES, SECRETS, USERS, VALUES};
        for a in NAMES.iter().chain(VALUES).chain(USERS).chain(SECRETS).filter(|a| !a.contains(['\r', '\n'])) {
            if !cx.ok() {
                return;
            }
            line_is(cx, EhloCommand::new(ClientId::new(a.to_string())).to_string(), &format!("EHLO {a}"));
            line_is(cx, EhloCommand::new(ClientId::Domain(a.to_string())).to_string(), &format!("EHLO {a}"));
            line_is(cx, HelpCommand::new(Some(a.to_string())).to_string(), &format!("HELP {a}"));
            line_is(cx, VrfyCommand::new(a.to_string()).to_string(), &format!("VRFY {a}"));
            line_is(cx, ExpnCommand::new(a.to_string()).to_string(), &format!("EXPN {a}"));
            for k in ["ORCPT", "ENVID", "AUTH", "NOTIFY", "RET", "MT-PRIORITY", "SIZE", "BODY", "orcpt", "X-1"] {
                let x = xtext_ref(a);
                let m = MailParameter::Other { keyword: k.into(), value: Some(a.to_string()) };
                line_is(cx, MailCommand::new(Some(addr("a@b")), vec![m.clone(), m.clone()]).to_string(), &format!("MAIL FROM:<a@b> {k}={x} {k}={x}"));
                let r = RcptParameter::Other { keyword: k.into(), value: Some(a.to_string()) };
                line_is(cx, RcptCommand::new(addr("a@b"), vec![r.clone(), r]).to_string(), &format!("RCPT TO:<a@b> {k}={x} {k}={x}"));
            }
        }
    }));
    // AUTH in all its forms, credentials of every length
    jobs.push(job("auth", 0, |cx| {
        for n in (0..200usize).chain([255, 256, 511, 512, 1000, 5000]) {
            for (u, p) in [("u".repeat(n), "p".to_string()), ("é".repeat(n / 2), "☃".repeat(n)), (String::new(), "\u{ff}".repeat(n)), ("a".repeat(n), "~?>".repeat(n))] {
                let c = creds(&u, &p);
                if !cx.ok() {
                    return;
                }
                let plain = b64encode(format!("\0{u}\0{p}").as_bytes());
                let xo = b64encode(format!("user={u}\x01auth=Bearer {p}\x01\x01").as_bytes());
                let render = |m, ch: Option<&str>| AuthCommand::new(m, c.clone(), ch.map(|s| s.to_string())).map(|a| a.to_string());
                match render(Mechanism::Plain, None) {
                    Ok(s) => line_is(cx, s, &format!("AUTH PLAIN {plain}")),
                    Err(e) => cx.bad("auth", format!("PLAIN: {e}")),
                }
                match render(Mechanism::Xoauth2, None) {
                    Ok(s) => line_is(cx, s, &format!("AUTH XOAUTH2 {xo}")),
                    Err(e) => cx.bad("auth", format!("XOAUTH2: {e}")),
                }
                match render(Mechanism::Login, None) {
                    Ok(s) => line_is(cx, s, "AUTH LOGIN"),
                    Err(e) => cx.bad("auth", format!("LOGIN: {e}")),
                }
                for (ch, want) in [("Username:", &u), ("User Name", &u), ("Username", &u), ("Password:", &p), ("Password", &p)] {
                    match render(Mechanism::Login, Some(ch)) {
                        Ok(s) => line_is(cx, s, &b64encode(want.as_bytes())),
                        Err(e) => cx.bad("auth", format!("LOGIN {ch}: {e}")),
                    }
                    let r: Result<Response, _> = format!("334 {}\r\n", b64encode(ch.as_bytes())).parse();
                    let Ok(r) = r else { continue };
                    match AuthCommand::new_from_response(Mechanism::Login, c.clone(), &r) {
                        Ok(s) => line_is(cx, s.to_string(), &b64encode(want.as_bytes())),
                        Err(e) => cx.bad("auth", format!("LOGIN {ch}: {e}")),
                    }
                }
            }
        }
    }));
    // any keyword, any value, on either command and next to other parameters
    for s in 0..8u32 {
        jobs.push(job(format!("parameter-values/{s}"), 0, move |cx| {
            let mut c = s;
            while c <= 0x10_ffff && cx.ok() {
                if let Some(ch) = char::from_u32(c) {
                    for v in [format!("{ch}"), format!("a{ch}{ch}b")] {
                        let x = xtext_ref(&v);
                        let mo = MailParameter::Other { keyword: "KEY".into(), value: Some(v.clone()) };
                        line_is(cx, MailCommand::new(None, vec![mo.clone()]).to_string(), &format!("MAIL FROM:<> KEY={x}"));
                        line_is(cx, MailCommand::new(Some(addr("a@b")), vec![MailParameter::SmtpUtfEight, mo, MailParameter::Size(7)]).to_string(), &format!("MAIL FROM:<a@b> SMTPUTF8 KEY={x} SIZE=7"));
                        let ro = RcptParameter::Other { keyword: "k-1".into(), value: Some(v.clone()) };
                        let bare = RcptParameter::Other { keyword: "NONE".into(), value: None };
                        line_is(cx, RcptCommand::new(addr("a@b"), vec![ro.clone()]).to_string(), &format!("RCPT TO:<a@b> k-1={x}"));
                        line_is(cx, RcptCommand::new(addr("a@b"), vec![bare.clone(), ro, bare]).to_string(), &format!("RCPT TO:<a@b> NONE k-1={x} NONE"));
                    }
                }
                c += 8;
            }
            cx.note = "every Unicode scalar value in the values of parameters".into();
        }));
    }
    jobs.push(job("parameter-keywords", 0, |cx| {
        let al: Vec<char> = "Aaz09-ZB".chars().collect();
        for len in 1..=4usize {
            for i in 0..al.len().pow(len as u32) {
                let k: String = word(&al, len, i).into_iter().collect();
                if !cx.ok() {
                    return;
                }
                for v in [None, Some(""), Some("v"), Some("=")] {
                    let val = v.map(|v| v.to_string());
                    let want = match v {
                        None => k.clone(),
                        Some(v) => format!("{k}={}", xtext_ref(v)),
                    };
                    let m = MailParameter::Other { keyword: k.clone(), value: val.clone() };
                    line_is(cx, MailCommand::new(Some(addr("a@b")), vec![m]).to_string(), &format!("MAIL FROM:<a@b> {want}"));
                    let r = RcptParameter::Other { keyword: k.clone(), value: val };
                    line_is(cx, RcptCommand::new(addr("a@b"), vec![r]).to_string(), &format!("RCPT TO:<a@b> {want}"));
                }
            }
        }
        // the keywords of the library's own parameters, given by hand
        for k in ["BODY", "body", "SIZE", "SMTPUTF8", "AUTH", "RET", "ENVID", "NOTIFY", "ORCPT", "MT-PRIORITY"] {
            for v in [None, Some(""), Some("7BIT"), Some("8BITMIME"), Some("0"), Some("<>"), Some("e+3D@x"), Some("a=b c")] {
                let want = match v {
                    None => k.to_string(),
                    Some(v) => format!("{k}={}", xtext_ref(v)),
                };
                let m = MailParameter::Other { keyword: k.into(), value: v.map(|v| v.to_string()) };
                line_is(cx, MailCommand::new(None, vec![m.clone(), MailParameter::Body(MailBodyParameter::SevenBit), m]).to_string(), &format!("MAIL FROM:<> {want} BODY=7BIT {want}"));
                let r = RcptParameter::Other { keyword: k.into(), value: v.map(|v| v.to_string()) };
                line_is(cx, RcptCommand::new(addr("a@b"), vec![r]).to_string(), &format!("RCPT TO:<a@b> {want}"));
            }
        }
        for n in (1..200usize).chain([255, 256, 511, 512, 1000, 65_536]) {
            for p in ["x", "+", "=é"] {
                let (k, v) = ("K".repeat(n), p.repeat(n));
                let m = MailParameter::Other { keyword: k.clone(), value: Some(v.clone()) };
                line_is(cx, MailCommand::new(None, vec![m]).to_string(), &format!("MAIL FROM:<> {k}={}", xtext_ref(&v)));
            }
        }
    }));
    // a client identity for every kind of address: well-known, mapped, compatible, scoped ...
    jobs.push(job("client-addresses", 0, |cx| {
        for hi in 0..=0xffu16 {
            for (a, b) in [(0u16, 1u16), (0xffff, 0x7f00), (0, 0), (0x5efe, 0xc0a8), (0xffff, 0xffff)] {
                for c in [0u16, 1, 0x0102, 0xffff] {
                    for pre in [hi << 8, hi, 0x2000 | hi] {
                        for x in [Ipv6Addr::new(0, 0, 0, 0, pre, a, b, c), Ipv6Addr::new(pre, 0, 0, 0, 0, a, b, c), Ipv6Addr::new(pre, 0xb8, 0, 0, a, 0, 0, c), Ipv6Addr::new(0, pre, 0, a, 0, b, 0, c)] {
                            let got = EhloCommand::new(ClientId::Ipv6(x)).to_string();
                            cx.eval(true);
                            let back = got.strip_prefix("EHLO [IPv6:").and_then(|s| s.strip_suffix("]\r\n")).and_then(|s| s.parse::<Ipv6Addr>().ok());
                            if back != Some(x) {
                                return cx.bad("ipv6", format!("{x} rendered as {:?}", show(got.as_bytes())));
                            }
                        }
                    }
                }
            }
        }
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                for o in [[a, b, 0, 1], [127, a, b, 255], [a, 0, 0, b]] {
                    line_is(cx, EhloCommand::new(ClientId::Ipv4(Ipv4Addr::new(o[0], o[1], o[2], o[3]))).to_string(), &format!("EHLO [{}.{}.{}.{}]", o[0], o[1], o[2], o[3]));
                    if !cx.ok() {
                        return;
                    }
                }
            }
        }
    }));
    Check { jobs, rule: "one case = one command value rendered and compared with the line written out independently" }
}

//! C10 capabilities, C13 STARTTLS, C16 session opening, C19 client settings.

use super::*;
use crate::refs::*;
use async_smtp::authentication::Mechanism;
use async_smtp::extension::{ClientId, Extension, ServerInfo};
use async_smtp::response::Response;
use async_smtp::SmtpClient;

const MECHS: [(Mechanism, &str); 3] = [(Mechanism::Plain, "AUTH PLAIN"), (Mechanism::Login, "AUTH LOGIN"), (Mechanism::Xoauth2, "AUTH XOAUTH2")];

fn all_ext() -> Vec<(Extension, &'static str)> {
    let mut v = vec![
        (Extension::Pipelining, "PIPELINING"),
        (Extension::EightBitMime, "8BITMIME"),
        (Extension::SmtpUtfEight, "SMTPUTF8"),
        (Extension::StartTls, "STARTTLS"),
    ];
    for (m, n) in MECHS {
        v.push((Extension::Authentication(m), n));
    }
    v
}

/// ServerInfo::from_response against the reference reading of the lines.
fn caps_case(cx: &mut Cx, lines: &[String]) {
    let r = reps(250, lines);
    let text = String::from_utf8_lossy(&r.bytes).to_string();
    let Ok(resp) = text.parse::<Response>() else {
        return cx.bad("parse", format!("{:?} was not parsed", show(&r.bytes)));
    };
    let want = ref_caps(lines);
    cx.eval(want.as_ref().map_or(true, |w| !w.1.is_empty()));
    match (ServerInfo::from_response(&resp), want) {
        (Err(_), None) => {}
        (Ok(i), None) => cx.bad("no-name", format!("{lines:?} names no server, read as {:?}", i.name)),
        (Err(e), Some(_)) => cx.bad("refused", format!("{lines:?}: {e}")),
        (Ok(i), Some((name, f))) => {
            if i.name != name {
                return cx.bad("name", format!("{lines:?}: name {:?}", i.name));
            }
            let mut n = 0;
            for (e, k) in all_ext() {
                let has = i.supports_feature(e);
                n += has as usize;
                if has != f.contains(&k) || has != i.features.contains(&e) {
                    return cx.bad("capability", format!("{lines:?}: {k} counts as {}", if has { "offered" } else { "not offered" }));
                }
            }
            for (m, k) in MECHS {
                if i.supports_auth_mechanism(m) != f.contains(&k) {
                    return cx.bad("capability", format!("{lines:?}: {k}"));
                }
            }
            if i.features.len() != n {
                cx.bad("capability", format!("{lines:?}: {:?}", i.features));
            }
        }
    }
}

/// What a session uses: operations reveal which capabilities the client believes are offered.
/// `policy` must reject logins; consumes the transport.
fn used_caps(w: &W, mut t: T, base: usize) -> Result<Vec<&'static str>, String> {
    let mut f = vec![];
    begin(w, base + 1);
    let o = send(w, &mut t, envelope(Some("s@x"), &["a@y", "b@y"]), &Body::Bytes(b"\xffx\r\n".to_vec()), None);
    if !o.is_ok() {
        return Err(format!("send: {o:?}"));
    }
    {
        let g = lock(w);
        let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return Err("no server".into()) };
        let cs: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == base + 1 && matches!(c.kind, Kind::Mail | Kind::Rcpt)).collect();
        for p in cs.first().and_then(|c| parse_path(&c.line[10..])).map_or(vec![], |x| x.1) {
            match p.to_ascii_uppercase().as_str() {
                "BODY=8BITMIME" => f.push("8BITMIME"),
                "SMTPUTF8" => f.push("SMTPUTF8"),
                _ => f.push("unknown parameter"),
            }
        }
        if cs.len() >= 2 && g.consumed_when_written(cs[1].start).unwrap_or(0) < cs[0].rep_end {
            f.push("PIPELINING");
        }
    }
    for (k, (m, n)) in MECHS.into_iter().enumerate() {
        begin(w, base + 2 + k);
        let before = lock(w).written.len();
        try_login(w, &mut t, &creds("alice", "wonderland"), &[m]);
        if lock(w).written.len() > before {
            f.push(n);
        }
    }
    begin(w, base + 9);
    let before = lock(w).written.len();
    starttls(w, t);
    if lock(w).written.len() > before {
        f.push("STARTTLS");
    }
    f.sort_unstable();
    Ok(f)
}

fn no_logins() -> Policy {
    Box::new(|a| match a.kind {
        Kind::Auth | Kind::AuthStep => Some(rep(535, "no")),
        _ => None,
    })
}

fn wire_caps(cx: &mut Cx, lines: &[String], env: Env) {
    wire_caps_greeted(cx, lines, rep(220, "mx.test ready"), env)
}

fn wire_caps_greeted(cx: &mut Cx, lines: &[String], greeting: Rep, env: Env) {
    let want = ref_caps(lines);
    cx.eval(true);
    let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    let w = strict(&cx.ch, env, Strict::new(&l, true, no_logins()).greeting(Some(greeting)));
    let (t, o) = connect(&w, SmtpClient::new().smtp_utf8(true));
    match (t, want) {
        (None, None) if o.is_err() => {}
        (None, _) => cx.bad("connect", format!("{lines:?}: {o:?}")),
        (Some(_), None) => cx.bad("no-name", format!("{lines:?} names no server, but the session was opened")),
        (Some(t), Some((_, f))) => match used_caps(&w, t, 0) {
            Err(e) => cx.bad("session", format!("{lines:?}: {e}")),
            Ok(u) if u != f => cx.bad("capability", format!("EHLO reply {lines:?}: the client uses {u:?}, offered are {f:?}")),
            Ok(u) => cx.see(&u),
        },
    }
}

const LINES: &[&str] = &[
    "PIPELINING",
    "pipelining",
    "Pipelining x",
    "PIPELININGX",
    "XPIPELINING",
    "PIPELINE",
    "8BITMIME",
    "8bitmime",
    "8BITMIME y",
    "8BITMIMES",
    "X8BITMIME",
    "BITMIME",
    "SMTPUTF8",
    "SmtpUtf8",
    "SMTPUTF8 z",
    "SMTPUTF81",
    "UTF8SMTP",
    "SMTPUTF",
    "STARTTLS",
    "starttls",
    "STARTTLS PIPELINING",
    "STARTTLSX",
    "XSTARTTLS",
    "START TLS",
    "STARTTLS=1",
    "AUTH PLAIN",
    "auth plain",
    "AUTH Login",
    "AUTH LOGIN PLAIN",
    "AUTH XOAUTH2",
    "Auth XOauth2 CRAM-MD5 plain",
    "AUTH",
    "AUTH ",
    "AUTH=PLAIN",
    "AUTH=LOGIN PLAIN",
    "AUTHPLAIN",
    "AUTH PLAINX",
    "AUTH XPLAIN",
    "AUTH PLAIN-CLIENTTOKEN",
    "AUTH XOAUTH",
    "AUTH LOGINS XOAUTH22",
    "AUTH PLAIN,LOGIN",
    "AUTH AUTH",
    "AUTH AUTH PLAIN",
    "X-AUTH PLAIN",
    "HELP AUTH PLAIN",
    "PLAIN",
    "LOGIN XOAUTH2",
    "SIZE 8BITMIME",
    "HELP PIPELINING STARTTLS",
    "ENHANCEDSTATUSCODES",
    "",
    "250 PIPELINING",
    "250-STARTTLS",
    "-STARTTLS",
    "DSN SMTPUTF8",
    "AUTH PLAIN STARTTLS 8BITMIME",
    "AUTH  LOGIN",
    "STARTTLS ",
    "AUTH NTLM GSSAPI",
];
const FIRST: &[&str] = &["mx.test", "mx.test greets PIPELINING", "PIPELINING", "AUTH PLAIN LOGIN", "", " ", "  "];

pub fn c10(tier: Tier) -> Check {
    let mut jobs = vec![];
    let n = LINES.len();
    for len in 0..=tier.pick(3usize, 4) {
        for (fi, first) in FIRST.iter().enumerate() {
            if len == 4 && fi > 0 {
                continue;
            }
            let total = n.pow(len as u32);
            let shards = (total / 30_000).clamp(1, 64);
            for s in 0..shards {
                jobs.push(job(format!("lines{len}/{fi}/{s}"), 0, move |cx| {
                    let mut i = s;
                    while i < total && cx.ok() {
                        let mut l: Vec<String> = vec![first.to_string()];
                        l.extend(word(LINES, len, i).iter().map(|s| s.to_string()));
                        caps_case(cx, &l);
                        i += shards;
                    }
                }));
            }
        }
    }
    // every case variant of every keyword and mechanism
    for (k, kw) in ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH", "PLAIN", "LOGIN", "XOAUTH2"].into_iter().enumerate() {
        jobs.push(job(format!("case/{k}"), 0, move |cx| {
            let letters: Vec<usize> = (0..kw.len()).filter(|i| kw.as_bytes()[*i].is_ascii_alphabetic()).collect();
            for m in 0..1usize << letters.len() {
                let mut b = kw.as_bytes().to_vec();
                for (j, p) in letters.iter().enumerate() {
                    if m >> j & 1 == 1 {
                        b[*p] = b[*p].to_ascii_lowercase();
                    }
                }
                let v = String::from_utf8_lossy(&b).to_string();
                let line = match k {
                    0..=3 => v,
                    4 => format!("{v} PLAIN XOAUTH2"),
                    _ => format!("AUTH CRAM-MD5 {v} OTHER"),
                };
                caps_case(cx, &["mx.test".to_string(), line.clone()]);
                caps_case(cx, &["mx.test".to_string(), "SIZE".into(), line, "HELP".into()]);
                if !cx.ok() {
                    return;
                }
            }
        }));
        // every single-character mutation: insertion, deletion, replacement
        jobs.push(job(format!("mutation/{k}"), 0, move |cx| {
            // Characters of other alphabets that Unicode maps to an ASCII letter are not judged.
            let chars: Vec<char> = ('!'..='~').chain(['é', '☃', '\u{ff21}', '\u{200b}']).collect();
            let kwc: Vec<char> = kw.chars().collect();
            let mut words: Vec<String> = vec![];
            for p in 0..=kwc.len() {
                for c in &chars {
                    let mut m = kwc.clone();
                    m.insert(p, *c);
                    words.push(m.iter().collect());
                    if p < kwc.len() {
                        m = kwc.clone();
                        m[p] = *c;
                        words.push(m.iter().collect());
                    }
                }
                if p < kwc.len() {
                    let mut m = kwc.clone();
                    m.remove(p);
                    words.push(m.iter().collect());
                    m = kwc.clone();
                    m.insert(p, ' ');
                    if p > 0 {
                        words.push(m.iter().collect());
                    }
                }
            }
            for v in words {
                let line = match k {
                    0..=3 => v,
                    4 => format!("{v} PLAIN XOAUTH2"),
                    _ => format!("AUTH CRAM-MD5 {v} OTHER"),
                };
                caps_case(cx, &["mx.test".to_string(), line.clone(), "HELP".into()]);
                caps_case(cx, &[line, "HELP".into()]);
                if !cx.ok() {
                    return;
                }
            }
        }));
    }
    // many lines, a known keyword at every position
    jobs.push(job("positions", 0, |cx| {
        for n in [1usize, 2, 3, 9, 10, 11, 31, 32, 33, 64, 100, 256, 300] {
            for i in 0..n {
                if n > 100 && i % 17 != 0 && i + 1 != n {
                    continue;
                }
                for kw in ["STARTTLS", "auth login", "8BITMIME"] {
                    let mut l: Vec<String> = (0..n).map(|j| format!("X{j} STARTTLS")).collect();
                    l[i] = kw.to_string();
                    l.insert(0, "mx.test".into());
                    caps_case(cx, &l);
                    if !cx.ok() {
                        return;
                    }
                }
            }
        }
        // far down, or in a long line
        for n in [500usize, 511, 512, 999, 1000, 1001, 1024, 2048, 4097, 10_000, 65_536, 70_000] {
            for kw in ["STARTTLS", "auth login", "8BITMIME", "PIPELINING"] {
                let mut l: Vec<String> = (0..n).map(|j| format!("X{}", j % 7)).collect();
                l[n - 1] = kw.to_string();
                l.insert(0, "mx.test".into());
                caps_case(cx, &l);
                if !cx.ok() {
                    return;
                }
            }
        }
        for n in [100usize, 255, 256, 500, 501, 512, 513, 1000, 1024, 4096, 10_000, 100_000] {
            let x = "x".repeat(n);
            for l in [format!("STARTTLS {x}"), format!("AUTH {x} PLAIN"), format!("AUTH PLAIN {x}"), format!("AUTH {} LOGIN", "Y ".repeat(n)), format!("{x} STARTTLS"), format!("PIPELINING{}", " ".repeat(n))] {
                caps_case(cx, &["mx.test".into(), l.clone(), "8BITMIME".into()]);
                caps_case(cx, &[format!("mx.test {x}"), x.clone(), l]);
                if !cx.ok() {
                    return;
                }
            }
        }
        // a mechanism at every position of a long AUTH line
        for n in [1usize, 2, 5, 20, 100, 300] {
            for i in 0..n {
                let l: Vec<String> = (0..n).map(|j| if i == j { "XOAUTH2".to_string() } else { format!("M{j}") }).collect();
                caps_case(cx, &["mx.test".into(), format!("AUTH {}", l.join(" "))]);
            }
        }
    }));
    // names
    jobs.push(job("names", 0, |cx| {
        for c in (0x21u32..0x2_ffff).filter_map(char::from_u32).filter(|c| !c.is_whitespace() && !c.is_control()) {
            caps_case(cx, &[format!("{c}x{c} hello {c}"), "STARTTLS".into()]);
            if !cx.ok() {
                return;
            }
        }
        for n in [1usize, 63, 255, 1000, 10_000] {
            caps_case(cx, &["n".repeat(n)]);
            caps_case(cx, &[format!("{} greets you", "n".repeat(n)), "AUTH LOGIN".into()]);
        }
    }));
    // servers in use
    jobs.push(job("usual", 0, |cx| {
        for (i, e) in super::usual::EHLOS.iter().enumerate() {
            let l: Vec<String> = e.iter().map(|s| s.to_string()).collect();
            caps_case(cx, &l);
            for k in 1..l.len() {
                // without one line, with it last, with it twice, cut after it
                let mut m = l.clone();
                let x = m.remove(k);
                caps_case(cx, &m);
                m.push(x.clone());
                caps_case(cx, &m);
                m.insert(1, x);
                caps_case(cx, &m);
                caps_case(cx, &l[..=k]);
            }
            for (j, f) in super::usual::EHLOS.iter().enumerate() {
                if i != j {
                    caps_case(cx, &e.iter().chain(&f[1..]).map(|s| s.to_string()).collect::<Vec<_>>());
                }
            }
            for g in super::usual::GREETINGS {
                if !cx.ok() {
                    return;
                }
                cx.note = format!("greeting {g:?}, EHLO reply {l:?}");
                wire_caps_greeted(cx, &l, reps(220, g), Env::default());
            }
        }
    }));
    // over the wire: what the session then uses
    for len in 0..=tier.pick(2usize, 3) {
        let total = n.pow(len as u32);
        let shards = (total / 400).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("wire{len}/{s}"), 0, move |cx| {
                let mut i = s;
                let fi = if len < 2 { cx.ch.pick(FIRST.len()) } else { usize::MAX };
                while i < total && cx.ok() {
                    let mut l: Vec<String> = vec![FIRST[if len < 2 { fi } else { (i / 3) % 4 }].to_string()];
                    l.extend(word(LINES, len, i).iter().map(|s| s.to_string()));
                    cx.note = format!("EHLO reply {l:?}");
                    wire_caps(cx, &l, Env { read_chunk: if i % 2 == 0 { None } else { Some(1 + i % 11) }, ..Default::default() });
                    i += shards;
                }
            }));
        }
    }
    Check { jobs, rule: "one case = one EHLO reply; non-trivial = it offers something or names no server (direct), or any whole session (over the wire)" }
}

// ---------------------------------------------------------------------------------------------

const OFFERS: &[(&[&str], bool)] = &[
    (&["mx.test", "STARTTLS"], true),
    (&["mx.test", "PIPELINING", "starttls", "AUTH PLAIN"], true),
    (&["mx.test", "AUTH LOGIN", "SIZE 1", "StartTLS now"], true),
    (&["mx.test"], false),
    (&["mx.test", "AUTH PLAIN LOGIN XOAUTH2", "PIPELINING", "8BITMIME", "SMTPUTF8"], false),
    (&["mx.test", "XSTARTTLS", "STARTTLSX", "HELP STARTTLS"], false),
    (&["STARTTLS", "PIPELINING"], false),
    (&["mx.test STARTTLS"], false),
];

/// One upgrade; returns the stream if the client handed it over.
fn upgrade(cx: &mut Cx, offer: usize, a: &Rep, trailing: &[u8], env: Env, before: usize) -> (W, Option<Pipe>, Out) {
    let (lines, offered) = OFFERS[offer];
    let a2 = a.clone();
    let mut s = Strict::new(lines, true, Box::new(move |q| match q.kind {
        Kind::StartTls => Some(a2.clone()),
        Kind::Rcpt if q.op == 1 => Some(rep(550, "no")),
        Kind::Auth => Some(rep(535, "no")),
        _ => None,
    }));
    s.after_starttls = trailing.to_vec();
    let w = strict(&cx.ch, env, s);
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else {
        cx.bad("connect", format!("{o:?}"));
        return (w, None, o);
    };
    match before {
        1 => {
            begin(&w, 1);
            send(&w, &mut t, envelope(None, &["a@b"]), &Body::Bytes(b"x".to_vec()), None);
        }
        2 => {
            begin(&w, 2);
            send(&w, &mut t, envelope(None, &["a@b", "c@d"]), &Body::Bytes(b"x\r\n".to_vec()), None);
        }
        3 => {
            begin(&w, 3);
            auth(&w, &mut t, Mechanism::Plain, &creds("u", "p"));
        }
        _ => {}
    }
    begin(&w, 7);
    let (start, unread_before) = {
        let g = lock(&w);
        (g.written.len(), g.s2c.len() - g.consumed)
    };
    let (p, o) = starttls(&w, t);
    let g = lock(&w);
    let sent = g.written[start..].to_vec();
    // The transaction of an earlier rejected send may be reset first.
    let sent_cmd = sent.strip_prefix(b"RSET\r\n").unwrap_or(&sent).to_vec();
    drop(g);
    let what = || format!("offer {lines:?}, answered {:?}, followed by {:?}: {o:?}", show(&a.bytes), show(trailing));
    if !offered {
        if !sent.is_empty() {
            cx.bad("not-offered", format!("{}: {:?} was sent", what(), show(&sent)));
        }
        if !o.is_err() {
            cx.bad("not-offered", what());
        }
        return (w, p, o);
    }
    if !sent_cmd.eq_ignore_ascii_case(b"STARTTLS\r\n") {
        cx.bad("plaintext", format!("{}: {:?} was sent", what(), show(&sent)));
    }
    if unread_before != 0 {
        cx.bad("unread", format!("{}: {unread_before} bytes were unread before", what()));
    }
    if is_neg(a.code) {
        match &o {
            Out::Rej { code, lines, .. } if *code == a.code && *lines == a.lines => {}
            _ => cx.bad("refusal", what()),
        }
    } else if a.code / 100 == 2 {
        match &p {
            None => cx.bad("not-upgraded", what()),
            Some(p) => {
                let left = p.unread();
                if left != trailing {
                    cx.bad("boundary", format!("{}: {:?} left to be read", what(), show(&left)));
                }
                if lock(&w).shut {
                    cx.bad("shutdown", what());
                }
            }
        }
    }
    (w, p, o)
}

const TRAIL: &[&[u8]] = &[
    b"",
    b"\x16\x03\x03\x00\x05hello",
    b"250 injected\r\n",
    b"250-more\r\n250 lines\r\n",
    b"\r\n",
    b"\n",
    b" ",
    b"\0\xff\xfe no line end",
    b"220 go ahead\r\n220 again\r\n",
    b"2",
];

pub fn c13(tier: Tier) -> Check {
    let mut jobs = vec![];
    for offer in 0..OFFERS.len() {
        jobs.push(job(format!("codes/{offer}"), 0, move |cx| {
            let code = cx.ch.of(&definite_codes());
            let sh = cx.ch.pick(SHAPES.len());
            let tr = TRAIL[cx.ch.pick(TRAIL.len())];
            let a = shape(code, sh).rep("q");
            cx.note = format!("offer {:?}, answered {:?}, then {:?}", OFFERS[offer].0, show(&a.bytes), show(tr));
            let (w, _, o) = upgrade(cx, offer, &a, tr, Env::default(), 0);
            see_session(cx, &w, &[o]);
        }));
        // bare code, after other operations
        jobs.push(job(format!("after/{offer}"), 0, move |cx| {
            let before = cx.ch.pick(4);
            let code = cx.ch.of(&[220u16, 250, 454, 501, 502, 421]);
            let tr = TRAIL[cx.ch.pick(TRAIL.len())];
            let mut a = rep(code, "q");
            if cx.ch.flag() {
                a = Rep { bytes: format!("{code}\r\n").into_bytes(), code, lines: vec![String::new()], close: false };
            }
            cx.note = format!("offer {:?}, earlier operation {before}, answered {:?}, then {:?}", OFFERS[offer].0, show(&a.bytes), show(tr));
            let (w, _, o) = upgrade(cx, offer, &a, tr, Env::default(), before);
            see_session(cx, &w, &[o]);
        }));
    }
    // after anything else that may have happened on the connection
    jobs.push(job("after-anything", 0, |cx| {
        let what = any_prior(cx, 99);
        let offer = cx.ch.pick(OFFERS.len());
        let code = cx.ch.of(&[220u16, 250, 454, 501]);
        let tr = TRAIL[cx.ch.pick(TRAIL.len())];
        let rd = cx.ch.of(&[None, Some(1usize)]);
        let a = shape(code, 1).rep("q");
        cx.note = format!("{what}offer {:?}, answered {:?}, then {:?}", OFFERS[offer].0, show(&a.bytes), show(tr));
        let (w, _, o) = upgrade(cx, offer, &a, tr, Env { read_chunk: rd, ..Default::default() }, 0);
        see_session(cx, &w, &[o]);
    }));
    // usual words
    jobs.push(job("usual", 0, |cx| {
        let offer = cx.ch.pick(OFFERS.len());
        let code = cx.ch.of(&[220u16, 250, 421, 454, 501, 502, 503, 554]);
        let tr = cx.ch.of(&[&b""[..], b"\x16\x03\x03\x00\x05hello", b"220 again\r\n"]);
        let before = cx.ch.of(&[0usize, 2]);
        for t in super::usual::TEXTS {
            if !cx.ok() {
                return;
            }
            cx.eval(true);
            let a = reps(code, t);
            cx.note = format!("offer {:?}, answered {:?}, then {:?}", OFFERS[offer].0, show(&a.bytes), show(tr));
            let (_, _, o) = upgrade(cx, offer, &a, tr, Env::default(), before);
            cx.see(&o.class());
        }
    }));
    // every segmentation of the reply and the bytes after it
    for (k, (a, tr)) in [
        (reps(220, &["go"]), &b"\x16\x03\x01\x00\x05hello"[..]),
        (reps(220, &["go", "on", ""]), b"250 injected\r\n"),
        (reps(454, &["no", "way"]), b"250 x\r\n"),
        (Rep { bytes: b"220\r\n".to_vec(), code: 220, lines: vec![String::new()], close: false }, b"\r\n220 \r\n"),
    ]
    .into_iter()
    .enumerate()
    {
        let a1 = a.clone();
        jobs.push(job(format!("split/{k}"), tier.pick3(2, 3, 4), move |cx| {
            let env = Env { dev_split: true, dev_pend: true, dev_short: true, ..Default::default() };
            cx.note = format!("answered {:?}, then {:?}, all segmentations", show(&a1.bytes), show(tr));
            let (w, _, o) = upgrade(cx, 0, &a1, tr, env, 0);
            see_session(cx, &w, &[o]);
        }));
        jobs.push(job(format!("chunks/{k}"), 0, move |cx| {
            let n = 1 + cx.ch.pick(40);
            let offer = cx.ch.pick(OFFERS.len());
            cx.note = format!("answered {:?}, then {:?}, in chunks of {n}", show(&a.bytes), show(tr));
            let env = Env { read_chunk: Some(n), write_chunk: Some(1 + n % 3), pend_always: n % 4 == 0, write_back: n % 5 == 0, ..Default::default() };
            let (w, _, o) = upgrade(cx, offer, &a, tr, env, 0);
            see_session(cx, &w, &[o]);
        }));
    }
    // long trailing data
    jobs.push(job("bulk", 0, |cx| {
        let n = cx.ch.of(&[100usize, 1000, 8191, 8192, 8193, 100_000]);
        let nl = cx.ch.flag();
        let tr: Vec<u8> = (0..n).map(|i| if nl && i % 80 == 79 { b'\n' } else { (i % 251) as u8 | 0x80 }).collect();
        let lines = cx.ch.of(&[1usize, 2, 60]);
        let t: Vec<String> = (0..lines).map(|i| format!("line {i}")).collect();
        let (_, _, o) = upgrade(cx, 0, &reps(220, &t), &tr, Env::default(), 0);
        cx.see(&o.class());
    }));
    // the session on the returned stream uses only what is offered there
    jobs.push(job("second-session", 0, |cx| {
        let offer = cx.ch.pick(3);
        let caps = ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH PLAIN", "AUTH LOGIN", "AUTH XOAUTH2"];
        let mask = cx.ch.pick(1 << caps.len());
        let (w, p, o) = upgrade(cx, offer, &rep(220, "go"), b"", Env::default(), 0);
        let Some(p) = p else { return };
        let mut lines = vec!["inner.test"];
        lines.extend((0..caps.len()).filter(|i| mask >> i & 1 == 1).map(|i| caps[i]));
        lock(&w).server = Some(Box::new(Strict::new(&lines, false, no_logins())));
        begin(&w, 10);
        let (t, o2) = connect_pipe(&w, SmtpClient::new().without_greeting().smtp_utf8(true), p, None);
        cx.note = format!("upgraded from {:?} to a server offering {lines:?}", OFFERS[offer].0);
        let Some(t) = t else { return cx.bad("second-session", format!("{o:?}, then {o2:?}")) };
        let mut want: Vec<&str> = (0..caps.len()).filter(|i| mask >> i & 1 == 1).map(|i| caps[i]).collect();
        want.sort_unstable();
        match used_caps(&w, t, 10) {
            Ok(u) if u == want => cx.see(&u),
            u => cx.bad("second-session", format!("offered inside TLS {want:?}, used {u:?}")),
        }
    }));
    Check { jobs, rule: "one execution = one STARTTLS upgrade (offer, reply, following bytes, segmentation); distinct = different wire trace or outcome" }
}

// ---------------------------------------------------------------------------------------------

fn hello_names() -> Vec<(ClientId, String)> {
    vec![
        (ClientId::default(), "[127.0.0.1]".into()),
        (ClientId::new("client.example.org".into()), "client.example.org".into()),
        (ClientId::Ipv4([192, 0, 2, 255].into()), "[192.0.2.255]".into()),
        (ClientId::Ipv6([0x2001, 0xdb8, 0, 0, 0, 0, 0, 1].into()), "[IPv6:2001:db8::1]".into()),
        (ClientId::new("x".repeat(300)), "x".repeat(300)),
        (ClientId::new("bücher.example".into()), "bücher.example".into()),
        (ClientId::new("EHLO".into()), "EHLO".into()),
    ]
}

struct Opening {
    greeting: Option<Rep>,
    ehlo: Rep,
    name: usize,
}

fn opening(cx: &mut Cx, x: &Opening, env: Env) {
    let hello = hello_names().swap_remove(x.name);
    opening_as(cx, x, hello, env)
}

fn opening_as(cx: &mut Cx, x: &Opening, (id, name): (ClientId, String), env: Env) {
    let e = x.ehlo.clone();
    let expect = x.greeting.is_some();
    let s = Strict::new(&["unused"], false, Box::new(move |q| if q.kind == Kind::Ehlo { Some(e.clone()) } else { None })).greeting(x.greeting.clone());
    let w = strict(&cx.ch, env, s);
    let mut c = SmtpClient::new().hello_name(id);
    if !expect {
        c = c.without_greeting();
    }
    let (t, o) = connect(&w, c);
    let g = lock(&w);
    let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return };
    let what = format!(
        "greeting {:?}, EHLO answered {:?}, hello name {name:?}: {}",
        x.greeting.as_ref().map(|g| show(&g.bytes)),
        show(&x.ehlo.bytes),
        o.class()
    );
    let mut bad: Vec<(&str, String)> = vec![];
    let g_ok = x.greeting.as_ref().map_or(true, |g| g.code / 100 == 2);
    if !g_ok {
        if !g.written.is_empty() {
            bad.push(("spoke-after-rejection", format!("{what}: {:?} was sent", show(&g.written))));
        }
        if !o.is_err() {
            bad.push(("opened", what.clone()));
        }
    } else {
        let want = format!("EHLO {name}\r\n");
        let (verb, rest) = g.written.split_at(g.written.len().min(4));
        if !verb.eq_ignore_ascii_case(b"EHLO") || rest != want[4..].as_bytes() {
            bad.push(("ehlo", format!("{what}: {:?} was sent", show(&g.written))));
        }
        if expect && g.consumed_when_written(0).map_or(false, |c| c < r.greeting_end) {
            bad.push(("early", format!("{what}: spoke before the greeting was complete")));
        }
        if !expect && g.reads_before_write > 0 {
            bad.push(("waited", format!("{what}: read before speaking although no greeting is expected")));
        }
        if x.ehlo.code / 100 == 2 {
            let named = x.ehlo.lines.first().map_or(false, |l| !l.trim().is_empty());
            if named != t.is_some() || (!named && !o.is_err()) {
                bad.push(("verdict", what.clone()));
            }
        } else if is_neg(x.ehlo.code) {
            match &o {
                Out::Rej { code, lines, .. } if *code == x.ehlo.code && *lines == x.ehlo.lines => {}
                _ => bad.push(("verdict", what.clone())),
            }
        }
    }
    drop(g);
    if let Some((k, m)) = bad.into_iter().next() {
        cx.bad(k, m);
    }
    see_session(cx, &w, &[o]);
}

pub fn c16(tier: Tier) -> Check {
    let mut jobs = vec![];
    for name in 0..hello_names().len() {
        jobs.push(job(format!("greetings/{name}"), 0, move |cx| {
            let code = cx.ch.of(&definite_codes());
            let sh = cx.ch.pick(SHAPES.len());
            let ehlo = cx.ch.of(&[reps(250, &["mx.test", "STARTTLS"]), rep(250, ""), rep(502, "no ehlo")]);
            let x = Opening { greeting: Some(shape(code, sh).rep("g")), ehlo, name };
            cx.note = format!("greeting {code} in shape {sh}, hello name {name}");
            opening(cx, &x, Env::default());
        }));
        jobs.push(job(format!("ehlos/{name}"), 0, move |cx| {
            let code = cx.ch.of(&definite_codes());
            let expect = cx.ch.flag();
            let k = cx.ch.pick(SHAPES.len() + 4);
            let e = match k.checked_sub(SHAPES.len()) {
                None => shape(code, k).rep("e"),
                Some(0) => reps(code, &[" ", "PIPELINING"]),
                Some(1) => reps(code, &["", "mx.test"]),
                Some(2) => Rep { bytes: format!("{code}\r\n").into_bytes(), code, lines: vec![String::new()], close: false },
                Some(_) => reps(code, &["mx.test", "PIPELINING", "8BITMIME", "AUTH PLAIN LOGIN", "STARTTLS", "SMTPUTF8"]),
            };
            let g = cx.ch.of(&[reps(220, &["mx"]), reps(220, &["mx", "", "ready"]), Rep { bytes: b"220\r\n".to_vec(), code: 220, lines: vec![String::new()], close: false }]);
            let x = Opening { greeting: if expect { Some(g) } else { None }, ehlo: e, name };
            cx.note = format!("EHLO answered {code} in shape {k}, greeting expected {expect}, hello name {name}");
            opening(cx, &x, Env::default());
        }));
    }
    // clients in use
    jobs.push(job("names", 0, |cx| {
        let expect = cx.ch.flag();
        let ehlo = cx.ch.of(&[reps(250, &["mx.test", "STARTTLS"]), rep(502, "no ehlo"), rep(550, "5.7.1 bad name")]);
        for name in super::usual::NAMES {
            if !cx.ok() {
                return;
            }
            cx.eval(true);
            let x = Opening { greeting: expect.then(|| rep(220, "mx.test ESMTP")), ehlo: ehlo.clone(), name: 0 };
            cx.note = format!("greeting expected {expect}, hello name {name:?}");
            opening_as(cx, &x, (ClientId::new(name.to_string()), name.to_string()), Env::default());
            opening_as(cx, &x, (ClientId::Domain(name.to_string()), name.to_string()), Env { read_chunk: Some(2), write_chunk: Some(3), ..Default::default() });
        }
    }));
    // servers in use
    jobs.push(job("usual", 0, |cx| {
        let name = cx.ch.pick(hello_names().len());
        let gc = cx.ch.of(&[220u16, 421, 554]);
        let ec = cx.ch.of(&[250u16, 421, 500, 502, 550]);
        for g in super::usual::GREETINGS.iter().chain(super::usual::TEXTS) {
            for e in super::usual::EHLOS.iter().take(if name < 2 { 99 } else { 2 }) {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                let x = Opening { greeting: Some(reps(gc, g)), ehlo: reps(ec, e), name };
                cx.note = format!("greeting {gc} {g:?}, EHLO answered {ec} {e:?}");
                opening(cx, &x, Env::default());
            }
        }
    }));
    // greeting and EHLO reply under every segmentation
    for (k, (gr, e)) in [
        (Some(reps(220, &["mx", "hello"])), reps(250, &["mx", "STARTTLS"])),
        (Some(reps(220, &["mx"])), reps(550, &["no", "thanks"])),
        (Some(reps(554, &["no", "service"])), reps(250, &["mx"])),
        (None, reps(250, &["mx", "AUTH PLAIN"])),
    ]
    .into_iter()
    .enumerate()
    {
        let (g2, e2) = (gr.clone(), e.clone());
        jobs.push(job(format!("split/{k}"), tier.pick3(2, 3, 5), move |cx| {
            let x = Opening { greeting: g2.clone(), ehlo: e2.clone(), name: 1 };
            cx.note = format!("opening {k} under segmentation");
            opening(cx, &x, Env { dev_split: true, dev_pend: true, dev_short: true, ..Default::default() });
        }));
        jobs.push(job(format!("chunks/{k}"), 0, move |cx| {
            let n = 1 + cx.ch.pick(30);
            let x = Opening { greeting: gr.clone(), ehlo: e.clone(), name: cx.ch.pick(3) };
            cx.note = format!("opening {k} in chunks of {n}");
            opening(cx, &x, Env { read_chunk: Some(n), write_chunk: Some(1 + n % 4), pend_always: n % 2 == 0, write_back: n % 3 == 0, ..Default::default() });
        }));
    }
    // an incomplete greeting (or EHLO reply): nothing (more) may be said while waiting
    jobs.push(job("incomplete", 0, |cx| {
        let full = cx.ch.of(&[&b"220 mx.test ready\r\n"[..], b"220-mx.test\r\n220-more\r\n220 ready\r\n", b"220\r\n", b"220-\r\n220 \r\n"]);
        let cut = cx.ch.pick(full.len());
        let close = cx.ch.flag();
        let at_ehlo = cx.ch.flag();
        let mut a = raw(&full[..cut]);
        a.close = close;
        let a2 = a.clone();
        let mut s = Strict::new(&["mx"], true, Box::new(move |q| if at_ehlo && q.kind == Kind::Ehlo { Some(a2.clone()) } else { None }));
        if !at_ehlo {
            s = s.greeting(Some(a));
        }
        let w = strict(&cx.ch, Env::default(), s);
        let (t, o) = connect(&w, SmtpClient::new());
        let wrote = lock(&w).written.clone();
        let want: &[u8] = if at_ehlo { b"EHLO [127.0.0.1]\r\n" } else { b"" };
        let what = format!("{} {:?} then {}: {o:?}, sent {:?}", if at_ehlo { "EHLO reply" } else { "greeting" }, show(&full[..cut]), if close { "closed" } else { "silence" }, show(&wrote));
        cx.note = what.clone();
        if wrote.len() != want.len() || t.is_some() || (close && !o.is_err()) || o.is_ok() {
            cx.bad("incomplete", what);
        }
        see_session(cx, &w, &[o]);
    }));
    Check { jobs, rule: "one execution = one session opening; distinct = different wire trace or outcome" }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Call {
    Hello(u8),
    Utf8(bool),
    Pipe(bool),
    NoGreeting,
}
const CALLS: [Call; 8] = [Call::Hello(1), Call::Hello(2), Call::Utf8(true), Call::Utf8(false), Call::Pipe(true), Call::Pipe(false), Call::NoGreeting, Call::Hello(3)];

fn hello(k: u8) -> (ClientId, &'static str) {
    match k {
        1 => (ClientId::new("one.example".into()), "one.example"),
        2 => (ClientId::Ipv4([192, 0, 2, 1].into()), "[192.0.2.1]"),
        3 => (ClientId::Ipv6([0xfe80, 0, 0, 0, 0, 0, 0, 9].into()), "[IPv6:fe80::9]"),
        k if k >= 10 => (ClientId::new(super::usual::NAMES[k as usize - 10].into()), super::usual::NAMES[k as usize - 10]),
        _ => (ClientId::default(), "[127.0.0.1]"),
    }
}

fn settings(cx: &mut Cx, calls: &[Call], start_default: bool) {
    let (mut name, mut utf8, mut pl, mut greet) = (0u8, false, true, true);
    let mut c = if start_default { SmtpClient::default() } else { SmtpClient::new() };
    for x in calls {
        c = match *x {
            Call::Hello(k) => {
                name = k;
                c.hello_name(hello(k).0)
            }
            Call::Utf8(b) => {
                utf8 = b;
                c.smtp_utf8(b)
            }
            Call::Pipe(b) => {
                pl = b;
                c.pipelining(b)
            }
            Call::NoGreeting => {
                greet = false;
                c.without_greeting()
            }
        };
    }
    cx.eval(true);
    let mut s = Strict::new(ALL_EXT, greet, accept_all());
    if pl {
        s.hold = 3;
    }
    let w = strict(&cx.ch, Env::default(), s);
    let (t, o) = connect(&w, c);
    let Some(mut t) = t else {
        return cx.bad("open", format!("{calls:?}: greeting {}: {o:?}", if greet { "sent" } else { "not sent" }));
    };
    begin(&w, 1);
    let o = send(&w, &mut t, envelope(Some("s@x"), &["a@y", "b@y"]), &Body::Bytes(b"\xfc\r\n".to_vec()), None);
    let g = lock(&w);
    let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return };
    let mut bad = None;
    let e = r.cmds.first().map_or(vec![], |c| c.line.clone());
    if e != format!("EHLO {}", hello(name).1).as_bytes() {
        bad = Some(("hello-name", format!("{calls:?}: {:?}", show(&e))));
    }
    let early = g.consumed_when_written(0).unwrap_or(0) < r.greeting_end;
    if early || (!greet && g.reads_before_write > 0) {
        bad = Some(("greeting", format!("{calls:?}: greeting expected should be {greet}")));
    }
    match r.cmds.iter().find(|c| c.kind == Kind::Mail) {
        None => bad = Some(("send", format!("{calls:?}: no sender command: {o:?}"))),
        Some(m) => {
            let u = m.line.to_ascii_uppercase().windows(9).any(|x| x == b" SMTPUTF8");
            if u != utf8 {
                bad = Some(("smtp-utf8", format!("{calls:?}: {:?}", show(&m.line))));
            }
        }
    }
    let cs: Vec<&Cmd> = r.cmds.iter().filter(|c| matches!(c.kind, Kind::Mail | Kind::Rcpt)).collect();
    let ahead = cs.len() > 1 && g.consumed_when_written(cs[1].start).unwrap_or(0) < cs[0].rep_end;
    if ahead != pl {
        bad = Some(("pipelining", format!("{calls:?}: pipelining should be {pl}: {o:?}")));
    }
    let seen = (e, o.class(), ahead);
    drop(g);
    if let Some((k, m)) = bad {
        return cx.bad(k, m);
    }
    cx.see(&seen);
}

pub fn c19(tier: Tier) -> Check {
    let mut jobs = vec![];
    for len in 0..=tier.pick3(5usize, 6, 7) {
        let total = CALLS.len().pow(len as u32);
        let shards = (total / 1000).clamp(1, 64);
        for s in 0..shards {
            jobs.push(job(format!("calls{len}/{s}"), 0, move |cx| {
                let d = cx.ch.flag();
                let mut i = s;
                while i < total && cx.ok() {
                    let cs = word(&CALLS, len, i);
                    cx.note = format!("{cs:?}");
                    settings(cx, &cs, d);
                    i += shards;
                }
            }));
        }
    }
    // every usual name among the other settings
    jobs.push(job("names", 0, |cx| {
        let d = cx.ch.flag();
        for k in 0..super::usual::NAMES.len() as u8 {
            for other in CALLS {
                for cs in [vec![Call::Hello(10 + k)], vec![Call::Hello(10 + k), other], vec![other, Call::Hello(10 + k)], vec![Call::Hello(10 + k), other, Call::Hello(10 + k), Call::NoGreeting]] {
                    if !cx.ok() {
                        return;
                    }
                    cx.note = format!("{cs:?}");
                    settings(cx, &cs, d);
                }
            }
        }
    }));
    Check { jobs, rule: "one case = one sequence of builder calls, followed by a whole session; every case is distinct" }
}

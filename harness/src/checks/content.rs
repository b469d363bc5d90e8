//! C01 message transparency, C02 all-or-nothing acceptance.

use super::*;
use crate::refs::*;
use async_smtp::SmtpClient;

pub const CRIT: [u8; 4] = [b'a', b'\r', b'\n', b'.'];

/// Sends `msgs` one after the other on one connection and checks each delivery.
pub fn transparent(cx: &mut Cx, msgs: &[&Body], pipe: bool) {
    transparent_in(cx, ext(pipe), SmtpClient::new(), Some("s@x"), &["r@y"], msgs)
}

/// The same with what the server offers, the client's settings and the envelope given.
fn transparent_in(cx: &mut Cx, offer: &[&str], client: SmtpClient, from: Option<&str>, to: &[&str], msgs: &[&Body]) {
    let w = strict(&cx.ch, Env::default(), Strict::new(offer, true, accept_all()));
    let (t, o) = connect(&w, client);
    let Some(mut t) = t else {
        return cx.bad("connect", format!("connecting failed: {o:?}"));
    };
    for (k, m) in msgs.iter().enumerate() {
        begin(&w, k + 1);
        let o = send(&w, &mut t, envelope(from, to), m, None);
        if cx.ch.prior() > 0 && !o.is_ok() {
            return; // whether the transport is still usable is for other properties
        }
        let g = lock(&w);
        let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return };
        let mine: Vec<_> = r.cmds.iter().filter(|c| c.op == k + 1).map(|c| c.kind).collect();
        if r.deliveries.len() != k + 1 {
            return cx.bad(
                "deliveries",
                format!("message {k} {:?} ({}): server completed {} messages, wire {:?}", show(m.bytes()), o.class(), r.deliveries.len(), show(&g.written)),
            );
        }
        let d = &r.deliveries[k];
        if !content_ok(m.bytes(), &d.content) {
            return cx.bad("content", format!("message {k} {:?} arrived as {:?}", show(m.bytes()), show(&d.content)));
        }
        if mine.iter().filter(|k| **k == Kind::Content).count() != 1
            || mine.last() != Some(&Kind::Content)
            || mine.iter().any(|k| matches!(k, Kind::Other | Kind::Noop | Kind::Quit))
        {
            return cx.bad("extra", format!("message {k} {:?}: server saw commands {mine:?}", show(m.bytes())));
        }
        if g.srv_taken != g.written.len() {
            return cx.bad("trailing", format!("message {k}: unprocessed bytes after the end of data"));
        }
        drop(g);
        cx.see(&d_hash(&w));
    }
    // Nothing may be left over in the server's line buffer either: QUIT must be understood.
    let last = 99 + msgs.len();
    begin(&w, last);
    let o = quit(&w, &mut t);
    let r = rec(&w);
    let after: Vec<Kind> = r.cmds.iter().filter(|c| c.op == last).map(|c| c.kind).collect();
    if after.first() != Some(&Kind::Quit) {
        cx.bad("leftover", format!("after message(s) {:?} QUIT gave {o:?}, the server saw {after:?}", msgs.iter().map(|m| show(m.bytes())).collect::<Vec<_>>()));
    }
}

fn d_hash(w: &W) -> u64 {
    use std::hash::Hasher;
    let g = lock(w);
    let mut h = Fnv::default();
    if let Some(r) = g.server.as_ref().map(|s| s.rec()) {
        for d in &r.deliveries {
            h.write(&d.content);
        }
    }
    h.write(&g.written);
    h.finish()
}

fn nontrivial(m: &[u8]) -> bool {
    m.is_empty() || m.iter().any(|b| matches!(b, b'\r' | b'\n' | b'.'))
}

pub fn c01(tier: Tier) -> Check {
    let mut jobs = vec![];
    // 1. every word over {a, CR, LF, '.'} up to length L, as bytes; both command modes.
    let l = tier.pick3(8, 9, 11);
    for len in 0..=l {
        let total = 4usize.pow(len as u32);
        let shards = (total / 4096).max(1);
        for s in 0..shards {
            jobs.push(job(format!("words{len}/{s}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let mut i = s;
                while i < total && cx.ok() {
                    let m = word(&CRIT, len, i);
                    cx.eval(nontrivial(&m));
                    cx.note = format!("message {:?}", show(&m));
                    transparent(cx, &[&Body::Bytes(m)], pipe);
                    i += shards;
                }
            }));
        }
    }
    // 2. the same through a reader in small chunks.
    for len in 0..=tier.pick3(5usize, 6, 8) {
        jobs.push(job(format!("reader-words{len}"), 0, move |cx| {
            let chunk = cx.ch.pick(4);
            for i in 0..4usize.pow(len as u32) {
                if !cx.ok() {
                    return;
                }
                let m = word(&CRIT, len, i);
                cx.eval(nontrivial(&m));
                let c = SrcCfg { chunk: if chunk == 0 { None } else { Some(chunk) }, ..Default::default() };
                transparent(cx, &[&Body::Reader(m, c)], false);
            }
        }));
    }
    // 3. every byte value in every critical context; pairs of unusual bytes.
    jobs.push(job("bytes", 0, move |cx| {
        for b in 0..=255u8 {
            for pre in [&b""[..], b"\r\n", b"\r", b"\n", b".", b"\r\n.", b"\r\r\n", b"a", b"a\r\n.\r", b"\n.", b"\r."] {
                for post in [&b""[..], b"\r\n", b"\n", b".", b"\r\n.", b".\r\n", b"\n.\r\n", b"a", b"\r\n.\r\nQUIT\r\n", b"\r\n..\r\n"] {
                    if !cx.ok() {
                        return;
                    }
                    let m = [pre, &[b], post].concat();
                    cx.eval(true);
                    transparent(cx, &[&Body::Bytes(m)], false);
                }
            }
        }
    }));
    let special: [u8; 9] = [b'\r', b'\n', b'.', 0, b' ', 0x0b, 0x85, 0xff, b'a'];
    for len in 1..=tier.pick(4usize, 5) {
        let total = 9usize.pow(len as u32);
        for s in 0..8 {
            jobs.push(job(format!("special{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let m = word(&special, len, i);
                    cx.eval(nontrivial(&m));
                    transparent(cx, &[&Body::Bytes(m)], true);
                    i += 8;
                }
            }));
        }
    }
    // pieces that software likes to treat specially
    const TOKENS: [&[u8]; 30] = [
        b"\xef\xbb\xbf", b"\xff\xfe", b"From ", b">From ", b"From a@b\r\n", b"Bcc: r@y\r\n", b"bcc:\r\n x\r\n", b"Return-Path: <s@x>\r\n", b"Date: now\r\n", b"Subject: \xc3\xbc\r\n",
        b"Content-Transfer-Encoding: 8bit\r\n", b"\r\n", b"\r\n\r\n", b"\n", b"\r", b".", b"..", b".\r\n", b"QUIT\r\n", b"RSET\r\n", b"\xc2\x85", b"\xe2\x80\xa8", b"\0", b" ", b"\t \r\n", b"a",
        b"\x1a", b"--\r\n", b"BDAT 3\r\n", b"=\r\n",
    ];
    for len in 0..=tier.pick3(1usize, 3, 4) {
        let total = TOKENS.len().pow(len as u32);
        let shards = (total / 4096).max(1);
        for s in 0..shards {
            jobs.push(job(format!("tokens{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let m = word(&TOKENS, len, i).concat();
                    cx.eval(nontrivial(&m));
                    cx.note = format!("message {:?}", show(&m));
                    transparent(cx, &[&Body::Bytes(m)], i % 2 == 0);
                    i += shards;
                }
            }));
        }
    }
    // every two bytes, at the start of the message and of a later line
    for s in 0..if tier == Tier::Small { 0 } else { 8usize } {
        jobs.push(job(format!("two-bytes/{s}"), 0, move |cx| {
            for i in (s..65536).step_by(8) {
                for pre in [&b""[..], b"ab\r\n"] {
                    if !cx.ok() {
                        return;
                    }
                    let m = [pre, &[(i >> 8) as u8, i as u8], b"c\r\n"].concat();
                    cx.eval(true);
                    transparent(cx, &[&Body::Bytes(m)], false);
                }
            }
        }));
    }
    // whatever the server offers, the client's settings and the envelope
    const OFFERS: [&str; 8] = ["PIPELINING", "8BITMIME", "SMTPUTF8", "SIZE 10", "CHUNKING", "BINARYMIME", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"];
    for part in 0..tier.pick3(1, 8, 8usize) {
        jobs.push(job(format!("settings/{part}"), 0, move |cx| {
            let (utf8, pipelining) = (cx.ch.flag(), cx.ch.flag());
            let from = cx.ch.of(&[None, Some("s@x"), Some("r@y")]);
            let to = cx.ch.of(&[&["r@y"][..], &["r@y", "q@z"], &["r@y", "r@y", "r@y"], &["a@b", "c@d", "e@f", "g@h", "i@j", "k@l", "m@n", "o@p", "q@r"]]);
            let long = [vec![b'x'; 1500], b"\r\n.\xc3\xbc\r\n".to_vec()].concat();
            for set in (part..1 << OFFERS.len()).step_by(8) {
                let mut offer = vec!["mx.test"];
                offer.extend(OFFERS.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, o)| *o));
                for m in [&b""[..], b"a", b".", b"\r\n", b"\n", b".\r\n.\r\n", b"\xff\x80\0\r\n", b"Bcc: r@y\r\nTo: q@z\r\n\r\n\xc3\xbc\r\n", &long] {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    cx.note = format!("offer {offer:?}, SMTPUTF8 {utf8}, pipelining {pipelining}, {from:?} to {to:?}, message {:?}", show(m));
                    let c = SmtpClient::new().smtp_utf8(utf8).pipelining(pipelining);
                    transparent_in(cx, &offer, c, from, to, &[&Body::Bytes(m.to_vec())]);
                }
            }
        }));
    }
    // messages as they occur, alone, in pairs, and joined
    jobs.push(job("usual", 0, |cx| {
        let pipe = cx.ch.flag();
        let chunk = cx.ch.of(&[None, Some(1usize), Some(13)]);
        let body = |m: Vec<u8>| match chunk {
            None => Body::Bytes(m),
            c => Body::Reader(m, SrcCfg { chunk: c, ..Default::default() }),
        };
        for a in super::usual::MESSAGES {
            for b in super::usual::MESSAGES {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                cx.note = format!("message {:?} then {:?}", show(a), show(b));
                transparent(cx, &[&body(a.to_vec()), &body(b.to_vec()), &body([*a, *b].concat())], pipe);
            }
        }
    }));
    // 4. critical words straddling every offset around buffer-size boundaries.
    for p2 in 5..=tier.pick3(14usize, 15, 18) {
        let base = 1usize << p2;
        let wl = tier.pick(4usize, 5);
        let from_reader = p2 % 2 == 0;
        for s in 0..4usize {
            jobs.push(job(format!("boundary{base}/{s}"), 0, move |cx| {
                let mut k = 0;
                for off in 0..=wl + 1 {
                    for len in 2..=wl {
                        for i in 0..4usize.pow(len as u32) {
                            let wd = word(&CRIT, len, i);
                            // only words that exercise the encoder, and only once per placement
                            if !wd.contains(&b'.') || wd[0] == b'a' {
                                continue;
                            }
                            k += 1;
                            if k % 4 != s {
                                continue;
                            }
                            if !cx.ok() {
                                return;
                            }
                            let mut m = vec![b'x'; base + 1 - off];
                            m.extend_from_slice(&wd);
                            m.extend_from_slice(b"b");
                            cx.eval(true);
                            let b = if from_reader { Body::Reader(m, SrcCfg::default()) } else { Body::Bytes(m) };
                            transparent(cx, &[&b], false);
                        }
                    }
                }
            }));
        }
    }
    // 5. periodic messages: every word up to length 5 repeated past all buffer sizes, so that any
    //    internal chunk size falls on every phase of the word.
    let n = tier.pick3(24_000, 40000, 280000);
    for len in 1..=5usize {
        let total = 4usize.pow(len as u32);
        let shards = (total / 64).max(1);
        for s in 0..shards {
            jobs.push(job(format!("periodic{len}/{s}"), 0, move |cx| {
                let mut i = s;
                while i < total && cx.ok() {
                    let wd = word(&CRIT, len, i);
                    let reps = n / len + i % 7;
                    let mut m = wd.repeat(reps);
                    m.extend_from_slice(&wd[..i % len]);
                    cx.eval(nontrivial(&wd));
                    let b = if i % 2 == 0 { Body::Bytes(m) } else { Body::Reader(m, SrcCfg { chunk: Some(997), ..Default::default() }) };
                    transparent(cx, &[&b], i % 3 == 0);
                    i += shards;
                }
            }));
        }
    }
    // a very large message
    jobs.push(job("megabytes", 0, |cx| {
        let k = cx.ch.pick(3);
        let n = [1_100_000usize, 2_200_001, 4_400_003][k];
        let mut m = Vec::with_capacity(n + 10);
        while m.len() < n {
            m.extend_from_slice(b".line\r\n..\r\n\r\n.\r\n\r\r\n.x\n.\n");
        }
        cx.eval(true);
        transparent(cx, &[&Body::Bytes(m)], true);
    }));
    for k in 0..tier.pick3(0, 3, 3usize) {
        jobs.push(job(format!("huge/{k}"), 0, move |cx| {
            let n = tier.pick([10_000_001usize, 16_777_217, 33_554_433], [40_000_001, 67_108_865, 134_217_729])[k];
            let mut m = vec![b'x'; n];
            m[n - 1] = b'.';
            cx.eval(true);
            let b = if k == 1 { Body::Reader(m, SrcCfg::default()) } else { Body::Bytes(m) };
            transparent(cx, &[&b], true);
        }));
    }
    // 6. several messages on one connection.
    let small: Vec<Vec<u8>> = (0..=2usize).flat_map(|len| (0..4usize.pow(len as u32)).map(move |i| word(&CRIT, len, i))).collect();
    let small3: Vec<Vec<u8>> = (0..=3usize).flat_map(|len| (0..4usize.pow(len as u32)).map(move |i| word(&CRIT, len, i))).collect();
    {
        let s3 = small3.clone();
        jobs.push(job("pairs", 0, move |cx| {
            let pipe = cx.ch.flag();
            for a in &s3 {
                for b in &s3 {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(nontrivial(a) || nontrivial(b));
                    transparent(cx, &[&Body::Bytes(a.clone()), &Body::Bytes(b.clone())], pipe);
                }
            }
        }));
    }
    for k in 0..small.len() {
        let s2 = small.clone();
        jobs.push(job(format!("triples{k}"), 0, move |cx| {
            for b in &s2 {
                for c in &s2 {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    transparent(cx, &[&Body::Bytes(s2[k].clone()), &Body::Bytes(b.clone()), &Body::Bytes(c.clone())], true);
                }
            }
        }));
    }
    // long series of messages on one connection
    for k in 0..4usize {
        jobs.push(job(format!("series/{k}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let n = tier.pick(520usize, 2100);
            let ms: Vec<Body> = (0..n)
                .map(|i| {
                    let m = match k {
                        0 => b"same\r\n.\r\n".to_vec(),
                        1 => word(&CRIT, 6, i * 7 % 4096),
                        2 => b".a\n".repeat(i % 300),
                        _ => vec![],
                    };
                    if i % 3 == 2 {
                        Body::Reader(m, SrcCfg { chunk: Some(3), ..Default::default() })
                    } else {
                        Body::Bytes(m)
                    }
                })
                .collect();
            cx.eval(true);
            transparent(cx, &ms.iter().collect::<Vec<_>>(), pipe);
            cx.note = format!("a series of {n} messages of kind {k}");
        }));
    }
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, move |cx| {
        let what = any_prior(cx, 99);
        let pipe = cx.ch.flag();
        let mut ms: Vec<Vec<u8>> = (0..=tier.pick(3usize, 5)).flat_map(|len| (0..4usize.pow(len as u32)).map(move |i| word(&CRIT, len, i))).collect();
        ms.push(b".\r\n..\r\n\r\n.\r\n\r\r\n.x\n.\n\r".repeat(30));
        if what.contains("300") || what.contains("280") || what.contains("120") {
            ms.retain(|m| m.len() < 3 || m.len() > 9);
        }
        for m in ms {
            if !cx.ok() {
                return;
            }
            cx.eval(nontrivial(&m));
            cx.note = format!("{what}message {:?}", show(&m));
            transparent(cx, &[&Body::Bytes(m)], pipe);
        }
    }));
    // 7. long lines, long dot runs, many lines
    jobs.push(job("shapes", 0, |cx| {
        for n in (0..70).chain([100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 998, 999, 1000, 1001, 1022, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536, 65537]) {
            for m in [
                vec![b'.'; n],
                [vec![b'a'; n], b"\r\n.\r\n".to_vec()].concat(),
                [b".".to_vec(), vec![b'a'; n]].concat(),
                [b"\r\n".repeat(n), b".".to_vec()].concat(),
                b".\r\n".repeat(n),
                b"..\r\n".repeat(n),
                b"a.\r\n".repeat(n),
                [vec![b'\r'; n], b"\n.\r\n".to_vec()].concat(),
                [vec![b'\n'; n], b".\r\n".to_vec()].concat(),
                [vec![b'a'; n], b"\r".to_vec()].concat(),
                [vec![b'a'; n], b"\r\n".to_vec()].concat(),
            ] {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                transparent(cx, &[&Body::Bytes(m)], n % 2 == 0);
            }
        }
    }));
    Check {
        jobs,
        rule: "one case = one message (or sequence of messages on one connection) sent through the real transport to the reference dot-unstuffing server; non-trivial = contains CR, LF or '.', or is empty",
    }
}

/// Judges what a server may have accepted after an aborted send.
fn whole_or_nothing(cx: &mut Cx, w: &W, m: &[u8], o: &Out, what: &str) {
    let r = rec(w);
    cx.see(&o.class());
    cx.see(&r.deliveries.len());
    if r.deliveries.len() > 1 {
        return cx.bad("several", format!("{what}: {} messages completed for one send of {:?}", r.deliveries.len(), show(m)));
    }
    for d in &r.deliveries {
        if !content_ok(m, &d.content) {
            return cx.bad("truncated", format!("{what}: message {:?} completed as {:?}", show(m), show(&d.content)));
        }
        if d.from != b"s@x" || d.to != [b"r@y".to_vec(), b"q@z".to_vec()] {
            return cx.bad("envelope", format!("{what}: completed with envelope {:?}", d));
        }
    }
    if o.is_ok() && r.deliveries.is_empty() {
        cx.bad("false-success", format!("{what}: success reported, nothing accepted, message {:?}", show(m)));
    }
    if matches!(o, Out::Hang(_) | Out::Livelock) {
        cx.bad("hang", format!("{what}: {o:?}"));
    }
}

struct Sess {
    w: W,
    o: Out,
}
fn one_send(ch: &Ch, env: Env, pipe: bool, body: &Body, drop_at: Option<usize>) -> Sess {
    let w = strict(ch, env, Strict::new(ext(pipe), true, accept_all()));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return Sess { w, o } };
    begin(&w, 1);
    let o = send(&w, &mut t, envelope(Some("s@x"), &["r@y", "q@z"]), body, drop_at);
    Sess { w, o }
}

/// A send cut short, and then the same transport used for more: whatever the server completes is
/// one of the given messages, whole, to its own recipients.
fn reuse(cx: &mut Cx, env: Env, pipe: bool, body: &Body, drop_at: Option<usize>, then: usize) -> Option<Sess> {
    let w = strict(&cx.ch, env, Strict::new(ext(pipe), true, accept_all()));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return if lock(&w).fault.is_some() { Some(Sess { w, o }) } else { None } };
    let second: &[u8] = [&b"second\r\n.\r\nmessage"[..], b"", b".\r\n", b"\r\n.\r\n"][then % 4];
    begin(&w, 1);
    let o = send(&w, &mut t, envelope(Some("s@x"), &["r@y", "q@z"]), body, drop_at);
    if o != Out::Dropped && lock(&w).fault.is_none() {
        return None;
    }
    let mut outs = vec![(1, o.clone())];
    for (op, what) in [[1, 1], [2, 1], [3, 1], [1, 2], [4, 2]][then % 5].into_iter().enumerate() {
        let op = op + 2;
        begin(&w, op);
        let o = match what {
            1 => send(&w, &mut t, envelope(Some("t@x"), &["u@y"]), &Body::Bytes(second.to_vec()), None),
            2 => quit(&w, &mut t),
            3 => auth(&w, &mut t, async_smtp::authentication::Mechanism::Plain, &creds("alice", "wonderland")),
            _ => auth(&w, &mut t, async_smtp::authentication::Mechanism::Login, &creds("alice", "wonderland")),
        };
        outs.push((op, o.clone()));
        if matches!(o, Out::Hang(_) | Out::Livelock) {
            break;
        }
    }
    let r = rec(&w);
    cx.eval(true);
    cx.see(&r.deliveries.len());
    cx.see(&outs.iter().map(|x| x.1.class()).collect::<Vec<_>>());
    let (m, shown) = (body.bytes(), outs.iter().map(|x| x.1.class()).collect::<Vec<_>>());
    let (mut first, mut later) = (0, 0);
    for d in &r.deliveries {
        if d.from == b"s@x" && d.to == [b"r@y".to_vec(), b"q@z".to_vec()] && content_ok(m, &d.content) {
            first += 1;
        } else if d.from == b"t@x" && d.to == [b"u@y".to_vec()] && content_ok(second, &d.content) {
            later += 1;
        } else {
            cx.bad("altered-later", format!("message {:?} cut short ({}), then the transport used again {shown:?}: the server completed {:?} from {:?} to {:?}", show(m), o.class(), show(&d.content), show(&d.from), d.to));
            return None;
        }
    }
    if first > 1 || later > 2 || (o.is_ok() && first == 0) {
        cx.bad("count-later", format!("message {:?} cut short ({}), then the transport used again {shown:?}: {first} + {later} messages completed", show(m), o.class()));
        return None;
    }
    Some(Sess { w, o })
}

pub fn c02_messages(tier: Tier) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for len in 0..=tier.pick(3usize, 5) {
        for i in 0..4usize.pow(len as u32) {
            v.push(word(&CRIT, len, i));
        }
    }
    v.push(b"Subject: x\r\n\r\nhello\r\n.\r\nMAIL FROM:<evil@x>\r\nRCPT TO:<v@y>\r\nDATA\r\n..\r\nbye\r\n".to_vec());
    v.push(b".\r\n".to_vec());
    v.push(b"\r\n.\r\n".to_vec());
    v.push(b"a\r\r\n.\r\nb".to_vec());
    v.push(b"...\r\n.\r\n..\r\n\r\n.\r\n\r\n.".to_vec());
    v.push(b"line one\r\nline two without end".to_vec());
    v
}

pub fn c02(tier: Tier) -> Check {
    let mut jobs = vec![];
    let msgs = c02_messages(tier);
    for (n, m) in msgs.iter().enumerate() {
        // a. connection dies for writing after exactly k bytes; b. server dies after k bytes
        let mm = m.clone();
        jobs.push(job(format!("cut{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let mode = cx.ch.pick(3);
            let full = one_send(&cx.ch, Env::default(), pipe, &Body::Bytes(mm.clone()), None);
            let total = lock(&full.w).written.len();
            if !full.o.is_ok() {
                return cx.bad("send-failed", format!("{:?}: {:?}", show(&mm), full.o));
            }
            let cut = cx.ch.pick(total + 1);
            let env = match mode {
                0 => Env { cut_write_at: Some(cut), ..Default::default() },
                1 => Env { server_dies_at: Some((cut, true)), ..Default::default() },
                _ => Env { server_dies_at: Some((cut, false)), ..Default::default() },
            };
            let s = one_send(&cx.ch, env, pipe, &Body::Bytes(mm.clone()), None);
            let what = format!("cut at byte {cut} of {total} (mode {mode})");
            cx.note = format!("{what}, message {:?}: {:?}", show(&mm), s.o.class());
            whole_or_nothing(cx, &s.w, &mm, &s.o, &what);
            if cut < total && s.o.is_ok() {
                cx.bad("false-success", format!("{what}: success although the server received only a part"));
            }
        }));
        // c. dropped at every suspension point
        let mm = m.clone();
        jobs.push(job(format!("drop{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let small_writes = cx.ch.flag();
            let reader = cx.ch.flag();
            let body = if reader { Body::Reader(mm.clone(), SrcCfg { chunk: Some(1), pend_always: true, ..Default::default() }) } else { Body::Bytes(mm.clone()) };
            let mk = || Env { pend_always: true, write_chunk: if small_writes { Some(1) } else { None }, ..Default::default() };
            let mut k = 0;
            loop {
                let s = one_send(&cx.ch, mk(), pipe, &body, Some(k));
                cx.eval(true);
                let what = format!("dropped at suspension {k}");
                whole_or_nothing(cx, &s.w, &mm, &s.o, &what);
                if s.o != Out::Dropped {
                    if !s.o.is_ok() {
                        cx.bad("send-failed", format!("undropped send of {:?} gave {:?}", show(&mm), s.o));
                    }
                    break;
                }
                k += 1;
                if !cx.ok() || k > 100_000 {
                    break;
                }
            }
            cx.note = format!("message {:?} dropped at each of {k} suspensions", show(&mm));
        }));
        // c'. the same, and a write or read that fails once, followed by more operations
        let mm = m.clone();
        if n % tier.pick(3, 1) == 0 || mm.len() > 4 {
            jobs.push(job(format!("reuse{n}"), 0, move |cx| {
                let pipe = cx.ch.flag();
                let then = cx.ch.pick(5);
                let chunk = cx.ch.of(&[None, Some(1usize), Some(7)]);
                let how = cx.ch.pick(4);
                let mut k = 0;
                loop {
                    let env = Env { write_chunk: chunk, ..Default::default() };
                    let (env, drop_at) = match how {
                        0 => (Env { pend_always: true, ..env }, Some(k)),
                        1 => (Env { fault_at: Some((k, Fault::Err(2))), ..env }, None),
                        2 => (Env { fault_at: Some((k, Fault::Zero)), ..env }, None),
                        _ => (Env { pend_always: true, read_chunk: Some(1), write_back: true, ..env }, Some(k)),
                    };
                    cx.note = format!("message {:?}: {} {k}, then again used", show(&mm), if drop_at.is_some() { "dropped at suspension" } else { "fault at I/O call" });
                    if reuse(cx, env, pipe, &Body::Bytes(mm.clone()), drop_at, then).is_none() || !cx.ok() || k > 50_000 {
                        break;
                    }
                    k += 1;
                }
            }));
        }
        // d. source fails after each prefix
        let mm = m.clone();
        jobs.push(job(format!("source{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let at = cx.ch.pick(mm.len() + 1);
            let kind = cx.ch.pick(KINDS.len()) as u8;
            let chunk = cx.ch.pick(3);
            let cfg = SrcCfg { chunk: if chunk == 0 { None } else { Some(chunk) }, fail_at: Some((at, kind)), pend_always: chunk == 2, after_fail: cx.ch.pick(3) as u8, ..Default::default() };
            let s = one_send(&cx.ch, Env::default(), pipe, &Body::Reader(mm.clone(), cfg), None);
            let what = format!("source of {:?} fails after {at} bytes ({:?})", show(&mm), KINDS[kind as usize]);
            cx.note = format!("{what}: {}", s.o.class());
            cx.see(&s.o.class());
            if !s.o.is_err() {
                cx.bad("source-fault-hidden", format!("{what}: {:?}", s.o));
            }
            let r = rec(&s.w);
            if !r.deliveries.is_empty() {
                cx.bad("source-fault-delivered", format!("{what}: server completed {:?}", show(&r.deliveries[0].content)));
            }
        }));
        // e. every I/O call faults once or for good
        let mm = m.clone();
        jobs.push(job(format!("fault{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let sticky = cx.ch.flag();
            let mut faults = vec![Fault::Err(0), Fault::Err(1), Fault::Err(2), Fault::Zero];
            if mm.len() == 1 || mm.len() == 5 {
                faults.extend((3..KINDS.len() as u8).map(Fault::Err));
            }
            let fault = cx.ch.of(&faults);
            let mut k = 0;
            loop {
                let env = Env { fault_at: Some((k, fault)), fault_sticky: sticky, write_chunk: Some(7), ..Default::default() };
                let s = one_send(&cx.ch, env, pipe, &Body::Bytes(mm.clone()), None);
                let hit = lock(&s.w).fault;
                cx.eval(true);
                let what = format!("fault {hit:?}");
                whole_or_nothing(cx, &s.w, &mm, &s.o, &what);
                if hit.is_none() || !cx.ok() {
                    break;
                }
                if s.o.is_ok() {
                    cx.bad("fault-hidden", format!("{what}: {:?} reported success", show(&mm)));
                }
                k += 1;
            }
            cx.note = format!("message {:?}: fault {fault:?} at each of {k} I/O calls", show(&mm));
        }));
    }
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, move |cx| {
        let prior = any_prior(cx, if tier != Tier::Thorough { 20 } else { 99 });
        let pipe = cx.ch.flag();
        let m = cx.ch.of(&[&b"a"[..], b"", b"\r\n.\r\nx\r\n.\r", b".\r\n"]).to_vec();
        let how = cx.ch.pick(4);
        let mut k = 0;
        loop {
            let (mut env, mut drop_at) = (Env { write_chunk: Some(3), ..Default::default() }, None);
            match how {
                0 => env.cut_write_at = Some(k),
                1 => env.server_dies_at = Some((k, k % 2 == 0)),
                2 => {
                    env.pend_always = true;
                    drop_at = Some(k)
                }
                _ => env.fault_at = Some((k, Fault::Err(2))),
            }
            let s = one_send(&cx.ch, env, pipe, &Body::Bytes(m.clone()), drop_at);
            cx.eval(true);
            cx.note = format!("{prior}message {:?}, cut short ({how}) at {k}: {}", show(&m), s.o.class());
            whole_or_nothing(cx, &s.w, &m, &s.o, "cut short");
            let g = lock(&s.w);
            let past = match how {
                0 => g.fault.is_none(),
                1 => !g.closed,
                2 => s.o != Out::Dropped,
                _ => g.fault.is_none(),
            };
            drop(g);
            if past || !cx.ok() || k > 5000 {
                return;
            }
            k += 1;
        }
    }));
    // larger messages: cuts around every structural boundary and in a regular grid
    let big: Vec<Vec<u8>> = vec![
        b"\r\n.\r\n.x\r\n".repeat(tier.pick(400, 3000)),
        [vec![b'x'; 8190], b"\r\n.\r\nMAIL FROM:<a@b>\r\n".to_vec(), vec![b'y'; 9000]].concat(),
    ];
    for (n, m) in big.into_iter().enumerate() {
        jobs.push(job(format!("bigcut{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let full = one_send(&cx.ch, Env::default(), pipe, &Body::Bytes(m.clone()), None);
            let total = lock(&full.w).written.len();
            let step = tier.pick(61, 7);
            let mut cuts: Vec<usize> = (0..total).step_by(step).collect();
            for b in [1024usize, 2048, 4096, 8192, 16384] {
                cuts.extend((b.saturating_sub(8)..b + 80).filter(|c| *c <= total));
            }
            cuts.extend(total.saturating_sub(40)..=total);
            for cut in cuts {
                let s = one_send(&cx.ch, Env { cut_write_at: Some(cut), ..Default::default() }, pipe, &Body::Bytes(m.clone()), None);
                cx.eval(true);
                whole_or_nothing(cx, &s.w, &m, &s.o, &format!("cut at byte {cut} of {total}"));
                if cut < total && s.o.is_ok() {
                    cx.bad("false-success", format!("cut at {cut}: success"));
                }
                if !cx.ok() {
                    return;
                }
            }
        }));
        let m2 = b"part one\r\n.\r\nrest ".repeat(tier.pick(600, 2000));
        jobs.push(job(format!("bigsource{n}"), 0, move |cx| {
            let pipe = cx.ch.flag();
            let chunk = cx.ch.of(&[1000usize, 4096, 100_000]);
            for at in (0..=m2.len()).step_by(509).chain([8191, 8192, 8193, 4096]) {
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                let cfg = SrcCfg { chunk: Some(chunk), fail_at: Some((at, 4)), after_fail: (at % 3) as u8, ..Default::default() };
                let s = one_send(&cx.ch, Env::default(), pipe, &Body::Reader(m2.clone(), cfg), None);
                let r = rec(&s.w);
                if !s.o.is_err() || !r.deliveries.is_empty() {
                    cx.bad("source-fault", format!("source fails after {at} of {} bytes: {:?}, {} deliveries", m2.len(), s.o, r.deliveries.len()));
                }
            }
        }));
    }
    // large messages written in pieces as sockets take them, interrupted at every call
    for kind in 0..3usize {
        for how in 0..4usize {
            jobs.push(job(format!("pieces{kind}/{how}"), 0, move |cx| {
                let n = tier.pick3(150_000usize, 300_000, 1_000_000);
                let m: Vec<u8> = match kind {
                    0 => (0..n).map(|i| b'0' + (i % 61) as u8).collect(),
                    1 => (0..n / 14).flat_map(|i| format!("line {i}\r\n").into_bytes()).collect(),
                    _ => [vec![b'x'; n / 2], b"\r\n.\r\nMAIL FROM:<a@b>\r\n".to_vec(), vec![b'y'; n / 2]].concat(),
                };
                let chunk = cx.ch.of(&[None, Some(1448usize), Some(8192), Some(16_384), Some(65_536), Some(131_072)]);
                let pipe = cx.ch.flag();
                let step = if chunk == Some(1448) { tier.pick(29, 5) } else { 1 };
                let mut k = 0;
                loop {
                    let env = Env { write_chunk: chunk, ..Default::default() };
                    let (env, drop_at) = match how {
                        0 => (Env { cut_write_at: Some(k * 1000 * n / 100_000), ..env }, None),
                        1 => (Env { fault_at: Some((k, Fault::Err(2))), ..env }, None),
                        2 => (Env { fault_at: Some((k, Fault::Zero)), ..env }, None),
                        _ => (Env { pend_always: true, ..env }, Some(k)),
                    };
                    let s = one_send(&cx.ch, env, pipe, &Body::Bytes(m.clone()), drop_at);
                    cx.eval(true);
                    cx.note = format!("message {kind} of {} bytes written in pieces of {chunk:?}, interrupted ({how}) at {k}: {}", m.len(), s.o.class());
                    whole_or_nothing(cx, &s.w, &m, &s.o, "interrupted");
                    let hit = if how == 3 { s.o == Out::Dropped } else { lock(&s.w).fault.is_some() };
                    if hit && s.o.is_ok() {
                        cx.bad("fault-hidden", cx.note.clone());
                    }
                    if !hit && !s.o.is_ok() {
                        cx.bad("send-failed", format!("{}: {:?}", cx.note, s.o));
                    }
                    if !hit || !cx.ok() || k > 20_000 {
                        return;
                    }
                    k += step;
                }
            }));
        }
    }
    Check {
        jobs,
        rule: "one case = one send cut / faulted / dropped at one place; the reference server parses exactly the bytes that got out; distinct = different outcome or server acceptance",
    }
}

//! C11 choice of mechanism, C12 the login exchange.

use super::*;
use crate::refs::*;
use async_smtp::authentication::{Credentials, IntoCredentials, Mechanism, DEFAULT_ENCRYPTED_MECHANISMS, DEFAULT_UNENCRYPTED_MECHANISMS};
use async_smtp::commands::AuthCommand;
use async_smtp::response::Response;
use async_smtp::SmtpClient;

const M: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
const NAME: [&str; 3] = ["PLAIN", "LOGIN", "XOAUTH2"];

fn offer_lines(mask: usize, style: usize) -> Vec<String> {
    let mut names: Vec<&str> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| NAME[i]).collect();
    let mut v = vec!["mx.test PLAIN LOGIN XOAUTH2".to_string()];
    match style {
        0 => {
            if !names.is_empty() {
                v.push(format!("AUTH {}", names.join(" ")));
            }
        }
        1 => {
            names.reverse();
            v.push(format!("AUTH CRAM-MD5 {}", names.join(" ").to_lowercase()));
            v.push("STARTTLS".into());
        }
        2 => {
            v.push("XAUTH PLAIN LOGIN XOAUTH2".into());
            for n in names {
                v.push(format!("auth {n}"));
            }
            v.push("AUTH PLAINX XLOGIN XOAUTH".into());
        }
        _ => {
            v.push("PIPELINING".into());
            v.push("8BITMIME PLAIN".into());
            v.push(format!("AUTH {} GSSAPI", names.join(" ")));
        }
    }
    v
}

const USER: &str = "alice.Zq7~user";
const SECRET: &str = "wonder?Xv3>land";

/// Fragments by which credentials would be recognised in any of their encodings.
fn fragments() -> Vec<Vec<u8>> {
    let mut v = vec![USER.as_bytes().to_vec(), SECRET.as_bytes().to_vec()];
    for s in [USER, SECRET] {
        for shift in 0..3 {
            // the part of the base64 text that depends on the credential alone, at each alignment
            let mut p = vec![b'x'; shift];
            p.extend_from_slice(s.as_bytes());
            let e = b64encode(&p).into_bytes();
            let a = (shift * 8 + 5) / 6;
            let b = p.len() * 8 / 6;
            v.push(e[a..b].to_vec());
        }
    }
    v
}
fn leaks(h: &[u8], frags: &[Vec<u8>]) -> bool {
    frags.iter().any(|f| h.windows(f.len()).any(|w| w == &f[..]))
}

fn login_policy(ch_verdict: usize) -> Policy {
    Box::new(move |a| match a.kind {
        Kind::Auth | Kind::AuthStep => {
            let login = a.kind == Kind::AuthStep || a.line.to_ascii_uppercase().ends_with(b"LOGIN");
            let prompt = |s: usize| rep(334, if s == 0 { "VXNlcm5hbWU6" } else { "UGFzc3dvcmQ6" });
            let last = !login || a.step >= 2;
            match ch_verdict {
                0 if last => Some(rep(235, &format!("ok {}", a.tag))),
                1 => Some(rep(535, &format!("bad credentials {}", a.tag))),
                2 => Some(rep(504, &format!("mechanism not supported {}", a.tag))),
                3 => Some(rep(454, &format!("later {}", a.tag))),
                4 if a.step >= 1 || !login => Some(rep(535, &format!("bad credentials {}", a.tag))),
                5 => Some(rep(334, "Pz8/")),
                6 => Some(rep(534, &format!("too weak, use another {}", a.tag))),
                7 if last => Some(rep(501, &format!("malformed {}", a.tag))),
                _ if login => Some(prompt(a.step)),
                _ => Some(rep(334, "")),
            }
        }
        Kind::Rcpt if a.op == 4 => Some(rep(550, "no")),
        _ => None,
    })
}

fn judge_login(cx: &mut Cx, w: &W, op: usize, span: (usize, usize), list: &[usize], mask: usize, note: &str) {
    let want = list.iter().copied().find(|m| mask >> m & 1 == 1);
    let g = lock(w);
    let Some(r) = g.server.as_ref().map(|s| s.rec()) else { return };
    let sent = &g.written[span.0..span.1];
    let auths: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == op && c.kind == Kind::Auth).collect();
    let bad = match want {
        None => {
            if sent.is_empty() {
                None
            } else {
                Some(("sent", format!("no mechanism is both accepted and offered, but {:?} was sent", show(sent))))
            }
        }
        Some(m) => {
            let used: Vec<String> = auths.iter().map(|c| String::from_utf8_lossy(&c.line).split(' ').nth(1).unwrap_or("").to_ascii_uppercase()).collect();
            if used != [NAME[m].to_string()] {
                Some(("mechanism", format!("expected one attempt with {}, saw {used:?}", NAME[m])))
            } else {
                None
            }
        }
    };
    drop(g);
    if let Some((k, m)) = bad {
        cx.bad(k, format!("{note}: {m}"));
    }
}

fn lists(max: usize) -> Vec<Vec<usize>> {
    (0..=max).flat_map(|len| (0..3usize.pow(len as u32)).map(move |i| word(&[0usize, 1, 2], len, i))).collect()
}

pub fn c11(tier: Tier) -> Check {
    let mut jobs = vec![];
    for mask in 0..8usize {
        for style in 0..4usize {
            jobs.push(job(format!("select/{mask}/{style}"), 0, move |cx| {
                let ls = lists(tier.pick3(4, 5, 7));
                let verdict = cx.ch.pick(8);
                let list = cx.ch.of(&ls);
                let lines = offer_lines(mask, style);
                let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
                let w = strict(&cx.ch, Env::default(), Strict::new(&l, true, login_policy(verdict)));
                let (t, o) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                let ms: Vec<Mechanism> = list.iter().map(|i| M[*i]).collect();
                begin(&w, 1);
                let a = lock(&w).written.len();
                let o = try_login(&w, &mut t, &creds(USER, SECRET), &ms);
                let b = lock(&w).written.len();
                cx.note = format!("offered {l:?}, accepted {ms:?}, verdict {verdict}: {}", o.class());
                let note = cx.note.clone();
                judge_login(cx, &w, 1, (a, b), &list, mask, &note);
                see_session(cx, &w, &[o]);
            }));
        }
    }
    // histories: no other operation transmits anything of the credentials
    for verdict in 0..8usize {
        jobs.push(job(format!("history/{verdict}"), 0, move |cx| {
            let mask = cx.ch.pick(8);
            let pipe = cx.ch.flag();
            let frags = fragments();
            let mut lines = offer_lines(mask, 1);
            if pipe {
                lines.push("PIPELINING".into());
            }
            let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
            let w = strict(&cx.ch, Env::default(), Strict::new(&l, true, login_policy(verdict)));
            let (t, o) = connect(&w, SmtpClient::new());
            let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
            let c = creds(USER, SECRET);
            let mut spans = vec![];
            let mut outs = vec![];
            let mut note = format!("offered {l:?}:");
            let mut ended = false;
            let mut t = Some(&mut t);
            for op in 1..=3usize {
                let k = cx.ch.pick(tier.pick(7, 8));
                let Some(t) = t.as_deref_mut() else { break };
                let a = lock(&w).written.len();
                // operation 4 has its recipients rejected
                let id = if k == 3 { 4 } else { 10 * op };
                begin(&w, id);
                let (o, list): (Out, Option<Vec<usize>>) = match k {
                    0 => (try_login(&w, t, &c, &[Mechanism::Plain]), Some(vec![0])),
                    1 => (try_login(&w, t, &c, &[Mechanism::Xoauth2, Mechanism::Login]), Some(vec![2, 1])),
                    2 | 3 => (send(&w, t, envelope(Some("s@x"), &["a@y"]), &Body::Bytes(b"m\r\n".to_vec()), None), None),
                    4 => (try_login(&w, t, &c, DEFAULT_UNENCRYPTED_MECHANISMS), Some(vec![])),
                    5 => (quit(&w, t), None),
                    6 => (try_login(&w, t, &c, DEFAULT_ENCRYPTED_MECHANISMS), Some(DEFAULT_ENCRYPTED_MECHANISMS.iter().filter_map(|m| M.iter().position(|x| x == m)).collect())),
                    _ => (try_login(&w, t, &c, &[Mechanism::Login, Mechanism::Plain, Mechanism::Xoauth2]), Some(vec![1, 0, 2])),
                };
                let b = lock(&w).written.len();
                note.push_str(&format!(" {k}->{}", o.class()));
                let authed = rec(&w).cmds.iter().any(|c| matches!(c.kind, Kind::Auth | Kind::AuthStep) && c.code == 235);
                if k == 5 {
                    ended = true;
                }
                if let Some(list) = &list {
                    // After the goodbye there is nobody to talk to; a repeated login is the server's to refuse.
                    if !ended && !(id == 4) {
                        let pending_reset = outs.iter().any(|x: &Out| x.is_rej());
                        let want = list.iter().any(|m| mask >> m & 1 == 1);
                        if want || !pending_reset {
                            judge_login(cx, &w, id, (a, b), list, mask, &note);
                        }
                    }
                }
                let _ = authed;
                spans.push((a, b, list.as_ref().map_or(false, |l| l.iter().any(|m| mask >> m & 1 == 1))));
                outs.push(o);
            }
            cx.note = note.clone();
            let g = lock(&w);
            let mut at = 0;
            let mut leak = None;
            for (a, b, login) in &spans {
                if leaks(&g.written[at..*a], &frags) || (!login && leaks(&g.written[*a..*b], &frags)) {
                    leak = Some((*a, *b));
                }
                at = *b;
            }
            drop(g);
            if let Some(x) = leak {
                return cx.bad("leak", format!("{note}: credentials in bytes {x:?}, outside a permitted login"));
            }
            see_session(cx, &w, &outs);
        }));
    }
    // whatever the server answers in an email: credentials given before or after are not used for it
    for (i, place) in [Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Content, Kind::Quit, Kind::Rset].into_iter().enumerate() {
        jobs.push(job(format!("codes/{i}"), 0, move |cx| {
            let mask = 1 + cx.ch.pick(7);
            let pipe = cx.ch.flag();
            let m = cx.ch.pick(3);
            let accept = cx.ch.flag();
            let frags = fragments();
            let mut lines = offer_lines(mask, 1);
            if pipe {
                lines.push("PIPELINING".into());
            }
            let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
            for code in all_codes().into_iter().filter(|c| c / 100 != 3) {
                let mut login = login_policy(if accept { 0 } else { 1 });
                let policy: Policy = Box::new(move |a| match a.kind {
                    Kind::Auth | Kind::AuthStep => login(a),
                    k if k == place => Some(rep(code, &format!("authenticate {}", a.tag))),
                    Kind::Rcpt if place == Kind::Rset && a.op == 2 => Some(rep(530, "authentication required")),
                    _ => None,
                });
                let w = strict(&cx.ch, Env::default(), Strict::new(&l, true, policy));
                let (t, o) = connect(&w, SmtpClient::new());
                let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
                begin(&w, 1);
                let o1 = try_login(&w, &mut t, &creds(USER, SECRET), &[M[m]]);
                let from = lock(&w).written.len();
                for op in 2..=3 {
                    begin(&w, op);
                    send(&w, &mut t, envelope(Some("s@x"), &["a@y", "b@y"]), &Body::Bytes(b"m\r\n".to_vec()), None);
                }
                begin(&w, 4);
                quit(&w, &mut t);
                cx.eval(true);
                cx.note = format!("offered {l:?}, login with {} ({}), then {place:?} answered {code}", NAME[m], o1.class());
                if leaks(&lock(&w).written[from..], &frags) || rec(&w).cmds.iter().any(|c| c.op > 1 && matches!(c.kind, Kind::Auth | Kind::AuthStep)) {
                    return cx.bad("leak", format!("an operation other than a login sent {:?}", show(&lock(&w).written[from..])));
                }
                cx.see(&rec(&w).cmds.len());
            }
        }));
    }
    // after anything else that may have happened on the connection
    jobs.push(job("after", 0, |cx| {
        let what = any_prior(cx, 99);
        let mask = cx.ch.pick(8);
        let verdict = cx.ch.of(&[0usize, 1, 5]);
        let list = cx.ch.of(&lists(2));
        let mut lines = offer_lines(mask, 3);
        lines.push("PIPELINING".into());
        let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let w = strict(&cx.ch, Env::default(), Strict::new(&l, true, login_policy(verdict)));
        let (t, o) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        let ms: Vec<Mechanism> = list.iter().map(|i| M[*i]).collect();
        begin(&w, 1);
        let a = lock(&w).written.len();
        let o = try_login(&w, &mut t, &creds(USER, SECRET), &ms);
        let b = lock(&w).written.len();
        cx.note = format!("{what}offered {l:?}, accepted {ms:?}, verdict {verdict}: {}", o.class());
        let note = cx.note.clone();
        // An open transaction may be reset first.
        let skip = if lock(&w).written[a..b].starts_with(b"RSET\r\n") { 6 } else { 0 };
        judge_login(cx, &w, 1, (a + skip, b), &list, mask, &note);
        let a = lock(&w).written.len();
        begin(&w, 2);
        send(&w, &mut t, envelope(Some("s@x"), &["a@y"]), &Body::Bytes(b"m\r\n".to_vec()), None);
        if leaks(&lock(&w).written[a..], &fragments()) {
            cx.bad("leak", format!("{note}: credentials within a later email"));
        }
        see_session(cx, &w, &[o]);
    }));
    // what is sent under a mechanism is that mechanism's form, nothing more
    jobs.push(job("form", 0, |cx| {
        let m = cx.ch.pick(3);
        let verdict = cx.ch.pick(8);
        let lines = offer_lines(7, 0);
        let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let w = strict(&cx.ch, Env::default(), Strict::new(&l, true, login_policy(verdict)));
        let (t, o) = connect(&w, SmtpClient::new());
        let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
        begin(&w, 1);
        let o = try_login(&w, &mut t, &creds(USER, SECRET), &[M[m]]);
        let r = rec(&w);
        let all: Vec<Vec<u8>> = vec![
            format!("\0{USER}\0{SECRET}").into_bytes(),
            USER.as_bytes().to_vec(),
            SECRET.as_bytes().to_vec(),
            format!("user={USER}\x01auth=Bearer {SECRET}\x01\x01").into_bytes(),
        ];
        let allowed: Vec<&Vec<u8>> = match m {
            0 => vec![&all[0]],
            1 => vec![&all[1], &all[2]],
            _ => vec![&all[3]],
        };
        cx.note = format!("{} with verdict {verdict}: {}", NAME[m], o.class());
        if let Some(x) = r.sasl.iter().find(|x| !allowed.contains(x)) {
            cx.bad("form", format!("{}: {:?} was sent", NAME[m], show(x)));
        }
        if m != 1 && r.sasl.len() > 1 {
            cx.bad("form", format!("{}: credentials sent {} times", NAME[m], r.sasl.len()));
        }
        see_session(cx, &w, &[o]);
    }));
    jobs.push(job("defaults", 0, |cx| {
        if !DEFAULT_UNENCRYPTED_MECHANISMS.is_empty() {
            cx.bad("default", format!("{DEFAULT_UNENCRYPTED_MECHANISMS:?} permitted on unencrypted connections"));
        }
    }));
    Check { jobs, rule: "one execution = one session with logins (offer, accepted list, verdict, other operations); distinct = different wire trace or outcome" }
}

// ---------------------------------------------------------------------------------------------

/// The exchange the server prescribes: `texts` are challenges (raw reply texts), then `last`.
fn exchange(cx: &mut Cx, m: usize, user: &str, secret: &str, texts: &[String], last: &V, via_list: bool, env: Env) {
    let (tx, lv) = (texts.to_vec(), last.clone());
    let policy: Policy = Box::new(move |a| {
        let k = match a.kind {
            Kind::Auth => 0,
            Kind::AuthStep => a.step,
            _ => return None,
        };
        Some(if k < tx.len() { rep(334, &tx[k]) } else { lv.rep(&a.tag) })
    });
    let w = strict(&cx.ch, env, Strict::new(&["mx.test", "AUTH PLAIN LOGIN XOAUTH2"], true, policy));
    let (t, o) = connect(&w, SmtpClient::new());
    let Some(mut t) = t else { return cx.bad("connect", format!("{o:?}")) };
    begin(&w, 1);
    let c = creds(user, secret);
    let o = if via_list { try_login(&w, &mut t, &c, &[M[m]]) } else { auth(&w, &mut t, M[m], &c) };
    let r = rec(&w);
    // reference
    let mut answers: Vec<Vec<u8>> = match m {
        0 => vec![format!("\0{user}\0{secret}").into_bytes()],
        2 => vec![format!("user={user}\x01auth=Bearer {secret}\x01\x01").into_bytes()],
        _ => vec![],
    };
    let mut fail = false;
    let mut n = 0;
    for t in texts {
        if n == 10 {
            fail = true;
            break;
        }
        n += 1;
        let d = t.split(' ').next().and_then(|x| if x.is_empty() { None } else { b64decode(x.as_bytes()) });
        match d.as_deref() {
            Some(b"User Name") | Some(b"Username:") | Some(b"Username") if m == 1 => answers.push(user.as_bytes().to_vec()),
            Some(b"Password:") | Some(b"Password") if m == 1 => answers.push(secret.as_bytes().to_vec()),
            _ => {
                fail = true;
                break;
            }
        }
    }
    let what = || {
        format!("{} user {:?} secret {:?}, challenges {texts:?}, then {} {:?}: {o:?}", NAME[m], show(user.as_bytes()), show(secret.as_bytes()), last.code, last.lines)
    };
    cx.see(&o.class());
    cx.see(&r.sasl);
    if unfit(m, user, secret) {
        // what the server decodes would be other credentials
        if !o.is_err() || r.cmds.iter().any(|c| c.kind == Kind::Auth) || !r.sasl.is_empty() {
            cx.bad("unfit", what());
        }
        return;
    }
    if r.sasl != answers {
        return cx.bad("answers", format!("{}; the server decoded {:?}, expected {:?}", what(), r.sasl.iter().map(|x| show(x)).collect::<Vec<_>>(), answers.iter().map(|x| show(x)).collect::<Vec<_>>()));
    }
    let auths = r.cmds.iter().filter(|c| c.kind == Kind::Auth).count();
    if auths != 1 {
        return cx.bad("answers", format!("{}: {auths} AUTH commands", what()));
    }
    if fail {
        // Only giving up (or nothing) may follow.
        let extra: Vec<&Cmd> = r.cmds.iter().filter(|c| c.op == 1 && !matches!(c.kind, Kind::Auth | Kind::Rset) && !(c.kind == Kind::AuthStep && (!c.proto_error || c.line == b"*"))).collect();
        if !matches!(o, Out::Fail(_)) {
            return cx.bad("verdict", format!("{}: should fail by itself", what()));
        }
        if let Some(x) = extra.first() {
            cx.bad("answers", format!("{}: {:?} was sent", what(), show(&x.line)));
        }
        return;
    }
    let Some(c) = r.cmds.iter().rev().find(|c| matches!(c.kind, Kind::Auth | Kind::AuthStep)) else {
        return cx.bad("answers", what());
    };
    let good = if is_neg(last.code) {
        is_rejection(&o, c)
    } else if via_list {
        o == Out::Ok(None)
    } else {
        o == Out::Ok(Some((c.code, c.lines.clone())))
    };
    if !good {
        cx.bad("verdict", what());
    }
}

fn ok235() -> V {
    v(235)
}

fn prompts() -> Vec<String> {
    let mut p: Vec<String> = ["Username:", "Password:", "User Name", "Username", "Password"].iter().map(|s| b64encode(s.as_bytes())).collect();
    for s in ["username:", "USERNAME:", "User Name:", "password:", "Pass", "Password: ", "Username:\0", "Login:", "Secret", "User name", " Username:", "Username:Password:"] {
        p.push(b64encode(s.as_bytes()));
    }
    for s in ["", "!", "!!!!", "VXN*cm5hbWU6", "/////w==", "gICA", "Username:", "=", "===="] {
        p.push(s.to_string());
    }
    p
}

pub fn c12(tier: Tier) -> Check {
    let mut jobs = vec![];
    let user_p = || vec![b64encode(b"Username:"), b64encode(b"Password:")];
    // a. credentials of every length
    for m in 0..3usize {
        for part in 0..4usize {
            jobs.push(job(format!("lengths/{m}/{part}"), 0, move |cx| {
                let tx = if m == 1 { user_p() } else { vec![] };
                let max = tier.pick3(130usize, 300, 1300);
                for n in (0..max).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 4096, 12_288, 50_000]) {
                    if n % 4 != part {
                        continue;
                    }
                    for (u, p) in [
                        ("u".repeat(n), "secret".to_string()),
                        ("user".into(), "p".repeat(n)),
                        ("é".repeat(n), "☃".repeat(n / 2)),
                        ("\u{ff}~".repeat(n / 2), "~?>".repeat(n)),
                    ] {
                        if !cx.ok() {
                            return;
                        }
                        cx.eval(true);
                        exchange(cx, m, &u, &p, &tx, &ok235(), n % 2 == 0, Env::default());
                    }
                }
                cx.note = format!("{} with credentials of lengths up to 50000", NAME[m]);
            }));
        }
        // b. every character: over the wire for a dense subset, as a command for all
        for part in 0..8u32 {
            jobs.push(job(format!("characters/{m}/{part}"), 0, move |cx| {
                let tx = if m == 1 { user_p() } else { vec![] };
                let mut c = part;
                while c <= 0x10_ffff {
                    if let Some(ch) = char::from_u32(c) {
                        if !cx.ok() {
                            return;
                        }
                        for (u, p) in [(format!("u{ch}"), format!("{ch}p{ch}")), (format!("{ch}u"), "p".into()), ("u".into(), format!("p{ch}q"))] {
                            if c < tier.pick3(0x300, 0x900, 0x8000) || c % tier.pick3(4001, 1009, 53) == 0 {
                                cx.eval(true);
                                exchange(cx, m, &u, &p, &tx, &ok235(), false, Env::default());
                            }
                            cx.eval(true);
                            command_case(cx, m, &u, &p);
                        }
                    }
                    c += 8;
                }
            }));
        }
    }
    // all short strings over awkward characters
    jobs.push(job("awkward-strings", 0, move |cx| {
        let m = cx.ch.pick(3);
        let al = ['a', ' ', '\r', '\n', '=', ',', '\u{7f}', 'é', '\0', '\u{1}'];
        let tx = if m == 1 { user_p() } else { vec![] };
        for len in 0..=tier.pick(2usize, 3) {
            for i in 0..al.len().pow(len as u32) {
                for j in 0..al.len().pow(len as u32) {
                    if !cx.ok() {
                        return;
                    }
                    let u: String = word(&al, len, i).into_iter().collect();
                    let p: String = word(&al, len, j).into_iter().collect();
                    cx.eval(true);
                    exchange(cx, m, &u, &p, &tx, &ok235(), i % 2 == 0, Env::default());
                }
            }
        }
    }));
    // credentials and verdicts as they occur
    for m in 0..3usize {
        jobs.push(job(format!("usual/{m}"), 0, move |cx| {
            let tx = if m == 1 { user_p() } else { vec![] };
            for (i, u) in super::usual::USERS.iter().enumerate() {
                for (j, p) in super::usual::SECRETS.iter().enumerate() {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    exchange(cx, m, u, p, &tx, &ok235(), (i + j) % 2 == 0, Env::default());
                    exchange(cx, m, p, u, &tx, &v(535), (i + j) % 2 == 1, Env::default());
                    command_case(cx, m, u, p);
                }
            }
            for code in [235u16, 250, 220, 421, 432, 454, 500, 504, 530, 534, 535, 538] {
                for t in super::usual::TEXTS.iter().chain(super::usual::GREETINGS) {
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    exchange(cx, m, "alice", "wonderland", &tx, &vl(code, t), code % 2 == 0, Env::default());
                }
            }
            cx.note = format!("{} with usual names, secrets and verdicts", NAME[m]);
        }));
    }
    // c. every sequence of prompts up to a depth, each with every kind of verdict
    let ps = prompts();
    for m in 0..3usize {
        for len in 0..=tier.pick3(3usize, 3, 4) {
            for first in 0..if len == 0 { 1 } else { ps.len() } {
                let ps = ps.clone();
                jobs.push(job(format!("prompts/{m}/{len}/{first}"), 0, move |cx| {
                    let code = cx.ch.of(&[235u16, 535, 454, 250]);
                    let sh = cx.ch.pick(2);
                    if m != 1 && len > 2 || sh == 1 && len == 3 && tier != Tier::Thorough {
                        return;
                    }
                    for i in 0..ps.len().pow(len.saturating_sub(1) as u32) {
                        let mut tx = if len > 0 { vec![ps[first].clone()] } else { vec![] };
                        let w: Vec<usize> = word(&(0..ps.len()).collect::<Vec<_>>(), len.saturating_sub(1), i);
                        tx.extend(w.iter().map(|k| ps[*k].clone()));
                        if !cx.ok() {
                            return;
                        }
                        cx.eval(true);
                        exchange(cx, m, "alice", "wonderland", &tx, &shape(code, sh), i % 2 == 0, Env::default());
                    }
                    cx.note = format!("{} all challenge sequences of length {len} starting with {first}, verdict {code}", NAME[m]);
                }));
            }
        }
    }
    // valid prompts only, deeper
    for len in 4..=tier.pick3(6usize, 7, 9) {
        for m in [1usize] {
            let ps = ps.clone();
            jobs.push(job(format!("valid-prompts/{len}"), 0, move |cx| {
                let code = cx.ch.of(&[235u16, 535]);
                for i in 0..4usize.pow(len as u32) {
                    let tx: Vec<String> = word(&[0usize, 1, 4, 5], len, i).iter().map(|k| ps[*k].clone()).collect();
                    if !cx.ok() {
                        return;
                    }
                    cx.eval(true);
                    exchange(cx, m, "alice", "wonderland", &tx, &v(code), false, Env::default());
                }
            }));
        }
    }
    // number of challenges, with one bad prompt anywhere
    jobs.push(job("many-challenges", 0, move |cx| {
        let n = cx.ch.pick(16);
        let code = cx.ch.of(&[235u16, 250, 535, 421]);
        let style = cx.ch.pick(4);
        let via = cx.ch.flag();
        for bad in 0..=n {
            let ps = prompts();
            let mut tx: Vec<String> = (0..n)
                .map(|i| match style {
                    0 => ps[i % 2].clone(),
                    1 => ps[0].clone(),
                    2 => ps[1].clone(),
                    _ => ps[i % 5].clone(),
                })
                .collect();
            if bad < n {
                tx[bad] = ps[5 + (bad * 7 + n) % (ps.len() - 5)].clone();
            }
            cx.eval(true);
            exchange(cx, 1, "alice", "wonderland", &tx, &v(code), via, Env::default());
            if !cx.ok() {
                return;
            }
        }
        cx.note = format!("{n} LOGIN challenges, then {code}");
    }));
    // after anything else that may have happened on the connection
    for m in 0..3usize {
        jobs.push(job(format!("after/{m}"), 0, move |cx| {
            let what = any_prior(cx, 99);
            let code = cx.ch.of(&[235u16, 535, 454]);
            let via = cx.ch.flag();
            let (u, p) = cx.ch.of(&[("alice", "wonderland"), ("earlier", "occasion"), ("", ""), ("a b", "c=d")]);
            let ps = prompts();
            let n = if m == 1 { cx.ch.pick(4) } else { cx.ch.pick(2) };
            let heavy = what.contains(|c: char| c.is_ascii_digit());
            let light = n < 3 || what.contains("login") || what.contains("LOGIN");
            let k: usize = if heavy { 1 } else if light { 8 } else { 2 };
            for i in 0..k.pow(n as u32) {
                let tx: Vec<String> = if m == 1 { word(&[0usize, 1, 3, 4, 5, 9, 17, 20][..k], n, i).iter().map(|k| ps[*k].clone()).collect() } else { vec![ps[17].clone(); n] };
                if !cx.ok() {
                    return;
                }
                cx.eval(true);
                exchange(cx, m, u, p, &tx, &v(code), via, Env::default());
            }
            cx.note = format!("{what}{} with {n} challenges, verdict {code}", NAME[m]);
        }));
    }
    // d. every verdict code in every shape
    for m in 0..3usize {
        jobs.push(job(format!("verdicts/{m}"), 0, move |cx| {
            let code = cx.ch.of(&definite_codes());
            let sh = cx.ch.pick(SHAPES.len());
            let n = if m == 1 { cx.ch.pick(3) } else { 0 };
            let via = cx.ch.flag();
            let tx: Vec<String> = user_p().into_iter().take(n).collect();
            cx.note = format!("{} answered {code} after {n} challenges", NAME[m]);
            exchange(cx, m, "alice", "wonderland", &tx, &shape(code, sh), via, Env::default());
        }));
        jobs.push(job(format!("segmented/{m}"), tier.pick3(1, 2, 3), move |cx| {
            let tx: Vec<String> = if m == 1 { user_p() } else { vec![] };
            let code = cx.ch.of(&[235u16, 535]);
            cx.note = format!("{} under segmentation", NAME[m]);
            exchange(cx, m, "alice", "wonderland", &tx, &shape(code, 1), false, Env { dev_split: true, dev_short: true, dev_pend: true, ..Default::default() });
        }));
    }
    // the public building blocks of an exchange
    for part in 0..4usize {
        jobs.push(job(format!("pieces/{part}"), 0, move |cx| {
            let mut cs: Vec<String> = ["User Name", "Username:", "Username", "Password", "Password:"].iter().map(|s| s.to_string()).collect();
            // every challenge one edit away from a known one
            for k in cs.clone() {
                for i in 0..=k.len() {
                    if i < k.len() {
                        cs.push(format!("{}{}", &k[..i], &k[i + 1..]));
                        let ch = k.as_bytes()[i] as char;
                        let sw = if ch.is_ascii_uppercase() { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() };
                        cs.push(format!("{}{sw}{}", &k[..i], &k[i + 1..]));
                    }
                    for c in (0..128u8).map(char::from).chain(['é', '\u{200b}']) {
                        cs.push(format!("{}{c}{}", &k[..i], &k[i..]));
                        if i < k.len() {
                            cs.push(format!("{}{c}{}", &k[..i], &k[i + 1..]));
                        }
                    }
                }
            }
            for (i, ch) in cs.iter().enumerate() {
                if i % 4 != part {
                    continue;
                }
                for (u, p) in [("alice", "wonderland"), ("", ""), ("Password:", "Username:"), ("é\0", "\r\n")] {
                    if !cx.ok() {
                        return;
                    }
                    piece_case(cx, ch, u, p);
                }
            }
            cx.note = format!("{} challenges around the known ones", cs.len());
        }));
    }
    Check { jobs, rule: "one case = one login exchange (credentials, challenges, verdict) or one rendered AUTH command; every case is distinct" }
}

/// Credentials which the form of the mechanism cannot carry: they contain its separator.
fn unfit(m: usize, u: &str, p: &str) -> bool {
    let sep = ['\0', '\0', '\u{1}'][m];
    m != 1 && (u.contains(sep) || p.contains(sep))
}

/// The rendered AUTH command alone.
fn command_case(cx: &mut Cx, m: usize, u: &str, p: &str) {
    let c = creds(u, p);
    let r = AuthCommand::new(M[m], c, if m == 1 { Some("Password:".into()) } else { None });
    if unfit(m, u, p) {
        if let Ok(a) = r {
            cx.bad("command", format!("{} command {:?} for credentials {u:?} and {p:?}", NAME[m], a.to_string()));
        }
        return;
    }
    let Ok(a) = r else { return cx.bad("command", format!("{}: no command", NAME[m])) };
    let s = a.to_string();
    let pre = ["AUTH PLAIN ", "", "AUTH XOAUTH2 "][m];
    let want = match m {
        0 => format!("\0{u}\0{p}"),
        1 => p.to_string(),
        _ => format!("user={u}\x01auth=Bearer {p}\x01\x01"),
    };
    let d = s.strip_prefix(pre).and_then(|s| s.strip_suffix("\r\n")).and_then(|s| b64decode(s.as_bytes()));
    if d.as_deref() != Some(want.as_bytes()) {
        cx.bad("command", format!("{} command {:?} does not carry {:?}", NAME[m], show(s.as_bytes()), show(want.as_bytes())));
    }
}

/// `Mechanism::response`, `AuthCommand` from a challenge and credentials from a pair.
fn piece_case(cx: &mut Cx, ch: &str, u: &str, p: &str) {
    cx.eval(true);
    let c = creds(u, p);
    let pair: Credentials = IntoCredentials::into_credentials((u, p));
    let pair2: Credentials = (u.to_string(), p).into_credentials();
    if pair != c || pair2 != c || IntoCredentials::into_credentials(c.clone()) != c {
        return cx.bad("pieces", format!("the pair ({u:?}, {p:?}) becomes other credentials"));
    }
    let want = match ch {
        "User Name" | "Username:" | "Username" => Some(u),
        "Password" | "Password:" => Some(p),
        _ => None,
    };
    let got = Mechanism::Login.response(&c, Some(ch)).ok();
    if got.as_deref() != want {
        return cx.bad("pieces", format!("LOGIN challenge {:?} is answered {got:?} instead of {want:?}", show(ch.as_bytes())));
    }
    if Mechanism::Login.response(&c, None).is_ok() {
        return cx.bad("pieces", "LOGIN answers without a challenge");
    }
    let line = want.map(|w| format!("{}\r\n", b64encode(w.as_bytes())));
    let got = AuthCommand::new(Mechanism::Login, c.clone(), Some(ch.to_string())).ok().map(|a| a.to_string());
    if got != line {
        return cx.bad("pieces", format!("LOGIN challenge {:?} becomes {got:?} instead of {line:?}", show(ch.as_bytes())));
    }
    for (m, full) in [(Mechanism::Plain, format!("\0{u}\0{p}")), (Mechanism::Xoauth2, format!("user={u}\x01auth=Bearer {p}\x01\x01"))] {
        let fits = !unfit(if m == Mechanism::Plain { 0 } else { 2 }, u, p);
        if m.response(&c, None).ok().as_deref() != fits.then_some(&full[..]) || !m.supports_initial_response() {
            return cx.bad("pieces", format!("{m} response for {u:?}, {p:?}"));
        }
        if m.response(&c, Some(ch)).is_ok() || AuthCommand::new(m, c.clone(), Some(ch.to_string())).is_ok() {
            return cx.bad("pieces", format!("{m} answers the challenge {:?}", show(ch.as_bytes())));
        }
    }
    if Mechanism::Login.supports_initial_response() {
        return cx.bad("pieces", "LOGIN with initial response");
    }
    // from the server's reply: the code has to be 334
    for code in ["334", "235", "335", "333", "324", "434", "234", "534", "250"] {
        for sh in 0..3 {
            let e = b64encode(ch.as_bytes());
            let raw = match sh {
                0 => format!("{code} {e}\r\n"),
                1 => format!("{code} {e} and more words\r\n"),
                _ => format!("{code}-{e}\r\n{code} VXNlcm5hbWU6\r\n"),
            };
            let Ok(r) = raw.parse::<Response>() else { return cx.bad("pieces", format!("{raw:?} is not parsed")) };
            for m in M {
                let got = AuthCommand::new_from_response(m, c.clone(), &r).ok().map(|a| a.to_string());
                // an empty challenge is not one
                let line = if code == "334" && m == Mechanism::Login && !ch.is_empty() { line.clone() } else { None };
                if got != line {
                    return cx.bad("pieces", format!("{m}: reply {raw:?} becomes {got:?} instead of {line:?}"));
                }
            }
        }
    }
}

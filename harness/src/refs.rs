//! Boring reference functions (independent of the library).

pub fn find_crlf(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'\r' && b[i + 1] == b'\n' {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Strict RFC 4648 base64 (standard alphabet, padding required, no line breaks).
pub fn b64decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let val = |c: u8| -> Option<u32> {
        Some(match c {
            b'A'..=b'Z' => u32::from(c - b'A'),
            b'a'..=b'z' => u32::from(c - b'a') + 26,
            b'0'..=b'9' => u32::from(c - b'0') + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        })
    };
    let mut out = Vec::with_capacity(s.len() / 4 * 3);
    let n = s.len() / 4;
    for (i, q) in s.chunks(4).enumerate() {
        let pad = if i + 1 == n { q.iter().rev().take_while(|c| **c == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for &c in &q[..4 - pad] {
            v = (v << 6) | val(c)?;
        }
        v <<= 6 * pad as u32;
        if pad == 1 && v & 0xff != 0 || pad == 2 && v & 0xffff != 0 {
            return None;
        }
        out.push((v >> 16) as u8);
        if pad < 2 {
            out.push((v >> 8) as u8);
        }
        if pad < 1 {
            out.push(v as u8);
        }
    }
    Some(out)
}

pub fn b64encode(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[((v >> (18 - 6 * k)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// True if `got` is what a server must recover for message `m`.
pub fn content_ok(m: &[u8], got: &[u8]) -> bool {
    if m.is_empty() || m.ends_with(b"\r\n") {
        return m == got;
    }
    if got.len() == m.len() + 2 && got.starts_with(m) && got.ends_with(b"\r\n") {
        return true;
    }
    // A message ending in a bare CR may have its CRLF completed by the LF alone.
    m.ends_with(b"\r") && got.len() == m.len() + 1 && got.starts_with(m) && got.ends_with(b"\n")
}

/// Reference reply grammar. `None`: no valid reply starts `s`.
/// `Some((code, lines, len))`: the reply occupies `s[..len]`.
pub fn ref_reply(s: &str) -> Option<(u16, Vec<String>, usize)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut lines = vec![];
    let mut code = None;
    loop {
        let l = b.get(i..)?;
        let e = find_crlf(l)?;
        let line = &l[..e];
        if line.len() < 3 || !(b'2'..=b'5').contains(&line[0]) || !(b'0'..=b'5').contains(&line[1]) || !line[2].is_ascii_digit() {
            return None;
        }
        let c = u16::from(line[0] - b'0') * 100 + u16::from(line[1] - b'0') * 10 + u16::from(line[2] - b'0');
        if *code.get_or_insert(c) != c {
            return None;
        }
        i += e + 2;
        if line.len() == 3 {
            lines.push(String::new());
            return Some((c, lines, i));
        }
        let text = s.get(i - e - 2 + 4..i - 2)?;
        lines.push(text.to_string());
        match line[3] {
            b' ' => return Some((c, lines, i)),
            b'-' => {}
            _ => return None,
        }
    }
}

/// xtext decoder (RFC 3461), over chars so that non-ASCII passes through.
pub fn xtext_decode(s: &str) -> Option<String> {
    let mut out = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => {
                let h = |c: u8| match c {
                    b'0'..=b'9' => Some(c - b'0'),
                    b'A'..=b'F' => Some(c - b'A' + 10),
                    _ => None,
                };
                let v = h(*b.get(i + 1)?)? * 16 + h(*b.get(i + 2)?)?;
                out.push(v);
                i += 3;
            }
            b'=' | 0..=b' ' | 0x7f => return None,
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(out).ok()
}

/// Reference capability parsing.
pub fn ref_caps(lines: &[String]) -> Option<(String, Vec<&'static str>)> {
    let name = lines.first()?.split_whitespace().next()?.to_string();
    let mut f = vec![];
    for l in &lines[1..] {
        let w: Vec<String> = l.split_whitespace().map(|x| x.to_ascii_uppercase()).collect();
        match w.first().map(|s| s.as_str()) {
            Some("PIPELINING") => f.push("PIPELINING"),
            Some("8BITMIME") => f.push("8BITMIME"),
            Some("SMTPUTF8") => f.push("SMTPUTF8"),
            Some("STARTTLS") => f.push("STARTTLS"),
            Some("AUTH") => {
                for m in &w[1..] {
                    match m.as_str() {
                        "PLAIN" => f.push("AUTH PLAIN"),
                        "LOGIN" => f.push("AUTH LOGIN"),
                        "XOAUTH2" => f.push("AUTH XOAUTH2"),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    f.sort_unstable();
    f.dedup();
    Some((name, f))
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(400) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// The i-th word over `alphabet` in length-then-lexicographic order restricted to length `len`.
pub fn word<T: Copy>(alphabet: &[T], len: usize, mut i: usize) -> Vec<T> {
    let k = alphabet.len();
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(alphabet[i % k]);
        i /= k;
    }
    v
}

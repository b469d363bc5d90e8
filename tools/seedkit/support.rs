//! A small SMTP server for demonstrations, over an in-memory pipe.
#![allow(dead_code)]
use async_smtp::*;
use std::future::Future;
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt, BufReader, BufStream, DuplexStream};

pub type Stream = BufStream<DuplexStream>;

#[derive(Default, Clone, Debug)]
pub struct Log {
    /// Every command line, without CRLF.
    pub lines: Vec<String>,
    /// Content of every message that was accepted, with dot-stuffing undone.
    pub mails: Vec<Vec<u8>>,
}

/// Serves one connection. `reply` may answer a command itself (without CRLF at the end; "" for
/// no answer at all); `None` means the normal answer.
pub async fn serve<S: AsyncRead + AsyncWrite + Unpin>(
    io: S,
    greeting: Option<&str>,
    ehlo: &str,
    mut reply: impl FnMut(usize, &str) -> Option<String>,
) -> Log {
    let mut io = BufReader::new(io);
    let mut log = Log::default();
    if let Some(g) = greeting {
        if io.write_all(format!("{g}\r\n").as_bytes()).await.is_err() {
            return log;
        }
    }
    let mut in_data = false;
    let mut content: Vec<u8> = Vec::new();
    loop {
        let mut line = Vec::new();
        match io.read_until(b'\n', &mut line).await {
            Ok(n) if n > 0 => {}
            _ => return log,
        }
        let answer = if in_data {
            if line != b".\r\n" || !(content.is_empty() || content.ends_with(b"\r\n")) {
                if line.first() == Some(&b'.') && (content.is_empty() || content.ends_with(b"\r\n")) {
                    line.remove(0);
                }
                content.extend_from_slice(&line);
                continue;
            }
            in_data = false;
            let a = reply(log.lines.len(), "<content>").unwrap_or("250 accepted".to_string());
            if a.starts_with('2') {
                log.mails.push(std::mem::take(&mut content));
            }
            content.clear();
            a
        } else {
            let text = String::from_utf8_lossy(&line).trim_end_matches(['\r', '\n']).to_string();
            let a = reply(log.lines.len(), &text).unwrap_or_else(|| match text.get(..4).unwrap_or("") {
                "EHLO" => ehlo.to_string(),
                "DATA" => "354 go".to_string(),
                "AUTH" => "235 in".to_string(),
                "STAR" => "220 tls".to_string(),
                "QUIT" => "221 bye".to_string(),
                _ => "250 ok".to_string(),
            });
            if text == "DATA" && a.starts_with('3') {
                in_data = true;
            }
            log.lines.push(text);
            a
        };
        if !answer.is_empty() && io.write_all(format!("{answer}\r\n").as_bytes()).await.is_err() {
            return log;
        }
    }
}

pub fn addr(s: &str) -> EmailAddress {
    EmailAddress::new(s.to_string()).unwrap()
}
pub fn envelope(to: &[&str]) -> Envelope {
    Envelope::new(Some(addr("from@x.test")), to.iter().map(|t| addr(t)).collect()).unwrap()
}
pub fn mail(to: &[&str], content: &[u8]) -> SendableEmail {
    SendableEmail::new(envelope(to), content.to_vec())
}

/// Runs `client` against a server; gives its result (`None` if it hangs) and the server's log.
pub fn session<T, F: Future<Output = T>>(
    greeting: Option<&str>,
    ehlo: &str,
    reply: impl FnMut(usize, &str) -> Option<String>,
    client: impl FnOnce(Stream) -> F,
) -> (Option<T>, Log) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let (a, b) = tokio::io::duplex(1 << 16);
        let client = async {
            let c = client(BufStream::new(a));
            tokio::time::timeout(Duration::from_secs(5), c).await.ok()
        };
        let (out, log) = tokio::join!(client, serve(b, greeting, ehlo, reply));
        (out, log)
    })
}

pub const GREETING: Option<&str> = Some("220 srv.test ready");

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}

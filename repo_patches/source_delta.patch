From 240077242bc17b94416c7b0887a8fa048a4c27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 01/15] fix: escape a dot at the very start of the message

The codec started in the middle-of-line state, so a message whose first
byte is '.' was sent unescaped: the server dropped the dot, and a message
starting with ".\r\n" ended right there.
---
 src/codec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index b91bcdf..913fccd 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -6,11 +6,18 @@ use tokio::io::{AsyncWrite as Write, AsyncWriteExt};
 use futures::io;
 
 /// The codec used for transparency
-#[derive(Default, Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug)]
 pub struct ClientCodec {
     escape_count: u8,
 }
 
+impl Default for ClientCodec {
+    fn default() -> Self {
+        // The start of the message is the start of a line.
+        Self { escape_count: 2 }
+    }
+}
+
 impl ClientCodec {
     /// Creates a new client codec
     pub fn new() -> Self {
-- 
2.43.0


From a0f2a0f9db49e65131cc111c2002d0683dbbbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 02/15] fix: keep track of CRLF after a repeated CR when
 escaping dots

In "\r\r\n." the second CR was taken for ordinary text, the CRLF it
starts was missed and the dot that follows was not escaped.
---
 src/codec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 913fccd..020f7ee 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -46,7 +46,13 @@ impl ClientCodec {
                 for (idx, byte) in frame.iter().enumerate() {
                     match self.escape_count {
                         0 => self.escape_count = if *byte == b'\r' { 1 } else { 0 },
-                        1 => self.escape_count = if *byte == b'\n' { 2 } else { 0 },
+                        1 => {
+                            self.escape_count = match *byte {
+                                b'\n' => 2,
+                                b'\r' => 1,
+                                _ => 0,
+                            }
+                        }
                         2 => {
                             self.escape_count = if *byte == b'.' {
                                 3
-- 
2.43.0


From f1d8f6e7a5b87795ca6c599107541dc1b71112f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 03/15] fix: end the message data exactly once and without
 extra lines

For an empty message the codec emitted the end of data mark and message()
appended another one, which the server took for a command. For a message
ending in CRLF the unconditional "\r\n.\r\n" added an empty line. Let
the codec, which knows where in a line the message ended, terminate it.
---
 src/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cf8153b..50dafab 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -108,8 +108,11 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
         message_reader.read_to_end(&mut message_bytes).await?;
 
         let res: Result<(), Error> = async {
-            codec.encode(&message_bytes, &mut self.inner).await?;
-            self.inner.write_all(b"\r\n.\r\n").await?;
+            if !message_bytes.is_empty() {
+                codec.encode(&message_bytes, &mut self.inner).await?;
+            }
+            // Terminate the message, completing its last line if needed.
+            codec.encode(&[], &mut self.inner).await?;
             self.inner.flush().await?;
             Ok(())
         }
-- 
2.43.0


From 6cdcfa61e48f5eb5c2fe5115659cb40bdd30e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 04/15] fix: accept replies whose last line is only the code

RFC 5321 section 4.2 makes the text of the last line of a reply optional
and asks clients to accept a code followed by CRLF alone.
---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 82c7966..892955b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -9,7 +9,7 @@ use std::string::ToString;
 use nom::{
     branch::alt,
     bytes::streaming::{tag, take_until},
-    combinator::{complete, map},
+    combinator::{complete, map, peek},
     multi::many0,
     sequence::{preceded, tuple},
     IResult,
@@ -227,8 +227,14 @@ pub(crate) fn parse_response(i: &str) -> IResult<&str, Response> {
         preceded(tag("-"), take_until("\r\n")),
         tag("\r\n"),
     )))(i)?;
-    let (i, (last_code, last_line)) =
-        tuple((parse_code, preceded(tag(" "), take_until("\r\n"))))(i)?;
+    // The text of the last line is optional.
+    let (i, (last_code, last_line)) = tuple((
+        parse_code,
+        alt((
+            preceded(tag(" "), take_until("\r\n")),
+            map(peek(tag("\r\n")), |_| ""),
+        )),
+    ))(i)?;
     let (i, _) = complete(tag("\r\n"))(i)?;
 
     // Check that all codes are equal.
-- 
2.43.0


From 987944531992fa474822e885cf290cebf404dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 05/15] fix: encode control characters in xtext with two digits

Characters below 0x10 came out with one hexadecimal digit, which cannot be
decoded back, and DEL was not encoded at all.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fa07d..27ba38e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -11,13 +11,13 @@ pub struct XText<'a>(pub &'a str);
 impl<'a> Display for XText<'a> {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         let mut rest = self.0;
-        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=') {
+        while let Some(idx) = rest.find(|c| c < '!' || c == '+' || c == '=' || c == '\x7f') {
             let (start, end) = rest.split_at(idx);
             f.write_str(start)?;
 
             let mut end_iter = end.char_indices();
             let (_, c) = end_iter.next().expect("char");
-            write!(f, "+{:X}", c as u8)?;
+            write!(f, "+{:02X}", c as u8)?;
 
             if let Some((idx, _)) = end_iter.next() {
                 rest = &end[idx..];
-- 
2.43.0


From 9d3dd8072acf3fee62221734dba049216fa99aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 06/15] fix: read EHLO keywords in any case and not from the
 greeting line

RFC 5321 section 2.4 makes EHLO keywords case-insensitive (RFC 4954 does
the same for mechanism names), so "250 Starttls" was missed; and a server
named e.g. "PIPELINING" in the first line of the reply counted as
offering that extension.
---
 src/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index c4a53ae..7c327cc 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -143,11 +143,13 @@ impl ServerInfo {
 
         let mut features: HashSet<Extension> = HashSet::new();
 
-        for line in response.message.as_slice() {
+        // The first line only names the server; keywords are not case-sensitive.
+        for line in response.message.iter().skip(1) {
             if line.is_empty() {
                 continue;
             }
 
+            let line = line.to_ascii_uppercase();
             let split: Vec<&str> = line.split_whitespace().collect();
             match split.first().copied() {
                 Some("PIPELINING") => {
-- 
2.43.0


From cba38f404d280cad10e8a58a69731db7a5808759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 07/15] fix: keep replies in step when a pipelined command is
 rejected

After the first rejection the remaining replies of the pipelined group
stayed unread, so every later operation on the transport was judged by
the replies to earlier commands. DATA was part of the group as well: with
only some recipients rejected the server answered 354 and took whatever
was sent next for a message to the others. Read all replies of the group
and send DATA only once all of them are positive.
---
 src/smtp_client.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 0dc3697..c65f0b3 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -227,13 +227,27 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 sent_commands += 1;
             }
 
-            // Data
-            self.stream.send_command(DataCommand).await?;
-            sent_commands += 1;
-
+            // Read all replies even if some of them are rejections, so that the following
+            // commands get their own replies.
+            let mut rejection = None;
             for _ in 0..sent_commands {
-                self.stream.read_response().await?;
+                match self.stream.read_response().await {
+                    Ok(_) => {}
+                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
+                        rejection.get_or_insert(err);
+                    }
+                    Err(err) => return Err(err),
+                }
+            }
+            if let Some(err) = rejection {
+                return Err(err);
             }
+
+            // Data
+            //
+            // Not pipelined: if only some of the recipients are rejected, the server would accept
+            // it and there would be no way left to abort the transaction.
+            self.stream.command(DataCommand).await?;
         } else {
             self.stream
                 .command(MailCommand::new(
-- 
2.43.0


From bfb1164f500b5cdb79c8b469f06e4f4094bf433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 08/15] fix: do not deadlock when pipelining many recipients

All RCPT commands of an email were written before any reply was read. Once
they and their replies exceed what the transport and the server buffer,
the server blocks writing replies and the client writing commands. RFC
2920 section 3.1 requires groups to fit the send window, usually 4 KiB.
---
 src/smtp_client.rs | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index c65f0b3..5bf6603 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -14,6 +14,12 @@ use async_std::io::{BufRead, Write};
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncBufRead as BufRead, AsyncWrite as Write};
 
+/// Maximum number of bytes of commands sent without reading the responses.
+///
+/// RFC 2920 requires that a group of pipelined commands fits into the send window, otherwise
+/// client and server may end up waiting for each other to read.
+const MAX_PIPELINED_BYTES: usize = 4096;
+
 /// Contains client configuration
 #[derive(Debug)]
 pub struct SmtpClient {
@@ -194,6 +200,23 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         }
     }
 
+    /// Reads the responses to `count` pipelined commands, even if some of them are rejections, so
+    /// that the following commands get their own responses. Returns the first rejection.
+    async fn read_pipelined_responses(&mut self, count: usize) -> Result<(), Error> {
+        let mut rejection = None;
+        for _ in 0..count {
+            match self.stream.read_response().await {
+                Ok(_) => {}
+                Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
+                    rejection.get_or_insert(err);
+                }
+                // The server may have closed the connection after a rejection such as 421.
+                Err(err) => return Err(rejection.unwrap_or(err)),
+            }
+        }
+        rejection.map_or(Ok(()), Err)
+    }
+
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
         // Mail
@@ -211,37 +234,24 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
-            self.stream
-                .send_command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
-                .await?;
+            let mail = MailCommand::new(email.envelope().from().cloned(), mail_options).to_string();
             let mut sent_commands = 1;
+            let mut sent_bytes = mail.len();
+            self.stream.send_command(mail).await?;
 
             // Recipient
             for to_address in email.envelope().to() {
-                self.stream
-                    .send_command(RcptCommand::new(to_address.clone(), vec![]))
-                    .await?;
-                sent_commands += 1;
-            }
-
-            // Read all replies even if some of them are rejections, so that the following
-            // commands get their own replies.
-            let mut rejection = None;
-            for _ in 0..sent_commands {
-                match self.stream.read_response().await {
-                    Ok(_) => {}
-                    Err(err @ (Error::Transient(_) | Error::Permanent(_))) => {
-                        rejection.get_or_insert(err);
-                    }
-                    Err(err) => return Err(err),
+                let rcpt = RcptCommand::new(to_address.clone(), vec![]).to_string();
+                if sent_bytes + rcpt.len() > MAX_PIPELINED_BYTES {
+                    self.read_pipelined_responses(sent_commands).await?;
+                    sent_commands = 0;
+                    sent_bytes = 0;
                 }
+                sent_commands += 1;
+                sent_bytes += rcpt.len();
+                self.stream.send_command(rcpt).await?;
             }
-            if let Some(err) = rejection {
-                return Err(err);
-            }
+            self.read_pipelined_responses(sent_commands).await?;
 
             // Data
             //
-- 
2.43.0


From 46c4377e4363bdf7083a80c689a14c0d5e92f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 09/15] fix: abort the transaction of a failed send before the
 next one

When a recipient or DATA was rejected, the transaction opened by MAIL
stayed open on the server, which then refuses the MAIL or AUTH command of
the next operation (or, if lenient, keeps the old recipients). Send RSET
first in that case.
---
 src/smtp_client.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 5bf6603..71850f8 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -104,6 +104,8 @@ pub struct SmtpTransport<S: BufRead + Write + Unpin> {
     client_info: SmtpClient,
     /// Low level client
     stream: SmtpStream<S>,
+    /// Whether a failed mail transaction may still be open on the server
+    transaction_open: bool,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
@@ -125,6 +127,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             server_info,
             client_info: builder,
             stream,
+            transaction_open: false,
         };
         Ok(transport)
     }
@@ -174,6 +177,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an AUTH command with the given mechanism, and handles challenge if needed
     pub async fn auth(&mut self, mechanism: Mechanism, credentials: &Credentials) -> SmtpResult {
+        self.reset_transaction().await?;
+
         // TODO
         let mut challenges = 10;
         let mut response = self
@@ -200,6 +205,15 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         }
     }
 
+    /// Aborts the mail transaction that a previously failed `send` has left open, if any.
+    async fn reset_transaction(&mut self) -> Result<(), Error> {
+        if self.transaction_open {
+            self.stream.command(RsetCommand).await?;
+            self.transaction_open = false;
+        }
+        Ok(())
+    }
+
     /// Reads the responses to `count` pipelined commands, even if some of them are rejections, so
     /// that the following commands get their own responses. Returns the first rejection.
     async fn read_pipelined_responses(&mut self, count: usize) -> Result<(), Error> {
@@ -219,6 +233,9 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        self.reset_transaction().await?;
+        self.transaction_open = true;
+
         // Mail
         let mut mail_options = vec![];
 
@@ -279,6 +296,8 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.command(DataCommand).await?;
         }
 
+        // From here on the transaction ends with the response to the message.
+        self.transaction_open = false;
         let res = self.stream.message(email.message()).await;
 
         // Message content
-- 
2.43.0


From 65282c1096e2cc60212a57617e3d743a9a74f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 10/15] fix: read the message before starting the mail
 transaction

The source was read only after DATA had been accepted. When it failed, the
server was left waiting for message content, so that the commands of the
next operation would have been taken for it. Read it first, then nothing
has been sent when that fails.
---
 src/smtp_client.rs | 22 ++++++++++++----------
 src/stream.rs      | 18 +++++-------------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 71850f8..7b407d8 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -10,9 +10,9 @@ use crate::stream::SmtpStream;
 use crate::SendableEmail;
 
 #[cfg(feature = "runtime-async-std")]
-use async_std::io::{BufRead, Write};
+use async_std::io::{BufRead, ReadExt, Write};
 #[cfg(feature = "runtime-tokio")]
-use tokio::io::{AsyncBufRead as BufRead, AsyncWrite as Write};
+use tokio::io::{AsyncBufRead as BufRead, AsyncReadExt, AsyncWrite as Write};
 
 /// Maximum number of bytes of commands sent without reading the responses.
 ///
@@ -233,6 +233,11 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
     /// Sends an email.
     pub async fn send(&mut self, email: SendableEmail) -> SmtpResult {
+        // Read the whole message first, so that there is no transaction to abort if this fails.
+        let envelope = email.envelope().clone();
+        let mut message = Vec::new();
+        email.message().read_to_end(&mut message).await?;
+
         self.reset_transaction().await?;
         self.transaction_open = true;
 
@@ -251,13 +256,13 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.supports_feature(Extension::Pipelining) && self.client_info.pipelining;
 
         if pipelining {
-            let mail = MailCommand::new(email.envelope().from().cloned(), mail_options).to_string();
+            let mail = MailCommand::new(envelope.from().cloned(), mail_options).to_string();
             let mut sent_commands = 1;
             let mut sent_bytes = mail.len();
             self.stream.send_command(mail).await?;
 
             // Recipient
-            for to_address in email.envelope().to() {
+            for to_address in envelope.to() {
                 let rcpt = RcptCommand::new(to_address.clone(), vec![]).to_string();
                 if sent_bytes + rcpt.len() > MAX_PIPELINED_BYTES {
                     self.read_pipelined_responses(sent_commands).await?;
@@ -277,14 +282,11 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
             self.stream.command(DataCommand).await?;
         } else {
             self.stream
-                .command(MailCommand::new(
-                    email.envelope().from().cloned(),
-                    mail_options,
-                ))
+                .command(MailCommand::new(envelope.from().cloned(), mail_options))
                 .await?;
 
             // Recipient
-            for to_address in email.envelope().to() {
+            for to_address in envelope.to() {
                 self.stream
                     .command(RcptCommand::new(to_address.clone(), vec![]))
                     .await?;
@@ -298,7 +300,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         // From here on the transaction ends with the response to the message.
         self.transaction_open = false;
-        let res = self.stream.message(email.message()).await;
+        let res = self.stream.message(&message).await;
 
         // Message content
         if let Ok(result) = &res {
diff --git a/src/stream.rs b/src/stream.rs
index 50dafab..bee6089 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -10,12 +10,9 @@ use crate::extension::ClientId;
 use crate::response::parse_response;
 
 #[cfg(feature = "runtime-async-std")]
-use async_std::io::{prelude::*, BufReader, Read, ReadExt, Write, WriteExt};
+use async_std::io::{prelude::*, Write, WriteExt};
 #[cfg(feature = "runtime-tokio")]
-use tokio::io::{
-    AsyncBufRead as BufRead, AsyncBufReadExt, AsyncRead as Read, AsyncReadExt, AsyncWrite as Write,
-    AsyncWriteExt, BufReader,
-};
+use tokio::io::{AsyncBufRead as BufRead, AsyncBufReadExt, AsyncWrite as Write, AsyncWriteExt};
 
 /// SMTP stream.
 #[derive(Debug)]
@@ -99,17 +96,12 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     }
 
     /// Sends the message content.
-    pub(crate) async fn message<T: Read + Unpin>(&mut self, message: T) -> SmtpResult {
+    pub(crate) async fn message(&mut self, message: &[u8]) -> SmtpResult {
         let mut codec = ClientCodec::new();
 
-        let mut message_reader = BufReader::new(message);
-
-        let mut message_bytes = Vec::new();
-        message_reader.read_to_end(&mut message_bytes).await?;
-
         let res: Result<(), Error> = async {
-            if !message_bytes.is_empty() {
-                codec.encode(&message_bytes, &mut self.inner).await?;
+            if !message.is_empty() {
+                codec.encode(message, &mut self.inner).await?;
             }
             // Terminate the message, completing its last line if needed.
             codec.encode(&[], &mut self.inner).await?;
-- 
2.43.0


From 02dfe8b21a529db180a601fe1e590ba6185cec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 11/15] fix: accept a login that succeeds after the last
 allowed challenge

The loop counter reaches zero both when the server keeps sending
challenges and when it accepts the answer to the tenth one; only the
former is a failure.
---
 src/smtp_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index 7b407d8..cade30a 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -198,7 +198,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
                 .await?;
         }
 
-        if challenges == 0 {
+        if response.has_code(334) {
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             Ok(response)
-- 
2.43.0


From 1cfb909a9e9fe3f025d790308fdbf15df8c24a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 12/15] fix: cancel the authentication exchange when giving up
 on it

When the client could not answer a challenge it returned an error while
the server kept waiting for an answer, so that the next command was taken
for it. RFC 4954 section 4 has the client cancel with "*".
---
 src/smtp_client.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index cade30a..bc285df 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -188,23 +188,32 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
 
         while challenges > 0 && response.has_code(334) {
             challenges -= 1;
-            response = self
-                .stream
-                .command(AuthCommand::new_from_response(
-                    mechanism,
-                    credentials.clone(),
-                    &response,
-                )?)
-                .await?;
+            let command =
+                match AuthCommand::new_from_response(mechanism, credentials.clone(), &response) {
+                    Ok(command) => command,
+                    Err(err) => {
+                        self.cancel_auth().await;
+                        return Err(err);
+                    }
+                };
+            response = self.stream.command(command).await?;
         }
 
         if response.has_code(334) {
+            self.cancel_auth().await;
             Err(Error::ResponseParsing("Unexpected number of challenges"))
         } else {
             Ok(response)
         }
     }
 
+    /// Cancels an authentication exchange in which the server waits for an answer.
+    ///
+    /// The login has failed already, so the outcome does not matter.
+    async fn cancel_auth(&mut self) {
+        let _ = self.stream.command("*\r\n").await;
+    }
+
     /// Aborts the mail transaction that a previously failed `send` has left open, if any.
     async fn reset_transaction(&mut self) -> Result<(), Error> {
         if self.transaction_open {
-- 
2.43.0


From 1851b2b49f5ad8e3cd745e1374f296a042f6952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 13/15] fix: do not panic on async-std when reading fails
 within a reply

The read_line of async-std asserts in debug builds that nothing was read when
it returns, which does not hold if reading fails in the middle of a line.
---
 src/stream.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index bee6089..4973d9b 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -66,15 +66,23 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Read an SMTP response from the wire.
     pub async fn read_response(&mut self) -> SmtpResult {
         let reader = &mut self.inner;
-        let mut buffer = String::with_capacity(100);
+        let mut buffer = Vec::with_capacity(100);
 
         loop {
-            let read = reader.read_line(&mut buffer).await?;
+            // Not `read_line`, because that of async-std panics in debug builds if reading fails
+            // in the middle of a line.
+            let read = reader.read_until(b'\n', &mut buffer).await?;
             if read == 0 {
                 break;
             }
-            debug!("<< {}", escape_crlf(&buffer));
-            match parse_response(&buffer) {
+            let response = std::str::from_utf8(&buffer).map_err(|_| {
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "stream did not contain valid UTF-8",
+                )
+            })?;
+            debug!("<< {}", escape_crlf(response));
+            match parse_response(response) {
                 Ok((_remaining, response)) => {
                     if response.is_positive() {
                         return Ok(response);
-- 
2.43.0


From eaff45e0001ac467d1157133732e2cd60be630b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 14/15] fix: refuse to use a connection after an operation was
 cut short

If a send or login is dropped before it is complete, or fails reading or
writing, commands that follow would be taken for a part of the unfinished
command or message and be given the replies to the earlier commands. In
particular a message could be reported as sent which the server never got.
---
 src/smtp_client.rs |  1 +
 src/stream.rs      | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/smtp_client.rs b/src/smtp_client.rs
index bc285df..e240581 100644
--- a/src/smtp_client.rs
+++ b/src/smtp_client.rs
@@ -247,6 +247,7 @@ impl<S: BufRead + Write + Unpin> SmtpTransport<S> {
         let mut message = Vec::new();
         email.message().read_to_end(&mut message).await?;
 
+        self.stream.check_in_step()?;
         self.reset_transaction().await?;
         self.transaction_open = true;
 
diff --git a/src/stream.rs b/src/stream.rs
index 4973d9b..55e808b 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -19,12 +19,17 @@ use tokio::io::{AsyncBufRead as BufRead, AsyncBufReadExt, AsyncWrite as Write, A
 pub struct SmtpStream<S: BufRead + Write + Unpin> {
     /// Inner stream.
     inner: S,
+    /// Number of commands which have been sent, maybe only in part, but not answered yet.
+    outstanding: usize,
 }
 
 impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     /// Creates new SMTP stream.
     pub fn new(stream: S) -> Self {
-        Self { inner: stream }
+        Self {
+            inner: stream,
+            outstanding: 0,
+        }
     }
 
     /// Returns inner stream.
@@ -41,16 +46,28 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
 
     /// Send the given SMTP command to the server.
     pub async fn command(&mut self, command: impl Display) -> SmtpResult {
+        self.check_in_step()?;
         self.send_command(command).await?;
         self.read_response().await
     }
 
     /// Sends the given SMTP command to the server without waiting for response.
     pub async fn send_command(&mut self, command: impl Display) -> Result<(), Error> {
+        self.outstanding += 1;
         self.write(command.to_string().as_bytes()).await?;
         Ok(())
     }
 
+    /// Fails if an earlier command or message has not been sent completely or its response has not
+    /// been read, because the operation was dropped or failed. Whatever was sent now could become a
+    /// part of it, and its response would be taken for the response to what was sent now.
+    pub(crate) fn check_in_step(&self) -> Result<(), Error> {
+        if self.outstanding > 0 {
+            return Err(Error::Client("an earlier operation was not completed"));
+        }
+        Ok(())
+    }
+
     /// Writes the given data to the server.
     async fn write(&mut self, string: &[u8]) -> Result<(), Error> {
         self.inner.write_all(string).await?;
@@ -84,6 +101,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
             debug!("<< {}", escape_crlf(response));
             match parse_response(response) {
                 Ok((_remaining, response)) => {
+                    self.outstanding = self.outstanding.saturating_sub(1);
                     if response.is_positive() {
                         return Ok(response);
                     }
@@ -107,6 +125,7 @@ impl<S: BufRead + Write + Unpin> SmtpStream<S> {
     pub(crate) async fn message(&mut self, message: &[u8]) -> SmtpResult {
         let mut codec = ClientCodec::new();
 
+        self.outstanding += 1;
         let res: Result<(), Error> = async {
             if !message.is_empty() {
                 codec.encode(message, &mut self.inner).await?;
-- 
2.43.0


From e338326e7313c2a1b441ba0ac7c40a388d961376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 15/15] fix: refuse credentials that PLAIN or XOAUTH2 cannot
 carry

---
 src/authentication.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/authentication.rs b/src/authentication.rs
index d99237b..8ec67d5 100644
--- a/src/authentication.rs
+++ b/src/authentication.rs
@@ -91,6 +91,22 @@ impl Mechanism {
         credentials: &Credentials,
         challenge: Option<&str>,
     ) -> Result<String, Error> {
+        // Characters which separate the parts of the response cannot be used inside of them.
+        let separator = match self {
+            Mechanism::Plain => Some('\u{0}'),
+            Mechanism::Login => None,
+            Mechanism::Xoauth2 => Some('\u{1}'),
+        };
+        if let Some(separator) = separator {
+            if credentials.authentication_identity.contains(separator)
+                || credentials.secret.contains(separator)
+            {
+                return Err(Error::Client(
+                    "This mechanism does not support these credentials",
+                ));
+            }
+        }
+
         match self {
             Mechanism::Plain => match challenge {
                 Some(_) => Err(Error::Client("This mechanism does not expect a challenge")),
-- 
2.43.0


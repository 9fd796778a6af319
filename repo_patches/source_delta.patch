From f3aa7c52122530ee547b11f9cf16eab63ed928ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 01/49] fix: do not keep the first backslash when unescaping
 tag values

---
 src/string/tf/escape.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..d2d5a57 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -62,13 +62,13 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
         // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
+        // The first byte is the backslash that begins the first escape sequence.
+        let (_, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
-    let mut esc = false;
+    let mut esc = true;
     for byte in rest {
         if esc {
             new_bytes.push(unescape_byte(byte));
-- 
2.43.0


From 4564023e6e583f42a51369863dda3db88455df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 02/49] fix: only treat spaces as argument separators

---
 src/ircmsg/args.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..9add90d 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -141,7 +141,10 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Arguments are separated by spaces; other whitespace may be part of an argument.
+            while line.peek_byte() == Some(b' ') {
+                line.next_byte();
+            }
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 0a4bff460f095d51c98878463f92befb4cd939aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 03/49] fix: count the long argument in
 ArgsEditGuard::args_left

---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index 9add90d..dceafd5 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - self.0.len() as isize - self.1.is_some() as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0


From f0a80b5645a77201192958671dcf75c4cbcba342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 04/49] fix: skip tags with invalid keys instead of looping or
 misreading the value

---
 src/ircmsg/tags.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..1530753 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,8 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // No valid key, so skip the whole tag, including its value if any.
+                while !matches!(splitter.next_byte(), None | Some(b';')) {}
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From 51b274c3fbe135387b48623396d6ed86afe51bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 05/49] fix: reject sources with trailing garbage after the
 nickname

---
 src/ircmsg/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/source.rs b/src/ircmsg/source.rs
index d555986..e4da8c2 100644
--- a/src/ircmsg/source.rs
+++ b/src/ircmsg/source.rs
@@ -110,7 +110,8 @@ impl<'a> Source<'a> {
                     Ok(Source { nick, userhost: Some(address) })
                 }
             }
-            _ => Ok(Source { nick, userhost: None }),
+            Some(b) => Err(ParseError::InvalidNick(crate::error::InvalidString::Byte(b))),
+            None => Ok(Source { nick, userhost: None }),
         }
     }
     /// Converts `self` into a version that owns its data.
-- 
2.43.0


From d25157b22578260612450465bcdbb524ccca59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 06/49] fix: keep the whole message as the body if there is no
 CTCP command

---
 src/ircmsg/ctcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ircmsg/ctcp.rs b/src/ircmsg/ctcp.rs
index 3c09e7e..10acfaf 100644
--- a/src/ircmsg/ctcp.rs
+++ b/src/ircmsg/ctcp.rs
@@ -20,6 +20,9 @@ impl<'a> MaybeCtcp<'a, Line<'a>> {
         if splitter.next_byte() == Some(1) {
             splitter.until_byte_eq(1);
             let mut cmd = splitter.string_or_default::<Word<'_>>(false);
+            if cmd.is_empty() {
+                return MaybeCtcp { cmd, body: value };
+            }
             cmd.transform(AsciiCasemap::<true>);
             splitter.next_byte();
             let body = splitter.rest_or_default();
-- 
2.43.0


From 4acf94586a862705199df505d1bd3715cbc9550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 07/49] fix: reject empty words in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From 66ca60aa6184dd59d92fdf00237cf18de1c5c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 08/49] fix: report end of stream in the middle of a line as
 unexpected EOF

---
 src/ircmsg/codec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..9a438a6 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -19,6 +19,10 @@ macro_rules! read_msg {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
             }
+            if $buf.len() < $limit && !matches!($buf.last(), Some(b'\n')) {
+                // Neither the newline nor the limit was reached, so the stream ended mid-line.
+                return Err(Error::from(ErrorKind::UnexpectedEof));
+            }
             read_buf!(|$buf| $parse_expr)
         }
     }};
-- 
2.43.0


From 2b9866e3b7b223db05b7e90c6b30310963a3c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 09/49] fix: strip the line terminator in the tokio codec
 decoders

---
 src/ircmsg/codec.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 9a438a6..5187dae 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -426,6 +426,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::{InvalidString, ParseError},
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -476,6 +477,21 @@ pub(super) mod tokio_codec {
         None
     }
 
+    /// Removes the newline at the end of `line`, which should come from `scroll_buf`.
+    fn trim_line(line: &[u8]) -> Result<Line<'_>, std::io::Error> {
+        match line.split_last() {
+            Some((b'\n', mut rest)) => {
+                while let Some((b'\r', r)) = rest.split_last() {
+                    rest = r;
+                }
+                Ok(Line::from_bytes(rest)?)
+            }
+            Some((b'\0', _)) => Err(InvalidString::Byte(b'\0').into()),
+            // No newline before the limit.
+            _ => Err(ParseError::TooLong.into()),
+        }
+    }
+
     impl Decoder for ClientCodec {
         type Item = ServerMsg<'static>;
         type Error = std::io::Error;
@@ -486,8 +502,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
-            Ok(Some(ServerMsg::parse(line.owning())?))
+            Ok(Some(ServerMsg::parse(trim_line(&line_raw)?.owning())?))
         }
     }
     impl Decoder for ServerCodec {
@@ -500,8 +515,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
-            Ok(Some(ClientMsg::parse(line.owning())?))
+            Ok(Some(ClientMsg::parse(trim_line(&line_raw)?.owning())?))
         }
     }
 }
-- 
2.43.0


From 1935c3f1d81076a7a8fcdcfe5d412ed63dd00c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 10/49] fix: honour read timeouts that are shorter than the
 queue's delay

---
 src/client/conn/time.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..f5cf3cc 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -84,14 +84,15 @@ impl<T> WriteTimeout for NoTimeout<T> {
     }
 }
 
+/// Chooses the shorter timeout, and returns whether it's `new_timeout`.
 fn timeout_fallback(
     new_timeout: Option<Duration>,
     old_timeout: Option<Duration>,
 ) -> (Option<Duration>, bool) {
-    if new_timeout.is_some() {
-        (new_timeout, true)
-    } else {
-        (old_timeout, false)
+    match (new_timeout, old_timeout) {
+        (Some(new), Some(old)) if old <= new => (old_timeout, false),
+        (Some(_), _) => (new_timeout, true),
+        (None, _) => (old_timeout, false),
     }
 }
 
-- 
2.43.0


From 8a857db74c50f0c515533c9e5071a226e51a73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 11/49] fix: clear the read timeout of the connection if there
 is no limit

---
 src/client/conn/time.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index f5cf3cc..d4524f3 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -151,6 +151,10 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
         }
         let (read, constrained) = timeout_fallback(write_after, read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
+        if read.is_none() {
+            // An earlier read may have left a timeout behind.
+            conn.set_read_timeout(None)?;
+        }
         Ok((TimeLimitedSync { conn, read }, constrained))
     }
     fn update_timeout(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From 5f76d169786f160e78a288b7023339071b040802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 12/49] fix: apply the write timeout before writing rather than
 before reading

---
 src/client/conn/sync.rs |  3 ++-
 src/client/conn/time.rs | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..2b6b733 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -302,7 +302,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
                 return Ok(Some((Default::default(), Default::default())));
             }
             let (mut conn, rto_from_queue) =
-                TimeLimitedSync::new(&mut self.conn.conn, &mut self.logic.timeout, wait_for)?;
+                TimeLimitedSync::new(&mut self.conn.conn, &self.logic.timeout, wait_for)?;
             let msg = if self.logic.handlers.wants_owning() {
                 ClientCodec::read_owning_from(&mut conn, &mut self.conn.buf_i)
             } else {
@@ -345,6 +345,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
         if self.logic.queue.is_empty() {
             return Ok(None);
         }
+        self.logic.timeout.update_write_timeout(&mut self.conn.conn)?;
         let mut timeout = None;
         while let Some(popped) = self.logic.queue.pop(|new_timeout| timeout = new_timeout) {
             #[cfg(feature = "tracing")]
diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index d4524f3..756165e 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -122,6 +122,14 @@ impl TimeLimits {
     pub fn read_timeout(&self) -> Option<Duration> {
         self.read
     }
+    /// Sets the write timeout on `conn` if it isn't up-to-date.
+    pub fn update_write_timeout(&mut self, conn: &mut impl WriteTimeout) -> std::io::Result<()> {
+        if self.update_write {
+            conn.set_write_timeout(self.write)?;
+            self.update_write = false;
+        }
+        Ok(())
+    }
     pub fn set_read_timeout(&mut self, timeout: Option<Duration>) -> &mut Self {
         self.read = timeout.map(|t| std::cmp::max(t, Duration::from_secs(1)));
         self
@@ -141,15 +149,10 @@ pub(super) struct TimeLimitedSync<'a, C> {
 impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
     pub fn new(
         conn: &'a mut C,
-        timeouts: &mut TimeLimits,
+        timeouts: &TimeLimits,
         write_after: Option<Duration>,
     ) -> std::io::Result<(Self, bool)> {
-        let TimeLimits { read, write, update_write, .. } = *timeouts;
-        if update_write {
-            conn.set_write_timeout(write)?;
-            timeouts.update_write = false;
-        }
-        let (read, constrained) = timeout_fallback(write_after, read);
+        let (read, constrained) = timeout_fallback(write_after, timeouts.read);
         let read = read.and_then(|dur| Instant::now().checked_add(dur));
         if read.is_none() {
             // An earlier read may have left a timeout behind.
-- 
2.43.0


From 6dc5b3c497f5dab979c24314511cd8251bbbe1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:45 +0000
Subject: [PATCH 13/49] fix: keep the timer of a stalled tokio write so that it
 can fire

---
 src/client/conn/time.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 756165e..329bd0a 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -216,21 +216,23 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// Timer for the write operation in progress, if it's stalled.
+    sleep: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, sleep: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            let sleeper = self.sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleeper.as_mut().poll(cx).is_ready() {
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -275,6 +277,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -286,6 +289,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.sleep = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From d14f942555fb8c17188e692eef2a84dff6a1a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 14/49] fix: reset the assumed source length when clearing
 client state

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..c0e65cb 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -222,6 +222,7 @@ impl ClientState {
     /// Clears all state.
     pub(super) fn clear(&mut self) {
         self.state.clear();
+        self.source_len = DEFAULT_SOURCE_LEN;
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
     pub fn source_len(&self) -> NonZeroUsize {
-- 
2.43.0


From 4260526cf581df148ce186b3ba31063d9a7f4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:51 +0000
Subject: [PATCH 15/49] fix: require authentication if there are
 authenticators, not if there are none

---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From b8511ed5b3d4d413c6e29cf9a8a4dd599bb044c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:52 +0000
Subject: [PATCH 16/49] fix: do not fail registration because of a late SASL
 error

---
 src/client/register/handler.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..805ca7c 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -250,11 +250,8 @@ impl Handler {
         if crate::client::handlers::pong(msg, sink.borrow_mut()) {
             return Ok(None);
         }
-        // Ignore errors related to SASL.
-        let mut ignore_sasl = false;
         #[cfg(feature = "base64")]
         if let HandlerState::Sasl(sasl) = &mut self.state {
-            ignore_sasl = true;
             match sasl.handle(msg, sink.borrow_mut()) {
                 Ok(false) => (),
                 Ok(true) => {
@@ -415,7 +412,9 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // Errors related to SASL are handled above or arrived after authentication was given up
+            // on (such as the reply to an abort). Whether they are fatal depends on `needs_auth`.
+            "902" | "904" | "905" | "906" | "907" => Ok(None),
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From f42e1390ff5f8a3fe3e4bceaa974706d5c1f1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:53 +0000
Subject: [PATCH 17/49] fix: treat the mechanisms of RPL_SASLMECHS as a
 comma-separated list

---
 src/client/auth/handler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..f75aee1 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -222,15 +222,20 @@ impl Handler {
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
                 #[allow(clippy::mutable_key_type)]
-                let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                let set: std::collections::BTreeSet<&[u8]> = msg
+                    .args
+                    .split_last()
+                    .0
+                    .iter()
+                    .flat_map(|a| a.as_bytes().split(|b| *b == b','))
+                    .collect();
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From 5876d23d16c9d7eecc2e9a37b260035ae9048758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:19 +0000
Subject: [PATCH 18/49] fix: forget incomplete SASL challenges when changing
 mechanisms

---
 src/client/auth/handler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index f75aee1..0c0d3d3 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -125,6 +125,11 @@ impl Handler {
         msg
     }
 
+    /// Forgets any incomplete challenge, as it was meant for an exchange that is now over.
+    fn reset_decoder(&mut self) {
+        self.decoder = crate::string::base64::ChunkDecoder::new(400);
+    }
+
     /// Constrains SASL authenticators to only support mechanisms whose names return `true`
     /// when passed to the provided function.
     ///
@@ -139,6 +144,7 @@ impl Handler {
             None
         } else if let Some(new_logic) = self.queue.pop() {
             self.logic = new_logic;
+            self.reset_decoder();
             Some(true)
         } else {
             Some(false)
@@ -199,6 +205,7 @@ impl Handler {
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
                     self.logic = next_logic;
+                    self.reset_decoder();
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
@@ -215,6 +222,7 @@ impl Handler {
             "906" => {
                 // Since we're here, we're trying again.
                 // The authenticator was already cycled earlier, so we just send the message.
+                self.reset_decoder();
                 sink.send(self.auth_msg());
                 Ok(false)
             }
-- 
2.43.0


From a0be1675160411dab669b16a79afe66df0784cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 19/49] fix: keep a nick in the generator if a different one
 was invalid

---
 src/client/nick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..c2f8b22 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -77,7 +77,7 @@ impl NickGen for Nick<'static> {
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
         let eq = *nick == *self;
-        eq.then_some(self)
+        (!eq).then_some(self)
     }
 }
 
-- 
2.43.0


From 2ad5c71845a9af4c361481ccc24fa4ca6568afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:21 +0000
Subject: [PATCH 20/49] fix: use the letters A to F for hexadecimal nick
 suffixes

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..4600178 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + (num - 10),
+                num if !uc && num > 9 => b'a' + (num - 10),
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + (num - 9),
+                num if !uc && num > 8 => b'a' + (num - 9),
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From 12cd882965d1645b0c5972fa779cae11ada34fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:22 +0000
Subject: [PATCH 21/49] fix: do not underflow the nick limit if all suffix
 choices are empty

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 4600178..86a8929 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Generators always yield at least one nick.
+                (0, limit.max(1))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 1ba4821c9e44a922620ecf19c24149bde9a4297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:23 +0000
Subject: [PATCH 22/49] fix: only reply to CTCP requests sent using PRIVMSG

---
 src/client/handlers/autoreply.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..c7ef28b 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -41,6 +41,10 @@ impl Handler for CtcpVersion {
         mut queue: QueueEditGuard<'_>,
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
+        // `parse_as` does not check the message kind.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         // TODO: Should probably consider length limits.
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
-- 
2.43.0


From 1f69a80082fba10bbea615a730d7164efe3b3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:24 +0000
Subject: [PATCH 23/49] fix: compare the whole token when matching PONGs

---
 src/client/handlers/ping.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/client/handlers/ping.rs b/src/client/handlers/ping.rs
index 8ac01b0..eccc5ba 100644
--- a/src/client/handlers/ping.rs
+++ b/src/client/handlers/ping.rs
@@ -34,15 +34,7 @@ impl Handler for Ping {
         if msg.kind == PONG {
             if let Some(last) = msg.args.split_last().1 {
                 let hash = crate::util::mangle(&self.0);
-                let mut value: u32 = 0;
-                for byte in last.as_bytes().iter().cloned() {
-                    if !(b'0'..=b'7').contains(&byte) {
-                        return std::ops::ControlFlow::Continue(());
-                    }
-                    value <<= 3;
-                    value |= (byte - b'0') as u32;
-                }
-                if hash == value {
+                if last.as_bytes() == format!("{hash:o}").as_bytes() {
                     let duration = Instant::now().saturating_duration_since(self.0);
                     let source = msg.source.clone().map(crate::ircmsg::SharedSource::owning_merged);
                     channel.send((source, duration));
-- 
2.43.0


From 8c7efea2189bb778a8d6bdf0f44c743c65addbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 24/49] fix: keep tracking if the client source is not known
 yet

---
 src/client/handlers/track.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..f473d19 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -8,7 +8,7 @@ use crate::{
         ClientState, Handler, SelfMadeHandler,
     },
     error::ParseError,
-    ircmsg::{ClientMsg, Source, UserHost},
+    ircmsg::{ClientMsg, UserHost},
     names::cmd::USERHOST,
     string::{Arg, Nick, User, Word},
 };
@@ -31,13 +31,6 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
-}
-
 // TODO: Would be nice to extract RPL_USERHOST parsing.
 /// Attempts to parse out the UserHost for `nick` from the args for a RPL_USERHOST.
 ///
@@ -96,7 +89,10 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let Some([_, items @ ..]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // We don't know who we are yet.
+                        return ControlFlow::Continue(());
+                    };
                     for item in items {
                         let userhost = match parse_userhost_item(item.clone(), &src.nick) {
                             Ok(uh) => uh,
@@ -112,7 +108,10 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // We don't know who we are yet.
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -129,7 +128,10 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // We don't know who we are yet.
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From 6e6ac92d5c79e70398559b02ccf5e639f9de44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:56 +0000
Subject: [PATCH 25/49] fix: use the ISUPPORT limits of this connection for the
 source length

---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 805ca7c..65da2c1 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -58,11 +58,12 @@ impl Registration {
     pub fn save(self, state: &mut crate::client::ClientState) {
         use crate::client::state::*;
         let source = Source { nick: self.nick, userhost: self.userhost };
+        // Must precede the source length update, which makes use of it.
+        state.insert::<ISupport>(self.isupport);
         state.update_source_len_from(Some(&source), true);
         state.insert::<ClientSource>(source);
         state.insert::<Account>(self.account);
         state.insert::<Caps>(self.caps);
-        state.insert::<ISupport>(self.isupport);
         if let Some(server_source) = self.source {
             state.insert::<ServerSource>(server_source);
         }
-- 
2.43.0


From 13d1e1a30c00aad6eb58d795d5b2e05c3e60bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:57 +0000
Subject: [PATCH 26/49] fix: count the known parts of the source if there is no
 ISUPPORT

---
 src/client/logic.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index c0e65cb..82a008c 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -170,17 +170,18 @@ fn calc_source_len(cs: &ClientState, source: Option<&Source>, trust_notilde: boo
     if let (Some(ln), Some(lu), Some(lh)) = (ln, lu, lh) {
         let len = ln.saturating_add(lu).saturating_add(lh);
         unsafe { NonZeroUsize::new_unchecked(len.saturating_add(2)) }
-    } else if let Some(isupport) = cs.get::<super::state::ISupport>() {
+    } else {
+        let isupport = cs.get::<super::state::ISupport>();
         let mut len = ln
             .or_else(|| {
-                isupport
+                isupport?
                     .get_parsed(crate::names::isupport::NICKLEN)
                     .and_then(|v| v.ok().map(|v| v.get() as usize))
             })
             .unwrap_or(9);
         len = len.saturating_add(
             lu.or_else(|| {
-                isupport
+                isupport?
                     .get_parsed(crate::names::isupport::USERLEN)
                     .and_then(|v| v.ok().map(|v| v.get() as usize))
             })
@@ -188,15 +189,13 @@ fn calc_source_len(cs: &ClientState, source: Option<&Source>, trust_notilde: boo
         );
         len = len.saturating_add(
             lh.or_else(|| {
-                isupport
+                isupport?
                     .get_parsed(crate::names::isupport::HOSTLEN)
                     .and_then(|v| v.ok().map(|v| v.get() as usize))
             })
             .unwrap_or(64),
         );
         unsafe { NonZeroUsize::new_unchecked(len.saturating_add(2)) }
-    } else {
-        DEFAULT_SOURCE_LEN
     }
 }
 
-- 
2.43.0


From 4493c159282d218676da7ef86263e46bad875e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 27/49] fix: do not drop all SASL mechanisms if the server does
 not list any

---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 65da2c1..be2f828 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -432,7 +432,8 @@ impl Handler {
                             use crate::names::cap::{SASL, STS};
                             // Filter SASL mechanisms.
                             match self.reg.caps.get_parsed(SASL) {
-                                Some(Ok(mechs)) => {
+                                // Servers that only implement IRCv3.1 don't list mechanisms.
+                                Some(Ok(mechs)) if !mechs.is_empty() => {
                                     auths.retain(&|mech| mechs.contains(mech.as_bytes()));
                                 }
                                 Some(_) => (),
-- 
2.43.0


From 2a58846aaad72456a2dde8c6f67ed5e5238aecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:49 +0000
Subject: [PATCH 28/49] fix: find keys that were inserted out of order

---
 src/util/flatmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..1a1a436 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,7 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
+        // An unsorted element can have any key, not just ones that come after the sorted ones.
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
-- 
2.43.0


From db48aa785d22d37b9e4bc06375fda5a48177e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:50 +0000
Subject: [PATCH 29/49] fix: do not index past the end of the vector in map
 edit guards

---
 src/util/flatmap.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index 1a1a436..84b3246 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -191,6 +191,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// Return a mutable slice of all the elements in the `Vec`, sorted and otherwise.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +203,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        self.as_slice().get(idx)
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        self.as_slice_mut().get_mut(idx)
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -236,8 +241,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
-            Some(std::mem::replace(old_elem, elem))
+            Some(std::mem::replace(&mut self.as_slice_mut()[idx], elem))
         } else {
             self.push(elem);
             None
@@ -258,7 +262,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (&mut self.as_slice_mut()[idx], Some(elem))
         } else {
             (self.push(elem), None)
         }
-- 
2.43.0


From f904588bfd94701b4a0acd111694d7bc1a1434eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:51 +0000
Subject: [PATCH 30/49] fix: return the pushed element and not the memory after
 it

---
 src/util/flatmap.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index 84b3246..dd6969e 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -231,11 +231,8 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
             }
         }
         unsafe { self.src.set_len(sorted_until) };
-        let mut ptr = self.src.as_mut_ptr();
-        unsafe {
-            ptr = ptr.add(self.real_len);
-            ptr.as_mut().unwrap_unchecked()
-        }
+        let last = self.real_len - 1;
+        &mut self.as_slice_mut()[last]
     }
     pub fn insert(&mut self, elem: E) -> Option<E> {
         let kb = X::extract_key(&elem).borrow();
-- 
2.43.0


From 37f9a6d6462fcdf9e4ecd8d6c9c57fac20984a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:52 +0000
Subject: [PATCH 31/49] fix: remove elements from the whole of the vector in
 map edit guards

---
 src/util/flatmap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index dd6969e..c68f639 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -269,9 +269,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = self.src.len();
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(idx.min(sorted_until)) };
         Some(retval)
     }
     /// Removes all key-value pairs.
-- 
2.43.0


From 80c3ea4444b50b34d2a91fe5e5f0c185c4434f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:53 +0000
Subject: [PATCH 32/49] fix: consider unsorted elements in the length and clear
 of map edit guards

---
 src/util/flatmap.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index c68f639..9987d69 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -184,7 +184,12 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
 
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
@@ -278,8 +283,9 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From 8dda4795e560ac7abe5b0075c26cd82a6ba48234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:05 +0000
Subject: [PATCH 33/49] fix: deallocate oneshot channels exactly once

---
 src/client/handler/channel/oneshot.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..5c41118 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,7 +27,9 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    // How many handles to this there are: the senders, plus one for the receiver.
+    // Whoever gives up the last one deallocates, regardless of which side it is on.
+    handle_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
@@ -51,7 +53,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().handle_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,7 +72,7 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.handle_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
@@ -81,13 +83,10 @@ impl<T> Drop for Receiver<T> {
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
         let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
+        if inner_ref.handle_count.fetch_sub(1, Ordering::AcqRel) == 1 {
+            #[allow(dropping_references)]
+            std::mem::drop(inner_ref);
+            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
         }
     }
 }
@@ -95,7 +94,7 @@ impl<T> Drop for Sender<T> {
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        handle_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,7 +134,7 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
+        if inner_ref.handle_count.fetch_sub(1, Ordering::AcqRel) == 1 {
             #[allow(dropping_references)]
             std::mem::drop(inner_ref);
             std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-- 
2.43.0


From da6cd771c492e0d4b9afed1ba20d49d969535f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:06 +0000
Subject: [PATCH 34/49] fix: keep parking if the thread is unparked for
 unrelated reasons

---
 src/client/handler/channel/parker.rs | 51 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..d7dd448 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -29,16 +29,19 @@ pub fn new<S>(sender: S) -> (Unparker<S>, Parker) {
     (Unparker(sender, ManuallyDrop::new(arc)), Parker(weak))
 }
 
+/// Takes ownership of a thread handle that was removed from the shared pointer, if there is one.
+fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
+    (!ptr.is_null() && ptr != unsafe { SKIP_PARKING.as_mut_ptr() })
+        .then(|| unsafe { Box::from_raw(ptr) })
+}
+
 impl<S> Drop for Unparker<S> {
     fn drop(&mut self) {
         let Some(arc) = Arc::into_inner(unsafe { ManuallyDrop::take(&mut self.1) }) else {
             return;
         };
-        let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = take_thread(arc.into_inner()) {
+            th.unpark();
         }
     }
 }
@@ -50,10 +53,8 @@ impl<S> Unparker<S> {
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
         let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = take_thread(ptr) {
+            th.unpark();
         }
     }
 }
@@ -78,29 +79,31 @@ impl Parker {
     /// Block this thread until either all [`Unparker`]s are dropped or
     /// until one of them unparks this thread.
     pub fn park(&self) {
-        let Some(strong) = self.0.upgrade() else {
+        let Some(mut strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
+        let th = Box::into_raw(Box::new(std::thread::current()));
         if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
+            .compare_exchange(std::ptr::null_mut(), th, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
-            if Arc::into_inner(strong).is_none() {
+            // Threads can be unparked for reasons that have nothing to do with us.
+            // Keep parking for as long as nobody has taken our thread handle.
+            while strong.load(Ordering::Acquire) == th {
+                if let Some(last) = Arc::into_inner(strong) {
+                    // No unparkers left!
+                    std::mem::drop(take_thread(last.into_inner()));
+                    return;
+                }
                 std::thread::park();
-            } else {
-                // No unparkers left!
-                return;
+                strong = match self.0.upgrade() {
+                    Some(strong) => strong,
+                    None => return,
+                };
             }
+        } else {
+            std::mem::drop(unsafe { Box::from_raw(th) });
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
         strong.store(std::ptr::null_mut(), Ordering::Release);
     }
 }
-- 
2.43.0


From 164a12e03034b05d7e39f4d30b25d192d97ed47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 35/49] fix: do not create mutable references to the parker
 sentinel

---
 src/client/handler/channel/parker.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index d7dd448..692161b 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -11,7 +11,7 @@ use std::sync::{
 use std::thread::Thread;
 
 /// Global location whose address we can use to indicate that a [`Parker`] should skip parking.
-static mut SKIP_PARKING: std::mem::MaybeUninit<Thread> = std::mem::MaybeUninit::uninit();
+static SKIP_PARKING: std::mem::MaybeUninit<Thread> = std::mem::MaybeUninit::uninit();
 
 /// A wrapped [`Sender`][super::Sender] that can unpark a thread blocked by a [`Parker`].
 #[derive(Clone, Debug, Default)]
@@ -29,10 +29,14 @@ pub fn new<S>(sender: S) -> (Unparker<S>, Parker) {
     (Unparker(sender, ManuallyDrop::new(arc)), Parker(weak))
 }
 
+/// The address of [`SKIP_PARKING`]. Never dereferenced.
+fn skip_parking() -> *mut Thread {
+    SKIP_PARKING.as_ptr().cast_mut()
+}
+
 /// Takes ownership of a thread handle that was removed from the shared pointer, if there is one.
 fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
-    (!ptr.is_null() && ptr != unsafe { SKIP_PARKING.as_mut_ptr() })
-        .then(|| unsafe { Box::from_raw(ptr) })
+    (!ptr.is_null() && ptr != skip_parking()).then(|| unsafe { Box::from_raw(ptr) })
 }
 
 impl<S> Drop for Unparker<S> {
@@ -52,7 +56,7 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
+        let ptr = self.1.swap(skip_parking(), Ordering::AcqRel);
         if let Some(th) = take_thread(ptr) {
             th.unpark();
         }
-- 
2.43.0


From 111b8844407467915b7e3a9dd55500de64adc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:28 +0000
Subject: [PATCH 36/49] fix: do not write past the end when initializing spare
 capacity

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From 6b32aaec6c4ab4b5a625a8789ea23d9aae3e4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:29 +0000
Subject: [PATCH 37/49] fix: never read more than requested into a SecretBuf

---
 src/string/secretbuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..ee0ec30 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,8 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        // `reserve` may leave more space than this.
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From 0822657b0ed3e9f67f3dfd65b404f197222cc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:31 +0000
Subject: [PATCH 38/49] fix: do not leave copies behind when viewing a
 SecretBuf

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index ee0ec30..98b5159 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From 6149b4253d690a59855d67c461f3b78908f2ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 39/49] fix: zero out the buffers of secret strings when they
 are dropped

---
 src/string/base64.rs | 10 ++++-----
 src/string/bytes.rs  | 52 ++++++++++++++++++++++++++++++--------------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/string/base64.rs b/src/string/base64.rs
index a118458..3a5502f 100644
--- a/src/string/base64.rs
+++ b/src/string/base64.rs
@@ -23,13 +23,11 @@ impl ChunkEncoder {
         if max == 0 {
             return ChunkEncoder::empty();
         }
-        let encoded: Bytes<'static> = ENGINE.encode(bytes).into();
+        let encoded = ENGINE.encode(bytes);
+        let encoded: Bytes<'static> =
+            if secret { Bytes::from_secret(encoded.into_bytes()) } else { encoded.into() };
         let splitter = if !encoded.is_empty() {
-            let mut encoded = unsafe { Arg::from_unchecked(encoded) };
-            if secret {
-                encoded = encoded.secret();
-            }
-            Ok(Splitter::new(encoded))
+            Ok(Splitter::new(unsafe { Arg::from_unchecked(encoded) }))
         } else {
             Err(secret)
         };
diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..5daae85 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -66,7 +66,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -106,7 +106,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -172,7 +172,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -265,7 +265,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -277,7 +277,7 @@ impl<'a> Bytes<'a> {
     /// This operation copies data unless `self` has sole ownership of its data.
     pub fn into_vec(self) -> Vec<u8> {
         if let Some(owner) = self.ownership {
-            unsafe { owner.into_vec(self.value, self.secret) }
+            unsafe { owner.into_vec(self.value) }
         } else {
             self.value.to_vec()
         }
@@ -309,7 +309,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -318,7 +318,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -363,7 +363,7 @@ impl<'a> From<Bytes<'a>> for Vec<u8> {
 impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> {
     fn from(value: Bytes<'a>) -> Self {
         match value.ownership {
-            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value, value.secret) }),
+            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value) }),
             None => Cow::Borrowed(value.value),
         }
     }
@@ -477,7 +477,22 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<OwnedBuf>);
+
+/// The buffer owned by [`OwnedBytes`], which is zeroed out when dropped if it's secret.
+struct OwnedBuf {
+    data: std::mem::ManuallyDrop<crate::util::OwnedSlice<u8>>,
+    secret: bool,
+}
+
+impl Drop for OwnedBuf {
+    fn drop(&mut self) {
+        if self.secret {
+            self.data.reinit_all();
+        }
+        unsafe { std::mem::ManuallyDrop::drop(&mut self.data) }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -489,20 +504,25 @@ impl OwnedBytes {
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
-        if value.is_empty() {
-            return (None, &[]);
-        }
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
+        let empty = value.is_empty();
         let (os, len) = crate::util::OwnedSlice::from_vec(value);
         let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let buf = OwnedBuf { data: std::mem::ManuallyDrop::new(os), secret };
+        if empty {
+            return (None, &[]);
+        }
+        (Some(OwnedBytes(crate::util::ThinArc::new(buf))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
-    pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
+    pub unsafe fn into_vec(self, slice: &[u8]) -> Vec<u8> {
+        if let Ok(mut buf) = self.0.try_unwrap() {
+            let os = std::mem::ManuallyDrop::take(&mut buf.data);
+            let secret = buf.secret;
+            std::mem::forget(buf);
             let (retval, destroy) = os.into_vec_with_slice(slice);
             if secret {
                 if let Some(mut destroy) = destroy {
-- 
2.43.0


From 30bd4f5d7afa47775bf3162384a2c68d66a01965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:35 +0000
Subject: [PATCH 40/49] fix: do not claim UTF-8 validity for more than was
 checked when restoring splitter indices

---
 src/string/splitter.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..c8fbe83 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -75,8 +75,13 @@ impl Range {
         if end {
             self.end = saved.end;
         }
-        if start && end {
-            self.encoding = saved.encoding;
+        match (start, end) {
+            (true, true) => self.encoding = saved.encoding,
+            // The new range is more than what `self.encoding` is known to hold for.
+            (true, false) | (false, true) => {
+                self.encoding = std::cmp::min(self.encoding, saved.encoding)
+            }
+            (false, false) => (),
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -117,6 +122,11 @@ impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
         if self.range.encoding < accept {
             let slice = self.range.constrain(self.as_ref());
+            if slice.is_empty() {
+                // This says nothing about whether the range is on a character boundary,
+                // which matters if the range is later restored.
+                return Ok(());
+            }
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
                 let slice = &slice[idx..];
-- 
2.43.0


From d18f40e3181e9a030965017203c5d39497b8ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:36 +0000
Subject: [PATCH 41/49] fix: keep strings derived from secret strings secret

---
 src/string/bytes.rs     | 16 ++++++++++++----
 src/string/splitter.rs  | 13 +++++++++++--
 src/string/tf/escape.rs | 15 ++++++++++++---
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 5daae85..6dd40e9 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,7 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            self.owning_force(self.secret);
         }
     }
 }
@@ -164,7 +164,11 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => {
+                let secret = self.secret;
+                let (ownership, value) = unsafe { OwnedBytes::from_vec(o.into_bytes(), secret) };
+                Bytes { value, ownership, utf8: 1i8.into(), secret }
+            }
         }
     }
     #[cfg(feature = "base64")]
@@ -192,7 +196,11 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            if self.secret {
+                crate::names::PLUS.secret()
+            } else {
+                crate::names::PLUS
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
@@ -246,7 +254,7 @@ impl<'a> Bytes<'a> {
     pub fn transform<T: Transform>(&mut self, tf: T) -> T::Value {
         let tfed = tf.transform(self);
         if tfed.transformed.as_ref().is_empty() {
-            *self = Bytes::empty();
+            *self = Bytes { secret: self.secret, ..Bytes::empty() };
             return tfed.value;
         }
         match tfed.transformed {
diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index c8fbe83..548ea0b 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -238,6 +238,15 @@ impl<'a, T: BytesNewtype<'a>> Splitter<T> {
     pub fn is_secret(&self) -> bool {
         self.string.is_secret()
     }
+    /// Returns the default string, which is secret if the string being split is.
+    fn default_string<U: BytesNewtype<'a> + Default>(&self) -> U {
+        let default = U::default();
+        if self.is_secret() {
+            unsafe { U::from_unchecked(default.into_bytes().secret()) }
+        } else {
+            default
+        }
+    }
     unsafe fn as_slice_unsafe(&self) -> &'a [u8] {
         self.range.constrain(self.string.as_bytes_unsafe())
     }
@@ -300,7 +309,7 @@ impl<'a, T: BytesNewtype<'a>> Splitter<T> {
     /// [`self.string_or_default(true)`][Splitter::string_or_default]
     /// but is only defined for a subset of string types.
     pub fn rest_or_default<U: BytesNewtype<'a> + From<T> + Default>(&mut self) -> U {
-        let rest = self.peek_rest::<U>().unwrap_or_default();
+        let rest = self.peek_rest::<U>().unwrap_or_else(|_| self.default_string());
         self.range.start += rest.as_ref().len();
         rest
     }
@@ -319,7 +328,7 @@ impl<'a, T: BytesNewtype<'a>> Splitter<T> {
     /// contain all the remaining bytes in `self.`
     /// This generally means returning an empty string and not consuming anything.
     pub fn string_or_default<U: BytesNewtype<'a> + Default>(&mut self, require_rest: bool) -> U {
-        let next = self.peek_string::<U>(require_rest).unwrap_or_default();
+        let next = self.peek_string::<U>(require_rest).unwrap_or_else(|_| self.default_string());
         self.range.start += next.as_ref().len();
         next
     }
diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index d2d5a57..745eb5c 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -25,6 +25,15 @@ pub fn escape_byte(byte: &u8) -> Option<NonZeroU8> {
     }
 }
 
+/// Creates a string from the bytes of some other string, preserving secrecy.
+fn derived<'a>(bytes: Vec<u8>, secret: bool) -> Bytes<'a> {
+    if secret {
+        Bytes::from_secret(bytes)
+    } else {
+        bytes.into()
+    }
+}
+
 /// Returns an escaped form of the provided tag value.
 pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
     let tag_value = tag_value.into();
@@ -50,7 +59,7 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    unsafe { Word::from_unchecked(derived(new_bytes, tag_value.is_secret())) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -79,5 +88,5 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    unsafe { NoNul::from_unchecked(derived(new_bytes, tag_value.is_secret())) }
 }
-- 
2.43.0


From f5a099a4a87cfe0da8c947440ea5fc9fd3774ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:10 +0000
Subject: [PATCH 42/49] fix: remove every overlap between sets of modes of
 different types

Overlaps of the first set with the third and fourth were kept, so such a
mode had two types at once.
---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..62769b1 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From 308a9b1ddcbb35d584e61d4c08d0c41db956babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:10 +0000
Subject: [PATCH 43/49] fix: allow several status modes without a prefix

Modes without a prefix were taken for duplicates of each other.
---
 src/state/mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 62769b1..a9c6bb6 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,7 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From 11ee50ffbf9ab40485f48c4189dc859117f34e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:10 +0000
Subject: [PATCH 44/49] fix: synchronize with other owners before freeing or
 reusing a shared buffer

The thread that dropped the last reference, or unwrapped it, did not
acquire what other threads released, so their reads could race with it.
---
 src/util/thinarc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..3a0d317 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,9 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // Everything that was done with the value through other references
+                // happens before it is destroyed.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From dc3106ca8525e99b26e516f6492f87735378707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:29 +0000
Subject: [PATCH 45/49] fix: load numerics as the number they are stored as

Numeric serialises as a u16 but its Deserialize was derived for the three
stored digits: no message with a numeric kind could be loaded again, and
loading [200,200,200] made a Numeric whose text is not valid UTF-8.
---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 84a2e3a51a8fe15fd6e4c687d64da09a536a550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 46/49] fix: check TLS 1.3 handshake signatures as TLS 1.3
 signatures without verification

---
 src/client/tls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/tls.rs b/src/client/tls.rs
index d39e719..fe7e1f5 100644
--- a/src/client/tls.rs
+++ b/src/client/tls.rs
@@ -73,7 +73,7 @@ impl rustls::client::danger::ServerCertVerifier for NoVerifier {
         cert: &CertificateDer<'_>,
         dss: &rustls::DigitallySignedStruct,
     ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
-        rustls::crypto::verify_tls12_signature(
+        rustls::crypto::verify_tls13_signature(
             message,
             cert,
             dss,
-- 
2.43.0


From 33ea1183d4e6087a11bf1cf4539a3f96568801b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:41 +0000
Subject: [PATCH 47/49] fix: keep what is left to write when an asynchronous
 flush is dropped partway through

---
 src/client.rs            |  4 ++--
 src/client/conn/tokio.rs | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 83adf4d..a2ede58 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -179,8 +179,8 @@ impl<C, S> Client<C, S> {
         retval
     }
 
-    /// Returns `true` if the client has handlers or queued messages.
+    /// Returns `true` if the client has handlers or messages left to write.
     pub fn needs_run(&self) -> bool {
-        self.logic.needs_run()
+        self.logic.needs_run() || !self.conn.buf_o.is_empty()
     }
 }
diff --git a/src/client/conn/tokio.rs b/src/client/conn/tokio.rs
index a596ec1..76b2408 100644
--- a/src/client/conn/tokio.rs
+++ b/src/client/conn/tokio.rs
@@ -211,11 +211,13 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
     ///
     /// I/O failure should be considered non-recoverable,
     /// as any messages that were removed from the queue will be lost.
+    /// If the returned future is dropped before completion,
+    /// whatever is left to write will be written by the next call.
     ///
     /// If the `tracing` feature is enabled, logs messages at the debug level.
     pub async fn flush_partial_tokio(&mut self) -> std::io::Result<Option<Duration>> {
         use tokio::io::AsyncWriteExt;
-        if self.logic.queue.is_empty() {
+        if self.logic.queue.is_empty() && self.conn.buf_o.is_empty() {
             return Ok(None);
         }
         let mut timeout = None;
@@ -226,9 +228,21 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
         let mut conn = TimeLimitedTokio::new(&mut self.conn.conn, &self.logic.timeout);
-        let result = conn.write_all(&self.conn.buf_o).await;
-        self.conn.buf_o.clear();
-        result?;
+        // If this future is dropped partway through, what wasn't written yet has to be kept
+        // and what was written has to be forgotten.
+        while !self.conn.buf_o.is_empty() {
+            let result = match conn.write(&self.conn.buf_o).await {
+                Ok(0) => Err(std::io::ErrorKind::WriteZero.into()),
+                other => other,
+            };
+            match result {
+                Ok(written) => std::mem::drop(self.conn.buf_o.drain(..written)),
+                Err(e) => {
+                    self.conn.buf_o.clear();
+                    return Err(e);
+                }
+            }
+        }
         conn.flush().await?;
         Ok(timeout)
     }
-- 
2.43.0


From 2c2199520ff2c1d7609cb77ec8cb60c279bd1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 48/49] fix: keep the time points of very long rate limit
 delays representable

---
 src/client/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/queue.rs b/src/client/queue.rs
index b189e1e..3cf3b1e 100644
--- a/src/client/queue.rs
+++ b/src/client/queue.rs
@@ -88,6 +88,8 @@ impl Queue {
     /// `burst` specifies how many additional messages may be sent during an initial burst,
     /// e.g. a value of `4` results in a burst of five messages.
     pub fn set_rate_limit(&mut self, delay: Duration, burst: u32) -> &mut Self {
+        // No longer delay can be waited out. This keeps every point in time representable.
+        let delay = std::cmp::min(delay, Duration::from_secs(1 << 30));
         self.delay = delay;
         self.sub = delay.saturating_mul(burst);
         // Pessimistically sets the next-message delay
-- 
2.43.0


From 61c867035dd38e043eeb391df4a0812a976db4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 49/49] fix: compare edit guards of keyed collections by what
 they contain

---
 src/util/flatmap.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index 9987d69..735ce58 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -67,13 +67,34 @@ impl<E, X: KeyExtractor<E>> Default for FlatMap<E, X> {
 ///
 /// This means that if the guard is forgotten,
 /// the FlatMap will still contain only elements in sorted order.
-#[derive(PartialEq, Eq, Hash, Debug)]
 pub struct FlatMapEditGuard<'a, E, X: KeyExtractor<E>> {
     src: &'a mut Vec<E>,
     real_len: usize,
     marker: std::marker::PhantomData<X>,
 }
 
+// These must not be derived: the elements past `src`'s length are part of the map as well,
+// and where they are depends on the order in which they were added.
+impl<E: PartialEq, X: KeyExtractor<E>> PartialEq for FlatMapEditGuard<'_, E, X> {
+    fn eq(&self, other: &Self) -> bool {
+        self.in_order() == other.in_order()
+    }
+}
+
+impl<E: Eq, X: KeyExtractor<E>> Eq for FlatMapEditGuard<'_, E, X> {}
+
+impl<E: std::hash::Hash, X: KeyExtractor<E>> std::hash::Hash for FlatMapEditGuard<'_, E, X> {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.in_order().hash(state);
+    }
+}
+
+impl<E: std::fmt::Debug, X: KeyExtractor<E>> std::fmt::Debug for FlatMapEditGuard<'_, E, X> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_tuple("FlatMapEditGuard").field(&self.in_order()).finish()
+    }
+}
+
 impl<'a, E, X: KeyExtractor<E>> Drop for FlatMapEditGuard<'a, E, X> {
     fn drop(&mut self) {
         let sorted_until = self.src.len();
@@ -201,6 +222,12 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let ptr = self.src.as_mut_ptr();
         unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
     }
+    /// Return references to all the elements in the order they will have once `self` is dropped.
+    fn in_order(&self) -> Vec<&E> {
+        let mut elems: Vec<&E> = self.as_slice().iter().collect();
+        elems.sort_unstable_by(|l, r| X::extract_key(l).cmp(X::extract_key(r)));
+        elems
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
-- 
2.43.0


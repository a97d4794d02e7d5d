From 981a9a916cf5d1aecaa77b7ad4a22941257946a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 1/6] fix: refuse ByteSlice cuts that reach outside the window

Slice<Range> compared the requested end with the window's end offset in the
underlying buffer instead of its length, so a window that does not start at 0
could be cut to bytes beyond it.
---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..894e301 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.len());
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From f968908af4e43a406544e96fbbb6f523163cf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 2/6] fix: keep DataStream ended once it has ended

---
 smtp-message/src/data/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..2668c02 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -95,8 +95,10 @@ where
         use self::DataStreamState::*;
         use Poll::*;
         // First, handle the case when we're done
-        if self.state == Finished {
-            return Ready(None);
+        match self.state {
+            // What is left in `buf` or `source` is not part of this stream's data
+            Finished | EarlyFin | Completed => return Ready(None),
+            Running | CrPassed | CrLfPassed => (),
         }
         loop {
             // Figure out what to send from the current buf
-- 
2.43.0


From c06579878602f5bd472c239498e426446fdc383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 3/6] fix: do not poll the client's input again after it has
 ended

---
 smtp-server/src/interact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..fd97d19 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,9 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // `incoming` may end in the middle of a mail, before the end of the command loop: it must not
+    // be polled again then
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From 96a8a6ea10858ddc7efb4f98d61c67aba00ba237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 4/6] fix: send a reply line even if the text is empty

---
 smtp-server/src/sendreply.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..9d579cb 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,6 +15,12 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
+    if text.byte_len() == 0 {
+        // An empty text has no chunk, but the reply still needs its line
+        let line = ReplyLine::build(code, IsLastLine::Yes, text).unwrap();
+        return writer.send(line).await;
+    }
+
     let replies = text
         .byte_chunks(ReplyLine::MAX_LEN)
         .with_position()
-- 
2.43.0


From 756608748b28a356a3f7a362b650d6843f410d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 5/6] fix: accept only digits as the code of a reply line

---
 smtp-message/src/reply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..8664479 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use nom::is_digit;
 use std::{io, str::FromStr};
 
 use crate::{
@@ -130,7 +131,10 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    verify!(take!(3), |b: ByteSlice| b.iter().all(|c| is_digit(*c))),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From a1e1ba8cd71dda2b1fb936c5d0395bc751d03978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 6/6] fix: accept the IPv6 address literal tag in any letter
 case

---
 smtp-message/src/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/domain.rs b/smtp-message/src/domain.rs
index e141d42..2e07e23 100644
--- a/smtp-message/src/domain.rs
+++ b/smtp-message/src/domain.rs
@@ -47,7 +47,7 @@ named!(pub hostname(ByteSlice) -> Domain,
                     preceded!(one_of!(alnum!()),
                               opt!(is_a!(concat!(alnum!(), "-")))))),
              |x| Domain::Host(SmtpString::from(x.promote()))) |
-        map_res!(map_res!(preceded!(tag!("[IPv6:"), take_until_and_consume!("]")),
+        map_res!(map_res!(preceded!(tag_no_case!("[IPv6:"), take_until_and_consume!("]")),
                           ByteSlice::into_utf8),
                  |x| -> Result<Domain, AddrParseError> {
                      Ok(Domain::Addr(Ipv6Addr::from_str(x)?.into()))
-- 
2.43.0


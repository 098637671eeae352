From 883063ce3b481f3d1d417b7de2f77e1906e78018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 01/58] fix: escape quotes and backslashes in enum names of
 column types

---
 src/types/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..0cfa717 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -370,6 +370,10 @@ impl From<SqlType> for &'static SqlType {
     }
 }
 
+fn escape_enum_name(name: &str) -> String {
+    name.replace('\\', "\\\\").replace('\'', "\\'")
+}
+
 impl SqlType {
     pub(crate) fn is_datetime(&self) -> bool {
         matches!(self, SqlType::DateTime(_))
@@ -429,14 +433,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
-- 
2.43.0


From 896d09e2cae60fcd8430dbd66589ee14014ec091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 02/58] fix: keep the closing parenthesis of parametric types
 inside SimpleAggregateFunction

---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..bfbd430 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -296,7 +296,7 @@ fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
         return None;
     }
 
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
+    let args = &source[24..source.len() - 1];
     let sep_index = args.find(',')?;
 
     let agg_func = args[..sep_index].trim();
-- 
2.43.0


From 45acbc71f7e81a770f62640ebc86a9b6550b8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 03/58] fix: split Map type arguments at the top-level comma

---
 src/types/column/factory.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index bfbd430..63b2b76 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -283,7 +283,7 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
     }
 
     let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
+    let comma_pos = find_top_level_comma(body)?;
 
     let key = body[0..comma_pos].trim();
     let value = body[comma_pos + 1..].trim();
@@ -291,6 +291,28 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
     Some((key, value))
 }
 
+/// Position of the first comma that is neither nested in parentheses nor quoted.
+fn find_top_level_comma(source: &str) -> Option<usize> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (pos, ch) in source.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '\'' => quoted = !quoted,
+            _ if quoted => {}
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            ',' if depth == 0 => return Some(pos),
+            _ => {}
+        }
+    }
+
+    None
+}
+
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
     if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
         return None;
-- 
2.43.0


From 361494b576ca9fc665181af686a2d7e23585347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 04/58] fix: end the data of an insert without rows only once

---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c475868..c6a906e 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -507,10 +507,15 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        let send_cmd = if block.is_empty() {
+            // an empty block already marks the end of data
+            Cmd::SendData(block, context)
+        } else {
+            Cmd::Union(
+                Box::new(Cmd::SendData(block, context.clone())),
+                Box::new(Cmd::SendData(Block::default(), context)),
+            )
+        };
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From b1d3e4d237a3c3acf10bb95ee9a9f7a40393ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 05/58] fix: hash values of every type instead of panicking
 (maps keyed by UUID, Enum, Date, ...)

---
 src/types/value.rs     | 10 +++++++++-
 src/types/value_ref.rs | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..a8278e0 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,7 +75,15 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, e) => e.hash(state),
+            Self::Enum16(_, e) => e.hash(state),
+            Self::Ipv4(a) => a.hash(state),
+            Self::Ipv6(a) => a.hash(state),
+            Self::Uuid(a) => a.hash(state),
+            // equal values are of the same variant, so this agrees with `Eq`
+            _ => std::mem::discriminant(self).hash(state),
         }
     }
 }
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..8ff6031 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -69,7 +69,17 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Bool(b) => b.hash(state),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::Decimal(d) => d.hash(state),
+            Self::Enum8(_, e) => e.hash(state),
+            Self::Enum16(_, e) => e.hash(state),
+            Self::Ipv4(a) => a.hash(state),
+            Self::Ipv6(a) => a.hash(state),
+            Self::Uuid(a) => a.hash(state),
+            // equal values are of the same variant, so this agrees with `Eq`
+            _ => std::mem::discriminant(self).hash(state),
         }
     }
 }
-- 
2.43.0


From 61bc14a504316e7c7b12f85212868506e5f978d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 06/58] fix: compare Bool, IPv4, IPv6, UUID and Map values

---
 src/types/value.rs     | 1 +
 src/types/value_ref.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/types/value.rs b/src/types/value.rs
index a8278e0..73662eb 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -126,6 +126,7 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
+            (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => ka == kb && va == vb && a == b,
             (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
                 // chrono has no "variable-precision" offset method. As a
                 // fallback, we always use `timestamp_nanos` and multiply by
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 8ff6031..639ce04 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -89,6 +89,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -102,6 +103,9 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::String(a), ValueRef::String(b)) => *a == *b,
             (ValueRef::Float32(a), ValueRef::Float32(b)) => *a == *b,
             (ValueRef::Float64(a), ValueRef::Float64(b)) => *a == *b,
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::Date(a), ValueRef::Date(b)) => *a == *b,
             (ValueRef::DateTime(a, tz_a), ValueRef::DateTime(b, tz_b)) => {
                 let time_a = tz_a.timestamp_opt(i64::from(*a), 0);
-- 
2.43.0


From cb1c3751b2898f6dc0690ee771037a288daaea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 07/58] fix: keep sub-second precision and early dates in
 arrays of DateTime columns

---
 src/types/column/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..422f4ac 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -126,7 +126,7 @@ impl ColumnFrom for Vec<Vec<DateTime<Tz>>> {
         for vs in source {
             let mut inner = Vec::with_capacity(vs.len());
             for v in vs {
-                let value: Value = Value::DateTime(v.timestamp() as u32, v.timezone());
+                let value: Value = Value::ChronoDateTime(v);
                 inner.push(value);
             }
             data.push(Value::Array(sql_type.clone().into(), Arc::new(inner)));
-- 
2.43.0


From 3e2b7ad22df127101e63a8444f38987bac92f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 08/58] fix: deliver packets that were received before the
 connection was closed

---
 src/io/transport.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..9d35e2d 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -286,15 +286,15 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
-            return Poll::Ready(None);
-        }
-
         // Try to parse the new data!
         let ret = this.try_parse_msg();
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        if *this.done && *this.buf_is_incomplete {
+            return Poll::Ready(None);
+        }
+
         ret
     }
 }
-- 
2.43.0


From 3c77dff4c25dc43ad44e08e36721a360193819da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 09/58] fix: report a connection closed in the middle of an
 exchange as an error instead of panicking

---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 9d35e2d..f0bd99b 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -316,7 +316,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let h = h.ok_or(Error::Connection(ConnectionError::Broken))?;
+        Ok((h, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index c6a906e..90ba960 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -324,7 +324,7 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info = info.ok_or(Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -422,7 +422,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -498,7 +498,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From a64beaabc95d5b88cfc790f69aed29d8325da65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 10/58] fix: do not return a transport to the pool after a
 failed read of a result

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 63f8366fd9c27699395cc06a2bdc47cfe0fb5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 11/58] fix: allow a handle to be used again after an exception
 or a failed reconnection

---
 src/pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..e8548c2 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -84,14 +84,14 @@ impl PoolBinding {
     pub(crate) fn attach(&mut self) {
         match self.take() {
             PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            other => *self = other,
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
             PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            other => *self = other,
         }
     }
 }
-- 
2.43.0


From 56343ca835ad628d3ad1937433d64c0904fec11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:59 +0000
Subject: [PATCH 12/58] fix: discard the rest of an abandoned result before the
 next query when ping_before_query is off

---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90ba960..ebbc760 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,9 +555,14 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
+        if ping_before_query || self.is_inconsistent() {
             let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
+                let checked = if ping_before_query {
+                    self.check_connection().await
+                } else {
+                    self.clear().await
+                };
+                let inner: BoxStream<'a, Result<Block>> = match checked {
                     Ok(_) => match f(self) {
                         Ok(s) => Box::pin(s),
                         Err(err) => Box::pin(stream::once(future::err(err))),
@@ -605,6 +610,17 @@ impl ClientHandle {
         }
     }
 
+    fn is_inconsistent(&self) -> bool {
+        matches!(self.inner, Some(ref inner) if inner.inconsistent)
+    }
+
+    /// Discards the unread rest of the previous response.
+    async fn clear(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
+    }
+
     fn get_inner(&mut self) -> Result<ClickhouseTransport> {
         self.inner
             .take()
-- 
2.43.0


From fd6e5cf0b8b6b184eec52d13af546f66c5d7a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:59 +0000
Subject: [PATCH 13/58] fix: do not report the exception of an abandoned query
 as the answer to the next request

---
 src/io/transport.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index f0bd99b..c8ab21e 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -113,7 +113,8 @@ impl ClickhouseTransport {
                     h = Some(inner);
                 }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
-                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                // the exception answers the abandoned request, not the next one
+                Ok(Packet::Exception(_)) => return Err(Error::Connection(ConnectionError::Broken)),
                 Err(e) => return Err(Error::Io(e)),
                 _ => {}
             }
-- 
2.43.0


From cb92fc72a2b1e028ef300ce0b56445bcbfb389d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:59 +0000
Subject: [PATCH 14/58] fix: fetch_all of a statement without a result returns
 an empty block instead of panicking

---
 src/types/query_result/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..56ae3ab 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -40,6 +40,9 @@ impl<'a> QueryResult<'a> {
                         future::ready(Ok(blocks))
                     })
                     .await?;
+                if blocks.is_empty() {
+                    return Ok(Block::default());
+                }
                 Ok(Block::concat(blocks.as_slice()))
             },
             timeout,
-- 
2.43.0


From 86155dea36b3486e825c48090abab854f4c913af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:45 +0000
Subject: [PATCH 15/58] fix: change the state of the pool under a lock
 (connections over the limit, lost wakeups, panics under concurrency)

---
 src/pool/mod.rs | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index e8548c2..cd44e9c 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -2,7 +2,7 @@ use std::{
     fmt, mem,
     pin::Pin,
     sync::atomic::{self, Ordering},
-    sync::Arc,
+    sync::{Arc, Mutex, MutexGuard, PoisonError},
     task::{Context, Poll, Waker},
 };
 
@@ -28,11 +28,24 @@ pub(crate) struct Inner {
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
+    // Held while the counters and queues above are changed together
+    lock: Mutex<()>,
 }
 
 impl Inner {
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     pub(crate) fn release_conn(&self) {
-        self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        {
+            let _guard = self.lock();
+            self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        }
+        self.wake_tasks();
+    }
+
+    fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
@@ -164,6 +177,7 @@ impl Pool {
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
+            lock: Mutex::new(()),
             hosts,
         });
 
@@ -189,7 +203,13 @@ impl Pool {
         GetHandle::new(self)
     }
 
-    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
+        let inner = self.inner.clone();
+        let _guard = inner.lock();
+        self.poll_locked(cx)
+    }
+
+    fn poll_locked(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
         self.handle_futures(cx)?;
 
         match self.take_conn() {
@@ -206,7 +226,7 @@ impl Pool {
                     }
                 };
                 if new_conn_created {
-                    self.poll(cx)
+                    self.poll_locked(cx)
                 } else {
                     Poll::Pending
                 }
@@ -259,14 +279,17 @@ impl Pool {
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
-        if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
-            let _ = self.inner.idle.push(client);
+        {
+            let _guard = self.inner.lock();
+            if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
+                let _ = self.inner.idle.push(client);
+            } else {
+                drop(client);
+            }
+            self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
         }
-        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
 
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
-        }
+        self.inner.wake_tasks();
     }
 
     pub(crate) fn get_addr(&self) -> &Url {
-- 
2.43.0


From 859baa571302dcdfe26076a9f4770d992d25bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:11 +0000
Subject: [PATCH 16/58] fix: do not leave other requests for a connection
 waiting when one of them ends, and do not fail a request with an attempt made
 for an earlier one

---
 src/pool/futures/get_handle.rs | 23 +++++++++++++++++---
 src/pool/mod.rs                | 39 +++++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..740111a 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -6,18 +6,26 @@ use std::{
 
 use pin_project::pin_project;
 
-use crate::{errors::Result, pool::Pool, ClientHandle};
+use crate::{
+    errors::Result,
+    pool::{Pool, Waiting},
+    ClientHandle,
+};
 
 /// Future that resolves to a `ClientHandle`.
 #[pin_project]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
+    waiting: Option<Waiting>,
 }
 
 impl GetHandle {
     pub(crate) fn new(pool: &Pool) -> Self {
-        Self { pool: pool.clone() }
+        Self {
+            pool: pool.clone(),
+            waiting: None,
+        }
     }
 }
 
@@ -25,6 +33,15 @@ impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        self.project().pool.poll(cx)
+        let this = self.project();
+        if this.waiting.is_none() {
+            *this.waiting = Some(Waiting::new(&this.pool));
+        }
+
+        let result = this.pool.poll(cx);
+        if result.is_ready() {
+            *this.waiting = None;
+        }
+        result
     }
 }
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index cd44e9c..59a54b3 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -28,6 +28,10 @@ pub(crate) struct Inner {
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
+    // Number of requests waiting for a connection
+    waiters: atomic::AtomicUsize,
+    // Whether the connection being opened was started for requests that have gone
+    orphaned: atomic::AtomicBool,
     // Held while the counters and queues above are changed together
     lock: Mutex<()>,
 }
@@ -59,6 +63,32 @@ impl Inner {
     }
 }
 
+/// A request waiting for a connection. When it ends the other requests have to look
+/// after the connection that is being opened.
+pub(crate) struct Waiting {
+    inner: Arc<Inner>,
+}
+
+impl Waiting {
+    fn new(pool: &Pool) -> Self {
+        let inner = pool.inner.clone();
+        inner.waiters.fetch_add(1, Ordering::AcqRel);
+        Self { inner }
+    }
+}
+
+impl Drop for Waiting {
+    fn drop(&mut self) {
+        {
+            let _guard = self.inner.lock();
+            if self.inner.waiters.fetch_sub(1, Ordering::AcqRel) == 1 {
+                self.inner.orphaned.store(true, Ordering::Release);
+            }
+        }
+        self.inner.wake_tasks();
+    }
+}
+
 #[derive(Clone)]
 pub(crate) enum PoolBinding {
     None,
@@ -177,6 +207,8 @@ impl Pool {
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
+            waiters: atomic::AtomicUsize::new(0),
+            orphaned: atomic::AtomicBool::new(false),
             lock: Mutex::new(()),
             hosts,
         });
@@ -226,6 +258,7 @@ impl Pool {
                     }
                 };
                 if new_conn_created {
+                    self.inner.orphaned.store(false, Ordering::Release);
                     self.poll_locked(cx)
                 } else {
                     Poll::Pending
@@ -242,6 +275,7 @@ impl Pool {
 
     fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<()> {
         if let Some(mut new) = self.inner.new.pop() {
+            let orphaned = self.inner.orphaned.load(Ordering::Acquire);
             match new.poll_unpin(cx) {
                 Poll::Ready(Ok(client)) => {
                     self.inner.idle.push(client).unwrap();
@@ -253,7 +287,10 @@ impl Pool {
                     let _ = self.inner.new.push(new);
                 }
                 Poll::Ready(Err(err)) => {
-                    return Err(err);
+                    // an attempt made for an earlier request is not the failure of this one
+                    if !orphaned {
+                        return Err(err);
+                    }
                 }
             }
         }
-- 
2.43.0


From 57d2311b8cc3c64d5eadf4b457ed7bd33027ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 17/58] fix: times before 1970 with a fraction of a second, and
 times outside 1677-2262, no longer panic in DateTime64 conversions

---
 src/types/column/datetime64.rs | 47 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..13d68d1 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -118,8 +118,13 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let nsec = i64::from(time.timestamp_subsec_nanos());
+    let fraction = if precision < 9 {
+        nsec / base10.pow(9 - precision)
+    } else {
+        nsec * base10.pow(precision - 9)
+    };
+    time.timestamp() * base10.pow(precision) + fraction
 }
 
 #[inline(always)]
@@ -129,34 +134,34 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
 
 #[inline(always)]
 pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = to_seconds(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
+    let (sec, nsec) = to_seconds(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
+}
+
+/// Seconds since the epoch (rounded down) and nanoseconds.
+#[inline(always)]
+fn to_seconds(value: i64, precision: u32) -> (i64, u32) {
     let base10: i64 = 10;
 
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
+    if precision >= 19 {
+        return (0, 0);
+    }
+
+    let ticks = base10.pow(precision);
+    let fraction = value.rem_euclid(ticks);
+    let nsec = if precision < 9 {
+        fraction * base10.pow(9 - precision)
     } else {
-        0_i64
+        fraction / base10.pow(precision - 9)
     };
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    (value.div_euclid(ticks), nsec as u32)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3bc0f9c51af55cb0e372a52430a0a7253d6c20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 18/58] fix: undefined behaviour in the iterators of
 LowCardinality columns (null vtable), which made optimised builds refuse them

---
 src/types/column/iter/mod.rs        | 5 ++++-
 src/types/column/low_cardinality.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..d061f66 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -902,7 +902,10 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                 unsafe {
                     column.get_internals(&mut internals, 1, 0)?;
                     size = (*internals.index).len();
-                    StringInnerIterator::LowCardinality(internals.index, internals.accessor)
+                    let Some(accessor) = internals.accessor else {
+                        return Err(Error::FromSql(FromSqlError::UnsupportedOperation));
+                    };
+                    StringInnerIterator::LowCardinality(internals.index, accessor)
                 }
             }
             SqlType::String => {
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..ec6b231 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -167,14 +167,14 @@ impl LowCardinalityIndex {
 #[derive(Debug)]
 pub(crate) struct LowCardinalityInternals {
     pub(crate) index: *const LowCardinalityIndex,
-    pub(crate) accessor: *const dyn LowCardinalityAccessor,
+    pub(crate) accessor: Option<*const dyn LowCardinalityAccessor>,
 }
 
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: None,
         }
     }
 }
@@ -355,7 +355,10 @@ impl ColumnData for LowCardinalityColumnData {
         unsafe {
             let data_ref = &mut *(data_ptr as *mut LowCardinalityInternals);
             data_ref.index = &self.index as *const LowCardinalityIndex;
-            data_ref.accessor = mem::transmute(accessor);
+            data_ref.accessor = Some(mem::transmute::<
+                &dyn LowCardinalityAccessor,
+                *const dyn LowCardinalityAccessor,
+            >(accessor));
             Ok(())
         }
     }
-- 
2.43.0


From ff7c8ba6a9122cc9ae86f2a496ac82f131e0e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 19/58] fix: the iterator of a Date column gave the day before
 in time zones west of UTC

---
 src/types/column/iter/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index d061f66..74acebb 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1,6 +1,6 @@
 #![allow(clippy::cast_ptr_alignment)]
 
-use chrono::prelude::*;
+use chrono::{prelude::*, Duration};
 use chrono_tz::Tz;
 use std::{
     collections::HashMap,
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +454,9 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        NaiveDate::from_ymd_opt(1970, 1, 1)
+            .map(|unix_epoch| unix_epoch + Duration::days(current_value.into()))
+            .unwrap()
     }
 
     #[inline(always)]
@@ -1185,7 +1182,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 313574834355f93bb67f9d5725b79339730a1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 20/58] fix: iterating maps with FixedString or Decimal keys
 gave the values instead of the keys or panicked

---
 src/types/column/iter/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 74acebb..a6fb76b 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -923,7 +923,7 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
@@ -953,7 +953,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        _props: u32,
+        props: u32,
     ) -> Result<Self::Iter> {
         let SqlType::Decimal(precision, scale) = column_type else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -973,7 +973,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
                     &mut nobits as *mut NoBits as *mut *const u8,
                 ],
                 0,
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             (ptr, size, nobits)
-- 
2.43.0


From 5f0fc44f6cb31efc7925e65192f8205057001953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 21/58] fix: iterating a column as an address, a UUID or, when
 made of several blocks, any type it does not have is refused instead of
 panicking or reinterpreting bytes

---
 src/types/column/iter/mod.rs | 37 +++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index a6fb76b..d71169f 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -813,9 +813,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -838,9 +845,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -863,9 +877,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -1413,6 +1434,16 @@ where
             &*data
         };
 
+        // the chunks are visited lazily: make sure that each of them can be
+        for chunk in data {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: chunk.clone(),
+                _marker: marker::PhantomData,
+            };
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
-- 
2.43.0


From 4f9c6041eed163250bbdd25db269c60dbd85cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:55 +0000
Subject: [PATCH 22/58] fix: arrays and maps beyond the first packet of a large
 insert were sent with the offsets and elements of the whole column

---
 src/types/column/array.rs | 14 ++++++++++----
 src/types/column/map.rs   | 16 +++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..cf313ae 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,20 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // the offsets of a part of the column are relative to its first row
+        let first = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut last = first;
 
         for i in start..end {
-            offset = self.offsets.at(i);
-            encoder.write(offset);
+            last = self.offsets.at(i);
+            encoder.write(last - first);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, first as usize, last as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..febba6c 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,21 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        // the offsets of a part of the column are relative to its first row
+        let first = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut last = first;
 
         for i in start..end {
-            offset = self.offsets.at(i);
-            encoder.write(offset);
+            last = self.offsets.at(i);
+            encoder.write(last - first);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, first as usize, last as usize);
+        self.values.save(encoder, first as usize, last as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 5b795f77cddf196012ee7f19ebdfb03d23f5dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:17 +0000
Subject: [PATCH 23/58] fix: a compressed frame without content made the rest
 of the block wait for more data

---
 src/types/block/compressed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..235f22e 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -53,7 +53,7 @@ where
     R: Read + ReadEx,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        if self.is_empty() {
+        while self.is_empty() {
             self.fill()?;
         }
 
-- 
2.43.0


From 13254b6e65862e7c24cbe57d6e7d39f187f154d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:17 +0000
Subject: [PATCH 24/58] fix: compressed frames whose sizes cannot be true were
 read out of bounds, padded with zeros or allocated in advance

---
 src/binary/read_ex.rs         | 15 +++++++++++++++
 src/types/block/compressed.rs | 34 ++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..98e0707 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -7,6 +7,7 @@ use crate::{
 
 pub(crate) trait ReadEx {
     fn read_bytes(&mut self, rv: &mut [u8]) -> Result<()>;
+    fn read_into_vec(&mut self, rv: &mut Vec<u8>, len: usize) -> Result<()>;
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer;
@@ -17,6 +18,7 @@ pub(crate) trait ReadEx {
 }
 
 const MAX_STACK_BUFFER_LEN: usize = 1024;
+const MAX_CHUNK_LEN: usize = 1 << 20;
 
 impl<T> ReadEx for T
 where
@@ -41,6 +43,19 @@ where
         Ok(())
     }
 
+    /// Appends `len` bytes to `rv`; memory is only allocated as the bytes come in.
+    fn read_into_vec(&mut self, rv: &mut Vec<u8>, len: usize) -> Result<()> {
+        let mut remaining = len;
+        while remaining > 0 {
+            let chunk = remaining.min(MAX_CHUNK_LEN);
+            let start = rv.len();
+            rv.resize(start + chunk, 0);
+            self.read_bytes(&mut rv[start..])?;
+            remaining -= chunk;
+        }
+        Ok(())
+    }
+
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer,
diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index 235f22e..6124af8 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -15,6 +15,7 @@ use crate::{
 };
 
 const DBMS_MAX_COMPRESSED_SIZE: u32 = 0x4000_0000; // 1GB
+const HEADER_SIZE: u32 = 9;
 
 pub(crate) struct CompressedReader<'a, R> {
     reader: &'a mut R,
@@ -79,34 +80,39 @@ where
     let compressed: u32 = reader.read_scalar()?;
     let original: u32 = reader.read_scalar()?;
 
-    if compressed > DBMS_MAX_COMPRESSED_SIZE {
+    if compressed > DBMS_MAX_COMPRESSED_SIZE || original > DBMS_MAX_COMPRESSED_SIZE {
         return Err(raise_error("compressed data too big".to_string()));
     }
-
-    buffer.resize(compressed as usize, 0_u8);
-    {
-        let mut cursor = io::Cursor::new(&mut buffer);
-        cursor.write_u8(0x82)?;
-        cursor.write_u32::<LittleEndian>(compressed)?;
-        cursor.write_u32::<LittleEndian>(original)?;
+    if compressed < HEADER_SIZE {
+        return Err(raise_error("compressed data too small".to_string()));
     }
-    reader.read_bytes(&mut buffer[9..])?;
+
+    buffer.clear();
+    buffer.write_u8(0x82)?;
+    buffer.write_u32::<LittleEndian>(compressed)?;
+    buffer.write_u32::<LittleEndian>(original)?;
+    reader.read_into_vec(&mut buffer, (compressed - HEADER_SIZE) as usize)?;
 
     if h != city_hash_128(&buffer) {
         return Err(raise_error("data was corrupted".to_string()));
     }
 
-    let data = vec![0_u8; original as usize];
+    // LZ4 cannot compress better than this
+    if u64::from(original) > u64::from(compressed) * 255 {
+        return Err(raise_error("can't decompress data".to_string()));
+    }
+
+    let mut data = vec![0_u8; original as usize];
     let status = unsafe {
         LZ4_decompress_safe(
-            (buffer.as_mut_ptr() as *const c_char).add(9),
-            data.as_ptr() as *mut c_char,
-            (compressed - 9) as c_int,
+            (buffer.as_ptr() as *const c_char).add(HEADER_SIZE as usize),
+            data.as_mut_ptr() as *mut c_char,
+            (compressed - HEADER_SIZE) as c_int,
             original as c_int,
         )
     };
 
-    if status < 0 {
+    if status < 0 || status as u32 != original {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From ac8088cb8c94a237339f86808d71e3d2cedecf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 25/58] fix: a variable-length integer longer than 64 bits
 overflowed a shift instead of being refused

---
 src/binary/read_ex.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index 98e0707..dbdcda4 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -98,10 +98,11 @@ where
         loop {
             let b: u8 = self.read_scalar()?;
 
+            if i > 9 || i == 9 && b > 1 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             if b < 0x80 {
-                if i > 9 || i == 9 && b > 1 {
-                    return Err(Error::Driver(DriverError::Overflow));
-                }
                 return Ok(x | (u64::from(b) << s));
             }
 
-- 
2.43.0


From 35608ad08b421f6cf0b5b3e37243ea557b3934f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 26/58] fix: low-cardinality columns with inconsistent flags,
 row counts or dictionary references are refused instead of panicking

---
 src/types/column/low_cardinality.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index ec6b231..2ce9bc1 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -256,7 +256,17 @@ fn read_inner<R: ReadEx>(
 
     let keys_rows: u64 = reader.read_scalar()?;
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+
+    if flags != keys.get_flags() {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Unsupported low cardinality flags.",
+        ))));
+    }
+    if keys.len() != size || (0..size).any(|i| keys.get_by_index(i) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid low cardinality keys.",
+        ))));
+    }
 
     Ok((inner, keys))
 }
-- 
2.43.0


From d3442dc1a53d3abadc29a4f54b5fe57bfd90d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 27/58] fix: fetch_all refuses blocks whose columns differ
 instead of panicking

---
 src/types/block/mod.rs        |  9 +++++++++
 src/types/query_result/mod.rs | 15 +++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..dd3b1aa 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -275,6 +275,15 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    pub(crate) fn has_same_columns(&self, other: &Self) -> bool {
+        self.column_count() == other.column_count()
+            && self
+                .columns
+                .iter()
+                .zip(other.columns.iter())
+                .all(|(a, b)| a.name() == b.name() && a.sql_type() == b.sql_type())
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = blocks.first().expect("blocks should not be empty.");
 
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 56ae3ab..8e545f1 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -7,7 +7,7 @@ use log::info;
 use std::{marker::PhantomData, sync::Arc};
 
 use crate::{
-    errors::Result,
+    errors::{DriverError, Error, Result},
     try_opt,
     types::{
         block::BlockRef, query_result::stream_blocks::BlockStream, Block, Cmd, Complex, Query, Row,
@@ -33,10 +33,17 @@ impl<'a> QueryResult<'a> {
             async {
                 let blocks = self
                     .stream_blocks_(false)
-                    .try_fold(Vec::new(), |mut blocks, block| {
-                        if !block.is_empty() {
-                            blocks.push(block);
+                    .try_fold(Vec::<Block>::new(), |mut blocks, block| {
+                        if block.is_empty() {
+                            return future::ready(Ok(blocks));
                         }
+                        if let Some(first) = blocks.first() {
+                            if !block.has_same_columns(first) {
+                                let err = Error::Driver(DriverError::UnexpectedPacket);
+                                return future::ready(Err(err));
+                            }
+                        }
+                        blocks.push(block);
                         future::ready(Ok(blocks))
                     })
                     .await?;
-- 
2.43.0


From 265a2bfc8840915244f6073a317bf237e753bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:51 +0000
Subject: [PATCH 28/58] fix: malformed, too deep or out-of-range column types
 are refused instead of panicking, overflowing or being truncated

---
 src/types/column/factory.rs | 93 ++++++++++++++++++++++---------------
 src/types/column/mod.rs     |  1 +
 2 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 63b2b76..ae605f5 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -37,6 +37,11 @@ use crate::{
     SqlType,
 };
 
+const MAX_DATETIME64_PRECISION: u32 = 9;
+
+/// How deep types can be nested in each other.
+const MAX_TYPE_DEPTH: usize = 64;
+
 macro_rules! match_str {
     ($arg:ident, {
         $( $($var:literal)|* => $doit:expr,)*
@@ -242,24 +247,52 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
+/// Returns `params` for a type of the form `name(params)`.
+fn strip_type<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
+
+/// Column types are loaded recursively, so a server must not choose the depth.
+pub(crate) fn check_type_depth(source: &str) -> Result<()> {
+    if source.bytes().filter(|&byte| byte == b'(').count() <= MAX_TYPE_DEPTH {
+        return Ok(());
+    }
+
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for ch in source.chars() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '\'' => quoted = !quoted,
+            _ if quoted => {}
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_TYPE_DEPTH {
+            return Err("Column type is nested too deep.".into());
+        }
     }
 
-    let inner_size = &source[12..source.len() - 1];
+    Ok(())
+}
+
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    let inner_size = strip_type(source, "FixedString")?;
     match inner_size.parse::<usize>() {
-        Err(_) => None,
+        Err(_) | Ok(0) => None,
         Ok(value) => Some(value),
     }
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = strip_type(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -269,20 +302,11 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    strip_type(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
+    let body = strip_type(source, "Map")?;
     let comma_pos = find_top_level_comma(body)?;
 
     let key = body[0..comma_pos].trim();
@@ -367,7 +391,7 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
     }
 
     let params_indexes = match params_indexes {
-        (Some(start), Some(end)) => (start, end),
+        (Some(start), Some(end)) if start < end => (start, end),
         _ => return None,
     };
 
@@ -405,6 +429,9 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
                 NoBits::N32 => 9,
                 NoBits::N64 => 18,
             };
+            if scale > precision {
+                return None;
+            }
             Some((precision, scale, bits))
         }
         _ => None,
@@ -419,11 +446,10 @@ enum EnumSize {
 fn parse_enum8(input: &str) -> Option<Vec<(String, i8)>> {
     match parse_enum(EnumSize::Enum8, input) {
         Some(result) => {
-            let res: Vec<(String, i8)> = result
-                .iter()
-                .map(|(key, val)| (key.clone(), *val as i8))
-                .collect();
-            Some(res)
+            result
+                .into_iter()
+                .map(|(key, val)| i8::try_from(val).ok().map(|val| (key, val)))
+                .collect()
         }
         None => None,
     }
@@ -533,6 +559,7 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
         .skip(token(')'));
 
     match parser.parse(source) {
+        Ok(((precision, _), _)) if precision > MAX_DATETIME64_PRECISION => None,
         Ok((pair, remain)) if remain.is_empty() => Some(pair),
         _ => None,
     }
@@ -543,16 +570,8 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
         return None;
     }
 
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
+    let lo = source.find('(')?;
+    let hi = source.rfind(')')?;
 
     if lo >= hi {
         return None;
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..b6c2fb1 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -180,6 +180,7 @@ impl<K: ColumnType> Column<K> {
     pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize, tz: Tz) -> Result<Column<K>> {
         let name = reader.read_string()?;
         let type_name = reader.read_string()?;
+        factory::check_type_depth(&type_name)?;
         let data =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, &type_name, size, tz)?;
         let column = Self {
-- 
2.43.0


From c59f52a7eb248989613fb9c433b2e1aed32bab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:51 +0000
Subject: [PATCH 29/58] fix: sizes announced by the server are not allocated
 before the data has arrived, and decreasing array offsets are refused

---
 src/binary/read_ex.rs            | 34 ++++++++++++++++----------------
 src/types/column/array.rs        |  6 +++---
 src/types/column/date.rs         |  6 +-----
 src/types/column/datetime64.rs   |  6 +-----
 src/types/column/fixed_string.rs | 17 +++++++---------
 src/types/column/ip.rs           |  9 ++++++---
 src/types/column/list.rs         | 28 ++++++++++++++++++++------
 src/types/column/map.rs          |  6 +++---
 src/types/column/nullable.rs     |  4 ++--
 src/types/column/numeric.rs      |  6 +-----
 src/types/column/string.rs       |  7 +++++--
 src/types/column/util.rs         | 19 ++++++++++++++++--
 12 files changed, 85 insertions(+), 63 deletions(-)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index dbdcda4..e3342f7 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -1,4 +1,4 @@
-use std::{io, mem::MaybeUninit};
+use std::io;
 
 use crate::{
     errors::{DriverError, Error, Result},
@@ -67,25 +67,19 @@ where
 
     fn read_string(&mut self) -> Result<String> {
         let str_len = self.read_uvarint()? as usize;
-        let mut buffer = vec![0_u8; str_len];
-        self.read_bytes(buffer.as_mut())?;
+        let mut buffer = Vec::new();
+        self.read_into_vec(&mut buffer, str_len)?;
         Ok(String::from_utf8(buffer)?)
     }
 
     fn skip_string(&mut self) -> Result<()> {
-        let str_len = self.read_uvarint()? as usize;
+        let mut remaining = self.read_uvarint()? as usize;
+        let mut buffer = [0_u8; MAX_STACK_BUFFER_LEN];
 
-        if str_len <= MAX_STACK_BUFFER_LEN {
-            unsafe {
-                let mut buffer: [MaybeUninit<u8>; MAX_STACK_BUFFER_LEN] =
-                    MaybeUninit::uninit().assume_init();
-                self.read_bytes(
-                    &mut *(&mut buffer[..str_len] as *mut [MaybeUninit<u8>] as *mut [u8]),
-                )?;
-            }
-        } else {
-            let mut buffer = vec![0_u8; str_len];
-            self.read_bytes(buffer.as_mut())?;
+        while remaining > 0 {
+            let chunk = remaining.min(MAX_STACK_BUFFER_LEN);
+            self.read_bytes(&mut buffer[..chunk])?;
+            remaining -= chunk;
         }
 
         Ok(())
@@ -115,8 +109,14 @@ where
 
     fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> Result<()> {
         let str_len = self.read_uvarint()? as usize;
-        let buffer = pool.allocate(str_len);
-        self.read_bytes(buffer)?;
+        if str_len > MAX_CHUNK_LEN {
+            let mut buffer = Vec::new();
+            self.read_into_vec(&mut buffer, str_len)?;
+            pool.allocate(str_len).copy_from_slice(&buffer);
+        } else {
+            let buffer = pool.allocate(str_len);
+            self.read_bytes(buffer)?;
+        }
         Ok(())
     }
 }
diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index cf313ae..a35a649 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -9,6 +9,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -27,9 +28,8 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets = List::load(reader, rows)?;
+        check_offsets(&offsets)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 422f4ac..f9daee5 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -63,11 +63,7 @@ where
         size: usize,
         tz: Tz,
     ) -> Result<DateColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateColumnData { data, tz })
     }
 }
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 13d68d1..92e5a42 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -31,11 +31,7 @@ impl DateTime64ColumnData {
         precision: u32,
         tz: Tz,
     ) -> Result<DateTime64ColumnData> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateTime64ColumnData {
             data,
             params: (precision, tz),
diff --git a/src/types/column/fixed_string.rs b/src/types/column/fixed_string.rs
index 024c433..8ed9a79 100644
--- a/src/types/column/fixed_string.rs
+++ b/src/types/column/fixed_string.rs
@@ -3,7 +3,7 @@ use std::cmp;
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{
             column_data::{BoxColumnData, LowCardinalityAccessor},
@@ -40,15 +40,12 @@ impl FixedStringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize, str_len: usize) -> Result<Self> {
-        let mut instance = Self::with_capacity(size, str_len);
-
-        for _ in 0..size {
-            let old_len = instance.buffer.len();
-            instance.buffer.resize(old_len + str_len, 0_u8);
-            reader.read_bytes(&mut instance.buffer[old_len..old_len + str_len])?;
-        }
-
-        Ok(instance)
+        let byte_size = size
+            .checked_mul(str_len)
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let mut buffer = Vec::new();
+        reader.read_into_vec(&mut buffer, byte_size)?;
+        Ok(Self { buffer, str_len })
     }
 }
 
diff --git a/src/types/column/ip.rs b/src/types/column/ip.rs
index 3d66239..798bf8a 100644
--- a/src/types/column/ip.rs
+++ b/src/types/column/ip.rs
@@ -7,7 +7,7 @@ use std::{
 
 use crate::{
     binary::{Encoder, ReadEx},
-    errors::Result,
+    errors::{DriverError, Error, Result},
     types::{
         column::{column_data::BoxColumnData, nullable::NullableColumnData, ColumnWrapper},
         SqlType, Value, ValueRef,
@@ -272,8 +272,11 @@ impl<V: IpVersion> IpColumnData<V> {
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
-        let mut inner = vec![0; size * V::size()];
-        reader.read_bytes(inner.as_mut())?;
+        let byte_size = size
+            .checked_mul(V::size())
+            .ok_or(Error::Driver(DriverError::Overflow))?;
+        let mut inner = Vec::new();
+        reader.read_into_vec(&mut inner, byte_size)?;
 
         Ok(Self {
             inner,
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index a873be9..1416d04 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,6 +1,12 @@
 use std::{fmt, mem, slice};
 
-use crate::types::{Marshal, StatBuffer, Unmarshal};
+use crate::{
+    binary::ReadEx,
+    errors::Result,
+    types::{Marshal, StatBuffer, Unmarshal},
+};
+
+const MAX_CHUNK_LEN: usize = 1 << 16;
 
 #[derive(Clone)]
 pub struct List<T>
@@ -37,12 +43,22 @@ where
         }
     }
 
-    pub fn resize(&mut self, new_len: usize, value: T) {
-        self.data.resize(new_len, value);
-    }
+    /// Reads `size` items; memory is only allocated as the items come in.
+    pub(super) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<List<T>> {
+        let mut list = Self::with_capacity(size.min(MAX_CHUNK_LEN));
+
+        while list.len() < size {
+            let start = list.len();
+            let chunk = (size - start).min(MAX_CHUNK_LEN);
+            list.data.reserve(chunk);
+            unsafe {
+                list.data.as_mut_ptr().add(start).write_bytes(0, chunk);
+                list.data.set_len(start + chunk);
+            }
+            reader.read_bytes(&mut list.as_mut()[start * mem::size_of::<T>()..])?;
+        }
 
-    pub(super) unsafe fn set_len(&mut self, new_len: usize) {
-        self.data.set_len(new_len);
+        Ok(list)
     }
 
     pub(super) unsafe fn as_ptr(&self) -> *const T {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index febba6c..775ae8f 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -5,6 +5,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
         HasSqlType, Marshal, SqlType, StatBuffer, Unmarshal, Value, ValueRef,
@@ -27,9 +28,8 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
+        let offsets = List::load(reader, rows)?;
+        check_offsets(&offsets)?;
 
         let size = match rows {
             0 => 0,
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..b3abb26 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -27,8 +27,8 @@ impl NullableColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut nulls = vec![0; size];
-        reader.read_bytes(nulls.as_mut())?;
+        let mut nulls = Vec::new();
+        reader.read_into_vec(&mut nulls, size)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
         Ok(NullableColumnData { inner, nulls })
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 239aa83..8a70b89 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -161,11 +161,7 @@ where
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<VectorColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(Self { data })
     }
 
diff --git a/src/types/column/string.rs b/src/types/column/string.rs
index 8d337f9..062ccf9 100644
--- a/src/types/column/string.rs
+++ b/src/types/column/string.rs
@@ -1,5 +1,5 @@
 use chrono_tz::Tz;
-use std::{io::Write, string::ToString, sync::Arc};
+use std::{cmp, io::Write, string::ToString, sync::Arc};
 
 use either::Either;
 
@@ -20,6 +20,9 @@ use super::{
     ColumnFrom,
 };
 
+/// the number of rows is announced by the server, so it is not trusted beyond this
+const MAX_PREALLOCATED_LEN: usize = 1 << 16;
+
 pub(crate) struct StringColumnData {
     pool: StringPool,
 }
@@ -36,7 +39,7 @@ impl StringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize) -> Result<Self> {
-        let mut data = Self::with_capacity(size);
+        let mut data = Self::with_capacity(cmp::min(size, MAX_PREALLOCATED_LEN));
 
         for _ in 0..size {
             reader.read_str_into_buffer(&mut data.pool)?;
diff --git a/src/types/column/util.rs b/src/types/column/util.rs
index 7feae39..6a1e72a 100644
--- a/src/types/column/util.rs
+++ b/src/types/column/util.rs
@@ -1,8 +1,23 @@
+use std::borrow::Cow;
+
 use crate::{
-    types::{column::ColumnData, FromSql},
-    Result,
+    errors::{DriverError, Error, Result},
+    types::{
+        column::{list::List, ColumnData},
+        FromSql,
+    },
 };
 
+/// Offsets received from the server must not decrease.
+pub(crate) fn check_offsets(offsets: &List<u64>) -> Result<()> {
+    if (1..offsets.len()).any(|i| offsets.at(i) < offsets.at(i - 1)) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid offsets.",
+        ))));
+    }
+    Ok(())
+}
+
 pub(crate) fn extract_nulls_and_values<'a, T, C>(
     column_data: &'a C,
     start: usize,
-- 
2.43.0


From 58995bee46d0ab605bb2b60eec02dbdcf845f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:51 +0000
Subject: [PATCH 30/58] fix: Bool columns holding bytes other than 0 and 1 were
 read as invalid bools

---
 src/types/column/factory.rs | 2 +-
 src/types/column/numeric.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index ae605f5..41bd300 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -67,7 +67,7 @@ impl dyn ColumnData {
         tz: Tz,
     ) -> Result<W::Wrapper> {
         Ok(match_str!(type_name, {
-            "Bool" => W::wrap(VectorColumnData::<bool>::load(reader, size)?),
+            "Bool" => W::wrap(VectorColumnData::<bool>::load_bool(reader, size)?),
             "UInt8" => W::wrap(VectorColumnData::<u8>::load(reader, size)?),
             "UInt16" => W::wrap(VectorColumnData::<u16>::load(reader, size)?),
             "UInt32" => W::wrap(VectorColumnData::<u32>::load(reader, size)?),
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 8a70b89..fa75e99 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -170,6 +170,13 @@ where
     }
 }
 
+impl VectorColumnData<bool> {
+    pub(crate) fn load_bool<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
+        let data = List::<u8>::load(reader, size)?.map(|byte| byte != 0);
+        Ok(Self { data })
+    }
+}
+
 impl<T> ColumnData for VectorColumnData<T>
 where
     T: StatBuffer
-- 
2.43.0


From 8d6bcf3059f839e74c53c6432022fbff2cd97343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:49 +0000
Subject: [PATCH 31/58] fix: a result whose blocks have different columns is
 refused by every way of reading it and its connection is given up

---
 src/types/block/mod.rs                  |  9 -------
 src/types/query_result/mod.rs           | 15 ++++--------
 src/types/query_result/stream_blocks.rs | 32 ++++++++++++++++++++++++-
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index dd3b1aa..4ab5446 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -275,15 +275,6 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
-    pub(crate) fn has_same_columns(&self, other: &Self) -> bool {
-        self.column_count() == other.column_count()
-            && self
-                .columns
-                .iter()
-                .zip(other.columns.iter())
-                .all(|(a, b)| a.name() == b.name() && a.sql_type() == b.sql_type())
-    }
-
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = blocks.first().expect("blocks should not be empty.");
 
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 8e545f1..56ae3ab 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -7,7 +7,7 @@ use log::info;
 use std::{marker::PhantomData, sync::Arc};
 
 use crate::{
-    errors::{DriverError, Error, Result},
+    errors::Result,
     try_opt,
     types::{
         block::BlockRef, query_result::stream_blocks::BlockStream, Block, Cmd, Complex, Query, Row,
@@ -33,17 +33,10 @@ impl<'a> QueryResult<'a> {
             async {
                 let blocks = self
                     .stream_blocks_(false)
-                    .try_fold(Vec::<Block>::new(), |mut blocks, block| {
-                        if block.is_empty() {
-                            return future::ready(Ok(blocks));
+                    .try_fold(Vec::new(), |mut blocks, block| {
+                        if !block.is_empty() {
+                            blocks.push(block);
                         }
-                        if let Some(first) = blocks.first() {
-                            if !block.has_same_columns(first) {
-                                let err = Error::Driver(DriverError::UnexpectedPacket);
-                                return future::ready(Err(err));
-                            }
-                        }
-                        blocks.push(block);
                         future::ready(Ok(blocks))
                     })
                     .await?;
diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 4e800b0..fa46802 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -11,7 +11,7 @@ use futures_util::StreamExt;
 use crate::{
     errors::{DriverError, Error, Result},
     io::transport::PacketStream,
-    types::{Block, Packet},
+    types::{Block, Packet, SqlType},
     ClientHandle,
 };
 
@@ -21,6 +21,7 @@ pub(crate) struct BlockStream<'a> {
     state: BlockStreamState,
     block_index: usize,
     skip_first_block: bool,
+    columns: Option<Vec<(String, SqlType)>>,
 }
 
 #[derive(Clone, Copy)]
@@ -66,6 +67,28 @@ impl<'a> BlockStream<'a> {
             state: BlockStreamState::Reading,
             block_index: 0,
             skip_first_block,
+            columns: None,
+        }
+    }
+
+    /// All blocks of a result have the same columns.
+    fn check_columns(&mut self, block: &Block) -> bool {
+        if block.is_empty() {
+            return true;
+        }
+
+        let columns = block
+            .columns()
+            .iter()
+            .map(|column| (column.name().to_string(), column.sql_type()))
+            .collect();
+
+        match self.columns {
+            None => {
+                self.columns = Some(columns);
+                true
+            }
+            Some(ref expected) => *expected == columns,
         }
     }
 }
@@ -114,6 +137,13 @@ impl<'a> Stream for BlockStream<'a> {
                     return Poll::Ready(Some(Err(Error::Server(exception))));
                 }
                 Packet::Block(block) => {
+                    if !self.check_columns(&block) {
+                        self.state = BlockStreamState::Error;
+                        return Poll::Ready(Some(Err(Error::Driver(
+                            DriverError::UnexpectedPacket,
+                        ))));
+                    }
+
                     self.block_index += 1;
                     if (self.block_index > 1 || !self.skip_first_block) && !block.is_empty() {
                         return Poll::Ready(Some(Ok(block)));
-- 
2.43.0


From 4db3cdbacc6641eef17ac2a559753eab09c626c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:49 +0000
Subject: [PATCH 32/58] fix: a data packet in place of the acknowledgement of
 an insert was taken as success and left the end of the exchange unread

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ebbc760..da4d0a6 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -516,8 +516,10 @@ impl ClientHandle {
                 Box::new(Cmd::SendData(Block::default(), context)),
             )
         };
-        let (transport, _) = transport.call(send_cmd).read_block().await?;
-        Ok(transport)
+        match transport.call(send_cmd).read_block().await? {
+            (transport, None) => Ok(transport),
+            (_, Some(_)) => Err(Error::Driver(DriverError::UnexpectedPacket)),
+        }
     }
 
     fn make_query<Q>(table: Q, block: &Block) -> Result<Query>
-- 
2.43.0


From 0cb482f95ac5d84aebaf6f7f1e05e4873999ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:30 +0000
Subject: [PATCH 33/58] fix: reconnecting to a server that accepts connections
 but fails pings went on forever, and one attempt too many was made otherwise

---
 src/lib.rs         |  3 +++
 src/pool/mod.rs    |  1 +
 src/retry_guard.rs | 63 +++++++++++++++++++++++-----------------------
 3 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index da4d0a6..fe057aa 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -240,6 +240,8 @@ pub struct ClientHandle {
     inner: Option<ClickhouseTransport>,
     context: Context,
     pool: PoolBinding,
+    /// whether the connection has been kept by the pool
+    recycled: bool,
 }
 
 impl fmt::Debug for ClientHandle {
@@ -290,6 +292,7 @@ impl Client {
                         None => PoolBinding::None,
                         Some(p) => PoolBinding::Detached(p),
                     },
+                    recycled: false,
                 };
 
                 handle.hello().await?;
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 59a54b3..4f4428c 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -348,6 +348,7 @@ impl Drop for ClientHandle {
                 inner: Some(inner),
                 pool: pool.clone(),
                 context,
+                recycled: true,
             };
             pool.return_conn(client);
         }
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..2f7dab6 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -12,44 +12,45 @@ pub(crate) async fn retry_guard(
     duration: Duration,
 ) -> Result<()> {
     let mut attempt = 0;
-    let mut skip_check = false;
+    let mut result = check(handle).await;
 
-    loop {
-        if skip_check {
-            skip_check = false;
-        } else {
-            match check(handle).await {
-                Ok(()) => return Ok(()),
-                Err(err) => {
-                    if attempt >= max_attempt {
-                        return Err(err);
-                    }
-                }
-            }
+    while let Err(err) = result {
+        if attempt >= max_attempt {
+            return Err(err);
         }
 
-        match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
-            Err(err) => {
-                skip_check = true;
-                if attempt >= max_attempt {
-                    return Err(err);
-                }
-
-                #[cfg(feature = "async_std")]
-                {
-                    use async_std::task;
-                    task::sleep(duration).await;
-                }
+        if attempt > 0 {
+            sleep(duration).await;
+        }
 
-                #[cfg(not(feature = "async_std"))]
-                {
-                    tokio::time::sleep(duration).await;
+        result = match reconnect(handle, source, pool.clone()).await {
+            Ok(()) => {
+                // a connection the pool had kept is not an attempt to connect
+                if !handle.recycled {
+                    attempt += 1;
                 }
+                check(handle).await
             }
-        }
+            Err(err) => {
+                attempt += 1;
+                Err(err)
+            }
+        };
+    }
+
+    Ok(())
+}
+
+async fn sleep(duration: Duration) {
+    #[cfg(feature = "async_std")]
+    {
+        use async_std::task;
+        task::sleep(duration).await;
+    }
 
-        attempt += 1;
+    #[cfg(not(feature = "async_std"))]
+    {
+        tokio::time::sleep(duration).await;
     }
 }
 
-- 
2.43.0


From fc47a98fd9d88c9483625134ebe4ebbeb775629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:33 +0000
Subject: [PATCH 34/58] fix: insert_timeout=none and execute_timeout=none mean
 no limit instead of an immediate timeout

---
 src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe057aa..c03fa6d 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,12 +394,10 @@ impl ClientHandle {
     where
         Query: From<Q>,
     {
-        let timeout = try_opt!(self.context.options.get())
-            .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).execute_timeout;
         let context = self.context.clone();
         let query = Query::from(sql);
-        with_timeout(
+        with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[execute query] {}", query.get_sql());
@@ -448,13 +446,11 @@ impl ClientHandle {
     }
 
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
-        let timeout = try_opt!(self.context.options.get())
-            .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).insert_timeout;
 
         let context = self.context.clone();
 
-        with_timeout(
+        with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[insert]     {}", query.get_sql());
@@ -646,6 +642,17 @@ fn column_name_to_string(name: &str) -> Result<String> {
     Ok(format!("`{name}`"))
 }
 
+/// Without a limit the future may take as long as it needs.
+async fn with_opt_timeout<F, T>(future: F, timeout: Option<Duration>) -> F::Output
+where
+    F: Future<Output = Result<T>>,
+{
+    match timeout {
+        Some(timeout) => with_timeout(future, timeout).await,
+        None => future.await,
+    }
+}
+
 #[cfg(feature = "async_std")]
 async fn with_timeout<F, T>(future: F, duration: Duration) -> F::Output
 where
-- 
2.43.0


From 71e71ec1cb1ebc33dd43739b58b7f891f1b756e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:33 +0000
Subject: [PATCH 35/58] fix: percent-encoded database names of connection URLs
 are decoded

---
 src/types/options.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..4c2b683 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -612,7 +612,7 @@ fn get_password_from_url(url: &Url) -> Option<Cow<'_, str>> {
     Some(percent_decode(password.as_bytes()).decode_utf8_lossy())
 }
 
-fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
+fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     match url.path_segments() {
         None => Ok(None),
         Some(mut segments) => {
@@ -623,7 +623,9 @@ fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
             }
 
             match head {
-                Some(database) if !database.is_empty() => Ok(Some(database)),
+                Some(database) if !database.is_empty() => Ok(Some(
+                    percent_decode(database.as_bytes()).decode_utf8_lossy(),
+                )),
                 _ => Ok(None),
             }
         }
-- 
2.43.0


From 59049d2c55492b587be3a10efb2aced413629333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:33 +0000
Subject: [PATCH 36/58] fix: parameters of connection URLs are not
 percent-decoded twice

---
 src/types/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 4c2b683..30300e1 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -589,8 +589,7 @@ fn parse_param<'a, F, T, E>(
 where
     F: Fn(&str) -> std::result::Result<T, E>,
 {
-    let source = percent_decode(value.as_bytes()).decode_utf8_lossy();
-    match parse(source.as_ref()) {
+    match parse(value.as_ref()) {
         Ok(value) => Ok(value),
         Err(_) => Err(UrlError::InvalidParamValue {
             param: param.into(),
-- 
2.43.0


From a688ddb67a8f98a154140e06e66ad53dad6f765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:33 +0000
Subject: [PATCH 37/58] fix: alternative hosts without a port get the default
 port

---
 src/types/options.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 30300e1..808562d 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -670,7 +670,12 @@ fn parse_hosts(source: &str) -> std::result::Result<Vec<Url>, ()> {
     let mut result = Vec::new();
     for host in source.split(',') {
         match Url::from_str(&format!("tcp://{host}")) {
-            Ok(url) => result.push(url),
+            Ok(mut url) => {
+                if url.port().is_none() {
+                    url.set_port(Some(9000))?;
+                }
+                result.push(url)
+            }
             Err(_) => return Err(()),
         }
     }
-- 
2.43.0


From 9d3941098c9daa700867c5d0e2eee71db4c6d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:05 +0000
Subject: [PATCH 38/58] fix: a pool with a maximum of zero or of a huge number
 of connections panicked or ran out of memory when created

---
 src/pool/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 4f4428c..4f873bd 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -23,7 +23,7 @@ mod futures;
 
 pub(crate) struct Inner {
     new: crossbeam::queue::ArrayQueue<BoxFuture<'static, Result<ClientHandle>>>,
-    idle: crossbeam::queue::ArrayQueue<ClientHandle>,
+    idle: crossbeam::queue::SegQueue<ClientHandle>,
     tasks: crossbeam::queue::SegQueue<Waker>,
     ongoing: atomic::AtomicUsize,
     hosts: Vec<Url>,
@@ -203,7 +203,7 @@ impl Pool {
 
         let inner = Arc::new(Inner {
             new: crossbeam::queue::ArrayQueue::new(1),
-            idle: crossbeam::queue::ArrayQueue::new(max),
+            idle: crossbeam::queue::SegQueue::new(),
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
@@ -278,7 +278,7 @@ impl Pool {
             let orphaned = self.inner.orphaned.load(Ordering::Acquire);
             match new.poll_unpin(cx) {
                 Poll::Ready(Ok(client)) => {
-                    self.inner.idle.push(client).unwrap();
+                    self.inner.idle.push(client);
                 }
                 Poll::Pending => {
                     // NOTE: it is okay to drop the construction task
@@ -319,7 +319,7 @@ impl Pool {
         {
             let _guard = self.inner.lock();
             if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
-                let _ = self.inner.idle.push(client);
+                self.inner.idle.push(client);
             } else {
                 drop(client);
             }
-- 
2.43.0


From a383387d8c55dd1e708ea5faa55fabe871f9be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:06 +0000
Subject: [PATCH 39/58] fix: pushing into a copy of a block with nested columns
 panicked

---
 src/types/column/array.rs           | 4 ++--
 src/types/column/column_data.rs     | 8 ++++++++
 src/types/column/low_cardinality.rs | 8 +++-----
 src/types/column/map.rs             | 6 +++---
 src/types/column/nullable.rs        | 4 ++--
 src/types/column/simple_agg_func.rs | 5 ++---
 6 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index a35a649..1e28119 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             util::check_offsets,
             ArcColumnWrapper, ColumnData,
@@ -78,7 +78,7 @@ impl ColumnData for ArrayColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let inner_column = Arc::get_mut(&mut self.inner).unwrap();
+            let inner_column = make_mut(&mut self.inner);
             self.offsets.push((prev + vs.len()) as u64);
             for v in vs.iter() {
                 inner_column.push(v.clone());
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..d113278 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -50,6 +50,14 @@ pub trait ColumnData {
     }
 }
 
+/// Gives exclusive access to nested data, copying it first if it is shared.
+pub(crate) fn make_mut(data: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
+    if Arc::get_mut(data).is_none() {
+        *data = Arc::from(data.clone_instance());
+    }
+    Arc::get_mut(data).expect("data was just copied")
+}
+
 pub(crate) trait ColumnDataExt {
     fn append<T: Into<Value>>(&mut self, value: T);
 }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 2ce9bc1..bd5e0f2 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,12 +1,12 @@
 use chrono_tz::Tz;
-use std::{borrow::Cow, collections::HashMap, mem, ptr, sync::Arc};
+use std::{borrow::Cow, collections::HashMap, mem, ptr};
 
 use crate::{
     binary::{Encoder, ReadEx},
     errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -328,9 +328,7 @@ impl ColumnData for LowCardinalityColumnData {
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
-                    .push(value.clone());
+                make_mut(&mut self.inner).push(value.clone());
                 value_map.insert(value, new_index);
                 self.index.push(new_index);
             }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 775ae8f..5a7ffe7 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             util::check_offsets,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
@@ -84,8 +84,8 @@ impl ColumnData for MapColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let key_column = Arc::get_mut(&mut self.keys).unwrap();
-            let value_column = Arc::get_mut(&mut self.values).unwrap();
+            let key_column = make_mut(&mut self.keys);
+            let value_column = make_mut(&mut self.values);
 
             self.offsets.push((prev + vs.len()) as u64);
             for (k, v) in vs.iter() {
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index b3abb26..e48dd03 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -53,7 +53,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column = make_mut(&mut self.inner);
 
         if let Value::Nullable(e) = value {
             match e {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..2e353ec 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -47,8 +47,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
-        inner_column.push(value);
+        make_mut(&mut self.inner).push(value);
     }
 
     fn at(&self, index: usize) -> ValueRef {
-- 
2.43.0


From 6511028dbe544ea7bc0d88dd4eb33d734cca35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:32 +0000
Subject: [PATCH 40/58] fix: a row that does not fit a block left columns of
 different lengths or panicked

---
 src/types/block/builder.rs | 160 ++++++++++++++++++++++++++++++-------
 1 file changed, 132 insertions(+), 28 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..69cac4f 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -7,14 +7,21 @@ use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
         block::ColumnIdx,
-        column::{datetime64::DEFAULT_TZ, ArcColumnWrapper, ColumnData},
-        Column, ColumnType, Value,
+        column::{
+            datetime64::{to_datetime_opt, DEFAULT_TZ},
+            ArcColumnWrapper, ColumnData,
+        },
+        Column, ColumnType, DateTimeType, SqlType, Value,
     },
     Block,
 };
 
 pub trait RowBuilder {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
+
+    /// Appends the cells of the row to the list.
+    #[doc(hidden)]
+    fn collect(self, cells: &mut Vec<(Cow<'static, str>, Value)>);
 }
 
 pub struct RNil;
@@ -56,6 +63,9 @@ impl RowBuilder for RNil {
     fn apply<K: ColumnType>(self, _block: &mut Block<K>) -> Result<()> {
         Ok(())
     }
+
+    #[inline(always)]
+    fn collect(self, _cells: &mut Vec<(Cow<'static, str>, Value)>) {}
 }
 
 impl<T> RowBuilder for RCons<T>
@@ -64,56 +74,150 @@ where
 {
     #[inline(always)]
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        put_param(self.key, self.value, block)?;
-        self.tail.apply(block)
+        let mut cells = Vec::with_capacity(block.column_count());
+        self.collect(&mut cells);
+        put_row(cells, block)
+    }
+
+    #[inline(always)]
+    fn collect(self, cells: &mut Vec<(Cow<'static, str>, Value)>) {
+        cells.push((self.key, self.value));
+        self.tail.collect(cells);
     }
 }
 
 impl RowBuilder for Vec<(String, Value)> {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        for (k, v) in self {
-            put_param(k.into(), v, block)?;
-        }
-        Ok(())
+        let mut cells = Vec::with_capacity(self.len());
+        self.collect(&mut cells);
+        put_row(cells, block)
+    }
+
+    fn collect(self, cells: &mut Vec<(Cow<'static, str>, Value)>) {
+        cells.extend(self.into_iter().map(|(k, v)| (k.into(), v)));
     }
 }
 
-fn put_param<K: ColumnType>(
-    key: Cow<'static, str>,
-    value: Value,
+/// Adds the row to the block, or leaves the block as it was if the row does not fit.
+fn put_row<K: ColumnType>(
+    cells: Vec<(Cow<'static, str>, Value)>,
     block: &mut Block<K>,
 ) -> Result<()> {
-    let col_index = match key.as_ref().get_index(&block.columns) {
-        Ok(col_index) => col_index,
-        Err(Error::FromSql(FromSqlError::OutOfRange)) => {
-            if block.row_count() <= 1 {
-                let sql_type = From::from(value.clone());
-
-                let timezone = extract_timezone(&value);
+    if cells.is_empty() {
+        return Ok(());
+    }
 
+    let mut new_columns: Vec<Column<K>> = Vec::new();
+    let mut filled = vec![false; block.column_count()];
+    let mut indices = Vec::with_capacity(cells.len());
+
+    for (key, value) in &cells {
+        match key.as_ref().get_index(&block.columns) {
+            Ok(index) => {
+                if filled[index] {
+                    return Err(Error::FromSql(FromSqlError::OutOfRange));
+                }
+                check_fits(value, &block.columns[index].sql_type())?;
+                filled[index] = true;
+                indices.push(index);
+            }
+            Err(Error::FromSql(FromSqlError::OutOfRange)) if block.row_count() == 0 => {
+                if new_columns.iter().any(|column| column.name == *key) {
+                    return Err(Error::FromSql(FromSqlError::OutOfRange));
+                }
                 let column = Column {
                     name: key.clone().into(),
                     data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
-                        sql_type,
-                        timezone,
+                        From::from(value.clone()),
+                        extract_timezone(value),
                         block.capacity,
                     )?,
                     _marker: marker::PhantomData,
                 };
-
-                block.columns.push(column);
-                return put_param(key, value, block);
-            } else {
-                return Err(Error::FromSql(FromSqlError::OutOfRange));
+                check_fits(value, &column.sql_type())?;
+                indices.push(filled.len() + new_columns.len());
+                new_columns.push(column);
             }
+            Err(err) => return Err(err),
         }
-        Err(err) => return Err(err),
-    };
+    }
+
+    if filled.contains(&false) {
+        return Err(Error::FromSql(FromSqlError::OutOfRange));
+    }
 
-    block.columns[col_index].push(value);
+    block.columns.append(&mut new_columns);
+    for (index, (_, value)) in indices.into_iter().zip(cells) {
+        block.columns[index].push(value);
+    }
     Ok(())
 }
 
+fn check_fits(value: &Value, sql_type: &SqlType) -> Result<()> {
+    if fits(value, sql_type) {
+        return Ok(());
+    }
+    Err(Error::FromSql(FromSqlError::InvalidType {
+        src: SqlType::from(value.clone()).to_string(),
+        dst: sql_type.to_string(),
+    }))
+}
+
+/// Whether a column of the type can take the value.
+fn fits(value: &Value, sql_type: &SqlType) -> bool {
+    match (value, sql_type) {
+        (Value::Nullable(Either::Left(t)), SqlType::Nullable(inner)) => {
+            fits(&Value::default((*t).clone()), inner)
+        }
+        (Value::Nullable(Either::Right(v)), SqlType::Nullable(inner)) => fits(v, inner),
+        (_, SqlType::Nullable(inner))
+        | (_, SqlType::LowCardinality(inner))
+        | (_, SqlType::SimpleAggregateFunction(_, inner)) => fits(value, inner),
+        (Value::Array(_, vs), SqlType::Array(inner)) => vs.iter().all(|v| fits(v, inner)),
+        (Value::Map(_, _, vs), SqlType::Map(key, val)) => {
+            vs.iter().all(|(k, v)| fits(k, key) && fits(v, val))
+        }
+        (Value::String(_), SqlType::String) => true,
+        (Value::String(s), SqlType::FixedString(len)) => s.len() <= *len,
+        (Value::Decimal(d), SqlType::Decimal(precision, scale)) => {
+            let limit = match precision {
+                0..=9 => i64::from(i32::MAX),
+                _ => i64::MAX,
+            };
+            d.scale == *scale && d.underlying >= -limit - 1 && d.underlying <= limit
+        }
+        (Value::Enum8(..), SqlType::Enum8(_)) | (Value::Enum16(..), SqlType::Enum16(_)) => true,
+        (_, SqlType::DateTime(date_type)) => match to_seconds(value) {
+            None => false,
+            Some(seconds) => match date_type {
+                DateTimeType::DateTime32 => u32::try_from(seconds).is_ok(),
+                DateTimeType::DateTime64(precision, _) => 10_i64
+                    .checked_pow(*precision)
+                    .and_then(|ticks| seconds.checked_add(1)?.checked_mul(ticks))
+                    .is_some(),
+                DateTimeType::Chrono => true,
+            },
+        },
+        (Value::DateTime(..), _) | (Value::DateTime64(..), _) | (Value::ChronoDateTime(_), _) => {
+            false
+        }
+        (Value::Nullable(_), _) | (Value::Array(..), _) | (Value::Map(..), _) => false,
+        (Value::Decimal(_), _) | (Value::Enum8(..), _) | (Value::Enum16(..), _) => false,
+        _ => SqlType::from(value.clone()) == *sql_type,
+    }
+}
+
+fn to_seconds(value: &Value) -> Option<i64> {
+    match value {
+        Value::DateTime(seconds, _) => Some(i64::from(*seconds)),
+        Value::DateTime64(ticks, (precision, tz)) => to_datetime_opt(*ticks, *precision, *tz)
+            .single()
+            .map(|time| time.timestamp()),
+        Value::ChronoDateTime(time) => Some(time.timestamp()),
+        _ => None,
+    }
+}
+
 fn extract_timezone(value: &Value) -> Tz {
     match value {
         Value::Date(_) => *DEFAULT_TZ,
-- 
2.43.0


From f246641e72b6852b9364b0977c93c0347fd42fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 41/58] fix: columns of a fetched block could not be copied,
 pushed into or inserted

---
 src/types/block/builder.rs     |  4 ++++
 src/types/column/concat.rs     | 29 +++++++++++++++++++++++------
 src/types/column/datetime64.rs | 12 ++++++++++--
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 69cac4f..031ed13 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -187,6 +187,10 @@ fn fits(value: &Value, sql_type: &SqlType) -> bool {
             d.scale == *scale && d.underlying >= -limit - 1 && d.underlying <= limit
         }
         (Value::Enum8(..), SqlType::Enum8(_)) | (Value::Enum16(..), SqlType::Enum16(_)) => true,
+        (
+            Value::DateTime64(_, (value_precision, _)),
+            SqlType::DateTime(DateTimeType::DateTime64(precision, _)),
+        ) if value_precision == precision => true,
         (_, SqlType::DateTime(date_type)) => match to_seconds(value) {
             None => false,
             Some(seconds) => match date_type {
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index a547a61..ed9dd02 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,7 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{ArcColumnData, BoxColumnData, ColumnData};
+use super::column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -21,6 +21,17 @@ impl ConcatColumnData {
         Self { data, index }
     }
 
+    /// Copies all the chunks into one.
+    fn flatten(&self) -> BoxColumnData {
+        let mut result = self.data[0].clone_instance();
+        for chunk in self.data.iter().skip(1) {
+            for i in 0..chunk.len() {
+                result.push(chunk.at(i).into());
+            }
+        }
+        result
+    }
+
     fn check_columns(data: &[ArcColumnData]) {
         match data.first() {
             None => panic!("data should not be empty."),
@@ -44,16 +55,19 @@ impl ColumnData for ConcatColumnData {
         self.data[0].sql_type()
     }
 
-    fn save(&self, _: &mut Encoder, _: usize, _: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        // the chunks of some of the types can't be written one after another
+        self.flatten().save(encoder, start, end)
     }
 
     fn len(&self) -> usize {
         *self.index.last().unwrap()
     }
 
-    fn push(&mut self, _value: Value) {
-        unimplemented!()
+    fn push(&mut self, value: Value) {
+        let last = self.data.len() - 1;
+        make_mut(&mut self.data[last]).push(value);
+        self.index[last + 1] += 1;
     }
 
     fn at(&self, index: usize) -> ValueRef {
@@ -63,7 +77,10 @@ impl ColumnData for ConcatColumnData {
     }
 
     fn clone_instance(&self) -> BoxColumnData {
-        unimplemented!()
+        Box::new(Self {
+            data: self.data.clone(),
+            index: self.index.clone(),
+        })
     }
 
     unsafe fn get_internal(
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 92e5a42..5992df6 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -52,8 +52,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for index in start..end {
+            encoder.write(self.data.at(index));
+        }
     }
 
     fn len(&self) -> usize {
@@ -62,6 +64,12 @@ impl ColumnData for DateTime64ColumnData {
 
     fn push(&mut self, value: Value) {
         let (precision, tz) = &self.params;
+        if let Value::DateTime64(ticks, (value_precision, _)) = &value {
+            if value_precision == precision {
+                self.data.push(*ticks);
+                return;
+            }
+        }
         let time = DateTime::<Tz>::from(value);
         let stamp = from_datetime(time.with_timezone(tz), *precision);
         self.data.push(stamp)
-- 
2.43.0


From bace5a80d5e99c7eac5dcf4dc3830738ff18b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:32 +0000
Subject: [PATCH 42/58] fix: typed iteration over a column added to a fetched
 block panicked

---
 src/types/column/column_data.rs |  5 +++++
 src/types/column/concat.rs      | 15 ++-------------
 src/types/column/iter/mod.rs    | 20 +++++++-------------
 3 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index d113278..218aa5e 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -45,6 +45,11 @@ pub trait ColumnData {
 
     fn get_timezone(&self) -> Option<Tz>;
 
+    /// The parts of a column that is made of several ones.
+    fn chunks(&self) -> Option<&[ArcColumnData]> {
+        None
+    }
+
     fn get_low_cardinality_accessor(&self) -> Option<&dyn LowCardinalityAccessor> {
         None
     }
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index ed9dd02..f0a3ed1 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -2,7 +2,6 @@ use chrono_tz::Tz;
 
 use crate::{
     binary::Encoder,
-    errors::{Error, FromSqlError, Result},
     types::{SqlType, Value, ValueRef},
 };
 
@@ -83,18 +82,8 @@ impl ColumnData for ConcatColumnData {
         })
     }
 
-    unsafe fn get_internal(
-        &self,
-        pointers: &[*mut *const u8],
-        level: u8,
-        _props: u32,
-    ) -> Result<()> {
-        if level == 0xff {
-            *pointers[0] = &self.data as *const Vec<ArcColumnData> as *mut u8;
-            Ok(())
-        } else {
-            Err(Error::FromSql(FromSqlError::UnsupportedOperation))
-        }
+    fn chunks(&self) -> Option<&[ArcColumnData]> {
+        Some(&self.data)
     }
 
     fn get_timezone(&self) -> Option<Tz> {
diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index d71169f..ef5f159 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1353,7 +1353,7 @@ where
 {
     column_type: SqlType,
 
-    data: &'a Vec<ArcColumnData>,
+    data: &'a [ArcColumnData],
 
     current_index: usize,
     current: Option<<T as Iterable<'a, Simple>>::Iter>,
@@ -1420,19 +1420,13 @@ where
     fn iter_with_props(
         column: &Column<Complex>,
         column_type: SqlType,
-        props: u32,
+        _props: u32,
     ) -> Result<Self::Iter> {
-        let data: &Vec<ArcColumnData> = unsafe {
-            let mut data: *const Vec<ArcColumnData> = ptr::null();
-
-            column.get_internal(
-                &[&mut data as *mut *const Vec<ArcColumnData> as *mut *const u8],
-                0xff,
-                props,
-            )?;
-
-            &*data
+        let data: &[ArcColumnData] = match column.data.chunks() {
+            Some(chunks) => chunks,
+            None => slice::from_ref(&column.data),
         };
+        let data: &'a [ArcColumnData] = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
 
         // the chunks are visited lazily: make sure that each of them can be
         for chunk in data {
@@ -1441,7 +1435,7 @@ where
                 data: chunk.clone(),
                 _marker: marker::PhantomData,
             };
-            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+            let _chunk_iter = unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
         }
 
         Ok(ComplexIterator {
-- 
2.43.0


From f1d4814548cdf3d0c97f65320dd195922e7ad8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 43/58] fix: times of a block lost fractions of a second and
 dates outside of 1970..2106 when read back

---
 src/types/column/chrono_datetime.rs | 36 +++++++++++++++++++++++++----
 src/types/column/datetime64.rs      | 14 ++++++++---
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index 86eb16b..788757d 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -8,7 +8,7 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, ColumnData},
-            datetime64::{from_datetime, DEFAULT_TZ},
+            datetime64::{from_datetime, from_datetime_opt, DEFAULT_TZ},
             nullable::NullableColumnData,
             ArcColumnWrapper, ColumnFrom, ColumnWrapper, Value, ValueRef,
         },
@@ -19,12 +19,20 @@ use crate::{
 pub struct ChronoDateTimeColumnData {
     data: Vec<DateTime<Tz>>,
     tz: Tz,
+    params: [(u32, Tz); 4],
 }
 
 impl ChronoDateTimeColumnData {
     pub(crate) fn with_capacity(capacity: usize, tz: Tz) -> ChronoDateTimeColumnData {
-        let data = Vec::with_capacity(capacity);
-        ChronoDateTimeColumnData { data, tz }
+        Self::with_data(Vec::with_capacity(capacity), tz)
+    }
+
+    fn with_data(data: Vec<DateTime<Tz>>, tz: Tz) -> ChronoDateTimeColumnData {
+        ChronoDateTimeColumnData {
+            data,
+            tz,
+            params: [(0, tz), (3, tz), (6, tz), (9, tz)],
+        }
     }
 }
 
@@ -46,7 +54,7 @@ impl ColumnFrom for Vec<DateTime<Tz>> {
         } else {
             data[0].timezone()
         };
-        W::wrap(ChronoDateTimeColumnData { data, tz })
+        W::wrap(ChronoDateTimeColumnData::with_data(data, tz))
     }
 }
 
@@ -102,13 +110,31 @@ impl ColumnData for ChronoDateTimeColumnData {
 
     fn at(&self, index: usize) -> ValueRef {
         let v = &self.data[index];
-        ValueRef::DateTime(v.timestamp() as u32, v.timezone())
+        match u32::try_from(v.timestamp()) {
+            Ok(stamp) if v.timestamp_subsec_nanos() == 0 => ValueRef::DateTime(stamp, v.timezone()),
+            _ => {
+                // the coarsest precision that is enough for the value
+                let index = match v.timestamp_subsec_nanos() {
+                    0 => 0,
+                    n if n % 1_000_000 == 0 => 1,
+                    n if n % 1_000 == 0 => 2,
+                    _ => 3,
+                };
+                let (ticks, params) = self.params[..=index]
+                    .iter()
+                    .rev()
+                    .find_map(|params| Some((from_datetime_opt(*v, params.0)?, params)))
+                    .expect("seconds always fit");
+                ValueRef::DateTime64(ticks, params)
+            }
+        }
     }
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
             data: self.data.clone(),
             tz: self.tz,
+            params: self.params,
         })
     }
 
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 5992df6..6d549d6 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -121,14 +121,22 @@ impl ColumnData for DateTime64ColumnData {
 }
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
-    let base10: i64 = 10;
-    let nsec = i64::from(time.timestamp_subsec_nanos());
+    from_datetime_opt(time, precision).expect("the time is out of range of the DateTime64")
+}
+
+pub(crate) fn from_datetime_opt<T: TimeZone>(time: DateTime<T>, precision: u32) -> Option<i64> {
+    let base10: i128 = 10;
+    if precision > 18 {
+        return None;
+    }
+    let nsec = i128::from(time.timestamp_subsec_nanos());
     let fraction = if precision < 9 {
         nsec / base10.pow(9 - precision)
     } else {
         nsec * base10.pow(precision - 9)
     };
-    time.timestamp() * base10.pow(precision) + fraction
+    let ticks = i128::from(time.timestamp()) * base10.pow(precision) + fraction;
+    i64::try_from(ticks).ok()
 }
 
 #[inline(always)]
-- 
2.43.0


From b23923554ff397c4de782ab2ae58f5ec6e14a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:34 +0000
Subject: [PATCH 44/58] fix: times out of range of the table's column were
 inserted as other times

---
 src/types/column/chrono_datetime.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index 788757d..e183feb 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -152,7 +152,13 @@ impl ColumnData for ChronoDateTimeColumnData {
     }
 
     fn cast_to(&self, this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
-        if target.is_datetime() {
+        let fits = |time: &DateTime<Tz>| match target {
+            SqlType::DateTime(DateTimeType::DateTime64(precision, _)) => {
+                from_datetime_opt(*time, *precision).is_some()
+            }
+            _ => u32::try_from(time.timestamp()).is_ok(),
+        };
+        if target.is_datetime() && self.data.iter().all(fits) {
             let clone = this.clone();
             let adapter = ChronoDateTimeAdapter::new(clone, target.clone());
             Some(Arc::new(adapter))
-- 
2.43.0


From 550ef9ebf0585142914637044855b771022d33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:23 +0000
Subject: [PATCH 45/58] fix: an empty row pushed into a block with columns was
 silently dropped

---
 src/types/block/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 031ed13..a6ac28d 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -21,7 +21,11 @@ pub trait RowBuilder {
 
     /// Appends the cells of the row to the list.
     #[doc(hidden)]
-    fn collect(self, cells: &mut Vec<(Cow<'static, str>, Value)>);
+    fn collect(self, _cells: &mut Vec<(Cow<'static, str>, Value)>)
+    where
+        Self: Sized,
+    {
+    }
 }
 
 pub struct RNil;
@@ -60,8 +64,8 @@ where
 
 impl RowBuilder for RNil {
     #[inline(always)]
-    fn apply<K: ColumnType>(self, _block: &mut Block<K>) -> Result<()> {
-        Ok(())
+    fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
+        put_row(Vec::new(), block)
     }
 
     #[inline(always)]
@@ -103,10 +107,6 @@ fn put_row<K: ColumnType>(
     cells: Vec<(Cow<'static, str>, Value)>,
     block: &mut Block<K>,
 ) -> Result<()> {
-    if cells.is_empty() {
-        return Ok(());
-    }
-
     let mut new_columns: Vec<Column<K>> = Vec::new();
     let mut filled = vec![false; block.column_count()];
     let mut indices = Vec::with_capacity(cells.len());
-- 
2.43.0


From c02c8822ae7ade01e67f191f62ff41e6a217c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 46/58] fix: decimals out of range wrapped, negative ones
 printed wrong, equal ones hashed differently

---
 src/types/decimal.rs | 97 ++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 44 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..d97b62f 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -1,5 +1,5 @@
 use std::{
-    cmp::Ordering,
+    cmp::{self, Ordering},
     fmt,
     hash::{Hash, Hasher},
 };
@@ -62,42 +62,60 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // equal decimals may have different scales
+        let (mut underlying, mut scale) = (self.underlying, self.scale);
+        while scale > 0 && underlying % 10 == 0 {
+            underlying /= 10;
+            scale -= 1;
+        }
+        underlying.hash(state);
+        scale.hash(state);
     }
 }
 
-macro_rules! base_for {
-    ( $( $t:ty: $cast:expr ),* ) => {
+macro_rules! base_for_int {
+    ( $( $t:ty ),* ) => {
         $(
             impl Base for $t {
                 fn scale(self, scale: i64) -> i64 {
-                    $cast(self * (scale as $t)) as i64
+                    let scaled = i128::from(self) * i128::from(scale);
+                    match i64::try_from(scaled) {
+                        Ok(underlying) => underlying,
+                        Err(_) => panic!("{} is out of range of Decimal", self),
+                    }
                 }
             }
         )*
     };
 }
 
-base_for! {
-    f32: std::convert::identity,
-    f64: std::convert::identity,
-    i8: i64::from,
-    i16: i64::from,
-    i32: i64::from,
-    i64: std::convert::identity,
-    u8: i64::from,
-    u16: i64::from,
-    u32: i64::from,
-    u64 : std::convert::identity
+macro_rules! base_for_float {
+    ( $( $t:ty ),* ) => {
+        $(
+            impl Base for $t {
+                fn scale(self, scale: i64) -> i64 {
+                    let scaled = (f64::from(self) * scale as f64).round();
+                    if !(scaled.abs() < i64::MAX as f64) {
+                        panic!("{} is out of range of Decimal", self);
+                    }
+                    scaled as i64
+                }
+            }
+        )*
+    };
 }
 
+base_for_int! { i8, i16, i32, i64, u8, u16, u32, u64 }
+
+base_for_float! { f32, f64 }
+
 impl InternalResult for i32 {
     #[inline(always)]
     fn get(underlying: i64) -> Self {
-        underlying as Self
+        match Self::try_from(underlying) {
+            Ok(value) => value,
+            Err(_) => panic!("{underlying} is out of range of i32"),
+        }
     }
 }
 
@@ -122,33 +140,24 @@ impl NoBits {
 
 impl PartialEq for Decimal {
     fn eq(&self, other: &Self) -> bool {
-        match self.scale.cmp(&other.scale) {
-            Ordering::Less => {
-                let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
-            }
-            Ordering::Equal => self.underlying == other.underlying,
-            Ordering::Greater => {
-                let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
-            }
-        }
+        let scale = cmp::max(self.scale, other.scale);
+        let rescale = |decimal: &Decimal| {
+            let delta = scale - decimal.scale;
+            i128::from(decimal.underlying) * i128::from(FACTORS10[delta as usize])
+        };
+        rescale(self) == rescale(other)
     }
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
-    while r.len() < decimal.scale() {
-        r.insert(0, '0');
-    }
-    let pos = r.len() - decimal.scale();
-    r.insert(pos, '.');
-    if r.starts_with('.') {
-        r.insert(0, '0');
+    let sign = if decimal.underlying < 0 { "-" } else { "" };
+    let scale = decimal.scale();
+    let digits = format!("{:0>1$}", decimal.underlying.unsigned_abs(), scale + 1);
+    if scale == 0 {
+        return format!("{sign}{digits}");
     }
-    r
+    let (integer, fraction) = digits.split_at(digits.len() - scale);
+    format!("{sign}{integer}.{fraction}")
 }
 
 impl fmt::Display for Decimal {
@@ -198,8 +207,8 @@ impl Decimal {
         }
 
         let underlying = source.scale(FACTORS10[scale as usize]);
-        if underlying > FACTORS10[precision as usize] {
-            panic!("{} > {}", underlying, FACTORS10[precision as usize]);
+        if underlying.unsigned_abs() >= FACTORS10[precision as usize].unsigned_abs() {
+            panic!("|{}| >= {}", underlying, FACTORS10[precision as usize]);
         }
 
         Decimal {
-- 
2.43.0


From a166a990fb295d758d4c22bc898d2e08ba117463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:05 +0000
Subject: [PATCH 47/58] fix: iterating over a nullable column converted what
 stands in the place of its NULLs

---
 src/types/column/iter/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index ef5f159..546d999 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -213,6 +213,7 @@ pub struct NativeDateTimeIterator<'a> {
 
 pub struct NullableIterator<'a, I> {
     inner: I,
+    skipped: usize,
     ptr: *const u8,
     end: *const u8,
     _marker: marker::PhantomData<&'a ()>,
@@ -682,13 +683,17 @@ where
             return None;
         }
 
-        let value = self.inner.next()?;
-        unsafe {
-            let flag = *self.ptr;
-            self.ptr = self.ptr.offset(1);
+        let flag = unsafe { *self.ptr };
+        self.ptr = unsafe { self.ptr.offset(1) };
 
-            Some(if flag != 0 { None } else { Some(value) })
+        // what stands in the place of a NULL may be no value of the type
+        if flag != 0 {
+            self.skipped += 1;
+            return Some(None);
         }
+
+        let skipped = mem::take(&mut self.skipped);
+        self.inner.nth(skipped).map(Some)
     }
 
     #[inline]
@@ -1250,6 +1255,7 @@ where
 
         Ok(NullableIterator {
             inner,
+            skipped: 0,
             ptr,
             end,
             _marker: marker::PhantomData,
-- 
2.43.0


From 9a5c67aab1eec33ede0980145c2a7f7e4283de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 48/58] fix: times that their type can not hold were converted
 into other times or panicked when shown or compared

---
 src/types/column/datetime64.rs |  6 ++++
 src/types/date_converter.rs    |  5 +--
 src/types/from_sql.rs          |  8 +++--
 src/types/value.rs             | 62 ++++++++++++++++------------------
 src/types/value_ref.rs         | 57 ++++++++++++++++++++++++-------
 5 files changed, 88 insertions(+), 50 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 6d549d6..aae01a4 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -120,6 +120,12 @@ impl ColumnData for DateTime64ColumnData {
     }
 }
 
+/// Nanoseconds since the epoch.
+pub(crate) fn to_nanos(value: i64, precision: u32) -> i128 {
+    let (sec, nsec) = to_seconds(value, precision);
+    i128::from(sec) * 1_000_000_000 + i128::from(nsec)
+}
+
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     from_datetime_opt(time, precision).expect("the time is out of range of the DateTime64")
 }
diff --git a/src/types/date_converter.rs b/src/types/date_converter.rs
index b1fe5da..88e6410 100644
--- a/src/types/date_converter.rs
+++ b/src/types/date_converter.rs
@@ -11,7 +11,7 @@ pub trait DateConverter {
     fn get_days(date: NaiveDate) -> u16 {
         const UNIX_EPOCH_DAY: i64 = 719_163;
         let gregorian_day = i64::from(date.num_days_from_ce());
-        (gregorian_day - UNIX_EPOCH_DAY) as u16
+        u16::try_from(gregorian_day - UNIX_EPOCH_DAY).expect("the date is out of range of the Date")
     }
 }
 
@@ -35,7 +35,8 @@ impl DateConverter for u32 {
     }
 
     fn get_stamp(source: Value) -> Self {
-        DateTime::<Tz>::from(source).timestamp() as Self
+        let stamp = DateTime::<Tz>::from(source).timestamp();
+        u32::try_from(stamp).expect("the time is out of range of the DateTime")
     }
 
     fn date_type() -> SqlType {
diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index a5e580d..f411701 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -10,7 +10,7 @@ use std::{
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::to_datetime_opt,
         value::{decode_ipv4, decode_ipv6},
         Decimal, Enum16, Enum8, SqlType, ValueRef,
     },
@@ -210,7 +210,7 @@ from_sql_vec_impl! {
     &'a [u8]: SqlType::String => |r| r.as_bytes(),
     Vec<u8>: SqlType::String => |r| r.as_bytes().map(<[u8]>::to_vec),
     NaiveDate: SqlType::Date => |r| Ok(r.into()),
-    DateTime<Tz>: SqlType::DateTime(_) => |r| Ok(r.into()),
+    DateTime<Tz>: SqlType::DateTime(_) => |r| DateTime::from_sql(r),
     Enum8: SqlType::Enum8(_) => |r| Ok(r.into()),
     Enum16: SqlType::Enum16(_) => |r| Ok(r.into())
 }
@@ -323,7 +323,9 @@ impl<'a> FromSql<'a> for DateTime<Tz> {
             }
             ValueRef::DateTime64(v, params) => {
                 let (precision, tz) = *params;
-                Ok(to_datetime(v, precision, tz))
+                to_datetime_opt(v, precision, tz)
+                    .single()
+                    .ok_or(Error::FromSql(FromSqlError::OutOfRange))
             }
             _ => {
                 let from = SqlType::from(value).to_string();
diff --git a/src/types/value.rs b/src/types/value.rs
index 73662eb..0053eec 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -14,7 +14,7 @@ use either::Either;
 use uuid::Uuid;
 
 use crate::types::{
-    column::datetime64::{to_datetime, DEFAULT_TZ},
+    column::datetime64::{to_datetime, to_datetime_opt, DEFAULT_TZ},
     decimal::{Decimal, NoBits},
     DateConverter, DateTimeType, Enum16, Enum8, HasSqlType, SqlType,
 };
@@ -127,29 +127,8 @@ impl PartialEq for Value {
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
             (Value::Map(ka, va, a), Value::Map(kb, vb, b)) => ka == kb && va == vb && a == b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                prec_a == prec_b && a == b
             }
 
             _ => false,
@@ -228,14 +207,13 @@ impl fmt::Display for Value {
                 let time = tz.timestamp_opt(i64::from(*u), 0).unwrap();
                 write!(f, "{}", time.to_rfc2822())
             }
-            Value::DateTime64(value, params) => {
-                let (precision, tz) = params;
-                let time = to_datetime(*value, *precision, *tz);
-                write!(f, "{}", time.to_rfc2822())
-            }
-            Value::ChronoDateTime(time) => {
-                write!(f, "{}", time.to_rfc2822())
+            Value::DateTime64(value, (precision, tz)) => {
+                match to_datetime_opt(*value, *precision, *tz).single() {
+                    Some(time) => fmt_datetime(&time, f),
+                    None => fmt_ticks(*value, *precision, f),
+                }
             }
+            Value::ChronoDateTime(time) => fmt_datetime(time, f),
             Value::Date(v) if f.alternate() => {
                 let date = NaiveDate::from_ymd_opt(1970, 1, 1)
                     .map(|unix_epoch| unix_epoch + Duration::days((*v).into()))
@@ -285,6 +263,23 @@ impl fmt::Display for Value {
     }
 }
 
+fn fmt_datetime(time: &AppDateTime, f: &mut fmt::Formatter) -> fmt::Result {
+    // RFC 2822 has no other years
+    if (0..=9999).contains(&time.year()) {
+        write!(f, "{}", time.to_rfc2822())
+    } else {
+        write!(f, "{}", time.format("%a, %-d %b %Y %H:%M:%S %z"))
+    }
+}
+
+/// Writes a time that is out of range of the calendar as seconds since the epoch.
+pub(crate) fn fmt_ticks(value: i64, precision: u32, f: &mut fmt::Formatter) -> fmt::Result {
+    match u8::try_from(precision) {
+        Ok(scale @ 0..=18) => write!(f, "{}", Decimal::new(value, scale)),
+        _ => write!(f, "{value}"),
+    }
+}
+
 impl From<Value> for SqlType {
     fn from(source: Value) -> Self {
         match source {
@@ -397,7 +392,10 @@ impl From<AppDateTime> for Value {
 
 impl From<DateTime<Utc>> for Value {
     fn from(v: DateTime<Utc>) -> Value {
-        Value::DateTime(v.timestamp() as u32, Tz::UTC)
+        match u32::try_from(v.timestamp()) {
+            Ok(stamp) if v.timestamp_subsec_nanos() == 0 => Value::DateTime(stamp, Tz::UTC),
+            _ => Value::ChronoDateTime(v.with_timezone(&Tz::UTC)),
+        }
     }
 }
 
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 639ce04..f5aa007 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -3,20 +3,21 @@ use std::{
     fmt,
     hash::{Hash, Hasher},
     str,
-    sync::Arc,
+    sync::{Arc, Mutex},
 };
 
 use chrono::{prelude::*, Duration};
 use chrono_tz::Tz;
 use either::Either;
+use lazy_static::lazy_static;
 use uuid::Uuid;
 
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::{from_datetime_opt, to_datetime, to_datetime_opt, to_nanos},
         decimal::Decimal,
-        value::{decode_ipv4, decode_ipv6, AppDate, AppDateTime},
+        value::{decode_ipv4, decode_ipv6, fmt_ticks, AppDate, AppDateTime},
         DateTimeType, Enum16, Enum8, SqlType, Value,
     },
 };
@@ -118,13 +119,7 @@ impl<'a> PartialEq for ValueRef<'a> {
             (ValueRef::Enum8(a0, a1), ValueRef::Enum8(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::Enum16(a0, a1), ValueRef::Enum16(b0, b1)) => *a1 == *b1 && *a0 == *b0,
             (ValueRef::DateTime64(this, this_params), ValueRef::DateTime64(that, that_params)) => {
-                let (this_precision, this_tz) = **this_params;
-                let (that_precision2, that_tz) = **that_params;
-
-                let this_time = to_datetime(*this, this_precision, this_tz);
-                let that_time = to_datetime(*that, that_precision2, that_tz);
-
-                this_time == that_time
+                to_nanos(*this, this_params.0) == to_nanos(*that, that_params.0)
             }
             (ValueRef::Map(a1, a2, map1), ValueRef::Map(b1, b2, map2)) => {
                 if map1.len() != map2.len() || a1 != b1 || a2 != b2 {
@@ -179,8 +174,10 @@ impl<'a> fmt::Display for ValueRef<'a> {
             }
             ValueRef::DateTime64(u, params) => {
                 let (precision, tz) = **params;
-                let time = to_datetime(*u, precision, tz);
-                fmt::Display::fmt(&time.format("%Y-%m-%d %H:%M:%S"), f)
+                match to_datetime_opt(*u, precision, tz).single() {
+                    Some(time) => fmt::Display::fmt(&time.format("%Y-%m-%d %H:%M:%S"), f),
+                    None => fmt_ticks(*u, precision, f),
+                }
             }
             ValueRef::Nullable(v) => match v {
                 Either::Left(_) => write!(f, "NULL"),
@@ -381,6 +378,40 @@ from_number! {
     f64: Float64
 }
 
+fn chrono_ref(time: &AppDateTime) -> ValueRef<'static> {
+    let tz = time.timezone();
+    let nsec = time.timestamp_subsec_nanos();
+
+    match u32::try_from(time.timestamp()) {
+        Ok(stamp) if nsec == 0 => ValueRef::DateTime(stamp, tz),
+        _ => {
+            // the coarsest precision that is enough for the value
+            let precision = match nsec {
+                0 => 0,
+                n if n % 1_000_000 == 0 => 3,
+                n if n % 1_000 == 0 => 6,
+                _ => 9,
+            };
+            let ticks = from_datetime_opt(*time, precision)
+                .expect("the time is out of range of the DateTime64");
+            ValueRef::DateTime64(ticks, static_params(precision, tz))
+        }
+    }
+}
+
+fn static_params(precision: u32, tz: Tz) -> &'static (u32, Tz) {
+    lazy_static! {
+        static ref PARAMS: Mutex<HashMap<(u32, Tz), &'static (u32, Tz)>> =
+            Mutex::new(HashMap::new());
+    }
+
+    PARAMS
+        .lock()
+        .unwrap()
+        .entry((precision, tz))
+        .or_insert_with(|| Box::leak(Box::new((precision, tz))))
+}
+
 impl<'a> From<&'a Value> for ValueRef<'a> {
     fn from(value: &'a Value) -> ValueRef<'a> {
         match value {
@@ -422,7 +453,7 @@ impl<'a> From<&'a Value> for ValueRef<'a> {
             Value::Ipv4(v) => ValueRef::Ipv4(*v),
             Value::Ipv6(v) => ValueRef::Ipv6(*v),
             Value::Uuid(v) => ValueRef::Uuid(*v),
-            Value::ChronoDateTime(_) => unimplemented!(),
+            Value::ChronoDateTime(time) => chrono_ref(time),
             Value::Map(k, v, vs) => {
                 let mut ref_map = HashMap::with_capacity(vs.len());
                 for (k, v) in vs.iter() {
-- 
2.43.0


From 3b1b48549520431036ad4271f17f4930d723a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:37 +0000
Subject: [PATCH 49/58] fix: inserting text that is no address into an address
 column panicked

---
 src/types/column/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index b6c2fb1..a2e6fbb 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -2,6 +2,7 @@ use std::{
     marker,
     net::{Ipv4Addr, Ipv6Addr},
     ops,
+    str::FromStr,
     sync::Arc,
 };
 
@@ -392,8 +393,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let ip: Ipv4Addr = parse_address(self.at(i), &src_type, &dst_type)?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -417,8 +417,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let ip: Ipv6Addr = parse_address(self.at(i), &src_type, &dst_type)?;
                     inner.extend(&ip.octets());
                 }
 
@@ -496,6 +495,20 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+fn parse_address<T: FromStr>(
+    source: ValueRef,
+    src_type: &SqlType,
+    dst_type: &SqlType,
+) -> Result<T> {
+    let source = source.as_str()?;
+    source.parse().map_err(|_| {
+        Error::FromSql(FromSqlError::InvalidType {
+            src: format!("{src_type} {source:?}").into(),
+            dst: dst_type.to_string(),
+        })
+    })
+}
+
 pub(crate) fn new_column<K: ColumnType>(
     name: &str,
     data: Arc<(dyn ColumnData + Sync + Send + 'static)>,
-- 
2.43.0


From 373cd0ab6843da3c9df2835672bdebb87d85261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 50/58] fix: strings too long for the table's FixedString were
 cut off on insert, and other types' dictionaries panicked

---
 src/types/column/mod.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index a2e6fbb..fa0c460 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -7,6 +7,7 @@ use std::{
 };
 
 use chrono_tz::Tz;
+use either::Either;
 
 use crate::{
     binary::{Encoder, ReadEx},
@@ -237,6 +238,11 @@ impl<K: ColumnType> Column<K> {
 
         match (dst_type.clone(), src_type.clone()) {
             (SqlType::LowCardinality(inner), src_type) if src_type.is_inner_low_cardinality() => {
+                if *inner != src_type {
+                    // fails if the values are not of the type of the dictionary
+                    self.clone().cast_to(inner.clone())?;
+                }
+
                 let name = self.name().to_owned();
                 let tz = self.data.get_timezone().unwrap_or(Tz::Zulu);
                 let mut low_card_data = LowCardinalityColumnData::empty(inner, tz, self.len())?;
@@ -259,6 +265,10 @@ impl<K: ColumnType> Column<K> {
                 })
             }
             (SqlType::FixedString(str_len), SqlType::String) => {
+                self.check_values(|value| match value {
+                    ValueRef::Array(_, vs) => vs.len() <= str_len,
+                    value => value.as_bytes().map_or(false, |bs| bs.len() <= str_len),
+                })?;
                 let name = self.name().to_owned();
                 let adapter = FixedStringAdapter {
                     column: self,
@@ -274,6 +284,9 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::FixedString(str_len)),
                 SqlType::Nullable(SqlType::String),
             ) => {
+                self.check_values(|value| {
+                    value.as_bytes().map_or(false, |bs| bs.len() <= *str_len)
+                })?;
                 let name = self.name().to_owned();
                 let adapter = NullableFixedStringAdapter {
                     column: self,
@@ -461,6 +474,24 @@ impl<K: ColumnType> Column<K> {
         }
     }
 
+    /// Fails unless every value, NULLs aside, is one that the target type can hold.
+    fn check_values<F>(&self, fits: F) -> Result<()>
+    where
+        F: Fn(&ValueRef) -> bool,
+    {
+        let all_fit = (0..self.len()).all(|i| match self.at(i) {
+            ValueRef::Nullable(Either::Left(_)) => true,
+            ValueRef::Nullable(Either::Right(value)) => fits(&value),
+            value => fits(&value),
+        });
+
+        if all_fit {
+            Ok(())
+        } else {
+            Err(Error::FromSql(FromSqlError::OutOfRange))
+        }
+    }
+
     pub(crate) fn push(&mut self, value: Value) {
         loop {
             match Arc::get_mut(&mut self.data) {
-- 
2.43.0


From bcebe8a9a5d874d7ffae96830512305a2affc7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:40 +0000
Subject: [PATCH 51/58] fix: decimals that do not fit the table's type were cut
 off or wrapped on insert

---
 src/types/column/mod.rs | 15 +++++++++++++--
 src/types/decimal.rs    | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index fa0c460..feae339 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -313,7 +313,7 @@ impl<K: ColumnType> Column<K> {
             }
             (SqlType::Decimal(dst_p, dst_s), SqlType::Decimal(_, _)) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(dst_p).unwrap();
+                let nobits = self.check_decimals(dst_p, dst_s)?;
                 let adapter = DecimalAdapter {
                     column: self,
                     precision: dst_p,
@@ -387,7 +387,7 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Decimal(_, _)),
             ) => {
                 let name = self.name().to_owned();
-                let nobits = NoBits::from_precision(*dst_p).unwrap();
+                let nobits = self.check_decimals(*dst_p, *dst_s)?;
                 let adapter = NullableDecimalAdapter {
                     column: self,
                     precision: *dst_p,
@@ -492,6 +492,17 @@ impl<K: ColumnType> Column<K> {
         }
     }
 
+    /// Fails unless every value can be expressed as `Decimal(precision, scale)`.
+    fn check_decimals(&self, precision: u8, scale: u8) -> Result<NoBits> {
+        let nobits = NoBits::from_precision(precision)
+            .ok_or(Error::FromSql(FromSqlError::UnsupportedOperation))?;
+        self.check_values(|value| match value {
+            ValueRef::Decimal(decimal) => decimal.fits(precision, scale),
+            _ => false,
+        })?;
+        Ok(nobits)
+    }
+
     pub(crate) fn push(&mut self, value: Value) {
         loop {
             match Arc::get_mut(&mut self.data) {
diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index d97b62f..27e20df 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -250,6 +250,24 @@ impl Decimal {
         self.scale as usize
     }
 
+    /// Whether it is exactly a value of `Decimal(precision, scale)`.
+    pub(crate) fn fits(&self, precision: u8, scale: u8) -> bool {
+        let factor = |n: u8| FACTORS10.get(n as usize).copied();
+        let underlying = if scale < self.scale {
+            match factor(self.scale - scale) {
+                Some(ratio) if self.underlying % ratio == 0 => Some(self.underlying / ratio),
+                _ => None,
+            }
+        } else {
+            factor(scale - self.scale).and_then(|ratio| self.underlying.checked_mul(ratio))
+        };
+
+        match (underlying, factor(precision)) {
+            (Some(underlying), Some(limit)) => underlying.unsigned_abs() < limit.unsigned_abs(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn set_scale(self, scale: u8) -> Self {
         let underlying = match scale.cmp(&self.scale) {
             Ordering::Less => {
-- 
2.43.0


From 5efb475630592019f0c53cb4d37c4c4949bc2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 52/58] fix: enums were inserted by number although the table's
 enum has other names for the numbers

---
 src/types/column/column_data.rs |  10 +++
 src/types/column/enums.rs       | 113 +++++++++++++++++++++++++-------
 src/types/column/mod.rs         |  28 +++++++-
 src/types/column/nullable.rs    |   5 +-
 4 files changed, 132 insertions(+), 24 deletions(-)

diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 218aa5e..13a1271 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -43,6 +43,16 @@ pub trait ColumnData {
         None
     }
 
+    /// As `cast_to`, but what stands in the place of NULLs may be no value of the type.
+    fn cast_to_with_nulls(
+        &self,
+        this: &ArcColumnData,
+        _nulls: &[u8],
+        target: &SqlType,
+    ) -> Option<ArcColumnData> {
+        self.cast_to(this, target)
+    }
+
     fn get_timezone(&self) -> Option<Tz>;
 
     /// The parts of a column that is made of several ones.
diff --git a/src/types/column/enums.rs b/src/types/column/enums.rs
index e22cb28..f24f3e9 100644
--- a/src/types/column/enums.rs
+++ b/src/types/column/enums.rs
@@ -34,6 +34,23 @@ pub(crate) struct NullableEnum16Adapter<K: ColumnType> {
     pub(crate) enum_values: Vec<(String, i16)>,
 }
 
+/// Finds what stands in `target` for a value of an enum with values `source`. It is the value of
+/// the same name, or the same value if `source` is not known.
+pub(crate) fn rekey<T: Copy + PartialEq>(
+    source: &[(String, T)],
+    value: T,
+    target: &[(String, T)],
+) -> Option<T> {
+    if source.is_empty() {
+        return target.iter().find(|item| item.1 == value).map(|_| value);
+    }
+    let (name, _) = source.iter().find(|item| item.1 == value)?;
+    target
+        .iter()
+        .find(|item| item.0 == *name)
+        .map(|item| item.1)
+}
+
 impl Enum16ColumnData {
     pub(crate) fn load<T: ReadEx>(
         reader: &mut T,
@@ -83,11 +100,28 @@ impl ColumnData for Enum16ColumnData {
         })
     }
 
-    fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
-        if let SqlType::Enum16(data) = target {
+    fn cast_to(&self, this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+        self.cast_to_with_nulls(this, &[], target)
+    }
+
+    fn cast_to_with_nulls(
+        &self,
+        _this: &ArcColumnData,
+        nulls: &[u8],
+        target: &SqlType,
+    ) -> Option<ArcColumnData> {
+        if let SqlType::Enum16(enum_values) = target {
+            let mut data = List::<i16>::with_capacity(self.len());
+            for i in 0..self.len() {
+                let value = i16::from(self.inner.at(i));
+                match nulls.get(i) {
+                    None | Some(0) => data.push(rekey(&self.enum_values, value, enum_values)?),
+                    Some(_) => data.push(0),
+                }
+            }
             let data: Enum16ColumnData = Enum16ColumnData {
-                inner: self.inner.clone_instance(),
-                enum_values: data.clone(),
+                inner: Box::new(VectorColumnData { data }),
+                enum_values: enum_values.clone(),
             };
             Some(Arc::new(data))
         } else {
@@ -125,7 +159,9 @@ impl<K: ColumnType> ColumnData for Enum16Adapter<K> {
 
     fn at(&self, index: usize) -> ValueRef {
         if let ValueRef::Enum16(enum_values, value) = self.column.at(index) {
-            ValueRef::Enum16(enum_values, value)
+            let value = rekey(&enum_values, value.internal(), &self.enum_values)
+                .expect("the values were checked");
+            ValueRef::Enum16(self.enum_values.clone(), Enum16(value))
         } else {
             panic!("should be Enum");
         }
@@ -174,13 +210,20 @@ impl<K: ColumnType> ColumnData for NullableEnum16Adapter<K> {
     }
 
     fn at(&self, index: usize) -> ValueRef {
-        let value: Option<Enum16> = Option::from_sql(self.column.at(index)).unwrap();
-        match value {
-            None => ValueRef::Nullable(Either::Left(self.sql_type().into())),
-            Some(v) => {
-                let inner = ValueRef::Enum16(self.enum_values.clone(), v);
-                ValueRef::Nullable(Either::Right(Box::new(inner)))
+        match self.column.at(index) {
+            ValueRef::Nullable(Either::Left(_)) => {
+                ValueRef::Nullable(Either::Left(self.sql_type().into()))
             }
+            ValueRef::Nullable(Either::Right(inner)) => match *inner {
+                ValueRef::Enum16(enum_values, value) => {
+                    let value = rekey(&enum_values, value.internal(), &self.enum_values)
+                        .expect("the values were checked");
+                    let inner = ValueRef::Enum16(self.enum_values.clone(), Enum16(value));
+                    ValueRef::Nullable(Either::Right(Box::new(inner)))
+                }
+                _ => panic!("should be Enum"),
+            },
+            _ => panic!("should be Enum"),
         }
     }
 
@@ -325,11 +368,28 @@ impl ColumnData for Enum8ColumnData {
         })
     }
 
-    fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
-        if let SqlType::Enum8(data) = target {
+    fn cast_to(&self, this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+        self.cast_to_with_nulls(this, &[], target)
+    }
+
+    fn cast_to_with_nulls(
+        &self,
+        _this: &ArcColumnData,
+        nulls: &[u8],
+        target: &SqlType,
+    ) -> Option<ArcColumnData> {
+        if let SqlType::Enum8(enum_values) = target {
+            let mut data = List::<i8>::with_capacity(self.len());
+            for i in 0..self.len() {
+                let value = i8::from(self.inner.at(i));
+                match nulls.get(i) {
+                    None | Some(0) => data.push(rekey(&self.enum_values, value, enum_values)?),
+                    Some(_) => data.push(0),
+                }
+            }
             let data: Enum8ColumnData = Enum8ColumnData {
-                inner: self.inner.clone_instance(),
-                enum_values: data.clone(),
+                inner: Box::new(VectorColumnData { data }),
+                enum_values: enum_values.clone(),
             };
             Some(Arc::new(data))
         } else {
@@ -367,7 +427,9 @@ impl<K: ColumnType> ColumnData for Enum8Adapter<K> {
 
     fn at(&self, index: usize) -> ValueRef {
         if let ValueRef::Enum8(enum_values, value) = self.column.at(index) {
-            ValueRef::Enum8(enum_values, value)
+            let value = rekey(&enum_values, value.internal(), &self.enum_values)
+                .expect("the values were checked");
+            ValueRef::Enum8(self.enum_values.clone(), Enum8(value))
         } else {
             panic!("should be Enum");
         }
@@ -417,13 +479,20 @@ impl<K: ColumnType> ColumnData for NullableEnum8Adapter<K> {
     }
 
     fn at(&self, index: usize) -> ValueRef {
-        let value: Option<Enum8> = Option::from_sql(self.column.at(index)).unwrap();
-        match value {
-            None => ValueRef::Nullable(Either::Left(self.sql_type().into())),
-            Some(v) => {
-                let inner = ValueRef::Enum8(self.enum_values.clone(), v);
-                ValueRef::Nullable(Either::Right(Box::new(inner)))
+        match self.column.at(index) {
+            ValueRef::Nullable(Either::Left(_)) => {
+                ValueRef::Nullable(Either::Left(self.sql_type().into()))
             }
+            ValueRef::Nullable(Either::Right(inner)) => match *inner {
+                ValueRef::Enum8(enum_values, value) => {
+                    let value = rekey(&enum_values, value.internal(), &self.enum_values)
+                        .expect("the values were checked");
+                    let inner = ValueRef::Enum8(self.enum_values.clone(), Enum8(value));
+                    ValueRef::Nullable(Either::Right(Box::new(inner)))
+                }
+                _ => panic!("should be Enum"),
+            },
+            _ => panic!("should be Enum"),
         }
     }
 
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index feae339..94cf769 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -16,7 +16,9 @@ use crate::{
         column::{
             column_data::ArcColumnData,
             decimal::{DecimalAdapter, NullableDecimalAdapter},
-            enums::{Enum16Adapter, Enum8Adapter, NullableEnum16Adapter, NullableEnum8Adapter},
+            enums::{
+                rekey, Enum16Adapter, Enum8Adapter, NullableEnum16Adapter, NullableEnum8Adapter,
+            },
             fixed_string::{FixedStringAdapter, NullableFixedStringAdapter},
             ip::{IpColumnData, Ipv4, Ipv6},
             iter::Iterable,
@@ -327,6 +329,12 @@ impl<K: ColumnType> Column<K> {
                 })
             }
             (SqlType::Enum8(enum_values), SqlType::Enum8(_)) => {
+                self.check_values(|value| match value {
+                    ValueRef::Enum8(values, value) => {
+                        rekey(values, value.internal(), &enum_values).is_some()
+                    }
+                    _ => false,
+                })?;
                 let name = self.name().to_owned();
                 let adapter = Enum8Adapter {
                     column: self,
@@ -339,6 +347,12 @@ impl<K: ColumnType> Column<K> {
                 })
             }
             (SqlType::Enum16(enum_values), SqlType::Enum16(_)) => {
+                self.check_values(|value| match value {
+                    ValueRef::Enum16(values, value) => {
+                        rekey(values, value.internal(), &enum_values).is_some()
+                    }
+                    _ => false,
+                })?;
                 let name = self.name().to_owned();
                 let adapter = Enum16Adapter {
                     column: self,
@@ -354,6 +368,12 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Enum8(enum_values)),
                 SqlType::Nullable(SqlType::Enum8(_)),
             ) => {
+                self.check_values(|value| match value {
+                    ValueRef::Enum8(values, value) => {
+                        rekey(values, value.internal(), enum_values).is_some()
+                    }
+                    _ => false,
+                })?;
                 let name = self.name().to_owned();
                 let enum_values = enum_values.clone();
                 let adapter = NullableEnum8Adapter {
@@ -370,6 +390,12 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Enum16(enum_values)),
                 SqlType::Nullable(SqlType::Enum16(_)),
             ) => {
+                self.check_values(|value| match value {
+                    ValueRef::Enum16(values, value) => {
+                        rekey(values, value.internal(), enum_values).is_some()
+                    }
+                    _ => false,
+                })?;
                 let name = self.name().to_owned();
                 let enum_values = enum_values.clone();
                 let adapter = NullableEnum16Adapter {
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index e48dd03..b8f4893 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -107,7 +107,10 @@ impl ColumnData for NullableColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Nullable(inner_target) = target {
-            if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
+            if let Some(inner) =
+                self.inner
+                    .cast_to_with_nulls(&self.inner, &self.nulls, inner_target)
+            {
                 return Some(Arc::new(NullableColumnData {
                     inner,
                     nulls: self.nulls.clone(),
-- 
2.43.0


From b2a9e90fdbcb2cf9de1001fce338c15e47f25c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 53/58] fix: rows whose null flag is not 0 or 1 were NULL only
 when iterated

---
 src/types/column/nullable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index b8f4893..d1d45df 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -74,7 +74,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn at(&self, index: usize) -> ValueRef {
-        if self.nulls[index] == 1 {
+        if self.nulls[index] != 0 {
             let sql_type = self.inner.sql_type();
             ValueRef::Nullable(Either::Left(sql_type.into()))
         } else {
-- 
2.43.0


From 2c61f7f96e13ac1b564d8ad3ff96c57bbb9525bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 54/58] fix: the compressor was told of 9 bytes more than its
 output buffer has

---
 src/types/block/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..a5d670d 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -340,7 +340,7 @@ impl<K: ColumnType> Block<K> {
                     tmp.as_ptr() as *const c_char,
                     (buf.as_mut_ptr() as *mut c_char).add(9),
                     tmp.len() as i32,
-                    buf.len() as i32,
+                    (buf.len() - 9) as i32,
                 );
             }
             buf.resize(9 + size as usize, 0_u8);
-- 
2.43.0


From d384ec93943bbd058520444286711ac2720de989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 55/58] fix: Certificate could not be named, so no certificate
 could be supplied

---
 src/types/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 0cfa717..e72224e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -8,6 +8,8 @@ use lazy_static::lazy_static;
 
 use crate::{errors::ServerError, types::column::datetime64::DEFAULT_TZ};
 
+#[cfg(feature = "tls")]
+pub use self::options::Certificate;
 pub use self::{
     block::{Block, RCons, RNil, Row, RowBuilder, Rows},
     column::{Column, ColumnType, Complex, Simple},
-- 
2.43.0


From 48f1d9579692fbb667c1cb6350334793021982b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:00 +0000
Subject: [PATCH 56/58] fix: TLS connections to IPv6 addresses looked for the
 bracketed address in the certificate

---
 src/connecting_stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/connecting_stream.rs b/src/connecting_stream.rs
index cab0132..875242f 100644
--- a/src/connecting_stream.rs
+++ b/src/connecting_stream.rs
@@ -17,6 +17,8 @@ use native_tls::TlsConnector;
 use tokio::net::TcpStream;
 
 use pin_project::pin_project;
+#[cfg(feature = "tls")]
+use url::Host;
 use url::Url;
 
 use crate::{errors::ConnectionError, io::Stream as InnerStream, Options};
@@ -160,7 +162,13 @@ impl ConnectingStream {
         socket: SelectOk<ConnectingFuture<TcpStream>>,
         options: &Options,
     ) -> Self {
-        match addr.host_str().map(|host| host.to_owned()) {
+        let host = match addr.host() {
+            // without the brackets of the URL
+            Some(Host::Ipv6(ip)) => Some(ip.to_string()),
+            _ => addr.host_str().map(|host| host.to_owned()),
+        };
+
+        match host {
             None => Self {
                 state: State::tls_host_err(),
             },
-- 
2.43.0


From 8fe1dc35a79b00092fc8836822b10afea5c27ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:32 +0000
Subject: [PATCH 57/58] fix: with async_std, errors of operations with a time
 limit lost their kind

The limit went through io::Error and back: a server exception or driver error became
Error::Io, and a timeout was not DriverError::Timeout as it is with tokio.
---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c03fa6d..9ff563b 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -658,12 +658,10 @@ async fn with_timeout<F, T>(future: F, duration: Duration) -> F::Output
 where
     F: Future<Output = Result<T>>,
 {
-    use async_std::io;
-    use futures_util::future::TryFutureExt;
-
-    io::timeout(duration, future.map_err(Into::into))
-        .map_err(Into::into)
-        .await
+    match async_std::future::timeout(duration, future).await {
+        Ok(ret) => ret,
+        Err(_) => Err(Error::Driver(DriverError::Timeout)),
+    }
 }
 
 #[cfg(not(feature = "async_std"))]
-- 
2.43.0


From e8681eed113306976a93b485ff68049c22b8679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 58/58] fix: a pool was kept alive by its own connections

A connection being opened, and an idle one that was opened for a request served by
another, held the pool they were in: dropped pools leaked them with their sockets.
---
 src/io/transport.rs | 11 +++--------
 src/lib.rs          | 27 ++++++++++++++-------------
 src/pool/mod.rs     | 15 ++++++++++-----
 src/retry_guard.rs  |  4 ++--
 4 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index c8ab21e..f7c47f3 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -20,7 +20,7 @@ use crate::{
     binary::Parser,
     errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
-    pool::{Inner, Pool},
+    pool::Inner,
     types::{Block, Cmd, Packet},
 };
 use futures_core::Stream;
@@ -77,7 +77,7 @@ pub(crate) struct PacketStream {
 }
 
 impl ClickhouseTransport {
-    pub fn new(inner: InnerStream, compress: bool, pool: Option<Pool>) -> Self {
+    pub fn new(inner: InnerStream, compress: bool, pool: sync::Weak<Inner>) -> Self {
         ClickhouseTransport {
             inner,
             done: false,
@@ -141,12 +141,7 @@ impl Drop for TransportStatus {
 }
 
 impl TransportStatus {
-    fn new(pool: Option<Pool>) -> TransportStatus {
-        let pool = match pool {
-            None => sync::Weak::new(),
-            Some(p) => Arc::downgrade(&p.inner),
-        };
-
+    fn new(pool: sync::Weak<Inner>) -> TransportStatus {
         TransportStatus {
             inside: AtomicBool::new(true),
             pool,
diff --git a/src/lib.rs b/src/lib.rs
index 9ff563b..8cae401 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@
 
 #![recursion_limit = "1024"]
 
-use std::{fmt, future::Future, time::Duration};
+use std::{fmt, future::Future, sync, time::Duration};
 
 use futures_util::{
     future, future::BoxFuture, future::FutureExt, stream, stream::BoxStream, StreamExt,
@@ -119,7 +119,7 @@ use crate::{
     connecting_stream::ConnectingStream,
     errors::{DriverError, Error, Result},
     io::ClickhouseTransport,
-    pool::PoolBinding,
+    pool::{Inner, PoolBinding},
     retry_guard::retry_guard,
     types::{
         block::{ChunkIterator, INSERT_BLOCK_SIZE},
@@ -256,10 +256,14 @@ impl Client {
     #[deprecated(since = "0.1.4", note = "please use Pool to connect")]
     pub async fn connect(options: Options) -> Result<ClientHandle> {
         let source = options.into_options_src();
-        Self::open(source, None).await
+        Self::open(source, sync::Weak::new()).await
     }
 
-    pub(crate) async fn open(source: OptionsSource, pool: Option<Pool>) -> Result<ClientHandle> {
+    // A connection of a pool must not keep the pool alive: it gets bound when it is lent.
+    pub(crate) async fn open(
+        source: OptionsSource,
+        pool: sync::Weak<Inner>,
+    ) -> Result<ClientHandle> {
         let options = try_opt!(source.get());
         let compress = options.compression;
         let timeout = options.connection_timeout;
@@ -271,27 +275,24 @@ impl Client {
 
         with_timeout(
             async move {
-                let addr = match &pool {
-                    None => &options.addr,
-                    Some(p) => p.get_addr(),
+                let addr = match pool.upgrade() {
+                    None => options.addr.clone(),
+                    Some(inner) => inner.get_addr().clone(),
                 };
 
                 info!("try to connect to {}", addr);
                 if addr.port() == Some(8123) {
                     warn!("You should use port 9000 instead of 8123 because clickhouse-rs work through the binary interface.");
                 }
-                let mut stream = ConnectingStream::new(addr, &options).await?;
+                let mut stream = ConnectingStream::new(&addr, &options).await?;
                 stream.set_nodelay(options.nodelay)?;
                 stream.set_keepalive(options.keepalive)?;
 
-                let transport = ClickhouseTransport::new(stream, compress, pool.clone());
+                let transport = ClickhouseTransport::new(stream, compress, pool);
                 let mut handle = ClientHandle {
                     inner: Some(transport),
                     context,
-                    pool: match pool {
-                        None => PoolBinding::None,
-                        Some(p) => PoolBinding::Detached(p),
-                    },
+                    pool: PoolBinding::None,
                     recycled: false,
                 };
 
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 4f873bd..2918dbb 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -55,6 +55,12 @@ impl Inner {
         }
     }
 
+    pub(crate) fn get_addr(&self) -> &Url {
+        let n = self.hosts.len();
+        let index = self.connections_num.fetch_add(1, Ordering::SeqCst);
+        &self.hosts[index % n]
+    }
+
     fn conn_count(&self) -> usize {
         let is_new_some = self.new.len();
         let ongoing = self.ongoing.load(Ordering::Acquire);
@@ -269,7 +275,7 @@ impl Pool {
 
     fn new_connection(&self) -> BoxFuture<'static, Result<ClientHandle>> {
         let source = self.options.clone();
-        let pool = Some(self.clone());
+        let pool = Arc::downgrade(&self.inner);
         Box::pin(async move { Client::open(source, pool).await })
     }
 
@@ -329,10 +335,9 @@ impl Pool {
         self.inner.wake_tasks();
     }
 
-    pub(crate) fn get_addr(&self) -> &Url {
-        let n = self.inner.hosts.len();
-        let index = self.inner.connections_num.fetch_add(1, Ordering::SeqCst);
-        &self.inner.hosts[index % n]
+    #[cfg(test)]
+    fn get_addr(&self) -> &Url {
+        self.inner.get_addr()
     }
 }
 
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 2f7dab6..d331dfa 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -1,4 +1,4 @@
-use std::{mem, time::Duration};
+use std::{mem, sync, time::Duration};
 
 use log::warn;
 
@@ -61,7 +61,7 @@ async fn check(c: &mut ClientHandle) -> Result<()> {
 async fn reconnect(c: &mut ClientHandle, source: &OptionsSource, pool: Option<Pool>) -> Result<()> {
     warn!("[reconnect]");
     let mut nc = match pool {
-        None => Client::open(source.clone(), pool).await?,
+        None => Client::open(source.clone(), sync::Weak::new()).await?,
         Some(p) => p.get_handle().await?,
     };
     mem::swap(c, &mut nc);
-- 
2.43.0


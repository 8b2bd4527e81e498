From e7a5190333a1d8ffa0a5f7cdf779944a058107bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 01/79] fix: SSE parser indexed characters with a byte offset
 when stripping CR

---
 src/shared/sse_parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..34e7976 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -171,11 +171,8 @@ impl SseParser {
         let mut events = Vec::new();
 
         while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
-            };
+            let line = &self.buffer[..line_end];
+            let line = line.strip_suffix('\r').unwrap_or(line).to_string();
 
             if let Some(event) = self.process_line(&line) {
                 events.push(event);
-- 
2.43.0


From 181c0199c9e7e645895ff5bfaa36b3d015e266b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 02/79] fix: SSE parser dropped empty data lines at the start
 of an event

---
 src/shared/sse_parser.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 34e7976..51e66b5 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -214,11 +214,12 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
-                } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
+                match &mut self.current_event.data {
+                    Some(data) => {
+                        data.push('\n');
+                        data.push_str(value);
+                    },
+                    None => self.current_event.data = Some(value.to_string()),
                 }
             },
             "id" => {
@@ -242,11 +243,11 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
-        if self.current_event.data.is_empty() {
+        let Some(data) = self.current_event.data.take() else {
             // No data, don't dispatch
             self.current_event = EventBuilder::new();
             return None;
-        }
+        };
 
         let event = SseEvent {
             id: self
@@ -255,7 +256,7 @@ impl SseParser {
                 .clone()
                 .or_else(|| self.last_event_id.clone()),
             event: self.current_event.event.clone(),
-            data: self.current_event.data.clone(),
+            data,
             retry: self.current_event.retry,
         };
 
@@ -286,7 +287,7 @@ impl Default for SseParser {
 struct EventBuilder {
     id: Option<String>,
     event: Option<String>,
-    data: String,
+    data: Option<String>,
     retry: Option<u64>,
 }
 
@@ -295,7 +296,7 @@ impl EventBuilder {
         Self {
             id: None,
             event: None,
-            data: String::new(),
+            data: None,
             retry: None,
         }
     }
-- 
2.43.0


From 66aec92b56b238541dce71ec953cb7ccef45b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 03/79] fix: SSE events with empty data or a trailing newline
 were written without their last data line

---
 src/shared/sse_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 51e66b5..610b13e 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -103,7 +103,7 @@ impl fmt::Display for SseEvent {
         }
 
         // Split data by newlines and write each line
-        for line in self.data.lines() {
+        for line in self.data.split('\n') {
             writeln!(f, "data: {}", line)?;
         }
 
-- 
2.43.0


From bb626adb42255d92b7f065203f7a203f376052e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 04/79] fix: SSE parser accepted signed retry values

---
 src/shared/sse_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 610b13e..34ca571 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -229,8 +229,11 @@ impl SseParser {
                 }
             },
             "retry" => {
-                if let Ok(retry) = value.parse::<u64>() {
-                    self.current_event.retry = Some(retry);
+                // Only ASCII digits are a valid retry value
+                if value.bytes().all(|b| b.is_ascii_digit()) {
+                    if let Ok(retry) = value.parse::<u64>() {
+                        self.current_event.retry = Some(retry);
+                    }
                 }
             },
             _ => {
-- 
2.43.0


From bfba8a71c7f98bc4459c45c35e1c87c62fae90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 05/79] hook: stdio transport over in-memory streams under
 cfg(pmcp_vp)

---
 src/lib.rs          |  1 +
 src/shared/stdio.rs | 31 +++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d14b8bb..6a38a4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -69,6 +69,7 @@
 #![deny(unsafe_code)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
 // Allow certain clippy lints that are too pedantic for this codebase
+#![allow(unexpected_cfgs)] // verification hooks: cfg(pmcp_vp)
 #![allow(clippy::missing_errors_doc)]
 #![allow(clippy::return_self_not_must_use)]
 #![allow(clippy::multiple_crate_versions)]
diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..b59d666 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -9,6 +9,16 @@ use async_trait::async_trait;
 use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
 use tokio::sync::Mutex;
 
+#[cfg(not(pmcp_vp))]
+type Input = tokio::io::Stdin;
+#[cfg(not(pmcp_vp))]
+type Output = tokio::io::Stdout;
+// Verification hook: in-memory streams in place of the process's own.
+#[cfg(pmcp_vp)]
+type Input = tokio::io::DuplexStream;
+#[cfg(pmcp_vp)]
+type Output = tokio::io::DuplexStream;
+
 /// Line-delimited JSON framing header.
 const CONTENT_LENGTH_HEADER: &str = "Content-Length: ";
 
@@ -29,8 +39,8 @@ const CONTENT_LENGTH_HEADER: &str = "Content-Length: ";
 /// ```
 #[derive(Debug)]
 pub struct StdioTransport {
-    stdin: Mutex<BufReader<tokio::io::Stdin>>,
-    stdout: Mutex<tokio::io::Stdout>,
+    stdin: Mutex<BufReader<Input>>,
+    stdout: Mutex<Output>,
     closed: std::sync::atomic::AtomicBool,
 }
 
@@ -47,8 +57,25 @@ impl StdioTransport {
     /// ```
     pub fn new() -> Self {
         Self {
+            #[cfg(not(pmcp_vp))]
             stdin: Mutex::new(BufReader::new(tokio::io::stdin())),
+            #[cfg(pmcp_vp)]
+            stdin: Mutex::new(BufReader::new(tokio::io::duplex(1).0)),
+            #[cfg(not(pmcp_vp))]
             stdout: Mutex::new(tokio::io::stdout()),
+            #[cfg(pmcp_vp)]
+            stdout: Mutex::new(tokio::io::duplex(1).0),
+            closed: std::sync::atomic::AtomicBool::new(false),
+        }
+    }
+
+    /// Verification hook: a transport over in-memory streams.
+    #[cfg(pmcp_vp)]
+    #[doc(hidden)]
+    pub fn vp_new(stdin: Input, stdout: Output) -> Self {
+        Self {
+            stdin: Mutex::new(BufReader::new(stdin)),
+            stdout: Mutex::new(stdout),
             closed: std::sync::atomic::AtomicBool::new(false),
         }
     }
-- 
2.43.0


From 26185185044340cdec141a47cc78d4b8b1b05e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:43 +0000
Subject: [PATCH 06/79] fix: a raw message whose result is null was classified
 as invalid

---
 src/types/jsonrpc.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types/jsonrpc.rs b/src/types/jsonrpc.rs
index 5452001..b781d18 100644
--- a/src/types/jsonrpc.rs
+++ b/src/types/jsonrpc.rs
@@ -361,13 +361,21 @@ pub struct RawMessage {
     #[serde(default)]
     pub params: Option<Box<RawValue>>,
     /// Raw result (for responses)
-    #[serde(default)]
+    #[serde(default, deserialize_with = "present_value")]
     pub result: Option<Box<RawValue>>,
     /// Error (for error responses)
     #[serde(default)]
     pub error: Option<JSONRPCError>,
 }
 
+/// Keep a member that is present, even when its value is `null`.
+fn present_value<'de, D>(deserializer: D) -> Result<Option<Box<RawValue>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    Box::<RawValue>::deserialize(deserializer).map(Some)
+}
+
 impl RawMessage {
     /// Determine the type of this message.
     pub fn message_type(&self) -> MessageType {
-- 
2.43.0


From 3772ccbd3f4db18d2470b0eb853c73ae5f1d314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 07/79] fix: a huge announced length aborted the stdio
 transport

---
 src/shared/stdio.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index b59d666..95cd032 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -232,12 +232,20 @@ impl StdioTransport {
     /// Read message body with specified content length.
     async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
         let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
+        // The announced length is untrusted: never allocate more than what arrives
+        let mut buffer = Vec::new();
+        (&mut *stdin)
+            .take(content_length as u64)
+            .read_to_end(&mut buffer)
             .await
             .map_err(TransportError::from)?;
         drop(stdin);
+        if buffer.len() < content_length {
+            return Err(
+                TransportError::from(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))
+                    .into(),
+            );
+        }
         Ok(buffer)
     }
 
-- 
2.43.0


From 9939364a524fe353d280336fd35d78cac8cc2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:15 +0000
Subject: [PATCH 08/79] fix: elicitation requests were written under a method
 name the parser refuses

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..33e7069 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -195,7 +195,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From 1817d2f0e6b41bf03a7efac986f9950e03ae6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:40 +0000
Subject: [PATCH 09/79] fix: requests and notifications with absent or
 ignorable parameters were refused

---
 src/shared/protocol_helpers.rs | 53 +++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 33e7069..96a18e4 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -103,43 +103,44 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 
 // Helper functions for parsing
 
-fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+/// Parse a method and its parameters, reading absent parameters as empty ones and
+/// ignoring the members of an object given to a method that takes none.
+fn parse_tagged<T: serde::de::DeserializeOwned>(
+    method: &str,
+    params: &Value,
+) -> serde_json::Result<T> {
+    let parse = |params: &Value| {
+        serde_json::from_value(serde_json::json!({
+            "method": method,
+            "params": params,
+        }))
+    };
 
-    serde_json::from_value(request_json)
-        .map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
+    parse(params).or_else(|err| {
+        match params {
+            Value::Null => parse(&serde_json::json!({})),
+            Value::Object(_) => parse(&Value::Null),
+            _ => return Err(err),
+        }
+        .map_err(|_: serde_json::Error| err)
+    })
 }
 
-fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
+    parse_tagged(method, params).map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
+}
 
-    serde_json::from_value(request_json)
-        .map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
+fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
+    parse_tagged(method, params).map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
 }
 
 fn parse_client_notification(method: &str, params: &Value) -> Result<ClientNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_tagged(method, params)
         .map_err(|e| Error::parse(format!("Invalid client notification: {}", e)))
 }
 
 fn parse_server_notification(method: &str, params: &Value) -> Result<ServerNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_tagged(method, params)
         .map_err(|e| Error::parse(format!("Invalid server notification: {}", e)))
 }
 
-- 
2.43.0


From e87bd2c09d61e5beafc3ff4447b8e711836a66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 10/79] fix: session middleware accepted expired sessions

---
 src/shared/session.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..9d1f934 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -352,7 +352,8 @@ impl SessionMiddleware {
         F: FnOnce(Option<Session>) -> R,
     {
         let session = if let Some(session_id) = extract_session_id(headers) {
-            self.manager.get_session(&session_id)
+            // An expired session is no longer presented to the handler
+            self.manager.validate_session(&session_id).ok()
         } else {
             None
         };
-- 
2.43.0


From b303f559f9311546348f41ffa1335e5332f07cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 11/79] fix: expired resumption tokens still resumed their
 session

---
 src/shared/event_store.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index b5b7f74..3734b18 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -100,7 +100,7 @@ pub struct ResumptionState {
 #[derive(Debug)]
 pub struct InMemoryEventStore {
     events: Arc<RwLock<VecDeque<StoredEvent>>>,
-    tokens: Arc<RwLock<HashMap<String, ResumptionState>>>,
+    tokens: Arc<RwLock<HashMap<String, (ResumptionState, DateTime<Utc>)>>>,
     max_events: usize,
     max_age: chrono::Duration,
 }
@@ -201,21 +201,28 @@ impl EventStore for InMemoryEventStore {
             next_sequence: last_event.sequence + 1,
         };
 
-        self.tokens.write().insert(token_id.clone(), state);
+        let created_at = Utc::now();
+        let expires_at = created_at + chrono::Duration::hours(24);
+        self.tokens
+            .write()
+            .insert(token_id.clone(), (state, expires_at));
 
         Ok(ResumptionToken {
             token: token_id,
             session_id: last_event.session_id.clone(),
             last_event_id: last_event.id.clone(),
-            created_at: Utc::now(),
-            expires_at: Utc::now() + chrono::Duration::hours(24),
+            created_at,
+            expires_at,
             metadata: HashMap::new(),
         })
     }
 
     async fn validate_resumption_token(&self, token: &str) -> Result<Option<ResumptionState>> {
         let tokens = self.tokens.read();
-        Ok(tokens.get(token).cloned())
+        Ok(tokens
+            .get(token)
+            .filter(|(_, expires_at)| *expires_at >= Utc::now())
+            .map(|(state, _)| state.clone()))
     }
 }
 
-- 
2.43.0


From 0b46ed0507bd1e3102f7929b418902f50dbe99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 12/79] fix: resumption handed a session the events of other
 sessions

---
 src/shared/event_store.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index 3734b18..7b6f276 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -311,9 +311,16 @@ impl ResumptionManager {
         *self.sequence_counter.write() = state.next_sequence;
 
         // Get events since the last acknowledged event
-        self.event_store
+        let events = self
+            .event_store
             .get_events_since(&state.last_event_id, None)
-            .await
+            .await?;
+
+        // The store may hold the events of other sessions as well
+        Ok(events
+            .into_iter()
+            .filter(|e| e.session_id == state.session_id)
+            .collect())
     }
 
     /// Get pending events that need to be resent.
@@ -326,7 +333,9 @@ impl ResumptionManager {
         // Filter for outbound events that might need resending
         Ok(events
             .into_iter()
-            .filter(|e| e.direction == MessageDirection::Outbound)
+            .filter(|e| {
+                e.direction == MessageDirection::Outbound && e.session_id == self.session_id
+            })
             .collect())
     }
 }
-- 
2.43.0


From 5243d7a32c825ade7b112ffd40e93f145a2e0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 13/79] fix: reconnection delay panicked on large durations and
 jitter exceeded the maximum

---
 src/shared/reconnect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..94f22cd 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -274,7 +274,8 @@ impl ReconnectManager {
         };
         let final_delay = (capped_delay + jitter).max(0.0);
 
-        Duration::from_secs_f64(final_delay)
+        Duration::try_from_secs_f64(final_delay)
+            .map_or(self.config.max_delay, |d| d.min(self.config.max_delay))
     }
 
     /// Notify that a connection attempt is starting.
-- 
2.43.0


From 0ae7b744a4a7fa13116a8fe80b4660dab478f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 14/79] fix: trace headers with non-ASCII ids and contexts with
 short span ids panicked

---
 src/shared/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..c7deb34 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,7 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex: String = self.span_id.chars().filter(|c| *c != '-').take(16).collect();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
@@ -245,7 +245,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +259,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From 7807f65ab950933bcd3bc625e3a3954d122ce093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 15/79] fix: string request ids were replaced when read from
 context headers

---
 src/shared/context.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7deb34..ea5739c 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -272,13 +272,13 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| match id.parse::<i64>() {
+                        Ok(number) if number.to_string() == *id => RequestId::from(number),
+                        _ => RequestId::from(id.clone()),
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From babda8e8e9974fce061a653dc3d62e18cf4d6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 16/79] fix: batch requests that timed out were answered under
 another id

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From 78dda1448169f2f88b7ff2fefd7eca014714fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 17/79] fix: flushing the debouncer lost messages waiting for
 room in the queue

---
 src/utils/batching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..7c0cc0a 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -356,6 +356,11 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
+            // Wait for room in the queue first: the task may be aborted while waiting
+            let Ok(permit) = tx.reserve().await else {
+                return;
+            };
+
             // Send the notification
             let notification = {
                 let mut pending = pending.lock().await;
@@ -364,7 +369,7 @@ impl MessageDebouncer {
 
             if let Some(notification) = notification {
                 debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+                permit.send(notification);
             }
 
             // Remove timer handle
-- 
2.43.0


From 6bee17701d0c80d4a75c920b486f9a6a9b81bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 18/79] fix: a circuit whose timeout had passed bypassed the
 retry limit

---
 src/shared/reconnect.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 94f22cd..6073522 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -227,7 +227,7 @@ impl ReconnectManager {
                             callback();
                         }
 
-                        true
+                        self.retries_left()
                     } else {
                         false
                     }
@@ -235,14 +235,16 @@ impl ReconnectManager {
                     false
                 }
             },
-            _ => {
-                // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
-            },
+            _ => self.retries_left(),
+        }
+    }
+
+    /// Check retry limit.
+    fn retries_left(&self) -> bool {
+        if let Some(max_retries) = self.config.max_retries {
+            self.retry_count.load(Ordering::Relaxed) < max_retries
+        } else {
+            true
         }
     }
 
-- 
2.43.0


From bb23bbe5804e9a10477bf40f2a35e390060ab6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 19/79] fix: unregistering a root removed another root with the
 same address

---
 src/server/roots.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/server/roots.rs b/src/server/roots.rs
index 93522b3..e8c0c9b 100644
--- a/src/server/roots.rs
+++ b/src/server/roots.rs
@@ -6,6 +6,7 @@
 use crate::error::Result;
 use crate::types::{ServerNotification, ServerRequest};
 use serde::{Deserialize, Serialize};
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use tokio::sync::RwLock;
 use tracing::info;
@@ -34,8 +35,10 @@ pub struct RootsListChangedParams {}
 /// Manages server roots.
 #[derive(Clone)]
 pub struct RootsManager {
-    /// The registered roots.
-    roots: Arc<RwLock<Vec<Root>>>,
+    /// The registered roots, each with the number of its registration.
+    roots: Arc<RwLock<Vec<(u64, Root)>>>,
+    /// Number of the next registration.
+    next_registration: Arc<AtomicU64>,
     /// Optional callback for sending notifications.
     notification_sender: Option<Arc<dyn Fn(ServerNotification) + Send + Sync>>,
 }
@@ -62,6 +65,7 @@ impl RootsManager {
     pub fn new() -> Self {
         Self {
             roots: Arc::new(RwLock::new(Vec::new())),
+            next_registration: Arc::new(AtomicU64::new(0)),
             notification_sender: None,
         }
     }
@@ -108,8 +112,10 @@ impl RootsManager {
             name,
         };
 
+        let registration = self.next_registration.fetch_add(1, Ordering::Relaxed);
+
         {
-            self.roots.write().await.push(root);
+            self.roots.write().await.push((registration, root));
             info!("Registered root: {}", uri);
         }
 
@@ -128,7 +134,7 @@ impl RootsManager {
 
             tokio::spawn(async move {
                 let mut roots_guard = roots.write().await;
-                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {
+                if let Some(pos) = roots_guard.iter().position(|(id, _)| *id == registration) {
                     roots_guard.remove(pos);
                     drop(roots_guard);
                     info!("Unregistered root: {}", uri);
@@ -144,7 +150,12 @@ impl RootsManager {
 
     /// Get a copy of all registered roots.
     pub async fn get_roots(&self) -> Vec<Root> {
-        self.roots.read().await.clone()
+        self.roots
+            .read()
+            .await
+            .iter()
+            .map(|(_, root)| root.clone())
+            .collect()
     }
 
     /// Request the list of roots from the client.
-- 
2.43.0


From f3c6d56ace75da6cf7fde026ef409e98fe80ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 20/79] fix: reserved and fragment expansion left characters
 that are not allowed in an address

---
 src/shared/uri_template.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..368de9c 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -87,6 +87,13 @@ enum Operator {
     QueryContinuation,
 }
 
+impl Operator {
+    /// Whether values keep reserved characters and percent-encoded triplets.
+    fn allows_reserved(self) -> bool {
+        matches!(self, Self::Reserved | Self::Fragment)
+    }
+}
+
 /// Variable specification with optional modifier
 #[derive(Debug, Clone, PartialEq, Eq)]
 struct VarSpec {
@@ -334,13 +341,13 @@ impl UriTemplate {
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, op.allows_reserved())
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, op.allows_reserved())
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, op.allows_reserved()),
                 };
 
                 match op {
@@ -392,8 +399,21 @@ impl UriTemplate {
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
         if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
+            // Keep reserved and unreserved characters and percent-encoded triplets
+            let bytes = value.as_bytes();
+            let mut out = String::with_capacity(bytes.len());
+            for (i, &b) in bytes.iter().enumerate() {
+                let triplet = b == b'%'
+                    && bytes.get(i + 1).is_some_and(u8::is_ascii_hexdigit)
+                    && bytes.get(i + 2).is_some_and(u8::is_ascii_hexdigit);
+                if triplet || b.is_ascii_alphanumeric() || b"-._~:/?#[]@!$&'()*+,;=".contains(&b) {
+                    out.push(char::from(b));
+                } else {
+                    // Writing to a String cannot fail
+                    let _ = write!(out, "%{:02X}", b);
+                }
+            }
+            out
         } else {
             // Percent-encode reserved characters
             urlencoding::encode(value).into_owned()
-- 
2.43.0


From 296cd31960e3cd2da370bb49582a8ab1924e5447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 21/79] fix: an empty path parameter was expanded with an
 equals sign

---
 src/shared/uri_template.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 368de9c..5b63284 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -360,6 +360,9 @@ impl UriTemplate {
                     Operator::PathSegment => {
                         parts.push(encoded);
                     },
+                    Operator::PathParameter if encoded.is_empty() => {
+                        parts.push(spec.name.clone());
+                    },
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-- 
2.43.0


From 458db735cb436aa2726decc876ca95adb7d059c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 22/79] fix: values matched by a URI template were not decoded

---
 src/shared/uri_template.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 5b63284..ca642ea 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -6,6 +6,7 @@
 use crate::error::{Error, Result};
 use regex::Regex;
 use serde::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt::{self, Write};
 use std::sync::LazyLock;
@@ -423,6 +424,15 @@ impl UriTemplate {
         }
     }
 
+    /// Decode a matched value, so that expanding it gives the matched text again.
+    fn decode_value(expr: &Expression, value: &str) -> String {
+        if matches!(expr, Expression::Multiple(op, _) if op.allows_reserved()) {
+            // These expressions keep percent-encoded triplets as they are
+            return value.to_string();
+        }
+        urlencoding::decode(value).map_or_else(|_| value.to_string(), Cow::into_owned)
+    }
+
     /// Match a URI against this template and extract variables.
     ///
     /// # Examples
@@ -447,7 +457,7 @@ impl UriTemplate {
         for expr in &self.expressions {
             if let Some(var_name) = Self::get_var_name(expr) {
                 if let Some(value) = captures.get(capture_index) {
-                    vars.insert(var_name, value.as_str().to_string());
+                    vars.insert(var_name, Self::decode_value(expr, value.as_str()));
                 }
                 capture_index += 1;
             }
@@ -490,9 +500,12 @@ impl UriTemplate {
                     // Handle based on operator type
                     if specs.len() == 1 {
                         match op {
-                            Operator::Simple | Operator::Reserved => {
+                            Operator::Simple => {
                                 pattern.push_str("([^/]+)");
                             },
+                            Operator::Reserved => {
+                                pattern.push_str("(.+)");
+                            },
                             Operator::Fragment => {
                                 pattern.push_str("#(.+)");
                             },
-- 
2.43.0


From 854507c9b77a402d3a1e9169fe7f7dd589031009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 23/79] fix: flushed notifications were delivered again

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..7381cf4 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let to_flush = std::mem::take(&mut *pending.write().await);
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in to_flush {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From 4169ec9487c9e0a329285afbfe965dbd861d6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 24/79] fix: the latest notification was dropped when the
 merged batch was full

---
 src/server/notification_debouncer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 7381cf4..93a7a41 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -149,6 +149,13 @@ impl NotificationDebouncer {
                 // Merge if possible
                 if existing.mergeable.len() < self.config.max_batch_size {
                     existing.mergeable.push(notification);
+                } else {
+                    // The batch is full: the latest content takes the last place
+                    let Some(last) = existing.mergeable.last_mut() else {
+                        existing.notification = notification;
+                        return Ok(());
+                    };
+                    *last = notification;
                 }
             } else {
                 // Replace with latest
-- 
2.43.0


From ccda7c8f222368aa0d2adf73787f0c36ce0cdc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:10 +0000
Subject: [PATCH 25/79] fix: debounce intervals configured by notification type
 were ignored

---
 src/server/notification_debouncer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 93a7a41..3b55d7b 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -236,11 +236,26 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
         #[allow(unreachable_patterns)]
         _ => "unknown".to_string(),
     }
 }
 
+/// The name of a notification's type in `type_intervals`
+fn notification_type(notification: &ServerNotification) -> &'static str {
+    match notification {
+        ServerNotification::Progress(_) => "progress",
+        ServerNotification::ResourceUpdated(_) => "resources/updated",
+        ServerNotification::ResourcesChanged => "resources/list_changed",
+        ServerNotification::ToolsChanged => "tools/list_changed",
+        ServerNotification::PromptsChanged => "prompts/list_changed",
+        ServerNotification::RootsListChanged => "roots/list_changed",
+        ServerNotification::LogMessage(_) => "log",
+    }
+}
+
 /// Flush pending notifications that are ready
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
@@ -259,6 +274,11 @@ async fn flush_pending(
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| {
+                    config
+                        .type_intervals
+                        .get(notification_type(&pending_notif.notification))
+                })
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From f743d8935f1e3c5b4e8edae2bebe49c70073a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 26/79] fix: an elicitation whose id was pending replaced it,
 and abandoned ones stayed pending

---
 src/server/elicitation.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 047653d..8f2562a 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -61,6 +61,14 @@ impl ElicitationManager {
         // Store pending request
         {
             let mut pending = self.pending.write().await;
+            // A request whose caller is gone no longer waits for its response
+            pending.retain(|_, waiting| !waiting.is_closed());
+            if pending.contains_key(&request.elicitation_id) {
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Elicitation ID is already pending",
+                ));
+            }
             pending.insert(request.elicitation_id.clone(), tx);
         }
 
@@ -70,7 +78,8 @@ impl ElicitationManager {
         let server_request = ServerRequest::ElicitInput(Box::new(request));
         if let Err(e) = request_tx.send(server_request).await {
             // Remove from pending on send error
-            self.pending.write().await.remove(&elicitation_id);
+            drop(rx);
+            self.forget_closed(&elicitation_id).await;
             return Err(Error::protocol(
                 ErrorCode::INTERNAL_ERROR,
                 format!("Failed to send elicitation request: {}", e),
@@ -94,7 +103,7 @@ impl ElicitationManager {
             },
             Err(_) => {
                 warn!("Elicitation timeout: {}", elicitation_id);
-                self.pending.write().await.remove(&elicitation_id);
+                self.forget_closed(&elicitation_id).await;
                 Err(Error::protocol(
                     ErrorCode::REQUEST_TIMEOUT,
                     "Elicitation request timed out",
@@ -103,11 +112,23 @@ impl ElicitationManager {
         }
     }
 
+    /// Forget a request whose caller no longer waits, unless its ID is used again.
+    async fn forget_closed(&self, elicitation_id: &str) {
+        let mut pending = self.pending.write().await;
+        if pending.get(elicitation_id).is_some_and(|tx| tx.is_closed()) {
+            pending.remove(elicitation_id);
+        }
+    }
+
     /// Handle an elicitation response from the client.
     pub async fn handle_response(&self, response: ElicitInputResponse) -> Result<()> {
         let mut pending = self.pending.write().await;
 
-        if let Some(tx) = pending.remove(&response.elicitation_id) {
+        // A request whose caller is gone is no longer pending
+        if let Some(tx) = pending
+            .remove(&response.elicitation_id)
+            .filter(|tx| !tx.is_closed())
+        {
             if tx.send(response).is_err() {
                 warn!("Failed to deliver elicitation response - receiver dropped");
             }
@@ -167,7 +188,8 @@ impl ElicitationManager {
 
     /// Get the number of pending elicitation requests.
     pub async fn pending_count(&self) -> usize {
-        self.pending.read().await.len()
+        let pending = self.pending.read().await;
+        pending.values().filter(|tx| !tx.is_closed()).count()
     }
 }
 
-- 
2.43.0


From 0e9a40360c37272e4cc3d2e83eb29e4698052753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:44 +0000
Subject: [PATCH 27/79] fix: issuing a token could deadlock with refreshing or
 revoking one

---
 src/server/auth/oauth2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..647e5e3 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -624,6 +624,7 @@ impl OAuthProvider for InMemoryOAuthProvider {
 
         let mut tokens = self.tokens.write().await;
         tokens.insert(access_token.clone(), token_info);
+        drop(tokens);
 
         // Store refresh token mapping
         let mut refresh_tokens = self.refresh_tokens.write().await;
-- 
2.43.0


From ca07355702b448d632d0d9a4f8d19891977cf4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:45 +0000
Subject: [PATCH 28/79] fix: concurrent refreshes of one refresh token issued
 several tokens

---
 src/server/auth/oauth2.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index 647e5e3..eb27d2d 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -641,34 +641,23 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
-        // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
+        // Take the associated access token, so that a refresh token is used only once
+        let mut refresh_tokens = self.refresh_tokens.write().await;
         let old_token = refresh_tokens
-            .get(refresh_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
-            .clone();
-
-        // Get token info
-        let tokens = self.tokens.read().await;
-        let token_info = tokens
-            .get(&old_token)
+            .remove(refresh_token)
             .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
-
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
-
-        drop(tokens);
         drop(refresh_tokens);
 
-        // Remove old tokens
+        // Take the old token's info
         let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
+        let token_info = tokens
+            .remove(&old_token)
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
         drop(tokens);
 
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
-        drop(refresh_tokens);
+        let client_id = token_info.client_id;
+        let user_id = token_info.user_id;
+        let scopes = token_info.scopes;
 
         // Create new token
         self.create_access_token(&client_id, &user_id, scopes).await
-- 
2.43.0


From 94a41dffdbcfb7a78b077ab020f404cdd76d46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:19 +0000
Subject: [PATCH 29/79] fix: an initialisation under an unknown session id was
 accepted without a session

---
 src/server/streamable_http_server.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..00aac9d 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -359,19 +359,22 @@ fn process_init_session(
     if let Some(generator) = &state.config.session_id_generator {
         // Stateful mode
         if let Some(sid) = session_id {
-            // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
-                    // Session already initialized - reject re-initialization
-                    return Err(create_error_response(
-                        StatusCode::BAD_REQUEST,
-                        -32600,
-                        "Session already initialized",
-                    ));
-                }
+            match state.sessions.read().get(&sid) {
+                // Session already initialized - reject re-initialization
+                Some(session_info) if session_info.initialized => Err(create_error_response(
+                    StatusCode::BAD_REQUEST,
+                    -32600,
+                    "Session already initialized",
+                )),
+                // Use existing session ID
+                Some(_) => Ok((Some(sid), false)),
+                // Unknown session ID
+                None => Err(create_error_response(
+                    StatusCode::NOT_FOUND,
+                    -32600,
+                    "Unknown session ID",
+                )),
             }
-            // Use existing session ID
-            Ok((Some(sid), false))
         } else {
             // Generate new session ID
             let new_id = generator();
-- 
2.43.0


From 8d165f818301035f0573c233e8862478147c43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:19 +0000
Subject: [PATCH 30/79] fix: the HTTP event store replayed other streams and,
 for an unknown id, everything

---
 src/server/streamable_http_server.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 00aac9d..cfec494 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -1,5 +1,5 @@
 //! Streamable HTTP server implementation for MCP.
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
@@ -94,14 +94,19 @@ impl EventStore for InMemoryEventStore {
         let start_pos = event_order
             .iter()
             .position(|id| id == last_event_id)
-            .map_or(0, |pos| pos + 1);
+            .map(|pos| pos + 1)
+            .ok_or_else(|| Error::not_found(format!("event {}", last_event_id)))?;
 
-        // Collect all events after that position
+        // Collect all events of its stream after that position
         let events = self.events.read();
         let event_to_stream = self.event_to_stream.read();
+        let last_stream = event_to_stream.get(last_event_id);
 
         for i in start_pos..event_order.len() {
             let event_id = &event_order[i];
+            if event_to_stream.get(event_id) != last_stream {
+                continue;
+            }
             if let Some(stream_id) = event_to_stream.get(event_id) {
                 if let Some(stream_events) = events.get(stream_id) {
                     for (eid, msg) in stream_events {
-- 
2.43.0


From fc65b75356c805bfddcd093b7c96389c8d4e1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:44 +0000
Subject: [PATCH 31/79] fix: after a lost SSE stream no new one was accepted
 and responses were dropped

---
 src/server/streamable_http_server.rs | 36 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index cfec494..98b557f 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -479,9 +479,13 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
-            if let Some(sender) = state.sse_streams.read().get(sid) {
-                // Send to existing SSE stream
-                let _ = sender.send(response);
+            let sent = state
+                .sse_streams
+                .read()
+                .get(sid)
+                .is_some_and(|sender| sender.send(response.clone()).is_ok());
+            if sent {
+                // Sent to existing SSE stream
                 StatusCode::ACCEPTED.into_response()
             } else {
                 // Return as SSE stream
@@ -727,21 +731,21 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
     // Create SSE stream
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
+    {
+        let mut streams = state.sse_streams.write();
+
+        // Check if a stream the client still reads exists for this session
+        if streams.get(&session_id).is_some_and(|s| !s.is_closed()) {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
+        }
+        streams.insert(session_id.clone(), tx.clone());
+    }
 
     // Check for Last-Event-ID for resumability
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
-- 
2.43.0


From ec8a4af32f7d8f98e9c2fc339c153a4a347e0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 32/79] fix: resumed SSE streams repeated messages, renumbered
 them and mixed sessions

---
 src/server/streamable_http_server.rs | 65 +++++++++++++---------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 98b557f..22df62c 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -14,10 +14,10 @@ use axum::{
     routing::{delete, get, post},
     Json, Router,
 };
-use futures_util::StreamExt;
+use futures_util::{stream, StreamExt};
 use parking_lot::RwLock;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::Infallible;
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -52,6 +52,9 @@ type EventList = Vec<(String, TransportMessage)>;
 /// Type alias for events map
 type EventsMap = HashMap<String, EventList>;
 
+/// Type alias for the sender of an SSE stream's events (event ID and message)
+type EventSender = mpsc::UnboundedSender<(String, TransportMessage)>;
+
 /// In-memory event store implementation
 #[derive(Debug, Default)]
 pub struct InMemoryEventStore {
@@ -215,7 +218,7 @@ struct ServerState {
     server: Arc<tokio::sync::Mutex<Server>>,
     config: Arc<StreamableHttpServerConfig>,
     /// Active SSE streams by session ID
-    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<TransportMessage>>>>,
+    sse_streams: Arc<RwLock<HashMap<String, EventSender>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
 }
@@ -471,6 +474,7 @@ fn update_session_after_init(
 fn build_response(
     state: &ServerState,
     response: TransportMessage,
+    event_id: String,
     session_id: Option<&String>,
 ) -> Response {
     if state.config.enable_json_response {
@@ -479,22 +483,20 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
-            let sent = state
-                .sse_streams
-                .read()
-                .get(sid)
-                .is_some_and(|sender| sender.send(response.clone()).is_ok());
+            let sent =
+                state.sse_streams.read().get(sid).is_some_and(|sender| {
+                    sender.send((event_id.clone(), response.clone())).is_ok()
+                });
             if sent {
                 // Sent to existing SSE stream
                 StatusCode::ACCEPTED.into_response()
             } else {
                 // Return as SSE stream
                 let (tx, rx) = mpsc::unbounded_channel();
-                tx.send(response).unwrap();
+                tx.send((event_id, response)).unwrap();
 
                 let stream = UnboundedReceiverStream::new(rx);
-                let sse = Sse::new(stream.map(|msg| {
-                    let event_id = Uuid::new_v4().to_string();
+                let sse = Sse::new(stream.map(|(event_id, msg)| {
                     Ok::<_, Infallible>(
                         Event::default()
                             .id(event_id)
@@ -635,15 +637,15 @@ async fn handle_post_request(
             };
 
             // Store event if we have an event store
+            let event_id = Uuid::new_v4().to_string();
             if let Some(event_store) = &state.config.event_store {
                 if let Some(sid) = &response_session_id {
-                    let event_id = Uuid::new_v4().to_string();
                     let _ = event_store.store_event(sid, &event_id, &response).await;
                 }
             }
 
             // Build response with headers
-            let mut response = build_response(&state, response, session_id.as_ref());
+            let mut response = build_response(&state, response, event_id, session_id.as_ref());
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -744,40 +746,33 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
                 "SSE stream already exists for this session",
             );
         }
-        streams.insert(session_id.clone(), tx.clone());
+        streams.insert(session_id.clone(), tx);
     }
 
     // Check for Last-Event-ID for resumability
+    let mut replayed = Vec::new();
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
         if let Ok(last_id) = last_event_id.to_str() {
             if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
-                if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                // Replay this session's events after the last event ID
+                if matches!(event_store.get_stream_for_event(last_id).await, Ok(Some(sid)) if sid == session_id)
+                {
+                    if let Ok(events) = event_store.replay_events_after(last_id).await {
+                        replayed = events;
                     }
                 }
             }
         }
     }
 
-    let stream = UnboundedReceiverStream::new(rx);
-    let session_id_header = session_id.clone();
-
-    let sse = Sse::new(stream.map(move |msg| {
-        let event_id = Uuid::new_v4().to_string();
-
-        // Store event if we have an event store
-        if let Some(event_store) = &state.config.event_store {
-            let sid = session_id.clone();
-            let msg_clone = msg.clone();
-            let store = event_store.clone();
-            let event_id_clone = event_id.clone();
-            tokio::spawn(async move {
-                let _ = store.store_event(&sid, &event_id_clone, &msg_clone).await;
-            });
-        }
+    // Events stored before the replay may have been sent to the new stream as well
+    let replayed_ids: HashSet<String> = replayed.iter().map(|(id, _)| id.clone()).collect();
+    let live = UnboundedReceiverStream::new(rx).filter(move |(event_id, _)| {
+        let missed = !replayed_ids.contains(event_id);
+        async move { missed }
+    });
 
+    let sse = Sse::new(stream::iter(replayed).chain(live).map(|(event_id, msg)| {
         Ok::<_, Infallible>(
             Event::default()
                 .id(event_id)
@@ -791,7 +786,7 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     // Add session ID header
     response
         .headers_mut()
-        .insert(MCP_SESSION_ID, session_id_header.parse().unwrap());
+        .insert(MCP_SESSION_ID, session_id.parse().unwrap());
 
     // Add SSE-specific headers for hardening
     response.headers_mut().insert(
-- 
2.43.0


From 36e70db7d282cc3417d08cba6c99d0f4f6ed2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 33/79] hook: direct calls of the streamable HTTP handlers
 under cfg(pmcp_vp)

---
 src/server/streamable_http_server.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 22df62c..7896806 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -292,6 +292,31 @@ impl StreamableHttpServer {
     }
 }
 
+/// Direct calls of the request handlers, for verification builds only
+#[cfg(pmcp_vp)]
+impl StreamableHttpServer {
+    /// Handle a POST request
+    pub async fn vp_post(&self, headers: HeaderMap, body: String) -> Response {
+        handle_post_request(State(self.state.clone()), headers, body)
+            .await
+            .into_response()
+    }
+
+    /// Handle a GET request
+    pub async fn vp_get(&self, headers: HeaderMap) -> Response {
+        handle_get_sse(State(self.state.clone()), headers)
+            .await
+            .into_response()
+    }
+
+    /// Handle a DELETE request
+    pub async fn vp_delete(&self, headers: HeaderMap) -> Response {
+        handle_delete_session(State(self.state.clone()), headers)
+            .await
+            .into_response()
+    }
+}
+
 /// Validate request headers and return appropriate error response
 fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<(), Response> {
     match method {
-- 
2.43.0


From 670e1bcf003202ed5f28e261f597924e400ef232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:21 +0000
Subject: [PATCH 34/79] fix: the streamable HTTP server did not accept JSON-RPC
 requests

---
 src/server/streamable_http_server.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 7896806..625cab1 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -4,6 +4,7 @@ use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
+use crate::shared::stdio::StdioTransport;
 use crate::shared::TransportMessage;
 use crate::types::{ClientRequest, Request};
 use axum::{
@@ -592,8 +593,10 @@ async fn handle_post_request(
         return error_response;
     }
 
-    // Parse the JSON body
-    let message: TransportMessage = match serde_json::from_str(&body) {
+    // Parse the JSON body: a JSON-RPC message, or the plain form our own client sends
+    let message: TransportMessage = match StdioTransport::parse_message(body.as_bytes())
+        .or_else(|_| serde_json::from_str(&body))
+    {
         Ok(msg) => msg,
         Err(e) => {
             return create_error_response(
-- 
2.43.0


From ee91d9685e7af93add7d6f3530b758f20f07c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 35/79] fix: the server ignored the protocol version a client
 asked for

---
 src/server/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..ffa0a98 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -519,8 +519,16 @@ impl Server {
                 *self.client_capabilities.write().await = Some(init_req.capabilities.clone());
                 *self.initialized.write().await = true;
 
+                // Answer with the requested version if we support it
+                let version = init_req.protocol_version.as_str();
+                let protocol_version = if crate::SUPPORTED_PROTOCOL_VERSIONS.contains(&version) {
+                    version
+                } else {
+                    crate::DEFAULT_PROTOCOL_VERSION
+                };
+
                 let result = InitializeResult {
-                    protocol_version: ProtocolVersion("2024-11-05".to_string()),
+                    protocol_version: ProtocolVersion(protocol_version.to_string()),
                     capabilities: self.capabilities.clone(),
                     server_info: self.info.clone(),
                     instructions: None,
-- 
2.43.0


From f4846dac535db607f60ced196e0717b9bf8eca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 36/79] fix: one message that cannot be read stopped the server
 from answering any more

---
 src/server/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index ffa0a98..3ee4b63 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -1,6 +1,6 @@
 //! MCP server implementation.
 
-use crate::error::{Error, Result};
+use crate::error::{Error, Result, TransportError};
 use crate::shared::{Protocol, ProtocolOptions, TransportMessage};
 use crate::types::{
     CallToolRequest, CallToolResult, ClientCapabilities, ClientRequest, GetPromptRequest,
@@ -421,6 +421,11 @@ impl Server {
             loop {
                 let message = match Self::receive_message_from_transport(&transport).await {
                     Ok(msg) => msg,
+                    // A message that cannot be read does not end the connection
+                    Err(Error::Transport(TransportError::InvalidMessage(e))) => {
+                        Self::log_error(&format!("Invalid message: {}", e)).await;
+                        continue;
+                    },
                     Err(e) => {
                         Self::log_error(&format!("Transport receive error: {}", e)).await;
                         break;
-- 
2.43.0


From 6cf8c3fe330f9ac51d86da5362668fd8cb429b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:45 +0000
Subject: [PATCH 37/79] fix: the server kept running for ever after its
 connection ended

---
 src/server/mod.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 3ee4b63..d3051ae 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -389,10 +389,12 @@ impl Server {
         let protocol = Arc::new(RwLock::new(Protocol::new(ProtocolOptions::default())));
 
         Self::spawn_notification_handler(transport.clone(), notification_rx);
-        Self::spawn_message_handler(server.clone(), transport.clone(), protocol);
+        let messages = Self::spawn_message_handler(server.clone(), transport.clone(), protocol);
 
-        // Keep the main task alive
-        Self::run_main_loop().await
+        // Keep the main task alive until the connection ends
+        messages
+            .await
+            .map_err(|e| Error::internal(format!("Message handler failed: {}", e)))?
     }
 
     /// Spawn task to handle outgoing notifications.
@@ -416,7 +418,7 @@ impl Server {
         server: Arc<Self>,
         transport: Arc<RwLock<impl crate::shared::Transport + 'static>>,
         _protocol: Arc<RwLock<Protocol>>,
-    ) {
+    ) -> tokio::task::JoinHandle<Result<()>> {
         tokio::spawn(async move {
             loop {
                 let message = match Self::receive_message_from_transport(&transport).await {
@@ -426,18 +428,19 @@ impl Server {
                         Self::log_error(&format!("Invalid message: {}", e)).await;
                         continue;
                     },
+                    Err(Error::Transport(TransportError::ConnectionClosed)) => return Ok(()),
                     Err(e) => {
                         Self::log_error(&format!("Transport receive error: {}", e)).await;
-                        break;
+                        return Err(e);
                     },
                 };
 
                 if let Err(e) = Self::handle_transport_message(&server, &transport, message).await {
                     Self::log_error(&format!("Message handling error: {}", e)).await;
-                    break;
+                    return Err(e);
                 }
             }
-        });
+        })
     }
 
     /// Send a notification through the transport.
@@ -505,13 +508,6 @@ impl Server {
         crate::log(crate::types::protocol::LogLevel::Debug, message, None).await;
     }
 
-    /// Run the main event loop.
-    async fn run_main_loop() -> Result<()> {
-        loop {
-            tokio::time::sleep(tokio::time::Duration::from_secs(1)).await;
-        }
-    }
-
     async fn handle_request(&self, id: RequestId, request: Request) -> JSONRPCResponse {
         match request {
             Request::Client(ref boxed_req)
-- 
2.43.0


From 880b86efc1e1fb1a8acbf8beecbf76ee90a67705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 38/79] fix: the client refused to sample although the server
 declared it

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..dff097b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From 6829654d32656f83a2ecfe1bc04c4c0837d1e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 39/79] fix: the client counted as initialised although its
 handshake had failed

---
 src/client/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index dff097b..d095d04 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -278,11 +278,11 @@ impl<T: Transport> Client<T> {
                     self.server_capabilities = Some(init_result.capabilities.clone());
                     self.server_version = Some(init_result.server_info.clone());
                     self.instructions.clone_from(&init_result.instructions);
-                    self.initialized = true;
 
                     // Send initialized notification
                     self.send_notification(Notification::Client(ClientNotification::Initialized))
                         .await?;
+                    self.initialized = true;
 
                     Ok(init_result)
                 } else {
-- 
2.43.0


From f016b7d1a16f82d2f97714e8bca56615559697be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 40/79] fix: a client that declared no roots announced changes
 of them

---
 src/client/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index d095d04..a615723 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1100,14 +1100,11 @@ impl<T: Transport> Client<T> {
     /// - Network or protocol errors occur
     pub async fn send_roots_list_changed(&self) -> Result<()> {
         self.ensure_initialized()?;
-        if let Some(roots) = &self.capabilities.as_ref().and_then(|c| c.roots.as_ref()) {
-            if roots.list_changed {
-                // OK, we support it
-            } else {
-                return Err(Error::capability(
-                    "Client does not support roots list changed notifications",
-                ));
-            }
+        let roots = self.capabilities.as_ref().and_then(|c| c.roots.as_ref());
+        if !roots.is_some_and(|r| r.list_changed) {
+            return Err(Error::capability(
+                "Client does not support roots list changed notifications",
+            ));
         }
 
         self.send_notification(Notification::Client(ClientNotification::RootsListChanged))
-- 
2.43.0


From e097420a3614dabb27f03a22fc0b8e8a2d236fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 41/79] fix: the client took any message for the response to
 its request

---
 src/client/mod.rs | 80 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index a615723..8123e1f 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -13,9 +13,9 @@ use crate::types::{
     UnsubscribeRequest,
 };
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::Arc;
 use tokio::sync::{mpsc, oneshot, RwLock};
-use uuid::Uuid;
 
 pub mod auth;
 pub mod transport;
@@ -95,6 +95,8 @@ pub struct Client<T: Transport> {
     notification_tx: Option<mpsc::Sender<Notification>>,
     /// Active request tracking for cancellation
     active_requests: Arc<RwLock<HashMap<RequestId, oneshot::Sender<()>>>>,
+    /// ID of the next request, shared by all clones
+    next_id: Arc<AtomicI64>,
 }
 
 impl<T: Transport> std::fmt::Debug for Client<T> {
@@ -163,6 +165,7 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            next_id: Arc::new(AtomicI64::new(1)),
         }
     }
 
@@ -207,6 +210,7 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            next_id: Arc::new(AtomicI64::new(1)),
         }
     }
 
@@ -258,7 +262,7 @@ impl<T: Transport> Client<T> {
             client_info: self.info.clone(),
         })));
 
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         // Parse initialize result
@@ -314,7 +318,7 @@ impl<T: Transport> Client<T> {
     pub async fn ping(&self) -> Result<()> {
         self.ensure_initialized()?;
         let request = Request::Client(Box::new(ClientRequest::Ping));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -331,7 +335,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("logging", "logging/setLevel")?;
 
         let request = Request::Client(Box::new(ClientRequest::SetLoggingLevel { level }));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -378,7 +382,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListTools(ListToolsRequest {
             cursor,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -460,7 +464,7 @@ impl<T: Transport> Client<T> {
             name,
             arguments,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -526,7 +530,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListPrompts(ListPromptsRequest {
             cursor,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -607,7 +611,7 @@ impl<T: Transport> Client<T> {
             name,
             arguments,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -667,7 +671,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListResources(
             ListResourcesRequest { cursor },
         )));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -727,7 +731,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListResourceTemplates(
             ListResourceTemplatesRequest { cursor },
         )));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -791,7 +795,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ReadResource(ReadResourceRequest {
             uri,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -857,7 +861,7 @@ impl<T: Transport> Client<T> {
         }
 
         let request = Request::Client(Box::new(ClientRequest::Subscribe(SubscribeRequest { uri })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -910,7 +914,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::Unsubscribe(UnsubscribeRequest {
             uri,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -971,7 +975,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("completions", "completion/complete")?;
 
         let request = Request::Client(Box::new(ClientRequest::Complete(params)));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -1052,7 +1056,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("sampling", "sampling/createMessage")?;
 
         let request = Request::Client(Box::new(ClientRequest::CreateMessage(params)));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -1313,6 +1317,11 @@ impl<T: Transport> Client<T> {
     }
 
     /// Send a request and wait for response.
+    /// A request ID not used on this connection before.
+    fn next_request_id(&self) -> RequestId {
+        RequestId::Number(self.next_id.fetch_add(1, Ordering::Relaxed))
+    }
+
     async fn send_request(
         &self,
         request_id: RequestId,
@@ -1331,20 +1340,40 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
-
-        // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
+        let result = self.exchange(&request_id, message).await;
 
         // Remove from active requests
         self.active_requests.write().await.remove(&request_id);
 
-        match response_message {
-            crate::types::TransportMessage::Response(response) => Ok(response),
-            _ => Err(Error::protocol_msg(
-                "Expected response, got different message type",
-            )),
+        result
+    }
+
+    /// Send a request and wait for the response with its ID.
+    async fn exchange(
+        &self,
+        request_id: &RequestId,
+        message: crate::types::TransportMessage,
+    ) -> Result<crate::types::JSONRPCResponse> {
+        // No other request may take our response from the transport
+        let mut transport = self.transport.write().await;
+        transport.send(message).await?;
+
+        loop {
+            match transport.receive().await? {
+                crate::types::TransportMessage::Response(response)
+                    if response.id == *request_id =>
+                {
+                    return Ok(response);
+                },
+                // A response to a request that was given up, or a notification
+                crate::types::TransportMessage::Response(_)
+                | crate::types::TransportMessage::Notification(_) => {},
+                crate::types::TransportMessage::Request { .. } => {
+                    return Err(Error::protocol_msg(
+                        "Expected response, got different message type",
+                    ));
+                },
+            }
         }
     }
 
@@ -1449,6 +1478,7 @@ impl<T: Transport> Clone for Client<T> {
             info: self.info.clone(),
             notification_tx: self.notification_tx.clone(),
             active_requests: self.active_requests.clone(),
+            next_id: self.next_id.clone(),
         }
     }
 }
-- 
2.43.0


From f3e934586a934099dcb0b0806f4fb1227f791f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 42/79] fix: a circuit breaker let calls through although it
 had just failed again

Each method read the state, let go of it and wrote it later: a call that saw
the timeout pass could set the breaker half-open after another one had tried,
failed and opened it again (or closed it).
---
 src/error/recovery.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..7de6a30 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -334,16 +334,17 @@ impl CircuitBreaker {
     /// # }
     /// ```
     pub async fn allow_request(&self) -> bool {
-        let state = *self.state.read().await;
+        // Held throughout, so that a transition is decided and made in one step
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => true,
             CircuitState::Open => {
                 // Check if we should transition to half-open
                 let last_failure_opt = *self.last_failure_time.read().await;
                 if let Some(last_failure) = last_failure_opt {
                     if last_failure.elapsed() >= self.config.timeout {
-                        *self.state.write().await = CircuitState::HalfOpen;
+                        *state = CircuitState::HalfOpen;
                         *self.success_count.write().await = 0;
                         info!("Circuit breaker transitioning to half-open");
                         true
@@ -360,9 +361,9 @@ impl CircuitBreaker {
 
     /// Record a success.
     pub async fn record_success(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 *self.failure_count.write().await = 0;
             },
@@ -371,14 +372,14 @@ impl CircuitBreaker {
                 *success_count += 1;
 
                 if *success_count >= self.config.success_threshold {
-                    *self.state.write().await = CircuitState::Closed;
+                    *state = CircuitState::Closed;
                     *self.failure_count.write().await = 0;
                     info!("Circuit breaker closed after successful recovery");
                 }
             },
             CircuitState::Open => {
                 // Shouldn't happen, but reset anyway
-                *self.state.write().await = CircuitState::Closed;
+                *state = CircuitState::Closed;
                 *self.failure_count.write().await = 0;
             },
         }
@@ -386,21 +387,21 @@ impl CircuitBreaker {
 
     /// Record a failure.
     pub async fn record_failure(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 let mut failure_count = self.failure_count.write().await;
                 *failure_count += 1;
 
                 if *failure_count >= self.config.failure_threshold {
-                    *self.state.write().await = CircuitState::Open;
+                    *state = CircuitState::Open;
                     *self.last_failure_time.write().await = Some(std::time::Instant::now());
                     warn!("Circuit breaker opened after {} failures", failure_count);
                 }
             },
             CircuitState::HalfOpen => {
-                *self.state.write().await = CircuitState::Open;
+                *state = CircuitState::Open;
                 *self.last_failure_time.write().await = Some(std::time::Instant::now());
                 *self.failure_count.write().await = 1;
                 warn!("Circuit breaker reopened after failure in half-open state");
-- 
2.43.0


From 9ebfa99d6dae56e59eb1c14670c96b21c7339fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:37 +0000
Subject: [PATCH 43/79] fix: an operation ran although its circuit breaker was
 open

The executor ran the operation before it asked the breaker, ran it a second
time when it failed, and counted only that second run.
---
 src/error/recovery.rs | 54 +++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 7de6a30..05322c0 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -465,10 +465,28 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
+        if let Some(cb) = &breaker {
+            if !cb.allow_request().await {
+                if self.policy.log_attempts {
+                    warn!("Circuit breaker open for operation: {}", operation_id);
+                }
+                return Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    "Circuit breaker is open",
+                ));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
-                if let Some(cb) = self.circuit_breakers.read().await.get(operation_id) {
+                if let Some(cb) = breaker {
                     cb.record_success().await;
                 }
                 Ok(result)
@@ -511,7 +529,6 @@ impl RecoveryExecutor {
                             *failure_threshold,
                             *success_threshold,
                             *timeout,
-                            operation,
                         )
                         .await
                     },
@@ -624,19 +641,14 @@ impl RecoveryExecutor {
         }
     }
 
-    async fn circuit_breaker<F, Fut>(
+    async fn circuit_breaker(
         &self,
-        _error: Error,
+        error: Error,
         operation_id: &str,
         failure_threshold: u32,
         success_threshold: u32,
         timeout: Duration,
-        operation: F,
-    ) -> Result<serde_json::Value>
-    where
-        F: Fn() -> Fut,
-        Fut: Future<Output = Result<serde_json::Value>>,
-    {
+    ) -> Result<serde_json::Value> {
         // Get or create circuit breaker
         let cb = {
             let mut breakers = self.circuit_breakers.write().await;
@@ -652,26 +664,8 @@ impl RecoveryExecutor {
                 .clone()
         };
 
-        if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
-        }
-
-        match operation().await {
-            Ok(result) => {
-                cb.record_success().await;
-                Ok(result)
-            },
-            Err(e) => {
-                cb.record_failure().await;
-                Err(e)
-            },
-        }
+        cb.record_failure().await;
+        Err(error)
     }
 }
 
-- 
2.43.0


From a76c64beb09309adeb82107c5d35c98210b42f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:37 +0000
Subject: [PATCH 44/79] fix: exponential retrying panicked on a multiplier it
 cannot use

A negative multiplier, or one that takes the wait past what a Duration holds
with no lower maximum, panicked in Duration::from_secs_f64; and the first wait
was not held to the maximum.
---
 src/error/recovery.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 05322c0..1edfeb9 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -589,7 +589,7 @@ impl RecoveryExecutor {
         Fut: Future<Output = Result<serde_json::Value>>,
     {
         let mut last_error = error;
-        let mut current_delay = initial_delay;
+        let mut current_delay = initial_delay.min(max_delay);
 
         for attempt in 1..=attempts {
             if self.policy.log_attempts {
@@ -613,9 +613,9 @@ impl RecoveryExecutor {
                     }
 
                     // Calculate next delay
-                    let next_delay = Duration::from_secs_f64(
-                        (current_delay.as_secs_f64() * multiplier).min(max_delay.as_secs_f64()),
-                    );
+                    let next_delay =
+                        Duration::try_from_secs_f64(current_delay.as_secs_f64() * multiplier)
+                            .map_or(max_delay, |delay| delay.min(max_delay));
                     current_delay = next_delay;
                 },
             }
-- 
2.43.0


From c826220ad068d3f9041d80eaf1d0a481b9bd5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:08 +0000
Subject: [PATCH 45/79] fix: listeners were told that earlier run-time changes
 of the capabilities were gone

Each announcement started from the capabilities the server was built with, so
adding a prompt withdrew the tools announced before, and removing a handler
withdrew one the server itself has.
---
 src/server/dynamic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server/dynamic.rs b/src/server/dynamic.rs
index 8a7e56c..7a1f747 100644
--- a/src/server/dynamic.rs
+++ b/src/server/dynamic.rs
@@ -55,6 +55,9 @@ pub struct DynamicServerManager {
     /// Dynamic sampling handler
     dynamic_sampling: Arc<RwLock<Option<Arc<dyn SamplingHandler>>>>,
 
+    /// Capabilities of the server with all changes made so far
+    capabilities: Arc<RwLock<ServerCapabilities>>,
+
     /// Capability update callbacks
     #[allow(dead_code)]
     capability_listeners: Arc<RwLock<Vec<CapabilityListener>>>,
@@ -82,8 +85,10 @@ impl DynamicServerManager {
     /// # }
     /// ```
     pub fn new(server: Arc<Server>) -> Self {
+        let capabilities = Arc::new(RwLock::new(server.capabilities.clone()));
         Self {
             server,
+            capabilities,
             dynamic_tools: Arc::new(RwLock::new(HashMap::new())),
             dynamic_prompts: Arc::new(RwLock::new(HashMap::new())),
             dynamic_resources: Arc::new(RwLock::new(None)),
@@ -216,7 +221,8 @@ impl DynamicServerManager {
 
         // Update server capabilities
         self.update_capabilities(|caps| {
-            caps.resources = None;
+            caps.resources
+                .clone_from(&self.server.capabilities.resources);
         })
         .await;
 
@@ -246,7 +252,7 @@ impl DynamicServerManager {
 
         // Update server capabilities
         self.update_capabilities(|caps| {
-            caps.sampling = None;
+            caps.sampling.clone_from(&self.server.capabilities.sampling);
         })
         .await;
 
@@ -319,7 +325,7 @@ impl DynamicServerManager {
     {
         // Note: In a real implementation, we'd need to update the actual
         // server capabilities and send notifications to connected clients
-        let mut caps = self.server.capabilities.clone();
+        let mut caps = self.capabilities.write().await;
         updater(&mut caps);
 
         // Notify listeners
-- 
2.43.0


From 742c61eadff630799fbd147c3d83e78c23a358ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 46/79] hook: the resource watcher's pattern test and event
 processor under cfg(pmcp_vp)

---
 src/server/resource_watcher.rs | 46 ++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..1d67f28 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -388,6 +388,52 @@ impl ResourceWatcher {
     }
 }
 
+/// Verification hooks: the pattern test and the event processor without a file system.
+#[cfg(pmcp_vp)]
+#[allow(missing_docs)]
+impl ResourceWatcher {
+    #[cfg(feature = "resource-watcher")]
+    pub fn vp_matches(path: &Path, base: &Path, patterns: &[String], ignore: &[String]) -> bool {
+        Self::matches_patterns(path, base, patterns, ignore)
+    }
+
+    pub async fn vp_start(&self) -> VpEvents {
+        let (tx, rx) = mpsc::channel(1000);
+        *self.event_rx.write().await = Some(rx);
+        tokio::spawn(process_events(
+            self.resources.clone(),
+            self.pending_events.clone(),
+            self.notification_tx.clone(),
+            self.config.debounce,
+            self.event_rx.clone(),
+        ));
+        VpEvents(tx)
+    }
+}
+
+/// Verification hook: what the file system watcher feeds.
+#[cfg(pmcp_vp)]
+#[derive(Debug)]
+pub struct VpEvents(mpsc::Sender<FileEvent>);
+
+#[cfg(pmcp_vp)]
+#[allow(missing_docs)]
+impl VpEvents {
+    pub async fn changed(&self, path: &str, kind: usize) {
+        let kind = [
+            FileEventKind::Created,
+            FileEventKind::Modified,
+            FileEventKind::Deleted,
+        ][kind];
+        let event = FileEvent {
+            path: PathBuf::from(path),
+            timestamp: Instant::now(),
+            kind,
+        };
+        let _ = self.0.send(event).await;
+    }
+}
+
 /// Builder for creating a resource watcher.
 #[derive(Debug)]
 pub struct ResourceWatcherBuilder {
-- 
2.43.0


From 1be93ab8939b5541a6622ec47899e9a4536c293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 47/79] fix: a match in the last byte of a 32-byte block never
 ended the search

The mask was shifted as a signed number, so with its top bit set it stayed -1
for ever: find_whitespace_simd and find_escapes_simd (and with them parsing and
pretty printing) filled the memory, find_pattern_simd hung.
---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..56fc0de 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -63,7 +63,7 @@ pub mod json {
             let mask = _mm256_movemask_epi8(ws_mask);
 
             // Find positions of set bits
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -275,7 +275,7 @@ pub mod json {
 
             let mask = _mm256_movemask_epi8(escape_mask);
 
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -467,7 +467,7 @@ pub mod compression {
 
             if mask != 0 {
                 // Found potential matches, check each one
-                let mut m = mask;
+                let mut m = mask as u32;
                 let mut bit_pos = 0;
                 while m != 0 {
                     if m & 1 != 0 {
-- 
2.43.0


From 0b54b202b9f902ffb3a1588140ed03adcdda6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 48/79] fix: UTF-8 was judged wrongly wherever a character
 crossed a 32-byte block

A character on a block's edge made the text invalid (so that serialising it
failed), a block without any ASCII was taken as valid whatever it held, and
overlong forms, surrogates and code points above U+10FFFF were accepted.
---
 src/simd/mod.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 56fc0de..ffc87e0 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -114,7 +114,8 @@ pub mod json {
     /// Validates a 2-byte UTF-8 sequence
     #[inline]
     fn validate_2byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 1 < len && is_valid_continuation_byte(input[start + 1])
+        // C0 and C1 would encode what one byte does
+        start + 1 < len && input[start] >= 0xC2 && is_valid_continuation_byte(input[start + 1])
     }
 
     /// Validates a 3-byte UTF-8 sequence  
@@ -123,6 +124,11 @@ pub mod json {
         start + 2 < len
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
+            && match input[start] {
+                0xE0 => input[start + 1] >= 0xA0, // overlong
+                0xED => input[start + 1] < 0xA0,  // surrogates
+                _ => true,
+            }
     }
 
     /// Validates a 4-byte UTF-8 sequence
@@ -132,20 +138,25 @@ pub mod json {
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
             && is_valid_continuation_byte(input[start + 3])
+            && match input[start] {
+                0xF0 => input[start + 1] >= 0x90, // overlong
+                0xF4 => input[start + 1] < 0x90,  // above U+10FFFF
+                first => first < 0xF4,
+            }
     }
 
     /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
+    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> Option<usize> {
         let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
 
-        // Check for ASCII bytes (< 0x80) - fast path
-        let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
+        // Check for non-ASCII bytes (>= 0x80) - fast path
+        let non_ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
+        let non_ascii = _mm256_movemask_epi8(non_ascii_mask);
 
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
+        if non_ascii == 0 {
+            return Some(offset + 32); // All bytes are ASCII
         }
 
         // Fall back to scalar validation for non-ASCII bytes
@@ -153,7 +164,8 @@ pub mod json {
     }
 
     /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
+    /// Where the first character after the chunk begins, if the chunk is valid
+    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> Option<usize> {
         let len = input.len();
         let end = std::cmp::min(start + chunk_size, len);
 
@@ -167,14 +179,14 @@ pub mod json {
 
             // Multi-byte sequence - validate and advance
             if !validate_multibyte_sequence(input, i, byte) {
-                return false;
+                return None;
             }
 
             // Advance by the correct number of bytes for this sequence
             i += get_utf8_sequence_length(byte);
         }
 
-        true
+        Some(i)
     }
 
     /// Gets the length of a UTF-8 sequence from its first byte
@@ -219,10 +231,10 @@ pub mod json {
 
         // Process 32 bytes at a time with SIMD
         while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
+            match process_simd_chunk(input, i) {
+                Some(next) => i = next,
+                None => return false,
             }
-            i += 32;
         }
 
         // Process remaining bytes with scalar validation
-- 
2.43.0


From 263a3a8528b0e834afd5433604feba0b81f5278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 49/79] fix: a length equal to the maximum was refused, and one
 above 2^31 accepted

batch_validate_lengths compared blocks of eight as signed numbers and strictly.
---
 src/simd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index ffc87e0..e71f0cd 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -521,7 +521,8 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            // Unsigned comparison: data <= max_length
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(data, max_vec), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From 6a0ef704517a5b585b8977833dffcc37f8a426b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 50/79] fix: fast JSON parsing read "1 2" as 12

Whitespace was taken out before parsing, also between tokens that only it
separates.
---
 src/utils/json_simd.rs | 42 +-----------------------------------------
 1 file changed, 1 insertion(+), 41 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..c9a2d65 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -21,47 +21,7 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
             }
         }
 
-        // Use optimized whitespace skipping
-        let ws_positions = unsafe { crate::simd::json::find_whitespace_simd(input) };
-
-        // If there's minimal whitespace, parse directly
-        if ws_positions.len() < input.len() / 10 {
-            serde_json::from_slice(input)
-        } else {
-            // Strip unnecessary whitespace first
-            let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
-            let mut in_string = false;
-            let mut escape_next = false;
-
-            for (i, &byte) in input.iter().enumerate() {
-                if escape_next {
-                    escape_next = false;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'\\' && in_string {
-                    escape_next = true;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'"' && !escape_next {
-                    in_string = !in_string;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
-                    continue;
-                }
-
-                cleaned.push(byte);
-            }
-
-            serde_json::from_slice(&cleaned)
-        }
+        serde_json::from_slice(input)
     } else {
         // Fallback to standard parsing
         serde_json::from_slice(input)
-- 
2.43.0


From 135325ab5cfad72a65260711ce0244b458da0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:44 +0000
Subject: [PATCH 51/79] fix: pretty printing garbled every character that is
 not ASCII

Bytes of the text were pushed as if they were characters. Empty objects and
arrays were spread over two lines, unlike what serde_json prints.
---
 src/utils/json_simd.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index c9a2d65..6b86ce7 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -80,7 +80,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -88,7 +88,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -102,39 +102,48 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
 
                 if !in_string {
                     match byte {
+                        // An empty object or array stays on one line
+                        b'{' | b'[' if matches!(compact.get(i + 1), Some(b'}' | b']')) => {
+                            result.push(byte);
+                        },
+                        b'}' | b']' if matches!(compact[i - 1], b'{' | b'[') => {
+                            result.push(byte);
+                        },
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            return String::from_utf8(result).map_err(|e| {
+                JsonError::io(std::io::Error::new(std::io::ErrorKind::InvalidData, e))
+            });
         }
     }
 
-- 
2.43.0


From 8d778e0230a291abbac00c3bd9ab9fc4b2f7639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:21 +0000
Subject: [PATCH 52/79] fix: looking up a session brought back one removed
 meanwhile, or undid an update

get_session copied the session, let go of it and stored the copy again. A
session another thread destroyed in between came back to life, and what another
thread changed in between (authentication, data) was lost.
---
 src/shared/session.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 9d1f934..eeb59ec 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,10 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
-
+        self.sessions.get_mut(session_id).map(|mut session| {
             // Update last activity
             session.last_activity = Utc::now();
-
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+            session.clone()
         })
     }
 
-- 
2.43.0


From 57c48216f652b27bf65fe793b1bab8dc1566e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:21 +0000
Subject: [PATCH 53/79] fix: a session renewed while it was found to be expired
 was removed all the same

Validation and clean-up looked at the expiry and removed the session in two
steps.
---
 src/shared/session.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index eeb59ec..183a835 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -181,20 +181,26 @@ impl SessionManager {
 
     /// Validate and refresh a session.
     pub fn validate_session(&self, session_id: &str) -> Result<Session> {
-        let session = self
-            .get_session(session_id)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid session ID"))?;
+        // Check if expired, and remove it in the same step: it may be renewed at any time
+        let now = Utc::now();
+        if let Some((_, session)) = self
+            .sessions
+            .remove_if(session_id, |_, session| session.expires_at < now)
+        {
+            // Call destruction callback
+            if let Some(callback) = &self.callbacks.on_destroy {
+                callback(&session);
+            }
 
-        // Check if expired
-        if session.expires_at < Utc::now() {
-            self.destroy_session(session_id)?;
+            info!("Destroyed session: {}", session_id);
             return Err(Error::protocol(
                 ErrorCode::INVALID_REQUEST,
                 "Session expired",
             ));
         }
 
-        Ok(session)
+        self.get_session(session_id)
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid session ID"))
     }
 
     /// Update session data.
@@ -252,7 +258,11 @@ impl SessionManager {
             .collect();
 
         for session_id in expired {
-            if let Some((_, session)) = self.sessions.remove(&session_id) {
+            // It may have been renewed meanwhile
+            let removed = self
+                .sessions
+                .remove_if(&session_id, |_, session| session.expires_at < now);
+            if let Some((_, session)) = removed {
                 // Call expiry callback
                 if let Some(callback) = &self.callbacks.on_expire {
                     callback(&session);
-- 
2.43.0


From af639cc21a3b3148f5b069c7ec7ef05cd5e9a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:21 +0000
Subject: [PATCH 54/79] fix: sessions created at the same time exceeded the
 session limit

The limit was checked and the session stored in two steps.
---
 src/shared/session.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 183a835..a29d50f 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -89,6 +89,9 @@ pub struct SessionManager {
 
     /// Session event callbacks.
     callbacks: Arc<SessionCallbacks>,
+
+    /// Held while a session is created, so that the limit holds.
+    creating: parking_lot::Mutex<()>,
 }
 
 impl std::fmt::Debug for SessionManager {
@@ -134,12 +137,14 @@ impl SessionManager {
             sessions: Arc::new(DashMap::new()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
+            creating: parking_lot::Mutex::new(()),
         }
     }
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
         // Check session limit
+        let creating = self.creating.lock();
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
                 ErrorCode::INTERNAL_ERROR,
@@ -160,6 +165,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(creating);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From 8d4e9b85088bc2b8662dd3429e1c17a4a54a700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:29 +0000
Subject: [PATCH 55/79] fix: messages recorded at the same time were stored out
 of the order of their numbers

A message's sequence number was taken in one step and the message stored in
another. The event stored last, which tokens refer to, could then have a lower
number than one before it, and resuming handed out the same number twice.
---
 src/shared/event_store.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index 7b6f276..5b49052 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -230,7 +230,7 @@ impl EventStore for InMemoryEventStore {
 pub struct ResumptionManager {
     event_store: Arc<dyn EventStore>,
     session_id: String,
-    sequence_counter: Arc<RwLock<u64>>,
+    sequence_counter: Arc<tokio::sync::Mutex<u64>>,
 }
 
 impl std::fmt::Debug for ResumptionManager {
@@ -248,18 +248,16 @@ impl ResumptionManager {
         Self {
             event_store,
             session_id,
-            sequence_counter: Arc::new(RwLock::new(0)),
+            sequence_counter: Arc::new(tokio::sync::Mutex::new(0)),
         }
     }
 
     /// Record an outbound message.
     pub async fn record_outbound(&self, message: TransportMessage) -> Result<()> {
-        let sequence = {
-            let mut counter = self.sequence_counter.write();
-            let seq = *counter;
-            *counter += 1;
-            seq
-        };
+        // Held until the event is stored, so that the events are in the order of their numbers
+        let mut counter = self.sequence_counter.lock().await;
+        let sequence = *counter;
+        *counter += 1;
 
         let event = StoredEvent {
             id: Uuid::new_v4().to_string(),
@@ -275,12 +273,10 @@ impl ResumptionManager {
 
     /// Record an inbound message.
     pub async fn record_inbound(&self, message: TransportMessage) -> Result<()> {
-        let sequence = {
-            let mut counter = self.sequence_counter.write();
-            let seq = *counter;
-            *counter += 1;
-            seq
-        };
+        // Held until the event is stored, so that the events are in the order of their numbers
+        let mut counter = self.sequence_counter.lock().await;
+        let sequence = *counter;
+        *counter += 1;
 
         let event = StoredEvent {
             id: Uuid::new_v4().to_string(),
@@ -308,7 +304,8 @@ impl ResumptionManager {
             .ok_or_else(|| Error::Internal("Invalid or expired resumption token".into()))?;
 
         // Update sequence counter
-        *self.sequence_counter.write() = state.next_sequence;
+        let mut counter = self.sequence_counter.lock().await;
+        *counter = state.next_sequence;
 
         // Get events since the last acknowledged event
         let events = self
-- 
2.43.0


From 44cded12dd8b540343c0a55368448e97cc7e7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:31 +0000
Subject: [PATCH 56/79] fix: replaying HTTP events could deadlock with storing
 one

replay_events_after held the order of events and waited for the events,
store_event held the events and waited for their order.
---
 src/server/streamable_http_server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 625cab1..be63d55 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -91,6 +91,9 @@ impl EventStore for InMemoryEventStore {
         &self,
         last_event_id: &str,
     ) -> Result<Vec<(String, TransportMessage)>> {
+        // The locks are taken in the order in which storing an event takes them
+        let events = self.events.read();
+        let event_to_stream = self.event_to_stream.read();
         let event_order = self.event_order.read();
         let mut result = Vec::new();
 
@@ -102,8 +105,6 @@ impl EventStore for InMemoryEventStore {
             .ok_or_else(|| Error::not_found(format!("event {}", last_event_id)))?;
 
         // Collect all events of its stream after that position
-        let events = self.events.read();
-        let event_to_stream = self.event_to_stream.read();
         let last_stream = event_to_stream.get(last_event_id);
 
         for i in start_pos..event_order.len() {
-- 
2.43.0


From 11fdcba47a3a7c5c195ae28851fc544472620d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:34 +0000
Subject: [PATCH 57/79] fix: a session terminated twice at once was closed
 twice, and could keep an event stream

DELETE looked the session up and removed it in two steps. An event stream
opened between its two removals, or between the check and the opening, stayed
open without a session.
---
 src/server/streamable_http_server.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index be63d55..d83c79a 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -775,6 +775,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
                 "SSE stream already exists for this session",
             );
         }
+
+        // The session may have been terminated meanwhile (which then removes its stream)
+        if state.config.session_id_generator.is_some()
+            && !state.sessions.read().contains_key(&session_id)
+        {
+            return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
+        }
         streams.insert(session_id.clone(), tx);
     }
 
@@ -842,8 +849,8 @@ async fn handle_delete_session(
         .map(|s| s.to_string());
 
     if let Some(sid) = session_id {
-        // Check if session exists
-        let session_exists = state.sessions.read().contains_key(&sid);
+        // Remove session from tracking, if it exists
+        let session_exists = state.sessions.write().remove(&sid).is_some();
 
         if !session_exists && state.config.session_id_generator.is_some() {
             // Unknown session in stateful mode
@@ -853,9 +860,6 @@ async fn handle_delete_session(
         // Remove SSE stream if exists
         state.sse_streams.write().remove(&sid);
 
-        // Remove session from tracking
-        state.sessions.write().remove(&sid);
-
         // Notify callback
         if let Some(callback) = &state.config.on_session_closed {
             callback(&sid);
-- 
2.43.0


From 52ba145bdacfad16febf215f56806d2841e389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:10 +0000
Subject: [PATCH 58/79] fix: batches could overtake one another, and a sender
 giving up lost its batch

MessageBatcher took the pending messages and let go of them before sending:
a later batch of another sender (or of the timer) could go out first. An add
that was dropped while the output queue was full lost the messages of everyone
in the batch.
---
 src/utils/batching.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 7c0cc0a..087d78e 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -112,17 +112,19 @@ impl MessageBatcher {
     /// ```
     pub async fn add(&self, notification: Notification) -> Result<()> {
         let mut pending = self.pending.lock().await;
-        pending.push(notification);
-
-        if pending.len() >= self.config.max_batch_size {
-            let batch = std::mem::take(&mut *pending);
-            drop(pending);
-            self.tx
-                .send(batch)
-                .await
-                .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;
+
+        if pending.len() + 1 >= self.config.max_batch_size {
+            // Hold on to the pending messages until there is room for the batch,
+            // so that batches go out in the order they were filled and a sender
+            // that gives up meanwhile takes nothing with it
+            let permit =
+                self.tx.reserve().await.map_err(|_| {
+                    crate::error::Error::Internal("Failed to send batch".to_string())
+                })?;
+            pending.push(notification);
+            permit.send(std::mem::take(&mut *pending));
         } else {
-            drop(pending);
+            pending.push(notification);
         }
 
         Ok(())
@@ -167,11 +169,10 @@ impl MessageBatcher {
 
                 let mut pending_guard = pending.lock().await;
                 if !pending_guard.is_empty() {
-                    let batch = std::mem::take(&mut *pending_guard);
-                    drop(pending_guard);
-                    if tx.send(batch).await.is_err() {
+                    let Ok(permit) = tx.reserve().await else {
                         break;
-                    }
+                    };
+                    permit.send(std::mem::take(&mut *pending_guard));
                 }
             }
         });
-- 
2.43.0


From b7b635d9468ef77fad266a3d0627968f16853df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:20 +0000
Subject: [PATCH 59/79] fix: a debounced notification could be delivered after
 a newer one

The flush task and flush() took the pending notifications and then sent them,
so two at once could interleave and the last notification delivered was not the
last one submitted.
---
 src/server/notification_debouncer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 3b55d7b..ee100e3 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -9,7 +9,7 @@ use crate::types::protocol::ServerNotification;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tokio::time::{interval, sleep, Instant};
 use tracing::{debug, trace, warn};
 
@@ -59,6 +59,10 @@ pub struct NotificationDebouncer {
     pending: Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: mpsc::Sender<ServerNotification>,
     shutdown_tx: Option<mpsc::Sender<()>>,
+
+    /// Held from taking pending notifications until they are sent, so that later
+    /// ones do not overtake them
+    sending: Arc<Mutex<()>>,
 }
 
 /// Pending notification with metadata
@@ -91,6 +95,7 @@ impl NotificationDebouncer {
             pending: Arc::new(RwLock::new(HashMap::new())),
             output_tx,
             shutdown_tx: None,
+            sending: Arc::new(Mutex::new(())),
         }
     }
 
@@ -102,6 +107,7 @@ impl NotificationDebouncer {
         let pending = self.pending.clone();
         let output_tx = self.output_tx.clone();
         let config = self.config.clone();
+        let sending = self.sending.clone();
 
         // Spawn the flush task
         tokio::spawn(async move {
@@ -114,12 +120,14 @@ impl NotificationDebouncer {
                         break;
                     }
                     _ = interval.tick() => {
+                        let _sending = sending.lock().await;
                         flush_pending(&pending, &output_tx, &config).await;
                     }
                 }
             }
 
             // Final flush on shutdown
+            let _sending = sending.lock().await;
             flush_all(&pending, &output_tx).await;
         });
 
@@ -180,6 +188,7 @@ impl NotificationDebouncer {
 
     /// Force flush all pending notifications
     pub async fn flush(&self) -> Result<()> {
+        let _sending = self.sending.lock().await;
         flush_all(&self.pending, &self.output_tx).await;
         Ok(())
     }
-- 
2.43.0


From d455ed9ba09ba4b5762fcefd0d6d9c5f453263bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:20 +0000
Subject: [PATCH 60/79] fix: a full batch of notifications could be overtaken
 by a later one

NotificationBatcher::add let go of the batches before sending the full one, so
what another thread added and flushed meanwhile came out first.
---
 src/server/notification_debouncer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index ee100e3..7681755 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -386,9 +386,8 @@ impl NotificationBatcher {
         // Check if batch is full
         if batch.len() >= self.max_batch_size {
             let full_batch = std::mem::take(batch);
-            drop(batches);
 
-            // Send the batch
+            // Send the batch before anyone can start the next one
             let _ = self.output_tx.send(full_batch).await;
         } else {
             // Schedule timeout for this batch
-- 
2.43.0


From 35cf158ded678c253565e47f349943c32fa1e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:39 +0000
Subject: [PATCH 61/79] fix: a debounced message could be emitted before its
 quiet period was over

add() let go of the timers between cancelling the old one and storing its own,
and a timer that had fired forgot whichever timer was stored for its key. Either
way a timer could be left running that a later message did not cancel.
---
 src/utils/batching.rs | 47 ++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 087d78e..e65de29 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::{mpsc, Mutex};
+use tokio::task::JoinHandle;
 use tokio::time::{interval, sleep};
 use tracing::{debug, trace};
 
@@ -237,7 +238,7 @@ impl Default for DebouncingConfig {
 pub struct MessageDebouncer {
     config: DebouncingConfig,
     pending: Arc<Mutex<HashMap<String, Notification>>>,
-    timers: Arc<Mutex<HashMap<String, tokio::task::JoinHandle<()>>>>,
+    timers: Arc<Mutex<HashMap<String, JoinHandle<()>>>>,
     tx: mpsc::Sender<Notification>,
     rx: Arc<Mutex<mpsc::Receiver<Notification>>>,
 }
@@ -334,18 +335,15 @@ impl MessageDebouncer {
             .copied()
             .unwrap_or(self.config.wait_time);
 
+        // Held until the new timer is in place, so that each key has one timer at a time
+        let mut running = self.timers.lock().await;
+
         // Store the latest notification
-        {
-            let mut pending = self.pending.lock().await;
-            pending.insert(key.clone(), notification);
-        }
+        self.pending.lock().await.insert(key.clone(), notification);
 
         // Cancel existing timer
-        {
-            let mut timers = self.timers.lock().await;
-            if let Some(handle) = timers.remove(&key) {
-                handle.abort();
-            }
+        if let Some(handle) = running.remove(&key) {
+            handle.abort();
         }
 
         // Start new timer
@@ -362,27 +360,24 @@ impl MessageDebouncer {
                 return;
             };
 
+            // Another timer may have taken over meanwhile: the notification is its to send
+            let mut timers = timers.lock().await;
+            if timers.get(&key_clone).map(JoinHandle::id) != tokio::task::try_id() {
+                return;
+            }
+            timers.remove(&key_clone);
+
             // Send the notification
-            let notification = {
-                let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
-            };
+            let notification = pending.lock().await.remove(&key_clone);
 
             if let Some(notification) = notification {
                 debug!("Sending debounced notification: {}", key_clone);
                 permit.send(notification);
             }
-
-            // Remove timer handle
-            let mut timers = timers.lock().await;
-            timers.remove(&key_clone);
         });
 
         // Store timer handle
-        {
-            let mut timers = self.timers.lock().await;
-            timers.insert(key, handle);
-        }
+        running.insert(key, handle);
 
         Ok(())
     }
@@ -455,11 +450,9 @@ impl MessageDebouncer {
     /// ```
     pub async fn flush(&self) -> Vec<Notification> {
         // Cancel all timers
-        {
-            let mut timers = self.timers.lock().await;
-            for (_, handle) in timers.drain() {
-                handle.abort();
-            }
+        let mut timers = self.timers.lock().await;
+        for (_, handle) in timers.drain() {
+            handle.abort();
         }
 
         // Get all pending notifications
-- 
2.43.0


From e1b9ae470660c0e794c95f66aeb27b60629fd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:51 +0000
Subject: [PATCH 62/79] hook: stand-in for the HTTP client under cfg(pmcp_vp)

---
 src/client/auth.rs            |   2 +
 src/lib.rs                    |   3 +
 src/shared/streamable_http.rs |   2 +
 src/vp_http.rs                | 193 ++++++++++++++++++++++++++++++++++
 4 files changed, 200 insertions(+)
 create mode 100644 src/vp_http.rs

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..bc0e953 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -5,6 +5,8 @@
 
 use crate::error::{Error, ErrorCode, Result};
 use crate::server::auth::oauth2::OidcDiscoveryMetadata;
+#[cfg(pmcp_vp)]
+use crate::vp_http as reqwest;
 use serde::{Deserialize, Serialize};
 use std::time::Duration;
 
diff --git a/src/lib.rs b/src/lib.rs
index 6a38a4b..22eab38 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,6 +81,9 @@ pub mod server;
 pub mod shared;
 pub mod types;
 pub mod utils;
+#[cfg(pmcp_vp)]
+#[doc(hidden)]
+pub mod vp_http;
 
 #[cfg(feature = "simd")]
 pub mod simd;
diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..bc05e7a 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -5,6 +5,8 @@ use crate::shared::http_constants::{
 };
 use crate::shared::sse_parser::SseParser;
 use crate::shared::{Transport, TransportMessage};
+#[cfg(pmcp_vp)]
+use crate::vp_http as reqwest;
 use async_trait::async_trait;
 use parking_lot::RwLock;
 use reqwest::{Client, RequestBuilder, Response};
diff --git a/src/vp_http.rs b/src/vp_http.rs
new file mode 100644
index 0000000..1f87775
--- /dev/null
+++ b/src/vp_http.rs
@@ -0,0 +1,193 @@
+//! Stand-in for the HTTP client, compiled only for verification (`cfg(pmcp_vp)`): requests go to a
+//! function installed by the harness, which gives the answer and feeds its body piece by piece.
+
+use futures::future::BoxFuture;
+use parking_lot::Mutex;
+use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
+pub use reqwest::{Method, StatusCode};
+use tokio::sync::mpsc::UnboundedReceiver;
+use url::Url;
+
+/// A request as it would go out.
+#[derive(Debug, Clone)]
+pub struct Seen {
+    /// HTTP method.
+    pub method: Method,
+    /// Address.
+    pub url: String,
+    /// Headers in order.
+    pub headers: HeaderMap,
+    /// Body.
+    pub body: Vec<u8>,
+}
+
+/// An answer; its body is what the channel gives, until it is closed (`Err` is a lost connection).
+#[derive(Debug)]
+pub struct Reply {
+    /// HTTP status.
+    pub status: u16,
+    /// Headers.
+    pub headers: HeaderMap,
+    /// Body.
+    pub body: UnboundedReceiver<Result<Vec<u8>, ()>>,
+}
+
+/// What answers requests (`None`: the server cannot be reached).
+pub type Handler = Box<dyn FnMut(Seen) -> BoxFuture<'static, Option<Reply>> + Send>;
+
+/// The installed handler.
+pub static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);
+
+/// An error with the text the real client gives.
+#[derive(Debug)]
+pub struct Error(String, bool);
+
+impl std::fmt::Display for Error {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str(&self.0)
+    }
+}
+
+impl std::error::Error for Error {}
+
+impl Error {
+    /// Whether the request could not be built.
+    pub fn is_builder(&self) -> bool {
+        self.1
+    }
+}
+
+/// The client.
+#[derive(Debug, Clone, Default)]
+pub struct Client;
+
+impl Client {
+    /// A client.
+    pub fn new() -> Self {
+        Self
+    }
+    /// GET.
+    pub fn get(&self, url: &str) -> RequestBuilder {
+        self.start(Method::GET, url)
+    }
+    /// POST.
+    pub fn post(&self, url: &str) -> RequestBuilder {
+        self.start(Method::POST, url)
+    }
+    /// Any method.
+    pub fn request(&self, method: Method, url: Url) -> RequestBuilder {
+        self.start(method, url.as_str())
+    }
+    fn start(&self, method: Method, url: &str) -> RequestBuilder {
+        let fine = Url::parse(url).is_ok();
+        RequestBuilder(
+            Seen {
+                method,
+                url: url.to_string(),
+                headers: HeaderMap::new(),
+                body: Vec::new(),
+            },
+            fine,
+        )
+    }
+}
+
+/// A request under construction.
+#[derive(Debug)]
+pub struct RequestBuilder(Seen, bool);
+
+impl RequestBuilder {
+    /// Appends a header.
+    pub fn header<K, V>(mut self, key: K, value: V) -> Self
+    where
+        HeaderName: TryFrom<K>,
+        HeaderValue: TryFrom<V>,
+    {
+        match (HeaderName::try_from(key), HeaderValue::try_from(value)) {
+            (Ok(k), Ok(v)) => {
+                self.0.headers.append(k, v);
+            },
+            _ => self.1 = false,
+        }
+        self
+    }
+    /// Bearer credentials.
+    pub fn bearer_auth(self, token: String) -> Self {
+        self.header("authorization", format!("Bearer {token}"))
+    }
+    /// Basic credentials.
+    pub fn basic_auth(self, user: &str, password: Option<&str>) -> Self {
+        use base64::Engine;
+        let text = format!("{user}:{}", password.unwrap_or(""));
+        let text = base64::engine::general_purpose::STANDARD.encode(text);
+        self.header("authorization", format!("Basic {text}"))
+    }
+    /// A body.
+    pub fn body(mut self, body: String) -> Self {
+        self.0.body = body.into_bytes();
+        self
+    }
+    /// A form as body.
+    pub fn form(mut self, pairs: &[(&str, &str)]) -> Self {
+        self.0.body = url::form_urlencoded::Serializer::new(String::new())
+            .extend_pairs(pairs)
+            .finish()
+            .into_bytes();
+        self.header("content-type", "application/x-www-form-urlencoded")
+    }
+    /// Sends the request.
+    pub async fn send(self) -> Result<Response, Error> {
+        if !self.1 {
+            return Err(Error("builder error".to_string(), true));
+        }
+        let url = self.0.url.clone();
+        let answer = HANDLER.lock().as_mut().map(|h| h(self.0));
+        let reply = match answer {
+            Some(f) => f.await,
+            None => None,
+        };
+        reply
+            .map(Response)
+            .ok_or_else(|| Error(format!("error sending request for url ({url})"), false))
+    }
+}
+
+/// An answer.
+#[derive(Debug)]
+pub struct Response(Reply);
+
+impl Response {
+    /// Status.
+    pub fn status(&self) -> StatusCode {
+        StatusCode::from_u16(self.0.status).unwrap()
+    }
+    /// Headers.
+    pub fn headers(&self) -> &HeaderMap {
+        &self.0.headers
+    }
+    /// The next piece of the body.
+    pub async fn chunk(&mut self) -> Result<Option<Vec<u8>>, Error> {
+        match self.0.body.recv().await {
+            None => Ok(None),
+            Some(Ok(b)) => Ok(Some(b)),
+            Some(Err(())) => Err(Error("error decoding response body".to_string(), false)),
+        }
+    }
+    /// The whole body.
+    pub async fn bytes(mut self) -> Result<Vec<u8>, Error> {
+        let mut all = Vec::new();
+        while let Some(b) = self.chunk().await? {
+            all.extend(b);
+        }
+        Ok(all)
+    }
+    /// The whole body as text.
+    pub async fn text(self) -> Result<String, Error> {
+        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
+    }
+    /// The whole body as JSON.
+    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
+        serde_json::from_slice(&self.bytes().await?)
+            .map_err(|_| Error("error decoding response body".to_string(), false))
+    }
+}
-- 
2.43.0


From 1fd0b04c398e25d73df0b897b2b7df3d440d3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:58 +0000
Subject: [PATCH 63/79] fix: the streamable HTTP client posted messages in a
 form of its own instead of JSON-RPC

---
 src/shared/streamable_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index bc05e7a..a23e8b6 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -4,7 +4,7 @@ use crate::shared::http_constants::{
     MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
 use crate::shared::sse_parser::SseParser;
-use crate::shared::{Transport, TransportMessage};
+use crate::shared::{StdioTransport, Transport, TransportMessage};
 #[cfg(pmcp_vp)]
 use crate::vp_http as reqwest;
 use async_trait::async_trait;
@@ -328,7 +328,7 @@ impl StreamableHttpTransport {
             return Ok(());
         }
 
-        let body = serde_json::to_string(&message)
+        let body = String::from_utf8(StdioTransport::serialize_message(&message)?)
             .map_err(|e| Error::Transport(TransportError::Serialization(e.to_string())))?;
 
         let url = self.config.read().url.clone();
-- 
2.43.0


From 50d7e3f97146cbac1fb4faa144c5dbbb6cf95121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:58 +0000
Subject: [PATCH 64/79] fix: the streamable HTTP client lost requests and
 notifications in JSON-RPC form

---
 src/shared/streamable_http.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index a23e8b6..d992d55 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -251,7 +251,7 @@ impl StreamableHttpTransport {
 
                 // Only process "message" events or no event type
                 if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                    if let Ok(msg) = parse_message(event.data.as_bytes()) {
                         let _ = sender.send(msg);
                     }
                 }
@@ -376,7 +376,13 @@ impl StreamableHttpTransport {
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
 
             // Try to parse as array first (batch response)
-            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {
+            if let Ok(batch) =
+                serde_json::from_slice::<Vec<&serde_json::value::RawValue>>(&response_bytes)
+            {
+                let batch = batch
+                    .into_iter()
+                    .map(|msg| parse_message(msg.get().as_bytes()))
+                    .collect::<Result<Vec<_>>>()?;
                 for msg in batch {
                     self.sender
                         .send(msg)
@@ -384,9 +390,7 @@ impl StreamableHttpTransport {
                 }
             } else {
                 // Single message
-                let message = serde_json::from_slice(&response_bytes).map_err(|e| {
-                    Error::Transport(TransportError::Deserialization(e.to_string()))
-                })?;
+                let message = parse_message(&response_bytes)?;
                 self.sender
                     .send(message)
                     .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
@@ -414,7 +418,7 @@ impl StreamableHttpTransport {
 
                     // Only process "message" events
                     if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                        if let Ok(msg) = parse_message(event.data.as_bytes()) {
                             let _ = sender.send(msg);
                         }
                     }
@@ -485,6 +489,14 @@ impl Transport for StreamableHttpTransport {
     }
 }
 
+/// Reads a message of the server: JSON-RPC, or this SDK's own form
+fn parse_message(text: &[u8]) -> Result<TransportMessage> {
+    StdioTransport::parse_message(text).or_else(|_| {
+        serde_json::from_slice(text)
+            .map_err(|e| Error::Transport(TransportError::Deserialization(e.to_string())))
+    })
+}
+
 /// A trait for providing authentication tokens.
 #[async_trait]
 pub trait AuthProvider: Send + Sync + Debug {
-- 
2.43.0


From cbbae4d33dbf2bc132422338f6ed441e65655ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:58 +0000
Subject: [PATCH 65/79] fix: the streamable HTTP client delivered the events of
 a stream only once it had ended, and none if it was lost

---
 src/shared/streamable_http.rs | 80 +++++++++++++++--------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index d992d55..95bb97b 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -230,36 +230,48 @@ impl StreamableHttpTransport {
         self.process_response_headers(&response);
 
         // Start streaming task
+        let handle = self.read_events(response);
+
+        *self.abort_handle.write() = Some(handle);
+        Ok(())
+    }
+
+    /// Delivers the events of a stream as they come, until it ends or is lost
+    fn read_events(&self, mut response: Response) -> tokio::task::JoinHandle<()> {
         let sender = self.sender.clone();
         let on_resumption = self.config.read().on_resumption_token.clone();
         let last_event_id = self.last_event_id.clone();
 
-        let handle = tokio::spawn(async move {
+        tokio::spawn(async move {
             let mut sse_parser = SseParser::new();
-            let body = response.text().await.unwrap_or_default();
-
-            // For now, parse the whole body - later we can stream with hyper Body
-            let events = sse_parser.feed(&body);
-            for event in events {
-                // Update last event ID and notify callback
-                if let Some(id) = &event.id {
-                    *last_event_id.write() = Some(id.clone());
-                    if let Some(callback) = &on_resumption {
-                        callback(id.clone());
+            let mut received = Vec::new();
+
+            while let Ok(Some(chunk)) = response.chunk().await {
+                // Complete lines only: a chunk may end within a character
+                received.extend_from_slice(&chunk);
+                let Some(end) = received.iter().rposition(|b| *b == b'\n') else {
+                    continue;
+                };
+                let lines: Vec<u8> = received.drain(..=end).collect();
+
+                for event in sse_parser.feed(&String::from_utf8_lossy(&lines)) {
+                    // Update last event ID and notify callback
+                    if let Some(id) = &event.id {
+                        *last_event_id.write() = Some(id.clone());
+                        if let Some(callback) = &on_resumption {
+                            callback(id.clone());
+                        }
                     }
-                }
 
-                // Only process "message" events or no event type
-                if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = parse_message(event.data.as_bytes()) {
-                        let _ = sender.send(msg);
+                    // Only process "message" events or no event type
+                    if event.event.as_deref() == Some("message") || event.event.is_none() {
+                        if let Ok(msg) = parse_message(event.data.as_bytes()) {
+                            let _ = sender.send(msg);
+                        }
                     }
                 }
             }
-        });
-
-        *self.abort_handle.write() = Some(handle);
-        Ok(())
+        })
     }
 
     async fn build_request(&self, method: reqwest::Method, url: Url) -> Result<RequestBuilder> {
@@ -397,33 +409,7 @@ impl StreamableHttpTransport {
             }
         } else if content_type.contains(TEXT_EVENT_STREAM) {
             // SSE stream response - handle streaming
-            let sender = self.sender.clone();
-            let on_resumption = self.config.read().on_resumption_token.clone();
-            let last_event_id = self.last_event_id.clone();
-
-            tokio::spawn(async move {
-                let mut sse_parser = SseParser::new();
-                let body = response.text().await.unwrap_or_default();
-
-                // Parse the SSE body
-                let events = sse_parser.feed(&body);
-                for event in events {
-                    // Update last event ID and notify callback
-                    if let Some(id) = &event.id {
-                        *last_event_id.write() = Some(id.clone());
-                        if let Some(callback) = &on_resumption {
-                            callback(id.clone());
-                        }
-                    }
-
-                    // Only process "message" events
-                    if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = parse_message(event.data.as_bytes()) {
-                            let _ = sender.send(msg);
-                        }
-                    }
-                }
-            });
+            self.read_events(response);
         } else if response.status().as_u16() == 202 {
             // 202 Accepted with no body is valid
             return Ok(());
-- 
2.43.0


From f655dfe92c075c997032ad9a680c5e590115ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:07 +0000
Subject: [PATCH 66/79] fix: OIDC discovery was not tried again when the server
 could not be reached

---
 src/client/auth.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index bc0e953..938564c 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -177,9 +177,15 @@ impl OidcDiscoveryClient {
             .send()
             .await
             .map_err(|e| {
+                // The client's own text does not say that the network failed (see should_retry)
+                let kind = if e.is_builder() {
+                    ""
+                } else {
+                    "network error: "
+                };
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!("Failed to fetch discovery document: {}{}", kind, e),
                 )
             })?;
 
-- 
2.43.0


From 8b90f5970463c4d5f2c1a0cb7e040ee0f8530dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:07 +0000
Subject: [PATCH 67/79] fix: OIDC discovery without retries failed without
 asking

---
 src/client/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index 938564c..92d2fda 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -144,7 +144,7 @@ impl OidcDiscoveryClient {
         let mut attempts = 0;
         let mut last_error = None;
 
-        while attempts < self.max_retries {
+        while attempts < self.max_retries.max(1) {
             match self.fetch_discovery(&discovery_url).await {
                 Ok(metadata) => return Ok(metadata),
                 Err(e) => {
-- 
2.43.0


From 8550fa7a3dbb4d33c52d63ec39d70a49c391f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:15 +0000
Subject: [PATCH 68/79] hook: stand-in for WebSocket connections under
 cfg(pmcp_vp)

---
 src/lib.rs                        |   3 +
 src/server/transport/websocket.rs |   7 +-
 src/shared/websocket.rs           |   6 +-
 src/vp_ws.rs                      | 123 ++++++++++++++++++++++++++++++
 4 files changed, 137 insertions(+), 2 deletions(-)
 create mode 100644 src/vp_ws.rs

diff --git a/src/lib.rs b/src/lib.rs
index 22eab38..adbcc52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,9 @@ pub mod utils;
 #[cfg(pmcp_vp)]
 #[doc(hidden)]
 pub mod vp_http;
+#[cfg(all(pmcp_vp, feature = "websocket"))]
+#[doc(hidden)]
+pub mod vp_ws;
 
 #[cfg(feature = "simd")]
 pub mod simd;
diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..b239afc 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -2,13 +2,18 @@
 
 use crate::error::{Error, Result};
 use crate::shared::{Transport, TransportMessage};
+#[cfg(pmcp_vp)]
+use crate::vp_ws::{accept_async, TcpListener};
 use async_trait::async_trait;
 use futures::{SinkExt, StreamExt};
 use std::net::SocketAddr;
 use std::sync::Arc;
+#[cfg(not(pmcp_vp))]
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+#[cfg(not(pmcp_vp))]
+use tokio_tungstenite::accept_async;
+use tokio_tungstenite::tungstenite::protocol::Message;
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..2575efa 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -2,6 +2,8 @@
 
 use crate::error::Result;
 use crate::shared::{Transport, TransportMessage};
+#[cfg(pmcp_vp)]
+use crate::vp_ws::connect_async;
 use async_trait::async_trait;
 use futures::{SinkExt, StreamExt};
 use parking_lot::RwLock;
@@ -10,7 +12,9 @@ use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::sync::Mutex as AsyncMutex;
 use tokio::time::{interval, sleep};
-use tokio_tungstenite::{connect_async, tungstenite::protocol::Message};
+#[cfg(not(pmcp_vp))]
+use tokio_tungstenite::connect_async;
+use tokio_tungstenite::tungstenite::protocol::Message;
 use tracing::{debug, error, info, warn};
 use url::Url;
 
diff --git a/src/vp_ws.rs b/src/vp_ws.rs
new file mode 100644
index 0000000..3e519f4
--- /dev/null
+++ b/src/vp_ws.rs
@@ -0,0 +1,123 @@
+//! Stand-in for WebSocket connections, compiled only for verification (`cfg(pmcp_vp)`): whoever
+//! connects or is accepted gets one end of a pair of channels, the harness holds the other.
+
+use futures::channel::mpsc::Sender;
+use futures::{Sink, Stream};
+use parking_lot::Mutex;
+use std::collections::VecDeque;
+use std::pin::Pin;
+use std::task::{Context, Poll};
+use tokio::sync::mpsc::UnboundedReceiver;
+use tokio_tungstenite::tungstenite::Error;
+pub use tokio_tungstenite::tungstenite::Message;
+
+/// A connection.
+#[derive(Debug)]
+pub struct Ws {
+    /// What the other side says (`Err`: the connection is lost).
+    pub incoming: UnboundedReceiver<Result<Message, ()>>,
+    /// What it is told; waits while the channel is full.
+    pub outgoing: Sender<Message>,
+    /// Whether a close frame came or was sent, or the connection was lost.
+    pub over: bool,
+}
+
+/// Answers to attempts to connect (`None`: refused), then refused for ever.
+pub static DIAL: Mutex<VecDeque<Option<Ws>>> = Mutex::new(VecDeque::new());
+/// Connections to be accepted, then none for ever.
+pub static ARRIVE: Mutex<VecDeque<Ws>> = Mutex::new(VecDeque::new());
+/// Addresses connected to.
+pub static DIALLED: Mutex<Vec<String>> = Mutex::new(Vec::new());
+
+fn lost() -> Error {
+    Error::Io(std::io::ErrorKind::ConnectionReset.into())
+}
+
+impl Stream for Ws {
+    type Item = Result<Message, Error>;
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        match self.incoming.poll_recv(cx) {
+            Poll::Pending => Poll::Pending,
+            Poll::Ready(None) => {
+                self.over = true;
+                Poll::Ready(None)
+            },
+            Poll::Ready(Some(Err(()))) => {
+                self.over = true;
+                self.incoming.close();
+                Poll::Ready(Some(Err(lost())))
+            },
+            Poll::Ready(Some(Ok(m))) => {
+                if m.is_close() {
+                    self.over = true;
+                    self.incoming.close();
+                }
+                Poll::Ready(Some(Ok(m)))
+            },
+        }
+    }
+}
+
+impl Sink<Message> for Ws {
+    type Error = Error;
+    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if self.over {
+            return Poll::Ready(Err(Error::AlreadyClosed));
+        }
+        self.outgoing.poll_ready(cx).map_err(|_| lost())
+    }
+    fn start_send(mut self: Pin<&mut Self>, item: Message) -> Result<(), Error> {
+        self.over |= item.is_close();
+        self.outgoing.start_send(item).map_err(|_| lost())
+    }
+    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        Poll::Ready(Ok(()))
+    }
+    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if self.over {
+            return Poll::Ready(Ok(()));
+        }
+        match self.outgoing.poll_ready(cx) {
+            Poll::Pending => Poll::Pending,
+            Poll::Ready(Err(_)) => Poll::Ready(Err(lost())),
+            Poll::Ready(Ok(())) => {
+                self.over = true;
+                let sent = self.outgoing.start_send(Message::Close(None));
+                Poll::Ready(sent.map_err(|_| lost()))
+            },
+        }
+    }
+}
+
+/// Connects.
+pub async fn connect_async(url: &str) -> Result<(Ws, ()), Error> {
+    DIALLED.lock().push(url.to_string());
+    tokio::task::yield_now().await;
+    let ws = DIAL.lock().pop_front().flatten();
+    ws.map(|w| (w, ())).ok_or_else(lost)
+}
+
+/// The handshake of a connection that came in.
+pub async fn accept_async(ws: Ws) -> Result<Ws, Error> {
+    tokio::task::yield_now().await;
+    Ok(ws)
+}
+
+/// A listener.
+#[derive(Debug)]
+pub struct TcpListener;
+
+impl TcpListener {
+    /// Binds.
+    pub async fn bind(_: &std::net::SocketAddr) -> std::io::Result<Self> {
+        Ok(Self)
+    }
+    /// The next connection.
+    pub async fn accept(&self) -> std::io::Result<(Ws, std::net::SocketAddr)> {
+        let ws = ARRIVE.lock().pop_front();
+        match ws {
+            Some(ws) => Ok((ws, ([127, 0, 0, 1], 1).into())),
+            None => futures::future::pending().await,
+        }
+    }
+}
-- 
2.43.0


From b23d1875b27a0108f5690c4c88ac15b6fe12169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:26 +0000
Subject: [PATCH 69/79] fix: the WebSocket client never sent the messages it
 was given

---
 src/shared/websocket.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 2575efa..36fd1a2 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -55,7 +55,8 @@ impl Default for WebSocketConfig {
 pub struct WebSocketTransport {
     config: WebSocketConfig,
     state: Arc<RwLock<ConnectionState>>,
-    message_tx: mpsc::Sender<TransportMessage>,
+    /// Queue of the current connection's writer
+    message_tx: Arc<RwLock<Option<mpsc::Sender<Message>>>>,
     message_rx: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
 }
 
@@ -79,11 +80,12 @@ impl std::fmt::Debug for WebSocketTransport {
 impl WebSocketTransport {
     /// Create a new WebSocket transport with the given configuration.
     pub fn new(config: WebSocketConfig) -> Self {
-        let (tx, rx) = mpsc::channel(100);
+        // Nothing to receive until connected
+        let (_, rx) = mpsc::channel(1);
         Self {
             config,
             state: Arc::new(RwLock::new(ConnectionState::Disconnected)),
-            message_tx: tx,
+            message_tx: Arc::new(RwLock::new(None)),
             message_rx: Arc::new(AsyncMutex::new(rx)),
         }
     }
@@ -142,6 +144,11 @@ impl WebSocketTransport {
             .map_err(crate::error::TransportError::from)?;
         let (sink, stream) = ws_stream.split();
 
+        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
+        let (message_tx, message_rx) = mpsc::channel(100);
+        *self.message_rx.lock().await = message_rx;
+        *self.message_tx.write() = Some(write_tx.clone());
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Connected;
@@ -150,7 +157,6 @@ impl WebSocketTransport {
         info!("WebSocket connected");
 
         // Spawn reader task
-        let message_tx = self.message_tx.clone();
         let _reader_handle = tokio::spawn(async move {
             let mut stream = stream;
             while let Some(result) = stream.next().await {
@@ -203,7 +209,6 @@ impl WebSocketTransport {
         });
 
         // Spawn writer task
-        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
         let _writer_handle = tokio::spawn(async move {
             let mut sink = sink;
             while let Some(msg) = write_rx.recv().await {
@@ -227,9 +232,6 @@ impl WebSocketTransport {
             });
         }
 
-        // Store the writer channel for sending messages
-        // This is a simplified approach - in production you'd want better state management
-
         Ok(())
     }
 }
@@ -245,17 +247,20 @@ impl Transport for WebSocketTransport {
             )))
         })?;
 
-        // In a real implementation, we'd need to store the write channel
-        // This is simplified for the example
-        match &*self.state.read() {
-            ConnectionState::Connected => {
-                debug!("Sending WebSocket message: {}", json);
-                Ok(())
-            },
-            _ => Err(crate::error::Error::Transport(
+        if !self.is_connected() {
+            return Err(crate::error::Error::Transport(
                 crate::error::TransportError::ConnectionClosed,
-            )),
+            ));
         }
+
+        debug!("Sending WebSocket message: {}", json);
+        let writer = self.message_tx.read().clone();
+        if let Some(writer) = writer {
+            writer.send(Message::Text(json.into())).await.map_err(|_| {
+                crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
+            })?;
+        }
+        Ok(())
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
-- 
2.43.0


From de24a32a8b12fa72d80c23531324b25d6ee43f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:26 +0000
Subject: [PATCH 70/79] fix: closing a WebSocket client left its connection
 open, and it did not notice the server closing

---
 src/shared/websocket.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 36fd1a2..98ae1aa 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -157,6 +157,8 @@ impl WebSocketTransport {
         info!("WebSocket connected");
 
         // Spawn reader task
+        let (state, writer) = (self.state.clone(), self.message_tx.clone());
+        let own_writer = write_tx.downgrade();
         let _reader_handle = tokio::spawn(async move {
             let mut stream = stream;
             while let Some(result) = stream.next().await {
@@ -206,6 +208,15 @@ impl WebSocketTransport {
                     },
                 }
             }
+
+            // The connection is over, unless another one has taken its place
+            let mut writer = writer.write();
+            if let (Some(current), Some(own)) = (&*writer, own_writer.upgrade()) {
+                if current.same_channel(&own) {
+                    *writer = None;
+                    *state.write() = ConnectionState::Disconnected;
+                }
+            }
         });
 
         // Spawn writer task
@@ -217,14 +228,20 @@ impl WebSocketTransport {
                     break;
                 }
             }
+            let _ = sink.close().await;
         });
 
         // Spawn ping task if configured
         if let Some(ping_interval) = self.config.ping_interval {
+            // Pings do not keep the connection open
+            let write_tx = write_tx.downgrade();
             tokio::spawn(async move {
                 let mut ticker = interval(ping_interval);
                 loop {
                     ticker.tick().await;
+                    let Some(write_tx) = write_tx.upgrade() else {
+                        break;
+                    };
                     if write_tx.send(Message::Ping(vec![].into())).await.is_err() {
                         break;
                     }
@@ -278,6 +295,10 @@ impl Transport for WebSocketTransport {
 
         info!("Closing WebSocket connection");
 
+        // The writer closes the connection once all is sent; nothing more is taken in
+        *self.message_tx.write() = None;
+        self.message_rx.lock().await.close();
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Disconnected;
-- 
2.43.0


From 11cfcd22ebf6f6be45b1d137253ad572b8a15d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:26 +0000
Subject: [PATCH 71/79] fix: closing a WebSocket server connection left it open
 for the client

---
 src/server/transport/websocket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index b239afc..4c03a4d 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -120,7 +120,8 @@ impl WebSocketServerTransport {
         tokio::spawn(async move {
             loop {
                 tokio::select! {
-                    Some(msg) = outgoing_rx.recv() => {
+                    msg = outgoing_rx.recv() => {
+                        let Some(msg) = msg else { break };
                         let json_bytes = match crate::shared::stdio::StdioTransport::serialize_message(&msg)
                         {
                             Ok(bytes) => bytes,
@@ -149,9 +150,9 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    else => break,
                 }
             }
+            let _ = ws_sink.close().await;
         });
 
         // Spawn task to handle incoming messages
-- 
2.43.0


From d36b1774cb9f2f10cec638f1f6e5e7542a1d34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:26 +0000
Subject: [PATCH 72/79] fix: a WebSocket server went on taking messages for a
 client that had gone

---
 src/server/transport/websocket.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 4c03a4d..6829cd5 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -109,6 +109,7 @@ impl WebSocketServerTransport {
 
         // Store the channels
         *self.incoming_rx.lock().await = Some(incoming_rx);
+        let own_outgoing = outgoing_tx.downgrade();
         *self.outgoing_tx.lock().await = Some(outgoing_tx);
 
         // Create channel for ping/pong messages
@@ -156,6 +157,7 @@ impl WebSocketServerTransport {
         });
 
         // Spawn task to handle incoming messages
+        let outgoing = self.outgoing_tx.clone();
         tokio::spawn(async move {
             while let Some(result) = ws_stream.next().await {
                 match result {
@@ -196,7 +198,13 @@ impl WebSocketServerTransport {
                 }
             }
 
-            // Connection closed, cleanup
+            // Connection closed, cleanup, unless another one has taken its place
+            let mut outgoing = outgoing.lock().await;
+            if let (Some(current), Some(own)) = (&*outgoing, own_outgoing.upgrade()) {
+                if current.same_channel(&own) {
+                    *outgoing = None;
+                }
+            }
             info!("WebSocket connection closed");
         });
 
-- 
2.43.0


From f8dde080d0435947ae1664a82399b247adc3f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:49 +0000
Subject: [PATCH 73/79] hook: stand-in for the pooled HTTP client under
 cfg(pmcp_vp)

---
 src/shared/http.rs |  3 ++
 src/vp_http.rs     | 90 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 93 insertions(+)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..1f437ae 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -3,10 +3,13 @@
 use crate::error::Result;
 use crate::shared::sse_parser::SseParser;
 use crate::shared::{Transport, TransportMessage};
+#[cfg(pmcp_vp)]
+use crate::vp_http::pooled::Client;
 use async_trait::async_trait;
 use bytes::Bytes;
 use http_body_util::{BodyExt, Full};
 use hyper::{Method, Request, StatusCode};
+#[cfg(not(pmcp_vp))]
 use hyper_util::client::legacy::Client;
 use hyper_util::rt::TokioExecutor;
 use parking_lot::RwLock;
diff --git a/src/vp_http.rs b/src/vp_http.rs
index 1f87775..b645d7c 100644
--- a/src/vp_http.rs
+++ b/src/vp_http.rs
@@ -191,3 +191,93 @@ impl Response {
             .map_err(|_| Error("error decoding response body".to_string(), false))
     }
 }
+
+/// Stand-in for hyper's pooling client, answered by the same [`HANDLER`].
+#[cfg(feature = "http")]
+pub mod pooled {
+    use super::{Error, Reply, Seen, HANDLER};
+    use bytes::Bytes;
+    use http_body_util::{BodyExt, Full};
+    use hyper::body::{Body, Frame};
+    use std::pin::Pin;
+    use std::task::{Context, Poll};
+
+    /// The client.
+    #[derive(Debug)]
+    pub struct Client<C, B>(std::marker::PhantomData<(C, B)>);
+    /// Its builder.
+    #[derive(Debug)]
+    pub struct Builder;
+    /// The body of an answer.
+    #[derive(Debug)]
+    pub struct Answer(Reply);
+
+    impl Client<(), ()> {
+        /// A builder.
+        pub fn builder<E>(_: E) -> Builder {
+            Builder
+        }
+    }
+
+    impl Builder {
+        /// Setting of the pool.
+        pub fn pool_idle_timeout(self, _: std::time::Duration) -> Self {
+            self
+        }
+        /// Setting of the pool.
+        pub fn pool_max_idle_per_host(self, _: usize) -> Self {
+            self
+        }
+        /// The client.
+        pub fn build<C, B>(self, _: C) -> Client<C, B> {
+            Client(std::marker::PhantomData)
+        }
+    }
+
+    impl<C> Client<C, Full<Bytes>> {
+        /// Sends the request.
+        pub async fn request(
+            &self,
+            request: hyper::Request<Full<Bytes>>,
+        ) -> Result<hyper::Response<Answer>, Error> {
+            let (parts, body) = request.into_parts();
+            let url = parts.uri.to_string();
+            let body = body
+                .collect()
+                .await
+                .map_or_else(|e| match e {}, |b| b.to_bytes().to_vec());
+            let seen = Seen {
+                method: parts.method,
+                url,
+                headers: parts.headers,
+                body,
+            };
+            let answer = HANDLER.lock().as_mut().map(|h| h(seen));
+            let reply = match answer {
+                Some(f) => f.await,
+                None => None,
+            };
+            let reply = reply.ok_or_else(|| Error("client error (Connect)".to_string(), false))?;
+            let mut response = hyper::Response::new(());
+            *response.status_mut() = hyper::StatusCode::from_u16(reply.status).unwrap();
+            *response.headers_mut() = reply.headers.clone();
+            Ok(response.map(|()| Answer(reply)))
+        }
+    }
+
+    impl Body for Answer {
+        type Data = Bytes;
+        type Error = Error;
+        fn poll_frame(
+            mut self: Pin<&mut Self>,
+            cx: &mut Context<'_>,
+        ) -> Poll<Option<Result<Frame<Bytes>, Error>>> {
+            self.0.body.poll_recv(cx).map(|piece| {
+                piece.map(|p| match p {
+                    Ok(b) => Ok(Frame::data(b.into())),
+                    Err(()) => Err(Error("error reading a body".to_string(), false)),
+                })
+            })
+        }
+    }
+}
-- 
2.43.0


From 683a3828b3521f672b67749830b02cded0c4dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 74/79] fix: the HTTP transport did not send its configured
 headers

---
 src/shared/http.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 1f437ae..e3fa61c 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -107,11 +107,15 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
+            let mut req = Request::builder()
                 .method(Method::GET)
                 .uri(sse_url.as_str())
                 .header("Accept", "text/event-stream")
-                .header("Cache-Control", "no-cache")
+                .header("Cache-Control", "no-cache");
+            for (key, value) in &self.config.headers {
+                req = req.header(key, value);
+            }
+            let req = req
                 .body(Full::new(Bytes::new()))
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -191,10 +195,14 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
+        let mut req = Request::builder()
             .method(Method::POST)
             .uri(self.config.base_url.as_str())
-            .header("Content-Type", "application/json")
+            .header("Content-Type", "application/json");
+        for (key, value) in &self.config.headers {
+            req = req.header(key, value);
+        }
+        let req = req
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-- 
2.43.0


From 98eafc8e52f90c338699d4bcccf6995d3399e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 75/79] fix: the HTTP transport garbled a character cut between
 two pieces of an event stream

---
 src/shared/http.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index e3fa61c..292d7cb 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -143,13 +143,19 @@ impl HttpTransport {
 
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
+                let mut received = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
-                                let events = sse_parser.feed(&text);
+                                // Complete lines only: a piece may end within a character
+                                received.extend_from_slice(data);
+                                let Some(end) = received.iter().rposition(|b| *b == b'\n') else {
+                                    continue;
+                                };
+                                let lines: Vec<u8> = received.drain(..=end).collect();
+                                let events = sse_parser.feed(&String::from_utf8_lossy(&lines));
 
                                 for event in events {
                                     // Process SSE event data as JSON-RPC message
-- 
2.43.0


From 601774742c8f248a24767a2646f19a4fe3c497aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 76/79] fix: the HTTP transport was not connected at once and
 received from a closed stream

---
 src/shared/http.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 292d7cb..c93f82f 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -138,14 +138,17 @@ impl HttpTransport {
             let message_tx = self.message_tx.clone();
             let connected = self.connected.clone();
 
+            *connected.write() = true;
             tokio::spawn(async move {
-                *connected.write() = true;
-
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
                 let mut received = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
+                    // Closed meanwhile
+                    if !*connected.read() {
+                        break;
+                    }
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-- 
2.43.0


From a9e8f5ecef570d78f8d02c6196dd288aaaf0cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:07 +0000
Subject: [PATCH 77/79] fix: the HTTP transport's time limit did not cover an
 answer's body and lost its fraction of a second

---
 src/shared/http.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index c93f82f..947c865 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -215,14 +215,26 @@ impl HttpTransport {
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-        let response = timeout(self.config.timeout, self.client.request(req))
+        let body_bytes = timeout(self.config.timeout, self.answer(req))
             .await
-            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_secs() * 1000))?
-            .map_err(|e| {
-                crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
-                    e.to_string(),
-                ))
-            })?;
+            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_millis() as u64))??;
+        let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
+
+        // Send response through message queue
+        self.message_tx.send(response_msg).await.map_err(|_| {
+            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
+        })?;
+
+        Ok(())
+    }
+
+    /// The whole answer to a request
+    async fn answer(&self, req: Request<Full<Bytes>>) -> Result<Bytes> {
+        let response = self.client.request(req).await.map_err(|e| {
+            crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
+                e.to_string(),
+            ))
+        })?;
 
         if response.status() != StatusCode::OK {
             return Err(crate::error::Error::Transport(
@@ -243,14 +255,7 @@ impl HttpTransport {
                 ))
             })?
             .to_bytes();
-        let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
-
-        // Send response through message queue
-        self.message_tx.send(response_msg).await.map_err(|_| {
-            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
-        })?;
-
-        Ok(())
+        Ok(body_bytes)
     }
 }
 
-- 
2.43.0


From 11aa95e828c3d5a58af0efbed32183df94d1348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:02 +0000
Subject: [PATCH 78/79] hook: the stand-in for WebSocket connections knows
 limits

---
 src/vp_ws.rs | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/vp_ws.rs b/src/vp_ws.rs
index 3e519f4..dd5ef88 100644
--- a/src/vp_ws.rs
+++ b/src/vp_ws.rs
@@ -8,6 +8,8 @@ use std::collections::VecDeque;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 use tokio::sync::mpsc::UnboundedReceiver;
+use tokio_tungstenite::tungstenite::error::{CapacityError, ProtocolError};
+use tokio_tungstenite::tungstenite::protocol::WebSocketConfig;
 use tokio_tungstenite::tungstenite::Error;
 pub use tokio_tungstenite::tungstenite::Message;
 
@@ -20,6 +22,10 @@ pub struct Ws {
     pub outgoing: Sender<Message>,
     /// Whether a close frame came or was sent, or the connection was lost.
     pub over: bool,
+    /// Whether the other side's frames are masked.
+    pub masked: bool,
+    /// What is accepted from the other side.
+    pub limits: WebSocketConfig,
 }
 
 /// Answers to attempts to connect (`None`: refused), then refused for ever.
@@ -29,6 +35,14 @@ pub static ARRIVE: Mutex<VecDeque<Ws>> = Mutex::new(VecDeque::new());
 /// Addresses connected to.
 pub static DIALLED: Mutex<Vec<String>> = Mutex::new(Vec::new());
 
+impl Ws {
+    /// A message is one frame here.
+    fn too_long(&self, m: &Message) -> bool {
+        let over = |max: Option<usize>| max.is_some_and(|max| m.len() > max);
+        over(self.limits.max_message_size) || over(self.limits.max_frame_size)
+    }
+}
+
 fn lost() -> Error {
     Error::Io(std::io::ErrorKind::ConnectionReset.into())
 }
@@ -47,6 +61,21 @@ impl Stream for Ws {
                 self.incoming.close();
                 Poll::Ready(Some(Err(lost())))
             },
+            Poll::Ready(Some(Ok(_))) if !self.masked && !self.limits.accept_unmasked_frames => {
+                self.over = true;
+                self.incoming.close();
+                Poll::Ready(Some(Err(Error::Protocol(
+                    ProtocolError::UnmaskedFrameFromClient,
+                ))))
+            },
+            Poll::Ready(Some(Ok(m))) if self.too_long(&m) => {
+                self.over = true;
+                self.incoming.close();
+                Poll::Ready(Some(Err(Error::Capacity(CapacityError::MessageTooLong {
+                    size: m.len(),
+                    max_size: 0,
+                }))))
+            },
             Poll::Ready(Some(Ok(m))) => {
                 if m.is_close() {
                     self.over = true;
@@ -97,6 +126,15 @@ pub async fn connect_async(url: &str) -> Result<(Ws, ()), Error> {
     ws.map(|w| (w, ())).ok_or_else(lost)
 }
 
+/// The handshake of a connection that came in, with what is to be accepted.
+pub async fn accept_async_with_config(
+    mut ws: Ws,
+    config: Option<WebSocketConfig>,
+) -> Result<Ws, Error> {
+    ws.limits = config.unwrap_or_default();
+    accept_async(ws).await
+}
+
 /// The handshake of a connection that came in.
 pub async fn accept_async(ws: Ws) -> Result<Ws, Error> {
     tokio::task::yield_now().await;
-- 
2.43.0


From 736963ea5f0b38a26b1747e5b49c90a1d50b4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:02 +0000
Subject: [PATCH 79/79] fix: a WebSocket server did not apply its configured
 message and frame limits

---
 src/server/transport/websocket.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 6829cd5..19b7234 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -3,7 +3,7 @@
 use crate::error::{Error, Result};
 use crate::shared::{Transport, TransportMessage};
 #[cfg(pmcp_vp)]
-use crate::vp_ws::{accept_async, TcpListener};
+use crate::vp_ws::{accept_async_with_config, TcpListener};
 use async_trait::async_trait;
 use futures::{SinkExt, StreamExt};
 use std::net::SocketAddr;
@@ -12,8 +12,8 @@ use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
 #[cfg(not(pmcp_vp))]
-use tokio_tungstenite::accept_async;
-use tokio_tungstenite::tungstenite::protocol::Message;
+use tokio_tungstenite::accept_async_with_config;
+use tokio_tungstenite::tungstenite::protocol::{Message, WebSocketConfig};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -97,7 +97,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let mut limits = WebSocketConfig::default();
+        limits.max_frame_size = self.config.max_frame_size;
+        limits.max_message_size = self.config.max_message_size;
+        limits.accept_unmasked_frames = self.config.accept_unmasked_frames;
+        let ws_stream = accept_async_with_config(tcp_stream, Some(limits))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
-- 
2.43.0


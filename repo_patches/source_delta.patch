From c524709606f333e6aeb51465563bd99fa6cd6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:15 +0000
Subject: [PATCH 01/81] fix: unregistering a root removes the registration it
 belongs to

Two registrations of one URI under different names were confused: the
unregister handle removed the first entry with the same URI.
---
 src/server/roots.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/roots.rs b/src/server/roots.rs
index 93522b3..e2ddff0 100644
--- a/src/server/roots.rs
+++ b/src/server/roots.rs
@@ -109,7 +109,7 @@ impl RootsManager {
         };
 
         {
-            self.roots.write().await.push(root);
+            self.roots.write().await.push(root.clone());
             info!("Registered root: {}", uri);
         }
 
@@ -119,16 +119,14 @@ impl RootsManager {
         // Return unregister function
         let roots = self.roots.clone();
         let notification_sender = self.notification_sender.clone();
-        let unregister_uri = uri.clone();
 
         Ok(move || {
             let roots = roots.clone();
             let notification_sender = notification_sender.clone();
-            let uri = unregister_uri.clone();
 
             tokio::spawn(async move {
                 let mut roots_guard = roots.write().await;
-                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {
+                if let Some(pos) = roots_guard.iter().position(|r| *r == root) {
                     roots_guard.remove(pos);
                     drop(roots_guard);
                     info!("Unregistered root: {}", uri);
-- 
2.43.0


From 7771554ae6dcc0c29514c312f4544a7b51ea56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 02/81] fix: let Server::cancel_request reach the handler of a
 running request

No token was ever registered for an incoming request, so handlers always got
a fresh token and cancelling a running request had no effect.
---
 src/server/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..f82e6c0 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -553,7 +553,11 @@ impl Server {
         id: RequestId,
         request: ClientRequest,
     ) -> JSONRPCResponse {
+        // Register the request so that `cancel_request` reaches its handler.
+        let key = id.to_string();
+        self.cancellation_manager.create_token(key.clone()).await;
         let result = self.process_client_request(id.clone(), request).await;
+        self.cancellation_manager.remove_token(&key).await;
         Self::create_response(id, result)
     }
 
-- 
2.43.0


From 7ce378c0e249ae228c00177452f3d4a7fcb5e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/81] hook: publish the running server to a verification
 harness (cfg pmcp_mc)

---
 src/server/mc_hook.rs | 19 +++++++++++++++++++
 src/server/mod.rs     |  6 ++++++
 2 files changed, 25 insertions(+)
 create mode 100644 src/server/mc_hook.rs

diff --git a/src/server/mc_hook.rs b/src/server/mc_hook.rs
new file mode 100644
index 0000000..71cac6d
--- /dev/null
+++ b/src/server/mc_hook.rs
@@ -0,0 +1,19 @@
+//! Verification hook (compiled only with `--cfg pmcp_mc`): gives a harness the
+//! server handle that `Server::run` otherwise keeps to itself.
+
+use super::Server;
+use std::cell::RefCell;
+use std::sync::Arc;
+
+thread_local! {
+    static RUNNING: RefCell<Vec<Arc<Server>>> = const { RefCell::new(Vec::new()) };
+}
+
+pub(crate) fn publish(server: &Arc<Server>) {
+    RUNNING.with(|r| r.borrow_mut().push(server.clone()));
+}
+
+/// Servers started on this thread since the last call.
+pub fn take_running() -> Vec<Arc<Server>> {
+    RUNNING.with(|r| std::mem::take(&mut *r.borrow_mut()))
+}
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f82e6c0..e0114c5 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -20,6 +20,9 @@ pub mod batch;
 pub mod cancellation;
 pub mod dynamic;
 pub mod elicitation;
+#[allow(unexpected_cfgs)]
+#[cfg(pmcp_mc)]
+pub mod mc_hook;
 pub mod notification_debouncer;
 #[cfg(feature = "resource-watcher")]
 pub mod resource_watcher;
@@ -385,6 +388,9 @@ impl Server {
         self.notification_tx = Some(notification_tx);
 
         let server = Arc::new(self);
+        #[allow(unexpected_cfgs)]
+        #[cfg(pmcp_mc)]
+        mc_hook::publish(&server);
         let transport = Arc::new(RwLock::new(transport));
         let protocol = Arc::new(RwLock::new(Protocol::new(ProtocolOptions::default())));
 
-- 
2.43.0


From d9773b47c50b91ab8ead03a29b7f7da9c7af1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 04/81] fix: reload dynamic configuration in one step

Clearing and re-adding entry by entry let concurrent readers and removals see
a partially loaded configuration.
---
 src/server/dynamic.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/server/dynamic.rs b/src/server/dynamic.rs
index 8a7e56c..8398184 100644
--- a/src/server/dynamic.rs
+++ b/src/server/dynamic.rs
@@ -288,17 +288,39 @@ impl DynamicServerManager {
     pub async fn reload_configuration(&self, config: DynamicConfig) -> Result<()> {
         info!("Reloading dynamic configuration");
 
-        // Clear existing dynamic handlers
-        self.dynamic_tools.write().await.clear();
-        self.dynamic_prompts.write().await.clear();
-
-        // Apply new configuration
-        for (name, tool) in config.tools {
-            self.add_tool(name, tool.handler, tool.info).await?;
+        // Replace the contents in one step: no reader sees a partial configuration
+        let (added_tools, added_prompts) = (config.tools.len(), config.prompts.len());
+        {
+            let mut tools = self.dynamic_tools.write().await;
+            let mut prompts = self.dynamic_prompts.write().await;
+            *tools = config
+                .tools
+                .into_iter()
+                .map(|(name, tool)| (name, tool.handler))
+                .collect();
+            *prompts = config
+                .prompts
+                .into_iter()
+                .map(|(name, prompt)| (name, prompt.handler))
+                .collect();
         }
 
-        for (name, prompt) in config.prompts {
-            self.add_prompt(name, prompt.handler, prompt.info).await?;
+        // Announce each addition
+        for _ in 0..added_tools {
+            self.update_capabilities(|caps| {
+                caps.tools = Some(crate::types::ToolCapabilities {
+                    list_changed: Some(true),
+                });
+            })
+            .await;
+        }
+        for _ in 0..added_prompts {
+            self.update_capabilities(|caps| {
+                caps.prompts = Some(crate::types::PromptCapabilities {
+                    list_changed: Some(true),
+                });
+            })
+            .await;
         }
 
         if let Some(resources) = config.resources {
-- 
2.43.0


From 9cc7378b0e1d609627e346f77afe37387a3f454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 05/81] fix: a timed out batch request is answered under its
 own id

The timeout response carried the string id "null", so the client could not
match it to its request.
---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From 042b7f26eb046f0a06941464773d62b1fdcab6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 06/81] fix: a client whose initialized notification failed is
 not initialized

---
 src/client/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..8ad18f4 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -278,11 +278,11 @@ impl<T: Transport> Client<T> {
                     self.server_capabilities = Some(init_result.capabilities.clone());
                     self.server_version = Some(init_result.server_info.clone());
                     self.instructions.clone_from(&init_result.instructions);
-                    self.initialized = true;
 
                     // Send initialized notification
                     self.send_notification(Notification::Client(ClientNotification::Initialized))
                         .await?;
+                    self.initialized = true;
 
                     Ok(init_result)
                 } else {
-- 
2.43.0


From 20dbe4a6b89773b10ab7b7f825cc21f05acfae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 07/81] fix: concurrent client calls no longer swap their
 responses

---
 src/client/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 8ad18f4..23dcd97 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1330,11 +1330,13 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
-
-        // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
+        // Keep the transport until the response has arrived: the next message is
+        // assumed to be ours, which another call's request in between would break.
+        let response_message = {
+            let mut transport = self.transport.write().await;
+            transport.send(message).await?;
+            transport.receive().await?
+        };
 
         // Remove from active requests
         self.active_requests.write().await.remove(&request_id);
-- 
2.43.0


From 96434b7c1f8d2c33ac24bdf3234f4c91cf267d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 08/81] fix: create_message is possible when the server
 supports sampling

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 23dcd97..f48b364 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From f2879f95aee714b134c71670ac29690b7a9b4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 09/81] fix: a client without the roots capability announces no
 roots changes

---
 src/client/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index f48b364..63cd25c 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1100,14 +1100,15 @@ impl<T: Transport> Client<T> {
     /// - Network or protocol errors occur
     pub async fn send_roots_list_changed(&self) -> Result<()> {
         self.ensure_initialized()?;
-        if let Some(roots) = &self.capabilities.as_ref().and_then(|c| c.roots.as_ref()) {
-            if roots.list_changed {
-                // OK, we support it
-            } else {
-                return Err(Error::capability(
-                    "Client does not support roots list changed notifications",
-                ));
-            }
+        if !self
+            .capabilities
+            .as_ref()
+            .and_then(|c| c.roots.as_ref())
+            .is_some_and(|roots| roots.list_changed)
+        {
+            return Err(Error::capability(
+                "Client does not support roots list changed notifications",
+            ));
         }
 
         self.send_notification(Notification::Client(ClientNotification::RootsListChanged))
-- 
2.43.0


From b5d2d8d7a32f4fc04804ae33aacb6870abc09c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 10/81] fix: no notification leaves the client before
 initialization

---
 src/client/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 63cd25c..cd47384 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1211,6 +1211,7 @@ impl<T: Transport> Client<T> {
     /// Returns an error if:
     /// - Network or protocol errors occur while sending the cancellation
     pub async fn cancel_request(&self, request_id: &RequestId) -> Result<()> {
+        self.ensure_initialized()?;
         // Send cancellation notification
         self.send_notification(Notification::Cancelled(CancelledNotification {
             request_id: request_id.clone(),
@@ -1263,6 +1264,7 @@ impl<T: Transport> Client<T> {
     /// Returns an error if:
     /// - Network or protocol errors occur while sending the notification
     pub async fn send_progress(&self, progress: ProgressNotification) -> Result<()> {
+        self.ensure_initialized()?;
         self.send_notification(Notification::Progress(progress))
             .await
     }
-- 
2.43.0


From a93056e2e9d37e57937d2eafa94e37144420d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 11/81] fix: the answer to an abandoned call is not taken for a
 later call's

---
 src/client/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index cd47384..275a78f 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1324,14 +1324,6 @@ impl<T: Transport> Client<T> {
         request_id: RequestId,
         request: Request,
     ) -> Result<crate::types::JSONRPCResponse> {
-        // Track request for cancellation
-        let (cancel_tx, _cancel_rx) = oneshot::channel();
-        self.active_requests
-            .write()
-            .await
-            .insert(request_id.clone(), cancel_tx);
-
-        // Send request through transport
         let message = crate::types::TransportMessage::Request {
             id: request_id.clone(),
             request,
@@ -1341,8 +1333,29 @@ impl<T: Transport> Client<T> {
         // assumed to be ours, which another call's request in between would break.
         let response_message = {
             let mut transport = self.transport.write().await;
+
+            // Track request for cancellation
+            let (cancel_tx, _cancel_rx) = oneshot::channel();
+            self.active_requests
+                .write()
+                .await
+                .insert(request_id.clone(), cancel_tx);
+
             transport.send(message).await?;
-            transport.receive().await?
+            loop {
+                match transport.receive().await? {
+                    // The answer to a call that was abandoned before it arrived
+                    crate::types::TransportMessage::Response(response)
+                        if response.id != request_id
+                            && self
+                                .active_requests
+                                .write()
+                                .await
+                                .remove(&response.id)
+                                .is_some() => {},
+                    message => break message,
+                }
+            }
         };
 
         // Remove from active requests
-- 
2.43.0


From 78c25a328f673a8f85f03c68fbfbb42a320c6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 12/81] fix: a notification arriving before the response does
 not fail the call

---
 src/client/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 275a78f..791a76e 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1353,6 +1353,12 @@ impl<T: Transport> Client<T> {
                                 .await
                                 .remove(&response.id)
                                 .is_some() => {},
+                    // Notifications may arrive before the response
+                    crate::types::TransportMessage::Notification(notification) => {
+                        if let Some(tx) = &self.notification_tx {
+                            let _ = tx.send(notification).await;
+                        }
+                    },
                     message => break message,
                 }
             }
-- 
2.43.0


From 9bddbf425f47437f9612d6c2265aa3f063293f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 13/81] fix: elicitation requests are sent under the method
 name they are parsed by

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..33e7069 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -195,7 +195,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From 87682d4a2a45b27b593e422ee40c395e81c489a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 14/81] fix: accept methods whose optional parameters are
 omitted or empty

---
 src/shared/protocol_helpers.rs | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 33e7069..8bf3ddf 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -104,45 +104,45 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 // Helper functions for parsing
 
 fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(request_json)
+    parse_method_params(method, params)
         .map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
 }
 
 fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(request_json)
+    parse_method_params(method, params)
         .map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
 }
 
 fn parse_client_notification(method: &str, params: &Value) -> Result<ClientNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_method_params(method, params)
         .map_err(|e| Error::parse(format!("Invalid client notification: {}", e)))
 }
 
 fn parse_server_notification(method: &str, params: &Value) -> Result<ServerNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_method_params(method, params)
         .map_err(|e| Error::parse(format!("Invalid server notification: {}", e)))
 }
 
+/// Parse a method with its parameters. Absent parameters stand for an empty
+/// object, and a method without parameters may still be sent an object.
+fn parse_method_params<T: serde::de::DeserializeOwned>(
+    method: &str,
+    params: &Value,
+) -> serde_json::Result<T> {
+    let parse = |params: &Value| {
+        serde_json::from_value(serde_json::json!({
+            "method": method,
+            "params": params,
+        }))
+    };
+
+    match params {
+        Value::Null => parse(params).or_else(|_| parse(&serde_json::json!({}))),
+        Value::Object(_) => parse(params).or_else(|e| parse(&Value::Null).map_err(|_| e)),
+        _ => parse(params),
+    }
+}
+
 fn client_request_to_jsonrpc(req: ClientRequest) -> (String, Option<Value>) {
     match req {
         // Core protocol requests
-- 
2.43.0


From 232d0ae48a64b6f97c17a71cd91fb8db20113c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 15/81] fix: read the Content-Length header in any letter case
 and spacing

---
 src/shared/stdio.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..84ffc65 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -57,8 +57,11 @@ impl StdioTransport {
     ///
     /// Parses lines like "Content-Length: 42" to extract the length.
     fn parse_content_length(line: &str) -> Option<usize> {
-        line.strip_prefix(CONTENT_LENGTH_HEADER)
-            .and_then(|content| content.trim().parse().ok())
+        let (name, value) = line.split_once(':')?;
+        if !name.trim().eq_ignore_ascii_case("content-length") {
+            return None;
+        }
+        value.trim().parse().ok()
     }
 }
 
-- 
2.43.0


From afd0f651304700811d143da8f56763019593d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 16/81] fix: the streamable HTTP server understands JSON-RPC
 requests

---
 src/server/streamable_http_server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..a3db13d 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -4,7 +4,7 @@ use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
-use crate::shared::TransportMessage;
+use crate::shared::{StdioTransport, TransportMessage};
 use crate::types::{ClientRequest, Request};
 use axum::{
     async_trait,
@@ -554,7 +554,9 @@ async fn handle_post_request(
     }
 
     // Parse the JSON body
-    let message: TransportMessage = match serde_json::from_str(&body) {
+    let message: TransportMessage = match StdioTransport::parse_message(body.as_bytes())
+        .or_else(|_| serde_json::from_str(&body))
+    {
         Ok(msg) => msg,
         Err(e) => {
             return create_error_response(
-- 
2.43.0


From d8a83db7f1d5b62fd2b106b99f547dce419f30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 17/81] fix: the streamable HTTP client sends JSON-RPC

---
 src/shared/streamable_http.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..7f81685 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -4,7 +4,7 @@ use crate::shared::http_constants::{
     MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
 use crate::shared::sse_parser::SseParser;
-use crate::shared::{Transport, TransportMessage};
+use crate::shared::{StdioTransport, Transport, TransportMessage};
 use async_trait::async_trait;
 use parking_lot::RwLock;
 use reqwest::{Client, RequestBuilder, Response};
@@ -326,8 +326,7 @@ impl StreamableHttpTransport {
             return Ok(());
         }
 
-        let body = serde_json::to_string(&message)
-            .map_err(|e| Error::Transport(TransportError::Serialization(e.to_string())))?;
+        let body = StdioTransport::serialize_message(&message)?;
 
         let url = self.config.read().url.clone();
         let builder = self.build_request(reqwest::Method::POST, url).await?;
-- 
2.43.0


From cf4cdd0cf497f4d123f225aaa1891424cbf33915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 18/81] fix: the streamable HTTP client understands every
 JSON-RPC message

---
 src/shared/streamable_http.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index 7f81685..e12a34e 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -249,7 +249,7 @@ impl StreamableHttpTransport {
 
                 // Only process "message" events or no event type
                 if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                    if let Ok(msg) = parse_json_rpc(event.data.as_bytes()) {
                         let _ = sender.send(msg);
                     }
                 }
@@ -373,7 +373,13 @@ impl StreamableHttpTransport {
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
 
             // Try to parse as array first (batch response)
-            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {
+            if let Ok(batch) =
+                serde_json::from_slice::<Vec<Box<serde_json::value::RawValue>>>(&response_bytes)
+            {
+                let batch = batch
+                    .iter()
+                    .map(|item| parse_json_rpc(item.get().as_bytes()))
+                    .collect::<Result<Vec<_>>>()?;
                 for msg in batch {
                     self.sender
                         .send(msg)
@@ -381,9 +387,7 @@ impl StreamableHttpTransport {
                 }
             } else {
                 // Single message
-                let message = serde_json::from_slice(&response_bytes).map_err(|e| {
-                    Error::Transport(TransportError::Deserialization(e.to_string()))
-                })?;
+                let message = parse_json_rpc(&response_bytes)?;
                 self.sender
                     .send(message)
                     .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
@@ -411,7 +415,7 @@ impl StreamableHttpTransport {
 
                     // Only process "message" events
                     if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                        if let Ok(msg) = parse_json_rpc(event.data.as_bytes()) {
                             let _ = sender.send(msg);
                         }
                     }
@@ -431,6 +435,14 @@ impl StreamableHttpTransport {
     }
 }
 
+/// Parse a message sent by the server.
+fn parse_json_rpc(bytes: &[u8]) -> Result<TransportMessage> {
+    StdioTransport::parse_message(bytes).or_else(|_| {
+        serde_json::from_slice(bytes)
+            .map_err(|e| Error::Transport(TransportError::Deserialization(e.to_string())))
+    })
+}
+
 #[async_trait]
 impl Transport for StreamableHttpTransport {
     async fn send(&mut self, message: TransportMessage) -> Result<()> {
-- 
2.43.0


From e38ad48592c6fb11e21e51eb023d888b4878d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 19/81] fix: strip the CR of a CRLF event stream line that
 holds non-ASCII text

---
 src/shared/sse_parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..34e7976 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -171,11 +171,8 @@ impl SseParser {
         let mut events = Vec::new();
 
         while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
-            };
+            let line = &self.buffer[..line_end];
+            let line = line.strip_suffix('\r').unwrap_or(line).to_string();
 
             if let Some(event) = self.process_line(&line) {
                 events.push(event);
-- 
2.43.0


From 478561edf29a2afa37c383ff1cfd435effe576cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 20/81] fix: keep empty data lines of an event

---
 src/shared/sse_parser.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 34e7976..94a9204 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -214,11 +214,11 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
+                if let Some(data) = &mut self.current_event.data {
+                    data.push('\n');
+                    data.push_str(value);
                 } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
+                    self.current_event.data = Some(value.to_string());
                 }
             },
             "id" => {
@@ -242,11 +242,11 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
-        if self.current_event.data.is_empty() {
+        let Some(data) = self.current_event.data.take() else {
             // No data, don't dispatch
             self.current_event = EventBuilder::new();
             return None;
-        }
+        };
 
         let event = SseEvent {
             id: self
@@ -255,7 +255,7 @@ impl SseParser {
                 .clone()
                 .or_else(|| self.last_event_id.clone()),
             event: self.current_event.event.clone(),
-            data: self.current_event.data.clone(),
+            data,
             retry: self.current_event.retry,
         };
 
@@ -286,7 +286,7 @@ impl Default for SseParser {
 struct EventBuilder {
     id: Option<String>,
     event: Option<String>,
-    data: String,
+    data: Option<String>,
     retry: Option<u64>,
 }
 
@@ -295,7 +295,7 @@ impl EventBuilder {
         Self {
             id: None,
             event: None,
-            data: String::new(),
+            data: None,
             retry: None,
         }
     }
-- 
2.43.0


From 753221837fa1b9d68be270b86af4765d1a036515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 21/81] fix: encode an event's empty data and trailing newlines

---
 src/shared/sse_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 94a9204..d247324 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -103,7 +103,7 @@ impl fmt::Display for SseEvent {
         }
 
         // Split data by newlines and write each line
-        for line in self.data.lines() {
+        for line in self.data.split('\n') {
             writeln!(f, "data: {}", line)?;
         }
 
-- 
2.43.0


From ac5e11f06f5a7652f8dbb786c91e0632fb68c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 22/81] fix: ignore a retry field that is not a number of
 digits

---
 src/shared/sse_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index d247324..e2d1b28 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -228,8 +228,10 @@ impl SseParser {
                 }
             },
             "retry" => {
-                if let Ok(retry) = value.parse::<u64>() {
-                    self.current_event.retry = Some(retry);
+                if value.bytes().all(|b| b.is_ascii_digit()) {
+                    if let Ok(retry) = value.parse::<u64>() {
+                        self.current_event.retry = Some(retry);
+                    }
                 }
             },
             _ => {
-- 
2.43.0


From 8c346e2b0f2d7af5953d73a1327fb8ba8f0e800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 23/81] fix: looking a session up does not undo concurrent
 updates

---
 src/shared/session.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..67e57a6 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,11 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
-
-            // Update last activity
-            session.last_activity = Utc::now();
-
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+        // Update last activity in place: a copy written back later would undo
+        // concurrent updates, or bring a destroyed session back
+        self.sessions.get_mut(session_id).map(|mut entry| {
+            entry.last_activity = Utc::now();
+            entry.clone()
         })
     }
 
-- 
2.43.0


From 501adb92299455c048f917ff29ce782ce685a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 24/81] fix: concurrent creations do not exceed the session
 limit

---
 src/shared/session.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 67e57a6..af62f6a 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -89,6 +89,9 @@ pub struct SessionManager {
 
     /// Session event callbacks.
     callbacks: Arc<SessionCallbacks>,
+
+    /// Held while a session is created, so that the limit is never exceeded.
+    creating: parking_lot::Mutex<()>,
 }
 
 impl std::fmt::Debug for SessionManager {
@@ -134,12 +137,14 @@ impl SessionManager {
             sessions: Arc::new(DashMap::new()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
+            creating: parking_lot::Mutex::new(()),
         }
     }
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
         // Check session limit
+        let creating = self.creating.lock();
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
                 ErrorCode::INTERNAL_ERROR,
@@ -160,6 +165,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(creating);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From 468dd825d236d9ee656abbac12cfcca4d35ce975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 25/81] fix: the session middleware does not accept an expired
 session

---
 src/shared/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index af62f6a..ff28d83 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -351,7 +351,7 @@ impl SessionMiddleware {
         F: FnOnce(Option<Session>) -> R,
     {
         let session = if let Some(session_id) = extract_session_id(headers) {
-            self.manager.get_session(&session_id)
+            self.manager.validate_session(&session_id).ok()
         } else {
             None
         };
-- 
2.43.0


From bb54a9bcbb48bf0fa37a5162b035ad27b9c11bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 26/81] fix: cleanup does not remove a session renewed in the
 meantime

---
 src/shared/session.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index ff28d83..e6c6cc6 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -259,7 +259,11 @@ impl SessionManager {
             .collect();
 
         for session_id in expired {
-            if let Some((_, session)) = self.sessions.remove(&session_id) {
+            // (it may have been renewed in the meantime)
+            let expired = self
+                .sessions
+                .remove_if(&session_id, |_, session| session.expires_at < now);
+            if let Some((_, session)) = expired {
                 // Call expiry callback
                 if let Some(callback) = &self.callbacks.on_expire {
                     callback(&session);
-- 
2.43.0


From 5831cdc1019df17a3dafa87642ad0a3d975f1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 27/81] fix: resuming does not hand out sequence numbers again

---
 src/shared/event_store.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index b5b7f74..2ac1025 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -300,13 +300,18 @@ impl ResumptionManager {
             .await?
             .ok_or_else(|| Error::Internal("Invalid or expired resumption token".into()))?;
 
-        // Update sequence counter
-        *self.sequence_counter.write() = state.next_sequence;
-
         // Get events since the last acknowledged event
-        self.event_store
+        let events = self
+            .event_store
             .get_events_since(&state.last_event_id, None)
-            .await
+            .await?;
+
+        // Continue numbering after every event recorded so far
+        let recorded = events.iter().map(|e| e.sequence + 1).max().unwrap_or(0);
+        let mut counter = self.sequence_counter.write();
+        *counter = (*counter).max(state.next_sequence).max(recorded);
+
+        Ok(events)
     }
 
     /// Get pending events that need to be resent.
-- 
2.43.0


From 1fcdeab0c03f7c53c71b0c2a1b18720afb34a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 28/81] fix: an expired resumption token is refused

---
 src/shared/event_store.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index 2ac1025..dad74f6 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -100,7 +100,7 @@ pub struct ResumptionState {
 #[derive(Debug)]
 pub struct InMemoryEventStore {
     events: Arc<RwLock<VecDeque<StoredEvent>>>,
-    tokens: Arc<RwLock<HashMap<String, ResumptionState>>>,
+    tokens: Arc<RwLock<HashMap<String, (ResumptionState, DateTime<Utc>)>>>,
     max_events: usize,
     max_age: chrono::Duration,
 }
@@ -201,21 +201,28 @@ impl EventStore for InMemoryEventStore {
             next_sequence: last_event.sequence + 1,
         };
 
-        self.tokens.write().insert(token_id.clone(), state);
+        let created_at = Utc::now();
+        let expires_at = created_at + chrono::Duration::hours(24);
+        self.tokens
+            .write()
+            .insert(token_id.clone(), (state, expires_at));
 
         Ok(ResumptionToken {
             token: token_id,
             session_id: last_event.session_id.clone(),
             last_event_id: last_event.id.clone(),
-            created_at: Utc::now(),
-            expires_at: Utc::now() + chrono::Duration::hours(24),
+            created_at,
+            expires_at,
             metadata: HashMap::new(),
         })
     }
 
     async fn validate_resumption_token(&self, token: &str) -> Result<Option<ResumptionState>> {
         let tokens = self.tokens.read();
-        Ok(tokens.get(token).cloned())
+        Ok(tokens
+            .get(token)
+            .filter(|(_, expires_at)| Utc::now() <= *expires_at)
+            .map(|(state, _)| state.clone()))
     }
 }
 
-- 
2.43.0


From 0caa690fdab28bcc86a82d50d9f6155b24abfb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 29/81] fix: a reconnecting client is sent only its own
 session's events

---
 src/server/streamable_http_server.rs | 54 +++++++++++-----------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index a3db13d..0fff0b7 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -59,8 +59,6 @@ pub struct InMemoryEventStore {
     events: Arc<RwLock<EventsMap>>,
     /// Event ID to stream ID mapping
     event_to_stream: Arc<RwLock<HashMap<String, String>>>,
-    /// Ordered list of all event IDs
-    event_order: Arc<RwLock<Vec<String>>>,
 }
 
 #[async_trait]
@@ -78,7 +76,6 @@ impl EventStore for InMemoryEventStore {
         self.event_to_stream
             .write()
             .insert(event_id.to_string(), stream_id.to_string());
-        self.event_order.write().push(event_id.to_string());
 
         Ok(())
     }
@@ -87,34 +84,22 @@ impl EventStore for InMemoryEventStore {
         &self,
         last_event_id: &str,
     ) -> Result<Vec<(String, TransportMessage)>> {
-        let event_order = self.event_order.read();
-        let mut result = Vec::new();
-
-        // Find the position of the last event
-        let start_pos = event_order
-            .iter()
-            .position(|id| id == last_event_id)
-            .map_or(0, |pos| pos + 1);
-
-        // Collect all events after that position
+        // Only the stream the event belongs to is replayed: other streams
+        // belong to other sessions
         let events = self.events.read();
         let event_to_stream = self.event_to_stream.read();
-
-        for i in start_pos..event_order.len() {
-            let event_id = &event_order[i];
-            if let Some(stream_id) = event_to_stream.get(event_id) {
-                if let Some(stream_events) = events.get(stream_id) {
-                    for (eid, msg) in stream_events {
-                        if eid == event_id {
-                            result.push((eid.clone(), msg.clone()));
-                            break;
-                        }
-                    }
-                }
-            }
-        }
-
-        Ok(result)
+        let stream_events = event_to_stream
+            .get(last_event_id)
+            .and_then(|stream_id| events.get(stream_id));
+
+        // Collect all events after the last event
+        Ok(stream_events
+            .into_iter()
+            .flatten()
+            .skip_while(|(event_id, _)| event_id != last_event_id)
+            .skip(1)
+            .cloned()
+            .collect())
     }
 
     async fn get_stream_for_event(&self, event_id: &str) -> Result<Option<String>> {
@@ -741,10 +726,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
         if let Ok(last_id) = last_event_id.to_str() {
             if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
-                if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                // Replay events after the last event ID, if it is this session's
+                let stream_id = event_store.get_stream_for_event(last_id).await;
+                if matches!(stream_id, Ok(Some(ref id)) if *id == session_id) {
+                    if let Ok(events) = event_store.replay_events_after(last_id).await {
+                        for (_event_id, msg) in events {
+                            let _ = tx.send(msg);
+                        }
                     }
                 }
             }
-- 
2.43.0


From cf5eab627e098392d4141dd91c39f49b01a2a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 30/81] fix: events are sent with the ID they are stored under,
 and stored once

---
 src/server/streamable_http_server.rs | 36 ++++++++++------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 0fff0b7..93030b1 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -195,7 +195,7 @@ struct ServerState {
     server: Arc<tokio::sync::Mutex<Server>>,
     config: Arc<StreamableHttpServerConfig>,
     /// Active SSE streams by session ID
-    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<TransportMessage>>>>,
+    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<(String, TransportMessage)>>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
 }
@@ -447,6 +447,7 @@ fn update_session_after_init(
 /// Build response with appropriate format (JSON or SSE)
 fn build_response(
     state: &ServerState,
+    event_id: String,
     response: TransportMessage,
     session_id: Option<&String>,
 ) -> Response {
@@ -458,16 +459,15 @@ fn build_response(
         if let Some(sid) = session_id {
             if let Some(sender) = state.sse_streams.read().get(sid) {
                 // Send to existing SSE stream
-                let _ = sender.send(response);
+                let _ = sender.send((event_id, response));
                 StatusCode::ACCEPTED.into_response()
             } else {
                 // Return as SSE stream
                 let (tx, rx) = mpsc::unbounded_channel();
-                tx.send(response).unwrap();
+                tx.send((event_id, response)).unwrap();
 
                 let stream = UnboundedReceiverStream::new(rx);
-                let sse = Sse::new(stream.map(|msg| {
-                    let event_id = Uuid::new_v4().to_string();
+                let sse = Sse::new(stream.map(|(event_id, msg)| {
                     Ok::<_, Infallible>(
                         Event::default()
                             .id(event_id)
@@ -609,16 +609,16 @@ async fn handle_post_request(
                 None
             };
 
-            // Store event if we have an event store
+            // Store event if we have an event store, under the ID it is sent with
+            let event_id = Uuid::new_v4().to_string();
             if let Some(event_store) = &state.config.event_store {
                 if let Some(sid) = &response_session_id {
-                    let event_id = Uuid::new_v4().to_string();
                     let _ = event_store.store_event(sid, &event_id, &response).await;
                 }
             }
 
             // Build response with headers
-            let mut response = build_response(&state, response, session_id.as_ref());
+            let mut response = build_response(&state, event_id, response, session_id.as_ref());
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -730,8 +730,8 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
                 let stream_id = event_store.get_stream_for_event(last_id).await;
                 if matches!(stream_id, Ok(Some(ref id)) if *id == session_id) {
                     if let Ok(events) = event_store.replay_events_after(last_id).await {
-                        for (_event_id, msg) in events {
-                            let _ = tx.send(msg);
+                        for event in events {
+                            let _ = tx.send(event);
                         }
                     }
                 }
@@ -742,20 +742,8 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     let stream = UnboundedReceiverStream::new(rx);
     let session_id_header = session_id.clone();
 
-    let sse = Sse::new(stream.map(move |msg| {
-        let event_id = Uuid::new_v4().to_string();
-
-        // Store event if we have an event store
-        if let Some(event_store) = &state.config.event_store {
-            let sid = session_id.clone();
-            let msg_clone = msg.clone();
-            let store = event_store.clone();
-            let event_id_clone = event_id.clone();
-            tokio::spawn(async move {
-                let _ = store.store_event(&sid, &event_id_clone, &msg_clone).await;
-            });
-        }
-
+    // Events reach the stream with the ID they are stored under
+    let sse = Sse::new(stream.map(|(event_id, msg)| {
         Ok::<_, Infallible>(
             Event::default()
                 .id(event_id)
-- 
2.43.0


From e85f3ba3487255ff27bde98422bd7e2c319fd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 31/81] fix: a client whose event stream broke can open it
 again

---
 src/server/streamable_http_server.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 93030b1..e770b2b 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -457,14 +457,16 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
-            if let Some(sender) = state.sse_streams.read().get(sid) {
+            let event = (event_id, response);
+            let undelivered = match state.sse_streams.read().get(sid) {
                 // Send to existing SSE stream
-                let _ = sender.send((event_id, response));
-                StatusCode::ACCEPTED.into_response()
-            } else {
+                Some(sender) => sender.send(event).err().map(|e| e.0),
+                None => Some(event),
+            };
+            if let Some(event) = undelivered {
                 // Return as SSE stream
                 let (tx, rx) = mpsc::unbounded_channel();
-                tx.send((event_id, response)).unwrap();
+                tx.send(event).unwrap();
 
                 let stream = UnboundedReceiverStream::new(rx);
                 let sse = Sse::new(stream.map(|(event_id, msg)| {
@@ -477,6 +479,8 @@ fn build_response(
                 }));
 
                 sse.into_response()
+            } else {
+                StatusCode::ACCEPTED.into_response()
             }
         } else {
             // No session, return JSON
@@ -706,8 +710,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
+    // Check if stream already exists for this session (and its client is there)
+    let streaming = state
+        .sse_streams
+        .read()
+        .get(&session_id)
+        .is_some_and(|tx| !tx.is_closed());
+    if streaming {
         return create_error_response(
             StatusCode::CONFLICT,
             -32600,
-- 
2.43.0


From 1efef5223ca06758a2ea7396977cfa6a4373e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 32/81] hook: publish the streamable HTTP router to a
 verification harness (cfg pmcp_mc)

---
 src/server/mc_hook.rs                | 16 ++++++++++++++++
 src/server/streamable_http_server.rs |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/src/server/mc_hook.rs b/src/server/mc_hook.rs
index 71cac6d..0e6dd10 100644
--- a/src/server/mc_hook.rs
+++ b/src/server/mc_hook.rs
@@ -17,3 +17,19 @@ pub(crate) fn publish(server: &Arc<Server>) {
 pub fn take_running() -> Vec<Arc<Server>> {
     RUNNING.with(|r| std::mem::take(&mut *r.borrow_mut()))
 }
+
+#[cfg(feature = "streamable-http")]
+thread_local! {
+    static ROUTERS: RefCell<Vec<axum::Router>> = const { RefCell::new(Vec::new()) };
+}
+
+#[cfg(feature = "streamable-http")]
+pub(crate) fn publish_router(app: &axum::Router) {
+    ROUTERS.with(|r| r.borrow_mut().push(app.clone()));
+}
+
+/// Routers of the HTTP servers started on this thread since the last call.
+#[cfg(feature = "streamable-http")]
+pub fn take_routers() -> Vec<axum::Router> {
+    ROUTERS.with(|r| std::mem::take(&mut *r.borrow_mut()))
+}
diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index e770b2b..b07ef7c 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -259,6 +259,10 @@ impl StreamableHttpServer {
             .route("/", delete(handle_delete_session))
             .with_state(self.state);
 
+        #[allow(unexpected_cfgs)]
+        #[cfg(pmcp_mc)]
+        super::mc_hook::publish_router(&app);
+
         let listener = tokio::net::TcpListener::bind(self.addr).await?;
         let local_addr = listener.local_addr()?;
         let server_task = tokio::spawn(async move {
-- 
2.43.0


From 492af537f69bf7450a79ce189063c08c26c13cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 33/81] fix: in stateless mode no event stream is opened and no
 session ID issued

---
 src/server/streamable_http_server.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index b07ef7c..fa23134 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -677,6 +677,15 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         return error_response;
     }
 
+    // Stateless mode, no SSE
+    let Some(generator) = &state.config.session_id_generator else {
+        return create_error_response(
+            StatusCode::METHOD_NOT_ALLOWED,
+            -32601,
+            "SSE not supported in stateless mode",
+        );
+    };
+
     // Extract session ID
     let session_id = headers
         .get(MCP_SESSION_ID)
@@ -686,12 +695,11 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     // Validate or generate session ID
     let session_id = if let Some(sid) = session_id {
         // Validate session exists
-        if state.config.session_id_generator.is_some() && !state.sessions.read().contains_key(&sid)
-        {
+        if !state.sessions.read().contains_key(&sid) {
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
         sid
-    } else if let Some(generator) = &state.config.session_id_generator {
+    } else {
         // Generate new session for GET SSE
         let new_id = generator();
         state.sessions.write().insert(
@@ -705,13 +713,6 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
             callback(&new_id);
         }
         new_id
-    } else {
-        // Stateless mode, no SSE
-        return create_error_response(
-            StatusCode::METHOD_NOT_ALLOWED,
-            -32601,
-            "SSE not supported in stateless mode",
-        );
     };
 
     // Check if stream already exists for this session (and its client is there)
-- 
2.43.0


From 9451515db7779e7cf3ae4901e3aeba7913b77763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 34/81] fix: initialization agrees on the protocol version the
 client asks for

---
 src/server/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index e0114c5..fd7ffa5 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -525,8 +525,16 @@ impl Server {
                 *self.client_capabilities.write().await = Some(init_req.capabilities.clone());
                 *self.initialized.write().await = true;
 
+                // Agree on the version the client asked for, if it is supported
+                let requested = init_req.protocol_version.as_str();
+                let version = if crate::SUPPORTED_PROTOCOL_VERSIONS.contains(&requested) {
+                    requested
+                } else {
+                    crate::DEFAULT_PROTOCOL_VERSION
+                };
+
                 let result = InitializeResult {
-                    protocol_version: ProtocolVersion("2024-11-05".to_string()),
+                    protocol_version: ProtocolVersion(version.to_string()),
                     capabilities: self.capabilities.clone(),
                     server_info: self.info.clone(),
                     instructions: None,
-- 
2.43.0


From 99cffc2de559f7d781e50f51b74f67acb27d6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 35/81] fix: flushing debounced notifications removes them from
 the pending table

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..2cb26a1 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let mut pending_map = pending.write().await;
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in pending_map.drain() {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From 2f980efc1576ba54094fd1a350fbf359dbb4620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 36/81] fix: debounce log messages and root list changes as
 subjects of their own

---
 src/server/notification_debouncer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 2cb26a1..1fd1002 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -229,6 +229,8 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
         #[allow(unreachable_patterns)]
         _ => "unknown".to_string(),
     }
-- 
2.43.0


From 211eea056623e7bb3983ce40545c957c1decd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 37/81] fix: the debounce interval configured for a
 notification type is applied

---
 src/server/notification_debouncer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 1fd1002..d60b785 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -37,7 +37,7 @@ impl Default for NotificationDebouncerConfig {
         let mut type_intervals = HashMap::new();
         // Set specific intervals for known notification types
         type_intervals.insert(
-            "resources/list_changed".to_string(),
+            "resource_list_changed".to_string(),
             Duration::from_millis(500),
         );
         type_intervals.insert("progress".to_string(), Duration::from_millis(100));
@@ -251,9 +251,12 @@ async fn flush_pending(
 
         // Collect notifications that are ready to flush
         pending_map.retain(|key, pending_notif| {
+            // An interval is configured for a subject or for its whole type
+            let type_key = key.split_once(':').map_or(key.as_str(), |(t, _)| t);
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| config.type_intervals.get(type_key))
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From f3318aa1557ef70865e5bf09c19d8776c05ff05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 38/81] fix: concurrent flushes of debounced notifications keep
 their order

---
 src/server/notification_debouncer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index d60b785..4cee997 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -9,7 +9,7 @@ use crate::types::protocol::ServerNotification;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tokio::time::{interval, sleep, Instant};
 use tracing::{debug, trace, warn};
 
@@ -57,7 +57,9 @@ impl Default for NotificationDebouncerConfig {
 pub struct NotificationDebouncer {
     config: NotificationDebouncerConfig,
     pending: Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: mpsc::Sender<ServerNotification>,
+    /// Held from collecting notifications until they are sent, so that
+    /// concurrent flushes cannot reorder them
+    output_tx: Arc<Mutex<mpsc::Sender<ServerNotification>>>,
     shutdown_tx: Option<mpsc::Sender<()>>,
 }
 
@@ -89,7 +91,7 @@ impl NotificationDebouncer {
         Self {
             config,
             pending: Arc::new(RwLock::new(HashMap::new())),
-            output_tx,
+            output_tx: Arc::new(Mutex::new(output_tx)),
             shutdown_tx: None,
         }
     }
@@ -240,9 +242,10 @@ fn notification_key(notification: &ServerNotification) -> String {
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: &mpsc::Sender<ServerNotification>,
+    output_tx: &Mutex<mpsc::Sender<ServerNotification>>,
     config: &NotificationDebouncerConfig,
 ) {
+    let output_tx = output_tx.lock().await;
     let now = Instant::now();
     let mut to_flush = Vec::new();
 
@@ -299,11 +302,12 @@ async fn flush_pending(
 /// Flush all pending notifications immediately
 async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: &mpsc::Sender<ServerNotification>,
+    output_tx: &Mutex<mpsc::Sender<ServerNotification>>,
 ) {
-    let mut pending_map = pending.write().await;
+    let output_tx = output_tx.lock().await;
+    let drained = std::mem::take(&mut *pending.write().await);
 
-    for (_, pending_notif) in pending_map.drain() {
+    for pending_notif in drained.into_values() {
         // Send the main notification
         let _ = output_tx.send(pending_notif.notification).await;
 
-- 
2.43.0


From af64bb9298168c1f992705b90652bed57df89170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 39/81] fix: full notification batches leave in the order they
 were filled

---
 src/server/notification_debouncer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 4cee997..867e398 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -359,9 +359,8 @@ impl NotificationBatcher {
         // Check if batch is full
         if batch.len() >= self.max_batch_size {
             let full_batch = std::mem::take(batch);
-            drop(batches);
 
-            // Send the batch
+            // Send the batch before anyone can start or send the next one
             let _ = self.output_tx.send(full_batch).await;
         } else {
             // Schedule timeout for this batch
-- 
2.43.0


From a038f41246378cda69880353f32f7325edb02076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:52 +0000
Subject: [PATCH 40/81] fix: message batches leave in the order they were
 filled

---
 src/utils/batching.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..670cbe5 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -116,13 +116,11 @@ impl MessageBatcher {
 
         if pending.len() >= self.config.max_batch_size {
             let batch = std::mem::take(&mut *pending);
-            drop(pending);
+            // Still locked: the next batch cannot overtake this one
             self.tx
                 .send(batch)
                 .await
                 .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;
-        } else {
-            drop(pending);
         }
 
         Ok(())
@@ -168,7 +166,7 @@ impl MessageBatcher {
                 let mut pending_guard = pending.lock().await;
                 if !pending_guard.is_empty() {
                     let batch = std::mem::take(&mut *pending_guard);
-                    drop(pending_guard);
+                    // Still locked: the next batch cannot overtake this one
                     if tx.send(batch).await.is_err() {
                         break;
                     }
-- 
2.43.0


From 8e19803bb4461da6cfc02b7aae22da4de994d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 41/81] fix: a debounced message is not lost to an abort of its
 timer

---
 src/utils/batching.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 670cbe5..3f01983 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -331,6 +331,10 @@ impl MessageDebouncer {
             .copied()
             .unwrap_or(self.config.wait_time);
 
+        // The timers stay locked until the new one is stored, so that a timer,
+        // another `add` or a `flush` sees the notification and its timer together
+        let mut active_timers = self.timers.lock().await;
+
         // Store the latest notification
         {
             let mut pending = self.pending.lock().await;
@@ -338,11 +342,8 @@ impl MessageDebouncer {
         }
 
         // Cancel existing timer
-        {
-            let mut timers = self.timers.lock().await;
-            if let Some(handle) = timers.remove(&key) {
-                handle.abort();
-            }
+        if let Some(handle) = active_timers.remove(&key) {
+            handle.abort();
         }
 
         // Start new timer
@@ -354,27 +355,26 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
-            // Send the notification
-            let notification = {
-                let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
+            // Wait for everything that can block first: once the notification is
+            // taken, an abort must not lose it
+            let Ok(permit) = tx.reserve().await else {
+                return;
             };
+            let mut timers = timers.lock().await;
+            let mut pending = pending.lock().await;
 
-            if let Some(notification) = notification {
+            // Send the notification
+            if let Some(notification) = pending.remove(&key_clone) {
                 debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+                permit.send(notification);
             }
 
             // Remove timer handle
-            let mut timers = timers.lock().await;
             timers.remove(&key_clone);
         });
 
         // Store timer handle
-        {
-            let mut timers = self.timers.lock().await;
-            timers.insert(key, handle);
-        }
+        active_timers.insert(key, handle);
 
         Ok(())
     }
@@ -447,11 +447,9 @@ impl MessageDebouncer {
     /// ```
     pub async fn flush(&self) -> Vec<Notification> {
         // Cancel all timers
-        {
-            let mut timers = self.timers.lock().await;
-            for (_, handle) in timers.drain() {
-                handle.abort();
-            }
+        let mut timers = self.timers.lock().await;
+        for (_, handle) in timers.drain() {
+            handle.abort();
         }
 
         // Get all pending notifications
-- 
2.43.0


From 8f1c473d9063d911c63f36d33fc17874a71a4c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 42/81] fix: the retry limit holds after the circuit breaker's
 timeout

---
 src/shared/reconnect.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..4d4a2d6 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -227,7 +227,7 @@ impl ReconnectManager {
                             callback();
                         }
 
-                        true
+                        self.retries_left()
                     } else {
                         false
                     }
@@ -237,15 +237,18 @@ impl ReconnectManager {
             },
             _ => {
                 // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
+                self.retries_left()
             },
         }
     }
 
+    /// Whether the retry limit allows another attempt.
+    fn retries_left(&self) -> bool {
+        self.config
+            .max_retries
+            .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max)
+    }
+
     /// Calculate next retry delay with exponential backoff and jitter.
     pub fn calculate_delay(&self) -> Duration {
         let retry_count = self.retry_count.load(Ordering::Relaxed);
-- 
2.43.0


From 0a09110bb79e998dc9301803e66068a6932363b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 43/81] fix: jitter does not push a reconnection delay beyond
 its maximum

---
 src/shared/reconnect.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4d4a2d6..ca5472a 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -275,7 +275,9 @@ impl ReconnectManager {
             let random_factor = nanos as f64 / 1_000_000_000.0; // 0.0 to 1.0
             (random_factor * jitter_range).mul_add(2.0, -jitter_range)
         };
-        let final_delay = (capped_delay + jitter).max(0.0);
+        let final_delay = (capped_delay + jitter)
+            .min(self.config.max_delay.as_secs_f64())
+            .max(0.0);
 
         Duration::from_secs_f64(final_delay)
     }
-- 
2.43.0


From 05cd74b479ab1d2b98b7ccb19b1ad76ae028edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 44/81] fix: losing a connection does not bypass an open
 reconnection circuit

---
 src/shared/reconnect.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index ca5472a..cad0ebd 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -358,7 +358,10 @@ impl ReconnectManager {
             }
         }
 
-        *self.state.write().await = ConnectionState::Disconnected;
+        // Losing a connection does not close an open circuit
+        if state != ConnectionState::CircuitOpen {
+            *self.state.write().await = ConnectionState::Disconnected;
+        }
         info!("Connection lost");
     }
 
-- 
2.43.0


From b8586000e2ca0c296c5dd555fd5dcd1eb06be5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 45/81] fix: the first exponential retry delay obeys the
 maximum

---
 src/error/recovery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..322a5b0 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -571,7 +571,7 @@ impl RecoveryExecutor {
         Fut: Future<Output = Result<serde_json::Value>>,
     {
         let mut last_error = error;
-        let mut current_delay = initial_delay;
+        let mut current_delay = initial_delay.min(max_delay);
 
         for attempt in 1..=attempts {
             if self.policy.log_attempts {
-- 
2.43.0


From 804d9d75cda311eb1758fd439fe324a08c525fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 46/81] fix: circuit breaker transitions are atomic and an open
 circuit stays open

---
 src/error/recovery.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 322a5b0..5d4349e 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -334,16 +334,16 @@ impl CircuitBreaker {
     /// # }
     /// ```
     pub async fn allow_request(&self) -> bool {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => true,
             CircuitState::Open => {
                 // Check if we should transition to half-open
                 let last_failure_opt = *self.last_failure_time.read().await;
                 if let Some(last_failure) = last_failure_opt {
                     if last_failure.elapsed() >= self.config.timeout {
-                        *self.state.write().await = CircuitState::HalfOpen;
+                        *state = CircuitState::HalfOpen;
                         *self.success_count.write().await = 0;
                         info!("Circuit breaker transitioning to half-open");
                         true
@@ -360,9 +360,9 @@ impl CircuitBreaker {
 
     /// Record a success.
     pub async fn record_success(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 *self.failure_count.write().await = 0;
             },
@@ -371,36 +371,35 @@ impl CircuitBreaker {
                 *success_count += 1;
 
                 if *success_count >= self.config.success_threshold {
-                    *self.state.write().await = CircuitState::Closed;
+                    *state = CircuitState::Closed;
                     *self.failure_count.write().await = 0;
                     info!("Circuit breaker closed after successful recovery");
                 }
             },
             CircuitState::Open => {
-                // Shouldn't happen, but reset anyway
-                *self.state.write().await = CircuitState::Closed;
-                *self.failure_count.write().await = 0;
+                // A request admitted before the circuit opened: it stays open
+                // until its timeout
             },
         }
     }
 
     /// Record a failure.
     pub async fn record_failure(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 let mut failure_count = self.failure_count.write().await;
                 *failure_count += 1;
 
                 if *failure_count >= self.config.failure_threshold {
-                    *self.state.write().await = CircuitState::Open;
+                    *state = CircuitState::Open;
                     *self.last_failure_time.write().await = Some(std::time::Instant::now());
                     warn!("Circuit breaker opened after {} failures", failure_count);
                 }
             },
             CircuitState::HalfOpen => {
-                *self.state.write().await = CircuitState::Open;
+                *state = CircuitState::Open;
                 *self.last_failure_time.write().await = Some(std::time::Instant::now());
                 *self.failure_count.write().await = 1;
                 warn!("Circuit breaker reopened after failure in half-open state");
-- 
2.43.0


From 745926993ff7d1d0d6ed1cbd6bdd7928d0713d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 47/81] fix: a recovery circuit breaker is asked before the
 operation runs

---
 src/error/recovery.rs | 56 ++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 5d4349e..8ef6c1f 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -463,10 +463,29 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        // An open circuit lets nothing through
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
+        if let Some(cb) = &breaker {
+            if !cb.allow_request().await {
+                if self.policy.log_attempts {
+                    warn!("Circuit breaker open for operation: {}", operation_id);
+                }
+                return Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    "Circuit breaker is open",
+                ));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
-                if let Some(cb) = self.circuit_breakers.read().await.get(operation_id) {
+                if let Some(cb) = breaker {
                     cb.record_success().await;
                 }
                 Ok(result)
@@ -509,7 +528,6 @@ impl RecoveryExecutor {
                             *failure_threshold,
                             *success_threshold,
                             *timeout,
-                            operation,
                         )
                         .await
                     },
@@ -622,19 +640,15 @@ impl RecoveryExecutor {
         }
     }
 
-    async fn circuit_breaker<F, Fut>(
+    /// Record the failure of an operation under a circuit breaker.
+    async fn circuit_breaker(
         &self,
-        _error: Error,
+        error: Error,
         operation_id: &str,
         failure_threshold: u32,
         success_threshold: u32,
         timeout: Duration,
-        operation: F,
-    ) -> Result<serde_json::Value>
-    where
-        F: Fn() -> Fut,
-        Fut: Future<Output = Result<serde_json::Value>>,
-    {
+    ) -> Result<serde_json::Value> {
         // Get or create circuit breaker
         let cb = {
             let mut breakers = self.circuit_breakers.write().await;
@@ -650,26 +664,8 @@ impl RecoveryExecutor {
                 .clone()
         };
 
-        if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
-        }
-
-        match operation().await {
-            Ok(result) => {
-                cb.record_success().await;
-                Ok(result)
-            },
-            Err(e) => {
-                cb.record_failure().await;
-                Err(e)
-            },
-        }
+        cb.record_failure().await;
+        Err(error)
     }
 }
 
-- 
2.43.0


From c2a6852f11a7eb45aa54fe0a6daf0e044838ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 48/81] fix: a refresh token can be used by one of two
 concurrent requests only

---
 src/server/auth/oauth2.rs | 46 ++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..715a333 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -640,37 +640,29 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
-        // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
-        let old_token = refresh_tokens
-            .get(refresh_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
-            .clone();
-
-        // Get token info
-        let tokens = self.tokens.read().await;
-        let token_info = tokens
-            .get(&old_token)
+        // Take the refresh token: only one request can have it
+        let old_token = self
+            .refresh_tokens
+            .write()
+            .await
+            .remove(refresh_token)
             .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
 
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
-
-        drop(tokens);
-        drop(refresh_tokens);
-
-        // Remove old tokens
-        let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
-        drop(tokens);
-
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
-        drop(refresh_tokens);
+        // Take the access token it replaces
+        let token_info = self
+            .tokens
+            .write()
+            .await
+            .remove(&old_token)
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
 
         // Create new token
-        self.create_access_token(&client_id, &user_id, scopes).await
+        self.create_access_token(
+            &token_info.client_id,
+            &token_info.user_id,
+            token_info.scopes,
+        )
+        .await
     }
 
     async fn revoke_token(&self, token: &str) -> Result<()> {
-- 
2.43.0


From d2936c0ac28bbc8f6595a7c424062a592c1a404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 49/81] fix: issuing a token does not deadlock with a
 concurrent revocation

---
 src/server/auth/oauth2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index 715a333..a6f64fa 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -624,6 +624,7 @@ impl OAuthProvider for InMemoryOAuthProvider {
 
         let mut tokens = self.tokens.write().await;
         tokens.insert(access_token.clone(), token_info);
+        drop(tokens);
 
         // Store refresh token mapping
         let mut refresh_tokens = self.refresh_tokens.write().await;
-- 
2.43.0


From b4a77d5aaeec1aa277f1fb5bda9bcceaab9a3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 50/81] fix: exchanging a code requires the client's secret

---
 src/server/auth/oauth2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index a6f64fa..5e4f4fd 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -566,6 +566,16 @@ impl OAuthProvider for InMemoryOAuthProvider {
             ));
         }
 
+        // Authenticate the client
+        if let Some(client) = self.get_client(client_id).await? {
+            if client.client_secret.is_some() && client.client_secret != request.client_secret {
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Invalid client credentials",
+                ));
+            }
+        }
+
         // Validate redirect URI
         let redirect_uri = request
             .redirect_uri
-- 
2.43.0


From 59a36511e4c3c258ed08aba2905b0d2ccd865215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 51/81] fix: reserved and fragment expansion encode only and
 all of what a URI cannot hold

---
 src/shared/uri_template.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..b96130f 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -331,16 +331,17 @@ impl UriTemplate {
 
         for spec in specs {
             if let Some(value) = vars.get(&spec.name) {
+                let allow_reserved = matches!(op, Operator::Reserved | Operator::Fragment);
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, allow_reserved)
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, allow_reserved)
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, allow_reserved),
                 };
 
                 match op {
@@ -392,8 +393,23 @@ impl UriTemplate {
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
         if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
+            // Keep reserved characters and percent-encoded triplets
+            let mut encoded = String::with_capacity(value.len());
+            for (i, c) in value.char_indices() {
+                let keep = match c {
+                    '%' => value
+                        .as_bytes()
+                        .get(i + 1..i + 3)
+                        .is_some_and(|hex| hex.iter().all(u8::is_ascii_hexdigit)),
+                    _ => c.is_ascii_alphanumeric() || "-._~:/?#[]@!$&'()*+,;=".contains(c),
+                };
+                if keep {
+                    encoded.push(c);
+                } else {
+                    encoded.push_str(&urlencoding::encode(c.encode_utf8(&mut [0; 4])));
+                }
+            }
+            encoded
         } else {
             // Percent-encode reserved characters
             urlencoding::encode(value).into_owned()
-- 
2.43.0


From 3e8d2a8ae5e446b610126c817d0e966dae23da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 52/81] fix: a path parameter with an empty value expands to
 its name

---
 src/shared/uri_template.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index b96130f..1df0160 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -354,6 +354,9 @@ impl UriTemplate {
                     Operator::PathSegment => {
                         parts.push(encoded);
                     },
+                    Operator::PathParameter if encoded.is_empty() => {
+                        parts.push(spec.name.clone());
+                    },
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-- 
2.43.0


From 234dee86c292d8f3c5a6fff9427b15281c93e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 53/81] fix: variables after a multi-variable expression match
 their own part of the URI

---
 src/shared/uri_template.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 1df0160..c1953c6 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -445,6 +445,8 @@ impl UriTemplate {
                 if let Some(value) = captures.get(capture_index) {
                     vars.insert(var_name, value.as_str().to_string());
                 }
+            }
+            if !matches!(expr, Expression::Literal(_)) {
                 capture_index += 1;
             }
         }
-- 
2.43.0


From 3551dc76bb1b420341317b1543690e1b0da3fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 54/81] fix: reserved values with slashes and labels with dots
 match their template

---
 src/shared/uri_template.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index c1953c6..17aa7a2 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -488,14 +488,17 @@ impl UriTemplate {
                     // Handle based on operator type
                     if specs.len() == 1 {
                         match op {
-                            Operator::Simple | Operator::Reserved => {
+                            Operator::Simple => {
                                 pattern.push_str("([^/]+)");
                             },
+                            Operator::Reserved => {
+                                pattern.push_str("(.+)");
+                            },
                             Operator::Fragment => {
                                 pattern.push_str("#(.+)");
                             },
                             Operator::Label => {
-                                pattern.push_str(r"\.([^.]+)");
+                                pattern.push_str(r"\.([^/]+)");
                             },
                             Operator::PathSegment => {
                                 pattern.push_str("/([^/]+)");
-- 
2.43.0


From 886ca54254460460d62448c49693610a5ccfeace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 55/81] fix: unbalanced braces and malformed prefix lengths are
 rejected

---
 src/shared/uri_template.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 17aa7a2..29be904 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -135,9 +135,9 @@ impl UriTemplate {
 
             // Add literal text before this expression
             if match_range.start() > last_end {
-                expressions.push(Expression::Literal(
-                    template[last_end..match_range.start()].to_string(),
-                ));
+                expressions.push(Self::parse_literal(
+                    &template[last_end..match_range.start()],
+                )?);
             }
 
             // Parse the expression
@@ -149,12 +149,23 @@ impl UriTemplate {
 
         // Add remaining literal text
         if last_end < template.len() {
-            expressions.push(Expression::Literal(template[last_end..].to_string()));
+            expressions.push(Self::parse_literal(&template[last_end..])?);
         }
 
         Ok(expressions)
     }
 
+    /// Literal text holds no braces of its own
+    fn parse_literal(text: &str) -> Result<Expression> {
+        if text.contains(['{', '}']) {
+            return Err(Error::Validation(format!(
+                "Unbalanced or empty template expression in: {}",
+                text
+            )));
+        }
+        Ok(Expression::Literal(text.to_string()))
+    }
+
     /// Parse a single expression
     fn parse_expression(expr: &str) -> Result<Expression> {
         if expr.is_empty() {
@@ -211,6 +222,13 @@ impl UriTemplate {
 
             Self::validate_var_name(name)?;
 
+            if length_str.starts_with(['+', '0']) {
+                return Err(Error::Validation(format!(
+                    "Invalid prefix length: {}",
+                    length_str
+                )));
+            }
+
             let length = length_str
                 .parse::<usize>()
                 .map_err(|_| Error::Validation(format!("Invalid prefix length: {}", length_str)))?;
-- 
2.43.0


From 696795cf509fd39b2af5f7bbb4fdd45a4c2658ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 56/81] fix: a handler's protocol error reaches the client with
 its code, message and data

---
 src/server/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fd7ffa5..6835bba 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -622,13 +622,7 @@ impl Server {
             Err(e) => JSONRPCResponse {
                 jsonrpc: "2.0".to_string(),
                 id,
-                payload: crate::types::jsonrpc::ResponsePayload::Error(
-                    crate::types::jsonrpc::JSONRPCError {
-                        code: -32603,
-                        message: e.to_string(),
-                        data: None,
-                    },
-                ),
+                payload: crate::types::jsonrpc::ResponsePayload::Error(e.into()),
             },
         }
     }
-- 
2.43.0


From f28504bdf0ff75e7a14c1d72b78a29f8caf08e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 57/81] fix: scanning ends when a match is the last byte of a
 vector

---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..4f44129 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -60,7 +60,7 @@ pub mod json {
             );
 
             // Extract mask as integer
-            let mask = _mm256_movemask_epi8(ws_mask);
+            let mask = _mm256_movemask_epi8(ws_mask) as u32;
 
             // Find positions of set bits
             let mut m = mask;
@@ -273,7 +273,7 @@ pub mod json {
             let quote_mask = _mm256_cmpeq_epi8(data, quote);
             let escape_mask = _mm256_or_si256(backslash_mask, quote_mask);
 
-            let mask = _mm256_movemask_epi8(escape_mask);
+            let mask = _mm256_movemask_epi8(escape_mask) as u32;
 
             let mut m = mask;
             let mut bit_pos = 0;
@@ -463,7 +463,7 @@ pub mod compression {
             let offset = i * 32;
             let data = _mm256_loadu_si256(haystack.as_ptr().add(offset) as *const __m256i);
             let cmp = _mm256_cmpeq_epi8(data, first_vec);
-            let mask = _mm256_movemask_epi8(cmp);
+            let mask = _mm256_movemask_epi8(cmp) as u32;
 
             if mask != 0 {
                 // Found potential matches, check each one
-- 
2.43.0


From 451dc56820ee8817d6b05eac383526d0cb231a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 58/81] fix: lengths are validated alike in and after full
 vectors

---
 src/simd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 4f44129..6a62946 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -503,13 +503,14 @@ pub mod batch {
     pub unsafe fn batch_validate_lengths(lengths: &[u32], max_length: u32) -> Vec<bool> {
         let mut results = Vec::with_capacity(lengths.len());
         let max_vec = _mm256_set1_epi32(max_length as i32);
+        // (unsigned) length <= max_length exactly when the greater of both is max_length
 
         let chunks = lengths.len() / 8;
 
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(data, max_vec), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From 3d727e3f8be4b5da615b4fcf348af289398640ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 59/81] fix: parse_json_fast keeps tokens apart when it strips
 whitespace

---
 src/utils/json_simd.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..bf27676 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -28,10 +28,12 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
         if ws_positions.len() < input.len() / 10 {
             serde_json::from_slice(input)
         } else {
-            // Strip unnecessary whitespace first
+            // Strip unnecessary whitespace first: of each run outside strings
+            // one byte stays, as it may separate two tokens
             let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
             let mut in_string = false;
             let mut escape_next = false;
+            let mut after_whitespace = false;
 
             for (i, &byte) in input.iter().enumerate() {
                 if escape_next {
@@ -52,10 +54,11 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
                     continue;
                 }
 
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
+                let is_whitespace = !in_string && ws_positions.binary_search(&i).is_ok();
+                if is_whitespace && after_whitespace {
                     continue;
                 }
+                after_whitespace = is_whitespace;
 
                 cleaned.push(byte);
             }
-- 
2.43.0


From eac753401a0679ead429a21d383431a91b20b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 60/81] fix: pretty_print_fast keeps non-ASCII text

---
 src/utils/json_simd.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index bf27676..38517f9 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -123,7 +123,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -131,7 +131,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -146,38 +146,40 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
                 if !in_string {
                     match byte {
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.extend(" ".repeat(indent).bytes());
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.extend(" ".repeat(indent).bytes());
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.extend(" ".repeat(indent).bytes());
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            return String::from_utf8(result).map_err(|e| {
+                serde_json::Error::io(std::io::Error::new(std::io::ErrorKind::InvalidData, e))
+            });
         }
     }
 
-- 
2.43.0


From 65f5099abe02e4722387e75dda37fab4f8b9bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 61/81] fix: UTF-8 validation rejects overlong and surrogate
 forms and lets sequences span vectors

---
 src/simd/mod.rs | 140 +++---------------------------------------------
 1 file changed, 7 insertions(+), 133 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 6a62946..448fd38 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -85,110 +85,6 @@ pub mod json {
         positions
     }
 
-    /// Validates a UTF-8 continuation byte
-    #[inline]
-    fn is_valid_continuation_byte(byte: u8) -> bool {
-        byte & 0xC0 == 0x80
-    }
-
-    /// Validates a multi-byte UTF-8 sequence starting at position
-    fn validate_multibyte_sequence(input: &[u8], start: usize, first_byte: u8) -> bool {
-        let len = input.len();
-
-        if first_byte < 0xC0 {
-            false // Invalid continuation byte
-        } else if first_byte < 0xE0 {
-            // 2-byte sequence
-            validate_2byte_sequence(input, start, len)
-        } else if first_byte < 0xF0 {
-            // 3-byte sequence
-            validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
-            // 4-byte sequence
-            validate_4byte_sequence(input, start, len)
-        } else {
-            false // Invalid UTF-8
-        }
-    }
-
-    /// Validates a 2-byte UTF-8 sequence
-    #[inline]
-    fn validate_2byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 1 < len && is_valid_continuation_byte(input[start + 1])
-    }
-
-    /// Validates a 3-byte UTF-8 sequence  
-    #[inline]
-    fn validate_3byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 2 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-    }
-
-    /// Validates a 4-byte UTF-8 sequence
-    #[inline]
-    fn validate_4byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 3 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-            && is_valid_continuation_byte(input[start + 3])
-    }
-
-    /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
-    #[cfg(target_arch = "x86_64")]
-    #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
-        let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
-
-        // Check for ASCII bytes (< 0x80) - fast path
-        let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
-
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
-        }
-
-        // Fall back to scalar validation for non-ASCII bytes
-        validate_chunk_scalar(input, offset, 32)
-    }
-
-    /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
-        let len = input.len();
-        let end = std::cmp::min(start + chunk_size, len);
-
-        let mut i = start;
-        while i < end {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            // Multi-byte sequence - validate and advance
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            // Advance by the correct number of bytes for this sequence
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
-    }
-
-    /// Gets the length of a UTF-8 sequence from its first byte
-    #[inline]
-    fn get_utf8_sequence_length(first_byte: u8) -> usize {
-        if first_byte < 0xE0 {
-            2
-        } else if first_byte < 0xF0 {
-            3
-        } else {
-            4
-        }
-    }
-
     /// SIMD-accelerated string validation (UTF-8)
     ///
     /// Validates UTF-8 byte sequences using AVX2 instructions for improved performance.
@@ -214,41 +110,19 @@ pub mod json {
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
     pub unsafe fn validate_utf8_simd(input: &[u8]) -> bool {
-        let len = input.len();
         let mut i = 0;
 
-        // Process 32 bytes at a time with SIMD
-        while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
+        // Skip 32 ASCII bytes at a time: their high bits are clear
+        while i + 32 <= input.len() {
+            let data = _mm256_loadu_si256(input.as_ptr().add(i) as *const __m256i);
+            if _mm256_movemask_epi8(data) != 0 {
+                break;
             }
             i += 32;
         }
 
-        // Process remaining bytes with scalar validation
-        validate_remaining_bytes(input, i)
-    }
-
-    /// Validates remaining bytes after SIMD processing
-    fn validate_remaining_bytes(input: &[u8], start: usize) -> bool {
-        let len = input.len();
-        let mut i = start;
-
-        while i < len {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
+        // From the first vector with other bytes on, sequences may span vectors
+        std::str::from_utf8(&input[i..]).is_ok()
     }
 
     /// SIMD-accelerated JSON string escape detection
-- 
2.43.0


From b16d5c9e65ba3dcf9533b8474fd2a2a28b90b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 62/81] fix: a request ID that is not a number survives context
 propagation

---
 src/shared/context.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..0e38b68 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -272,13 +272,14 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                // (a number was sent as its plain decimal form)
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| match id.parse::<i64>() {
+                        Ok(number) if number.to_string() == *id => RequestId::from(number),
+                        _ => RequestId::from(id.clone()),
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From 14c627e5698976722667ff1d4d7e14275493d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 63/81] fix: a traceparent header that is not ASCII does not
 panic

---
 src/shared/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index 0e38b68..5162ad7 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -245,7 +245,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +259,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From 2343fdf64cbb206442154885644d02378d54bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 64/81] fix: a span ID shorter than 16 digits can be propagated

---
 src/shared/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index 5162ad7..a23c3c5 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,7 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex: String = self.span_id.replace('-', "").chars().take(16).collect();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
-- 
2.43.0


From 1cd4c0f6f26e172b985577b67bb6fcb6452670bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 65/81] fix: file completion takes a typed dot for the start of
 a name

---
 src/types/completable.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/types/completable.rs b/src/types/completable.rs
index fd9b7d1..b2c17ea 100644
--- a/src/types/completable.rs
+++ b/src/types/completable.rs
@@ -307,18 +307,12 @@ impl CompletionProviderTrait for FileCompletionProvider {
     ) -> crate::error::Result<CompletionResponse> {
         use std::path::Path;
 
-        let partial_path = Path::new(&request.partial);
-        let (dir_path, file_prefix) = if request.partial.ends_with(std::path::MAIN_SEPARATOR) {
-            (partial_path, "")
-        } else {
-            (
-                partial_path.parent().unwrap_or_else(|| Path::new(".")),
-                partial_path
-                    .file_name()
-                    .and_then(|s| s.to_str())
-                    .unwrap_or(""),
-            )
+        // Everything after the last separator is the typed prefix (also "." or "..")
+        let (dir_path, file_prefix) = match request.partial.rfind(std::path::MAIN_SEPARATOR) {
+            Some(i) => request.partial.split_at(i + 1),
+            None => ("", request.partial.as_str()),
         };
+        let dir_path = Path::new(dir_path);
 
         let search_dir = if dir_path.is_absolute() {
             dir_path.to_path_buf()
-- 
2.43.0


From 552edda786e31864ce7845d491b47cde4f6be4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 66/81] fix: file completion without a base directory completes
 names in the current one

---
 src/types/completable.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/completable.rs b/src/types/completable.rs
index b2c17ea..18906e9 100644
--- a/src/types/completable.rs
+++ b/src/types/completable.rs
@@ -318,6 +318,8 @@ impl CompletionProviderTrait for FileCompletionProvider {
             dir_path.to_path_buf()
         } else if let Some(base) = &self.base_dir {
             base.join(dir_path)
+        } else if dir_path.as_os_str().is_empty() {
+            std::path::PathBuf::from(".")
         } else {
             dir_path.to_path_buf()
         };
-- 
2.43.0


From 98cccd100c90d33cfce2da66525cb93048aa2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 67/81] fix: the streamable HTTP client hands over events as
 they arrive

---
 src/shared/streamable_http.rs | 87 +++++++++++++++++------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index e12a34e..bd522e8 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -232,29 +232,7 @@ impl StreamableHttpTransport {
         let on_resumption = self.config.read().on_resumption_token.clone();
         let last_event_id = self.last_event_id.clone();
 
-        let handle = tokio::spawn(async move {
-            let mut sse_parser = SseParser::new();
-            let body = response.text().await.unwrap_or_default();
-
-            // For now, parse the whole body - later we can stream with hyper Body
-            let events = sse_parser.feed(&body);
-            for event in events {
-                // Update last event ID and notify callback
-                if let Some(id) = &event.id {
-                    *last_event_id.write() = Some(id.clone());
-                    if let Some(callback) = &on_resumption {
-                        callback(id.clone());
-                    }
-                }
-
-                // Only process "message" events or no event type
-                if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = parse_json_rpc(event.data.as_bytes()) {
-                        let _ = sender.send(msg);
-                    }
-                }
-            }
-        });
+        let handle = tokio::spawn(read_events(response, sender, on_resumption, last_event_id));
 
         *self.abort_handle.write() = Some(handle);
         Ok(())
@@ -398,29 +376,7 @@ impl StreamableHttpTransport {
             let on_resumption = self.config.read().on_resumption_token.clone();
             let last_event_id = self.last_event_id.clone();
 
-            tokio::spawn(async move {
-                let mut sse_parser = SseParser::new();
-                let body = response.text().await.unwrap_or_default();
-
-                // Parse the SSE body
-                let events = sse_parser.feed(&body);
-                for event in events {
-                    // Update last event ID and notify callback
-                    if let Some(id) = &event.id {
-                        *last_event_id.write() = Some(id.clone());
-                        if let Some(callback) = &on_resumption {
-                            callback(id.clone());
-                        }
-                    }
-
-                    // Only process "message" events
-                    if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = parse_json_rpc(event.data.as_bytes()) {
-                            let _ = sender.send(msg);
-                        }
-                    }
-                }
-            });
+            tokio::spawn(read_events(response, sender, on_resumption, last_event_id));
         } else if response.status().as_u16() == 202 {
             // 202 Accepted with no body is valid
             return Ok(());
@@ -435,6 +391,45 @@ impl StreamableHttpTransport {
     }
 }
 
+/// Hand over the messages of an event stream as they arrive.
+async fn read_events(
+    mut response: Response,
+    sender: mpsc::UnboundedSender<TransportMessage>,
+    on_resumption: Option<Arc<dyn Fn(String) + Send + Sync>>,
+    last_event_id: Arc<RwLock<Option<String>>>,
+) {
+    let mut sse_parser = SseParser::new();
+    // Bytes of a character that has not arrived completely
+    let mut partial: Vec<u8> = Vec::new();
+
+    while let Ok(Some(chunk)) = response.chunk().await {
+        partial.extend_from_slice(&chunk);
+        let complete = match std::str::from_utf8(&partial) {
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            _ => partial.len(),
+        };
+        let events = sse_parser.feed(&String::from_utf8_lossy(&partial[..complete]));
+        partial.drain(..complete);
+
+        for event in events {
+            // Update last event ID and notify callback
+            if let Some(id) = &event.id {
+                *last_event_id.write() = Some(id.clone());
+                if let Some(callback) = &on_resumption {
+                    callback(id.clone());
+                }
+            }
+
+            // Only process "message" events or no event type
+            if event.event.as_deref() == Some("message") || event.event.is_none() {
+                if let Ok(msg) = parse_json_rpc(event.data.as_bytes()) {
+                    let _ = sender.send(msg);
+                }
+            }
+        }
+    }
+}
+
 /// Parse a message sent by the server.
 fn parse_json_rpc(bytes: &[u8]) -> Result<TransportMessage> {
     StdioTransport::parse_message(bytes).or_else(|_| {
-- 
2.43.0


From f2e2964b3e954b4d7b541af8d4b6dc80b22b338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:57 +0000
Subject: [PATCH 68/81] fix: an accepted message is accepted whatever content
 type the answer declares

---
 src/shared/streamable_http.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index bd522e8..afdb5dc 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -337,6 +337,11 @@ impl StreamableHttpTransport {
             ))));
         }
 
+        if response.status().as_u16() == 202 {
+            // 202 Accepted has no body, whatever type it declares
+            return Ok(());
+        }
+
         let content_type = response
             .headers()
             .get(CONTENT_TYPE)
@@ -377,9 +382,6 @@ impl StreamableHttpTransport {
             let last_event_id = self.last_event_id.clone();
 
             tokio::spawn(read_events(response, sender, on_resumption, last_event_id));
-        } else if response.status().as_u16() == 202 {
-            // 202 Accepted with no body is valid
-            return Ok(());
         } else {
             return Err(Error::Transport(TransportError::Request(format!(
                 "Unsupported content type: {}",
-- 
2.43.0


From e1baa640e1b3f79668b5d9e4502a898cbef34756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 69/81] fix: the HTTP transport keeps characters that arrive in
 two chunks

---
 src/shared/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..b86688c 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -136,13 +136,21 @@ impl HttpTransport {
 
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
+                // Bytes of a character that has not arrived completely
+                let mut partial: Vec<u8> = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
+                                partial.extend_from_slice(data);
+                                let complete = match std::str::from_utf8(&partial) {
+                                    Err(e) if e.error_len().is_none() => e.valid_up_to(),
+                                    _ => partial.len(),
+                                };
+                                let text = String::from_utf8_lossy(&partial[..complete]);
                                 let events = sse_parser.feed(&text);
+                                partial.drain(..complete);
 
                                 for event in events {
                                     // Process SSE event data as JSON-RPC message
-- 
2.43.0


From 7decc57ac0ae1d6879d20e9cea17e52a67049c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 70/81] fix: the HTTP transport takes an accepted notification
 for sent

---
 src/shared/http.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index b86688c..3029303 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -212,6 +212,14 @@ impl HttpTransport {
                 ))
             })?;
 
+        // Notifications and responses are accepted without an answer
+        if matches!(
+            response.status(),
+            StatusCode::ACCEPTED | StatusCode::NO_CONTENT
+        ) {
+            return Ok(());
+        }
+
         if response.status() != StatusCode::OK {
             return Err(crate::error::Error::Transport(
                 crate::error::TransportError::InvalidMessage(format!(
-- 
2.43.0


From 58dca9ce654d14be1f5f4969e95f8d53642cc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 71/81] fix: the HTTP transport sends the configured headers

---
 src/shared/http.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 3029303..cd38795 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -104,11 +104,15 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
+            let mut req = Request::builder()
                 .method(Method::GET)
                 .uri(sse_url.as_str())
                 .header("Accept", "text/event-stream")
-                .header("Cache-Control", "no-cache")
+                .header("Cache-Control", "no-cache");
+            for (name, value) in &self.config.headers {
+                req = req.header(name, value);
+            }
+            let req = req
                 .body(Full::new(Bytes::new()))
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -196,10 +200,14 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
+        let mut req = Request::builder()
             .method(Method::POST)
             .uri(self.config.base_url.as_str())
-            .header("Content-Type", "application/json")
+            .header("Content-Type", "application/json");
+        for (name, value) in &self.config.headers {
+            req = req.header(name, value);
+        }
+        let req = req
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-- 
2.43.0


From ffb4e352525ad18d2f2564bdd122a0605c92bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:34 +0000
Subject: [PATCH 72/81] fix: discovery is retried when the connection fails

---
 src/client/auth.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..aef92aa 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -175,9 +175,15 @@ impl OidcDiscoveryClient {
             .send()
             .await
             .map_err(|e| {
+                // (should_retry looks for this)
+                let kind = if e.is_builder() {
+                    ""
+                } else {
+                    "network error: "
+                };
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!("Failed to fetch discovery document: {}{}", kind, e),
                 )
             })?;
 
-- 
2.43.0


From 7d9cb40ac1fc32c631be97436d54e177f04ea919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 73/81] fix: open and delete streamable HTTP sessions
 atomically

The check for an existing SSE stream and its insertion, and the session check
and removal in DELETE, were separate steps, so concurrent GETs could both open
a stream, and a GET could open one for a session being deleted.
---
 src/server/streamable_http_server.rs | 48 +++++++++++++---------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index fa23134..f75e7c9 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -715,26 +715,27 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         new_id
     };
 
-    // Check if stream already exists for this session (and its client is there)
-    let streaming = state
-        .sse_streams
-        .read()
-        .get(&session_id)
-        .is_some_and(|tx| !tx.is_closed());
-    if streaming {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
-    // Create SSE stream
+    // Create SSE stream (one at a time, and none once the session is deleted)
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
+    {
+        let mut sse_streams = state.sse_streams.write();
+        if !state.sessions.read().contains_key(&session_id) {
+            return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
+        }
+
+        // Check if stream already exists for this session (and its client is there)
+        if sse_streams
+            .get(&session_id)
+            .is_some_and(|tx| !tx.is_closed())
+        {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
+        }
+        sse_streams.insert(session_id.clone(), tx.clone());
+    }
 
     // Check for Last-Event-ID for resumability
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
@@ -798,10 +799,10 @@ async fn handle_delete_session(
         .map(|s| s.to_string());
 
     if let Some(sid) = session_id {
-        // Check if session exists
-        let session_exists = state.sessions.read().contains_key(&sid);
+        // Remove session from tracking
+        let session_existed = state.sessions.write().remove(&sid).is_some();
 
-        if !session_exists && state.config.session_id_generator.is_some() {
+        if !session_existed && state.config.session_id_generator.is_some() {
             // Unknown session in stateful mode
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
@@ -809,9 +810,6 @@ async fn handle_delete_session(
         // Remove SSE stream if exists
         state.sse_streams.write().remove(&sid);
 
-        // Remove session from tracking
-        state.sessions.write().remove(&sid);
-
         // Notify callback
         if let Some(callback) = &state.config.on_session_closed {
             callback(&sid);
-- 
2.43.0


From 01664e42fe43886d7dc4fd1900a98d0a76dbc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 74/81] fix: deliver each event once to a resuming SSE stream

An event stored while a stream was catching up could be both replayed and
sent live, out of order.
---
 src/server/streamable_http_server.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index f75e7c9..5f2e478 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -198,6 +198,8 @@ struct ServerState {
     sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<(String, TransportMessage)>>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
+    /// Held while events are stored and sent, and while a stream catches up on them
+    delivery: Arc<tokio::sync::Mutex<()>>,
 }
 
 /// A streamable HTTP server for MCP.
@@ -246,6 +248,7 @@ impl StreamableHttpServer {
             config: Arc::new(config),
             sse_streams: Arc::new(RwLock::new(HashMap::new())),
             sessions: Arc::new(RwLock::new(HashMap::new())),
+            delivery: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         Self { addr, state }
@@ -618,6 +621,8 @@ async fn handle_post_request(
             };
 
             // Store event if we have an event store, under the ID it is sent with
+            // (a stream that resumes sees it either replayed or sent, not both)
+            let delivery = state.delivery.lock().await;
             let event_id = Uuid::new_v4().to_string();
             if let Some(event_store) = &state.config.event_store {
                 if let Some(sid) = &response_session_id {
@@ -627,6 +632,7 @@ async fn handle_post_request(
 
             // Build response with headers
             let mut response = build_response(&state, event_id, response, session_id.as_ref());
+            drop(delivery);
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -717,6 +723,7 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
 
     // Create SSE stream (one at a time, and none once the session is deleted)
     let (tx, rx) = mpsc::unbounded_channel();
+    let delivery = state.delivery.lock().await;
     {
         let mut sse_streams = state.sse_streams.write();
         if !state.sessions.read().contains_key(&session_id) {
@@ -754,6 +761,8 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         }
     }
 
+    drop(delivery);
+
     let stream = UnboundedReceiverStream::new(rx);
     let session_id_header = session_id.clone();
 
-- 
2.43.0


From 4623ce058406bb514d0bb677b71b8da36d0b7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 75/81] fix: do not hold the resource table while announcing a
 change

With a full notification channel and a receiver waiting to add or remove a
resource, the watcher and the receiver waited for each other.
---
 src/server/resource_watcher.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..228b606 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -147,8 +147,9 @@ async fn process_events(
         for (path, kind) in events_to_process {
             let uri = format!("file://{}", path.display());
 
-            let resources = resources.read().await;
-            if resources.contains_key(&uri) {
+            // Not locked while sending: the receiver may be using the watcher
+            let watched = resources.read().await.contains_key(&uri);
+            if watched {
                 debug!("Resource {:?} changed: {}", kind, uri);
 
                 // Send resource update notification
-- 
2.43.0


From b8aff24778b3e5d85be3d733f9f528a39c507118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:52 +0000
Subject: [PATCH 76/81] fix: update a watched resource when the resource limit
 is reached

---
 src/server/resource_watcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 228b606..3df6210 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -250,7 +250,7 @@ impl ResourceWatcher {
     pub async fn add_resource(&self, uri: String, info: ResourceInfo) -> Result<()> {
         let mut resources = self.resources.write().await;
 
-        if resources.len() >= self.config.max_resources {
+        if resources.len() >= self.config.max_resources && !resources.contains_key(&uri) {
             warn!("Resource limit reached, not adding {}", uri);
             return Ok(());
         }
-- 
2.43.0


From c509397a1f8f9c5e3c64ab2e5cf8a39fe9fc3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:52 +0000
Subject: [PATCH 77/81] fix: ResourceWatcherBuilder::pattern restricts what is
 watched

The patterns given were added to the default "**/*", which matches everything.
---
 src/server/resource_watcher.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 3df6210..9e097d9 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -394,6 +394,8 @@ impl ResourceWatcher {
 pub struct ResourceWatcherBuilder {
     base_dir: Option<PathBuf>,
     config: WatchConfig,
+    /// Patterns given, instead of the default ones
+    patterns: Vec<String>,
 }
 
 impl ResourceWatcherBuilder {
@@ -402,6 +404,7 @@ impl ResourceWatcherBuilder {
         Self {
             base_dir: None,
             config: WatchConfig::default(),
+            patterns: Vec::new(),
         }
     }
 
@@ -419,7 +422,7 @@ impl ResourceWatcherBuilder {
 
     /// Add a watch pattern.
     pub fn pattern(mut self, pattern: impl Into<String>) -> Self {
-        self.config.patterns.push(pattern.into());
+        self.patterns.push(pattern.into());
         self
     }
 
@@ -437,9 +440,12 @@ impl ResourceWatcherBuilder {
 
     /// Build the resource watcher.
     pub fn build(
-        self,
+        mut self,
         notification_tx: mpsc::Sender<ServerNotification>,
     ) -> Result<ResourceWatcher> {
+        if !self.patterns.is_empty() {
+            self.config.patterns = self.patterns;
+        }
         let base_dir = self.base_dir.ok_or_else(|| {
             crate::error::Error::protocol(
                 crate::error::ErrorCode::INVALID_PARAMS,
-- 
2.43.0


From 2bb6d64ff3d1904c3fb64318e767b1667a3a6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 78/81] fix: WebSocket server transport enforces its limits,
 closes connections and notices their end

---
 src/server/transport/websocket.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..8ca8e1c 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{Message, WebSocketConfig},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -92,7 +95,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let limits = WebSocketConfig::default()
+            .max_frame_size(self.config.max_frame_size)
+            .max_message_size(self.config.max_message_size)
+            .accept_unmasked_frames(self.config.accept_unmasked_frames);
+        let ws_stream = accept_async_with_config(tcp_stream, Some(limits))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
@@ -103,6 +110,7 @@ impl WebSocketServerTransport {
         let (incoming_tx, incoming_rx) = mpsc::channel::<TransportMessage>(100);
 
         // Store the channels
+        let connection = outgoing_tx.downgrade();
         *self.incoming_rx.lock().await = Some(incoming_rx);
         *self.outgoing_tx.lock().await = Some(outgoing_tx);
 
@@ -115,7 +123,9 @@ impl WebSocketServerTransport {
         tokio::spawn(async move {
             loop {
                 tokio::select! {
-                    Some(msg) = outgoing_rx.recv() => {
+                    msg = outgoing_rx.recv() => {
+                        // The transport was closed or took another connection
+                        let Some(msg) = msg else { break };
                         let json_bytes = match crate::shared::stdio::StdioTransport::serialize_message(&msg)
                         {
                             Ok(bytes) => bytes,
@@ -144,12 +154,15 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    else => break,
                 }
             }
+
+            // Tell the peer
+            let _ = ws_sink.close().await;
         });
 
         // Spawn task to handle incoming messages
+        let active = self.outgoing_tx.clone();
         tokio::spawn(async move {
             while let Some(result) = ws_stream.next().await {
                 match result {
@@ -191,6 +204,15 @@ impl WebSocketServerTransport {
             }
 
             // Connection closed, cleanup
+            if let Some(connection) = connection.upgrade() {
+                let mut active = active.lock().await;
+                if active
+                    .as_ref()
+                    .is_some_and(|tx| tx.same_channel(&connection))
+                {
+                    *active = None;
+                }
+            }
             info!("WebSocket connection closed");
         });
 
-- 
2.43.0


From 9dcc3089c73b0a0e1d696e7b40251bead56c9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 79/81] fix: WebSocket client transport sends what it is given
 and ends with its connection

---
 src/shared/websocket.rs | 94 ++++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..5c17599 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -51,7 +51,8 @@ impl Default for WebSocketConfig {
 pub struct WebSocketTransport {
     config: WebSocketConfig,
     state: Arc<RwLock<ConnectionState>>,
-    message_tx: mpsc::Sender<TransportMessage>,
+    /// Frames for the current connection
+    message_tx: Arc<RwLock<Option<mpsc::Sender<Message>>>>,
     message_rx: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
 }
 
@@ -75,11 +76,12 @@ impl std::fmt::Debug for WebSocketTransport {
 impl WebSocketTransport {
     /// Create a new WebSocket transport with the given configuration.
     pub fn new(config: WebSocketConfig) -> Self {
-        let (tx, rx) = mpsc::channel(100);
+        // Nothing is received before connecting
+        let (_, rx) = mpsc::channel(1);
         Self {
             config,
             state: Arc::new(RwLock::new(ConnectionState::Disconnected)),
-            message_tx: tx,
+            message_tx: Arc::new(RwLock::new(None)),
             message_rx: Arc::new(AsyncMutex::new(rx)),
         }
     }
@@ -138,6 +140,13 @@ impl WebSocketTransport {
             .map_err(crate::error::TransportError::from)?;
         let (sink, stream) = ws_stream.split();
 
+        let (message_tx, message_rx) = mpsc::channel(100);
+        *self.message_rx.lock().await = message_rx;
+
+        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
+        let connection = write_tx.downgrade();
+        *self.message_tx.write() = Some(write_tx);
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Connected;
@@ -146,7 +155,8 @@ impl WebSocketTransport {
         info!("WebSocket connected");
 
         // Spawn reader task
-        let message_tx = self.message_tx.clone();
+        let writer = self.message_tx.clone();
+        let state = self.state.clone();
         let _reader_handle = tokio::spawn(async move {
             let mut stream = stream;
             while let Some(result) = stream.next().await {
@@ -196,35 +206,45 @@ impl WebSocketTransport {
                     },
                 }
             }
+
+            // This connection is over, unless another one took its place
+            if let Some(connection) = connection.upgrade() {
+                let mut writer = writer.write();
+                if writer
+                    .as_ref()
+                    .is_some_and(|tx| tx.same_channel(&connection))
+                {
+                    *writer = None;
+                    *state.write() = ConnectionState::Disconnected;
+                }
+            }
         });
 
-        // Spawn writer task
-        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
+        // Spawn writer task, which also pings if configured
+        let mut ticker = self.config.ping_interval.map(interval);
         let _writer_handle = tokio::spawn(async move {
             let mut sink = sink;
-            while let Some(msg) = write_rx.recv().await {
+            loop {
+                let ping = async {
+                    match ticker.as_mut() {
+                        Some(ticker) => ticker.tick().await,
+                        None => std::future::pending().await,
+                    }
+                };
+                let msg = tokio::select! {
+                    msg = write_rx.recv() => msg,
+                    _ = ping => Some(Message::Ping(vec![].into())),
+                };
+                let Some(msg) = msg else { break };
                 if let Err(e) = sink.send(msg).await {
                     error!("Failed to send WebSocket message: {}", e);
                     break;
                 }
             }
-        });
 
-        // Spawn ping task if configured
-        if let Some(ping_interval) = self.config.ping_interval {
-            tokio::spawn(async move {
-                let mut ticker = interval(ping_interval);
-                loop {
-                    ticker.tick().await;
-                    if write_tx.send(Message::Ping(vec![].into())).await.is_err() {
-                        break;
-                    }
-                }
-            });
-        }
-
-        // Store the writer channel for sending messages
-        // This is a simplified approach - in production you'd want better state management
+            // Tell the peer
+            let _ = sink.close().await;
+        });
 
         Ok(())
     }
@@ -241,17 +261,21 @@ impl Transport for WebSocketTransport {
             )))
         })?;
 
-        // In a real implementation, we'd need to store the write channel
-        // This is simplified for the example
-        match &*self.state.read() {
-            ConnectionState::Connected => {
-                debug!("Sending WebSocket message: {}", json);
-                Ok(())
-            },
-            _ => Err(crate::error::Error::Transport(
-                crate::error::TransportError::ConnectionClosed,
-            )),
+        let closed =
+            || crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed);
+        if !self.is_connected() {
+            return Err(closed());
         }
+
+        debug!("Sending WebSocket message: {}", json);
+        let writer = self.message_tx.read().clone();
+        if let Some(writer) = writer {
+            writer
+                .send(Message::Text(json.into()))
+                .await
+                .map_err(|_| closed())?;
+        }
+        Ok(())
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
@@ -269,6 +293,10 @@ impl Transport for WebSocketTransport {
 
         info!("Closing WebSocket connection");
 
+        // Lets the writer task finish, and nothing more is received
+        *self.message_tx.write() = None;
+        self.message_rx.lock().await.close();
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Disconnected;
-- 
2.43.0


From 6b6c3f86597d6f6bd2e7b70bc45b34fed3ec7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 80/81] fix: an input request to a peer that does not read ends
 all the same

---
 src/server/elicitation.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 047653d..4e6c926 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -56,7 +56,7 @@ impl ElicitationManager {
         })?;
 
         // Create response channel
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         // Store pending request
         {
@@ -68,24 +68,34 @@ impl ElicitationManager {
 
         // Send elicitation request
         let server_request = ServerRequest::ElicitInput(Box::new(request));
-        if let Err(e) = request_tx.send(server_request).await {
-            // Remove from pending on send error
-            self.pending.write().await.remove(&elicitation_id);
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                format!("Failed to send elicitation request: {}", e),
-            ));
-        }
-
-        debug!("Sent elicitation request: {}", elicitation_id);
+        // The peer may not take the request: it can be answered, be cancelled and time out until then
+        let exchange = async {
+            tokio::select! {
+                biased;
+                sent = request_tx.send(server_request) => {
+                    sent?;
+                    debug!("Sent elicitation request: {}", elicitation_id);
+                    Ok(rx.await)
+                },
+                response = &mut rx => Ok(response),
+            }
+        };
 
         // Wait for response with timeout
-        match timeout(self.timeout_duration, rx).await {
-            Ok(Ok(response)) => {
+        match timeout(self.timeout_duration, exchange).await {
+            Ok(Err::<_, mpsc::error::SendError<_>>(e)) => {
+                // Remove from pending on send error
+                self.pending.write().await.remove(&elicitation_id);
+                Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    format!("Failed to send elicitation request: {}", e),
+                ))
+            },
+            Ok(Ok(Ok(response))) => {
                 debug!("Received elicitation response: {}", elicitation_id);
                 Ok(response)
             },
-            Ok(Err(_)) => {
+            Ok(Ok(Err(_))) => {
                 warn!("Elicitation channel closed: {}", elicitation_id);
                 Err(Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-- 
2.43.0


From 58e4acf26e105b02403002936ab3654c3f160d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:46 +0000
Subject: [PATCH 81/81] fix: WebSocketServerTransport::is_connected no longer
 blocks the calling task's thread

---
 src/server/transport/websocket.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 8ca8e1c..50de8e5 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -4,6 +4,7 @@ use crate::error::{Error, Result};
 use crate::shared::{Transport, TransportMessage};
 use async_trait::async_trait;
 use futures::{SinkExt, StreamExt};
+use parking_lot::RwLock;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
@@ -44,7 +45,7 @@ pub struct WebSocketServerTransport {
     listener: Option<TcpListener>,
     // Channels for communicating with the active connection
     incoming_rx: Arc<Mutex<Option<mpsc::Receiver<TransportMessage>>>>,
-    outgoing_tx: Arc<Mutex<Option<mpsc::Sender<TransportMessage>>>>,
+    outgoing_tx: Arc<RwLock<Option<mpsc::Sender<TransportMessage>>>>,
 }
 
 impl WebSocketServerTransport {
@@ -54,7 +55,7 @@ impl WebSocketServerTransport {
             config,
             listener: None,
             incoming_rx: Arc::new(Mutex::new(None)),
-            outgoing_tx: Arc::new(Mutex::new(None)),
+            outgoing_tx: Arc::new(RwLock::new(None)),
         }
     }
 
@@ -112,7 +113,7 @@ impl WebSocketServerTransport {
         // Store the channels
         let connection = outgoing_tx.downgrade();
         *self.incoming_rx.lock().await = Some(incoming_rx);
-        *self.outgoing_tx.lock().await = Some(outgoing_tx);
+        *self.outgoing_tx.write() = Some(outgoing_tx);
 
         // Create channel for ping/pong messages
         let (pong_tx, mut pong_rx) = mpsc::channel::<Vec<u8>>(10);
@@ -205,7 +206,7 @@ impl WebSocketServerTransport {
 
             // Connection closed, cleanup
             if let Some(connection) = connection.upgrade() {
-                let mut active = active.lock().await;
+                let mut active = active.write();
                 if active
                     .as_ref()
                     .is_some_and(|tx| tx.same_channel(&connection))
@@ -223,19 +224,12 @@ impl WebSocketServerTransport {
 #[async_trait]
 impl Transport for WebSocketServerTransport {
     async fn send(&mut self, message: TransportMessage) -> Result<()> {
-        let tx_guard = self.outgoing_tx.lock().await;
-        let tx = tx_guard
-            .as_ref()
-            .ok_or_else(|| Error::internal("No active connection"))?;
+        let tx = self.outgoing_tx.read().clone();
+        let tx = tx.ok_or_else(|| Error::internal("No active connection"))?;
 
-        let result = tx
-            .send(message)
+        tx.send(message)
             .await
-            .map_err(|_| Error::internal("Failed to send message"));
-        drop(tx_guard);
-        result?;
-
-        Ok(())
+            .map_err(|_| Error::internal("Failed to send message"))
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
@@ -255,7 +249,7 @@ impl Transport for WebSocketServerTransport {
     async fn close(&mut self) -> Result<()> {
         // Clear the channels to signal closure
         *self.incoming_rx.lock().await = None;
-        *self.outgoing_tx.lock().await = None;
+        *self.outgoing_tx.write() = None;
 
         info!("WebSocket server transport closed");
         Ok(())
@@ -263,7 +257,7 @@ impl Transport for WebSocketServerTransport {
 
     fn is_connected(&self) -> bool {
         // Check if we have active channels
-        futures::executor::block_on(async { self.outgoing_tx.lock().await.is_some() })
+        self.outgoing_tx.read().is_some()
     }
 
     fn transport_type(&self) -> &'static str {
-- 
2.43.0


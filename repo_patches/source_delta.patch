From 676b358fbb2a440a17a5c3897be58d7ade27477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 01/45] fix: export all buffered spans, not only one batch, on
 flush, shutdown and timer

BatchSpanProcessor exported at most max_export_batch_size spans per
force_flush, shutdown, timer tick or full-batch signal. Spans beyond the
first batch were lost on shutdown, and force_flush reported success with
spans still buffered.
---
 opentelemetry-sdk/src/trace/span_processor.rs | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..4547eb0 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,9 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method exports all the spans that are in the channel when it is called, one batch of
+    // upto `max_export_batch_size` spans after the other.
+    // It returns the result of the export operations, i.e. the first error if any of them failed.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,18 +461,31 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
-                break;
+        let target = current_batch_size.load(Ordering::Relaxed); // `target` is used to determine the stopping criteria for exporting spans.
+        let mut result = OTelSdkResult::Ok(());
+        let mut total_exported_spans: usize = 0;
+
+        loop {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
             }
-        }
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            let export_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+            // Report the first failure, but keep exporting the remaining batches.
+            result = result.and(export_result);
+            total_exported_spans += count_of_spans;
+            if count_of_spans == 0 || total_exported_spans >= target {
+                break;
+            }
+        }
         result
     }
 
-- 
2.43.0


From 64165df69b59659220bd43ae3a3039986ea1d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 02/45] fix: count a span before the batch worker can see it,
 and not when it is dropped

---
 opentelemetry-sdk/src/trace/span_processor.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 4547eb0..6877f22 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -536,20 +536,25 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before it becomes visible to the worker thread, which subtracts the spans
+        // it has exported: the count must never miss a span that is in the channel.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            // The span is not in the channel, so it must not be counted.
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
                 otel_warn!(name: "BatchSpanProcessor.SpanDroppingStarted",
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
+            return;
         }
         // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From 0d2b7926d0ee6c77adb803fa1f0c691035ba7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 03/45] fix: shut the span exporter down when the batch span
 processor is shut down

---
 opentelemetry-sdk/src/trace/span_processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 6877f22..2afc633 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,6 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
+                                let _ = exporter.shutdown();
                                 let _ = sender.send(result);
 
                                 otel_debug!(
-- 
2.43.0


From aba99b90400aba48e45006b684034a7c0fd01151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 04/45] fix: count a log record before the batch worker can see
 it

---
 .../src/logs/batch_log_processor.rs           | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..461429d 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,19 +154,25 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the log record before it becomes visible to the worker thread,
+        // which subtracts the records it has exported: the count must never
+        // miss a record that is in the channel.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
+        if result.is_err() {
+            // The log record is not in the channel, so it must not be counted.
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
+        }
 
         // match for result and handle each separately
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -382,6 +388,10 @@ impl BatchLogProcessor {
                         }
 
                         let count_of_logs = logs.len(); // Count of logs that will be exported
+                        if count_of_logs == 0 {
+                            // Records are counted before they are sent to the channel.
+                            break;
+                        }
                         total_exported_logs += count_of_logs;
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
-- 
2.43.0


From 9f057cd0cedaa8b6b755fdb652efb5f47f733668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 05/45] fix: report a failed log batch even if a later batch of
 the same flush succeeds

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 461429d..0de60bc 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -394,7 +394,10 @@ impl BatchLogProcessor {
                         }
                         total_exported_logs += count_of_logs;
 
-                        result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        // This method clears the logs vec after exporting
+                        let export_result = export_batch_sync(exporter, logs, last_export_time);
+                        // Report the first failure, but keep exporting the remaining batches.
+                        result = result.and(export_result);
 
                         current_batch_size.fetch_sub(count_of_logs, Ordering::Relaxed);
                     }
-- 
2.43.0


From fab91185c2d1b7bd172ef855069d2e0a45c084c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 06/45] fix: first timed export of the async runtime pipelines
 after one interval, not two

---
 .../src/logs/log_processor_with_async_runtime.rs             | 1 -
 .../src/metrics/periodic_reader_with_async_runtime.rs        | 5 ++---
 .../src/trace/span_processor_with_async_runtime.rs           | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..f919424 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -130,7 +130,6 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
 
             let timeout_runtime = inner_runtime.clone();
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..32653ce 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -112,9 +112,8 @@ where
             let runtime = self.runtime.clone();
             let reader = reader.clone();
             self.runtime.spawn(async move {
-                let ticker = to_interval_stream(runtime.clone(), self.interval)
-                    .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
-                    .map(|_| Message::Export);
+                let ticker =
+                    to_interval_stream(runtime.clone(), self.interval).map(|_| Message::Export);
                 let messages = Box::pin(stream::select(message_receiver, ticker));
                 PeriodicReaderWorker {
                     reader,
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..c52eca4 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -357,7 +357,6 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
             let timeout_runtime = inner_runtime.clone();
 
-- 
2.43.0


From c12f9d9863c9d795bb8b03fe0e97b514d265fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 07/45] fix: async batch processors must not hang when flushed
 while they shut down

---
 .../logs/log_processor_with_async_runtime.rs  | 18 +++++++++++----
 opentelemetry-sdk/src/runtime.rs              | 22 +++++++++++++++++++
 .../span_processor_with_async_runtime.rs      | 18 +++++++++++----
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index f919424..05b809a 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -17,10 +17,12 @@ use std::{
 
 use super::{BatchConfig, LogProcessor};
 #[cfg(feature = "experimental_async_runtime")]
-use crate::runtime::{to_interval_stream, RuntimeChannel, TrySend};
+use crate::runtime::{
+    block_on_response, to_interval_stream, RuntimeChannel, TrySend, WorkerExited,
+};
 use futures_channel::oneshot;
 use futures_util::{
-    future::{self, Either},
+    future::{self, Either, FutureExt as _},
     {pin_mut, stream, StreamExt as _},
 };
 
@@ -43,6 +45,9 @@ enum BatchMessage {
 pub struct BatchLogProcessor<R: RuntimeChannel> {
     message_sender: R::Sender<BatchMessage>,
 
+    // Resolves when the worker has exited
+    worker_exited: WorkerExited,
+
     // Track dropped logs - we'll log this at shutdown
     dropped_logs_count: AtomicUsize,
 
@@ -82,7 +87,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Flush(Some(res_sender)))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
-        futures_executor::block_on(res_receiver)
+        block_on_response(res_receiver, self.worker_exited.clone())
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
     }
@@ -103,7 +108,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Shutdown(res_sender))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
-        futures_executor::block_on(res_receiver)
+        block_on_response(res_receiver, self.worker_exited.clone())
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
     }
@@ -125,8 +130,12 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
             runtime.batch_message_channel(config.max_queue_size);
         let inner_runtime = runtime.clone();
 
+        let (exit_sender, exit_receiver) = oneshot::channel::<()>();
+
         // Spawn worker process via user-defined spawn function.
         runtime.spawn(async move {
+            // Dropped when the worker exits
+            let _exit_sender = exit_sender;
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -207,6 +216,7 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
         // Return batch processor with link to worker
         BatchLogProcessor {
             message_sender,
+            worker_exited: exit_receiver.shared(),
             dropped_logs_count: AtomicUsize::new(0),
             max_queue_size: config.max_queue_size,
         }
diff --git a/opentelemetry-sdk/src/runtime.rs b/opentelemetry-sdk/src/runtime.rs
index f82ac59..2e6d48b 100644
--- a/opentelemetry-sdk/src/runtime.rs
+++ b/opentelemetry-sdk/src/runtime.rs
@@ -5,6 +5,8 @@
 //!
 //! [Tokio]: https://crates.io/crates/tokio
 
+use futures_channel::oneshot;
+use futures_util::future::{self, Either, Shared};
 use futures_util::stream::{unfold, Stream};
 use std::{fmt::Debug, future::Future, time::Duration};
 use thiserror::Error;
@@ -57,6 +59,26 @@ pub(crate) fn to_interval_stream<T: Runtime>(
     })
 }
 
+/// Resolves when the background task that holds the sender has exited.
+#[cfg(feature = "experimental_async_runtime")]
+#[allow(dead_code)]
+pub(crate) type WorkerExited = Shared<oneshot::Receiver<()>>;
+
+/// Blocks until the background task has responded, or has exited without responding. A request that
+/// is sent while the task exits may stay in the closed channel, where nothing would ever respond.
+#[cfg(feature = "experimental_async_runtime")]
+#[allow(dead_code)]
+pub(crate) fn block_on_response<T>(
+    response: oneshot::Receiver<T>,
+    worker_exited: WorkerExited,
+) -> Result<T, oneshot::Canceled> {
+    match futures_executor::block_on(future::select(response, worker_exited)) {
+        Either::Left((response, _)) => response,
+        // The task may have responded just before it exited.
+        Either::Right((_, mut response)) => response.try_recv()?.ok_or(oneshot::Canceled),
+    }
+}
+
 /// Runtime implementation, which works with Tokio's multi thread runtime.
 #[cfg(all(feature = "experimental_async_runtime", feature = "rt-tokio"))]
 #[cfg_attr(
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index c52eca4..cadda95 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -1,6 +1,8 @@
 use crate::error::{OTelSdkError, OTelSdkResult};
 use crate::resource::Resource;
-use crate::runtime::{to_interval_stream, RuntimeChannel, TrySend};
+use crate::runtime::{
+    block_on_response, to_interval_stream, RuntimeChannel, TrySend, WorkerExited,
+};
 use crate::trace::BatchConfig;
 use crate::trace::Span;
 use crate::trace::SpanProcessor;
@@ -8,7 +10,7 @@ use crate::trace::{SpanData, SpanExporter};
 use futures_channel::oneshot;
 use futures_util::pin_mut;
 use futures_util::{
-    future::{self, BoxFuture, Either},
+    future::{self, BoxFuture, Either, FutureExt as _},
     select,
     stream::{self, FusedStream, FuturesUnordered},
     StreamExt as _,
@@ -82,6 +84,9 @@ use std::sync::Arc;
 pub struct BatchSpanProcessor<R: RuntimeChannel> {
     message_sender: R::Sender<BatchMessage>,
 
+    // Resolves when the worker has exited
+    worker_exited: WorkerExited,
+
     // Track dropped spans
     dropped_spans_count: AtomicUsize,
 
@@ -128,7 +133,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send flush message: {}", err))
             })?;
 
-        futures_executor::block_on(res_receiver).map_err(|err| {
+        block_on_response(res_receiver, self.worker_exited.clone()).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Flush response channel error: {}", err))
         })?
     }
@@ -152,7 +157,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send shutdown message: {}", err))
             })?;
 
-        futures_executor::block_on(res_receiver).map_err(|err| {
+        block_on_response(res_receiver, self.worker_exited.clone()).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Shutdown response channel error: {}", err))
         })?
     }
@@ -351,9 +356,13 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
 
         let max_queue_size = config.max_queue_size;
 
+        let (exit_sender, exit_receiver) = oneshot::channel::<()>();
+
         let inner_runtime = runtime.clone();
         // Spawn worker process via user-defined spawn function.
         runtime.spawn(async move {
+            // Dropped when the worker exits
+            let _exit_sender = exit_sender;
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -375,6 +384,7 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
         // Return batch processor with link to worker
         BatchSpanProcessor {
             message_sender,
+            worker_exited: exit_receiver.shared(),
             dropped_spans_count: AtomicUsize::new(0),
             max_queue_size,
         }
-- 
2.43.0


From 39511e331148d4dea0cc2f1ed9543ff87bac6b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 08/45] fix: context guard drops the popped context after
 releasing the stack borrow

Dropping the last handle of a span inside ContextGuard::drop ran the span
processors while the thread's context stack was mutably borrowed, so any use of
the current context in them panicked.
---
 opentelemetry/src/context.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..f4cbb23 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -464,7 +464,11 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // The popped context can hold the last handle of a span, and dropping it
+            // can run code that uses the current context (e.g. span processors), so
+            // it must be dropped only after the borrow of the stack is released.
+            let popped = CURRENT_CONTEXT.with(|stack| stack.borrow_mut().pop_id(id));
+            drop(popped);
         }
     }
 }
@@ -543,7 +547,7 @@ impl ContextStack {
     }
 
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +561,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -570,8 +574,9 @@ impl ContextStack {
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
             if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+                return Some(std::mem::replace(&mut self.current_cx, next_cx));
             }
+            None
         } else {
             // This is an out of order pop.
             if pos >= len {
@@ -582,10 +587,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From ae52d7f4bf60dc4242c0e2d7c09cacecb9336d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 09/45] fix: SimpleLogProcessor does not export after its
 shutdown has returned

---
 opentelemetry-sdk/src/logs/simple_log_processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentelemetry-sdk/src/logs/simple_log_processor.rs b/opentelemetry-sdk/src/logs/simple_log_processor.rs
index 5cbda69..1d06f4b 100644
--- a/opentelemetry-sdk/src/logs/simple_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/simple_log_processor.rs
@@ -91,6 +91,10 @@ impl<T: LogExporter> LogProcessor for SimpleLogProcessor<T> {
             .lock()
             .map_err(|_| OTelSdkError::InternalFailure("SimpleLogProcessor mutex poison".into()))
             .and_then(|exporter| {
+                // shutdown may have completed while waiting for the lock
+                if self.is_shutdown.load(std::sync::atomic::Ordering::Relaxed) {
+                    return Ok(());
+                }
                 let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
                 futures_executor::block_on(exporter.export(LogBatch::new(log_tuple)))
             });
-- 
2.43.0


From 373ed737e9a23985ddc977bbd556b000919e52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 10/45] fix: global meter provider and propagator do not hold
 their lock while foreign code runs

Replacing the global meter provider dropped (and possibly shut down) the old one
under the write lock, and propagators ran under the read lock, so a component that
itself uses the globals could deadlock.
---
 opentelemetry/src/global/metrics.rs     | 12 +++++++---
 opentelemetry/src/global/propagation.rs | 32 +++++++++++++++----------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/opentelemetry/src/global/metrics.rs b/opentelemetry/src/global/metrics.rs
index 450ba2d..7989955 100644
--- a/opentelemetry/src/global/metrics.rs
+++ b/opentelemetry/src/global/metrics.rs
@@ -23,9 +23,15 @@ where
     P: metrics::MeterProvider + Send + Sync + 'static,
 {
     // Try to set the global meter provider. If the RwLock is poisoned, we'll log an error.
-    let mut global_provider = global_meter_provider().write();
-    if let Ok(ref mut provider) = global_provider {
-        **provider = Arc::new(new_provider);
+    let new_provider: GlobalMeterProvider = Arc::new(new_provider);
+    let replaced = global_meter_provider()
+        .write()
+        .map(|mut provider| std::mem::replace(&mut *provider, new_provider))
+        .ok();
+    // Dropping the replaced provider may shut it down, which can take long and can
+    // run code that uses the globals, so the lock is not held while that happens.
+    if let Some(replaced) = replaced {
+        drop(replaced);
         otel_info!(name: "MeterProvider.GlobalSet", message = "Global meter provider is set. Meters can now be created using global::meter() or global::meter_with_scope().");
     } else {
         otel_error!(name: "MeterProvider.GlobalSetFailed", message = "Setting global meter provider failed. Meters created using global::meter() or global::meter_with_scope() will not function. Report this issue in OpenTelemetry repo.");
diff --git a/opentelemetry/src/global/propagation.rs b/opentelemetry/src/global/propagation.rs
index 4a8a296..c3caea9 100644
--- a/opentelemetry/src/global/propagation.rs
+++ b/opentelemetry/src/global/propagation.rs
@@ -1,18 +1,19 @@
 use crate::propagation::TextMapPropagator;
 use crate::trace::noop::NoopTextMapPropagator;
-use std::sync::{OnceLock, RwLock};
+use std::sync::{Arc, OnceLock, RwLock};
+
+type GlobalTextMapPropagator = Arc<dyn TextMapPropagator + Send + Sync>;
 
 /// The current global `TextMapPropagator` propagator.
-static GLOBAL_TEXT_MAP_PROPAGATOR: OnceLock<RwLock<Box<dyn TextMapPropagator + Send + Sync>>> =
-    OnceLock::new();
+static GLOBAL_TEXT_MAP_PROPAGATOR: OnceLock<RwLock<GlobalTextMapPropagator>> = OnceLock::new();
 
 /// The global default `TextMapPropagator` propagator.
 static DEFAULT_TEXT_MAP_PROPAGATOR: OnceLock<NoopTextMapPropagator> = OnceLock::new();
 
 /// Ensures the `GLOBAL_TEXT_MAP_PROPAGATOR` is initialized with a `NoopTextMapPropagator`.
 #[inline]
-fn global_text_map_propagator() -> &'static RwLock<Box<dyn TextMapPropagator + Send + Sync>> {
-    GLOBAL_TEXT_MAP_PROPAGATOR.get_or_init(|| RwLock::new(Box::new(NoopTextMapPropagator::new())))
+fn global_text_map_propagator() -> &'static RwLock<GlobalTextMapPropagator> {
+    GLOBAL_TEXT_MAP_PROPAGATOR.get_or_init(|| RwLock::new(Arc::new(NoopTextMapPropagator::new())))
 }
 
 /// Ensures the `DEFAULT_TEXT_MAP_PROPAGATOR` is initialized.
@@ -23,9 +24,12 @@ fn default_text_map_propagator() -> &'static NoopTextMapPropagator {
 
 /// Sets the given [`TextMapPropagator`] propagator as the current global propagator.
 pub fn set_text_map_propagator<P: TextMapPropagator + Send + Sync + 'static>(propagator: P) {
-    let _lock = global_text_map_propagator()
+    let propagator: GlobalTextMapPropagator = Arc::new(propagator);
+    let replaced = global_text_map_propagator()
         .write()
-        .map(|mut global_propagator| *global_propagator = Box::new(propagator));
+        .map(|mut global_propagator| std::mem::replace(&mut *global_propagator, propagator));
+    // dropped without holding the lock, as it may use the globals
+    drop(replaced);
 }
 
 /// Executes a closure with a reference to the current global [`TextMapPropagator`] propagator.
@@ -33,11 +37,13 @@ pub fn get_text_map_propagator<T, F>(mut f: F) -> T
 where
     F: FnMut(&dyn TextMapPropagator) -> T,
 {
-    global_text_map_propagator()
+    // The closure and the propagator may use the globals themselves, so the lock is
+    // not held while they run.
+    let propagator = global_text_map_propagator()
         .read()
-        .map(|propagator| f(&**propagator))
-        .unwrap_or_else(|_| {
-            let default_propagator = default_text_map_propagator();
-            f(default_propagator as &dyn TextMapPropagator)
-        })
+        .map(|propagator| propagator.clone());
+    match propagator {
+        Ok(propagator) => f(&*propagator),
+        Err(_) => f(default_text_map_propagator()),
+    }
 }
-- 
2.43.0


From f3bf59a31dc5ece18af61bfcf9e2c1ed09d10b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 11/45] fix: using the current context during thread exit must
 not panic

Values of contexts, and guards kept in thread-locals, may be dropped after the
thread's context stack has been destroyed. A panic there aborts the process.
---
 opentelemetry/src/context.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index f4cbb23..21d07c9 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -143,7 +143,14 @@ impl Context {
     /// Note: This function will panic if you attempt to attach another context
     /// while the current one is still borrowed.
     pub fn map_current<T>(f: impl FnOnce(&Context) -> T) -> T {
-        CURRENT_CONTEXT.with(|cx| cx.borrow().map_current_cx(f))
+        let mut f = Some(f);
+        let mut call = |cx: &Context| f.take().map(|f| f(cx));
+        CURRENT_CONTEXT
+            .try_with(|stack| stack.borrow().map_current_cx(&mut call))
+            // There is no current context if the thread is exiting and its
+            // stack has already been destroyed.
+            .unwrap_or_else(|_| call(&Context::default()))
+            .expect("the closure is called exactly once")
     }
 
     /// Returns a clone of the current thread's context with the given value.
@@ -324,7 +331,11 @@ impl Context {
     /// assert_eq!(Context::current().get::<ValueA>(), None);
     /// ```
     pub fn attach(self) -> ContextGuard {
-        let cx_id = CURRENT_CONTEXT.with(|cx| cx.borrow_mut().push(self));
+        // Attaching has no effect if the thread is exiting and its stack has
+        // already been destroyed.
+        let cx_id = CURRENT_CONTEXT
+            .try_with(|stack| stack.borrow_mut().push(self))
+            .unwrap_or(ContextStack::MAX_POS);
 
         ContextGuard {
             cx_pos: cx_id,
@@ -467,7 +478,8 @@ impl Drop for ContextGuard {
             // The popped context can hold the last handle of a span, and dropping it
             // can run code that uses the current context (e.g. span processors), so
             // it must be dropped only after the borrow of the stack is released.
-            let popped = CURRENT_CONTEXT.with(|stack| stack.borrow_mut().pop_id(id));
+            // The stack may already have been destroyed if the thread is exiting.
+            let popped = CURRENT_CONTEXT.try_with(|stack| stack.borrow_mut().pop_id(id));
             drop(popped);
         }
     }
-- 
2.43.0


From 2d8ffc5a581b7e2d88ffee670d9d6c9af39e3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 12/45] fix: a failed context attach does not log or drop the
 context while the stack is borrowed

A subscriber or a value's Drop using the current context would panic.
---
 opentelemetry/src/context.rs | 60 ++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index 21d07c9..5b34c1b 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -333,9 +333,28 @@ impl Context {
     pub fn attach(self) -> ContextGuard {
         // Attaching has no effect if the thread is exiting and its stack has
         // already been destroyed.
-        let cx_id = CURRENT_CONTEXT
-            .try_with(|stack| stack.borrow_mut().push(self))
-            .unwrap_or(ContextStack::MAX_POS);
+        let (cx_id, rejected) = CURRENT_CONTEXT
+            .try_with(|stack| {
+                let mut stack = stack.borrow_mut();
+                if stack.is_full() {
+                    (ContextStack::MAX_POS, Some(self))
+                } else {
+                    (stack.push(self), None)
+                }
+            })
+            .unwrap_or((ContextStack::MAX_POS, None));
+        if rejected.is_some() {
+            // This is an overflow, log it and ignore it. Logging and dropping
+            // the context may use the current context, so neither happens while
+            // the stack is borrowed.
+            otel_warn!(
+                name: "Context.AttachFailed",
+                message = format!("Too many contexts. Max limit is {}. \
+                  Context::current() remains unchanged as this attach failed. \
+                  Dropping the returned ContextGuard will have no impact on Context::current().",
+                  ContextStack::MAX_POS)
+            );
+        }
 
         ContextGuard {
             cx_pos: cx_id,
@@ -536,26 +555,27 @@ impl ContextStack {
     const MAX_POS: u16 = u16::MAX;
     const INITIAL_CAPACITY: usize = 8;
 
+    /// The next id is the length of the `stack`, plus one since we have the
+    /// top of the [`ContextStack`] as the `current_cx`.
+    #[inline(always)]
+    fn next_id(&self) -> usize {
+        self.stack.len() + 1
+    }
+
+    #[inline(always)]
+    fn is_full(&self) -> bool {
+        self.next_id() >= ContextStack::MAX_POS.into()
+    }
+
     #[inline(always)]
     fn push(&mut self, cx: Context) -> u16 {
-        // The next id is the length of the `stack`, plus one since we have the
-        // top of the [`ContextStack`] as the `current_cx`.
-        let next_id = self.stack.len() + 1;
-        if next_id < ContextStack::MAX_POS.into() {
-            let current_cx = std::mem::replace(&mut self.current_cx, cx);
-            self.stack.push(Some(current_cx));
-            next_id as u16
-        } else {
-            // This is an overflow, log it and ignore it.
-            otel_warn!(
-                name: "Context.AttachFailed",
-                message = format!("Too many contexts. Max limit is {}. \
-                  Context::current() remains unchanged as this attach failed. \
-                  Dropping the returned ContextGuard will have no impact on Context::current().",
-                  ContextStack::MAX_POS)
-            );
-            ContextStack::MAX_POS
+        if self.is_full() {
+            return ContextStack::MAX_POS;
         }
+        let next_id = self.next_id();
+        let current_cx = std::mem::replace(&mut self.current_cx, cx);
+        self.stack.push(Some(current_cx));
+        next_id as u16
     }
 
     #[inline(always)]
-- 
2.43.0


From 24f0325686c241651017639207f78dbba5fce358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 13/45] fix: BatchLogProcessor's warning after shutdown must
 not be emitted to itself

A log bridge that captures the SDK's diagnostics made every log after shutdown
recurse until the stack overflowed.
---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 0de60bc..f505929 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -217,7 +217,9 @@ impl LogProcessor for BatchLogProcessor {
             }
             Err(mpsc::TrySendError::Disconnected(_)) => {
                 // Given background thread is the only receiver, and it's
-                // disconnected, it indicates the thread is shutdown
+                // disconnected, it indicates the thread is shutdown.
+                // The warning must not come back here through a log bridge.
+                let _suppress_guard = Context::enter_telemetry_suppressed_scope();
                 otel_warn!(
                     name: "BatchLogProcessor.Emit.AfterShutdown",
                     message = "Logs are being emitted even after Shutdown. This indicates incorrect lifecycle management of OTelLoggerProvider in application. Logs will not be exported."
-- 
2.43.0


From d7dc4423a35cfebf8f37daf23210177f1143b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 14/45] fix: SimpleConcurrentLogProcessor suppresses telemetry
 while exporting

Like SimpleLogProcessor, so that an exporter that logs, or the processor's own
report of a failed export, does not recurse until the stack overflows.
---
 opentelemetry-sdk/src/logs/concurrent_log_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
index d77a0cc..c688fc7 100644
--- a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
@@ -1,4 +1,4 @@
-use opentelemetry::{otel_info, InstrumentationScope};
+use opentelemetry::{otel_info, Context, InstrumentationScope};
 
 use crate::{error::OTelSdkResult, Resource};
 
@@ -26,6 +26,7 @@ impl<T: LogExporter> SimpleConcurrentLogProcessor<T> {
 
 impl<T: LogExporter> LogProcessor for SimpleConcurrentLogProcessor<T> {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
         let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
         let result = futures_executor::block_on(self.exporter.export(LogBatch::new(log_tuple)));
         if let Err(err) = result {
-- 
2.43.0


From edd2482f589b32d923c644335eb6b0627cda7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 15/45] fix: a metric collection no longer separates an
 attribute-less value from its flag

With delta temporality a collection between the update of the value and the
store of has_no_attribute_value exported a point that was never recorded the
next time: 0 for gauges, an empty point for histograms.
---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 9ca9de2..95b6b5b 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -101,16 +101,19 @@ where
     }
 
     fn measure(&self, value: A::PreComputedValue, attributes: &[KeyValue]) {
+        let Ok(trackers) = self.trackers.read() else {
+            return;
+        };
+
         if attributes.is_empty() {
+            // Updating the value and marking it as present must not be separated by
+            // a collection, as the next one would then export a value that was never
+            // recorded. `collect_and_reset` does both under the write lock.
             self.no_attribute_tracker.update(value);
             self.has_no_attribute_value.store(true, Ordering::Release);
             return;
         }
 
-        let Ok(trackers) = self.trackers.read() else {
-            return;
-        };
-
         // Try to retrieve and update the tracker with the attributes in the provided order first
         if let Some(tracker) = trackers.get(attributes) {
             tracker.update(value);
@@ -185,17 +188,17 @@ where
         MapFn: FnMut(Vec<KeyValue>, A) -> Res,
     {
         prepare_data(dest, self.count.load(Ordering::SeqCst));
-        if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
-            dest.push(map_fn(
-                vec![],
-                self.no_attribute_tracker.clone_and_reset(&self.config),
-            ));
-        }
 
         if let Ok(mut trackers_collect) = self.trackers_for_collect().write() {
             if let Ok(mut trackers_current) = self.trackers.write() {
                 swap(trackers_collect.deref_mut(), trackers_current.deref_mut());
                 self.count.store(0, Ordering::SeqCst);
+                if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
+                    dest.push(map_fn(
+                        vec![],
+                        self.no_attribute_tracker.clone_and_reset(&self.config),
+                    ));
+                }
             } else {
                 otel_warn!(name: "MeterProvider.InternalError", message = "Metric collection failed. Report this issue in OpenTelemetry repo.", details ="ValueMap trackers lock poisoned");
                 return;
-- 
2.43.0


From 2b1d90ceaa1762afcd97609ce65d34069d4cfcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 16/45] fix: exponential histogram does not count measurements
 it drops

A measurement dropped because of scale underflow was included in count, sum,
min and max but in no bucket.
---
 .../metrics/internal/exponential_histogram.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 1a280a8..b6dd4b5 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -51,19 +51,10 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
     ///
     /// It will rescale the buckets if needed.
     fn record(&mut self, v: T) {
-        self.count += 1;
-
-        if v < self.min {
-            self.min = v;
-        }
-        if v > self.max {
-            self.max = v;
-        }
-        self.sum += v;
-
         let abs_v = v.into_float().abs();
 
         if abs_v == 0.0 {
+            self.update_summary(v);
             self.zero_count += 1;
             return;
         }
@@ -114,6 +105,7 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
             bin = self.get_bin(abs_v);
         }
 
+        self.update_summary(v);
         if v_is_negative {
             self.neg_buckets.record(bin)
         } else {
@@ -121,6 +113,19 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
         }
     }
 
+    /// Updates everything but the buckets with a measurement that is not dropped.
+    fn update_summary(&mut self, v: T) {
+        self.count += 1;
+
+        if v < self.min {
+            self.min = v;
+        }
+        if v > self.max {
+            self.max = v;
+        }
+        self.sum += v;
+    }
+
     /// the bin `v` should be recorded into.
     fn get_bin(&self, v: f64) -> i32 {
         let (frac, exp) = frexp(v);
-- 
2.43.0


From 52f47148b95e149fe01d7ef27d57aeb39fbd2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 17/45] fix: observations made for one metric reader are not
 recorded for the others

Callbacks run once per pipeline collection but observed into the aggregators of
every pipeline, so with several readers a collection exported attribute sets
and values observed during collections of other readers.
---
 opentelemetry-sdk/src/metrics/meter.rs    | 64 +++++++++++++----------
 opentelemetry-sdk/src/metrics/pipeline.rs | 21 +++-----
 2 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/meter.rs b/opentelemetry-sdk/src/metrics/meter.rs
index 3950cbc..2231992 100644
--- a/opentelemetry-sdk/src/metrics/meter.rs
+++ b/opentelemetry-sdk/src/metrics/meter.rs
@@ -4,7 +4,7 @@ use std::{borrow::Cow, sync::Arc};
 
 use opentelemetry::{
     metrics::{
-        AsyncInstrumentBuilder, Counter, Gauge, Histogram, HistogramBuilder, InstrumentBuilder,
+        AsyncInstrumentBuilder, Callback, Counter, Gauge, Histogram, HistogramBuilder, InstrumentBuilder,
         InstrumentProvider, ObservableCounter, ObservableGauge, ObservableUpDownCounter,
         UpDownCounter,
     },
@@ -142,7 +142,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -152,13 +152,7 @@ impl SdkMeter {
                     return ObservableCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableCounter::new()
             }
@@ -202,7 +196,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -212,13 +206,7 @@ impl SdkMeter {
                     return ObservableUpDownCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableUpDownCounter::new()
             }
@@ -262,7 +250,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -272,13 +260,7 @@ impl SdkMeter {
                     return ObservableGauge::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableGauge::new()
             }
@@ -294,6 +276,33 @@ impl SdkMeter {
         }
     }
 
+    /// Registers the callbacks of an observable instrument with every pipeline.
+    ///
+    /// `measures` holds the measures of the instrument in each pipeline: what a
+    /// callback observes during the collection of one pipeline is only recorded for
+    /// that pipeline.
+    fn register_callbacks<T>(
+        &self,
+        measures: Vec<Vec<Arc<dyn internal::Measure<T>>>>,
+        callbacks: Vec<Callback<T>>,
+    ) where
+        T: Number,
+    {
+        let observables: Vec<_> = measures
+            .into_iter()
+            .map(|ms| Arc::new(Observable::new(ms)))
+            .collect();
+
+        for callback in callbacks {
+            let callback: Arc<Callback<T>> = Arc::new(callback);
+            for (pipe, observable) in self.pipes.0.iter().zip(&observables) {
+                let callback = Arc::clone(&callback);
+                let cb_inst = Arc::clone(observable);
+                pipe.add_callback(Arc::new(move || callback(cb_inst.as_ref())));
+            }
+        }
+    }
+
     fn create_updown_counter<T>(
         &self,
         builder: InstrumentBuilder<'_, UpDownCounter<T>>,
@@ -666,10 +675,11 @@ where
         let aggregators =
             self.measures(kind, name, description, unit, boundaries, cardinality_limit)?;
         Ok(ResolvedMeasures {
-            measures: aggregators,
+            measures: aggregators.into_iter().flatten().collect(),
         })
     }
 
+    /// The resolved measures of each pipeline.
     fn measures(
         &self,
         kind: InstrumentKind,
@@ -678,7 +688,7 @@ where
         unit: Option<Cow<'static, str>>,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let inst = Instrument {
             name,
             description: description.unwrap_or_default(),
diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..684d886 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -80,7 +80,7 @@ impl Pipeline {
     }
 
     /// Registers a single instrument callback to be run when `produce` is called.
-    fn add_callback(&self, callback: GenericCallback) {
+    pub(crate) fn add_callback(&self, callback: GenericCallback) {
         let _ = self
             .inner
             .lock()
@@ -653,16 +653,6 @@ impl Pipelines {
         Pipelines(pipes)
     }
 
-    pub(crate) fn register_callback<F>(&self, callback: F)
-    where
-        F: Fn() + Send + Sync + 'static,
-    {
-        let cb = Arc::new(callback);
-        for pipe in &self.0 {
-            pipe.add_callback(cb.clone())
-        }
-    }
-
     /// Force flush all pipelines
     pub(crate) fn force_flush(&self) -> OTelSdkResult {
         let mut errs = vec![];
@@ -722,24 +712,25 @@ where
         Resolver { inserters }
     }
 
-    /// The measures that must be updated by the instrument defined by key.
+    /// The measures that must be updated by the instrument defined by key, for each
+    /// pipeline.
     pub(crate) fn measures(
         &self,
         id: Instrument,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let (mut measures, mut errs) = (vec![], vec![]);
 
         for inserter in &self.inserters {
             match inserter.instrument(id.clone(), boundaries.as_deref(), cardinality_limit) {
-                Ok(ms) => measures.extend(ms),
+                Ok(ms) => measures.push(ms),
                 Err(err) => errs.push(err),
             }
         }
 
         if errs.is_empty() {
-            if measures.is_empty() {
+            if measures.iter().all(Vec::is_empty) {
                 // TODO: Emit internal log that measurements from the instrument
                 // are being dropped due to view configuration
             }
-- 
2.43.0


From 77ec98ac1b3e33cc550fe30d9f065d6b2367b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 18/45] fix: delta of observable sums does not depend on the
 order of attributes

The previously reported value was looked up with the attributes in the order they
happened to be drained in, which is either the order of the measurement or the
sorted one: with unsorted attributes the whole value was at times reported as
change.
---
 opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..69e4170 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -4,7 +4,7 @@ use crate::metrics::data::{self, AggregatedMetrics, MetricData, SumDataPoint};
 use crate::metrics::Temporality;
 
 use super::aggregate::{AggregateTimeInitiator, AttributeSetFilter};
-use super::{last_value::Assign, AtomicTracker, Number, ValueMap};
+use super::{last_value::Assign, sort_and_dedup, AtomicTracker, Number, ValueMap};
 use super::{ComputeAggregation, Measure};
 use std::{collections::HashMap, sync::Mutex};
 
@@ -71,8 +71,10 @@ impl<T: Number> PrecomputedSum<T> {
         self.value_map
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
-                new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                // the order of the attributes can differ from one collection to the next
+                let key = sort_and_dedup(&attributes);
+                let delta = value - *reported.get(&key).unwrap_or(&T::default());
+                new_reported.insert(key, value);
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From 36704e9177dd5d4a769e7e8f0e75d7ce86aa1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 19/45] fix: shutdown of the async periodic reader reports a
 failed exporter shutdown

---
 .../src/metrics/periodic_reader_with_async_runtime.rs        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 32653ce..5f90b2e 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -304,8 +304,9 @@ impl<E: PushMetricExporter, RT: Runtime> PeriodicReaderWorker<E, RT> {
                     name: "PeriodicReader.ShutdownCalled",
                     message = "Shutdown message received",
                 );
-                let res = self.collect_and_export().await;
-                let _ = self.reader.exporter.shutdown();
+                let export_result = self.collect_and_export().await;
+                let shutdown_result = self.reader.exporter.shutdown();
+                let res = export_result.and(shutdown_result);
                 if let Err(send_error) =
                     ch.send(res.map_err(|e| OTelSdkError::InternalFailure(e.to_string())))
                 {
-- 
2.43.0


From 544a87de11cf2cde16f01ad64f6416fe34e7676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 20/45] fix: stop polling for a sampling strategy when the
 jaeger remote sampler is dropped

The update task held a strong reference to the sampler's state, so the
shutdown signal sent when that state is dropped never came and the task
polled the endpoint forever.
---
 .../src/trace/sampler/jaeger_remote/sampler.rs     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index 7f6ce1d..57bd6dc 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -9,7 +9,7 @@ use opentelemetry::trace::{Link, SamplingResult, SpanKind, TraceId};
 use opentelemetry::{otel_warn, Context, KeyValue};
 use opentelemetry_http::HttpClient;
 use std::str::FromStr;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str = "http://localhost:5778/sampling";
@@ -168,7 +168,8 @@ impl JaegerRemoteSampler {
         };
         Self::run_update_task(
             runtime,
-            sampler.inner.clone(),
+            // the task must not keep the sampler alive, or dropping it would never stop the task
+            Arc::downgrade(&sampler.inner),
             update_timeout,
             client,
             shutdown_rx,
@@ -180,7 +181,7 @@ impl JaegerRemoteSampler {
     // start a updating thread/task
     fn run_update_task<C, R>(
         runtime: R,
-        strategy: Arc<Inner>,
+        strategy: Weak<Inner>,
         update_timeout: Duration,
         client: C,
         shutdown: futures_channel::mpsc::Receiver<()>,
@@ -200,11 +201,14 @@ impl JaegerRemoteSampler {
             ));
 
             while let Some(should_update) = update.next().await {
-                if should_update {
+                if should_update && strategy.strong_count() > 0 {
                     // poll next available configuration or shutdown
                     // send request
                     match Self::request_new_strategy(&client, endpoint.clone()).await {
-                        Ok(remote_strategy_resp) => strategy.update(remote_strategy_resp),
+                        Ok(remote_strategy_resp) => match strategy.upgrade() {
+                            Some(strategy) => strategy.update(remote_strategy_resp),
+                            None => break,
+                        },
                         Err(err_msg) => {
                             otel_warn!(
                                 name: "JaegerRemoteSampler.FailedToFetchStrategy",
-- 
2.43.0


From 246790f74fb30c4e57e5aadcafc52b42ef9573d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 21/45] fix: keep the previous jaeger remote sampling strategy
 when an invalid one is received

A response without any strategy reset the sampler to its default sampler,
although the warning logged for it says that the previous strategy stays in
use.
---
 .../jaeger_remote/sampling_strategy.rs        | 72 ++++++++-----------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
index 0f1fd43..210a17d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
@@ -60,50 +60,40 @@ impl Inner {
     pub(crate) fn update(&self, remote_strategy_resp: SamplingStrategyResponse) {
         self.strategy
             .lock()
-            .map(|mut old_strategy_opt| {
-                *old_strategy_opt = match old_strategy_opt.take() {
-                    Some(mut old_strategy) => {
-                        // update sample strategy
-                        // the response should be an union type where
-                        // - operation_sampling
-                        // - rate_limiting_sampling
-                        // - probabilistic_sampling
-                        // are mutually exclusive.
-                        match (
-                            remote_strategy_resp.operation_sampling,
-                            remote_strategy_resp.rate_limiting_sampling,
-                            remote_strategy_resp.probabilistic_sampling,
-                            &mut old_strategy,
+            .map(|mut strategy_opt| {
+                // update sample strategy
+                // the response should be an union type where
+                // - operation_sampling
+                // - rate_limiting_sampling
+                // - probabilistic_sampling
+                // are mutually exclusive.
+                match (
+                    remote_strategy_resp.operation_sampling,
+                    remote_strategy_resp.rate_limiting_sampling,
+                    remote_strategy_resp.probabilistic_sampling,
+                    strategy_opt.as_mut(),
+                ) {
+                    (
+                        None,
+                        Some(rate_limiting),
+                        None,
+                        Some(Strategy::RateLimiting(leaky_bucket)),
+                    ) => {
+                        // in the future the remote response may support f64
+                        leaky_bucket.update(rate_limiting.max_traces_per_second as f64);
+                    }
+                    // only leaky bucket is a stateful sampler, meaning it's update is different from the initialization
+                    // for other sampler, we can just re-init it
+                    (operation_sampling, rate_limiting_sampling, probabilistic_sampling, _) => {
+                        // an invalid response leaves the previous strategy in place
+                        if let Some(new_strategy) = self.init_strategy(
+                            operation_sampling,
+                            rate_limiting_sampling,
+                            probabilistic_sampling,
                         ) {
-                            (
-                                None,
-                                Some(rate_limiting),
-                                None,
-                                Strategy::RateLimiting(leaky_bucket),
-                            ) => {
-                                leaky_bucket.update(rate_limiting.max_traces_per_second as f64);
-                                // in the future the remote response may support f64
-                                Some(old_strategy)
-                            }
-                            // only leaky bucket is a stateful sampler, meaning it's update is different from the initialization
-                            // for other sampler, we can just re-init it
-                            (
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                                _,
-                            ) => self.init_strategy(
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                            ),
+                            *strategy_opt = Some(new_strategy);
                         }
                     }
-                    None => self.init_strategy(
-                        remote_strategy_resp.operation_sampling,
-                        remote_strategy_resp.rate_limiting_sampling,
-                        remote_strategy_resp.probabilistic_sampling,
-                    ),
                 }
             })
             .unwrap_or_else(|_err| {
-- 
2.43.0


From bd20cd2a0733550c6290da7e1bd1f42ef6055c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 22/45] fix: jaeger remote rate limiter keeps to its limit and
 to its rate

The leaky bucket was refilled only once it was empty, from a last refill that
could lie arbitrarily far back, so twice its size could be sampled at once.
It counted only whole seconds but moved its reference time on every call, so
that it never refilled when asked more than once per second. And after the
system clock was set back it sampled everything until the clock caught up.
---
 .../trace/sampler/jaeger_remote/rate_limit.rs | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
index 3f11e5d..bbd5d53 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
@@ -32,36 +32,29 @@ impl LeakyBucket {
     where
         F: Fn() -> SystemTime,
     {
+        let cur_time = now();
+        match cur_time.duration_since(self.last_time) {
+            Ok(dur) => {
+                self.available = f64::min(
+                    dur.as_secs_f64() * self.span_per_sec + self.available,
+                    self.bucket_size,
+                );
+            }
+            Err(err) => {
+                otel_debug!(
+                    name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
+                    message = "Jaeger remote sampler detected a rewind in system clock",
+                    reason = format!("{:?}", err),
+                );
+            }
+        }
+        self.last_time = cur_time;
+
         if self.available >= 1.0 {
             self.available -= 1.0;
             true
         } else {
-            let cur_time = now();
-            let elapsed = cur_time.duration_since(self.last_time);
-            match elapsed {
-                Ok(dur) => {
-                    self.last_time = cur_time;
-                    self.available = f64::min(
-                        dur.as_secs() as f64 * self.span_per_sec + self.available,
-                        self.bucket_size,
-                    );
-
-                    if self.available >= 1.0 {
-                        self.available -= 1.0;
-                        true
-                    } else {
-                        false
-                    }
-                }
-                Err(err) => {
-                    otel_debug!(
-                        name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
-                        message = "Jaeger remote sampler detected a rewind in system clock",
-                        reason = format!("{:?}", err),
-                    );
-                    true
-                }
-            }
+            false
         }
     }
 }
-- 
2.43.0


From 8331e6c23d31a9d463bd33cedc3b39d56a021200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 23/45] fix: formatting of the imports in meter.rs

---
 opentelemetry-sdk/src/metrics/meter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/meter.rs b/opentelemetry-sdk/src/metrics/meter.rs
index 2231992..9c97396 100644
--- a/opentelemetry-sdk/src/metrics/meter.rs
+++ b/opentelemetry-sdk/src/metrics/meter.rs
@@ -4,9 +4,9 @@ use std::{borrow::Cow, sync::Arc};
 
 use opentelemetry::{
     metrics::{
-        AsyncInstrumentBuilder, Callback, Counter, Gauge, Histogram, HistogramBuilder, InstrumentBuilder,
-        InstrumentProvider, ObservableCounter, ObservableGauge, ObservableUpDownCounter,
-        UpDownCounter,
+        AsyncInstrumentBuilder, Callback, Counter, Gauge, Histogram, HistogramBuilder,
+        InstrumentBuilder, InstrumentProvider, ObservableCounter, ObservableGauge,
+        ObservableUpDownCounter, UpDownCounter,
     },
     otel_error, InstrumentationScope,
 };
-- 
2.43.0


From 22ebc329f6e267ef24997540bbd61720f27950c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 24/45] fix: shutdown of the OTLP span exporter reaches its
 transport

SpanExporter did not forward shutdown, so the default implementation reported
success while later exports still sent requests.
---
 opentelemetry-otlp/src/span.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From 7222ad6347fe008695d47b16cfdb275eb66dae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 25/45] fix: OTLP HTTP metric export fails when the collector
 answers with an error status

Unlike the trace and log exporters it ignored the status of the response.
---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..0571bfe 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,12 +33,23 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
 
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From e437ab537305b6aa9d3378f005dbffbeeecbe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 26/45] fix: OTLP traces carry the schema URL of their
 instrumentation scope

ScopeSpans got the schema URL of the resource instead.
---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From dbff6c1cfb6f1a5bb8431fcf8eb635161b1b5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 27/45] fix: OTLP logs keep the version, attributes and schema
 URL of their scope

Records without a target were grouped by the name of their instrumentation
scope alone, and only that name was exported: version and attributes were
lost, records of different scopes with one name merged, and the schema URL was
that of the resource.
---
 opentelemetry-proto/src/transform/logs.rs | 38 +++++++++++++----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..d66608b 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -168,21 +168,24 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by target, or by instrumentation scope if they have none
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
+                (
+                    Option<Cow<'static, str>>,
+                    Option<&opentelemetry::InstrumentationScope>,
+                ),
                 Vec<(
                     &opentelemetry_sdk::logs::SdkLogRecord,
                     &opentelemetry::InstrumentationScope,
                 )>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
+                let key = match log_record.target() {
+                    Some(target) => (Some(target.clone()), None),
+                    None => (None, Some(instrumentation)),
+                };
                 scope_map
                     .entry(key)
                     .or_default()
@@ -193,16 +196,19 @@ pub mod tonic {
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
-                scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
-                ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+            .map(|((target, _), log_data)| {
+                let instrumentation = log_data.first().unwrap().1;
+                ScopeLogs {
+                    schema_url: instrumentation
+                        .schema_url()
+                        .map(ToOwned::to_owned)
+                        .unwrap_or_default(),
+                    scope: Some(InstrumentationScope::from((instrumentation, target))),
+                    log_records: log_data
+                        .into_iter()
+                        .map(|(log_record, _)| log_record.into())
+                        .collect(),
+                }
             })
             .collect();
 
-- 
2.43.0


From 881231725ca13a8c1f306e5257da68d1ae2ff99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 28/45] fix: shutting down the OTLP gRPC log exporter stops it

---
 opentelemetry-otlp/src/exporter/tonic/logs.rs | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/logs.rs b/opentelemetry-otlp/src/exporter/tonic/logs.rs
index cbcf528..7946d5f 100644
--- a/opentelemetry-otlp/src/exporter/tonic/logs.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/logs.rs
@@ -1,11 +1,12 @@
 use core::fmt;
+use std::sync::Mutex;
+
 use opentelemetry::otel_debug;
 use opentelemetry_proto::tonic::collector::logs::v1::{
     logs_service_client::LogsServiceClient, ExportLogsServiceRequest,
 };
 use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
 use opentelemetry_sdk::logs::{LogBatch, LogExporter};
-use tokio::sync::Mutex;
 use tonic::{codegen::CompressionEncoding, service::Interceptor, transport::Channel, Request};
 
 use opentelemetry_proto::transform::logs::tonic::group_logs_by_resource_and_scope;
@@ -57,17 +58,21 @@ impl TonicLogsClient {
 
 impl LogExporter for TonicLogsClient {
     async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
-        let (mut client, metadata, extensions) = match self.inner.lock().await.as_mut() {
-            Some(inner) => {
-                let (m, e, _) = inner
-                    .interceptor
-                    .call(Request::new(()))
-                    .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
-                    .into_parts();
-                (inner.client.clone(), m, e)
-            }
-            None => return Err(OTelSdkError::AlreadyShutdown),
-        };
+        let (mut client, metadata, extensions) = self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {e:?}")))
+            .and_then(|mut inner| match &mut *inner {
+                Some(inner) => {
+                    let (m, e, _) = inner
+                        .interceptor
+                        .call(Request::new(()))
+                        .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
+                        .into_parts();
+                    Ok((inner.client.clone(), m, e))
+                }
+                None => Err(OTelSdkError::AlreadyShutdown),
+            })?;
 
         let resource_logs = group_logs_by_resource_and_scope(batch, &self.resource);
 
@@ -85,13 +90,11 @@ impl LogExporter for TonicLogsClient {
     }
 
     fn shutdown(&self) -> OTelSdkResult {
-        // TODO: Implement actual shutdown
-        // Due to the use of tokio::sync::Mutex to guard
-        // the inner client, we need to await the call to lock the mutex
-        // and that requires async runtime.
-        // It is possible to fix this by using
-        // a dedicated thread just to handle shutdown.
-        // But for now, we just return Ok.
+        self.inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {}", e)))?
+            .take();
+
         Ok(())
     }
 
-- 
2.43.0


From 5717b8f76846f19da4dc22ad03c3d854488745a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 29/45] fix: the OTLP gRPC metric exporter reports
 AlreadyShutdown after its shutdown

---
 opentelemetry-otlp/src/exporter/tonic/metrics.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/metrics.rs b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
index 2e5eb9d..0c4edf6 100644
--- a/opentelemetry-otlp/src/exporter/tonic/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
@@ -70,9 +70,7 @@ impl MetricsClient for TonicMetricsClient {
                         .into_parts();
                     Ok((inner.client.clone(), m, e))
                 }
-                None => Err(OTelSdkError::InternalFailure(
-                    "exporter is already shut down".into(),
-                )),
+                None => Err(OTelSdkError::AlreadyShutdown),
             })?;
 
         otel_debug!(name: "TonicsMetricsClient.CallingExport");
-- 
2.43.0


From 4f07339dec29beaeb2dab16a6f141889dad1389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 30/45] fix: the timeout of OTLP gRPC exporters limits
 connecting as well

---
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 948b605..e402078 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -208,10 +208,14 @@ impl TonicExporterBuilder {
             None => endpoint,
         }
         .timeout(timeout)
+        .connect_timeout(timeout)
         .connect_lazy();
 
         #[cfg(not(feature = "tls"))]
-        let channel = endpoint.timeout(timeout).connect_lazy();
+        let channel = endpoint
+            .timeout(timeout)
+            .connect_timeout(timeout)
+            .connect_lazy();
 
         otel_debug!(name: "TonicChannelBuilt", endpoint = endpoint_clone, timeout_in_millisecs = timeout.as_millis(), compression = format!("{:?}", compression), headers = format!("{:?}", headers_for_logging));
         Ok((channel, interceptor, compression))
-- 
2.43.0


From 8f824dae57d277d48030f94929c4aadf7e347c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 31/45] fix: the timeout of HyperClient covers the response
 body

---
 opentelemetry-http/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-http/src/lib.rs b/opentelemetry-http/src/lib.rs
index 301979f..f95a07a 100644
--- a/opentelemetry-http/src/lib.rs
+++ b/opentelemetry-http/src/lib.rs
@@ -179,13 +179,18 @@ pub mod hyper {
                     .headers_mut()
                     .insert(http::header::AUTHORIZATION, authorization.clone());
             }
-            let mut response = time::timeout(self.timeout, self.inner.request(request)).await??;
-            let headers = std::mem::take(response.headers_mut());
-
-            let mut http_response = Response::builder()
-                .status(response.status())
-                .body(response.into_body().collect().await?.to_bytes())?;
-            *http_response.headers_mut() = headers;
+            // The timeout limits the whole exchange, including the body of the response
+            let http_response = time::timeout(self.timeout, async {
+                let mut response = self.inner.request(request).await?;
+                let headers = std::mem::take(response.headers_mut());
+
+                let mut http_response = Response::builder()
+                    .status(response.status())
+                    .body(response.into_body().collect().await?.to_bytes())?;
+                *http_response.headers_mut() = headers;
+                Ok::<_, HttpError>(http_response)
+            })
+            .await??;
 
             Ok(http_response.error_for_status()?)
         }
-- 
2.43.0


From 32b71cf459a25dbcc64c397c381f753e0462e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 32/45] fix: without_scope_info no longer drops the selected
 resource labels

---
 opentelemetry-prometheus/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-prometheus/src/lib.rs b/opentelemetry-prometheus/src/lib.rs
index 3ec3879..34ceec6 100644
--- a/opentelemetry-prometheus/src/lib.rs
+++ b/opentelemetry-prometheus/src/lib.rs
@@ -321,7 +321,7 @@ impl prometheus::core::Collector for Collector {
             .get_or_init(|| self.resource_selector.select(&metrics.resource));
 
         for scope_metrics in metrics.scope_metrics {
-            let scope_labels = if !self.disable_scope_info {
+            let mut scope_labels = if !self.disable_scope_info {
                 if scope_metrics.scope.attributes().count() > 0 {
                     let scope_info = inner
                         .scope_infos
@@ -342,14 +342,11 @@ impl prometheus::core::Collector for Collector {
                     l_version.set_value(version.to_string());
                     labels.push(l_version);
                 }
-
-                if !resource_labels.is_empty() {
-                    labels.extend(resource_labels.iter().cloned());
-                }
                 labels
             } else {
                 Vec::new()
             };
+            scope_labels.extend(resource_labels.iter().cloned());
 
             for metrics in scope_metrics.metrics {
                 let (metric_type, name) = match self.metric_type_and_name(&metrics) {
-- 
2.43.0


From 2fbeef32fa73a22037e0d929e861ca66c249899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 33/45] fix: do not call on_start of span processors for spans
 that are not recording

SpanProcessor::on_start is documented to be invoked only when the span is
recording, but it was also called for spans dropped by the sampler.
---
 opentelemetry-sdk/src/trace/tracer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..758ab68 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -13,7 +13,10 @@ use crate::trace::{
     IdGenerator, ShouldSample, SpanEvents, SpanLimits, SpanLinks,
 };
 use opentelemetry::{
-    trace::{SamplingDecision, SpanBuilder, SpanContext, SpanKind, TraceContextExt, TraceFlags},
+    trace::{
+        SamplingDecision, Span as _, SpanBuilder, SpanContext, SpanKind, TraceContextExt,
+        TraceFlags,
+    },
     Context, InstrumentationScope, KeyValue,
 };
 use std::fmt;
@@ -281,9 +284,11 @@ impl opentelemetry::trace::Tracer for SdkTracer {
             }
         };
 
-        // Call `on_start` for all processors
-        for processor in provider.span_processors() {
-            processor.on_start(&mut span, parent_cx)
+        // Call `on_start` for all processors, unless the span was dropped
+        if span.is_recording() {
+            for processor in provider.span_processors() {
+                processor.on_start(&mut span, parent_cx)
+            }
         }
 
         span
-- 
2.43.0


From aaca8a827451f2a4eb53b770a0f7944801d6cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 34/45] fix: do not hold the context stack borrowed while
 calling user code

Tracer::start and build, SpanBuilder::start, TextMapPropagator::inject and
extract and get_active_span called samplers, span processors, propagators and
closures while the thread's context stack was borrowed, so attaching a context
in any of them (e.g. a log emitted through a simple log processor, or a nested
active span) panicked with "RefCell already borrowed".
---
 opentelemetry/src/propagation/text_map_propagator.rs | 4 ++--
 opentelemetry/src/trace/context.rs                   | 2 +-
 opentelemetry/src/trace/tracer.rs                    | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/propagation/text_map_propagator.rs b/opentelemetry/src/propagation/text_map_propagator.rs
index c078e49..4c45d5b 100644
--- a/opentelemetry/src/propagation/text_map_propagator.rs
+++ b/opentelemetry/src/propagation/text_map_propagator.rs
@@ -24,7 +24,7 @@ pub trait TextMapPropagator: Debug {
     /// [`Context`]: crate::Context
     /// [`Injector`]: crate::propagation::Injector
     fn inject(&self, injector: &mut dyn Injector) {
-        Context::map_current(|cx| self.inject_context(cx, injector))
+        self.inject_context(&Context::current(), injector)
     }
 
     /// Properly encodes the values of the [`Context`] and injects them into the
@@ -41,7 +41,7 @@ pub trait TextMapPropagator: Debug {
     /// [`Context`]: crate::Context
     /// [`Injector`]: crate::propagation::Extractor
     fn extract(&self, extractor: &dyn Extractor) -> Context {
-        Context::map_current(|cx| self.extract_with_context(cx, extractor))
+        self.extract_with_context(&Context::current(), extractor)
     }
 
     /// Retrieves encoded data using the provided [`Extractor`]. If no data for this
diff --git a/opentelemetry/src/trace/context.rs b/opentelemetry/src/trace/context.rs
index b293362..464699f 100644
--- a/opentelemetry/src/trace/context.rs
+++ b/opentelemetry/src/trace/context.rs
@@ -363,5 +363,5 @@ pub fn get_active_span<F, T>(f: F) -> T
 where
     F: FnOnce(SpanRef<'_>) -> T,
 {
-    Context::map_current(|cx| f(cx.span()))
+    f(Context::current().span())
 }
diff --git a/opentelemetry/src/trace/tracer.rs b/opentelemetry/src/trace/tracer.rs
index 5e2274f..e39850a 100644
--- a/opentelemetry/src/trace/tracer.rs
+++ b/opentelemetry/src/trace/tracer.rs
@@ -135,7 +135,7 @@ pub trait Tracer {
     where
         T: Into<Cow<'static, str>>,
     {
-        Context::map_current(|cx| self.start_with_context(name, cx))
+        self.start_with_context(name, &Context::current())
     }
 
     /// Starts a new [`Span`] with a given context.
@@ -168,7 +168,7 @@ pub trait Tracer {
 
     /// Start a [`Span`] from a [`SpanBuilder`].
     fn build(&self, builder: SpanBuilder) -> Self::Span {
-        Context::map_current(|cx| self.build_with_context(builder, cx))
+        self.build_with_context(builder, &Context::current())
     }
 
     /// Start a span from a [`SpanBuilder`] with a parent context.
@@ -372,7 +372,7 @@ impl SpanBuilder {
 
     /// Builds a span with the given tracer from this configuration.
     pub fn start<T: Tracer>(self, tracer: &T) -> T::Span {
-        Context::map_current(|cx| tracer.build_with_context(self, cx))
+        tracer.build_with_context(self, &Context::current())
     }
 
     /// Builds a span with the given tracer from this configuration and parent.
-- 
2.43.0


From 4112ce0d2cee744f1393aaa039a60a05eb987a74 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 35/45] fix: a span under an invalid parent begins a trace of
 its own instead of one with id zero

---
 opentelemetry-sdk/src/trace/tracer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 758ab68..46c2f10 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -216,7 +216,12 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         };
 
         // Build context for sampling decision
-        if let Some(sc) = parent_span.as_ref().map(|parent| parent.span_context()) {
+        // An invalid parent has no trace the span could be part of.
+        if let Some(sc) = parent_span
+            .as_ref()
+            .map(|parent| parent.span_context())
+            .filter(|sc| sc.is_valid())
+        {
             trace_id = sc.trace_id();
             psc = sc;
         } else {
-- 
2.43.0


From 77b161b607111d0e08bcc9c284f83a61ff59e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 36/45] fix: views that rename an instrument to names differing
 only in case no longer count its measurements twice

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 684d886..1b09c7e 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -273,7 +273,9 @@ where
             };
             matched = true;
 
-            let id = self.inst_id(kind, &stream);
+            // Normalize as the cache lookup does: stream names ignore case.
+            let mut id = self.inst_id(kind, &stream);
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
-- 
2.43.0


From e800f2af9377cc27f6fac53ef4c3d3945851a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 37/45] fix: a delta observable sum that decreases no longer
 underflows (a panic, or a huge value, for u64)

---
 .../src/metrics/internal/precomputed_sum.rs              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index 69e4170..ed9a368 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -73,7 +73,14 @@ impl<T: Number> PrecomputedSum<T> {
                 let value = aggr.value.get_value();
                 // the order of the attributes can differ from one collection to the next
                 let key = sort_and_dedup(&attributes);
-                let delta = value - *reported.get(&key).unwrap_or(&T::default());
+                let previous = *reported.get(&key).unwrap_or(&T::default());
+                // A monotonic sum that decreased was restarted from zero, as the overflow
+                // series is when it stands for other attribute sets than before.
+                let delta = if self.monotonic && value < previous {
+                    value
+                } else {
+                    value - previous
+                };
                 new_reported.insert(key, value);
                 SumDataPoint {
                     attributes,
-- 
2.43.0


From 6d74d4b49c38ff6a933954de3754eea71670ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 38/45] fix: do not export attribute sets that contain a key
 twice

---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 95b6b5b..99bfbdf 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -144,8 +144,12 @@ where
             let new_tracker = Arc::new(A::create(&self.config));
             new_tracker.update(value);
 
-            // Insert tracker with the attributes in the provided and sorted orders
-            trackers.insert(attributes.to_vec(), new_tracker.clone());
+            // Insert tracker with the attributes in the provided and sorted orders. Attributes
+            // with duplicate keys are only found by their sorted and deduplicated form, as
+            // collection exports one of the forms inserted here.
+            if attributes.len() == sorted_attrs.len() {
+                trackers.insert(attributes.to_vec(), new_tracker.clone());
+            }
             trackers.insert(sorted_attrs, new_tracker);
 
             self.count.fetch_add(1, Ordering::SeqCst);
-- 
2.43.0


From ce6ec82f69b50972a3409835ea98f97942e6d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 39/45] fix: suppress telemetry of the exporter called by the
 simple span processor, which deadlocked on its own spans

---
 opentelemetry-sdk/src/trace/span_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 2afc633..d33f4c9 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -134,6 +134,8 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             return;
         }
 
+        // Spans started by the exporter would wait for the exporter to finish.
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
         let result = self
             .exporter
             .lock()
-- 
2.43.0


From d21b7b97fe2c890fb04e5a5a584e3d135a8c0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 40/45] fix: keep the attributes and trace state that the
 delegate of a ParentBased sampler returns

---
 opentelemetry-sdk/src/trace/sampler.rs | 35 +++++++++++++-------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler.rs b/opentelemetry-sdk/src/trace/sampler.rs
index f33eb6a..a46d099 100644
--- a/opentelemetry-sdk/src/trace/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler.rs
@@ -178,22 +178,9 @@ impl ShouldSample for Sampler {
             // Never sample the trace
             Sampler::AlwaysOff => SamplingDecision::Drop,
             // The parent decision if sampled; otherwise the decision of delegate_sampler
-            Sampler::ParentBased(delegate_sampler) => parent_context
-                .filter(|cx| cx.has_active_span())
-                .map_or_else(
-                    || {
-                        delegate_sampler
-                            .should_sample(
-                                parent_context,
-                                trace_id,
-                                name,
-                                span_kind,
-                                attributes,
-                                links,
-                            )
-                            .decision
-                    },
-                    |ctx| {
+            Sampler::ParentBased(delegate_sampler) => {
+                match parent_context.filter(|cx| cx.has_active_span()) {
+                    Some(ctx) => {
                         let span = ctx.span();
                         let parent_span_context = span.span_context();
                         if parent_span_context.is_sampled() {
@@ -201,8 +188,20 @@ impl ShouldSample for Sampler {
                         } else {
                             SamplingDecision::Drop
                         }
-                    },
-                ),
+                    }
+                    // The delegate may be any sampler, so keep its attributes and trace state.
+                    None => {
+                        return delegate_sampler.should_sample(
+                            parent_context,
+                            trace_id,
+                            name,
+                            span_kind,
+                            attributes,
+                            links,
+                        )
+                    }
+                }
+            }
             // Probabilistically sample the trace.
             Sampler::TraceIdRatioBased(prob) => sample_based_on_probability(prob, trace_id),
             #[cfg(feature = "jaeger_remote_sampler")]
-- 
2.43.0


From a880058fdae522a225f80ad752311535ddbff780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 41/45] fix: report from the shutdown of the batch log
 processor that the remaining logs could not be exported

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index f505929..d25c554 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -281,13 +281,14 @@ impl LogProcessor for BatchLogProcessor {
             Ok(_) => {
                 receiver
                     .recv_timeout(self.shutdown_timeout)
-                    .map(|_| {
+                    .map(|result| {
                         // join the background thread after receiving back the
                         // shutdown signal
                         if let Some(handle) = self.handle.lock().unwrap().take() {
                             handle.join().unwrap();
                         }
-                        OTelSdkResult::Ok(())
+                        // whether the remaining logs could be exported
+                        result
                     })
                     .map_err(|err| match err {
                         RecvTimeoutError::Timeout => {
-- 
2.43.0


From d0a1412040d052d36865c8f4f9d9f238e7db09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 42/45] fix: do not drop measurements of exponential histograms
 with two buckets for subnormal values

Below 2^-1024 a value has a third bin at the minimum scale, so a histogram
with max_size 2 dropped measurements when such a value met one of at least 2.
Subnormal values are now counted with the smallest normal value, as the
specification permits.
---
 .../src/metrics/internal/exponential_histogram.rs            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index b6dd4b5..121d06c 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -127,8 +127,11 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
     }
 
     /// the bin `v` should be recorded into.
+    ///
+    /// Subnormal values share the bin of the smallest normal value, otherwise
+    /// two buckets do not cover the range of f64 values at the minimum scale.
     fn get_bin(&self, v: f64) -> i32 {
-        let (frac, exp) = frexp(v);
+        let (frac, exp) = frexp(v.max(f64::MIN_POSITIVE));
         if self.scale <= 0 {
             // With negative scale `frac` is always 1 power of two higher than we want.
             let mut correction = 1;
-- 
2.43.0


From 60afd8e467c3da5c77ad6711ac2ad33e51222cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 43/45] fix: with_cleared_baggage clears the baggage of the
 context

It stored a value of a type nothing reads, so the derived context kept the
baggage.
---
 opentelemetry/src/baggage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..c18f596 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -412,7 +412,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_value(BaggageContextValue(Baggage::new()))
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From a426b0d2795ea9764bc71f58691edb4ec08431ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:33 +0000
Subject: [PATCH 44/45] fix: a later error status replaces an earlier one
 whatever its description

The descriptions of errors were compared alphabetically, so after an error
"timeout" an error "connection refused" was ignored, although the value of
the last call is to be recorded.
---
 opentelemetry-sdk/src/trace/span.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span.rs b/opentelemetry-sdk/src/trace/span.rs
index 9cb8b88..6a51496 100644
--- a/opentelemetry-sdk/src/trace/span.rs
+++ b/opentelemetry-sdk/src/trace/span.rs
@@ -152,7 +152,10 @@ impl opentelemetry::trace::Span for Span {
         self.with_data(|data| {
             // check if we should update the status
             // These values form a total order: Ok > Error > Unset.
-            if status > data.status {
+            // Of several errors the last one counts, whatever its description.
+            let both_errors = matches!(status, Status::Error { .. })
+                && matches!(data.status, Status::Error { .. });
+            if both_errors || status > data.status {
                 data.status = status;
             }
         });
-- 
2.43.0


From 12805869a63850d07ec3e7ff22fbc1ddecaff215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:34 +0000
Subject: [PATCH 45/45] fix: hash equal floating-point attribute values
 equally, 0.0 and -0.0 made separate series

---
 opentelemetry/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/common.rs b/opentelemetry/src/common.rs
index 4fb32ef..34204f5 100644
--- a/opentelemetry/src/common.rs
+++ b/opentelemetry/src/common.rs
@@ -425,7 +425,9 @@ impl Eq for F64Hashable {}
 
 impl Hash for F64Hashable {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // 0.0 and -0.0 are equal, so that their hashes must be equal, too
+        let value = if self.0 == 0.0 { 0.0 } else { self.0 };
+        value.to_bits().hash(state);
     }
 }
 
-- 
2.43.0


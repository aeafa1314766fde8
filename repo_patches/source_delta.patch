From 328baf6d8d603ea7439ad259dc39ad6f1a7f759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 01/12] fix: threshold_total retracts output when a key's count
 becomes zero

---
 differential-dataflow/src/operators/threshold.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/operators/threshold.rs b/differential-dataflow/src/operators/threshold.rs
index 2909a0c..c7aaac7 100644
--- a/differential-dataflow/src/operators/threshold.rs
+++ b/differential-dataflow/src/operators/threshold.rs
@@ -41,8 +41,9 @@ pub trait ThresholdTotal<'scope, T: Timestamp + TotalOrder + Lattice, K: Exchang
     /// ```
     fn threshold_total<R2: Abelian+'static, F: FnMut(&K,&R)->R2+'static>(self, mut thresh: F) -> VecCollection<'scope, T, K, R2> {
         self.threshold_semigroup(move |key, new, old| {
-            let mut new = thresh(key, new);
-            if let Some(old) = old {
+            // A key whose accumulated count is zero is absent, and contributes no output.
+            let mut new = if new.is_zero() { R2::zero() } else { thresh(key, new) };
+            if let Some(old) = old.filter(|old| !old.is_zero()) {
                 let mut add = thresh(key, old);
                 add.negate();
                 new.plus_equals(&add);
-- 
2.43.0


From 9d29d910c9fe73f894f2b824c03205955578f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 02/12] fix: capture iterator deduplicates updates within one
 message

---
 differential-dataflow/src/capture.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index ba1522a..a8e2c88 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -129,14 +129,14 @@ pub mod iterator {
                 match message {
                     Message::Updates(mut updates) => {
                         // Discard updates at reported times, or duplicates at unreported times.
+                        // Record the rest in our de-duplication collection as we go, so that
+                        // repetitions within one message are also recognized as duplicates.
                         updates.retain(|dtr| {
-                            self.reported_frontier.less_equal(&dtr.1) && !self.updates.contains(dtr)
+                            self.reported_frontier.less_equal(&dtr.1) && self.updates.insert(dtr.clone())
                         });
                         // Decrement our counts of accounted-for messages.
                         self.messages_frontier
-                            .update_iter(updates.iter().map(|(_, t, _)| (t.clone(), -1)));
-                        // Record the messages in our de-duplication collection.
-                        self.updates.extend(updates.into_iter());
+                            .update_iter(updates.into_iter().map(|(_, t, _)| (t, -1)));
                     }
                     Message::Progress(progress) => {
                         // A progress statement may not be immediately actionable.
-- 
2.43.0


From 5262beb1bdd9ff039a7be3603070589cae070724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 03/12] fix: capture sink retries queued progress statements

---
 differential-dataflow/src/capture.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index a8e2c88..53d2650 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -698,16 +698,18 @@ pub mod sink {
 
                             // Advance our frontier to track our progress utterance.
                             frontier = frontiers[0].frontier().to_owned();
+                        }
 
-                            while let Some(message) = send_queue.front() {
-                                if let Some(duration) = sink.poll(message) {
-                                    // Reschedule after `duration` and then bail.
-                                    reactivator.activate_after(duration);
-                                    // Signal that work remains to be done.
-                                    return true;
-                                } else {
-                                    send_queue.pop_front();
-                                }
+                        // Drain what we can from the queue, including statements the sink previously
+                        // asked us to retry, whether or not the frontier has advanced since.
+                        while let Some(message) = send_queue.front() {
+                            if let Some(duration) = sink.poll(message) {
+                                // Reschedule after `duration` and then bail.
+                                reactivator.activate_after(duration);
+                                // Signal that work remains to be done.
+                                return true;
+                            } else {
+                                send_queue.pop_front();
                             }
                         }
                         // Signal incompleteness if messages remain to be sent.
-- 
2.43.0


From f152d6f2769e66e68931cc7e24ef65d8e23ba0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 04/12] fix: SliceContainer::clone_onto accepts slices of a
 different length

---
 differential-dataflow/src/trace/implementations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differential-dataflow/src/trace/implementations/mod.rs b/differential-dataflow/src/trace/implementations/mod.rs
index 9b69cb1..6e7e7d4 100644
--- a/differential-dataflow/src/trace/implementations/mod.rs
+++ b/differential-dataflow/src/trace/implementations/mod.rs
@@ -543,7 +543,7 @@ pub mod containers {
         type ReadItem<'a> = &'a [B];
 
         #[inline(always)] fn into_owned<'a>(item: Self::ReadItem<'a>) -> Self::Owned { item.to_vec() }
-        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { other.clone_from_slice(item); }
+        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { item.clone_into(other); }
 
         fn reborrow<'b, 'a: 'b>(item: Self::ReadItem<'a>) -> Self::ReadItem<'b> { item }
 
-- 
2.43.0


From 4203ca806193a40b4c916f5fe3d4dbcf6323724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/12] fix: PointStamp equality with slices compares all
 coordinates

---
 differential-dataflow/src/dynamic/pointstamp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/differential-dataflow/src/dynamic/pointstamp.rs b/differential-dataflow/src/dynamic/pointstamp.rs
index b256ac9..d2a8b26 100644
--- a/differential-dataflow/src/dynamic/pointstamp.rs
+++ b/differential-dataflow/src/dynamic/pointstamp.rs
@@ -28,17 +28,18 @@ pub struct PointStamp<T> {
 
 impl<T: Timestamp> PartialEq<[T]> for PointStamp<T> {
     fn eq(&self, other: &[T]) -> bool {
-        self.vector.iter()
+        // Coordinates absent from `self.vector` are `T::minimum()`.
+        let len = self.vector.len().max(other.len());
+        self.vector.iter().chain(std::iter::repeat(&T::minimum()))
             .zip(other.iter().chain(std::iter::repeat(&T::minimum())))
+            .take(len)
             .all(|(t1, t2)| t1.eq(t2))
     }
 }
 
 impl<T: Timestamp> PartialEq<PointStamp<T>> for [T] {
     fn eq(&self, other: &PointStamp<T>) -> bool {
-        self.iter()
-            .zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))
-            .all(|(t1, t2)| t1.eq(t2))
+        other.eq(self)
     }
 }
 
-- 
2.43.0


From 0e43dc5a4a9b3014adbff306318f01464e232e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 06/12] fix: CursorList::seek_val moves only the cursors at the
 current key

---
 differential-dataflow/src/trace/cursor/cursor_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/trace/cursor/cursor_list.rs b/differential-dataflow/src/trace/cursor/cursor_list.rs
index 4f39fcf..7a700ac 100644
--- a/differential-dataflow/src/trace/cursor/cursor_list.rs
+++ b/differential-dataflow/src/trace/cursor/cursor_list.rs
@@ -183,8 +183,9 @@ impl<C: Cursor> Cursor for CursorList<C> {
     }
     #[inline]
     fn seek_val(&mut self, storage: &Vec<C::Storage>, val: Self::Val<'_>) {
-        for (cursor, storage) in self.cursors.iter_mut().zip(storage) {
-            cursor.seek_val(storage, val);
+        // Only cursors at the minimum key: others may have no key, or one the caller has yet to visit.
+        for &index in self.min_key.iter() {
+            self.cursors[index].seek_val(&storage[index], val);
         }
         self.minimize_vals(storage);
     }
-- 
2.43.0


From 03c756cfd02c73cc9171ae5f338845160faa9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 07/12] fix: enter arrangements without reordering their
 batches

Arranged::enter and enter_at mapped the batch stream with timely's map, which sorts messages
by time. Batches at incomparable times could then arrive out of description order, and a
reduce in the nested scope lost the ones it saw too late.
---
 .../src/operators/arrange/arrangement.rs      | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/operators/arrange/arrangement.rs b/differential-dataflow/src/operators/arrange/arrangement.rs
index 6bbce64..99383c6 100644
--- a/differential-dataflow/src/operators/arrange/arrangement.rs
+++ b/differential-dataflow/src/operators/arrange/arrangement.rs
@@ -17,7 +17,7 @@
 //! see ill-defined data at times for which the trace is not complete. (All current implementations
 //! commit only completed data to the trace).
 
-use timely::dataflow::operators::{Enter, vec::Map};
+use timely::dataflow::operators::Enter;
 use timely::order::PartialOrder;
 use timely::dataflow::{Scope, Stream};
 use timely::dataflow::operators::generic::Operator;
@@ -65,6 +65,25 @@ impl<'scope, Tr: TraceReader+Clone> Clone for Arranged<'scope, Tr> {
 use ::timely::progress::timestamp::Refines;
 use timely::Container;
 
+/// Maps each batch of a stream, without changing the order of the batches.
+///
+/// Timely's `map` groups messages by time, and sorts them to do so. The batches of an arrangement are
+/// meant to be read in the order of their descriptions, which need not be the order of their message
+/// times when these are incomparable.
+fn map_in_order<'scope, T, B1, B2, L>(stream: Stream<'scope, T, Vec<B1>>, mut logic: L) -> Stream<'scope, T, Vec<B2>>
+where
+    T: Timestamp,
+    B1: Clone + 'static,
+    B2: Clone + 'static,
+    L: FnMut(B1) -> B2 + 'static,
+{
+    stream.unary(Pipeline, "MapInOrder", move |_,_| move |input, output| {
+        input.for_each(|time, data| {
+            output.session(&time).give_iterator(data.drain(..).map(&mut logic));
+        });
+    })
+}
+
 impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
     /// Brings an arranged collection into a nested scope.
     ///
@@ -76,7 +95,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         TInner: Refines<Tr::Time>+Lattice,
     {
         Arranged {
-            stream: self.stream.enter(child).map(|bw| BatchEnter::make_from(bw)),
+            stream: map_in_order(self.stream.enter(child), |bw| BatchEnter::make_from(bw)),
             trace: TraceEnter::make_from(self.trace),
         }
     }
@@ -108,7 +127,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         let logic2 = logic.clone();
         Arranged {
             trace: TraceEnterAt::make_from(self.trace, logic1, prior),
-            stream: self.stream.enter(child).map(move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
+            stream: map_in_order(self.stream.enter(child), move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
         }
     }
 
-- 
2.43.0


From cde47d1f59249831e9a149492ba4ccf4b8743cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 08/12] fix: reduce slices its input only between batches, and
 past empty ones once

When batches reach reduce through another operator or a scope boundary its frontier may be held
by their message times, which split a batch that is still on its way; and an empty batch that
advance_upper had already passed left reduce with a capability it never released.
---
 differential-dataflow/src/operators/reduce.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 8323810..9093f72 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -171,11 +171,15 @@ where
                 lower_limit.extend(upper_limit.borrow().iter().cloned());
 
                 // Drain input batches in order, capturing capabilities and the last upper.
+                // Batches at or before `upper_limit` are empty ones that `advance_upper` has already carried us
+                // past; they must neither move `upper_limit` back nor leave us with a capability to hold.
                 input.for_each(|capability, batches| {
-                    capabilities.insert(capability.retain(0));
                     for batch in batches.drain(..) {
-                        upper_limit.clone_from(batch.upper());
-                        batch_storage.push(batch);
+                        if !timely::PartialOrder::less_equal(batch.upper(), &upper_limit) {
+                            capabilities.insert(capability.retain(0));
+                            upper_limit.clone_from(batch.upper());
+                            batch_storage.push(batch);
+                        }
                     }
                 });
 
@@ -184,7 +188,14 @@ where
                 // Incorporate the input frontier guarantees as well.
                 let mut joined = Antichain::new();
                 crate::lattice::antichain_join_into(&upper_limit.borrow()[..], &frontier.frontier()[..], &mut joined);
-                upper_limit = joined;
+                // The frontier may be held by the times of batches that are still on their way here, rather than
+                // by the bounds of batches. We only slice the source trace between batches, and should wait for
+                // such batches to arrive rather than adopt an upper limit that splits one of them.
+                let mut straddles = false;
+                source_trace.map_batches(|batch| {
+                    straddles |= !timely::PartialOrder::less_equal(&joined, batch.lower()) && !timely::PartialOrder::less_equal(batch.upper(), &joined);
+                });
+                if !straddles { upper_limit = joined; }
 
                 // We plan to retire the interval [lower_limit, upper_limit), which should be non-empty to proceed.
                 if upper_limit != lower_limit {
-- 
2.43.0


From 435595be2e2ba2282dc468d988d3a0c5af25bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 09/12] fix: capture source ships updates with capabilities
 valid for their times

---
 differential-dataflow/src/capture.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index 53d2650..8c6cf41 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -351,16 +351,21 @@ pub mod source {
                     let mut updates = updates_out.activate();
                     let mut progress = progress_out.activate();
 
-                    // TODO(frank): this is a moment where multi-temporal capabilities need to be fixed up.
-                    // Specifically, there may not be one capability valid for all updates.
-                    let mut updates_session = updates.session(&updates_caps[0]);
                     let mut progress_session = progress.session(&progress_caps[0]);
 
                     // We presume the iterator will yield if appropriate.
                     for message in source.by_ref() {
                         match message {
-                            Message::Updates(mut updates) => {
-                                updates_session.give_container(&mut updates);
+                            Message::Updates(mut data) => {
+                                // There may not be one capability valid for all updates, and we send each
+                                // with one that is. Updates valid for none are at times already reported,
+                                // and are duplicates we need not send.
+                                for capability in updates_caps.iter() {
+                                    let (mut valid, other): (Vec<_>, Vec<_>) =
+                                    data.into_iter().partition(|(_, time, _)| capability.time().less_equal(time));
+                                    updates.session(capability).give_container(&mut valid);
+                                    data = other;
+                                }
                             }
                             Message::Progress(progress) => {
                                 // We must send a copy of each progress message to all workers,
-- 
2.43.0


From bf76a607ab627bac0ace2ee3ef661c43268902cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 10/12] fix: half_join2 reactivates when stuck updates became
 eligible while it yielded

---
 dogsdogsdogs/src/operators/half_join2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dogsdogsdogs/src/operators/half_join2.rs b/dogsdogsdogs/src/operators/half_join2.rs
index e9deb66..04867ed 100644
--- a/dogsdogsdogs/src/operators/half_join2.rs
+++ b/dogsdogsdogs/src/operators/half_join2.rs
@@ -326,6 +326,12 @@ where
 
                 // Remove fully-consumed blobs.
                 blobs.retain(|blob| !blob.data.is_empty());
+
+                // A blob that yielded may have drained its ready elements only now, with the rest become
+                // eligible in the meantime. No further frontier change need arrive to promote them.
+                if blobs.iter().any(|b| b.stuck_count == b.data.len() && eligible(&b.data[0].0)) {
+                    activator.activate();
+                }
             }
 
             // Re-activate if we have blobs with ready elements to process.
-- 
2.43.0


From 5fa44c1c6f20520887c3726654ac2d7df1eda3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 11/12] fix: columnar exchange preserves the record count of
 containers that cancel

---
 differential-dataflow/src/columnar/collection/exchange.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/differential-dataflow/src/columnar/collection/exchange.rs b/differential-dataflow/src/columnar/collection/exchange.rs
index ff71b55..60b0188 100644
--- a/differential-dataflow/src/columnar/collection/exchange.rs
+++ b/differential-dataflow/src/columnar/collection/exchange.rs
@@ -69,6 +69,11 @@ impl<U: Update, H: for<'a> FnMut(columnar::Ref<'a, U::Key>)->u64> Distributor<Re
         let total_records = container.records;
         let non_empty: usize = outputs.iter().filter(|o| !o.keys.values.is_empty()).count();
         let mut first_records = total_records.saturating_sub(non_empty.saturating_sub(1));
+        // Updates that all cancelled still owe their record count to progress tracking.
+        if non_empty == 0 && total_records > 0 {
+            let mut recorded = RecordedUpdates { records: total_records, ..Default::default() };
+            Message::push_at(&mut recorded, time.clone(), &mut pushers[0]);
+        }
         for (pusher, output) in pushers.iter_mut().zip(outputs) {
             if !output.keys.values.is_empty() {
                 let recorded = RecordedUpdates { updates: output.into(), records: first_records, consolidated: container.consolidated };
-- 
2.43.0


From 96afd10f9e62326fec7c309a7be211086781c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 12/12] fix: reduce pends joins with history times advanced
 past the upper frontier

---
 differential-dataflow/src/operators/common.rs |  5 +++++
 differential-dataflow/src/operators/reduce.rs | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/differential-dataflow/src/operators/common.rs b/differential-dataflow/src/operators/common.rs
index aea8e59..118db9a 100644
--- a/differential-dataflow/src/operators/common.rs
+++ b/differential-dataflow/src/operators/common.rs
@@ -355,6 +355,11 @@ pub fn discover_times<T, RIn>(
             }
         } else if interesting {
             pended.push(next_time.clone());
+        } else {
+            // An input or output time in advance of `upper`, perhaps only because it was advanced
+            // to the meet of several times: its joins with interesting times are carried.
+            pended.extend(batch_replay.buffer().iter().map(|t| t.join(&next_time)));
+            pended.extend(times_current.iter().map(|t| t.join(&next_time)));
         }
 
         meet = None;
diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 9093f72..3b9beb7 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -797,6 +797,13 @@ mod cursors {
                         new_interesting.push(next_time.clone());
                         debug_assert!(outputs.iter().any(|(t,_)| t.less_equal(&next_time)))
                     }
+                    else {
+                        // An input or output time in advance of `upper_limit`, perhaps only because it was advanced
+                        // to the meet of several times. Its joins with interesting times are interesting, and as they
+                        // are not at or beyond any interesting time we delay, they must be delayed themselves.
+                        new_interesting.extend(batch_replay.buffer().iter().map(|((_,time),_)| time.join(&next_time)));
+                        new_interesting.extend(self.times_current.iter().map(|time| time.join(&next_time)));
+                    }
 
                     // Update `meet` to track the meet of each source of times.
                     meet = None;
@@ -1232,6 +1239,11 @@ pub(crate) mod reference {
                     else if interesting {
                         new_interesting.push(next_time.clone());
                     }
+                    else {
+                        // An input or output time advanced past `upper_limit`: its joins with reached times are pended.
+                        new_interesting.extend(batch_replay.buffer().iter().map(|t| t.join(&next_time)));
+                        new_interesting.extend(self.times_current.iter().map(|t| t.join(&next_time)));
+                    }
 
                     // Running meet (a lower bound on every time still to visit); compact the reached
                     // partners `times_current` with it.
-- 
2.43.0


From 95d5149c5d2d948e42a8ff04aaae1ee0f433d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 01/13] fix: Mutable signals lost a change or the end that
 raced with a poll

---
 src/signal/mutable.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..58923f1 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -99,19 +99,36 @@ impl<A> MutableSignalState<A> {
         }
     }
 
+    fn has_ended(&self) -> bool {
+        self.state.senders.load(Ordering::SeqCst) == 0
+    }
+
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
+        // The senders must be loaded *before* checking for a change: a final change
+        // always happens before the last `Mutable` is dropped.
+        let mut ended = self.has_ended();
+        let mut changed = self.waker.is_changed();
+
+        if !changed && !ended {
+            self.waker.set_waker(cx);
+
+            // It might have changed (or ended) right before the waker was set, in
+            // that case nobody will wake it up.
+            ended = self.has_ended();
+            changed = self.waker.is_changed();
+        }
+
+        if changed {
             let value = {
                 let lock = self.state.lock.read().unwrap();
                 f(&lock.value)
             };
             Poll::Ready(Some(value))
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
+        } else if ended {
             Poll::Ready(None)
 
         } else {
-            self.waker.set_waker(cx);
             Poll::Pending
         }
     }
-- 
2.43.0


From c4ae5739a42c6984b8bf023bd3e453d5fd9050a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 02/13] fix: Mutable::swap could dead lock

---
 src/signal/mutable.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 58923f1..a92bb50 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -294,9 +294,21 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        // Locking the same lock twice would dead lock
+        if Arc::ptr_eq(self.state(), other.state()) {
+            return;
+        }
+
+        // The locks are always acquired in the same order, so that swapping in
+        // the opposite direction on another thread cannot dead lock
+        let (first, second) = if Arc::as_ptr(self.state()) < Arc::as_ptr(other.state()) {
+            (self, other)
+        } else {
+            (other, self)
+        };
+
+        let mut state1 = first.state().lock.write().unwrap();
+        let mut state2 = second.state().lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From 08c7f57e264a35d82b937286d8d7748973d3e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 03/13] fix: channel lost a value, wake-up or end that raced
 with a poll

---
 src/signal/channel.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..f0ab1bb 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -121,10 +121,23 @@ impl<A> Signal for Receiver<A> {
 
     #[inline]
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.inner.value.take() {
+        // The senders must be checked *before* taking the value, because the last
+        // value is always sent before the last sender is dropped.
+        let mut has_senders = self.inner.has_senders();
+        let mut value = self.inner.value.take();
+
+        if value.is_none() && has_senders {
+            self.inner.waker.store(Some(cx.waker().clone()));
+
+            // A value might have been sent (or the channel might have ended) right
+            // before the waker was stored, in that case nobody will wake it up.
+            has_senders = self.inner.has_senders();
+            value = self.inner.value.take();
+        }
+
+        match value {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
+                if has_senders {
                     Poll::Pending
 
                 } else {
-- 
2.43.0


From 29cc71a23052a996c1ad49c67472ea455ddd769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 04/13] fix: closing a channel raced with dropping or cloning
 its senders

---
 src/signal/channel.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index f0ab1bb..f3ecae5 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,15 +22,31 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    /// Changes the number of senders, unless the channel was closed.
+    ///
+    /// Returns the old number of senders, which is 0 if the channel was closed.
+    fn update_senders<F>(&self, f: F) -> usize where F: Fn(usize) -> usize {
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            match self.senders.compare_exchange_weak(senders, f(senders), Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => break,
+                Err(changed) => senders = changed,
+            }
+        }
+
+        senders
+    }
+
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1) == 1
     }
 
     #[inline]
-- 
2.43.0


From e6084b07e54971bb59d3465f7ee587d8a018a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 05/13] fix: Broadcaster signals could miss a change that raced
 with a poll

---
 src/signal/broadcaster.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..1078620 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -43,6 +43,12 @@ impl BroadcasterNotifier {
     }
 
     fn is_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
+    /// This must only be called while holding the write lock of the inner state,
+    /// so that it's not possible to see the unchanged flag with an outdated state.
+    fn reset_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
 }
@@ -129,7 +135,9 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
         if self.notifier.is_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            if self.notifier.reset_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -188,6 +196,14 @@ impl<A> BroadcasterState<A> where A: Signal {
 
                 } else {
                     waker.set_waker(cx);
+
+                    // It might have been notified right before the waker was set
+                    // (or while the signal was being polled), in that case nobody
+                    // else will wake it up.
+                    if shared_state.notifier.is_changed() {
+                        cx.waker().wake_by_ref();
+                    }
+
                     Poll::Pending
                 }
 
-- 
2.43.0


From 3bd3f2dd374ded893157a06c05a528c492c73741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 06/13] fix: cancelling raced with polling a cancelable future

---
 src/future.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..5c3298e 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -58,24 +58,27 @@ impl<A, B> Future for CancelableFuture<A, B>
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
-        // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled while the future was being polled, in
+                    // that case nobody will wake it up.
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(cx.waker().clone());
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From c22888d4cac352cc8bc007607cb78c538b398524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 07/13] fix: filter and filter_map moved the wrong element

When an element was moved towards the front, old_index was calculated after
the element had been inserted again, so it was off by one.
---
 src/signal_vec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..24eb73c 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2067,12 +2067,14 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // Both indexes must be relative to the other elements, so this must
+                        // be calculated before the element is inserted again
+                        let old = find_index(indexes, old_index);
+                        let new = find_index(indexes, new_index);
+
                         indexes.insert(new_index, true);
 
-                        Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
-                            new_index: find_index(indexes, new_index),
-                        }))
+                        Poll::Ready(Some(VecDiff::Move { old_index: old, new_index: new }))
 
                     } else {
                         indexes.insert(new_index, false);
-- 
2.43.0


From 4da09c0ddd84accb839159e026d249e862f84b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 08/13] fix: chain of signal vecs blocked after a change
 without a diff

When an input changed without causing a diff (e.g. an empty Clear or Replace),
chain returned Pending although that input was not waiting, so later changes
and its end were lost.
---
 src/signal_vec.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 24eb73c..76db193 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -747,7 +747,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     None
                 };
 
-                if let Some(change) = self.process_right_change(change) {
+                if let Poll::Ready(Some(change)) = self.process_right_change(change) {
                     self.pending.push_back(change);
                 }
 
@@ -781,7 +781,7 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     None
                 };
 
-                if let Some(change) = self.process_right_change(change) {
+                if let Poll::Ready(Some(change)) = self.process_right_change(change) {
                     self.pending.push_back(change);
                 }
 
@@ -790,10 +790,12 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Ready if the input changed (even if the change does not cause a VecDiff),
+    // and Pending if the input is either waiting or finished
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,21 +837,21 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
-    fn process_right_change(&mut self, change: Option<Poll<Option<VecDiff<A::Item>>>>) -> Option<VecDiff<A::Item>> {
+    fn process_right_change(&mut self, change: Option<Poll<Option<VecDiff<A::Item>>>>) -> Poll<Option<VecDiff<A::Item>>> {
         match change {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         let removing = *self.right_len;
                         let adding = values.len();
@@ -916,18 +918,18 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                             None
                         }
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.right.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
         self.process_right_change(change)
     }
@@ -947,21 +949,29 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
+            let left = this.process_left(cx);
+
+            if let Poll::Ready(Some(change)) = left {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_right(cx) {
+            let right = this.process_right(cx);
+
+            if let Poll::Ready(Some(change)) = right {
                 return Poll::Ready(Some(change));
 
             } else if let Some(change) = this.pending.pop_front() {
                 return Poll::Ready(Some(change));
             }
 
-            if this.left.is_none() && this.right.is_none() {
+            // If an input changed, then it hasn't registered the Waker, so it must be polled again
+            if left.is_ready() || right.is_ready() {
+                continue;
+
+            } else if this.left.is_none() && this.right.is_none() {
                 return Poll::Ready(None);
 
             } else {
-- 
2.43.0


From 6f6ba8f5a8c7cf6cce2995890df06d5e37a9fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 09/13] fix: flatten of a signal vec kept the values of removed
 inner vecs

RemoveAt, Pop, UpdateAt and Move of the outer signal vec changed the internal
state but did not cause any diffs, so the output did not match any more.
---
 src/signal_vec.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 76db193..5b805d7 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -997,6 +997,29 @@ impl<A> FlattenState<A> where A: SignalVec {
         }
     }
 
+    fn total_len(states: &[Self]) -> usize {
+        states.iter().map(|state| state.len).sum()
+    }
+
+    // Removes all of the values of this signal_vec, which start at the index `start`
+    fn remove_values(&self, start: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in (0..self.len).rev() {
+            pending.push(VecDiff::RemoveAt { index: start + index });
+        }
+    }
+
+    // Moves all of the values of this signal_vec, so that they start at the index `new_start`
+    fn move_values(&self, old_start: usize, new_start: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in 0..self.len {
+            if old_start < new_start {
+                pending.push(VecDiff::Move { old_index: old_start, new_index: new_start + (self.len - 1) });
+
+            } else if new_start < old_start {
+                pending.push(VecDiff::Move { old_index: old_start + index, new_index: new_start + index });
+            }
+        }
+    }
+
     fn update_len(&mut self, diff: &VecDiff<A::Item>) {
         match diff {
             VecDiff::Replace { values } => {
@@ -1155,20 +1178,28 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            let start = FlattenState::total_len(&this.inner[..index]);
+                            this.inner[index].remove_values(start, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
-                            this.inner.remove(index);
+                            let start = FlattenState::total_len(&this.inner[..index]);
+                            this.inner.remove(index).remove_values(start, &mut pending);
                         },
                         VecDiff::Move { old_index, new_index } => {
+                            let old_start = FlattenState::total_len(&this.inner[..old_index]);
                             let value = this.inner.remove(old_index);
+                            let new_start = FlattenState::total_len(&this.inner[..new_index]);
+                            value.move_values(old_start, new_start, &mut pending);
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let state = this.inner.pop().unwrap();
+                            let start = FlattenState::total_len(&this.inner);
+                            state.remove_values(start, &mut pending);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From 8d77a2d7b95886e8e6cd5cde5108ffb3b36b6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 10/13] fix: filter_signal_cloned moved the wrong element

When an element was moved towards the front, old_index was calculated after
the element had been inserted again, so it was off by one.
---
 src/signal_vec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 5b805d7..8170b06 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1809,13 +1809,15 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // Both indexes must be relative to the other elements, so this must
+                            // be calculated before the element is inserted again
+                            let old = Self::find_index(signals, old_index);
+                            let new = Self::find_index(signals, new_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
-                                VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
-                                    new_index: Self::find_index(signals, new_index),
-                                }
+                                VecDiff::Move { old_index: old, new_index: new }
 
                             } else {
                                 continue;
-- 
2.43.0


From 1be3f42202f2eb54824c541c2e722fe54be8ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 11/13] fix: is_empty never ended if the last change did not
 affect the emptiness

If the SignalVec had ended together with that change, then is_empty returned
Pending although nothing would ever wake it up.
---
 src/signal_vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 8170b06..b9b1670 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1930,16 +1930,20 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { mut len, old } = self.project();
 
-        match len.poll_change(cx) {
-            Poll::Ready(Some(len)) => {
-                let new = Some(len == 0);
+        match len.as_mut().poll_change(cx) {
+            Poll::Ready(Some(new_len)) => {
+                let new = Some(new_len == 0);
 
                 if *old != new {
                     *old = new;
                     Poll::Ready(new)
 
+                // The SignalVec has already ended, so there won't be any more wake-ups
+                } else if len.signal.is_none() {
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 06b5d08b5b7868725a556a427f17a0a6623130fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 12/13] fix: switch_signal_vec ended with the values of the old
 signal vec left over

---
 src/signal/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..7352d56 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,7 +1728,8 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
+                    // The values of the old SignalVec must be removed before it ends
+                    if signal_done && *len == 0 {
                         Poll::Ready(None)
 
                     } else {
-- 
2.43.0


From ae22db0addef75ca96056bce8f0c723079e97637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 13/13] fix: key_cloned polled the signal map again after it
 had ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..8d21741 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,10 +443,11 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0


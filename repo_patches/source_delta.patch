From 9b722172d40959101de155215f05e6be8785ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 01/20] fix: include the depth in bubbling listener keys

A path segment that feeds nothing to the hasher (such as a HashMap key of
type ()) shared the bubbling key of its parent path, so changes to the parent
wrongly fired bubbling streams on the child.
---
 x-bow/src/hash.rs         | 4 ++--
 x-bow/src/hash_visitor.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/x-bow/src/hash.rs b/x-bow/src/hash.rs
index 98adaa0..896ab27 100644
--- a/x-bow/src/hash.rs
+++ b/x-bow/src/hash.rs
@@ -8,9 +8,9 @@ impl WakerHashEntry {
         const INVERT_DEPTH_MASK: u64 = !(u8::MAX as u64);
         Self((hash & INVERT_DEPTH_MASK) | (depth as u64))
     }
-    pub fn bubbling_from(hash: u64) -> Self {
+    pub fn bubbling_from(hash: u64, depth: u8) -> Self {
         // XOR with a randomly-generated number so that the `bubbling` value
         // is different from the `regular` variant.
-        Self(hash ^ 0x33b741db0040f7e)
+        Self(Self::regular_from(hash, depth).0 ^ 0x33b741db0040f7e)
     }
 }
diff --git a/x-bow/src/hash_visitor.rs b/x-bow/src/hash_visitor.rs
index 6441fa3..e48c4c7 100644
--- a/x-bow/src/hash_visitor.rs
+++ b/x-bow/src/hash_visitor.rs
@@ -29,7 +29,7 @@ impl<'a> HashVisitor<'a> {
         WakerHashEntry::regular_from(self.hasher.finish(), self.depth)
     }
     pub(crate) fn to_bubbling_key(&self) -> WakerHashEntry {
-        WakerHashEntry::bubbling_from(self.hasher.finish())
+        WakerHashEntry::bubbling_from(self.hasher.finish(), self.depth)
     }
 }
 
@@ -72,7 +72,7 @@ impl<'a> HashVisitor<'a> {
             }
             HashVisitorBehavior::GetHash {} => {}
             HashVisitorBehavior::WakeBubblingListeners { wakers } => {
-                let hash = WakerHashEntry::bubbling_from(self.hasher.finish());
+                let hash = WakerHashEntry::bubbling_from(self.hasher.finish(), self.depth);
                 wakers.wake_entry(hash);
             }
         }
-- 
2.43.0


From d7f3021f5db7815e0111c72e9b9963c52de6691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 02/20] fix: apply the last incoming value of bind_for_each
 before finishing

When the incoming stream yielded values and its end in one poll, the binding
finished without writing the values to the path.
---
 x-bow/src/path_ext/bind_for_each.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..a017c9e 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,13 +39,15 @@ where
         let mut this = self.project();
 
         let mut val = None;
+        let mut ended = false;
         loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
                 Poll::Ready(None) => {
-                    return Poll::Ready(());
+                    ended = true;
+                    break;
                 }
                 Poll::Pending => break,
             }
@@ -58,6 +60,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From 303b74198a5bc5acb3591520b6a6d6c7538125cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 03/20] fix: support try_join and race_ok on tuples of twelve
 futures

The documentation promises tuples of up to twelve futures, but these two
combinators were only implemented up to eleven.
---
 async_ui_web_core/src/combinators/race_ok/tuple.rs  | 1 +
 async_ui_web_core/src/combinators/try_join/tuple.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/async_ui_web_core/src/combinators/race_ok/tuple.rs b/async_ui_web_core/src/combinators/race_ok/tuple.rs
index 88939f3..16bb60e 100644
--- a/async_ui_web_core/src/combinators/race_ok/tuple.rs
+++ b/async_ui_web_core/src/combinators/race_ok/tuple.rs
@@ -53,6 +53,7 @@ impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) }
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) }
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) (A10 E10) }
+impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) (A10 E10) (A11 E11) }
 
 #[cfg(test)]
 mod test {
diff --git a/async_ui_web_core/src/combinators/try_join/tuple.rs b/async_ui_web_core/src/combinators/try_join/tuple.rs
index fe91edd..e34f7f7 100644
--- a/async_ui_web_core/src/combinators/try_join/tuple.rs
+++ b/async_ui_web_core/src/combinators/try_join/tuple.rs
@@ -51,6 +51,7 @@ impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) }
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) }
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) (A10 T10) }
+impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) (A10 T10) (A11 T11) }
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 7d56ee3a71b857c91db5b21c24e654bcdfe26984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 04/20] fix: do not detach descendants when a root container is
 dropped

Dropping a ContainerNodeFuture that has not added its own node (one made by
new_root, or one that was never polled) let the drop glue of its descendants
run with detachment unblocked, so they either panicked for lack of a DOM
context or detached nodes from whichever context was current.
---
 async_ui_web_core/src/node_container.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..56f85d2 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -77,9 +77,12 @@ impl<C: Future> Future for ContainerNodeFuture<C> {
 #[pinned_drop]
 impl<C> PinnedDrop for ContainerNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
+        // Our own node or all our children are about to be removed,
+        // so descendants being dropped should not try to detach anything.
+        let blocked = self.drop.block_until_drop();
         if matches!(self.add_self, AddSelfMode::Added) {
             // we added our node, we should remove it
-            if !self.drop.block_until_drop() {
+            if !blocked {
                 DOM_CONTEXT.with(|ctx| {
                     ctx.remove_child(ChildPosition::default());
                 })
-- 
2.43.0


From ba7ace314bcf2af4ea964c508b09240660458520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 05/20] fix: refuse to poll a completed vec combinator again

The stored items are taken when the combinator finishes, so checking that the
items are empty never tripped and a second poll returned an empty result.
---
 async_ui_web_core/src/combinators/common/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_core/src/combinators/common/vec.rs b/async_ui_web_core/src/combinators/common/vec.rs
index f4beb08..9fb7d62 100644
--- a/async_ui_web_core/src/combinators/common/vec.rs
+++ b/async_ui_web_core/src/combinators/common/vec.rs
@@ -92,7 +92,7 @@ where
 
         if *this.pending == 0 {
             assert!(
-                this.items.is_empty(),
+                this.futures.is_empty(),
                 "Futures must not be polled after completing"
             );
             if B::PEND_IF_EMPTY {
-- 
2.43.0


From b4e311534ef822bd8a87baf7bd126b23693527fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 06/20] fix: leave the DOM alone when a never polled future is
 dropped

A combinator or sibling future that was dropped before its first poll has
rendered nothing, but it still removed whatever its surroundings had rendered
at the current position, and panicked when there was no DOM context.
---
 async_ui_web_core/src/combinators/common/array.rs | 6 +++++-
 async_ui_web_core/src/combinators/common/tuple.rs | 6 +++++-
 async_ui_web_core/src/combinators/common/vec.rs   | 6 +++++-
 async_ui_web_core/src/node_sibling.rs             | 2 +-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/async_ui_web_core/src/combinators/common/array.rs b/async_ui_web_core/src/combinators/common/array.rs
index 184ff93..53c24ab 100644
--- a/async_ui_web_core/src/combinators/common/array.rs
+++ b/async_ui_web_core/src/combinators/common/array.rs
@@ -76,6 +76,8 @@ where
     awake_list_buffer: [usize; N],
     #[pin]
     futures: [Fut; N],
+    /// Whether we have been polled, and so might have something rendered.
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -95,6 +97,7 @@ where
             // TODO: this is a temporary buffer so it can be MaybeUninit.
             awake_list_buffer: [0; N],
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -120,6 +123,7 @@ where
     #[inline]
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if N == 0 && B::PEND_IF_EMPTY {
             return Poll::Pending;
@@ -219,7 +223,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if !this.detachment_blocker.block_until_drop() && *this.polled {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/combinators/common/tuple.rs b/async_ui_web_core/src/combinators/common/tuple.rs
index 3360979..5d6ffdd 100644
--- a/async_ui_web_core/src/combinators/common/tuple.rs
+++ b/async_ui_web_core/src/combinators/common/tuple.rs
@@ -74,6 +74,8 @@ macro_rules! impl_common_tuple {
             awake_list_buffer: [usize; $mod_name::LEN],
             #[pin]
             futures: $mod_name::Futures<$($F,)+>,
+            /// Whether we have been polled, and so might have something rendered.
+            polled: bool,
             detachment_blocker: DetachmentBlocker,
         }
 
@@ -114,6 +116,7 @@ macro_rules! impl_common_tuple {
                     pending: $mod_name::LEN,
                     awake_list_buffer: [0; $mod_name::LEN],
                     futures: $mod_name::Futures {$($F: self.0.$idx,)+},
+                    polled: false,
                     detachment_blocker: DetachmentBlocker
                 }
 			}
@@ -140,6 +143,7 @@ macro_rules! impl_common_tuple {
                 self: Pin<&mut Self>, cx: &mut Context<'_>
             ) -> Poll<Self::Output> {
                 let mut this = self.project();
+                *this.polled = true;
                 assert!(
                     *this.pending > 0,
                     "Futures must not be polled after completing"
@@ -230,7 +234,7 @@ macro_rules! impl_common_tuple {
             fn drop(self: Pin<&mut Self>) {
                 let this = self.project();
 
-                if !this.detachment_blocker.block_until_drop() {
+                if !this.detachment_blocker.block_until_drop() && *this.polled {
                     DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
                 }
 
diff --git a/async_ui_web_core/src/combinators/common/vec.rs b/async_ui_web_core/src/combinators/common/vec.rs
index 9fb7d62..118399b 100644
--- a/async_ui_web_core/src/combinators/common/vec.rs
+++ b/async_ui_web_core/src/combinators/common/vec.rs
@@ -46,6 +46,8 @@ where
     awake_list_buffer: Vec<usize>,
     #[pin]
     futures: Vec<Fut>,
+    /// Whether we have been polled, and so might have something rendered.
+    polled: bool,
     detachment_blocker: DetachmentBlocker,
 }
 
@@ -65,6 +67,7 @@ where
             filled: BitVec::repeat(false, len),
             awake_list_buffer: Vec::new(),
             futures,
+            polled: false,
             detachment_blocker: DetachmentBlocker,
         }
     }
@@ -89,6 +92,7 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        *this.polled = true;
 
         if *this.pending == 0 {
             assert!(
@@ -171,7 +175,7 @@ where
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
 
-        if !this.detachment_blocker.block_until_drop() {
+        if !this.detachment_blocker.block_until_drop() && *this.polled {
             DOM_CONTEXT.with(|parent: &DomContext| parent.remove_child(ChildPosition::default()));
         }
 
diff --git a/async_ui_web_core/src/node_sibling.rs b/async_ui_web_core/src/node_sibling.rs
index a7ef1ed..f54ce34 100644
--- a/async_ui_web_core/src/node_sibling.rs
+++ b/async_ui_web_core/src/node_sibling.rs
@@ -55,7 +55,7 @@ impl<C: Future> Future for SiblingNodeFuture<C> {
 impl<C> PinnedDrop for SiblingNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
         let this = self.project();
-        if !this.drop.block_until_drop() {
+        if !this.drop.block_until_drop() && !this.group.borrow().is_empty() {
             DOM_CONTEXT.with(|parent: &DomContext| {
                 (DomContext::Sibling {
                     group: this.group,
-- 
2.43.0


From 5a5211740faab1b3e9875234a824b031cc2acabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 07/20] fix: treat an absent before key in DynamicList as the
 end

insert and move_before document that a before key that does not exist means
the end of the list, but they panicked.
---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..2073f61 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From cce8720a7cb7d2690c6e2753c64bdbe8f9a64193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 08/20] fix: make moving a DynamicList item before itself do
 nothing

The item's own start marker was used as the reference node while it was
being moved, which scattered the rest of the item.
---
 async_ui_web/src/lists/dynamic_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 2073f61..a2d39d0 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if after.is_same_node(Some(&to_move.start_marker)) {
+            // the future is already just before itself
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
-- 
2.43.0


From e66eddeddeee89c6bd517cccf98ef3c4f81720de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/20] fix: swap adjacent DynamicList items correctly

When the second item immediately followed the first, its own start marker was
used as the reference node while it was being moved.
---
 async_ui_web/src/lists/dynamic_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index a2d39d0..ca3e353 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -253,6 +253,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // key_2 immediately follows key_1
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From 0a9ba71bc3ec4fe1b913acf829c5eb77fe16fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/20] fix: keep a rendered DynamicList in its place among its
 siblings

The list's nodes were not known to the enclosing context, so anything that an
earlier sibling rendered afterwards was placed behind the list.
---
 async_ui_web/src/lists/dynamic_list.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index ca3e353..be7dd16 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -308,23 +308,18 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// This async method never completes.
     pub async fn render(&self) {
+        // Keeps our place among the siblings for as long as we are rendered.
+        let position_marker: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut position_fut =
+            ContainerNodeFuture::new(pending::<()>(), position_marker.clone());
         let real_containing_node;
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
-            real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
-                .unwrap_throw();
-            drop(insert_marker_fut);
-            real_containing_node
-                .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
-                .unwrap_throw();
+            let _ = Pin::new(&mut position_fut).poll(&mut context);
+            real_containing_node = position_marker.parent_node().unwrap_throw();
         }
         let stored_fragment;
         {
@@ -336,7 +331,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
                 ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
                     real_containing_node
-                        .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
+                        .insert_before(fragment.as_ref(), position_marker.next_sibling().as_ref())
                         .unwrap_throw();
                     stored_fragment = fragment;
                 }
-- 
2.43.0


From d298b7fe4a11a1b210033f95a8ff04ce8a896ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/20] fix: do not place DiffedList items before keys that
 have already moved

Updating [a, b, c] to [b, a, c] left the list in its old order because the
next previous key was taken to still be unplaced.
---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..d9bbe5f 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // skip the keys that have already been moved forward
+            while prev_keys_iter
+                .next_if(|k| !prev_keys_set.contains(*k))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From bad28b9fac15b14ae357a4b6f7ebdccab1bc7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 12/20] fix: do not place dropdown options before options that
 have already moved

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..42e2db7 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // skip the options that have already been moved forward
+            while prev_opts_iter
+                .next_if(|o| !prev_opts_set.contains(*o))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From 42d4f52a55e40c4e61006f88f70de8d179fca084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 13/20] fix: forget the selection when a dropdown is deselected

value() kept returning the previous selection after set_value(None).
---
 async_ui_web/src/components/dropdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 42e2db7..264e367 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_value("");
     }
     /// Set the options to be displayed in the dropdown.
-- 
2.43.0


From 8814844e5d197e00f86271f69e27501330f24c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 14/20] fix: do not poll the future in a DynamicSlot after it
 has completed

---
 async_ui_web/src/components/dynamic_slot.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..8f20a3e 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,11 +71,16 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether that Future has completed
+        let mut completed = false;
         poll_fn(|cx| {
             {
                 let mut channel = self.channel.borrow_mut();
                 match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                    Message::Set(new_fut) => {
+                        fut_slot.set(Some(new_fut));
+                        completed = false;
+                    }
                     Message::Clear => fut_slot.set(None),
                     Message::NoChange => {}
                 }
@@ -84,9 +89,11 @@ impl<F: Future> DynamicSlot<F> {
                     channel.0 = cx.waker().to_owned();
                 }
             }
-            // poll the Future in the slot, if there is one
-            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+            // poll the Future in the slot, if there is one that has not completed
+            if !completed {
+                if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
+                    completed = fut.poll(cx).is_ready();
+                }
             }
             Poll::Pending
         })
-- 
2.43.0


From 91d810d7d7d4757162cc0400eb2caeecee25e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 15/20] fix: remove capturing event listeners when their stream
 is dropped

A listener is identified by its capture flag too, so removing it without the
flag left a capturing listener registered.
---
 async_ui_web_html/src/event_handling.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..e429237 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,9 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    /// The `capture` option is part of a listener's identity,
+    /// so we need it again for removing the listener.
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +44,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +57,7 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        self.capture = capture;
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +165,10 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 2e83d58078485ff01527573e379b9b47f7ab788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 16/20] fix: VirtualizedList::set_num_items updates the items
 shown whatever the scroll position

update_visible returns early when the items shown reach far enough past the
viewport. After the number of items changed this left items beyond the new
number shown (shrinking), and the back spacer sized for the old number.
---
 async_ui_web/src/lists/virtualized_list.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..9d07bb4 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -128,7 +128,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     /// How many items does the list have?
     pub fn set_num_items(&self, num: usize) {
         self.state.borrow_mut().num_items = num;
-        self.update_visible();
+        self.update_visible(true);
     }
     #[doc(hidden)]
     pub fn force_update(&self, _range: impl RangeBounds<usize>) {
@@ -153,7 +153,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 &[spf, spb],
                 self.wake_closure.as_ref().unchecked_ref(),
             );
-            self.update_visible();
+            self.update_visible(false);
             self.root
                 .add_event_listener_with_callback(
                     "scroll",
@@ -163,12 +163,12 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             let mut uc = self.signal.until_change();
             loop {
                 uc.next().await;
-                self.update_visible();
+                self.update_visible(false);
             }
         }))
         .await;
     }
-    fn update_visible(&self) {
+    fn update_visible(&self, resized: bool) {
         fn top_bottom(rect: &web_sys::DomRect, direction: Direction) -> (f64, f64) {
             match direction {
                 Direction::Vertical => (rect.top(), rect.bottom()),
@@ -184,7 +184,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        if !resized
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
             return;
-- 
2.43.0


From cd5afb4b71362c08c97610ee709b613f8aaca464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 17/20] fix: VirtualizedList's range of items cannot start
 beyond its end

Scrolled further than the items reach, new_start exceeded new_end: the front
spacer stood for items that do not exist, and the range was inverted.
---
 async_ui_web/src/lists/virtualized_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 9d07bb4..15bc4b1 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -197,9 +197,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         } else {
             root_size / 4.0
         };
-        let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        let new_start =
+            (((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize).min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0


From 6ab979b936665ac1e47cf33f93caa4627b14396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:22 +0000
Subject: [PATCH 18/20] fix: css! keeps backslashes, backticks and ${ of the
 style sheet out of the JS literal's syntax

---
 async_ui_web_macros/src/css.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 80e1935..44a6150 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -37,6 +37,11 @@ fn generate(input: String) -> TokenStream {
     let style_var_name = format_ident!("style_{postfix}");
     let dce_hack_fn_name = format_ident!("style_{postfix}_dep");
 
+    // the style sheet goes into a template literal: keep what has a meaning in it from having it
+    let output = output
+        .replace('\\', "\\\\")
+        .replace('`', "\\`")
+        .replace("${", "\\${");
     let js_content = format!(
         "
 export const {style_var_name} = `{output}`;
-- 
2.43.0


From 88149ca1d8206173da3d5a5008fa635a9388ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:22 +0000
Subject: [PATCH 19/20] fix: css! knows @MEDIA and the like whatever their case

---
 async_ui_web_macros/src/css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 44a6150..ed4bf60 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -171,7 +171,7 @@ mod find_classes {
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
             drain_input(input)?;
-            match &*name {
+            match name.to_ascii_lowercase().as_str() {
                 "media" | "supports" | "container" | "layer" => Ok(true),
                 _ => Ok(false),
             }
-- 
2.43.0


From 742ec363d7d9759e8c143828702cf664c6ccc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:37 +0000
Subject: [PATCH 20/20] fix: select! awaits the whole of the future expression
 it is given

---
 async_ui_web_macros/src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/select.rs b/async_ui_web_macros/src/select.rs
index db86af0..975b906 100644
--- a/async_ui_web_macros/src/select.rs
+++ b/async_ui_web_macros/src/select.rs
@@ -70,7 +70,7 @@ impl MacroInput {
                     #(#enum_variants (#enum_variants)),*
                 }
                 match ::async_ui_web::race((
-                    #( async { #enum_name :: #enum_variants (#futures.await) },)*
+                    #( async { #enum_name :: #enum_variants ((#futures).await) },)*
                 )).await {
                     #(
                         #enum_name :: #enum_variants ( #patterns ) => #exprs,
-- 
2.43.0


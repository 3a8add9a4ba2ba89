From fe5a5ebf7ca22b345585f032c15a8c463c445e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 01/20] fix: unmounting a root no longer panics when a future
 inside it wants to detach its nodes

Dropping a root ContainerNodeFuture dropped its children without blocking their
detachment and outside of any DOM context, so a pending combinator inside hit an
unset scoped thread local.
---
 async_ui_web_core/src/node_container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..e698911 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -77,9 +77,11 @@ impl<C: Future> Future for ContainerNodeFuture<C> {
 #[pinned_drop]
 impl<C> PinnedDrop for ContainerNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
+        // Whichever way our nodes go away, our descendants shouldn't try to detach theirs.
+        let already_blocked = self.drop.block_until_drop();
         if matches!(self.add_self, AddSelfMode::Added) {
             // we added our node, we should remove it
-            if !self.drop.block_until_drop() {
+            if !already_blocked {
                 DOM_CONTEXT.with(|ctx| {
                     ctx.remove_child(ChildPosition::default());
                 })
-- 
2.43.0


From a9dc5d281ca60759944b234bd163eb9218999d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 02/20] fix: DynamicList insert/move_before place the item at
 the end when the `before` key doesn't exist

---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..2073f61 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From 2235b1e548f3b7cbe2d4a1a09d0ee1107c657e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 03/20] fix: DynamicList::move_before no longer loses the item
 when told to move it before itself

---
 async_ui_web/src/lists/dynamic_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 2073f61..8cd4c1b 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if to_move.start_marker.is_same_node(Some(after)) {
+            // already just before itself
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
-- 
2.43.0


From cf40e8fadc5d6a8a23acc191546c6336a6f2e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 04/20] fix: DynamicList::swap works when the second item comes
 right after the first

---
 async_ui_web/src/lists/dynamic_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 8cd4c1b..e4eb96c 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -253,6 +253,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item_2 comes right after item_1
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From c13be90cc51c2a8ef2db9e4b8c4f5a2a320393de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 05/20] fix: siblings rendered after a DynamicList appear on
 the correct side of it

---
 async_ui_web/src/lists/dynamic_list.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index e4eb96c..9028760 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -308,20 +308,21 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// This async method never completes.
     pub async fn render(&self) {
+        // This node stays just in front of the list for as long as the list is rendered,
+        // so that siblings rendered later know where the list is.
+        let anchor: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut anchor_fut = ContainerNodeFuture::new(pending::<()>(), anchor.clone());
         let real_containing_node;
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
+            let _ = Pin::new(&mut anchor_fut).poll(&mut context);
+            real_containing_node = anchor.parent_node().unwrap_throw();
             real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
+                .insert_before(&self.list_end_marker, anchor.next_sibling().as_ref())
                 .unwrap_throw();
-            drop(insert_marker_fut);
             real_containing_node
                 .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
                 .unwrap_throw();
-- 
2.43.0


From 4008276de3f93a4ee4aa7dc67153311595aa5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 06/20] fix: DiffedList::update orders items correctly when
 earlier items have been moved

---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..f2e2988 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // skip the keys that have been moved to their new place already
+            while prev_keys_iter
+                .next_if(|prev_key| !prev_keys_set.contains(prev_key))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From 8d6bb051c348cbdb9c996ca7a3172b2b60abbf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 07/20] fix: capturing event listeners are removed when their
 EventFutureStream is dropped

---
 async_ui_web_html/src/event_handling.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..745c34a 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,7 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +42,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +55,7 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        self.capture = capture;
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +163,11 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    // a listener is only found with the `capture` it was added with
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 42c1c2c1cc8f4872099aff91e00ca2cc96d7718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 08/20] fix: bind_for_each applies values that arrive together
 with the end of the incoming stream

---
 x-bow/src/path_ext/bind_for_each.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..a017c9e 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,13 +39,15 @@ where
         let mut this = self.project();
 
         let mut val = None;
+        let mut ended = false;
         loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
                 Poll::Ready(None) => {
-                    return Poll::Ready(());
+                    ended = true;
+                    break;
                 }
                 Poll::Pending => break,
             }
@@ -58,6 +60,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From f26847d5de122614c02f9b066361aba06f041c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 09/20] fix: bind_for_each calls on_change in the beginning
 even if a value is already incoming

---
 x-bow/src/path_ext/bind_for_each.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index a017c9e..cb7d4e2 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -38,6 +38,8 @@ where
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
 
+        // must be read before `until_change` is polled below
+        let first = !this.until_change.has_been_polled();
         let mut val = None;
         let mut ended = false;
         loop {
@@ -64,7 +66,6 @@ where
             return Poll::Ready(());
         }
 
-        let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
             if let Some(data) = this.path.borrow_opt().as_deref() {
                 (this.closure)(data);
-- 
2.43.0


From 68d30498686f06b0e5eec373222c67d5291b5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 10/20] fix: DynamicSlot does not poll a future again after it
 completed

---
 async_ui_web/src/components/dynamic_slot.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..3705c5b 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,11 +71,16 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether the Future has completed (and so must not be polled anymore)
+        let mut completed = false;
         poll_fn(|cx| {
             {
                 let mut channel = self.channel.borrow_mut();
                 match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                    Message::Set(new_fut) => {
+                        fut_slot.set(Some(new_fut));
+                        completed = false;
+                    }
                     Message::Clear => fut_slot.set(None),
                     Message::NoChange => {}
                 }
@@ -85,8 +90,8 @@ impl<F: Future> DynamicSlot<F> {
                 }
             }
             // poll the Future in the slot, if there is one
-            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+            if let (Some(fut), false) = (fut_slot.as_mut().as_pin_mut(), completed) {
+                completed = fut.poll(cx).is_ready();
             }
             Poll::Pending
         })
-- 
2.43.0


From 55cb18721cbc14b11d94f810b8190a86a27be6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 11/20] fix: Dropdown deselects properly when one of the
 options has an empty text

---
 async_ui_web/src/components/dropdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..d4aca88 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,7 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
-        self.select.set_value("");
+        self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
     ///
@@ -163,7 +163,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
             sel.set_selected(true);
         } else {
-            self.select.set_value("");
+            self.select.set_selected_index(-1);
         }
     }
     pub async fn render(&self) {
-- 
2.43.0


From be78a2772bf3d944fae58e0ed76d60209df1d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 12/20] fix: Dropdown::update_options orders options correctly
 when earlier ones have been moved

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index d4aca88..7bb07db 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // skip the options that have been moved to their new place already
+            while prev_opts_iter
+                .next_if(|prev_opt| !prev_opts_set.contains(prev_opt))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From c9b45ff255ebda4e1d605b85cc47ab09d6b2ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 13/20] fix: Dropdown::set_value(None) makes value() return
 None

---
 async_ui_web/src/components/dropdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 7bb07db..552eb1b 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
-- 
2.43.0


From 1d36b363c86fc82765349f92e26c3030718b91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 14/20] fix: VirtualizedList::set_num_items removes items
 beyond the new number and resizes the spacers

---
 async_ui_web/src/lists/virtualized_list.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..65d18df 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -128,7 +128,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     /// How many items does the list have?
     pub fn set_num_items(&self, num: usize) {
         self.state.borrow_mut().num_items = num;
-        self.update_visible();
+        self.update_visible(true);
     }
     #[doc(hidden)]
     pub fn force_update(&self, _range: impl RangeBounds<usize>) {
@@ -153,7 +153,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
                 &[spf, spb],
                 self.wake_closure.as_ref().unchecked_ref(),
             );
-            self.update_visible();
+            self.update_visible(false);
             self.root
                 .add_event_listener_with_callback(
                     "scroll",
@@ -163,12 +163,13 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             let mut uc = self.signal.until_change();
             loop {
                 uc.next().await;
-                self.update_visible();
+                self.update_visible(false);
             }
         }))
         .await;
     }
-    fn update_visible(&self) {
+    /// `force` to update even if the rendered items still cover the surroundings of the viewport
+    fn update_visible(&self, force: bool) {
         fn top_bottom(rect: &web_sys::DomRect, direction: Direction) -> (f64, f64) {
             match direction {
                 Direction::Vertical => (rect.top(), rect.bottom()),
@@ -184,7 +185,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        if !force
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
             return;
-- 
2.43.0


From 46da0e5c27f4f85e0549afa0a1490b27bc9b8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:33 +0000
Subject: [PATCH 15/20] fix: VirtualizedList never renders an inverted range
 when the list gets shorter than the scroll position

---
 async_ui_web/src/lists/virtualized_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 65d18df..e5cd548 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -198,9 +198,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         } else {
             root_size / 4.0
         };
-        let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        let new_start =
+            (((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize).min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0


From 8ed41722eee13510b22f4bb2d19c42060c4473d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 16/20] fix: css! escapes the style sheet for the JS template
 literal it is put in

A backslash, a backtick or ${ in the given style sheet (content: '\201C')
was read by the template literal, so that the browser got other text, or a
script with a syntax error.
---
 async_ui_web_macros/src/css.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 80e1935..8106e48 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -37,6 +37,11 @@ fn generate(input: String) -> TokenStream {
     let style_var_name = format_ident!("style_{postfix}");
     let dce_hack_fn_name = format_ident!("style_{postfix}_dep");
 
+    // the style sheet goes into a JS template literal
+    let output = output
+        .replace('\\', "\\\\")
+        .replace('`', "\\`")
+        .replace("${", "\\${");
     let js_content = format!(
         "
 export const {style_var_name} = `{output}`;
-- 
2.43.0


From 13375cdf1d46960950aa351591a296de7ca2b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:43 +0000
Subject: [PATCH 17/20] fix: a future in a DynamicSlot may use the slot when it
 is dropped

---
 async_ui_web/src/components/dynamic_slot.rs | 33 +++++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 3705c5b..17b7410 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -74,20 +74,22 @@ impl<F: Future> DynamicSlot<F> {
         // whether the Future has completed (and so must not be polled anymore)
         let mut completed = false;
         poll_fn(|cx| {
-            {
+            let message = {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => {
-                        fut_slot.set(Some(new_fut));
-                        completed = false;
-                    }
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                std::mem::replace(&mut channel.1, Message::NoChange)
+            };
+            // this may drop a Future that uses the channel, so the channel must not be borrowed
+            match message {
+                Message::Set(new_fut) => {
+                    fut_slot.set(Some(new_fut));
+                    completed = false;
+                }
+                Message::Clear => fut_slot.set(None),
+                Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one
             if let (Some(fut), false) = (fut_slot.as_mut().as_pin_mut(), completed) {
@@ -100,15 +102,20 @@ impl<F: Future> DynamicSlot<F> {
 
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
-        channel.0.wake_by_ref();
+        self.send(Message::Set(fut));
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
+        self.send(Message::Clear);
+    }
+
+    fn send(&self, message: Message<F>) {
         let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
+        let replaced = std::mem::replace(&mut channel.1, message);
         channel.0.wake_by_ref();
+        // dropping a Future may use the channel
+        drop(channel);
+        drop(replaced);
     }
 }
-- 
2.43.0


From 8e20ccc20109d8a11fcce1bb40e27c91d43a815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:36 +0000
Subject: [PATCH 18/20] fix: an item of a DynamicList may render things after
 it removed itself from the list

---
 async_ui_web/src/lists/dynamic_list.rs | 33 +++++++++++++++-----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 9028760..506c9ac 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -150,9 +150,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = inner.containing_node.get();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            self.remove_later([start_marker, end_marker]);
             true
         } else {
             false
@@ -177,9 +175,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = inner.containing_node.get();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            self.remove_later([start_marker, end_marker]);
             true
         } else {
             false
@@ -289,21 +285,30 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
-        let DynamicListInner {
-            items,
-            containing_node,
-        } = inner;
-        let container = containing_node.get();
-        items.retain(|key, value| {
+        inner.items.retain(|key, value| {
             let keep = func(key);
             if !keep {
-                container.remove_child(&value.start_marker).unwrap_throw();
-                container.remove_child(&value.end_marker).unwrap_throw();
+                self.remove_later([value.start_marker.clone(), value.end_marker.clone()]);
             }
             keep
         });
     }
 
+    /// Remove the markers of an item that is no longer in the list.
+    ///
+    /// The item's future may be the one that is running now. It can still render things next to
+    /// its markers, so they must stay for as long as it does.
+    fn remove_later(&self, markers: [web_sys::Node; 2]) {
+        let remove = async move {
+            for marker in markers {
+                if let Some(parent) = marker.parent_node() {
+                    let _ = parent.remove_child(&marker).unwrap_throw();
+                }
+            }
+        };
+        self.executor.spawn(remove).detach();
+    }
+
     /// Render the list here.
     ///
     /// This async method never completes.
-- 
2.43.0


From 02ea7381b88948b08154729280ffe1d061e2c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:28 +0000
Subject: [PATCH 19/20] fix: a list in an item of another list may be changed
 while that one is not rendered

---
 async_ui_web/src/lists/dynamic_list.rs | 40 ++++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 506c9ac..f718b4f 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -14,7 +14,7 @@ use web_sys::{Comment, DocumentFragment};
 
 #[derive(Clone, Debug)]
 enum ContainingNode {
-    Real(web_sys::Node),
+    Real,
     Fake(DocumentFragment),
 }
 
@@ -69,15 +69,6 @@ struct Stored<F: Future> {
     end_marker: web_sys::Node,
 }
 
-impl ContainingNode {
-    fn get(&self) -> &web_sys::Node {
-        match self {
-            ContainingNode::Real(real) => real,
-            ContainingNode::Fake(fake) => fake,
-        }
-    }
-}
-
 impl<'c, K: Eq + Hash, F: Future + 'c> Default for DynamicList<'c, K, F> {
     fn default() -> Self {
         Self::new()
@@ -121,7 +112,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Time complexity: O(1) in Rust/JS code.
     pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
         let mut inner = self.inner.borrow_mut();
-        let container = inner.containing_node.get();
+        let container = self.container();
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
@@ -220,9 +211,9 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             // already just before itself
             return;
         }
-        let container = inner.containing_node.get();
+        let container = self.container();
         move_nodes_before(
-            container,
+            &container,
             &to_move.start_marker,
             &to_move.end_marker,
             Some(after),
@@ -248,11 +239,11 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         let after_key_1 = item_1.end_marker.next_sibling();
-        let container = inner.containing_node.get();
+        let container = self.container();
         if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
             // item_2 comes right after item_1
             move_nodes_before(
-                container,
+                &container,
                 &item_2.start_marker,
                 &item_2.end_marker,
                 Some(&item_1.start_marker),
@@ -260,13 +251,13 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         move_nodes_before(
-            container,
+            &container,
             &item_1.start_marker,
             &item_1.end_marker,
             Some(&item_2.start_marker),
         );
         move_nodes_before(
-            container,
+            &container,
             &item_2.start_marker,
             &item_2.end_marker,
             after_key_1.as_ref(),
@@ -294,6 +285,14 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         });
     }
 
+    /// The node that the list's nodes are in.
+    ///
+    /// It changes without our doing when the list is part of an item of another list,
+    /// and that one is moved to or from a fragment.
+    fn container(&self) -> web_sys::Node {
+        self.list_end_marker.parent_node().unwrap_throw()
+    }
+
     /// Remove the markers of an item that is no longer in the list.
     ///
     /// The item's future may be the one that is running now. It can still render things next to
@@ -335,11 +334,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let stored_fragment;
         {
             let mut inner = self.inner.borrow_mut();
-            match std::mem::replace(
-                &mut inner.containing_node,
-                ContainingNode::Real(real_containing_node.clone()),
-            ) {
-                ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
+            match std::mem::replace(&mut inner.containing_node, ContainingNode::Real) {
+                ContainingNode::Real => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
                     real_containing_node
                         .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
-- 
2.43.0


From 848b134fd55726bb48d69ccb3748ff82d1c7d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:37 +0000
Subject: [PATCH 20/20] fix: css! recognizes at-rules whatever the case of
 their names

---
 async_ui_web_macros/src/css.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 8106e48..ad4e9ec 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -171,10 +171,9 @@ mod find_classes {
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
             drain_input(input)?;
-            match &*name {
-                "media" | "supports" | "container" | "layer" => Ok(true),
-                _ => Ok(false),
-            }
+            Ok(["media", "supports", "container", "layer"]
+                .iter()
+                .any(|nested| name.eq_ignore_ascii_case(nested)))
         }
 
         fn rule_without_block(
-- 
2.43.0


From 76d7c7e610a3d2a9737bf81fa5c3d6e40329c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 01/28] fix: Subject must not keep observers that ended before
 registration, nor hold a lock while running its hooks

---
 src/subjects/subject.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..b260143 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -73,22 +73,33 @@ where
             observers.remove(&serial);
             observers.len()
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+          let on_unsubscribe = on_unsubscribe.read().unwrap().clone();
+          if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
         });
       }
       let len = {
         let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
+        observers.insert(serial, s.clone());
         observers.len()
       };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+      if !s.is_subscribed() {
+        // unsubscribed before it was registered
+        observers.write().unwrap().remove(&serial);
+        return;
+      }
+      let on_subscribe = on_subscribe.read().unwrap().clone();
+      if let Some(on_subscribe) = on_subscribe {
         on_subscribe.call(len);
       }
     })
   }
 
+  pub(crate) fn has_observers(&self) -> bool {
+    self.observers.read().unwrap().len() > 0
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 92b951ed0b25782f104a7f1116a34398684ab9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 02/28] fix: ref_count/replay connect without holding a lock,
 can be disconnected while connecting and reconnect

---
 src/operators/ref_count.rs     | 35 ++++++++++++++++++++++++++--------
 src/operators/replay.rs        | 35 ++++++++++++++++++++++++++--------
 src/subjects/replay_subject.rs |  4 ++++
 3 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..31225c2 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -32,10 +32,18 @@ where
 
   fn set_ref_count(&self) {
     {
+      let subject = self.subject.clone();
       let subscription = Arc::clone(&self.subscription);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
+          let sbsc = {
+            let mut subscription = subscription.write().unwrap();
+            if subject.has_observers() {
+              return;
+            }
+            subscription.take()
+          };
+          if let Some(sbsc) = sbsc {
             sbsc.unsubscribe();
           }
         }
@@ -53,12 +61,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -68,7 +71,23 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+
+        // the connection is registered before the source runs, so that it can
+        // be unsubscribed while the source is still emitting
+        {
+          let mut subscription = subscription.write().unwrap();
+          if subscription.is_some() {
+            return;
+          }
+          let unsub_observer = observer.clone();
+          let issub_observer = observer.clone();
+          *subscription = Some(Subscription::new(
+            move || unsub_observer.unsubscribe(),
+            move || issub_observer.is_subscribed(),
+          ));
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..23d9ff7 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -31,10 +31,18 @@ where
 
   fn set_ref_count(&self) {
     {
+      let subject = self.subject.clone();
       let subscription = Arc::clone(&self.subscription);
       self.subject.set_on_unsubscribe(move |count| {
         if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
+          let sbsc = {
+            let mut subscription = subscription.write().unwrap();
+            if subject.has_observers() {
+              return;
+            }
+            subscription.take()
+          };
+          if let Some(sbsc) = sbsc {
             sbsc.unsubscribe();
           }
         }
@@ -52,12 +60,7 @@ where
         let sbj_error = subject.clone();
         let sbj_complete = subject.clone();
 
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
+        let observer = Observer::new(
           move |x| {
             sbj_next.next(x);
           },
@@ -67,7 +70,23 @@ where
           move || {
             sbj_complete.complete();
           },
-        ));
+        );
+
+        // the connection is registered before the source runs, so that it can
+        // be unsubscribed while the source is still emitting
+        {
+          let mut subscription = subscription.write().unwrap();
+          if subscription.is_some() {
+            return;
+          }
+          let unsub_observer = observer.clone();
+          let issub_observer = observer.clone();
+          *subscription = Some(Subscription::new(
+            move || unsub_observer.unsubscribe(),
+            move || issub_observer.is_subscribed(),
+          ));
+        }
+        source.inner_subscribe(observer);
       }
     });
   }
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..000ea07 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -93,6 +93,10 @@ where
     })
   }
 
+  pub(crate) fn has_observers(&self) -> bool {
+    self.subject.has_observers()
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 842c0f212c2840a4ff632443714d85f1bf5418d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 03/28] fix: Observer delivers at most one terminal, nothing
 after it, and tears its upstream down when it ends

---
 src/internals/function_wrapper.rs |  4 ++-
 src/observer.rs                   | 51 ++++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..f6455f7 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -36,7 +36,9 @@ where
     }
   }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    // the function is dropped after the lock has been released
+    let f = self.inner.write().unwrap().take();
+    drop(f);
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..6a60f50 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -1,6 +1,9 @@
 use crate::internals::function_wrapper::*;
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::sync::{
+  atomic::{AtomicBool, Ordering},
+  Arc, RwLock,
+};
 
 #[derive(Clone)]
 pub struct Observer<'a, T>
@@ -11,6 +14,7 @@ where
   fn_error: FunctionWrapper<'a, RxError, ()>,
   fn_complete: FunctionWrapper<'a, (), ()>,
   fn_on_unsubscribe: Arc<RwLock<Option<FunctionWrapper<'a, (), ()>>>>,
+  closed: Arc<AtomicBool>,
 }
 
 impl<'a, T> Observer<'a, T>
@@ -32,28 +36,50 @@ where
       fn_error: FunctionWrapper::new(error),
       fn_complete: FunctionWrapper::new(move |_| complete()),
       fn_on_unsubscribe: Arc::new(RwLock::new(None)),
+      closed: Arc::new(AtomicBool::new(false)),
     }
   }
   pub fn next(&self, x: T) {
-    self.fn_next.call_if_available(x);
+    if self.is_subscribed() {
+      self.fn_next.call_if_available(x);
+    }
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_complete.clear();
+      self.teardown();
+      self.fn_error.call_and_clear_if_available(x);
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_error.clear();
+      self.teardown();
+      self.fn_complete.call_and_clear_if_available(());
+    }
   }
   pub fn unsubscribe(&self) {
-    self.fn_next.clear();
-    self.fn_error.clear();
-    self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
-      f.call(());
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_error.clear();
+      self.fn_complete.clear();
+      self.teardown();
     }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
   }
   pub fn is_subscribed(&self) -> bool {
-    self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
+    !self.closed.load(Ordering::SeqCst)
+  }
+  // true for the one caller that ends the subscription
+  fn close(&self) -> bool {
+    !self.closed.swap(true, Ordering::SeqCst)
+  }
+  fn teardown(&self) {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
+      f.call(());
+    }
   }
   pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
   where
@@ -61,6 +87,9 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      self.teardown();
+    }
   }
 }
 
-- 
2.43.0


From 4d16dfc56c496c9a907e918b21a93a34ec58b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 04/28] fix: StreamController releases its locks before calling
 out and lets go of completed upstreams

---
 src/internals/stream_controller.rs | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..e292128 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,13 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
     observer
   }
 
@@ -100,11 +105,14 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        let o = observers.remove(serial);
+        (o, observers.len() == 0)
       };
+      if let Some(o) = o {
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -122,25 +130,21 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    self.subscriber.unsubscribe();
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
-    if self.subscriber.is_subscribed() {
-      self.subscriber.unsubscribe();
-    }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From 63bd1b9ce019b61b22cc379a0e3314aa7b6eb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 05/28] fix: skip_while skips while its predicate holds (it was
 inverted)

---
 src/operators/skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..1379892 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,7 +38,7 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
+            if !f.call(x.clone()) {
               sctl_next.sink_next(x);
               *enable.write().unwrap() = true;
             }
-- 
2.43.0


From 567f8754734936aa80a74248996ab2ec0189a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 06/28] fix: element_at emits only the requested item, not the
 last one of a shorter source

---
 src/operators/element_at.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..303a0d7 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -6,6 +6,7 @@ pub struct ElementAt<Item>
 where
   Item: Clone + Send + Sync,
 {
+  count: usize,
   take_op: operators::Take<Item>,
 }
 
@@ -15,10 +16,12 @@ where
 {
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
+      count,
       take_op: operators::Take::<Item>::new(count),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
+    let count = self.count;
     let take_op = self.take_op.clone();
 
     Observable::<Item>::create(move |s| {
@@ -31,7 +34,7 @@ where
 
       take_op
         .execute(source)
-        .last()
+        .skip(count.max(1) - 1)
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From b3798b970ce800a4a1d3b74ab6ba4e11b856b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 07/28] fix: aggregating operators release their state lock
 before emitting downstream

---
 src/operators/buffer_with_count.rs |  4 ++--
 src/operators/group_by.rs          | 16 ++++++++++------
 src/operators/max.rs               |  5 +++--
 src/operators/min.rs               |  5 +++--
 src/operators/reduce.rs            |  5 +++--
 src/operators/scan.rs              |  9 +++++----
 src/operators/sum.rs               |  5 +++--
 src/operators/sum_and_count.rs     |  6 ++++--
 src/operators/take_last.rs         |  5 +++--
 9 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/operators/buffer_with_count.rs b/src/operators/buffer_with_count.rs
index a303dba..5401196 100644
--- a/src/operators/buffer_with_count.rs
+++ b/src/operators/buffer_with_count.rs
@@ -61,9 +61,9 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| {
-            let vec = results.read().unwrap();
+            let vec = results.read().unwrap().clone();
             if vec.len() > 0 {
-              sctl_complete.sink_next(vec.clone());
+              sctl_complete.sink_next(vec);
             }
             sctl_complete.sink_complete(&serial);
           },
diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..c3597f2 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,31 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, is_new) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if is_new {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_error.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_complete.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
diff --git a/src/operators/max.rs b/src/operators/max.rs
index 37efdff..37a8281 100644
--- a/src/operators/max.rs
+++ b/src/operators/max.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/min.rs b/src/operators/min.rs
index 6b3c544..1a06fc3 100644
--- a/src/operators/min.rs
+++ b/src/operators/min.rs
@@ -42,8 +42,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/reduce.rs b/src/operators/reduce.rs
index 9638516..e8eafbe 100644
--- a/src/operators/reduce.rs
+++ b/src/operators/reduce.rs
@@ -46,8 +46,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(x) = &*result.read().unwrap() {
-            sctl_complete.sink_next(x.clone());
+          let x = result.read().unwrap().clone();
+          if let Some(x) = x {
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..06a6084 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,16 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
             if let Some(xx) = &*r {
               *r = Some(f.call((xx.clone(), x)));
             } else {
               *r = Some(x);
             }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
+            r.clone()
+          };
+          if let Some(x) = x {
+            sctl_next.sink_next(x);
           }
         },
         move |_, e| {
diff --git a/src/operators/sum.rs b/src/operators/sum.rs
index f5e9c82..a238041 100644
--- a/src/operators/sum.rs
+++ b/src/operators/sum.rs
@@ -41,8 +41,9 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next(latest.clone());
+          let latest = sum.read().unwrap().clone();
+          if let Some(latest) = latest {
+            sctl_complete.sink_next(latest);
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/sum_and_count.rs b/src/operators/sum_and_count.rs
index 358042f..6f2b22b 100644
--- a/src/operators/sum_and_count.rs
+++ b/src/operators/sum_and_count.rs
@@ -47,8 +47,10 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(latest) = &*sum.read().unwrap() {
-            sctl_complete.sink_next((latest.clone(), *n.read().unwrap()));
+          let latest = sum.read().unwrap().clone();
+          if let Some(latest) = latest {
+            let n = *n.read().unwrap();
+            sctl_complete.sink_next((latest, n));
           }
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/take_last.rs b/src/operators/take_last.rs
index 05cdb0d..127b42e 100644
--- a/src/operators/take_last.rs
+++ b/src/operators/take_last.rs
@@ -45,11 +45,12 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          for x in items_complete.read().unwrap().iter() {
+          let items = items_complete.read().unwrap().clone();
+          for x in items {
             if !sctl_complete.is_subscribed() {
               break;
             }
-            sctl_complete.sink_next(x.clone());
+            sctl_complete.sink_next(x);
           }
           sctl_complete.sink_complete(&serial)
         },
-- 
2.43.0


From a43c1e27053aea99336172b1044952113a106605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 08/28] fix: window_with_count closes windows of one item and
 emits without holding its locks

---
 src/operators/window_with_count.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..aa8df90 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,35 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          let (sbj, is_first, is_last) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let current = sbj.clone();
+            let is_first = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
+            let is_last = *n == count;
+            if is_last {
+              *sbj = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (current, is_first, is_last)
+          };
+          if is_first {
+            sctl_next.sink_next(sbj.observable());
+          }
+          sbj.next(x);
+          if is_last {
+            sbj.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let sbj = sbj_error.read().unwrap().clone();
+          sbj.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let sbj = sbj_complete.read().unwrap().clone();
+          sbj.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 2508da51015ef29036dd7f8bfe2b03a17ec23298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 09/28] fix: amb completes when its winner completes, whatever
 the losers do

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From e45896bd78b37607fe30c6d83c5d086b71ea94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 10/28] fix: concat keeps its queue per subscription

---
 src/operators/concat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..4cf14ab 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        observables.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
-- 
2.43.0


From 63d40240d122d3e7c66a4461833fb1dc6d2dcc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 11/28] fix: default_if_empty keeps its flag per subscription

---
 src/operators/default_if_empty.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..6ca0162 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,8 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
-
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From 33e80e646c439a07805e7e89801c1e21052248e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 12/28] fix: tap acts for every subscription

---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..b19211c 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 9ea1392477f4be695ae6436204926e702f64efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 13/28] fix: timeout cancels its timer when the subscription
 ends

---
 src/operators/timeout.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..521df88 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,34 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      {
+        let timer = Arc::clone(&timer);
+        sctl.set_on_finalize(move || {
+          let timer = timer.write().unwrap().take();
+          if let Some(timer) = timer {
+            timer.unsubscribe();
+          }
+        });
+      }
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
           {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
+            let timer = timer.write().unwrap().take();
+            if let Some(timer) = timer {
               timer.unsubscribe();
             }
-            *timer = None;
           }
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let previous = timer.write().unwrap().replace(
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -74,6 +83,16 @@ where
                   junk_complete!(),
                 ),
             );
+            if let Some(previous) = previous {
+              previous.unsubscribe();
+            }
+            if !sctl_next.is_subscribed() {
+              // ended while the timer was being armed
+              let timer = timer.write().unwrap().take();
+              if let Some(timer) = timer {
+                timer.unsubscribe();
+              }
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From 47f255214204ff7f82f62646558adf953e69967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 14/28] fix: combine_latest combines the latest items (it was
 zip)

---
 src/operators/combine_latest.rs | 58 +++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..d7e7865 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,7 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +9,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +26,52 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
+      let latest = Arc::new(RwLock::new(vec![
+        None::<Item>;
+        observables.len() + 1
+      ]));
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      // prepare subscribers
+      let sbs = Vec::from_iter((0..(observables.len() + 1)).map(|id| {
+        let latest = Arc::clone(&latest);
+        let combine_f = combine_f.clone();
+        let sctl_next = sctl.clone();
+        let sctl_error = sctl.clone();
+        let sctl_complete = sctl.clone();
+        sctl.new_observer(
+          move |_, x| {
+            let items = {
+              let mut latest = latest.write().unwrap();
+              latest[id] = Some(x);
+              latest.iter().cloned().collect::<Option<Vec<Item>>>()
+            };
+            if let Some(items) = items {
+              sctl_next.sink_next(combine_f.call(items));
+            }
+          },
+          move |_, e| {
+            sctl_error.sink_error(e);
+          },
+          move |serial| {
+            sctl_complete.sink_complete(&serial);
+          },
+        )
+      }));
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      let sources = std::iter::once(&source).chain(observables.iter());
+      sources.zip(sbs).for_each(|(o, observer)| {
+        o.inner_subscribe(observer);
+      });
     })
   }
 }
-- 
2.43.0


From f9cc2765680b4aebcdbbf3304381bf0a18ed5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 15/28] fix: sequence_equal compares lengths too

---
 src/operators/sequence_equal.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..da7daeb 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -6,7 +6,7 @@ pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,10 +14,18 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    SequenceEqual { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
-    let zip_op = self.zip_op.clone();
+    // every sequence is followed by its end mark, so that sequences of different
+    // lengths differ at the end of the shorter one
+    let mark_end = |o: &Observable<'a, Item>| {
+      o.map(|x| Some(x)).concat(&[observables::just(None)])
+    };
+    let source = mark_end(&source);
+    let zip_op = operators::Zip::new(&Vec::from_iter(
+      self.observables.iter().map(mark_end),
+    ));
 
     Observable::create(move |s| {
       let source = source.clone();
@@ -29,19 +37,22 @@ where
       let sctl_complete = sctl.clone();
 
       zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
+        move |serial, x: Vec<Option<Item>>| {
           let check = x.get(0).unwrap();
           if !x.iter().all(|i| i == check) {
             sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_next(false);
             sctl_next.sink_complete(&serial);
+          } else if check.is_none() {
+            sctl_next.upstream_abort_observe(&serial);
+            sctl_next.sink_next(true);
+            sctl_next.sink_complete(&serial);
           }
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sctl_complete.sink_next(true);
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 1a4f7974f98ae34d567e4b1d7a3e9c5896d3e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 16/28] fix: ReplaySubject delivers history and live items once
 and in order, without holding a lock

---
 src/subjects/replay_subject.rs | 132 +++++++++++++++++++++------------
 1 file changed, 85 insertions(+), 47 deletions(-)

diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 000ea07..903681a 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -26,15 +26,33 @@ where
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
+    {
+      let mut items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      items.push(item.clone());
+    }
     self.subject.next(item);
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      *self.was_error.write().unwrap() = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return;
+      }
+      *self.was_completed.write().unwrap() = true;
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -44,55 +62,75 @@ where
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
+      // Every event, past or live, is taken from the history, by one thread at
+      // a time and with no lock held while the subscriber is called. Live
+      // events only tell that the history has grown.
+      let position = Arc::new(RwLock::new(Some(0usize)));
+      let deliver = {
+        let items = Arc::clone(&items);
+        let was_error = Arc::clone(&was_error);
+        let was_completed = Arc::clone(&was_completed);
+        let s = s.clone();
+        move || {
+          // `None` while another call is delivering
+          let mut at = match position.write().unwrap().take() {
+            Some(at) => at,
+            None => return,
+          };
+          while s.is_subscribed() {
+            let item = {
+              let mut position = position.write().unwrap();
+              let items = items.read().unwrap();
+              let item = items.get(at).cloned();
+              if item.is_none()
+                && was_error.read().unwrap().is_none()
+                && !*was_completed.read().unwrap()
+              {
+                *position = Some(at);
+                return;
+              }
+              item
+            };
+            at += 1;
+            if let Some(item) = item {
+              s.next(item);
+              continue;
             }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
+            let err = was_error.read().unwrap().clone();
+            match err {
+              Some(err) => s.error(err),
+              None => s.complete(),
+            }
+          }
+        }
+      };
+
+      let deliver_next = deliver.clone();
+      let deliver_error = deliver.clone();
+      let deliver_complete = deliver.clone();
+      let observer = Observer::new(
+        move |_| deliver_next(),
+        move |_| deliver_error(),
+        move || deliver_complete(),
       );
+      let o_unsub = observer.clone();
+      s.set_on_unsubscribe(move || o_unsub.unsubscribe());
+
+      subject.observable().inner_subscribe(observer);
+      deliver();
     })
   }
 
+  pub(crate) fn forget_items(&self) {
+    let items = std::mem::take(&mut *self.items.write().unwrap());
+    drop(items);
+  }
+
+  pub(crate) fn is_terminated(&self) -> bool {
+    *self.was_completed.read().unwrap()
+      || self.was_error.read().unwrap().is_some()
+  }
+
   pub(crate) fn has_observers(&self) -> bool {
     self.subject.has_observers()
   }
-- 
2.43.0


From 0e232dae3800cd40ca343a4e03e2ab92da629b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 17/28] fix: replay starts a new history with a new connection
 and does not reconnect a finished source

---
 src/operators/replay.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 23d9ff7..372f1e7 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -55,6 +55,10 @@ where
 
     self.subject.set_on_subscribe(move |count| {
       if count == 1 {
+        if subject.is_terminated() {
+          return; // the history is complete
+        }
+
         // connect
         let sbj_next = subject.clone();
         let sbj_error = subject.clone();
@@ -86,6 +90,8 @@ where
             move || issub_observer.is_subscribed(),
           ));
         }
+        // a new connection starts a new history
+        subject.forget_items();
         source.inner_subscribe(observer);
       }
     });
-- 
2.43.0


From 2e44451508efbc0da7703ffafb82bc2d08e9c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 18/28] fix: BehaviorSubject hands over and continues without
 gap, duplicate or held lock

---
 src/subjects/behavior_subject.rs | 145 ++++++++++++++++++++++---------
 1 file changed, 105 insertions(+), 40 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..c7b35a5 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,13 +1,18 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
+  // items are numbered, so that a new subscriber can tell those pushed after
+  // the item it was handed from those pushed before
+  subject: Arc<subject::Subject<'a, (u64, Item)>>,
+  last_item: Arc<RwLock<Option<(u64, Item)>>>,
   last_error: Arc<RwLock<Option<RxError>>>,
 }
 
@@ -18,21 +23,42 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
+      last_item: Arc::new(RwLock::new(Some((0, initial)))),
       last_error: Arc::new(RwLock::new(None)),
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    let numbered = {
+      let mut last_item = self.last_item.write().unwrap();
+      let n = match &*last_item {
+        Some((n, _)) if self.last_error.read().unwrap().is_none() => n + 1,
+        _ => return,
+      };
+      *last_item = Some((n, item.clone()));
+      (n, item)
+    };
+    self.subject.next(numbered);
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
+    {
+      let last_item = self.last_item.write().unwrap();
+      let mut last_error = self.last_error.write().unwrap();
+      if last_item.is_none() || last_error.is_some() {
+        return;
+      }
+      *last_error = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
+    {
+      let mut last_item = self.last_item.write().unwrap();
+      if self.last_error.read().unwrap().is_some() {
+        return;
+      }
+      *last_item = None;
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -41,42 +67,81 @@ where
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
-
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
+      // Live events that arrive while another one is being delivered, or while
+      // the last item is being handed over, wait in the queue.
+      let queue = Arc::new(RwLock::new(VecDeque::new()));
+      let is_delivering = Arc::new(RwLock::new(true));
+      let handed_over = Arc::new(RwLock::new(0u64));
+      let deliver = {
+        let queue = Arc::clone(&queue);
+        let is_delivering = Arc::clone(&is_delivering);
+        let handed_over = Arc::clone(&handed_over);
+        let s = s.clone();
+        move || loop {
+          let event = {
+            let mut queue = queue.write().unwrap();
+            let event = queue.pop_front();
+            if event.is_none() {
+              *is_delivering.write().unwrap() = false;
+              return;
+            }
+            event
+          };
+          match event {
+            Some(Material::Next((n, x))) => {
+              if n > *handed_over.read().unwrap() {
+                s.next(x);
+              }
+            }
+            Some(Material::Error(e)) => s.error(e),
+            Some(Material::Complete) => s.complete(),
+            None => {}
+          }
         }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
+      };
+      let post = {
+        let deliver = deliver.clone();
+        move |event: Material<(u64, Item)>| {
+          {
+            let mut queue = queue.write().unwrap();
+            queue.push_back(event);
+            let mut is_delivering = is_delivering.write().unwrap();
+            if *is_delivering {
+              return;
+            }
+            *is_delivering = true;
+          }
+          deliver();
         }
-      }
+      };
 
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
+      let post_next = post.clone();
+      let post_error = post.clone();
+      let post_complete = post.clone();
+      let observer = Observer::new(
+        move |x| post_next(Material::Next(x)),
+        move |e| post_error(Material::Error(e)),
+        move || post_complete(Material::Complete),
+      );
+      let o_unsub = observer.clone();
+      s.set_on_unsubscribe(move || o_unsub.unsubscribe());
+
+      subject.observable().inner_subscribe(observer);
 
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
+      let (item, err) = {
+        let last_item = last_item.read().unwrap();
+        let last_error = last_error.read().unwrap();
+        (last_item.clone(), last_error.clone())
+      };
+      if let Some(err) = err {
+        s.error(err);
+      } else if let Some((n, x)) = item {
+        *handed_over.write().unwrap() = n;
+        s.next(x);
+      } else {
+        s.complete();
+      }
+      deliver();
     })
   }
 }
-- 
2.43.0


From 725f3005ae9dc04d16aa366e305565ec7c7228e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 19/28] fix: AsyncSubject hands its last item to late
 subscribers

---
 src/subjects/async_subject.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..89fcabf 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -6,7 +6,7 @@ pub struct AsyncSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  subject: Arc<subjects::ReplaySubject<'a, Item>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -15,7 +15,7 @@ where
 {
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
-      subject: Arc::new(subjects::Subject::new()),
+      subject: Arc::new(subjects::ReplaySubject::new()),
     }
   }
 
-- 
2.43.0


From 859ed2807ec9fc5983d995ca48b843c4f58ff115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 20/28] fix: time_interval does not hold its lock while it
 emits

---
 src/operators/time_interval.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..9b510e3 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,7 +37,8 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let start_time = *start_time_next.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
           *start_time_next.write().unwrap() = Some(Instant::now());
@@ -46,7 +47,8 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let start_time = *start_time_complete.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 4bbc690cb6710e96c973105a64a10ffd204ebead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 21/28] fix: a completion does not overtake the items delay is
 holding

---
 src/operators/delay.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/operators/delay.rs b/src/operators/delay.rs
index 19fd71c..52a9c1b 100644
--- a/src/operators/delay.rs
+++ b/src/operators/delay.rs
@@ -1,5 +1,6 @@
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::sync::{Arc, RwLock};
 use std::{marker::PhantomData, thread, time::Duration};
 
 #[derive(Clone)]
@@ -23,19 +24,45 @@ where
 
     Observable::<Item>::create(move |s| {
       let sctl = StreamController::new(s);
+      // items being delayed, and a completion that waits for them
+      let delaying = Arc::new(RwLock::new((0usize, None)));
+      let delaying_next = Arc::clone(&delaying);
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
+          delaying_next.write().unwrap().0 += 1;
           thread::sleep(dur);
+          let completed = {
+            let mut delaying = delaying_next.write().unwrap();
+            delaying.0 -= 1;
+            if delaying.0 == 0 {
+              delaying.1.take()
+            } else {
+              None
+            }
+          };
           sctl_next.sink_next(x);
+          if let Some(serial) = completed {
+            sctl_next.sink_complete(&serial);
+          }
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
-        move |serial| sctl_complete.sink_complete(&serial),
+        move |serial| {
+          {
+            let mut delaying = delaying.write().unwrap();
+            if delaying.0 > 0 {
+              delaying.1 = Some(serial);
+              return;
+            }
+          }
+          sctl_complete.sink_complete(&serial)
+        },
       ));
     })
   }
-- 
2.43.0


From 6a9fda1c49504fd866a36dfeb66adc913b735461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 22/28] fix: a Subject's terminal does not drop an observer
 that subscribes meanwhile

---
 src/subjects/subject.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index b260143..153a8a2 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -34,6 +34,12 @@ where
     Vec::from_iter(x)
   }
 
+  // nobody who subscribes meanwhile is dropped unnotified
+  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+    let observers = std::mem::take(&mut *self.observers.write().unwrap());
+    Vec::from_iter(observers.into_values())
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,13 +47,11 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(|x| x.complete());
   }
 
-- 
2.43.0


From 09338b7e0c1f1d0a7d1cd956d537deedce04b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 23/28] fix: ref_count/replay keep one source subscription,
 reconnect and keep histories apart when subscribers race

---
 src/operators/ref_count.rs     | 131 +++++++++++++++++------------
 src/operators/replay.rs        | 149 ++++++++++++++++++++-------------
 src/subjects/replay_subject.rs |  39 +++++++--
 src/subjects/subject.rs        |  21 +++--
 4 files changed, 211 insertions(+), 129 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 31225c2..325442b 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,13 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Connection<'a>>>,
+}
+
+struct Connection<'a> {
+  open: Option<Subscription<'a>>,
+  // calls that are subscribing or unsubscribing the source
+  busy: usize,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,7 +26,7 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(Connection { open: None, busy: 0 })),
     };
     _self.set_ref_count();
     _self
@@ -32,64 +38,79 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subject = self.subject.clone();
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          let sbsc = {
-            let mut subscription = subscription.write().unwrap();
-            if subject.has_observers() {
-              return;
-            }
-            subscription.take()
-          };
-          if let Some(sbsc) = sbsc {
-            sbsc.unsubscribe();
-          }
-        }
+      let _self = self.clone();
+      self.subject.set_on_unsubscribe(move |_| {
+        _self.disconnect();
       });
     }
 
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let observer = Observer::new(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        );
-
-        // the connection is registered before the source runs, so that it can
-        // be unsubscribed while the source is still emitting
-        {
-          let mut subscription = subscription.write().unwrap();
-          if subscription.is_some() {
-            return;
-          }
-          let unsub_observer = observer.clone();
-          let issub_observer = observer.clone();
-          *subscription = Some(Subscription::new(
-            move || unsub_observer.unsubscribe(),
-            move || issub_observer.is_subscribed(),
-          ));
+    let _self = self.clone();
+    self.subject.set_on_subscribe(move |_| {
+      _self.connect();
+    });
+  }
+
+  fn connect(&self) {
+    let sbj_next = self.subject.clone();
+    let sbj_error = self.subject.clone();
+    let sbj_complete = self.subject.clone();
+
+    let observer = Observer::new(
+      move |x| {
+        sbj_next.next(x);
+      },
+      move |e| {
+        sbj_error.error(e);
+      },
+      move || {
+        sbj_complete.complete();
+      },
+    );
+
+    // the connection is registered before the source runs, so that it can
+    // be unsubscribed while the source is still emitting
+    {
+      let mut connection = self.connection.write().unwrap();
+      if connection.open.is_some()
+        || connection.busy > 0
+        || !self.subject.has_observers()
+      {
+        return;
+      }
+      let unsub_observer = observer.clone();
+      let issub_observer = observer.clone();
+      connection.open = Some(Subscription::new(
+        move || unsub_observer.unsubscribe(),
+        move || issub_observer.is_subscribed(),
+      ));
+      connection.busy += 1;
+    }
+    self.source.inner_subscribe(observer);
+    self.done();
+  }
+
+  fn disconnect(&self) {
+    let sbsc = {
+      let mut connection = self.connection.write().unwrap();
+      if self.subject.has_observers() {
+        return;
+      }
+      match connection.open.take() {
+        Some(sbsc) => {
+          connection.busy += 1;
+          sbsc
         }
-        source.inner_subscribe(observer);
+        None => return,
       }
-    });
+    };
+    sbsc.unsubscribe();
+    self.done();
+  }
+
+  fn done(&self) {
+    self.connection.write().unwrap().busy -= 1;
+    // on behalf of those who subscribed meanwhile
+    self.connect();
   }
 }
 
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 372f1e7..33e36c5 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -1,5 +1,5 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::sync::{atomic::AtomicBool, Arc, RwLock};
 
 #[derive(Clone)]
 pub struct Replay<'a, Item>
@@ -8,7 +8,13 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Connection<'a>>>,
+}
+
+struct Connection<'a> {
+  open: Option<(Subscription<'a>, Arc<AtomicBool>)>,
+  // calls that are subscribing or unsubscribing the source
+  busy: usize,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,7 +25,7 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(Connection { open: None, busy: 0 })),
     };
     _self.set_ref_count();
     _self
@@ -31,70 +37,93 @@ where
 
   fn set_ref_count(&self) {
     {
-      let subject = self.subject.clone();
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          let sbsc = {
-            let mut subscription = subscription.write().unwrap();
-            if subject.has_observers() {
-              return;
-            }
-            subscription.take()
-          };
-          if let Some(sbsc) = sbsc {
-            sbsc.unsubscribe();
-          }
-        }
+      let _self = self.clone();
+      self.subject.set_on_unsubscribe(move |_| {
+        _self.disconnect();
       });
     }
 
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
+    let _self = self.clone();
+    self.subject.set_on_subscribe(move |_| {
+      _self.connect();
+    });
+  }
 
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        if subject.is_terminated() {
-          return; // the history is complete
-        }
+  fn connect(&self) {
+    let sbj_next = self.subject.clone();
+    let sbj_error = self.subject.clone();
+    let sbj_complete = self.subject.clone();
+
+    // the history belongs to one connection: what is still on its way when
+    // the last subscriber has left must not get into the next one
+    let over = Arc::new(AtomicBool::new(false));
+    let over_next = Arc::clone(&over);
+    let over_error = Arc::clone(&over);
+    let over_complete = Arc::clone(&over);
+
+    let observer = Observer::new(
+      move |x| {
+        sbj_next.next_unless(&over_next, x);
+      },
+      move |e| {
+        sbj_error.error_unless(&over_error, e);
+      },
+      move || {
+        sbj_complete.complete_unless(&over_complete);
+      },
+    );
 
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let observer = Observer::new(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        );
-
-        // the connection is registered before the source runs, so that it can
-        // be unsubscribed while the source is still emitting
-        {
-          let mut subscription = subscription.write().unwrap();
-          if subscription.is_some() {
-            return;
-          }
-          let unsub_observer = observer.clone();
-          let issub_observer = observer.clone();
-          *subscription = Some(Subscription::new(
-            move || unsub_observer.unsubscribe(),
-            move || issub_observer.is_subscribed(),
-          ));
-        }
+    // the connection is registered before the source runs, so that it can
+    // be unsubscribed while the source is still emitting
+    {
+      let mut connection = self.connection.write().unwrap();
+      if connection.open.is_some()
+        || connection.busy > 0
+        || !self.subject.has_observers()
+        || self.subject.is_terminated()
+      {
+        return;
+      }
+      let unsub_observer = observer.clone();
+      let issub_observer = observer.clone();
+      let sbsc = Subscription::new(
+        move || unsub_observer.unsubscribe(),
+        move || issub_observer.is_subscribed(),
+      );
+      connection.open = Some((sbsc, over));
+      connection.busy += 1;
+    }
+    self.source.inner_subscribe(observer);
+    self.done();
+  }
+
+  fn disconnect(&self) {
+    let (sbsc, items) = {
+      let mut connection = self.connection.write().unwrap();
+      let items = match &connection.open {
         // a new connection starts a new history
-        subject.forget_items();
-        source.inner_subscribe(observer);
+        Some((_, over)) => self.subject.forget_items(over),
+        None => None,
+      };
+      match items {
+        Some(items) => {
+          connection.busy += 1;
+          (connection.open.take(), items)
+        }
+        None => return,
       }
-    });
+    };
+    drop(items);
+    if let Some((sbsc, _)) = sbsc {
+      sbsc.unsubscribe();
+    }
+    self.done();
+  }
+
+  fn done(&self) {
+    self.connection.write().unwrap().busy -= 1;
+    // on behalf of those who subscribed meanwhile
+    self.connect();
   }
 }
 
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 903681a..e8f4c7d 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -1,5 +1,8 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::sync::{
+  atomic::{AtomicBool, Ordering},
+  Arc, RwLock,
+};
 
 #[derive(Clone)]
 pub struct ReplaySubject<'a, Item>
@@ -26,29 +29,39 @@ where
   }
 
   pub fn next(&self, item: Item) {
+    self.next_unless(&AtomicBool::new(false), item);
+  }
+  pub fn error(&self, err: RxError) {
+    self.error_unless(&AtomicBool::new(false), err);
+  }
+  pub fn complete(&self) {
+    self.complete_unless(&AtomicBool::new(false));
+  }
+  // the same, ignored once `over` has been set
+  pub(crate) fn next_unless(&self, over: &AtomicBool, item: Item) {
     {
       let mut items = self.items.write().unwrap();
-      if self.is_terminated() {
+      if over.load(Ordering::SeqCst) || self.is_terminated() {
         return;
       }
       items.push(item.clone());
     }
     self.subject.next(item);
   }
-  pub fn error(&self, err: RxError) {
+  pub(crate) fn error_unless(&self, over: &AtomicBool, err: RxError) {
     {
       let _items = self.items.write().unwrap();
-      if self.is_terminated() {
+      if over.load(Ordering::SeqCst) || self.is_terminated() {
         return;
       }
       *self.was_error.write().unwrap() = Some(err.clone());
     }
     self.subject.error(err);
   }
-  pub fn complete(&self) {
+  pub(crate) fn complete_unless(&self, over: &AtomicBool) {
     {
       let _items = self.items.write().unwrap();
-      if self.is_terminated() {
+      if over.load(Ordering::SeqCst) || self.is_terminated() {
         return;
       }
       *self.was_completed.write().unwrap() = true;
@@ -121,9 +134,17 @@ where
     })
   }
 
-  pub(crate) fn forget_items(&self) {
-    let items = std::mem::take(&mut *self.items.write().unwrap());
-    drop(items);
+  // If nobody is subscribed: sets `over` and empties the history, unless it
+  // is complete.
+  pub(crate) fn forget_items(&self, over: &AtomicBool) -> Option<Vec<Item>> {
+    self.subject.if_unobserved(|| {
+      let mut items = self.items.write().unwrap();
+      if self.is_terminated() {
+        return Vec::new();
+      }
+      over.store(true, Ordering::SeqCst);
+      std::mem::take(&mut *items)
+    })
   }
 
   pub(crate) fn is_terminated(&self) -> bool {
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 153a8a2..f7cd0b2 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -68,10 +68,10 @@ where
         *serial += 1;
         *serial
       };
-      {
+      let leave = {
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
-        s.set_on_unsubscribe(move || {
+        move || {
           let len = {
             let mut observers = observers.write().unwrap();
             observers.remove(&serial);
@@ -81,8 +81,9 @@ where
           if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
-        });
-      }
+        }
+      };
+      s.set_on_unsubscribe(leave.clone());
       let len = {
         let mut observers = observers.write().unwrap();
         observers.insert(serial, s.clone());
@@ -90,7 +91,7 @@ where
       };
       if !s.is_subscribed() {
         // unsubscribed before it was registered
-        observers.write().unwrap().remove(&serial);
+        leave();
         return;
       }
       let on_subscribe = on_subscribe.read().unwrap().clone();
@@ -104,6 +105,16 @@ where
     self.observers.read().unwrap().len() > 0
   }
 
+  // runs f while nobody can subscribe, if nobody is subscribed
+  pub(crate) fn if_unobserved<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
+    let observers = self.observers.read().unwrap();
+    if observers.is_empty() {
+      Some(f())
+    } else {
+      None
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From fdc2bfbfac5cbc7b9ff511f968f092cfd7545153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:51 +0000
Subject: [PATCH 24/28] fix: ref_count and replay release their source and
 callbacks once the handles are gone

---
 src/operators/ref_count.rs     |  5 +++--
 src/operators/replay.rs        |  5 +++--
 src/subjects/replay_subject.rs |  7 +++++++
 src/subjects/subject.rs        | 10 ++++++++++
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 325442b..8c1d639 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -37,14 +37,15 @@ where
   }
 
   fn set_ref_count(&self) {
+    // the hooks do not keep the subject that owns them alive
+    let _self = RefCount { subject: self.subject.without_hooks(), ..self.clone() };
     {
-      let _self = self.clone();
+      let _self = _self.clone();
       self.subject.set_on_unsubscribe(move |_| {
         _self.disconnect();
       });
     }
 
-    let _self = self.clone();
     self.subject.set_on_subscribe(move |_| {
       _self.connect();
     });
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 33e36c5..521c62c 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -36,14 +36,15 @@ where
   }
 
   fn set_ref_count(&self) {
+    // the hooks do not keep the subject that owns them alive
+    let _self = Replay { subject: self.subject.without_hooks(), ..self.clone() };
     {
-      let _self = self.clone();
+      let _self = _self.clone();
       self.subject.set_on_unsubscribe(move |_| {
         _self.disconnect();
       });
     }
 
-    let _self = self.clone();
     self.subject.set_on_subscribe(move |_| {
       _self.connect();
     });
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index e8f4c7d..e594893 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -156,6 +156,13 @@ where
     self.subject.has_observers()
   }
 
+  pub(crate) fn without_hooks(&self) -> ReplaySubject<'a, Item> {
+    ReplaySubject {
+      subject: Arc::new(self.subject.without_hooks()),
+      ..self.clone()
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index f7cd0b2..43d4d5c 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -115,6 +115,16 @@ where
     }
   }
 
+  // the same subject for use inside its hooks, which it does not own
+  pub(crate) fn without_hooks(&self) -> Subject<'a, Item> {
+    Subject {
+      observers: Arc::clone(&self.observers),
+      serial: Arc::clone(&self.serial),
+      on_subscribe: Arc::new(RwLock::new(None)),
+      on_unsubscribe: Arc::new(RwLock::new(None)),
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 3ee002f9dd299e3f57966615c047957c7fe97405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:18 +0000
Subject: [PATCH 25/28] fix: contains answers only once when its source emits
 again from inside the answer

---
 src/operators/contains.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/contains.rs b/src/operators/contains.rs
index 43ecdb9..af0d5ee 100644
--- a/src/operators/contains.rs
+++ b/src/operators/contains.rs
@@ -28,6 +28,7 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |serial, x| {
           if x == target {
+            sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_next(true);
             sctl_next.sink_complete(&serial);
           }
-- 
2.43.0


From 72f1d11237d9d78c09b083243c1fb656150aca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:18 +0000
Subject: [PATCH 26/28] fix: skip_while stops skipping before it delivers the
 first item, not after

---
 src/operators/skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 1379892..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -39,8 +39,8 @@ where
             sctl_next.sink_next(x);
           } else {
             if !f.call(x.clone()) {
-              sctl_next.sink_next(x);
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From 07b0778adf4b94c66e5b6be71387acef9ecff76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:23 +0000
Subject: [PATCH 27/28] fix: a second thread's unsubscribe() returned while the
 first one's had not ended the subscription yet

---
 src/subscription.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/subscription.rs b/src/subscription.rs
index e9691ce..9bdfc98 100644
--- a/src/subscription.rs
+++ b/src/subscription.rs
@@ -18,7 +18,10 @@ impl<'a> Subscription<'a> {
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_unsubscribe.call_and_clear_if_available(());
+    // cleared afterwards: when two threads unsubscribe at once, neither call
+    // returns before the subscription has ended
+    self.fn_unsubscribe.call_if_available(());
+    self.fn_unsubscribe.clear();
   }
   pub fn is_subscribed(&self) -> bool {
     if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
-- 
2.43.0


From eb9c2696c000136568b3b7370548f9108c0d77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:58 +0000
Subject: [PATCH 28/28] fix: range() overflowed when its last item is the
 largest i64

---
 src/observables/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observables/range.rs b/src/observables/range.rs
index 5a36f87..c5a05d3 100644
--- a/src/observables/range.rs
+++ b/src/observables/range.rs
@@ -2,11 +2,11 @@ use crate::prelude::*;
 
 pub fn range<'a>(initial: i64, count: i64) -> Observable<'a, i64> {
   Observable::create(move |s| {
-    for n in initial..(initial + count) {
+    for n in 0..count {
       if !s.is_subscribed() {
         break;
       }
-      s.next(n.clone());
+      s.next(initial + n);
     }
     s.complete();
   })
-- 
2.43.0


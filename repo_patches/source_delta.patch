From 0647432c2b613fa0f4dbae2ce49c1ad718b8be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 01/15] fix: apply a committed transaction even if one of its
 contexts is still in scope

Transaction::with returned Ok but silently discarded every operation when a
context obtained from the handle had not been dropped yet.
---
 plotline/src/schema/transaction.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..a46ebbb 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -72,13 +72,10 @@ where
             return;
         };
 
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        // A context of this transaction may still be in scope, so the operations are taken out
+        // of the shared log instead of unwrapping it.
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
@@ -138,13 +135,10 @@ where
     T: Identify,
 {
     fn commit(self) {
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        // A context of this transaction may still be in scope, so the operations are taken out
+        // of the shared log instead of unwrapping it.
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
-- 
2.43.0


From c9d64348babcadd8fc8ce4737ce747257f266896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 02/15] fix: report a save whose target became unavailable
 instead of succeeding without it

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..93cfc8f 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or(Error::Noop)?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From af0cfa96cb1a3451f34afdbef0720694553d8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 03/15] fix: yield the loaded document when concurrent
 resolutions of it overlap

---
 plotline/src/document/lazy.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..fec338c 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,16 +60,10 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
+        let document = self.document_repo.find_by_id(&self.document_id)?;
 
-        self.document.get()
+        // A concurrent resolution may have set the document in the meantime.
+        Some(self.document.get_or_init(|| document))
     }
 }
 
-- 
2.43.0


From 0bf99bd3c996024fcf1adb76e015eead1074e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 04/15] fix: find the documents whose id contains a dot

---
 plotline-cli/src/repository.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..6a03843 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,12 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        // The id may contain dots itself, hence the extension has to be appended instead of replaced.
+        let mut file_name = id.file_name()?.to_os_string();
+        file_name.push(".");
+        file_name.push(&self.extension);
+
+        let path = self.context.join(id).with_file_name(file_name);
 
         fs::read(&path)
             .inspect_err(|err| {
-- 
2.43.0


From ad6dc4f3ad993a5f2813cc1510079f3fa49c0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 05/15] fix: do not list directories as documents

---
 plotline-cli/src/repository.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 6a03843..b8b005f 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -58,6 +58,7 @@ impl LocalDocumentRepository {
 
                 entry.ok()
             })
+            .filter(|entry| entry.path().is_file())
             .filter({
                 let regex = Regex::new(&format!("\\.{}$", self.extension))
                     .expect("pattern should be a valid regular expression");
-- 
2.43.0


From bfb207fd10b9e6a3c3da31603a3fd8d3e8d3f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 06/15] fix: take the extension of documents literally

---
 plotline-cli/src/repository.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index b8b005f..a77a585 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -60,7 +60,7 @@ impl LocalDocumentRepository {
             })
             .filter(|entry| entry.path().is_file())
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
@@ -71,9 +71,10 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // The extension may contain dots itself.
+                let dots = self.extension.matches('.').count();
+                let path = (0..=dots)
+                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 6e6cbffd5bbb8cf22af94d925050977209b58122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 07/15] fix: join the subtrees of a deleted interval instead of
 recursing forever

---
 plugins/interval/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..a0876c6 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -221,17 +221,23 @@ where
             }
 
             let center = intervals.len() / 2;
-            let left = intervals.drain(0..center).collect();
-            immersion(immersion(root, left), intervals)
+            let right = intervals.split_off(center + 1);
+            let root = match intervals.pop() {
+                Some(interval) => root.insert(interval),
+                None => root,
+            };
+
+            immersion(immersion(root, intervals), right)
         }
 
         let mut intervals = self.into_inorder();
         intervals.extend(right.into_inorder());
 
         let center = intervals.len() / 2;
+        let right = intervals.split_off(center + 1);
         let root = Self::new(intervals.remove(center));
 
-        immersion(Box::new(root), intervals)
+        immersion(immersion(Box::new(root), intervals), right)
     }
 
     /// Returns a vector with all the intervals in order.
-- 
2.43.0


From 75887e321cac3fb9ee86ef758cc4dae88ee04a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 08/15] fix: delete intervals that begin where another one does

---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index a0876c6..8f7b26d 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,7 +89,7 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
-- 
2.43.0


From 3236e27b5b5d04a4d1aebf09037d5f74888340ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 09/15] fix: keep the maximum bound of a subtree up to date on
 deletion

---
 plugins/interval/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 8f7b26d..016b78b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -93,6 +93,11 @@ where
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From 401c6dde5924c4c709d3961396499d55023008fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 10/15] hook: construct dates (guarded by cfg plotline_verif)

---
 plugins/interval/src/date.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/plugins/interval/src/date.rs b/plugins/interval/src/date.rs
index 22ec8ba..591f40b 100644
--- a/plugins/interval/src/date.rs
+++ b/plugins/interval/src/date.rs
@@ -106,4 +106,15 @@ where
 //     fn all(&self, source: &Src) -> Vec<Self::Target> {
 //         todo!()
 //     }
-// }
\ No newline at end of file
+// }
+
+#[cfg(plotline_verif)]
+impl<const N: usize, T, Endian> Date<N, T, Endian> {
+    /// A date of the given components, in the order they are stored.
+    pub fn verif_new(components: [T; N]) -> Self {
+        Self {
+            components,
+            endian: PhantomData,
+        }
+    }
+}
-- 
2.43.0


From 41c30a4af80b2a0dac4852b6435eaf6a34bfccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 11/15] fix: install the search tree the triggers of the
 interval plugin look for

---
 plugins/interval/src/plugin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 9a767c5..2681c1f 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -137,7 +137,7 @@ where
     {
         schema
             .with_resource(self.extractor)
-            .with_resource(SearchTree::<T, Extr::Target>::default())
+            .with_resource(SearchTree::<T::Id, Extr::Target>::default())
             .with_trigger(AfterSave, Self::on_save)
             .with_trigger(AfterDelete, Self::on_delete)
     }
-- 
2.43.0


From b3d83449d611050742728ff886281a4127fc971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 12/15] fix: drop the intervals of the node a saved one
 replaces

---
 plugins/interval/src/plugin.rs | 55 +++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 2681c1f..1407b8e 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -1,13 +1,13 @@
 //! The plugin implementation for [`IntervalSearchTree`].
 
-use std::marker::PhantomData;
+use std::{collections::BTreeMap, marker::PhantomData};
 
 use plotline::{prelude::*, property::Extractor};
 
 use crate::{Interval, IntervalSearchTree};
 
 /// Stores the relation between a node from the graph and its interval.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct NodeInterval<Id, Intv> {
     node_id: Id,
     interval: Intv,
@@ -48,6 +48,9 @@ impl<Id, Intv> Identify for NodeInterval<Id, Intv> {
 
 type SearchTree<Id, Intv> = IntervalSearchTree<NodeInterval<Id, Intv>>;
 
+/// The intervals in the search tree, by the node they belong to.
+type NodeIntervals<Id, Intv> = BTreeMap<Id, Vec<NodeInterval<Id, Intv>>>;
+
 /// Implements the [`Plugin`] trait for an arbitrary extractor of intervals from a source of type T.
 pub struct IntervalPlugin<T, Extractor> {
     extractor: Extractor,
@@ -57,25 +60,24 @@ pub struct IntervalPlugin<T, Extractor> {
 impl<T, Extr> IntervalPlugin<T, Extr>
 where
     T: 'static + Identify,
-    T::Id: Clone + PartialEq,
+    T::Id: Clone + Ord,
     Extr: 'static + Extractor<T>,
-    Extr::Target: Interval + PartialEq,
+    Extr::Target: Interval + PartialEq + Clone,
 {
     fn on_delete(
         _: Ctx<T>,
         target: Target<T>,
         search_tree: Res<SearchTree<T::Id, Extr::Target>>,
-        extractor: Res<Extr>,
+        node_intervals: Res<NodeIntervals<T::Id, Extr::Target>>,
     ) -> Result<()> {
-        let Some(intervals) = (target, extractor).with(|(target, factory)| {
-            factory.all(target).into_iter().map({
-                let node_id = target.id().clone();
-                move |interval| NodeInterval {
-                    node_id: node_id.clone(),
-                    interval,
-                }
-            })
-        }) else {
+        let Some(node_id) = target.with(|target| target.id().clone()) else {
+            return Ok(());
+        };
+
+        let Some(intervals) = node_intervals
+            .with_mut(|node_intervals| node_intervals.remove(&node_id))
+            .flatten()
+        else {
             return Ok(());
         };
 
@@ -92,16 +94,21 @@ where
 impl<T, Extr> IntervalPlugin<T, Extr>
 where
     T: 'static + Identify,
-    T::Id: Clone + PartialEq,
+    T::Id: Clone + Ord,
     Extr: 'static + Extractor<T>,
-    Extr::Target: Interval + PartialEq,
+    Extr::Target: Interval + PartialEq + Clone,
 {
     fn on_save(
         _: Ctx<T>,
         target: Target<T>,
         search_tree: Res<SearchTree<T::Id, Extr::Target>>,
+        node_intervals: Res<NodeIntervals<T::Id, Extr::Target>>,
         extractor: Res<Extr>,
     ) -> Result<()> {
+        let Some(node_id) = target.with(|target| target.id().clone()) else {
+            return Ok(());
+        };
+
         let Some(intervals) = (target, extractor).with(|(target, extractor)| {
             extractor.all(target).into_iter().map({
                 let node_id = target.id().clone();
@@ -114,7 +121,18 @@ where
             return Ok(());
         };
 
+        // The node may replace another one, whose intervals are no longer in the graph.
+        let intervals: Vec<_> = intervals.collect();
+        let replaced = node_intervals
+            .with_mut(|node_intervals| node_intervals.insert(node_id, intervals.clone()))
+            .flatten()
+            .unwrap_or_default();
+
         search_tree.with_mut(|search_tree| {
+            replaced.iter().for_each(|interval| {
+                search_tree.delete(interval);
+            });
+
             intervals.into_iter().for_each(|interval| {
                 search_tree.insert(interval);
             });
@@ -127,9 +145,9 @@ where
 impl<T, Extr> Plugin<T> for IntervalPlugin<T, Extr>
 where
     T: 'static + Identify,
-    T::Id: Clone + PartialEq,
+    T::Id: Clone + Ord,
     Extr: 'static + Extractor<T>,
-    Extr::Target: Interval + PartialEq,
+    Extr::Target: Interval + PartialEq + Clone,
 {
     fn install(self, schema: Schema<T>) -> Schema<T>
     where
@@ -138,6 +156,7 @@ where
         schema
             .with_resource(self.extractor)
             .with_resource(SearchTree::<T::Id, Extr::Target>::default())
+            .with_resource(NodeIntervals::<T::Id, Extr::Target>::default())
             .with_trigger(AfterSave, Self::on_save)
             .with_trigger(AfterDelete, Self::on_delete)
     }
-- 
2.43.0


From 214cc81bd4959bafa09cf37488007ad1022abf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 13/15] fix: index the nodes a schema has when the interval
 plugin is installed

---
 plugins/interval/src/plugin.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 1407b8e..a35637b 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -153,10 +153,28 @@ where
     where
         T: Identify,
     {
+        let mut search_tree = SearchTree::<T::Id, Extr::Target>::default();
+        let mut node_intervals = NodeIntervals::<T::Id, Extr::Target>::default();
+        for node in &*schema.read() {
+            let intervals = self.extractor.all(node).into_iter();
+            let intervals: Vec<_> = intervals
+                .map(|interval| NodeInterval {
+                    node_id: node.id().clone(),
+                    interval,
+                })
+                .collect();
+
+            intervals.iter().cloned().for_each(|interval| {
+                search_tree.insert(interval);
+            });
+
+            node_intervals.insert(node.id().clone(), intervals);
+        }
+
         schema
             .with_resource(self.extractor)
-            .with_resource(SearchTree::<T::Id, Extr::Target>::default())
-            .with_resource(NodeIntervals::<T::Id, Extr::Target>::default())
+            .with_resource(search_tree)
+            .with_resource(node_intervals)
             .with_trigger(AfterSave, Self::on_save)
             .with_trigger(AfterDelete, Self::on_delete)
     }
-- 
2.43.0


From 3f5ff9c1906c8d45b6cdc027001ede84c50e63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 14/15] hook: create and query the interval plugin (guarded by
 cfg plotline_verif)

---
 plugins/interval/src/lib.rs    |  2 ++
 plugins/interval/src/plugin.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/plugins/interval/src/lib.rs b/plugins/interval/src/lib.rs
index a0b25c7..7ae7d17 100644
--- a/plugins/interval/src/lib.rs
+++ b/plugins/interval/src/lib.rs
@@ -5,6 +5,8 @@ pub mod date;
 mod node;
 mod plugin;
 mod tree;
+#[cfg(plotline_verif)]
+pub use plugin::verif;
 pub use tree::IntervalSearchTree;
 
 /// One of the limits in an [`Interval`].
diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index a35637b..9603cae 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -179,3 +179,33 @@ where
             .with_trigger(AfterDelete, Self::on_delete)
     }
 }
+
+#[cfg(plotline_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Creates the plugin.
+    pub fn plugin<T, Extr>(extractor: Extr) -> IntervalPlugin<T, Extr> {
+        IntervalPlugin {
+            extractor,
+            node: PhantomData,
+        }
+    }
+
+    /// Calls the given closure with the node and the interval of each entry of the index of the
+    /// given schema that overlaps the query, and returns if there is any according to the index
+    /// itself, or none if there is no index.
+    pub fn query<T, Intv, F>(schema: &Schema<T>, node_id: T::Id, interval: Intv, mut f: F) -> Option<bool>
+    where
+        T: 'static + Identify,
+        T::Id: 'static + PartialEq,
+        Intv: 'static + Interval + PartialEq,
+        F: FnMut(&T::Id, &Intv),
+    {
+        let query = NodeInterval { node_id, interval };
+        Res::<SearchTree<T::Id, Intv>>::from(schema.resources()).with(|search_tree| {
+            search_tree.for_each_intersection(&query, |entry| f(&entry.node_id, &entry.interval));
+            search_tree.intersects(&query)
+        })
+    }
+}
-- 
2.43.0


From 097a683ef499fa3d895e95b13a261caf9425ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 15/15] hook: dates need none (reverts 401c6dd)

---
 plugins/interval/src/date.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/plugins/interval/src/date.rs b/plugins/interval/src/date.rs
index 591f40b..22ec8ba 100644
--- a/plugins/interval/src/date.rs
+++ b/plugins/interval/src/date.rs
@@ -106,15 +106,4 @@ where
 //     fn all(&self, source: &Src) -> Vec<Self::Target> {
 //         todo!()
 //     }
-// }
-
-#[cfg(plotline_verif)]
-impl<const N: usize, T, Endian> Date<N, T, Endian> {
-    /// A date of the given components, in the order they are stored.
-    pub fn verif_new(components: [T; N]) -> Self {
-        Self {
-            components,
-            endian: PhantomData,
-        }
-    }
-}
+// }
\ No newline at end of file
-- 
2.43.0


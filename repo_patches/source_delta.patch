From 8729f32f29cec180a7b2cb0ea6c74493cb2cb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:27 +0000
Subject: [PATCH 01/15] fix: switch_context loses set links when old and new
 indexes overlap

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..97bb3c6 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // The old and the new indexes may overlap, so clear all old links before writing any new index
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *new_id, *new_id);
       }
     }
 
-- 
2.43.0


From e20b02f4bc8a01aba45f19a6e68dd242728f758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:27 +0000
Subject: [PATCH 02/15] fix: commit_checked ran link_remove_checks on added
 links and panicked on removed nodes

---
 src/typed_graph.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 97bb3c6..a8551c9 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -732,7 +732,9 @@ where
     }
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+        // Removed nodes can not be checked
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -747,8 +749,9 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in &lcr.removes {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
-- 
2.43.0


From f7332b3d8f560c2fa9da3db45486b44b2a99dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:27 +0000
Subject: [PATCH 03/15] fix: fill_back_untyped on an occupied index with
 another variant duplicated the node

---
 ttgraph_macros/src/cate_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..20dc969 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,6 +354,9 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
+        if self.contains(i) {
+          panic!("Fillback an occupied index {:?}", i);
+        }
         let d = ttgraph::Discriminated::discriminant(&item);
         self._dispatcher.insert(i, d);
         if self.get_container_mut(d).insert(i.0, item).is_some() {
-- 
2.43.0


From d5d05e12d6a2eea35635bf705806569c2b7551d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 04/15] fix: a closure changing the variant of a node left it
 in the container of the old variant

---
 src/cate_arena.rs              | 18 +++++++++++++++---
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..3b23117 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,21 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    // The variant may be changed by f
+    self.fill_back_untyped(i, f(x));
+  }
+  fn mutate_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let x = self.get_mut(i).expect(&format!("Mutate a non-existing node {:?}", i));
+    let d = Discriminated::discriminant(x);
+    f(x);
+    if Discriminated::discriminant(x) != d {
+      // The variant is changed by f, move it to the correct container
+      self.update_with(i, |x| x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index a8551c9..8a60ace 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -573,7 +573,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..15919ad 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.mutate_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From aafb9f0abf1c1e5b280472550016e1f6c3f8c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 05/15] fix: an empty index inside a set link was treated as a
 link

---
 ttgraph_macros/src/typed_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..5f5956b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -171,7 +171,9 @@ pub(crate) fn make_typed_node(
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
         for i in self.#ident.iter() {
-          sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          if !i.is_empty() {
+            sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          }
         }
       }),
       LinkType::Vec(ident, camel) => add_source_ops.push(quote! {
@@ -193,7 +195,7 @@ pub(crate) fn make_typed_node(
         Self::LinkMirror::#camel => if self.#ident.is_empty() {Box::new([].into_iter())} else {Box::new([self.#ident].into_iter())},
       },
       LinkType::Set(ident, camel) => quote! {
-        Self::LinkMirror::#camel => Box::new(self.#ident.iter().map(|x|*x)),
+        Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
-- 
2.43.0


From f2ac7f9776023679bd83ef54217050f5e20b55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 06/15] fix: get_links_by_group returned the empty slots of vec
 and set links

---
 ttgraph_macros/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..4fce912 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -52,8 +52,8 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
         LinkType::Direct(ident, _) => {
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
-        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Set(_, camel) => quote! {result.extend(self.iter_links(Self::LinkMirror::#camel));},
+        LinkType::Vec(_, camel) => quote! {result.extend(self.iter_links(Self::LinkMirror::#camel));},
         LinkType::Empty => quote! {},
       });
     }
-- 
2.43.0


From a5249e161c39e41b92d936a45ae38af97942e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:03 +0000
Subject: [PATCH 07/15] fix: multiple group attributes on one field misaligned
 the groups of the following links

---
 ttgraph_macros/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..2f27e9b 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,7 +218,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
         let mut cur_group = Vec::new();
@@ -238,14 +238,13 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
           for g in &cur_group {
             group_map.entry(g.clone()).or_default().push(ident.clone());
           }
-          groups.push(cur_group);
+          field_groups.extend(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      groups.push(field_groups);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From ce12b584d5991198ebf82b148153429a94c4cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:34 +0000
Subject: [PATCH 08/15] fix: redirecting to the empty index left stale back
 links

---
 src/typed_graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 8a60ace..e560683 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -604,7 +604,9 @@ where
 
     let new_link = self.back_links.entry(new_node).or_default();
     for (y, s) in old_link {
-      new_link.insert((y, s));
+      if !new_node.is_empty() {
+        new_link.insert((y, s));
+      }
       let result = self.nodes.get_mut(y).unwrap().modify_link(s, old_node, new_node);
       // add: if (added) {new_idx} else {ttgraph::NodeIndex::empty()},
       // remove: if (removed) {old_idx} else {ttgraph::NodeIndex::empty()},
-- 
2.43.0


From 8868cf1f99aa0bbb5ff83f2b4af3a8b1237d1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:38 +0000
Subject: [PATCH 09/15] fix: links reached through overlapping groups were
 counted as multiple bidirectional choices

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..e4824df 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // The same link may be reached through multiple groups, it is still one choice
+    let links: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    links.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From 90af853afee9619761999ff2dfc299143e6bd9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:36 +0000
Subject: [PATCH 10/15] fix: duplicated places in a vec link made the change
 recorder miss added links

---
 src/typed_graph.rs | 69 ++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index e560683..653de85 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -544,9 +544,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
-      for (y, s) in n.iter_sources() {
-        lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
-      }
+      lcr.add_links(x, n);
     }
 
     self.nodes.merge(nodes);
@@ -554,13 +552,16 @@ where
 
   fn remove_node(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
     let n = self.nodes.remove(x).expect("Remove a non-existing node!");
-    for (y, s) in n.iter_sources() {
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
-    }
+    lcr.remove_links(x, &n);
     self.remove_back_links(x, &n);
     for (y, s) in self.back_links.swap_remove(&x).unwrap() {
-      self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
-      lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
+      let link = NodeT::to_link_mirror_enum(s);
+      let node = self.nodes.get_mut(y).unwrap();
+      node.modify_link(s, x, NodeIndex::empty());
+      // A vec link may still contain x at another place
+      if !node.contains_link(link, x) {
+        lcr.remove_link(y, x, link);
+      }
     }
   }
 
@@ -568,16 +569,18 @@ where
   where
     F: FnOnce(&mut NodeT),
   {
-    for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
+    let node = self.nodes.get(x).unwrap();
+    lcr.remove_links(x, node);
+    for (y, s) in node.iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
     self.nodes.mutate_with(x, f);
 
-    for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
+    let node = self.nodes.get(x).unwrap();
+    lcr.add_links(x, node);
+    for (y, s) in node.iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
 
@@ -585,16 +588,18 @@ where
   where
     F: FnOnce(NodeT) -> NodeT,
   {
-    for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
+    let node = self.nodes.get(x).unwrap();
+    lcr.remove_links(x, node);
+    for (y, s) in node.iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
-      lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
     self.nodes.update_with(x, f);
 
-    for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
+    let node = self.nodes.get(x).unwrap();
+    lcr.add_links(x, node);
+    for (y, s) in node.iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
-      lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
 
@@ -607,14 +612,16 @@ where
       if !new_node.is_empty() {
         new_link.insert((y, s));
       }
-      let result = self.nodes.get_mut(y).unwrap().modify_link(s, old_node, new_node);
-      // add: if (added) {new_idx} else {ttgraph::NodeIndex::empty()},
-      // remove: if (removed) {old_idx} else {ttgraph::NodeIndex::empty()},
-      if result.added {
-        lcr.add_link(y, new_node, NodeT::to_link_mirror_enum(s));
+      let link = NodeT::to_link_mirror_enum(s);
+      let node = self.nodes.get_mut(y).unwrap();
+      let existed = node.contains_link(link, new_node);
+      let result = node.modify_link(s, old_node, new_node);
+      // A vec link may contain the same node at another place
+      if result.added && !existed {
+        lcr.add_link(y, new_node, link);
       }
-      if result.removed {
-        lcr.remove_link(y, old_node, NodeT::to_link_mirror_enum(s));
+      if result.removed && !node.contains_link(link, old_node) {
+        lcr.remove_link(y, old_node, link);
       }
     }
   }
@@ -777,6 +784,22 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
+  /// Record all links of a node as added, duplicated places in a vec link are one link
+  fn add_links(&mut self, x: NodeIndex, n: &NodeT) {
+    let links: OrderSet<_> = n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect();
+    for (y, l) in links {
+      self.add_link(x, y, l);
+    }
+  }
+
+  /// Record all links of a node as removed, duplicated places in a vec link are one link
+  fn remove_links(&mut self, x: NodeIndex, n: &NodeT) {
+    let links: OrderSet<_> = n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect();
+    for (y, l) in links {
+      self.remove_link(x, y, l);
+    }
+  }
+
   #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
-- 
2.43.0


From e8a6243281a2daae1c727817a5d0ca52dc358e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:37 +0000
Subject: [PATCH 11/15] fix: links added or removed by bidirectional
 declarations were not checked

---
 src/typed_graph.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 653de85..5e85bd3 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -476,7 +476,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -537,7 +537,7 @@ where
       self.remove_node(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -662,8 +662,8 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (x, y, l) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -673,11 +673,12 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for (x, y, l) in lcr.adds.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -696,6 +697,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -774,7 +776,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From 16bdf47eb32b61265593b334de01274430f34764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:39 +0000
Subject: [PATCH 12/15] fix: commit_checked skipped node checks of nodes
 without changed links

---
 src/typed_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 5e85bd3..78925df 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -737,7 +737,7 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.nodes.clone();
     for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
       changed_nodes.insert(*x);
     }
@@ -782,12 +782,15 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
+  /// Nodes that are inserted, mutated or updated
+  nodes: OrderSet<NodeIndex>,
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  /// Record all links of a node as added, duplicated places in a vec link are one link
+  /// Record a new or changed node and all its links as added, duplicated places in a vec link are one link
   fn add_links(&mut self, x: NodeIndex, n: &NodeT) {
+    self.nodes.insert(x);
     let links: OrderSet<_> = n.iter_sources().map(|(y, s)| (y, NodeT::to_link_mirror_enum(s))).collect();
     for (y, l) in links {
       self.add_link(x, y, l);
@@ -835,6 +838,7 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
+      nodes: OrderSet::default(),
       adds: OrderSet::default(),
       removes: OrderSet::default(),
     }
-- 
2.43.0


From 329ee8051c8ce728b6e7fcf01398e8a205dd551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 13/15] fix: all default contexts shared the same id

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 78925df..64237b1 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -903,7 +903,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -925,6 +925,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From f39b84da849db02ca7e7153944523488a94c30a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 14/15] fix: context mismatch and unfilled nodes were not
 detected without debug assertions

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 64237b1..7c5ee34 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -519,8 +519,8 @@ where
   pub fn check_backlinks(&self) {}
 
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
-    debug_assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
-    debug_assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
+    assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
 
     let mut lcr = LinkChangeRecorder::default();
 
-- 
2.43.0


From 0351459b0f6125188c881eb2d4cd041b90712f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:05 +0000
Subject: [PATCH 15/15] fix: build without the debug feature, and keep
 bidirectional links there

---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 7c5ee34..4317ad5 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -724,6 +725,10 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in &lcr.adds {
       if let Some(node) = self.nodes.get(*y) {
@@ -805,7 +810,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -817,10 +821,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -831,9 +831,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
       self.removes.insert((x, y, l));
     }
   }
-
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-- 
2.43.0


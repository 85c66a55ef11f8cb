From 972c3e2edea2e8194794a69297998d8504f19d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 1/7] fix: depth-first leaves() started mid-traversal skips
 leaves that are direct children of visited nodes

---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From 70d4596fae7647ce3deebda9d16a2df76868b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 2/7] fix: ancestor stacks of depth-first leaves() started
 mid-traversal lose or repeat ancestors

---
 .../src/dfs_inorder_iterators/borrow.rs       | 14 ++++--
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 14 ++++--
 .../src/dfs_inorder_iterators/owned.rs        | 14 ++++--
 .../ancestors_depth_first/mod.rs              | 46 +++++++++----------
 4 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..9af3c7b 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack,
+            // but every item needs its own (possibly empty) children iterator.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..381ffbe 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack,
+            // but every item needs its own (possibly empty) children iterator.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..062557d 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // Nodes that already went right no longer have an entry in the right stack,
+            // but every item needs its own (possibly empty) children iterator.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..3880955 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -11,45 +11,41 @@ macro_rules! streaming_leaves {
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
                 pushed_another_iterator = true;
-            } else {
+            } else if self.item_stack.len()
+                > self.old_traversal_stack.len() + self.new_traversal_stack.len()
+            {
+                // The top of the item stack has already been yielded and its children
+                // iterator is gone. All other items still have a children iterator.
                 self.item_stack.pop();
             }
 
             loop {
-                if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
-                    if let Some(node) = new_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
-                }
-
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
+                let next = if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
+                    new_stack_last.next()
+                } else if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
+                    old_stack_last.next()
+                } else {
+                    self.item_stack.clear();
                     return;
+                };
+
+                if let Some(node) = next {
+                    let (value, children) = node.$get_value_and_children();
+                    self.new_traversal_stack.push(children.into_iter());
+                    self.item_stack.push(value);
+                    pushed_another_iterator = true;
+                    continue;
                 }
 
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
-                    if let Some(node) = old_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
+                if self.new_traversal_stack.pop().is_none() {
+                    self.old_traversal_stack.pop();
                 }
 
-                self.old_traversal_stack.pop();
                 if pushed_another_iterator {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 9febdb94be32c8d361ef8ec14df29eaa27b20105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 3/7] fix: breadth-first ancestor/context iterators leak the
 values cached between levels when dropped early

---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 21 ++++++++-----------
 .../ancestors_breadth_first/mod.rs            |  7 +++----
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..0690ab7 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -131,8 +131,7 @@ macro_rules! bfs_context_advance_iterator {
                 if let Some(mut value) = child {
                     self.current_context
                         .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                        .push(value.value.take().unwrap());
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +156,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = self.current_context.ancestors.pop();
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +183,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: self.current_context.ancestors.pop(),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -361,8 +359,7 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -383,7 +380,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -413,7 +410,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -432,7 +429,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -443,7 +440,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -453,7 +450,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..401b297 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,7 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +42,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +69,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From 59e9366066ba0ef42e7aa56200e2305c9f8dae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 4/7] fix: current_path() after prune()/prune_path() is wrong
 for siblings of pruned or leaf nodes

---
 .../src/tree_collection_iterators/prune.rs    | 31 +++++++------------
 .../tree_collection_iterators/prune_path.rs   | 31 +++++++------------
 tree_iterators_rs/src/tree_iterators/prune.rs | 31 +++++++------------
 .../src/tree_iterators/prune_path.rs          | 31 +++++++------------
 4 files changed, 48 insertions(+), 76 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..0b4ecf2 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -43,25 +43,18 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // In a preorder traversal, only the last path segment differs from the segments that
+            // were already visited on the way down to the current node.
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+            if let (Some(current), Some(inner), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                // saturate to prevent panics if inner is implemented incorrectly.
+                *current = inner.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..81fe5a0 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -48,25 +48,18 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // In a preorder traversal, only the last path segment differs from the segments that
+            // were already visited on the way down to the current node.
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+            if let (Some(current), Some(inner), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                // saturate to prevent panics if inner is implemented incorrectly.
+                *current = inner.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..25eca3c 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -43,25 +43,18 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // In a preorder traversal, only the last path segment differs from the segments that
+            // were already visited on the way down to the current node.
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+            if let (Some(current), Some(inner), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                // saturate to prevent panics if inner is implemented incorrectly.
+                *current = inner.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..07cd87f 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -43,25 +43,18 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_depth = self.inner.current_depth();
-
-            if self.pruned_at_each_depth.len() < inner_depth {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_depth {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_depth {
-                self.pruned_at_each_depth.truncate(inner_depth);
-                self.current_path.truncate(inner_depth);
-
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // In a preorder traversal, only the last path segment differs from the segments that
+            // were already visited on the way down to the current node.
+            let inner_path = self.inner.current_path();
+            self.pruned_at_each_depth.resize(inner_path.len(), 0);
+            self.current_path.resize(inner_path.len(), 0);
+            if let (Some(current), Some(inner), Some(pruned)) = (
+                self.current_path.last_mut(),
+                inner_path.last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                // saturate to prevent panics if inner is implemented incorrectly.
+                *current = inner.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
-- 
2.43.0


From 7b876cf6dd4d12d36cee9ae3217e669be9e74c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 5/7] fix: map_path() hands its closure the previous node's
 (possibly dangling) path

---
 .../src/tree_collection_iterators/map_path.rs              | 5 ++---
 tree_iterators_rs/src/tree_iterators/map_path.rs           | 7 ++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..6fac816 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..b9bed17 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
-        self.inner
-            .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From a6e27441ee0ed32d2494928a994ba4d9ba7ab5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 6/7] fix: map_path_each() on owned binary tree collections
 never passes the path to its closure

---
 tree_iterators_rs/src/prelude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 44d25c1..33c8a0b 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -4079,7 +4079,7 @@ where
     ) -> BinaryTrees<
         Output,
         (),
-        CollectionMap<
+        CollectionMapPath<
             T::OwnedValue,
             [Option<T>; 2],
             impl BinaryTreeCollectionIterator<T::OwnedValue, [Option<T>; 2]>,
@@ -4088,9 +4088,9 @@ where
         >,
     >
     where
-        F: FnMut(T::OwnedValue) -> Output,
+        F: FnMut(&[usize], T::OwnedValue) -> Output,
     {
-        self.into_pipeline().map_trees(f).trees()
+        self.into_pipeline().map_path(f).trees()
     }
 
     /// Applies the fold operation to every tree within this [`OwnedIntoIteratorOfBinaryTrees`].
-- 
2.43.0


From 08eac331548ec6601de43fd6f837086776d9d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 7/7] fix: drop the nodes kept by breadth-first traversals
 without recursion

---
 tree_iterators_rs/src/bfs_iterators/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 0690ab7..5b2c188 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -456,3 +456,16 @@ impl<T> Default for TreeNodeVecDeque<T> {
         }
     }
 }
+
+impl<T> Drop for TreeNodeVecDeque<T> {
+    fn drop(&mut self) {
+        // The default drop glue would recurse once per level and overflow the call stack
+        // on deep trees, so take the descendants apart iteratively.
+        let mut pending = core::mem::take(&mut self.children);
+        while let Some(child) = pending.pop_back() {
+            if let Some(mut child) = child {
+                pending.append(&mut child.children);
+            }
+        }
+    }
+}
-- 
2.43.0


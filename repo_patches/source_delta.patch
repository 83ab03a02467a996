From aef529a6e400c69ce9a97586614d5bb83567e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 01/10] =?UTF-8?q?fix:=20ZDD=20intersect=20with=20the=20uni?=
 =?UTF-8?q?t=20family=20{=E2=88=85}=20keeps=20only=20the=20empty=20set?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 bddcore/src/zdd_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..cde6305 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,16 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            // {∅} has no element: only the 0-edge of the other family can match.
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From ff7a609827cdcc02fa8c752410dd34b491365a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 02/10] fix: ZDD divide returns the exact quotient for every
 pair of families

---
 bddcore/src/zdd_ops.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index cde6305..e73cb38 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -235,17 +235,23 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            // g holds a non-empty set, so no q can satisfy q ∪ d = ∅ for every d in g.
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                // g does not mention the variable: the quotient may, on either side.
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                // Some set of g has a variable that no set of f has.
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From 3f71af5928804454156326b3691802ed41a33fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 03/10] fix: MTMDD <= is the pointwise union of < and ==

---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..0e85dd4 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resulteq, resultlt))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From 48669005792253ca9084b4b9435546139aa8b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 04/10] fix: undet_boolean returns the boolean forest's
 undetermined terminal

---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From b4449c9a6f016a577172e859e4341743fa1c5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 05/10] fix: minpath/mincut reuse the family manager's headers
 across calls

---
 bss/src/zdd_convert.rs  | 9 ++++++++-
 mss/src/zmdd_convert.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..e5f3221 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,14 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    let (level, label) = (header.level(), header.label());
+                    // One destination header per variable, shared by every conversion, so
+                    // that equal families get the same node.
+                    let found = (0..dst.size().0).find(|hid| {
+                        let x = dst.get_header(hid).unwrap();
+                        x.level() == level && x.label() == label
+                    });
+                    let h = found.unwrap_or_else(|| dst.create_header(level, label));
                     zh.insert(shid, h);
                     h
                 }
diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..33568d3 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,13 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // One destination header per variable, shared by every conversion, so that equal
+            // families get the same node.
+            let found = (0..dst.size().0).find(|hid| {
+                let x = dst.get_header(hid).unwrap();
+                x.level() == level && x.label() == label && x.edge_num() == edge_num
+            });
+            let h = found.unwrap_or_else(|| dst.create_header(level, label, edge_num));
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0


From 567aefb5c403281da2dd1381b14a953ac427ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 06/10] fix: rpn reports stack underflow as Err instead of
 panicking

---
 bss/src/bdd.rs | 20 ++++++++--------
 mss/src/mdd.rs | 64 +++++++++++++++++++++++++-------------------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..0f3cd43 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -276,32 +276,32 @@ impl BddMgr {
                 }
                 "&" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Stack underflow")?;
+                    let left = stack.pop().ok_or("Stack underflow")?;
                     stack.push(bdd.and(left, right));
                 }
                 "|" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Stack underflow")?;
+                    let left = stack.pop().ok_or("Stack underflow")?;
                     stack.push(bdd.or(left, right));
                 }
                 "^" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Stack underflow")?;
+                    let left = stack.pop().ok_or("Stack underflow")?;
                     stack.push(bdd.xor(left, right));
                 }
                 "~" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let node = stack.pop().unwrap();
+                    let node = stack.pop().ok_or("Stack underflow")?;
                     stack.push(bdd.not(node));
                 }
                 "?" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let else_ = stack.pop().unwrap();
-                    let then = stack.pop().unwrap();
-                    let cond = stack.pop().unwrap();
+                    let else_ = stack.pop().ok_or("Stack underflow")?;
+                    let then = stack.pop().ok_or("Stack underflow")?;
+                    let cond = stack.pop().ok_or("Stack underflow")?;
                     stack.push(bdd.ite(cond, then, else_));
                 }
                 _ if token.starts_with("save(") && token.ends_with(")") => {
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..ba5d6e4 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -301,113 +301,113 @@ where
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.add(a, b);
                     stack.push(tmp);
                 }
                 "-" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.sub(a, b);
                     stack.push(tmp);
                 }
                 "*" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.mul(a, b);
                     stack.push(tmp);
                 }
                 "/" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.div(a, b);
                     stack.push(tmp);
                 }
                 "min" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.min(a, b);
                     stack.push(tmp);
                 }
                 "max" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.max(a, b);
                     stack.push(tmp);
                 }
                 "==" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.eq(a, b);
                     stack.push(tmp);
                 }
                 "!=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.neq(a, b);
                     stack.push(tmp);
                 }
                 "<" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.lt(a, b);
                     stack.push(tmp);
                 }
                 "<=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.lte(a, b);
                     stack.push(tmp);
                 }
                 ">" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.gt(a, b);
                     stack.push(tmp);
                 }
                 ">=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.gte(a, b);
                     stack.push(tmp);
                 }
                 "&&" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.and(a, b);
                     stack.push(tmp);
                 }
                 "||" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.or(a, b);
                     stack.push(tmp);
                 }
                 "!" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let a = stack.pop().unwrap();
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.not(a);
                     stack.push(tmp);
                 }
                 "?" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let c = stack.pop().unwrap();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let c = stack.pop().ok_or("Stack underflow")?;
+                    let b = stack.pop().ok_or("Stack underflow")?;
+                    let a = stack.pop().ok_or("Stack underflow")?;
                     let tmp = mdd.ite(a, b, c);
                     stack.push(tmp);
                 }
-- 
2.43.0


From b6aaec50a0d7025033623735b1f0d4427c30eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 07/10] fix: kofn with k larger than n no longer sizes a table
 by k

---
 bss/src/bdd_kofn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bss/src/bdd_kofn.rs b/bss/src/bdd_kofn.rs
index 712f965..7c5f9b4 100644
--- a/bss/src/bdd_kofn.rs
+++ b/bss/src/bdd_kofn.rs
@@ -34,6 +34,9 @@ pub fn kofn(
     node: &[NodeId]
 ) -> NodeId {
     let n = node.len();
+    if k > n {
+        return dd.zero(); // impossible, and the memo table must not be sized by k
+    }
     // Flat (k+1) x (n+1) memo table, valid only within this call.
     let mut memo: Vec<Option<NodeId>> = vec![None; (k + 1) * (n + 1)];
     kofn_rec(dd, node, k, 0, n, &mut memo)
-- 
2.43.0


From 1b2d0c30226ad93bf79a91e072040aa16cdd2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 08/10] fix: boolean mdd_count memoizes per (node, level)

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..8a3d78d 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From 7f8095acf40328bb9ff2f967f7b1e1469074b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 09/10] fix: mdd_count of a constant counts it only when its
 value is selected

---
 mss/src/mdd_count.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 8a3d78d..a5546a4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -104,33 +104,29 @@ where
     match node {
         Node::Value(fnode) => {
             let mut cache = BddHashMap::default();
-            if let Some(level) = mdd.mtmdd().level(fnode) {
-                let (nheaders, _, _, _) = mdd.mtmdd().size();
-                let mut level2headers = vec![0; nheaders];
-                for hid in 0..nheaders {
-                    if let Some(h) = mdd.mtmdd().get_header(&hid) {
-                        level2headers[h.level()] = hid;
-                    }
+            // A terminal root (no level) counts its own value against `ss`.
+            let level = mdd.mtmdd().level(fnode);
+            let (nheaders, _, _, _) = mdd.mtmdd().size();
+            let mut level2headers = vec![0; nheaders];
+            for hid in 0..nheaders {
+                if let Some(h) = mdd.mtmdd().get_header(&hid) {
+                    level2headers[h.level()] = hid;
                 }
-                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
-            } else {
-                T::from(1)
             }
+            vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, level, &level2headers)
         }
         Node::Bool(fnode) => {
             let mut cache = BddHashMap::default();
-            if let Some(level) = mdd.mdd().level(fnode) {
-                let (nheaders, _, _) = mdd.mdd().size();
-                let mut level2headers = vec![0; nheaders];
-                for hid in 0..nheaders {
-                    if let Some(h) = mdd.mdd().get_header(&hid) {
-                        level2headers[h.level()] = hid;
-                    }
+            // A terminal root (no level) counts its own value against `ss`.
+            let level = mdd.mdd().level(fnode);
+            let (nheaders, _, _) = mdd.mdd().size();
+            let mut level2headers = vec![0; nheaders];
+            for hid in 0..nheaders {
+                if let Some(h) = mdd.mdd().get_header(&hid) {
+                    level2headers[h.level()] = hid;
                 }
-                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
-            } else {
-                T::from(1)
             }
+            bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, level, &level2headers)
         }
     }
 }
-- 
2.43.0


From b2ade21e198a78f098e5fcb3a8e675d723ad0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 10/10] fix: get_varorder (and minpath/mincut) accept a
 declared one-state variable

---
 mss/src/mdd.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index ba5d6e4..a3f57b5 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -228,13 +228,15 @@ where
     }
 
     pub fn get_varorder(&self) -> Vec<(String, usize)> {
+        // From the headers rather than the variables' nodes: a one-state variable's node is
+        // reduced to a terminal, which has no header.
+        let mdd = self.mdd.borrow();
         let mut result = vec![("?".to_string(), 0); self.vars.len()];
-        for (k, v) in self.vars.iter() {
-            let headerid = v.get_header().unwrap();
-            let mdd = self.mdd.borrow();
+        for headerid in 0..mdd.mtmdd().size().0 {
             let header = mdd.mtmdd().get_header(&headerid).unwrap();
-            let level = header.level() as usize;
-            result[level] = (k.clone(), header.edge_num());
+            if self.vars.contains_key(header.label()) {
+                result[header.level()] = (header.label().to_string(), header.edge_num());
+            }
         }
         result
     }
-- 
2.43.0


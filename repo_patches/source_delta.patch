From 877ae985cbdaae5a1f2b184d2676981799c117ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 01/14] =?UTF-8?q?fix:=20intersecting=20a=20set=20family=20?=
 =?UTF-8?q?with=20{=E2=88=85}=20keeps=20only=20the=20empty=20set?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 bddcore/src/zdd_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..65e4237 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,16 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            // {∅} ∩ g is {∅} iff ∅ ∈ g, which the 0-edges of g decide.
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From 92d4a5b94c191a975bee3225877735c678c5ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 02/14] fix: set-family division returns the full quotient

---
 bddcore/src/zdd_ops.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 65e4237..baf50e8 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -235,17 +235,22 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            // g holds a non-empty set, which nothing in {∅} can contain.
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
+            // g holds a set with a variable no set of f has.
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From 2865e20eca09e500277c9c8e5f1eb0e2adec54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 03/14] fix: less-or-equal is true where the two values are
 equal

---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..4bdd4e2 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resultlt, resulteq))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From 10e815cfdfcae58f6b25235c402127d9f40e78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 04/14] fix: the undetermined Boolean constant is Undet, not
 Zero

---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From a4c3677bc9ebc83bc72835c914161f2414fd7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 05/14] fix: counting a constant multi-state node honours the
 requested values

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..9851d53 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,7 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +129,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From 5ea17d5557b81a64cbbbda68fa6950a3685e2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:34 +0000
Subject: [PATCH 06/14] fix: Boolean assignment counts remember the level a
 node was reached from

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 9851d53..3a3a0c4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From 32b338736298f5b990526bbe54b9c478ed4b82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 07/14] fix: a binary expression with a missing operand is an
 error, not a panic

---
 bss/src/bdd.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..5feb151 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -276,32 +276,32 @@ impl BddMgr {
                 }
                 "&" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Missing operand")?;
+                    let left = stack.pop().ok_or("Missing operand")?;
                     stack.push(bdd.and(left, right));
                 }
                 "|" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Missing operand")?;
+                    let left = stack.pop().ok_or("Missing operand")?;
                     stack.push(bdd.or(left, right));
                 }
                 "^" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Missing operand")?;
+                    let left = stack.pop().ok_or("Missing operand")?;
                     stack.push(bdd.xor(left, right));
                 }
                 "~" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let node = stack.pop().unwrap();
+                    let node = stack.pop().ok_or("Missing operand")?;
                     stack.push(bdd.not(node));
                 }
                 "?" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let else_ = stack.pop().unwrap();
-                    let then = stack.pop().unwrap();
-                    let cond = stack.pop().unwrap();
+                    let else_ = stack.pop().ok_or("Missing operand")?;
+                    let then = stack.pop().ok_or("Missing operand")?;
+                    let cond = stack.pop().ok_or("Missing operand")?;
                     stack.push(bdd.ite(cond, then, else_));
                 }
                 _ if token.starts_with("save(") && token.ends_with(")") => {
-- 
2.43.0


From 10c525bdc6075e843bb358182221a19dbf703032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 08/14] fix: a multi-state expression with a missing operand is
 an error, not a panic

---
 mss/src/mdd.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..5195f2a 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -301,113 +301,113 @@ where
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.add(a, b);
                     stack.push(tmp);
                 }
                 "-" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.sub(a, b);
                     stack.push(tmp);
                 }
                 "*" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.mul(a, b);
                     stack.push(tmp);
                 }
                 "/" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.div(a, b);
                     stack.push(tmp);
                 }
                 "min" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.min(a, b);
                     stack.push(tmp);
                 }
                 "max" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.max(a, b);
                     stack.push(tmp);
                 }
                 "==" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.eq(a, b);
                     stack.push(tmp);
                 }
                 "!=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.neq(a, b);
                     stack.push(tmp);
                 }
                 "<" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.lt(a, b);
                     stack.push(tmp);
                 }
                 "<=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.lte(a, b);
                     stack.push(tmp);
                 }
                 ">" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.gt(a, b);
                     stack.push(tmp);
                 }
                 ">=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.gte(a, b);
                     stack.push(tmp);
                 }
                 "&&" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.and(a, b);
                     stack.push(tmp);
                 }
                 "||" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.or(a, b);
                     stack.push(tmp);
                 }
                 "!" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let a = stack.pop().unwrap();
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.not(a);
                     stack.push(tmp);
                 }
                 "?" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let c = stack.pop().unwrap();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let c = stack.pop().ok_or("Missing operand")?;
+                    let b = stack.pop().ok_or("Missing operand")?;
+                    let a = stack.pop().ok_or("Missing operand")?;
                     let tmp = mdd.ite(a, b, c);
                     stack.push(tmp);
                 }
-- 
2.43.0


From 4e09ce51e35f962456cde58e073bb4bd746b9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 09/14] fix: is_undet recognises the undetermined value node

---
 mss/src/mdd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index 5195f2a..c374a8c 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -709,7 +709,12 @@ where
 
     pub fn is_undet(&self) -> bool {
         match &self.node {
-            Node::Value(x) => false,
+            Node::Value(x) => {
+                let mddmgr = self.parent.upgrade().unwrap();
+                let mdd = mddmgr.borrow();
+                let node = mdd.mtmdd().get_node(x).unwrap();
+                matches!(node, mtmdd::Node::Undet)
+            }
             Node::Bool(x) => {
                 let mddmgr = self.parent.upgrade().unwrap();
                 let mdd = mddmgr.borrow();
-- 
2.43.0


From 48a11659ecba9b5aa965c428c637f3bdeee6fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 10/14] fix: equal path/cut families of one binary manager are
 the same node

---
 bss/src/zdd_convert.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..9001995 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,17 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    // Reuse the header an earlier conversion made for this variable, so that
+                    // equal families from different calls are the same node.
+                    let found = (0..dst.size().0).find(|h| {
+                        dst.get_header(h).map_or(false, |d| {
+                            d.level() == header.level() && d.label() == header.label()
+                        })
+                    });
+                    let h = match found {
+                        Some(h) => h,
+                        None => dst.create_header(header.level(), header.label()),
+                    };
                     zh.insert(shid, h);
                     h
                 }
-- 
2.43.0


From eab1178de7f882b413b48caea03b70e7ee06f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 11/14] fix: equal path/cut families of one multi-state manager
 are the same node

---
 mss/src/zmdd_convert.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..eafc614 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,17 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // Reuse the header an earlier conversion made for this variable, so that equal
+            // families from different calls are the same node.
+            let found = (0..dst.size().0).find(|h| {
+                dst.get_header(h).map_or(false, |d| {
+                    d.level() == level && d.label() == label && d.edge_num() == edge_num
+                })
+            });
+            let h = match found {
+                Some(h) => h,
+                None => dst.create_header(level, label, edge_num),
+            };
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0


From ab6b8f3319f6d56e813bdca1d9917de704a2c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 12/14] fix: get_varorder panicked when a variable has a single
 state

The node of a single-state variable is a terminal and has no header, so
get_varorder (and with it minpath and mincut) panicked. Keep the declared
order with the state counts instead of recovering it from the nodes.
---
 mss/src/mdd.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index c374a8c..1507d73 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -54,6 +54,9 @@ pub struct MddMgr<V> {
     mdd: Rc<RefCell<MtMdd2Manager<V>>>,
     gc: Rc<RefCell<GcState>>,
     vars: HashMap<String, MddNode<V>>,
+    /// Variable labels and numbers of states in definition (level) order. Kept apart from
+    /// `vars` because the node of a single-state variable is a terminal without a header.
+    order: Vec<(String, usize)>,
 }
 
 /// A handle to a node in an [`MddMgr`]'s forest.
@@ -133,6 +136,7 @@ where
                 floor: GC_FLOOR,
             })),
             vars: HashMap::new(),
+            order: Vec::new(),
         }
     }
 
@@ -224,19 +228,12 @@ where
         // Variables stay alive for the manager's lifetime via a pinned handle.
         let result = MddNode::new(&self.mdd, &self.gc, node);
         self.vars.insert(label.to_string(), result.clone());
+        self.order.push((label.to_string(), range));
         result
     }
 
     pub fn get_varorder(&self) -> Vec<(String, usize)> {
-        let mut result = vec![("?".to_string(), 0); self.vars.len()];
-        for (k, v) in self.vars.iter() {
-            let headerid = v.get_header().unwrap();
-            let mdd = self.mdd.borrow();
-            let header = mdd.mtmdd().get_header(&headerid).unwrap();
-            let level = header.level() as usize;
-            result[level] = (k.clone(), header.edge_num());
-        }
-        result
+        self.order.clone()
     }
 
     /// Builds an MTMDD2 node from an expression in Reverse Polish Notation.
-- 
2.43.0


From bbc4348578d32c2958b51912834239b96e8f3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:34 +0000
Subject: [PATCH 13/14] fix: kofn with k far beyond the number of inputs
 panicked or allocated k rows

---
 bss/src/bdd_kofn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bss/src/bdd_kofn.rs b/bss/src/bdd_kofn.rs
index 712f965..0884b5c 100644
--- a/bss/src/bdd_kofn.rs
+++ b/bss/src/bdd_kofn.rs
@@ -34,6 +34,9 @@ pub fn kofn(
     node: &[NodeId]
 ) -> NodeId {
     let n = node.len();
+    if k > n {
+        return dd.zero(); // impossible, and no table of (k+1) rows is needed to tell
+    }
     // Flat (k+1) x (n+1) memo table, valid only within this call.
     let mut memo: Vec<Option<NodeId>> = vec![None; (k + 1) * (n + 1)];
     kofn_rec(dd, node, k, 0, n, &mut memo)
-- 
2.43.0


From 349291ba4b8339d15de02ac311587eb36796aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 14/14] fix: bdd_count overflowed on the way to counts that
 fit, above 63 skipped levels

---
 bss/src/bdd_count.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/bss/src/bdd_count.rs b/bss/src/bdd_count.rs
index de01ee9..1908487 100644
--- a/bss/src/bdd_count.rs
+++ b/bss/src/bdd_count.rs
@@ -1,13 +1,15 @@
 use std::ops::{Add, Mul};
 use bddcore::prelude::*;
 
-fn power<T>(x: T, n: usize) -> T
+/// `x` doubled `n` times. (Multiplying `x` by a ready-made `2^n` would overflow on
+/// the way when `x` is zero and `n` large, although the product fits.)
+fn doubled<T>(x: T, n: usize) -> T
 where
-    T: Mul<Output = T> + From<u32> + Clone,
+    T: Mul<Output = T> + From<u32>,
 {
-    let mut result = T::from(1);
+    let mut result = x;
     for _ in 0..n {
-        result = result * x.clone();
+        result = result * T::from(2);
     }
     result
 }
@@ -71,19 +73,23 @@ where
             let current_level = dd.level(&node).unwrap();
             if let Some(next_level) = dd.level(&fnode.edge(0)) {
                 result = result
-                    + power(T::from(2), current_level - next_level - 1)
-                        * bdd_count(dd, ss, fnode.edge(0), cache);
+                    + doubled(
+                        bdd_count(dd, ss, fnode.edge(0), cache),
+                        current_level - next_level - 1,
+                    );
             } else {
                 result =
-                    result + power(T::from(2), current_level) * bdd_count(dd, ss, fnode.edge(0), cache);
+                    result + doubled(bdd_count(dd, ss, fnode.edge(0), cache), current_level);
             }
             if let Some(next_level) = dd.level(&fnode.edge(1)) {
                 result = result
-                    + power(T::from(2), current_level - next_level - 1)
-                        * bdd_count(dd, ss, fnode.edge(1), cache);
+                    + doubled(
+                        bdd_count(dd, ss, fnode.edge(1), cache),
+                        current_level - next_level - 1,
+                    );
             } else {
                 result =
-                    result + power(T::from(2), current_level) * bdd_count(dd, ss, fnode.edge(1), cache);
+                    result + doubled(bdd_count(dd, ss, fnode.edge(1), cache), current_level);
             }
             result
         }
-- 
2.43.0


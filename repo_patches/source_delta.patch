From 9a0c0a9798072b8d6dfb0a0f6a39db73091bfad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 01/13] verification hooks behind cfg(vp_hooks): Clone/Debug
 derives, wrappers of internal math

---
 src/data_structure/fenwick_tree.rs |  1 +
 src/data_structure/lazy_segtree.rs |  1 +
 src/data_structure/min_heap.rs     |  1 +
 src/data_structure/segtree.rs      |  1 +
 src/data_structure/union_find.rs   |  1 +
 src/graph/bipartite_matching.rs    |  1 +
 src/graph/max_flow.rs              |  2 ++
 src/lib.rs                         |  2 ++
 src/math/internal_math.rs          | 24 ++++++++++++++++++++++++
 9 files changed, 34 insertions(+)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..0b28b58 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -1,3 +1,4 @@
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 pub struct FenwickTree<T> {
     n: usize,
     ary: Vec<T>,
diff --git a/src/data_structure/lazy_segtree.rs b/src/data_structure/lazy_segtree.rs
index 9e0d34d..9c88d6c 100644
--- a/src/data_structure/lazy_segtree.rs
+++ b/src/data_structure/lazy_segtree.rs
@@ -248,6 +248,7 @@ impl<F: MapMonoid> LazySegtree<F> {
 /// Lazy segment tree using [ac-library-rs](https://github.com/rust-lang-ja/ac-library-rs)'s implementation.
 /// See [this](https://atcoder.github.io/ac-library/production/document_en/lazysegtree.html) for the mathmatical 
 /// definition of functions that you need to implement.
+#[cfg_attr(vp_hooks, derive(Clone))]
 pub struct LazySegtree<F>
 where
     F: MapMonoid,
diff --git a/src/data_structure/min_heap.rs b/src/data_structure/min_heap.rs
index d3a227f..3bc0db6 100644
--- a/src/data_structure/min_heap.rs
+++ b/src/data_structure/min_heap.rs
@@ -1,6 +1,7 @@
 use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 #[derive(Debug)]
+#[cfg_attr(vp_hooks, derive(Clone))]
 pub struct MinHeap<T>(BinaryHeap<Reverse<T>>);
 
 impl<T> MinHeap<T>
diff --git a/src/data_structure/segtree.rs b/src/data_structure/segtree.rs
index 3766e1b..1386925 100644
--- a/src/data_structure/segtree.rs
+++ b/src/data_structure/segtree.rs
@@ -170,6 +170,7 @@ impl<M: Monoid> Segtree<M> {
 /// Segment tree using [ac-library-rs](https://github.com/rust-lang-ja/ac-library-rs)'s implementation.
 /// See [this](https://atcoder.github.io/ac-library/production/document_en/segtree.html) for the mathmatical 
 /// definition of functions that you need to implement.
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 pub struct Segtree<M>
 where
     M: Monoid,
diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..2ccce23 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -1,3 +1,4 @@
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 pub struct UnionFind {
     n: usize,
     fa: Vec<usize>,
diff --git a/src/graph/bipartite_matching.rs b/src/graph/bipartite_matching.rs
index 38a6da9..9d7a5ed 100644
--- a/src/graph/bipartite_matching.rs
+++ b/src/graph/bipartite_matching.rs
@@ -1,3 +1,4 @@
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 pub struct AugmentedPath {
     g: Vec<Vec<usize>>,
     l: Vec<Option<usize>>,
diff --git a/src/graph/max_flow.rs b/src/graph/max_flow.rs
index 7001ed3..84396c0 100644
--- a/src/graph/max_flow.rs
+++ b/src/graph/max_flow.rs
@@ -2,10 +2,12 @@ use std::collections::VecDeque;
 
 use crate::traits::integral::Integral;
 
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 struct Edge<Cap> {
     to: usize,
     cap: Cap,
 }
+#[cfg_attr(vp_hooks, derive(Clone, Debug))]
 pub struct Dinic<Cap> {
     n: usize,
     e: Vec<Edge<Cap>>,
diff --git a/src/lib.rs b/src/lib.rs
index 07fd55b..b087804 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+// The verification harness builds with `--cfg vp_hooks`; see the cfg_attr derives.
+#![allow(unexpected_cfgs)]
 pub mod data_structure;
 pub mod string;
 pub mod misc;
diff --git a/src/math/internal_math.rs b/src/math/internal_math.rs
index 8d752c4..f882cc3 100644
--- a/src/math/internal_math.rs
+++ b/src/math/internal_math.rs
@@ -235,6 +235,30 @@ pub(crate) fn primitive_root(m: i32) -> i32 {
 // omitted
 // template <int m> constexpr int primitive_root = primitive_root_constexpr(m);
 
+/// Public entry points to the crate-internal functions, for the verification harness only.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub fn safe_mod(x: i64, m: i64) -> i64 {
+        super::safe_mod(x, m)
+    }
+    pub fn pow_mod(x: i64, n: i64, m: i32) -> i64 {
+        super::pow_mod(x, n, m)
+    }
+    pub fn is_prime(n: i32) -> bool {
+        super::is_prime(n)
+    }
+    pub fn inv_gcd(a: i64, b: i64) -> (i64, i64) {
+        super::inv_gcd(a, b)
+    }
+    pub fn primitive_root(m: i32) -> i32 {
+        super::primitive_root(m)
+    }
+    pub fn barrett_mul(m: u32, a: u32, b: u32) -> (u32, u32) {
+        let bt = super::Barrett::new(m);
+        (bt.umod(), bt.mul(a, b))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     #![allow(clippy::unreadable_literal)]
-- 
2.43.0


From 609394882f168adec86ec71ae2acc070da598a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 02/13] fix: UnionFind::join links the roots of the two sets,
 not the arguments

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index 2ccce23..06363bb 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -36,11 +36,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From 78b02dfead5773b4ea1cc787a785cfd5b4d1b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 03/13] fix: FenwickTree::partition_point on an empty tree
 returns 0 instead of panicking

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 0b28b58..cce9a6b 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -101,7 +101,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..usize::BITS - self.n.leading_zeros()).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From 38b19b36df6af816a8ce7f5de32b570eb7e0d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 04/13] fix: SparseTable::from accepts an empty slice

---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index d783c48..2fe8202 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -17,7 +17,7 @@ where
     /// Construct a sparse table from slice `v`.
     pub fn from(v: &[T], init: T, op: F) -> Self {
         let n = v.len();
-        let count = lg(n) as usize + 1;
+        let count = lg(n.max(1)) as usize + 1;
         let mut data = vec![vec![init; n]; count];
         data[0].clone_from_slice(v);
         for c in 1..count {
-- 
2.43.0


From c39ac5ab916aa64ee113a6121a4cf55c1647ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 05/13] fix: MinHeap::into_sorted_vec returns the elements in
 ascending order

---
 src/data_structure/min_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/min_heap.rs b/src/data_structure/min_heap.rs
index 3bc0db6..18ba878 100644
--- a/src/data_structure/min_heap.rs
+++ b/src/data_structure/min_heap.rs
@@ -51,6 +51,6 @@ where
     }
 
     pub fn into_sorted_vec(self) -> Vec<T> {
-        self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()
+        self.0.into_sorted_vec().into_iter().rev().map(|x| x.0).collect()
     }
 }
-- 
2.43.0


From b324128ab194c358bff4baa8e60df8b108eecf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 06/13] fix: AhoCorasick::find reports a shorter pattern ending
 at a position where no pattern is the whole state

---
 src/string/aho_corasick.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string/aho_corasick.rs b/src/string/aho_corasick.rs
index fa101d8..1724205 100644
--- a/src/string/aho_corasick.rs
+++ b/src/string/aho_corasick.rs
@@ -88,7 +88,9 @@ impl<const OFFSET: u8, const N: usize> AhoCorasick<OFFSET, N> {
             .into_iter()
             .map(|i| {
                 p = self.nodes[p].next[(text[i] - OFFSET) as usize];
-                self.nodes[p].end
+                self.nodes[p]
+                    .end
+                    .or_else(|| self.nodes[p].output.and_then(|x| self.nodes[x].end))
             })
             .collect()
     }
-- 
2.43.0


From 0f88634ee305d3f3c6491842cd9faee7ae49b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 07/13] fix: ModInt pow yields 0, not 1, when the modulus is 1

---
 src/misc/modint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..85d566e 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
-- 
2.43.0


From 36b7fcb6e4f577db3c314db5b23b34d8cbce1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 08/13] fix: the empty ModInt product yields 0, not 1, when the
 modulus is 1

---
 src/misc/modint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 85d566e..d7708a4 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5b0d56ac46e9889d18f0749b92c2c9536c3e162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 09/13] fix: lcm does not overflow when the result is
 representable

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..ad2d918 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,7 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From 512cd791e48e608da35e129e49c725df20650a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 10/13] fix: ex_crt returns a positive period for negative
 coefficients

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index ad2d918..4412fb5 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -38,7 +38,7 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
             return None;
         }
         b_ /= g;
-        m_ /= g;
+        m_ /= g.abs();
         x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
         lcm *= m_;
     }
-- 
2.43.0


From 16d8a9a4e3e1cb60b539465f7e9e08518c41eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 11/13] fix: ex_crt does not overflow when the period exceeds
 half the i64 range

---
 src/math/number_theory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 4412fb5..c158291 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -42,6 +42,8 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
         x += lcm * (y as i128 * b_ as i128 % m_ as i128) as i64;
         lcm *= m_;
     }
-    x = (x + lcm) % lcm;
+    if x < 0 {
+        x += lcm;
+    }
     Some((x, lcm))
 }
-- 
2.43.0


From ad32380d765115ee626acc958fe76f0a0a4ffbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 12/13] fix: de! finds its helper macro when it is the only
 name imported

---
 src/misc/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..7441986 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -18,7 +18,7 @@ macro_rules! de {
     };
     ($($val:expr),+ $(,)?) => {
         eprint!("#{}", line!());
-        ($(debug_single!($val)),+,);
+        ($($crate::debug_single!($val)),+,);
         eprintln!();
     };
 }
-- 
2.43.0


From a864b13b0dcbbfaf3668058913fa8a2966042d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 13/13] fix: de! without arguments is accepted in release
 builds too

---
 src/misc/debug.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index 7441986..c0e4ca3 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -26,5 +26,6 @@ macro_rules! de {
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
+    () => { };
     ($($val:expr),+ $(,)?) => { };
 }
-- 
2.43.0


From 402be4bb9b54baed72a1c4d66a283f610bd6a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 1/4] fix: mark only variables with a nonzero net coefficient
 as dense when proving

Terms of a linear combination can cancel out. The generator drops query
elements of variables whose polynomial is zero, but the prover counted every
term, so proofs for such circuits failed or were invalid.
---
 groth16/src/prover.rs | 63 +++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..099fc19 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -18,8 +18,8 @@ use bellman::multicore::Worker;
 
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
-    mut input_density: Option<&mut DensityTracker>,
-    mut aux_density: Option<&mut DensityTracker>,
+    input_density: Option<&mut DensityTracker>,
+    aux_density: Option<&mut DensityTracker>,
     input_assignment: &[S],
     aux_assignment: &[S],
 ) -> S {
@@ -30,18 +30,8 @@ fn eval<S: PrimeField>(
 
         if !coeff.is_zero_vartime() {
             match index.get_unchecked() {
-                Index::Input(i) => {
-                    tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
-                    }
-                }
-                Index::Aux(i) => {
-                    tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
-                    }
-                }
+                Index::Input(i) => tmp = input_assignment[i],
+                Index::Aux(i) => tmp = aux_assignment[i],
             }
 
             if coeff != S::ONE {
@@ -51,9 +41,54 @@ fn eval<S: PrimeField>(
         }
     }
 
+    if let Some(density) = input_density {
+        track_density(density, lc, |index| match index {
+            Index::Input(i) => Some(i),
+            Index::Aux(_) => None,
+        });
+    }
+    if let Some(density) = aux_density {
+        track_density(density, lc, |index| match index {
+            Index::Input(_) => None,
+            Index::Aux(i) => Some(i),
+        });
+    }
+
     acc
 }
 
+/// Marks the variables that have a nonzero coefficient in `lc`.
+///
+/// A variable can appear in several terms, and these can cancel out. Such a variable
+/// contributes nothing to its query polynomial, so the parameters might not have an
+/// element for it, and it must not be counted here.
+fn track_density<S: PrimeField>(
+    density: &mut DensityTracker,
+    lc: &LinearCombination<S>,
+    select: impl Fn(Index) -> Option<usize>,
+) {
+    let mut terms: Vec<(usize, S)> = lc
+        .as_ref()
+        .iter()
+        .filter_map(|(index, coeff)| select(index.get_unchecked()).map(|i| (i, *coeff)))
+        .collect();
+    terms.sort_by_key(|&(i, _)| i);
+
+    let mut terms = terms.into_iter().peekable();
+    while let Some((i, mut coeff)) = terms.next() {
+        while let Some(&(j, other)) = terms.peek() {
+            if j != i {
+                break;
+            }
+            coeff += other;
+            terms.next();
+        }
+        if !coeff.is_zero_vartime() {
+            density.inc(i);
+        }
+    }
+}
+
 struct ProvingAssignment<S: PrimeField> {
     // Density of queries
     a_aux_density: DensityTracker,
-- 
2.43.0


From d902dd235c3bacb38c58bb2c993c188e89fcc06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 2/4] fix: do not abort when a Waiter is dropped before its
 computation ends

Sending the result failed and panicked inside the thread pool, which aborts
the process, for example when create_proof returns early with an error.
---
 src/multicore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..1c6881e 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,15 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The receiver is gone if the caller dropped its `Waiter`.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The receiver is gone if the caller dropped its `Waiter`.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From ace06b0e5128febed0e174ee5b12d719cfd68345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 3/4] fix: never pass a zero chunk size to a single-threaded
 scope

Callers hand it to chunks(), which panics on zero, so key generation failed
without the multicore feature for circuits without auxiliary variables.
---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index 1c6881e..07b38ef 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -170,7 +170,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // As in the multicore implementation, the chunk size is never zero.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0


From f0e9b945dd1140a1208de4fa322cd79c132ea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 4/4] fix: addmany of constant bits must not depend on the
 witness

The bits of a word can all be constants although its value is unknown: a shift
or the choice function may drop the bits that are not. Adding such words gave
a constant when the witness was present and allocated variables when it was
absent, so that keys did not match the circuit that was proved.
---
 src/gadgets/uint32.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index af4d634..8a57343 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -332,8 +332,14 @@ impl UInt32 {
 
         // Iterate over the operands
         for op in operands {
-            // Accumulate the value
-            match op.value {
+            // Accumulate the value. The bits of an operand can all be constants
+            // even if it was computed from words with unknown values.
+            let op_value = op.value.or_else(|| {
+                op.bits.iter().rev().try_fold(0u32, |acc, bit| {
+                    Some((acc << 1) | u32::from(bit.get_value()?))
+                })
+            });
+            match op_value {
                 Some(val) => {
                     if let Some(v) = result_value.as_mut() {
                         *v += u64::from(val);
-- 
2.43.0


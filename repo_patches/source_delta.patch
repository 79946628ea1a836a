From deefadd57e133262bb3f6b5c2c755e9eed6f81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 1/8] fix: plonky3 fields reject out-of-range numbers in
 from_str_radix

---
 number/src/plonky3_macros.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 0b0169f..052f063 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -100,9 +100,13 @@ macro_rules! powdr_field_plonky3 {
             }
 
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
-                u32::from_str_radix(s, radix)
-                    .map(Self::from_canonical_u32)
-                    .map_err(|e| e.to_string())
+                let n = u32::from_str_radix(s, radix).map_err(|e| e.to_string())?;
+                let p: u32 = <$p3_type>::order().try_into().unwrap();
+                if n < p {
+                    Ok(Self::from_canonical_u32(n))
+                } else {
+                    Err(format!("Number \"{s}\" too large for the field."))
+                }
             }
 
             fn checked_from(value: ibig::UBig) -> Option<Self> {
-- 
2.43.0


From aecbba15ca7caea0c76e0b259009bda581adb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 2/8] fix: deserialized Goldilocks elements are canonical

---
 number/src/goldilocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/number/src/goldilocks.rs b/number/src/goldilocks.rs
index 47a5259..0366464 100644
--- a/number/src/goldilocks.rs
+++ b/number/src/goldilocks.rs
@@ -36,6 +36,7 @@ const EPSILON: u64 = (1 << 32) - 1;
     JsonSchema,
     derive_more::Display,
 )]
+#[serde(from = "u64")]
 #[repr(transparent)]
 pub struct GoldilocksField(u64);
 
-- 
2.43.0


From 64b7166916c7e754d4cccb5e070ad214df7ef0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 3/8] fix: deterministic order of combined range constraints

---
 constraint-solver/src/algebraic_constraint/solve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/constraint-solver/src/algebraic_constraint/solve.rs b/constraint-solver/src/algebraic_constraint/solve.rs
index dd48c4d..e9c30cd 100644
--- a/constraint-solver/src/algebraic_constraint/solve.rs
+++ b/constraint-solver/src/algebraic_constraint/solve.rs
@@ -356,6 +356,8 @@ fn combine_range_constraints<T: FieldElement, V: Ord + Clone + Eq + Hash + Displ
                 && rc.size_estimate() <= 2.into();
             Some((v, rc, complete))
         })
+        // The order of a hash map is not deterministic.
+        .sorted_by(|(v1, _, _), (v2, _, _)| v1.cmp(v2))
         .collect_vec();
     // The completeness is tricky, but if there is just a single left effect
     // and a single right effect and the final range constraint is complete,
-- 
2.43.0


From 2ba442e4cbca938d17b48514f7e3a85e907bc8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 4/8] fix: linearizer keeps a deterministic variable when
 substitutions collide

---
 constraint-solver/src/solver/linearizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/solver/linearizer.rs b/constraint-solver/src/solver/linearizer.rs
index 61c8809..f7c1df6 100644
--- a/constraint-solver/src/solver/linearizer.rs
+++ b/constraint-solver/src/solver/linearizer.rs
@@ -165,7 +165,9 @@ impl<T: FieldElement, V: Clone + Eq + Ord + Hash> Linearizer<T, V> {
         if assignments.is_empty() {
             return;
         }
-        let (exprs, vars): (Vec<_>, Vec<_>) = self.substitutions.drain().unzip();
+        // Different expressions can become equal, so make sure that the one that
+        // is kept does not depend on the order of the hash map.
+        let (exprs, vars): (Vec<_>, Vec<_>) = self.substitutions.drain().sorted().unzip();
         let exprs = apply_substitutions_to_expressions(exprs, assignments.iter().cloned());
         let vars = apply_substitutions_to_expressions(vars, assignments.iter().cloned());
         self.substitutions = exprs.into_iter().zip_eq(vars).collect();
-- 
2.43.0


From f614938064abc378ca1470fdcaae29f83eb22a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 5/8] fix: filter empirical ranges by their column, not their
 position

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From 3e3f8d70c72cf8c9ed95ba9664d1d2bcb3ec3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 6/8] fix: deterministic empirical equivalence constraints

---
 autoprecompiles/src/empirical_constraints.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 8526a03..a83c278 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -341,7 +341,15 @@ impl<'a, A: Adapter> ConstraintGenerator<'a, A> {
     fn equivalence_constraints(&self) -> Vec<EqualityConstraint<A::PowdrField>> {
         let mut constraints = Vec::new();
 
-        for equivalence_class in self.empirical_constraints.equivalence_classes.to_classes() {
+        // The partition does not define an order, so sort to keep the output deterministic.
+        let equivalence_classes = self
+            .empirical_constraints
+            .equivalence_classes
+            .to_classes()
+            .into_iter()
+            .map(|class| class.into_iter().sorted().collect_vec())
+            .sorted();
+        for equivalence_class in equivalence_classes {
             let first = equivalence_class.first().unwrap();
             let first_ref = self.get_algebraic_reference(first);
             for other in equivalence_class.iter().skip(1) {
-- 
2.43.0


From 2be662c6015fd296cf2aa357a0e1c7b55f7ac12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:44 +0000
Subject: [PATCH 7/8] fix: XOR lookup with a known non-byte operand violates
 the bus rules

---
 openvm-bus-interaction-handler/src/bitwise_lookup.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/bitwise_lookup.rs b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
index f957f63..548aec8 100644
--- a/openvm-bus-interaction-handler/src/bitwise_lookup.rs
+++ b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
@@ -30,8 +30,12 @@ pub fn handle_bitwise_lookup<T: FieldElement>(
         ],
         // z = x ^ y
         Some(1) => {
-            if let (Some(x), Some(y)) = (x.try_to_single_value(), y.try_to_single_value()) {
-                // Both inputs are known, can compute result concretely
+            let known_byte = |rc: &RangeConstraint<T>| {
+                rc.try_to_single_value()
+                    .filter(|v| byte_constraint().allows_value(*v))
+            };
+            if let (Some(x), Some(y)) = (known_byte(x), known_byte(y)) {
+                // Both inputs are known bytes, can compute result concretely
                 let z = T::from(
                     x.to_integer().try_into_u64().unwrap() ^ y.to_integer().try_into_u64().unwrap(),
                 );
-- 
2.43.0


From 43282d39de13d6dc1f7d016e5a8e230b8064af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:34 +0000
Subject: [PATCH 8/8] fix: resolve AUIPC+JALR jump targets of rv64 binaries

---
 riscv-elf/src/rv64.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/riscv-elf/src/rv64.rs b/riscv-elf/src/rv64.rs
index 1800866..f04af1d 100644
--- a/riscv-elf/src/rv64.rs
+++ b/riscv-elf/src/rv64.rs
@@ -136,13 +136,13 @@ fn scan_for_jump_targets(
                 .decode(Isa::Rv64)
                 .expect("Failed to decode instruction")
         })
-        // Remember the `rs1` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
+        // Remember the `rd` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
         .scan(None, |previous_if_auipc, insn| {
-            let previous_auipc_rs1 = std::mem::replace(
+            let previous_auipc = std::mem::replace(
                 previous_if_auipc,
-                matches!(insn.opc, Op::AUIPC).then_some((insn.rs1, insn.imm)),
+                matches!(insn.opc, Op::AUIPC).then_some((insn.rd, insn.imm)),
             );
-            Some((insn, previous_auipc_rs1))
+            Some((insn, previous_auipc))
         })
         .enumerate()
         .for_each(|(instruction_index, (insn, previous_if_auipc))| {
@@ -205,13 +205,15 @@ fn scan_for_jump_targets(
                     }
                 }
                 Op::JALR => {
-                    if let Some((rs1, imm)) = previous_if_auipc {
+                    if let Some((auipc_rd, imm)) = previous_if_auipc {
                         // JALR with a preceding AUIPC
-                        if insn.rd == rs1 {
+                        if insn.rs1 == auipc_rd {
                             // This is an AUIPC+JALR pair, we can resolve it statically
                             if let (Some(auipc_imm), Some(jalr_imm)) = (imm, insn.imm) {
+                                // AUIPC is relative to its own address.
+                                let auipc_addr = addr - 4;
                                 let target =
-                                    (addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
+                                    (auipc_addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
                                 jumpdests.insert(target);
 
                                 // Track non-symbol jumpdests
-- 
2.43.0


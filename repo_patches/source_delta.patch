From 4cb1fc61e39a1475ba06e072bf5bc31f34d63c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 01/11] verif: re-export private modules behind cfg(zok_verif)

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index af37987..0ccc875 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,3 +82,15 @@ pub trait PIL<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng> {
         vanishing_polynomial: &DensePolynomial<F>,
     ) -> Result<(), Error<PC::Error>>;
 }
+
+/// Re-exports of private modules for external verification harnesses,
+/// compiled only with `--cfg zok_verif`.
+#[cfg(zok_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::mock_prover::{MockProof, MockProver};
+    pub use crate::turbo_plonk::{TPProof, TurboPlonk};
+    pub use crate::util::{
+        compute_vanishing_poly_over_coset, evaluate_query_set,
+    };
+}
-- 
2.43.0


From 3cb4e9f53570165eb3cf6b867312a20be2633c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 02/11] fix: size the extended domain for the quotient's degree
 + 1 coefficients

A quotient of degree d has d + 1 coefficients; a domain of size d loses the
leading one and honest proofs are rejected.  Constraint systems of degree
below the vanishing polynomial now return QuotientTooSmall instead of
underflowing.
---
 src/indexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..ba18bf6 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        Ok(max_degree.saturating_sub(z_h_degree))
     }
 
     fn compute_zh_evals(
@@ -175,8 +175,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         )?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
+        // a quotient of degree d is determined by d + 1 evaluations
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From 1add0b163a84c877629358e2f375421be1f5ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:40 +0000
Subject: [PATCH 03/11] fix: fourth wire of PlonkArith4 is its own witness
 column

The d wire aliased wire c and was missing from the returned queries.
---
 src/vo/precompiled/plonk_arith.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..7de6c78 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d])
     }
 }
 
-- 
2.43.0


From f5fde1f4eaac91b6607648dc05c5e43fad461905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:53 +0000
Subject: [PATCH 04/11] fix: open copy-constrained witness columns at the
 current row

The permutation argument evaluates every included column at x; a column no
gate queries there made the verifier fail with MissingConcreteEval.
---
 src/oracles/witness.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oracles/witness.rs b/src/oracles/witness.rs
index 2d58f49..516a174 100644
--- a/src/oracles/witness.rs
+++ b/src/oracles/witness.rs
@@ -27,6 +27,15 @@ pub struct WitnessProverOracle<F: PrimeField> {
     pub(crate) should_permute: bool,
 }
 
+/// The permutation argument opens every oracle it includes at x
+fn rotations_for_copy(should_permute: bool) -> BTreeSet<Rotation> {
+    if should_permute {
+        BTreeSet::from([Rotation::curr()])
+    } else {
+        BTreeSet::new()
+    }
+}
+
 impl<F: PrimeField> WitnessProverOracle<F> {
     /// Creates a new WitnessProverOracle
     pub fn new(
@@ -40,7 +49,7 @@ impl<F: PrimeField> WitnessProverOracle<F> {
             poly,
             evals: evals.to_vec(),
             evals_at_coset_of_extended_domain: None,
-            queried_rotations: BTreeSet::new(),
+            queried_rotations: rotations_for_copy(should_permute),
             should_permute,
         }
     }
@@ -120,7 +129,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> WitnessVerifierOracle<F, PC> {
         Self {
             label: label.into(),
             evals_at_challenges: BTreeMap::new(),
-            queried_rotations: BTreeSet::new(),
+            queried_rotations: rotations_for_copy(should_permute),
             commitment: None,
             should_permute,
         }
-- 
2.43.0


From 9640c3974450b864c9972a0bca48493bf16d0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:55 +0000
Subject: [PATCH 05/11] fix: reject a multi-open proof that does not cover
 every opening set

---
 src/multiproof/piop/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..cf46bef 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -165,6 +165,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // Every opening set must be covered by the proof
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::OpeningCheckFailed);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From 60c6e7d26493ecb9837e3ea49c81785f8ab6334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 06/11] fix: bind the claimed evaluations to the transcript
 before batching them

---
 src/turbo_plonk.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..2d77f99 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -505,6 +505,22 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        // Bind the claimed evaluations before the multiopen challenges are drawn
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                permutation_oracle_evals,
+                q_blind_eval,
+                lookup_evals,
+                lookup_z_evals,
+                z_evals,
+                quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1267,6 +1283,22 @@ where
 
         oracles.extend_from_slice(preprocessed_oracles.as_slice());
 
+        // Bind the claimed evaluations before the multiopen challenges are drawn
+        fs_rng.absorb(
+            &to_bytes![
+                proof.witness_evals,
+                proof.fixed_oracle_evals,
+                proof.table_oracle_evals,
+                proof.permutation_oracle_evals,
+                proof.q_blind_eval,
+                proof.lookup_evals,
+                proof.lookup_z_evals,
+                proof.z_evals,
+                proof.quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         Multiopen::<F, PC, FS>::verify(
             &vk.verifier_key,
             proof.multiopen_proof,
-- 
2.43.0


From 902ddf99af382bbdeb7effc26eeb236fa6a968b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 07/11] fix: bind the public inputs to the transcript

---
 src/turbo_plonk.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 2d77f99..7b0e61a 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,12 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // Bind the public inputs to the transcript
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -704,7 +709,12 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // Bind the public inputs to the transcript
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
-- 
2.43.0


From 3c287940dc7739a563be2cb776fdc7874f00e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 08/11] fix: always open the permutation and blinding selectors
 at the evaluation challenge

---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..f5a32d3 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -80,7 +81,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
+        // permutation oracles and q_blind are always opened at the evaluation challenge
         for oracle in permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 7b0e61a..386de75 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -905,6 +905,7 @@ where
             .iter_mut()
             .zip(proof.permutation_oracle_evals.iter())
         {
+            sigma.register_rotation(Rotation::curr());
             sigma.register_eval_at_challenge(verifier_second_msg.xi, eval);
         }
 
@@ -1101,6 +1102,7 @@ where
             };
         }
 
+        preprocessed.q_blind.register_rotation(Rotation::curr());
         preprocessed.q_blind.register_eval_at_challenge(
             verifier_second_msg.xi,
             proof.q_blind_eval,
-- 
2.43.0


From c9073de0538d12215a687effa375166ac9c21b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 09/11] fix: lookup verifier evaluates instance and fixed
 queries at their rotation

---
 src/lookup/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..434f6fa 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -450,6 +450,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Instance => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match instance_oracles_mapping.get(&query.label) {
                             Some(index) => instance_oracles[*index]
                                 .query(&evaluation_challenge),
@@ -459,6 +464,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Fixed => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match fixed_oracles_mapping.get(&query.label) {
                             Some(index) => fixed_oracles[*index]
                                 .query(&evaluation_challenge),
-- 
2.43.0


From 67a0c87e5b5596cbdd903fe66b09a9049b07fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 10/11] fix: size the extended domain for grand products when
 the vanishing polynomial skips rows

---
 src/indexer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index ba18bf6..b7371ce 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -195,10 +195,18 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
-            max(
+            let mut scaling_factor = max(
                 scaling_factor,
                 PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
-            )
+            );
+            // a grand product over scaling_factor - 1 oracles has degree (scaling_factor + 1)(n - 1),
+            // which leaves a bigger quotient when z_h skips rows
+            while (scaling_factor + 1) * (domain.size() - 1)
+                >= scaling_factor * domain.size() + z_h.degree()
+            {
+                scaling_factor *= 2;
+            }
+            scaling_factor
         } else {
             scaling_factor
         };
-- 
2.43.0


From d198bd2af1b4c1282004fcc0ec6f6669bb52848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 11/11] fix: require a commitment for every witness oracle in
 the proof

The verifier registered the witness commitments of a proof by zipping them with
its oracles, so a proof that leaves commitments out left the oracles with what an
earlier proof put there, commitments the transcript of this proof never bound.
---
 src/turbo_plonk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 386de75..d99fa28 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -793,6 +793,10 @@ where
                 &mut fs_rng,
             );
 
+        // Every witness oracle must be committed to in this proof, commitments
+        // left from a previously verified proof are not bound to its transcript
+        assert_eq!(witness_oracles.len(), proof.witness_commitments.len());
+
         // Map evals to each oracle
         for (witness_oracle, commitment) in witness_oracles
             .iter_mut()
-- 
2.43.0


From f0eeefff1434933b22e7cf3d9f739d32fe626ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/31] fix: bulletproofs: sum repeated terms of a variable in
 a linear combination

A linear combination may hold several terms for the same variable; only the
last coefficient was kept when the full matrices were built, so the proof was
for a different circuit.
---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From 3b93619e72942d6e563d47c901f98440d6bb71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 02/31] fix: bulletproofs: bind the inner product argument to
 l(x), r(x) and t(x)

The verifier accepted any commitment supplied as IPP_P, so the relation
t(x) = <l(x), r(x)> was never checked and false statements could be proved.
---
 bulletproofs/src/arithmetic_circuit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..2750fc5 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -799,6 +799,14 @@ pub fn verify_proof<G: Curve>(
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // the inner product argument must be about exactly l_x, r_x and t_x
+    let ipp_p: G::Projective = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if ipp_p != proof.IPP_P.into_projective() {
+        return Ok(false);
+    }
+
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
-- 
2.43.0


From 8ea46cda8329cdf953aac61ff91b370e754f31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/31] fix: bulletproofs: reject proofs whose length or final
 equation is wrong instead of accepting or panicking

---
 bulletproofs/src/arithmetic_circuit.rs  |  4 +++-
 bulletproofs/src/inner_product_proof.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 2750fc5..f75db79 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -836,7 +836,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..5eb6471 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -119,8 +119,14 @@ pub fn verify<G: Curve>(
     proof: &Proof<G>,
 ) -> bool {
     let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    let n = g_vec.len();
+    if h_vec.len() != n
+        || proof.R_vec.len() != lg_n
+        || !n.is_power_of_two()
+        || n.trailing_zeros() as usize != lg_n
+    {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From 0474e97a78f7b05b6e56a6869b069e32a0c69435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/31] fix: spartan: check that the NIZK evaluation points are
 the verifier's challenges

---
 spartan/src/verify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..a2ef334 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -39,7 +39,7 @@ pub fn verify_nizk_proof<G: Curve>(
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, rx_verify, ry_verify) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +48,8 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // the matrices must have been evaluated at the verifier's own challenge points.
+    Ok(result && *rx == rx_verify && *ry == ry_verify)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 4c0e75739ad4ba68a924f0e304121498aef2e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 05/31] fix: spartan: index the public inputs before dropping
 zeros

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From 920192b8ccee53002e25631f3acc40143c614528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 06/31] fix: spartan: do not send the evaluation of the witness
 polynomial in the clear

---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From 49ffa6b026d05e5f12eaf02db4157d26abed4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 07/31] fix: libra, hyrax: pad witnesses and inputs of the
 input layer by their own lengths

---
 hyrax/src/circuit.rs | 4 ++--
 libra/src/circuit.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From 7e564588371095fa57053e883cdc612b2970d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 08/31] fix: libra: check the claimed wiring predicates against
 the circuit in the linear GKR verifier

---
 libra/src/libra_linear_gkr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..5117664 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -122,11 +122,12 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu_vec) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gv_vec = vec![G::Fr::zero(); gu_vec.len()];
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -178,6 +179,14 @@ impl<G: Curve> LinearGKRProof<G> {
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            // the claimed wiring predicates must be those of the circuit.
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            if eval_rv_final[1] != mult_gate_eval || eval_rv_final[2] != add_gate_eval {
+                return false;
+            }
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From 8fdbfb124f3a5d05386504c2c654ee5cc2f4f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 09/31] fix: hyrax: use a separate blinder for every round
 evaluation when layer sizes differ

---
 hyrax/src/zk_sumcheck_proof.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..6522a7a 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From d2cfa9a25b527fbbb5d4cb23902967a7ffa39da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 10/31] fix: hyrax: bind the sumcheck to the claimed outputs
 and the previous layer

---
 hyrax/src/zk_sumcheck_proof.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 6522a7a..d416275 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -629,6 +629,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        // the sumcheck has to start from the verifier's own claim.
+        assert!(self.comm_a0 == comm_claim);
+
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
-- 
2.43.0


From 18e719f5949d7e25fc39373c12ac8fecf989ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 11/31] fix: libra, hyrax: pad the committed witness to the
 size of the input layer

---
 hyrax/src/hyrax_proof.rs         | 6 ++++--
 libra/src/libra_zk_linear_gkr.rs | 7 +++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..2f2106b 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,13 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut witness_vec = Vec::new();
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); input_size - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -282,12 +283,13 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut input_vec = Vec::new();
         for i in 0..n {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); input_size - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..8f54be4 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -58,6 +58,13 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        // the committed witness fills the first half of the input layer.
+        let mut witnesses = witnesses.clone();
+        witnesses.extend(vec![
+            G::Fr::zero();
+            2usize.pow(circuit.layers[0].bit_size as u32 - 1)
+                - witnesses.len()
+        ]);
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
             &witnesses,
-- 
2.43.0


From d2e5c6768d4da94ed6f98906aa49fa60d8376b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/31] fix: libra, hyrax: dot product proof: absorb delta and
 beta, use the sum of the products

---
 hyrax/src/commitment.rs | 8 ++++----
 libra/src/commitment.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..462194e 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -248,16 +248,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -310,7 +310,7 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..6685573 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -246,16 +246,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -308,7 +308,7 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-- 
2.43.0


From 039cfcf5ec60e7a0f5b7be6f710d5c0f6a22070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 13/31] fix: poseidon, rescue: enforce the permutation the
 native hash computes

The circuit raised every state element to a power starting from zero, left the MDS
entries and the capacity element unconstrained, exposed a value different from the
hash, and hash_enforce returned an output unrelated to its inputs.
---
 gadgets/src/hashes/poseidon.rs | 123 ++++++++++++++++++---------------
 gadgets/src/hashes/rescue.rs   | 113 ++++++++++++++++++------------
 2 files changed, 139 insertions(+), 97 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..fc5e663 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -627,11 +627,37 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let cs = &mut cs.ns(|| "Preassign");
+    let (output_value, var_output) =
+        poseidon_block_enforce(&mut *cs, (xl, var_xl), (xr, var_xr), &constants)?;
+
+    let output = cs.alloc_input(|| "output", || Ok(output_value))?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var_output,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// the constraints of one `poseidon_block`, returning the value and the variable of its output.
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    xl: (F, Variable),
+    xr: (F, Variable),
+    constants: &PoseidonConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+    let mut state_value = [xl.0, xr.0, three];
+    let mut state = [xl.1, xr.1, var_three];
 
     for i in 0..POSEIDON_ROUNDS {
         let cs = &mut cs.ns(|| format!("round_{}", i));
@@ -668,37 +694,21 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
         // Mix Layer
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                let mut t2 = constants.mds[j][k];
+                t2.mul_assign(&state_value[k]);
+                tmp2_value[j].add_assign(&t2);
             }
+            let tmp2_j = cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?;
+            cs.enforce(
+                || format!("tmp2_{} = sum of mds[{}][k] * state[k]", j, j),
+                |lc| (0..M).fold(lc, |lc, k| lc + (constants.mds[j][k], state[k])),
+                |lc| lc + CS::one(),
+                |lc| lc + tmp2_j,
+            );
+            tmp2.push(tmp2_j);
         }
         for j in 0..M {
             state[j] = tmp2[j];
@@ -706,15 +716,7 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         }
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -724,8 +726,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -763,7 +765,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -820,19 +822,32 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        let h_value = F::zero();
+        let h_variable = cs.alloc(|| "poseidon_init", || Ok(h_value))?;
+        cs.enforce(
+            || "poseidon_init = 0",
+            |lc| lc + h_variable,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
+        let mut h = (h_value, h_variable);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            h = poseidon_block_enforce(
+                cs.ns(|| format!("poseidon_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        Ok(AbstractHashPoseidonOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..c7f1524 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -409,11 +409,37 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let cs = &mut cs.ns(|| "Preassign");
+    let (output_value, var_output) =
+        rescue_block_enforce(&mut *cs, (xl, var_xl), (xr, var_xr), &constants)?;
+
+    let output = cs.alloc_input(|| "output", || Ok(output_value))?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var_output,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// the constraints of one `rescue_block`, returning the value and the variable of its output.
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    xl: (F, Variable),
+    xr: (F, Variable),
+    constants: &RescueConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
-    let mut state_value = [xl, xr, three];
-    let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+    let mut state_value = [xl.0, xr.0, three];
+    let mut state = [xl.1, xr.1, var_three];
     for i in 0..M {
         state_value[i] += constants.constants[0][i];
         let tmp_value = state_value[i];
@@ -440,27 +466,21 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state[j] = tuple.1;
         }
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                let mut t2 = constants.mds[j][k];
+                t2.mul_assign(&state_value[k]);
+                tmp2_value[j].add_assign(&t2);
             }
+            let tmp2_j = cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?;
+            cs.enforce(
+                || format!("tmp2_{} = sum of mds[{}][k] * state[k]", j, j),
+                |lc| (0..M).fold(lc, |lc, k| lc + (constants.mds[j][k], state[k])),
+                |lc| lc + CS::one(),
+                |lc| lc + tmp2_j,
+            );
+            tmp2.push(tmp2_j);
         }
         for j in 0..M {
             tmp2_value[j].add_assign(constants.constants[i + 1][j]);
@@ -476,14 +496,8 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state_value[j] = tmp5_value;
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -493,8 +507,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -532,7 +546,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -589,19 +603,32 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        let h_value = F::zero();
+        let h_variable = cs.alloc(|| "rescue_init", || Ok(h_value))?;
+        cs.enforce(
+            || "rescue_init = 0",
+            |lc| lc + h_variable,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
+        let mut h = (h_value, h_variable);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            h = rescue_block_enforce(
+                cs.ns(|| format!("rescue_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        Ok(AbstractHashRescueOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From 1ba6db7554c21c450ccfb2a3bf9f9339483691a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 14/31] fix: mimc: link hash_enforce output to its inputs

---
 gadgets/src/hashes/mimc.rs | 60 ++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..0f85065 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -99,7 +99,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value, image_value) = match b {
         Some(bytes) => {
             let (xl, xr, image) = mimc_hash(bytes, &constants);
             (Some(xl), Some(xr), Some(image))
@@ -107,15 +107,30 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         None => (None, None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    mimc_block_enforce(&mut cs, (xl_value, var_xl), (xr_value, var_xr), &constants)?;
+
+    Ok(image_value)
+}
+
+/// the constraints of one `mimc_block`, returning the value and the variable of its output.
+fn mimc_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    xl: (Option<F>, Variable),
+    xr: (Option<F>, Variable),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let (mut xl_value, mut var_xl) = xl;
+    let (mut xr_value, mut var_xr) = xr;
+
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -156,7 +171,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         var_xl = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok((xl_value, var_xl))
 }
 
 /// implement AbstractHashOutput.
@@ -222,19 +237,34 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
+        let h_value = Some(F::zero());
+        let h_variable = cs.alloc(
+            || "mimc_init",
+            || h_value.ok_or(SynthesisError::AssignmentMissing),
+        )?;
+        cs.enforce(
+            || "mimc_init = 0",
+            |lc| lc + h_variable,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        let mut h = (h_value, h_variable);
+        for (i, o) in params.iter().enumerate() {
+            h = mimc_block_enforce(
+                cs.ns(|| format!("mimc_hash_{}", i)),
+                h,
+                (o.value, o.variable),
+                &constants,
+            )?;
+        }
+
+        Ok(AbstractHashMimcOutput {
+            value: h.0,
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From 7f23a429fd50078f3d3880f521facbe050bd9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 15/31] fix: sha256: link hash_enforce output bits to the
 computed digest

---
 gadgets/src/hashes/sha256.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..7d9ab8c 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,16 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var: Vec<Variable> = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            Boolean::enforce_equal(
+                cs.ns(|| format!("bit_{}_is_output", i)),
+                &Boolean::from(a),
+                b,
+            )?;
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From 5b1ceeaaa856106dc177d20451a6e854ee76e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 16/31] fix: lookup1: constrain the table entries

---
 gadgets/src/lookup/table.rs | 57 +++++++++++++------------------------
 1 file changed, 20 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..91cc992 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,26 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "lookup"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // a = c[1]; b = c[0]; c = cond;
+    //
+    // r = c * a + (1  - c) * b
+    // r = b + c * (a - b)
+    // c * (a - b) = r - b
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, F::one()),
+        |lc| lc + (c[1] - &c[0], one),
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From da086fff3888570810f214959f97200703ea21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 17/31] fix: cbmt: proofs must lead from the index exactly to
 the root

---
 gadgets/src/merkletree/cbmt.rs             | 12 ++++++++----
 gadgets/src/merkletree/cbmt_constraints.rs |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..82d8b4c 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -104,16 +104,15 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,6 +124,11 @@ where
             }
         }
 
+        // the lemmas must lead from the index exactly to the root.
+        if !index.is_root() {
+            return None;
+        }
+
         Some(parent)
     }
 
diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..9b12d8d 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -29,6 +29,9 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
         let mut lemmas_iter = self.lemmas.iter().enumerate();
         loop {
             if let Some((i, sibling)) = lemmas_iter.next() {
+                if index.is_root() {
+                    return Err(SynthesisError::Unsatisfiable);
+                }
                 let parent_variable_vec = parent.get_variables();
                 let parent_value_vec = parent.get_variable_values();
                 let sibling_variable_vec = sibling.get_variables();
@@ -94,6 +97,10 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
+        if !index.is_root() || parent.get_variables().len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
         let pre = parent
             .get_variables()
             .iter()
-- 
2.43.0


From 335cde94b51c2c3bed6c6e8082d0f82acdd77c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 18/31] fix: cbmt: leaf indices near u32::MAX have no proof

---
 gadgets/src/merkletree/cbmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 82d8b4c..c1e5a67 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,12 +34,12 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
 
+        let index = leaves_count + leaf_index - 1;
+
         let mut lemmas = Vec::new();
 
         if index == 0 {
-- 
2.43.0


From ca32814d32bb17edd94600a57c3e559a34658d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 19/31] fix: marlin: balancing the matrices overflowed when
 rows of A are longer

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From defb01b008c4c98c4b9f195d0b14917961a5bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 20/31] fix: marlin: commit to and open constant and zero
 polynomials

---
 marlin/src/pc/kzg10.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From 31d1f638c2038c96066bf9790d85661bb90a2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 21/31] fix: marlin: systems with fewer than two variables or
 matrix entries

---
 marlin/src/ahp/constraint_systems.rs | 11 +++++++++--
 marlin/src/ahp/prover.rs             |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..1d8c5de 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -8,8 +8,14 @@ use crate::{String, Vec};
 
 fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     cs: &mut CS,
-    num_formatted_variables: usize,
+    mut num_formatted_variables: usize,
 ) {
+    // the degree bound |H| - 2 needs at least two variables
+    if num_formatted_variables < 2 {
+        cs.alloc(|| "pad varible", || Ok(F::one()))
+            .expect("alloc failed");
+        num_formatted_variables += 1;
+    }
     let num_constraints = cs.num_constraints();
     let num_paddings = ((num_formatted_variables as isize) - (num_constraints as isize)).abs();
     if num_formatted_variables < num_constraints {
@@ -91,7 +97,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
         let a_density = matrix_density(&self.a_matrix.as_ref().expect("a_matrix is not None"));
         let b_density = matrix_density(&self.b_matrix.as_ref().expect("b_matrix is not None"));
         let c_density = matrix_density(&self.c_matrix.as_ref().expect("c_matrix is not None"));
-        *[a_density, b_density, c_density]
+        // the degree bound |K| - 2 needs at least two entries
+        *[a_density, b_density, c_density, 2]
             .iter()
             .max()
             .expect("density iterator is not empty")
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..58e53a1 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -375,7 +375,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
-- 
2.43.0


From 1a41b5df11f668dd5288b83857d79573df1bd2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 22/31] fix: plonk: combine the openings with randomness that
 depends on them

---
 plonk/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..c753c48 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -20,6 +20,7 @@ use std::collections::HashMap as Map;
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_serialize::CanonicalSerialize;
 
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
@@ -248,6 +249,12 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         };
 
         let pc_check = {
+            // the openings at the two points are checked in one random combination, so that
+            // its coefficients must not be known before the openings are
+            let mut openings = Vec::new();
+            proof.pc_proof.serialize(&mut openings).unwrap();
+            fs_rng.absorb(&openings);
+
             let labels: Vec<_> = vk
                 .labels
                 .iter()
@@ -282,7 +289,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From 6fe0c3093e6def7d1676fab11f912cdc274fbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 23/31] fix: plonk: commitments moved to another round are not
 accepted

---
 plonk/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index c753c48..c352ea7 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -209,6 +209,12 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // every commitment must have been sent in its own round: the ones of a later round may
+        // depend on more challenges
+        if proof.commitments.iter().map(|c| c.len()).ne(vec![4, 1, 4]) {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
-- 
2.43.0


From 747307a9c18e2514ad208534916f5b9e81084dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 24/31] fix: marlin: commitments moved to another round are not
 accepted

---
 marlin/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..5a929a3 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,12 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // every commitment must have been sent in its own round: the ones of a later round may
+    // depend on more challenges
+    if proof.commitments.iter().map(|c| c.len()).ne(vec![4, 3, 2]) {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
-- 
2.43.0


From 94660a3eb458315256aad0bfade8044a59c6b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 25/31] fix: asvc: an opening has one value per distinct
 position of the vector

---
 asvc/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..6103579 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,13 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // every position is inside the vector, given once, and has one value
+    let n = vrk_params.powers_of_g1.len() - 1;
+    let distinct = (0..points.len()).all(|i| !points[..i].contains(&points[i]));
+    if points.len() != point_values.len() || !distinct || points.iter().any(|p| *p as usize >= n) {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
-- 
2.43.0


From f7fc9964e1007d0c6b3ecd1b78af87bbb6e5a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 26/31] fix: asvc: update keys of positions outside the vector
 are not accepted

---
 asvc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index 6103579..53704d4 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -301,6 +301,10 @@ where
     E: PairingEngine,
 {
     let n = vrk_params.powers_of_g1.len() - 1;
+    // the position is inside the vector
+    if point as usize >= n {
+        return Ok(false);
+    }
     // e(a_i, g^i/g^(w^i)) = e(a,g)
     // ω^i
     let omega_i = omega.pow(&[point as u64]);
-- 
2.43.0


From eac95c0d6b23feb003012c41b071f00f9e5d2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 27/31] fix: curve25519: encoded points decode (no length
 prefix)

---
 curve25519/src/group.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..e23948a 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,8 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        Ok(writer.write_all(self.0.compress().as_bytes())?)
     }
 
     #[inline]
@@ -303,7 +303,7 @@ impl CanonicalSerialize for Curve25519Point {
 
     #[inline]
     fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+        self.serialize(writer)
     }
 
     #[inline]
-- 
2.43.0


From fccdb998d7fb6de91019af72903d4d5e31e277ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 28/31] fix: curve25519: doubling of points

---
 curve25519/src/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index e23948a..32ece00 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -126,7 +126,8 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn double_in_place(&mut self) -> &mut Self {
-        panic!("Curve double_in_place");
+        self.0 += self.0;
+        self
     }
 
     fn into_affine(&self) -> Self::Affine {
-- 
2.43.0


From 8f0395472f253e93f06e3f0f132aeaf525245ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 29/31] fix: curve25519: generator and normalization of
 projective points

---
 curve25519/src/group.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 32ece00..f4cb414 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -102,11 +102,11 @@ impl ProjectiveCurve for Curve25519Point {
     const COFACTOR: &'static [u64] = &[0, 0, 0, 0];
 
     fn prime_subgroup_generator() -> Self {
-        panic!("Curve prime_subgroup_generator");
+        <Self as AffineCurve>::prime_subgroup_generator()
     }
 
     fn batch_normalization(_v: &mut [Self]) {
-        panic!("Curve batch normalization");
+        // there is one representation only
     }
 
     fn batch_normalization_into_affine(v: &[Self]) -> crate::Vec<Self::Affine> {
@@ -116,7 +116,7 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn is_normalized(&self) -> bool {
-        panic!("Curve is_normalized");
+        true
     }
 
     fn double(&self) -> Self {
-- 
2.43.0


From d90df9064ce013081032c367d13ea564ea540479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 30/31] fix: curve25519: constants of the scalar field (half
 order, odd part, generator, root)

---
 curve25519/src/fr.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..28a047c 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885u64,
+        5516037659391044808u64,
+        15508184678381615533u64,
+        385507852950656554u64,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
+        3173121894899182070,
+        751957030100258411,
         0,
-        0
+        576460752303423488
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
+        10809932984304366843,
+        375978515050129205,
         0,
-        0
+        288230376151711744
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
+        14628338529006959229,
+        187989257525064602,
         0,
-        0
+        144115188075855872
     ]);
 }
-- 
2.43.0


From fb86cd19d77afa2df06e84d48d66970e90720dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 31/31] fix: spartan: absorb the row lengths in the digest of
 the constraint system

r1cs_to_hash hashed the entries of each matrix without saying which row they
belong to, so instances with the same entries divided differently among the
constraints had the same digest.
---
 spartan/src/r1cs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..5a06419 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -30,7 +30,7 @@ impl <G: Curve> R1CSInstance<G> {
         transcript.append_u64(b"num_constraints", self.num_constraints as u64);
     
         for matrix in self.a_matrix.iter(){
-            
+            transcript.append_u64(b"a_matrix_row_len", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -40,7 +40,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.b_matrix.iter(){
-            
+            transcript.append_u64(b"b_matrix_row_len", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -50,7 +50,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.c_matrix.iter(){
-            
+            transcript.append_u64(b"c_matrix_row_len", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0


TRUSTED = [
 "rustc / cargo (the harness executes the compiled code of /repo)",
 "verification model /verif/model: field elements that carry their computation term; groups as discrete logarithms, pairing as product of logarithms",
 "arkworks 0.2 field, FFT and polynomial code (executed, not proved); ark-ec multi-scalar multiplication replaced by its contract sum s_i*P_i for the model group only",
]
ASSUMPTIONS = [
 "model groups are prime-order cyclic groups given by discrete logarithms: curve arithmetic, point encoding and pairing implementation of the real curves are outside the contracts",
 "machine integers are the real ones (code is executed); field elements are exact elements of the BLS12-381 scalar field",
 "identities decided at a random point have error probability below 2^-200 each",
]
CHECKS = {}
def c(pid, **k):
    CHECKS[pid] = k
c("P11", features=["groth16"], verus=["g16"], level="other",
  explanation="Groth16 key generation, QAP maps, proving and verification are under Verus contracts (unit g16): for every circuit, assignment, trapdoor and pair of blinders the proof satisfies the verification equation (theorem_g16_complete), assuming prime-order groups, the multi-scalar multiplications and the FFT domain by contract. In addition: Contracts on Groth16 key generation and proving, discharged on the real code for symbolic circuits of fixed shapes: all coefficients, witnesses, toxic waste and randomness are variables; branches on field values are explored by solving the branch condition. Bounded in circuit shape only.",
  functions=["groth16::generator::generate_parameters", "groth16::generator::generate_random_parameters", "groth16::prover::create_proof", "groth16::prover::create_random_proof", "groth16::r1cs_to_qap::R1CStoQAP::*", "groth16::verifier::verify_proof"],
  require=["completeness", "key encodes exactly"])
c("P12", features=["groth16"], verus=["g16"], level="other",
  explanation="verify_proof and prepare_verifying_key are under Verus contract (unit g16) for every key, proof and number of inputs. In addition: verify_proof accepts iff the pairing equation holds, for arbitrary symbolic keys, proofs and inputs; accepting paths are reached by solving the final comparison. Bounded in the number of public inputs only.",
  functions=["groth16::verifier::verify_proof", "groth16::verifier::prepare_verifying_key"],
  require=["accepts exactly when", "wrong number"])
SHAPES = " Coefficients, assignments, keys, prover coins and messages are symbolic (variables); bounded only in the shapes (numbers of inputs, witnesses, constraints, terms) listed in the evidence."
ENG = ["completeness: the verifier accepts", "an altered proof element is rejected", "an altered public input is rejected", "no accepted proof is produced"]
c("P13", features=["bp"], verus=["bp_vec"], level="other",
  explanation="Bulletproofs arithmetic-circuit prover and verifier contracts: completeness, binding of every proof element, input, key and circuit, tightness of the verification equations." + SHAPES,
  functions=["bulletproofs::arithmetic_circuit::create_random_proof", "bulletproofs::arithmetic_circuit::verify_proof", "bulletproofs::r1cs::*"],
  require=ENG + ["tightness"])
c("P14", features=["bp"], verus=["bp_vec", "bp_ipa"], level="other",
  explanation="Inner product argument contracts: honest proofs accepted, acceptance iff the final equation holds, every message and generator bound." + SHAPES,
  functions=["bulletproofs::inner_product_proof::prove", "bulletproofs::inner_product_proof::verify"],
  require=["completeness: the verifier accepts", "an altered proof element is rejected", "tightness"])
c("P19", features=["spartan"], verus=["spartan_poly"], level="other",
  explanation="Spartan NIZK prover and verifier contracts: completeness, binding of every proof element, input, key and circuit." + SHAPES,
  functions=["spartan::prover::create_nizk_proof", "spartan::verify::verify_nizk_proof", "spartan::verify::r1cs_satisfied_verify", "spartan::polynomial::*", "spartan::inner_product::*"],
  require=ENG)
c("P20", features=["spartan"], verus=["spartan_poly"], level="other",
  explanation="Spartan SNARK prover and verifier contracts: completeness, binding of every proof element, input, key and encoding." + SHAPES,
  functions=["spartan::prover::create_snark_proof", "spartan::verify::verify_snark_proof", "spartan::verify::sparse_poly_eval_verify", "spartan::spark::*"],
  require=ENG)
c("P21", features=["libra"], verus=["libra_eval", "libra_circuit"], level="other",
  explanation="Libra linear GKR prover and verifier contracts: completeness with the reference circuit outputs, binding of every round polynomial, output, input and of the circuit." + SHAPES,
  functions=["libra::libra_linear_gkr::LinearGKRProof::{prover,verify}", "libra::sumcheck::*", "libra::circuit::*", "libra::evaluate::*"],
  require=ENG)
c("P22", features=["libra"], verus=["libra_eval", "libra_circuit"], level="other",
  explanation="Libra zero-knowledge GKR prover and verifier contracts: completeness, binding of every proof element, output, input, circuit and parameters; tightness of the verification equations." + SHAPES,
  functions=["libra::libra_zk_linear_gkr::ZKLinearGKRProof::{prover,verify}", "libra::zk_sumcheck::*", "libra::commitment::*", "libra::evaluate::*"],
  require=ENG + ["tightness"])
c("P23", features=["hyrax"], verus=["hyrax_eval", "hyrax_circuit"], level="other",
  explanation="Hyrax prover and verifier contracts: completeness, binding of every proof element, output, input, circuit and parameters; tightness of the verification equations." + SHAPES,
  functions=["hyrax::hyrax_proof::HyraxProof::{prover,verify}", "hyrax::zk_sumcheck_proof::*", "hyrax::commitment::*", "hyrax::evaluate::*"],
  require=ENG + ["tightness"])
c("P01", features=["lc"], verus=["r1cs_lc", "r1cs_cv"], level="other",
  explanation="Every operator of LinearCombination and ConstraintVar evaluated under a generic symbolic assignment over all operand supports within a window, random large operands and random histories of operations; the value is compared as a polynomial." ,
  functions=["r1cs::impl_lc::*", "r1cs::impl_constraint_var::*"],
  require=["impl_lc: value of", "ConstraintVar: value of", "terms stay sorted"])
c("P02", features=["lc"], verus=["tcs"], level="other",
  explanation="Verus (unit tcs): for every state reachable through the interface, is_satisfied / which_is_unsatisfied judge all recorded constraints under the stored assignment (first failing one), get/set/verify/get_input read and write exactly the addressed value, alloc/alloc_input/enforce/push_namespace record exactly what they are given under the joined path, which must be new, and the path table stays in bijection with the variables. Besides, TestConstraintSystem driven through random histories of its operations against a reference constraint system, and on symbolic circuits whose branch conditions are explored.",
  functions=["gadgets::test_constraint_system::TestConstraintSystem::*", "r1cs::constraint_system::Namespace::*"],
  require=["is_satisfied: exactly when", "which_is_unsatisfied", "two items cannot share a path", "set: overwrites"])
DETN = " The witnesses are bounded; that constraints determine the result is decided structurally for every witness value of the emitted constraints."
c("P03", features=["gadgets"], verus=["gadget_bool"], level="other",
  explanation="Boolean and bit gadgets under contract over every combination of operand representation (constant, variable, negated, repeated) and value." + DETN,
  functions=["gadgets::boolean::Boolean::*", "gadgets::boolean::AllocatedBit::*", "gadgets::boolean::{u64_into_boolean_vec_le,field_into_boolean_vec_le,field_into_allocated_bits_le}"],
  require=["and: value", "xor: value", "sha256_ch: the constraints determine", "enforce_equal: satisfied exactly", "every bit is boolean"])
c("P04", features=["gadgets"], verus=["gadget_word"], level="other",
  explanation="UInt32 gadgets and MultiEq against u32 arithmetic, over sampled words with mixed constant/variable/negated bits." + DETN,
  functions=["gadgets::uint32::UInt32::*", "gadgets::multieq::MultiEq::*"],
  require=["addmany: the u32 result", "addmany: the constraints determine", "MultiEq: satisfied exactly", "rotr: the u32 result"])
c("P06", features=["gadgets"], verus=["gadget_fr"], level="other",
  explanation="AllocatedFr and RangeProof: satisfied exactly when less, over all values of small widths and boundary values of every width; no assignment of the auxiliary variables satisfies the constraints otherwise." + DETN,
  functions=["gadgets::fr::AllocatedFr::*", "gadgets::rangeproof::RangeProof::*"],
  require=["range proof: honest witness satisfied exactly when less", "range proof: no witness when not less", "isnonzero", "inputize"])
c("P08", features=["gadgets"], verus=["gadget_fr"], level="other",
  explanation="Lookup gadgets with a symbolic table (every table value), every representation and value of the index bits.",
  functions=["gadgets::lookup::*"],
  require=["lookup1_x: the addressed entry", "lookup2_x: the constraints determine", "lookup3_xy: the constraints determine"])
c("P05", features=["gadgets"], verus=["hash_sha256", "hash_blake2s"], level="other",
  explanation="Verus (unit hash_sha256): for every message (any number of bits below 2^60) and every assignment satisfying the constraints, the output bits spell the FIPS 180-4 digest of the message bits (padding, schedule, 64 rounds, chaining, the constants), and the values the prover assigns satisfy the constraints; hash_enforce forces its output variables to that digest of the concatenated parameters. Unit hash_blake2s: the same for BLAKE2s (RFC 7693: message words, zero padding, byte counter, final flag, ten rounds of the sigma table, personalization) for every message. Besides, SHA-256 and BLAKE2s gadgets against the published functions for every message length within a window (constant messages) and block-boundary lengths with constant/allocated/negated bits." + DETN,
  functions=["gadgets::hashes::sha256::*", "gadgets::hashes::blake2s::*"],
  require=["sha256: output is the standard digest", "blake2s: output is the standard digest", "sha256: the constraints determine", "blake2s: the constraints determine", "hash_enforce: the constraints determine"])
c("P09", features=["gadgets"], verus=["hash_mimc", "hash_rescue", "hash_poseidon"], level="other",
  explanation="Verus (units hash_mimc, hash_rescue, hash_poseidon): for every input the native hash is the documented chain of blocks, the constraints of a block, of the power gadget, of the preimage circuit and of hash_enforce force the outputs to that function of the inputs, and the values the prover assigns satisfy them. Besides, MiMC, Poseidon and Rescue: circuit value equals the native hash over sampled input lists (lengths, zeros, extreme and non-canonical elements)." + DETN,
  functions=["gadgets::hashes::mimc::*", "gadgets::hashes::poseidon::*", "gadgets::hashes::rescue::*"],
  require=["mimc: circuit value equals", "poseidon: circuit value equals", "rescue: circuit value equals", "mimc: the constraints determine every value", "rescue: hash_enforce: the constraints determine"])
c("P10", features=["gadgets"], verus=["cbmt", "member"], level="other",
  explanation="Verus: the tree, its proofs and their verification for every number of leaves, index and lemma list (units cbmt, member): a leaf is proved by the proof built for it, with a collision-free merge by no other value, and the circuit is satisfied exactly when the walk ends at the root. CBMT over a free merge function (terms: no collisions) for every number of leaves within a window, every index and every single alteration of a proof; circuit walk against the native verification with a mock hash, MiMC and SHA-256." + DETN,
  functions=["gadgets::merkletree::cbmt::*", "gadgets::merkletree::cbmt_constraints::MerkleProofGadget::set_membership"],
  require=["root: build_merkle_root is the documented", "a built proof verifies", "an altered leaf, lemma", "circuit: satisfied exactly when"])
c("P15", features=["marlin"], verus=["marlin_cs"], level="other",
  explanation="Marlin indexing and proving contracts: the padded system is square and holds every variable and constraint of the circuit, the row/column/value polynomials of each matrix represent exactly that matrix on the domain K, and honest proofs are accepted." + SHAPES + " In addition (verus, every circuit and every size): the indexer and the prover constraint systems (alloc, alloc_input, enforce, make_row), make_constraint_matrices_square (both instances), reindex, balance_matrices, sort_matrix_columns, process_matrices, num_non_zeros, matrix_density, format_public_input, bivariate_eval, batch_evals, diagonal_evals, compose_matrix_polynomials and AHP::index are under contract, with theorems: the indexed matrices are satisfied by exactly the assignments that satisfy the circuit's constraints (thm_index), and any sum over K of val*phi(row, col) is the sum over the matrix entries of (entry/diagonal)*phi (thm_represents).",
  functions=["marlin::ahp::indexer::*", "marlin::ahp::arithmetic::*", "marlin::ahp::constraint_systems::*", "marlin::ahp::prover::*", "marlin::{universal_setup,index,create_random_proof,verify_proof}", "marlin::pc::*"],
  require=["completeness: the verifier accepts", "the indexed polynomials represent the matrix", "every matrix row is the circuit's"])
c("P16", features=["marlin"], level="other",
  explanation="Marlin verifier contracts: every accepting path implies the reference AHP equations and batched KZG openings, and the verifier checks exactly those (equal gradient spans); altered proofs, inputs and keys are rejected." + SHAPES,
  functions=["marlin::verify_proof", "marlin::ahp::verifier::*", "marlin::ahp::construct_linear_combinations", "marlin::pc::{batch_check,check}", "marlin::pc::kzg10::*"],
  require=["soundness: an accepted proof satisfies", "soundness: the checked equations are exactly", "an altered proof element is rejected", "an altered public input is rejected"])
c("P17", features=["plonk"], verus=["plonk_composer"], level="other",
  explanation="Plonk composer and prover contracts: every row's selectors state exactly the gate, every wire carries its variable, the permutation ties exactly the wires of one variable, and honest proofs are accepted while proofs for unsatisfied gates or detached wires are not." + SHAPES + " In addition (verus, every sequence of composer calls and every size): Permutation::{new,alloc,add_to_map,insert_gate,compute_wire_permutation,compute_sigmas} and Composer::{new,alloc_and_assign,create_poly_gate,constrain_to_constant,assert_equal,create_add_gate,create_mul_gate,compose,synthesize} are under contract, with two theorems: wire values are unchanged by the composed permutation exactly when they agree on all wires of one variable, and the composed, padded rows on the synthesized witness are exactly the gates' equations.",
  functions=["plonk::composer::*", "plonk::ahp::indexer::*", "plonk::ahp::prover::*", "plonk::Plonk::{setup,keygen,prove,verify}"],
  require=["completeness: the verifier accepts", "every row states exactly", "tied together exactly", "no accepted proof is produced"],
  trusted=["ark-poly-commit 0.2 MarlinKZG10 (executed, checked only through Plonk's own contracts)"])
c("P18", features=["plonk"], level="other",
  explanation="Plonk verifier contracts: every accepting path implies the quotient identity and the openings and the verifier checks exactly those (equal gradient spans); altered proofs, inputs and keys, made-up proofs and commitments sent in a later round are rejected." + SHAPES,
  functions=["plonk::Plonk::verify", "plonk::ahp::verifier::*", "plonk::ahp::construct_linear_combinations", "plonk::rng::FiatShamirRng::*"],
  require=["soundness: an accepted proof satisfies", "soundness: the checked equations are exactly", "an altered proof element is rejected", "an altered public input is rejected", "made up from public values"],
  trusted=["ark-poly-commit 0.2 MarlinKZG10 (executed, checked only through Plonk's own contracts)"])

c("P26", features=["fsall"], level="other",
  explanation="Transcript contracts of every non-interactive proof system: prover and verifier draw identical, pairwise distinct challenges; every public input is absorbed before the first challenge and every proof element before the challenge that follows it in the protocol (contracts/transcript.txt), observed on the real transcript with every proof element a traced variable. For the hash-chained systems every challenge hashes its predecessor. The digests of circuits, constraint systems, keys and parameters that the transcripts absorb change with every component (every single-byte change of every encoding, every moved matrix entry and gate), and a proof is rejected under an altered digest." + SHAPES,
  functions=["bulletproofs::{arithmetic_circuit,inner_product_proof}::*", "spartan::{prover,verify,spark,inner_product}::*", "libra::{libra_linear_gkr,libra_zk_linear_gkr,sumcheck,zk_sumcheck}::*", "hyrax::{hyrax_proof,zk_sumcheck_proof}::*", "marlin::{create_random_proof,verify_proof,fs_rng}", "plonk::{Plonk::prove,Plonk::verify,rng}"],
  require=[s + ": " + o for s in ("bulletproofs", "spartan nizk", "spartan snark", "libra zk", "libra linear", "hyrax", "marlin", "plonk", "inner product") for o in ("Fiat-Shamir: every message is absorbed", "prover and verifier derive the same", "Fiat-Shamir: every public input")] + ["libra circuit: the digest", "hyrax circuit: the digest", "libra parameters: the digest", "hyrax parameters: the digest", "spartan r1cs: the digest fixes the rows", "spartan snark encoding: the digest", "marlin key: the digest", "spartan nizk r1cs: an altered digest"],
  trusted=["merlin 2.0 / the Fiat-Shamir hash: a challenge depends on everything absorbed before it", "contracts/transcript.txt: the absorption schedule of the protocols, reviewed by hand"])
c("P27", features=["fsall"], level="other",
  explanation="Hiding contracts of every zero-knowledge prover, by the Jacobian of the real proof: for a fixed statement every direction in which the witness moves the proof lies in the image of the prover's coins, and the coins randomize the proof as far as the verification equations permit." + SHAPES,
  functions=["groth16::prover::create_random_proof", "bulletproofs::arithmetic_circuit::create_random_proof", "spartan::prover::*", "libra::libra_zk_linear_gkr::ZKLinearGKRProof::prover", "hyrax::hyrax_proof::HyraxProof::prover", "marlin::create_random_proof", "plonk::Plonk::prove"],
  require=[s + ": hiding: for a fixed statement" for s in ("groth16", "bulletproofs", "spartan nizk", "spartan snark", "libra zk", "hyrax", "marlin", "plonk")] + [s + ": hiding: the prover's coins" for s in ("groth16", "bulletproofs", "spartan nizk", "libra zk", "hyrax")],
  assumptions=["first-order criterion: perfect hiding of messages that are affine in the coins for fixed challenges; simulatability itself is not proved"])
c("P24", features=["asvc"], verus=["asvc"], level="other",
  explanation="aSVC contracts: key elements, commitments, opening proofs, aggregates and updates equal their prescribed exponents for symbolic values, toxic waste and generators over every set of positions of small vectors (sampled sets above), histories of updates; the verifiers accept iff the pairing equations hold for free keys, proofs and values (accepting paths are reached by solving the comparison)." + SHAPES + " In addition (verus, all vector sizes and position sets): every public function of asvc is under contract, and theorems over the contracts give opening completeness, soundness of key updates, aggregation and proof updates.",
  functions=["asvc::{key_gen,commit,prove_pos,verify_pos,verify_upk,update_commit,update_proof,aggregate_proofs}"],
  require=["key_gen: the key elements", "prove_pos: the proof is", "accepts exactly when the pairing equation", "accepts exactly when both pairing", "update_proof: the proof of the updated", "aggregate_proofs: the aggregate"])
c("P29", features=["c25519"], level="other",
  explanation="curve25519 wrapper against integer arithmetic modulo the group order and against curve25519-dalek: constants of the scalar field, every field operation on edge and random values, every group operation, encodings, multi-scalar multiplications, a proof system over the curve. Sampled values (bounded).",
  functions=["curve25519::{Fr,FrParameters,Curve25519Point,Curve25519}::*"],
  require=["FrParameters: every constant", "Fr: every operation", "Curve25519Point: every operation", "Curve25519: multi-scalar", "encoding then decoding returns the point"],
  trusted=["curve25519-dalek 3.2 (the wrapped library) and num-bigint as oracles"])
c("P25", features=["layered"], verus=["spartan_poly", "libra_eval", "hyrax_eval", "libra_circuit", "hyrax_circuit"], level="other",
  explanation="Layered circuits against a reference evaluator over every small numbers of inputs and witnesses and random circuits, with symbolic wire values; equality polynomials, extensions, wiring predicates, bookkeeping tables, round polynomials and the Hyrax matrix as polynomials in symbolic points and tables; malformed gates and layers refused. Bounded in sizes; the extension functions themselves are additionally proved for all sizes (verus).",
  functions=["libra::circuit::{Layer,Circuit}::*", "hyrax::circuit::{Layer,Circuit}::*", "libra::{evaluate,sumcheck}::*", "hyrax::{evaluate,zk_sumcheck_proof}::*", "spartan::polynomial::*"],
  require=["libra circuit: each gate is the sum", "hyrax circuit: each gate is the sum", "hyrax construct_matrix: the rows", "libra sumcheck: each round polynomial", "libra eval_eq: the equality polynomial", "hyrax eval_eq: the equality polynomial", "libra circuit: a gate with an unknown", "hyrax circuit: a gate with an unknown", "spartan evaluate_mle: the extension"])
c("P28", features=["serial"], level="other",
  explanation="Every serializable public type: objects produced by the real set-up, indexing and proving functions on generic circuits of several shapes over the model group (whose compressed and uncompressed forms differ) and over the real curves: size, encode, decode, equality, exact consumption, behaviour of decoded keys and proofs, and rejection of every truncation.",
  functions=["CanonicalSerialize / CanonicalDeserialize of groth16, bulletproofs, marlin, plonk, spartan, libra, hyrax, asvc, curve25519, r1cs types"],
  require=[t + ": decoding the encoding gives an equal object" for t in ("groth16::Parameters", "groth16::Proof", "bulletproofs::Proof", "marlin::Proof", "plonk::Proof", "libra::ZKLinearGKRProof", "hyrax::HyraxProof")] + [t + ": truncated encodings are rejected" for t in ("groth16::Proof", "plonk::Proof", "marlin::Proof")])
NOT_APPLICABLE = {
 "P30": "The guarantee is about processes, files and JSON encodings chosen at run time by the command-line tools; no contract over functions within a verifier's reach states it, and the proof systems behind the tools are under contract in P11-P29.",
 "P31": "Computational soundness and zero knowledge quantify over all efficient adversaries and rest on cryptographic assumptions; deductive contracts on the code express the algebraic facts these proofs use (P11-P27) but not the probabilistic reduction itself.",
}

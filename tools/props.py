import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("P01","Linear-combination arithmetic is exact",
 "Building a linear combination by any sequence of additions, subtractions, negations and scalings of variables, (coefficient, variable) pairs and other linear combinations yields an object whose value under every assignment equals the same arithmetic done on the operands' values. Terms stay sorted by variable, merging two combinations without repeated variables gives one without repeated variables, and operands passed by reference are not changed.",
 ["inputs","histories"],"all operation sequences, all coefficients (0 and opposite coefficients included), all variable orders and all lengths of both operands",
 "The tests only build the few fixed combinations that their circuits need; the merge and the insertion have order- and length-dependent paths that need long, arbitrarily ordered operands.",
 ["r1cs/src/impl_lc.rs","r1cs/src/impl_constraint_var.rs"],
 [("sorted merge","r1cs/src/impl_lc.rs:op_impl"),("insertion","r1cs/src/impl_lc.rs:get_var_loc / AddAssign"),("ConstraintVar dispatch","r1cs/src/impl_constraint_var.rs")],
 ["LinearCombination::as_ref","TestConstraintSystem"])
p("P02","A constraint system records and judges exactly what the circuit stated",
 "The testing constraint system reports 'satisfied' if and only if every recorded constraint a*b=c holds under the current assignment, names the first unsatisfied constraint, and returns or overwrites exactly the value stored at a path. Variables get consecutive indices per kind with the constant one first, names are qualified by the namespaces open at that moment, two items can never share a path, and a shape-only constraint system with the same circuit sees the same constraints.",
 ["inputs","programs","histories"],"all circuits, all namespace nestings, all assignments and overwrites",
 "Existing tests use the testing system as the oracle and never examine it; a judgment that misses one position is invisible to satisfied circuits.",
 ["gadgets/src/test_constraint_system.rs","r1cs/src/constraint_system.rs","r1cs/src/lib.rs"],
 [("satisfaction","gadgets/src/test_constraint_system.rs:which_is_unsatisfied"),("paths","gadgets/src/test_constraint_system.rs:compute_path/set_named_obj"),("namespace forwarding","r1cs/src/constraint_system.rs:impl ConstraintSystem for Namespace")],
 ["TestConstraintSystem API"])
p("P03","Boolean gadgets compute, and enforce, the Boolean function they name",
 "For every mix of constant, plain and negated operands, each Boolean gadget (not, and, and-not, nor, xor, equality, conditional forms, choice, majority, bit and field decompositions) returns a Boolean whose value is the named function of the operand values, and the emitted constraints are satisfiable. With the operands fixed, the constraints admit no other value of the result, and allocated bits can only be 0 or 1.",
 ["inputs","programs"],"all operand kinds (constant/is/not) and values, all witnesses the constraints admit",
 "Tests compare honest values and flip a few witnesses; soundness quantifies over every witness assignment for every operand-kind combination.",
 ["gadgets/src/algebra/boolean.rs"],
 [("AllocatedBit gates","gadgets/src/algebra/boolean.rs:AllocatedBit::{alloc,xor,and,and_not,nor,...}"),("Boolean dispatch","gadgets/src/algebra/boolean.rs:Boolean::{xor,and,sha256_ch,sha256_maj,...}"),("decomposition","gadgets/src/algebra/boolean.rs:u64_into_boolean_vec_le/field_into_boolean_vec_le")],
 ["constraint matrices","Boolean::get_value"])
p("P04","32-bit word gadgets equal, and enforce, u32 arithmetic",
 "For all operand values, kinds (constant or allocated) and operand counts in range, the 32-bit word gadgets (from bits, rotate, shift, xor, sha choice/majority, modular sum of many) produce exactly the u32 result, and the emitted constraints are satisfied by the honest witness. With operand bits fixed, the constraints admit only that result (packed equality checks included, no field wrap-around).",
 ["inputs","programs"],"all 2^32 operand values, all rotation/shift amounts, all operand kinds, 2..10 summands",
 "Random tests sample a few values; wrap-around, carries and unusual amounts need specific values, and soundness is over all witnesses.",
 ["gadgets/src/algebra/uint32.rs","gadgets/src/operator/multieq.rs"],
 [("addmany","gadgets/src/algebra/uint32.rs:UInt32::addmany"),("batched equality","gadgets/src/operator/multieq.rs:MultiEq::{enforce_equal,accumulate}")],
 ["UInt32::get_value","constraint matrices"])
p("P05","SHA-256 and BLAKE2s gadgets compute and enforce the standard hash",
 "For every message length accepted by the gadget, every message and every personalization, the SHA-256 and BLAKE2s gadgets output exactly the digest the published standard prescribes and the circuit is satisfied. With the message bits fixed, the constraints determine the digest bits uniquely.",
 ["inputs","programs"],"all message lengths (empty, block boundaries), all messages, all witnesses",
 "Test vectors sample some lengths and messages; wrong carries, constants used only in late blocks and unconstrained witnesses need every input and every witness.",
 ["gadgets/src/hashes/sha256.rs","gadgets/src/hashes/blake2s.rs"],
 [("padding and compression","gadgets/src/hashes/sha256.rs:sha256/sha256_compression_function"),("blake2s mixing and finalization","gadgets/src/hashes/blake2s.rs:blake2s/blake2s_compression/mixing_g")],
 ["output bits","constraint matrices"])
p("P06","Field-element, non-zero and range gadgets accept exactly the true statements",
 "An allocated field element carries its value into the circuit, exposing it as a public input ties the input to it, and the non-zero gadget is satisfiable exactly for non-zero values. For every bit width the range and comparison circuits accept, they are satisfied by the honest witness exactly when the stated relation (less / less-or-equal) holds between the numbers, and no witness satisfies them when it does not.",
 ["inputs","programs"],"all field values, all widths, operands inside and outside the width, all witnesses",
 "Tests try a couple of values per circuit; boundary values (equal operands, 0, 2^n-1, 2^n) and dishonest bit witnesses decide soundness.",
 ["gadgets/src/algebra/fr.rs","gadgets/src/operator/rangeproof.rs"],
 [("allocated element","gadgets/src/algebra/fr.rs:AllocatedFr"),("range proof","gadgets/src/operator/rangeproof.rs:RangeProof")],
 ["AllocatedFr::get_value","TestConstraintSystem::is_satisfied","constraint matrices"])
p("P08","Lookup gadgets return the addressed table entry",
 "For every table content and every index value, the 1-, 2- and 3-bit lookup gadgets return exactly the table entry addressed by the index bits (with conditional negation where offered), and the honest witness satisfies the constraints. With the index bits fixed, the constraints admit no other output.",
 ["inputs","programs"],"all table contents (zero, repeated entries), all bit patterns, constant and allocated bits",
 "Tests draw random tables; coefficient errors that cancel for special entries and unconstrained outputs are outside what they observe.",
 ["gadgets/src/lookup/table.rs","gadgets/src/lookup"],
 [("windowed lookup","gadgets/src/lookup/table.rs")],["output values","constraint matrices"])
p("P09","Algebraic hashes: gadget equals native hash, and is enforced",
 "For MiMC, Poseidon and Rescue, over every non-empty input list, the circuit version outputs the same field element as the native function for the same parameters, and the honest witness satisfies the constraints. With inputs fixed, the constraints determine the permutation's intermediate values and output.",
 ["inputs","programs"],"all input lists (length, zeros, repeated values), all round constants, all witnesses",
 "The examples hash one fixed input; agreement for other lengths and uniqueness of the witness cannot be seen from honest runs.",
 ["gadgets/src/hashes/mimc.rs","gadgets/src/hashes/poseidon.rs","gadgets/src/hashes/rescue.rs"],
 [("MiMC","gadgets/src/hashes/mimc.rs:hash/mimc_hash"),("Poseidon","gadgets/src/hashes/poseidon.rs"),("Rescue","gadgets/src/hashes/rescue.rs")],
 ["hash outputs","constraint matrices"])
p("P10","Merkle trees: openings verify for members, and bind leaf, index and root",
 "For every number of leaves and every set of indices, the tree root is the documented complete-binary-tree root, every built proof verifies against it, and verification fails if a leaf value, index, lemma or root is altered. The in-circuit verification agrees with the native one.",
 ["inputs","programs"],"all leaf counts, all index subsets, all leaf values, all alterations of a proof",
 "Tests use a handful of tree sizes and single openings; index arithmetic and queue handling differ with the shape of the subset.",
 ["gadgets/src/merkletree/cbmt.rs","gadgets/src/merkletree/cbmt_constraints.rs"],
 [("index arithmetic","gadgets/src/merkletree/cbmt.rs:TreeIndex"),("proof walk","gadgets/src/merkletree/cbmt.rs:MerkleProof::root/verify"),("circuit walk","gadgets/src/merkletree/cbmt_constraints.rs")],
 ["CBMT::build_merkle_root/build_merkle_proof","MerkleProof::verify"])
p("P11","Groth16 setup and proving are complete for every satisfied circuit",
 "For every circuit and satisfying assignment, and every setup and proving randomness, key generation and proving succeed, the key elements encode the quadratic arithmetic program of exactly that circuit, and the resulting proof is accepted for the circuit's public inputs. The proof elements are the prescribed combinations of the key for that witness and randomness.",
 ["inputs","programs"],"all circuits (any numbers of inputs, auxiliaries, constraints, repeated and zero terms), all assignments, all randomness",
 "One small circuit is proved in tests; domain sizing, input-consistency rows, density and index arithmetic depend on the shape of the circuit.",
 ["groth16/src/generator.rs","groth16/src/prover.rs","groth16/src/r1cs_to_qap.rs"],
 [("QAP instance map","groth16/src/r1cs_to_qap.rs:instance_map_with_evaluation"),("witness map","groth16/src/r1cs_to_qap.rs:witness_map"),("key generation","groth16/src/generator.rs:generate_parameters"),("proof","groth16/src/prover.rs:create_proof")],
 ["Proof, Parameters","verify_proof"])
p("P12","Groth16 verification accepts exactly the pairing equation",
 "Verification with a prepared key returns true if and only if e(A,B) = e(alpha,beta) * e(sum of public-input combination, gamma) * e(C,delta) for the given key, proof and public inputs, with every public input taken into account. A number of public inputs that does not match the key is never accepted, and no unsatisfied assignment's proof is accepted.",
 ["inputs"],"all keys, all proofs (arbitrary group elements), all public input vectors and lengths",
 "Tests check one honest and at most one altered input; an omitted term or accepted length mismatch is a statement over all proofs and inputs.",
 ["groth16/src/verifier.rs","groth16/src/prover.rs"],
 [("verification equation","groth16/src/verifier.rs:verify_proof"),("prepared key","groth16/src/verifier.rs:prepare_verifying_key")],
 ["verify_proof"])
p("P13","Bulletproofs circuit proofs: complete, and accepted only under all equations",
 "For every circuit and satisfying assignment the Bulletproofs R1CS prover produces a proof that the verifier accepts for the same public inputs. A proof, commitment or public input altered in any component, or a proof of a different circuit, is not accepted: acceptance implies all of the protocol's verification equations, including that the inner-product argument refers to the committed vectors.",
 ["inputs","programs"],"all circuits and sizes, all witnesses, all proofs and public inputs",
 "Tests prove one small circuit; each dropped equation or mis-weighted constraint only shows on adversarial proofs or on circuits with repeated variables, many inputs or padding.",
 ["bulletproofs/src/arithmetic_circuit.rs","bulletproofs/src/lib.rs"],
 [("prover","bulletproofs/src/arithmetic_circuit.rs:create_proof"),("verifier","bulletproofs/src/arithmetic_circuit.rs:verify_proof"),("R1CS matrices","bulletproofs/src/arithmetic_circuit.rs:ProvingAssignment/VerificationAssignment")],
 ["prove / verify API"])
p("P14","Inner-product argument: complete and binding for every vector pair",
 "For every pair of vectors of equal power-of-two length and all generators, the inner-product argument produced for the commitment g^a h^b u^<a,b> is accepted, with logarithmically many rounds. Acceptance implies the folded verification equation, so altering any round message, final scalar, commitment or generator is rejected.",
 ["inputs"],"all vectors, all power-of-two lengths including 1, all generators, all altered proofs",
 "The tests fix one length; folding-order errors and unused messages depend on length and on adversarial proofs.",
 ["bulletproofs/src/inner_product_proof.rs"],
 [("folding","bulletproofs/src/inner_product_proof.rs:prove"),("verification scalars","bulletproofs/src/inner_product_proof.rs:verify")],
 ["inner_product_proof::prove/verify"])
p("P15","Marlin setup, indexing and proving are complete",
 "For every circuit whose padded public-input count is a power of two and every satisfying assignment, indexing and proving succeed and the verifier accepts the proof for those inputs. The indexed polynomials represent exactly the circuit's three matrices, however rows and columns had to be padded or balanced.",
 ["inputs","programs"],"all circuits (shapes, repeated and zero terms, unbalanced matrices, more variables than constraints and vice versa), all witnesses, all randomness",
 "Two circuits are proved in tests; padding, balancing and domain selection depend on the shape.",
 ["marlin/src/ahp/constraint_systems.rs","marlin/src/ahp/arithmetic.rs","marlin/src/ahp/indexer.rs","marlin/src/ahp/prover.rs","marlin/src/lib.rs"],
 [("matrix arithmetization","marlin/src/ahp/arithmetic.rs"),("make square / balance","marlin/src/ahp/constraint_systems.rs"),("prover rounds","marlin/src/ahp/prover.rs")],
 ["universal_setup/index/prove/verify"])
p("P16","Marlin verification implies the AHP equations and the KZG openings",
 "Marlin's verifier accepts only if the outer and inner sumcheck equations hold for the claimed evaluations, the public input polynomial and the indexed matrices, and all claimed evaluations are opened by the commitments (degree bounds included). Altering any commitment, evaluation, opening, public input or using another circuit's key is rejected; the KZG layer accepts exactly the pairing equation and every honest opening.",
 ["inputs","programs"],"all proofs, public inputs, keys and challenges",
 "Tests check one altered public input; which component of a proof is actually bound is a statement over all adversarial proofs.",
 ["marlin/src/ahp/verifier.rs","marlin/src/ahp/mod.rs","marlin/src/pc/mod.rs","marlin/src/pc/kzg10.rs","marlin/src/lib.rs"],
 [("equations","marlin/src/ahp/verifier.rs"),("batched openings","marlin/src/pc/mod.rs:batch_check/check"),("KZG","marlin/src/pc/kzg10.rs:open/check/batch_check")],
 ["verify_proof","PC check"])
p("P17","Plonk composition and proving are complete and faithful",
 "The Plonk composer's gates and copy constraints hold for exactly the assignments that satisfy every stated arithmetic gate and wiring, whatever the padding. For every satisfied circuit and randomness, setup, proving and verification succeed and accept.",
 ["inputs","programs"],"all composed circuits (repeated variables, public inputs, any gate count), all assignments, all randomness",
 "Tests compose a few gates; permutation and padding depend on arities and wiring that they do not vary.",
 ["plonk/src/composer","plonk/src/ahp/indexer","plonk/src/ahp/prover.rs","plonk/src/lib.rs"],
 [("gates","plonk/src/composer/arithmetic.rs"),("copy constraints","plonk/src/composer/permutation.rs"),("selector and witness columns","plonk/src/composer/synthesize.rs"),("prover","plonk/src/ahp/prover.rs")],
 ["Plonk::{setup,keygen,prove,verify}"])
p("P18","Plonk verification implies the quotient identity and the openings",
 "Plonk's verifier accepts only if the quotient identity (gates, copy constraints, public inputs) holds at the evaluation point for the claimed evaluations and every claimed evaluation is opened by its commitment. Altering any commitment, evaluation, opening or public input, or using another circuit's key, is rejected.",
 ["inputs","programs"],"all proofs, public inputs, keys and challenges",
 "No test offers an altered proof for each component; a term missing from the identity is only visible on adversarial evaluations.",
 ["plonk/src/ahp/verifier.rs","plonk/src/ahp/evaluations.rs","plonk/src/ahp/mod.rs","plonk/src/lib.rs"],
 [("identity","plonk/src/ahp/verifier.rs:verifier_equality_check"),("openings","plonk/src/lib.rs:verify")],
 ["Plonk::verify"])
p("P19","Spartan NIZK: complete, and acceptance binds matrices, inputs and proof",
 "For every circuit and satisfying assignment the Spartan NIZK prover's proof is accepted for those public inputs. Acceptance implies both zero-knowledge sumchecks at the verifier's own challenge points, the matrix evaluations recomputed from the circuit and the witness opening, so altering any proof component, public input or circuit is rejected.",
 ["inputs","programs"],"all circuits and sizes (zero coefficients, repeated terms), all witnesses, all proofs and public inputs",
 "Tests prove fixed small circuits and never a forged proof or a circuit with explicit zero entries.",
 ["spartan/src/prover.rs","spartan/src/verify.rs","spartan/src/r1cs.rs","spartan/src/polynomial.rs"],
 [("NIZK verifier","spartan/src/verify.rs:verify_nizk_proof"),("matrix evaluation","spartan/src/polynomial.rs:sparse_evaluate_value / evaluate_matrix"),("sigma proofs","spartan/src/verify.rs")],
 ["create_nizk_proof/verify_nizk_proof"])
p("P20","Spartan SNARK: complete, and acceptance binds every message",
 "For every circuit and satisfying assignment the Spartan SNARK prover's proof, built from the encoded circuit, is accepted for those public inputs. No proof with an altered component, public input or encoding is accepted, and acceptance depends on all memory-checking, product and opening equations.",
 ["inputs","programs"],"all circuits and sizes, all witnesses, all proofs, inputs and encodings",
 "Two circuits are tested with honest proofs only; memory-checking soundness rests on every one of dozens of equations.",
 ["spartan/src/prover.rs","spartan/src/verify.rs","spartan/src/spark.rs"],
 [("SNARK verifier","spartan/src/verify.rs:verify_snark_proof"),("SPARK encoding","spartan/src/spark.rs")],
 ["create_snark_proof/verify_snark_proof"])
p("P21","Libra linear GKR proves exactly the layered circuit's output",
 "For every layered arithmetic circuit and input, the linear-time GKR prover's proof is accepted with the true output. Acceptance implies that each layer's sumcheck rounds and the wiring predicates evaluated by the verifier from the circuit itself agree with the claimed values down to the inputs, so a wrong output, input, circuit or altered message is not accepted.",
 ["inputs","programs"],"all layered circuits (any gates and power-of-two layer sizes), all inputs, all claimed outputs and proofs",
 "Tests run one circuit honestly; whether the proof is bound to the circuit's wiring cannot be seen without adversarial proofs or circuits.",
 ["libra/src/libra_linear_gkr.rs","libra/src/sumcheck.rs","libra/src/evaluate.rs"],
 [("round checks","libra/src/libra_linear_gkr.rs:verify"),("bookkeeping tables","libra/src/sumcheck.rs"),("wiring predicates","libra/src/circuit.rs:eval_operators")],
 ["LinearGKRProof::{prover,verify}"])
p("P22","Zero-knowledge Libra: complete, and acceptance binds output and circuit",
 "For every layered circuit, input and randomness, the zero-knowledge Libra prover's proof is accepted with the true output. Acceptance implies all committed sumcheck, product and opening equations with the circuit's own wiring predicates, so a wrong output, other circuit or altered message is not accepted.",
 ["inputs","programs"],"all layered circuits, public/witness splits, inputs, randomness, outputs and proofs",
 "Tests run fixed circuits honestly; every equation of the verifier matters only against adversarial messages.",
 ["libra/src/libra_zk_linear_gkr.rs","libra/src/commitment.rs","libra/src/sumcheck.rs"],
 [("verifier","libra/src/libra_zk_linear_gkr.rs:verify"),("sigma protocols","libra/src/commitment.rs")],
 ["ZKLinearGKRProof::{prover,verify}"])
p("P23","Hyrax: complete, and acceptance binds output, inputs and circuit",
 "For every layered circuit with at least two copies, inputs, witnesses and randomness, the Hyrax prover's proof is accepted with the true outputs. Acceptance implies all committed sumcheck, product and opening equations starting from the claimed outputs, so wrong outputs, another circuit or an altered message is not accepted.",
 ["inputs","programs"],"all data-parallel circuits (copies, layers), all inputs, outputs, randomness and proofs",
 "Tests run fixed circuits honestly with the true outputs; output binding needs adversarial claims.",
 ["hyrax/src/hyrax_proof.rs","hyrax/src/zk_sumcheck_proof.rs","hyrax/src/commitment.rs"],
 [("verifier","hyrax/src/hyrax_proof.rs:verify"),("zk sumcheck","hyrax/src/zk_sumcheck_proof.rs")],
 ["HyraxProof::{prover,verify}"])
p("P24","Aggregatable vector commitments open exactly the committed values",
 "For every vector and every set of distinct in-range positions, individual and aggregated proofs verify against the commitment for the true values and are rejected for any other value, position or commitment. After any sequence of updates, the updated commitment and updated proofs equal those of the updated vector, and verification of update keys accepts exactly the genuine keys.",
 ["inputs","histories"],"all vector lengths (powers of two), contents, position sets, update sequences and altered proofs",
 "Tests open a few positions of one vector; aggregation coefficients and update formulas depend on the position set and history.",
 ["asvc/src/lib.rs"],
 [("commit/open/verify","asvc/src/lib.rs:commit/prove_pos/verify_pos"),("updates","asvc/src/lib.rs:update_commit/update_proof"),("aggregation","asvc/src/lib.rs:aggregate_proofs")],
 ["asvc API"])
p("P25","Layered circuits and multilinear extensions are evaluated correctly",
 "Evaluating a layered circuit gives, at each gate, exactly the sum or product of the two wires it names, whatever the numbers of inputs and witnesses; the wiring predicates, equality polynomials, multilinear extensions and round polynomials used by the sumcheck provers and verifiers equal their defining sums at every point. Malformed circuits are not silently accepted.",
 ["inputs","programs"],"all circuits, all inputs, all evaluation points and table sizes",
 "Tests evaluate fixed circuits with equal numbers of inputs and witnesses; extensions are only observed through accepting proofs.",
 ["libra/src/circuit.rs","libra/src/evaluate.rs","libra/src/sumcheck.rs","hyrax/src/circuit.rs","hyrax/src/evaluate.rs","spartan/src/polynomial.rs"],
 [("evaluate","libra/src/circuit.rs:Circuit::evaluate, hyrax/src/circuit.rs"),("extensions","libra/src/evaluate.rs, hyrax/src/evaluate.rs, spartan/src/polynomial.rs")],
 ["Circuit::evaluate","eval_eq / eval_value / ..."])
p("P26","Every verifier challenge depends on all earlier messages and public inputs",
 "In every non-interactive proof system of the library, each challenge the verifier derives depends on every public input and every prover message that precedes it in the protocol, the prover and the verifier derive identical challenges, and the challenges are distinct. Changing any one absorbed message or public input changes every later challenge. The digests of circuits, constraint systems, keys and parameters that enter the transcripts change with every component of the object, and a proof is rejected under a digest other than the one it was made for.",
 ["inputs","histories"],"all proofs, all positions of the transcript",
 "Honest runs verify whatever is left out of the transcript; only quantifying over messages against later challenges shows an omission.",
 ["bulletproofs/src","marlin/src/fs_rng.rs","plonk/src/rng.rs","spartan/src","libra/src","hyrax/src"],
 [("absorption","append_message / absorb call sites in every prover and verifier")],
 ["transcript operations","verifier decisions"])
p("P27","Zero-knowledge provers blind every message with fresh independent randomness",
 "In every prover that claims zero knowledge, each commitment or masked value sent carries its own fresh uniformly random blinding, so that, for fixed circuit and inputs, the hiding messages are jointly as random as the number of independent blinders prescribes and no message or difference of messages is a deterministic function of the witness. Two proofs of the same statement with different randomness share no blinded component.",
 ["inputs"],"all witnesses and randomness; all linear relations among the messages of a proof",
 "Acceptance tests pass whether or not a blinder is zero, reused or cancelled; hiding is a property of the distribution over randomness.",
 ["groth16/src/prover.rs","bulletproofs/src/arithmetic_circuit.rs","marlin/src/ahp/prover.rs","marlin/src/pc","plonk/src/lib.rs","spartan/src/prover.rs","libra/src/libra_zk_linear_gkr.rs","hyrax/src/zk_sumcheck_proof.rs"],
 [("blinding","random sampling in each prover")],["proof elements"])
p("P28","Serialized keys and proofs decode to the same object",
 "For every proof, key, parameter set and commitment type with a serialized form, decoding the encoding (compressed and, where offered, uncompressed) yields an equal object and consumes exactly the encoded bytes, and the reported size equals the number of bytes written. A decoded proof and key verify exactly like the originals, and truncated encodings are rejected.",
 ["inputs"],"all values of every serializable public type",
 "Few types have a round-trip test; field order or omitted fields matter only for types and shapes not sampled.",
 ["groth16/src/lib.rs","bulletproofs/src","marlin/src","plonk/src","spartan/src/data_structure.rs","libra/src","hyrax/src","asvc/src/lib.rs","curve25519/src"],
 [("derived and manual encodings","CanonicalSerialize / CanonicalDeserialize impls")],["serialize/deserialize"])
p("P29","The curve25519 wrapper is the prime field and group it claims to be",
 "The scalar-field and group types wrapping curve25519 obey the field and group laws and agree with the wrapped library on every value: addition, subtraction, negation, doubling, multiplication, inversion, integer conversions, bit access, scalar multiplication and multi-scalar multiplication. Encoding then decoding any scalar or point returns it.",
 ["inputs"],"all scalars and points, including zero, one, minus one and the identity",
 "Only indirect use by one proof system is tested; operations that it does not use or special values are never executed.",
 ["curve25519/src/fr.rs","curve25519/src/group.rs","curve25519/src"],
 [("wrapping","curve25519/src/fr.rs, curve25519/src/group.rs")],["curve25519 public types"])
p("P30","Command-line prover and verifier round trip",
 "For every circuit, proof system and curve the command-line tools offer, a proof file written by the prover tool is accepted by the verifier tool with the matching setup and public inputs, and not with others.",
 ["inputs","configurations"],"all circuit/scheme/curve combinations and input values","No automated test runs the tools.",
 ["cli/src"],[("tools","cli/src/{setup,zkp_prove,zkp_verify}.rs")],["files"])
p("P31","Proof systems are computationally sound and zero-knowledge",
 "No efficient adversary makes an accepting proof of a false statement, and proofs reveal nothing beyond the statement.",
 ["inputs"],"all efficient adversaries","Computational claims are not observable on samples.",
 ["groth16","bulletproofs","marlin","plonk","spartan","libra","hyrax","asvc"],[("protocols","all proof systems")])
import sys
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Linear-combination arithmetic denotes the exact formal sum",
  "A linear combination built by any sequence of additions and subtractions of variables, scaled variables, linear combinations and scaled linear combinations evaluates, under every assignment of field elements to the variables, to exactly the value of the corresponding arithmetic expression. Building one never changes the operands, and a variable's kind and index are never confused with another's.",
  ["inputs", "programs"], "all expression trees over the public operators, all coefficients (0, 1, -1, random), all assignments, several fields",
  "No unit test exercises the operators directly; they are only used incidentally inside gadgets with coefficient patterns fixed by those gadgets.",
  ["src/lib.rs"], [("Add/Sub impls of LinearCombination", "src/lib.rs"), ("AsRef view of the terms", "src/lib.rs")],
  ["LinearCombination::as_ref", "constraint evaluation by TestConstraintSystem"])

p("C02", "Namespaces and constraint-system wrappers are transparent and balanced",
  "Synthesizing a circuit through any mix of nested namespaces, mutable references and batching wrappers produces on the underlying constraint system exactly the allocations and constraints, with the same variables in the same order, that direct synthesis produces. Every namespace that is entered is left exactly once and in nesting order on every exit path, including errors and panics, so later names are unaffected by earlier sub-circuits.",
  ["programs", "fault_sequences"], "all nestings of namespace / &mut / MultiEq to random depth, synthesis bodies that return, fail or panic at any step",
  "Tests use a fixed nesting and never observe the sequence of calls reaching the root, nor namespace balance after an error or unwinding.",
  ["src/lib.rs", "src/gadgets/multieq.rs", "src/gadgets/test/mod.rs"],
  [("Namespace forwarding and Drop", "src/lib.rs"), ("&mut CS forwarding", "src/lib.rs"), ("MultiEq forwarding", "src/gadgets/multieq.rs")],
  ["calls reaching a recording root constraint system", "names stored by TestConstraintSystem"])

p("C03", "Test constraint system gives exact verdicts",
  "The testing constraint system reports itself satisfied exactly when every enforced constraint A*B=C holds for the current assignment, names the first violated constraint otherwise, returns through its accessors exactly what was allocated or set (by path, by input position and as the expected public inputs), and refuses duplicate names and names containing a separator. Its digest is equal for two systems that have the same variables and the same constraints after combining like terms, and differs whenever the number of inputs, variables or constraints or any combined coefficient differs. Its printed listing shows, in order, every constraint with its name and its three combined linear combinations.",
  ["programs", "histories"], "all sequences of alloc, alloc_input, enforce, set, get, namespace over random systems and assignments",
  "The only unit test is one hand-written three-variable system; the digest is compared only with constants of fixed gadgets.",
  ["src/gadgets/test/mod.rs"],
  [("eval_lc / which_is_unsatisfied", "src/gadgets/test/mod.rs"), ("proc_lc / hash_lc", "src/gadgets/test/mod.rs"), ("named_objects and compute_path", "src/gadgets/test/mod.rs")],
  ["is_satisfied", "which_is_unsatisfied", "hash", "get", "set", "get_input", "verify", "pretty_print"])

p("C04", "Boolean gadgets compute and enforce their truth tables",
  "For every boolean gadget and every mix of constant, allocated and negated operands (including the same bit used twice), an honest assignment satisfies the constraints, the reported value and the linear combination of the result both equal the truth-table value, and no other assignment of the gadget's own variables can make the result differ while satisfying the constraints. Allocated bits can only be zero or one, a conditionally allocated bit can only be zero when its condition is set, and enforcing equality of two booleans is satisfiable exactly when they are equal.",
  ["inputs", "programs"], "all operand forms and values, compositions of gadgets, all malicious assignments of the internal variables",
  "Tests check honest values of the listed operand forms and a single flip of the result; they do not try arbitrary malicious witnesses nor aliased operands or compositions.",
  ["src/gadgets/boolean.rs"],
  [("AllocatedBit::alloc*, xor, and, and_not, nor", "src/gadgets/boolean.rs"), ("Boolean::xor, and, sha256_ch, sha256_maj, enforce_equal, lc, not", "src/gadgets/boolean.rs")],
  ["Boolean::get_value", "Boolean::lc", "captured constraints"])

p("C05", "Number gadgets compute and enforce field operations",
  "Multiplication, squaring, conditional reversal, publication as a public input, non-zero assertion and weighted sums of booleans over allocated numbers give exactly the field-arithmetic result, agree with the linear combination they expose, and leave no freedom to a malicious prover in choosing a different result. A non-zero assertion is unsatisfiable for zero (and reports division by zero when synthesized with a zero value), and a published input can only equal the number.",
  ["inputs", "programs"], "all field values including 0, 1, -1 and aliased operands, both condition values and all boolean forms, all malicious assignments",
  "Tests use a handful of fixed or random values and single-variable tampering.",
  ["src/gadgets/num.rs"],
  [("AllocatedNum::{alloc,mul,square,assert_nonzero,conditionally_reverse,inputize}", "src/gadgets/num.rs"), ("Num::{add_bool_with_coeff,lc}", "src/gadgets/num.rs")],
  ["get_value", "get_variable", "captured constraints", "public inputs"])

p("C06", "Bit decompositions are exact and, when strict, canonical",
  "Decomposing a number, a field element or a 64-bit integer into bits yields exactly its little-endian binary digits, as many as the documented width, and the constraints accept no bit vector that does not sum to the number. The strict decomposition accepts only the canonical bits (the integer below the modulus), never another representative congruent modulo the field order, for every value including the largest ones.",
  ["inputs"], "all values near 0, the modulus and powers of two plus random ones, in several fields with different modulus bit patterns, all malicious bit vectors",
  "Tests sample random values in one field and flip single bits; congruent representatives and other modulus shapes are never tried.",
  ["src/gadgets/num.rs", "src/gadgets/boolean.rs"],
  [("AllocatedNum::to_bits_le_strict", "src/gadgets/num.rs"), ("AllocatedNum::to_bits_le", "src/gadgets/num.rs"), ("field_into_allocated_bits_le, u64_into_boolean_vec_le", "src/gadgets/boolean.rs")],
  ["returned bits", "captured constraints"])

p("C07", "32-bit word gadgets implement u32 arithmetic",
  "For every mix of constant, allocated and negated bits, word conversion, xor, rotation (any amount), right shift (less than 32), the SHA choice and majority functions and modular addition of two to ten words produce exactly the u32 result, as value and as bits, and a malicious prover cannot satisfy the constraints with different result bits. An all-constant addition costs no constraints.",
  ["inputs", "programs"], "all operand values including carries at every position, all operand counts, all bit forms, all malicious assignments",
  "Tests use random honest inputs, rarely trigger extreme carries and tamper single bits only.",
  ["src/gadgets/uint32.rs"],
  [("UInt32::{alloc,constant,from_bits,from_bits_be,into_bits,into_bits_be}", "src/gadgets/uint32.rs"), ("UInt32::{xor,rotr,shr,sha256_ch,sha256_maj,addmany}", "src/gadgets/uint32.rs")],
  ["bits returned by into_bits / into_bits_be", "captured constraints"])

p("C08", "Batched equality checks enforce every single equality",
  "When several bounded equalities are enforced through the batching wrapper, the resulting constraints are satisfied if and only if every one of the equalities holds, for every sequence of widths and for every field capacity, including the equalities still pending when the wrapper is dropped. Batching never merges two equalities so that an error in one can be cancelled by another.",
  ["inputs", "histories"], "all sequences of (width, left, right) with values below 2^width, interleaved with other constraints, on fields of different capacity",
  "There is no test of the batching itself; hash gadget tests use it with honest values only.",
  ["src/gadgets/multieq.rs"], [("enforce_equal / accumulate / Drop", "src/gadgets/multieq.rs")],
  ["constraints emitted to the wrapped system"])

p("C09", "SHA-256 circuit computes SHA-256 and nothing else",
  "For every byte-aligned message, with any mix of constant, allocated and negated input bits, the SHA-256 gadget's output bits equal the standard digest (most significant bit first) and the single-block variant equals the compression of that block from the standard initial state without padding. The honest assignment satisfies the constraints and no assignment of the gadget's variables with the same input bits gives a different output.",
  ["inputs"], "all message lengths around block boundaries, random contents, all mixes of bit forms, malicious assignments of internal variables",
  "Tests compare honest outputs for a few lengths and never try to forge a different output.",
  ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs", "src/gadgets/multieq.rs"],
  [("sha256 padding and chaining", "src/gadgets/sha256.rs"), ("sha256_compression_function", "src/gadgets/sha256.rs")],
  ["output bits", "captured constraints"])

p("C10", "BLAKE2s circuit computes personalised BLAKE2s and nothing else",
  "For every byte-aligned message and every 8-byte personalization, with any mix of constant, allocated and negated input bits, the BLAKE2s gadget's output bits equal the reference BLAKE2s-256 digest in little-endian bit order. The honest assignment satisfies the constraints and no assignment of the gadget's variables with the same input bits gives a different output.",
  ["inputs"], "all message lengths around block boundaries, random contents and personalizations, all mixes of bit forms, malicious assignments of internal variables",
  "Tests compare honest outputs with one personalization and never try to forge a different output.",
  ["src/gadgets/blake2s.rs", "src/gadgets/uint32.rs", "src/gadgets/multieq.rs"],
  [("blake2s block splitting, counter and finalization", "src/gadgets/blake2s.rs"), ("mixing_g / blake2s_compression", "src/gadgets/blake2s.rs")],
  ["output bits", "captured constraints"])

p("C11", "Window lookups return exactly the selected table entry",
  "For every table (including repeated, zero and negative entries) and every mix of constant, allocated and negated selector bits, the 3-bit lookup returns exactly the entry selected by the bits in little-endian order, and the signed lookup returns the entry selected by the two low bits with its second coordinate negated exactly when the third bit is set. The honest assignment satisfies the constraints and no other result is accepted for the same bits.",
  ["inputs"], "all selector values and forms, random and degenerate tables, all malicious assignments",
  "Tests use allocated selectors and random tables with honest values only.",
  ["src/gadgets/lookup.rs"], [("synth / lookup3_xy / lookup3_xy_with_conditional_negation", "src/gadgets/lookup.rs")],
  ["returned numbers", "captured constraints"])

p("C12", "Packed public inputs match their native packing and are injective",
  "Packing bits into public inputs inside a circuit exposes exactly the field elements computed natively from the same bits: one element per capacity-sized chunk, little-endian, for any number of bits and any mix of bit forms, and the circuit accepts no other public inputs for those bits. Distinct bit strings of the same length give distinct packings, and byte-to-bit conversion is exact in both bit orders.",
  ["inputs"], "all lengths around multiples of the capacity including zero, several fields, all bit forms, tampered public inputs",
  "The unit test compares honest packing for lengths below 1500 in one field; tampering and other fields are not tried.",
  ["src/gadgets/multipack.rs"], [("pack_into_inputs / compute_multipacking / bytes_to_bits*", "src/gadgets/multipack.rs")],
  ["public inputs of the captured system", "compute_multipacking"])

p("C13", "Circuit shape never depends on the witness",
  "For every gadget and circuit built from the library, the variables, constraints and coefficients produced are the same whether witness values are absent or present and whichever values they take. Key generation never evaluates witness closures, and synthesizing for proving with a missing witness value fails with the missing-assignment error instead of panicking or producing a proof. A value that is computed while other witness values are missing is the one it has under the complete witness.",
  ["inputs", "programs"], "all gadgets with None and random Some values, random compositions of gadgets",
  "Tests always synthesize with concrete values; only one digest comparison per gadget exists and never against an absent witness.",
  ["src/gadgets/boolean.rs", "src/gadgets/num.rs", "src/gadgets/uint32.rs", "src/gadgets/sha256.rs", "src/gadgets/blake2s.rs", "src/gadgets/lookup.rs", "src/gadgets/multipack.rs", "groth16/src/generator.rs", "groth16/src/prover.rs"],
  [("value: Option<_> plumbing and Assignment::get", "src/gadgets.rs"), ("KeypairAssembly::alloc ignores closures", "groth16/src/generator.rs")],
  ["constraints captured by a recording constraint system", "digest of TestConstraintSystem"])

p("C14", "Evaluation-domain transforms equal polynomial evaluation",
  "For every input length the field can support, the forward transform equals evaluation of the coefficient polynomial at successive powers of a primitive root of unity of the padded size, the inverse transform undoes it, the coset variants evaluate on the generator's coset and undo it, and pointwise multiplication, subtraction, power distribution and division by the vanishing polynomial equal their polynomial definitions. Scalars and group elements give the same linear map, and requesting a domain larger than the field supports fails with the degree-too-large error.",
  ["inputs", "configurations"], "all lengths including 0, 1, non powers of two and beyond the maximum, several fields and element types, several thread counts",
  "Tests compare implementation pieces with each other on random data in one field; nothing compares with direct evaluation or tries the limits.",
  ["src/domain.rs"], [("serial_fft / parallel_fft / best_fft", "src/domain.rs"), ("EvaluationDomain methods", "src/domain.rs")],
  ["EvaluationDomain::as_ref / into_coeffs", "from_coeffs errors"])

p("C15", "Multi-exponentiation equals the naive sum over the dense bases",
  "For every list of exponents, every density map and every starting offset, multi-exponentiation returns exactly the sum of exponent times base, pairing the dense exponents in order with consecutive bases from the offset. It fails with an unexpected-end error if bases run out where they are needed and with the unexpected-identity error if an identity base is needed, never panics on such input, and never silently returns a wrong sum.",
  ["inputs", "configurations"], "all lengths around window-size changes, exponents 0, 1, small, all-ones and maximal, random densities, offsets, truncated or identity bases, custom base sources, several groups and thread counts",
  "One unit test compares one size with full density and random exponents.",
  ["src/multiexp.rs"], [("multiexp / multiexp_inner windows", "src/multiexp.rs"), ("Source for (Arc<Vec>, usize)", "src/multiexp.rs"), ("DensityTracker", "src/multiexp.rs")],
  ["result of Waiter::wait", "calls made on a recording Source", "DensityTracker::get_total_density"])

p("C16", "Worker jobs run exactly once and always deliver their result",
  "Every job handed to the worker runs exactly once and its waiter yields exactly that job's result, whatever the number of outstanding jobs, the nesting of jobs, the order of waiting and the threads submitting them; scoped tasks have all finished when the scope returns and cover every element exactly once. Dropping a waiter without waiting neither aborts the process nor loses or corrupts other jobs, and waiting from inside a pool thread is refused with a panic instead of deadlocking.",
  ["schedules", "histories"], "all interleavings of submit / wait / drop from many threads, backlog beyond the inline limit, nested submission, injected delays, several thread counts, with and without the multicore feature",
  "No test drives the worker directly, and none drops a waiter or exceeds the backlog limit.",
  ["src/multicore.rs"], [("Worker::compute spawn / scope fallback", "src/multicore.rs"), ("Waiter channel", "src/multicore.rs"), ("Worker::scope chunking", "src/multicore.rs")],
  ["event log of job start/end and waiter results"])

p("C17", "Results do not depend on thread count or on the multicore feature",
  "For the same inputs, transforms, multi-exponentiations, generated parameters and proofs with given randomness are bit-for-bit identical for every number of worker threads, under repeated runs with other load on the pool, and with or without the multicore feature. Every such operation also completes without panicking in every one of these configurations.",
  ["schedules", "configurations"], "thread counts 1..64, concurrent callers, both feature configurations, sizes around every chunking boundary including empty parts",
  "Tests run in one configuration on one machine's thread count; the non-multicore build is only type-checked.",
  ["src/multicore.rs", "src/domain.rs", "src/multiexp.rs", "groth16/src/generator.rs", "groth16/src/prover.rs"],
  [("chunking by Worker::scope", "src/multicore.rs"), ("best_fft / parallel_fft split", "src/domain.rs")],
  ["digests of results from child processes"])

p("C18", "Every satisfied circuit yields an accepted Groth16 proof",
  "For every circuit whose variables are all constrained and every satisfying assignment, key generation followed by proving with any randomness succeeds and the proof is accepted with the circuit's public inputs. This includes circuits with zero coefficients, repeated or cancelling terms, empty constraints, variables used on one side only, interleaved public and private variables, no public or no private variables, and sizes at every power-of-two boundary.",
  ["programs", "inputs"], "randomly generated constraint systems with random satisfying assignments, real gadget circuits, degenerate shapes, on a transparent engine and on BLS12-381",
  "Tests prove three fixed circuits.",
  ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs"],
  [("query densities agree between generator and prover", "groth16/src/prover.rs"), ("filtering of identities in A/B queries", "groth16/src/generator.rs")],
  ["result of create_proof / verify_proof"])

p("C19", "The verifier accepts exactly the pairing equation",
  "Verification of a proof succeeds if and only if the Groth16 pairing equation holds for that key, proof and public inputs; changing any proof element, any public input, their order or the key makes it fail with the invalid-proof error. A number of public inputs other than the key expects fails with the invalid-key error and never with acceptance or a panic.",
  ["inputs"], "valid proofs, algebraically forged proofs, proofs with any component replaced, permuted or perturbed inputs, every input count, on a transparent engine and on BLS12-381",
  "Tests verify a few honest proofs and a couple of wrong inputs.",
  ["groth16/src/verifier.rs"], [("prepare_verifying_key", "groth16/src/verifier.rs"), ("verify_proof", "groth16/src/verifier.rs")],
  ["verify_proof result"])

p("C20", "No accepted proof comes from an unsatisfied circuit or other statement",
  "If the assignment given to the prover violates any constraint of the circuit, or the public inputs presented to the verifier differ from those proved, the resulting proof, if any is produced, is rejected. The same holds when the circuit used for proving differs from the one the key was generated for in any constraint that the assignment violates.",
  ["inputs", "programs"], "random circuits with an assignment violating exactly one random constraint, including the first, last and those at domain boundaries; circuits and keys that differ in one coefficient",
  "Tests check rejection only for wrong public inputs of one circuit.",
  ["groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs"],
  [("QAP reduction: every constraint contributes", "groth16/src/generator.rs"), ("quotient polynomial computation", "groth16/src/prover.rs")],
  ["verify_proof result"])

p("C21", "Batch verification accepts exactly the batches of valid proofs",
  "A batch is accepted when every queued proof verifies individually, and rejected, except with negligible probability over the verifier's randomness, when any one does not, wherever it sits, however the errors of several items are correlated and whatever the batch size. A batch with exactly one invalid proof is always rejected; an empty batch is accepted; any item with the wrong number of inputs gives the invalid-key error; verifying an item singly equals ordinary verification.",
  ["inputs", "histories"], "batches of all sizes with invalid items at any position, complementary errors, duplicated items, adversarial random-number streams including ones yielding zero, tiny and large fields",
  "Tests batch honest proofs and one invalid proof on one curve.",
  ["groth16/src/verifier/batch.rs"], [("Verifier::verify random linear combination", "groth16/src/verifier/batch.rs"), ("Item::verify_single", "groth16/src/verifier/batch.rs")],
  ["Verifier::verify result compared with verify_proof of every item"])

p("C22", "Serialized proofs, keys and parameters round-trip exactly",
  "Writing any proof, verifying key or parameter set and reading it back yields an equal object that behaves identically, consumes exactly the bytes written whatever the reader's chunking, and writing it again yields the same bytes; the size of the encoding is determined by the element counts. Objects written one after another into a stream are read back in sequence, two different objects never share an encoding and never compare equal, and a failing writer's error is returned. The encoding is the established one: compressed points for proofs; uncompressed points and 32-bit big-endian counts, in declaration order, for keys and parameters.",
  ["inputs", "fault_sequences"], "all shapes of parameters including empty queries, readers and writers that transfer few bytes at a time or are interrupted, checked and unchecked reading",
  "One unit test round-trips one fixed parameter set and proof through in-memory buffers.",
  ["groth16/src/lib.rs"], [("Proof/VerifyingKey/Parameters write and read", "groth16/src/lib.rs")],
  ["bytes written", "objects read"])

p("C23", "Malformed encodings are rejected without panic or excess memory",
  "Reading a proof, key or parameter set from arbitrary bytes either fails with an I/O error or yields an object that re-encodes to the bytes consumed: truncated data, encodings off the curve, points outside the prime-order subgroup (when reading checked, and always for proofs and keys) and forbidden points at infinity are all rejected. Reading never panics and its memory use is proportional to the bytes actually supplied, not to a claimed length; reader errors are passed on.",
  ["inputs", "fault_sequences"], "all truncation points, bit flips, crafted points (infinity, off-curve, wrong subgroup, non-canonical), absurd length prefixes, failing readers",
  "The unit test covers identity points in a few positions only.",
  ["groth16/src/lib.rs"], [("read_g1 / read_g2 checks", "groth16/src/lib.rs"), ("length-prefixed vectors", "groth16/src/lib.rs")],
  ["result of read", "allocation counters"])

p("C24", "Generated parameters equal their algebraic definition",
  "For every circuit and every non-degenerate choice of trapdoors, each element of the generated verifying key and of the H, L, A and B queries equals the value prescribed by Groth16 for the circuit's quadratic arithmetic program, in order, omitting exactly the zero A and B polynomials, and none of the query elements is the identity. A zero gamma or delta gives the unexpected-identity error and a private variable with no effect on any constraint gives the unconstrained-variable error. Random key generation draws every trapdoor freshly, independently and over the whole field from the caller's generator.",
  ["programs", "inputs"], "random circuits of all shapes and sizes, random trapdoors and generators, on an engine whose group elements are transparent",
  "One test fixes a tiny circuit and one set of trapdoors.",
  ["groth16/src/generator.rs"], [("KeypairAssembly", "groth16/src/generator.rs"), ("Lagrange coefficients and eval", "groth16/src/generator.rs")],
  ["fields of Parameters and VerifyingKey"])

p("C25", "Proofs equal their algebraic definition and hide the witness",
  "For given randomness r and s the proof equals exactly the Groth16 formula for the circuit's assignment, and for two witnesses of the same statement any proof from one is also a proof from the other for some r and s. Random proving draws fresh, independent, full-range r and s from the caller's generator for every proof, so two proofs of the same statement differ in every element. Proving requests from its parameter source exactly the numbers of elements the circuit prescribes.",
  ["inputs", "programs"], "random circuits with several witnesses, r and s including zero, random number streams, repeated proving",
  "One test compares one proof on a toy engine; randomness of proofs is never checked.",
  ["groth16/src/prover.rs"], [("create_proof combination of A, B and C", "groth16/src/prover.rs"), ("create_random_proof", "groth16/src/prover.rs")],
  ["proof elements on a transparent engine"])

p("C26", "Errors surface as errors and leave the library usable",
  "If synthesis, the parameter source or a base source fails at any point during key generation or proving, the call returns that error (or the documented error for truncated or identity parameters) as soon as the work already started allows, without panicking, aborting or hanging the process and without returning a proof. Afterwards the same process can generate keys, prove and verify correctly.",
  ["fault_sequences", "crash_points"], "a fault of every kind at every call the prover or generator makes to the circuit, parameter source and base source, repeatedly and concurrently, with different thread counts",
  "No test injects any fault.",
  ["groth16/src/prover.rs", "groth16/src/generator.rs", "src/multicore.rs", "src/multiexp.rs"],
  [("? propagation in create_proof", "groth16/src/prover.rs"), ("results dropped by early returns", "src/multicore.rs")],
  ["returned error", "exit status of the process", "a following honest proof"])

p("C27", "Parallel proving code is free of data races and undefined behaviour",
  "No execution of the transforms, multi-exponentiation, worker, key generation, proving, verification or (de)serialization through the safe public API contains a data race, an invalid memory access or other undefined behaviour, for any number of threads and concurrent callers.",
  ["schedules", "inputs"], "workloads over all parallel entry points under ThreadSanitizer, AddressSanitizer and the Miri interpreter, several thread counts, Miri scheduling seeds and sizes",
  "Ordinary tests do not observe races or invalid accesses, and use one thread count.",
  ["src/multicore.rs", "src/domain.rs", "src/multiexp.rs", "groth16/src/generator.rs", "groth16/src/prover.rs"],
  [("scoped parallelism over disjoint chunks", "src/domain.rs"), ("channel hand-over of results", "src/multicore.rs")],
  ["sanitizer and interpreter reports"])

p("C28", "Results do not depend on earlier or concurrent calls",
  "The result of every call (transforms, multi-exponentiations, key generation, proving, preparing a key, single and batch verification, reading and writing keys, circuit synthesis on a constraint system, gadgets, packing, worker jobs) is a function of its arguments, the objects it is called on and the random generator it is given: the calls made before it in the same process, on any data, succeeding, failing or panicking, and the calls running beside it on other threads change neither its value, nor its error, nor the randomness it draws. In particular no cache or reused buffer confuses two calls whose arguments differ in a single component.",
  ["histories", "schedules"], "random histories over twenty kinds of calls whose arguments share all but one or a few components, in one process, sequential and concurrent, on several pool sizes; every result compared with the same call alone in a fresh process",
  "Ordinary tests make one call on fresh data; stale state shows only for particular pairs of calls.",
  ["src/multicore.rs", "src/domain.rs", "src/multiexp.rs", "groth16/src/generator.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs", "groth16/src/verifier/batch.rs", "groth16/src/lib.rs", "src/gadgets/lookup.rs"],
  [("count of spawned jobs, shared by all workers", "src/multicore.rs"), ("batch of queued proofs", "groth16/src/verifier/batch.rs")],
  ["returned values and errors", "written bytes", "verdicts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")

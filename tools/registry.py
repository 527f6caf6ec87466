"""What each check builds and runs."""
import os


def plain(bin_):
    """One executable of the harness crate, built with only this property's code."""
    def parts(prop, here, target):
        def b(build, Error):
            return build(os.path.join(here, "harness"), os.path.join(target, "check"), bin_, ["p" + prop[1:]])
        return [dict(name=bin_, build=b)]
    return parts


def with_alt(bin_, features=(), env="VH_NMC"):
    """As plain, plus a second executable from harness-alt (other features of the library)."""
    def parts(prop, here, target):
        def b(build, Error):
            f = ["p" + prop[1:]]
            alt = build(os.path.join(here, "harness-alt"), os.path.join(target, "alt"), bin_, f + list(features))
            exe = build(os.path.join(here, "harness"), os.path.join(target, "check"), bin_, f)
            return exe, {env: alt}
        return [dict(name=bin_, build=b)]
    return parts


CHECKS = {}


def reg(prop, parts, level, technique, note, assumptions=(), must_observe=()):
    CHECKS[prop] = dict(parts=parts, level=level, technique=technique, note=note, assumptions=list(assumptions), must_observe=list(must_observe))


HARNESS = "the harness crate (field, reference models, forger) is correct; it self-tests its fields and hashes at start"
G = plain("gadgets")
reg("C01", G, "exploration", "online reference-model monitor over recorded linear combinations",
    "every term list seen by a recording constraint system is evaluated under random assignments and compared with the expression tree; held on the sampled expressions only",
    [HARNESS], ["operator_7"])
reg("C02", G, "exploration", "trace monitor: event logs of wrapped vs direct synthesis, with injected errors and panics",
    "event logs at the root of every wrapper stack are compared with the direct log; held on the sampled programs only", [HARNESS], ["injected_errors", "injected_panics"])
reg("C03", G, "exploration", "runtime oracle: verdicts of the testing system against a shadow recorder",
    "every verdict is compared with an independent evaluation of the recorded constraints; held on the sampled systems only",
    [HARNESS, "no two sampled systems collide in BLAKE2s"], ["unsatisfied_verdicts", "satisfied_verdicts", "digest_pairs", "listings_compared"])
reg("C04", G, "exploration", "gadget monitor: value/constraint agreement plus hostile-witness forger; exhaustive on tiny fields",
    "single operations over tiny fields are decided by enumerating every assignment; programs over larger fields by propagation and bounded search", [HARNESS], ["assignments_enumerated", "uniqueness_derived"])
reg("C05", G, "exploration", "gadget monitor: value/constraint agreement plus hostile-witness forger; exhaustive on tiny fields",
    "as C04, for number gadgets", [HARNESS], ["uniqueness_derived"])
reg("C06", G, "exploration", "gadget monitor with hostile-witness forger; every value and every bit string of small fields",
    "small fields exhaustively; large fields by boundary values and by forging the second representative", [HARNESS], ["fields_exhausted", "second_representative_strict"])
reg("C07", G, "exploration", "gadget monitor against native u32 arithmetic plus hostile-witness forger",
    "random programs, all rotations, all operand mixes of additions", [HARNESS], ["uniqueness_derived"])
reg("C08", G, "exploration", "recorded packed constraints, exhaustive difference vectors on tiny fields, integer forger on large ones",
    "decides equivalence of packed constraints to the individual equalities for the sampled sequences", [HARNESS], ["attack_attempts", "accepted"])
reg("C09", G, "exploration", "gadget monitor against an independent SHA-256 plus forger over the captured constraints",
    "all padding-relevant lengths; the digest bits are derived from the input bits over the captured constraints on a subset", [HARNESS], ["uniqueness_derived"])
reg("C10", G, "exploration", "gadget monitor against an independent BLAKE2s plus forger over the captured constraints",
    "all block-relevant lengths and personalizations; digest bits derived from input bits on a subset", [HARNESS], ["uniqueness_derived"])
reg("C11", G, "exploration", "gadget monitor: table lookups enumerated over tiny fields, forger on large ones",
    "every index and every bit form per sampled table; all assignments on tiny fields", [HARNESS], ["assignments_enumerated"])
reg("C12", G, "exploration", "gadget monitor against a Horner reference plus injectivity census",
    "every length around the capacity of each field", [HARNESS], ["outputs_compared"])
reg("C13", G, "exploration", "trace comparison of synthesis runs with different, absent and withheld witnesses",
    "shapes compared term by term over the recording system, the testing system's digest and real key generation", [HARNESS], ["missing_assignment_reported", "proofs_without_witness"])
A = plain("algebra")
TRANSPARENT = "the transparent groups (elements are their discrete logarithms) satisfy the group traits' contracts"
reg("C14", A, "exploration", "online model-based monitor: every domain operation against direct polynomial evaluation",
    "every element compared after every operation, on pools of 1..32 threads; large domains by sampling and a random functional", [HARNESS, TRANSPARENT],
    ["operations", "refused_domains", "whole_output_checks"])
reg("C15", A, "exploration", "runtime oracle over discrete logarithms with recording and fault-injecting base sources",
    "small shapes enumerated; larger ones sampled around window changes", [HARNESS, TRANSPARENT],
    ["sums_compared", "eof_errors", "identity_errors", "source_errors", "shapes_enumerated", "curve_instances"])
reg("C16", with_alt("algebra"), "exploration", "offline checker over totally ordered event logs of worker storms in child processes, deadlock detector",
    "exactly-once, delivery, leak and refusal rules decided per log; schedules are those the machine produced under injected delays", [HARNESS],
    ["delivered", "dropped_waiters", "refused_waits", "storms_without_multicore", "scopes"])
reg("C17", with_alt("algebra"), "exploration", "differential monitor: result digests across thread counts, load and feature configurations",
    "every result of every configuration compared with the one-thread run", [HARNESS],
    ["multicore_configurations", "single_threaded_configurations", "load_rounds"])
S = plain("snark")
ENGINE = "the transparent engine (elements are their discrete logarithms, pairing multiplies them) satisfies the engine traits' contracts"
reg("C18", with_alt("snark"), "exploration", "runtime oracle: every honest proof verified, by the library and by an independent pairing check",
    "random circuits, gadget circuits and exact-size domains over several fields and BLS12-381, on several thread counts and feature configurations; held on the sampled circuits only",
    [HARNESS, ENGINE], ["proofs_accepted", "gadget_circuits", "exact_domains", "pool_runs"])
reg("C19", S, "exploration", "differential monitor: every verdict against the verification equation over discrete logarithms; exhaustive on tiny fields",
    "every verdict of the verifier is compared with the equation evaluated in the exponent; element changes enumerated on tiny fields", [HARNESS, ENGINE],
    ["accepted", "rejected_proof", "rejected_count", "enumerated"])
reg("C20", S, "exploration", "hostile-prover campaign: proofs for changed witnesses, other statements, algebraic and structural forgeries, judged by an independent satisfiability oracle",
    "no forged proof was accepted unless the independent evaluator says the statement holds; computational soundness itself is an assumption", [HARNESS, ENGINE],
    ["proofs_rejected", "side_cases", "other_statements", "changed_witnesses", "public_key_attacks"])
reg("C21", with_alt("snark", features=["g16multicore"], env="VH_MC"), "exploration", "differential monitor: batch verdicts against individual verdicts, with controlled and constant random streams and correlated forgeries",
    "multipliers observed through pairing probes; batches of both entry points, in both feature configurations", [HARNESS, ENGINE],
    ["batches_accepted", "batches_rejected", "correlated_batches", "multicore_entry_point_runs", "zero_randomness_streams"])
reg("C22", S, "exploration", "round-trip monitor over BLS12-381 objects with faulty and short writers and readers, equality oracle, behavioural comparison",
    "held on the sampled keys, parameters and proofs", [HARNESS], ["round_trips", "stream_objects", "writer_faults", "behaviours_compared", "same_pairs", "different_pairs"])
reg("C23", S, "exploration", "hostile byte streams judged by an independent decoder, counting allocator as memory monitor",
    "mutation, truncation, splicing, false counts and crafted group-theoretic attacks; held on the sampled streams only", [HARNESS],
    ["truncations", "false_counts", "reader_faults", "crafted_WrongSubgroup", "crafted_NonCanonical"])
reg("C24", with_alt("snark"), "exploration", "runtime oracle: every key element against its defining formula over discrete logarithms",
    "every element of every generated key compared; held on the sampled circuits and trapdoors only", [HARNESS, ENGINE],
    ["elements_compared", "unconstrained_variables", "zero_trapdoors", "too_large_refused", "trapdoors_recovered"])
reg("C25", with_alt("snark"), "exploration", "runtime oracle: every proof element against the Groth16 formula over discrete logarithms; statistical monitor of the recovered randomness",
    "r and s are recovered from transparent proofs and compared with what the generator delivered; uniformity by chi-square with a false-alarm rate below 1e-9", [HARNESS, ENGINE],
    ["proofs_compared", "witness_pairs", "random_proofs", "requests_compared"])
reg("C26", with_alt("snark"), "exploration", "fault-injection campaign in child processes with deadlock detector; outcome and aftermath monitors",
    "a fault of every kind at every call to the circuit and the parameter source, followed by honest proofs in the same process", [HARNESS, ENGINE],
    ["abandoned_proofs", "honest_after_faults", "error_from_h_source", "truncation_reported", "identity_reported", "too_large"])


reg("C28", S, "exploration", "differential monitor: results within call histories against the same call alone in a fresh process",
    "histories of calls whose arguments share all but a few components, one after another or concurrent, failing and panicking calls included; held on the sampled histories", [HARNESS, ENGINE],
    ["histories", "calls_alone", "calls_after_others", "calls_beside_others", "failing_calls", "panicking_calls"])


def sanitized(prop, here, target):
    import sanitize
    return [dict(name="sanitizers", run=sanitize.run)]


reg("C27", sanitized, "exploration", "ThreadSanitizer, AddressSanitizer and MemorySanitizer builds (with an instrumented standard library) and the Miri interpreter over the parallel workloads",
    "no report on the executions observed; only sanitizer reports count as violations, whatever the workloads compute", 
    [HARNESS, "dependencies other than bellman and groth16 are free of undefined behaviour (crossbeam's deque is suppressed under ThreadSanitizer; aliasing rules are only interpreted on one pool thread)"],
    ["tsan_runs", "asan_runs", "msan_runs", "miri_runs", "scoped_elements", "failed_proofs", "multicore_batches"])

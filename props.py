"""What each check builds and how long it explores."""
SETS = {
    "blas": {"tus": [("ops_tu.cpp", ["TU=%d" % k]) for k in range(28)]},
    "nt": {"tus": [("ops_nt_tu.cpp", ["TU=%d" % k]) for k in (*range(11), 14)], "shim": True, "opt": "-O1",
           "plain": ["nt_model.cpp", "entropy_seam.cpp"]},
    "ntx": {"tus": [("ops_nt_tu.cpp", ["TU=%d" % k]) for k in (11, 12)], "shim": True, "opt": "-O1",
            "plain": ["nt_model.cpp"]},
    "ntb": {"tus": [("ops_nt_tu.cpp", ["TU=13", "NDEBUG"])], "shim": True, "opt": "-O1", "plain": ["nt_model.cpp"]},
    "ntp": {"tus": [("ops_nt_tu.cpp", ["TU=15"])], "shim": True, "opt": "-O1", "plain": ["nt_model.cpp"]},
    "group": {"tus": [("ops_group_tu.cpp", ["TU=%d" % k]) for k in range(2)]},
}
REAL_BLAS = ["vector, matrix and scalar headers of /repo (all functions), compiled from the working tree",
             "real POSIX threads, one running at a time"]
REAL_GROUP = ["point formulas of every coordinate form, subgroup check and pairing drivers of /repo, compiled from the "
              "working tree", "real POSIX threads, one running at a time"]
STUB_BLAS = ["thread scheduler (simulated: seeded, one decision per scheduling point)",
             "mutexes, once-flags and static-initialisation guards (real state, simulated waiting)",
             "operator new/delete (pass-through with injected failures)",
             "element types Zp and Heap (simulator-provided, Heap fails on demand)"]
STUB_GROUP = STUB_BLAS[:3] + ["base field (simulator-provided prime field of 2^31-1; one variant fails on demand), curves "
                              "over it, and a toy pairing behind the drivers"]
REAL_NT = ["fields, extension towers, curve groups and their parameters of /repo, compiled from the working tree",
           "real POSIX threads, one running at a time"]
STUB_NT = STUB_BLAS[:2] + ["multiprecision library (absent here): a stand-in over boost::multiprecision under /verif/shim"]
STUB_RAND = STUB_NT + ["entropy device and random sources (seeded, failing on demand)"]
ASSUME = ["preemption happens at instrumented points; sequentially consistent memory",
          "expected values come from a separate reference model written from the documentation; floating point is "
          "compared with a tolerance, integers and the prime field exactly"]


def P(set_, flavor, quick, thorough, rule, real=REAL_BLAS, stub=STUB_BLAS, assumptions=ASSUME, lim=(100, 600)):
    return {"set": set_, "flavor": flavor, "runs": {"quick": quick, "thorough": thorough},
            "limit": {"quick": lim[0], "thorough": lim[1]}, "rule": rule, "real": real, "stub": stub,
            "assumptions": assumptions}


PROPS = {
    "C01": P("blas", "S", 100000, 4000000,
             "each run is one forked process executing a generated plan of concurrent calls; non-trivial = at least one "
             "caller was preempted inside a library call (or a fault fired, or a request was refused); distinct by "
             "event-log hash"),
    "C02": P("blas", "A", 60000, 4000000,
             "each run is one forked process in which element operations, callbacks or allocations fail inside calls; "
             "non-trivial = a fault fired inside a call, a caller was preempted inside a call or a request was refused; "
             "distinct by event-log hash"),
    "C03": P("blas", "A", 50000, 4000000,
             "each run makes callback-taking calls whose callbacks record, fail, re-enter the library or hand over to "
             "another caller; non-trivial = preempted inside a call or a fault fired; distinct by event-log hash"),
    "C04": P("blas", "A", 12000, 600000,
             "each run is a history of 4 to 60 calls (with repetitions up to 1200) over reused operands and variables; "
             "every run is a multi-step history and counts; distinct by event-log hash"),
    "C05": P("blas", "S", 100000, 4000000,
             "each run stops callers in the middle of calls while the others must finish within their own step budget; "
             "non-trivial = preempted or stopped inside a call, a fault fired or a request refused; distinct by "
             "event-log hash"),
    "C06": P("blas", "A", 40000, 4000000,
             "each run mixes requests that must be refused with valid ones; non-trivial = a request was refused, a caller "
             "was preempted inside a call or a fault fired; distinct by event-log hash"),
    "C07": P("group", "S", 80000, 4000000,
             "each run makes point operations and chains of them by one to four callers sharing points; non-trivial = "
             "preempted inside a call or a fault fired; distinct by event-log hash", REAL_GROUP, STUB_GROUP),
    "C09": P("nt", "S", 80000, 2000000,
             "each run makes calls on the library's own fields and extension towers by one to four callers sharing "
             "operands; non-trivial = preempted inside a call; distinct by event-log hash", REAL_NT, STUB_NT),
    "C10": P("nt", "S", 20000, 2000000,
             "each run makes calls on points of the library's own curves by one to four callers sharing points; "
             "non-trivial = preempted inside a call; distinct by event-log hash", REAL_NT, STUB_NT),
    "C08": P("nt", "S", 8000, 1000000,
             "each run draws random elements and points by one to four callers from sources that may fail; non-trivial = "
             "preempted inside a call or a fault fired; distinct by event-log hash", REAL_NT, STUB_RAND),
    "C11": P("nt", "S", 1500, 300000,
             "each run makes pairing calls by one to four callers sharing points and precomputations; non-trivial = "
             "preempted inside a call; distinct by event-log hash", REAL_NT, STUB_NT),
    "C12": P("ntx", "A", 12000, 1000000,
             "each run makes multi-exponentiation calls by one to four callers sharing bases and scalars, with failing "
             "group operations and allocations; non-trivial = preempted inside a call or a fault fired; distinct by "
             "event-log hash", REAL_NT, STUB_NT + ["one more group, of integers in heap cells, whose operations fail"]),
    "C13": P("ntb", "A", 6000, 1000000,
             "each run encodes, transfers (intact or corrupted) and decodes by one to four callers; non-trivial = "
             "preempted between or inside calls; distinct by event-log hash", REAL_NT,
             STUB_NT + ["the transfer between writer and reader"]),
    "C14": P("ntp", "S", 24000, 2000000,
             "each run prints and hashes by one to four callers sharing values, onto streams that fail or run out of room; "
             "non-trivial = preempted inside a call or a fault fired; distinct by event-log hash", REAL_NT,
             STUB_NT + ["the device behind the output stream (bounded, failing on demand)"]),
}

SIMT = "deterministic simulation with fault injection: "
TRUST = (" Sampled, not exhaustive: finds what its seeds reach. Trusts the reference model, the simulated scheduler and "
         "sequential consistency between scheduling points.")
NOTES = {
    "C01": (SIMT + "seeded preemption at memory accesses, results against a reference model, operand watch",
            "Seeded interleavings of concurrent calls over all functions, sizes 1 to 5 (up to 17 for vectors) and element "
            "types, with every unshielded memory access a scheduling point; each result is compared with the model." + TRUST),
    "C02": (SIMT + "element-operation, callback and allocation failures at every fault point, lifetime accounting",
            "Failures are injected at seeded fault points of the calls; the failure must surface, operands and object "
            "population must be as before and the repeated call must be right; memory errors trapped." + TRUST),
    "C03": (SIMT + "recording, failing, re-entrant and pre-empted callbacks checked against the call contract",
            "Callbacks record what they are given under seeded failures, re-entry and preemption." + TRUST),
    "C04": (SIMT + "seeded histories over reused variables refined against a reference model",
            "Long seeded histories with refusals, failures, repeats and aliasing, every step compared with the model." + TRUST),
    "C05": (SIMT + "callers stopped mid-call, step budgets per call",
            "Progress is judged in the caller's own simulated steps with others stopped for ever; bounds are far above "
            "what the present code takes." + TRUST),
    "C06": (SIMT + "refusals interleaved with valid calls and concurrent callers, checked against the model",
            "Seeded invalid and valid requests under histories and schedules." + TRUST),
    "C07": (SIMT + "preempted, failing and chained point operations against affine textbook addition",
            "All formula headers over toy fields, seeded schedules, failures and chains, compared as affine points." + TRUST),
    "C09": (SIMT + "interleaved, aliased and chained field operations against independent tower arithmetic",
            "All compilable library fields and towers, seeded schedules with preemption inside operations, shared operands, "
            "special and random elements, against arithmetic written from the definitions." + TRUST +
            " The absent multiprecision library is replaced by a stand-in."),
    "C10": (SIMT + "interleaved, aliased and chained point operations on library curves against affine arithmetic",
            "All compilable library curves and forms, seeded schedules with preemption inside operations, rescaled, equal, "
            "opposite and infinite points, against affine addition written from the definition." + TRUST +
            " The absent multiprecision library is replaced by a stand-in."),
    "C11": (SIMT + "interleaved pairing calls over shared points and precomputations against powers of one value",
            "BLS12-381, MNT4-298 and MNT6-298: seeded schedules with preemption inside Miller loops and exponentiations, "
            "random scalars, scalings and infinity; compared with powers of a fixed, published pairing value." + TRUST +
            " The absent multiprecision library is replaced by a stand-in."),
    "C08": (SIMT + "failing, interleaved random sources; reproducibility, reduction, freshness and level counts",
            "Draws from seeded sources and a simulated entropy device that fail and hand over to other callers: what is "
            "drawn must depend on the source alone, be reduced, differ between draws and coefficients, and small fields "
            "must come out level (bounds out of reach by chance)." + TRUST +
            " The absent multiprecision library is replaced by a stand-in."),
    "C12": (SIMT + "interleaved, failing multi-exponentiations against sums of products",
            "All methods, chunk counts, windows and signed windows over library groups and a group that fails on demand, "
            "including no terms, zero, unit, equal and huge scalars, compared with the sum computed from known multiples "
            "of the generator." + TRUST + " The absent multiprecision library is replaced by a stand-in."),
    "C13": (SIMT + "encodings through a transfer that corrupts, tears, truncates and extends, against a separate codec",
            "Encoded bytes are compared with a separate encoder; what arrives after seeded corruption must be read as "
            "that encoder's decoder says, or refused, in a build without assertions and with memory errors trapped." +
            TRUST + " The absent multiprecision library is replaced by a stand-in."),
    "C14": (SIMT + "printing onto failing, bounded and interleaved streams against a separately built text",
            "Elements of every tower shape, points of every representation and precomputations are printed in two bases onto "
            "streams that throw, fill up or hand over to other callers; text, stream state and reported failure are compared "
            "with text built from the stored words; hashes over sets with equal members." + TRUST +
            " The absent multiprecision library is replaced by a stand-in."),
}
NA = {
    "N05": "The headers do not compile at this commit (and the hash library is absent), so there is nothing to run; the "
           "statement concerns published test vectors, which no schedule or fault changes.",
    "N08": "Compile-time evaluation happens inside the compiler, where no simulator can schedule or inject anything.",
}

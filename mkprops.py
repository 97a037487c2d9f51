#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
V = "include/nil/crypto3/algebra/vector/"
M = "include/nil/crypto3/algebra/matrix/"
S = "include/nil/crypto3/algebra/scalar/math.hpp"
A = "include/nil/crypto3/algebra/"
BL = [V + x for x in ("vector.hpp", "math.hpp", "operators.hpp", "utility.hpp")] + \
     [M + x for x in ("matrix.hpp", "math.hpp", "operators.hpp", "utility.hpp")] + [S]
out = []


def p(id, title, st, over, text, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Concurrent calls each return exactly the documented value",
  "Any number of callers may use the vector, matrix and scalar algebra at the same time, sharing operands they only "
  "read, and each call returns exactly the value its documentation defines for its own arguments, whatever the "
  "interleaving and also when it is the first call of the process. A call never writes to an operand it receives for "
  "reading, not even temporarily.",
  ["schedules", "inputs"], "all interleavings of concurrent calls, all operand values, sizes and element types, cold start",
  "The tests are static assertions evaluated by the compiler, one expression at a time: nothing runs, let alone at the "
  "same time, and one or two sizes per function are sampled.",
  BL, [("all state lives in by-value results and locals; no globals, caches or scratch buffers", V + "utility.hpp"),
       ("operands are taken by value or by reference to const", M + "math.hpp")],
  ["return values", "operand memory"])
p("C02", "A failure inside a call reaches the caller and leaves nothing behind",
  "When an element operation, an allocation or a user callback fails inside a call, exactly that failure reaches the "
  "caller; it is never swallowed, replaced or turned into a value. The operands keep their values, everything the call "
  "had made is released exactly once, and repeating the call without the failure gives the fault-free answer.",
  ["fault_sequences", "inputs"], "every point inside every call at which an element operation, allocation or callback can fail",
  "The tests use built-in numbers only, which cannot fail, and check nothing about failure.",
  BL, [("results are built in automatic storage and destroyed on unwinding; no handler intervenes", V + "utility.hpp"),
       ("elimination works on its own copy", M + "math.hpp")], ["exceptions", "element lifetimes", "operands"])
p("C03", "User callbacks are called exactly once per element with the right arguments",
  "A function passed to the elementwise, generate or accumulate operations is called exactly once for every element or "
  "index, with the elements of that position (or that index), and accumulate calls it in order as a left fold starting "
  "from the initial value. After a callback fails it is not called again, and a callback may itself use the library or "
  "be interrupted by other callers without changing any result.",
  ["schedules", "fault_sequences", "inputs"], "all sizes, element types, callback behaviours (failing, re-entrant, pre-empted) and interleavings",
  "The tests pass pure lambdas and look only at the final value, so extra, missing, misordered or re-entrant calls are "
  "invisible to them.",
  [V + "utility.hpp", M + "utility.hpp"],
  [("one application of the callable per index in a single loop", V + "utility.hpp"),
   ("accumulate carries the running value from call to call", V + "utility.hpp"),
   ("matrix generate walks every row and column once", M + "utility.hpp")], ["callback invocations", "return values"])
p("C04", "Results do not depend on history, storage or variable reuse",
  "In any sequence of operations every result equals what the documentation defines for the current operand values: "
  "earlier calls (successful, refused or failed), the number of repetitions, reused storage, and assigning a result over "
  "one of its own operands never change it. Copies are independent, and element writes, iterators and copies always "
  "see the latest values.",
  ["histories", "inputs"], "all finite sequences of calls, element writes, copies, refusals and failures over reused variables",
  "Each test expression is evaluated once in isolation by the compiler; no test runs two operations over the same storage.",
  BL, [("vector and matrix are aggregates that own their elements", V + "vector.hpp"),
       ("functions keep no state between calls", M + "math.hpp")], ["return values along a history"])
p("C05", "Every call finishes in bounded steps, whatever other callers do",
  "Every call on every input, including zeros, infinities, NaN, denormals and singular or extreme operands, returns or "
  "raises within a bounded number of its own steps. It never waits for another caller: it finishes even if every other "
  "caller is suspended for ever in the middle of its own call, and stops promptly after a failure inside it.",
  ["schedules", "fault_sequences", "inputs"], "all inputs, all points at which other callers may be suspended",
  "The tests evaluate a handful of friendly constants (the compiler's own step limit would reject a hanging one) and "
  "have no second caller.",
  BL, [("root finding iterates until the estimate stops improving", S), ("rotation reduces the shift first", V + "utility.hpp"),
       ("no locks or waiting anywhere", M + "math.hpp")], ["steps taken by each call"])
p("C06", "Invalid requests are always refused and leave no trace",
  "A row, column or submatrix outside the matrix (including positions near the top of the index range), the inverse of a "
  "singular matrix, and a square or nth root of a negative number raise an error every time, at any point of any "
  "history and among any concurrent callers. The operands are unchanged afterwards, requests that are valid are never "
  "refused, and later calls behave as if the refused one had not been made.",
  ["histories", "inputs", "schedules"], "all invalid and valid arguments at every point of every history and schedule",
  "A refused request is not a constant expression, so no static assertion covers a single one.",
  [M + "matrix.hpp", M + "utility.hpp", M + "math.hpp", S],
  [("range checks before any access", M + "matrix.hpp"), ("submatrix bounds written without overflow", M + "utility.hpp"),
   ("rank test before inversion", M + "math.hpp"), ("sign test before iterating", S)], ["errors raised", "later results"])

CF = A + "curves/detail/forms/"
p("C07", "Point formulas and pairing drivers act only on their own operands",
  "Adding, mixed-adding and doubling points in every coordinate form, the subgroup check, and the pairing drivers give the "
  "correct result for exactly their own operands, at every step of any chain of operations (points of any scaling, the "
  "identity where doubling accepts it, a point added to itself where the formula is complete) and among concurrent "
  "callers sharing points. They write nothing but the point being updated, pass a failing field operation on to the "
  "caller, release everything they made and finish in bounded steps.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all interleavings, all failure points, all chains of operations on non-exceptional points of any curve",
  "No test of the suite that runs reaches this code (the curve tests need a library that is absent), and those that exist "
  "check a few constant points of a few curves one at a time.",
  [CF + "short_weierstrass/jacobian_with_a4_0/add_2007_bl.hpp", CF + "short_weierstrass/jacobian/dbl_2007_bl.hpp",
   CF + "short_weierstrass/projective/add_1998_cmo_2.hpp", CF + "edwards/inverted/madd_2007_bl.hpp",
   CF + "twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp", CF + "twisted_edwards/inverted/dbl_2008_bbjlp.hpp",
   A + "algorithms/pair.hpp", A + "curves/detail/subgroup_check.hpp"],
  [("formulas read everything they need before or while they update the first operand only",
    CF + "twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp"),
   ("drivers pass each operand's own precomputation on", A + "algorithms/pair.hpp")], ["points", "pairing values"])

# --- properties of the number-theoretic parts ---
F = A + "fields/"
C = A + "curves/"
PR = A + "pairing/"
WHY_NA = "The tests that look at this need the multiprecision library, which is not in this repository, and sample a few constants."
p("C08", "Random elements come only from the source, evenly, reduced and never stale",
  "A random field element is uniform over the whole field and each of its coefficients over the prime field, always "
  "reduced, and a random point is a uniform multiple of the generator. What is drawn depends on the source handed in and "
  "on nothing else: two sources in the same state give the same element whoever else draws, successive draws are new, "
  "and without a source every call reads fresh entropy. When the source fails, exactly that failure reaches the caller.",
  ["schedules", "fault_sequences", "inputs"], "all sources, seeds and failures of the source, all interleavings of draws",
  "No test draws anything that it then looks at, and none can make the entropy device fail.",
  [A + "random_element.hpp"],
  [("uniform integer below the modulus, straight from the source", A + "random_element.hpp"),
   ("extension elements coefficient by coefficient from the same source", A + "random_element.hpp")],
  ["element values", "what the source was asked", "exceptions"])
p("C09", "Field and tower arithmetic is exact for every element and caller",
  "For every supported prime field and extension tower, addition, subtraction, multiplication, squaring, doubling, "
  "negation, inversion, powers, square roots, Frobenius maps, the cyclotomic and unitary shortcuts, sparse products and "
  "comparisons return exactly the element the field's definition gives, always fully reduced, for all elements including "
  "zero, one and minus one. This holds at every point of any chain of operations, also when operands are shared between "
  "concurrent callers, when an operand is also the destination, and on first use; every call finishes.",
  ["schedules", "histories", "inputs"], "all elements of all supported fields and towers, all interleavings and chains of calls",
  "The field tests need a library that is absent here, compare a few constants and make one call at a time.",
  [F + "detail/element/fp.hpp", F + "detail/element/fp2.hpp", F + "detail/element/fp3.hpp",
   F + "detail/element/fp6_2over3.hpp", F + "detail/element/fp6_3over2.hpp",
   F + "detail/element/fp12_2over3over2.hpp", F + "detail/extension_params"],
  [("operations are computed modulo the field characteristic", F + "detail/element/fp.hpp"),
   ("tower products by Karatsuba with the tower's own non-residue", F + "detail/element/fp12_2over3over2.hpp"),
   ("Frobenius coefficients are tabulated per power", F + "detail/extension_params")], ["element values"])
p("C10", "Curve points obey the group law in every form, chain and schedule",
  "On every supported curve and in every coordinate form, addition, mixed addition, doubling, negation, subtraction, "
  "scalar multiplication, conversion between forms and to affine, equality and the well-formedness test agree with the "
  "group law for all points, including infinity, equal and opposite points, and points in any scaling. This holds at "
  "every point of any chain, when the operand is also the destination, and among concurrent callers sharing points.",
  ["schedules", "histories", "inputs"], "all points, scalings and scalars of all supported curves, all interleavings and chains",
  "The curve tests need a library that is absent here, compare a few constants and make one call at a time.",
  [C + "detail/forms/short_weierstrass/jacobian/element_g1.hpp",
   C + "detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp",
   C + "detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp",
   C + "detail/forms/short_weierstrass/projective/element_g1.hpp",
   C + "detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp",
   C + "detail/forms/twisted_edwards/element_g1_affine.hpp", C + "detail/forms/montgomery/element_g1_affine.hpp",
   C + "detail/scalar_mul.hpp"],
  [("published addition formulas with the exceptional cases handled first",
    C + "detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp"),
   ("double-and-add from the top bit", C + "detail/scalar_mul.hpp")], ["affine coordinates of results"])
p("C11", "Pairings are bilinear, non-degenerate and the same by every route",
  "On every supported pairing-friendly curve the reduced pairing of x times one generator and y times the other is the "
  "generators' pairing to the power x y, for all x and y including zero, in any scaling of the points; Miller loops over "
  "precomputed operands, the double Miller loop and the final exponentiation agree with it. This holds for every chain "
  "of calls, when precomputations are reused, and among concurrent callers sharing points and precomputations, which "
  "stay as they were.",
  ["schedules", "histories", "inputs"], "all pairs of points, all reuses of precomputations, all interleavings of pairing calls",
  "The pairing tests need a library that is absent here, compare a few constants and make one call at a time.",
  [PR + "forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp",
   PR + "forms/short_weierstrass/jacobian_with_a4_0/ate_precompute_g2.hpp",
   PR + "forms/short_weierstrass/jacobian_with_a4_0/ate_double_miller_loop.hpp",
   PR + "forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp",
   PR + "forms/short_weierstrass/projective/ate_precompute_g2.hpp", PR + "mnt4/298", PR + "mnt6/298",
   A + "algorithms/pair.hpp"],
  [("Miller loop over precomputed line coefficients", PR + "forms/short_weierstrass/jacobian_with_a4_0/ate_miller_loop.hpp"),
   ("final exponentiation to the group order's cofactor",
    PR + "forms/short_weierstrass/jacobian_with_a4_0/final_exponentiation.hpp")],
  ["pairing values", "precomputed operands"])
p("C12", "Fast multi-exponentiation equals the sum of the products",
  "Every multi-exponentiation method, with any number of chunks, every windowed table and every signed-window "
  "multiplication returns exactly the sum of the bases multiplied by their scalars, for any number of terms including "
  "none and for zero, unit, equal and largest scalars. Bases and scalars keep their values, concurrent callers may share "
  "them, and a failure of a group operation or an allocation reaches the caller and leaves nothing behind.",
  ["schedules", "fault_sequences", "inputs"], "all base and scalar sequences, chunkings, windows, interleavings and failing operations",
  "The multi-exponentiation test needs a library that is absent here, uses one shape of input and makes one call at a time.",
  [A + "multiexp/multiexp.hpp", A + "multiexp/policies.hpp", A + "multiexp/inner_product.hpp", A + "wnaf.hpp"],
  [("chunking, and one accumulation method per policy", A + "multiexp/multiexp.hpp"),
   ("buckets per window, and a heap of scalars", A + "multiexp/policies.hpp"),
   ("signed window digits over odd multiples", A + "wnaf.hpp")], ["points", "exceptions", "element lifetimes"])
p("C13", "Bytes round-trip, and bytes that are no encoding are refused",
  "Writing a field element or a BLS12-381 point gives exactly the published encoding whatever the buffer held before, and "
  "reading it gives the element back. Reading anything else - flipped, torn, truncated, extended, unreduced, off the "
  "curve, mismatched flags, infinity with data behind it - finishes, stays within the bytes given and is refused: by the "
  "flag for field elements and by an exception for points, also in builds without assertions. It holds for concurrent "
  "callers from their first call on.",
  ["fault_sequences", "schedules", "inputs"], "all elements and points, all corruptions of their bytes, all interleavings",
  "There is no test of the encodings at all.",
  [A + "marshalling.hpp", C + "detail/marshalling.hpp"],
  [("flags in the first three bits, then coordinates most significant first", C + "detail/marshalling.hpp"),
   ("field elements least significant byte first", A + "marshalling.hpp")], ["bytes", "points", "refusals"])
E = A + "fields/detail/element/"
SW = C + "detail/forms/short_weierstrass/"
p("C14", "Printed text names the value, and a failing stream is reported",
  "Inserting a field element, curve point or pairing precomputation into an output stream writes exactly its stored "
  "coordinates, as numbers in the stream's base and nested like the tower in brackets; points and precomputations come "
  "out as JSON objects with their members' names. It leaves the stream's settings and the value as they were. When the "
  "stream fails part-way - by an error or for want of room - what was written is a beginning of that text and the stream "
  "reports the failure. Equal elements hash equal. This holds among concurrent callers printing shared values.",
  ["fault_sequences", "schedules", "inputs"], "all values, stream settings, points of failure and interleavings",
  "No test prints or hashes anything.",
  [E + x for x in ("fp.hpp", "fp2.hpp", "fp3.hpp", "fp4.hpp", "fp6_2over3.hpp", "fp6_3over2.hpp", "fp12_2over3over2.hpp")] +
  [SW + x for x in ("jacobian_with_a4_0/element_g1.hpp", "jacobian/element_g1.hpp", "jacobian_with_a4_minus_3/element_g1.hpp",
                    "projective/element_g1.hpp", "projective_with_a4_minus_3/element_g1.hpp", "element_g1_affine.hpp")] +
  [C + "detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp",
   C + "detail/forms/twisted_edwards/inverted/element_g1.hpp", C + "detail/forms/twisted_edwards/element_g1_affine.hpp",
   C + "detail/forms/montgomery/element_g1_affine.hpp", PR + "forms/short_weierstrass/jacobian_with_a4_0/types.hpp",
   PR + "forms/short_weierstrass/projective/types.hpp"],
  [("stream insertion coordinate by coordinate", SW + "jacobian_with_a4_0/element_g1.hpp"),
   ("hash of the stored numbers", E + "fp.hpp")], ["text", "stream state", "hash values"])
p("N05", "Hashing to a curve conforms to its specification",
  "Hashing a message to a curve group produces the point the published suite prescribes for every message and tag.",
  ["inputs"], "all messages and domain tags", WHY_NA,
  [C + "detail/h2c/h2c_iso_map.hpp", C + "detail/h2c/h2c_m2c.hpp"],
  [("suite parameters and isogeny maps", C + "detail/h2c/h2c_iso_map.hpp")], ["points"])
p("N08", "Every expression gives the same value at compile time and at run time",
  "Each vector, matrix and scalar expression that is usable in a constant expression evaluates to the same value at "
  "compile time and at run time.",
  ["programs"], "all constant expressions",
  "The tests evaluate a few expressions at compile time only.", BL,
  [("constexpr functions without run-time branches", V + "utility.hpp")], ["values"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")

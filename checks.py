"""Configuration of the checks: which monitor runs which workload for which property."""

import sysconfig


def q(quick, thorough):
    return {"quick": quick, "thorough": thorough}


CHECKS = {
    "C01": dict(
        runs=[dict(sources=["p_arf.cc"], defs=["-DWITH_SHAPES"], shapes=[("arf", q((6, 14), (8, 60)))], cases=q(2400, 120000))],
        rule="A case draws operands (small, wide, cancelling, extreme exponents, infinite, NaN), precisions and roundings, and evaluates "
             "a randomly generated expression shape compiled against the real templates; it counts when no subexpression divides by zero or infinity, "
             "and is distinct by shape and operands.",
        must_observe=["expressions compared with the exact model", "exact evaluations"],
    ),
    "C02": dict(
        runs=[dict(sources=["p_arf.cc"], cases=q(30000, 400000))],
        rule="A case draws pairs of dyadic numbers (ties and neighbours of doubles, subnormals, exponents beyond 64 bits) and compares every constructor, "
             "conversion, shift, comparison, hash and print with exact rational arithmetic; distinct by the pair.",
        must_observe=["values compared", "conversions", "comparisons", "floor/ceil", "hashes of equal values", "printed"],
    ),
}

_WORLDS = ["worlds with a rational generator", "worlds with many variables", "worlds with many terms", "worlds with high degrees", "worlds with large coefficients"]

CHECKS["C03"] = dict(
    runs=[dict(sources=["p_arb.cc"], defs=["-DWITH_SHAPES"], shapes=[("arb", q((6, 12), (8, 50)))], cases=q(1600, 80000)),
          dict(sources=["p_arb.cc"], case="C03b", cases=q(1500, 60000))],
    rule="A case draws balls (exact, touching zero, wide, cancelling, extreme, infinite), precisions, and a generated expression shape; exact values at points of the balls "
         "must be enclosed and the ball must be about as tight as operation by operation evaluation. The second half does the same for constructors and conversions. Distinct by shape and operands.",
    must_observe=["values that must be contained", "finite balls compared with operation by operation evaluation", "rationals enclosed accurately", "intervals enclosed accurately",
                  "balls converted", "number field elements enclosed accurately", "strings enclosed"],
)
CHECKS["C04"] = dict(
    runs=[dict(sources=["p_arb.cc"], cases=q(36000, 400000))],
    rule="A case draws two balls, often touching or nearly so, and integers of all types and rationals next to their bounds; the answer of all six operators is compared with the truth for "
         "all numbers in the balls. Distinct by the pair of balls.",
    must_observe=["decided comparisons", "undecided comparisons", "comparisons with rationals"],
)
CHECKS["C05"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(12000, 200000))],
    rule="A case logs the approximations returned for a history of queries (random precisions, enough of them to evict cached values) on rationals, random reals, reals in intervals, and products, "
         "and afterwards checks the log against the value of the number. Distinct by numbers and history.",
    must_observe=["approximations checked", "repeated queries", "approximations of products", "numbers created again while alive", "numbers created again after they were gone"],
)
CHECKS["C06"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(40000, 300000))],
    rule="A case asks for balls of a random precision around real numbers of all kinds, refines balls that contain them, and locates them relative to balls (often with the number near the boundary). Distinct by number and precision.",
    must_observe=["balls checked", "balls refined", "balls that were good enough", "positions outside of a ball", "positions inside of a ball"],
)
CHECKS["C07"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(40000, 1000000))],
    rule="A case converts real numbers of all kinds, many of them next to the midpoint of two doubles, subnormal, or overflowing. Distinct by number.",
    must_observe=["conversions to double", "conversions of rationals"],
)
CHECKS["C08"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(18000, 200000))],
    rule="A case compares five real numbers with each other and with integers of all types, GMP integers, rationals and floats chosen next to them. Distinct by pair.",
    must_observe=["comparisons", "pairs of reals", "comparisons of equal values"],
)
CHECKS["C09"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(12000, 150000))],
    rule="A case creates random numbers in random intervals and close to random doubles, from given and fresh seeds, and again in a forked process. Distinct by the parameters.",
    must_observe=["seeds from other threads", "seeds that differ from all the earlier ones", "numbers in intervals with a common end", "numbers in their interval", "numbers close to their double", "fresh numbers that differ", "numbers reproduced by another process", "distributions", "distributions in intervals"],
)
CHECKS["C10"] = dict(
    runs=[dict(sources=["p_real.cc"], cases=q(30000, 300000))],
    rule="A case is a history of products, divisions, comparisons and dropped references over up to five numbers (sometimes with enough unrelated products to flush caches), checked against exponent vectors. Distinct by history.",
    must_observe=["products that were already known", "new products", "products of more than 32 numbers", "exact divisions", "divisions that are not exact", "products forgotten", "caches flushed", "monomials compared", "monomials of degree more than 127 compared", "values of products"],
)
CHECKS["C11"] = dict(
    runs=[dict(sources=["p_module.cc"], cases=q(48000, 200000))],
    rule="A case creates a handful of modules over Z, Q and K from permuted, repeated and extended lists of generators (some of which only the module keeps alive, with caches flushed in between) and "
         "checks generators, constants, spans, submodules and identity against sets of monomials. Distinct by generators and rings.",
    must_observe=["modules checked", "modules created again", "spans", "submodules", "not submodules", "ones", "rejected with the documented exception", "products kept alive by modules", "caches flushed", "spans over different fields", "trivial modules over different fields", "modules over different fields"],
)
CHECKS["C12"] = dict(
    runs=[dict(sources=["p_arithmetic.cc"], cases=q(30000, 150000))],
    rule="A case draws two elements over Z, Q or K in related modules (often cancelling or sharing memory) and applies an operation; the result must be the polynomial with the right coefficients in a right module, and the "
         "operands must be untouched. Distinct by operands and operation.",
    must_observe=_WORLDS + ["elements with a past", "elements asked again after a change", "elements checked", "sums and differences", "products", "negations", "products with machine integers", "products with GMP numbers", "products with number field elements", "products with real numbers", "products with zero",
                  "exact divisions by scalars", "aliased operands", "complete cancellations", "copies", "elements over the rationals among those over number fields"],
)
CHECKS["C13"] = dict(
    runs=[dict(sources=["p_division.cc"], cases=q(20000, 120000))],
    rule="A case divides elements by elements, scalars and zero, half of the time a product by one of its factors; quotients must multiply back exactly, missing quotients must really not exist, and floors of quotients must be the floors of the real "
         "quotients computed from the definition of the generators. Distinct by operands and operation.",
    must_observe=_WORLDS + ["elements with a past", "quotients of many terms", "elements checked", "exact quotients", "exact quotients of several terms by several terms", "divisions with a remainder", "divisions of integers with a remainder", "divisions by zero", "divisions by scalars",
                  "divisions by number field elements", "floors of quotients", "floors of quotients that are integers"],
)
CHECKS["C14"] = dict(
    runs=[dict(sources=["p_approximation.cc"], cases=q(12000, 400000))],
    rule="A case draws an element (large cancelling terms, next to integers, next to midpoints of doubles, subnormal, overflowing), and compares balls of random accuracy, floor, ceiling and double with enclosures of the value computed "
         "independently. Distinct by element.",
    must_observe=_WORLDS + ["elements with a past", "balls checked", "conversions that overflow", "elements with more than 24 generators", "conversions to double", "conversions to subnormal doubles", "floors and ceilings", "integers rounded"],
)
CHECKS["C15"] = dict(
    runs=[dict(sources=["p_order.cc"], cases=q(14000, 250000))],
    rule="A case draws two elements in related modules, often equal, equal up to the module, or differing by very little, and compares them with each other, generators, machine integers and rationals. Distinct by the pair.",
    must_observe=_WORLDS + ["elements with a past", "comparisons of different values", "comparisons of equal values", "comparisons with generators", "comparisons with machine integers", "comparisons with rationals", "hashes of equal elements", "elements compared that differ in one coefficient"],
)
CHECKS["C16"] = dict(
    runs=[dict(sources=["p_representation.cc"], cases=q(40000, 250000))],
    rule="A case draws an element and writes it over another ring or module (promotion, simplification, rational coefficients, unit, optional rational, text, combinations of different number fields), which must preserve the value exactly or be "
         "refused when it is impossible. Distinct by element.",
    must_observe=_WORLDS + ["elements with a past", "elements asked again after a change", "coercions", "constants", "elements checked", "elements over different fields combined", "elements printed", "impossible promotions rejected", "integers", "lists of rational coefficients", "not rationals", "not units",
                  "promotions", "rational generators", "rationals", "simplifications", "units"],
)
CHECKS["C17"] = dict(
    runs=[dict(sources=["p_cereal.cc"], cases=q(5000, 60000))],
    rule="A case saves a bundle of floats, balls, real numbers, modules and elements in one of three archive formats and restores it in this process (numbers alive or gone) and in a freshly started process that already knows some of the "
         "numbers in another order. Distinct by bundle.",
    must_observe=_WORLDS + ["products of high degree restored", "numbers with exponents of more than 32 bits", "modules of large rank restored", "objects checked in a fresh process", "balls restored", "elements restored", "elements restored by the helpers for Python", "floats restored", "modules restored", "real numbers restored",
                  "rejected with the documented exception"],
)

_ALL = ["p_arf.cc", "p_arb.cc", ("p_arf.cc", ["-DWITH_SHAPES"]), ("p_arb.cc", ["-DWITH_SHAPES"]), "p_real.cc", "p_module.cc", "p_arithmetic.cc", "p_division.cc", "p_approximation.cc", "p_order.cc", "p_representation.cc", "p_cereal.cc", "p_rings.cc", "p_print.cc", "p_helpers.cc"]
CHECKS["C18"] = dict(
    runs=[dict(sources=_ALL + ["p_memory.cc"], shapes=[("arf", q((2, 12), (8, 30))), ("arb", q((2, 10), (8, 25)))], cases=q(1600, 40000)),
          dict(sources=[s for s in _ALL if isinstance(s, str)] + ["p_memory.cc"], variant="plain", valgrind=True, cpu=600, cases=q(160, 6000))],
    rule="A case is a random script of copies, moves, assignments and operations on values of one of nine types, a process that ends with objects in static storage, or values printed to streams that run out of space, thousands of different approximations of one number, or a case of one of the other monitors. Everything but the second is repeated "
         "while the caches are flushed in between, and the memory in use is compared. All under ASan and UBSan. Distinct by script.",
    must_observe=["workloads repeated", "lifetimes", "processes with objects in static storage", "copies", "moves", "assignments", "move assignments", "self assignments", "changes by itself", "streams with just enough room", "numbers asked for thousands of approximations", "streams that failed", "streams that failed with exceptions"]
    + ["workload of " + c for c in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C22", "C23", "C24"]],
)
_WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=_Znwm", "-Wl,--wrap=_ZdlPvm", "-Wl,--wrap=_ZdlPv"]
CHECKS["C20"] = dict(
    runs=[dict(sources=["p_threads.cc"], variant="tsan", ldflags=_WRAP, shards=4, cases=q(800, 12000)),
          dict(sources=["p_threads.cc"], variant="asan", ldflags=_WRAP, shards=4, cases=q(1200, 20000))],
    rule="A case starts 2-6 threads that run random scripts over the same few numbers (create, multiply, divide, approximate, compare, drop, hand over, serialize; modules and elements over Z and Q built from them; elements shared by all), "
         "with random delays at lock operations and allocations; every eighth case is a burst of fresh numbers instead. Once with TSan, once with ASan. Distinct by the order in which the operations of the threads started.",
    must_observe=["objects shared at the same time", "fresh numbers", "approximations checked", "comparisons checked", "elements checked", "switches between threads", "delays injected", "objects found again"],
)

CHECKS["C19"] = dict(
    runs=[dict(sources=["p_faults.cc"], cases=q(12000, 400000))],
    rule="A case performs a few operations on numbers, modules, elements, floats, balls and archives. Each is first run with the first, second, third … allocation refused (by itself or with all later ones) until it succeeds, or "
         "with arguments that it must refuse. Distinct by operation and by the place in the code whose allocation was refused.",
    must_observe=["operations that ran out of memory", "digits of numbers compared", "retries that succeeded", "failures repeated", "scenes checked", "numbers checked", "products checked", "operations refused because of their arguments"],
)

CHECKS["C22"] = dict(
    runs=[dict(sources=["p_rings.cc"], cases=q(60000, 600000))],
    rule="A case draws a ring, elements of it, and scalars of all types (that divide and that do not, zero, extreme, the element itself), multiplies and divides in place, and asks for unit, floor, rational, enclosure, coercions, and "
         "composita. Distinct by ring and elements.",
    must_observe=["products", "quotients", "divisions by zero refused", "refused since not in the ring", "aliased operands", "elements of rings", "rings compared", "embeddings of the same field compared", "elements brought into another field"],
)

CHECKS["C23"] = dict(
    runs=[dict(sources=["p_print.cc"], cases=q(32000, 200000))],
    rule="A case prints real numbers of all kinds with a random number of digits, products, modules, and elements (also once simplified and in a larger module), and compares with a text assembled from the model. Distinct by number and element.",
    must_observe=_WORLDS + ["elements with a past", "rationals printed", "random numbers printed", "numbers in an interval printed", "numbers in an interval compared with their printed parts", "numbers printed with an approximation", "products printed", "products of high degree printed", "elements printed",
                  "sums printed", "elements with negative coefficients printed", "modules printed"],
)

CHECKS["C24"] = dict(
    runs=[dict(sources=["p_helpers.cc"], cases=q(40000, 400000))],
    rule="A case draws floats, balls, and two elements over Z, Q, or K, and combines them through the functions that exact-real/cppyy.hpp offers to Python: expressions (nested, evaluated twice, with integers on either side), "
         "arithmetic, quotients, scalars of all types on both sides, and explicit conversions. Distinct by elements.",
    must_observe=["floats evaluated", "balls evaluated", "elements computed", "quotients", "rational elements", "elements that are not rational"],
)

CHECKS["C21"] = dict(
    runs=[dict(sources=["p_python.cc"], cflags={"p_python.cc": ["-I" + sysconfig.get_path("include")]}, ldflags=["-L" + str(sysconfig.get_config_var("LIBDIR")), "-lpython" + str(sysconfig.get_config_var("LDVERSION"))], cases=q(32000, 600000)),
          dict(case="C24", sources=["p_helpers.cc"], cases=q(4000, 40000))],
    rule="A case runs a script of the operations that pyexactreal offers (construction from random numbers, arithmetic, scalars on both sides, quotients, floors, comparisons, conversions, hashes, pickles, modules, expressions of balls) "
         "in an embedded interpreter. Distinct by script.",
    must_observe=["elements compared", "comparisons", "exact quotients", "quotients refused", "floors", "conversions", "hashes", "pickles", "random elements", "expressions evaluated", "comparisons of balls", "comparisons undecided", "floats evaluated from Python", "parents",
                  "calls of the library from Python"],
)

CHECKS["C25"] = dict(
    runs=[dict(sources=["p_switches.cc", "p_real.cc", "p_arithmetic.cc", "p_approximation.cc", "p_order.cc", "p_print.cc"], cases=q(64, 4000))],
    rule="A case starts a fresh process with the switches LIBEXACTREAL_NOCHECK and LIBEXACTREAL_NOASSERT unset, off, or on in some spelling. The process runs cases of the monitors of C05, C06, C08, C10, C12, C14, C15, and C23, and, "
         "if nothing is switched off, checks that invalid arguments are refused. Distinct by setting and workload.",
    must_observe=["cases of other monitors", "arguments refused", "arguments refused by assertions", "elements checked", "approximations checked", "processes with checks on and assertions on", "processes with checks on and assertions off",
                  "processes with checks off and assertions off"],
)

_SAN = "Runtime monitoring: randomized workload under ASan+UBSan, "
_LIM = " Holds on the executions explored, which are reproducible from the seed; trusts FLINT/GMP, and the stand-ins for the absent submodules."
for _p, _t, _n in [
    ("C01", "oracle: exact rational model rounded independently", "Every evaluated expression is compared with an independent model of correct rounding; shapes are generated anew for every seed."),
    ("C02", "oracle: exact rational arithmetic with GMP", "Every conversion, comparison, shift and print is compared with exact arithmetic."),
    ("C03", "oracle: containment of exactly computed values", "Exact values at points of the operands have to be contained; width is compared with operation by operation evaluation by FLINT."),
    ("C04", "oracle: truth of the comparison for all numbers of the balls", "The three valued answer is compared with the one computed from exact bounds."),
    ("C05", "offline checker of logged approximations", "All logged approximations must fit one value, which for products and constrained numbers is computed independently."),
    ("C06", "oracle: enclosures from independent high precision queries", "Balls, refinements and locations are checked against narrower enclosures of the number."),
    ("C07", "oracle: rounding of independent enclosures", "The double must be the nearest to a narrow enclosure of the number."),
    ("C08", "oracle: exact values and enclosures", "Every answer is compared with the sign decided from exact values."),
    ("C09", "oracle: documented ranges, second process, statistics", "Ranges are decided exactly, reproduction in a forked process, and distribution by a coarse statistical test with a negligible false alarm rate."),
    ("C10", "online monitor of histories against exponent vectors", "Pointer identity, division and order are compared with a model of monomials."),
    ("C11", "online monitor of histories against sets of monomials", "Identity, span, submodule and canonical elements are compared with a model."),
    ("C12", "oracle: polynomial arithmetic", "Coefficients of every result are compared with an independent polynomial model."),
    ("C13", "oracle: polynomial division and exact floors", "Quotients must multiply back, refusals are checked for a missed quotient, and floors are decided from enclosures of the generators."),
    ("C14", "oracle: enclosures computed from the generators", "Balls, floors, ceilings and doubles are compared with enclosures of the exact value that are refined until they decide."),
    ("C15", "oracle: exact equality and enclosures of the difference", "Equality is decided by the polynomial model and order by refining enclosures."),
    ("C16", "oracle: polynomial model across rings and modules", "Every rewritten form is compared with the polynomial model, refusals are checked to be necessary."),
    ("C18", "all reports of the sanitizers; memory in use compared over repetitions of the same workload", "Memory errors and undefined behaviour are decided by ASan and UBSan, leaks (also of reachable memory) by growth over repetitions."),
    ("C19", "fault injection into every allocation; oracle: models of all objects", "After every failure all objects are compared with their models, and the operation is run again and compared with its model."),
    ("C20", "threads under TSan and ASan with injected delays; offline checker of per-thread logs", "Data races are decided by TSan; identity, freshness, values and order by checking the logs against a sequential model; deadlocks by a watchdog."),
    ("C22", "oracle: exact arithmetic with GMP and an independent model of number fields", "Every result and every refusal is compared with the exact model."),
    ("C23", "oracle: text assembled from the model", "Printed text is compared with the one assembled from independently computed values and coefficients, or parsed and compared with the value."),
    ("C21", "oracle: exact polynomials, driven by the Python modules in an embedded interpreter", "The real Python modules run against the real library; small stand-ins take the place of cppyy and SageMath, which are not available, and an expression whose operands Python dropped is reported."),
    ("C24", "oracle: models of floats, balls, and polynomials", "Every result is compared with the same models that decide C01, C03, C12, and C13."),
    ("C25", "the models of other monitors in processes with all settings of the switches", "Results are decided by the models of other monitors, refusals are checked when the switches do not permit to skip them."),
    ("C17", "round trip across freshly started processes", "Restored objects are compared with a description of the originals in the same and in a fresh process."),
]:
    CHECKS[_p]["technique"] = _SAN + _t
    CHECKS[_p]["note"] = _n + _LIM

NOT_APPLICABLE = {}

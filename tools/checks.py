"""Which harness decides which property, and for how long."""

RULE = ("One evaluation is one simulated execution: a program of random operations per thread, a schedule chosen at memory-access, "
        "lock and operation granularity, and a fault sequence, all drawn from one seed. A run is non-trivial when the scheduler made at "
        "least one switch that was not forced by blocking or termination, or at least one fault fired; distinct means that the hash of "
        "its program, schedule, faults and observed results was not seen before in this check.")

STUB = ["thread scheduling, locks and static-initialisation guards (simulated)", "heap (deterministic allocator with failure injection)",
        "clocks (virtual)", "libgmp and libstdc++ binaries run for real but without scheduling points inside"]


TECH = "deterministic simulation: seeded search over thread schedules and injected faults, reference-model and happens-before oracles"
NOTE = ("Seeded sampling of programs, schedules and fault sequences, not enumeration: no violation in the sampled runs. Trusts the simulator "
        "runtime and the reference model in the harness; libgmp and libstdc++ run uninstrumented.")


def c(harnesses, real, quick_s=25, thorough_s=420, assumptions=(), rule="", stub=STUB, technique=TECH, note=NOTE):
    return {"harnesses": harnesses, "real": real, "stub": stub, "quick_s": quick_s, "thorough_s": thorough_s,
            "assumptions": list(assumptions), "rule": rule, "technique": technique, "note": note}


CHECKS = {
    "C01": c([("variable", 1)], ["carl/core/Variable*", "carl/core/VariablePool*"],
             assumptions=["the registry is cleared only while no other thread uses it", "creation of persistent variables runs without allocation failures (declared noexcept)"]),
    "C02": c([("monomial", 1)], ["carl/core/Monomial*", "carl/core/MonomialPool*", "carl/core/VariablePool*", "carl/util/IDPool.h", "carl/util/Pool*"]),
    "C08": c([("ids", 1)], ["carl/util/IDPool.h", "carl/util/IDGenerator.h", "carl/util/Bitset.h"]),
    "C10": c([("primes", 1)], ["carl/numbers/PrimeFactory.h", "carl/numbers/FactorizationFactory.h"]),
    "C12": c([("timing", 1)], ["carl/util/Timer.h", "carl-statistics/Timing.h"], quick_s=15),
    "C13": c([("stats", 1)], ["carl-statistics/*"], assumptions=["a transient write error leaves the content of that file unspecified (the standard library retries its buffer); values and later exports are still checked"]),
    "C11": c([("logging", 1)], ["carl-logging/*"], assumptions=["sinks, filters and formatters are changed only while no thread is inside a logging call", "allocation failures are not injected (the filter is declared noexcept)", "after a hard write error nothing is claimed about that sink itself"]),
    "C14": c([("settings", 1)], ["carl-settings/*", "boost::program_options (uninstrumented)"]),
    "C15": c([("dimacs", 1)], ["carl-io/DIMACSImporter.h", "carl-io/DIMACSExporter.h", "carl/formula/*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"]),
    "C09": c([("cache", 1)], ["carl/util/Cache.*"], assumptions=["clients make storing and registering one step (known finding)", "entries are refined and merged only while no other thread reads them", "allocation failures are not injected into storing"]),
    "C03": c([("poly", 1)], ["carl/core/MultivariatePolynomial*", "carl/core/Term*", "carl/core/Monomial*", "carl/core/UnivariatePolynomial*", "carl/core/polynomialfunctions/*", "carl/util/TermAdditionManager.h"],
             assumptions=["a polynomial is read by several threads only through operations that do not reorder it (comparison by order and hashing sort their argument)", "the target of a failed in-place operation keeps some valid value"]),
    "C04": c([("constraint", 1)], ["carl/formula/Constraint*", "carl/formula/ConstraintPool*", "carl/formula/ConstraintRaw.h", "carl/core/*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["truth values are compared at sampled points", "without CoCoA the factorisation is the trivial one"]),
    "C05": c([("bv", 1)], ["carl/formula/bitvector/*", "carl/util/Pool.h", "carl/util/boost_util.h"]),
    "C06": c([("uf", 1)], ["carl/formula/Sort*", "carl/formula/uninterpreted/*"],
             assumptions=["the managers have no locks: clients are switched between calls only", "sort definitions do not index their own parameters"]),
    "C07": c([("formula", 1)], ["carl/formula/Formula*", "carl/formula/helpers/*", "carl/formula/Constraint*", "carl/formula/bitvector/*", "carl/formula/uninterpreted/*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["truth values are compared in 32 sampled worlds", "an equivalence of fewer than two formulas is not built (the existing tests pin it to its operand)", "an exclusive or of opposite and repeated operands need not be shared between constructors"]),
    "C16": c([("interval", 1)], ["carl/interval/*", "boost::numeric::interval"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["enclosure is compared at the ends, zero and sampled points of the arguments", "magnitudes stay between 1e-60 and 1e60, elementary functions within [-20,20]"]),
    "C17": c([("groebner", 1)], ["carl/groebner/*", "carl/core/MultivariatePolynomial*", "carl/core/Monomial*", "carl/util/Heap.h"],
             assumptions=["a computation that was cut off by an allocation failure is abandoned; everything else must be unaffected", "ideals whose reference basis is expensive are skipped", "graded lexical order, up to four variables"]),
    "C18": c([("ran", 1)], ["carl/ran/interval/*", "carl/core/UnivariatePolynomial*", "carl/core/polynomialfunctions/*", "carl/interval/*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["polynomials up to degree six built from a small set of factors, so that roots coincide", "roots of polynomials whose other variables are algebraic numbers need the optional CoCoA library and are not isolated here"]),
    "C19": c([("factorized", 1)], ["carl-extpolys/FactorizedPolynomial*", "carl-extpolys/PolynomialFactorizationPair*", "carl-extpolys/substitution.h", "carl-extpolys/evaluation.h", "carl/util/Cache*", "carl/core/MultivariatePolynomial*"],
             assumptions=["clients are interleaved between operations (the class does not lock the factors it reads)", "capacity of the shared cache between one entry and practically unbounded"]),
    "C26": c([("model", 1)], ["carl-model/*", "carl/formula/Formula*", "carl/formula/FormulaPool*", "carl-model/*", "carl/ran/*", "carl/core/MultivariatePolynomial*", "carl/formula/bitvector/*", "carl/formula/uninterpreted/*"],
             assumptions=["four real, four Boolean, two bit-vector and three uninterpreted variables and one unary function per run", "expression values refer to variables in a fixed order, so none depends on itself", "algebraic numbers are of the form a + b*sqrt(2) and used by one task only", "root expressions with algebraic values need the optional CoCoA library and are not evaluated here", "each model is used by one client at a time"]),
    "C27": c([("univariate", 1)], ["carl/core/UnivariatePolynomial*", "carl/core/polynomialfunctions/*", "carl/core/MultivariatePolynomial*", "carl/core/MonomialPool*", "carl/util/TermAdditionManager.h", "carl/interval/Interval.h"],
             assumptions=["number coefficients up to degree 11, polynomial coefficients up to degree 4 in the main variable for elimination and two other variables", "polynomials with known real roots are products of linear factors, x^2-n and x^2+n", "contents and greatest common divisors of polynomial coefficients need the optional CoCoA library and are not computed here", "factorization is asked for polynomials whose outer coefficients are below 5000"]),
    "C28": c([("opb", 1)], ["carl-io/OPBImporter.*", "carl-io/SpiritHelper.h", "carl/formula/Formula*", "boost::spirit"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["the file does not change while it is read", "constraints of the imported problem are compared by evaluation at sampled 0/1 assignments, the parsed structure exactly"]),
    "C29": c([("contract", 1)], ["carl/interval/Contraction.h", "carl/interval/Contractor.h", "carl/interval/*", "carl/formula/Constraint*", "carl/core/MultivariatePolynomial*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["polynomials of total degree at most four in two real and two integer variables", "each constraint is compared at the solution it was built around", "bounds are zero or between 1e-12 and 1e4 in magnitude, so that quotients do not overflow", "propagation is used with the two forms of constraints it is documented for"]),
    "C30": c([("sets", 1)], ["carl/interval/*", "boost::numeric::interval"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["membership is compared at all bounds involved, between them and beyond them, which decides equality of the sets", "the complement of a floating-point interval does not compile and is not used", "samples are drawn from intervals with a number between their bounds"]),
    "C31": c([("gcd", 1)], ["carl/core/polynomialfunctions/GCD*", "carl/core/polynomialfunctions/PrimitiveEuclidean.h", "carl/core/polynomialfunctions/LCM.h", "carl/core/polynomialfunctions/Content.h", "carl/core/polynomialfunctions/PrimitivePart.h", "carl/core/MultivariatePolynomial*", "carl/core/UnivariatePolynomial*", "carl/core/MonomialPool*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["products of up to a few factors of degree at most two in one to four variables, at most 14 terms of total degree six (nine terms of degree four from three variables on)", "that no larger common divisor exists is decided by specialising all but one variable at random values"]),
    "C32": c([("ratfun", 2), ("ratfact", 1)], ["carl-extpolys/RationalFunction*", "carl-extpolys/FactorizedPolynomial*", "carl/core/polynomialfunctions/GCD*", "carl/core/MultivariatePolynomial*", "carl/util/Cache*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["with factorised polynomials clients are interleaved between operations (the class does not lock the factors it reads)", "hashes are compared for plain polynomials only, those of factorised ones depend on the factorisation", "derivatives and text are observed for factorised polynomials only and the collection of variables not at all, since they do not compile otherwise"]),
    "C33": c([("vs", 1)], ["carl/vs/*", "carl/formula/Constraint*", "carl/core/VariableInformation*", "carl/core/polynomialfunctions/*", "carl/core/MultivariatePolynomial*", "carl/ran/*", "carl/formula/VariableComparison.h"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["polynomials of total degree at most four in one to four real variables", "results are compared at sampled rational points where the expression is defined", "the square root of the square of a polynomial is accepted with either sign (known finding)", "comparisons are those with roots of irreducible quadratic polynomials"]),
    "C25": c([("smtlib", 1)], ["carl-io/SMTLIBStream.h", "carl/formula/Formula*", "carl/formula/Constraint*", "carl-model/*", "carl/formula/uninterpreted/*", "carl/core/MultivariatePolynomial*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["the text is read by the harness's own reader and evaluated in 24 random worlds", "bit-vectors are not printed (known finding)", "allocation failures are not injected: standard streams swallow them", "terms over uninterpreted functions are created before the threads start"]),
    "C34": c([("text", 1), ("infix", 1)], ["carl/util/stringparser.h", "carl/util/parser/*", "carl/core/MultivariatePolynomial*", "carl/core/Term*", "carl/core/Monomial*", "carl-extpolys/RationalFunction*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["sums of terms: one to four variables, degree at most four", "grammar-based readers have no locks: each client owns one and is switched between calls", "input after a complete expression is not judged"]),
    "C20": c([("numbers", 1)], ["carl/numbers/*"],
             assumptions=["the number types of the configuration (GMP); floats of limited precision of other libraries are not built", "truncated text after a failed allocation inside a string stream is not judged"]),
    "C35": c([("galois", 1)], ["carl/numbers/GaloisField*", "carl/numbers/GFNumber*", "carl/numbers/adaption_native/*", "carl/core/DiophantineEquation*", "carl/core/UnivariatePolynomial*", "carl/core/MultivariatePolynomial*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["the registry of rings has no lock: rings are requested one at a time", "polynomials in several variables only over prime fields", "numbers without a ring are only zero and one"]),
    "C36": c([("signs", 1)], ["carl/core/polynomialfunctions/Definiteness.h", "carl/core/polynomialfunctions/SoSDecomposition.h", "carl/core/MultivariatePolynomial*", "carl/core/Term*", "carl/core/Monomial*"], stub=STUB + ["CoCoA adaptor (optional dependency, never called here)"],
             assumptions=["verdicts are judged at sampled points and at the stationary point of quadratic polynomials"]),
    "C22": c([("bvvalue", 1)], ["carl/formula/bitvector/BVValue*"],
             assumptions=["no division by zero (excluded by the interface)", "widths from 1 to 140"]),
    "C23": c([("cover", 1)], ["carl-covering/*", "carl/util/Bitset.h"],
             assumptions=["at most ten sets, so that the minimal size can be found by trying all selections", "positive weights", "a system is discarded when a search on it fails"]),
    "C24": c([("containers", 1)], ["carl/util/Bitset.h", "carl/util/Heap.h", "carl/util/CompactTree.h", "carl/util/carlTree.h"],
             assumptions=["a container is used by one client at a time", "differences only of finite bit sets; order and hash of bit sets are not judged", "trees keep their root; the position returned for an erased inner node is not judged", "assigning a tree is not promised to be undone"]),
}

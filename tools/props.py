#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Fresh variables are distinct and keep their type, name and persistence",
  "Every fresh variable differs from all variables handed out before it or concurrently on another thread, has the requested type, and reports the name it was given or last renamed to (an unambiguous generated name otherwise). Looking up a name finds a variable carrying it whenever one exists. Clearing the registry forgets all other variables, but persistent variables keep their identity and the name given at creation and are never handed out again.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of creation, renaming, lookup on several threads; all histories of creating, naming, clearing; allocation failures inside them",
  "Tests create a handful of variables on one thread; nothing runs two threads, clears with persistent variables of several types, or fails an allocation.",
  ["src/carl/core/VariablePool.h", "src/carl/core/VariablePool.cpp", "src/carl/core/Variable.h", "src/carl/core/Variable.cpp"],
  [("id counter and name map under two mutexes", "VariablePool::getFreshVariable, setName, getName"), ("replay of persistent variables", "VariablePool::clear")],
  [("next ids", "per type counter of the next id", "VariablePool"), ("names", "map from variable to friendly name", "VariablePool")],
  ["fresh*Variable", "Variable::name/id/type", "VariablePool::findVariableWithName/clear/nrVariables"])

p("C02", "Equal monomials are one object and monomial arithmetic is exact",
  "At any moment and on any thread, two monomials held by clients are the same object with the same id exactly when they have the same exponents, and products, quotients, gcds, lcms, square roots and the graded ordering agree with exponent arithmetic. Dropping a last reference releases exactly that entry, even while another thread creates the same monomial or an allocation fails.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of creating, combining, sharing and dropping monomials on several threads, with allocation failures",
  "Tests build few monomials on one thread and never observe the window between a reference count reaching zero and the entry leaving the pool.",
  ["src/carl/core/MonomialPool.h", "src/carl/core/MonomialPool.cpp", "src/carl/core/Monomial.h", "src/carl/core/Monomial.cpp", "src/carl/core/polynomialfunctions/GCD_Monomial.cpp", "src/carl/util/Pool.h", "src/carl/util/IDPool.h"],
  [("intrusive hash set plus weak pointers under a recursive mutex", "MonomialPool::add/free"), ("id recycling", "IDPool")],
  [("pool", "set of live monomials", "MonomialPool::mPool")], ["MonomialPool::create", "operator*", "Monomial::divide/lcm/sqrt/dropVariable"])

p("C03", "Polynomial arithmetic is exact whatever else runs or fails",
  "Sums, differences, products, powers, exact quotients, substitutions, derivatives and evaluations of polynomials equal exact rational arithmetic on the arguments and come out in normal form (ordered, no zero and no repeated terms); quotients and comparisons of terms, monomials, variables and numbers agree with those of the same operands taken as terms. This holds regardless of what other threads compute, which polynomials were computed and discarded before, and which allocations failed. A failed operation leaves the polynomials it only reads and all later results intact.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all programs of polynomial operations interleaved on several threads with recycled monomial ids and reused scratch buffers; allocation failures at any point",
  "Tests compute single expressions on one thread with fresh pools; scratch buffers shared by all polynomials and recycled monomial ids make results depend on history and schedule.",
  ["src/carl/core/MultivariatePolynomial.h", "src/carl/core/MultivariatePolynomial.tpp", "src/carl/util/TermAdditionManager.h", "src/carl/core/Term.h", "src/carl/core/Term.tpp", "src/carl/core/polynomialfunctions/Substitution.h", "src/carl/core/polynomialfunctions/Division.h", "src/carl/core/polynomialfunctions/Derivative.h", "src/carl/core/polynomialfunctions/Power.h"],
  [("scratch term buffers handed out under a mutex", "TermAdditionManager::getId/addTerm/readTerms"), ("monomial ids as dense indices", "MonomialPool ids")],
  [("scratch buffers", "coefficient per monomial id of the sum being built", "TermAdditionManager::mData")], ["MultivariatePolynomial operators"])

p("C04", "Polynomial constraints are interned and keep their meaning",
  "A constraint has, for every assignment (integer values for integer variables), the truth value of the relation it was created from, and so have its negation and its recorded consistency (always true, always false, undecided). Constraints that are held at the same time on any thread and normalise to the same polynomial and relation are one object, and a held constraint stays valid while others are created and dropped concurrently. Variable, degree and factor information read from a constraint, its verdict on a box of intervals and its reported implication, exclusion or equivalence with another constraint are right for its polynomial, no matter which thread triggered a lazy computation.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all interleavings of creating, copying, inspecting and dropping constraints on several threads; all small polynomials; allocation failures",
  "Tests check a few normalisations on one thread; the pool's reference counting and lazily filled members are only exercised sequentially.",
  ["src/carl/formula/Constraint.h", "src/carl/formula/Constraint.tpp", "src/carl/formula/ConstraintPool.h", "src/carl/formula/ConstraintPool.tpp", "src/carl/formula/ConstraintRaw.h"],
  [("pool of weakly held contents under a recursive mutex", "ConstraintPool::create/free"), ("lazy members under a per-constraint mutex", "ConstraintContent")],
  [("pool", "set of live constraint contents", "ConstraintPool")], ["ConstraintPool::create", "Constraint::satisfiedBy/isConsistent/variables"])

p("C05", "Bit-vector terms and constraints are interned and keep structure and meaning",
  "Two bit-vector terms, or two bit-vector constraints, held at the same time are one object exactly when they are structurally equal, on any thread. A term reports the operator, width, operands and variables it was built from, and substituting constants yields a term for the exact modular value (two's complement, SMT-LIB semantics). A constraint without variables decides to the exact truth value.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all interleavings of building terms, substituting and building constraints on several threads; random operators and widths; allocation failures",
  "Tests build isolated terms on one thread and do not compare identities across histories or threads.",
  ["src/carl/formula/bitvector/BVTerm.cpp", "src/carl/formula/bitvector/BVTermContent.h", "src/carl/formula/bitvector/BVTermPool.h", "src/carl/formula/bitvector/BVTermPool.cpp", "src/carl/formula/bitvector/BVConstraint.cpp", "src/carl/formula/bitvector/BVConstraintPool.cpp", "src/carl/formula/bitvector/BVValue.h", "src/carl/util/Pool.h"],
  [("hash-consing pool", "carl::Pool::add under POOL_LOCK_GUARD"), ("per operator construction", "BVTermPool::create")], [], ["BVTerm", "BVConstraint::create"])

p("C06", "Sorts, functions and function applications resolve to what was declared",
  "A sort, uninterpreted function or function application obtained twice from the same declaration is the same handle, different declarations give different handles, and every handle reports the name, parameters, arguments and result sort it was declared with, for its whole life and whatever else is declared in between. A conflicting or failed declaration (also one interrupted by an allocation failure) changes nothing for existing and later declarations.",
  ["histories", "fault_sequences", "schedules"], "all histories of declarations by several clients interleaved between calls, repeated and conflicting declarations, allocation failures inside a declaration",
  "Tests declare a few symbols once; neither repeated interleaved declarations nor failures in the middle of one are covered.",
  ["src/carl/formula/SortManager.h", "src/carl/formula/SortManager.cpp", "src/carl/formula/uninterpreted/UFManager.h", "src/carl/formula/uninterpreted/UFManager.cpp", "src/carl/formula/uninterpreted/UFInstanceManager.h", "src/carl/formula/uninterpreted/UFInstanceManager.cpp", "src/carl/formula/uninterpreted/UVariable.h"],
  [("content table plus index from content to id", "UFManager::newUF, UFInstanceManager::newUFInstance, SortManager::addSort*")], [], ["newSort/getSort", "newUninterpretedFunction", "newUFInstance", "accessors of the handles"])

p("C07", "Formulas keep their meaning and equal formulas are shared",
  "Under every assignment a formula built from operands has the truth value of its connective applied to them, although constructors simplify, sort and deduplicate; its negation has the opposite value, and resolving negations, substitution and conversion to conjunctive normal form (up to newly introduced variables) keep the meaning. Formulas held at the same time that were built the same way are one object on any thread, and a held formula stays valid and unchanged while others are created, shared and dropped concurrently.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all programs of Boolean connectives over shared subformulas interleaved on several threads, dropping references at any time",
  "The formula tests are not even part of the offline suite, and they build single formulas on one thread.",
  ["src/carl/formula/Formula.h", "src/carl/formula/Formula.tpp", "src/carl/formula/FormulaPool.h", "src/carl/formula/FormulaPool.tpp", "src/carl/formula/FormulaContent.h", "src/carl/formula/FormulaContent.tpp"],
  [("reference-counted pool under a recursive mutex", "FormulaPool::add/reg/free"), ("pairing of a formula with its negation", "FormulaPool")], [], ["Formula constructors", "Formula::negated/type/subformulas"])

p("C08", "An allocated identifier has one holder until it is released",
  "An identifier handed out by an id allocator is never handed out again before it was released, whichever threads allocate and release in whatever order, and a released one is reused before the range grows. The reported largest identifier is never below one that is in use, and clearing an allocator returns it to its initial state.",
  ["schedules", "histories", "fault_sequences"], "all interleavings and histories of allocate, release, clear; allocation failures inside",
  "The allocators have no tests of their own and are used by one thread only.",
  ["src/carl/util/IDPool.h", "src/carl/util/IDGenerator.h", "src/carl/util/Bitset.h"],
  [("free list / bit set of free ids under a mutex", "IDGenerator::get/free, IDPool::get/free")], [], ["get", "free", "largestID/nextID", "clear"])

p("C09", "A shared cache returns each entry's own value while it is referenced",
  "A reference obtained by storing a value in a shared cache yields a value equal to the stored one until the holder deregisters it, also after other entries were stored, updated, merged and evicted, on any thread. Storing an equal value again yields the same entry. Entries without holders may be evicted, and only those.",
  ["schedules", "histories", "fault_sequences"], "all histories and interleavings of caching, registering, deregistering, rehashing, cleaning with small capacity limits",
  "The cache has no test of its own; eviction and merging need thousands of entries or a tiny limit.",
  ["src/carl/util/Cache.h", "src/carl/util/Cache.tpp"],
  [("usage counters and reference positions per entry under a recursive mutex", "Cache::cache/reg/dereg/rehash/clean")], [], ["Cache::cache/get/reg/dereg"])

p("C10", "Prime sequence and integer factorisations are right under sharing",
  "Enumerating primes yields 2, 3, 5, 7, ... without gaps or repeats for every enumerator, and a factorisation of a positive integer multiplies to it and has only prime factors in non-decreasing order, no matter how many enumerators and factorisers share the cached tables on how many threads. A computation interrupted by an allocation failure leaves later answers correct.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of enumerators and factorisations on several threads that extend and read the shared tables; allocation failures",
  "Tests enumerate once on one thread; growth of the shared table under a reader and failures in the middle of an update are never observed.",
  ["src/carl/numbers/PrimeFactory.h", "src/carl/numbers/FactorizationFactory.h"],
  [("shared prime table under a mutex", "PrimeFactory::nextPrime/computePrimes"), ("factorisation cache", "FactorizationFactory")], [], ["PrimeFactory::nextPrime/operator[]", "FactorizationFactory::operator()"])

p("C11", "Log records reach every enabled sink once, whole and in order",
  "Every record whose severity passes a channel's filter appears exactly once, as one uninterrupted line with its own text, on every sink that has a formatter, in the issuing thread's order, and no record below the filter appears. Channels inherit the setting of their nearest configured ancestor. A failing or slow sink, a full disk or an interrupted write never loses or tears records of other sinks and never stops the program.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of logging threads; filter and sink configurations; short, interrupted and failing writes, full disk, stalled threads",
  "The logging tests write a few records on one thread to the console and look at nothing that was written.",
  ["src/carl-logging/Logger.h", "src/carl-logging/Sink.h", "src/carl-logging/Filter.h", "src/carl-logging/Formatter.h", "src/carl-logging/logging.h", "src/carl-logging/logging.cpp"],
  [("one mutex around formatting and writing", "Logger::log"), ("longest configured prefix of the channel", "Filter::check")], [], ["bytes of the log files and streams"])

p("C12", "Measured durations follow elapsed time, whatever the wall clock does",
  "A timer reports the time that passed since it was started or reset, and an accumulated timing reports the sum and number of its finished measurements, within the clock's resolution. Setting the wall clock forwards or backwards during a measurement does not change the reported duration, and a duration is never negative or absurdly large.",
  ["fault_sequences", "histories", "schedules"], "all sequences of start, stop, reset and reads with clock steps, time zone adjustments and stalls between any two of them",
  "No test can step the clock; the existing timer test only checks that a read works.",
  ["src/carl/util/Timer.h", "src/carl-statistics/Timing.h"],
  [("choice of a monotonic clock", "carl::Timer, carl::statistics::timing")], [], ["Timer::passed", "timer totals in the statistics report"])

p("C13", "A statistics report shows every recorded value, in every output format",
  "A report lists each enabled statistics object exactly once, in registration order, with the value each key had when the statistics were last collected, and the SMT-LIB and XML renderings contain the same entries. Short and interrupted writes do not change an exported file, and a disk error or allocation failure during registration, collection or export disturbs neither the recorded values nor later reports.",
  ["histories", "fault_sequences", "configurations"], "all histories of registering, recording and printing from several clients; disk errors, short and interrupted writes, full disk while exporting",
  "Tests print one object once to the console; nothing reads a report back or makes a write fail.",
  ["src/carl-statistics/Statistics.h", "src/carl-statistics/StatisticsCollector.h", "src/carl-statistics/StatisticsCollector.cpp", "src/carl-statistics/StatisticsPrinter.h"],
  [("collection of registered objects", "StatisticsCollector::collect"), ("per format printing", "StatisticsPrinter")], [], ["statistics_as_smtlib", "statistics_to_xml", "the exported file"])

p("C14", "Settings take the highest-priority source and every finaliser runs",
  "After parsing, each option has the value from the command line if given there, else from the configuration file, else its default, also when the file is read in pieces, cannot be opened or fails in the middle, in which case the failure is reported rather than a silently different configuration being used. Every registered finaliser runs exactly once after parsing. A settings object obtained by name is the same object for all users.",
  ["configurations", "inputs", "fault_sequences", "histories"], "all splits of options over command line and file, all read sizes and read errors, any set of finalisers",
  "Tests parse a fixed command line; no configuration file is ever read with a short or failing read and no two finalisers are registered.",
  ["src/carl-settings/SettingsParser.h", "src/carl-settings/SettingsParser.cpp", "src/carl-settings/Settings.h", "src/carl-settings/settings_utils.h", "src/carl-settings/settings_utils.cpp"],
  [("ordered stores into one variables map", "SettingsParser::parse_command_line/parse_config_file"), ("finaliser list", "SettingsParser::finalize_settings")], [], ["SettingsParser::parse_options", "Settings::get"])

p("C15", "Importing a problem file gives its exact content or a reported failure",
  "Reading a DIMACS file yields, problem by problem, exactly the clauses in it (one per line), independently of how many bytes each read of the file delivers, and writing clauses and reading them back preserves them. A file that cannot be opened yields no problem, and a read error, a bad header or an undeclared variable ends in an error within bounded time, never in an endless loop or in clauses that are not in the file.",
  ["inputs", "fault_sequences", "histories"], "all small CNF files with comments, blank lines and resets; every chunking of reads; open and read errors at any byte",
  "The I/O tests need an excluded dependency and read one intact file in one piece.",
  ["src/carl-io/DIMACSImporter.h", "src/carl-io/DIMACSExporter.h"],
  [("line-wise parser over an input stream", "DIMACSImporter"), ("line-wise writer", "DIMACSExporter")], [], ["DIMACSImporter::hasNext/next", "DIMACSExporter output"])

p("C16", "Interval results enclose every exact result, whatever the rounding mode",
  "For floating-point intervals (half-open and unbounded ones included), sum, difference, product, quotient, absolute value, power, root and the value of a polynomial over a box contain the exact result for every choice of points of the arguments, and so do the elementary functions of closed bounded intervals. This holds regardless of the ambient floating-point rounding mode of the calling thread, of the rounding mode other computations left behind, and of how interval computations are interleaved, and an operation leaves the caller's rounding mode as it found it.",
  ["schedules", "fault_sequences", "inputs"], "all sequences of interval operations by several interleaved clients with the ambient rounding mode changed between any two operations; random intervals including half-open, point, zero-crossing and unbounded ones",
  "Tests run in round-to-nearest only and mostly with small integers whose results are exact.",
  ["src/carl/interval/Interval.h", "src/carl/interval/Interval.tpp", "src/carl/interval/rounding.h", "src/carl/interval/checking.h", "src/carl/interval/power.h", "src/carl/interval/trigonometric.h", "src/carl/interval/exponential.h", "src/carl/interval/operators.h", "src/carl/interval/IntervalEvaluation.h"],
  [("rounding policy that saves and sets the mode", "carl::rounding, boost::numeric::interval_lib")], [], ["Interval operators"])

p("C17", "Groebner bases and reductions do not depend on order, threads or history",
  "The computed basis generates the same ideal as the input (each input reduces to zero, and each basis element is a combination of the inputs), is reduced and unique for the ideal and ordering, and so is the same for every order and batching in which the generators were added, on any thread, whatever was computed before. Adding generators later gives the basis of the union.",
  ["schedules", "histories", "inputs"], "all orders and batches of adding generators; several computations interleaved on several threads; allocation failures",
  "Tests compute two fixed bases once each on one thread.",
  ["src/carl/groebner/GBProcedure.h", "src/carl/groebner/gb-buchberger/Buchberger.h", "src/carl/groebner/gb-buchberger/Buchberger.tpp", "src/carl/groebner/Reductor.h", "src/carl/groebner/Ideal.h", "src/carl/groebner/gb-buchberger/CriticalPairs.h"],
  [("critical pair queue and update", "Buchberger::calculate/update"), ("top reduction with origins", "Reductor")], [], ["GBProcedure::addPolynomial/calculate/getIdeal"])

p("C18", "Algebraic numbers compare and bound the same after any refinement history",
  "The order, sign and equality of real algebraic numbers and rationals, and the interval and floor/ceiling a number reports, are those of the exact roots they denote, whatever comparisons, refinements and copies several clients performed on shared numbers before. Refining never moves a number: its interval always still contains exactly its root. Isolating the real roots of a polynomial yields each root in the requested interval exactly once and in increasing order.",
  ["histories", "schedules", "inputs"], "all histories of comparing, refining, copying and testing numbers by several interleaved clients that share representations",
  "The tests for algebraic numbers are excluded from the offline suite and use each number once.",
  ["src/carl/ran/interval/ran_interval.h", "src/carl/ran/interval/ran_interval_extra.h", "src/carl/ran/ran.h", "src/carl/ran/interval/ran_interval_real_roots.h", "src/carl/ran/interval/RealRootIsolation.h"],
  [("shared lazily refined isolating interval", "real_algebraic_number_interval::refine")], [], ["comparison operators", "sgn/floor/ceil/branching_point"])

p("C19", "Factorised polynomials equal their expanded counterparts",
  "The value of every factorised polynomial computed by addition, subtraction, multiplication, powers, exact division, square roots, derivatives, substitution or as common divisor and multiple through a shared factorisation cache equals that of the same computation on expanded polynomials, and so do evaluations and comparisons. This holds for any history of cached, merged, refined and evicted factors, and copying, moving and assigning keep every value intact.",
  ["schedules", "histories", "inputs"], "all programs over factorised polynomials sharing one cache, with small cache limits, several interleaved clients",
  "The tests for factorised polynomials are not part of the offline suite; they use one fresh cache on one thread.",
  ["src/carl-extpolys/FactorizedPolynomial.h", "src/carl-extpolys/FactorizedPolynomial.tpp", "src/carl-extpolys/substitution.h", "src/carl-extpolys/evaluation.h", "src/carl-extpolys/PolynomialFactorizationPair.h", "src/carl-extpolys/PolynomialFactorizationPair.tpp", "src/carl/util/Cache.h"],
  [("shared factorisation pairs", "Cache<PolynomialFactorizationPair>"), ("refinement of factorisations", "PolynomialFactorizationPair::flattenFactorization/update")], [], ["FactorizedPolynomial operators", "computePolynomial"])

p("C26", "Models evaluate expressions to their value under the current assignments",
  "A model answers with the value last assigned to a variable, and the value of a polynomial, root expression, constraint, bit-vector term, equality of uninterpreted terms or formula over it is the one under its current assignments, where a value may be given by an expression of other variables; with variables left open the result keeps its meaning for all their values. Nothing evaluated earlier and no insertion, replacement, removal, merge or copy made in between changes an answer, copies are independent of each other, and values passed in stay as they were. A failed operation leaves the model as it was.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all programs over several models with direct and expression values, some of them interleaved clients of the shared pools, allocation failure at every allocation",
  "Tests evaluate single expressions over models built once; cached evaluations that outlive a change of the model need a history.",
  ["src/carl-model/Model.h", "src/carl-model/ModelValue.h", "src/carl-model/ModelVariable.h", "src/carl-model/ModelSubstitution.h", "src/carl-model/Assignment.h", "src/carl-model/Assignment.tpp", "src/carl-model/evaluation/ModelEvaluation.h", "src/carl-model/evaluation/ModelEvaluation_Formula.h", "src/carl-model/evaluation/ModelEvaluation_Polynomial.h", "src/carl-model/evaluation/ModelEvaluation_MVRoot.h", "src/carl-model/evaluation/ModelEvaluation_Constraint.h", "src/carl-model/evaluation/ModelEvaluation_Bitvector.h", "src/carl-model/evaluation/ModelEvaluation_Uninterpreted.h", "src/carl-model/evaluation/ModelEvaluation_helper.h", "src/carl-model/substitutions/ModelPolynomialSubstitution.h", "src/carl-model/substitutions/ModelFormulaSubstitution.h", "src/carl-model/substitutions/ModelMVRootSubstitution.h", "src/carl-model/uninterpreted/UFModel.h", "src/carl-model/uninterpreted/UFModel.cpp", "src/carl-model/uninterpreted/SortValueManager.h"],
  [("cached evaluations of expression values", "ModelSubstitution::mCachedValue, Model::resetCaches"), ("shared pools of formulas and terms", "FormulaPool, BVTermPool")], [("cached value", "last evaluation of an expression value", "ModelSubstitution")], ["Model::assign/emplace/insert/erase/update/clean/evaluated", "model::evaluate/substitute/satisfiedBy", "satisfies", "getDefaultModel", "representingFormula"])

p("C27", "Univariate polynomials divide, eliminate and count roots as algebra prescribes",
  "Polynomials in one main variable, with numbers or other polynomials as coefficients, are added, multiplied, divided, derived, substituted, factored and converted to the exact result: quotient and remainder give back the dividend, the greatest common divisor and its cofactors and the square-free part are the exact ones, and the number of real roots in an interval and all root bounds are true. Pseudo-remainders, resultants, discriminants and subresultants of polynomials with polynomial coefficients specialise to those of the polynomials obtained by fixing the other variables, whatever strategy computes them. Results do not depend on other threads sharing the monomial store, and a failed operation leaves its arguments as they were.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all programs over polynomials of bounded degree on threads that share the monomial and term stores, allocation failure at every allocation",
  "Tests check single examples; wrong results need particular degree gaps, zero coefficients, signs or repeated roots.",
  ["src/carl/core/UnivariatePolynomial.h", "src/carl/core/UnivariatePolynomial.tpp", "src/carl/core/polynomialfunctions/Division.h", "src/carl/core/polynomialfunctions/Remainder.h", "src/carl/core/polynomialfunctions/GCD_univariate.h", "src/carl/core/polynomialfunctions/SquareFreePart.h", "src/carl/core/polynomialfunctions/Factorization_univariate.h", "src/carl/core/polynomialfunctions/Derivative.h", "src/carl/core/polynomialfunctions/Substitution.h", "src/carl/core/polynomialfunctions/Evaluation.h", "src/carl/core/polynomialfunctions/SturmSequence.h", "src/carl/core/polynomialfunctions/RootCounting.h", "src/carl/core/polynomialfunctions/RootBounds.h", "src/carl/core/polynomialfunctions/RootElimination.h", "src/carl/core/polynomialfunctions/SignVariations.h", "src/carl/core/polynomialfunctions/Resultant.h", "src/carl/core/polynomialfunctions/Representation.h", "src/carl/core/polynomialfunctions/to_univariate_polynomial.h"],
  [("shared monomial pool", "MonomialPool"), ("shared term accumulation buffers", "TermAdditionManager")], [("accumulation buffers", "terms collected per running operation", "TermAdditionManager")], ["UnivariatePolynomial operators", "divide, remainder, pseudo_remainder, gcd, extended_gcd", "squareFreePart, factorization", "count_real_roots, sturm_sequence, sign_variations, root bounds", "resultant, discriminant, subresultants"])

p("C28", "Imported pseudo-Boolean problems are exactly those of the file",
  "Importing a pseudo-Boolean problem file yields exactly the objective and the constraints the file states, over the same variables, whatever comments, line breaks and spacing it has and however the reads are split or interrupted. A file that is malformed, missing or unreadable is reported as such: no partial problem is returned and the import always ends.",
  ["fault_sequences", "inputs"], "all generated files with and without flaws; opening fails, reads are short, interrupted or fail at any point",
  "Tests read one or two intact files; errors depend on where a read fails or a flaw sits.",
  ["src/carl-io/OPBImporter.h", "src/carl-io/OPBImporter.cpp", "src/carl-io/SpiritHelper.h"],
  [("grammar over an input stream", "carl::io::OPBParser"), ("mapping of file names to variables", "OPBImporter")], [("variable table", "names seen so far", "OPBParser")], ["parseOPBFile", "OPBImporter::parse"])

p("C29", "Contracting a box never loses a solution",
  "Narrowing the interval of a variable with a constraint, whether by solving the constraint for the variable or by an interval Newton step, returns parts of the given interval that together contain the value of that variable in every solution of the constraint inside the box, for real and integer variables, bounded and unbounded boxes. This holds in every ambient rounding mode, for operators used repeatedly with different boxes, shared between threads where they are constant, and after an operation was cut off by an allocation failure.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all constraints with a known solution and boxes around it, interleaved clients, rounding mode changes and allocation failures at any operation",
  "Tests compare single examples in round-to-nearest; losing a solution needs a particular sign, zero crossing, open bound or rounding direction.",
  ["src/carl/interval/Contraction.h", "src/carl/interval/Contractor.h", "src/carl/interval/IntervalEvaluation.h", "src/carl/interval/set_theory.h", "src/carl/interval/Interval.tpp"],
  [("derivatives and solution formulas kept between calls", "Contraction::mDerivatives, mVarSolutionFormulas"), ("relation as an interval added to the right-hand side", "contractor::Contractor")], [("kept derivatives", "per variable, filled on first use", "Contraction")], ["Contraction::operator()", "Contractor::evaluate/contract"])

p("C30", "Intervals behave as the sets of numbers they denote",
  "Intersection, union, difference, symmetric difference, hull and integer part of intervals, the tests for membership, inclusion, overlap, order and sign, and splitting and widening agree with the sets of points the intervals denote, for open, half-open, unbounded, one-point and empty intervals with floating-point or rational bounds; points picked from an interval lie inside it. Arithmetic on intervals with rational bounds encloses every exact result and is tight for closed bounded operands. None of this depends on the ambient rounding mode, which is left as it was.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all sequences of operations by interleaved clients with the ambient rounding mode changed between any two operations",
  "Tests check selected pairs of intervals in round-to-nearest; errors need particular combinations of bound types, equal bounds or infinite sides.",
  ["src/carl/interval/set_theory.h", "src/carl/interval/sampling.h", "src/carl/interval/Interval.h", "src/carl/interval/Interval.tpp", "src/carl/interval/operators.h", "src/carl/interval/BoundType.h", "src/carl/interval/power.h"],
  [("comparison of bounds with their types", "LowerBound, UpperBound operators"), ("normal form of bounds", "Interval constructors")], [], ["set_union, set_intersection, set_difference, set_symmetric_difference, set_complement", "set_is_subset, set_have_intersection, contains, comparison operators", "center, sample, sample_left/right/zero/infty", "split, bloat_by, integralPart"])

p("C31", "Common divisors and multiples of multivariate polynomials are the exact ones",
  "The greatest common divisor of two polynomials, terms or monomials in several variables divides both and is divided by every common divisor, the least common multiple is divided by both and divides every common multiple, and content and primitive part multiply back to the polynomial. Results do not depend on other threads sharing the monomial store, and a failed operation leaves its arguments as they were.",
  ["schedules", "fault_sequences", "inputs"], "all programs over polynomials of bounded size on threads that share polynomials and the monomial and term stores, allocation failure at every allocation",
  "Tests check single examples on one thread; wrong divisors need particular contents, repeated factors, zero or constant arguments.",
  ["src/carl/core/polynomialfunctions/GCD.h", "src/carl/core/polynomialfunctions/GCD_multivariate.h", "src/carl/core/polynomialfunctions/GCD_Term.h", "src/carl/core/polynomialfunctions/GCD_Monomial.h", "src/carl/core/polynomialfunctions/GCD_Monomial.cpp", "src/carl/core/polynomialfunctions/PrimitiveEuclidean.h", "src/carl/core/polynomialfunctions/LCM.h", "src/carl/core/polynomialfunctions/Content.h", "src/carl/core/polynomialfunctions/PrimitivePart.h"],
  [("shared monomial pool", "MonomialPool"), ("recursive remainder sequences", "PrimitiveEuclidean")], [], ["gcd, lcm", "content, primitive_part"])

p("C32", "Rational functions compute with exact quotients of polynomials",
  "Sums, differences, products, quotients, powers, inverses, substitutions and evaluations of rational functions have the value of the same computation on exact quotients of polynomials, whatever mixture of rational functions, polynomials, terms, variables and numbers the operands are, for plain and for factorised polynomials, and the operands keep their values. Equality holds exactly for equal functions, the order is a strict total order that agrees with it, and functions that are simplified automatically are always in lowest terms. A failed operation leaves its arguments as they were.",
  ["schedules", "fault_sequences", "histories", "inputs"], "all programs over rational functions shared by interleaved clients, with a small shared factorisation cache in the factorised case, allocation failure at every allocation",
  "The tests for rational functions are not part of the offline suite; they check single examples on one thread.",
  ["src/carl-extpolys/RationalFunction.h", "src/carl-extpolys/RationalFunction.tpp"],
  [("number and quotient representation", "RationalFunction"), ("lazy simplification", "RationalFunction::eliminateCommonFactor")], [("simplified mark", "whether the quotient is in lowest terms", "RationalFunction")], ["RationalFunction operators", "inverse, evaluate, substitute, derivative", "nominator, denominator, isConstant, constantPart"])

p("C33", "Virtual substitution keeps the meaning of constraints",
  "The zeros given for the polynomial of a constraint in a variable are, wherever their side conditions hold, exactly its real zeros as long as its degree in the variable is at most two; square root expressions are added, multiplied, divided, specialised and rounded to the exact value or the stated side of it. Replacing a variable of a constraint or of a comparison with an algebraic number by such an expression, by a point just above it or by an infinite value gives a case distinction that holds for exactly those values of the other variables at which the expression is defined and the constraint holds for the substituted value. Results do not depend on other threads or the ambient rounding mode, and failed operations leave their arguments as they were.",
  ["schedules", "fault_sequences", "inputs"], "all programs over constraints and square root expressions shared by interleaved clients, the ambient rounding mode changed and allocation failure at every allocation",
  "Tests check single substitutions; errors need particular signs, vanishing coefficients, parities of degrees or denominators.",
  ["src/carl/vs/SqrtEx.h", "src/carl/vs/SqrtEx.tpp", "src/carl/vs/term.h", "src/carl/vs/term.tpp", "src/carl/vs/zeros.h", "src/carl/vs/substitute.h", "src/carl/vs/substitute.tpp"],
  [("case distinctions by sign of numerator and denominator", "vs::detail::substituteNormal and relatives"), ("normal form of square root expressions", "SqrtEx::normalize"), ("shared pools of constraints", "ConstraintPool")], [], ["vs::gather_zeros", "vs::substitute", "SqrtEx operators, evaluate, substitute, subBySqrtEx"])

p("C34", "Text reads as the polynomial, quotient or formula it denotes",
  "A text that denotes a term, polynomial, quotient of polynomials or Boolean formula over the known variables is read as exactly that object, with the usual precedence of powers, products, sums and connectives; what the library prints for an expanded polynomial reads back as the same polynomial. A sum of terms with an unknown name, an invalid number or exponent, a repeated variable or a second division is rejected with an error. Readers shared by threads, earlier input, and failed allocations never change what later text means.",
  ["schedules", "fault_sequences", "inputs"], "all programs that read texts through shared and private readers, all interleavings, allocation failure at every allocation",
  "Tests read a few fixed strings; precedence, signs and rejected input are hardly covered.",
  ["src/carl/util/stringparser.h", "src/carl/util/parser/Parser.h", "src/carl/util/parser/PolynomialParser.h", "src/carl/util/parser/RationalFunctionParser.h", "src/carl/util/parser/FormulaParser.h", "src/carl/util/parser/Common.h"],
  [("splitting of sums, products and powers", "StringParser::parseTerm, parseMultivariatePolynomial"), ("grammar of expressions", "PolynomialParser, FormulaParser"), ("tables of names", "StringParser::setVariables, Parser::addVariable")], [], ["StringParser", "parser::Parser"])

p("C20", "Number conversion, rounding and parsing are exact",
  "Converting between integers, rationals, floating-point numbers and text preserves the value exactly or rounds in the documented direction; integer parts, quotients, remainders, common divisors, powers and bounds of roots are the exact ones. Malformed text and fractions with denominator zero are rejected. The ambient rounding mode, other threads and failed allocations neither change a result nor are changed by computing it.",
  ["schedules", "fault_sequences", "inputs"], "all programs over integers, rationals, doubles and texts shared by clients, any rounding mode at any point, allocation failure at every allocation",
  "Tests check single values in the default rounding mode; the input space is unbounded.",
  ["src/carl/numbers/adaption_gmpxx/operations.h", "src/carl/numbers/adaption_gmpxx/operations.cpp", "src/carl/numbers/adaption_native/operations.h", "src/carl/numbers/adaption_float/FLOAT_T.h", "src/carl/numbers/conversion", "src/carl/numbers/parser/parser.h"],
  [("conversion functions", "carl::toInt, rationalize, floor, ceil, parse"), ("rounding to doubles", "roundDown, roundUp"), ("bounds of roots", "sqrt_safe, sqrt_fast, root_safe")])

p("C35", "Finite fields compute with residues; linear integer equations are solved",
  "Numbers of a finite ring add, multiply, invert and compare as the residue classes they denote, also after updates in place and for ring sizes beyond machine integers. Polynomials over such a ring add, multiply, divide and have the common divisors prescribed by the ring, and converting them to and from integer polynomials keeps every residue. A solution returned for a solvable linear integer equation satisfies it.",
  ["schedules", "fault_sequences", "inputs"], "all programs over numbers and polynomials of shared rings, all interleavings, allocation failure at every allocation",
  "Tests use a handful of numbers of small prime fields.",
  ["src/carl/numbers/GaloisField.h", "src/carl/numbers/GFNumber.h", "src/carl/numbers/GFNumber.tpp", "src/carl/numbers/adaption_native/EEA.h", "src/carl/core/DiophantineEquation.tpp", "src/carl/core/UnivariatePolynomial.tpp"],
  [("reduction to the representative", "GaloisField::modulo, GFNumber::normalize"), ("inverse", "EEA::calculate"), ("solution of linear equations", "solveDiophantine, extended_gcd_integer")], [], ["GaloisFieldManager"])

p("C36", "Sign verdicts and sums of squares of polynomials are sound",
  "An expanded polynomial or a term said to be positive, negative or semidefinite never takes a value of another sign, and positive sums of even powers and positive definite quadratic forms are recognised. The squares returned for a polynomial have positive factors and add up to exactly that polynomial. Sharing polynomials between threads and failed allocations do not change the verdicts.",
  ["schedules", "fault_sequences", "inputs"], "all programs that analyse shared polynomials, all interleavings, allocation failure at every allocation",
  "Tests check a few fixed polynomials; soundness is a statement about all points.",
  ["src/carl/core/polynomialfunctions/Definiteness.h", "src/carl/core/polynomialfunctions/SoSDecomposition.h"],
  [("verdict from terms and from squares", "definiteness"), ("completion of squares", "sos_decomposition")])

p("C22", "Bit-vector values follow fixed-width modular arithmetic",
  "Each operation on bit-vector values returns the value prescribed by fixed-width two's complement arithmetic for every width and operand, and values built from integers, machine words and digits denote their residue. Operands that several threads share are never changed, and an operation that fails for want of memory leaves them as they were.",
  ["schedules", "fault_sequences", "inputs"], "all programs over shared values of all widths, all interleavings, allocation failure at every allocation", "Tests check selected widths and values.",
  ["src/carl/formula/bitvector/BVValue.h", "src/carl/formula/bitvector/BVValue.cpp"], [("operators on bit sets", "BVValue")])

p("C23", "Set covers returned by the heuristics cover everything",
  "Each set-cover heuristic returns a subset of the given sets whose union is the whole universe, and the exact one returns a cover of minimal size; the bounded ones leave at most the given number of sets, exactly with the elements not yet covered, and the essential sets are exactly those that every cover needs. Threads that look for covers of copies of one system, extended in portions, and searches that failed for want of memory do not change any other result.",
  ["schedules", "fault_sequences", "inputs"], "all programs over copies of shared set systems, all interleavings, allocation failure at every allocation", "Tests check few set systems.",
  ["src/carl-covering/SetCover.cpp", "src/carl-covering/SetCover.h", "src/carl-covering/TypedSetCover.h", "src/carl-covering/heuristics/exact.cpp", "src/carl-covering/heuristics/greedy.cpp", "src/carl-covering/heuristics/remove_duplicates.cpp", "src/carl-covering/heuristics/select_essential.cpp", "src/carl-covering/heuristics/trivial.cpp"], [("heuristics", "carl::covering::heuristic")])

p("C24", "Trees, heaps and bit sets behave like their abstract data types",
  "After any sequence of operations the tree, heap and bit-set containers hold exactly the elements and structure that their operations describe, in every order of traversal, and a bit set also denotes the bits beyond the stored ones. An operation on a bit set, a heap or a node of a tree that fails for want of memory leaves the container as it was.",
  ["histories", "fault_sequences", "schedules"], "all operation sequences of clients that hand containers to each other, allocation failure at every allocation", "Tests use short fixed sequences.",
  ["src/carl/util/carlTree.h", "src/carl/util/CompactTree.h", "src/carl/util/Heap.h", "src/carl/util/Bitset.h"], [("container invariants", "carl::tree, CompactTree, Heap")])

p("C25", "SMT-LIB output denotes the printed object",
  "Text printed in SMT-LIB syntax for formulas over Booleans, arithmetic and uninterpreted functions, for polynomials and for models is well-formed SMT-LIB and means the same as the printed object. A script declares every sort, function and variable of the formulas it asserts once and before their use. Threads that print shared objects at the same time get the same text as alone.",
  ["schedules", "inputs"], "all programs that print shared formulas, polynomials and models, all interleavings",
  "Tests compare few strings and no parser for the output exists in the library.",
  ["src/carl-io/SMTLIBStream.h", "src/carl/formula/Formula.h", "src/carl-model/ModelValue.h"],
  [("printing", "SMTLIBStream"), ("declarations", "SMTLIBStream::declare, SMTLIBScriptContainer"), ("numbers", "carl::toString")], [], ["SMTLIBStream", "outputSMTLIB", "asSMTLIB"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")

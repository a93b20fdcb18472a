#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

AN, IA, PO = "src/algebraic_numbers.rs", "src/interval_arithmetic.rs", "src/polynomial.rs"
NOALG = "the module's unit tests are a few dozen hand-picked pairs (and the stable suite does not even build this module)"

prop("C01", "Field operations on real algebraic numbers are exact",
 "For any real algebraic numbers a and b, the returned sum, difference, product, negation and (for a non-zero divisor) quotient and reciprocal denote exactly the mathematically correct real number, and every operation terminates. Dividing by zero or taking the reciprocal of zero is reported as failure, never answered. The by-value, by-reference and in-place forms of each operation agree.",
 ["inputs"], "every pair of real algebraic numbers (any degree, sign, magnitude, rational or not, conjugate or unrelated) and every isolating interval representing them",
 "Exactness quantifies over infinitely many operand pairs; " + NOALG + ".",
 [AN, "src/polynomial/gcd.rs", "src/polynomial/factorization_over_integers.rs", IA],
 [("resultant of the two minimal polynomials, factored, then root selection by shrinking intervals", AN + ": RootSelector::select_root, AddAssign, MulAssign, checked_recip")],
 ["returned minimal polynomial and interval", "checked_recip / checked_exact_div"])
prop("C02", "Comparison and sign of real algebraic numbers agree with the real line",
 "Comparing two real algebraic numbers gives exactly the order of the real numbers they denote, and they compare equal if and only if they denote the same real number, however close or conjugate they are. Sign tests, signum, absolute value and positive difference agree with that order.",
 ["inputs"], "every pair of real algebraic numbers and every representation of them",
 "The order must hold for all pairs, including arbitrarily close ones; " + NOALG + ".",
 [AN], [("difference compared with zero through Sturm sign changes", AN + ": Ord, cmp_with_zero, Signed")],
 ["cmp/eq/partial_cmp", "cmp_with_zero", "abs/signum/abs_sub/is_positive/is_negative"])
prop("C03", "Rounding, fractional part and remainder are exact",
 "Floor, ceiling, truncation, fractional part (value minus floor) and remainder (dividend minus truncated quotient times divisor) of real algebraic numbers are exactly the mathematically defined results, for integers, other rationals and irrationals of either sign. The integer-valued and number-valued, consuming and borrowing variants agree, and conversion to an integer or rational succeeds exactly when the value is one, with the right value.",
 ["inputs"], "every real algebraic number and every representation, including values very close to an integer on either side",
 "The result flips at every integer boundary and depends on the stored interval; " + NOALG + ".",
 [AN], [("interval shrinking until the floor is decided", AN + ": into_integer_floor, into_fract, into_integer_trunc, RemAssign")],
 ["floor/ceil/trunc/fract and integer variants", "%", "to_integer/to_rational/is_integer/is_rational"])
prop("C04", "Rational powers and roots are exact, and undefined ones are refused",
 "Raising a real algebraic number to a rational exponent n/d yields exactly the real number whose d-th power is base to the n and which is positive when d is not one (for d = 1 with the usual sign), including negative exponents. The checked form returns nothing exactly when the power is undefined: zero to a zero or negative exponent, or a negative base with a non-integer exponent.",
 ["inputs"], "every base and every rational exponent (bounded by memory), in every accepted exponent form",
 "Root selection among all conjugates of the power depends on the base's conjugates and interval; " + NOALG + ".",
 [AN, IA], [("resultant with y^d - x^n and interval exp(log(x)*n/d) root selection", AN + ": checked_pow_impl")],
 ["pow", "checked_pow", "checked_into_pow"])
prop("C05", "Base-2 logarithm bounds of real algebraic numbers are exact",
 "For a positive real algebraic number the floor and ceiling of its base-2 logarithm are exactly right, and the exact base-2 logarithm is reported if and only if the number is an integer power of two (positive or negative). For zero and negative numbers nothing is returned.",
 ["inputs"], "every real algebraic number, including values arbitrarily close to powers of two and very large or small values",
 "The answer jumps at every power of two; " + NOALG + ".",
 [AN, IA, "src/traits.rs"], [("interval log2 bounds with shrinking", AN + ": do_checked_floor_ceil_log2, to_integer_log2")],
 ["checked_floor_log2/checked_ceil_log2/to_integer_log2 and consuming variants"])
prop("C06", "Computed numbers carry their true minimal polynomial and isolating interval",
 "Every real algebraic number the library returns carries the primitive, irreducible integer polynomial with positive leading coefficient that has the value as a root, and a closed interval that contains the value and no other real root of that polynomial. The reported degree, rationality, integrality, zero-ness and one-ness follow from the value alone.",
 ["inputs", "histories"], "every value produced by conversions, arithmetic, powers, reciprocals and rounding, from every representation of the operands",
 "It is an invariant over all results; the tests compare a few results only.",
 [AN, "src/polynomial/factorization_over_integers.rs"], [("factorisation of the resultant and isolation by root counting", AN + ": select_root, neg, From conversions")],
 ["minimal_polynomial()", "interval()", "degree/is_rational/is_integer/is_zero/is_one/is_negative_one"])
prop("C07", "Results depend only on operand values, not on how they were computed",
 "After any sequence of arithmetic, power, rounding and comparison operations the numbers held denote exactly the values obtained by exact arithmetic on the starting values, and applying an operation to a number gives the same value whether the number was computed through that history or built directly. Operands that are only borrowed keep their value.",
 ["histories"], "every operation sequence up to the explored depth over seed values in several number fields",
 "Stored intervals grow through a computation and steer root selection; tests only apply one operation to freshly built numbers.",
 [AN], [("intervals carried in the number and shrunk on demand", AN + ": IntervalShrinker, RootSelector")],
 ["values after each step of a history"])
prop("C08", "Interval arithmetic encloses every possible result, as tightly as possible",
 "For dyadic intervals, negation, absolute value, addition, subtraction, multiplication, squaring, integer powers, division, reciprocal, union, and conversion to another precision return an interval that contains the exact result for every choice of points in the operands, with no bound further out than rounding to the result's precision requires (for division and powers: than rounding the reciprocal and each multiplication requires). Reciprocal and division by an interval containing zero are refused, and mixed operations with integers and fractions and all by-value, by-reference and in-place forms agree.",
 ["inputs"], "every pair of dyadic intervals of any precision, sign pattern and width, every integer/fraction operand and every exponent",
 "Enclosure must hold for all operand intervals and all sign patterns; tests check tens of them.",
 [IA], [("outward rounding to a common power-of-two denominator", IA + ": do_op helpers, checked_recip, into_square, Pow, convert_log2_denom")],
 ["lower/upper bounds of results"])
prop("C09", "Interval square root, mean, logarithm and exponential enclose the true values",
 "The square root, arithmetic-geometric mean, natural logarithm and exponential of a dyadic interval contain the true function value at every point of the interval, at the operand's precision. For a point interval the result is at most a few units in the last place wide (for the mean, when both operands are at least one and of similar magnitude), and the functions terminate.",
 ["inputs"], "every non-negative (square root, mean), positive (logarithm) or arbitrary (exponential) dyadic interval at every precision",
 "An unsound rounding in one step shows only for particular magnitudes, precisions and interval widths; tests check a few points.",
 [IA], [("integer Newton root, AGM iteration, argument reduction by powers of two and series with outward rounding", IA + ": into_sqrt, into_arithmetic_geometric_mean, log, into_exp")],
 ["bounds of sqrt/arithmetic_geometric_mean/log/exp"])
prop("C10", "Cached constants are correct under every schedule and request history",
 "The square root of two and the natural logarithm of two requested at any precision are returned as an interval of that precision containing the constant and at most a few units in the last place wide, whatever precisions were requested before, in whatever order, and by however many threads at once. Concurrent requests never deadlock, panic or observe a partially built value, and each result equals the result of the same request made alone.",
 ["schedules", "histories"], "every interleaving of concurrent first and later requests, and every order of requested precisions",
 "Unit tests run one schedule and one order; the shared cache is process-global state.",
 [IA], [("read-mostly cache of computed precisions behind a lock, initialised lazily", IA + ": ConstantCache, sqrt_2, natural_log_of_2")],
 ["returned interval per request"], None,
 [("cached constants", "computed intervals per precision", IA + ": ConstantCache")])
prop("C11", "Polynomial ring operations are exact for every coefficient type",
 "Addition, subtraction, negation, multiplication, integer powers, scalar operations, evaluation, differentiation, coefficient norms and monomial construction on polynomials give exactly the polynomial (or value) ordinary polynomial algebra gives, for integer, rational, modular and nested polynomial coefficients. All by-value, by-reference, in-place and checked forms of an operation agree. (Negative powers, and the zeroth power of the zero polynomial, are refused.)",
 ["inputs"], "every pair of polynomials, every scalar, exponent and evaluation point, for each coefficient type",
 "Ring identities quantify over all polynomials; rational coefficients with different denominators, cancellation of leading terms and mixed forms are barely sampled by tests.",
 [PO, "src/polynomial/add_sub.rs", "src/polynomial/mul.rs"], [("element vector with shared divisor, schoolbook algorithms", "src/polynomial/add_sub.rs, src/polynomial/mul.rs, src/polynomial.rs: eval_helper, derivative")],
 ["coefficients of results"])
prop("C12", "Polynomials are always in normal form and convert without loss",
 "Every polynomial, however built or computed, has a non-zero highest coefficient (or is the zero polynomial), so degree, length, equality, hashing, zero and one tests depend only on the mathematical polynomial; rational polynomials keep a positive, minimal common denominator. Reading coefficients by index, iterating from either end, converting to and from coefficient lists and splitting out the common denominator all return exactly the coefficients, and the textual form shows each coefficient with its power.",
 ["inputs", "histories"], "every coefficient list (with zeros, trailing zeros, any denominators), every interleaving of front and back iteration",
 "It is a representation invariant over all constructors and results.",
 [PO], [("normalize and reduce_divisor after every operation", PO + ": normalize, FromIterator, From<Vec>, Iter, IntoIter")],
 ["degree/len/is_zero/is_one/==/hash", "coefficient(i)/iter/into_iter/into_coefficients/split_out_divisor", "Display"])
prop("C13", "Polynomial division, remainder and modular powers satisfy their identities",
 "Dividing polynomials over a field yields quotient and remainder with dividend = quotient*divisor + remainder and remainder of lower degree than the divisor; pseudo-division yields the same identity after multiplying the dividend by the reported power of the divisor's leading coefficient. Exact division succeeds exactly when the divisor divides the dividend and then returns the quotient, modular powers of a non-zero polynomial equal the remainder of the power, a refused in-place division leaves its operand unchanged, and dividing by the zero polynomial (or a non-zero polynomial by a zero coefficient) is refused.",
 ["inputs"], "every dividend and divisor (or scalar divisor) for integer, rational and modular coefficients, every exponent",
 "The identities quantify over all pairs including degree gaps and non-monic divisors.",
 ["src/polynomial/div_rem.rs", PO], [("pseudo division and exact scaling", "src/polynomial/div_rem.rs: checked_pseudo_div_rem, checked_div_rem, checked_exact_pseudo_div, checked_powmod")],
 ["quotient, remainder, factor", "checked forms"])
prop("C14", "Polynomial gcd, lcm, content and resultant are mathematically correct",
 "The greatest common divisor of two polynomials divides both, is divisible by every common divisor and is canonical; the least common multiple and the extended-gcd cofactors satisfy their defining identities, content times primitive part gives back the polynomial, and the monic and reduced forms are the right multiples. The resultant of two polynomials equals the determinant of their Sylvester matrix, hence is zero exactly when they share a root.",
 ["inputs"], "every pair of polynomials with integer, rational, modular (and for the resultant nested polynomial) coefficients, including zero and constants",
 "Degree drops in the remainder sequence exercise different scaling factors; tests cover a handful of sequences.",
 ["src/polynomial/gcd.rs", PO], [("subresultant remainder sequences", "src/polynomial/gcd.rs: subresultant_gcd, nonzero_resultant, extended_gcd_lcm"), ("content and primitive part", PO + ": nonzero_content, primitive_part_assign")],
 ["gcd/lcm/extended_gcd/resultant/content/primitive_part"])
prop("C15", "Sturm sequences count real roots exactly",
 "For every non-zero polynomial and every pair of points that are not roots, the drop in sign changes of the returned Sturm sequence between the two points equals the number of distinct real roots between them, for both the plain and the primitive variant. The sequence starts with a positive multiple of the polynomial.",
 ["inputs"], "every non-zero integer or rational polynomial and every interval",
 "Sign errors in one pseudo-division step only show for particular degree gaps and leading-coefficient signs.",
 [PO, "src/polynomial/div_rem.rs"], [("signed remainder sequence with pseudo-division sign correction", PO + ": into_generic_sturm_sequence, to_primitive_sturm_sequence")],
 ["to_sturm_sequence/to_primitive_sturm_sequence and consuming variants"])
prop("C16", "Square-free decomposition is correct",
 "The square-free factorisation of a polynomial multiplies back to exactly that polynomial, each listed part is square-free, and the parts are pairwise coprime and carry the right multiplicity. The square-free test of a non-zero polynomial is true exactly when no non-constant polynomial's square divides it.",
 ["inputs"], "every polynomial over the rationals or integers, with any multiplicity pattern",
 "Multiplicity patterns with gaps and rational contents are not sampled.",
 [PO], [("Yun's algorithm", PO + ": square_free_factorization_using_yuns_algorithm, is_square_free")],
 ["constant factor and parts"])
prop("C17", "Integer polynomial factorisation is complete and correct",
 "Factoring an integer polynomial returns a constant and a list of distinct, primitive, irreducible non-constant polynomials with positive leading coefficients and positive multiplicities whose product is exactly the input. This holds for reducible, irreducible, repeated, non-monic and non-primitive polynomials, including those that split into many factors modulo every prime.",
 ["inputs"], "every integer polynomial up to the explored degree and coefficient bounds, and products of them",
 "A wrong lifting bound, recombination or leading-coefficient correction only shows for particular polynomials.",
 ["src/polynomial/factorization_over_integers.rs", "src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs"],
 [("modular factorisation, Hensel lifting and recombination", "src/polynomial/factorization_over_integers.rs: factor_square_free_polynomial_with_rng, factor_with_rng")],
 ["factor()"])
prop("C18", "Factorisation does not depend on the random number generator",
 "For a given polynomial the set of factors with multiplicities returned by factorisation with a caller-supplied random generator is the same for every sequence of numbers the generator produces and equals the result of the default factorisation.",
 ["inputs", "fault_sequences"], "every sequence of generator answers up to the explored number of enumerated draws",
 "Tests run with one fixed generator and seed.",
 ["src/polynomial/factorization_over_integers.rs", "src/polynomial/same_degree_factorization.rs"],
 [("random splitting retried until complete", "src/polynomial/same_degree_factorization.rs; src/polynomial/factorization_over_integers.rs: factor_with_rng")],
 ["factor_with_rng()"])
prop("C19", "Modular integer arithmetic is exact and stays reduced",
 "For every modulus and operands, constructing, converting, adding, subtracting, negating, multiplying, raising to a power and inverting modular integers gives the residue ordinary integer arithmetic gives, always in the range from zero to the modulus minus one and without overflow up to the largest value of the type. Inverse and division (for moduli of at least two) succeed exactly when the divisor is coprime to the modulus, operations on different moduli are refused, and all by-value, by-reference, in-place and checked forms agree. A modular integer prints as mod_int(value, modulus).",
 ["inputs"], "every modulus and value of every supported integer type, including the extremes of each type",
 "Overflow and reduction errors show only near type limits; tests try eleven offsets per type.",
 ["src/mod_int.rs"], [("widened intermediate arithmetic and floor reduction", "src/mod_int.rs: impl_int_modulus, checked_inverse, pow_modular_reduce")],
 ["value() of results"])
prop("C20", "Integer and fraction gcd, exact division and log2 helpers are exact",
 "For integers of every supported type and for fractions, the greatest common divisor, least common multiple and extended-gcd coefficients satisfy their defining identities (for fractions up to sign) whenever the result is representable; exact division succeeds exactly when the divisor is non-zero and divides the dividend and then returns the quotient. Floor and ceiling base-2 logarithm and trailing-zero count are exact, and absent exactly where undefined.",
 ["inputs"], "every integer (pair) of each primitive type and arbitrary-precision integers, and every pair of fractions",
 "Type limits, signs and zero are quantified over all types; tests sample a few.",
 ["src/traits.rs"], [("trait implementations by macro per type", "src/traits.rs: impl_gcd, FloorLog2, CeilLog2, TrailingZeros, ExactDiv")],
 ["gcd/lcm/extended_gcd", "checked_exact_div/exact_div", "floor_log2/ceil_log2/trailing_zeros"])
prop("C21", "Primality and prime stepping are correct for all 32-bit integers",
 "The primality test for 32-bit integers is true exactly for primes, and the next and previous prime functions return the nearest prime strictly above or below, or nothing when there is none in the type.",
 ["inputs"], "every 32-bit integer",
 "The whole domain has 2^32 values; the repository has no test of these functions.",
 ["src/util.rs"], [("trial division by a table of 16-bit primes", "src/util.rs: is_prime_u32, prev_prime_u32, next_prime_u32 and i32 forms")],
 ["is_prime_u32/next_prime_*/prev_prime_*"])
prop("C22", "Lattice reduction returns a reduced basis of the same lattice",
 "Reducing a linearly independent integer lattice basis returns vectors that generate exactly the same lattice and satisfy the size and Lovász conditions of the requested quality parameter, and terminates.",
 ["inputs"], "every independent basis up to the explored dimension and entry bounds",
 "A wrong swap or size-reduction step only shows for particular bases.",
 ["src/lattice.rs", "src/array2d.rs"], [("LLL with incremental Gram-Schmidt update", "src/lattice.rs")],
 ["reduced basis"], "cfg(algebraics_verif) wrapper: the module is crate-private")
prop("C23", "Two-dimensional array access and iteration reach exactly the right cells",
 "Reading, writing, swapping, slicing and iterating a two-dimensional array reach exactly the cells addressed, iteration in any interleaving of front and back steps yields every cell exactly once in column-major order with its position and a correct remaining length, and out-of-range access is refused. A slice of a slice addresses the corresponding cells of the original, an empty rectangle inside the bounds is answered, printing shows every cell in its row and column, and no operation has any other effect.",
 ["inputs", "histories"], "every array size, sub-rectangle and interleaving of front/back iteration up to the explored bounds",
 "Tests iterate one 2x3 array.",
 ["src/array2d.rs"], [("stride arithmetic and double-ended position iterator", "src/array2d.rs: Positions, get_index, slice functions, iterators")],
 ["elements, positions, len"], "cfg(algebraics_verif) wrapper: the module is crate-private")
prop("C24", "Quadratic numbers have a canonical form and compare exactly",
 "A real root of an integer polynomial of degree at most two, selected by its sign convention, is reduced to one canonical form; negation, sign, equality, ordering against other quadratic numbers and fractions, addition and subtraction of a fraction and the reciprocal of a fraction agree exactly with the real numbers denoted, and every result is again canonical.",
 ["inputs"], "every pair of real quadratic numbers with coefficients up to the explored bound",
 "The case analysis on signs of leading coefficients has many branches; the exhaustive comparison test in the repository is ignored as slow and uses floating point.",
 ["src/quadratic_numbers.rs"], [("sign case analysis on discriminants", "src/quadratic_numbers.rs: quadratic_less_than, into_reduced, PartialOrd<BigRational>")],
 ["cmp/eq/sign/neg/checked_add"], "cfg(algebraics_verif) wrapper: the module is crate-private")
prop("C25", "Python class operations return the exact values and raise where undefined",
 "Every operator, comparison, method and getter of the Python class, with class instances or plain integers of any size on either side, returns exactly the mathematically defined value, as the native operation does. It raises exactly where the operation is undefined: ZeroDivisionError for division by zero, ValueError for undefined or irrational powers and logarithms of non-positive numbers, TypeError for foreign operands and three-argument powers; operands keep their value.",
 ["inputs", "histories"], "every operand combination and operand form of every operation of the Python class, and every operation sequence up to the explored depth",
 "The bindings are not even compiled by the test suite, and the repository has one compile-only test for them.",
 ["src/python.rs"], [("pyo3 wrapper methods", "src/python.rs")], ["Python operators, methods, getters and exceptions"])
prop("C26", "Division to the nearest quotient is exact",
 "Dividing to the nearest quotient returns quotient and remainder with dividend = quotient*divisor + remainder; for signed and arbitrary-size integers the remainder is at most half the divisor in magnitude and halfway cases round toward zero, for unsigned integers the quotient is rounded down, and for fractions the quotient is exact. It is refused exactly when the divisor is zero or the quotient does not fit the type (fractions of a fixed-size type may also be refused when an intermediate value does not fit).",
 ["inputs"], "every dividend and divisor of every supported integer type, including the extremes of the type, and every pair of fractions",
 "The rounding direction depends on the signs of both operands, the parity of the divisor and the extremes of the type; there is no test at all.",
 ["src/traits.rs"], [("truncated division corrected by one", "src/traits.rs: DivRemNearest")], ["quotient and remainder", "checked form"],
 "cfg(algebraics_verif) wrapper: the trait is crate-private")
prop("C27", "Factoring steps over prime fields are complete for every generator",
 "Distinct-degree factorisation of a non-zero square-free polynomial over a prime field returns its leading coefficient and then, degree by degree, the monic product of all its irreducible factors of that degree (zero is answered with zero). Same-degree factorisation of a monic product of distinct irreducibles of one degree over an odd prime field returns exactly those irreducibles, whatever numbers the generator produces, and the subset enumeration used for recombination visits every subset of the requested size exactly once and stops when told.",
 ["inputs", "schedules"], "every square-free polynomial over every prime field, every sequence of generator answers, every index range and subset size",
 "A missing factor shows only for particular fields, degrees and generator answers; the tests factor four polynomials.",
 ["src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs", "src/util.rs"],
 [("gcd with x^(p^d) - x", "src/polynomial/distinct_degree_factorization.rs"), ("random splitting by (p^d-1)/2-th powers", "src/polynomial/same_degree_factorization.rs"), ("recursive subset enumeration", "src/util.rs: for_subsets_of_size")],
 ["returned factor lists", "visited subsets"], "cfg(algebraics_verif) wrapper: the functions are crate-private")
prop("C28", "Coefficient types keep the contract polynomials are built on",
 "For every supported coefficient type (integers, fractions, modular integers, polynomials of these), turning coefficients into whole elements over a common divisor and back preserves every value and uses the smallest positive common divisor, from owned or borrowed values. Zero and one are built, set and recognised exactly (keeping the modulus), negation, absolute value, powers and multiplication by a count are exact, polynomials produced on the way are in normal form, and every nesting depth prints with its own variable name.",
 ["inputs"], "every list of coefficients of every coefficient type, including nested polynomials and coefficients cancelling to zero",
 "The primitives are generic and mostly exercised through one or two types; a slip shows only for a nested or modular coefficient.",
 ["src/polynomial.rs", "src/mod_int.rs"], [("element/divisor split per coefficient type", "src/polynomial.rs: PolynomialCoefficient implementations; src/mod_int.rs: impl for ModularInteger")],
 ["PolynomialCoefficient functions", "coefficients of the results"])
prop("C29", "Sign classification and sign algebra are exact",
 "Classifying a number of any number type gives negative, positive, or nothing when it is zero. The opposite of a sign, the and/or/exclusive-or of two signs with negative read as true, their ordering, equality, default and conversion to and from truth values follow from that reading, in every by-value, by-reference and in-place form, and each integer type reports its own bit width.",
 ["inputs"], "every sign and pair of signs in every form, every value of the small integer types and the extremes of the others",
 "The forms are written by hand; no test covers them.",
 ["src/util.rs", "src/traits.rs"], [("sign enumeration and operators", "src/util.rs: Sign; src/traits.rs: IntegerBits")], ["Sign values"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}),
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               hook_needed=None)))

prop("C01", "Integer arithmetic is exact at every size",
     "Every operation on ZZ (construction from machine integers and strings, + - * / %, negation, shifts, compound assignment, addmul/submul, floor division, pow, gcd, lcm, modular inverse, comparison, sign, size, hashing of equal values, output) returns exactly the mathematical result, whatever the magnitude of operands and result. In particular nothing changes when a value or a result crosses the 64-bit machine-word boundary in either direction, when operands alias the destination, or after any history of assignments, moves and swaps. Division by zero is reported as an exception, never as a wrong value.",
     ["inputs", "histories"], "all integers, all operation sequences over a set of ZZ objects including aliased ones",
     "The tests sample a few dozen values; the representation switches between an inline word and a heap bignum on every overflow/underflow, so correctness is a statement about all pairs of representations and all results near +-2^63, and about histories of one object.",
     ["clpoly/number/ZZ.hh", "clpoly/number.hh"],
     [("inline word with overflow builtins, promotion to / demotion from a GMP integer", "clpoly/number/ZZ.hh"), ("INT64_MIN special cases", "clpoly/number/ZZ.hh")],
     ["return value and all live ZZ objects after every call"],
     [("_val/_mpz", "inline word or heap bignum", "ZZ::_val, ZZ::_mpz")])
prop("C02", "Rationals are exact and always in lowest terms",
     "Every QQ value a user can observe has a positive denominator coprime to its numerator (zero is 0/1), so equal rationals compare equal and hash equal. All field operations, comparisons, sign, absolute value, powers and text input/output agree with exact rational arithmetic. Division by zero and zero denominators are reported as exceptions.",
     ["inputs", "histories"], "all rationals, all operation sequences",
     "Tests check a few values; a missed canonicalisation shows only for particular sign/gcd combinations and only when the value is later compared or hashed.",
     ["clpoly/number/QQ.hh"], [("_canonicalize after each operation", "clpoly/number/QQ.hh")], ["num()/den() of every QQ after each call"])
prop("C03", "Prime-field scalars form the field Z/p",
     "For every prime p that fits in 64 bits, Zp construction from any (negative, huge) integer yields the least non-negative residue, and + - * / inverse, negation, powers and comparison with integers agree with arithmetic modulo p; results always lie in [0,p).",
     ["inputs"], "all primes below 2^64, all operand pairs",
     "The reduction uses a precomputed approximate inverse with corrections that are needed only for rare operand/prime combinations (large primes, values near p), which sampled tests miss.",
     ["clpoly/number.hh"], [("preinverted-limb reduction", "clpoly/number.hh Zp::__nmod_mul"), ("extended Euclid inverse", "clpoly/number.hh inv_prime")], ["number()/prime() after each call"])
prop("C04", "Variable names and identities stay in bijection",
     "At every point of any history of creating, looking up, anonymously generating and deleting variables, distinct live variables have distinct names, looking a live name up (any number of times) returns the variable that was created under it, and looking up a name that is not live, or was deleted, creates a variable different from every live one. Anonymous variables never collide with any live variable, and neither the name nor the position in the variable ordering of a live variable ever changes.",
     ["histories"], "all sequences of create / get / anonymous create / delete / lookup",
     "Tests perform a handful of creations; the global registry is shared mutable state and its guarantees are about all histories including deletion and re-creation.",
     ["clpoly/variable.hh", "clpoly/variable.cc"], [("global name table and free list", "clpoly/variable.hh")], ["name(), serial(), get_variable() after each call"],
     [("registry", "name->serial map, serial->name table, free serials", "variable::variables, name_map, free_serial")])
prop("C05", "Monomials form a commutative monoid under every admissible order",
     "For each monomial order (graded lex, lex, and the orders with a chosen main variable or chosen variable precedence), comparison is a strict total order in which 1 is least and which multiplication preserves. Product, power, exact quotient, divisibility and gcd of monomials are exact in every exponent, monomials never hold zero exponents or unsorted variables, and total degree is the sum of exponents.",
     ["inputs"], "all monomials over any set of variables, all orders",
     "Totality, transitivity and compatibility are statements about all triples; tests compare a few pairs.",
     ["clpoly/monomial.hh", "clpoly/basic_monomial.hh", "clpoly/monomial_order.hh", "clpoly/basic.hh"],
     [("merge of sorted exponent vectors", "clpoly/basic.hh"), ("comparators", "clpoly/monomial_order.hh")], ["monomial data and deg() after each call"])
prop("C06", "Polynomial ring operations are exact and canonical",
     "Over ZZ, QQ and Z/p, in every monomial order, for multivariate and univariate polynomials with any number of variables, terms and any exponents: construction from any list of terms, + - *, negation, scalar and monomial operations and powers return the mathematically exact result. The result is always in normal form (terms strictly decreasing in the order, no zero coefficients), so mathematically equal polynomials compare equal and p-p is the zero polynomial. Over ZZ and QQ, <, >, <= and >= form one total order: two polynomials compare as their terms do at the greatest monomial where they differ, a term being greater than no term and the greater coefficient deciding between two.",
     ["inputs"], "all polynomials in any number of variables and degrees, all orders and coefficient rings",
     "Products go through a heap algorithm and, when exponents look small enough, a packed-exponent fast path; whether either is right depends on number of variables, degrees and cancellation pattern, which tests sample sparsely.",
     ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial_.hh", "clpoly/polynomial.hh", "clpoly/monomial_order.hh", "clpoly/upolynomial.hh"],
     [("heap multiplication, packed monomials", "clpoly/basic.hh pair_vec_multiplies"), ("normalisation", "clpoly/basic.hh pair_vec_normalization")], ["term list of the result of each call"])
prop("C07", "Polynomials are values: operations touch only their destination",
     "In any sequence of polynomial operations over a set of objects - in-place operators, results assigned over their own operands, copies, moves, swaps, clears - every object holds exactly the value its own history defines. No operation changes an operand it does not assign, and aliasing destination and operands gives the same result as using fresh objects.",
     ["histories"], "all sequences of operations over shared polynomial objects",
     "Tests almost always use fresh results; aliasing bugs (output vector cleared while still an input, stale order pointer after a move) need particular sequences.",
     ["clpoly/basic_polynomial.hh", "clpoly/polynomial_.hh", "clpoly/basic.hh"], [("copy/move assignment with order pointer", "clpoly/basic_polynomial.hh")], ["all live objects after each call"],
     [("registers", "live polynomial objects and their order", "basic_polynomial::_data,_comp")])
prop("C08", "Division identities hold with reduced remainders",
     "For every dividend f and nonzero divisor g, quotient q and remainder r returned by polynomial division satisfy f = q*g + r, with no term of r divisible by the leading term of g (over ZZ: not reducible by it), and division of an exact product returns the exact cofactor with zero remainder. Pseudo-division with respect to a variable v satisfies lc^k * f = pquo*g + prem with deg_v(prem) < deg_v(g), k being the stated power of the leading coefficient.",
     ["inputs"], "all pairs of polynomials over ZZ, QQ, Z/p, all orders, all main variables",
     "Several division routines (single-term, heap, packed, univariate) are selected by shape; tests exercise exact division mostly.",
     ["clpoly/basic.hh", "clpoly/polynomial.hh", "clpoly/basic_polynomial.hh"], [("heap division", "clpoly/basic.hh pair_vec_div"), ("prem/pquo", "clpoly/polynomial.hh")], ["q and r of each call"])
prop("C09", "Degrees, coefficients, derivative and evaluation are exact",
     "Total and per-variable degrees, the variable set with degrees, leading coefficient and coefficient list with respect to a variable, derivative and substitution of values for variables return the mathematically exact answer in normal form. Coefficients recombine to the polynomial, the derivative obeys the Leibniz rule, and substitution is a ring homomorphism: evaluating sums and products equals the sum and product of the evaluations, in any order of substituting variables.",
     ["inputs"], "all polynomials, variables and values over ZZ, QQ, Z/p and every order",
     "Cancellation after substitution or characteristic-p derivatives produces zero coefficients only for particular inputs.",
     ["clpoly/polynomial.hh", "clpoly/polynomial_.hh", "clpoly/upolynomial.hh", "clpoly/polynomial_convert.hh"], [("assign, derivative, coeff, leadcoeff, get_variables", "clpoly/polynomial.hh")], ["return values"])
prop("C10", "Conversions preserve the polynomial",
     "Converting a polynomial between monomial orders, between multivariate and univariate form, from QQ to ZZ (clearing denominators by the least common denominator), from ZZ to Z/p or QQ yields the same mathematical polynomial (respectively its stated image) in normal form for the target. Converting back and forth returns the original.",
     ["inputs", "configurations"], "all polynomials, all pairs of orders/representations",
     "Conversions re-sort terms; errors appear only for terms whose relative position differs between the orders or whose image vanishes.",
     ["clpoly/polynomial_convert.hh", "clpoly/polynomial.hh", "clpoly/upolynomial.hh"], [("poly_convert", "clpoly/polynomial_convert.hh")], ["converted polynomial"])
prop("C11", "gcd is the greatest common divisor",
     "For integer polynomials in any number of variables and for univariate polynomials over Z/p, the returned gcd divides both arguments and every common divisor divides it: the cofactors are coprime, including numeric content. This holds for every input and every outcome of the algorithm's internal random choices, and the extended gcd also satisfies its Bezout identity.",
     ["inputs", "schedules"], "all pairs of polynomials; all sequences of internally drawn random evaluation points/primes",
     "The algorithm is modular and sparse-interpolating: unlucky primes, evaluation points, vanishing leading coefficients and term-bound misses occur only for special inputs or random draws.",
     ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc"], [("modular gcd with trial division", "clpoly/polynomial_gcd.cc"), ("Brown/Zippel recursion", "clpoly/polynomial_gcd.hh")], ["return value"])
prop("C12", "Squarefree decomposition is complete",
     "squarefree factorization returns squarefree, pairwise coprime factors whose powered product (with the reported content) is the input, and is_squarefree tells exactly whether a repeated factor exists. A squarefree basis of a list of polynomials consists of non-constant, squarefree, pairwise coprime polynomials, and the reported exponents rebuild each nonzero input up to a constant.",
     ["inputs"], "all integer polynomials and lists of polynomials, any number of variables",
     "Depends on multiplicity patterns, contents in every variable and signs; tests check a few.",
     ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc", "clpoly/polynomial.hh"], [("Yun-style gcd chains", "clpoly/polynomial_gcd.hh")], ["factor lists"])
prop("C13", "Univariate factorization over ZZ and QQ is complete",
     "Factoring a univariate polynomial over the integers or rationals returns content and factors with multiplicities whose product is exactly the input; every factor is irreducible, and no two listed factors are associates. The answer is the same set whatever random choices are made internally.",
     ["inputs", "schedules"], "all univariate polynomials over ZZ/QQ, all internal random draws",
     "Hensel lifting bounds, lattice/zassenhaus recombination and prime choice fail only for inputs with special modular factor patterns; tests mostly check the product, not irreducibility.",
     ["clpoly/polynomial_factorize.hh", "clpoly/polynomial_factorize_univar.hh", "clpoly/polynomial_factorize_zp.hh"], [("prime selection, Hensel lifting, recombination", "clpoly/polynomial_factorize_univar.hh")], ["content and factor list"])
prop("C14", "Multivariate factorization is complete",
     "Factoring a polynomial in several variables over the integers or rationals, in any monomial order, returns content and factors with multiplicities whose product is exactly the input; every factor is irreducible over the rationals and no two are associates.",
     ["inputs", "schedules"], "all multivariate polynomials over ZZ/QQ, all internal random draws",
     "Wang's algorithm depends on evaluation points, leading-coefficient distribution and lifting; failures need particular leading coefficients, contents or sparse shapes.",
     ["clpoly/polynomial_factorize.hh", "clpoly/polynomial_factorize_wang.hh"], [("Wang leading coefficient distribution, multivariate Hensel lifting", "clpoly/polynomial_factorize_wang.hh")], ["content and factor list"])
prop("C15", "Factorization over a prime field is complete",
     "Factoring a univariate polynomial over Z/p returns its leading coefficient and distinct monic irreducible factors with multiplicities whose product is exactly the input, for every prime, including multiplicities divisible by p and characteristic 2.",
     ["inputs", "schedules"], "all univariate polynomials over prime fields, all internal random draws",
     "Small characteristics, p-th powers and equal-degree splitting failures need specific inputs.",
     ["clpoly/polynomial_factorize_zp.hh"], [("squarefree, distinct-degree, equal-degree factorization", "clpoly/polynomial_factorize_zp.hh")], ["factor list"])
prop("C16", "Resultants, subresultants and discriminants are the defining determinants",
     "The resultant of two polynomials in a variable equals the determinant of their Sylvester matrix, including sign, for every number of other variables and every degree pattern; it vanishes exactly when they share a factor involving the variable. Each member of the subresultant chain equals the corresponding determinant polynomial of the Sylvester matrix, and the discriminant is (-1)^(n(n-1)/2) times the resultant with the derivative divided by the leading coefficient.",
     ["inputs"], "all pairs of polynomials of positive degree in the chosen variable",
     "Degree gaps (defective chains), equal degrees, constants and the switch of algorithm at four variables are separate code paths; tests use generic inputs.",
     ["clpoly/resultant.hh"], [("subresultant PRS", "clpoly/resultant.hh"), ("Bezout matrix determinant for many variables", "clpoly/resultant.hh")], ["return value"])
prop("C17", "Groebner bases generate the ideal and decide membership",
     "For every finite set of polynomials over a field (or integer polynomials, up to rational multiples) the computed basis generates the same ideal, every S-polynomial of it reduces to zero, and it is reduced. The normal form of f is reduced and differs from f by a member of the ideal, membership tests answer exactly, and results do not depend on order or repetition of the generators.",
     ["inputs"], "all finite generating sets, all monomial orders supported",
     "Pair-elimination criteria are sound only if the bookkeeping is right; dropping a needed pair shows only for ideals where that pair mattered.",
     ["clpoly/groebner.hh"], [("Gebauer-Moeller pair update", "clpoly/groebner.hh"), ("normal form", "clpoly/groebner.hh")], ["basis, normal forms, membership answers"])
prop("C18", "Characteristic sets describe the solution set",
     "The characteristic set of a polynomial system is a triangular ascending chain that vanishes wherever the system does and pseudo-reduces every input to zero. Wu's decomposition and the regular zero decomposition return triangular sets such that a point solves the system exactly when it is a zero of one of the sets at which that set's initials do not vanish. Splitting a regular set by a polynomial separates its zeros exactly; squarefree refinement keeps the zeros and makes them simple; regularity is decided correctly; a decomposition under conditions keeps exactly the points satisfying them.",
     ["inputs"], "all polynomial systems (the regular decomposition: zero-dimensional ones), all variable orders",
     "Equality of solution sets is a statement about all points; tests look at sizes of outputs.",
     ["clpoly/charset.hh"], [("basic set / pseudo-remainder loop", "clpoly/charset.hh"), ("splitting on initials", "clpoly/charset.hh")], ["returned sets"])
prop("C19", "Real root isolation finds every real root exactly once",
     "For every nonzero univariate integer polynomial (or list of polynomials) the isolating intervals are increasing and disjoint, each contains exactly one real root (a degenerate interval is exactly a root), and together they contain all real roots, with the right polynomial and multiplicities attached. The root bound exceeds the absolute value of every root and the sign-variation count is exact.",
     ["inputs"], "all univariate integer polynomials and lists",
     "Roots at bisection points, at zero, clustered roots and shared factors are special inputs; tests compare counts on few polynomials.",
     ["clpoly/realroot.hh", "clpoly/realroot.cc"], [("Descartes/Uspensky bisection", "clpoly/realroot.cc")], ["intervals, indices"])
prop("C20", "Real algebraic numbers are totally ordered",
     "Comparing two real algebraic numbers given by polynomial and isolating interval, or one with a rational or an infinity, gives the order of the actual real numbers, consistently for every history of comparisons and interval refinements. Refinement never loses the root, and afterwards each object still denotes the same number.",
     ["inputs", "histories"], "all pairs of isolated roots and rationals, all sequences of comparisons and refinements",
     "Comparison refines shared intervals as a side effect; wrong answers need particular interval overlaps or midpoints.",
     ["clpoly/realroot.hh", "clpoly/realroot.cc"], [("interval refinement and gcd test", "clpoly/realroot.cc uroot::comp")], ["comparison results, intervals after each call"],
     [("uroot", "polynomial and isolating interval, refined in place", "uroot::_poly,_left,_right")])
prop("C21", "Dense prime-field polynomials agree with the definition at all sizes",
     "For dense univariate polynomials over any prime below 2^64 and of any length, addition, subtraction, multiplication, division with remainder, gcd, evaluation-style helpers and conversion agree with arithmetic in Z/p[x]. The algorithm switches (schoolbook, Karatsuba, Euclid, half-gcd) are invisible in the results.",
     ["inputs"], "all lengths and degree differences, all primes below 2^64",
     "Thresholds and degree imbalances select code paths; half-gcd mistakes show only for abnormal quotient-degree sequences.",
     ["clpoly/dense_upoly_zp.hh"], [("Karatsuba, lazy 3-word reduction, half-gcd", "clpoly/dense_upoly_zp.hh")], ["coefficients of results"])
prop("C22", "Graph operations return what their definitions say",
     "The associated graph of a polynomial set has the occurring variables as nodes and an edge exactly between variables that occur together in some polynomial. Chordal completion returns a chordal supergraph on the same nodes with a perfect elimination ordering of it, perfect_elimination_ordering returns one for every chordal graph, the elimination game adds exactly the fill edges, and components, heights and similarity scores are exact.",
     ["inputs", "schedules"], "all finite undirected graphs and polynomial sets; all random tie-breaks",
     "The orderings break ties randomly and are tested on one or two graphs.",
     ["clpoly/associatedgraph.hh", "clpoly/associatedgraph.cc"], [("MCS / MCS-M", "clpoly/associatedgraph.cc"), ("elimination game", "clpoly/associatedgraph.hh")], ["graph adjacency, orderings"])
prop("C23", "Random generators honour their contract on every draw",
     "A generated random polynomial has exactly the requested total degree and at most (where promised, exactly) the requested number of terms, uses only the given variables, has coefficients in the requested range and a nonzero constant term when asked; samples and selections without repetition contain distinct members of the requested size. This holds for every random draw and every parameter combination.",
     ["inputs", "schedules"], "all parameters, all random draws",
     "A few draws cannot show a property of all draws; off-by-one errors at the ends of the ranking appear rarely.",
     ["clpoly/random.hh"], [("combinatorial unranking", "clpoly/random.hh detail::unrank_monomial_*")], ["generated objects"])
prop("C24", "Printed numbers and polynomials read back as themselves",
     "The text written for a number, monomial or polynomial (multivariate or univariate, any ring and order) denotes exactly that object: parsing it as an ordinary algebraic expression gives back the same value, signs, unit coefficients, constants and zero included.",
     ["inputs"], "all printable objects",
     "Sign and unit-coefficient handling depends on position and value; tests do not parse output back.",
     ["clpoly/basic_polynomial.hh", "clpoly/monomial.hh", "clpoly/basic_monomial.hh", "clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/upolynomial.hh"], [("operator<<", "clpoly/basic_polynomial.hh")], ["stream contents"])
prop("C25", "Storage is owned, released once, and never touched outside live objects",
     "Every call of the library, in every history of constructions, copies, moves, aliased and failing calls over all parts of the library, reads and writes only storage of live objects and releases each block exactly once: no access out of bounds or after release, no double release, no access to elements a container does not have. When the objects of a history are destroyed, all storage they held is free again, also after calls that ended with an exception (tables filled once, such as names and primes, excepted): repeating the history does not need more and more memory.",
     ["inputs", "histories"], "all histories of public calls",
     "Misuse of storage usually gives right values; it shows only under particular representations (small/large integers, reused blocks), aliasing and error paths.",
     ["clpoly/number/ZZ.hh", "clpoly/basic.hh", "clpoly/monomial.hh", "clpoly/dense_upoly_zp.hh"], [("tagged small/large integer", "clpoly/number/ZZ.hh"), ("heap multiplication and division with raw arrays", "clpoly/basic.hh"), ("raw coefficient buffers", "clpoly/dense_upoly_zp.hh")], ["allocator"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

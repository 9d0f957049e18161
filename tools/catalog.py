"""Writes properties.jsonl and MANIFEST.json from the catalogue below (run: python3 tools/catalog.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT = "rosemary/number_theory/"
AL = "rosemary/algebra/"
CB = "rosemary/combinatorics/"
DS = "rosemary/data_structures/"
GR = "rosemary/graphs/"

P = []


def prop(pid, title, statement, over, text, why, mech, technique, note, observe=None):
    """mech: list of (what makes it hold, file, function names)"""
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, mech=mech,
                  technique=technique, note=note, observe=observe))


# ------------------------------------------------------------------ number theory: core

prop("C01", "gcd, lcm and extended gcd satisfy their algebraic definitions",
     "For all integers (any sign, any size, zero included) gcd and lcm, also of lists, are the nonnegative greatest common divisor and least common multiple, "
     "and lcm and gcd are tied by lcm(a, b)*gcd(a, b) = |a*b|. The extended gcd returns (x, y, d) with a*x + b*y = d = gcd(a, b).",
     ["inputs"], "all pairs and nonempty lists of integers, both signs, zeros, multi-word sizes, correlated values (shared factors, consecutive Fibonacci numbers)",
     "The tests try a few hundred small positive pairs; signs, zeros, huge and correlated operands are unbounded.",
     [("Euclid's algorithm and Bezout coefficients", NT + "core.py", "gcd gcd_list ext_gcd lcm lcm_list")],
     "property-based testing against math.gcd/math.lcm and the Bezout identity",
     "Random and exhaustive-small integers; trusts math.gcd and math.lcm.")

prop("C02", "Modular powers, inverses and Chinese remaindering solve their congruences",
     "power_mod(a, k, m) is the least nonnegative residue of a**k modulo m for a >= 0, k >= 0 and m >= 1, and rejects negative exponents and nonpositive moduli; inverse_mod(a, m) for a >= 1, m >= 2 is the inverse of a in [1, m) or raises ValueError exactly when gcd(a, m) > 1. "
     "Chinese remaindering, plain or with preconditioned moduli, returns the unique solution in [0, M) of any system of congruences with pairwise coprime moduli, for any order of the congruences and any sign of the residues.",
     ["inputs"], "all nonnegative bases, exponents, moduli (prime, composite, even, 1), all systems with pairwise coprime moduli",
     "Tests use fixed bases and a handful of systems; the guarantee is over all moduli, exponents, residues and orderings.",
     [("square-and-multiply, extended gcd", NT + "core.py", "power_mod inverse_mod"),
      ("Garner-style combination and its preconditioning data", NT + "core.py", "chinese crt_preconditioning_data chinese_preconditioned")],
     "property-based testing: reference model (built-in pow) and checking the defining congruences",
     "Random factored moduli and systems; trusts CPython pow.")

prop("C03", "Integer roots, logarithms, bit counts and valuations are exact",
     "Integer square and nth roots and integer logarithms are the exact floors for integers of any size, in particular next to perfect powers. "
     "bit_count is the number of one bits, and the valuation of a nonzero integer of either sign at p is the exact exponent of p.",
     ["inputs"], "all nonnegative integers (thousands of bits, k**n-1, k**n, k**n+1), all bases >= 2, all orders n >= 1, all nonzero n for valuations",
     "Floating point shortcuts are right for small values and fail only near perfect powers beyond 2**52, which samples do not hit.",
     [("Newton iteration, bisection on bits", NT + "core.py", "integer_sqrt integer_nth_root integer_log bit_count valuation")],
     "property-based testing of the defining inequalities r**n <= x < (r+1)**n on boundary-biased integers",
     "Exact integer arithmetic is the oracle; sizes to a few thousand bits.")

prop("C04", "The Jacobi symbol is the product of Legendre symbols",
     "For every integer a and odd positive m the Jacobi symbol is the product, over the primes dividing m with multiplicity, of Euler's criterion values; it is 0 exactly when gcd(a, m) > 1. "
     "It is multiplicative in both arguments, periodic in a modulo m, and obeys quadratic reciprocity with both supplements; even or nonpositive m is rejected with ValueError.",
     ["inputs"], "all integers a (both signs, multiples of m), all odd m >= 1 including 1, prime powers and many-word moduli",
     "Sign and residue-class case analysis: a wrong class mod 8 or mod 4 shows only for particular residues.",
     [("reduction by reciprocity", NT + "core.py", "jacobi_symbol")],
     "property-based testing against Euler's criterion on generated factorizations, plus metamorphic laws",
     "Moduli are built from known primes, so the oracle needs no factoring.")

# ------------------------------------------------------------------ primes

prop("C05", "Primality tests, next prime and random prime are right",
     "is_prime and the deterministic tests decide primality exactly, and the probabilistic tests never call a prime composite and do not call composites from the classical pseudoprime families (Carmichael, strong pseudoprimes, prime powers, semiprimes) prime; the probable prime test is exact below 3*10**24. "
     "next_prime(n), also in its probable form, is the least prime > n for every integer n; a random prime drawn from an interval that contains a prime is a prime of that interval; the Lucas-Lehmer test is exact for Mersenne exponents.",
     ["inputs"], "all integers including negatives, 0, 1, 2, small exhaustive ranges, pseudoprimes, products of large primes, all bit sizes",
     "Composites that fool one base or fall past a table bound are rare; tests check a few dozen numbers.",
     [("Miller-Rabin, Solovay-Strassen, Lucas-Lehmer", NT + "primes/primality.py", "miller_rabin miller_rabin_deterministic solovay_strassen lucas_lehmer is_probable_prime is_prime"),
      ("searches for primes", NT + "primes/primality.py", "next_prime next_probable_prime random_prime")],
     "property-based testing against sieve tables, sympy and numbers of known factorization",
     "Exhaustive on small ranges, adversarial pseudoprime families, random large products.")

prop("C06", "All prime sieves and ranges list exactly the primes",
     "Every sieve returns exactly the primes up to its bound in increasing order, for every bound (0, 1, 2, squares of primes, bounds next to primes), and the first-n function returns exactly the first n primes. "
     "Prime ranges and interval sieves return exactly the primes of their half-open interval, wherever it lies.",
     ["inputs"], "all bounds and all intervals, including empty ones, ends at primes and prime squares, far from the origin",
     "An off-by-one at a segment, wheel or square boundary shows at isolated bounds only; tests fix a few round bounds.",
     [("sieves", NT + "primes/sieves.py", "primes primes_first_n eratosthenes1 eratosthenes2 luo chartres pritchard"),
      ("segmented ranges", NT + "primes/sieves.py", "prime_range sieve_interval")],
     "exhaustive small bounds plus boundary-biased random bounds, differential across sieves and an independent sieve",
     "The oracle is an independent bytearray sieve / trial division.")

prop("C07", "Prime counting and prime summing methods agree with the sieve",
     "Every prime counting method (Legendre, Meissel, Lehmer, the LMO variants, the dispatcher, the table) gives the number of primes up to n, and the prime sum methods give their sum, for every n >= 1. "
     "All methods agree with each other at primes, prime squares and cubes, and their neighbours.",
     ["inputs"], "all n >= 1; n at and next to primes, squares and cubes of primes, and random n up to 10**7 or so",
     "The methods split n at n**(1/2), n**(1/3), n**(1/4): rounding errors show only when n is at such a boundary.",
     [("combinatorial counting", NT + "primes/prime_counting.py", "legendre meissel lehmer lmo lmo_bit prime_count pi_table"),
      ("summation", NT + "primes/prime_counting.py", "prime_sum prime_sum2")],
     "exhaustive small n plus boundary-biased n, differential across all methods and an independent sieve",
     "Bounded n (quick up to a few hundred thousand exhaustively in part, random to 10**7).")

# ------------------------------------------------------------------ factorization

prop("C08", "Factorizations are complete, sorted and multiply back",
     "For every nonzero integer the factorization is the list of its (prime, exponent) pairs in increasing order, with (-1, 1) first for negatives, whatever options are set, also when a prime factor could be mistaken for a strong pseudoprime of up to 24 digits, and zero is rejected. "
     "Multiplying the factorization gives the integer back, and multiplying any list of (base, exponent) pairs does what it says.",
     ["inputs", "configurations"], "all nonzero integers (smooth, semiprimes, prime powers, large prime factors, perfect powers, negative) times all option settings",
     "The route taken (trial division, rho, continued fractions, power detection) depends on the input and options; tests take few routes.",
     [("staged factoring and recombination", NT + "factorization/factorization.py", "factor factor_back prime_divisors")],
     "property-based testing: round trip from generated factorizations",
     "Oracle is the generated factorization itself (from known primes).")

prop("C09", "Each factoring algorithm returns a true divisor of its input",
     "Every factoring algorithm, given any integer of its domain, returns a genuine nontrivial divisor for composites (where it is a complete method: always) and recognises primes as such; randomised methods return a divisor or report failure, never a non-divisor. "
     "Smooth factoring over a factor base returns exact exponents, or says that the number is not smooth.",
     ["inputs", "schedules"], "odd and even composites, primes, squares, prime powers, semiprimes with close and distant factors; all random choices of the randomised methods",
     "Whether a method succeeds depends on smoothness and on random choices; tests try a few numbers each.",
     [("trial division, Fermat, Lehman, Pollard, CFRAC", NT + "factorization/algorithms.py", "trial_division fermat lehman pollard_p_minus_1 pollard_rho pollard_rho_brent cfrac smooth_factor")],
     "property-based testing: divisor validity and completeness on numbers of known factorization",
     "Random seeds are part of the case; heuristic methods are only held to validity.")

prop("C10", "Divisor enumerations and factored ranges are complete",
     "The divisor functions, from n or from its factorization, list each positive divisor exactly once in increasing order (the lazy one in any order); unitary divisors and divisor pairs are exactly those defined. "
     "A factored range yields every integer of the interval with its complete factorization, in order.",
     ["inputs"], "all positive n and all factorizations (including that of 1), intervals anywhere on the positive axis",
     "Tests sample a few n; duplicates or omissions depend on the exponent pattern, and range factoring on where the interval lies.",
     [("divisor generation", NT + "factorization/factorization.py", "divisors xdivisors unitary_divisors divisor_pairs prime_divisors"),
      ("range factoring", NT + "factorization/factorization.py", "factored_range")],
     "property-based testing against divisors built from generated factorizations",
     "Divisor counts to a few thousand; intervals to 10**12 or so.")

# ------------------------------------------------------------------ arithmetic functions

prop("C11", "Arithmetic functions match their definitions",
     "Euler phi, Moebius mu, divisor sigma_k, the divisor count, Carmichael lambda, factorials and primorials have the values of their definitions for every positive integer, given as an integer or as a factorization, and reject nonpositive input with ValueError. "
     "The multiplicative ones are multiplicative on coprime arguments, and Dirichlet identities such as sum of phi over the divisors of n being n hold.",
     ["inputs"], "all positive integers and all factorizations; exponents k >= 0 of sigma",
     "Values depend on the exponent pattern (for lambda on powers of two); tests check short tables.",
     [("closed formulas over factorizations", NT + "arithmetic_functions/functions.py", "euler_phi moebius_mu divisor_sigma divisor_tau carmichael_lambda factorial primorial")],
     "property-based testing against brute-force definitions and formulas on generated factorizations",
     "Brute force on small n, formula oracle on large generated factorizations.")

prop("C12", "Arithmetic function sieves agree with pointwise values",
     "The list sieves of phi, mu, sigma_k and tau hold at every index i from 1 to n the value of the function at i, for every n >= 1, and the Moebius range yields the right value at each integer of any interval.",
     ["inputs"], "all lengths n, all k, all intervals of positive integers",
     "A sieve error shows at particular indices (prime powers, last index, block ends).",
     [("sieves", NT + "arithmetic_functions/sieves.py", "euler_phi_list moebius_list sigma_list tau_list moebius_range")],
     "exhaustive lengths plus random intervals against brute-force values",
     "Oracle: independent definitions by smallest-prime-factor sieve.")

prop("C13", "Summatory functions equal the sums of their terms",
     "The sublinear summatory functions of phi, of the weighted phi, of mu and of sigma give exactly the sum of the pointwise values up to n for every n >= 1.",
     ["inputs"], "all n; n at squares, cubes and their neighbours",
     "The hyperbola split depends on n**(1/2) and n**(2/3); an off-by-one shows only at boundary n.",
     [("Dirichlet hyperbola summation", NT + "arithmetic_functions/sums.py", "euler_phi_sum euler_phi_weighted_sum moebius_sum sigma_sum")],
     "exhaustive small n plus boundary-biased n, against prefix sums of an independent sieve",
     "n up to 10**5 or so in quick.")

prop("C14", "Inverse totient returns exactly the preimages",
     "The inverse Euler phi functions return, for every positive integer n given as an integer or as a factorization, exactly the integers m with phi(m) = n, sorted and without repetition (empty when there is none).",
     ["inputs"], "all positive n (totients and nontotients, powers of two, factorials, products of p-1) and factorizations",
     "Completeness is a statement about all m; tests know the answer for a few n.",
     [("backtracking over divisors", NT + "arithmetic_functions/inverse_functions.py", "euler_phi_inverse inverse_phi")],
     "exhaustive small n by a phi sieve, random n from generated preimages, round trip through phi",
     "Completeness is checked by a sieve for small n and by planted preimages for large n.")

# ------------------------------------------------------------------ Zn

prop("C15", "Orders, primitive roots and discrete logarithms",
     "The multiplicative order is the least positive exponent giving 1, a discrete logarithm reported satisfies its equation (and is found whenever one exists), and the primitive root functions recognise and return exactly elements of full order. "
     "Fibonacci primitive roots are exactly the primitive roots g with g**2 = g + 1; moduli without primitive roots and non-units are rejected or reported as documented.",
     ["inputs"], "all moduli (1, 2, 4, p**k, 2p**k and others), all units",
     "Failures depend on the group structure of the modulus; tests cover a few primes.",
     [("order and primitive root tests over phi(n)", NT + "zn_arithmetic.py", "multiplicative_order is_primitive_root primitive_root fibonacci_primitive_roots"),
      ("baby-step giant-step", NT + "zn_arithmetic.py", "discrete_log")],
     "exhaustive small moduli plus random large ones, against brute force and defining congruences",
     "Brute force for small moduli, verified equations for large ones.")

prop("C16", "Modular square roots and quadratic congruences are found completely",
     "The square root functions return exactly all residues x with x**2 = a modulo a prime, a prime power or any modulus, sorted where lists, and linear and quadratic congruence solvers return exactly all solutions in [0, n). "
     "The nth roots of 1 and of -1 modulo a prime are exactly all of them.",
     ["inputs"], "all residues (zero, non-coprime, negative, unreduced) and all moduli, including p = 3 mod 4, 5 mod 8, 1 mod 2**s and powers of 2",
     "Tonelli-Shanks, Hensel lifting and gluing have case splits by residue class and by valuation of a; tests sample few classes.",
     [("roots modulo p, p**k, n", NT + "zn_arithmetic.py", "sqrts_mod_p sqrts_mod_n"),
      ("congruences and roots of unity", NT + "zn_arithmetic.py", "linear_congruence quadratic_congruence nth_roots_of_unity_mod_p nth_roots_of_minus1_mod_p")],
     "exhaustive small moduli by brute force, random large moduli by planted roots",
     "For large moduli validity and the count of solutions are checked; quadratic congruences with a = 0 mod n are left out.")

# ------------------------------------------------------------------ misc

prop("C17", "Classification predicates decide exactly",
     "The predicates for squares, perfect powers, powers of two, squarefree numbers and factorials answer exactly by definition for every positive integer (for powers also negative ones), and the witness returned for a power, as (base, exponent), is a correct one. "
     "Squarefreeness is the same whether the number or its factorization is given.",
     ["inputs"], "all integers, biased to members of each class and their neighbours, with large members",
     "Near misses (k**n +- 1) of large size are measure zero in any sample.",
     [("predicates", NT + "classification.py", "is_square is_power is_power2 is_squarefree is_factorial")],
     "exhaustive small n plus generated members and near misses, against definitions",
     "Definitions evaluated with exact integers. The other predicates of the module are empty stubs.")

prop("C18", "Continued fractions of quadratic irrationals are exact",
     "The partial quotients of (p + sqrt(d))/q are the floors of the exact complete quotients for any integers p, q != 0 and nonsquare d > 0, and the convergents are those of the partial quotients. "
     "Convergents of any finite or infinite sequence follow the recurrence, are in lowest terms and approach the value with the classical error bound.",
     ["inputs"], "all p, q of both signs, all nonsquare d, all lengths",
     "Exactness fails for particular signs and divisibility of q into d - p**2; tests use sqrt(d) mostly.",
     [("exact quotient recurrence", NT + "continued_fractions.py", "QuadraticIrrational partial_quotients convergents")],
     "property-based testing against an exact integer-arithmetic model of the complete quotients",
     "Reference model by integer comparison of surds.")

prop("C19", "Pell equation solvers return valid, fundamental and complete solutions",
     "The fundamental solution of x**2 - D*y**2 = +-1 is the least positive one (or reported not to exist), and generated solutions satisfy their equation, are increasing and without gaps. "
     "For x**2 - D*y**2 = N the class representatives returned are solutions and generate, with the fundamental solution, every solution, and the mediant search finds the fundamental unit.",
     ["inputs"], "all nonsquare D, all N != 0 for which the solver is documented",
     "Completeness over all N and D (classes of solutions) cannot be sampled by a few equations.",
     [("PQa recurrence and classes", NT + "diophantine_equations/pell.py", "PellEquation pell_fundamental_solution pell_small pell_minimal_positive_solutions pell_solution_generator farey")],
     "exhaustive small (D, N) by brute force, random D by checking equations and completeness below bounds",
     "Completeness is checked up to brute-force bounds on y.")

prop("C20", "Largest divisors, maximal divisor counts, Bernoulli numbers, progressions",
     "The largest divisor of n below a bound, the number up to a bound with the most divisors, the Bernoulli numbers, and the test for and longest arithmetic progression in a sorted set are exactly as defined for every input.",
     ["inputs"], "all n and bounds, all indices, all sets of integers",
     "Extremal values over all candidates: a test knows the optimum for a few inputs only.",
     [("searches", NT + "misc.py", "largest_divisor maximize_divisors bernoulli_list"),
      ("progressions", NT + "arithmetic_progressions.py", "has_three_term_ap longest_ap")],
     "property-based testing against brute force, plus the Bernoulli recurrence",
     "Brute force bounds the sizes.")

# ------------------------------------------------------------------ algebra

prop("C21", "Polynomial multiplication kernels agree with convolution",
     "Classical and Karatsuba multiplication, powers, and addition and subtraction of coefficient lists give exactly the convolution, power, sum and difference for lists of any lengths and integer coefficients of any size and sign, and leave their arguments unchanged.",
     ["inputs"], "all pairs of coefficient lists: equal and unequal lengths, empty, zeros at both ends, odd and even lengths, above and below the cutoffs",
     "Karatsuba splits depend on both lengths and on a cutoff; tests multiply few shapes.",
     [("kernels", AL + "polynomials/algorithms.py", "mul_classical mul_karatsuba power_jcp list_add list_subtract")],
     "property-based differential testing against naive convolution and big-integer evaluation",
     "Lengths up to a few hundred.")

prop("C22", "Polynomial objects form a ring with exact division and gcd",
     "Sums, differences, products, powers, negation, evaluation, comparison, indexing and conversion of polynomials (with each other and with numbers, in either order) agree with arithmetic on values and coefficients, and operands are never changed. "
     "Division satisfies the division identity with a remainder of smaller degree (or raises when not exact over the integers), pseudo-division its identity, and the gcd divides both and is a multiple of every common divisor.",
     ["inputs"], "all integer polynomials, also zero and constants, with planted common factors; all integer operands",
     "Identities over all operands; tests compute a few products and gcds.",
     [("ring operations", AL + "polynomials/polynomials.py", "Polynomial"), ("division and gcd", AL + "polynomials/polynomials.py", "quo_rem pseudo_quo_rem gcd PolyZZ PolyQQ")],
     "property-based testing: homomorphism to values, division identity, planted gcd, sympy differential",
     "Degrees up to about 12 for gcds; Fractions in exact integer division are left out.")

prop("C23", "Matrix arithmetic, determinants and row or column deletion",
     "Matrix sums, differences, products and scalar operations are entrywise exact for all conforming shapes and are rejected with ValueError otherwise, and determinants equal the Leibniz expansion and are multiplicative. "
     "Deleting rows and columns returns the expected minor; no operation changes or shares storage with its operands.",
     ["inputs"], "all shapes (square or not, 1 by n), integer and rational entries, singular matrices, zero pivots",
     "Pivoting and shape errors need zero pivots or nonsquare shapes, absent from tests.",
     [("matrices", AL + "matrices/matrices.py", "Matrix MatrixZZ MatrixQQ determinant delete_row delete_col")],
     "property-based testing against list-of-lists reference arithmetic and Leibniz determinants",
     "Determinants up to 6 by 6 by Leibniz, larger ones by Fraction elimination.")

prop("C24", "Truncated power series operations are exact",
     "Series multiplication (both methods), inversion (constant term 1 or -1), powers with nonnegative integer exponents and the eta and delta series agree, coefficient by coefficient up to the requested precision, with exact series arithmetic.",
     ["inputs"], "all coefficient lists, precisions and exponents",
     "Truncation errors show at the last coefficients for particular lengths; tests compare a few series.",
     [("series", AL + "power_series/power_series.py", "ps_mult_classical ps_mult_karatsuba ps_invert ps_power delta_series eta_series exps")],
     "property-based testing against naive truncated convolution and inverse identities",
     "Constant terms of inverses are +-1.")

# ------------------------------------------------------------------ combinatorics

prop("C25", "Enumeration functions count what they name",
     "Bell, Stirling, binomial, multinomial, bipartition, partition (and the coefficients of the r-th power of the partition generating function), domino and triomino tiling and necklace functions give the number (or list) of the objects they name for every argument in their domain, including 0 and degenerate arguments.",
     ["inputs"], "all arguments in the domain, degenerate ones included",
     "Closed forms and recurrences can be wrong off the sampled arguments; tests check short tables.",
     [("counting", CB + "enumeration/enumeration.py", "bell_number stirling_number2 binomial multinomial bipartitions partition_list partition_number rth_power_partition_number number_of_domino_tilings triomino_tilings necklaces")],
     "exhaustive small arguments by brute-force enumeration, larger ones by independent recurrences",
     "Sizes bounded by the cost of enumeration.")

prop("C26", "Permutation and variation generators yield each object once",
     "The permutation generators yield every distinct arrangement of their input exactly once (the lexicographic ones in lexicographic order), and the variation generators every distinct r-variation without or with repetition, for lists with or without repeated elements.",
     ["inputs"], "all finite lists (empty, one element, repetitions) and all r up to the length",
     "Completeness and uniqueness over all multisets; tests list a few.",
     [("generators", CB + "generation/permutations.py", "phillips knuth_algorithm_l knuth_algorithm_l_variations knuth_algorithm_l_rvariations")],
     "exhaustive small multisets against itertools",
     "Lengths to 6 or 7.")

prop("C27", "Partition, combination and tuple generators are complete and ordered",
     "The partition generators yield every integer partition meeting the requested constraints (number of parts, allowed parts, distinctness) exactly once, the combination generator every t-subset once, the tuple generator every tuple within its bounds once, each in its documented order; objects already yielded are not changed by advancing the generator.",
     ["inputs", "configurations"], "all n, all constraint combinations, all t and n, all bounds",
     "Constraint combinations multiply; tests check a few of them.",
     [("generators", CB + "generation/", "integer_partitions combinations n_tuples")],
     "exhaustive small arguments against brute force",
     "n to about 25, bounded products of tuple bounds.")

prop("C28", "Knapsack solvers are exact and their packings feasible",
     "The exact knapsack solvers return the optimal value and a subset of distinct items that has this value and fits the capacity, and all exact methods agree; the annealing heuristic returns a feasible packing whose value is as reported and never above the optimum.",
     ["inputs"], "all lists of positive weights and nonnegative values (integers or fractions), all capacities (0, below every weight, above the total)",
     "Bounding errors prune the optimum only for particular instances.",
     [("exact and heuristic solvers", CB + "optimization/knapsack.py", "depth_first dynamic_programming branch_and_bound_depth_first simulated_annealing")],
     "property-based testing against exhaustive subset search; differential across solvers",
     "Up to 10 or so items by brute force, dynamic programming oracle beyond.")

prop("C29", "Exact cover solvers return all and only exact covers",
     "Every exact cover solver yields each exact cover exactly once and nothing else for every family of sets, so counts and lists agree; sudoku solutions are valid completions of the given puzzle, and the counts of Langford pairings, domino tilings and Latin squares are right.",
     ["inputs"], "all set systems (duplicates, empty families, uncoverable items, singletons), sudoku puzzles with a solution, small puzzle sizes",
     "Linked-list covering and uncovering must restore state exactly: errors show on particular overlap patterns.",
     [("solvers", CB + "optimization/exact_cover.py", "algorithmx algorithm_dlx ExactCover ExactCoverBinary"),
      ("encodings", CB + "optimization/exact_cover.py", "langford_pairings domino_tilings latin_square_ints sudoku_dlx")],
     "property-based testing against subset brute force; round trip of generated sudoku grids",
     "Set systems of up to about 10 sets.")

prop("C30", "TSP solvers return valid tours of the reported cost; exact ones optimal",
     "Every TSP solver and tour improvement returns a permutation of the cities whose length is the reported cost; the exact solvers return the optimum also for asymmetric matrices, heuristics never report less than the optimum, and improvement steps never lengthen a tour. "
     "Distance matrices are the rounded or exact Euclidean distances, and the genetic operators keep tours valid and costs consistent.",
     ["inputs", "schedules"], "all distance matrices with at least 2 cities, all starting tours, all random choices of the heuristics",
     "Pruning errors and cost bookkeeping drift only on particular matrices and random sequences.",
     [("exact", CB + "optimization/tsp.py", "depth_first branch_and_bound"),
      ("heuristics", CB + "optimization/tsp.py", "farthest_insertion random_two_opt steepest_ascent_two_opt two_opt simulated_annealing_two_opt euclidean_distance_matrix cost"),
      ("genetic", CB + "optimization/genetic_tsp.py", "TravelingSalesman")],
     "property-based testing against permutation brute force and recomputed tour lengths",
     "Up to 7 cities for optimality.")

prop("C31", "Alphametics solver returns exactly the digit assignments",
     "The alphametics solver returns exactly the assignments of distinct digits to letters, without leading zeros, that make the sum true; none when there is none.",
     ["inputs"], "all word sums with at most ten letters, solvable or not",
     "Column and carry logic depends on word lengths and shared letters; tests try a classic few.",
     [("solver", CB + "recreational/alphametics.py", "solve")],
     "property-based testing: planted solvable puzzles and brute-force assignment search",
     "At most seven or so letters for completeness.")

# ------------------------------------------------------------------ data structures

prop("C32", "Heaps behave as priority queues over every operation history",
     "Under every sequence of inserts, bulk inserts, merges, key decreases and delete-mins, find-min and delete-min return a minimum of the current contents, delete-min removes exactly one element, and no element is lost, duplicated or reordered. "
     "Merging leaves the union of the contents, and element listings match the contents.",
     ["histories"], "all operation histories over all values, including many heaps merged together and repeated priorities",
     "Heap links break only after particular histories; tests run one insert-then-drain sequence.",
     [("leftist heap", DS + "heaps.py", "LeftistHeap"), ("pairing heap", DS + "heaps.py", "PairingHeap")],
     "stateful model-based testing against sorted multisets",
     "Histories of up to about 60 operations; pairing heap values are unique, min of an empty heap is left out.")

prop("C33", "Union-find tracks the partition over every history",
     "After every history of unions and finds, two elements have the same representative exactly when they were connected by unions, the representative is a member of its set, and named sets report the name their unions assigned.",
     ["histories"], "all histories of unions (by set names) and finds over all sets of elements",
     "Path compression and name bookkeeping go wrong after particular orders; tests do a handful of unions.",
     [("disjoint sets", DS + "unionfind.py", "UnionFind NamedUnionFind")],
     "stateful model-based testing against explicit partitions",
     "Unions take the names of two different sets.")

prop("C34", "Bit-indexed sieve sums match a direct count after every history",
     "After every history of markings, each partial sum is the number of unmarked entries up to its argument, entries list exactly the unmarked ones, and marking is idempotent, for both implementations.",
     ["histories"], "all sizes and all marking histories",
     "Index arithmetic errors depend on the low bits of positions and repeated markings.",
     [("binary indexed trees", DS + "bit_sieve.py", "BITSieve BITSieveArray")],
     "stateful model-based testing against a plain list",
     "Sizes up to a few hundred.")

# ------------------------------------------------------------------ graphs

prop("C35", "Graphs track every mutation history exactly",
     "After every sequence of vertex and edge additions, deletions and neighborhood removals, the vertices, edges, weights, degrees and neighborhoods are exactly those of the sequence, adjacency stays symmetric, and no deleted vertex or edge remains visible. "
     "Copies, induced subgraphs, complements and returned sets are independent of the graph: changing one never changes another.",
     ["histories"], "all mutation histories, interleaved with copies and derived graphs, on any comparable vertex labels",
     "Aliasing and one-sided deletions need particular sequences; tests build graphs once and query them.",
     [("adjacency dictionary", GR + "graphs.py", "Graph add_vertex add_edge delete_vertex delete_edge remove_neighborhood copy")],
     "stateful model-based testing against a set-of-edges model, with aliasing probes",
     "Simple graphs; histories of up to about 40 operations, long ones of thousands on up to 60 vertices.")

prop("C36", "Graph views, constructors and loaders describe the right graph",
     "Degrees, leaves, density, extremal vertices, matrices, complements, induced subgraphs and orderings are as defined for every graph, and the constructors (complete, Petersen, random, coprime, odd, grid) build exactly the graphs they name. "
     "Loading a graph from a file or DIMACS text gives the graph written there.",
     ["inputs"], "all simple graphs, all constructor parameters, all well-formed files",
     "Tests query a few fixed graphs.",
     [("views", GR + "graphs.py", "density adjacency_matrix degree_matrix laplacian_matrix induced_subgraph complement leaves"),
      ("constructors and loaders", GR + "graphs.py", "complete_graph petersen_graph random_graph coprime_pairs_graph odd_graph grid_graph load_graph load_dimacs_graph")],
     "property-based testing against adjacency-set models; write-then-load round trips in a scratch directory",
     "Graphs up to about 10 vertices, seeded ones to several hundred.")

prop("C37", "Shortest path algorithms return true distances and valid trees",
     "Every shortest path method gives the exact distance of every reachable vertex (and only of those) and predecessor trees or paths that are walks in the graph of exactly that length; the methods agree with each other. "
     "Negative edges, where supported, are handled exactly, and negative cycles are reported.",
     ["inputs"], "all weighted graphs (disconnected, zero weights, ties, real weights), all sources and targets",
     "Stopping rules and relaxation order matter on particular weightings; tests use a few graphs.",
     [("Dijkstra family", GR + "algorithms/paths.py", "dijkstra dijkstra_iterator dijkstra_buckets dijkstra_pairing_heap dijkstra_bidirectional"),
      ("Bellman-Ford, Floyd-Warshall", GR + "algorithms/paths.py", "bellman_ford floyd_warshall")],
     "property-based differential testing against brute-force relaxation; path validity",
     "Up to about 9 vertices exhaustively varied, seeded networks of up to a few hundred; exact (integer or dyadic) weights.")

prop("C38", "Minimum spanning tree algorithms return minimum spanning forests",
     "Kruskal, Prim and Cheriton-Tarjan return acyclic edge sets of the graph that span (each component of) it, of minimum total weight, with the reported weight equal to the sum of their edges, and agree with each other.",
     ["inputs"], "all weighted graphs, with ties, negative and real weights, one vertex, disconnected where supported",
     "Tie-breaking and heap merging matter on particular weightings.",
     [("spanning trees", GR + "algorithms/spanning_trees.py", "prim kruskal cheriton_tarjan")],
     "property-based testing against exhaustive or independent Kruskal oracle",
     "Up to about 10 vertices by brute force, seeded networks of hundreds against an independent Kruskal.")

prop("C39", "Spanning tree enumeration yields the k lightest trees in order",
     "The k-best enumeration yields distinct spanning trees in nondecreasing order of weight with their correct weights, the first k by weight, and all of them (as many as the Matrix-Tree theorem counts) when k allows.",
     ["inputs"], "all connected weighted graphs, all k",
     "Exchange bookkeeping over many trees; tests enumerate one graph.",
     [("Gabow's algorithm", GR + "algorithms/spanning_trees.py", "gabow")],
     "property-based testing against brute-force enumeration of spanning trees and Matrix-Tree counts",
     "All trees up to 6 or 7 vertices; the first k of larger graphs against an independent enumeration by partitioning (Lawler).")

prop("C40", "Steiner tree heuristics return valid trees within their ratio",
     "Each Steiner heuristic returns a tree of the graph containing all terminals whose leaves are terminals, with the weight it reports, at most 2(1 - 1/t) times the optimum for t terminals.",
     ["inputs"], "all connected graphs with positive weights, all sets of at least two terminals",
     "The ratio is a statement about the optimum of every instance.",
     [("heuristics", GR + "algorithms/steiner_trees.py", "distance_network_heuristic minimum_cost_paths_heuristic")],
     "property-based testing against Dreyfus-Wagner / brute-force optimum",
     "Up to about 9 vertices by brute force, to 40 by the Dreyfus-Wagner recursion.")

prop("C41", "Traversals visit exactly the reachable vertices; components partition",
     "Breadth-first and depth-first traversals visit each reachable vertex exactly once in a valid order (breadth-first by distance, depth-first along tree edges), depth limits are respected, and the search trees are spanning trees of the component with true distances for breadth-first. "
     "Connected components partition the vertices by reachability, and connectivity answers agree.",
     ["inputs"], "all graphs, all sources, all depth limits",
     "Validity of orders over all graphs; tests compare one order.",
     [("traversals", GR + "algorithms/traversal.py", "breadth_first_search breadth_first_search_tree depth_first_search depth_first_search_tree"),
      ("components", GR + "algorithms/connectivity.py", "connected_components connected_component is_connected")],
     "property-based testing of order axioms against reference distances and components",
     "Up to about 10 vertices, seeded graphs of thousands (deep paths included).")

prop("C42", "Maximal clique and independent set enumerations are complete",
     "Every maximal clique algorithm yields each maximal clique exactly once and nothing else, and the maximal independent set enumeration each maximal independent set once, for every graph.",
     ["inputs"], "all simple graphs with at least one vertex, any vertex labels",
     "Pivoting errors lose cliques on particular graphs only.",
     [("enumerations", GR + "algorithms/cliques.py", "bron_kerbosch bron_kerbosch_binary tomita maximal_cliques"),
      ("independent sets", GR + "algorithms/independent_sets.py", "maximal_independent_sets")],
     "exhaustive small graphs plus random graphs, against subset brute force",
     "All graphs up to 4 (quick) or 6 (thorough) vertices, random ones to 13, sparse and structured ones of hundreds by counting arguments.")

prop("C43", "Maximum cliques and independent sets are optimal, heuristics valid",
     "The exact maximum clique, maximum weight clique and maximum independent set algorithms return a set of the right kind whose reported size or weight is its own and optimal. "
     "The greedy and truncated heuristics return maximal independent sets of the reported size, greedy within its degree bound of the optimum.",
     ["inputs"], "all simple graphs, all positive vertex weights",
     "Pruning errors cut off the optimum on particular graphs.",
     [("cliques", GR + "algorithms/cliques.py", "pardalos pardalos_binary ostergard ostergard_binary maximum_clique maximum_weight_clique"),
      ("independent sets", GR + "algorithms/independent_sets.py", "branch_and_bound greedy culberson maximum_independent_set")],
     "exhaustive small graphs plus random graphs, against subset brute force",
     "As C42.")

prop("C44", "Colorings are proper, exact ones use the chromatic number",
     "Every coloring returned (as classes or as a map) is proper, covers every vertex once and uses exactly the reported number of colors; the exact algorithms use the chromatic number, heuristics at least it and the greedy ones at most maximum degree plus one. "
     "Greedy coloring follows its given order, and a second pass never uses more colors than the first.",
     ["inputs", "configurations"], "all simple graphs and all option settings (classes, passes, limits, greedy)",
     "Exactness over all graphs; branch-and-bound errors show only on graphs where the heuristic bound is not tight.",
     [("exact", GR + "algorithms/coloring.py", "branch_and_bound korman exact_coloring"),
      ("heuristics", GR + "algorithms/coloring.py", "dsatur greedy_sequential maxis")],
     "exhaustive small graphs, random and planted colorings, against a subset dynamic program",
     "Up to 8 vertices by brute force, to 16 with planted cliques, hundreds for the greedy ones and structured graphs.")

prop("C45", "Hamiltonian path enumerations and counts agree",
     "The enumerations list exactly the (directed) Hamiltonian paths of the graph, each once, and every counting method gives their number. The walk counts these methods are built on are the exact numbers of walks of each length.",
     ["inputs"], "all simple graphs with at least one vertex",
     "Pruning and memoization errors show on particular graphs.",
     [("paths", GR + "algorithms/hamiltonian_paths.py", "hamiltonian_paths hamiltonian_paths_con number_of_hamiltonian_paths number_of_hamiltonian_paths_bits number_of_hamiltonian_paths_bits_con number_of_hamiltonian_paths5 number_of_hamiltonian_paths5_con")],
     "exhaustive small graphs plus random graphs, against permutations and Held-Karp counting",
     "Up to 9 vertices. One counting method is wrong on small paths: a known finding, checked on its own law.")

prop("C46", "Degree sequence tests decide graphicality",
     "Both degree sequence tests accept exactly the sequences of degrees of simple graphs, in any order of the terms and with zeros; sequences with a negative entry are not graphic.",
     ["inputs"], "all finite sequences of integers",
     "Parity and inequality conditions fail on particular sequences.",
     [("Havel-Hakimi and Erdos-Gallai", GR + "algorithms/degree_sequences.py", "is_graphic is_graphic_erdos_gallai")],
     "exhaustive small sequences against enumeration of all graphs, random ones against sympy-free reference",
     "All sequences up to length 5 or 6 exhaustively, near-graphic ones of thousands of terms by an independent criterion.")

# ------------------------------------------------------------------ across the package

prop("C47", "Memoized functions return what the plain function returns, computed once",
     "A memoized function returns for every argument tuple exactly what the plain function returns, whatever calls came before, in any order and also when it calls itself recursively. "
     "The plain function is evaluated once per distinct argument tuple, an exception is passed on and not remembered as a value, and two memoized functions never share results.",
     ["histories"], "all functions of hashable arguments and all call histories",
     "A cache key that collides or a cached exception shows only after particular histories.",
     [("memoization decorator", "rosemary/utilities.py", "cached_function")],
     "stateful model-based testing: generated functions and call histories against an uncached model with evaluation counts",
     "Histories of up to about 40 calls; one memo of many thousands of values.")

prop("C48", "Calls do not depend on earlier calls and never change their arguments",
     "A public function returns for the same arguments the same result whatever other calls of the package came before, including calls with the same arguments whose returned lists or dictionaries the caller has changed since, and calls on a graph that has been changed since. "
     "No call of a number theoretic, algebraic, combinatorial or graph algorithm function changes the lists, factorizations, matrices or graphs passed to it.",
     ["histories"], "all histories of calls over the public functions of the package, with changes to results between calls",
     "Module tables, caches and mutable default arguments leak between calls only in particular orders; tests call each function alone.",
     [("module tables, caches and default arguments", NT + "primes/prime_counting.py", "legendre lehmer meissel lmo"),
      ("factorization options", NT + "factorization/factorization.py", "factor factor_back divisors"),
      ("power series and polynomial kernels", AL + "polynomials/algorithms.py", "mul_classical mul_karatsuba power_jcp"),
      ("graph algorithms over a graph given by reference", GR + "algorithms/cliques.py", "bron_kerbosch tomita ostergard pardalos")],
     "stateful testing: generated call histories with mutation of earlier results, against the same call in a fresh process state",
     "Histories of up to a dozen calls over some 150 functions, pairs of calls of one function in both orders, and long sequences of calls of one function.")

prop("C49", "Generators can be interleaved and abandoned without affecting each other",
     "Two or more generators of the package that are advanced alternately, in any interleaving, some of them abandoned midway, yield each exactly what it yields when run alone.",
     ["schedules", "histories"], "all generator functions of the package, all their arguments, all interleavings",
     "State shared between generators (module level buffers, shared graphs or arrays) shows only under interleaving; tests drain one at a time.",
     [("sieving generators", NT + "primes/sieves.py", "prime_range"),
      ("divisor and range generators", NT + "factorization/factorization.py", "xdivisors factored_range"),
      ("combinatorial generators", CB + "generation/permutations.py", "phillips knuth_algorithm_l"),
      ("graph enumerations", GR + "algorithms/cliques.py", "bron_kerbosch tomita maximal_cliques")],
     "stateful testing: generated schedules of next() over several generators, against each generator run alone",
     "Up to four generators and schedules of up to about 60 steps.")



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            files = []
            for (_, path, _) in p["mech"]:
                if path.endswith("/"):
                    continue
                if path not in files:
                    files.append(path)
            if not files:
                files = [p["mech"][0][1]]
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": files,
                             "mechanism": [{"name": n, "where": "{}: {}".format(w, ", ".join(fs.split()))} for (n, w, fs) in p["mech"]]}}
            f.write(json.dumps(d) + "\n")
    checks = [{"property": p["id"],
               "quick_cmd": "bash check.sh {} quick".format(p["id"]),
               "thorough_cmd": "bash check.sh {} thorough".format(p["id"]),
               "evidence_file": "evidence/{}.json".format(p["id"]),
               "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P]
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "All checks: property-based testing / fuzzing with Hypothesis from /opt/veriftools/pyvenv; rosemary is pure Python and is imported from /repo's working tree, so nothing needs building."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

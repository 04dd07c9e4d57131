p("C01", "Modular ring operations return the canonical residue of the exact result",
  "For every standard integer type and every modulus M that the type can represent (M >= 1), normalising any value yields its residue in [0, M), and adding, subtracting, negating, multiplying or raising to a power residues in [0, M) yields the residue in [0, M) of the mathematically exact result, with no overflow or undefined behaviour on the way. Modular numbers constructed from a value and a modulus always hold a residue in [0, M), whether the modulus is a compile-time constant, shared or stored per instance.",
  "all integer types, all moduli up to the type's maximum, all operand values", "The tests use a handful of small or 1e9+7-like moduli; overflow appears only near the type's limits and in type-specific overloads.",
  [SM + "modulo.h", I + "algorithm/math/intrinsic.h", M + "base.h"], [("type-dispatched modular add/sub/neg/mul kernels and fast paths", SM + "modulo.h"), ("power by repeated squaring", M + "base.h")])
p("C02", "Modular inverse and division solve the defining congruence",
  "For every modulus M >= 1 and residues x, y in [0, M): the modular inverse of an invertible v is the unique residue w with v*w = 1 mod M, and is zero when v is not invertible; modular division x/y, whenever x is divisible by gcd(y, M), returns a residue q in [0, M) with q*y = x mod M. This holds for signed and unsigned integer types of 32 and 64 bits without overflow.",
  "all moduli and all residues of all standard integer types", "Tests check a few primes and small composites; sign and overflow cases of the extended Euclid depend on the parity of the step count.",
  [SM + "modulo.h", M + "base.h"], [("extended gcd with step parity", M + "base.h"), ("inverse and division by extended gcd", SM + "modulo.h")])
p("C03", "gcd, extended gcd, lcm and coprime-part are exact for all integers",
  "For every standard integer type, gcd returns the greatest common divisor of its operands (non-negative for non-negative operands); extended gcd additionally returns cofactors x, y with a*x + b*y = g that are as small as the theory promises, and omitting any of the optional outputs does not change the others. lcm satisfies lcm*gcd = |a*b| whenever it is representable, and the largest divisor of b composed only of primes of a is exactly that.",
  "all pairs of operands of int32, uint32, int64, uint64 (excluding the most negative value)", "Tests sample small pairs; termination, sign handling, wrap-around of unsigned cofactors and intermediate overflow need all inputs.",
  [M + "base.h"], [("iterative Euclid and extended Euclid", M + "base.h")])
p("C04", "Integer square and cube roots are exact floors (or ceilings) for every value",
  "For every representable non-negative integer x the integer square root is the largest r with r*r <= x and the integer cube root the largest r with r^3 <= x; the ceiling variants return the smallest r with r*r >= x (r^3 >= x), and for negative x each returns the negated root of -x (whenever -x is representable and the root fits the declared return type); the perfect square and cube tests answer true exactly for squares and cubes. This holds for all 8- to 64-bit types including values where floating point rounding is off, and every call terminates.",
  "all values of every integer type", "Floating point rounding errors occur only near perfect powers of large magnitude; tests check a few.",
  [M + "base.h", "src/algorithm/math/base.cpp"], [("floating point guess with integer correction", "src/algorithm/math/base.cpp"), ("root front ends", M + "base.h")])
p("C05", "Floor, ceiling and rounding division agree with exact rational arithmetic",
  "For all integers a and all non-zero b, the floor division and ceiling division return the exact floor and ceiling of a/b, and the 'next multiple' helper returns the smallest multiple of a that is at least b for a > 0. Rounding division returns the nearest integer, halves away from zero. None of them overflows on the way. The absolute value, minimum, maximum and clamping helpers return what exact integer arithmetic dictates for every representable argument.",
  "all integers for which the result and the operands' negations are representable", "Sign combinations and extremes are not enumerated by tests.",
  [M + "base.h"], [("division and ordering helpers", M + "base.h")])
p("C06", "Power by repeated squaring equals the repeated product in any monoid",
  "For any associative operation with identity and any exponent n >= 0 of any integer type, exponentiation returns the n-fold product of the base (the identity for n = 0), and terminates; for machine integers no intermediate value overflows when the result itself is representable. This holds for integers, modular numbers, matrices, polynomials and permutations alike.",
  "all elements of all monoids, all exponents", "Tests use specific element types and small exponents.",
  [M + "base.h"], [("repeated squaring", M + "base.h")])
p("C07", "Bit utilities compute exactly the bit-level function they name",
  "For every 8-, 16-, 32- and 64-bit word: population count, leading and trailing zero counts, integer base-2 logarithm (0 for 0), highest and lowest set bit extraction, next power of two (the smallest power of two above x, modulo the word size), power-of-two test (0 counts as one), bit reversal, Gray code and its inverse, two's complement negation and sign-and-magnitude conversion, and the single-bit helpers (make, get, set, flip, clear, erase, mix) equal their bit-by-bit definition; next_combination steps to the next larger number with as many ones below 2^size, and wraps to the smallest one exactly when there is none.",
  "all words of all widths", "2^64 words; tests sample a few.",
  [M + "bits.h", "src/algorithm/math/bits.cpp"], [("word-parallel bit tricks", M + "bits.h")])
p("C08", "Bit vector behaves as an array of booleans under every operation",
  "A bit vector of any length behaves exactly as a sequence of booleans: construction, single-bit access, resize, push and pop, applying a bitwise operation to a range (in place, or with a second range of another or of the same vector, at any overlap), the bitwise operators and shifts, reversal, rotation and swapping of ranges, the Hamming distance of two ranges and the lexicographic comparison agree with the element-by-element definition; bits beyond the logical length stay zero and are never observable, and no access leaves the storage.",
  "all lengths, all ranges, all word sizes, all operation sequences", "Boundary masks at word edges depend on offset and length modulo the word size; tests use a few lengths.",
  [C + "bit_vector.h"], [("word-level masks and shifts", C + "bit_vector.h")], over=("inputs", "histories"))
p("C09", "Segment tree range queries equal the left-to-right fold after any updates",
  "For any associative operation with identity (commutative or not), any number of elements and any history of point assignments and rebuilds, a range query returns the operation applied to the current elements of the half-open range in index order, and the identity for an empty range; single-element reads return the element last written.",
  "all monoids, all sizes, all update histories, all ranges", "Tests use sums or minima over a few sizes; order of combination for non-commutative operations and non power-of-two sizes need all shapes.",
  [C + "segment_tree.h"], [("implicit complete binary tree with bottom-up queries", C + "segment_tree.h")], over=("inputs", "histories"))
p("C10", "Lazy segment tree equals naive range-update/range-query on an array",
  "For any compatible pair of value and update operations (associative fold, updates composed and distributed consistently), any size and any history of range updates, point writes and rebuilds, range queries and element reads return exactly what a plain array with every update applied immediately would return.",
  "all sizes, all histories of updates and queries, all compatible operations", "Interaction of pending updates along different paths depends on the order of operations; tests sample few histories.",
  [C + "lazy_segment_tree.h"], [("pending update propagation", C + "lazy_segment_tree.h")], over=("inputs", "histories"))
p("C11", "Binary heap operations preserve the heap order and the multiset of elements",
  "For any strict weak order and any history of construction from a sequence, insertions, removals of the front and rebuilds, the container holds exactly the multiset of inserted but not removed elements, every element is ordered after its parent, the front is an extreme element, and sorting leaves the same multiset in non-descending order.",
  "all sizes, all element values, all histories", "Tests check a few sequences.",
  [C + "binary_heap.h"], [("sift up / sift down", C + "binary_heap.h")], over=("inputs", "histories"))
p("C12", "Disjoint sets answer connectivity exactly as the history of unions implies",
  "After any sequence of unions, two elements are reported in the same set exactly when they are connected by the unions performed; the number of sets, the count of each set (its size plus any counts added to it), and the reported representative are consistent with that partition, and queries never change the partition.",
  "all sizes and all histories of unions and queries", "Path compression and union by size mutate shared state; tests check a few short histories.",
  [I + "structure/graph/disjoint_set.h"], [("parent forest with compression and union by size", I + "structure/graph/disjoint_set.h")], over=("inputs", "histories"))
p("C13", "Fenwick tree prefix queries equal the fold of all updates so far",
  "For any commutative associative accumulation with identity and any history of point updates, a prefix query returns the accumulation of all updates at positions up to and including the queried one, for every size and every index in range, touching no storage outside the tree.",
  "all sizes, indices and update histories", "Tests cover one or two sizes.",
  [SM + "fenwick_tree.h"], [("low-bit index walks", SM + "fenwick_tree.h")], over=("inputs", "histories"))
p("C14", "Binary searches return the exact partition point of any monotone predicate",
  "For any range whose predicate is monotone (or any monotone sequence of values), the predicate search and the lower/upper bound searches over integers (step 1) and iterators return exactly the first position where the predicate changes, evaluate the predicate only at positions inside the half-open range, and terminate, for every range whose length the type can represent, including empty ranges and ranges at either end of the type.",
  "all ranges, all monotone predicates", "Midpoint overflow and boundary cases are not enumerated by tests.",
  [I + "algorithm/search/binary_search.h"], [("interval halving", I + "algorithm/search/binary_search.h")])
p("C15", "KMP search reports every occurrence of the pattern and nothing else",
  "For any text and pattern over any alphabet with equality, the search for a non-empty pattern reports exactly the positions at which the pattern occurs, in increasing order, overlapping occurrences included, until the callback asks to stop; it returns the last reported position or the text length if there is none, reads nothing outside text and pattern, and the failure table holds for every prefix the length of its longest proper border.",
  "all texts and patterns", "Borders interact in ways that depend on the whole pattern; tests check a few strings.",
  [I + "algorithm/search/kmp_search.h"], [("border table", I + "algorithm/search/kmp_search.h")])
p("C16", "Quotient-indexed maps store and return exactly the value last written per key",
  "For every bound n and threshold, the maps indexed by the distinct values of n/k behave as ordinary maps on the admissible keys: reading a key returns the value most recently written to that key, distinct admissible keys never share a slot, and a key never written (or erased since, or dropped by resetting the bound) is reported absent by count, insert and, where access is checked, by an exception.",
  "all bounds, all admissible keys, all histories of writes", "Key-to-slot arithmetic depends on n, its root and the key; tests use a few bounds.",
  [C + "sqrt_map.h", C + "lohi_map.h"], [("low/high index split", C + "sqrt_map.h"), ("low/high index split", C + "lohi_map.h")], over=("inputs", "histories"))
p("C17", "The bounded pool allocator never hands out overlapping or foreign memory",
  "For any history of construct and destroy calls within capacity, every live object occupies its own slot of the pool, objects keep their value until destroyed, destroyed slots are reused, and the live count is exact.",
  "all capacities and all allocation histories", "Free-list state depends on the whole history; tests check one history.",
  [C + "bounded_contiguous_allocator.h"], [("slot stack", C + "bounded_contiguous_allocator.h")], over=("histories",),
  na="the pool hands out addresses: a malloc-ed array of T* whose entries are pointers into another malloc-ed block is the data structure itself, and the extraction represents arrays as sequences and pointers as offsets into a named array, not addresses as stored values; the experimental container has no test and no second caller, and a bounded run alone would not be this technique")
p("C18", "Sieves produce the exact table of the arithmetic function they name",
  "For every bound n, the prime, smallest/largest prime factor, Euler phi, Moebius, divisor-count, divisor-sum and segmented prime sieves fill every entry below n with exactly the value of the function at that index and write nothing outside the table.",
  "all bounds n", "Tests check small tables; off-by-one at squares of primes and table ends depends on n.",
  [M + "primes.h", "src/algorithm/math/primes.cpp"], [("sieve loops", "src/algorithm/math/primes.cpp")])
p("C19", "Factorisation, divisor listing and digit expansion reproduce the number",
  "For every n >= 1 in range, factorisation returns distinct primes with positive exponents whose product is n, the divisor listing returns each divisor (up to the bound asked for) exactly once, digit expansion in any base reproduces the number, the generator over a list of primes visits every product of them up to the bound exactly once, and primality tests agree with the definition.",
  "all integers in range", "Tests sample numbers; strong pseudoprimes and large semiprimes need all inputs.",
  [M + "factorization.h", M + "primes.h", "src/algorithm/math/primes.cpp"], [("trial division and factor tables", M + "primes.h"), ("Miller-Rabin, Pollard rho", M + "factorization.h")])
p("C20", "Chinese remaindering returns the unique residue satisfying both congruences",
  "For every pair of compatible congruences the combined residue lies in [0, lcm) and satisfies both, incompatible congruences are reported as unsolvable, and mixed-radix reconstruction from pairwise coprime moduli returns the unique value below the product, without overflow while the product is representable.",
  "all moduli and residues whose combined modulus is representable", "Tests use a few small systems.",
  [M + "modulos.h", "src/algorithm/math/modulos.cpp"], [("CRT and Garner", M + "modulos.h")])
p("C21", "Range tables fill every entry with the sequence value it names",
  "For every length and step, the table builders for ranges, powers, factorials, inverse factorials, modular inverses and running sums write exactly the i-th value of the sequence into entry i for every i in the requested range and touch nothing else (inverses require the inverted factorial to be invertible, and a supplied factorial hint k! has k inside the table).",
  "all lengths and parameters", "Tests check fixed small tables.",
  [M + "ranges.h"], [("recurrence loops", M + "ranges.h")])
p("C22", "Convolutions and their inverse transforms agree with the defining sums",
  "For every transform size (2^log_n, log_n from 0 to 30; any length for the max and cyclic ones) and all coefficient vectors over a commutative ring, the and, or, xor (where the size is invertible) and max convolutions equal the sum over the index pairs that defines them, the subset convolution the sum over the complementary parts of each index, and the subset sums the sum over the subsets of each index; the slow and/or/xor/max/cyclic ones add that sum to the result array. The inverse subset sum and the negative arithmetic transform undo the forward transforms exactly, and the Walsh-Hadamard transform applied twice multiplies by the size. All of it also where the documentation allows the result to be one of the operands, and the operands to be the same array.",
  "all sizes and all coefficient vectors", "Tests check few sizes.",
  [M + "convolutions.h"], [("butterfly loops", M + "convolutions.h")])
p("C23", "Collection helpers preserve exactly the elements they promise",
  "For any input sequence of any length, given as a range or as a collection: sorted() returns a non-descending rearrangement of exactly the elements (with multiplicity), reversed() the elements in reverse order, take(n) the first min(n, size), filter() exactly the elements satisfying the predicate in order, transform() the image of each element in order; run_length() returns maximal runs whose expansion is the sequence and whose representative is the first element of the run; compare() returns the sign of the lexicographic comparison of the first max_len elements; contains() tells whether an equal element occurs; reserve_more() changes no element and provides the room asked for.",
  "all sequences, element types, predicates and functions", "Tests check a few sequences.",
  [I + "algorithm/collections/collections.h"], [("element loops", I + "algorithm/collections/collections.h")])
p("C24", "Combinatorial successors enumerate every object exactly once in order",
  "Starting from the first object, repeatedly taking the successor visits every object of the shape exactly once in the documented order, reports the end exactly after the last one and leaves the first one in place: next_combination for the choices of k out of n distinct elements (both parts stay in order), next_partition for the partitions of n into at most d parts, for signed and unsigned integer types. nth_permutation gives the n-th permutation in lexicographic order, the index taken modulo the number of permutations, as long as the first factorial above the index fits the type. factorial, the Stirling numbers of both kinds (table, column, row, single term), the coefficients of the Euler function and the (distinct, distinct odd) partition numbers equal their definitions over the given ring.",
  "all shapes (n, k, d), element values, indices and coefficient rings", "Tests enumerate tiny shapes of one type.",
  [M + "combinatorics.h", M + "counting.h"], [("successor steps", M + "combinatorics.h"), ("recurrences", M + "counting.h")])
p("C25", "Fractions stay in lowest terms and equal the exact rational result",
  "Whatever sequence of arithmetic operations is applied, a fraction equals the exact rational result, has a positive denominator coprime to its numerator, and comparisons agree with the rational order, as long as the intermediate products, sums and their negations are representable.",
  "all operands and operation sequences without overflow", "Tests use a few fractions; sign and zero normalisation need all inputs.",
  [SM + "fraction.h"], [("normalisation by gcd after each operation", SM + "fraction.h")], over=("inputs", "histories"))
p("C26", "Polynomial, matrix, complex and quadratic arithmetic obey ring semantics",
  "For any coefficient ring and operands, addition, subtraction, multiplication, division with remainder (by a divisor with invertible leading coefficient), shifts, evaluation and derivative of polynomials, and the products, powers and determinants of matrices and quadratic numbers equal their coefficient-wise definitions, independent of operand sizes and of an operand aliasing the result.",
  "all sizes and coefficient values", "Tests use a few fixed operands; size-dependent algorithm switches and aliasing need all shapes.",
  [SM + "polynom.h", SM + "matrix.h", SM + "complex.h", SM + "quadratic.h"], [("coefficient loops", SM + "polynom.h")],
  na="the contracts would be over polynom, matrix and quadratic with an arbitrary ring as the element type, and their operations dispatch through the polynom_mul, euclidean_remainder and cast trait templates (Karatsuba and FFT product picked by size), with vectors of vectors and shared parameters in every element; the extraction covers none of these classes yet, and a bounded comparison alone would be testing, so the property is not claimed")
p("C27", "Permutation algebra agrees with composition of bijections",
  "For any permutation (disjoint non-empty cycles over [0, n), or a line that is a bijection), conversions between line, cycle and transposition notation denote the same bijection; the product, applied to a list, acts as the right factor and then the left one (`(p1 * p2).apply_to(l)` equals `p1.apply_to(p2.apply_to(l))`), over the larger of the two sizes; the inverse and quotient undo it; and the power is the exact iterate for every 64-bit exponent, negative ones and the extreme ones included. Every result is again a set of disjoint cycles in range. `root` returns a T-th root of the requested parity exactly when one exists (T >= 1).",
  "all sizes and all permutations", "Tests check small permutations.",
  [SM + "permutation.h"], [("cycle decomposition", SM + "permutation.h")])
p("C28", "Bounded random numbers always lie in the requested closed interval",
  "For any generator and any non-empty closed interval of any integer type up to its full range, the bounded integer drawn lies inside the interval, is computed without overflow or division by zero, and the uniform variant takes the first generator output below the largest multiple of the interval width (giving up after 20 draws); generator state transitions are the documented shift/xor recurrences.",
  "all intervals, all generator outputs", "Tests draw few samples; full-range and tiny intervals need all inputs.",
  [I + "algorithm/random/random.h", I + "algorithm/random/xorshift.h"], [("range reduction", I + "algorithm/random/random.h")])
p("C29", "Polynomial hashes of equal sequences are equal however they were built",
  "For any modulus within the type, base and sequence, the rolling hash equals the polynomial value of the sequence modulo the modulus, and appending, prepending, removing, slicing and concatenating yield the hash of the resulting sequence.",
  "all sequences, moduli and operation histories", "Tests hash a few strings with one modulus.",
  [I + "algorithm/hash/polynomial_hash.h"], [("prefix hash arithmetic", I + "algorithm/hash/polynomial_hash.h")], over=("inputs", "histories"))
p("C30", "Buffered readers and writers transfer every byte and integer exactly",
  "For any byte stream and any buffer size of at least 1, the buffered readers return exactly the bytes of the stream in order, as unsigned character codes, followed by end-of-input (-1), in whatever mix of read_char, read (which delivers the requested length, up to what the buffer holds or the end of the stream), reserve, data, skip, unread_char (after a successful read_char), lines, words and integers; writing an integer with at most 50 digits and reading it back returns the same value for every representable value, the minimum included, and leaves exactly what follows it; the writers deliver exactly the bytes they were given, embedded NULs included; nothing is lost or duplicated at buffer boundaries, however small the pieces in which the underlying reader delivers. The number text must fit the type it is read into, and the underlying reader or FILE returns no bytes only at the end of its input.",
  "all byte streams, all buffer sizes, all integers", "Buffer-boundary effects depend on positions modulo the buffer size.",
  [I + "io/reader.h", I + "io/writer.h", I + "io/fast_io.h"], [("refill and flush loops", I + "io/reader.h")], over=("inputs", "histories"))
p("C31", "Graph mutations keep adjacency exactly as the edit history prescribes",
  "After any history of node and edge additions and deletions, contractions and deduplications, the adjacency lists contain exactly the edges the history prescribes: delete_edge drops every parallel edge to the target and nothing else; delete_node drops the node and all edges into it and gives its name to the last node, in the rows and in the targets; contract drops the edges between the two nodes, moves the second one's edges to the first, deletes it, and leaves each row free of duplicates; deduplicate_edges keeps each distinct target once, in ascending order. Weights travel with their edges.",
  "all edit histories", "Tests check a few graphs.",
  [I + "structure/graph/graph.h"], [("adjacency edits", I + "structure/graph/graph.h")], over=("histories",))
p("C32", "Search trees, treaps and ropes behave as the ordered sequences they represent",
  "After any history of insertions, deletions, splits and merges, the tree containers hold exactly the expected sequence, with correct order statistics, ordering and subtree sizes.",
  "all histories and all priorities", "Rotations depend on random priorities and shape.",
  [C + "binary_search_tree.h", C + "treap.h", C + "lazy_treap.h", C + "rope.h", C + "link_cut_tree.h"], [("pointer rotations", C + "binary_search_tree.h")], over=("histories",),
  na="the trees are cyclic pointer graphs (parent and child links) over an untyped pool; expressing their shape needs separation logic or permissions over raw memory, which neither the extraction to Verus (no aliased mutable pointers) nor CBMC's C++ front end (no templates with this library) supports, so no contract within reach decides it")
p("C33", "Nimber and binary field arithmetic satisfy the field axioms on all values",
  "For all 64-bit values, nimber addition, multiplication, inverse and square root, and binary polynomial field multiplication, satisfy the field axioms and agree with their recursive definition.",
  "all 64-bit operands", "Tests sample small nimbers.",
  [SM + "nimber.h", SM + "galois_field_2.h"], [("recursive Karatsuba-like product", SM + "nimber.h")],
  na="the defining property of the nim product is a minimum-excludant recursion; relating the level-by-level product to it (or proving associativity and inverses in GF(2^64)) needs a finite-field-tower development that no available deductive back end discharges")
p("C34", "Parallel execution runs every task exactly once and waits for all of them",
  "For every number of tasks and threads, parallel execution invokes each task exactly once, does not return before every task has finished, and never loses or duplicates a task under any interleaving.",
  "all schedules, all task counts", "Tests run one schedule.",
  [I + "concurrency/concurrency.h"], [("shared counter and joins", I + "concurrency/concurrency.h")], over=("schedules",),
  na="std::thread, atomics and closures with shared mutable state are outside the sequential fragment that the extraction brings to the verifier; a contract over interleavings would need a concurrent separation logic for C++ that is not installed")
p("C35", "Fast Fourier transforms invert each other and realise cyclic convolution",
  "For every power-of-two size the inverse transform undoes the forward transform and the transform-based product equals the cyclic convolution, exactly for modular roots of unity and within rounding for complex numbers.",
  "all sizes and coefficient vectors", "Tests check a few sizes.",
  [M + "fft.h"], [("bit reversal and butterflies", M + "fft.h")],
  na="exactness over a root of unity needs the theory of primitive roots (orthogonality of the characters) over an abstract ring and, for complex numbers, a bound on floating-point rounding; the back end (Verus and Z3) has neither, and the error bound of the complex transform is not a contract it can state")
p("C36", "Sublinear summatory functions equal the naive sums",
  "For every n, the divisor-sum, totient-sum, Mertens, prime-counting and generic Dirichlet-based summatory functions equal the sum of the function values up to n.",
  "all n", "Tests compare with tables for small n.",
  [M + "divisor_sums.h", M + "mertens.h", M + "prime_counting.h"], [("hyperbola method", M + "divisor_sums.h")],
  na="each function is correct by an identity of number theory (Dirichlet hyperbola, Meissel-Lehmer, inversion of summatory functions over n/k) that is not in the back end's libraries; stating the contract is easy, but discharging it needs those theorems developed first, which was not reached")
p("C37", "Quadratic and higher residue solvers return exactly the roots",
  "For every modulus and residue, the Jacobi symbol, discrete square roots, k-th roots, discrete logarithms and primitive roots satisfy their defining congruence, and every reported 'no solution' is correct.",
  "all moduli and residues", "Tests use a few primes.",
  [M + "modulos.h"], [("Cipolla, Hensel lifting, baby-step giant-step", M + "modulos.h")],
  na="the solvers (Cipolla, Hensel lifting, baby-step giant-step, primitive roots) rest on the structure of the unit group of Z/n; the completeness half (every root found, 'no solution' justified) needs the existence of generators, which no installed deductive back end provides for C++ code, and randomised loops have no termination measure")
p("C38", "Graph algorithms return optimal answers on every graph",
  "For every graph, shortest paths, flows, matchings, components, topological order, lowest common ancestors, spanning trees and satisfiability return valid and optimal answers.",
  "all graphs", "Tests use small fixed graphs; several of these algorithms have no test at all.",
  [X + "algorithm/graph/dijkstra.h", X + "algorithm/graph/floyd_warshall.h", X + "algorithm/graph/tarjan_scc.h", X + "algorithm/graph/dinic_flow.h"], [("graph traversals", X + "algorithm/graph/")],
  na="optimality of flows, matchings and shortest paths is a duality theorem per algorithm over graphs as vectors of vectors of edges, with recursive lambdas and priority queues that the extraction does not translate; no contract within reach decides it")
p("C39", "Expression parsing respects precedence and associativity on every input",
  "For every token sequence, the expression parser evaluates according to operator precedence, associativity and parentheses, and rejects malformed input without undefined behaviour.",
  "all inputs", "Tests parse a few expressions.",
  [I + "algorithm/parser/shunting_yard.h"], [("operator stack", I + "algorithm/parser/shunting_yard.h")],
  na="the parser works over std::map and std::function tables of user callbacks and string iterators, which the extraction does not bring to the verifier; precedence and associativity depend on the callbacks")
p("C40", "Double-width integers compute exactly modulo the full width",
  "Double-width integer addition, subtraction, multiplication, division, shifts and comparisons equal exact integer arithmetic modulo the doubled width for every operand.",
  "all operands", "Tests are absent (experimental).",
  [X + "structure/math/double_int.h"], [("carry and partial products", X + "structure/math/double_int.h")],
  na="the class (experimental) cannot satisfy it: unsigned_div is a stub that returns 0 with the algorithm commented out as a TODO, and the carry and multiplication primitives are intrinsics supplied by the user as a template argument, none of which is in the repository")
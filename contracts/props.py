"""property id -> verification units and witness-search harness"""
PROPS = {
    "C03": dict(units=[("gcd", None)], harness=["gcd.cpp"], budget=10, bounded=["gcd_ex cofactor identity for negative operands"],
                note="Every obligation of gcd, gcd_ex (each optional-output variant), lcm and gcd_max for int, unsigned, int64_t, uint64_t is discharged by Verus/Z3 on the text extracted from the current header; trusts the AST extraction, Verus and Z3. Negative operands of the extended gcd cofactors are covered only by the bounded witness search."),
    "C01": dict(units=[("modring", None)], harness=["modring.cpp"], budget=15,
                note="Every obligation of normalize/add/sub/neg/mul (all eight fixed-width integer types plus long long, every pair of types for normalize), the double-and-add product, the modulo class operators and constructors for instance, static and constant storage, identity/zero and powT/modulo_power is discharged on the text extracted from the current header; the class obligations are instantiated for representative moduli of the compile-time and static kinds (all moduli for the instance kind). Trusts the AST extraction, Verus and Z3."),
    "C02": dict(units=[("modinv", None)], harness=["modinv.cpp"], budget=12,
                note="Every obligation of modulo_inv, modulo_div, modulo_gcd_ex and the class inv, / and /= (plus the gcd and multiplication contracts they call) is discharged for int, unsigned, int64_t, uint64_t on the text extracted from the current header. Trusts the AST extraction, Verus and Z3."),
    "C04": dict(units=[("roots", None)], harness=["roots.cpp"], budget=12,
                note="Every obligation of isqrt, isqrtc, icbrt, icbrtc, their 64-bit kernels and of sqrtT, cbrtT, sqT, cbT, is_square, is_cube for the eight fixed-width types, long long and unsigned long long (Newton iterations included, termination too) is discharged on the text extracted from the current header and source. The floating point guess is treated as an arbitrary value of known sign (nothing about rounding is assumed). Trusts the AST extraction, Verus and Z3."),
    "C05": dict(units=[("divs", None)], harness=["divs.cpp"], budget=12,
                note="Every obligation of div_floor, div_ceil, div_round, multiple, absT, minT, maxT, boundT for all eight fixed-width integer types is discharged on the text extracted from the current header. Trusts the AST extraction, Verus and Z3."),
    "C06": dict(units=[("powt", None)], harness=["powt.cpp"], budget=8,
                note="powT is proved for an arbitrary monoid (an uninterpreted element type with an associative product and identity) and every exponent type, and for 32/64-bit machine integers including that no intermediate overflows when the result is representable. That matrices, polynomials and permutations are monoids is the hypothesis of the statement; those instances are covered only by the bounded witness search."),
    "C09": dict(units=[("segtree", None)], harness=["segtree.cpp"], budget=8,
                note="Every operation of segment_tree (both constructors, set, reads, range query, the three rebuilds, size) is proved for an arbitrary monoid (uninterpreted element type, associative operation, identity; commutativity not assumed) and every size below 2^58, over the tree invariant, so any history is covered by induction on the calls. Partial rebuilds require that only the stated positions changed since the tree was last consistent. Trusts the AST extraction, Verus and Z3; the functor member is replaced by the abstract operation."),
    "C11": dict(units=[("heap", None)], harness=["heap.cpp"], budget=8,
                note="insert, front, pop_front, rebuild, sort, the range constructor and both sift loops of binary_heap are proved for an arbitrary strict weak order (uninterpreted comparison) and every length: heap order and multiset preservation, minimality of the front, sortedness. Trusts the AST extraction, Verus and Z3, std::swap/std::reverse/vector modelled by Rust vectors."),
    "C12": dict(units=[("dsu", None)], harness=["dsu.cpp"], budget=8,
                note="find (with path compression), unite, ensure, clear, count, add_count, distinct and size of disjoint_set are proved against a ghost partition for every size and history (by induction on the calls), termination of the root walk included. Trusts the AST extraction, Verus and Z3."),
    "C13": dict(units=[("fenwick", None)], harness=["fenwick.cpp"], budget=8,
                note="constructor, reset, add, get_sum and lo_bit of fenwick_tree are proved for an arbitrary commutative monoid against a ghost array of accumulated updates, for every size and index. Trusts the AST extraction, Verus and Z3; the functor member is replaced by the abstract operation."),
    "C14": dict(units=[("bsearch", None)], harness=["bsearch.cpp"], budget=8, bounded=["iterator, pointer and floating point instantiations of the searches"],
                note="binary_search_pred, binary_search_num, lower_bound_num and upper_bound_num are proved for eight fixed-width integer types, an arbitrary monotone predicate or monotone function and every range with representable length, including that the predicate is evaluated inside the range only. Iterator, pointer and double instantiations of the same templates are only exercised by the bounded witness search. Trusts the AST extraction, Verus and Z3."),
    "C15": dict(units=[("kmp", None)], harness=["kmp.cpp"], budget=8,
                note="kmp_search is proved for every text and pattern of 32-bit symbols and an arbitrary callback (its answers are an uninterpreted function of the position): exact occurrence set, order, early stop, returned position and the border table. Trusts the AST extraction, Verus and Z3; other element and iterator types run the same template and are only exercised by the bounded witness search."),
    "C16": dict(units=[("qmaps", None)], harness=["qmaps.cpp"], budget=8,
                note="Every public operation of sqrt_map (except the raw lo/hi slot accessors) and of lohi_map is proved for int and int64_t keys, an opaque value type and every bound: two admissible keys never share a slot, each operation changes the presence and value of its own key only, checked access on sqrt_map throws exactly for absent keys. Trusts the AST extraction, Verus and Z3; std::vector and std::unordered_map are modelled by Rust vectors and a mathematical map."),
    "C28": dict(units=[("rnd", None)], harness=["rnd.cpp"], budget=10, bounded=["next_uniform of the two generators (the lambda passed through std::function) and seeding xorshift_1024star from an array"],
                note="integer_to_range for every pair of unsigned generator type and 8- to 64-bit interval type, neg, biggest_multiple and uniform_next (rejection, at most 20 draws, against an arbitrary output stream) for all unsigned types, and the state recurrences, seeding and bounded draws of xorshift_64star and xorshift_1024star are discharged on the text extracted from the current headers. Trusts the AST extraction, Verus and Z3."),
    "C20": dict(units=[("crt", None)], harness=["crt.cpp"], budget=8,
                note="The three chinese_remainder overloads (int, unsigned, int64_t, uint64_t; any two residues, lcm representable) and garner (modulo<T,0,INSTANCE> for the same four types; any number of pairwise coprime moduli in any order) are discharged on the text extracted from the current headers, down to gcd_ex and the modular kernels. Trusts the AST extraction, Verus and Z3."),
    "C25": dict(units=[("frac", None)], harness=["frac.cpp"], budget=6,
                note="Every member of fraction<int> and fraction<int64_t> (construction, reduction, all arithmetic and compound operators with and without aliasing, comparisons, reciprocal, identity and zero) is discharged on the text extracted from the current header, on top of the contract of gcd. Other integer types run the same template. Trusts the AST extraction, Verus and Z3."),
    "C21": dict(units=[("ranges", None)], harness=["ranges.cpp"], budget=6,
                note="Every function of ranges.h (range, powers, factorials, inv_factorials, inverses, inverses_from_ifact, power, invert, invert_field, negate, alternate, accumulate, differentiate and the vector-returning overloads, plus powT) is proved over an arbitrary commutative ring (uninterpreted operations, ring axioms, division exact for units) for every range, with a frame: nothing outside the range changes. A supplied k! hint must lie in the table. Trusts the AST extraction, Verus and Z3; vector iterators are (vector, offset) pairs."),
    "C07": dict(units=[("bits", None)], harness=["bits.cpp"], budget=8, bounded=["signed instantiations of the template helpers (the signed ilog2 overloads are proved)"],
                note="Every function of bits.h and bits.cpp is discharged for all 8-, 16-, 32- and 64-bit unsigned words, next_combination (minimal successor, no gaps) and the initialisation of the lookup tables included; the contents of the constant tables are read from their declarations on every run. The tables are assumed not to be modified after the initialiser ran (they are file-local and no other function writes them). Trusts the AST extraction, Verus and Z3."),
    "C10": dict(units=[("lazyseg", None)], harness=["lazyseg.cpp"], budget=8,
                note="Every operation of lazy_segment_tree (both constructors, element access, range get, range update with refusals and recursion into sub-segments, restore, both rebuilds, and the private propagation helpers) is proved for an arbitrary monoid with an arbitrary distributive action (uninterpreted nodes and functors), every size below 2^58, over the invariant that each inner node holds the combination of its children under its pending action; any history is covered by induction on the calls. The partial rebuild requires that the written positions were restored first. Trusts the AST extraction, Verus and Z3."),
    "C23": dict(units=[("colls", None)], harness=["colls.cpp"], budget=6,
                note="All of collections.h (sorted, reversed, take, filter, transform, run_length, compare, contains, reserve_more; range and collection overloads) is proved for every sequence over an arbitrary element type with an uninterpreted strict weak order, equivalence, predicate and transformation (run_length: at most 2^31-1 elements, its counters are int). std::sort, std::find, vector::capacity and vector::reserve are assumed to do what the standard says; vector iterators are (vector, offset) pairs. Trusts the AST extraction, Verus and Z3."),
    "C29": dict(units=[("phash", None)], harness=["phash.cpp"], budget=8, bounded=["other template arguments than the three instantiations under contract (the K-base hash is proved for K = 2 over 32-bit residues and arbitrary moduli, bases and inverses; the one-base hash for two moduli up to 2^31-1)"],
                note="Every member of polynomial_hash (scalar and hash operands), of polynomial_hash1 and of cumulative_hash (assign, push_back, pop_back, get, size) is proved against the polynomial value of the element sequence, for any sequence below 2^58 elements and any history of the cumulative table (by induction on the calls), over the invariant that the shared power tables hold powers of the base; lemmas give appending, prepending, slicing, concatenating and equality of equal sequences. A hash built from an explicit residue list must be canonical. Trusts the AST extraction, Verus and Z3."),
    "C27": dict(units=[("perm", None)], harness=["perm.cpp"], budget=8, bounded=["permutation::root: every permutation of at most 6 elements, exponents 1 to 12, each parity request, against exhaustive search (harness)", "comparison operators (std::vector comparison): harness"],
                note="For permutation<int>: every conversion (line, cycles, all cycles, transpositions, both directions), apply_to, operator*, *=, /, /=, inv, pow for every 64-bit exponent, the constructors and identityT are proved against the bijection that the disjoint cycles denote, for every list of up to 2^31-1 elements; every result is again a set of disjoint cycles over [0, n). Assumed: the cycles handed in are disjoint, non-empty and in range (the class invariant), lines are bijections; std::vector copy, std::reverse and std::swap do what the standard says. root is only checked with a bound. Trusts the AST extraction, Verus and Z3."),
    "C31": dict(units=[("graph", None)], harness=["graph.cpp"], budget=6, bounded=["graph constructors, operator[], comparison of whole graphs, and the order of full_edge / weighted_full_edge: harness"],
                note="size, num_edges, add_node, add_edge, add_edge2, delete_edge, delete_node, deduplicate_edges and contract are proved for graph<edge> and for graph<weighted_edge<W>> with an opaque weight: each row after the call is, as a multiset (add_*: as a sequence), the row the edit prescribes, for any graph with fewer than 2^31-1 nodes and edges per row, so any history follows by induction on the calls. std::sort, std::unique, vector::erase and range insert are assumed to do what the standard says. An edge handed to add_edge / add_edge2 must not be stored in the graph itself (its reference would dangle). Trusts the AST extraction, Verus and Z3."),
    "C18": dict(units=[("sieves", None)], harness=["sieves.cpp"], budget=8, bounded=["primes(p, nullptr, n), which keeps its flags in the tail of p (overlapping int and char views of one array): every n up to 220 and sampled n up to 1120, against trial division (harness)"],
                note="primes (with a flag array), prime_pi, euler_phi, moebius_mu, prime_nu, segmented_q, segmented_phi, segmented_mu, divisor_sigma0, divisor_sigma1, smallest_factor and factor are proved for every int bound (segments up to 2^62, smallest_factor up to 2^62) against the definitions of the functions they name: primality and divisor counts by divisibility, the totient as the number of coprime residues, the Moebius function by square divisors and the number of prime factors, with a frame (no entry outside the table changes). The prime lists handed in are assumed to be the ascending primes below the bound (segmented phi/mu: an initial segment of the primes containing every prime whose square is below e), the arrays distinct. Trusts the AST extraction, Verus and Z3."),
    "C19": dict(units=[("facts", None)], harness=["facts.cpp"], budget=10,
                bounded=["miller_rabin agrees with primality: every number below 3000, the neighbours of the thresholds and of known strong pseudoprimes, sampled primes, semiprimes and k(2k-1) numbers up to 2^63, for int, uint32, int64, uint64 (harness); the general factoring contract assumes it",
                         "factor_integer_to_map, carmichael_lambda, integer_string, from_primes, fraction_reduce: exhaustive small and sampled large inputs (harness)"],
                assumptions=["mr_call: miller_rabin<long>(a) == (a is prime), assumed by the contract of factor_integer<long> (bounded check only)",
                             "mx, mx_op: the values of moduloX<long> arithmetic inside pollard_rho are left arbitrary (above the minimum of long); the divisor it returns does not depend on them"],
                note="factorisation with a prime-factor table (one number; a product of numbers), trial division (int, int64), the general factoring loop (Miller-Rabin assumed exact) with pollard_rho and gcd, factor_out, from_factorization, prime_factors, prime_exponents, divisor_sigma0, euler_phi of a factor list, both divisors functions (each divisor up to maxd exactly once, ascending in the sorted one, none of the intermediate powers overflowing), squarefree_signed_divisors, integer_digits and from_digits are proved for every input whose result fits the type. Trusts the AST extraction, Verus and Z3."),
    "C08": dict(units=[("bvec", None)], harness=["bitvec.cpp"], budget=8,
                bounded=["word types other than uint64_t (8, 16, 32 bits), operations given as arbitrary functors, scan with a user's visitor, to_string, the iterator constructors, operator[] proxies: every operation against a vector of booleans, over vectors of every length up to several words (harness)"],
                assumptions=["CloneC for Bit_vector: the implicit copy constructor copies the members", "bit_reverse_u64, bit_cnt1_u64: bit_reverse(uint64_t) and bit_cnt1(uint64_t) by the contracts that C07 discharges for them"],
                note="bit_vector<uint64_t>: set, bit_at, word_at, resize, reserve, push_back, pop_back, the constructor of a size, apply over one range and over two (distinct vectors, and a vector with itself at any overlap), the twelve operations, & | ^ ~ and their assigning forms, << >> <<= >>= by any count, reverse, swap, rotate_left, rotate_right, hamming_distance, compare and the six comparison operators are proved against the sequence of the bits, for every size up to 2^60 bits, every position and every content, together with the class invariant (the words behind the last bit are zero). Trusts the AST extraction, Verus and Z3."),
    "C22": dict(units=[("convs", None)], harness=["convs.cpp"], budget=8,
                assumptions=["distinct array parameters are disjoint (separate &mut slices); the aliased calls (r == f for the subset sums; r == f, r == g, f == g and all three for and/or/xor, max and fast_subset_convolution) are proved as functions of their own", "re_int: the int operand of the final division of xor_convolution stands for its image in the ring, which is invertible (hypothesis of the property)", "CloneVV, vec_new_vvn: copying and constructing a vector of vectors", "bit_cnt1(uint32_t): the number of bits set, as property C07 discharges it"],
                note="slow_and/or/xor/max/cyclic_convolution, slow_subset_sum, fast_subset_sum and its inverse (with the result apart and in place), slow_subset_convolution, max_convolution and fast_subset_convolution (apart and with every aliasing), the arithmetic transforms (negative after positive is the identity) the Walsh-Hadamard transform (the sum with the signs of the parity of v & w; applied twice, the size times the identity) and and_convolution, or_convolution and xor_convolution (apart and with every aliasing) are proved for every size up to 2^30 and every coefficient vector over an arbitrary commutative ring; lemmas give the closed form of the max convolution and that the round-by-round sums, whatever the order of the bits, are the sums over all subsets, that the subset (superset) sums of an or- (and-) convolution are the products of those of the operands, that a sequence is determined by them, and that the ranked products of the subset sums pick the disjoint pairs. Trusts the AST extraction, Verus and Z3."),
    "C24": dict(units=[("combos", None), ("ncomb", None)], harness=["combos.cpp"], budget=8,
                bounded=["next_combination over other iterators and elements: every k-subset of up to 9 and sampled ones of up to 12 distinct elements, the whole cycle, single steps of up to 60 (harness)", "nth_permutation over other iterators and elements (harness)", "next_partition over other iterators and integer types (harness)",
                         "Stirling columns, rows and single terms, and the partition numbers computed by inverting series (partitions_p, partitions_p_distinct, partitions_p_distinct_odd): all small orders, sampled ones up to 300, against the recurrences and the products that define them (harness)", "that the pentagonal numbers give the Euler function (Euler's theorem), and the partition numbers with it: assumed in the proof, orders up to 300 against the products (harness)"],
                assumptions=["re_int: an int operand of a ring operation stands for its image in the ring", "vec_sort: std::sort leaves a rearrangement of the range in which no element is less than an earlier one; any_i64: an uninitialised iterator is any offset", "CloneVV, vec_new_vv: copying and constructing a vector of vectors"],
                note="next_partition over the iterators of a vector of int, int64_t and uint64_t is proved for every partition into at most d parts whose sum and d fit the type: the result is the largest partition below the given one, or, when there is none, false with the first (largest) partition in place. next_combination is proved over pointers to an arbitrary element type with an uninterpreted strict weak order, for any number of distinct elements with the chosen and the other ones in ascending order each: the result is a rearrangement in which the chosen elements are the lexicographically smallest ascending choice above the given one and the others are ascending again, or, when there is none above, false with the smallest choice in place; so repeated calls visit every choice once, in order. nth_permutation is proved for int, int64_t and uint64_t indices, any index and any number of elements up to 2^31 as the arrangement whose digits in the factorial base are those of the index (modulo the factorial of the size); lemmas give that this is an arrangement of the same elements, that a larger index gives a lexicographically larger one and that every arrangement has an index. factorial and the tables of the Stirling numbers of both kinds are proved entry by entry over an arbitrary commutative ring; euler_function has the signs at exactly the pentagonal numbers, partitions_p_slow satisfies the pentagonal recurrence, and partitions_p_distinct_slow is its product with the Euler function of x^2. Trusts the AST extraction, Verus and Z3."),
    "C30": dict(units=[("bufio", None)], harness=["io.cpp"], budget=8,
                bounded=["read_char, read and bool of file_reader and stream_reader, file_writer and stream_writer (thin calls into the C and C++ libraries), data(), counter(), advance(), the stream operators, short and 16-bit integers, end-of-input flags: random histories over every small buffer size against the byte sequence (harness)", "floating-point numbers are left out"],
                assumptions=["src_read, snk_write, snk_flush: the reader, writer or FILE underneath delivers the next of its bytes (none only at the end of the input, when asked for any) and takes the bytes it is given in order; string_reader::read and string_writer::write are proved to do so", "any_a50: the static digit buffer of write_integral_number holds anything on entry and is not touched by the writer underneath or by another thread during the call", "c_strlen, vec_copy_within, vec_copy_range: strlen and std::copy (towards the front of the same array) as the standard has them"],
                note="refill, reserve, read_char, unread_char, read and skip of buffered_reader, the same of fast_read, skip_whitespaces, read_sign, read_digits, read_integral_number (int, long, long long, unsigned, unsigned long long), read_string and read_line, flush, reserve, available, write_char and write of buffered_writer and fast_write, write_string and write_integral_number (the same five types), string_reader and string_writer are proved against the byte sequence that is pending or has been handed over, for every buffer size from 1 to 2^44 and every content; a lemma gives that reading back a written integer returns it and leaves exactly the bytes behind it. Members ptr, end and buff are (buffer, offset) pairs. A number has fewer than 2^31 digits. Trusts the AST extraction, Verus and Z3."),
}

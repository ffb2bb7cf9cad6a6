"""Per-property configuration of the checks (see run.py)."""
COMMON_ASSUMPTIONS = [
    "every case is a pure function of VERIF_SEED, the facet and the case index; absence of violations is evidence, not proof",
    "compiled with g++ -std=c++11 -O1 and AddressSanitizer with libstdc++ assertions; memory errors count as violations",
]
CHECKS = {}
NOT_APPLICABLE = {}
def chk(id, src, rule, oracle, **kw):
    CHECKS[id] = dict(src=src, rule=rule, oracle=oracle, **kw)
chk("C01", "c01_vector.cpp",
    "a case is a history of 1..2000 generated operations on three Vectors (int, string, record and padded plain elements; observed after every step, now and then or only at the end), or a pair of Vectors to compare; non-trivial: at least 3 mutating steps and a size of 2 reached (pairs: at least 2 elements in total)",
    "std::vector model updated in parallel; full observation (size, get, [], first, last, iterators, conversions) compared after every step")
chk("C02", "c02_list.cpp",
    "a case is a history of generated operations on three Lists (int, string, record and padded plain elements; sort, reverse, merge of sorted lists included), or one bulk sort/merge/compare of lists of up to several hundred elements; non-trivial: at least 3 mutating steps and a size of 2 reached (bulk: 3 elements)",
    "std::vector model with stable_sort / reverse / merge; contents compared forwards and backwards after every step")
chk("C03", "c03_queue_stack.cpp",
    "a case is a history of generated operations on three Queues or three Stacks (int, record and padded plain elements), drained at the end, or a pair to compare; non-trivial: at least 4 mutating steps and a size of 2 reached (pairs: 2 elements)",
    "std::deque model; first/last/top, size, comparisons and STL conversions compared after every step, every dequeue/pop result compared")
chk("C04", "c04_sets.cpp",
    "a case is a history of generated operations on three Sets or MultiSets, or a pair to compare; non-trivial: at least 3 mutating steps and a size of 2 reached (pairs: 2 elements)",
    "sorted-vector model of the (multi)set; membership, counts, size, iteration and conversions compared after every step")
chk("C05", "c05_maps.cpp",
    "a case is a history of generated operations on three Maps or MultiMaps, or a pair to compare; non-trivial: at least 3 mutating steps and 2 entries reached (MultiMap: an erase or assignment and 3 entries)",
    "sorted association-list model; lookups, counts, size, iteration and conversions compared after every step")
chk("C06", "c06_reject.cpp",
    "a case builds a container by a generated history of adds, removes and clears, makes the valid boundary accesses, then one invalid access with an index, key or value outside the contents; every case is non-trivial (each ends in one rejected access)",
    "the call must end in exit(EXIT_FAILURE) after writing to stderr; the boundary accesses before it must return")
chk("C07", "c07_vector_text.cpp",
    "a case prints and reads back a generated Vector (int, 64-bit, unsigned, char, double, float, nested twice) with generated spacing, number formats and trailing data, or reads a generated or mutated text; non-trivial: at least one element, or at least two characters of text",
    "an independent printer and an independent recogniser of the text form; texts the recogniser rejects must end in an error exit")
chk("T01", "t01_trie.cpp",
    "a case is a history of generated insertions, removals and queries on a Trie over a-z (words near existing ones: extensions, prefixes, one letter changed), optionally emptied at the end, or an iterator exercise; non-trivial: 3 or more insertions (iterators: 2 or more stored words)",
    "std::set of strings; membership of the word, its prefixes, extensions and neighbours after every step, size, and complete iteration order")
chk("T02", "t02_tries.cpp",
    "a case interleaves generated operations on 2-4 Tries over eight alphabets (2 to 255 symbols, reversed order included) with creation, copying and destruction, or fills one wide trie, or queries words with outside characters; non-trivial: 3 or more insertions (outside queries: all)",
    "one std::set per trie ordered by the mapping's codes; every trie re-checked completely at intervals and at the end")
chk("A01", "a01_kmp.cpp",
    "a case is a text (random, periodic, Fibonacci/Thue-Morse, runs, arbitrary bytes), a pattern related to it and up to 3 start positions (in range, at the end, past the end, near 2^31/2^32/2^64); or all occurrences by restarting; or one binary pattern against all binary texts of a length up to 10; non-trivial: pattern of at least 2 characters not longer than the text (all occurrences: at least 2)",
    "character-by-character search from the start position")
chk("A02", "a02_edit.cpp",
    "a case is a pair of strings, the second usually an edit of the first (up to 2600 characters, or 4 against 70000), or a triple; non-trivial: both strings at least 2 characters and different",
    "two-row dynamic programme over suffixes; symmetry, triangle inequality, zero iff equal, invariance under common prefix and suffix, at most k for k edits")
chk("A03", "a03_zipmap.cpp",
    "a case zips 1..5 generated containers (vector, list, deque; int, string, record), or maps and filters one (std and library containers, const ones) with position-dependent and stateful functions; non-trivial: at least 2 elements (zip: at least 2 inputs with 2 rows)",
    "the rows, images and kept elements computed from plain vectors; call counts, call order and unchanged inputs")
chk("S01", "s01_cast.cpp",
    "a case casts the printed text of a generated value (integers of every width incl. limits, doubles from random bit patterns, bool, char, words) with generated blanks and trailing data, or text without a value, or arbitrary text, through every call form including a delayed conversion; non-trivial: text of at least 2 characters, a non-zero float, any word, any unparsable text, or arbitrary text with a leading integer",
    "the value that was printed; value-initialised T when nothing is parsable; bitwise agreement of all call forms")
chk("E01", "e01_base64.cpp",
    "a case is a byte string (with zero bytes, every length mod 3, up to 5000 bytes) encoded and decoded, a text made by another encoder decoded (padded or not), an explicit output length, or arbitrary text decoded; non-trivial: at least 2 bytes (length facet: 1)",
    "an independent RFC 4648 encoder; decode(encode(x)) == x")
chk("E02", "e02_url.cpp",
    "a case is a byte string encoded and decoded, a text made by another encoder (any escapes, either hex case, '+') decoded, or arbitrary text with malformed escapes; non-trivial: at least 2 bytes with something to escape or decode",
    "an independent percent-encoder; decode(encode(x)) == x; well-formed prefixes decode independently of what follows")
chk("J01", "j01_dump.cpp",
    "a case is a generated JSON value (trees of up to 200 nodes, nesting up to 150, strings and keys with quotes, backslashes, control characters and arbitrary bytes, floats up to 1e300) built through the API by a generated route, dumped, parsed and loaded back; non-trivial: at least 3 nodes (escape facet: 2 characters)",
    "an independent strict JSON parser and a value-tree model; dump(load(dump(v))) == dump(v)")
chk("J02", "j02_load.cpp",
    "a case is a generated value spelled as valid JSON text with generated whitespace (members in any order, keys that occur twice, up to 1000 levels of nesting), escapes and number spellings, and loaded; non-trivial: text of at least 4 characters",
    "the generated value tree (floats: strtod of the spelling, relative tolerance 1e-12), cross-checked with an independent strict parser")
chk("J03", "j03_malformed.cpp",
    "a case is a text: a truncated, mutated or structurally damaged valid document, a token soup, arbitrary bytes, or unbalanced nesting (up to a million levels); non-trivial: at least 2 characters and not valid JSON",
    "a recogniser of everything the library may accept (rejected by it: loadJSON must end in exit(EXIT_FAILURE) with a diagnostic) and a strict parser (accepted by it: loadJSON must accept); no memory error, no hang",
    assumptions=["of texts nested deeper than 1000 levels only the end without a memory error is decided"])
chk("J04", "j04_value.cpp",
    "a case is a history of generated operations at generated paths of three JSON objects (assign, copy and move from any node incl. itself, its parts and ancestors, append, subscript, build, iterate); non-trivial: at least 4 mutating steps and 3 nodes reached",
    "a value-tree model; every accessor of every node of all objects compared after each step")
chk("M01", "m01_bignum.cpp",
    "a case is a pair of integers (capacities of 1, 3, 8, 20 and 70 digits; every sign, related values, carry and borrow chains, results at full capacity), an integer and an int64, or a history of operations on three registers; non-trivial: a fitting operation on an operand of 2 or more digits (history: 3 steps)",
    "schoolbook arithmetic on sign and decimal digit strings; results outside the capacity are not evaluated")
chk("M02", "m02_fraction.cpp",
    "a case is a pair of fractions (or a fraction and an integer in either order) from several magnitude classes up to the int range, unreduced and negative-denominator spellings included, a history of operations on three registers with aliasing, or a division by zero; non-trivial: at least 2 operations whose int products fit and a denominator above 1 (history: 3 steps)",
    "exact 128-bit rationals in lowest terms; an operation is evaluated only when the cross products fit in int")
chk("M03", "m03_matrix.cpp",
    "a case is three matrices of generated shapes (0..10 rows and columns) over int, double, Fraction, a prime field or a non-commutative ring, combined by every operator; a power 0..70 of a matrix of up to 12x12 (entries of a finite ring and signed permutations: any unsigned exponent); a history of operations (clearing, refilling and copying into included) on three matrix variables of changing shapes; or an operation on mismatched shapes; non-trivial: at least 2 entries (powers: exponent and size at least 2; history: 3 steps)",
    "entrywise definitions on plain arrays; mismatched shapes must end in an error exit or a failing assert",
    assumptions=["a failing assert() counts as terminating with an error (asserts are on in the library's default build)"])
chk("M04", "m04_reduce.cpp",
    "a case reduces one generated matrix (zero, repeated and combined rows, zero columns, no rows or columns at all; up to 9x9 over prime fields of 2..10007 elements, up to 4x5 doubles with exactly representable elimination, scaled by 2^-700..2^700, up to 3x4 Fractions); non-trivial: at least 4 entries",
    "row-echelon shape with leading ones; equal reduced row-echelon forms of input and output computed independently; rank; idempotence")
chk("M05", "m05_combi.cpp",
    "a case is a pair of non-negative integers (common factors, Fibonacci neighbours, multiples, limits; eight type combinations), an (n, r) with n up to 4e9 in six integer types, or arguments outside the domain; non-trivial: both above 1 (counting: n >= 2, r >= 1 and a representable result)",
    "binary gcd and 128-bit falling products and binomials; results beyond the type are not evaluated; domain errors must end in exit(EXIT_FAILURE)",
    assumptions=["binomials needing more than 60000 additions are not evaluated"])
chk("M06", "m06_stats.cpp",
    "a case is a data set of 1..100 numbers (int, 64-bit, short, unsigned, float, double; small, 2^-400..2^400, constant, large common offset, up to the type's limits) as an array with or without further elements, or as one of seven container types; non-trivial: at least 2 elements",
    "long double evaluation of the definitions; sums of integers and dyadic reals exact, other results within a first-order rounding bound; variance never negative",
    assumptions=["integer data whose sum of magnitudes exceeds the type are not evaluated"])
chk("M07", "m07_pow.cpp",
    "a case is a base and exponent with representable power (int64 incl. the limits and exponents up to 2^31-1; six generic number/exponent type pairs; words, non-commuting matrices, fractions, Matrix), an exponent up to 2^63-1 in the monoid of exponents, or a negative exponent; non-trivial: exponent at least 2 and |base| above 1",
    "repeated multiplication; in the exponent monoid the largest power computed on the way must not exceed the requested one")
chk("G01", "g01_segtree.cpp",
    "a case is a segment tree of 0..400 generated values (int, 64-bit, double) and a history of copying it, filling it anew, range additions, range multiplications (negative and zero factors) and sum/minimum/maximum queries, then queries of all ranges (small sizes) or all elements and the whole; non-trivial: at least 2 updates and 2 elements",
    "a plain array updated element by element")
chk("G02", "g02_bst.cpp",
    "a case is a history of insertions (six rank patterns, repeated ranks, reinsertion of erased nodes), erasures, lookups and neighbour queries on one or two trees sharing a pool of nodes; non-trivial: at least 3 insertions and 1 erasure",
    "a list of the stored nodes; find, pre and suf compared with it, complete walks by suf with pre as the inverse (nodes of equal rank may be on either side)")
chk("G03", "g03_tree.cpp",
    "a case is a tree of 1..2500 nodes in one of eight shapes (random, chain, star, binary, deep, two legs, leg on leg), queried while it grows and afterwards (all pairs and all ancestors up to 20 nodes, 120 pairs above); non-trivial: at least 4 nodes",
    "parent-link walking")
chk("G04", "g04_graph.cpp",
    "a case is a history of creating vertices, adding edges (self-loops, parallel edges), changing values and validity, destroying, copying and assigning vertices, then destroying all in generated order; or a history of free-standing edges; non-trivial: at least 4 steps and 2 edges at once",
    "a model of vertices and edges; all lists of all vertices compared, in order, after every step, ids never repeat, no memory error",
    assumptions=["a copied or assigned vertex is expected to have edges of its own to and from the same neighbours"])
chk("P01", "p01_point.cpp",
    "a case is a pair of points in 1 to 33 dimensions (exact dyadic or general coordinates, from 1e-60 to 1e60) and a factor, combined by every operator with aliasing; four points that are neighbours of each other (ties, differences around 1e-6, one unit in the last place) compared in all pairs; or a history of operations on three points; non-trivial: 2 or more dimensions and a non-zero product (order: a tie in the first coordinate; history: 3 steps)",
    "coordinatewise evaluation on plain arrays; exact for sums, differences and products, a few units in the last place for quotients and dot products; lexicographic comparison; equality within 1e-6 (differences of 0.99e-6..1.01e-6 not decided)")
chk("P02", "p02_line.cpp",
    "a case is a line or segment (unit to 1e6 lattices, scaled by 2^-40..2^40; empty segments included) and a point, two non-parallel lines (lattice meeting points, common base points, axis-parallel), or a circle and an angle; non-trivial: a non-empty segment and a point other than its start (circle: own centre and radius)",
    "long double evaluation of the definitions within 1e-12 of the coordinates involved; area and circumference within the 8 digits of the library's pi",
    assumptions=["the distance to a line through two equal points and the intersection of parallel lines are not decided"])
chk("R03", "r03_discrete.cpp",
    "a case is a distribution with generated parameters (boundary probabilities, up to 5000 trials or successes, means up to 6000), a seed and 600..40000 draws; or chosen outputs of the underlying generator (all zeros, all ones, patterns) behind a certain outcome; non-trivial: the law is not constant",
    "exact mass functions in long double; every cell, both tails and joint frequencies of draws 1, 2 and 3 apart compared by the Chernoff bound (below 5e-16 chance of a false alarm per comparison); parameters read back; support",
    assumptions=["parameters whose sampling takes millions of steps per draw (linear-time samplers) are not explored"])
chk("R04", "r04_continuous.cpp",
    "a case is a distribution with generated parameters (scales 2^-100..2^100, whole, half and near-whole shapes 0.05..800, 0.2..1000 degrees of freedom, means up to 1e5 standard deviations), a seed and 600..400000 draws; or chosen outputs of the underlying generator (all zeros, all ones, patterns) behind a few draws; every case is non-trivial",
    "cumulative distribution functions in long double (incomplete gamma and beta); every cell between 29 quantiles from 1e-5 to 1-1e-5, both tails and joint frequencies of draws 1, 2 and 3 apart compared by the Chernoff bound (below 5e-16 chance of a false alarm per comparison); finite values; support",
    assumptions=["shapes below 0.05 and degrees of freedom below 0.2, where samples underflow or overflow the double range, are not explored"])
chk("R01", "r01_range.cpp",
    "a case is a seed (or the free functions with a generated clock), generated bounds (one value to the whole int range, spans around 2^31; doubles equal, a few units in the last place apart, denormal, wider than the largest double) and 45..60000 draws, draws from chosen outputs of the underlying generator, ranges whose both ends must come up, or a mixed history of draws and reseeding; non-trivial: more than one value in the range (history: 3 steps)",
    "half-open range membership of every draw; every value of ranges up to 48 must occur; parts of the range, bits and neighbours equally frequent by the Chernoff bound (below 5e-16 chance of a false alarm per comparison)")
chk("R02", "r02_seed.cpp",
    "a case is a seed, a generated sequence of draws, and an interleaving with other generators, free functions, reseeding and other distributions; or up to four distributions sharing a generator, constructed with it or moved to it; or two different seeds; non-trivial: at least 2 draws",
    "the same draws on a fresh generator with the same seed, nothing in between; different seeds must differ within ten draws")
chk("R05", "r05_params.cpp",
    "a case is one construction (either constructor form) of one of the twelve distributions, or one draw, with generated valid or invalid parameters (boundaries, neighbours of boundaries, zeros of either sign, denormals, NaN, infinities); every case is non-trivial",
    "the documented parameter ranges; rejection means exit(EXIT_FAILURE) with a diagnostic, acceptance means two draws return numbers",
    assumptions=["infinite values of parameters that may be arbitrarily large are not decided"])
chk("X01", "x01_release.cpp",
    "a case is a generated history over the containers, tries, JSON values, graphs, trees, numbers, points, texts or generators in which every object is destroyed at the end, or one object brought back to the same contents again and again; non-trivial: at least 2 operations",
    "the bytes in use after a repeated run of the same history equal those before it; for the repeated contents, the bytes in use stop growing after the first rounds")
chk("X02", "x02_threads.cpp",
    "a case is 2..4 threads started together, each with its own generated sequence of uses of the library (sixteen areas) or of const calls on objects all of them share, or library calls made from within a callback of the library; non-trivial: every threaded case, callbacks over at least 2 elements",
    "the same sequence run alone gives the same transcript; ThreadSanitizer sees no data race",
    tsan=True, link=["-Wl,--wrap=lgamma", "-Wl,--wrap=lgammaf", "-Wl,--wrap=lgammal"], quick={"fuzz_s": 0}, thorough={"fuzz_s": 0, "scale": 15},
    assumptions=["built with ThreadSanitizer instead of AddressSanitizer; the C library's signgam, which std::lgamma sets and nothing reads, is not counted",
                 "graph vertices and edges (which share id counters) and the free random functions (which share one generator) are not used from several threads"])
chk("X03", "x03_cost.cpp",
    "a case is one data structure or algorithm brought to a generated large size (30000 to 800000 elements, characters or nodes; exponents up to 2^62) in a generated order or shape, and the operations applied to it; non-trivial: all (powers: exponents of at least 10 bits)",
    "counts of element operations, multiplications and mapping calls against generous multiples (several times the present ones) of the promised growth; where nothing can be counted, the CPU limit of a case, which the right growth needs about 1% of and the wrong one exceeds",
    quick={"fuzz_s": 0}, thorough={"fuzz_s": 0, "scale": 6})
chk("X05", "x05_faults.cpp",
    "a case is a history of operations on containers, matrices, JSON values, graphs or tries, or a function call or construction, in which at generated operations a generated event (an allocation, a copy, assignment, comparison or arithmetic operation of an element, a callback) throws; non-trivial: at least one call ended in the exception",
    "nothing is left allocated and no element alive once the objects are destroyed; objects not being changed, and containers whose addition or removal of one element failed, compare equal to what they were; what a failed change leaves is read, assigned to, used further and destroyed without a memory error; a repeated function call gives the right result",
    assumptions=["what a failed change of a trie or a matrix leaves is only assigned to or destroyed, not read", "a call that swallows the exception (the stream classes of the standard library do) is not judged"],
    technique="fault injection: generated histories with a generated failing allocation, element operation or callback, against models and the balance of memory")
chk("C08", "c08_refs.cpp",
    "a case is a history of additions, removals, assignments, copies and reads on one container or JSON value, in which generated references and iterators are taken, kept, written through and compared after every operation; non-trivial: references were kept over more than 3 operations",
    "a model that knows for every kept reference its element: value, place, and the neighbours an iterator comes to; AddressSanitizer for dangling ones",
    assumptions=["sorting, reversing, merging, assigning and clearing, and additions to a Vector, are not among the operations"])
chk("X06", "x06_locale.cpp",
    "a case is a JSON value or text, a value printed and cast back, a sequence of uses of the library (fifteen areas) or a printed or read object, together with a generated environment: a global C++ locale (decimal comma or point, separators between thousands, names of true and false), a C locale (de_DE.UTF-8), errno, and the flags, precision, fill and locale of the stream; non-trivial: the text contains digits, at least one use, at least one element",
    "the same use in the classic locale gives the same; casts give the value that was printed; elements printed one by one to a stream in the same state; the locales, the rounding mode and the format of the streams are afterwards as before",
    c_locale=True,
    assumptions=["the C locale is made by localedef in the build directory; where that is impossible, only C++ locales are used",
                 "Matrix::toString under a C locale, and a width set on a stream before an object of several parts is printed, are not judged"],
    technique="metamorphic: generated uses of the library in a generated locale, errno and stream state, against the same uses in the classic environment")
chk("X04", "x04_headers.py",
    "a case is one public header used in a program of its own, or a program of 1..3 translation units that each include a generated selection of the 57 public headers in a generated order (repeats, module headers, standard headers in between, using-directives), use what they declare and are built by a generated compiler (g++, clang++), standard (C++11, 14, 17) and optimisation level; non-trivial: at least two headers or two units",
    "the program compiles, links with the library and each use prints exactly what it prints in a program of its own",
    assumptions=["warnings and the macros the headers define (error, EPS, PI) are not judged; C++20 is not used"],
    technique="generated programs (selections and orders of headers, divisions into units, compilers and standards) against the behaviour of each use in a program of its own")
# sizes that only large inputs have: around powers of two (256, 1024, 4096, 32768, 65536) and up to 140000
for _id, _what in {"C01": "Vectors", "C02": "Lists", "C03": "Queues and Stacks", "C04": "sets", "C05": "maps",
                   "C07": "printed Vectors", "E01": "texts", "E02": "texts", "G01": "segment trees",
                   "G02": "search trees", "G03": "trees", "T01": "tries (up to 35000 words, words of up to 1500 letters with long common beginnings)",
                   "M06": "data sets", "J01": "JSON values", "J02": "JSON texts", "A03": "sequences"}.items():
    CHECKS[_id]["rule"] += "; further cases use large %s (around 256, 1024, 4096, 32768 and 65536, and up to 140000 elements)" % _what
for _id, _what in {"M01": "numbers of up to hundreds of digits", "M03": "matrices with up to thousands of rows or columns",
                   "G04": "a hub with up to 70000 neighbours", "R02": "sequences of up to 1200000 draws",
                   "R03": "parameters up to 200000 (600 samples against the normal law within the Berry-Esseen bound)",
                   "R04": "shapes up to 60000 (600 samples against the normal law within the Berry-Esseen bound)",
                   "M04": "matrices with up to dozens of rows and columns", "S01": "texts of up to 140000 characters"}.items():
    CHECKS[_id]["rule"] += "; further cases use " + _what
# how many times the base number of cases of a harness: cheap cases, more of them
for _id, _n in {"A01": 10, "A02": 6, "A03": 3, "S01": 8, "E01": 4, "E02": 12, "C06": 6, "C07": 2, "C08": 4, "G01": 3, "G02": 4, "G04": 4,
                "J03": 2, "J04": 6, "M01": 2, "M02": 4, "M03": 3, "M04": 8, "M05": 4, "M06": 5, "M07": 5, "P01": 2, "P02": 3,
                "R01": 4, "R02": 4, "R05": 8, "X05": 2, "X06": 4, "T02": 3, "X01": 2, "X02": 2}.items():
    CHECKS[_id].setdefault("quick", {}).setdefault("scale", _n)
    CHECKS[_id].setdefault("thorough", {}).setdefault("scale", 15 * _n)

#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
I = "src/include/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Vector behaves as the sequence its history of operations denotes",
  "After any sequence of constructions, pushes, pops, inserts, erases, sets, assignments through references and iterators, clears, copies and conversions, a Vector holds exactly the elements, in exactly the order, that the same operations produce on an ideal sequence: size, emptiness, first, last, indexed access, iteration (const and non-const) and the conversion to std::vector all agree with it. Equality and ordering of two Vectors are lexicographic comparison of their contents. Copies are independent of their source, and building one from an STL container leaves that container unchanged.",
  ["histories", "inputs"], "every finite history of valid operations over any element type and values",
  "tests run a few fixed short scripts on one small vector each",
  [I+"containers/Vector.h"], [("insert/erase/set/push/pop", I+"containers/Vector.h"), ("operator==,<,...", I+"containers/Vector.h")],
  ["return values of every public operation"])
prop("C02", "List behaves as the sequence its history of operations denotes",
  "After any sequence of valid List operations (push and pop at both ends, insert, erase, sort, reverse, merge of two sorted lists, assignment, copy, clear, conversions) the list holds exactly the elements, in the order, that the same operations give on an ideal sequence. Sorting is a stable permutation into non-decreasing order, reversing is exact, and merging sorted lists yields one sorted list with all elements of both (among equal elements the receiver's first) and leaves the other list empty. Equality and ordering are lexicographic, copies are independent, and building one from an STL list leaves that list unchanged.",
  ["histories", "inputs"], "every finite history of valid operations over any values",
  "tests run fixed scripts with a handful of elements",
  [I+"containers/List.h"], [("sort/reverse/merge/insert/erase", I+"containers/List.h")])
prop("C03", "Queue is first-in-first-out and Stack is last-in-first-out",
  "Over every history of enqueues and dequeues a Queue returns elements in exactly the order they were enqueued; over every history of pushes and pops a Stack returns the most recently pushed element not yet popped. Size, emptiness, the first/last and top accessors, comparison operators (lexicographic, a Queue from its front, a Stack from its bottom), assignment, copy, clear and the STL conversions always agree with that model, copies are independent, and building one from an STL container leaves that container unchanged.",
  ["histories", "inputs"], "every finite history of valid operations over any values",
  "tests check a fixed sequence of three or four elements",
  [I+"containers/Queue.h", I+"containers/Stack.h"], [("enqueue/dequeue", I+"containers/Queue.h"), ("push/pop/top", I+"containers/Stack.h")])
prop("C04", "Set and MultiSet behave as mathematical (multi)sets",
  "Over every history of inserts, erases, clears, copies and assignments, a Set contains exactly the distinct values inserted and not erased, and a MultiSet contains every inserted value with its multiplicity (erasing a value removes all its occurrences): membership, count, size, sorted iteration, comparisons and STL conversions agree with that model. Among equivalent values a Set keeps the one inserted first and a MultiSet keeps their insertion order. Erasing a value absent from a Set changes nothing, a value may be given as a reference into the container itself, copies are independent, and building one from an STL container leaves that container unchanged.",
  ["histories", "inputs"], "every finite history of valid operations over any values",
  "tests use fixed sets of a few integers",
  [I+"containers/Set.h", I+"containers/MultiSet.h"], [("insert/erase/contains/count", I+"containers/Set.h"), ("insert/erase/count", I+"containers/MultiSet.h")])
prop("C05", "Map and MultiMap behave as mathematical (multi)maps",
  "Over every history of sets, subscript accesses, gets, erases, clears, copies and assignments, a Map associates with each key exactly the value last stored (subscripting a missing key creates a default value, erasing a missing key changes nothing), and a MultiMap keeps every key-value pair it was built from until its key is erased: lookups, counts, the set of values found for a key, size, key-ordered iteration, comparisons and STL conversions all agree with that model. Keys and values may be given as references into the container itself, copies are independent, and building one from an STL container leaves that container unchanged.",
  ["histories", "inputs"], "every finite history of valid operations over any keys and values",
  "tests use fixed maps of a few entries",
  [I+"containers/Map.h", I+"containers/MultiMap.h"], [("get/set/operator[]/erase", I+"containers/Map.h"), ("find/count/erase", I+"containers/MultiMap.h")])
prop("C06", "Invalid container access always terminates with an error",
  "In whatever state a container is, an access outside its contents (an index below zero or at/after the size, insertion outside [0,size], first/last/top/pop/dequeue on an empty container, get of a missing Map key, erase of a value missing from a MultiSet) never returns: the program ends with a failure exit status and a diagnostic on standard error. Valid accesses, including the boundary ones (last index, insertion at size, one-element containers), never do.",
  ["histories", "inputs"], "every reachable container state and every index, key or value outside its contents",
  "death tests cover one state and one index per container, and not Queue.first/last at all",
  [I+"containers/Vector.h", I+"containers/List.h", I+"containers/Queue.h", I+"containers/Stack.h", I+"containers/Map.h", I+"containers/MultiSet.h", I+"utils/error.h"],
  [("boundaryCheck/emptyCheck/keyCheck", I+"containers/"), ("error()", I+"utils/error.h")])
prop("C07", "Vector text output reads back, and malformed text is rejected",
  "For every Vector of numbers or characters (including empty and nested Vectors), the printed text is the elements, each in the number format set on the stream (base, precision, notation), in braces separated by comma and space, and reading that text back, alone or followed by other data and with any extra whitespace, yields an equal Vector (floating-point numbers: when printed with enough digits), replaces the target's old contents, and consumes exactly that text. Text that is not a braces-enclosed comma-separated list of elements (missing brace, missing or trailing element, wrong separator, end of input) never hangs and never is accepted: the program ends with an error.",
  ["inputs"], "every vector value, and every text",
  "tests read and print a few fixed strings; a trailing comma is never tried",
  [I+"containers/Vector.h"], [("operator<<", I+"containers/Vector.h"), ("operator>>", I+"containers/Vector.h")])

prop("T01", "A Trie is exactly the set of strings inserted and not removed",
  "Over every history of insertions (including repeats, the empty word and words that are prefixes of each other) and removals (including absent words), a Trie contains exactly the strings inserted and not since removed: membership and size agree with that set, and iteration visits every stored string exactly once in lexicographic order. Operations on one word never affect another word.",
  ["histories", "inputs"], "every history of insert/remove/contain/iterate over any words of the alphabet",
  "tests use a few dozen fixed words and never iterate over words with different first letters after removals",
  [I+"string_utils/Trie.h", "src/string_utils/Trie.cpp"], [("double-array insert_/remove_/relocate/visit", "src/string_utils/Trie.cpp")])
prop("T02", "Tries are independent of each other and honour custom alphabets",
  "Any number of Tries, with the default or different custom character mappings, can be used in any interleaving and each one behaves exactly as if it were the only one. A custom mapping may use any alphabet of up to 255 symbols in any order of codes. Strings with characters outside the alphabet are never reported as contained: the question is answered with no or ends with an error.",
  ["histories", "configurations"], "every interleaving of operations on several tries and every mapping",
  "tests use one trie at a time with one default mapping",
  [I+"string_utils/Trie.h", "src/string_utils/Trie.cpp"], [("StringAdapter mapping", I+"string_utils/Trie.h")])
prop("A01", "KMP search returns the first occurrence at or after the start position",
  "For every text, pattern and start position, the search returns the smallest index not before the start at which the pattern occurs in the text, and -1 when there is none. This includes empty patterns, patterns longer than the text, self-overlapping patterns, arbitrary bytes and start positions past the end, and never reads outside the strings.",
  ["inputs"], "every (text, pattern, start)", "tests try a few fixed strings with non-overlapping patterns",
  ["src/algorithm/kmp.cpp", I+"algorithm/algorithm_functions.h"], [("kmpSearch", "src/algorithm/kmp.cpp")])
prop("A02", "Edit distance is the exact Levenshtein distance",
  "For every pair of strings the edit distance is the minimum number of single-character insertions, deletions and substitutions turning one into the other. Hence it is a metric: zero exactly for equal strings, symmetric, and satisfying the triangle inequality.",
  ["inputs"], "every pair of strings", "tests try a few fixed word pairs",
  ["src/algorithm/edit_distance.cpp", I+"algorithm/algorithm_functions.h"], [("editDistance", "src/algorithm/edit_distance.cpp")])
prop("A03", "zip, map and filter produce exactly the defined sequence",
  "For all input containers, zipping any number of containers of one type returns the rows of corresponding elements in order and stops with the shortest input, mapping returns the function applied once to every element in order, and filtering returns exactly the elements satisfying the predicate in order. Nothing is dropped, repeated or invented, whether an input is empty, a single element or of another container type, and the inputs are not modified.",
  ["inputs"], "all pairs of containers, functions and predicates", "tests use a couple of fixed vectors",
  [I+"algorithm/Zip.h", I+"algorithm/Map.h", I+"algorithm/Filter.h"], [("zip/mapAll/filterContainer", I+"algorithm/")])
prop("S01", "String-to-value casting is the inverse of printing the value",
  "For every value of a streamable type (the integer types, finite floating-point numbers printed with enough digits, bool, char, and words), casting the text of the value yields the value, independently of when the cast is made and of other casts. Text with no parsable value yields a deterministic zero value, never indeterminate data.",
  ["inputs"], "every value of the supported types and every text", "tests cast three or four constants",
  [I+"string_utils/StringCast.h"], [("stringCast", I+"string_utils/StringCast.h")])
prop("E01", "Base64 encoding is RFC 4648 and decoding inverts it for all bytes",
  "For every byte string, including those with zero bytes and of every length modulo three, the encoded text is exactly the RFC 4648 base64 text with padding, and decoding that text gives back exactly the original bytes. Encoding with an explicit output length pads the text with '=' to exactly that length, and gives an empty text when the unpadded text is longer than it.",
  ["inputs"], "every byte string", "tests encode and decode a few fixed ASCII texts",
  ["src/base64/base64_functions.cpp", I+"base64/base64_functions.h"], [("base64Encode/base64Decode", "src/base64/base64_functions.cpp")])
prop("E02", "URL encoding escapes exactly what it must and decoding inverts it",
  "For every byte string, URL encoding keeps letters, digits and - _ . ~ as they are and turns every other byte into %XX with two upper-case hexadecimal digits, and decoding returns exactly the original bytes. Decoding turns '+' into a blank and %XX with digits of either case into the byte, leaves other characters unchanged, and on any text, however malformed or truncated, terminates without reading outside it.",
  ["inputs"], "every byte string and every text", "tests encode two or three fixed URLs",
  ["src/network/network_functions.cpp", I+"network/network_functions.h"], [("urlEncode/urlDecode", "src/network/network_functions.cpp")])

prop("J01", "Dumping a JSON value and loading the text gives the same value",
  "For every JSON value built through the API (arrays and objects nested up to 1000 levels, any keys and strings, 32-bit integers, booleans, null, floating-point numbers to the six printed decimals) the dumped text loads back to an equal value: same types, same structure, same keys, same scalars. Quotes, backslashes and the control characters with a JSON escape are escaped in the text, other bytes are copied, and dumping the loaded value again gives the same text.",
  ["inputs", "histories"], "every JSON value constructible through the API", "tests dump one or two fixed documents",
  ["src/json/Json.cpp", I+"json/Json.h", "src/json/json_functions.cpp"], [("dump/stringify", "src/json/Json.cpp"), ("parser", "src/json/Json.cpp")])
prop("J02", "Loading valid JSON text yields exactly the value it denotes",
  "For every valid JSON text (any whitespace layout, nesting up to 1000 levels, string escapes, and number spelling: sign, fraction, exponent with or without sign, at any position including the end of the text) loading succeeds and the result has the type, structure and scalar values that the text denotes. Numbers written without fraction or exponent are integers, others are floating-point within rounding; a \\uXXXX escape is kept as its six characters. Of members with the same key the last one counts.",
  ["inputs"], "every valid JSON text within 32-bit integers", "tests load a few fixed documents; exponents and numbers at the end of the text are not tried",
  ["src/json/Json.cpp", I+"json/Json.h", "src/json/json_functions.cpp"], [("recursive-descent parser", "src/json/Json.cpp")])
prop("J03", "Loading malformed JSON text is always safe and never accepts garbage",
  "For every text, loading either returns a value or ends the program with a failure status and a diagnostic: it never reads outside the text, corrupts memory, overflows the stack however deep the nesting, or hangs. Truncated documents, unbalanced brackets, missing separators, keys that are not strings, misspelt literals and empty text are rejected.",
  ["inputs"], "every byte string (nesting bounded by the stack)", "tests try a handful of malformed strings",
  ["src/json/Json.cpp", "src/json/json_functions.cpp"], [("parser error paths", "src/json/Json.cpp")])
prop("J04", "JSON objects have value semantics over every history of use",
  "Over every history of construction, copy, move, assignment (including to itself or from one of its own sub-values), type change, append, subscripting (which creates missing object keys and extends arrays with null), key tests and size queries, a JSON object holds exactly the value an ideal value tree would hold, and copies never share state. Reading a value through another type's accessor gives that type's zero value, read-only access to a missing key or index throws, and a negative index terminates with an error.",
  ["histories", "inputs"], "every finite history of API operations on several objects", "tests build a few fixed objects",
  ["src/json/Json.cpp", I+"json/Json.h"], [("copy/move/clear/operator[]", "src/json/Json.cpp"), ("accessors", I+"json/Json.h")])

prop("M01", "BigNum arithmetic is exact integer arithmetic within its capacity",
  "For all integers whose values and results fit the declared number of digits, BigNum addition, subtraction, multiplication, increment, decrement, negation, absolute value, comparison, compound assignment, conversion from machine integers and text, and printing agree with integer arithmetic, for every combination of signs and lengths including zero and full capacity. Operands are not modified, and copies are independent.",
  ["inputs", "histories"], "all operand values within capacity, for every capacity", "tests add and multiply a few fixed positive values",
  [I+"math_utils/BigNum.h"], [("add/sub/mul/cmp", I+"math_utils/BigNum.h")])
prop("M02", "Fraction arithmetic is exact rational arithmetic in lowest terms",
  "For all fractions and integers (within machine range) the four operations in either operand order, compound assignment, comparison and equality agree with exact rational arithmetic, and every result is in lowest terms with a positive denominator. A zero denominator, or division by zero, terminates with an error.",
  ["inputs", "histories"], "all fractions with intermediate products within range", "tests use a few fixed fractions and not the integer-on-the-left forms",
  [I+"math_utils/Fraction.h"], [("operators and reduction", I+"math_utils/Fraction.h")])
prop("M03", "Matrix arithmetic obeys the defining formulas and value semantics",
  "For matrices of all shapes (empty ones included) with integer, floating or user-defined entries, sum, difference, product, identity, equality and powers (every unsigned exponent, including zero) have exactly the entries their definitions give, in plain and compound-assignment form, with operands unmodified and copies independent; a cleared matrix is empty and can be refilled. Operations on incompatible shapes terminate with an error.",
  ["inputs", "histories"], "all shapes and entries", "tests use a few fixed 2x2 and 3x3 matrices",
  [I+"math_utils/Matrix.h"], [("operators, pow, transpose", I+"math_utils/Matrix.h")])
prop("M04", "Matrix reduction gives a row-echelon form of the same row space",
  "For every matrix over a field, of any shape and rank including zero rows and columns and none at all, reduction yields a matrix in row-echelon form with leading ones whose row space equals that of the input. Its number of non-zero rows is the rank.",
  ["inputs"], "all matrices over exact fields, and floats with exactly representable elimination", "tests reduce one or two fixed full-rank matrices",
  [I+"math_utils/Matrix.h"], [("reduce", I+"math_utils/Matrix.h")])
prop("M05", "gcd, lcm, factorial, permutation and binomial are exact",
  "For all non-negative arguments whose exact result is representable, the greatest common divisor and least common multiple of two numbers, factorial, number of permutations and binomial coefficient equal their mathematical values, including zero arguments and n = k. Arguments outside the domain of the counting functions (negative, k > n) terminate with an error.",
  ["inputs"], "all arguments with representable results, for every integer type", "tests check a few constants",
  [I+"math_utils/math_functions.h"], [("gcd/lcm/factorial/permutation/binomial", I+"math_utils/math_functions.h")])
prop("M06", "Sums and statistics equal their definitions for all data",
  "For every non-empty array or container of numbers, sum (plain or of a function of the elements), mean, variance and standard deviation (population and sample forms) equal their defining formulas within floating-point rounding, for integer data of any magnitude whose sum is representable and for data with a large common offset. The variance is never negative.",
  ["inputs"], "all arrays and containers of representable data", "tests use one small fixed data set",
  ["src/math_utils/statistics.cpp", I+"math_utils/math_functions.h"], [("sum/mean/variance/stddev", "src/math_utils/statistics.cpp")])
prop("M07", "Binary powers equal repeated multiplication for every base and exponent",
  "For every base and non-negative exponent with a representable result, the integer and the generic power functions equal repeated multiplication, for built-in numbers, fractions, matrices and any type with an associative product. A power whose value is representable never fails or goes wrong because of some larger intermediate value, and a negative exponent terminates with an error.",
  ["inputs"], "all bases, exponents and element types with representable powers", "tests check a few small powers",
  ["src/math_utils/binary_pow.cpp", I+"math_utils/math_functions.h"], [("binaryPow/genericBinaryPow", I+"math_utils/math_functions.h")])

prop("G01", "Segment tree queries equal a naive array after any updates",
  "For every size and every sequence of range updates (add, multiply) and range queries (sum, minimum, maximum), each query returns exactly what a plain array updated element by element would give. This holds for every range including single elements and the whole array, for overlapping and nested updates in any order, and for negative addends and multipliers; a copy of a tree is independent of it, filling a tree anew with init() forgets what it held, pending updates included, and an empty array gives a tree of size zero.",
  ["histories", "inputs"], "all sizes and all histories of updates and queries", "tests run one short fixed script",
  [I+"graph/SegmentTree.h"], [("lazy propagation", I+"graph/SegmentTree.h")])
prop("G02", "The binary search tree holds exactly the inserted, not erased nodes",
  "Over every history of insertions and erasures of nodes (any ranks, repeated ranks, leaf, one-child, two-child and root erasures, reinsertion) lookup by rank finds a node exactly when one with that rank is present, and the predecessor and successor of a node are its neighbours in the sequence of stored nodes sorted by rank.",
  ["histories"], "all histories of insert/erase/find", "tests build one fixed tree and erase one node",
  ["src/graph/BST.cpp", I+"graph/BST.h"], [("insert/erase/find/pre/suf", "src/graph/BST.cpp")])
prop("G03", "Tree ancestor, height, degree and lowest-common-ancestor are exact",
  "For every rooted tree shape (chains, stars, random, deep) and every pair of nodes, the reported lowest common ancestor, k-th ancestor, height, and degree equal those computed by walking parent links, while the tree grows and afterwards. A new tree has no root, a node made the root has no father and height 0, and sons are listed in the order in which they were added.",
  ["inputs", "histories"], "all tree shapes, build orders and node pairs", "tests use one small fixed tree",
  ["src/graph/Tree.cpp", I+"graph/Tree.h"], [("binary-lifting ancestors", "src/graph/Tree.cpp")])
prop("G04", "Graph vertices and edges stay mutually consistent",
  "Over every history of creating, copying, assigning and destroying vertices and adding edges (parallel edges and self-loops included), each vertex's outgoing and incoming edges are exactly the edges created with it as source or target and still alive, with the values given and in the order in which they were added; a copied vertex has edges of its own to and from the same neighbours, in the same order. Vertex ids and edge ids are unique, edges order by value, and no edge refers to a destroyed vertex.",
  ["histories"], "all histories of vertex and edge operations", "tests connect a few fixed vertices",
  ["src/graph/Vertex.cpp", "src/graph/Edge.cpp", I+"graph/Vertex.h", I+"graph/Edge.h"], [("add/remove edge, destructor", "src/graph/Vertex.cpp")])

prop("P01", "Point arithmetic is coordinatewise and ordering is lexicographic",
  "For points of every dimension and coordinates, sum, difference, scaling by a number (including one of the point's own coordinates), dot and cross product, length and normalisation equal their coordinatewise definitions, compound and plain forms agree, and operands are unmodified. The order relations are the exact lexicographic total order of the coordinates, and equality holds exactly when every coordinate agrees within 1e-6.",
  ["inputs"], "all points of all dimensions", "tests use a few fixed 2-D and 3-D points",
  [I+"geometry/Point.h"], [("operators", I+"geometry/Point.h")])
prop("P02", "Line, segment and circle queries match their geometric definitions",
  "For all lines, segments and points, the distances and intersections reported match the geometric definition within floating-point tolerance: distance to a line is perpendicular, distance to a segment (short and empty ones included) is to its nearest point, end points included, and the intersection of non-parallel lines lies on both. For every circle the area and circumference follow the radius, and the point at an angle lies at that angle on the circle.",
  ["inputs"], "all non-degenerate configurations", "tests use one or two configurations",
  ["src/geometry/Line.cpp", I+"geometry/Line.h", I+"geometry/Circle.h"], [("distance/intersection", "src/geometry/Line.cpp")])

prop("R01", "Random numbers always lie in the documented range",
  "For every seed and every valid pair of bounds, including bounds spanning the whole integer range, negative bounds, one-element and very narrow or very wide floating ranges, each drawn integer or double is in the half-open range [min, max) (equal floating bounds give that number), and the draws are spread evenly over it: every value of a small integer range (both ends of any range included) can occur, doubles have their full resolution, and booleans are true half of the time. The class methods and the free functions obey the same ranges.",
  ["inputs", "histories"], "all bounds, seeds and draw sequences", "tests draw a few thousand values from a handful of ranges",
  ["src/random/Random.cpp", I+"random/Random.h", "src/random/random_functions.cpp", "src/random/UniformIntDistribution.cpp", "src/random/UniformDistribution.cpp"], [("nextInt/nextDouble", "src/random/Random.cpp")])
prop("R02", "Equal seeds give equal sequences, for every generator and distribution",
  "Two generators constructed with, or reset to, the same seed produce the same sequence for any interleaving of draw methods, whatever was drawn before the reset and whatever other generators do in between; different seeds give different sequences. Two fresh distribution objects of any kind with equal parameters driven by equally seeded generators (given at construction or set afterwards) produce equal sequences.",
  ["histories", "configurations"], "all seeds, draw interleavings and distributions", "tests compare one or two sequences",
  ["src/random/Random.cpp", I+"random/Distribution.h", "src/random/random_functions.cpp"], [("seeding", "src/random/Random.cpp")])
prop("R03", "Discrete distributions sample their stated probability law",
  "For all valid parameters, Bernoulli, binomial, geometric, negative binomial, Poisson and uniform-integer samples lie in the distribution's support, are independent, and their frequencies match the stated probability mass function, including extreme parameters (probability 0 or 1, large trial counts, large means). A certain outcome is certain whatever the generator yields. Sampling always terminates, and the parameters read back are those given.",
  ["inputs", "configurations"], "all valid parameters and all seeds", "tests check the mean of one parameter setting per distribution",
  ["src/random/", I+"random/"], [("inverse-transform samplers", "src/random/")])
prop("R04", "Continuous distributions sample their stated probability law",
  "For all valid parameters, uniform, normal, exponential, gamma, chi-squared and Student-t samples are finite and lie in the distribution's support, whatever the generator yields, and their empirical distribution matches the stated cumulative distribution function. Successive samples are independent, and the parameters read back are those given.",
  ["inputs", "configurations"], "all valid parameters and all seeds", "tests check the mean of one parameter setting per distribution",
  ["src/random/", I+"random/"], [("samplers", "src/random/")])
prop("R05", "Invalid random parameters are always rejected",
  "Every construction or draw with invalid parameters (integer max not above min, floating max below min, a probability outside [0, 1] or zero where successes are awaited, negative trial count, non-positive mean, rate, degrees of freedom, shape, scale, deviation or success count, or a value that is not a number) ends the program with a failure status and a diagnostic. No valid parameter, boundary values included, is ever rejected.",
  ["inputs", "configurations"], "all parameter values", "death tests try one invalid value each",
  ["src/random/", I+"random/", I+"utils/error.h"], [("parameter checks in constructors", I+"random/")])

prop("X01", "Everything acquired is released",
  "After any history of using the library's objects and functions (containers, tries, JSON values, graph vertices and edges, trees, numbers, points, codecs, text functions, generators and distributions), once the objects are destroyed no memory acquired on their behalf remains allocated (apart from what is created once for the life of the program); and an object that is filled and emptied of the same contents over and over does not keep growing.",
  ["histories", "inputs"], "all histories of use that end with the destruction of the objects", "no test measures memory",
  ["src/", I], [("destructors, assignment operators, clearData", "src/json/Json.cpp"), ("remove_, nextTail", "src/string_utils/Trie.cpp"), ("removal of edges", "src/graph/Vertex.cpp"), ("ownership of the generator", I+"random/Distribution.h")])
prop("X02", "Independent uses do not disturb each other, from threads or callbacks",
  "Functions may be called, and distinct objects used, from several threads at the same time, and several threads may make const calls on a shared object: each thread gets exactly the results it gets alone, and there is no data race. Likewise a function passed to the library may itself call the library without disturbing the call in progress. (Excepted, since they share state by design: the free random functions, and the id counters of graph vertices and edges.)",
  ["schedules", "histories"], "all thread interleavings of all uses", "tests run in one thread",
  ["src/", I], [("local tables and buffers", "src/algorithm/kmp.cpp"), ("codec tables", "src/base64/base64_functions.cpp"), ("parser state", "src/json/Json.cpp"), ("constants of the number base", I+"math_utils/BigNum.h")])
prop("X03", "Operations keep the cost their algorithm promises, at every size",
  "Segment tree updates and queries take logarithmic time; powers take a logarithmic number of multiplications (generic, integer and Matrix); substring search is linear in text and pattern whatever their structure; Trie lookup and removal depend on the word and not on the number of stored words; ancestors, lowest common ancestors and distances in a Tree take logarithmic time; insertion into the BST is logarithmic on average over any insertion order; Vector, List, Queue and Stack work at their ends in amortised constant time, sorting a List takes n log n steps; Set, MultiSet, Map and MultiMap operations are logarithmic; codecs, flat JSON values and statistics are linear in their input.",
  ["inputs", "histories"], "all sizes, shapes and orders", "tests use inputs of a few elements, on which any growth looks the same",
  ["src/", I], [("lazy propagation", I+"graph/SegmentTree.h"), ("failure function", "src/algorithm/kmp.cpp"), ("binary lifting", "src/graph/Tree.cpp"), ("splay after insertion", "src/graph/BST.cpp"), ("genericBinaryPow", I+"math_utils/math_functions.h")])
prop("X04", "Headers work alone, together, in any order and from several translation units",
  "Every public header can be the only one a program includes; any selection of headers can be included in any order, repeatedly and mixed with standard headers or after a using-directive for namespace std, in one or several translation units of the same program, with g++ and clang++ in C++11, C++14 and C++17. Such a program compiles, links with the library, and what it uses behaves as in a program that includes nothing else. The header named after a module provides the whole module.",
  ["inputs", "configurations"], "all selections and orders of headers, all divisions into translation units", "the tests include a few headers each, always in the same order, from one translation unit per module",
  [I], [("include guards and includes", I), ("inline and template definitions", I)])
prop("X05", "An exception passing through the library loses and corrupts nothing",
  "When an exception (a failed allocation, an operation of the user's element type, a callback) leaves a call of the containers, matrices, JSON values, graph vertices, tries, algorithms, codecs or distributions, nothing acquired by the call stays allocated and every object stays valid: the one being modified can be assigned to and destroyed (containers and JSON values also read and used), and graph edges match on both sides and lead to existing vertices. Objects the call does not modify, and containers that were to gain or lose one element (other than inside a Vector or into a Map), are as they were. The same function call made again gives the right result.",
  ["fault_sequences", "histories"], "all fault points of all histories of use", "no test lets anything throw",
  ["src/", I], [("ownership in constructors and assignment", I+"math_utils/Matrix.h"), ("setType", "src/json/Json.cpp"), ("addEdge, copying of vertices", "src/graph/Vertex.cpp")])

prop("C08", "References and iterators keep their element while others come and go",
  "A reference or iterator to an element of a List, Set, MultiSet, Map or MultiMap, to the first or last element of a Queue, the top of a Stack, or a member of a JSON object or array goes on leading to that same element, until it is removed, while other elements are added, removed or assigned and while the container is read, copied and compared; in a Vector this holds while no element is added and none at or before it is erased. Writing through the reference changes the element in the container, setting the value of an existing Map key is seen through references to it, and an iterator's successor and predecessor are the element's current neighbours.",
  ["histories", "inputs"], "all histories of operations between taking and using a reference", "tests use references at once",
  [I+"containers/", "src/json/Json.cpp"], [("insert, erase", I+"containers/List.h"), ("set, operator[]", I+"containers/Map.h"), ("operator[], append", "src/json/Json.cpp")])

prop("X06", "Results do not depend on the locale, and calls leave the environment alone",
  "Whatever the program's global C++ locale and C locale (decimal point, separators between thousands, names of true and false) and errno are, JSON values dump to the same text, JSON texts load as the same value or are rejected alike, and encoding, searching, big numbers, fractions, containers, tries, trees and random draws give the same results as in the classic locale; casting a string gives back the value that was printed in that locale. Printing a Vector, Point or Fraction prints its elements as the stream's flags, precision and locale say, reading a Vector reads them that way, and printing BigNums, Matrices and JSON values prints their text. No call changes the global locales, the rounding mode, or the flags, precision, fill, locale and exception mask of a stream.",
  ["configurations", "inputs"], "all locales and stream states, for all values", "tests run in the classic locale with fresh streams",
  ["src/json/Json.cpp", I+"string_utils/StringCast.h", I+"containers/Vector.h"], [("parse_number, dump", "src/json/Json.cpp"), ("operator<<, operator>>", I+"containers/Vector.h"), ("operator<<", I+"geometry/Point.h"), ("stringCast::operator T", I+"string_utils/StringCast.h")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

"""Registry of the checks: property -> harness sources, harness patterns, bounds, assumptions."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools")); import kspec
LIST_ASSUME = ["allocation never fails; OS/stdio/locale calls are stubbed; error-message text is not modelled (std::to_string of a symbolic value yields '?')",
  "single-threaded execution; the CPU kernel library (cuda kernels are outside)",
  "clang -O1 bitcode of /repo's own sources stands for the shipped g++ build"]
CHECKS = {
 "C01": dict(srcs=[], gen=kspec.both, pats=["h_c01*"], t=25, T=400, tt=300, TT=3000,
   bounds="562 specializations of 180 kernels; array capacity 6 in / 14 out, counts 0..3, list boundaries and indices -2..5 (smaller for about 40 specializations with large state: tools/kspec.py SMALL), data values over their whole type; a second set of harnesses (about 490 specializations) with every index/boundary over the whole nonnegative range of its type",
   bounds_t="as quick without the SMALL reductions, all specializations in both sets",
   assume=["inputs on which the definition itself is defined: no Python exception other than a raised error, no negative (wrap-around) list index", "unsigned boundaries satisfy starts <= stops and increasing offsets; in the full-range set all boundaries are >= -1, ordered and leave headroom of one bit", "kernels without a definition in kernel-specification.yml (sort/argsort/unique/complex reducers/...) are decided through C05, C06, C08, C10, C23"]),
 "C03": dict(srcs=["c03.cpp"], pats=["h_c03_*"], t=150, T=500,
   bounds="layouts of lengths 2-4 with list contents <= 5 and nesting depth <= 3; slice tuples of up to 4 items; integers and range ends over all 64 bits in single-item slices, -6..6 or absent otherwise; steps -2..2; index arrays of length <= 3 or 2x2 with entries -6..6 (also strided and empty); boolean arrays",
   bounds_t="more layout/slice combinations"),
 "C02": dict(srcs=["c02.cpp"], pats=["h_c02_*"], t=150, T=500,
   bounds="56 layouts covering every node class (lengths 2-4, list contents <= 5, bit masks of 9), all index/offset/mask/tag buffer contents, all 2^64 positions, all 2^64 x 2^64 range ends; nesting depth <= 3; one or two fields (present or absent) of 33 layouts with records under every list, option, indexed and union class, by each of the three interfaces, and of 7 layouts without records"),
 "C07": dict(srcs=["c07.cpp"], pats=["h_c07_*"], t=120, T=500, bounds="49 layouts (lengths 2-3, contents <= 5, depth <= 3; every list, option, indexed, record and union class, offsets and starts anywhere in their content), every axis from -depth to depth (positive and negative, one beyond the end), all buffer contents"),
 "C08": dict(srcs=["c08.cpp"], pats=["h_c08_*"], t=120, T=500, bounds="43 layouts (lengths 1-4, lists up to 5 long, depth <= 3), n = 0..5 with and without replacement at every axis, all buffer contents"),
 "C09": dict(srcs=["c09.cpp"], pats=["h_c09_*"], t=120, T=500, bounds="60 layouts (lengths 2-3, contents <= 5, bit masks of 9, depth <= 3), targets 0..4 at every axis, fill values of equal and unlike types, all buffer contents"),
 "C04": dict(srcs=["c04.cpp"], pats=["h_c04_*"], t=120, T=600, bounds="arrays of 2 lists (also 2 levels of lists, regular, indexed, option-type and record nodes) with up to 3 numbers, sliced by jagged integer or boolean arrays of every list layout (32/64-bit offsets or starts/stops, regular, indexed, masked) with 2 lists of up to 2 indexes in -3..2 (any 64-bit index in the wide set), missing values at every level; flat index arrays of 2-3 entries with missing values in the first or second dimension; all buffer contents and list boundaries",
   assume=["an integer beside an index array with missing values, and missing indexes into the second dimension of option-type lists, are rejected as unsupported and are outside", "a regular dimension may reject an index that is out of its range even if it holds no list", "known finding: a missing list of the array whose index list is not empty (see known_findings.json)"]),
 "C05": dict(srcs=["c05.cpp"], pats=["h_c05_*"], t=150, T=600, bounds="every reducer on every number type (13 types incl. complex, datetime) over flat arrays and lists; 75 structures (lengths 2-4, list contents <= 5, depth <= 3: every list, option, indexed, record and union class, offsets and starts anywhere in their content) with sum, argmax, argmin, min, count at every axis from -depth to depth, each with and without mask_identity and keepdims; all buffer contents and values",
   assume=["product of complex numbers and float16/float128 reducers are outside", "a record is reduced field by field: a list of records becomes a record of lists when the axis lies inside its fields"]),
 "C06": dict(srcs=["c06.cpp"], pats=["h_c06_*"], t=120, T=500, bounds="11 number types and strings; 60 structures (lengths 2-4, list contents <= 4, depth <= 3, offsets and starts anywhere in their content) at every axis; ascending and descending, stable and unstable, sort and argsort; strings of total length <= 3 over all byte values; all values except NaN and negative zero",
   assume=["NaN (whose order std::sort leaves undefined), negative zero, complex and datetime arrays (rejected by the library) are outside", "records are sorted field by field: an array of records becomes a record of sorted arrays"]),
 "C10": dict(srcs=["c10.cpp"], pats=["h_c10_*"], t=100, T=500, bounds="all 169 pairs of 13 number types (every value; result type = NumPy promotion), dates of equal and unlike units, all 1521 ordered pairs of 39 layouts (lengths 1-3: every node class and index width) concatenated as ak.concatenate does, 19 triples, 38 nested option/indexed layouts and 16 unions simplified in each mode; all buffer contents",
   assume=["dates of unlike units only for small values (the library scales them in double precision)", "record fields are matched by name, whatever their order"]),
 "C11": dict(srcs=["c11.cpp"], pats=["h_c11_*"], t=100, T=500, bounds="every list, option, indexed, record and union class over 4 contents (lengths 2-4, contents <= 5, bit masks of 9), every conversion, copy, carry (all in-range indexes, eager and lazy), projection and re-masking operation, all buffer contents",
   assume=["carry indexes lie within the array (the documented domain of carry)", "layouts satisfy the validity rules of C12"]),
 "C12": dict(srcs=["c12.cpp"], pats=["h_c12_*"], t=100, T=500, bounds="every node class with index, offset, mask and tag buffers of 2-4 entries over all values of their type, contents of length 0-4, nesting rules of depth 2, string/bytestring/char/byte/categorical rules, every constructor length rule",
   assume=["an empty list (start == stop) may lie anywhere, as the validity kernels define"]),
 "C13": dict(srcs=["c13.cpp"], pats=["h_c13_*"], t=120, T=700, bounds="25 operations (item, range, 12 kinds of slices, fields, carry, num, flatten, localindex, combinations, rpad, fillna, sort, argsort, 3 reducers, merge, conversion, unique, copy, asslice) on 64 layouts of length 0-2 and depth <= 4, with positions over all 64 bits and axes -3..2; jagged slices on 13 layouts",
   bounds_t="as quick, with numbers of length 3", assume=["allocation never fails", "raising an exception is not a memory error", "dates are left out (their formats need a unit)"]),
 "C14": dict(srcs=["c14.cpp"], pats=["h_c14_*"], t=120, T=600, bounds="command sequences: fixed prefixes of up to 8 commands followed by 2-6 commands chosen symbolically from up to 20 kinds (null, boolean, integer, real, complex, string, bytestring, lists, tuples, records with and without names, fields, append and extend from an array, datetime, clear), values symbolic (any 64-bit integer or real bit pattern, any byte); initial buffer sizes 0-8 and growth factors 0.5-2; a snapshot taken midway in 8 of the sets",
   bounds_t="as quick, with one more symbolic command in every set", assume=["union values are compared by value, numbers up to promotion; records by field name, a field that a record does not have counts as missing", "at most 64 KB of buffers; allocation never fails"]),
 "C15": dict(srcs=["c15.cpp"], pats=["h_c15_*"], t=120, T=600, bounds="32- and 64-bit machines; programs: every word alone and in control structures (if, do/loop, +loop, begin/until/while, calls, exit, halt, pause), read words in every format and byte order to the stack and to outputs of every type, on symbolic stacks (full-width values, 6-bit dividends for division) and symbolic input bytes (up to 24); stack depths 2-8, recursion limits 2-5, outputs growing from 1-4 entries; run, single-stepped and paused/resumed",
   assume=["shift counts outside 0..width-1, real to integer conversions that do not fit, NaN conversions, boolean bytes other than 0 and 1, and literals beyond 32 bits are outside", "+loop as the implementation defines it (ends when the counter reaches the limit, steps >= 0)", "at most 400 words executed per run"]),
 "C16": dict(srcs=["c16.cpp"], pats=["h_c16_*"], t=100, T=500, bounds="72 Forms (numbers, strings, lists with 32/64-bit offsets or starts and stops, regular lists of 2, option-type, indexed, masked, record, tuple and union nodes, depth <= 4) filled with 0-3 values with lists of 0-2 items, every choice of lengths, missing values and tags, all numbers and characters, snapshots midway and at the end; 29 places where each value of another type, a missing value or a tag does not fit",
   assume=["masked nodes take no missing values and are left out of the snapshot (marked FIXME in the library), and unions may be simplified: for those only the values are compared, not the Form", "begin_list/end_list where no list stands are outside", "known findings: missing values in records beside lists, lists in unions, records nested in records with lists (see known_findings.json)"]),
 "C17": dict(srcs=["c17.cpp"], pats=["h_c17_*"], t=120, T=700, bounds="reading: 109 texts with 1-4 arbitrary bytes, digits or hexadecimal digits at every grammatical place, 6 texts with any one byte replaced, inserted or left out at every position or cut anywhere, from memory and from files with buffers of 4-20 bytes; decimal numbers of up to 19 digits and exponents -40..40 (nearest double, decided by exact integer arithmetic); writing: 75 layouts (lengths 0-3, depth <= 3, all numbers of all 12 number types) as events, and numbers, strings of 1-2 arbitrary bytes, names, nested layouts, complex numbers, NaN and infinities as text by the 4 writers",
   bounds_t="as quick, with 3 arbitrary bytes where quick has 2", assume=["a record with the same key twice, NUL in keys, unpaired low surrogates and numbers beyond 19 significant digits are outside", "values of one array are merged as ArrayBuilder does (C14)", "integers of 2**63 and beyond are read as the nearest real number"]),
 "C18": dict(srcs=["c18.cpp"], pats=["h_c18_*"], t=100, T=500, bounds="1-4 partitions of 0-3 elements each; positions over all 64 bits; ranges with ends over all 64 bits or -6..6 or absent and steps -4..4, absent or near +-2^63; repartitioning into 1-4 partitions with any stops",
   assume=["numbers and lists as partition contents: partition arithmetic does not look inside them"]),
 "C19": dict(srcs=["c19.cpp"], pats=["h_c19_*"], t=120, T=700, bounds="35 operations on 17 layouts whose numbers, lists, options, records or outermost node are virtual (fixed list structure, length 2-4, all numbers); positions and range ends -4..4, steps -2..2; generator with or without Form and length, with no cache, a keeping cache or one that forgets at up to 2 moments the solver picks; another use of the array before the operation or not; 16 x 16 declared and generated Forms; declared lengths 0-5",
   assume=["generated arrays longer than declared are outside", "errors may be raised when the result is read instead of when it is requested"]),
 "C20": dict(srcs=["c20.cpp"], pats=["h_c20_*"], t=120, T=700, bounds="Form trees: each of 17 node kinds over 15 leaf kinds, and over each of the 17 kinds over 2 leaf kinds (records and unions with a second, list-type member), each node with one of 3 parameter sets; pairs of 52 Forms for equality; record keys, form keys, parameter names and texts with 1 arbitrary non-zero byte; sizes up to 2^63-1; 5 date units; written plain or pretty, verbose or not",
   bounds_t="as quick, with texts of 2 arbitrary bytes", assume=["NUL bytes in names are outside", "Forms compare parameters by __array__ and __record__ only, as implemented; the other parameters are compared through the JSON text"]),
 "C21": dict(srcs=["c21.cpp"], pats=["h_c21_*"], t=100, T=500, bounds="33 layouts (lengths 2-3, contents <= 7, depth <= 4: every list, indexed, option, union and record class, all buffer contents) given identities and then taken apart: item, range, range of range, carry (eager and lazy), index array, stepped slice, inner item and range, item of item, deep copy; positions and range ends within one of the array",
   assume=["values that occur at two places of the array have no identity and are left out", "identities may be dropped (not altered) by indexed, option-type and union nodes and for unreached overlapping inner lists", "known finding: a record array shorter than its fields rejects identities"]),
 "C22": dict(srcs=["c22.cpp"], pats=["h_c22_*"], t=100, T=500, bounds="all 169 pairs of 13 number types over all values; 39 structures (lengths 2-3, contents <= 5, depth <= 3, multidimensional and strided arrays) with all buffer contents",
   assume=["real to integer conversions whose result does not fit the integer type (undefined in C) and NaN are outside", "conversion to bool of negative values is outside (the kernel definition reads `> 0`)"]),
 "C23": dict(srcs=["c23.cpp"], pats=["h_c23_*"], t=100, T=500, bounds="11 number types, arrays of up to 4 numbers (also strided and reversed), up to 3 strings of up to 2 bytes, directly, through an indexed array or as the field of a single-field record; all values",
   assume=["NaN and negative zero are outside"]),
}
NA = {
 "C24": "broadcasting is Python code (src/awkward/_util.py broadcast_and_apply over NumPy ufuncs); executing it symbolically needs CPython, NumPy and pybind11 encoded, which is out of reach for this technique. The compiled steps it uses (broadcast_tooffsets64, carry, rpad) are decided by C11, C09 and C01",
 "C25": "the conversions are Python code over NumPy, pickle, PyArrow and Parquet, none of which can be encoded; the compiled parts they rest on are decided elsewhere (builders C14, Forms C20, layout conversions C11, number conversion C22)",
 "C26": "needs Numba (not installed here): type inference in Python and LLVM code generated at run time, which is not part of the repository's source",
}

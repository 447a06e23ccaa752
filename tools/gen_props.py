import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
LA = "src/libawkward/array/"
arr = lambda *n: [LA + x + ".cpp" for x in n]
prop("C01", "Compiled CPU kernels compute what the kernel specification says",
 "Every compiled CPU kernel, given input buffers for which its published Python definition in kernel-specification.yml is defined, leaves exactly the values the definition leaves in every output buffer and reports success or failure exactly when the definition does. This holds for every typed specialization of the kernel.",
 ["inputs"], "all buffer contents, lengths and scalar arguments on which the definition runs without an out-of-range access",
 "The shipped kernel tests run each kernel on a handful of hand-picked buffers (one or two tiny samples per specialization); negative offsets, repeated parents, empty sublists, extreme integers and their combinations are never tried.",
 ["src/cpu-kernels", "include/awkward/kernels.h", "kernel-specification.yml"],
 [("one .cpp per kernel", "src/cpu-kernels/*.cpp"), ("reference definitions", "kernel-specification.yml")], ["output buffers and the returned error of the exported C functions"])
prop("C02", "Element, range and field access follow Python sequence semantics",
 "For an array in any layout, asking for element i yields the i-th value (negative i counts from the end) and fails exactly when i is outside [-length, length); asking for a range start:stop yields exactly the values Python's list slicing would. Asking for one field or several fields of records yields, position by position, the values stored under those names, and fails exactly when a name is absent.",
 ["inputs"], "all layouts, all buffer contents, all integer positions including negative, out-of-range and extreme ones",
 "Tests index a few fixed arrays; the position/layout/representation product (offset views, 32/64-bit indexes, masked, indexed, union, records) is unbounded.",
 arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "ByteMaskedArray", "BitMaskedArray", "UnmaskedArray", "RecordArray", "Record", "UnionArray", "EmptyArray"),
 [("getitem_at / getitem_range / getitem_field(s)", "src/libawkward/array/*.cpp"), ("range regularization", "src/cpu-kernels/awkward_regularize_rangeslice.cpp, include/awkward/kernel-utils.h")])
prop("C03", "Multi-dimensional slices select what NumPy rules select",
 "Slicing an array with a tuple of integers, start:stop:step ranges, integer or boolean index arrays, ellipsis, newaxis and field names returns exactly the nested values obtained by applying each item to its dimension (integer and boolean arrays broadcast together in NumPy's advanced-indexing manner), for variable-length as well as regular dimensions. It fails exactly when an integer or index-array entry is out of range for some list it is applied to or the item does not fit the dimension.",
 ["inputs"], "all arrays and all slice tuples, including negative steps, out-of-range bounds, empty arrays and empty selections",
 "The item-kind x dimension-kind x sign-of-step x emptiness product is far larger than the fixed slices in tests.",
 ["src/libawkward/Slice.cpp", "src/libawkward/Content.cpp"] + arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "RecordArray"),
 [("getitem_next for every slice item", "src/libawkward/array/*.cpp"), ("slice kernels", "src/cpu-kernels/awkward_*getitem_next*.cpp")])
prop("C04", "Jagged and missing-valued slices select list by list",
 "Slicing with a jagged (nested-list) integer or boolean array applies the i-th inner index list to the i-th list of the array, giving the values at those positions in that order; None entries in an index array or index list yield None at that position in the result. It fails exactly when the list counts differ or an index is out of range for its own list.",
 ["inputs"], "all arrays and all jagged or option-type index arrays of compatible depth",
 "Tests cover a few jagged slicers; misaligned starts, non-zero first offsets, empty lists and missing values combine without bound.",
 ["src/libawkward/Slice.cpp"] + arr("ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "NumpyArray"),
 [("getitem_next_jagged", "src/libawkward/array/*.cpp"), ("jagged/missing kernels", "src/cpu-kernels/awkward_ListArray_getitem_jagged_*.cpp, awkward_MaskedArray_getitem_next_jagged_project.cpp, awkward_missing_repeat.cpp")])
prop("C05", "Reducers equal a fold over the values along the axis",
 "Reducing along an axis (sum, prod, min, max, any, all, count, count_nonzero, argmin, argmax) returns, for every group of values along that axis, exactly the fold of the non-missing values of that group in the documented result type, with the identity (or None when masking) for empty groups and, for argmin/argmax, the position of the first extremum within the list. keepdims only adds a length-1 dimension.",
 ["inputs"], "all arrays of any layout and nesting, all axes, both mask and keepdims settings, all values including wrap-around and ties",
 "Tests check selected arrays; unequal list lengths across non-innermost axes, gaps, missing values, index views and representation differences are not enumerable by example.",
 ["src/libawkward/Content.cpp", "src/libawkward/Reducer.cpp"] + arr("NumpyArray", "ListOffsetArray", "ListArray", "RegularArray", "IndexedArray", "ByteMaskedArray", "BitMaskedArray", "RecordArray"),
 [("reduce / reduce_next", "src/libawkward/array/*.cpp"), ("reducer kernels", "src/cpu-kernels/awkward_reduce_*.cpp"), ("nonlocal reduction preparation", "src/cpu-kernels/awkward_ListOffsetArray_reduce_*.cpp")])
prop("C06", "Sorting and argsort order each list along the axis",
 "sort(axis) rearranges each group of values along the axis into ascending (or descending) order, keeping exactly the same values and list lengths with missing values last; argsort(axis) returns positions (counted among the non-missing values of the group) that put those values in that order, and for the stable variant keep the original order of equal values. Where the axis lies above further lists, values at the same place in each list form a group. Strings sort lexicographically by byte.",
 ["inputs"], "all arrays and layouts, all axes, ascending and descending, stable and not, duplicates and missing values",
 "Ordering bugs appear for particular value patterns (ties, NaN, interior None, zero-length groups) that a few examples do not contain.",
 ["src/libawkward/Content.cpp"] + arr("NumpyArray", "ListOffsetArray", "ListArray", "RegularArray", "IndexedArray", "ByteMaskedArray"),
 [("sort / argsort", "src/libawkward/array/*.cpp"), ("sort kernels", "src/cpu-kernels/awkward_sort.cpp, awkward_argsort.cpp, awkward_NumpyArray_sort_asstrings_uint8.cpp")])
prop("C07", "num, flatten and local index describe the list structure exactly",
 "num(axis) is the length of every list at that axis, localindex(axis) is 0..length-1 in every list at that axis, and flattening an axis concatenates the lists one level below in order, dropping missing lists and returning offsets that cut the flattened values back into the original lists. Other nesting levels and the values themselves are unchanged.",
 ["inputs"], "all layouts, nestings and axes (positive and negative)",
 "Shapes, first offsets, unused content, missing lists and axes combine without bound.",
 arr("ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "NumpyArray", "RecordArray", "UnionArray", "ByteMaskedArray"),
 [("num / offsets_and_flattened / localindex", "src/libawkward/array/*.cpp"), ("kernels", "src/cpu-kernels/awkward_*_num*.cpp, awkward_*flatten*.cpp, awkward_*localindex*.cpp")])
prop("C08", "Combinations enumerate every n-tuple of each list exactly once",
 "combinations(n) gives, for each list along the axis, exactly the n-element selections of that list in lexicographic order of position, with or without replacement as requested, each exactly once, as n-field records.",
 ["inputs"], "all layouts, list lengths, n, axes, with and without replacement",
 "Counts and carries are combinatorial; tests compare a few small printed results.",
 ["src/libawkward/Content.cpp"] + arr("ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "RecordArray"),
 [("combinations / combinations_axis0", "src/libawkward"), ("kernels", "src/cpu-kernels/awkward_ListArray_combinations*.cpp, awkward_RegularArray_combinations.cpp")])
prop("C09", "Padding, clipping and filling missing values",
 "rpad(n, axis) leaves lists of n or more unchanged and appends None up to n to shorter ones; rpad_and_clip makes every list exactly n long by the same appending or by cutting; fillna replaces exactly the missing values by the given value and changes nothing else. Missingness reported as a byte mask agrees with the values, and projecting an option-type array keeps exactly its non-missing values in order.",
 ["inputs"], "all layouts, targets and axes, all placements of missing values",
 "Padding interacts with non-zero first offsets, regular dimensions and the five option representations; tests sample a few.",
 ["src/libawkward/Content.cpp"] + arr("ListOffsetArray", "ListArray", "RegularArray", "IndexedArray", "ByteMaskedArray", "BitMaskedArray", "UnmaskedArray"),
 [("rpad / rpad_and_clip / fillna / bytemask / project", "src/libawkward/array/*.cpp"), ("kernels", "src/cpu-kernels/awkward_*rpad*.cpp, awkward_UnionArray_fillna.cpp, awkward_*mask*.cpp")])
prop("C10", "Concatenation along the first axis appends values",
 "Merging arrays (pairwise or many at once, mergeable types directly and unmergeable types as a union) gives an array whose values are the first array's values followed by the second's and so on, numbers compared by value after the documented promotion, missing values staying missing. Simplifying nested option/indexed/union structure never changes values.",
 ["inputs"], "all pairs and triples of layouts and all their contents",
 "Layout pairs are quadratic in the number of layout classes and index widths; tests fix a few.",
 ["src/libawkward/Content.cpp"] + arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "RecordArray", "UnionArray", "ByteMaskedArray", "EmptyArray"),
 [("merge / mergemany / merge_as_union / simplify_uniontype / simplify_optiontype", "src/libawkward/array/*.cpp"), ("kernels", "src/cpu-kernels/awkward_*fill*.cpp, awkward_*simplify*.cpp")])
prop("C11", "Converting between layouts never changes values",
 "Re-expressing an array in another layout of the same data type (offsets versus starts/stops, compacted offsets, regular versus variable-length, masked versus indexed option types, contiguous versus strided, deep copies, carried selections, projected indexes) leaves every value, missing entry and list boundary unchanged. Converting a variable-length dimension to regular fails exactly when its list lengths differ.",
 ["inputs"], "all layouts and buffer contents for which the conversion is defined",
 "Equality must hold for every buffer content, including gaps, overlaps, unreachable content and shifted views that tests rarely build.",
 arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "ByteMaskedArray", "BitMaskedArray", "UnmaskedArray"),
 [("toListOffsetArray64 / toRegularArray / compact_offsets64 / broadcast_tooffsets64 / contiguous / toByteMaskedArray / toIndexedOptionArray64 / carry / deep_copy / project", "src/libawkward/array/*.cpp")])
prop("C12", "Validity checking accepts exactly the well-formed arrays",
 "An array passes the validity check exactly when every list boundary, index, tag and mask it contains refers inside the content it points to and the documented nesting and length rules hold; otherwise a message names the problem. Operations on valid arrays return valid arrays.",
 ["inputs"], "all buffer contents, well-formed or not, for every layout class",
 "Malformed buffers are unlimited; tests break one or two entries.",
 ["src/libawkward/Content.cpp"] + arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "ByteMaskedArray", "BitMaskedArray", "RecordArray", "UnionArray"),
 [("validityerror", "src/libawkward/array/*.cpp"), ("validity kernels", "src/cpu-kernels/awkward_*_validity.cpp")])
prop("C13", "Operations on valid arrays stay in bounds and never modify inputs",
 "No operation on a valid array, whatever its arguments, reads or writes outside its buffers, uses freed memory, depends on uninitialized memory, or changes any input buffer; bad arguments are reported as errors.",
 ["inputs"], "all valid arrays and all arguments of the public array operations",
 "Out-of-bounds and aliasing errors are silent in ordinary test runs and depend on rare buffer contents.",
 ["src/libawkward", "src/cpu-kernels"], [("allocation sizes and loop bounds in every method and kernel", "src/libawkward/array/*.cpp, src/cpu-kernels/*.cpp")])
prop("C14", "ArrayBuilder snapshots hold exactly the appended values",
 "After any sequence of builder calls (null, boolean, integer, real, complex, string, list, tuple, record and append-from-array commands), a snapshot is a valid array whose values are exactly the completed values in order, missing values as None, mixed numbers promoted and unlike types kept as a union; calls that violate nesting are rejected. Earlier snapshots never change when building continues.",
 ["histories", "inputs"], "all sequences of builder commands with any values, any initial buffer size and growth factor",
 "Histories are unbounded; type promotions depend on the order of first appearances.",
 ["src/libawkward/builder"], [("per-type builders that replace themselves", "src/libawkward/builder/*.cpp"), ("growable buffers", "include/awkward/builder/GrowableBuffer.h, src/libawkward/builder/GrowableBuffer.cpp")])
prop("C15", "AwkwardForth programs run as their definition says",
 "For any program and input bytes, the machine executes words with standard Forth meaning on a wrapping stack, reads and writes typed values exactly as stored (either byte order), and stops with the documented error instead of reading past an input, underflowing or overflowing a stack, writing before an output's start or dividing by zero. Single-stepping, pausing and resuming, and the instruction-at-a-time and run-to-end modes all give the same final state.",
 ["programs", "inputs", "schedules"], "all programs over the word set and all inputs, in both 32- and 64-bit machines",
 "Programs and inputs are unbounded; tests run selected programs on selected bytes.",
 ["src/libawkward/forth/ForthMachine.cpp", "src/libawkward/forth/ForthInputBuffer.cpp", "src/libawkward/forth/ForthOutputBuffer.cpp"],
 [("compile / internal_run", "src/libawkward/forth/ForthMachine.cpp"), ("bounds-checked buffers", "src/libawkward/forth/ForthInputBuffer.cpp, ForthOutputBuffer.cpp")])
prop("C16", "LayoutBuilder fills the given Form with exactly the appended values",
 "For a Form and a sequence of append commands that fits it, the snapshot has that Form and holds exactly the appended values; commands that do not fit are rejected.",
 ["histories", "inputs"], "all supported Forms and all fitting command sequences",
 "Form nesting and histories are unbounded.",
 ["src/libawkward/layoutbuilder"], [("Form to Forth program translation", "src/libawkward/layoutbuilder/*.cpp")])
prop("C17", "JSON conversion preserves values",
 "Reading JSON text gives an array with exactly the values in the text (lists, records with their keys in order, missing values, booleans, integers and reals, strings with escapes), and writing an array as JSON gives text that reads back as the same values; malformed text is rejected.",
 ["inputs"], "all JSON documents and all JSON-expressible arrays",
 "Documents are unbounded; tests use selected documents.",
 ["src/libawkward/io/json.cpp"], [("SAX handler feeding ArrayBuilder", "src/libawkward/io/json.cpp"), ("tojson_part", "src/libawkward/array/*.cpp")])
prop("C18", "A partitioned array behaves as the concatenation of its partitions",
 "Element access, range access with any start, stop and step, and repartitioning of a partitioned array give exactly what the same request gives on the concatenation of its partitions, including negative and out-of-range positions.",
 ["inputs"], "all partitionings (including empty partitions) and all positions",
 "Partition boundaries times slice bounds times step signs is unbounded; tests use a few.",
 ["src/libawkward/partition/PartitionedArray.cpp", "src/libawkward/partition/IrregularlyPartitionedArray.cpp"],
 [("getitem_at / getitem_range / repartition", "src/libawkward/partition/*.cpp")])
prop("C19", "Virtual arrays are indistinguishable from what they generate",
 "Every operation on a lazily generated array gives the same values as the operation on the generated array, whether or not a cache is attached or still holds the entry; the generator runs at most once while the cache keeps its result, and a generated array that is shorter than the declared length or does not have the declared Form is rejected.",
 ["inputs", "histories"], "all generated arrays, operations and cache evictions",
 "Evictions and lazily carried slices interleave in unboundedly many ways.",
 ["src/libawkward/array/VirtualArray.cpp", "src/libawkward/virtual/ArrayGenerator.cpp", "src/libawkward/virtual/ArrayCache.cpp"],
 [("VirtualArray::array / peek_array", "src/libawkward/array/VirtualArray.cpp"), ("generate_and_check", "src/libawkward/virtual/ArrayGenerator.cpp")])
prop("C20", "Forms and types describe their arrays",
 "The Form of an array describes exactly that array's layout (its type equals the array's type, its depth, field and parameter queries give the same answers), and a Form written as JSON reads back as an equal Form.",
 ["inputs", "configurations"], "all layouts and Forms with parameters and form keys",
 "Form nesting is unbounded; tests compare a few strings.",
 ["src/libawkward/Content.cpp", "src/libawkward/type"], [("form / type / Form::fromjson / Form::tojson / equal", "src/libawkward/Content.cpp, src/libawkward/array/*.cpp")])
prop("C21", "Identities follow values through operations",
 "After identities are assigned, every value reached by element, range or array selection carries the path (positions and field names) it had in the original array.",
 ["inputs"], "all layouts and selections", "Selections compose without bound.",
 ["src/libawkward/Identities.cpp"], [("setidentities / getitem_carry_64", "src/libawkward/Identities.cpp, src/libawkward/array/*.cpp"), ("kernels", "src/cpu-kernels/awkward_Identities*.cpp")])
prop("C22", "Changing the number type converts every value and nothing else",
 "Converting an array's numbers to another type gives, at every position, the C conversion of the value there (where C defines it), leaving nesting, missing values, fields and order unchanged.",
 ["inputs"], "all numeric source/target type pairs and all values", "The type-pair x value x layout product is not sampled by tests.",
 arr("NumpyArray", "ListArray", "ListOffsetArray", "RegularArray", "IndexedArray", "RecordArray", "UnionArray"),
 [("numbers_to_type", "src/libawkward/array/*.cpp"), ("fill kernels", "src/cpu-kernels/awkward_NumpyArray_fill.cpp")])
prop("C23", "Uniqueness tests are exact",
 "For arrays of numbers and of strings, held directly (contiguous, strided or reversed in memory), through an indexed array or as the only field of a record, is_unique says true exactly when no two values are equal, and unique returns each distinct value exactly once in sorted order.",
 ["inputs"], "all arrays of numbers and strings", "Depends on value coincidences tests do not contain.",
 arr("NumpyArray", "ListOffsetArray", "IndexedArray"), [("is_unique / unique", "src/libawkward/array/*.cpp"), ("kernels", "src/cpu-kernels/awkward_*unique*.cpp, awkward_*subrange_equal*.cpp")])
prop("C24", "Broadcasting in array functions pairs values by structure",
 "Applying a NumPy universal function or arithmetic operator to Awkward Arrays combines values that sit at the same place after lists of equal length are aligned and scalars and length-one dimensions are duplicated; missing values stay missing.",
 ["inputs"], "all combinations of array structures and ufuncs", "Structure pairs are unbounded.",
 ["src/awkward/_util.py", "src/awkward/_connect/_numpy.py"], [("broadcast_and_apply", "src/awkward/_util.py")])
prop("C25", "Python-level conversions round-trip values",
 "to_list/from_iter, to_numpy/from_numpy, to_buffers/from_buffers, pickling, and Arrow/Parquet conversion give back an array with the same values and type.",
 ["inputs"], "all arrays expressible in the target format", "Arrays are unbounded.",
 ["src/awkward/operations/convert.py"], [("converters", "src/awkward/operations/convert.py")])
prop("C26", "Numba-compiled code sees the same arrays",
 "Code compiled with Numba that iterates over, indexes or builds Awkward Arrays sees and produces the same values as the interpreted code.",
 ["inputs", "programs"], "all arrays and compiled functions", "Programs are unbounded.",
 ["src/awkward/_connect/_numba"], [("lowering of layouts and ArrayBuilder", "src/awkward/_connect/_numba/*.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

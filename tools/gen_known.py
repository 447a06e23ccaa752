#!/usr/bin/env python3
"""writes known_findings.json: open findings (suppressed by harness and message) and repaired ones (documentation only)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((l.split(" ", 1)[1], l.split(" ", 1)[0]) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIX = [  # property, subject of the fix commit, what failed
 ("C03", "fix: keep each element's position in the index arrays through the third and later arrays of an advanced slice", "three or more index arrays in one slice selected wrong elements"),
 ("C03", "fix: drop the positions of missing values and of other union contents from an advanced slice's index", "an index array reaching an option or union node kept the positions of dropped elements"),
 ("C01", "fix: correct four kernel definitions in the specification", "definitions disagreed with the compiled kernels for starts at 0, numvalid and missing_repeat"),
 ("C01", "fix: keep masked values missing when overlaying a mask on an unsigned index", "IndexedArrayU32 overlay_mask turned masked values into index 4294967295"),
 ("C07", "fix: num at an inner axis of lists whose offsets do not start at zero", "ak.num(a[1:], axis=2)"),
 ("C08", "fix: heap overflow in combinations of regular lists shorter than n", "combinations of RegularArray with size < n wrote outside its buffers"),
 ("C09", "fix: rpad_and_clip of an UnmaskedArray at axis=0 clips", "clip=True did not clip"),
 ("C08", "fix: combinations at axis=0 of option-type arrays return valid arrays", "nested option types in the result"),
 ("C05", "fix: reducers over lists whose offsets do not start at zero", "ak.argmax(a[1:], axis=1)"),
 ("C05", "fix: argmin and argmax of complex numbers read the wrong elements", "out-of-bounds reads and wrong positions"),
 ("C05", "fix: reducing across lists when some group has only empty lists", "ak.sum([[[]], [[], [1]]], axis=1) was [[1], []]"),
 ("C05", "fix: the identity of max over complex numbers is minus infinity", "max of numbers with negative real part was 0"),
 ("C05", "fix: masked reducers over optional lists return valid arrays", "nested option types in the result"),
 ("C05", "fix: argmin and argmax across lists count missing lists", "ak.argmax([None, [1]], axis=0) was [0]"),
 ("C05", "fix: reducing across regular lists when some group is empty", "ak.sum raised for variable-length lists of regular lists with an empty list"),
 ("C06", "fix: sort and argsort of lists whose offsets do not start at zero", "ak.sort(a[1:], axis=1) returned an invalid array"),
 ("C06", "fix: sort and argsort keep missing values at the outermost level and missing lists below the sorted axis", "ak.sort([None, 3, None, 2], axis=0) was [2, 3]; ak.sort([[None]], axis=2) was [[[]]]"),
 ("C06", "fix: sort of lists of records returns arrays with the right length", "ak.sort([[{'x': 1}, {'x': 0}]], axis=1) returned an invalid array"),
 ("C06", "fix: string sorting is stable when descending and compares whole strings", "ak.argsort(['a', 'a'], ascending=False, stable=True) was [1, 0]; strings with NUL bytes compared equal after the first one"),
 ("C10", "fix: merging records trims their fields and keeps the length of records without fields", "records whose fields are longer than the record array merged to wrong values; records without fields wrote outside their buffers when merged into a union"),
 ("C10", "fix: merging dates of the same unit keeps all 64 bits", "datetime64[ns] values were rounded to double precision"),
 ("C10", "fix: merging complex with real numbers places each value once", "[int16] + [complex64] overwrote values and left garbage"),
 ("C10", "fix: merging option-type with indexed arrays stays option-type", "IndexedOptionArray + IndexedArray gave an invalid IndexedArray with negative index"),
 ("C10", "fix: merging into 32-bit indexed arrays raised", "NumpyArray + IndexedArray32/U32/IndexedOptionArray32 raised 'unrecognized IndexedArray specialization'"),
 ("C11", "fix: deep copies of arrays that start inside their buffer read past it", "NumpyArray::deep_copy of an array with a byte offset copied from the offset but the whole buffer's length (read beyond the buffer)"),
 ("C12", "fix: validity check of a string whose content is not a NumPy array dereferenced a null pointer", "validity_error of a 'string' list whose content is not a NumpyArray crashed"),
 ("C23", "fix: uniqueness of strided arrays was decided on the wrong values", "is_unique/unique of a strided or reversed NumpyArray looked at the buffer, not the array"),
 ("C23", "fix: uniqueness of strings miscounted empty strings", "unique of strings mishandled empty strings"),
 ("C23", "fix: uniqueness of indexed arrays skipped values when the index starts inside its buffer", "IndexedArray::is_unique/unique with an index that has an offset"),
 ("C23", "fix: records with a single repeated field were called unique", "RecordArray::is_unique with one field returned the opposite"),
 ("C18", "fix: repartitioning with an empty last partition read past the partitions", "repartition with trailing empty partitions read beyond partitions_"),
 ("C18", "fix: an empty range of a partitioned array lost a level of lists", "getitem_range of an empty range returned a single element type"),
 ("C18", "fix: range of a partitioned array overflowed for steps beyond 2**62", "getitem_range with steps near +-2^63 overflowed"),
 ("C22", "fix: changing the number type of multidimensional arrays converted only the first dimension's count of values", "numbers_to_type of a 2-dimensional array converted shape[0] values only"),
 ('C15', "fix: AwkwardForth 'exit' and single-stepping lost track of 'do' loops", "'exit' inside a do loop left its counters on the loop stack; step() ran past the loop"),
 ('C15', 'fix: 64-bit AwkwardForth truncated values read to the stack to 32 bits', 'i64/u32 reads to the stack of a 64-bit machine lost the upper half'),
 ('C15', 'fix: 32-bit AwkwardForth truncated zigzag integers written to 64-bit outputs', 'zigzag integers written to int64 outputs went through 32 bits'),
 ('C15', "fix: AwkwardForth 'abs' of 64-bit integers was computed in 32 bits", 'abs used the 32-bit abs'),
 ('C15', 'fix: AwkwardForth division crashed or overflowed on extreme integers', 'INT_MIN / -1 and mod trapped (SIGFPE)'),
 ('C15', 'fix: AwkwardForth reads with negative or huge counts left the input buffer', 'skip, seek and #-reads with negative or overflowing counts read outside the input'),
 ('C15', "fix: AwkwardForth 'rewind' by a negative number exposed unwritten output", 'rewind by a negative count lengthened the output'),
 ('C15', 'fix: AwkwardForth bit-packed reads of 32 bits or more, or a negative count, gave wrong values', 'nbit reads of >= 32 bits or negative counts gave wrong values'),
 ('C15', 'fix: swapping the bytes of floating point numbers relied on undefined aliasing', 'byteswap of floats type-punned through integer pointers'),
 ('C15', 'fix: calling an AwkwardForth word at the maximum recursion depth wrote past the stack', 'a call at the recursion limit wrote one past the recursion stack'),
 ('C14', 'fix: adding a complex number after integers read and wrote past the ends of ArrayBuilder buffers', 'Complex128Builder::fromint64 ran to twice the length'),
 ('C14', 'fix: ArrayBuilder.clear left records, tuples, unions and unfinished lists in an inconsistent state', 'clear() of records, tuples, unions and open lists left lengths, keys and positions inconsistent (out-of-bounds reads in snapshot)'),
 ('C14', "fix: ArrayBuilder 'index' accepted negative positions and checked nested tuples against the outer one", "index(-1) read outside the tuple's fields; nested tuples were bounded by the outer one"),
 ('C14', 'fix: growing buffers by a resize factor of 1 or from an initial size of 0 overran them or never ended', 'initial=0 or resize<=1 wrote past the buffer (ArrayBuilder) or looped forever (Forth outputs)'),
 ('C14', "fix: ArrayBuilder ignored an 'end_record' without 'begin_record' after complex numbers", 'end_record after complex numbers was accepted'),
 ('C04', "fix: nested jagged slices with missing inner lists were not aligned with the array's lists", 'missing inner lists of a two-level jagged index shifted the lists they apply to; list counts were not compared'),
 ('C04', 'fix: jagged slices with missing outer lists were checked against the lists they skip', "a missing outer list in the index was still compared with the array's list"),
 ('C04', 'fix: an index array with missing values was rejected where the dimension before it selects nothing', 'a[0:0, [None, 0]] failed for option-type contents'),
 ("C13", "fix: is_unique of nested lists", "is_unique of a list of lists read outside the innermost buffer"),
 ("C13", "fix: unique and is_unique read outside", "unique of a 2 x 0 array read outside its buffer; is_unique of lists over sliced or reversed numbers looked at other numbers"),
 ("C19", "fix: merging with a virtual array of option", "merging numbers with a virtual array that generates option-type, indexed or union data failed, though the generated array merges"),
 ("C20", "fix: Forms with sizes of 2**31", "a RegularForm of size 2**31 written as JSON could not be read back"),
 ("C17", "fix: a top-level JSON string", "ak.from_json('tru') and ak.from_json('\"abc') returned an empty array"),
 ("C17", "fix: JSON integers from 2**63", "ak.from_json('[18446744073709551615]') returned [-1]"),
 ("C17", "fix: real numbers in JSON", "one in seven random doubles written with all its digits was read as a neighbouring double"),
 ("C17", "fix: unsigned integers of 2**63", "ak.to_json of uint64 2**64 - 1 wrote -1"),
 ("C17", "fix: NaN and infinity were written", "ak.to_json([nan, inf]) wrote [,]"),
 ("C20", "fix: numbers in Form parameters", "a Form with parameter 1.5 was written as JSON with parameter 1; 2**31 was rejected"),
 ("C20", "fix: Forms of dates and time", "a Form of dates with format M8[s] read back from JSON with format M (no unit)"),
 ("C21", "fix: deep copy of Identities", "deep_copy of identities more than one column wide copied only the first length values and read as many too few (the rest was uninitialised memory)"),
 ("C21", "fix: slicing a RegularArray kept", "getitem_range of a RegularArray with identities kept the identities of the whole array, so elements got their neighbours' identities"),
 ("C16", "fix: LayoutBuilder rejected every Form with a ListArray", "every Form with a ListArray was rejected (the error text was not valid Forth)"),
 ("C16", "fix: LayoutBuilder rejected begin_list", "begin_list always raised for a ListArray Form"),
 ("C16", "fix: LayoutBuilder read and wrote outside", "a snapshot of a union with fewer values than kinds read and wrote outside its counters"),
 ("C16", "fix: LayoutBuilder rejected Forms with more than one", "a Form with two option-type or indexed nodes was rejected (both declared the Forth variable 'index')"),
 ("C16", "fix: LayoutBuilder snapshots failed", "snapshots raised for a regular, masked or indexed node over lists (offsets without the first 0)"),
 ("C16", "fix: LayoutBuilder counted the items", "a list of regular lists counted each item as a list: invalid snapshot"),
 ("C16", "fix: LayoutBuilder rejected lists inside masked", "end_list closed the outer list instead of one inside a masked, indexed, option-type or regular node"),
 ("C16", "fix: LayoutBuilder put strings of records", "a string field of a record advanced two fields: values went to the wrong field or were rejected"),
 ("C16", "fix: LayoutBuilder ignored values of unions", "a value appended to a union without a tag was silently dropped"),
]
OPEN = [
 dict(property="C06", harness="h_c06_known_missing_lists", msg="sort differs from the ordered values", what="sorting across the outermost dimension leaves out missing lists: ak.sort([None, [3, 1], [2]], axis=0) is [[2, 1], [3]], without the missing list (tests/test_0074 test_ByteMaskedArray asserts this, so the repair would break the suite)"),
 dict(property="C05", harness="h_c05_known_argmin_depth3", msg="reducing differs from the fold", what="argmin/argmax across two or more levels of lists number the lists that are present, not all: ak.argmin([[[5]], [], [[3]]], axis=0) is [[1]], expected [[2]] (tests/test_0835 test_argmin_argmax asserts the wrong numbering, so it cannot be repaired with the tests unedited)"),
 dict(property="C04", harness="h_c04_known_missing_list", msg="the slice was rejected although every list matches and every index is in range", what="where the array misses a list whose index list is not empty, missing values or deeper lists in the index are taken from the wrong place: ak.Array([None, [0]])[[[None], [0]]] fails instead of giving [None, [0]] (tests/test_0315 test_integerindex_null_more asserts one of the wrong results, [4] for [3, 4][[True, False]], so it cannot be repaired with the tests unedited)"),
 dict(property="C13", harness="h_c13_known_missing_list", msg="index outside its content", what="the same misalignment (see C04) returns an array whose index points outside its content: ak.Array([None, [0]])[[[0], [0]]] with an option-type index"),
 dict(property="C21", harness="h_c21_known_reclong", msg="identities cannot be assigned", what="setidentities() raises for a record array whose fields are longer than itself (RecordArray::setidentities hands each field an Identities of the record's length, which the field rejects); trimming the fields needs RecordArray's const members changed, so it is recorded, not repaired"),
 dict(property="C16", harness="h_c16_known_record_null", msg="the snapshot does not hold the appended values", what="a missing value in a record does not move to the next field, so a list in a later field is lost: Form {x: ?int64, y: [float64]}, null() begin_list() end_list() (LayoutBuilder::null is not handed through the nodes; needs a new method in all of them)"),
 dict(property="C16", harness="h_c16_known_union_list", msg="the snapshot does not pass the validity check", what="tag(1) of a union of numbers and lists is not handed to the union node, so begin_list goes to the numbers and is ignored: invalid snapshot"),
 dict(property="C16", harness="h_c16_known_nested_record", msg="the snapshot does not hold the appended values", what="a record inside a record is left after its first value, so a list in the inner record is lost: Form {x: float64, y: {x: int64, y: [int64]}}"),
]
import sys; sys.path.insert(0, V)
try: from known_more import OPEN2, FIX2; OPEN += OPEN2; FIX += FIX2
except ImportError: pass
out = list(OPEN)
for p, s, w in FIX:
    s = [k for k in log if k.startswith(s)]; assert len(s) == 1, s; s = s[0]
    out.append(dict(property=p, fixed="fixed: property=%s %s %s" % (p, log[s], w)))
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1); print(len(OPEN), len(FIX))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NUMT = "the tests call each operation with one or two hand-picked small operands"
# ---------------------------------------------------------------- numbers
p("A01", "Fixed-width integer arithmetic is exact modulo 2^width",
  "For every fixed-width and pointer-sized integer type, addition, subtraction, multiplication, division, remainder, negation and their wrapping variants return the mathematical result reduced to the type's range (division truncates toward zero, remainder takes the dividend's sign), and the minimum and maximum constants are the true bounds. The in-place forms leave exactly the value the plain form returns, for these types and for byte, char, text, float and complex values too. Dividing by zero panics and never yields a value.",
  ["inputs"], "all operand pairs of every integer type (all 65536 pairs of the 8-bit types enumerated)",
  NUMT + "; wrapping results only differ from naive ones at the edges of the range, per type.",
  ["ops.go", "const.go", "primitive.go"],
  [("arithmetic traits", "ops.go: Add, Sub, Mul, Div, Rem, Neg and *Assign methods"), ("wrapping family", "ops.go: Wrapping* methods"), ("bounds", "const.go")])
p("A02", "Checked arithmetic returns a value exactly when it is representable",
  "For every integer type, each checked operation returns Some of the exact mathematical result when that result is defined and fits the type, and None otherwise (overflow in either direction, division or remainder by zero, minimum divided by minus one). It never returns Some of a wrong value and never panics.",
  ["inputs"], "all operand pairs of every integer type and every checked operation (8-bit pairs enumerated, wider ones boundary-biased)",
  NUMT + "; the overflow boundary has a different shape for each sign combination and width.",
  ["ops.go"], [("overflow predicates", "ops.go: _HasOverflow_*/_HasUnderflow_* methods"), ("checked family", "ops.go: Checked* methods")])
p("A03", "Saturating arithmetic clamps to the nearest bound",
  "For every integer type, each saturating operation returns the exact mathematical result when it fits and otherwise the bound of the type on the side the true result lies.",
  ["inputs"], "all operand pairs of every integer type (8-bit pairs enumerated); division by zero excluded",
  NUMT + "; which bound is right depends on both operands' signs.",
  ["ops.go"], [("saturating family", "ops.go: Saturating* methods")])
p("A04", "Absolute value, distance, sign tests and integer powers are exact",
  "For every integer type, the absolute difference of two values is the exact distance in the unsigned type, absolute value and sign tests agree with the number's sign, and raising to a power equals repeated multiplication modulo 2^width for every exponent.",
  ["inputs"], "all values and pairs of every integer type; exponents from 0 up to large ones",
  "the tests try a handful of small values; the distance overflows the signed type for half of all pairs and is never tried there.",
  ["ops.go"], [("Abs/AbsDiff/IsPositive/IsNegative/Pow", "ops.go")])
p("A05", "128-bit integer arithmetic is exact modulo 2^128",
  "Signed and unsigned 128-bit addition, subtraction, multiplication, division, remainder, negation and absolute value agree with exact integer arithmetic reduced modulo 2^128, including carries and borrows between the halves and the extreme values; division truncates toward zero and dividend = quotient * divisor + remainder. Constructing one from a 64-bit integer keeps its value, sign included.",
  ["inputs"], "all 128-bit operand pairs, sampled with bias to carry boundaries, sparse and dense bit patterns and extremes",
  "the tests use about a dozen values, most of which fit in 64 bits, so inter-word carries and sign extremes are never reached.",
  ["ops.go", "primitive.go", "const.go"], [("I128/U128 arithmetic", "ops.go: I128 and U128 methods"), ("constructors", "primitive.go: U128_FromU64, I128_FromI64, I128_FromU64")])
p("A06", "Shifts multiply and divide by powers of two at every width",
  "For every integer type of 8 to 128 bits and every shift amount from zero to width minus one, shifting left gives the value times 2^amount modulo 2^width, and shifting right gives the floor of the value divided by 2^amount (sign-extending for signed types, zero-filling for unsigned ones).",
  ["inputs"], "all values and all in-range shift amounts of every type (8-bit types enumerated)",
  "the tests only shift 128-bit values by one.",
  ["bitwise.go"], [("Shl/Shr", "bitwise.go")])
p("A07", "Comparison and equality agree and form a total order",
  "For integers of every width, text, byte, char, boolean and non-NaN floating-point values, comparison returns less, equal or greater exactly as the mathematical (for text: bytewise lexicographic) order says, and equality is true exactly when comparison says equal. Pairs compare by first component, then second.",
  ["inputs"], "all pairs of values of every ordered type, with equal-high-word and sign-boundary 128-bit pairs over-represented",
  "the tests compare no 128-bit value and never cross-check equality with ordering.",
  ["cmp.go", "pair.go"], [("Ord", "cmp.go: Cmp methods"), ("Eq", "cmp.go: Eq methods"), ("pair order", "pair.go: Cmp, Eq")])
p("A08", "Decimal rendering and parsing of numbers round-trip exactly",
  "The text of every integer of every width is its exact base-10 numeral, the text of a float parses back to the identical float, booleans, text and bytes render as themselves, and a character as its code point; the display text of each is the same, and its debug text is that text inside the type's name and parentheses. Parsing accepts exactly the decimal numerals that fit the target type and returns their value, and returns an error (never a wrong number, never a panic) for every other text.",
  ["inputs"], "all values of every numeric type, and arbitrary text (near-numerals, out-of-range numerals, signs, garbage) for the parsers",
  "the tests render a few 128-bit constants and parse nothing.",
  ["to_string.go", "string.go"], [("ToString", "to_string.go"), ("parsers", "string.go: ParseI64, ParseU64, ParseF64")])
p("A09", "Floating-point operations match correctly-rounded references",
  "For all 32- and 64-bit floats the arithmetic operators give the IEEE result at the operand's precision, floor, ceiling, rounding, truncation, fractional part, absolute value and square root are exact, and powers, exponentials and logarithms are within a few units in the last place of the true value (a power with a large exponent: within an error proportional to the exponent). Special values (signed zeros, infinities, NaN) follow the usual conventions and every in-place operator equals its plain form.",
  ["inputs"], "all float operands, incl. subnormals, halves, integers near 2^23/2^52, infinities and NaN",
  "the tests use a few values per function, all positive and moderate.",
  ["float.go", "ops.go"], [("float methods", "float.go"), ("operators", "ops.go: F32, F64 methods")])
# ---------------------------------------------------------------- collections
SEQ = "the repository has no test of this collection at all, and a unit test follows one short history"
p("C01", "A vector is a faithful sequence under every history of edits",
  "After any history of pushes, pops, in-range inserts, appends, swaps, retains, sets, fills, reversals, clears and capacity reservations, the vector's length, every indexed read and its contents equal those of an ideal sequence given the same edits, and each call's return value says what it did. Reserving capacity makes that much room and changes neither an element nor the length; out-of-range reads return nothing, and out-of-range writes fail without touching any element.",
  ["histories", "inputs"], "all edit histories over vectors of any size and element type, with in-range and out-of-range indexes",
  SEQ + ".", ["vec.go"], [("Vec", "vec.go: Vec methods")])
p("C02", "Sorting, searching and deduplication are correct on every sequence",
  "Sorting a vector or deque (by natural order or by a comparator, stable or not) leaves a permutation of the same elements in non-decreasing order, and the stable kinds keep equal elements in their original order. Binary search on a sorted sequence returns a position holding an equal element when one exists and nothing otherwise; deduplication keeps exactly the first of each run of equal neighbours, and membership tests agree with element equality.",
  ["inputs", "histories"], "all sequences (random, sorted, reversed, many duplicates, sizes around algorithm thresholds) in any internal layout, with every comparator kind",
  SEQ + "; stability and search need duplicates, and deques need a wrapped internal layout.",
  ["vec.go", "vec_deque.go"], [("sort/search", "vec.go: Sort, SortBy, SortUnstable, SortUnstableBy, BinarySearch, BinarySearchBy, Dedup, DedupByKey, Contains"), ("deque sort/search", "vec_deque.go: same families")])
p("C03", "A double-ended queue is a faithful sequence across wraparound and growth",
  "After any history of pushes and pops at both ends, sets, swaps, retains, deduplications, fills, appends, reservations and clears, the deque's length, front, back, indexed reads, and traversal equal those of an ideal sequence given the same edits, no matter where its contents lie in the internal ring or when it grew or shrank. No element is lost, duplicated or reordered.",
  ["histories"], "all histories that push and pop at both ends, at every ring offset and every growth point",
  SEQ + "; wraparound errors need a particular offset and length together.",
  ["vec_deque.go"], [("ring buffer", "vec_deque.go: PushFront/PushBack/PopFront/PopBack/Append/Retain/Reserve/growth"), ("index mapping", "vec_deque.go: physical index helpers")])
p("C04", "A linked list is a faithful sequence under every history of edits",
  "After any history of pushes and pops at both ends, appends and clears, the list's length, front, back, and contents, read forward or drained from either end, equal those of an ideal sequence given the same edits. Every call returns the element it says it returns; appending moves every element of the other list, in order, and leaves that one empty and usable.",
  ["histories"], "all edit histories, incl. lists emptied and refilled from either end, and appends to and from empty lists",
  SEQ + "; forward and backward links can disagree without any single call showing it.",
  ["linked_list.go"], [("LinkedList", "linked_list.go: LinkedList methods")])
p("C05", "Hash maps and hash sets are faithful under every history of edits",
  "After any history of inserts, overwrites, removals, lookups and clears, a hash map holds exactly the last value written for each present key, a hash set exactly the present members, and each call's return value (old value, whether newly inserted or removed, presence, length) is exact. Iterating keys, values or entries yields each present one exactly once.",
  ["histories", "inputs"], "all edit histories over few hot keys and many cold ones, for several key types",
  "the set tests check set algebra on two or three small sets; no map test exists.",
  ["hash_map.go", "hash_set.go"], [("HashMap", "hash_map.go"), ("HashSet", "hash_set.go")])
p("C06", "An ordered map keeps exactly its entries, in key order, under every history",
  "After any history of inserts, overwrites, removals, lookups and clears, however large the map grows or shrinks, it holds exactly the last value written for each present key, its length is exact, and iterating yields every entry exactly once in strictly ascending key order. Every insert and removal returns the previous value of that very key, or nothing if it was absent.",
  ["histories", "inputs"], "all histories, in ascending, descending, random and hot-key order, crossing every node split, borrow and merge",
  "no test of the ordered map exists; rebalancing bugs need particular multi-level tree shapes reached only by long histories.",
  ["btree_map.go"], [("B-tree insert/split", "btree_map.go: Insert, _InsertNonFull, _SplitChild"), ("B-tree delete/rebalance", "btree_map.go: Remove, borrow/merge helpers"), ("traversal", "btree_map.go: _ToVec and iterators")])
p("C07", "An ordered set keeps exactly its members, in order, under every history",
  "After any history of inserts, removals, membership tests and clears, an ordered set holds exactly its present members, reports truthfully whether each insert or removal changed it, and iterates all members exactly once in strictly ascending order, including when it is empty.",
  ["histories", "inputs"], "all histories over ordered element types, from empty to multi-level sizes and back",
  "the tests build sets of two or three members and never remove or grow past one node.",
  ["btree_set.go", "btree_map.go"], [("BTreeSet", "btree_set.go: BTreeSet methods")])
p("C08", "Set algebra is exact for hash sets and ordered sets",
  "Union, intersection, symmetric difference, subset, superset and disjointness of any two sets, empty ones and a set with itself included, equal those of the mathematical sets, and leave both operands unchanged. The results are independent sets.",
  ["inputs", "histories"], "all pairs of sets (empty, disjoint, nested, overlapping, equal, very different sizes) for both set kinds",
  "each operation is tested on one pair of small overlapping sets; no empty operand is ever used.",
  ["hash_set.go", "btree_set.go"], [("hash set algebra", "hash_set.go: Union, Intersection, SymmetricDifference, IsSubset, IsSuperset, IsDisjoint"), ("ordered set algebra", "btree_set.go: same")])
p("C09", "A binary heap always pops the maximum and conserves its elements",
  "After any interleaving of pushes, pops, appends, reservations and clears, the heap's elements are exactly the multiset of those put in and not yet taken out, its length is exact, and popping always gives a greatest element, so draining it yields non-increasing order and converting it to a sorted vector yields non-decreasing order of the same elements. Appending another heap moves all of its elements and leaves that one empty.",
  ["histories", "inputs"], "all interleavings of heap operations with duplicates, monotone and random priorities",
  "no test of the heap exists.",
  ["binary_heap.go"], [("BinaryHeap", "binary_heap.go: Push, Pop, sift helpers, Append, IntoVec, IntoSortedVec")])
p("C10", "Iterators visit every element once, and adapters act on what remains",
  "For every iterable collection, and a map's keys and values, advancing an iterator yields its elements exactly once in the collection's order and then nothing forever after, and map, filter, fold, reverse and collect applied after some elements were taken act on exactly the remaining ones, in order. Iterating never changes the collection it came from.",
  ["histories", "inputs"], "all collections of any size, any number of elements taken before the adapter, and chains of adapters",
  "the tests never consume part of an iterator before applying an adapter and never call one after its end.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go"],
  [("iterators", "IntoIter, Keys and Values of each collection and the Next, Map, Filter, Fold, Rev, CollectToVec and CollectToLinkedList methods of the iterators they return")])
p("C11", "Clones are equal to and independent of the original",
  "Cloning any cloneable collection or value gives one equal to the original, at every nesting depth, and no later change to either (adding, removing, sorting, clearing, or modifying a nested collection) is visible in the other. A reference taken to a value leads to an equal value. Filling a sequence with a value puts an independent clone of it in every place.",
  ["histories", "inputs"], "all collections, nested collections, and mutation histories after the clone on either side",
  "no test clones anything and then mutates it.",
  ["clone.go", "vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_set.go", "option.go", "pair.go"],
  [("Clone", "clone.go and the Clone methods of each collection"), ("element cloning", "clone.go: castToClone, cloneOf"), ("fill", "vec.go, vec_deque.go: Fill")])
p("C12", "Collection equality is content equality",
  "Two collections compare equal exactly when they hold equal elements (in the same order for sequences, regardless of order for hashed ones), no matter by what history each came to hold them, how much spare capacity they have, or how they are laid out internally. Equality is symmetric, changing any one element makes them unequal, and comparing changes neither.",
  ["histories", "inputs"], "all pairs of collections reached by different histories, incl. nested ones and single-element differences",
  "the tests compare only collections built by the same literal calls.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go", "option.go", "result.go", "pair.go"],
  [("Eq", "Eq methods of each collection")])
p("C13", "Collections render every element, in order, in one unambiguous form",
  "The display text of every iterable collection and pair is its bracketed form listing each element's own text exactly once in the collection's order, separated consistently, and nested collections render recursively. An option or result renders the value it holds inside its own wrapper, a failure renders as its error's text, and the debug text of each agrees with the display text. Rendering works for empty collections and never fails for elements that can render themselves.",
  ["inputs"], "all collections of all renderable element types, nested, empty and singleton",
  "only numbers are rendered in the tests.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go", "option.go", "result.go", "pair.go"],
  [("Display/Debug", "Display, Debug methods of each collection")])
# ---------------------------------------------------------------- option/result/control
p("O01", "Options obey the laws of an optional value",
  "Every optional value is either present with exactly the value it was built from or absent, and each query, extraction, mapping, combination, replacement and taking operation acts as the optional-value algebra says; absent inputs never turn into present outputs of nothing. Callbacks run only when the algebra calls for them, at most once, and extracting from an absent value panics with the given message.",
  ["histories", "inputs"], "all operations on present and absent options, composed in any order",
  "no test covers options.",
  ["option.go"], [("Option", "option.go: Option methods")])
p("O02", "Results obey the laws of a success-or-error value",
  "Every result is either a success carrying exactly its value or a failure carrying exactly its error, and each query, extraction, mapping and combination acts as that algebra says. Callbacks run only on the side they belong to, at most once, and extracting the wrong side panics with the given message or error.",
  ["histories", "inputs"], "all operations on success and failure results, composed in any order (non-nil errors)",
  "no test covers results.",
  ["result.go"], [("Result", "result.go: Result methods")])
p("O03", "A conditional chain selects the first true branch only",
  "A chain of conditions and branch values yields the value of the first branch whose condition is true, or the fallback when none is, however long the chain is. Only the selected branch's value is computed, exactly once.",
  ["programs", "inputs"], "all chains of any length and all truth assignments (all assignments of short chains enumerated)",
  "no test covers conditional chains; the fault needs two true conditions.",
  ["syntax.go"], [("If/ElseIf/Else", "syntax.go")])
p("O04", "Assertions panic exactly when violated and report the given message",
  "A boolean, equality or inequality assertion returns normally when its condition holds and panics when it does not, for every comparable operand type that can render itself; the panic text carries the caller's message with all its arguments filled in. Asserting success of a result or presence never alters it, and panicking helpers always panic.",
  ["inputs"], "all operand pairs of comparable types, with and without messages and arguments",
  "the tests only use passing assertions without messages.",
  ["panic.go"], [("Assert, AssertEq, AssertNe, Panic", "panic.go")])
# ---------------------------------------------------------------- strings / io
p("S01", "Text operations agree with ideal text, byte for byte",
  "For all text, including multi-byte, invalid and empty text, length, emptiness, concatenation, search, replacement, splitting on a non-empty separator, trimming of white space and repetition give exactly what the ideal operation on the byte sequence gives; case change and listing characters give exactly what the ideal operation on the character sequence of valid text gives, and pushing and popping a character add and remove exactly its bytes at the end of any text. Splitting and rejoining restores the original, and only the explicitly in-place operations change the text.",
  ["inputs"], "all text and pattern pairs (empty text, overlapping matches, multi-byte characters, patterns at the ends)",
  "no test covers text operations.",
  ["string.go"], [("String", "string.go: String methods")])
p("S02", "Text encodings convert losslessly or report an error",
  "Turning text into bytes or characters and back is lossless for every text and every character of every plane. Decoding 16-bit units yields exactly the text they encode, and an error exactly when they contain an unpaired surrogate; invalid input never silently yields some other text.",
  ["inputs"], "all 16-bit unit sequences, valid or not (lone, swapped and truncated surrogates), all byte sequences, and all characters",
  "no test covers conversions.",
  ["string.go"], [("StringFromUTF8, StringFromUTF16, IntoBytes, Chars, Push, Pop", "string.go")])
p("F01", "Formatting fills each placeholder with its own argument, in order",
  "Formatting a template replaces each placeholder, left to right, by the display text of the corresponding argument, and copies all other text unchanged, byte for byte, with doubled braces becoming single ones. Text inserted from an argument is never itself interpreted as a template, and every value the library can render is accepted, collections and pairs included.",
  ["inputs"], "all well-formed templates and matching argument lists of all displayable types, incl. arguments whose text looks like a placeholder",
  "no test covers formatting.",
  ["fmt.go"], [("Format", "fmt.go: Format")])
p("F02", "Console output is complete and whole-line; console input reads whole lines",
  "Each print call writes exactly its formatted text to standard output, with exactly one newline for the line form, so lines printed at the same time from several threads come out whole, each once, and in each thread's own order. Reading a line from standard input appends exactly the next line, without its line terminator, to the given text, and loses nothing before or after it, through any number of handles and threads; at the end of input it appends nothing, and while the lock a handle hands out is held no line is read through it.",
  ["schedules", "inputs"], "all texts and all interleavings of concurrent printers; all input line contents and sizes, from pipes delivering arbitrary chunks",
  "no test captures output, and interleaving needs concurrent writers.",
  ["io.go", "fmt.go"], [("Print/Println", "io.go"), ("Stdin.ReadLine", "io.go")])
# ---------------------------------------------------------------- time, threads
p("T01", "Durations convert between units exactly",
  "A duration built from any number of seconds, milliseconds, microseconds or nanoseconds reports exactly that much time in every other unit, whole units rounded toward zero, and its sub-second parts are exactly the remainder below one second. Excess nanoseconds carry into seconds, only the zero duration reports being zero, and an amount that cannot be represented panics instead of wrapping.",
  ["inputs"], "all amounts in all units (64-bit extremes and carry boundaries over-represented)",
  "no test covers durations.",
  ["time.go"], [("Duration", "time.go")])
p("T02", "Sleeping lasts at least the requested time",
  "Sleeping for a duration returns no earlier than that duration after the call, and does not hang or fail for zero or tiny durations; other threads keep running meanwhile.",
  ["inputs", "schedules"], "all durations (tested up to tens of milliseconds), many sleepers at once",
  "no test covers sleeping, and a lower bound must hold under every schedule.",
  ["thread.go", "time.go"], [("Sleep", "thread.go: Sleep")])
p("M01", "A mutex admits one holder at a time and loses no update",
  "At most one thread at a time holds a lock, and every change made to the protected value by a holder is visible to every later holder, under every schedule. A try-lock succeeds only when the lock is free and reports failure rather than blocking; unlocking always lets a waiter proceed.",
  ["schedules", "histories"], "all interleavings of lock, try-lock and unlock among many threads, with injected delays inside and outside the critical section",
  "no test uses a lock from more than one goroutine; exclusion failures need particular interleavings.",
  ["sync.go"], [("Mutex/guard", "sync.go")])
p("M02", "Spawned threads run exactly once and joining waits for their end",
  "A spawned function runs exactly once, spawning never blocks, joining returns only after it has finished with all its effects visible, and the finished test is true only once it has and stays true. Joining works for any number of times, from any thread, before or after the finished test, and a thread that is never joined still ends.",
  ["schedules", "histories"], "all interleavings of spawn, finished-test and join from many threads, in any order and multiplicity",
  "no test spawns a thread.",
  ["thread.go"], [("Spawn/Join/IsFinished", "thread.go")])
p("M03", "An asynchronous task runs exactly once and every await gets its result",
  "An asynchronous task runs exactly once whether or not it is awaited, and every await of it, from any thread and any number of times, returns exactly the value the task produced, after the task has finished. Asynchronous file operations have the same effects and results as their synchronous counterparts.",
  ["schedules", "histories"], "all interleavings of tasks and awaits, incl. repeated, concurrent, late and missing awaits",
  "no test covers the asynchronous package.",
  ["gokio/gokio.go", "gokio/fs.go", "future.go"], [("Async/Await", "gokio/gokio.go"), ("async fs", "gokio/fs.go")])
p("M04", "Read-only use from many threads is race-free and consistent",
  "Any number of threads may read, iterate, render, compare, clone or search the same unchanging collection at once, and each sees exactly its contents; threads working on distinct collections, or on a collection and its clone, never affect each other.",
  ["schedules"], "all interleavings of read-only operations over every collection kind, and of writers on distinct instances",
  "no test is concurrent; a hidden write in a reading path shows only under the race detector or a rare schedule.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go", "binary_heap.go", "fmt.go"],
  [("read paths", "Get/Len/Iter/Display/Eq/Clone methods of each collection")])
# ---------------------------------------------------------------- costs
p("P01", "Operations cost what their documentation says, for every order of the input",
  "Linked-list length, ends, pushes, pops, Append and Clear take constant time; Vec and VecDeque give constant-time indexing and, at their ends, pops and amortised constant-time pushes (capacities change by a factor, also for the heap, however pushes and pops alternate). Sorting makes at most a constant times n log n comparisons on every input order, adversarial ones included; binary search, ordered-map and ordered-set operations and heap pushes and pops make at most a constant times log n comparisons each, whatever the history. Hash-map and hash-set lookups, insertions and removals do not slow down with size, and iterating, cloning, comparing, filtering and combining whole collections takes about linear time. A collection used for long as a queue, stack or cache that holds few elements at any time keeps little memory. The class is promised, not the constant.",
  ["inputs"], "all orders of insertion and of elements, sizes to a hundred thousand, every collection",
  "the tests hold a few elements each; a cost of the wrong class shows only at size, and often only for one input order.",
  ["linked_list.go", "vec.go", "vec_deque.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go", "binary_heap.go"],
  [("documented costs", "linked_list.go: 'should compute in O(1) time' comments; vec.go: type comment"), ("growth", "vec_deque.go: _Grow; vec.go: Push/Reserve"),
   ("balance", "btree_map.go: splitChild, _Fill, _Merge; binary_heap.go: _SiftUp, _SiftDownToBottom"), ("searching and sorting", "vec.go, vec_deque.go: BinarySearch*, Sort*")])
p("P02", "Calls keep nothing and change nothing of the process",
  "When a call returns, successful or not, it has given back what it took: no file descriptor or mapping is left open by any file operation, whatever made it fail, threads started on behalf of a call have ended or end by themselves once their work is done, and repeating any call, with ever new arguments, does not let the memory in use grow. No call changes settings of the process such as the working directory, environment, file mode mask, standard streams or limits.",
  ["inputs", "fault_sequences", "histories"], "all sequences of calls of every part of the library, file operations with every kind of refusal included",
  "the tests call each operation once or twice and look at the result only; what is left behind shows only after many calls or on the failing paths.",
  ["fs.go", "thread.go", "io.go", "sync.go", "gokio/gokio.go", "gokio/fs.go"],
  [("descriptors", "fs.go: Write, Copy, Read, ReadDir"), ("threads", "thread.go: Spawn, Sleep; gokio/gokio.go: Spawn"), ("text and formatting", "io.go: Format, ReadLine; fmt.go")])
# ---------------------------------------------------------------- files
p("D01", "File contents are read, written and copied exactly",
  "Writing a file makes its whole content exactly the given bytes, reading returns exactly the bytes in the file (empty, large and binary ones included), and copying makes an independent file with the same content and permission bits, replacing any previous content. Whenever an operation cannot do that it returns an error, never success with partial or stale content, and a refused copy leaves its destination as it was.",
  ["inputs", "fault_sequences"], "all contents and sizes, sequences of operations over a small set of names, and fault cases (missing, is a directory, no permission, special files, full device)",
  "no test touches files.",
  ["fs.go"], [("Read/ReadToString/Write/Copy", "fs.go")])
p("D02", "Directory operations change exactly what they name",
  "Creating, removing and renaming files and directories and listing a directory have exactly the named effect on the file tree, report success exactly when they had it, and change nothing else; file removal never removes directories and directory removal never removes files. A listing names every entry exactly once, with its true kind and a path that leads to it. All this holds for relative paths, paths over links and paths of any length the system takes.",
  ["histories", "fault_sequences"], "all histories of directory operations over a small tree, with missing, existing, non-empty, wrong-kind and forbidden targets",
  "no test touches directories.",
  ["fs.go"], [("CreateDir/RemoveDir/RemoveFile/Rename/ReadDir", "fs.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))
INT = "the ten fixed-width integer types (I8..I64, ISize, U8..U64, USize)"

p("A01", "Checked integer arithmetic is exact, or None",
  "For every fixed-width integer type and all operands, CheckedAdd, CheckedSub, CheckedMul, CheckedDiv and CheckedRem return Some of the exact mathematical result when that result exists and fits the type, and None otherwise (overflow, zero divisor, and the minimum divided by or modulo -1). They never panic.",
  ["inputs"], "all pairs of operands of "+INT,
  "2^128 operand pairs per 64-bit operation; the tests try a handful, and wrong overflow predicates that agree on those have been in the code.",
  ["ops.go"], [("overflow predicates and guards", "ops.go:_HasOverflow_*, _HasUnderflow_Sub, Checked*")])
p("A02", "Saturating integer arithmetic clamps to the nearer bound",
  "For every fixed-width integer type and all operands, SaturatingAdd, SaturatingSub and SaturatingMul, and SaturatingDiv with a non-zero divisor, return the exact mathematical result when it fits the type, the type's maximum when the exact result is above it and the minimum when it is below it. The exported MIN and MAX values of all integer types, those of 128 bits included, are these bounds.",
  ["inputs"], "all pairs of operands of "+INT,
  "The bound to saturate to depends on the signs of both operands; tests sample few sign combinations.",
  ["ops.go"], [("saturation branches", "ops.go:Saturating*")])
p("A03", "Plain and wrapping integer arithmetic is arithmetic modulo the width",
  "For every fixed-width integer type (and, for the plain operators, bytes and characters) and all operands, Add, Sub, Mul, Neg and the Wrapping forms return the mathematical result reduced modulo 2^width into the type's range, and Div, WrappingDiv and Rem return the truncated quotient and the remainder for every non-zero divisor. No operand order is exchanged and no correction is added.",
  ["inputs"], "all pairs of operands of "+INT,
  "A correction applied only for some operands (as ISize multiplication once had) is invisible to sampled operands.",
  ["ops.go"], [("operators", "ops.go:Add, Sub, Mul, Div, Rem, Neg, Wrapping*")])
p("A04", "Absolute value, absolute difference and sign tests are exact",
  "For all operands of the fixed-width integer types, AbsDiff returns the exact non-negative difference in the unsigned type of the same width, Abs returns the magnitude (wrapping only for the minimum), and IsPositive and IsNegative are true exactly for values above and below zero, the latter three also for the 128-bit signed type.",
  ["inputs"], "all operands", "The subtraction inside overflows for operands far apart and only the conversion makes it exact again: the boundary pairs are not sampled.",
  ["ops.go"], [("sign handling", "ops.go:Abs, AbsDiff, IsPositive, IsNegative")])
p("A05", "Pow is repeated multiplication modulo the width",
  "For every fixed-width integer type, every base and every exponent, Pow returns the exponent-fold product of the base (1 for exponent 0) modulo 2^width, and terminates.",
  ["inputs"], "all bases and all 2^32 exponents", "The recursion depth and the parity pattern depend on the exponent; tests use small exponents.",
  ["ops.go"], [("exponentiation by squaring", "ops.go:Pow")])
p("A06", "Shifts move every bit by the given amount",
  "For every integer type, including the 128-bit ones, Shl and Shr by an amount from 0 to width-1 return the left operand times 2^amount modulo 2^width, respectively its floor quotient by 2^amount (arithmetic for signed types). The amount is the right operand.",
  ["inputs"], "all left operands and all amounts 0..width-1", "Tests shift 128-bit values by 1 only and the narrow types not at all.",
  ["bitwise.go"], [("word shifts and the bits carried between words", "bitwise.go:Shl, Shr")])
p("A07", "128-bit addition, subtraction and negation carry between the words",
  "For all operands of the two 128-bit types, Add and Sub return the mathematical result modulo 2^128, Neg of the signed type returns the additive inverse modulo 2^128, and the conversions from 64-bit integers preserve the value.",
  ["inputs"], "all operands", "Carries and borrows depend on the low words' exact boundary (0, 2^64-1), which sampled operands miss.",
  ["ops.go", "primitive.go"], [("carry and borrow", "ops.go:I128.Add, U128.Add, U128.Sub, I128.Neg"), ("conversions", "primitive.go")])
p("A08", "128-bit multiplication and division are exact",
  "For all operands of the 128-bit types, Mul returns the product modulo 2^128, and Div for a non-zero divisor the quotient truncated toward zero (modulo 2^128); Rem of the unsigned type returns the remainder of that division, and Rem of the signed type has the remainder's magnitude.",
  ["inputs"], "all operands", "Signs, word boundaries and the minimum value interact; tests use small operands.",
  ["ops.go"], [("shift-and-add multiplication", "ops.go:I128.Mul, U128.Mul"), ("division through big integers", "ops.go:Div, Rem")])
p("A09", "Compound assignment agrees with the binary operator",
  "For every numeric type, bytes, characters and strings, AddAssign, SubAssign, MulAssign, DivAssign and RemAssign store into the receiver exactly what the corresponding binary operation returns for the old receiver and the operand (of those the type has), and change nothing else.",
  ["inputs"], "all receivers and operands", "Some fifty near-identical methods, none of which is tested for more than a few operands, most for none.",
  ["ops.go"], [("assignment forms", "ops.go:*Assign")])
p("A10", "Scalar comparison is a total order that agrees with equality",
  "For every scalar type (the integers, 128-bit integers, strings, booleans, bytes, characters; floats for non-NaN values), Cmp returns Less, Equal or Greater exactly as the left operand is mathematically below, equal to or above the right one, and Eq is true exactly when Cmp is Equal (false before true).",
  ["inputs"], "all pairs of values", "A pair of words compared in the wrong order or with the wrong signedness shows only for particular high/low combinations.",
  ["cmp.go"], [("comparison methods", "cmp.go:Cmp, Eq")])
p("A11", "Float methods apply the mathematical function they are named after",
  "Each method of F32 and F64 (Floor, Ceil, Round, Abs, Trunc, Frac, Powi, Powf, Sqrt, Exp, Exp2, Ln, Log with a base, Log2, Log10 and the arithmetic operators) returns the value of the standard-library function or operator of that meaning, applied to the receiver and the arguments in their proper places, converted once to the receiver's type.",
  ["inputs"], "all receivers and arguments", "Tests sample one or two values per method, at which different functions agree.",
  ["float.go", "ops.go"], [("delegation to the math package", "float.go")])
p("C01", "Textual forms carry the whole value",
  "ToString, Display and Debug of every scalar type render the receiver's exact value: no integer is narrowed or changes sign on the way to the decimal formatter, floats and complex numbers are formatted at their own precision, Display gives the same text as ToString (a string displays as itself), and Debug that text, between the type's name and parentheses where the type is named.",
  ["inputs"], "all values of all scalar types", "Narrowing conversions on the way to the formatter change only large values, which no test formats.",
  ["to_string.go", "fmt.go"], [("conversions before formatting", "to_string.go"), ("Display/Debug", "fmt.go")])
p("C02", "String operations work on the whole string and report parse errors",
  "The string type's methods (concatenation, length, emptiness, contains, find, split, trim, replace, case mapping, repeat, push, conversion to and from bytes, characters and UTF-16) return what the standard library defines for exactly the receiver and arguments given. The number parsers return Err exactly when the standard parser of that type's full range rejects the text, and otherwise Ok of the parsed value.",
  ["inputs"], "all strings and arguments", "No test exercises the string type.",
  ["string.go"], [("delegation to strings, strconv, utf16", "string.go")])
p("O01", "Option combinators follow the Option algebra",
  "For every Option and every argument, each query and combinator (IsSome, IsNone, IsSomeAnd, Expect, Unwrap, UnwrapOr, UnwrapOrElse, Map, MapOr, MapOrElse, And, AndThen, Filter, Or, OrElse, Xor, Eq, Clone) returns the Some or None and the payload that the algebra of Some and None defines, and calls a supplied function exactly once, with the payload, in exactly the case where its result is needed. Unwrapping None panics, in Expect with the caller's message.",
  ["inputs"], "all Options, payloads and functions (including functions that panic or have effects)", "There are no tests for Option; the calls that must not happen are invisible to result checks.",
  ["option.go"], [("case analysis on presence", "option.go")])
p("O02", "Option mutators leave the Option in the documented state",
  "Insert, GetOrInsert, GetOrInsertWith, Take and Replace return the documented old value or reference and leave the receiver as documented: the reference returned by the inserting methods is to the Option's own payload, a present payload is kept by the get-or-insert methods (whose function is then not called), Take leaves None, and Replace always leaves Some of the new value.",
  ["inputs", "histories"], "all Options, payloads and functions", "There are no tests for Option.",
  ["option.go"], [("mutators", "option.go:Insert, GetOrInsert, GetOrInsertWith, Take, Replace")])
p("R01", "Result combinators follow the Result algebra",
  "For every Ok or Err result (an Err of a nil error is an Err) and every argument, each query and combinator of Result returns the Ok or Err and the payload or error that the algebra of Ok and Err defines, passes errors through unchanged, and calls a supplied function exactly once, in exactly the case where its result is needed. Unwrapping the wrong variant panics, in Expect and ExpectErr with the caller's message.",
  ["inputs"], "all results, payloads, errors and functions", "There are no tests for Result.",
  ["result.go"], [("case analysis on the variant", "result.go")])
p("S01", "An If chain runs exactly the first branch whose condition holds",
  "A chain of If, any number of ElseIf and an Else runs the function of the first branch whose condition is true, and only that one, exactly once, and returns its value; the Else function runs only when no condition is true.",
  ["inputs", "programs"], "all chains, conditions and branch functions", "There are no tests for the chain.",
  ["syntax.go"], [("carried result", "syntax.go:If, ElseIf, Else")])
p("V01", "Vec element operations are those of a sequence",
  "For every Vec contents and every index in range, Push, Pop, Insert, Append, Clear, Get, Set, Swap, Reserve and the constructors change and report the sequence of elements as a growable sequence does: exactly the addressed positions change, order is kept, lengths are exact, moved-from vectors end empty. Get, Pop and Set signal a missing element by an Option instead of panicking.",
  ["inputs", "histories"], "all contents, lengths, indices and values", "There are no tests for Vec; index arithmetic errors depend on the position relative to the length.",
  ["vec.go"], [("slice manipulation", "vec.go")])
p("V02", "Vec bulk transformations treat every element once and in order",
  "Retain keeps exactly the elements whose predicate is true, Dedup and DedupByKey drop exactly the elements equal (same key) to the last kept one, Reverse mirrors the positions, Fill and FillWith overwrite every position and no other. The supplied function is called once per element in order, and relative order is kept.",
  ["inputs"], "all contents, lengths and functions", "There are no tests for Vec.",
  ["vec.go"], [("loops over the elements", "vec.go:Retain, Dedup, DedupByKey, Reverse, Fill, FillWith")])
p("V03", "Searches and sorts use the element order consistently",
  "For Vec and VecDeque, a binary search that returns an index returns one inside the sequence whose element compares equal, discards only halves that the comparison rules out, stays in bounds and terminates. The sorts hand exactly the whole logical sequence to a sort (stable for the stable forms) whose less-than is true exactly when the comparison of the two compared elements, in that order, is Less; Contains is true exactly when some element equals the value.",
  ["inputs"], "all contents, lengths, targets and comparison functions", "There are no tests for these; off-by-one errors in bisection depend on length and position.",
  ["vec.go", "vec_deque.go"], [("bisection", "vec.go, vec_deque.go:BinarySearch, BinarySearchBy"), ("sort comparators", "vec.go, vec_deque.go:Sort*")])
p("D01", "VecDeque end operations are those of a double-ended queue",
  "For every ring state (any head position, length and capacity, full or wrapped around), PushBack, PushFront, PopBack and PopFront add and remove exactly at their end, keep all other elements in order and return the removed element (None when empty), growing the storage when it is full.",
  ["inputs", "histories"], "all ring layouts reachable by any history", "There are no tests for VecDeque; wrap-around layouts arise only after particular histories.",
  ["vec_deque.go"], [("ring index arithmetic", "vec_deque.go:_WrapAdd, _WrapSub, _ToPhysicalIndex"), ("growth", "vec_deque.go:_Grow, _HandleCapacityIncrease")])
p("D02", "VecDeque positional operations address logical positions",
  "For every ring layout, Get, GetUnchecked, Set, SetUnchecked, Swap, Front, Back and AsSlice read and write the elements at their logical positions, counted from the front, and out-of-range Get and Set report it through the Option without changing anything. Reserve and Clear keep, respectively drop, the logical sequence.",
  ["inputs", "histories"], "all ring layouts, indices and values", "There are no tests for VecDeque.",
  ["vec_deque.go"], [("logical to physical mapping", "vec_deque.go:_ToPhysicalIndex"), ("relocation on growth", "vec_deque.go:_HandleCapacityIncrease")])
p("D03", "VecDeque bulk operations preserve the logical sequence",
  "For every ring layout, Append moves all elements of the other deque to the back in order and leaves it empty, Retain keeps exactly the elements whose predicate is true, Dedup drops exactly the consecutive repeats, Fill and FillWith overwrite every logical position; order is kept and the predicate is called once per element in order.",
  ["inputs", "histories"], "all ring layouts and functions", "There are no tests for VecDeque.",
  ["vec_deque.go"], [("loops over logical positions", "vec_deque.go:Append, Retain, Dedup, Fill, FillWith")])
p("L01", "LinkedList stays a consistent doubly linked list",
  "For every list, PushBack, PushFront, PopBack, PopFront, Append and Clear insert and remove exactly at their end, and keep the list well formed: next and previous links mirror each other, both ends terminate, head and tail are both present or both absent, and the length equals the number of nodes. Front and Back refer to the first and last element; Append leaves the other list empty.",
  ["inputs", "histories"], "all well-formed lists of any length", "There are no tests for LinkedList; a stale back link is visible only to a later operation from the other end.",
  ["linked_list.go"], [("link maintenance", "linked_list.go")])
p("I01", "Iterators yield every remaining element once, in order",
  "For every iterable container, a fresh iterator's Next returns the elements of the container once each, in container order for sequences, then None for ever. Advancing one iterator does not change the container or another iterator.",
  ["inputs", "histories"], "all containers and contents", "Only set iterators are reached, indirectly, by tests.",
  ["iter.go", "vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go"],
  [("cursor position", "Next methods of the iterator types"), ("snapshot of maps and sets", "IntoIter, Keys, Values")])
p("I02", "Iterator adapters process the remaining elements in order",
  "For every iterator, also one that was partly consumed, Map yields the function's results in order, Filter exactly the accepted elements in order, Fold the left fold from the initial value, Rev the remaining elements in reverse, and CollectToVec and CollectToLinkedList the remaining elements in order. The supplied function is called once per remaining element, in order.",
  ["inputs", "histories"], "all iterators, positions and functions", "No test calls an adapter, let alone on a partly consumed iterator.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go"],
  [("adapter loops", "Map, Filter, Fold, Rev, CollectToVec, CollectToLinkedList of the iterator types")])
p("H01", "BinaryHeap keeps the heap order and loses no element",
  "For every BinaryHeap whose elements satisfy the heap order (every parent at least its children), every operation keeps the multiset of elements exact and re-establishes the heap order: Push adds one element, Pop removes and returns a greatest element (None on an empty heap), Append moves all elements and leaves the other heap empty. Length, emptiness and capacity are those of the stored elements, and IntoSortedVec yields all elements in ascending order.",
  ["inputs", "histories"], "all heaps and elements", "There are no tests for BinaryHeap; order errors need particular shapes.",
  ["binary_heap.go"], [("sift up and down", "binary_heap.go:_SiftUp, _SiftDownToBottom"), ("hole", "binary_heap.go:_Hole")])
p("M01", "HashMap operations are those of a finite map",
  "For all maps, keys and values, Insert sets exactly the one key and returns the previous value or None, Remove deletes exactly the one key and returns its value or None, Get and ContainsKey report the current binding of the key, Clear removes all bindings, and Len and IsEmpty count the bindings. IntoIter, Keys and Values enumerate each binding exactly once.",
  ["inputs", "histories"], "all maps, keys and values", "There are no tests for HashMap.",
  ["hash_map.go"], [("map access", "hash_map.go")])
p("M02", "HashSet operations are those of a finite set",
  "For all sets and elements, Insert and Remove report whether the set changed and change exactly the one element, Contains, Get, Len, IsEmpty, Clear and the slice conversions agree with membership, and Union, Intersection, SymmetricDifference, IsSubset, IsSuperset, IsDisjoint and Eq are the set-algebra operations, leaving their operands unchanged.",
  ["inputs", "histories"], "all sets", "Tests use one or two small sets per operation.",
  ["hash_set.go"], [("membership loops", "hash_set.go")])
p("B01", "BTreeMap nodes stay sorted, balanced and complete",
  "Every operation that rearranges the tree (inserting into a node, splitting, borrowing from a sibling, merging, removing from a leaf) moves keys, values and children together: each key keeps its value, nothing is lost, duplicated or read beyond the used part of a node, the order of keys with the children between them is kept, and the counts of used slots match.",
  ["inputs", "histories"], "all nodes within the size bounds of the tree, all positions", "Splitting starts at the twelfth key and borrowing and merging need deep trees and particular removals; the tests insert a few keys.",
  ["btree_map.go"], [("node rearrangement", "btree_map.go:splitChild, _InsertNonFull, _BorrowFromPrev, _BorrowFromNext, _Merge, _RemoveFromLeaf")])
p("B02", "BTreeMap operations are those of an ordered map",
  "Insert replaces the value of a present key, returning the old one, and otherwise adds exactly one binding and counts it; Remove deletes the binding of a present key, returning its value, and otherwise changes nothing; Get and ContainsKey follow the comparison to the child between the neighbouring keys. Traversals visit every used slot and child once in key order.",
  ["inputs", "histories"], "all trees, keys and values", "The tests build trees of one node.",
  ["btree_map.go"], [("descent", "btree_map.go:_Search, _InsertNonFull, _Remove"), ("traversal", "btree_map.go:_ToVec, _ToKeyVec, _ToValueVec")])
p("T01", "BTreeSet operations are those of an ordered set",
  "For all sets, Insert and Remove report whether the set changed, Contains, Len, IsEmpty and Clear agree with membership, iteration is in ascending order, and Union, Intersection, SymmetricDifference, IsSubset, IsSuperset, IsDisjoint and Eq are the set-algebra operations, leaving their operands unchanged.",
  ["inputs", "histories"], "all sets, the empty one included", "Tests use one or two small non-empty sets per operation.",
  ["btree_set.go"], [("membership loops", "btree_set.go")])
p("E01", "Container equality compares all elements, ordering is lexicographic",
  "For Vec, VecDeque, LinkedList, HashMap, BTreeMap and Pair, Eq is true exactly when both sides have the same length (key set) and all corresponding elements are equal by the elements' own equality; Pair compares by key first and by value only for equal keys.",
  ["inputs"], "all pairs of containers", "There are no tests for these.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "btree_map.go", "pair.go"], [("element loops", "Eq, Cmp methods")])
p("K01", "A clone is equal to and independent of the original",
  "Clone of every container, of Pair, Option and Result returns a value holding, position by position (key by key), the clones of the original's elements, in storage that later changes of either side do not share, and leaves the original unchanged. Clone of a scalar is the scalar.",
  ["inputs", "histories"], "all values", "Shared storage shows only after a later mutation.",
  ["clone.go", "vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_set.go", "pair.go", "option.go", "result.go"], [("element-wise cloning", "Clone methods")])
p("X01", "Container text lists every element once, in order",
  "Display of every container consists of the container's opening text, the Display of each element (key and value for maps) once and in iteration order, separated by a comma and a space and by nothing else, and the closing text; Debug gives the same text. Pair, Option and Result show their parts through the parts' own conversions.",
  ["inputs"], "all containers and contents", "No test prints a container.",
  ["vec.go", "vec_deque.go", "linked_list.go", "hash_map.go", "hash_set.go", "btree_map.go", "btree_set.go", "pair.go", "option.go", "result.go"], [("separator handling", "Display methods")])
p("X02", "Format replaces each placeholder by the next argument",
  "Format copies the format text, replaces the n-th {} by the Display of the n-th argument, and turns doubled braces into single ones; Print writes exactly the formatted text to standard output and Println the formatted text and one line break.",
  ["inputs"], "all format strings and arguments", "Only the formats used in assertion messages are reached.",
  ["io.go"], [("brace scanner", "io.go:Format")])
p("F01", "File operations report every failure and release every file",
  "Each file operation returns Err with the operating system's error whenever any step it depends on failed, and Ok only when all of them succeeded; no error is dropped or replaced by success, later steps are not attempted after a failed one, and every file it opened is closed on every path (an error of closing itself may be returned or not).",
  ["fault_sequences", "inputs"], "every step that can fail, in every file operation", "There are no tests for the file operations, and steps rarely fail.",
  ["fs.go"], [("error returns and deferred close", "fs.go")])
p("F02", "File operations act on exactly the paths they are given",
  "Each file operation performs the file-system action it is named after, once, on the path arguments it was given, in their roles (source and destination not exchanged), passes the caller's bytes and returns the file's bytes completely and unchanged, and touches no other path. Copy also gives the destination the source's permission bits, RemoveDir removes only directories and RemoveFile only other files. Directory listings have one entry per directory entry with its name, joined path and type.",
  ["inputs"], "all paths and contents", "There are no tests for the file operations.",
  ["fs.go"], [("calls into os, io", "fs.go")])
p("G01", "Asynchronous file operations equal the synchronous ones",
  "Each asynchronous file operation runs, exactly once and with the same arguments in the same roles, the synchronous operation of the same name, and awaiting it yields that operation's result unchanged. A spawned computation delivers its result to a later Await without needing one: an unawaited future blocks nothing.",
  ["schedules", "inputs"], "all operations, arguments and schedules", "There are no tests for the asynchronous package.",
  ["gokio/fs.go", "gokio/gokio.go"], [("delegation", "gokio/fs.go"), ("result channel", "gokio/gokio.go:Spawn, Await")])
p("Y01", "Threads signal completion after the work, for every observer",
  "A spawned function runs exactly once on its own goroutine; Join returns, and IsFinished becomes true, only after the function returned, and both hold for any number of calls in any order: observing completion does not consume it, and the finished thread waits for nobody.",
  ["schedules", "histories"], "all schedules and all orders of Join and IsFinished", "No test spawns a thread; a consumed completion signal hangs only the second observer.",
  ["thread.go"], [("completion channel", "thread.go:Spawn, Join, IsFinished")])
p("Y02", "The mutex hands out its value only while locked",
  "Lock and a successful TryLock return the reference to the one protected value after acquiring the lock and without releasing it, a failed TryLock returns an error and no reference, and Unlock releases that same lock; reading a line from standard input holds its lock for the whole read and releases it on every path.",
  ["schedules"], "all schedules of callers", "There are no tests for the mutex; races need particular schedules.",
  ["sync.go", "io.go"], [("lock placement", "sync.go:Lock, TryLock, Unlock; io.go:ReadLine")])
p("N01", "ReadLine takes exactly one line off the standard input",
  "ReadLine appends to the buffer exactly the bytes of the input up to the next newline, or up to its end, in order and unchanged, consumes the newline and no byte after it, and keeps what the buffer held; it does so however the reads are divided, with read errors, at the end of the input and for lines of any length, so that successive calls yield successive lines.",
  ["inputs", "schedules"], "all inputs and all ways the system delivers them", "There are no tests that read standard input; short reads and input without a final newline are unusual.",
  ["io.go"], [("byte loop", "io.go:Stdin.ReadLine")])
p("P01", "Assertions panic exactly when they fail, with the caller's message",
  "Assert, AssertEq and AssertNe return normally exactly when the condition (equality, inequality by the operands' own equality) holds and panic otherwise; a message given as either string type appears in the panic formatted with the arguments that follow it. Panic, Todo, Unimplemented and Unreachable always panic with the given message, or the default one.",
  ["inputs"], "all conditions, operands, messages and arguments", "Tests only see assertions that succeed.",
  ["panic.go"], [("condition and message handling", "panic.go")])
p("U01", "Durations are exact and normalised",
  "A Duration built from seconds and nanoseconds, or from milliseconds, microseconds or nanoseconds, stands for exactly that time: its sub-second part is below one second, AsSecs and the Subsec methods truncate, AsMillis, AsMicros and AsNanos return the exact totals in 128 bits, and IsZero is true for the zero duration only. Building one panics only if the seconds overflow. Sleep waits once, for exactly the duration, if that is below 2^63 nanoseconds.",
  ["inputs"], "all arguments", "No test builds a Duration; truncation and unit factors matter for particular values.",
  ["time.go", "thread.go"], [("unit conversion", "time.go"), ("waiting", "thread.go:Sleep")])
p("Z01", "Types implement the traits the library documents for them",
  "A program that uses the library's types through its trait interfaces compiles: each scalar implements the operator, ordering, equality, cloning and text traits of its kind, the containers implement cloning, equality, text and iteration, and all conversions that look a trait up at run time therefore find it. AsRef gives a reference to exactly the receiver's value.",
  ["programs"], "all uses of a documented type through a documented trait", "A missing or mis-typed method fails only in programs that use the trait, at run time when the trait is looked up dynamically.",
  ["ops.go", "cmp.go", "clone.go", "convert.go", "fmt.go", "to_string.go", "iter.go"], [("method sets", "all types")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

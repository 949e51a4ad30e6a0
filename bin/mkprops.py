#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and the rule/level of php/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEQ_RULE = ("A case draws a value kind, builds the collection from a random iterable (array with holes or references, generator, iterator, collection) and runs a random history of operations; "
            "after every operation its result or exception, count, and the views (values, foreach, get, first/last, searches, iterators) are compared with a reference model run beside it. "
            "Distinct non-trivial: distinct (class, full content) states in which the views were compared.")
SEQ_TESTS = "The .phpt files run a few literal sequences of two or three operations per method; the guarantee quantifies over all histories of operations, values, sizes and live iterators, including every growth, shrink, promotion and wrap-around boundary."

def P(id, title, statement, over, text, tests, files, mech, technique, note, rule, observe=None, level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, rule=rule, observe=observe, level=level)

ALLC = ["teds_vector.c", "teds_deque.c", "teds_lowmemoryvector.c", "teds_intvector.c", "teds_bitvector.c", "teds_immutablesequence.c", "teds_stricthashmap.c", "teds_stricthashset.c",
        "teds_stricttreemap.c", "teds_stricttreeset.c", "teds_strictsortedvectormap.c", "teds_strictsortedvectorset.c", "teds_strictheap.c", "teds_cachediterable.c",
        "teds_mutableiterable.c", "teds_immutableiterable.c", "teds_immutablesortedstringset.c", "teds_emptycollection.c", "teds.c"]
TRUST = " Trusts: the PHP 8.3 engine and its own memory manager's callers, the compilers' sanitizers, and the reference models in php/lib. Bounded by the cases run; a silent run is evidence over those histories, not a proof."
ASAN = "random operation histories under ASan+UBSan and a shadow heap monitor, "

PROPS = [
P("C01", "No use of the API corrupts memory or crashes the process",
  "Whatever a script does with the collections and functions of the extension — including user callbacks, destructors, error handlers and iterators that modify or drop the very collection being worked on, nested and self-containing collections, and odd arguments — the process never reads or writes memory it does not own, never reaches undefined behaviour and never crashes. Every call ends by returning, throwing, or a PHP diagnostic, and the collections involved remain usable and self-consistent afterwards.",
  ["programs", "histories", "inputs"], "all programs over all classes and functions, with arbitrary re-entrancy from callbacks, destructors, error handlers and iterators",
  "Tests run without sanitizers and re-enter collections in a handful of places; dangling pointers mostly go unnoticed because the freed block still holds its old content.",
  ALLC, [("state is detached before destructors run", "teds_zval_dtor_range callers, *_clear, *_free_storage"), ("values are copied before user code is called", "teds.c, teds_vector.c map/filter"), ("active iterator lists", "teds_util.h teds_intrusive_dllist")],
  "ASan+UBSan and a poisoning heap monitor over re-entrant random programs", "Random hostile programs over every class and function found by reflection; any sanitizer report, heap monitor report, abort, or inconsistency between count() and iteration afterwards is a violation." + TRUST,
  "A case builds a small world of collections of all classes holding one another and objects whose destructors, callbacks, iterators, comparers and error handlers run further random operations on the same world, and runs a random program over it. Distinct non-trivial: distinct (class, operation, depth of re-entrancy, outcome kind) combinations executed.",
  ["sanitizer reports", "heap monitor reports", "exit status"]),
P("C02", "Nothing leaks: every value is released exactly once",
  "After any history of operations, including failed ones, every value a collection held is released exactly once and no later than when the last user of it is gone: destructors run exactly once, dropping a collection frees its values, and reference cycles through collections and their iterators are reclaimed by the garbage collector. No call leaves memory behind that nothing refers to any more.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations on all classes, with exceptions thrown at any point by callbacks and iterators, and all cycles",
  "The test runner only reports leaks in debug builds of PHP, which is not how it runs here, and the tests exercise few error paths and hardly any cycles.",
  ALLC, [("free_obj and get_gc handlers", "*_free_storage, *_get_gc in every class"), ("error path cleanup", "init_from_traversable, __unserialize, map/filter in every class")],
  "heap block accounting around each program plus destructor ledger", "Every allocation of the process is tracked; a program is run to warm up, run again, everything is dropped, cycles are collected, and blocks still live that were not before are leaks. Destructor counts are compared with objects made." + TRUST,
  "A case is a random program as in C01 (without the aliasing that would keep values alive on purpose), run twice in the same process with the second run measured. Distinct non-trivial: distinct (class, operation, outcome kind) combinations in measured runs.",
  ["live heap blocks before and after", "constructor and destructor counts"]),
P("C03", "Vector behaves exactly like a list of values",
  "Under any history of operations a Vector holds exactly the values a plain list would hold after the same operations, in the same order and with the same identity. Every read, search, conversion and iteration agrees with that list, and operations that cannot be carried out throw the documented exception.",
  ["histories", "inputs"], "all sequences of Vector operations with any values, offsets and sizes", SEQ_TESTS,
  ["teds_vector.c", "teds_vector.h"], [("growth and shrinking of the backing array", "teds_vector.c teds_vector_raise_capacity, teds_vector_shrink_capacity"), ("insertion and removal", "teds_vector.c")],
  ASAN + "online comparison with a list model", "Result of every operation and all views compared with a reference list." + TRUST, SEQ_RULE),
P("C04", "Deque behaves exactly like a double-ended list of values",
  "Under any history of operations a Deque holds exactly the values a plain list would hold after the same operations at either end or in the middle, wherever its storage currently starts. Every read, search, conversion and iteration agrees with that list, and operations that cannot be carried out throw the documented exception.",
  ["histories", "inputs"], "all sequences of Deque operations with any values and offsets, at every rotation and capacity of the ring", SEQ_TESTS,
  ["teds_deque.c", "teds_deque.h"], [("circular buffer addressing and regrowth", "teds_deque.c teds_deque_get_entry_at_offset, teds_deque_raise_capacity"), ("insert and unset moving either side", "teds_deque.c")],
  ASAN + "online comparison with a list model", "Result of every operation and all views compared with a reference list." + TRUST, SEQ_RULE),
P("C05", "LowMemoryVector behaves like a list whatever it stores internally",
  "Under any history of operations a LowMemoryVector holds exactly the values a plain list would hold, with their exact types, no matter which mixture of null, booleans, integers of any width, floats and other values was stored in it and in which order. Changing to a wider internal representation never changes, loses or reorders a value.",
  ["histories", "inputs"], "all sequences of operations with values of all kinds in any order, across every representation change", SEQ_TESTS,
  ["teds_lowmemoryvector.c", "teds_lowmemoryvector.h"], [("type promotion", "teds_lowmemoryvector.c teds_lmv_entries_promote_type_tag and per-type accessors")],
  ASAN + "online comparison with a list model", "Result of every operation and all views compared with a reference list." + TRUST, SEQ_RULE),
P("C06", "IntVector behaves like a list of integers of the full 64-bit range",
  "Under any history of operations an IntVector holds exactly the integers a plain list would hold, over the whole 64-bit range, at whatever width it stores them. Values that are not integers are rejected with a TypeError and leave it as it was.",
  ["histories", "inputs"], "all sequences of operations with any integers, across every width change", SEQ_TESTS,
  ["teds_intvector.c", "teds_intvector.h"], [("width promotion", "teds_intvector.c teds_intvector_entries_promote_type_tag")],
  ASAN + "online comparison with a list model", "Result of every operation and all views compared with a reference list." + TRUST, SEQ_RULE),
P("C07", "BitVector behaves like a list of booleans, also seen as words and bytes",
  "Under any history of operations a BitVector holds exactly the booleans a plain list would hold. The 8, 16, 32 and 64 bit signed and unsigned word reads and writes and the byte string conversions address exactly the bits they are documented to address, and values that are not booleans are rejected with a TypeError.",
  ["histories", "inputs"], "all sequences of operations on any lengths and offsets, all word widths and values", SEQ_TESTS,
  ["teds_bitvector.c", "teds_bitvector.h", "teds_bswap.h"], [("bit addressing", "teds_bitvector.c"), ("word access and byte order", "teds_bitvector.c getInt*/setInt*, teds_bswap.h")],
  ASAN + "online comparison with a list model", "Result of every operation and all views compared with a reference list; word views recomputed from the bits. indexOf()/contains() answer for the opposite value: listed finding, everything else about them is still compared." + TRUST, SEQ_RULE),
P("C08", "Immutable and empty collections never change",
  "What an immutable collection (immutable sequence, immutable iterable, immutable sorted int and string sets, the empty sequence, set and map) shows never changes after it was made, whatever is called on it or done to the values, arrays or iterables it was built from. Every operation that would modify it throws an UnsupportedOperationException (or is otherwise refused with an exception), and constructing or unserializing it a second time is refused.",
  ["histories", "inputs"], "all immutable classes and the empty singletons, all methods and element accesses with any arguments, in any order",
  "The tests call each refused method once, on one small instance; they do not check that no path (array access, references, re-construction, later changes to the source) modifies it.",
  ["teds_immutablesequence.c", "teds_immutableiterable.c", "teds_immutablesortedstringset.c", "teds_intvector.c", "teds_emptycollection.c"],
  [("refusing mutators", "TEDS_THROW_UNSUPPORTEDOPERATIONEXCEPTION uses"), ("initialised-once checks", "*_entries_uninitialized and __construct/__unserialize of each class")],
  ASAN + "full snapshot of every view compared before and after every call", "Every method of every immutable class, found by reflection, and every element access is tried with random arguments; snapshots must stay identical and the outcome must be allowed." + TRUST,
  "A case builds one immutable collection and runs random calls of all its methods (by reflection), array accesses, references into it, changes to its source, re-construction and re-unserialization. Distinct non-trivial: distinct (class, content, operation) triples after which the snapshot was compared."),
P("C09", "StrictHashMap and StrictHashSet are insertion-ordered strict dictionaries",
  "Under any history a StrictHashMap or StrictHashSet holds exactly the keys added and not removed since, told apart by strict identity (with any NAN alike and 0.0 like -0.0), with their latest values and in the order in which they were inserted. Every lookup, size, conversion and iteration agrees, whatever the keys, hash collisions, removals and resizes.",
  ["histories", "inputs"], "all sequences of operations with keys of any type, including arrays, floats and objects, and colliding hashes",
  SEQ_TESTS, ["teds_stricthashmap.c", "teds_stricthashset.c", "teds.c"], [("hash and equality", "teds.c teds_strict_hash, teds_util.h teds_is_identical"), ("bucket chains, holes and rehash", "teds_stricthashmap.c, teds_stricthashset.c")],
  ASAN + "online comparison with an ordered dictionary model", "Result of every operation and all views compared with a reference dictionary." + TRUST, SEQ_RULE),
P("C10", "StrictTreeMap and StrictTreeSet are sorted dictionaries in a balanced tree",
  "Under any history a StrictTreeMap or StrictTreeSet holds exactly the keys added and not removed since, each once, in the order of stable_compare, with their latest values; first, last, removal from either end, lookups and iteration agree with that. The tree stays a valid red-black tree, so its height stays within twice the logarithm of its size.",
  ["histories", "inputs"], "all sequences of insertions, removals, clones and clears with keys of any type",
  SEQ_TESTS, ["teds_stricttreemap.c", "teds_stricttreeset.c"], [("insertion and removal rebalancing", "teds_stricttreemap.c, teds_stricttreeset.c rebalance_after_insertion, remove_node"), ("debug view used by the monitor", "__debugInfo / __dumpTree")],
  ASAN + "online comparison with a sorted dictionary model and red-black invariant checks on the dumped tree", "Result of every operation and all views compared with a reference dictionary; the shape is checked through the debug dump." + TRUST, SEQ_RULE),
P("C11", "StrictSortedVectorMap and StrictSortedVectorSet are sorted dictionaries",
  "Under any history a StrictSortedVectorMap or StrictSortedVectorSet holds exactly the keys added and not removed since, each once, in the order of stable_compare, with their latest values. First, last, removal from either end, lookups, conversions and iteration agree with that.",
  ["histories", "inputs"], "all sequences of operations with keys of any type", SEQ_TESTS,
  ["teds_strictsortedvectormap.c", "teds_strictsortedvectorset.c"], [("sorted search and insertion", "teds_strictsortedvectormap.c, teds_strictsortedvectorset.c *_sorted_search_for_key")],
  ASAN + "online comparison with a sorted dictionary model", "Result of every operation and all views compared with a reference dictionary." + TRUST, SEQ_RULE),
P("C12", "Sorted int and string sets hold each member once, in order",
  "A SortedIntVectorSet, ImmutableSortedIntSet or ImmutableSortedStringSet holds exactly the distinct members it was given (and, where it can change, not removed since), integers in numeric order over the full 64-bit range and strings in byte order. Membership, index, first, last, get, conversions and iteration all agree with that, and members of another type are rejected with a TypeError.",
  ["histories", "inputs"], "all member lists with duplicates in any order, all widths, all histories of the mutable one", SEQ_TESTS,
  ["teds_intvector.c", "teds_immutablesortedstringset.c"], [("sorting and deduplication", "teds_intvector.c, teds_immutablesortedstringset.c"), ("binary search per width", "teds_intvector.c")],
  ASAN + "online comparison with a sorted list model", "Result of every operation and all views compared with a reference sorted list." + TRUST, SEQ_RULE),
P("C13", "Heaps always give out the smallest (largest) value",
  "Under any interleaving of additions, extractions and iteration a StrictMinHeap holds exactly the values added and not extracted, and always gives out one that no other is smaller than by stable_compare; a StrictMaxHeap one that no other is larger than. Nothing is lost or duplicated, and taking from an empty heap throws.",
  ["histories", "inputs"], "all interleavings of add, extract, top, iteration and clear with any values", SEQ_TESTS,
  ["teds_strictheap.c"], [("sift up and down", "teds_strictheap.c teds_strictheap_insert, extract")],
  ASAN + "multiset and ordering monitor", "Every extraction compared with the extreme of a reference multiset." + TRUST, SEQ_RULE),
P("C14", "stable_compare is a total order over all values",
  "stable_compare orders any two PHP values consistently: it is antisymmetric and transitive, never depends on argument order or earlier calls, places values of different types in the documented order of types, compares integers with floats exactly and strings by bytes, and gives zero only for values that are identical (with any NAN alike and 0.0 like -0.0).",
  ["inputs"], "all pairs and triples of values, including the extremes of int and float and nested arrays",
  "The tests compare some tens of pairs of literals.", ["teds.c", "teds_util.h"], [("comparison", "teds.c teds_stable_compare")],
  ASAN + "algebraic laws and a reference order on generated triples", "Laws checked on triples, results compared with an independent reference order." + TRUST,
  "A case draws a pool of related values (near-equal ints and floats, prefixes of strings, nested arrays) and checks the laws and the reference order on all pairs and triples. Distinct non-trivial: distinct pairs compared."),
P("C15", "strict_equals and strict_hash agree with strict identity",
  "strict_equals is an equivalence relation that coincides with === except that any two NANs are alike, and strict_hash gives equal values the same hash however they were built and as long as they live. Values that differ in type or content are never equal; is_same_array_handle is true only for arrays that hold the same content.",
  ["inputs"], "all pairs of values, including nested arrays, references, packed and hash arrays of the same content, and large ints and floats",
  "The tests compare some tens of pairs of literals.", ["teds.c", "teds_util.h"], [("equality and hash", "teds.c teds_strict_hash, teds_util.h teds_is_identical_inline")],
  ASAN + "equivalence laws and a reference equality on generated pairs", "Laws and reference equality on generated pairs built in different ways." + TRUST,
  "A case draws values and rebuilt copies of them (other array layouts, references, non-interned strings) and compares all pairs. Distinct non-trivial: distinct pairs compared."),
P("C16", "CachedIterable is lazy and shows one consistent sequence of pairs",
  "A CachedIterable takes from its source only as many elements as the request at hand needs, takes each of them exactly once and in order, and shows exactly these key-value pairs through every accessor, search, conversion and iterator, including several at a time, at any stage. When the source throws, that exception comes out once, what was read before stays readable and complete views are refused afterwards; when the source itself uses the collection, a further fetch is refused; the source is released when it has ended.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of accessors and iterators over all lazy sources, failing at any element, and re-entrant sources",
  "The tests read a few generators with one accessor at a time and one failing generator.", ["teds_cachediterable.c"], [("lazy fetch", "teds_cachediterable.c teds_cachediterable_entries_lazy_fetch_next"), ("re-entry guard", "is_calling_inner")],
  "online checker over the event log of an instrumented source, under ASan+UBSan", "Every request is compared with a model that knows how much of the source may have been consumed." + TRUST,
  "A case draws pairs, a source kind (generators, iterators, aggregates, arrays), possibly a failing element and a re-entrant source, and runs a random interleaving of accessors, searches, conversions and iterators. Distinct non-trivial: distinct (source kind, size, cached prefix, state, failure point, live iterators).",
  ["event log of the source: rewind, valid, current, key, next per element"]),
P("C17", "ImmutableIterable and MutableIterable keep exactly the given pairs",
  "An ImmutableIterable or MutableIterable holds exactly the key-value pairs it was given, in order, with any types of keys, repeated keys included, whichever way it was built. A MutableIterable changes only as its operations say, and every accessor, search, conversion and iterator agrees with the resulting list of pairs.",
  ["histories", "inputs"], "all ways to build them, all keys and values, all histories of operations", SEQ_TESTS,
  ["teds_mutableiterable.c", "teds_immutableiterable.c"], [("building from iterables and pairs", "teds_mutableiterable.c, teds_immutableiterable.c entries_init_from_*"), ("capacity", "teds_mutableiterable.c")],
  ASAN + "online comparison with a list of pairs", "Result of every operation and all views compared with a reference list of pairs." + TRUST, SEQ_RULE),
P("C18", "Iterators stay correct while the collection is modified",
  "While a collection is modified during iteration, an iterator never skips or repeats an entry that stays in place and was not itself affected: removing the entry it points to, or one before it, does not lose the following ones, appending makes the new entries visible to an iterator that has not ended, and entries it visits are entries the collection holds at that moment. Iteration that is not fed with new entries always ends, and any number of iterators may be live at once.",
  ["histories"], "all interleavings of steps of several iterators with modifications of the collection, for all collections that can change",
  "The tests modify during iteration in a few fixed patterns.", ["teds_vector.c", "teds_deque.c", "teds_lowmemoryvector.c", "teds_intvector.c", "teds_bitvector.c", "teds_stricthashmap.c", "teds_stricthashset.c", "teds_stricttreemap.c", "teds_stricttreeset.c", "teds_strictsortedvectormap.c", "teds_strictsortedvectorset.c", "teds_mutableiterable.c", "teds_util.h"],
  [("active iterator lists and their adjustment", "adjust_iterators_before_remove, adjust_iterators_before_insert in every class"), ("hash iterators across rehash", "teds_stricthashmap.c")],
  "trace checker over the log of iterator visits and modifications, under ASan+UBSan", "The visits of each iterator are checked against the log of modifications (no skip, no repeat, no stale entry, termination)." + TRUST,
  "A case fills a collection with distinct entries, then interleaves steps of up to four iterators and foreach loops with random modifications, and checks each iterator's visits against the modification log. Distinct non-trivial: distinct (class, size, iterator positions, modification) situations."),
P("C19", "Serialized, exported, cloned and JSON forms carry the whole content",
  "Unserializing what serialize() gave, evaluating what var_export() printed, rebuilding from its pairs or values and cloning all yield a collection of the same class with the same content in the same order that behaves the same from then on, and json_encode() gives exactly the encoding of its list of values or pairs. This holds for every class that offers the form (LowMemoryVector prints no content by design, heaps have no JSON form, CachedIterable cannot be cloned), any content including nested collections and references between them, and after any history.",
  ["inputs", "histories"], "all classes and contents, also after histories that leave spare capacity, holes or promoted storage",
  "The tests round-trip one or two literals per class.", ALLC, [("__serialize and __unserialize", "every class"), ("__set_state, get_properties_for, clone handlers", "every class"), ("jsonSerialize", "every class")],
  ASAN + "round trips compared view by view and by lockstep continuation", "Every copy is compared with the original in all views, and original and copy are then driven through the same further operations." + TRUST,
  "A case builds a collection of a random class and history, makes copies by every route and compares all views, then runs the same further operations on both. Distinct non-trivial: distinct (class, content, route) triples compared."),
P("C20", "Unserializing hostile data is safe and never yields a broken object",
  "Whatever bytes are given to unserialize(), and whatever arrays are given to __unserialize() and __set_state() of any class, the result is either a fully working, self-consistent collection that obeys the rules of its class (sorted, unique, of the right element types) or an exception or warning. It never corrupts memory, leaks, crashes or hangs, also when the data refers back to itself or to half-built objects (an array that contains itself may be refused with the error the engine gives for endless nesting).",
  ["inputs"], "all byte strings given to unserialize() and all arrays given to the restoring methods, of every class",
  "The tests give a few malformed literals per class.", ALLC, [("validation in __unserialize and __set_state", "every class"), ("binary formats", "teds_serialize_util.h, teds_intvector.c, teds_bitvector.c, teds_lowmemoryvector.c, teds_immutablesortedstringset.c")],
  "structure-aware mutation of serialized data under ASan+UBSan, leak accounting and class invariant checks", "Mutated and crafted payloads; every accepted object is checked for consistency, its class invariant and usability." + TRUST,
  "A case makes a payload (valid serialization, then mutations of lengths, types, classes, back references, bytes; or crafted arrays for __unserialize/__set_state) and feeds it. Distinct non-trivial: distinct (class, kind of mutation, outcome) with distinct payloads."),
P("C21", "Iterable functions agree with their plain definitions",
  "any, all, none, find, fold, includes_value, unique_values, array_value_first and array_value_last give, for every array or iterable and callback, exactly what the obvious loop over the same iterable would give, call the callback exactly as often and with exactly the values such a loop would, stop as soon as the answer is known, and pass on exceptions at once.",
  ["inputs", "fault_sequences"], "all arrays and Traversables (generators, collections, failing ones) and all callbacks, also ones that throw",
  "The tests call each function with a few literals.", ["teds.c", "teds_interfaces.c"], [("loops over arrays and Traversables", "teds.c")],
  ASAN + "event log of callback and iterator calls compared with a plain PHP loop", "Result and full call log compared with a reference implementation in PHP." + TRUST,
  "A case draws an iterable and a callback (also throwing or mutating) and compares result and event log with the PHP polyfill. Distinct non-trivial: distinct (function, iterable kind, size, callback behaviour, outcome)."),
P("C22", "binary_search finds the documented position in every sorted array",
  "For every array sorted by the comparison in use and every target, binary_search returns the key and value of a matching entry and found=true when one exists, and otherwise found=false with the greatest entry that is less than the target, or null when there is none. It makes no more comparisons than the logarithm of the array's size allows and passes on exceptions of the comparison.",
  ["inputs"], "all sorted arrays (packed, hash, with holes, with duplicates), targets and comparison callbacks", "The tests search a few literals.",
  ["teds.c"], [("search over packed and hash arrays with holes", "teds.c binary_search")],
  ASAN + "reference scan on generated arrays", "Result compared with a linear scan, number of comparisons bounded." + TRUST,
  "A case draws a sorted array (any key kinds, holes, duplicates), a comparer and targets present, absent, below and above. Distinct non-trivial: distinct (array layout, size, target position)."),
P("C23", "A failed operation leaves the collection as it was",
  "When an operation on a collection throws — wrong type, offset out of range, refused modification, exception from user code, nothing to remove — the collection and every live iterator of it show exactly what they showed before. The only exception is an operation given several values one after another, which may have stored the valid ones that came before the offending one.",
  ["histories", "fault_sequences", "inputs"], "all operations of all collections that can be made to throw, at any point of their work, after any history",
  "The tests check the exception's message, hardly ever the state after it.", ALLC, [("validate before modify", "offset and type checks at the start of each operation")],
  ASAN + "full snapshot before and after every throwing call", "Every method and element access, with arguments chosen to fail, is preceded and followed by a snapshot of all views and iterators." + TRUST,
  "A case builds a collection after a random history with live iterators and runs calls drawn to fail (bad types, offsets, too large sizes, throwing iterables, callbacks). Distinct non-trivial: distinct (class, operation, exception, content)."),
P("C24", "Running out of memory at any point ends cleanly",
  "When an allocation fails at any point inside any operation, the request ends with the engine's fatal error and an orderly shutdown that touches no freed or foreign memory, whatever state the collections were in at that moment. Sizes beyond what can be represented are refused with an exception or fatal error and never wrap around to a small allocation.",
  ["fault_sequences", "histories", "inputs"], "all operations of all classes, failing at the 1st, 2nd, ... allocation, and all absurd sizes",
  "No test makes an allocation fail.", ALLC, [("allocate before changing state", "every safe_emalloc/safe_erealloc site"), ("capacity limits", "TEDS_MAX_* checks and *_error_noreturn_max_* functions")],
  "allocation fault injection at every index of each operation, under ASan+UBSan", "The n-th allocation of an operation fails the way memory_limit does, for all n, in forked children; the shutdown runs under the sanitizers." + TRUST,
  "A case builds a collection after a random history, picks an operation, and runs it in forked children with the n-th allocation failing for every n until it succeeds. Distinct non-trivial: distinct (class, operation, allocation index) whose failure was injected.", level="fault_enumeration"),
P("C25", "Copies and originals are independent; outside references never alias in",
  "A clone shows what the original showed when it was made, and from then on no change to one is visible in the other, live iterators included. The same holds between a collection and the arrays it was built from or has returned, and for PHP references: a reference to a variable whose value was stored, and writes to elements of nested arrays obtained from a collection, never change what the collection holds.",
  ["histories", "inputs"], "all classes, all ways of copying in and out, all later changes to either side", "The tests clone small instances and look once.",
  ALLC, [("clone handlers", "*_clone, *_copy_ctor"), ("dereferencing on the way in", "ZVAL_COPY_DEREF sites"), ("read_dimension and get_property_ptr handlers", "each class")],
  ASAN + "snapshots of one side compared while the other is changed", "After every change to one side, all views of the other side are compared with the snapshot." + TRUST,
  "A case builds a collection and several relatives (clones, returned arrays, source arrays with references) and changes one at a time, comparing snapshots of all the others. Distinct non-trivial: distinct (class, relation, operation, content)."),
P("C26", "All views of a collection agree and results have their declared types",
  "At any moment count, isEmpty, iteration, values, keys, pairs, array conversion, element access, isset, searches, JSON and debug output (where the class has them) of a collection tell the same story. Every method returns a value of its declared return type or throws, and collections honour the contracts of the interfaces they implement.",
  ["histories", "inputs"], "all classes and methods, after any history, with any arguments", "The tests look at one view at a time.",
  ALLC, [("parallel view implementations", "each class"), ("declared types", "*.stub.php, *_arginfo.h")],
  ASAN + "cross-view consistency and return type monitor driven by reflection", "Views are derived from one another and compared; every return value is matched against reflection's declared type." + TRUST,
  "A case builds a collection after a random history and calls every method (by reflection) with random arguments, checking returned types and cross-view agreement. Distinct non-trivial: distinct (class, method, type of result, content)."),
P("C27", "Memory stays proportional to the content",
  "The memory a collection occupies stays within a small constant factor of what its content needs: compact classes use about the documented number of bytes per element of the width needed; sequences, trees, sorted int sets and pops from sorted vectors and MutableIterable give memory back as elements leave, the others stay within that factor of their largest size since they were last cleared, and churn at a steady size never accumulates; clear and shrinkToFit leave no slack; looking at or copying a collection leaves nothing behind. capacity() is never less than the count and stays within the same factor.",
  ["histories", "inputs"], "all histories of growth and shrinkage of all classes and value ranges", "The tests print a few capacities.",
  ALLC, [("growth and shrink policy", "raise_capacity, shrink_capacity in each class"), ("compact representations", "teds_lowmemoryvector.c, teds_intvector.c, teds_bitvector.c, teds_immutablesortedstringset.c")],
  "heap accounting of every allocation against a bound computed from the content", "All heap bytes held by a collection are read from the allocation monitor after every phase of growth, shrinkage, churn, clearing, copying and looking, and compared with a bound computed from size, width and class." + TRUST,
  "A case grows and shrinks a collection in random phases and measures its heap bytes after each. Distinct non-trivial: distinct (class, kind, size, peak size) measured."),
P("C28", "Operations stay within their documented order of work",
  "Adding or removing at the ends of sequences (at the back; for the double-ended one at both ends) and hash map and set operations take constant time on average, operations on trees and heaps and lookups in sorted collections take logarithmic time, and conversions, clones and iteration take linear time, for every order of insertions and removals. No history makes a sequence of n such operations take quadratic work.",
  ["histories", "inputs"], "all histories, in particular sorted, reversed, alternating and queue-like ones at growing sizes", "The tests use sizes where any complexity passes.",
  ALLC, [("amortised growth", "raise_capacity in each class"), ("balanced tree", "teds_stricttreemap.c, teds_stricttreeset.c"), ("ring buffer", "teds_deque.c"), ("hash table", "teds_stricthashmap.c, teds_stricthashset.c")],
  "executed-block counter in the instrumented extension, compared across doubled sizes and with absolute bounds", "Work is counted in executed basic blocks plus bytes moved, not in time." + TRUST,
  "A case runs a pattern at a size n and at 16n and compares how the work counted grows with the bound for its order. Distinct non-trivial: distinct (class, pattern, size) measured."),
]

FIXED_REASON = "in progress: the check is being built"

def main():
    cj = os.path.join(V, "php", "checks.json")
    d = json.load(open(cj))
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["tests"], "anchors": anchors}, ensure_ascii=False) + "\n")
            i = p["id"]
            if os.path.exists(os.path.join(V, "php", "props", i + ".php")) and i in d:
                d[i]["level"] = p["level"]
                d[i]["rule"] = p["rule"]
                checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                               "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
            else:
                na.append({"property": i, "reason": FIXED_REASON})
    json.dump(d, open(cj, "w"), indent=1)
    m = {"version": 1, "setup_cmd": "python3 bin/vbuild.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the instrumentation is compiled in from /verif/monitor and by sanitizer flags. Shared driver: bin/check.py; replay one case with --seed N --case K."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not yet")

main()

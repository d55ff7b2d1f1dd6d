#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["public API of the crate"],
            "hook_needed": hook,
        },
    })

LEN = {"name": "length", "meaning": "number of initialised elements at the front of the storage", "where": "src/lib.rs GenericVec::len"}
CUR = {"name": "cursor pointers", "meaning": "write_front <= read_front <= read_back <= write_back delimit kept prefix, gap, unread elements, gap, kept tail", "where": "src/iter/raw_cursor.rs RawCursor"}
CAP = {"name": "heap capacity", "meaning": "number of storage slots owned by the heap block", "where": "src/raw/heap/{stable,nightly}.rs"}

p("P01", "Single-element edits behave exactly like an ordinary growable sequence",
  "For every storage kind, pushing, inserting, popping, removing, swap-removing, truncating and clearing, in any order, leave the vector with exactly the elements, order and length that an ordinary growable sequence would have after the same calls. Every call returns the value (or a reference to the very element) that the sequence would return, and a call that is in range and fits the capacity always succeeds.",
  ["histories", "inputs", "configurations"],
  "all operation histories up to the explored depth, from every length/capacity, every index, every storage kind, element sizes and feature configuration",
  "tests/template/*/simple.rs performs one fixed history of about ten calls per storage; indices at both ends, every length against every capacity, growth in the middle of a history and non-Copy elements in every storage are sampled at one point or not at all",
  ["src/lib.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs"],
  [("push/insert/pop/remove/swap_remove and their unchecked cores", "src/lib.rs"), ("truncate/clear", "src/lib.rs")], [LEN])

p("P02", "Array-at-a-time edits equal the same edits done one element at a time",
  "Pushing, inserting, popping or removing a whole array of N elements, in the panicking and in the fallible form, has exactly the effect of the corresponding N single-element edits and returns the elements in order. It succeeds whenever N elements are available or fit, including N equal to the current length, N equal to the remaining room and N equal to zero, and is otherwise refused without any change.",
  ["histories", "inputs", "configurations"],
  "all lengths, capacities, indices and array sizes in the bound, all storages, both element classes (nightly feature)",
  "simple.rs::array_ops uses one history with four array calls, never with N equal to the length, N larger than the length or N = 0",
  ["src/lib.rs"],
  [("push_array/insert_array/pop_array/remove_array, try_ forms and unchecked cores", "src/lib.rs")], [LEN])

p("P03", "Out-of-contract requests are refused and change nothing",
  "A checked operation that is given an index outside the vector, too few elements, or more elements than a fixed-capacity storage can hold is refused in its documented way: the plain form panics, the fallible form reports failure. After the refusal the vector has the same elements in the same order, the same length and the same capacity as before (except that extending from an iterator keeps what was stored before the room ran out, and overwriting from a slice may already have replaced the elements that are overwritten in place), remains fully usable, and any value that was offered is handed back by the fallible form or dropped exactly once by the panicking form.",
  ["inputs", "histories", "configurations"],
  "every checked operation, every argument up to and beyond the boundary (including values near the largest index), every length and capacity in the bound, every storage",
  "the tests contain no out-of-range index and no full-storage insertion except one should_panic doc example; refusal at exactly index == length is never tried",
  ["src/lib.rs", "src/raw/capacity.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/iter/cursor.rs"],
  [("index and length guards in the checked methods", "src/lib.rs"), ("fixed_capacity_reserve_error", "src/raw/capacity.rs"), ("cursor asserts", "src/iter/cursor.rs")], [LEN])

p("P04", "Fallible operations never panic, abort or allocate",
  "The operations documented as guaranteed not to panic, abort or allocate complete normally for every vector state and every argument, and never call the allocator or ask the storage for more room. They succeed exactly when the element or the room they need exists, in which case they act like the panicking form; otherwise they return the offered value, or nothing, and change nothing.",
  ["inputs", "histories", "configurations"],
  "every fallible operation, every index (including far out of range), every length/capacity, every storage and element size, with all allocator calls observed",
  "no test calls a try_ method with an argument it must refuse except one doc example, and none watches the allocator",
  ["src/lib.rs", "src/iter/cursor.rs"],
  [("try_push/try_insert/try_pop/try_remove/try_swap_remove and array forms", "src/lib.rs"), ("try_write_front/try_write_back", "src/iter/cursor.rs")], [LEN])

p("P05", "Every element is dropped or handed out exactly once in every history",
  "Over any history of calls, including partially consumed iterators, cursors, splices, conversions and dropping the vector itself, every element that entered a vector is either moved out to the caller exactly once or dropped exactly once. No element is reachable twice, none is reachable after it was dropped or moved out, and none is lost.",
  ["histories", "configurations"],
  "all mixed operation histories in the bound over all storages with every element individually tracked",
  "the tests compare allocated and freed bytes at the end of a few fixed histories, so a lost and a doubled element of equal size cancel and no partially consumed iterator is covered",
  ["src/lib.rs", "src/iter/raw_cursor.rs", "src/iter/into_iter.rs", "src/iter/drain.rs", "src/iter/drain_filter.rs", "src/iter/splice.rs", "src/extension.rs", "src/impls.rs"],
  [("drop of the vector", "src/lib.rs"), ("cursor finish", "src/iter/raw_cursor.rs"), ("owning iterator drop", "src/iter/into_iter.rs"), ("splice drop", "src/iter/splice.rs")], [LEN, CUR])

p("P06", "A panic in user code leaves the vector valid and loses nothing",
  "If a clone, a generator or predicate closure, a key or equality function, a supplied iterator or an element destructor panics during any operation, the vector is left valid: every element still in it is initialised and no element is ever dropped or handed out twice. Growing by value, by closure or from a slice drops all items added by that call and leaves the vector as it was; a panicking drain filter or retain keeps every element it had not yet removed in its original order. Unless the panic came from a destructor, no element is leaked.",
  ["fault_sequences", "histories", "inputs"],
  "a panic injected at every single callback invocation (and, thorough, every pair) of every operation on every vector state in the bound",
  "no test makes user code panic",
  ["src/lib.rs", "src/extension.rs", "src/slice.rs", "src/iter/drain_filter.rs", "src/iter/raw_cursor.rs", "src/iter/splice.rs", "src/iter/into_iter.rs", "src/iter.rs"],
  [("spare-capacity writer dropped on unwind", "src/extension.rs, src/lib.rs grow_with"), ("SetOnDrop panicking flag", "src/iter/drain_filter.rs"), ("cursor finish on drop", "src/iter/raw_cursor.rs"), ("swap-only dedup", "src/slice.rs")], [LEN, CUR])

p("P07", "Forgetting an iterator or cursor never exposes or double-drops elements",
  "If any borrowing iterator or cursor is leaked instead of dropped, at any point of its consumption, the vector it came from stays valid: everything it still contains is initialised, was an element of the original vector in its original relative order or was written through the cursor, and is dropped exactly once later. Leaking may lose elements but never duplicates one, and the vector can be used normally afterwards.",
  ["histories"],
  "every consumption state of every borrowing iterator and cursor over every range of every vector in the bound, followed by further operations",
  "no test leaks an iterator",
  ["src/iter/raw_cursor.rs", "src/iter/drain.rs", "src/iter/drain_filter.rs", "src/iter/splice.rs", "src/lib.rs"],
  [("length is set to the range start while a cursor exists", "src/iter/raw_cursor.rs RawCursor::new")], [LEN, CUR])

p("P08", "Draining yields the range in order from both ends and closes the gap",
  "Draining a range yields exactly the elements of that range, front to back from the front and back to front from the back, with an exact remaining-length report at every step and nothing after exhaustion. When the iterator is dropped, at whatever point, the whole range is gone from the vector and the elements before and after it remain in order.",
  ["inputs", "histories", "configurations"],
  "every length, every range, every interleaving of front and back steps and every early stop in the bound, for every storage",
  "drain.rs tests two ranges and one full reverse iteration",
  ["src/iter/drain.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("take_front/take_back/finish", "src/iter/raw_cursor.rs"), ("Drain", "src/iter/drain.rs")], [CUR])

p("P09", "Filtered draining and retain keep and yield exactly the right elements",
  "Filtered draining over a range shows every element of the range to the predicate exactly once and yields exactly those for which it returned true, in order from whichever end is being advanced; all others, and everything outside the range, remain in the vector in their original order, including when the iterator is abandoned early and whatever the predicate writes into elements it keeps. Retain keeps exactly the elements its predicate accepts, visiting each once in original order. The reported size bounds always contain the number of elements still to be yielded.",
  ["inputs", "histories", "configurations"],
  "every length, range, predicate outcome pattern, front/back interleaving and stopping point in the bound",
  "drain_filter tests use one predicate over the full range; iteration from the back, sub-ranges and early drops are not covered",
  ["src/iter/drain_filter.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("next/next_back loops", "src/iter/drain_filter.rs"), ("skip_front/skip_back", "src/iter/raw_cursor.rs"), ("retain", "src/lib.rs")], [CUR])

p("P10", "Splicing replaces exactly the range by exactly the replacement sequence",
  "After a splice is dropped, however much of it was consumed from either end, the vector holds the elements before the range, then every element of the replacement iterator in order, then the elements after the range, for replacements shorter than, equal to or longer than the range, including empty ranges at either end and regardless of what size the replacement iterator announces. The splice yields exactly the removed range from both ends with an exact length report, and the replacement iterator is not consumed before the splice is dropped. If a fixed-capacity storage cannot hold the result the splice panics, and prefix, tail and the already stored replacements stay intact.",
  ["inputs", "histories", "configurations"],
  "every length, range, replacement length, announced size, consumption pattern and spare capacity in the bound, every storage, with and without an allocator",
  "splice tests use three fixed cases on 8 elements; empty range at the end of a non-empty vector, replacements longer than the internal buffer, partial consumption and full storages are not covered",
  ["src/iter/splice.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("Splice::drop with its at-the-end, gap-filling and buffered paths", "src/iter/splice.rs"), ("RawCursor::reserve", "src/iter/raw_cursor.rs")], [CUR])

p("P11", "Cursors behave like a gap buffer over the chosen range",
  "For every sequence of taking, dropping, skipping, writing (single or slice) and reserving at the front and back of a cursor, the values returned, the remaining length, the counts and emptiness of unfilled slots at each end, the peeked front and back elements, and finally the vector's contents after the cursor ends are those of a reference gap buffer over the selected range. Elements outside the range are never altered, finishing explicitly more than once has no further effect, and a write succeeds exactly when there is an unfilled slot on that side.",
  ["histories", "inputs", "configurations"],
  "all cursor operation sequences up to the explored depth over all ranges of all vectors in the bound, for every storage",
  "cursor.rs tests exercise three take/skip histories from each end and never write, reserve, peek, count or finish explicitly",
  ["src/iter/cursor.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("Cursor guards", "src/iter/cursor.rs"), ("four-pointer gap arithmetic, finish, reserve", "src/iter/raw_cursor.rs")], [CUR])

p("P12", "The owning iterator yields, skips and releases every element exactly once",
  "Consuming a vector by value yields its elements in order from either end, with skipping ahead, exact remaining length, and shared or mutable views of precisely the not-yet-yielded elements at every step, and stays exhausted once exhausted. Dropping it at any point drops exactly the elements not yielded and releases the storage.",
  ["histories", "configurations"],
  "all sequences of front, back, skip-ahead and view operations with every stopping point on every vector in the bound, every storage",
  "into_iter.rs iterates 8 elements front to back once",
  ["src/iter/into_iter.rs"],
  [("IntoIter next/next_back/nth/as_slice/drop", "src/iter/into_iter.rs")], [LEN])

p("P13", "Fixed-capacity vectors never outgrow or write outside their buffer",
  "A vector over a borrowed slice, an inline buffer or an array has a constant capacity determined by the buffer, never holds more elements than that, accepts elements right up to it, and refuses to go beyond it. No operation ever modifies memory outside the buffer it was given.",
  ["histories", "inputs", "configurations"],
  "all histories in the bound over every fixed storage and every capacity in the bound (all array sizes 0 to 32 for capacity), with guard bytes around every buffer",
  "tests use slices larger than needed, never look at neighbouring memory and only one doc example reaches the limit",
  ["src/raw/slice.rs", "src/raw/uninit.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs", "src/raw/capacity.rs", "src/lib.rs"],
  [("reserve/try_reserve/capacity of fixed storages", "src/raw/slice.rs, src/raw/uninit.rs, src/raw/array/*"), ("constant-capacity shortcut", "src/lib.rs CONST_CAPACITY checks")], [LEN])

p("P14", "Heap storage uses its allocator correctly and grows geometrically",
  "Over every history a heap-backed vector releases every block it obtains exactly once, with the size and alignment it was obtained with, from the allocator it was obtained from; it never asks for a zero-sized block and never releases a block it does not own. Growing keeps all elements, provides at least the capacity needed, never shrinks, and at least doubles the previous capacity so that repeated pushing needs only logarithmically many allocations; operations that fit the current capacity do not allocate.",
  ["histories", "inputs", "configurations"],
  "all histories of growing, shrinking, converting and dropping in the bound for all element sizes and initial capacities, including zero, with every allocator call checked; custom allocators under the nightly feature",
  "the test allocator only compares total bytes at the end of a few histories; capacity zero, zero-size and layout mismatches go unnoticed",
  ["src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/lib.rs", "src/impls.rs"],
  [("Heap::with_capacity/reserve_slow/drop", "src/raw/heap/*.rs"), ("GenericVec::reserve", "src/lib.rs")], [CAP])

p("P15", "Reserving delivers the promised room or refuses, for every magnitude",
  "After a reservation returns normally, or reports success, the capacity is at least the current length plus the requested amount, contents are unchanged and that many elements can be added without further allocation; a request that already fits changes nothing. A request that cannot be met, because the storage is fixed, the sizes overflow or exceed the address space, makes the fallible form return false without panicking and without any change, and makes the infallible form panic or abort rather than return. Creating a vector with a requested capacity obeys the same rule.",
  ["inputs", "configurations"],
  "all combinations of length, capacity and requested amount in the bound, with amounts from zero through the values around every power-of-two and overflow boundary, for all storages including ones whose slot type differs from the element type",
  "no test calls reserve, try_reserve or with_capacity with a boundary value",
  ["src/lib.rs", "src/raw/capacity.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs", "src/raw/zero_sized.rs"],
  [("reserve/try_reserve", "src/lib.rs, src/raw/*"), ("unit conversion", "src/raw/capacity.rs")], [CAP])

p("P16", "Bulk growth appends exactly the requested elements",
  "Growing or resizing by value or by closure, extending from an iterator of values or references, extending from a slice and overwriting from a slice give exactly the contents an ordinary sequence would have, for elements that are plain data and for elements that own resources, in every feature configuration. Existing elements are never altered, generated values appear in the order they were generated, the closure or iterator is consulted exactly the needed number of times, and an iterator's announced size never affects the result.",
  ["inputs", "histories", "configurations"],
  "all lengths, capacities, counts, announced sizes in the bound, every storage, plain and owning element types, all feature configurations",
  "vec_ops.rs::grow grows an empty vector only; resize, grow_with, clone_from and lying size hints are not tested",
  ["src/lib.rs", "src/extension.rs", "src/iter.rs"],
  [("grow/grow_with/resize/resize_with/extend_from_slice/clone_from", "src/lib.rs"), ("specialised and generic extension", "src/extension.rs"), ("Extend/FromIterator", "src/iter.rs")], [LEN])

p("P17", "Splitting, appending and converting move elements without loss or copy",
  "Splitting off a tail, into a new or an existing vector, appending another vector, and converting to another storage move exactly the designated elements, in order, to the end of the destination and leave the source with exactly the rest and its capacity unchanged, for every pair of storage kinds. If the destination cannot hold them the call panics and both vectors keep their elements.",
  ["inputs", "configurations"],
  "every pair of storage kinds, every source and destination length and capacity and every split index in the bound",
  "vec_ops.rs uses one split index with an empty slice destination of exactly fitting size",
  ["src/lib.rs", "src/raw.rs", "src/raw/uninit.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs"],
  [("split_off/split_off_into/append/convert", "src/lib.rs"), ("constant-capacity constructor shortcut", "src/raw/*.rs")], [LEN])

p("P18", "Deduplication keeps the first of each run and nothing else changes",
  "Removing consecutive duplicates, by equality, by key or by a caller-supplied relation, keeps exactly the first element of every run, in order, and drops the others. Each element after the first is compared exactly once, in order, against the last element kept so far, being passed as the first argument with that kept element as the second.",
  ["inputs", "configurations"],
  "all lengths and all outcome patterns of the relation in the bound (including non-transitive ones), every storage",
  "no test calls any dedup method",
  ["src/slice.rs", "src/lib.rs"],
  [("partition_dedup_by", "src/slice.rs"), ("dedup_by/dedup_by_key/dedup", "src/lib.rs")], [LEN])

p("P19", "Vectors of zero-sized elements count and drop exactly",
  "For zero-sized element types every operation, iterator, cursor and conversion behaves as for any other type: lengths, remaining counts and yielded numbers are exact, each element is dropped exactly once, and no operation allocates. The dedicated zero-sized storage occupies a single machine word and never refuses an element, no zero-sized storage refuses an element in the fallible form while reporting room, and lengths never wrap around.",
  ["histories", "inputs", "configurations"],
  "all histories in the bound for every storage holding zero-sized elements, plus lengths at the largest representable values",
  "one test pushes three zero-sized elements and drops the vector",
  ["src/raw/zero_sized.rs", "src/lib.rs", "src/iter/raw_cursor.rs", "src/iter/splice.rs", "src/iter/into_iter.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs", "src/raw/capacity.rs"],
  [("counter-encoded cursor for zero-sized types", "src/iter/raw_cursor.rs"), ("zero-sized branch of splice", "src/iter/splice.rs"), ("ZeroSized storage", "src/raw/zero_sized.rs")], [LEN, CUR])

p("P20", "Range arguments mean what slice ranges mean",
  "Every operation that takes a range accepts exactly the ranges that indexing a slice of the same length accepts, with every combination of inclusive, exclusive and open bounds, and acts on exactly the elements such a slice would contain. Any other range, including inverted ones, ones ending past the vector and ones whose bounds overflow, panics before anything is changed.",
  ["inputs", "configurations"],
  "every pair of bound kinds with every bound value from zero past the length and at the maximum integer, every length in the bound, every range-taking operation",
  "the tests pass five different well-formed ranges and no malformed one",
  ["src/slice.rs", "src/lib.rs", "src/iter/raw_cursor.rs"],
  [("check_range", "src/slice.rs")])

p("P21", "Comparison, hashing, formatting and views agree with the element slice",
  "Equality, ordering, hashing, debug formatting, indexing, borrowing and slice views of a vector give exactly the results of its element slice, whatever storage it or the other operand uses and whatever stale data lies beyond its length. Writes through mutable views are visible in the vector.",
  ["inputs", "configurations"],
  "all pairs of contents over a small value alphabet (including incomparable values) and all storage pairs in the bound, all indices",
  "tests only compare vectors with arrays for equality where they are equal",
  ["src/impls.rs", "src/lib.rs", "src/iter/into_iter.rs"],
  [("trait impls delegating to the slice", "src/impls.rs"), ("Deref/DerefMut", "src/lib.rs")])

p("P22", "Spare-capacity writers and free length setting expose only initialised data",
  "The spare-capacity view always covers exactly the room between length and capacity (for zero-sized elements, at least that); elements pushed into it are dropped with it and leave the vector unchanged unless the view is saved, in which case exactly they are appended in order. For storages over initialised plain data the length may be set to any value up to the capacity and never beyond, starts full when built over existing data, and shrinking and re-growing it re-exposes the data that was there.",
  ["inputs", "histories", "configurations"],
  "every length, capacity and number of spare pushes, every length-setting sequence in the bound, every storage that offers them",
  "one doc example saves two elements; length setting is tried with two values",
  ["src/lib.rs", "src/raw/slice.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs"],
  [("spare_capacity_mut and save_spare!", "src/lib.rs"), ("set_len on StorageInit", "src/lib.rs")], [LEN])

p("P23", "A storage built for one type holds another only where it fits and aligns",
  "When a buffer's own slot type differs from the element type, the capacity is exactly the number of whole elements that fit into the buffer, elements never overlap or leave it, and their addresses are always aligned for the element type. Building a vector over a storage whose alignment is insufficient for the element type is refused in every build configuration.",
  ["configurations", "inputs"],
  "all pairs of slot and element size/alignment in a representative grid, all buffer lengths in the bound, every reinterpreting storage",
  "three doc assertions on capacity; misaligned construction and heap or slice storages of a different slot type are never built",
  ["src/raw/capacity.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/lib.rs"],
  [("capacity unit conversion", "src/raw/capacity.rs"), ("IS_ALIGNED check", "src/lib.rs with_storage/with_align")])

p("P24", "Construction and conversion preserve contents and ownership",
  "Building a vector from literals, a repeated value, an array, a standard vector, an iterator or raw parts, cloning it (afresh or over an existing vector), and turning it back into a standard vector, an array or raw parts preserve exactly the elements, their order and the length. Conversions to and from the standard vector keep the very same allocation and capacity and can be repeated indefinitely; clones are independent and equal.",
  ["inputs", "configurations", "histories"],
  "all lengths and capacities in the bound (including zero), every constructor and conversion, every feature configuration, chains of conversions",
  "no test converts to or from a standard vector or array, clones, or builds from literals other than in a few doc examples",
  ["src/impls.rs", "src/lib.rs", "src/iter.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/raw/uninit.rs"],
  [("From impls", "src/impls.rs"), ("gvec! and count!", "src/lib.rs"), ("into_raw_parts/from_raw_parts", "src/lib.rs, src/raw/heap/*"), ("from_array/into_array", "src/lib.rs")], [LEN])

p("P25", "Everything works over any storage that honours the storage contract",
  "Over a user-defined storage, a boxed or mutably borrowed storage, or an unsized storage behind a reference, every operation gives the same results as over the built-in storages. The vector never writes past the capacity the storage reported, never uses an address from before a successful reservation, asks for more room only when it is needed, and never asks for less than it then uses.",
  ["histories", "configurations"],
  "all histories in the bound over a storage that moves its buffer and destroys the old one at every reservation and grants exactly what is asked, and over boxed, borrowed and unsized forms of the built-in ones",
  "the tests use only the built-in storages directly, in which an address rarely changes",
  ["src/raw.rs", "src/lib.rs", "src/iter/raw_cursor.rs", "src/iter/splice.rs"],
  [("forwarding storage impls", "src/raw.rs"), ("re-reading pointers after reserve", "src/lib.rs, src/iter/raw_cursor.rs")], [LEN, CUR])

p("P26", "Every feature configuration behaves the same",
  "For every history of calls that is available in several feature configurations (with or without an allocator, stable or nightly optimisations, checked or optimised builds), all configurations produce the same observable results: return values, contents, refusals and element drops in the same order (except how far a splice has come when its replacements are refused or its iterator panics, which may depend on whether there is an allocator to collect them in).",
  ["configurations", "histories"],
  "all histories in the bound, run in every feature configuration and build profile and compared pairwise",
  "each configuration runs the same few tests but their behaviours are never compared, and specialised paths are reached with empty vectors only",
  ["src/extension.rs", "src/iter/splice.rs", "src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/raw/array/stable.rs", "src/raw/array/nightly.rs", "src/lib.rs"],
  [("cfg-selected twins of the same operation", "src/extension.rs, src/iter/splice.rs, src/raw/heap/*, src/raw/array/*")])

p("P27", "Allocation failure is reported, never papered over",
  "If the allocator refuses a request at any point of a history, the fallible reservation returns false, the vector keeps its elements, length and capacity and remains usable, and the old block is still owned and later released exactly once. An operation that needs the room and has no way to report failure never returns normally.",
  ["fault_sequences", "histories"],
  "a failure injected at every single allocator call (and every pair in the thorough run) of every growing history in the bound",
  "the test allocator never fails",
  ["src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/lib.rs", "src/iter.rs"],
  [("reserve_slow's two failure modes", "src/raw/heap/*.rs")], [CAP])

p("P28", "No sequence of safe calls causes undefined behaviour",
  "No history of calls to the safe interface, including refused calls, leaked iterators and panicking user code, makes the program read uninitialised, freed or foreign memory, access memory out of bounds or misaligned, release memory wrongly, or leak the memory of a vector that was dropped.",
  ["histories", "fault_sequences"],
  "every history in a small bound covering every safe operation, executed by an interpreter that detects undefined behaviour",
  "tests run natively, where most undefined behaviour is silent",
  ["src/lib.rs", "src/iter/raw_cursor.rs", "src/iter/into_iter.rs", "src/iter/splice.rs", "src/raw/heap/stable.rs", "src/raw/slice.rs", "src/raw/uninit.rs"],
  [("all unsafe blocks behind safe functions", "src/")], [LEN, CUR])

p("P29", "Thread-safety markers never exceed those of the elements",
  "A vector, its iterators and its cursors can be sent to or shared with another thread only if its elements and its storage can.",
  ["programs"],
  "all client programs",
  "this is a fact about which programs type-check; no test tries to compile a program that must be rejected",
  ["src/raw/heap/stable.rs", "src/raw/heap/nightly.rs", "src/raw/slice.rs", "src/raw/uninit.rs", "src/iter/raw_cursor.rs", "src/lib.rs"],
  [("unsafe impl Send/Sync and the element marker field", "src/raw/*, src/iter/raw_cursor.rs, src/lib.rs")])

p("P30", "Every documented feature configuration builds and needs only what it says",
  "The crate builds in each documented feature combination on the toolchains it supports, needs no allocator without the allocator features and no operating system without the standard-library feature, and the operations documented as usable in constants are.",
  ["configurations", "programs"],
  "all feature combinations and client programs",
  "builds of a test binary always link the standard library",
  ["src/lib.rs", "Cargo.toml"],
  [("cfg attributes", "src/lib.rs")])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

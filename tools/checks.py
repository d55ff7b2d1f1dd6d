"""What each check runs: lanes, bounds. Read by run.py and by gen_manifest.py."""
FOUR = ["s-std-rel", "s-alloc-dbg", "n-std-dbg", "n-alloc-rel"]
TWO = ["s-std-dbg", "n-alloc-rel"]
NIGHTLY = ["n-std-dbg", "n-alloc-rel"]

CHECKS = {}

def c(id, bounds, lanes=FOUR, **kw):
    CHECKS[id] = dict(bounds=bounds, lanes=lanes, **kw)

c("P01", "every single edit on every storage kind for lengths up to 17; every history of 2 edits from lengths up to 4 and of 3 edits from lengths up to 3, over owned, zero-sized and plain elements; single edits at the telling indices of 33 to 130 elements; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes")
c("P02", "array sizes 0 to 5; every single array operation for lengths up to 7, every index including far outside; every history of 2 from lengths up to 3; 40 at once, 300 and 1030 elements, elements of 1048 bytes; single steps on elements of 1, 2, 4, 8 and 24 bytes", NIGHTLY)
c("P03", "every refused request (index past the end up to usize::MAX, too few elements, too little room up to usize::MAX) on every storage kind for lengths up to 7, every pair of them for lengths up to 3, each followed by a valid operation; refused bulk calls (extend, overwrite, append, splice, split off, spare view), 12 ranges that are not of the vector by 5 calls, and every move of a cursor (pairs of them for lengths 0 and 2); 33 and 65 elements; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices")
c("P04", "every fallible operation with every index up to the length and 7 beyond it, for lengths up to 8, on every storage kind; every pair of them from lengths up to 3; every way to write through a cursor; 33 to 130 elements; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices")

c("P08", "lengths up to 6, every range, every interleaving of steps from both ends (for lengths up to 5 also skipping, counting and folding), ended at every point; lengths 7, 11 and 17 with every range and some steps from both ends; pairs of drains; 20 to 130 elements in jumps; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes")
c("P09", "lengths up to 4, every range, every predicate, with and without writing, every interleaving of steps from both ends, ended at every point; lengths 5 and 6 from the front; retain for lengths up to 8 with every predicate; 20 to 65 elements with periodic predicates; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes")
c("P10", "lengths up to 4, every range, replacements of 0 to 5 elements announced in 5 ways, some taken from both ends; replacements of up to 40 elements; every interleaving of consumption for length 4; pairs of splices; up to 130 elements replaced and inserted; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes", ["s-none-dbg", "s-std-rel", "n-none-rel", "n-std-dbg"])

c("P11", "every operation of a cursor (take, drop, skip and write one or several at either end, reserve, finish, legal or not) in every history of 2 over lengths 0 to 4 and every range, of 3 over plain data of length 2; every history of 4 basic moves; ended after every prefix; 33 to 65 elements with telling amounts; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes")

c("P12", "lengths up to 5, every interleaving of steps from both ends, skips, and ways to consume the rest, on every owned storage kind, with the views looked at and written through at every step; six standard adaptors after every number of steps from both ends; up to 130 elements in jumps; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices")

c("P05", "every history of 2 out of 21 kinds of operation (with 1 to 12 argument choices each) from lengths up to 3, and of 3 from length 1; every single operation with all arguments for lengths up to 5; every operation followed by every way of giving the vector away; drains, splices, filters and cursors advanced in every way, array operations, standard vectors; 40 elements; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices", TWO)

c("P06", "lengths up to 4, every operation that calls user code with its arguments in small ranges, and one panic at every single point where a clone, comparison, closure, iterator, size_hint or destructor is called, with iterators advanced one by one and by skipping at either end, and used up by closures (for_each, rfold, try_fold, find, rfind); 20 and 40 elements (thorough: two panics in histories of 2); 300 and 1030 elements, and elements of 1048 bytes, at the telling indices", ["s-none-dbg", "s-std-rel", "n-std-dbg", "n-alloc-rel"])

c("P07", "lengths up to 4, every range, every iterator and cursor leaked after every sequence of up to 3 steps (for cursors including writes, reserve and finish); for lengths 2 and 3 followed by every kind of operation; always followed by clearing and refilling; cursors after every 2 of 19 kinds of moves; 40 elements; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes")

c("P13", "every fixed-capacity storage with a capacity computed from the buffer alone (0 to 10 elements), from empty, half full, one short and full, every growing operation by 1, one less than, exactly, one more than and 5 more than the room, followed by one more (thorough: every pair); every operation from full and one short; iterators, cursors and arrays; buffers of 33 to 160; elements of 1048 bytes", ["s-none-rel", "n-alloc-dbg"])

c("P23", "8 slot types (sizes 0 to 32, alignments 1 to 32) as slices, inline buffers and heap blocks of 0 to 10 slots, with 5 (thorough: 7) element types (sizes 0 to 32, alignments 1 to 64), built in every way; where aligned, filled exactly to the capacity computed from bytes; where not, refused in every way of building", ["s-std-rel", "s-none-dbg", "n-alloc-rel"])

c("P14", "every history of 2 out of 21 kinds of operation and every single one with all arguments on heap vectors, with every way to give the vector up; every history of 3 exchanges between two vectors with allocators of their own, of 4 conversions to and from standard vectors and parts; growing one by one to 1100 in 10 ways (thorough: 6000), by one from blocks of up to 256 KB in 7; elements of 1048 bytes", ["s-std-rel", "s-alloc-dbg", "n-alloc-dbg"])

c("P15", "about 90 amounts (0 to 9, the room, powers of two up to 2^63, the address space and isize::MAX in bytes and in elements, each plus and minus one and less the length) for reserve, try_reserve, with_capacity, grow, grow_with, resize_with and cursor reserve, on every storage kind with 0 to 3 elements; calls that may abort run in a forked child; 14 storages asked directly")

c("P16", "grow, grow_with, resize, resize_with, extend by values and by references (announced sizes: exact, none, too many, usize::MAX, isize::MAX), extend_from_slice, clone_from by 0 to 9 and 17 elements on every storage kind with 0 to 5 elements, every pair of these by 0 to 3; 17 kinds of standard and library iterators; collecting 0 to 17 elements into 10 storages; 15 to 33 elements at once; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes", ["s-none-dbg", "s-std-rel", "n-alloc-rel", "n-none-dbg"])

c("P17", "split_off, split_off_into, append and convert of 0 to 5 elements at every index (and far outside) from every storage kind to 7 to 13 kinds of destination holding 0 to 2 elements, of sufficient and insufficient room, including all pairs of inline capacities 0 to 6 and 0, 2, 5; each followed by appending back, pushing or removing on both sides; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices", ["s-std-rel", "n-alloc-rel", "s-none-dbg"])

c("P18", "every word of up to 5 (one storage: 6; thorough: 8) letters out of 3, by equality, by key, by a symmetric and by an asymmetric relation, twice in a row; every sequence of answers of the relation for lengths up to 8 (thorough: 12), with and without writing to either argument up to 6, comparing the identity and order of every argument; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices; single steps on elements of 1, 2, 4, 8 and 24 bytes", ["s-std-rel", "n-alloc-rel", "s-none-dbg"])

c("P19", "every single operation with all arguments for lengths up to 4 and every history of 2 from lengths up to 3 over 9 storages of zero-sized elements, with the allocator watched; every way to drive their iterators and cursors for lengths up to 3, arrays, 40 elements; every pair of 25 operations at lengths from usize::MAX - 3 to usize::MAX; owning iterators of that many elements", ["s-std-rel", "n-alloc-dbg"])

c("P20", "for lengths 0 to 4 (thorough: 6) and usize::MAX - 2 to usize::MAX, every pair of open, inclusive and exclusive bounds at 0 to the length plus 2, usize::MAX, usize::MAX - 1, isize::MAX and one more, and all seven range types, for drain (both directions), drain_filter, splice, cursor and raw_cursor; the oracle is computed in 128 bits and checked against slice indexing", ["s-std-rel", "n-alloc-dbg", "s-none-dbg"])

c("P21", "all six comparisons of every pair of words of up to 3 letters (integers, floats with NaN and signed zeros, units) against slices, arrays, standard vectors and vectors over 2 other storages, with stale data beyond the length; hashing, four formats, every view, every index and range (0 to the length plus 2 and near usize::MAX) and a write through each of 10 mutable views for words of up to 3 letters on every storage kind", ["s-std-rel", "n-alloc-dbg"])

c("P22", "every history of 2 calls on a spare view over every storage kind with 0 to 3 elements, dropped, leaked or saved, and two views in a row; over 6 storages of initialised data with capacities 0 to 4, every history of 3 out of setting the length (0 to capacity plus 1, isize::MAX, usize::MAX) and 8 kinds of edits, then regrown to the capacity with every slot compared; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices", ["s-std-rel", "n-alloc-dbg"])

c("P24", "literals of 0 to 17 elements, repeated values of 0 to 6, collecting 0 to 7 with 6 announced sizes, storages made for 0 to 7 elements including plain arrays of every size 0 to 32; clones afresh and over 0 to 3 elements, then edits of either; parts and back twice, every pair of round trips to the standard vector with edits in between; whole arrays of 0 to 8; 300 and 1030 elements, and elements of 1048 bytes, at the telling indices", ["s-std-rel", "n-alloc-dbg", "s-none-dbg"])

c("P25", "every single operation with all arguments for lengths up to 5 and every history of 2 from lengths up to 3 over a user's storage that moves at every reservation, granting exactly what is asked or one more, without a limit or with one 0 to 4 slots beyond its 0 to 3, plain, borrowed and boxed; over a user's inline storage, sized, unsized, borrowed unsized and boxed unsized; over a user's storage of initialised data; over storages the vector makes itself; 300 and 1030 elements", ["s-std-rel", "n-alloc-dbg", "s-none-dbg"])

c("P26", "every history of 2 out of 34 kinds of calls (valid and invalid arguments) on 4 storages from lengths 0, 2, 3, single calls on zero-sized and plain elements, construction; every single call with a panic at every call of user code; heap vectors among the configurations that have them, array operations among the nightly ones; every execution's returned values, contents, refusals, identities, clones and drop order compared between the lanes; 40 to 70 elements at once", ["s-none-dbg", "s-std-rel", "s-alloc-dbg", "n-none-rel", "n-std-dbg", "n-alloc-rel"], compare=True)

c("P27", "heap vectors (plain, boxed, borrowed, of other slots, with an allocator of their own) of 0 to 4 elements, every history of 2 fallible reservations (by 1, one too many, twice, too much) and extensions announced in 4 ways, with a refusal at every one and every pair of allocator calls, then used; 15 calls that cannot report failure and 7 ways to make a vector, with the first, second or third request refused, alone or with all that follow, each in a child process", ["s-std-rel", "n-std-dbg", "n-alloc-rel"])

c("P28", "every safe operation with a few arguments on every storage kind (inline, borrowed, heap, reinterpreted, initialised, zero-sized), with a panic at every point of user code, in Miri; with many arguments, every history of 2 and array operations, under valgrind with unstable features on", [], kind="miri",
  assume=["Miri (without an aliasing model) and valgrind's memcheck report every access they document as invalid",
          "aliasing rules of references are not judged: the crate and Rust's proposed models disagree there"])

NOT_APPLICABLE = {
    "P29": "A statement about which programs type-check (auto traits); there is no execution, schedule or state to enumerate, so model checking does not apply.",
    "P30": "A fact about compiling and linking in given configurations; nothing is executed, so there is no state space to explore.",
}

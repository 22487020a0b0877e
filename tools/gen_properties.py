#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, S, A, U, E = "src/lib.rs", "src/inner/sized.rs", "src/inner/aligned.rs", "src/inner/unaligned.rs", "emplacable/src/lib.rs"
H, VS, VA, M = "src/helper.rs", "src/helper/valid_size.rs", "src/helper/valid_align.rs", "src/marker.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

OFFS = [("end_offset", "offset just past each element, the only record of where elements start and end", f"{A} / {U} ElementInfo"),
        ("metadata remainder", "pointer metadata kept per element when the size does not determine it", f"{H} SplitMetadata"),
        ("byte_capacity, align, elems_info capacity", "the three capacities", f"{A}, {U}")]

p("C01", "A vector behaves as a list of the values put into it",
  "After any sequence of pushes, inserts, pops, removals, extends, in-place mutations, reservations, shrinks and moves between vectors, a vector's length, indexing, get and iteration show exactly the values a plain list would hold, in order, each with its own contents, length or concrete type. A popped or removed value is exactly the value that was at that place, whichever way it is taken out (boxed, put on the stack, reference-counted, put into another vector), and it does not matter by which method (by value, by coercion, or as an emplacable) it had been put in.",
  ["histories", "inputs"], "every operation sequence over sized, slice, string, trait-object and user-defined unsized element types, mixing element sizes (0 to hundreds of bytes) and alignments",
  "tests run a handful of fixed sequences, mostly with push and iterate; insertion or removal in the middle of elements of differing size, padding and alignment, re-alignment with several elements, and combinations of these are never compared to a list",
  [L, S, A, U, H], [("offset bookkeeping on insert/remove", f"{A} {U} insert_unchecked, insert_with_unchecked, remove_into_unchecked"), ("re-alignment of elements in place", f"{U} realign_up, realign_down"), ("push/pop", f"{S} {A} {U} push_unchecked, push_with, pop_into_unchecked")],
  ["len, is_empty, get, get_mut, Index, IndexMut, iter, pop_into, remove_into"], OFFS)

p("C02", "Every value has exactly one owner and is dropped exactly once",
  "Each value moved into a vector is dropped exactly once: by whoever took it out, or by dropping the emplacable returned from a pop or removal, or when the vector is dropped, which drops the remaining values in index order. Forgetting an emplacable forgets the value without running its destructor, and leaking an emplacable before it is consumed leaves the vector as it was. Growing, shrinking, re-aligning, inserting, moving between vectors and converting never drop, duplicate or forget a value.",
  ["histories", "inputs"], "every operation sequence, element type (including zero-sized ones with destructors) and way of consuming the removed value",
  "existing tests hardly use element types with destructors, and none counts drops over sequences of operations",
  [L, S, A, U, H, E], [("drop of the vector", f"{A} {U} Drop"), ("null pointer means drop, no call means forget", f"{A} {U} {S} remove_into_unchecked, pop_into_unchecked"), ("values forgotten after being copied", f"{A} {U} forget_unsized in push_unchecked/insert_unchecked"), ("slice length kept in metadata", f"{H} MetadataFromSize")],
  ["destructor calls of the elements"], OFFS)

p("C03", "Heap discipline: no out-of-bounds access, bad free, or leak",
  "No safe use of a vector reads or writes outside the blocks it has allocated, uses a block after freeing it, asks the allocator for a zero-sized block, or frees or resizes a block with a layout other than the one it was allocated with. When a vector and everything taken out of it are gone, every block it allocated has been freed exactly once.",
  ["histories", "inputs", "configurations"], "every operation sequence, element type and starting capacity/alignment configuration",
  "tests run with the system allocator, which notices none of these; only corruption that happens to change an asserted value is seen",
  [L, S, A, U, VS, VA, M], [("layout recomputed from byte_capacity and align at every grow/shrink/free", f"{A} {U} try_reserve_additional_bytes_align, shrink_capacity_bytes_align_to, Drop"), ("capacity computation before unchecked writes", f"{L} insert, push; {A} {U} push_with, insert_with_unchecked"), ("from_sized takes over a Vec's block", f"{A} {U} from_sized"), ("type alignments", f"{M} Aligned")],
  ["calls to the global allocator; bytes around and in freed blocks"], OFFS)

p("C04", "Elements are placed aligned, disjoint, in order and within capacity",
  "At all times each element lies at an address that satisfies its own alignment, elements occupy disjoint memory in index order inside the vector's block, and slices and strings lie end to end without padding. The used byte length covers exactly the elements (and, for trait objects, padding up to the vector's alignment), is at most the reported byte capacity, which is at most what was allocated, and the reported alignment is never less than that of any element.",
  ["histories", "inputs", "configurations"], "every operation sequence and starting configuration, for every mix of element sizes and alignments",
  "tests check values, not addresses; a misplaced element usually still reads back correctly on x86",
  [L, S, A, U, VS, VA, M], [("padding of starts to the vector's alignment", f"{U} start_offset_of_unchecked, aligned_byte_len"), ("re-alignment when a more aligned element arrives", f"{U} try_reserve_additional_bytes_align, realign_up"), ("shrinking the alignment", f"{U} shrink_capacity_bytes_align_to, realign_down, max_align_of_elems")],
  ["addresses of elements, byte_len, byte_capacity, capacity, align"], OFFS)

p("C05", "Reserved capacity is honoured: no reallocation within it",
  "A successful reservation, or a constructor given capacities, leaves room for at least the requested elements, bytes and alignment on top of what is in use, and leaves the contents alone. Adding an element that fits in the element capacity, the byte capacity and the alignment performs no heap operation and moves no existing element, whichever method adds it. Creating an empty vector, reading, popping and removing never allocate or change the capacities.",
  ["histories", "inputs", "configurations"], "every reachable vector state, every reservation (elements x bytes x alignment, amortised or exact, fallible or not) and every way of adding or removing an element",
  "no test inspects capacities or counts allocations",
  [L, S, A, U], [("needed bytes computed from unused capacity", f"{L} try_reserve_capacity_bytes_align, unused_byte_cap; {A} {U} push_with, insert_with_unchecked"), ("bytes to elements conversion", f"{S} try_reserve_additional_bytes_align"), ("constructors", f"{L} with_capacity, with_capacity_bytes, with_capacity_bytes_align")],
  ["capacity, byte_capacity, align; calls to the global allocator"], OFFS)

p("C06", "Shrinking obeys its lower bounds and preserves the contents",
  "Shrinking never changes the contents, never drops a capacity below what the elements need or below the given lower bound (unless it was already lower), and never raises one. It does shrink: shrinking to fit leaves no spare element or byte capacity and an alignment no larger than the elements need, and the bounded forms reduce each capacity they govern to its bound while leaving the capacities they do not govern alone.",
  ["histories", "inputs"], "every reachable vector state and every combination of lower bounds",
  "the tests call shrink_to_fit a couple of times on uniform elements and look at values only",
  [L, S, A, U], [("shrink_capacity_bytes_align_to", f"{L}, {S}, {A}, {U}"), ("in-place re-padding to a smaller alignment", f"{U} realign_down")],
  ["capacity, byte_capacity, align, contents"], OFFS)

p("C07", "Growth is amortised: adding n elements costs O(log n) reallocations",
  "Appending n elements one at a time reallocates only a logarithmic number of times, by whichever method they are appended (by value, by coercion, as an emplacable, by inserting, by extending), for every element type, starting capacity, and interleaving with removals. So does extending a standard vector with emplacables a few at a time.",
  ["histories", "configurations"], "every growth history built from cycles of the adding operations and element kinds, from every starting configuration",
  "no test counts allocations or runs long growth histories",
  [L, S, A, U], [("doubling", f"{L} try_reserve_capacity_bytes_align optimist_bytes"), ("emplacing adders reserve for themselves", f"{S} {A} {U} push_with, insert_with_unchecked"), ("extend", f"{L} Extend; {E} Extend for Vec")],
  ["number of allocator calls"], OFFS)

p("C08", "Exact reservations do not over-allocate",
  "The exact reservation methods and the constructors given capacities allocate no speculative extra room: afterwards each capacity is what it was before if that sufficed, and otherwise what was asked for on top of what is in use, up to alignment padding. Asking for what is already available changes nothing and performs no heap operation.",
  ["histories", "inputs", "configurations"], "every reachable vector state and every (elements, bytes, alignment) request",
  "no test inspects capacities after an exact reservation",
  [L, S, A, U], [("exact path", f"{L} try_reserve_exact, try_reserve_exact_capacity_bytes_align"), ("exact byte reservation", f"{S} {A} {U} try_reserve_additional_bytes_align")],
  ["capacity, byte_capacity, allocator calls"], OFFS)

p("C09", "Fallible reservation reports failure and leaves the vector intact",
  "Every fallible reservation either succeeds or returns an error, without panicking or aborting: it returns an error when a requested capacity cannot be represented or the allocator refuses, and otherwise succeeds; the reason an error gives (capacity overflow, or the layout that was refused) is the true one; after an error the vector has its contents, works normally and frees its memory properly. The infallible forms panic on capacity overflow and invoke allocation-error handling on refusal in the same situations; an alignment that is not a power of two is rejected by a panic where alignment matters and ignored where it does not.",
  ["inputs", "histories", "fault_sequences"], "every reachable vector state, every (elements, bytes, alignment) request including the boundaries of usize and isize, and failure of any of the allocator calls made",
  "no test makes the allocator fail or uses boundary sizes",
  [L, S, A, U, VS, VA], [("checked arithmetic and error mapping", f"{L} unwrap_try_reserve_result, to_align; {A} {U} {S} try_reserve_additional_bytes_align; {VS}"), ("retry with the minimum when doubling fails", f"{L} try_reserve_capacity_bytes_align"), ("overflow in re-alignment", f"{U} len_after_realign_up")],
  ["Result / panic of the reservation methods, then the vector's behaviour"], OFFS)

p("C10", "Iterators yield each element once, from both ends, in any call order",
  "For every vector and every interleaving of forward and backward steps and skips, shared and mutable iterators yield references to exactly the elements a double-ended iterator over a list would, each at most once, report the exact remaining length at every point, and stay exhausted once exhausted. Consuming methods (count, last, folds, searches, for_each, collecting, reversed or stepped or skipped adapters) started at any point agree with the list, and writes through a mutable iterator land in the element yielded.",
  ["histories", "inputs"], "every vector contents up to a length and every sequence of iterator calls",
  "tests iterate forwards from the start, plus one or two backward loops; mixed-end and skip-after-advance sequences are not exercised",
  [L, A, U], [("iterator start_offset cursor", f"{A} {U} iter_ref! next, nth, next_back, last"), ("forwarded methods", f"{L} iter_ref!")],
  ["Iterator, DoubleEndedIterator, ExactSizeIterator methods of iter, iter_mut and IntoIterator"],
  [("start_offset", "offset of the next element from the front", f"{A} {U} iterators")])

p("C11", "A panic in caller-supplied code leaves a vector consistent",
  "When code supplied by the caller panics during a vector operation - an emplacable, an emplacer, an element's destructor or clone, or the iterator being extended from - the vector afterwards holds the contents it had either before or after that operation (for extend, some prefix of the additions), no value is dropped twice, handed out twice or exposed uninitialised, and the vector remains fully usable.",
  ["fault_sequences", "histories"], "every reachable vector state, every operation, and a panic at every call the operation makes into caller-supplied code",
  "no test panics in the middle of an operation",
  [L, S, A, U, E], [("shift-back guards", f"{S} {A} {U} insert_with_unchecked ElementShifterBacker"), ("metadata updated only after the emplacer returns", f"{A} {U} remove_into_unchecked, push_with"), ("element dropped through its emplacable", f"{E} Drop for Emplacable")],
  ["contents and drops after catch_unwind"], OFFS)

p("C12", "Out-of-range requests are refused without effect",
  "Reading an index at or past the length yields nothing (get) or panics (indexing), popping an empty vector yields nothing, and inserting past the length or removing at or past it panics; in each case the vector is unchanged and a value that was offered is dropped exactly once. Indices in range, including insertion at the length, are never refused.",
  ["inputs", "histories"], "every reachable vector state and every index from just out of range to usize::MAX",
  "tests use only in-range indices",
  [L], [("bounds checks before unchecked calls", f"{L} get, get_mut, index, insert, insert_with, remove_into, pop_into")],
  ["return value or panic; contents afterwards"], None)

p("C13", "Comparison, hashing, formatting, cloning, serializing act as a list's",
  "Equality, partial and total ordering are element-wise and lexicographic like a slice's, including incomparable elements and prefixes and between vectors of different element types; equal vectors hash equally and the hash depends on every element; debug output and serialization are those of the sequence of elements. A clone is equal, independent and at least as roomy, and the default vector is empty.",
  ["inputs"], "every pair of vectors over small alphabets of sized, slice, string, float and trait-object elements",
  "one derived-trait test at most; no ordering with incomparable elements, prefixes or mixed element types",
  [L], [("trait impls", f"{L} PartialEq, PartialOrd, Ord, Hash, Debug, Clone, Serialize, Default")],
  ["trait methods on UnsizedVec"], None)

p("C14", "Conversions to and from vectors preserve elements",
  "Converting to and from a standard vector keeps elements, order and capacity without moving them; coercing a vector of sized elements to an unsized element type keeps every element at every length and spare capacity, and the result is a fully working vector. Collecting or extending from an iterator of emplacables appends exactly its items in order whatever its size hint says, and the vector macros build the listed elements in order.",
  ["inputs", "histories"], "every length, spare capacity and element layout of the source, every size hint of the iterator, and the operations that follow the conversion",
  "one test coerces one vector; size hints, spare capacity, zero-sized and over-aligned sources are not covered",
  [L, S, A, U], [("from_sized", f"{A} {U}"), ("Extend/FromIterator", f"{L}"), ("macros", f"{L} unsized_vec!, unsize_vec!"), ("From impls", f"{L}")],
  ["From, Into, unsize, collect, extend, unsized_vec!, unsize_vec!, iterator conversions"], None)

p("C15", "An emplacable delivers its value intact to any destination",
  "Whatever an emplacable was made from (a sized value, an array, a borrowed or boxed slice or string, a vector, a list of emplacables, a by-value unsized parameter, a coercion of another emplacable, a removal from a vector) and wherever it is put (box, pinned box, Rc, Arc, vector, string, stack, another emplacable, an unsized vector), the destination ends up with the same contents, length and concrete type, in memory of the right size and alignment. The by-value counterparts (box_new, unsize!, by_value_str! and the like) do the same.",
  ["inputs", "configurations"], "every combination of source, coercion and destination over element types of every alignment class and lengths from empty",
  "tests exercise a few source/destination pairs with one length each, and no borrowed slice of Copy elements or vector with spare capacity",
  [E], [("From impls / IntoEmplacable", f"{E}"), ("specialised slice copy", f"{E} CopyToBuf"), ("coercions", f"{E} Emplacable::unsize, IntoEmplacable<[u8]>"), ("destinations", f"{E} box_new_with, get, From<Emplacable>")],
  ["the value at the destination; the layout and metadata passed to an emplacer"], None)

p("C16", "Emplacables own their value and buffers, and release them exactly once",
  "The value behind an emplacable is dropped exactly once if the emplacable is dropped, never if it is forgotten, and otherwise by its destination. The buffer of a consumed box or vector is freed exactly once with the layout it was allocated with whichever way the emplacable is consumed, a destination allocates at most one block of exactly the value's layout (none for zero-sized values; an Rc or Arc also has the block that holds its counts), and nothing leaks unless it was asked to be forgotten (forgetting a list of emplacables forgets what each of them owns, buffers included).",
  ["inputs", "configurations"], "every combination of source, coercion and way of consuming, including drop and forget",
  "tests do not count drops or allocator calls",
  [E], [("null-pointer protocol", f"{E} Drop for Emplacable, forget, inner closures"), ("deallocation after emplacing", f"{E} IntoEmplacable for Box, Vec"), ("allocation", f"{E} box_new, box_new_with")],
  ["destructor calls, allocator calls"], None)

p("C17", "A panic while emplacing never double-drops or corrupts",
  "When a clone, a destructor, an iterator, an emplacable's own code or a destination panics while a value is being emplaced, collected or dropped, no value is dropped twice or exposed uninitialised, and memory a destination had allocated for a value that was not yet delivered is freed. Values and buffers that were not delivered are at worst leaked; a value already delivered when the emplacable's own code panics may be leaked along with its block.",
  ["fault_sequences", "inputs"], "every source x destination combination and a panic at every call into caller-supplied code",
  "no test panics while emplacing",
  [E], [("deallocation guard", f"{E} box_new_with PointerDeallocer"), ("ManuallyDrop protocol", f"{E} into_fn, from_iter, arrays of emplacables"), ("forget after use", f"{E} with_emplacable_for, box_new")],
  ["destructor calls and allocator calls after catch_unwind"], None)

p("C18", "Allocation failure at any point of any operation is harmless",
  "If any single allocator call made by an operation on a vector fails, the operation either copes (a shrinking operation may keep the old capacity, a growing one may make do with less spare room) or signals allocation failure; where that unwinds, the vector holds its contents from before or after the operation, no value is dropped twice, and later operations and the final drop work normally. Re-alignment that had been started before the failure is undone.",
  ["fault_sequences", "histories"], "every reachable vector state, every operation, and failure of each allocator call it makes",
  "no test makes the allocator fail",
  [L, S, A, U, E], [("undo of re-alignment", f"{U} shrink_capacity_bytes_align_to Realigner"), ("fields updated only after success", f"{A} {U} try_reserve_additional_bytes_align"), ("errors to handle_alloc_error", f"{L} unwrap_try_reserve_result")],
  ["contents, addresses, drops and allocator calls after the failure"], OFFS)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

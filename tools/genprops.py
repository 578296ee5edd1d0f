#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
I = "include/sfl/"
SEQ = [I+x for x in ("vector.hpp","devector.hpp","compact_vector.hpp","small_vector.hpp","static_vector.hpp","segmented_vector.hpp","segmented_devector.hpp")]
HEAPSEQ = [x for x in SEQ if "static" not in x]
SORTED = [I+p+"_flat_"+s+".hpp" for p in ("small","static") for s in ("set","map","multiset","multimap")]
UNORD = [I+p+"_unordered_flat_"+s+".hpp" for p in ("small","static") for s in ("set","map","multiset","multimap")]
ALL = SEQ+SORTED+UNORD
PRIV = [I+"private.hpp"]
SMALL = [x for x in ALL if "small_" in x]
STATIC = [x for x in ALL if "static_" in x]
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Element lifetimes balance on every non-throwing history",
  "In every container, every operation constructs elements only in unoccupied storage, reads, assigns and destroys only live elements, and leaves live exactly the elements of the resulting container; when the last container is gone every constructed element has been destroyed exactly once.  This holds for every size, capacity, position, count and argument allowed by the documented preconditions.",
  ["inputs","histories"], "all sequences of public operations with arguments inside the documented preconditions, all sizes/capacities/positions, all element types meeting the documented requirements",
  "Tests run a handful of sizes and positions under valgrind with one element type; shifting logic (devector alone has about thirty positional cases) depends on the relation between position, count, free space at the front and at the back.",
  ALL+PRIV, [("uninitialized_* / destroy_* / construct_at_a helpers","include/sfl/private.hpp"),("insert_*_n, emplace, erase and grow paths of each container","insert_fill_n, insert_aux*, emplace_exactly_at, erase"),("class invariant first<=last<=end of storage","class data of each container")],
  observe_at=["constructor/destructor calls of the element type"])

p("C02", "A throwing element, comparator or allocator never corrupts or leaks",
  "When any element constructor or assignment, comparison, hash-free equality predicate, iterator operation or allocation throws out of a container operation, the container (and any other container involved) is left valid: its size, storage and live elements agree, it can be destroyed or reused, no element is leaked or destroyed twice and no memory block is leaked or freed twice.",
  ["fault_sequences","inputs"], "every position at which a user-supplied operation or the allocator may throw, in every public operation, for every size, capacity, position and count",
  "No test injects an exception: every catch block and every scope guard of the library is dead code for the test-suite.",
  ALL+PRIV, [("SFL_TRY/SFL_CATCH blocks","include/sfl/private.hpp and all containers"),("make_scope_guard rollbacks","include/sfl/devector.hpp, segmented_devector.hpp"),("bookkeeping order (construct first, then move first_/last_)","all containers")],
  observe_at=["state of the container after the exception","element and allocation balance"])

p("C03", "reserve and shrink_to_fit (front/back) are all-or-nothing",
  "If reserve, reserve_front, reserve_back, shrink_to_fit, shrink_to_fit_front or shrink_to_fit_back of any container exits by an exception and the element type has a noexcept move constructor or is copyable, the call has no effect: same elements with the same values in the same storage, same capacity.  Otherwise the container stays valid.",
  ["fault_sequences","inputs"], "every point at which an allocation or an element operation throws inside those operations; all sizes and capacities; nothrow-movable, copyable-with-throwing-move and move-only element types",
  "The tests never make an element operation or allocation throw, so none of the documented strong guarantees is exercised.",
  [x for x in ALL if "static" not in x]+PRIV, [("uninitialized_move_if_noexcept_a into new storage before touching the old one","include/sfl/private.hpp; reserve/shrink_to_fit of each container"),("catch block deallocating the new storage","reserve/shrink_to_fit")],
  observe_at=["contents, addresses and capacity after the exception"])

p("C04", "Storage is returned once, with its own size, to an equal allocator",
  "Every block of memory a container obtains from its allocator is released exactly once, with the same element count it was requested with and through an allocator that compares equal to the one that produced it, and is never accessed after that.  This holds across copy, move, swap, allocator-extended construction and every setting of the allocator propagation traits, for equal and for unequal allocators.",
  ["inputs","histories","configurations"], "all histories of public operations over containers with equal and unequal stateful allocators and all POCCA/POCMA/POCS/is_always_equal combinations (swap of unequal non-propagating allocators excluded where documented as precondition)",
  "Tests use a few allocators on short scenarios; the branch on allocator equality combined with propagation and with internal/heap storage is sampled, and mismatched sizes or owners are not detected by malloc-based allocators.",
  [x for x in ALL if "static" not in x]+PRIV, [("dtl::allocate / dtl::deallocate","include/sfl/private.hpp"),("assign_copy, assign_move, initialize_move, swap","each container"),("reset of pointers of the moved-from container","assign_move / initialize_move")],
  observe_at=["allocate/deallocate calls on the allocator"])

p("C05", "Allocator, comparator and predicate propagate as documented",
  "A copy-constructed container uses select_on_container_copy_construction of the source allocator, allocator-extended constructors use exactly the given allocator, copy/move assignment and swap replace the allocator if and only if the respective propagation trait says so, and get_allocator always reports the allocator in use.  Copy/move construction, copy/move assignment and swap of the associative containers transfer the comparator or equality predicate of the source, and constructors taking one use the given one.",
  ["inputs","configurations"], "all constructors, assignments and swaps of all allocator-aware and associative containers and all propagation-trait settings",
  "Tests check a few constructors with one stateful allocator; combinations of trait settings with each special member are not enumerated and default comparators are stateless so losing one is invisible.",
  [x for x in ALL if "vector" not in x or "static" not in x], [("initialisation of data_","constructors of each container"),("assign_copy/assign_move/swap","each container")],
  observe_at=["get_allocator(), key_comp(), value_comp(), key_eq()"])

p("C06", "Sequence modifications produce exactly the documented sequence",
  "For every sequence container, after assign, insert, emplace, push/pop, erase, resize, clear, copy, move, swap or construction completes, the element sequence is exactly the one documented (the old elements in their old order with precisely the requested elements added, removed or replaced at the requested place), and a returned iterator designates the documented position.",
  ["inputs","histories"], "all sizes, capacities, amounts of free space at both ends, positions, counts and ranges within the preconditions",
  "Which code path runs depends on the relations between position, count, size and free capacity on either side; tests cover sampled small values of each.",
  SEQ+PRIV, [("insert_fill_n/insert_range/emplace/erase/resize","each sequence container"),("insert_aux and its case analysis","include/sfl/devector.hpp, segmented_devector.hpp"),("copy/move/move_backward/fill helpers","include/sfl/private.hpp")],
  observe_at=["contents read through iterators","returned iterators"])

p("C07", "Arguments that alias the container's own elements are honoured",
  "Where an operation accepts a value by reference (push_back, push_front, emplace*, insert(pos, value), insert(pos, n, value), resize(n, value) and the single-element inserts of the associative containers), passing an lvalue that refers to an element of the same container gives the same result as passing an independent copy of that element.",
  ["inputs"], "every such operation, every aliased element position relative to the insertion position, every combination of size and capacity",
  "Tests pass independent values; only a few aliasing cases exist, none parameterised over position and free capacity.",
  ALL, [("temporary made before elements are shifted","emplace/insert_fill_n in each container"),("new element constructed before the old ones are moved on reallocation","emplace_back, insert_fill_n, resize"),("assign_fill_n treatment of self reference","each container")],
  observe_at=["contents after the call"])

p("C08", "Sorted flat containers stay sorted, and sets and maps stay unique",
  "Given a strict weak order, after any completed operation the elements of every flat_set, flat_map, flat_multiset and flat_multimap are ordered by the comparator, and flat_set and flat_map hold no two equivalent keys; a single-element insertion puts the new element at a position that keeps the order whatever hint is given, reports truthfully whether it inserted, and returns an iterator to the new or the equivalent existing element. try_emplace and operator[] on a map leave their arguments untouched when the key is present.",
  ["inputs","histories"], "all contents, keys (absent, present, smaller, larger), hints, and the presence of free capacity or not; all comparators that are strict weak orders",
  "Correctness depends on the order relation between the key and the neighbours of an arbitrary hint; tests sample integers with std::less.",
  SORTED, [("lower_bound/upper_bound before insertion","insert_aux, emplace_aux, try_emplace_aux"),("hint checks against the neighbouring elements","insert_hint_aux / emplace_hint paths"),("calculate_position_for_insert / insert_exactly_at","small_flat_*.hpp, static_flat_*.hpp")],
  observe_at=["iteration order","result pair/iterator of insert"])

p("C09", "Lookups in sorted flat containers find exactly the equivalent elements",
  "For every flat_set, flat_map, flat_multiset and flat_multimap, find, count, contains, lower_bound, upper_bound, equal_range, at, operator[] and erase(key) agree with the comparator: they return, count or erase precisely the elements equivalent to the key (and end() or nothing when there are none), for the key type and for transparent heterogeneous keys, on const and non-const containers.",
  ["inputs"], "all contents and all keys, present or not, const and non-const overloads, heterogeneous overloads",
  "Tests sample integer keys with the default comparator; const, heterogeneous and boundary lookups are sparsely covered.",
  SORTED, [("lookup members built on std::lower_bound/upper_bound","small_flat_*.hpp, static_flat_*.hpp"),("erase(const K&) through find/equal_range","small_flat_*.hpp, static_flat_*.hpp")],
  observe_at=["returned iterators, counts"])

p("C10", "Unordered flat containers keep keys unique and lookups exact",
  "Given an equivalence predicate, unordered_flat_set and unordered_flat_map never hold two equal keys and insertion reports truthfully whether it inserted, returning an iterator to the new or existing element; find, count, contains, at, operator[] and erase(key) of all unordered flat containers refer to exactly the elements whose key the predicate calls equal, and erasing or inserting never loses or duplicates any other element. try_emplace and operator[] on a map leave their arguments untouched when the key is present.",
  ["inputs","histories"], "all contents, all keys, all positions of the equal element, all hints, erase positions including the last element",
  "Erasure moves the last element into the gap and searches are linear scans over arbitrary positions; tests sample a few positions.",
  UNORD, [("linear find loops with the predicate","find/count/contains/equal_range"),("erase by moving the last element into the hole","erase"),("find before insert","insert_aux/emplace_aux/try_emplace_aux")],
  observe_at=["contents","returned iterators and flags"])

p("C11", "Impossible sizes raise length_error before anything changes",
  "A request that would make the size or capacity of a non-static container exceed max_size() is reported by std::length_error before any storage is allocated and with the container unchanged; no size computation wraps around, and the allocator is never asked for more than max_size() elements or for zero-sized or negative-sized storage to hold elements.",
  ["inputs"], "all counts up to the maximum of size_type, all sizes and capacities",
  "Tests cannot reach sizes near max_size; overflow of size + n or of capacity + capacity/2 needs astronomically large values.",
  [x for x in ALL if "static" not in x]+PRIV, [("check_size_n / calculate_new_capacity","each container"),("throw_length_error","include/sfl/private.hpp")],
  observe_at=["exception type","argument of allocate"])

p("C12", "Checked element access throws out_of_range exactly when it must",
  "at(pos) of every sequence container and at(key) of every map, const and non-const, throw std::out_of_range if and only if pos >= size() or no element has that key, and otherwise return a reference to exactly that element; neither has any other effect.",
  ["inputs"], "all positions up to the maximum of size_type, all keys, const and non-const",
  "Tests try one index on either side of the boundary in a few containers.",
  SEQ+[x for x in ALL if "map" in x]+PRIV, [("at","each sequence container and map"),("throw_out_of_range","include/sfl/private.hpp")],
  observe_at=["exception or returned reference"])

p("C13", "Static containers never allocate; small ones only beyond N",
  "The static_* containers never use dynamic memory for their elements and always hold them inside the object with capacity N.  The small_* containers keep their elements inside the object and perform no allocation as long as no more than N elements have been requested since construction, and a request for more than the current capacity moves them to heap storage from which shrink_to_fit brings them back when they fit into N.",
  ["inputs","histories"], "all N including 0 for small containers, all operation histories",
  "Tests use a few N and do not observe the allocator on each operation.",
  SMALL+STATIC, [("internal_storage()","small_*.hpp"),("allocate only when the requested capacity exceeds N","reserve/insert/initialize paths of small_*.hpp"),("absence of allocation in static_*.hpp","static_*.hpp")],
  observe_at=["allocate calls","address range of the elements"])

p("C14", "Documented preconditions are asserted in debug builds",
  "In a build with assertions enabled, every call that violates a documented precondition expressible from the container's own state (accessing front/back/pop of an empty container, index or nth beyond size, iterator outside [begin, end], exceeding the fixed capacity of a static container, swapping with unequal non-propagating allocators) fails an assertion before any element, storage or bookkeeping is touched; no assertion fails in a call that meets the preconditions.",
  ["inputs"], "all member functions with documented preconditions of all containers, all violating arguments and all non-violating arguments",
  "Tests never violate a precondition (the process would abort), so a missing or wrong assertion is invisible to them, and a too-strict assertion shows only for arguments tests happen not to use.",
  ALL, [("SFL_ASSERT at the head of each member","all containers")],
  observe_at=["assertion failure"])

p("C15", "noexcept promises are kept",
  "No function declared noexcept (unconditionally or by a condition that holds for the template arguments) can let an exception escape: everything it calls is either non-throwing for the same template arguments or its exceptions are caught, so the library never calls std::terminate on a user exception that the documentation lets through.  Swap and move operations promise noexcept only under conditions that make every step non-throwing.",
  ["inputs","configurations"], "all functions declared noexcept, for element types, allocators and predicates with throwing and non-throwing operations",
  "A wrong noexcept only shows when a user operation throws inside it; tests have no throwing operations.",
  ALL+PRIV, [("noexcept specifiers","all containers, private.hpp iterators"),("conditional noexcept of special members, swap","all containers")],
  observe_at=["std::terminate"])

p("C16", "Const operations only read",
  "A const member function of a container, and a non-member comparison, modifies nothing in the container, its elements or any state shared between containers, so any number of threads may call const members of the same container, and any members of different containers, concurrently without a data race.",
  ["schedules","inputs"], "all concurrent schedules of const operations on one container and of arbitrary operations on distinct containers",
  "The tests are single threaded.",
  ALL+PRIV, [("no mutable members, no const_cast writes, no static mutable state","all containers"),("const overloads returning const_iterator","all containers")],
  observe_at=["writes to shared memory"])

p("C17", "Growth is geometric and appending never moves elements without need",
  "An operation that adds elements while the capacity suffices does not reallocate, and when it must reallocate for one more element it requests at least a constant factor more than the current capacity (for devector, more than the room at the end that grows: its elements and the free space on that side) (except compact_vector, whose capacity always equals its size; the segmented containers never move elements when growing at an open end, and their table of segments is what grows by a constant factor).  push_back/emplace_back and push_front/emplace_front on devector and the segmented containers with free room at that end construct exactly one element and leave every other element in place.",
  ["inputs","histories"], "all sizes and capacities, free space on either side",
  "Tests check resulting contents, not the number of element moves or the requested capacity, and amortisation is a statement about unbounded histories.",
  SEQ+[x for x in SMALL if "vector" not in x], [("calculate_new_capacity","each allocating container"),("fast path when last_ != eos_","emplace_back"),("grow_storage_* of segmented containers adding segments only","segmented_vector.hpp, segmented_devector.hpp")],
  observe_at=["element move count","allocate argument"])

p("C18", "References stay valid where the documentation says so",
  "Moving or swapping a container whose elements are in dynamic storage (allocators permitting) transfers that storage without touching any element, so references keep referring to the same elements, now in the other container; insertions and erasures leave elements before the affected position in place when no reallocation happens, and in the segmented containers growth at an end never relocates an existing element.",
  ["inputs","histories"], "all containers and contents; all sizes, capacities and positions",
  "Tests compare values, not addresses, and do not count element operations.",
  HEAPSEQ+[x for x in SMALL if "vector" not in x], [("pointer stealing in initialize_move/assign_move/swap","each container"),("erase moving only the tail","erase"),("segment tables reallocated without touching segments","segmented_vector.hpp, segmented_devector.hpp")],
  observe_at=["addresses of elements"])

p("C19", "Single-pass ranges and move-only sources are consumed correctly",
  "Constructors, assign and insert taking an iterator pair read every element of [first, last) exactly once and in order when the iterators are only input iterators, never use an iterator after it has been invalidated by advancing a copy, and never use an operation the iterator category does not provide; ranges of move iterators are moved from exactly once.",
  ["inputs","programs"], "all range-taking members of all containers, input, forward and random-access iterators, move iterators, any range length",
  "Tests use a few istream-like ranges; double traversal of a single-pass range is only visible with an iterator that detects it.",
  ALL+PRIV, [("tag dispatch on iterator category (is_exactly_input_iterator / is_forward_iterator)","initialize_range, assign_range, insert_range"),("is_input_iterator constraint","range overloads")],
  observe_at=["dereferences and increments of the iterator"])

p("C20", "Members demand no more of element, allocator and iterator types than documented",
  "Every member function compiles and works for any element type that offers just the operations the documentation requires of it (move-only types, types without default constructor or assignment where not needed, types overloading unary & or comma), for minimal and fancy-pointer allocators and final or non-default-constructible function objects where permitted, and with all overloads in C++11 to C++20.",
  ["programs","configurations"], "all client programs using archetype element types, allocators, iterators and predicates with exactly the documented requirements; language modes C++11 to C++20",
  "Tests instantiate a handful of rich types with two language modes; unused member/type combinations are never instantiated.",
  ALL+PRIV, [("std::addressof instead of &, allocator_traits, pointer_traits","private.hpp and all containers"),("tag dispatch so that only needed operations are instantiated","all containers")],
  observe_at=["compilation of archetype clients"])

p("C21", "Overloads participate exactly when they should",
  "Heterogeneous lookup/insert/erase overloads of the associative containers participate in overload resolution only if the comparator or equality predicate declares is_transparent; iterator-range overloads participate only for input iterators; iterators convert to const_iterators but never back, iterators of different containers are distinct types, and set iterators give no mutable access to keys.",
  ["programs"], "all client programs (overload resolution for every argument type combination)",
  "A wrong constraint makes ill-formed programs compile or well-formed ones ambiguous; tests contain only programs that compile.",
  ALL+PRIV, [("enable_if on has_is_transparent","associative containers"),("enable_if on is_input_iterator","range overloads"),("normal_iterator/segmented_iterator converting constructors","private.hpp"),("iterator/const_iterator typedefs","all containers")],
  observe_at=["well-formedness of client expressions"])

p("C22", "SFL_NO_EXCEPTIONS builds contain no exception handling",
  "With SFL_NO_EXCEPTIONS defined every header compiles with exceptions disabled, no try, catch or throw remains, errors that would be thrown (length_error, out_of_range) terminate the program instead of continuing, and the non-throwing paths behave exactly as in the default build.",
  ["configurations","inputs"], "all headers and members under SFL_NO_EXCEPTIONS with -fno-exceptions, all arguments",
  "No test is built with SFL_NO_EXCEPTIONS.",
  ALL+PRIV, [("SFL_TRY/SFL_CATCH/SFL_RETHROW macros","include/sfl/private.hpp"),("throw_length_error/throw_out_of_range aborting","include/sfl/private.hpp")],
  observe_at=["compilation under -fno-exceptions","no code path after a detected error"])

p("C23", "Comparison operators agree with the element sequences",
  "operator== is true exactly when both containers have the same size and pairwise equal elements (as multisets of elements for the unordered containers), operator!= is its negation, and <, >, <=, >= are the lexicographical comparison and its mirror and negations, for every pair of containers of the same type.",
  ["inputs"], "all pairs of containers of the same type",
  "Tests compare a few pairs; an operator built from the wrong operand order or the wrong negation agrees on most pairs.",
  ALL, [("operator==, !=, <, >, <=, >=","end of each header")],
  observe_at=["result of the operator"])

p("C24", "Allocator-aware containers construct and destroy through the allocator",
  "Elements of allocator-aware containers are constructed and destroyed only through allocator_traits of the container's own allocator (so construct/destroy customisations are honoured for every element), from exactly the arguments the caller supplied, perfectly forwarded: rvalues are moved from, lvalues are copied, and nothing else is moved from.",
  ["programs","inputs"], "all operations that create or destroy elements, all value categories, allocators with construct/destroy hooks",
  "Tests use allocators without observable construct/destroy hooks; losing a forward or bypassing the allocator does not change values.",
  [x for x in ALL if "static" not in x]+PRIV, [("construct_at_a / destroy_at_a","include/sfl/private.hpp"),("std::forward in emplace/insert chains","all containers")],
  observe_at=["construct/destroy calls on the allocator","state of arguments after the call"])

p("C25", "Size, capacity, indices and iterators agree with the contents",
  "size(), empty(), capacity(), available(), full(), begin()/end() and their reverse and const forms, front(), back(), data(), operator[], nth() and index_of() all describe one and the same sequence: distances equal sizes, nth(i), begin()+i and operator[](i) designate the i-th element, index_of inverts nth, and 0 <= size() <= capacity() <= max_size().  After shrink_to_fit the capacity is as documented: the size, or N when the elements of a small container fit into the object.",
  ["inputs","histories"], "every container state reachable by any history, every index",
  "Tests check these on small containers in a few states; wrap-around, moved-from, empty-with-capacity and segment-boundary states are sparsely covered.",
  ALL+PRIV, [("observers and accessors","each container"),("normal_iterator / segmented_iterator arithmetic","include/sfl/private.hpp")],
  observe_at=["returned values"])

p("C26", "Iterators obey random-access arithmetic, across segments too",
  "In every container, and in particular across the segments of the segmented containers, iterator increment, decrement, addition, subtraction, difference, comparison and indexing behave exactly like positions in one contiguous sequence for every pair of positions including those at segment boundaries and end(), and a range delimited by such iterators of another container is read element by element when given to a constructor, assign or insert.",
  ["inputs"], "all segment sizes, all pairs of valid positions, all offsets",
  "The arithmetic has distinct cases for offsets within and across segments in both directions; tests sample them with small segments.",
  PRIV+ALL, [("normal_iterator","include/sfl/private.hpp"),("segmented_iterator::operator+=, -=, ++, --, -","include/sfl/private.hpp")],
  observe_at=["dereferenced element, difference"])

p("C27", "Complexity bounds documented for each operation hold",
  "Each operation performs no more element operations, comparisons and allocations than its documented complexity states (for instance logarithmic comparisons for sorted lookup, amortised constant push_back).",
  ["inputs"], "all container sizes and arguments",
  "Tests do not count operations.",
  ALL, [("std::lower_bound based search","sorted containers"),("calculate_new_capacity","growing containers")],
  observe_at=["number of element operations and comparisons"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))

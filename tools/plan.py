
"""Which analysis units and which report kinds decide which property."""
import re
SEQ_MAIN = ['w_vector.cpp', 'w_compact.cpp', 'w_devector.cpp', 'w_devector_ct.cpp', 'w_small.cpp', 'w_small_ct.cpp', 'w_small0.cpp', 'w_static.cpp', 'w_segv.cpp', 'w_segd.cpp']
SEQ_MO = ['w_vector_mo.cpp', 'w_compact_mo.cpp', 'w_devector_mo.cpp', 'w_small_mo.cpp', 'w_static_mo.cpp', 'w_segv_mo.cpp', 'w_segd_mo.cpp']
SEQ_AL = ['w_vector_al.cpp', 'w_compact_al.cpp', 'w_devector_al.cpp', 'w_small_al.cpp', 'w_segv_al.cpp', 'w_segd_al.cpp']
ALLSEQ = SEQ_MAIN + SEQ_MO
SEG2 = ['w_segv2.cpp', 'w_segd2.cpp']   # segments of two elements: boundaries inside and between segments
LIMIT = {'w_segv2.cpp': 20, 'w_segd2.cpp': 20, 'r_segmented_vector.cpp': 20, 'r_segmented_devector.cpp': 20}   # seconds per member, quick tier
ITERS = ['i_%s.cpp' % c for c in ('vector', 'compact_vector', 'devector', 'small_vector', 'static_vector', 'segmented_vector', 'segmented_devector')] + ['i_%s_%sflat_%s.cpp' % (a, u, k) for a in ('small', 'static') for u in ('', 'unordered_') for k in ('set', 'map', 'multiset', 'multimap')]
RANGES = ITERS[:5] + ['r_segmented_vector.cpp', 'r_segmented_devector.cpp']

KINDS = ['set', 'map', 'multiset', 'multimap']
SORTED = ['w_%s_flat_%s.cpp' % (a, k) for a in ('small', 'static') for k in KINDS]
SORTED_TR = [w.replace('.cpp', '_tr.cpp') for w in SORTED]
SORTED_CT = [w.replace('.cpp', '_ct.cpp') for w in SORTED]
SORTED_0 = ['w_small_flat_%s_0.cpp' % k for k in KINDS]
SORTED_AL = ['w_small_flat_%s_al.cpp' % k for k in KINDS]
UNORD = ['w_%s_unordered_flat_%s.cpp' % (a, k) for a in ('small', 'static') for k in KINDS]
UNORD_TR = [w.replace('.cpp', '_tr.cpp') for w in UNORD]
UNORD_CT = [w.replace('.cpp', '_ct.cpp') for w in UNORD]
UNORD_0 = ['w_small_unordered_flat_%s_0.cpp' % k for k in KINDS]
UNORD_AL = ['w_small_unordered_flat_%s_al.cpp' % k for k in KINDS]
ASSOC = SORTED + UNORD
SEQ_THR = ['w_vector_thr.cpp', 'w_compact_thr.cpp', 'w_devector_thr.cpp', 'w_small_thr.cpp', 'w_segv_thr.cpp', 'w_segd_thr.cpp']
ASSOC_THR = [w.replace('.cpp', '_thr.cpp') for w in ASSOC]
SMALL_ASSOC = [w for w in ASSOC if 'small' in w]
ORDERING = {'sorted', 'unique', 'lookup', 'contents', 'range', 'assert-fails'}
LOOKUPS = re.compile(r'::(find|count|contains|lower_bound|upper_bound|equal_range|at|operator\[\]|erase)\(')

CONSTM = r'::(free operator|[^(]+\(.*\) const)'
ADDERS = r'::(push_|emplace|insert|try_emplace|operator\[\]|resize|reserve)'
STAB = r'::(~?\w*(vector|flat_\w*)\(|operator=|swap\(|free swap|erase\(|pop_|clear|push_|emplace_(back|front)|shrink|reserve|resize_back)'
# members that can be affected by the allocator traits
ASPECIAL = r'::(~?\w*flat_\w*\(|operator=|swap\(|get_allocator)'
SPECIAL = r'::(~?\w*vector\(|operator=|assign\(|swap\()'

MEM = {'out-of-bounds', 'lifetime', 'uninitialised', 'overlap', 'terminate', 'invariant', 'element-leak'}
OBSERVERS = ('begin(', 'end(', 'cbegin(', 'cend(', 'rbegin(', 'rend(', 'crbegin(', 'crend(', 'size(', 'empty(', 'max_size(', 'capacity(', 'available', 'full(', 'nth(', 'index_of(', 'front(', 'back(', 'data(', 'operator[]', 'at(', 'get_allocator(', 'key_comp(', 'value_comp(', 'key_eq(')

def mname(q):
    m = q['method'].split('::', 1)[1] if '::' in q['method'] else q['method']
    return m
def keyed(q): return 'flat_' in q['method'].split('::')[0]
def unordered(q): return 'unordered' in q['method'].split('::')[0]
def lookup_member(q): return bool(LOOKUPS.search(q['method']))
def is_obs(q): return mname(q).startswith(OBSERVERS)

def relevant(pid, q):
    k, exc, al = q['kind'], q['exceptional'], q['alias']
    m = mname(q)
    if pid == 'C01': return k in MEM and not exc
    if pid == 'C02': return exc and k in MEM | {'memory-leak', 'deallocate', 'contents'}
    if pid == 'C03': return k == 'strong-guarantee' or (exc and k in MEM | {'memory-leak', 'deallocate'})
    if pid == 'C04': return k in ('memory-leak', 'deallocate') or (k in ('out-of-bounds', 'invariant') and ('released' in q['msg'] or 'freed' in q['msg'] or 'own the same' in q['msg'] or 'start of the block' in q['msg'] or 'end-of-storage' in q['msg'] or 'start-of-storage' in q['msg']))
    if pid == 'C05': return k == 'propagation'
    if pid in ('C08', 'C10') and k == 'propagation' and 'comparison object' in q['msg'] and keyed(q) and unordered(q) == (pid == 'C10') and not exc: return True
    if pid == 'C08': return keyed(q) and not unordered(q) and not exc and not q['alias'] and (k in ORDERING and not lookup_member(q) or k in ('sorted', 'unique') or k == 'contents' and re.search(r'::erase\([^)]*iterator', q['method']))
    if pid == 'C09': return keyed(q) and not unordered(q) and not exc and not q['alias'] and lookup_member(q) and k in ORDERING | {'out-of-range'}
    if pid == 'C10': return keyed(q) and unordered(q) and not exc and (k in ORDERING | {'out-of-range'} if not q['alias'] else k in MEM | {'contents'} and '::erase(' in q['method'])
    if pid == 'C06': return not keyed(q) and not exc and not is_obs(q) and (k in ('contents', 'assert-fails', 'throw', 'out-of-range', 'length-error') or k in MEM)
    if pid == 'C07': return al and not exc and (k in ('contents', 'alias') or k in MEM)
    if pid == 'C11': return k in ('length-error', 'throw') or (k in ('out-of-bounds', 'lifetime', 'contents', 'invariant') and re.search(r'\bq\d+=[^0]', q['model'] or ''))
    if pid == 'C12': return k == 'out-of-range' or m.startswith('at(')
    if pid == 'C13': return k == 'allocation'
    if pid == 'C14': return k in ('assert-fails', 'assert-missing')
    if pid == 'C15': return k in ('noexcept-escape', 'terminate')
    if pid == 'C16': return k == 'const-write'
    if pid == 'C17': return k == 'growth' or k == 'stability' and m.startswith(('push_', 'emplace_'))
    if pid == 'C18': return k == 'stability'
    if pid == 'C19': return k == 'range' or ('It_' in m or 'move_iterator' in m) and not exc and (k == 'contents' or k in MEM)
    if pid == 'C22': return not exc and k in MEM | {'contents', 'terminate', 'length-error', 'out-of-range', 'observer', 'sorted', 'unique', 'lookup', 'exceptions', 'throw'} or k in ('length-error', 'out-of-range', 'terminate')
    if pid == 'C23': return not exc and '::free operator' in q['method'] and k in MEM | {'comparison-op', 'contents', 'const-write', 'throw', 'assert-fails', 'range'}
    if pid == 'C24': return k == 'forwarding' or k == 'contents' and not exc and not al and m.startswith(('push_', 'emplace', 'insert(', 'try_emplace', 'insert_or_assign', 'operator[]')) and 'It_' not in m
    if pid == 'C25': return k in ('observer', 'invariant') and not exc or is_obs(q) and not exc
    if pid == 'C26': return not exc and k in MEM | {'observer', 'const-write', 'contents', 'assert-fails', 'throw'}
    return False

ASSUME = [
    'element, iterator and predicate operations satisfy their named requirements: a copy equals its source, a moved-from object is valid, destructors, deallocate, swap of allocators and the operations declared noexcept do not throw',
    'the standard library algorithms and helpers the headers call behave as specified (modelled by contracts)',
    'arguments meet the documented preconditions (positions inside the container, ranges valid and not into *this)',
    'sizes are bounded by max_size() of the allocator, itself at most PTRDIFF_MAX / sizeof(T); pointers are plain pointers',
    'shapes are instantiated for the archetype element types of witness/arch.hpp and N in {0, 3} where N is a template argument',
]
TECH = 'abstract interpretation of the instantiated AST (segmented-array typestate x linear relational domain, inductive loop generalisation)'
CNOTE = 'The compilers are the deciding procedure: a client that is rejected, or an assertion that fails, names the construct. Complete for the enumerated uses, element profiles, compilers and language modes; uses that no client function spells out are not covered. Function bodies are covered because every client instantiates the member it calls.'
PLAN = {
 'C01': dict(level='other', units=[(ALLSEQ + ASSOC, None), (SEQ_AL, SPECIAL), (SEG2, None), (RANGES, 'it_range')], explain='every public member, from every entry state shape (null, internal, heap; symbolic size, capacity, front gap, position, count), on all non-throwing paths: typestate of every storage cell at each construct/read/assign/destroy, and of all cells at exit'),
 'C02': dict(level='other', units=[(ALLSEQ + ASSOC, None), (SEQ_AL, SPECIAL), (SEG2[:1], None)], explain='as C01 with an exception injected at every operation that may throw (element operations, iterator operations, predicate, allocation): at each exceptional exit the container must satisfy its invariant, cells in [first,last) and only those live, every block owned'),
 'C03': dict(level='other', units=[(ALLSEQ + SEQ_AL, r'::(reserve|shrink_to_fit)')], explain='every exceptional exit of reserve*/shrink_to_fit*: same block, same bounds, same contents'),
 'C04': dict(level='other', units=[(SEQ_MAIN + SEQ_MO, None), (SEQ_AL, None), (SMALL_ASSOC, ASPECIAL), (SORTED_AL + UNORD_AL, ASPECIAL)], explain='every deallocation: block live, whole block, size equal to the allocated size, allocator known equal to the producer; at exit every block owned exactly once by a container whose allocator equals the producer'),
 'C05': dict(level='other', units=[(SEQ_MAIN + SEQ_MO, SPECIAL + '|get_allocator'), (SEQ_AL, SPECIAL + '|get_allocator'), (ASSOC, ASPECIAL), (SORTED_AL + UNORD_AL, ASPECIAL)], explain='identity of the allocator token in the container after every constructor, assignment and swap for each propagation-trait setting'),
 'C06': dict(level='other', units=[(ALLSEQ, None), (SEQ_AL, SPECIAL), (SEG2, None), (RANGES, 'it_range')], explain='contents at every normal exit compared, piece by piece, with the documented sequence; returned positions likewise'),
 'C07': dict(level='other', units=[(SEQ_MAIN, r'const T&'), (ASSOC, r'::(insert|emplace|operator\[\]|try_emplace|erase|insert_or_assign)')], explain='entry states in which the value argument is an lvalue denoting the element at a symbolic index of the same container; result compared with the sequence for an independent copy'),
 'C08': dict(level='other', units=[(SORTED + SORTED_TR, None), (SORTED_0, None)], explain='strict-weak-order facts (first-greater / first-not-less indices per symbolic key) kept as linear unknowns; at every normal exit the element sequence is compared with the ordered insertion / erasure the documentation dictates, for every hint, position and duplicate outcome'),
 'C09': dict(level='other', units=[(SORTED + SORTED_TR, LOOKUPS.pattern + '|key_comp|value_comp')], explain='return value of every lookup compared with the order facts of the key: first not-less, first greater, equivalent element or end'),
 'C10': dict(level='other', units=[(UNORD + UNORD_TR, None), (UNORD_0, None)], explain='equality facts (first equal index per symbolic key, absent = size) as linear unknowns; contents at exit compared as multisets with the documented result; count / erase(key) of the multi containers on an unrolled small scope (sizes 0..3, every equality mask, every alias index)'),
 'C11': dict(level='other', units=[(SEQ_MAIN + SEQ_MO + SMALL_ASSOC, None)], explain='every allocation request is within [1, max_size()]; length_error only when the documented size exceeds max_size() and with contents unchanged; modular arithmetic of size computations is modelled'),
 'C12': dict(level='other', units=[(SEQ_MAIN + SEQ_MO, r'::at\('), (ASSOC, r'::at\(')], explain='all exits of at(): out_of_range iff pos >= size, otherwise the reference denotes exactly that element'),
 'C13': dict(level='other', units=[(['w_small.cpp', 'w_small_ct.cpp', 'w_small_mo.cpp', 'w_small0.cpp', 'w_static.cpp', 'w_static_mo.cpp'], None), (ASSOC, None), (['w_small_al.cpp'], SPECIAL)], explain='effects of every member from every entry shape: a static container never reaches an allocation; a small container whose elements are internal and whose documented result fits into N reaches no allocation and stays internal, on normal paths; shrink_to_fit brings elements that fit back; elements of a static container are only ever in the member array'),
 'C14': dict(level='other', units=[(ALLSEQ + ASSOC, None, ['--neg']), (SEQ_AL + SORTED_AL + UNORD_AL, r'::swap\(', ['--neg']), (SEQ_MAIN + ASSOC, None)], explain='for every member with a documented precondition on the state of the container, an entry state for every way to violate it (index or position at or beyond the end or before the beginning, reversed range, empty, full, too many elements, unequal non-propagating allocators): every path must end in a failing assertion with the container unchanged; in entry states that meet the preconditions no path reaches a failing assertion'),
 'C15': dict(level='other', units=[(ALLSEQ + ASSOC, None), (SEQ_THR + ASSOC_THR, SPECIAL + '|' + ASPECIAL + r'|clear|erase|pop_|key_comp|value_comp|key_eq|begin|end|size|empty'), (SEQ_AL, SPECIAL)], explain='an exception is injected at every operation of an element, iterator, predicate, comparison object or allocator that is not declared noexcept; the noexcept specifier of every function, evaluated by the compiler for the instantiation, is compared with the exceptional exits of its body; throw, rethrow and terminate are followed'),
 'C16': dict(level='other', units=[(SEQ_MAIN + ASSOC, CONSTM)], rules=['scan'], explain='effect analysis: on every path of every const member and comparison operator no cell of the container is constructed, assigned or destroyed and no storage pointer changes; syntax tree of all headers: no mutable data member reachable from a container or its iterators, no variable with static storage duration that can be modified, no cast that removes const in a const member function or operator'),
 'C17': dict(level='other', units=[(['w_vector.cpp', 'w_devector.cpp', 'w_devector_ct.cpp', 'w_small.cpp', 'w_small_ct.cpp', 'w_vector_mo.cpp', 'w_devector_mo.cpp', 'w_small_mo.cpp', 'w_segv.cpp', 'w_segd.cpp', 'w_segv_mo.cpp', 'w_segd_mo.cpp'], ADDERS), (SMALL_ASSOC, ADDERS)], explain='at every normal exit of every member that adds elements: if the documented number of elements fits the capacity at entry (devector: the room at the end concerned) the block is the same; otherwise the new capacity, an expression over the symbols of the entry state, exceeds the old one by a constant factor for every value of the symbols; push/emplace at an end with room performs no assignment, destruction or relocation; reserve leaves the capacity asked for'),
 'C18': dict(level='other', units=[(['w_vector.cpp', 'w_compact.cpp', 'w_devector.cpp', 'w_small.cpp', 'w_vector_mo.cpp', 'w_compact_mo.cpp', 'w_devector_mo.cpp', 'w_small_mo.cpp', 'w_segv.cpp', 'w_segd.cpp', 'w_segv_mo.cpp', 'w_segd_mo.cpp'], STAB), (SEQ_AL, STAB), (SMALL_ASSOC, STAB), (SORTED_AL + UNORD_AL, ASPECIAL)], explain='identity of the block before and after move construction, move assignment, swap, erase, pop and clear, and the effects on its cells: the transfer of allocated storage touches no element, for every propagation setting in which it is allowed'),
 'C19': dict(level='other', units=[(ALLSEQ + ASSOC, r'(It_in|It_fw|move_iterator|pointer, pointer)')], explain='ranges of input iterators whose elements vanish when any copy of the iterator is advanced, of forward iterators and of move iterators: every read of a range element happens while it is designated by a live iterator, contents at exit are exactly the elements of the range in order, elements behind move iterators are moved from once and copied never'),
 'C20': dict(level='other', units=[], rules=['minimal'], tech='compile-time witnesses: client programs over least-capable types that must be accepted by both compilers', note=CNOTE, only_assume=['the documentation (doc/*.md) and the named requirements it cites are transcribed correctly into the client functions', 'gcc 13 and clang 18 implement the language'], explain='one client function per documented member, element profile (each operation of the type that the documentation does not require is deleted or absent; unary & and comma are overloaded and deleted) and allocator (plain, fancy pointers); function objects without default construction or assignment where permitted and final ones; every client must be accepted by gcc and clang in C++11 to C++20'),
 'C21': dict(level='other', units=[], rules=['traits'], tech='type-level witnesses: static assertions over the detection idiom for every overload set', note=CNOTE, only_assume=['the documentation (doc/*.md) and the named requirements it cites are transcribed correctly into the client functions', 'gcc 13 and clang 18 implement the language'], explain='static assertions, evaluated by gcc and clang in C++11 to C++20: a call with a heterogeneous key is well-formed exactly if the function object is transparent; iterator-range overloads exactly for input iterators; iterator to const_iterator but not back; iterators of different containers unrelated; key access through set iterators is const; overload chosen by each call'),
 'C22': dict(level='other', units=[(ALLSEQ + ASSOC, None, ['--noexc'])], rules=['noexc'], explain='all headers with SFL_NO_EXCEPTIONS: no try or throw is left in the syntax tree of any function, gcc and clang accept every instantiation with -fno-exceptions (C++11 to C++20); the members of that build (NDEBUG) are analysed from every entry shape: the functions that would throw never return, the program ends exactly where the default build throws length_error or out_of_range, and all other paths meet the same specification of contents, storage and results'),
 'C23': dict(level='other', units=[(SEQ_MAIN + SEQ_MO + ASSOC, '::free operator')], explain='every comparison operator on two containers of every pair of shapes: sizes different, empty, equal, less, greater, incomparable; std::equal / lexicographical_compare / is_permutation are whole-range relations over the two abstract sequences; a result that is not determined by the relation the documentation names is a violation'),
 'C24': dict(level='other', units=[([w for w in SEQ_MAIN + SEQ_MO if 'static' not in w], None), (SMALL_ASSOC, None), (SEQ_AL, SPECIAL), (SORTED_AL + UNORD_AL, ASPECIAL)], explain='every construction and destruction of a cell of an allocated block or of the internal storage of an allocator-aware container goes through allocator_traits with an allocator known equal to that of the container; value arguments reach the element as they were passed (symbolic value of the element = value of the argument); no copy is made when the arguments are rvalues and moves cannot throw'),
 'C25': dict(level='other', units=[(SEQ_MAIN + SEQ_MO + ASSOC, None)], explain='every observer from every entry shape returns the quantity the abstract sequence dictates; every mutator leaves 0 <= size <= capacity and the storage pointers coherent'),
 'C26': dict(level='other', units=[(ITERS, 'free it_(?!range)'), (RANGES, 'it_range')], explain='every operation of the iterators of every container (++, --, +=, -=, +, -, difference, comparisons, dereference, indexing, conversion to const_iterator) from every pair of positions and every offset that stays in range, segments of 1, 2, 3 and 4 elements: the result is the position, element, distance or order of one contiguous sequence, and nothing outside the storage is touched; ranges delimited by such iterators of another container, given to constructors, assign and insert, are read element by element'),
}
NOTE = ('Static, sound-by-construction abstract interpretation for the analysed members: every path and every size within the modelled shapes is covered; '
        'members whose analysis is not conclusive are counted as undecided in the evidence and raise no alarm. Trusts: the clang AST, the analyser, the contracts for the standard library.')
NA = {
 'C27': 'operation counts of loops as functions of run-time sizes: needs a cost analysis with amortisation over histories, which no sound static rule in reach decides without freezing the present algorithms; the structural parts (geometric growth, no needless element operations at the ends) are claimed under C17 and C18',
}

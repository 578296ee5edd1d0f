#!/usr/bin/env python3
"""Writes witness/m_*.cpp: one client function per documented use of a container by the least capable types that may use it."""
import os, sys
SEQ = ['vector', 'compact_vector', 'devector', 'segmented_vector', 'segmented_devector', 'small_vector', 'static_vector']
ASS = ['%s_%sflat_%s' % (a, u, k) for a in ('small', 'static') for u in ('', 'unordered_') for k in ('set', 'map', 'multiset', 'multimap')]
stat = lambda c: 'static' in c
dyn = lambda c: 'static' not in c
de = lambda c: 'devector' in c
seg = lambda c: 'segmented' in c
any_ = lambda c: True
own = lambda c: c in ('vector', 'compact_vector', 'devector', 'segmented_vector', 'segmented_devector')
ndv = lambda c: c != 'devector'
# element profile, client code, containers.  C container, k const C&, c/o C&, x constructor argument, v element, p element*, al allocator
L = [
('Fixed', 'C a@0;', any_), ('Fixed', '(void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity();', any_), ('Fixed', 'c.clear();', any_),
('Fixed', 'c.pop_back();', lambda c: c != 'compact_vector'), ('Fixed', 'c.pop_front();', de),
('Fixed', 'c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend();', any_),
('Fixed', 'c.at(1); k.at(1); c[1]; k[1]; c.front(); k.front(); c.back(); k.back();', any_), ('Fixed', 'c.data(); k.data();', lambda c: not seg(c)),
('Fixed', 'c.nth(1); k.nth(1); c.index_of(c.begin());', any_),
('Fixed', 'c.swap(o); swap(c, o);', own), ('Fixed', '(void)c.get_allocator();', dyn),
('Fixed', 'c.emplace_back(x); c.emplace_back(x, 1);', lambda c: seg(c) or stat(c)), ('Fixed', 'c.emplace_front(x);', lambda c: c == 'segmented_devector'),
('Fixed', '(void)c.available();', lambda c: c in ('static_vector', 'vector', 'small_vector')), ('Fixed', '(void)c.full();', stat),
('Fixed', 'c.available_front(); c.available_back();', de),
('Def', 'C a(3@);', any_), ('Def', 'c.emplace_back();', lambda c: seg(c) or stat(c)), ('Def', 'c.resize(3);', lambda c: seg(c) or stat(c)),
('DefMoveC', 'c.resize(3);', any_), ('DefMoveC', 'c.resize_front(3); c.resize_back(3);', lambda c: c == 'devector'), ('Def', 'c.resize_front(3); c.resize_back(3);', lambda c: c == 'segmented_devector'),
('MoveC', 'c.emplace_back(x);', ndv), ('MoveC', 'c.push_back(std::move(v));', ndv), ('MoveC', 'c.emplace_front(x); c.push_front(std::move(v));', lambda c: c == 'segmented_devector'),
('Move', 'c.emplace_back(x);', any_), ('Move', 'c.push_back(std::move(v));', any_), ('Move', 'c.emplace_front(x); c.push_front(std::move(v));', de),
('MoveC', 'c.reserve(3);', lambda c: c in ('vector', 'small_vector')), ('MoveC', 'c.reserve_front(3); c.reserve_back(3);', de), ('MoveC', 'c.shrink_to_fit();', lambda c: dyn(c) and c != 'compact_vector'),
('MoveC', 'C d(std::move(c));', any_), ('MoveC', 'C d(std::move(c)@);', dyn),
('CopyC', 'C a(3, k[0]@);', any_), ('CopyC', 'C a(fw, fw@); C b(bi, bi@); C d(p, p@);', ndv), ('CopyC', 'C a(in, in@);', ndv), ('Copy', 'C a(in, in@); C b(fw, fw@); C d(bi, bi@); C e(p, p@);', any_), ('CopyC', 'C a(k);', any_), ('CopyC', 'C a(k@);', dyn),
('CopyC', 'C a(il@);', any_), ('CopyC', 'c.push_back(k[0]);', ndv), ('CopyC', 'c.resize(3, k[0]);', any_), ('CopyC', 'c.push_front(k[0]);', lambda c: c == 'segmented_devector'), ('Copy', 'c.push_front(k[0]);', de), ('CopyC', 'c.resize_front(3, k[0]); c.resize_back(3, k[0]);', de),
('CopyC', 'c.emplace_back(k[0]);', ndv),
('Move', 'c.erase(c.begin()); c.erase(c.cbegin(), c.cend());', any_), ('Move', 'c.emplace(c.cbegin(), x);', any_), ('Move', 'c.insert(c.cbegin(), std::move(v));', any_), ('Move', 'c = std::move(o);', any_), ('Move', 'erase_if(c, Pred());', any_),
('Move', 'c.emplace(c.begin(), x);', any_), ('Move', 'c.swap(o); swap(c, o);', any_),
('Move', 'c.assign(std::make_move_iterator(p), std::make_move_iterator(p)); C a(std::make_move_iterator(p), std::make_move_iterator(p)@); c.insert(c.cbegin(), std::make_move_iterator(p), std::make_move_iterator(p));', any_),
('Copy', 'c = k;', any_), ('Copy', 'c.assign(3, k[0]); c.assign(in, in); c.assign(fw, fw); c.assign(bi, bi); c.assign(p, p); c.assign(il); c = il;', any_),
('Copy', 'c.insert(c.cbegin(), k[0]); c.insert(c.cbegin(), 3, k[0]);', any_), ('Copy', 'c.insert(c.cbegin(), in, in); c.insert(c.cbegin(), fw, fw); c.insert(c.cbegin(), bi, bi); c.insert(c.cbegin(), p, p); c.insert(c.cbegin(), il);', any_),
('Copy', 'c.emplace(c.cbegin(), k[0]);', any_),
('CopyC', 'C a(px, px@);', ndv), ('Copy', 'C a(px, px@); c.assign(px, px); c.insert(c.cbegin(), px, px);', any_),
('MoveC', 'C a(ax, ax@);', ndv), ('Move', 'C a(ax, ax@);', any_),
('Eq', '(void)(k == k); (void)(k != k);', any_), ('Lt', '(void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k);', any_),
]
mp = lambda c: 'map' in c
st_ = lambda c: 'map' not in c
un = lambda c: 'unordered' in c
so = lambda c: 'unordered' not in c
multi = lambda c: 'multi' in c
uni = lambda c: 'multi' not in c
both = lambda f, g: (lambda c: f(c) and g(c))
# key profile, mapped profile, function object kind ('' plain, NA not assignable, T transparent), code, containers.  f function object, q const key&, r key&, h heterogeneous key
A = [
('Fixed', 'Fixed', 'NA', 'C a(f@);', any_), ('Fixed', 'Fixed', 'NA', '(void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available();', any_), ('Fixed', 'Fixed', 'NA', 'c.clear();', any_),
('Fixed', 'Fixed', 'NA', 'c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend();', any_), ('Fixed', 'Fixed', 'NA', 'c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend();', so),
('Fixed', 'Fixed', 'NA', 'c.nth(1); k.nth(1); c.index_of(c.begin());', any_), ('Fixed', 'Fixed', 'NA', '(void)c.full();', stat), ('Fixed', 'Fixed', 'NA', '(void)c.get_allocator();', dyn),
('Fixed', 'Fixed', 'NA', 'c.data(); k.data();', any_),
('Fixed', 'Fixed', 'NA', 'k.key_comp(); k.value_comp();', so), ('Fixed', 'Fixed', 'NA', 'k.key_eq();', un), 
('Fixed', 'Fixed', 'NA', 'c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q);', any_), ('Fixed', 'Fixed', 'NA', 'c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q);', so),
('Fixed', 'Fixed', 'T', 'c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h);', any_), ('Fixed', 'Fixed', 'T', 'c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h);', so),
('Fixed', 'Fixed', 'NA', 'c.at(q); k.at(q);', both(mp, uni)), ('Fixed', 'Fixed', 'T', 'c.at(h); k.at(h);', both(mp, uni)),
('Move', 'Move', 'NA', 'c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q);', any_), ('Move', 'Move', 'T', 'c.erase(h);', any_), ('Move', 'Move', 'NA', 'erase_if(c, Pred());', any_),
('Move', 'Move', 'NA', 'c.emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); c.emplace_hint(c.cbegin(), std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x));', mp),
('Move', 'Move', 'NA', 'c.emplace(x); c.emplace_hint(c.cbegin(), x);', st_), ('Move', 'Move', 'NA', 'c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v));', any_),
('Move', 'Move', 'NA', 'c.insert(std::make_pair(std::move(r), std::move(m))); c.insert(c.cbegin(), std::make_pair(std::move(r), std::move(m)));', mp),
('Move', 'Move', 'NA', 'c.emplace(std::move(r), std::move(m)); c.emplace_hint(c.cbegin(), std::move(r), std::move(m));', mp),
('Move', 'Move', 'NA', 'c.insert_or_assign(std::move(r), std::move(m)); c.insert_or_assign(c.cbegin(), std::move(r), std::move(m)); c.try_emplace(std::move(r), x); c.try_emplace(c.cbegin(), std::move(r), x);', both(mp, uni)),
('Copy', 'Move', 'NA', 'c.insert_or_assign(q, std::move(m)); c.insert_or_assign(c.cbegin(), q, std::move(m)); c.try_emplace(q, x); c.try_emplace(c.cbegin(), q, x);', both(mp, uni)),
('Move', 'DefMove', 'NA', 'c[std::move(r)]; c.try_emplace(std::move(r));', both(mp, uni)), ('Copy', 'DefMove', 'NA', 'c[q]; c.try_emplace(q);', both(mp, uni)),
('Move', 'Move', 'NA', 'C d(std::move(c));', any_), ('Move', 'Move', 'NA', 'C d(std::move(c)@);', dyn), ('Move', 'Move', '', 'c = std::move(o);', any_), ('Move', 'Move', '', 'c.swap(o); swap(c, o);', any_),
('Move', 'Move', 'NA', 'C a(std::make_move_iterator(p), std::make_move_iterator(p), f@); c.insert(std::make_move_iterator(p), std::make_move_iterator(p));', any_),
('Copy', 'Copy', 'NA', 'c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]);', any_), ('Copy', 'Copy', 'NA', 'c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il);', any_),
('Copy', 'Copy', 'NA', 'C a(in, in, f@); C b(fw, fw, f@); C d(bi, bi, f@); C e(p, p, f@); C g(il, f@);', any_), ('Copy', 'Copy', 'NA', 'C a(k);', any_), ('Copy', 'Copy', 'NA', 'C a(k@);', dyn),
('Copy', 'Copy', '', 'c = k; c = il;', any_),
('Copy', 'Copy', 'NA', 'C a(px, px, f@); c.insert(px, px);', any_), ('Move', 'Move', 'T', 'c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q);', any_),
('Move', 'Move', 'T', 'c.emplace(x);', st_),
('Copy', 'Copy', 'D', 'C a; C b(in, in); C d(fw, fw); C e(il);', stat), ('Copy', 'Copy', 'D', 'C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al);', dyn),
('Eq', 'Eq', 'NA', '(void)(k == k); (void)(k != k);', any_), ('Lt', 'Lt', 'NA', '(void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k);', so),
]
def alloc_of(c, al): return None if stat(c) else al
def args(c): return ['3'] if c in ('small_vector', 'static_vector') or seg(c) or 'flat' in c else []
def seq_fn(c, i, prof, sn, al):
    e = prof
    t = 'sfl::%s<%s>' % (c, ', '.join([e] + args(c) + (['%s<%s>' % (al, e)] if dyn(c) else [])))
    sn = sn.replace('@0', '' if stat(c) else '(al)').replace('@', '' if stat(c) else ', al')
    return 'void f%d(%s& c, const %s& k, %s& o, Arg& x, %s& v, %s* p, In<%s> in, Fw<%s> fw, Bi<%s> bi, Px<%s> px, const Arg* ax, std::initializer_list<%s> il, const %s<%s>& al) { typedef %s C; %s }\n' % (i, t, t, t, e, e, e, e, e, e, e, al, e, t, sn)
def ass_fn(c, i, kp, mpd, fk, sn, al):
    e = 'std::pair<%s, %s>' % (kp, mpd) if mp(c) else kp
    fo = ('T' if fk == 'T' else '') + ('Equal' if un(c) else 'Less') + (fk if fk in ('NA', 'D') else '')
    t = 'sfl::%s<%s>' % (c, ', '.join([kp] + ([mpd] if mp(c) else []) + args(c) + [fo] + (['%s<%s>' % (al, e)] if dyn(c) else [])))
    sn = sn.replace('@', '' if stat(c) else ', al')
    return 'void f%d(%s& c, const %s& k, %s& o, Arg& x, %s& v, const %s& q, %s& r, %s& m, const Het& h, const %s& f, %s* p, In<%s> in, Fw<%s> fw, Bi<%s> bi, Px<%s> px, const Arg* ax, std::initializer_list<%s> il, const %s<%s>& al) { typedef %s C; %s }\n' % (i, t, t, t, e, kp, kp, mpd, fo, e, e, e, e, e, e, al, e, t, sn)
def fns(c, al):
    if c in SEQ: return [seq_fn(c, i, *(x[:-1] + (al,))) for i, x in enumerate(L) if x[-1](c)]
    return [ass_fn(c, i, *(x[:-1] + (al,))) for i, x in enumerate(A) if x[-1](c)]
def head(c): return '#include "min.hpp"\n#include <tuple>\n#include "sfl/%s.hpp"\nusing namespace mini;\n' % c
# ---- overload participation and iterator conversions (C21) ----
T_HEAD = r'''// written by tools/gencomp.py
#include <iterator>
#include <type_traits>
#include <utility>
%s
namespace tr
{
typedef char yes; struct no { char c[2]; };
#define MEM(NAME, EXPR) template <class C, class... A> struct NAME { template <class X> static auto t(int) -> decltype(EXPR, yes()); template <class X> static no t(...); static constexpr bool value = sizeof(t<C>(0)) == sizeof(yes); };
MEM(has_find, (void)std::declval<X>().find(std::declval<A>()...))
MEM(has_count, (void)std::declval<X>().count(std::declval<A>()...))
MEM(has_contains, (void)std::declval<X>().contains(std::declval<A>()...))
MEM(has_lower_bound, (void)std::declval<X>().lower_bound(std::declval<A>()...))
MEM(has_upper_bound, (void)std::declval<X>().upper_bound(std::declval<A>()...))
MEM(has_equal_range, (void)std::declval<X>().equal_range(std::declval<A>()...))
MEM(has_at, (void)std::declval<X>().at(std::declval<A>()...))
MEM(has_index, (void)std::declval<X>().operator[](std::declval<A>()...))
MEM(has_erase, (void)std::declval<X>().erase(std::declval<A>()...))
MEM(has_insert, (void)std::declval<X>().insert(std::declval<A>()...))
MEM(has_assign, (void)std::declval<X>().assign(std::declval<A>()...))
MEM(has_insert_or_assign, (void)std::declval<X>().insert_or_assign(std::declval<A>()...))
MEM(has_try_emplace, (void)std::declval<X>().try_emplace(std::declval<A>()...))
template <class A, class B> struct has_eq { template <class X, class Y> static auto t(int) -> decltype((void)(std::declval<X>() == std::declval<Y>()), yes()); template <class X, class Y> static no t(...); static constexpr bool value = sizeof(t<A, B>(0)) == sizeof(yes); };
template <class A, class B> struct has_minus { template <class X, class Y> static auto t(int) -> decltype((void)(std::declval<X>() - std::declval<Y>()), yes()); template <class X, class Y> static no t(...); static constexpr bool value = sizeof(t<A, B>(0)) == sizeof(yes); };
#define IS(A, ...) std::is_same<A, __VA_ARGS__>::value
#define CONV(A, ...) std::is_convertible<A, __VA_ARGS__>::value
struct Het {};
struct Key { explicit Key(int); explicit Key(Het); };
struct Foo {};
struct NotIt { int& operator*() const; NotIt& operator++(); NotIt operator++(int); bool operator==(const NotIt&) const; bool operator!=(const NotIt&) const; };
template <class T> struct OutIt { typedef std::output_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; T& operator*() const; OutIt& operator++(); OutIt operator++(int); };
template <class T, class Tag> struct It { typedef Tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; T& operator*() const; It& operator++(); It operator++(int); It& operator--(); friend bool operator==(const It&, const It&); friend bool operator!=(const It&, const It&); };
struct Less { template <class A> bool operator()(const A&, const A&) const; };
struct Equal { template <class A> bool operator()(const A&, const A&) const; };
struct TLess { typedef void is_transparent; template <class A, class B> bool operator()(const A&, const B&) const; };
struct TEqual { typedef void is_transparent; template <class A, class B> bool operator()(const A&, const B&) const; };
struct Mapped { explicit Mapped(int); Mapped& operator=(const Foo&); Mapped(const Foo&); };
'''
def targs(c, fo, al=None):
    return 'sfl::%s<%s>' % (c, ', '.join(['Key'] + (['Mapped'] if mp(c) else []) + ['3', fo]))
st_alloc = lambda c: not stat(c)
def traits(c):
    o = []
    A = lambda cond, msg: o.append('static_assert(%s, "%s: %s");\n' % (cond, c, msg))
    N = 'namespace t_%s\n{\n' % c
    if c in SEQ:
        o.append(N + 'typedef int E; typedef sfl::%s<int%s> C; typedef sfl::%s<Foo%s> F; typedef C::iterator I; typedef C::const_iterator K;\n' % (c, ''.join(', 3' for _ in args(c)), c, ''.join(', 3' for _ in args(c))))
        # ranges take part only for input iterators
        for n in ('Foo', 'NotIt', 'OutIt<int>', 'std::nullptr_t'):
            A('!std::is_constructible<C, %s, %s>::value' % (n, n), 'constructor accepts a pair of %s as a range' % n)
            if not stat(c): A('!std::is_constructible<C, %s, %s, const C::allocator_type&>::value' % (n, n), 'constructor with an allocator accepts a pair of %s as a range' % n)
            A('!has_assign<C&, %s, %s>::value' % (n, n), 'assign accepts a pair of %s as a range' % n)
            A('!has_insert<C&, K, %s, %s>::value' % (n, n), 'insert accepts a pair of %s as a range' % n)
        for n in ('std::input_iterator_tag', 'std::forward_iterator_tag', 'std::bidirectional_iterator_tag', 'std::random_access_iterator_tag'):
            t = 'It<int, %s>' % n
            A('std::is_constructible<C, %s, %s>::value' % (t, t), 'constructor rejects a range of %s' % t); A('has_assign<C&, %s, %s>::value' % (t, t), 'assign rejects a range of %s' % t); A('has_insert<C&, K, %s, %s>::value' % (t, t), 'insert rejects a range of %s' % t)
        A('std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value', 'a range of pointers is rejected')
        A('std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value', 'a count and a value are rejected')
        if not stat(c):
            A('!CONV(const C::allocator_type&, C)', 'an allocator converts to a container')
        A('has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value', 'erase rejects an iterator')
        o.append('inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }\n')
        A('IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&)', 'iterator does not give int&')
        A('IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&)', 'const_iterator gives mutable access')
        A('IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&)', 'iterator subscript has the wrong access')
        A('IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*)', 'iterator arrow has the wrong access')
        A('!IS(I, K)', 'iterator and const_iterator are the same type')
        for m in ('front()', 'back()', 'at(0)', 'operator[](0)'):
            A('IS(decltype(std::declval<C&>().%s), int&) && IS(decltype(std::declval<const C&>().%s), const int&)' % (m, m), '%s has the wrong access' % m)
        if not seg(c): A('IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*)', 'data() has the wrong access')
    else:
        fo, tf = ('Equal', 'TEqual') if un(c) else ('Less', 'TLess')
        o.append(N + 'typedef %s P; typedef %s T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;\n' % (targs(c, fo), targs(c, tf)))
        looks = ['find', 'count', 'contains'] + (['lower_bound', 'upper_bound', 'equal_range'] if so(c) else []) + (['at'] if mp(c) and uni(c) else [])
        for m in looks:
            for arg in ('Het', 'const Het&', 'Het&', 'int'):
                A('!has_%s<P&, %s>::value && !has_%s<const P&, %s>::value' % (m, arg, m, arg), '%s accepts a heterogeneous key without is_transparent' % m)
                A('has_%s<T&, %s>::value && has_%s<const T&, %s>::value' % (m, arg, m, arg), '%s rejects a heterogeneous key with is_transparent' % m)
            A('has_%s<P&, const Key&>::value && has_%s<const P&, const Key&>::value && has_%s<T&, const Key&>::value && has_%s<const T&, const Key&>::value' % (m, m, m, m), '%s rejects a key' % m)
        for q, it in (('', 'I'), ('const ', 'K')):
            A('IS(decltype(std::declval<%sT&>().find(std::declval<Het>())), %s) && IS(decltype(std::declval<%sT&>().find(std::declval<const Key&>())), %s)' % (q, it, q, it), 'find on a %scontainer returns the wrong iterator' % q)
            if so(c):
                for m in ('lower_bound', 'upper_bound'): A('IS(decltype(std::declval<%sT&>().%s(std::declval<Het>())), %s) && IS(decltype(std::declval<%sT&>().%s(std::declval<const Key&>())), %s)' % (q, m, it, q, m, it), '%s on a %scontainer returns the wrong iterator' % (m, q))
                A('IS(decltype(std::declval<%sT&>().equal_range(std::declval<Het>())), std::pair<%s, %s>) && IS(decltype(std::declval<%sT&>().equal_range(std::declval<const Key&>())), std::pair<%s, %s>)' % (q, it, it, q, it, it), 'equal_range on a %scontainer returns the wrong iterators' % q)
        # erase
        A('!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value', 'erase accepts a heterogeneous key without is_transparent')
        A('has_erase<T&, Het>::value && has_erase<T&, const Het&>::value', 'erase rejects a heterogeneous key with is_transparent')
        for X, i, k in (('P', 'PI', 'PK'), ('T', 'I', 'K')):
            A(' && '.join('IS(decltype(std::declval<%s&>().erase(std::declval<%s>())), %s)' % (X, a, i) for a in (i, i + '&', 'const ' + i + '&', k, k + '&', 'const ' + k + '&')), 'erase of an iterator is not erase(iterator)')
            A('IS(decltype(std::declval<%s&>().erase(std::declval<const Key&>())), %s::size_type) && IS(decltype(std::declval<%s&>().erase(std::declval<Key&>())), %s::size_type)' % (X, X, X, X), 'erase of a key does not return a count')
        # insertion
        for n in ('Foo', 'std::nullptr_t'):
            A('!has_insert<P&, %s>::value && !has_insert<P&, PK, %s>::value' % (n, n), 'insert accepts %s as an element' % n)
        for n in ('Foo', 'int', 'NotIt', 'OutIt<E>', 'std::nullptr_t'):
            A('!has_insert<P&, %s, %s>::value' % (n, n), 'insert accepts a pair of %s as a range' % n)
            A('!std::is_constructible<P, %s, %s>::value' % (n, n), 'constructor accepts a pair of %s as a range' % n)
            A('!std::is_constructible<P, %s, %s, const %s&>::value' % (n, n, fo), 'constructor accepts a pair of %s as a range' % n)
            if not st_alloc(c): continue
            A('!std::is_constructible<P, %s, %s, const P::allocator_type&>::value' % (n, n), 'constructor with an allocator accepts a pair of %s as a range' % n)
            A('!std::is_constructible<P, %s, %s, const %s&, const P::allocator_type&>::value' % (n, n, fo), 'constructor with a function object and an allocator accepts a pair of %s as a range' % n)
        if not stat(c):
            for n in ('std::input_iterator_tag', 'std::forward_iterator_tag'):
                t = 'It<E, %s>' % n
                A('std::is_constructible<P, %s, %s, const P::allocator_type&>::value && std::is_constructible<P, %s, %s, const %s&, const P::allocator_type&>::value' % (t, t, t, t, fo), 'a range of %s with an allocator is rejected' % n)
        for n in ('std::input_iterator_tag', 'std::forward_iterator_tag', 'std::random_access_iterator_tag'):
            t = 'It<E, %s>' % n
            A('has_insert<P&, %s, %s>::value && std::is_constructible<P, %s, %s>::value && std::is_constructible<P, %s, %s, const %s&>::value' % (t, t, t, t, t, t, fo), 'a range of %s is rejected' % n)
        A('has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value', 'insert rejects an element')
        if st_(c) and uni(c):
            A('!has_insert<P&, Het>::value && !has_insert<P&, PK, Het>::value', 'insert accepts a heterogeneous key without is_transparent')
            A('has_insert<T&, Het>::value && has_insert<T&, K, Het>::value', 'insert rejects a heterogeneous key with is_transparent')
        if mp(c):
            A('has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value', 'insert rejects a pair the element is constructible from')
            A('!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value', 'insert accepts a pair the element is not constructible from')
        if mp(c) and uni(c):
            A('!has_index<P&, Het>::value && !has_index<P&, const Het&>::value', 'operator[] accepts a heterogeneous key without is_transparent')
            A('has_index<T&, Het>::value && has_index<T&, const Het&>::value', 'operator[] rejects a heterogeneous key with is_transparent')
            A('!has_insert_or_assign<P&, Het, Foo>::value && !has_insert_or_assign<P&, PK, Het, Foo>::value && !has_try_emplace<P&, Het, Foo>::value && !has_try_emplace<P&, PK, Het, Foo>::value', 'insert_or_assign or try_emplace accepts a heterogeneous key without is_transparent')
            A('has_insert_or_assign<T&, Het, Foo>::value && has_insert_or_assign<T&, K, Het, Foo>::value && has_try_emplace<T&, Het, Foo>::value && has_try_emplace<T&, K, Het, Foo>::value', 'insert_or_assign or try_emplace rejects a heterogeneous key with is_transparent')
            for X, k in (('P', 'PK'), ('T', 'K')):
                for key in ('const Key&', 'Key'): A('!has_insert_or_assign<%s&, %s, void*>::value && !has_insert_or_assign<%s&, %s, %s, void*>::value' % (X, key, X, k, key), 'insert_or_assign accepts a value that cannot be assigned')
                for key in ('const Key&', 'Key'): A('has_insert_or_assign<%s&, %s, Foo>::value && has_insert_or_assign<%s&, %s, %s, Foo>::value' % (X, key, X, k, key), 'insert_or_assign rejects a key')
            A('!has_insert_or_assign<T&, Het, void*>::value && !has_insert_or_assign<T&, K, Het, void*>::value', 'insert_or_assign accepts a value that cannot be assigned')
            for i in ('I', 'K'):
                for key in ('const Key&', 'Key'):
                    A('IS(decltype(std::declval<T&>().try_emplace(std::declval<%s>(), std::declval<%s>(), 1)), I)' % (i, key), 'try_emplace with a hint is taken for one with a heterogeneous key')
                    A('IS(decltype(std::declval<T&>().insert_or_assign(std::declval<%s>(), std::declval<%s>(), Foo())), I)' % (i, key), 'insert_or_assign with a hint is taken for one with a heterogeneous key')
        A('!CONV(const %s&, P)' % fo, 'a function object converts to a container')
        if not stat(c): A('!CONV(const P::allocator_type&, P)', 'an allocator converts to a container')
        if mp(c):
            A('IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&)', 'const_iterator gives mutable access')
        else:
            A('IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&)', 'iterators give mutable access to keys')
            A('IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*)', 'iterators give mutable access to keys')
            A('IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&)', 'iterators give mutable access to keys')
        A('IS(decltype(*std::declval<const T&>().data()), const E&)', 'data() of a const container gives mutable access')
    for q, it in (('', 'I'), ('const ', 'K')):
        for m in ('begin()', 'end()', 'nth(0)'): A('IS(decltype(std::declval<%sC&>().%s), %s)' % (q, m, it), '%s of a %scontainer returns the wrong iterator' % (m, q))
    A('IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K)', 'cbegin() or cend() returns the wrong iterator')
    if c in SEQ or so(c):
        A('IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&)', 'a reverse iterator of a const container gives mutable access')
    A('CONV(I, K) && std::is_assignable<K&, I>::value', 'iterator does not convert to const_iterator')
    if not (c in ASS and st_(c)):
        A('!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value', 'const_iterator converts to iterator')
        A('has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value', 'iterator and const_iterator cannot be mixed')
    A('!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*)', 'pointers and iterators convert into each other')
    A('IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E)', 'iterators are not random access iterators over the elements')
    o.append('}\n')
    return ''.join(o)
def distinct():
    cs = SEQ + ASS; o = ['namespace distinct\n{\n']
    A = lambda cond, msg: o.append('static_assert(%s, "%s");\n' % (cond, msg))
    for c in cs:
        if c in SEQ: o.append('typedef sfl::%s<std::pair<Key, Mapped>%s> m_%s; typedef sfl::%s<Key%s> s_%s;\n' % (c, ''.join(', 3' for _ in args(c)), c, c, ''.join(', 3' for _ in args(c)), c))
        else: o.append('typedef %s %s_%s;\n' % (targs(c, 'Equal' if un(c) else 'Less'), 'm' if mp(c) else 's', c))
    for i, a in enumerate(cs):
        for b in cs[i + 1:]:
            x = 'm' if (a in SEQ or mp(a)) and (b in SEQ or mp(b)) else 's' if (a in SEQ or st_(a)) and (b in SEQ or st_(b)) else None
            if not x: continue
            I, K, J, Q = '%s_%s::iterator' % (x, a), '%s_%s::const_iterator' % (x, a), '%s_%s::iterator' % (x, b), '%s_%s::const_iterator' % (x, b)
            A('!IS(%s, %s) && !CONV(%s, %s) && !CONV(%s, %s) && !CONV(%s, %s) && !CONV(%s, %s)' % (I, J, I, J, J, I, I, Q, J, K), 'iterators of %s and %s are not distinct' % (a, b))
            A('!has_eq<%s, %s>::value && !has_eq<%s, %s>::value && !has_eq<%s, %s>::value' % (I, J, I, Q, K, Q), 'iterators of %s and %s can be compared' % (a, b))
    o.append('}\n'); return ''.join(o)
def traits_tu():
    return T_HEAD % '\n'.join('#include "sfl/%s.hpp"' % c for c in SEQ + ASS) + ''.join(traits(c) for c in SEQ + ASS) + distinct() + '}\n'
if __name__ == '__main__':
    d = os.environ.get('OUT') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')
    for c in SEQ + ASS:
        open(d + '/m_%s.cpp' % c, 'w').write('// written by tools/gencomp.py\n' + head(c) + 'namespace plain\n{\n' + ''.join(fns(c, 'Alloc')) + '}\n' + ('' if stat(c) else 'namespace fancy\n{\n' + ''.join(fns(c, 'FAlloc')) + '}\n'))
    open(d + '/t_traits.cpp', 'w').write(traits_tu())

// written by tools/gencomp.py
#include <iterator>
#include <type_traits>
#include <utility>
#include "sfl/vector.hpp"
#include "sfl/compact_vector.hpp"
#include "sfl/devector.hpp"
#include "sfl/segmented_vector.hpp"
#include "sfl/segmented_devector.hpp"
#include "sfl/small_vector.hpp"
#include "sfl/static_vector.hpp"
#include "sfl/small_flat_set.hpp"
#include "sfl/small_flat_map.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "sfl/small_unordered_flat_set.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "sfl/static_flat_set.hpp"
#include "sfl/static_flat_map.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
namespace tr
{
typedef char yes; struct no { char c[2]; };
#define MEM(NAME, EXPR) template <class C, class... A> struct NAME { template <class X> static auto t(int) -> decltype(EXPR, yes()); template <class X> static no t(...); static constexpr bool value = sizeof(t<C>(0)) == sizeof(yes); };
MEM(has_find, (void)std::declval<X>().find(std::declval<A>()...))
MEM(has_count, (void)std::declval<X>().count(std::declval<A>()...))
MEM(has_contains, (void)std::declval<X>().contains(std::declval<A>()...))
MEM(has_lower_bound, (void)std::declval<X>().lower_bound(std::declval<A>()...))
MEM(has_upper_bound, (void)std::declval<X>().upper_bound(std::declval<A>()...))
MEM(has_equal_range, (void)std::declval<X>().equal_range(std::declval<A>()...))
MEM(has_at, (void)std::declval<X>().at(std::declval<A>()...))
MEM(has_index, (void)std::declval<X>().operator[](std::declval<A>()...))
MEM(has_erase, (void)std::declval<X>().erase(std::declval<A>()...))
MEM(has_insert, (void)std::declval<X>().insert(std::declval<A>()...))
MEM(has_assign, (void)std::declval<X>().assign(std::declval<A>()...))
MEM(has_insert_or_assign, (void)std::declval<X>().insert_or_assign(std::declval<A>()...))
MEM(has_try_emplace, (void)std::declval<X>().try_emplace(std::declval<A>()...))
template <class A, class B> struct has_eq { template <class X, class Y> static auto t(int) -> decltype((void)(std::declval<X>() == std::declval<Y>()), yes()); template <class X, class Y> static no t(...); static constexpr bool value = sizeof(t<A, B>(0)) == sizeof(yes); };
template <class A, class B> struct has_minus { template <class X, class Y> static auto t(int) -> decltype((void)(std::declval<X>() - std::declval<Y>()), yes()); template <class X, class Y> static no t(...); static constexpr bool value = sizeof(t<A, B>(0)) == sizeof(yes); };
#define IS(A, ...) std::is_same<A, __VA_ARGS__>::value
#define CONV(A, ...) std::is_convertible<A, __VA_ARGS__>::value
struct Het {};
struct Key { explicit Key(int); explicit Key(Het); };
struct Foo {};
struct NotIt { int& operator*() const; NotIt& operator++(); NotIt operator++(int); bool operator==(const NotIt&) const; bool operator!=(const NotIt&) const; };
template <class T> struct OutIt { typedef std::output_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; T& operator*() const; OutIt& operator++(); OutIt operator++(int); };
template <class T, class Tag> struct It { typedef Tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; T& operator*() const; It& operator++(); It operator++(int); It& operator--(); friend bool operator==(const It&, const It&); friend bool operator!=(const It&, const It&); };
struct Less { template <class A> bool operator()(const A&, const A&) const; };
struct Equal { template <class A> bool operator()(const A&, const A&) const; };
struct TLess { typedef void is_transparent; template <class A, class B> bool operator()(const A&, const B&) const; };
struct TEqual { typedef void is_transparent; template <class A, class B> bool operator()(const A&, const B&) const; };
struct Mapped { explicit Mapped(int); Mapped& operator=(const Foo&); Mapped(const Foo&); };
namespace t_vector
{
typedef int E; typedef sfl::vector<int> C; typedef sfl::vector<Foo> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "vector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "vector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "vector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "vector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "vector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "vector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "vector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "vector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "vector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "vector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "vector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "vector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "vector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "vector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "vector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "vector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "vector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "vector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "vector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "vector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "vector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "vector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "vector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "vector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "vector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "vector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "vector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "vector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "vector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "vector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "vector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "vector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "vector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "vector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "vector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "vector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "vector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "vector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "vector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "vector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "vector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*), "vector: data() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "vector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "vector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "vector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "vector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "vector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "vector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "vector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "vector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "vector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "vector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "vector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "vector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "vector: iterators are not random access iterators over the elements");
}
namespace t_compact_vector
{
typedef int E; typedef sfl::compact_vector<int> C; typedef sfl::compact_vector<Foo> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "compact_vector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "compact_vector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "compact_vector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "compact_vector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "compact_vector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "compact_vector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "compact_vector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "compact_vector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "compact_vector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "compact_vector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "compact_vector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "compact_vector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "compact_vector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "compact_vector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "compact_vector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "compact_vector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "compact_vector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "compact_vector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "compact_vector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "compact_vector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "compact_vector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "compact_vector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "compact_vector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "compact_vector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "compact_vector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "compact_vector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "compact_vector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "compact_vector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "compact_vector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "compact_vector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "compact_vector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "compact_vector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "compact_vector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "compact_vector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "compact_vector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "compact_vector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "compact_vector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "compact_vector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "compact_vector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "compact_vector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "compact_vector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*), "compact_vector: data() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "compact_vector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "compact_vector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "compact_vector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "compact_vector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "compact_vector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "compact_vector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "compact_vector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "compact_vector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "compact_vector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "compact_vector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "compact_vector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "compact_vector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "compact_vector: iterators are not random access iterators over the elements");
}
namespace t_devector
{
typedef int E; typedef sfl::devector<int> C; typedef sfl::devector<Foo> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "devector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "devector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "devector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "devector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "devector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "devector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "devector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "devector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "devector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "devector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "devector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "devector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "devector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "devector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "devector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "devector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "devector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "devector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "devector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "devector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "devector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "devector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "devector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "devector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "devector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "devector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "devector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "devector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "devector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "devector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "devector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "devector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "devector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "devector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "devector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "devector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "devector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "devector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "devector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "devector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "devector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*), "devector: data() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "devector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "devector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "devector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "devector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "devector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "devector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "devector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "devector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "devector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "devector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "devector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "devector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "devector: iterators are not random access iterators over the elements");
}
namespace t_segmented_vector
{
typedef int E; typedef sfl::segmented_vector<int, 3> C; typedef sfl::segmented_vector<Foo, 3> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "segmented_vector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "segmented_vector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "segmented_vector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "segmented_vector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "segmented_vector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "segmented_vector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "segmented_vector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "segmented_vector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "segmented_vector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "segmented_vector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "segmented_vector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "segmented_vector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "segmented_vector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "segmented_vector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "segmented_vector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "segmented_vector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_vector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_vector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_vector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_vector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_vector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_vector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_vector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_vector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_vector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_vector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_vector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_vector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "segmented_vector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "segmented_vector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "segmented_vector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "segmented_vector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "segmented_vector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "segmented_vector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "segmented_vector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "segmented_vector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "segmented_vector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "segmented_vector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "segmented_vector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "segmented_vector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "segmented_vector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "segmented_vector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "segmented_vector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "segmented_vector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "segmented_vector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "segmented_vector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "segmented_vector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "segmented_vector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "segmented_vector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "segmented_vector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "segmented_vector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "segmented_vector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "segmented_vector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "segmented_vector: iterators are not random access iterators over the elements");
}
namespace t_segmented_devector
{
typedef int E; typedef sfl::segmented_devector<int, 3> C; typedef sfl::segmented_devector<Foo, 3> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "segmented_devector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "segmented_devector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "segmented_devector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "segmented_devector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "segmented_devector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "segmented_devector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "segmented_devector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "segmented_devector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "segmented_devector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "segmented_devector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "segmented_devector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "segmented_devector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "segmented_devector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "segmented_devector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "segmented_devector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "segmented_devector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_devector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_devector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "segmented_devector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_devector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_devector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "segmented_devector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_devector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_devector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "segmented_devector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_devector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_devector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "segmented_devector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "segmented_devector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "segmented_devector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "segmented_devector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "segmented_devector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "segmented_devector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "segmented_devector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "segmented_devector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "segmented_devector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "segmented_devector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "segmented_devector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "segmented_devector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "segmented_devector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "segmented_devector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "segmented_devector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "segmented_devector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "segmented_devector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "segmented_devector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "segmented_devector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "segmented_devector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "segmented_devector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "segmented_devector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "segmented_devector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "segmented_devector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "segmented_devector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "segmented_devector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "segmented_devector: iterators are not random access iterators over the elements");
}
namespace t_small_vector
{
typedef int E; typedef sfl::small_vector<int, 3> C; typedef sfl::small_vector<Foo, 3> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "small_vector: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, Foo, Foo, const C::allocator_type&>::value, "small_vector: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "small_vector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "small_vector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "small_vector: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt, const C::allocator_type&>::value, "small_vector: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "small_vector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "small_vector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "small_vector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>, const C::allocator_type&>::value, "small_vector: constructor with an allocator accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "small_vector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "small_vector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "small_vector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t, const C::allocator_type&>::value, "small_vector: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "small_vector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "small_vector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "small_vector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "small_vector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "small_vector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "small_vector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "small_vector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "small_vector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "small_vector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "small_vector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "small_vector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "small_vector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "small_vector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "small_vector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "small_vector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "small_vector: a count and a value are rejected");
static_assert(!CONV(const C::allocator_type&, C), "small_vector: an allocator converts to a container");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "small_vector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "small_vector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "small_vector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "small_vector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "small_vector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "small_vector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "small_vector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "small_vector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "small_vector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "small_vector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*), "small_vector: data() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_vector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_vector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_vector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_vector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_vector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_vector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_vector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "small_vector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_vector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "small_vector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "small_vector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_vector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_vector: iterators are not random access iterators over the elements");
}
namespace t_static_vector
{
typedef int E; typedef sfl::static_vector<int, 3> C; typedef sfl::static_vector<Foo, 3> F; typedef C::iterator I; typedef C::const_iterator K;
static_assert(!std::is_constructible<C, Foo, Foo>::value, "static_vector: constructor accepts a pair of Foo as a range");
static_assert(!has_assign<C&, Foo, Foo>::value, "static_vector: assign accepts a pair of Foo as a range");
static_assert(!has_insert<C&, K, Foo, Foo>::value, "static_vector: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<C, NotIt, NotIt>::value, "static_vector: constructor accepts a pair of NotIt as a range");
static_assert(!has_assign<C&, NotIt, NotIt>::value, "static_vector: assign accepts a pair of NotIt as a range");
static_assert(!has_insert<C&, K, NotIt, NotIt>::value, "static_vector: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<C, OutIt<int>, OutIt<int>>::value, "static_vector: constructor accepts a pair of OutIt<int> as a range");
static_assert(!has_assign<C&, OutIt<int>, OutIt<int>>::value, "static_vector: assign accepts a pair of OutIt<int> as a range");
static_assert(!has_insert<C&, K, OutIt<int>, OutIt<int>>::value, "static_vector: insert accepts a pair of OutIt<int> as a range");
static_assert(!std::is_constructible<C, std::nullptr_t, std::nullptr_t>::value, "static_vector: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!has_assign<C&, std::nullptr_t, std::nullptr_t>::value, "static_vector: assign accepts a pair of std::nullptr_t as a range");
static_assert(!has_insert<C&, K, std::nullptr_t, std::nullptr_t>::value, "static_vector: insert accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<C, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "static_vector: constructor rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_assign<C&, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "static_vector: assign rejects a range of It<int, std::input_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::input_iterator_tag>, It<int, std::input_iterator_tag>>::value, "static_vector: insert rejects a range of It<int, std::input_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "static_vector: constructor rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_assign<C&, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "static_vector: assign rejects a range of It<int, std::forward_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::forward_iterator_tag>, It<int, std::forward_iterator_tag>>::value, "static_vector: insert rejects a range of It<int, std::forward_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "static_vector: constructor rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_assign<C&, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "static_vector: assign rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::bidirectional_iterator_tag>, It<int, std::bidirectional_iterator_tag>>::value, "static_vector: insert rejects a range of It<int, std::bidirectional_iterator_tag>");
static_assert(std::is_constructible<C, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "static_vector: constructor rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_assign<C&, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "static_vector: assign rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(has_insert<C&, K, It<int, std::random_access_iterator_tag>, It<int, std::random_access_iterator_tag>>::value, "static_vector: insert rejects a range of It<int, std::random_access_iterator_tag>");
static_assert(std::is_constructible<C, int*, int*>::value && has_assign<C&, const int*, const int*>::value && has_insert<C&, K, int*, int*>::value, "static_vector: a range of pointers is rejected");
static_assert(std::is_constructible<C, std::size_t, const int&>::value && has_assign<C&, int, int>::value && has_insert<C&, K, int, int>::value, "static_vector: a count and a value are rejected");
static_assert(has_erase<C&, I>::value && has_erase<C&, K>::value && has_erase<C&, K, K>::value && has_erase<C&, I, I>::value, "static_vector: erase rejects an iterator");
inline void fill(C& c) { C a(2, 3); c.assign(2, 3); c.insert(c.cbegin(), 2, 3); (void)a; }
static_assert(IS(decltype(*std::declval<I&>()), int&) && IS(I::reference, int&), "static_vector: iterator does not give int&");
static_assert(IS(decltype(*std::declval<K&>()), const int&) && IS(K::reference, const int&), "static_vector: const_iterator gives mutable access");
static_assert(IS(decltype(std::declval<I&>()[0]), int&) && IS(decltype(std::declval<K&>()[0]), const int&), "static_vector: iterator subscript has the wrong access");
static_assert(IS(decltype(std::declval<I&>().operator->()), int*) && IS(decltype(std::declval<K&>().operator->()), const int*), "static_vector: iterator arrow has the wrong access");
static_assert(!IS(I, K), "static_vector: iterator and const_iterator are the same type");
static_assert(IS(decltype(std::declval<C&>().front()), int&) && IS(decltype(std::declval<const C&>().front()), const int&), "static_vector: front() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().back()), int&) && IS(decltype(std::declval<const C&>().back()), const int&), "static_vector: back() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().at(0)), int&) && IS(decltype(std::declval<const C&>().at(0)), const int&), "static_vector: at(0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().operator[](0)), int&) && IS(decltype(std::declval<const C&>().operator[](0)), const int&), "static_vector: operator[](0) has the wrong access");
static_assert(IS(decltype(std::declval<C&>().data()), int*) && IS(decltype(std::declval<const C&>().data()), const int*), "static_vector: data() has the wrong access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_vector: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_vector: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_vector: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_vector: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_vector: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_vector: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_vector: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "static_vector: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_vector: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "static_vector: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "static_vector: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_vector: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_vector: iterators are not random access iterators over the elements");
}
namespace t_small_flat_set
{
typedef sfl::small_flat_set<Key, 3, Less> P; typedef sfl::small_flat_set<Key, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_flat_set: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_flat_set: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_flat_set: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "small_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "small_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "small_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "small_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "small_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "small_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "small_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "small_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "small_flat_set: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "small_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "small_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "small_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "small_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "small_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "small_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "small_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "small_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "small_flat_set: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "small_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "small_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "small_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "small_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "small_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "small_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "small_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "small_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "small_flat_set: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_flat_set: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "small_flat_set: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "small_flat_set: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "small_flat_set: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_flat_set: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "small_flat_set: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "small_flat_set: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "small_flat_set: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_flat_set: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_flat_set: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_flat_set: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_flat_set: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_flat_set: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_flat_set: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_flat_set: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "small_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_flat_set: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&, const P::allocator_type&>::value, "small_flat_set: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_flat_set: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "small_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_flat_set: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&, const P::allocator_type&>::value, "small_flat_set: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_flat_set: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "small_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_flat_set: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&, const P::allocator_type&>::value, "small_flat_set: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_flat_set: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "small_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_flat_set: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&, const P::allocator_type&>::value, "small_flat_set: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_flat_set: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "small_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_flat_set: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&, const P::allocator_type&>::value, "small_flat_set: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_set: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_set: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "small_flat_set: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "small_flat_set: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "small_flat_set: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_flat_set: insert rejects an element");
static_assert(!has_insert<P&, Het>::value && !has_insert<P&, PK, Het>::value, "small_flat_set: insert accepts a heterogeneous key without is_transparent");
static_assert(has_insert<T&, Het>::value && has_insert<T&, K, Het>::value, "small_flat_set: insert rejects a heterogeneous key with is_transparent");
static_assert(!CONV(const Less&, P), "small_flat_set: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_flat_set: an allocator converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "small_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "small_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "small_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_flat_set: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_flat_set: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_flat_set: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_flat_set: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_flat_set: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_flat_set: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_flat_set: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_flat_set: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "small_flat_set: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_flat_set: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_flat_set: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_flat_set: iterators are not random access iterators over the elements");
}
namespace t_small_flat_map
{
typedef sfl::small_flat_map<Key, Mapped, 3, Less> P; typedef sfl::small_flat_map<Key, Mapped, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_flat_map: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_flat_map: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_flat_map: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "small_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "small_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "small_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "small_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "small_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "small_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "small_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "small_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "small_flat_map: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "small_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "small_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "small_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "small_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "small_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "small_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "small_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "small_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "small_flat_map: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "small_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "small_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "small_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "small_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "small_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "small_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "small_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "small_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "small_flat_map: equal_range rejects a key");
static_assert(!has_at<P&, Het>::value && !has_at<const P&, Het>::value, "small_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het>::value && has_at<const T&, Het>::value, "small_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, const Het&>::value && !has_at<const P&, const Het&>::value, "small_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, const Het&>::value && has_at<const T&, const Het&>::value, "small_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, Het&>::value && !has_at<const P&, Het&>::value, "small_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het&>::value && has_at<const T&, Het&>::value, "small_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, int>::value && !has_at<const P&, int>::value, "small_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, int>::value && has_at<const T&, int>::value, "small_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(has_at<P&, const Key&>::value && has_at<const P&, const Key&>::value && has_at<T&, const Key&>::value && has_at<const T&, const Key&>::value, "small_flat_map: at rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_flat_map: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "small_flat_map: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "small_flat_map: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "small_flat_map: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_flat_map: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "small_flat_map: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "small_flat_map: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "small_flat_map: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_flat_map: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_flat_map: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_flat_map: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_flat_map: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_flat_map: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_flat_map: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_flat_map: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "small_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_flat_map: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&, const P::allocator_type&>::value, "small_flat_map: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_flat_map: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "small_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_flat_map: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&, const P::allocator_type&>::value, "small_flat_map: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_flat_map: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "small_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_flat_map: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&, const P::allocator_type&>::value, "small_flat_map: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_flat_map: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "small_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_flat_map: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&, const P::allocator_type&>::value, "small_flat_map: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_flat_map: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "small_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_flat_map: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&, const P::allocator_type&>::value, "small_flat_map: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_map: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_map: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "small_flat_map: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "small_flat_map: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "small_flat_map: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_flat_map: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "small_flat_map: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "small_flat_map: insert accepts a pair the element is not constructible from");
static_assert(!has_index<P&, Het>::value && !has_index<P&, const Het&>::value, "small_flat_map: operator[] accepts a heterogeneous key without is_transparent");
static_assert(has_index<T&, Het>::value && has_index<T&, const Het&>::value, "small_flat_map: operator[] rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, Het, Foo>::value && !has_insert_or_assign<P&, PK, Het, Foo>::value && !has_try_emplace<P&, Het, Foo>::value && !has_try_emplace<P&, PK, Het, Foo>::value, "small_flat_map: insert_or_assign or try_emplace accepts a heterogeneous key without is_transparent");
static_assert(has_insert_or_assign<T&, Het, Foo>::value && has_insert_or_assign<T&, K, Het, Foo>::value && has_try_emplace<T&, Het, Foo>::value && has_try_emplace<T&, K, Het, Foo>::value, "small_flat_map: insert_or_assign or try_emplace rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, const Key&, void*>::value && !has_insert_or_assign<P&, PK, const Key&, void*>::value, "small_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<P&, Key, void*>::value && !has_insert_or_assign<P&, PK, Key, void*>::value, "small_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<P&, const Key&, Foo>::value && has_insert_or_assign<P&, PK, const Key&, Foo>::value, "small_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<P&, Key, Foo>::value && has_insert_or_assign<P&, PK, Key, Foo>::value, "small_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, const Key&, void*>::value && !has_insert_or_assign<T&, K, const Key&, void*>::value, "small_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<T&, Key, void*>::value && !has_insert_or_assign<T&, K, Key, void*>::value, "small_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<T&, const Key&, Foo>::value && has_insert_or_assign<T&, K, const Key&, Foo>::value, "small_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<T&, Key, Foo>::value && has_insert_or_assign<T&, K, Key, Foo>::value, "small_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, Het, void*>::value && !has_insert_or_assign<T&, K, Het, void*>::value, "small_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<const Key&>(), 1)), I), "small_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<const Key&>(), Foo())), I), "small_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<Key>(), 1)), I), "small_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<Key>(), Foo())), I), "small_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<const Key&>(), 1)), I), "small_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<const Key&>(), Foo())), I), "small_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<Key>(), 1)), I), "small_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<Key>(), Foo())), I), "small_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(!CONV(const Less&, P), "small_flat_map: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_flat_map: an allocator converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "small_flat_map: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_flat_map: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_flat_map: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_flat_map: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_flat_map: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_flat_map: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_flat_map: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_flat_map: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_flat_map: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "small_flat_map: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_flat_map: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "small_flat_map: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "small_flat_map: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_flat_map: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_flat_map: iterators are not random access iterators over the elements");
}
namespace t_small_flat_multiset
{
typedef sfl::small_flat_multiset<Key, 3, Less> P; typedef sfl::small_flat_multiset<Key, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_flat_multiset: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_flat_multiset: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_flat_multiset: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "small_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "small_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "small_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "small_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "small_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "small_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "small_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "small_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "small_flat_multiset: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "small_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "small_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "small_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "small_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "small_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "small_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "small_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "small_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "small_flat_multiset: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "small_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "small_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "small_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "small_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "small_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "small_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "small_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "small_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "small_flat_multiset: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_flat_multiset: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "small_flat_multiset: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "small_flat_multiset: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "small_flat_multiset: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_flat_multiset: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "small_flat_multiset: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "small_flat_multiset: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "small_flat_multiset: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_flat_multiset: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_flat_multiset: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_flat_multiset: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_flat_multiset: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_flat_multiset: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_flat_multiset: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_flat_multiset: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "small_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_flat_multiset: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&, const P::allocator_type&>::value, "small_flat_multiset: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_flat_multiset: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "small_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_flat_multiset: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&, const P::allocator_type&>::value, "small_flat_multiset: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_flat_multiset: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "small_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_flat_multiset: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&, const P::allocator_type&>::value, "small_flat_multiset: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_flat_multiset: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "small_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_flat_multiset: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&, const P::allocator_type&>::value, "small_flat_multiset: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_flat_multiset: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "small_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_flat_multiset: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&, const P::allocator_type&>::value, "small_flat_multiset: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_multiset: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_multiset: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "small_flat_multiset: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "small_flat_multiset: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "small_flat_multiset: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_flat_multiset: insert rejects an element");
static_assert(!CONV(const Less&, P), "small_flat_multiset: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_flat_multiset: an allocator converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "small_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "small_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "small_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_flat_multiset: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_flat_multiset: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_flat_multiset: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_flat_multiset: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_flat_multiset: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_flat_multiset: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_flat_multiset: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_flat_multiset: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "small_flat_multiset: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_flat_multiset: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_flat_multiset: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_flat_multiset: iterators are not random access iterators over the elements");
}
namespace t_small_flat_multimap
{
typedef sfl::small_flat_multimap<Key, Mapped, 3, Less> P; typedef sfl::small_flat_multimap<Key, Mapped, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_flat_multimap: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_flat_multimap: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_flat_multimap: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "small_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "small_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "small_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "small_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "small_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "small_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "small_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "small_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "small_flat_multimap: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "small_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "small_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "small_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "small_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "small_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "small_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "small_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "small_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "small_flat_multimap: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "small_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "small_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "small_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "small_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "small_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "small_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "small_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "small_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "small_flat_multimap: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_flat_multimap: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "small_flat_multimap: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "small_flat_multimap: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "small_flat_multimap: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_flat_multimap: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "small_flat_multimap: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "small_flat_multimap: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "small_flat_multimap: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_flat_multimap: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_flat_multimap: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_flat_multimap: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_flat_multimap: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_flat_multimap: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_flat_multimap: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_flat_multimap: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "small_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_flat_multimap: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&, const P::allocator_type&>::value, "small_flat_multimap: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_flat_multimap: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "small_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_flat_multimap: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&, const P::allocator_type&>::value, "small_flat_multimap: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_flat_multimap: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "small_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_flat_multimap: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&, const P::allocator_type&>::value, "small_flat_multimap: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_flat_multimap: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "small_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_flat_multimap: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&, const P::allocator_type&>::value, "small_flat_multimap: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_flat_multimap: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "small_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_flat_multimap: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&, const P::allocator_type&>::value, "small_flat_multimap: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_multimap: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&, const P::allocator_type&>::value, "small_flat_multimap: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "small_flat_multimap: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "small_flat_multimap: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "small_flat_multimap: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_flat_multimap: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "small_flat_multimap: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "small_flat_multimap: insert accepts a pair the element is not constructible from");
static_assert(!CONV(const Less&, P), "small_flat_multimap: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_flat_multimap: an allocator converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "small_flat_multimap: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_flat_multimap: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_flat_multimap: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_flat_multimap: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_flat_multimap: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_flat_multimap: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_flat_multimap: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_flat_multimap: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_flat_multimap: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "small_flat_multimap: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_flat_multimap: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "small_flat_multimap: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "small_flat_multimap: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_flat_multimap: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_flat_multimap: iterators are not random access iterators over the elements");
}
namespace t_small_unordered_flat_set
{
typedef sfl::small_unordered_flat_set<Key, 3, Equal> P; typedef sfl::small_unordered_flat_set<Key, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_unordered_flat_set: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_unordered_flat_set: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_unordered_flat_set: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_unordered_flat_set: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_unordered_flat_set: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_unordered_flat_set: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_unordered_flat_set: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_unordered_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_unordered_flat_set: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_unordered_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_unordered_flat_set: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_unordered_flat_set: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_unordered_flat_set: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_unordered_flat_set: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_unordered_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "small_unordered_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_unordered_flat_set: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_unordered_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "small_unordered_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_unordered_flat_set: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_unordered_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "small_unordered_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_set: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "small_unordered_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_set: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "small_unordered_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_set: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "small_unordered_flat_set: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "small_unordered_flat_set: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "small_unordered_flat_set: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_unordered_flat_set: insert rejects an element");
static_assert(!has_insert<P&, Het>::value && !has_insert<P&, PK, Het>::value, "small_unordered_flat_set: insert accepts a heterogeneous key without is_transparent");
static_assert(has_insert<T&, Het>::value && has_insert<T&, K, Het>::value, "small_unordered_flat_set: insert rejects a heterogeneous key with is_transparent");
static_assert(!CONV(const Equal&, P), "small_unordered_flat_set: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_unordered_flat_set: an allocator converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "small_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "small_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "small_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_unordered_flat_set: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_unordered_flat_set: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_unordered_flat_set: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_unordered_flat_set: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_unordered_flat_set: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_unordered_flat_set: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_unordered_flat_set: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_unordered_flat_set: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_unordered_flat_set: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_unordered_flat_set: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_unordered_flat_set: iterators are not random access iterators over the elements");
}
namespace t_small_unordered_flat_map
{
typedef sfl::small_unordered_flat_map<Key, Mapped, 3, Equal> P; typedef sfl::small_unordered_flat_map<Key, Mapped, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_unordered_flat_map: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_unordered_flat_map: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_unordered_flat_map: contains rejects a key");
static_assert(!has_at<P&, Het>::value && !has_at<const P&, Het>::value, "small_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het>::value && has_at<const T&, Het>::value, "small_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, const Het&>::value && !has_at<const P&, const Het&>::value, "small_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, const Het&>::value && has_at<const T&, const Het&>::value, "small_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, Het&>::value && !has_at<const P&, Het&>::value, "small_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het&>::value && has_at<const T&, Het&>::value, "small_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, int>::value && !has_at<const P&, int>::value, "small_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, int>::value && has_at<const T&, int>::value, "small_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(has_at<P&, const Key&>::value && has_at<const P&, const Key&>::value && has_at<T&, const Key&>::value && has_at<const T&, const Key&>::value, "small_unordered_flat_map: at rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_unordered_flat_map: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_unordered_flat_map: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_unordered_flat_map: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_unordered_flat_map: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_unordered_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_unordered_flat_map: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_unordered_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_unordered_flat_map: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_unordered_flat_map: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_unordered_flat_map: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_unordered_flat_map: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_unordered_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "small_unordered_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_unordered_flat_map: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_unordered_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "small_unordered_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_unordered_flat_map: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_unordered_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "small_unordered_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_map: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "small_unordered_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_map: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "small_unordered_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_map: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "small_unordered_flat_map: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "small_unordered_flat_map: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "small_unordered_flat_map: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_unordered_flat_map: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "small_unordered_flat_map: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "small_unordered_flat_map: insert accepts a pair the element is not constructible from");
static_assert(!has_index<P&, Het>::value && !has_index<P&, const Het&>::value, "small_unordered_flat_map: operator[] accepts a heterogeneous key without is_transparent");
static_assert(has_index<T&, Het>::value && has_index<T&, const Het&>::value, "small_unordered_flat_map: operator[] rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, Het, Foo>::value && !has_insert_or_assign<P&, PK, Het, Foo>::value && !has_try_emplace<P&, Het, Foo>::value && !has_try_emplace<P&, PK, Het, Foo>::value, "small_unordered_flat_map: insert_or_assign or try_emplace accepts a heterogeneous key without is_transparent");
static_assert(has_insert_or_assign<T&, Het, Foo>::value && has_insert_or_assign<T&, K, Het, Foo>::value && has_try_emplace<T&, Het, Foo>::value && has_try_emplace<T&, K, Het, Foo>::value, "small_unordered_flat_map: insert_or_assign or try_emplace rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, const Key&, void*>::value && !has_insert_or_assign<P&, PK, const Key&, void*>::value, "small_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<P&, Key, void*>::value && !has_insert_or_assign<P&, PK, Key, void*>::value, "small_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<P&, const Key&, Foo>::value && has_insert_or_assign<P&, PK, const Key&, Foo>::value, "small_unordered_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<P&, Key, Foo>::value && has_insert_or_assign<P&, PK, Key, Foo>::value, "small_unordered_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, const Key&, void*>::value && !has_insert_or_assign<T&, K, const Key&, void*>::value, "small_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<T&, Key, void*>::value && !has_insert_or_assign<T&, K, Key, void*>::value, "small_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<T&, const Key&, Foo>::value && has_insert_or_assign<T&, K, const Key&, Foo>::value, "small_unordered_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<T&, Key, Foo>::value && has_insert_or_assign<T&, K, Key, Foo>::value, "small_unordered_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, Het, void*>::value && !has_insert_or_assign<T&, K, Het, void*>::value, "small_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<const Key&>(), 1)), I), "small_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<const Key&>(), Foo())), I), "small_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<Key>(), 1)), I), "small_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<Key>(), Foo())), I), "small_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<const Key&>(), 1)), I), "small_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<const Key&>(), Foo())), I), "small_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<Key>(), 1)), I), "small_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<Key>(), Foo())), I), "small_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(!CONV(const Equal&, P), "small_unordered_flat_map: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_unordered_flat_map: an allocator converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "small_unordered_flat_map: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_unordered_flat_map: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_unordered_flat_map: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_unordered_flat_map: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_unordered_flat_map: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_unordered_flat_map: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_unordered_flat_map: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_unordered_flat_map: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_unordered_flat_map: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_unordered_flat_map: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "small_unordered_flat_map: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "small_unordered_flat_map: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_unordered_flat_map: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_unordered_flat_map: iterators are not random access iterators over the elements");
}
namespace t_small_unordered_flat_multiset
{
typedef sfl::small_unordered_flat_multiset<Key, 3, Equal> P; typedef sfl::small_unordered_flat_multiset<Key, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_unordered_flat_multiset: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_unordered_flat_multiset: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_unordered_flat_multiset: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_unordered_flat_multiset: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_unordered_flat_multiset: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_unordered_flat_multiset: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_unordered_flat_multiset: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_unordered_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_unordered_flat_multiset: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_unordered_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_unordered_flat_multiset: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_unordered_flat_multiset: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_unordered_flat_multiset: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_unordered_flat_multiset: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_unordered_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "small_unordered_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_unordered_flat_multiset: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_unordered_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "small_unordered_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_unordered_flat_multiset: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_unordered_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "small_unordered_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_multiset: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "small_unordered_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_multiset: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "small_unordered_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multiset: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "small_unordered_flat_multiset: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "small_unordered_flat_multiset: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "small_unordered_flat_multiset: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_unordered_flat_multiset: insert rejects an element");
static_assert(!CONV(const Equal&, P), "small_unordered_flat_multiset: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_unordered_flat_multiset: an allocator converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "small_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "small_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "small_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_unordered_flat_multiset: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_unordered_flat_multiset: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_unordered_flat_multiset: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_unordered_flat_multiset: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_unordered_flat_multiset: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_unordered_flat_multiset: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_unordered_flat_multiset: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_unordered_flat_multiset: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_unordered_flat_multiset: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_unordered_flat_multiset: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_unordered_flat_multiset: iterators are not random access iterators over the elements");
}
namespace t_small_unordered_flat_multimap
{
typedef sfl::small_unordered_flat_multimap<Key, Mapped, 3, Equal> P; typedef sfl::small_unordered_flat_multimap<Key, Mapped, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "small_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "small_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "small_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "small_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "small_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "small_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "small_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "small_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "small_unordered_flat_multimap: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "small_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "small_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "small_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "small_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "small_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "small_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "small_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "small_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "small_unordered_flat_multimap: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "small_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "small_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "small_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "small_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "small_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "small_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "small_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "small_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "small_unordered_flat_multimap: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "small_unordered_flat_multimap: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "small_unordered_flat_multimap: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "small_unordered_flat_multimap: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "small_unordered_flat_multimap: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "small_unordered_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "small_unordered_flat_multimap: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "small_unordered_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "small_unordered_flat_multimap: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "small_unordered_flat_multimap: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "small_unordered_flat_multimap: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "small_unordered_flat_multimap: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "small_unordered_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "small_unordered_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with an allocator accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with a function object and an allocator accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "small_unordered_flat_multimap: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "small_unordered_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "small_unordered_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with an allocator accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with a function object and an allocator accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "small_unordered_flat_multimap: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "small_unordered_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "small_unordered_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with an allocator accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with a function object and an allocator accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_multimap: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "small_unordered_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "small_unordered_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with an allocator accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with a function object and an allocator accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_multimap: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "small_unordered_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "small_unordered_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with an allocator accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: constructor with a function object and an allocator accepts a pair of std::nullptr_t as a range");
static_assert(std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: a range of std::input_iterator_tag with an allocator is rejected");
static_assert(std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const P::allocator_type&>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&, const P::allocator_type&>::value, "small_unordered_flat_multimap: a range of std::forward_iterator_tag with an allocator is rejected");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "small_unordered_flat_multimap: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "small_unordered_flat_multimap: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "small_unordered_flat_multimap: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "small_unordered_flat_multimap: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "small_unordered_flat_multimap: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "small_unordered_flat_multimap: insert accepts a pair the element is not constructible from");
static_assert(!CONV(const Equal&, P), "small_unordered_flat_multimap: a function object converts to a container");
static_assert(!CONV(const P::allocator_type&, P), "small_unordered_flat_multimap: an allocator converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "small_unordered_flat_multimap: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "small_unordered_flat_multimap: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "small_unordered_flat_multimap: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "small_unordered_flat_multimap: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "small_unordered_flat_multimap: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "small_unordered_flat_multimap: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "small_unordered_flat_multimap: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "small_unordered_flat_multimap: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "small_unordered_flat_multimap: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "small_unordered_flat_multimap: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "small_unordered_flat_multimap: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "small_unordered_flat_multimap: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "small_unordered_flat_multimap: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "small_unordered_flat_multimap: iterators are not random access iterators over the elements");
}
namespace t_static_flat_set
{
typedef sfl::static_flat_set<Key, 3, Less> P; typedef sfl::static_flat_set<Key, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_flat_set: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_flat_set: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_flat_set: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "static_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "static_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "static_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "static_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "static_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "static_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "static_flat_set: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "static_flat_set: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "static_flat_set: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "static_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "static_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "static_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "static_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "static_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "static_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "static_flat_set: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "static_flat_set: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "static_flat_set: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "static_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "static_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "static_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "static_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "static_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "static_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "static_flat_set: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "static_flat_set: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "static_flat_set: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_flat_set: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "static_flat_set: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "static_flat_set: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "static_flat_set: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_flat_set: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "static_flat_set: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "static_flat_set: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "static_flat_set: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_flat_set: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_flat_set: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_flat_set: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_flat_set: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_flat_set: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_flat_set: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_flat_set: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "static_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_flat_set: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "static_flat_set: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_flat_set: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "static_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_flat_set: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "static_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_flat_set: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "static_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "static_flat_set: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "static_flat_set: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "static_flat_set: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_flat_set: insert rejects an element");
static_assert(!has_insert<P&, Het>::value && !has_insert<P&, PK, Het>::value, "static_flat_set: insert accepts a heterogeneous key without is_transparent");
static_assert(has_insert<T&, Het>::value && has_insert<T&, K, Het>::value, "static_flat_set: insert rejects a heterogeneous key with is_transparent");
static_assert(!CONV(const Less&, P), "static_flat_set: a function object converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "static_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "static_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "static_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_flat_set: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_flat_set: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_flat_set: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_flat_set: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_flat_set: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_flat_set: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_flat_set: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_flat_set: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "static_flat_set: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_flat_set: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_flat_set: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_flat_set: iterators are not random access iterators over the elements");
}
namespace t_static_flat_map
{
typedef sfl::static_flat_map<Key, Mapped, 3, Less> P; typedef sfl::static_flat_map<Key, Mapped, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_flat_map: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_flat_map: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_flat_map: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "static_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "static_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "static_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "static_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "static_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "static_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "static_flat_map: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "static_flat_map: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "static_flat_map: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "static_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "static_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "static_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "static_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "static_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "static_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "static_flat_map: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "static_flat_map: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "static_flat_map: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "static_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "static_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "static_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "static_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "static_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "static_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "static_flat_map: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "static_flat_map: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "static_flat_map: equal_range rejects a key");
static_assert(!has_at<P&, Het>::value && !has_at<const P&, Het>::value, "static_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het>::value && has_at<const T&, Het>::value, "static_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, const Het&>::value && !has_at<const P&, const Het&>::value, "static_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, const Het&>::value && has_at<const T&, const Het&>::value, "static_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, Het&>::value && !has_at<const P&, Het&>::value, "static_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het&>::value && has_at<const T&, Het&>::value, "static_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, int>::value && !has_at<const P&, int>::value, "static_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, int>::value && has_at<const T&, int>::value, "static_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(has_at<P&, const Key&>::value && has_at<const P&, const Key&>::value && has_at<T&, const Key&>::value && has_at<const T&, const Key&>::value, "static_flat_map: at rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_flat_map: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "static_flat_map: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "static_flat_map: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "static_flat_map: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_flat_map: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "static_flat_map: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "static_flat_map: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "static_flat_map: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_flat_map: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_flat_map: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_flat_map: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_flat_map: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_flat_map: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_flat_map: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_flat_map: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "static_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_flat_map: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "static_flat_map: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_flat_map: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "static_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_flat_map: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "static_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_flat_map: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "static_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "static_flat_map: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "static_flat_map: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "static_flat_map: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_flat_map: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "static_flat_map: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "static_flat_map: insert accepts a pair the element is not constructible from");
static_assert(!has_index<P&, Het>::value && !has_index<P&, const Het&>::value, "static_flat_map: operator[] accepts a heterogeneous key without is_transparent");
static_assert(has_index<T&, Het>::value && has_index<T&, const Het&>::value, "static_flat_map: operator[] rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, Het, Foo>::value && !has_insert_or_assign<P&, PK, Het, Foo>::value && !has_try_emplace<P&, Het, Foo>::value && !has_try_emplace<P&, PK, Het, Foo>::value, "static_flat_map: insert_or_assign or try_emplace accepts a heterogeneous key without is_transparent");
static_assert(has_insert_or_assign<T&, Het, Foo>::value && has_insert_or_assign<T&, K, Het, Foo>::value && has_try_emplace<T&, Het, Foo>::value && has_try_emplace<T&, K, Het, Foo>::value, "static_flat_map: insert_or_assign or try_emplace rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, const Key&, void*>::value && !has_insert_or_assign<P&, PK, const Key&, void*>::value, "static_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<P&, Key, void*>::value && !has_insert_or_assign<P&, PK, Key, void*>::value, "static_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<P&, const Key&, Foo>::value && has_insert_or_assign<P&, PK, const Key&, Foo>::value, "static_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<P&, Key, Foo>::value && has_insert_or_assign<P&, PK, Key, Foo>::value, "static_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, const Key&, void*>::value && !has_insert_or_assign<T&, K, const Key&, void*>::value, "static_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<T&, Key, void*>::value && !has_insert_or_assign<T&, K, Key, void*>::value, "static_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<T&, const Key&, Foo>::value && has_insert_or_assign<T&, K, const Key&, Foo>::value, "static_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<T&, Key, Foo>::value && has_insert_or_assign<T&, K, Key, Foo>::value, "static_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, Het, void*>::value && !has_insert_or_assign<T&, K, Het, void*>::value, "static_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<const Key&>(), 1)), I), "static_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<const Key&>(), Foo())), I), "static_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<Key>(), 1)), I), "static_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<Key>(), Foo())), I), "static_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<const Key&>(), 1)), I), "static_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<const Key&>(), Foo())), I), "static_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<Key>(), 1)), I), "static_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<Key>(), Foo())), I), "static_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(!CONV(const Less&, P), "static_flat_map: a function object converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "static_flat_map: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_flat_map: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_flat_map: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_flat_map: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_flat_map: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_flat_map: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_flat_map: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_flat_map: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_flat_map: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "static_flat_map: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_flat_map: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "static_flat_map: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "static_flat_map: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_flat_map: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_flat_map: iterators are not random access iterators over the elements");
}
namespace t_static_flat_multiset
{
typedef sfl::static_flat_multiset<Key, 3, Less> P; typedef sfl::static_flat_multiset<Key, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_flat_multiset: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_flat_multiset: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_flat_multiset: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "static_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "static_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "static_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "static_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "static_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "static_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "static_flat_multiset: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "static_flat_multiset: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "static_flat_multiset: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "static_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "static_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "static_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "static_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "static_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "static_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "static_flat_multiset: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "static_flat_multiset: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "static_flat_multiset: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "static_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "static_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "static_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "static_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "static_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "static_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "static_flat_multiset: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "static_flat_multiset: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "static_flat_multiset: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_flat_multiset: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "static_flat_multiset: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "static_flat_multiset: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "static_flat_multiset: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_flat_multiset: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "static_flat_multiset: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "static_flat_multiset: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "static_flat_multiset: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_flat_multiset: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_flat_multiset: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_flat_multiset: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_flat_multiset: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_flat_multiset: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_flat_multiset: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_flat_multiset: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "static_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_flat_multiset: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "static_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_flat_multiset: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "static_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_flat_multiset: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "static_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_flat_multiset: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "static_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "static_flat_multiset: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "static_flat_multiset: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "static_flat_multiset: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_flat_multiset: insert rejects an element");
static_assert(!CONV(const Less&, P), "static_flat_multiset: a function object converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "static_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "static_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "static_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_flat_multiset: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_flat_multiset: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_flat_multiset: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_flat_multiset: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_flat_multiset: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_flat_multiset: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_flat_multiset: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_flat_multiset: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "static_flat_multiset: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_flat_multiset: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_flat_multiset: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_flat_multiset: iterators are not random access iterators over the elements");
}
namespace t_static_flat_multimap
{
typedef sfl::static_flat_multimap<Key, Mapped, 3, Less> P; typedef sfl::static_flat_multimap<Key, Mapped, 3, TLess> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_flat_multimap: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_flat_multimap: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_flat_multimap: contains rejects a key");
static_assert(!has_lower_bound<P&, Het>::value && !has_lower_bound<const P&, Het>::value, "static_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het>::value && has_lower_bound<const T&, Het>::value, "static_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, const Het&>::value && !has_lower_bound<const P&, const Het&>::value, "static_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, const Het&>::value && has_lower_bound<const T&, const Het&>::value, "static_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, Het&>::value && !has_lower_bound<const P&, Het&>::value, "static_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, Het&>::value && has_lower_bound<const T&, Het&>::value, "static_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_lower_bound<P&, int>::value && !has_lower_bound<const P&, int>::value, "static_flat_multimap: lower_bound accepts a heterogeneous key without is_transparent");
static_assert(has_lower_bound<T&, int>::value && has_lower_bound<const T&, int>::value, "static_flat_multimap: lower_bound rejects a heterogeneous key with is_transparent");
static_assert(has_lower_bound<P&, const Key&>::value && has_lower_bound<const P&, const Key&>::value && has_lower_bound<T&, const Key&>::value && has_lower_bound<const T&, const Key&>::value, "static_flat_multimap: lower_bound rejects a key");
static_assert(!has_upper_bound<P&, Het>::value && !has_upper_bound<const P&, Het>::value, "static_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het>::value && has_upper_bound<const T&, Het>::value, "static_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, const Het&>::value && !has_upper_bound<const P&, const Het&>::value, "static_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, const Het&>::value && has_upper_bound<const T&, const Het&>::value, "static_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, Het&>::value && !has_upper_bound<const P&, Het&>::value, "static_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, Het&>::value && has_upper_bound<const T&, Het&>::value, "static_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(!has_upper_bound<P&, int>::value && !has_upper_bound<const P&, int>::value, "static_flat_multimap: upper_bound accepts a heterogeneous key without is_transparent");
static_assert(has_upper_bound<T&, int>::value && has_upper_bound<const T&, int>::value, "static_flat_multimap: upper_bound rejects a heterogeneous key with is_transparent");
static_assert(has_upper_bound<P&, const Key&>::value && has_upper_bound<const P&, const Key&>::value && has_upper_bound<T&, const Key&>::value && has_upper_bound<const T&, const Key&>::value, "static_flat_multimap: upper_bound rejects a key");
static_assert(!has_equal_range<P&, Het>::value && !has_equal_range<const P&, Het>::value, "static_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het>::value && has_equal_range<const T&, Het>::value, "static_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, const Het&>::value && !has_equal_range<const P&, const Het&>::value, "static_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, const Het&>::value && has_equal_range<const T&, const Het&>::value, "static_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, Het&>::value && !has_equal_range<const P&, Het&>::value, "static_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, Het&>::value && has_equal_range<const T&, Het&>::value, "static_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(!has_equal_range<P&, int>::value && !has_equal_range<const P&, int>::value, "static_flat_multimap: equal_range accepts a heterogeneous key without is_transparent");
static_assert(has_equal_range<T&, int>::value && has_equal_range<const T&, int>::value, "static_flat_multimap: equal_range rejects a heterogeneous key with is_transparent");
static_assert(has_equal_range<P&, const Key&>::value && has_equal_range<const P&, const Key&>::value && has_equal_range<T&, const Key&>::value && has_equal_range<const T&, const Key&>::value, "static_flat_multimap: equal_range rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_flat_multimap: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().lower_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().lower_bound(std::declval<const Key&>())), I), "static_flat_multimap: lower_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().upper_bound(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().upper_bound(std::declval<const Key&>())), I), "static_flat_multimap: upper_bound on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<T&>().equal_range(std::declval<Het>())), std::pair<I, I>) && IS(decltype(std::declval<T&>().equal_range(std::declval<const Key&>())), std::pair<I, I>), "static_flat_multimap: equal_range on a container returns the wrong iterators");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_flat_multimap: find on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().lower_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().lower_bound(std::declval<const Key&>())), K), "static_flat_multimap: lower_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().upper_bound(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().upper_bound(std::declval<const Key&>())), K), "static_flat_multimap: upper_bound on a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().equal_range(std::declval<Het>())), std::pair<K, K>) && IS(decltype(std::declval<const T&>().equal_range(std::declval<const Key&>())), std::pair<K, K>), "static_flat_multimap: equal_range on a const container returns the wrong iterators");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_flat_multimap: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_flat_multimap: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_flat_multimap: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_flat_multimap: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_flat_multimap: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_flat_multimap: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_flat_multimap: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Less&>::value, "static_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_flat_multimap: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Less&>::value, "static_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_flat_multimap: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Less&>::value, "static_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_flat_multimap: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Less&>::value, "static_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_flat_multimap: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Less&>::value, "static_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Less&>::value, "static_flat_multimap: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Less&>::value, "static_flat_multimap: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Less&>::value, "static_flat_multimap: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_flat_multimap: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "static_flat_multimap: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "static_flat_multimap: insert accepts a pair the element is not constructible from");
static_assert(!CONV(const Less&, P), "static_flat_multimap: a function object converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "static_flat_multimap: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_flat_multimap: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_flat_multimap: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_flat_multimap: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_flat_multimap: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_flat_multimap: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_flat_multimap: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_flat_multimap: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_flat_multimap: cbegin() or cend() returns the wrong iterator");
static_assert(IS(decltype(*std::declval<const C&>().rbegin()), const E&) && IS(decltype(*std::declval<const C&>().rend()), const E&) && IS(decltype(*std::declval<C&>().crbegin()), const E&), "static_flat_multimap: a reverse iterator of a const container gives mutable access");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_flat_multimap: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "static_flat_multimap: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "static_flat_multimap: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_flat_multimap: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_flat_multimap: iterators are not random access iterators over the elements");
}
namespace t_static_unordered_flat_set
{
typedef sfl::static_unordered_flat_set<Key, 3, Equal> P; typedef sfl::static_unordered_flat_set<Key, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_unordered_flat_set: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_unordered_flat_set: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_unordered_flat_set: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_unordered_flat_set: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_unordered_flat_set: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_unordered_flat_set: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_unordered_flat_set: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_unordered_flat_set: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_unordered_flat_set: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_unordered_flat_set: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_unordered_flat_set: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_unordered_flat_set: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_unordered_flat_set: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_unordered_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_unordered_flat_set: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_unordered_flat_set: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_unordered_flat_set: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_unordered_flat_set: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_unordered_flat_set: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_unordered_flat_set: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_unordered_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "static_unordered_flat_set: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_unordered_flat_set: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_unordered_flat_set: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "static_unordered_flat_set: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_unordered_flat_set: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_unordered_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "static_unordered_flat_set: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_set: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "static_unordered_flat_set: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_set: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "static_unordered_flat_set: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "static_unordered_flat_set: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "static_unordered_flat_set: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "static_unordered_flat_set: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_unordered_flat_set: insert rejects an element");
static_assert(!has_insert<P&, Het>::value && !has_insert<P&, PK, Het>::value, "static_unordered_flat_set: insert accepts a heterogeneous key without is_transparent");
static_assert(has_insert<T&, Het>::value && has_insert<T&, K, Het>::value, "static_unordered_flat_set: insert rejects a heterogeneous key with is_transparent");
static_assert(!CONV(const Equal&, P), "static_unordered_flat_set: a function object converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "static_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "static_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "static_unordered_flat_set: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_unordered_flat_set: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_unordered_flat_set: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_unordered_flat_set: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_unordered_flat_set: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_unordered_flat_set: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_unordered_flat_set: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_unordered_flat_set: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_unordered_flat_set: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_unordered_flat_set: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_unordered_flat_set: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_unordered_flat_set: iterators are not random access iterators over the elements");
}
namespace t_static_unordered_flat_map
{
typedef sfl::static_unordered_flat_map<Key, Mapped, 3, Equal> P; typedef sfl::static_unordered_flat_map<Key, Mapped, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_unordered_flat_map: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_unordered_flat_map: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_unordered_flat_map: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_unordered_flat_map: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_unordered_flat_map: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_unordered_flat_map: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_unordered_flat_map: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_unordered_flat_map: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_unordered_flat_map: contains rejects a key");
static_assert(!has_at<P&, Het>::value && !has_at<const P&, Het>::value, "static_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het>::value && has_at<const T&, Het>::value, "static_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, const Het&>::value && !has_at<const P&, const Het&>::value, "static_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, const Het&>::value && has_at<const T&, const Het&>::value, "static_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, Het&>::value && !has_at<const P&, Het&>::value, "static_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, Het&>::value && has_at<const T&, Het&>::value, "static_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(!has_at<P&, int>::value && !has_at<const P&, int>::value, "static_unordered_flat_map: at accepts a heterogeneous key without is_transparent");
static_assert(has_at<T&, int>::value && has_at<const T&, int>::value, "static_unordered_flat_map: at rejects a heterogeneous key with is_transparent");
static_assert(has_at<P&, const Key&>::value && has_at<const P&, const Key&>::value && has_at<T&, const Key&>::value && has_at<const T&, const Key&>::value, "static_unordered_flat_map: at rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_unordered_flat_map: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_unordered_flat_map: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_unordered_flat_map: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_unordered_flat_map: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_unordered_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_unordered_flat_map: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_unordered_flat_map: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_unordered_flat_map: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_unordered_flat_map: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_unordered_flat_map: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_unordered_flat_map: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_unordered_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "static_unordered_flat_map: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_unordered_flat_map: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_unordered_flat_map: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "static_unordered_flat_map: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_unordered_flat_map: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_unordered_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "static_unordered_flat_map: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_map: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "static_unordered_flat_map: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_map: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "static_unordered_flat_map: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "static_unordered_flat_map: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "static_unordered_flat_map: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "static_unordered_flat_map: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_unordered_flat_map: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "static_unordered_flat_map: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "static_unordered_flat_map: insert accepts a pair the element is not constructible from");
static_assert(!has_index<P&, Het>::value && !has_index<P&, const Het&>::value, "static_unordered_flat_map: operator[] accepts a heterogeneous key without is_transparent");
static_assert(has_index<T&, Het>::value && has_index<T&, const Het&>::value, "static_unordered_flat_map: operator[] rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, Het, Foo>::value && !has_insert_or_assign<P&, PK, Het, Foo>::value && !has_try_emplace<P&, Het, Foo>::value && !has_try_emplace<P&, PK, Het, Foo>::value, "static_unordered_flat_map: insert_or_assign or try_emplace accepts a heterogeneous key without is_transparent");
static_assert(has_insert_or_assign<T&, Het, Foo>::value && has_insert_or_assign<T&, K, Het, Foo>::value && has_try_emplace<T&, Het, Foo>::value && has_try_emplace<T&, K, Het, Foo>::value, "static_unordered_flat_map: insert_or_assign or try_emplace rejects a heterogeneous key with is_transparent");
static_assert(!has_insert_or_assign<P&, const Key&, void*>::value && !has_insert_or_assign<P&, PK, const Key&, void*>::value, "static_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<P&, Key, void*>::value && !has_insert_or_assign<P&, PK, Key, void*>::value, "static_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<P&, const Key&, Foo>::value && has_insert_or_assign<P&, PK, const Key&, Foo>::value, "static_unordered_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<P&, Key, Foo>::value && has_insert_or_assign<P&, PK, Key, Foo>::value, "static_unordered_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, const Key&, void*>::value && !has_insert_or_assign<T&, K, const Key&, void*>::value, "static_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(!has_insert_or_assign<T&, Key, void*>::value && !has_insert_or_assign<T&, K, Key, void*>::value, "static_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(has_insert_or_assign<T&, const Key&, Foo>::value && has_insert_or_assign<T&, K, const Key&, Foo>::value, "static_unordered_flat_map: insert_or_assign rejects a key");
static_assert(has_insert_or_assign<T&, Key, Foo>::value && has_insert_or_assign<T&, K, Key, Foo>::value, "static_unordered_flat_map: insert_or_assign rejects a key");
static_assert(!has_insert_or_assign<T&, Het, void*>::value && !has_insert_or_assign<T&, K, Het, void*>::value, "static_unordered_flat_map: insert_or_assign accepts a value that cannot be assigned");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<const Key&>(), 1)), I), "static_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<const Key&>(), Foo())), I), "static_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<I>(), std::declval<Key>(), 1)), I), "static_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<I>(), std::declval<Key>(), Foo())), I), "static_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<const Key&>(), 1)), I), "static_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<const Key&>(), Foo())), I), "static_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().try_emplace(std::declval<K>(), std::declval<Key>(), 1)), I), "static_unordered_flat_map: try_emplace with a hint is taken for one with a heterogeneous key");
static_assert(IS(decltype(std::declval<T&>().insert_or_assign(std::declval<K>(), std::declval<Key>(), Foo())), I), "static_unordered_flat_map: insert_or_assign with a hint is taken for one with a heterogeneous key");
static_assert(!CONV(const Equal&, P), "static_unordered_flat_map: a function object converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "static_unordered_flat_map: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_unordered_flat_map: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_unordered_flat_map: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_unordered_flat_map: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_unordered_flat_map: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_unordered_flat_map: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_unordered_flat_map: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_unordered_flat_map: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_unordered_flat_map: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_unordered_flat_map: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "static_unordered_flat_map: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "static_unordered_flat_map: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_unordered_flat_map: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_unordered_flat_map: iterators are not random access iterators over the elements");
}
namespace t_static_unordered_flat_multiset
{
typedef sfl::static_unordered_flat_multiset<Key, 3, Equal> P; typedef sfl::static_unordered_flat_multiset<Key, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_unordered_flat_multiset: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_unordered_flat_multiset: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_unordered_flat_multiset: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_unordered_flat_multiset: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_unordered_flat_multiset: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_unordered_flat_multiset: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_unordered_flat_multiset: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_unordered_flat_multiset: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_unordered_flat_multiset: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_unordered_flat_multiset: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_unordered_flat_multiset: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_unordered_flat_multiset: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_unordered_flat_multiset: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_unordered_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_unordered_flat_multiset: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_unordered_flat_multiset: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_unordered_flat_multiset: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_unordered_flat_multiset: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_unordered_flat_multiset: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_unordered_flat_multiset: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_unordered_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "static_unordered_flat_multiset: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_unordered_flat_multiset: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_unordered_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "static_unordered_flat_multiset: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_unordered_flat_multiset: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_unordered_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "static_unordered_flat_multiset: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_multiset: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "static_unordered_flat_multiset: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_multiset: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "static_unordered_flat_multiset: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "static_unordered_flat_multiset: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "static_unordered_flat_multiset: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "static_unordered_flat_multiset: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_unordered_flat_multiset: insert rejects an element");
static_assert(!CONV(const Equal&, P), "static_unordered_flat_multiset: a function object converts to a container");
static_assert(IS(decltype(*std::declval<I&>()), const Key&) && IS(decltype(*std::declval<K&>()), const Key&) && IS(I::reference, const Key&), "static_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(std::declval<I&>()[0]), const Key&) && IS(decltype(std::declval<I&>().operator->()), const Key*), "static_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<T&>().begin()), const Key&) && IS(decltype(*std::declval<T&>().nth(0)), const Key&) && IS(decltype(*std::declval<T&>().find(std::declval<const Key&>())), const Key&), "static_unordered_flat_multiset: iterators give mutable access to keys");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_unordered_flat_multiset: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_unordered_flat_multiset: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_unordered_flat_multiset: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_unordered_flat_multiset: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_unordered_flat_multiset: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_unordered_flat_multiset: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_unordered_flat_multiset: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_unordered_flat_multiset: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_unordered_flat_multiset: iterator does not convert to const_iterator");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_unordered_flat_multiset: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_unordered_flat_multiset: iterators are not random access iterators over the elements");
}
namespace t_static_unordered_flat_multimap
{
typedef sfl::static_unordered_flat_multimap<Key, Mapped, 3, Equal> P; typedef sfl::static_unordered_flat_multimap<Key, Mapped, 3, TEqual> T; typedef T C; typedef T::iterator I; typedef T::const_iterator K; typedef T::value_type E; typedef P::iterator PI; typedef P::const_iterator PK;
static_assert(!has_find<P&, Het>::value && !has_find<const P&, Het>::value, "static_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het>::value && has_find<const T&, Het>::value, "static_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, const Het&>::value && !has_find<const P&, const Het&>::value, "static_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, const Het&>::value && has_find<const T&, const Het&>::value, "static_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, Het&>::value && !has_find<const P&, Het&>::value, "static_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, Het&>::value && has_find<const T&, Het&>::value, "static_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(!has_find<P&, int>::value && !has_find<const P&, int>::value, "static_unordered_flat_multimap: find accepts a heterogeneous key without is_transparent");
static_assert(has_find<T&, int>::value && has_find<const T&, int>::value, "static_unordered_flat_multimap: find rejects a heterogeneous key with is_transparent");
static_assert(has_find<P&, const Key&>::value && has_find<const P&, const Key&>::value && has_find<T&, const Key&>::value && has_find<const T&, const Key&>::value, "static_unordered_flat_multimap: find rejects a key");
static_assert(!has_count<P&, Het>::value && !has_count<const P&, Het>::value, "static_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het>::value && has_count<const T&, Het>::value, "static_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, const Het&>::value && !has_count<const P&, const Het&>::value, "static_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, const Het&>::value && has_count<const T&, const Het&>::value, "static_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, Het&>::value && !has_count<const P&, Het&>::value, "static_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, Het&>::value && has_count<const T&, Het&>::value, "static_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(!has_count<P&, int>::value && !has_count<const P&, int>::value, "static_unordered_flat_multimap: count accepts a heterogeneous key without is_transparent");
static_assert(has_count<T&, int>::value && has_count<const T&, int>::value, "static_unordered_flat_multimap: count rejects a heterogeneous key with is_transparent");
static_assert(has_count<P&, const Key&>::value && has_count<const P&, const Key&>::value && has_count<T&, const Key&>::value && has_count<const T&, const Key&>::value, "static_unordered_flat_multimap: count rejects a key");
static_assert(!has_contains<P&, Het>::value && !has_contains<const P&, Het>::value, "static_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het>::value && has_contains<const T&, Het>::value, "static_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, const Het&>::value && !has_contains<const P&, const Het&>::value, "static_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, const Het&>::value && has_contains<const T&, const Het&>::value, "static_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, Het&>::value && !has_contains<const P&, Het&>::value, "static_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, Het&>::value && has_contains<const T&, Het&>::value, "static_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(!has_contains<P&, int>::value && !has_contains<const P&, int>::value, "static_unordered_flat_multimap: contains accepts a heterogeneous key without is_transparent");
static_assert(has_contains<T&, int>::value && has_contains<const T&, int>::value, "static_unordered_flat_multimap: contains rejects a heterogeneous key with is_transparent");
static_assert(has_contains<P&, const Key&>::value && has_contains<const P&, const Key&>::value && has_contains<T&, const Key&>::value && has_contains<const T&, const Key&>::value, "static_unordered_flat_multimap: contains rejects a key");
static_assert(IS(decltype(std::declval<T&>().find(std::declval<Het>())), I) && IS(decltype(std::declval<T&>().find(std::declval<const Key&>())), I), "static_unordered_flat_multimap: find on a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const T&>().find(std::declval<Het>())), K) && IS(decltype(std::declval<const T&>().find(std::declval<const Key&>())), K), "static_unordered_flat_multimap: find on a const container returns the wrong iterator");
static_assert(!has_erase<P&, Het>::value && !has_erase<P&, const Het&>::value, "static_unordered_flat_multimap: erase accepts a heterogeneous key without is_transparent");
static_assert(has_erase<T&, Het>::value && has_erase<T&, const Het&>::value, "static_unordered_flat_multimap: erase rejects a heterogeneous key with is_transparent");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<PI>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PI&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<PK&>())), PI) && IS(decltype(std::declval<P&>().erase(std::declval<const PK&>())), PI), "static_unordered_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<P&>().erase(std::declval<const Key&>())), P::size_type) && IS(decltype(std::declval<P&>().erase(std::declval<Key&>())), P::size_type), "static_unordered_flat_multimap: erase of a key does not return a count");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<I>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const I&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<K&>())), I) && IS(decltype(std::declval<T&>().erase(std::declval<const K&>())), I), "static_unordered_flat_multimap: erase of an iterator is not erase(iterator)");
static_assert(IS(decltype(std::declval<T&>().erase(std::declval<const Key&>())), T::size_type) && IS(decltype(std::declval<T&>().erase(std::declval<Key&>())), T::size_type), "static_unordered_flat_multimap: erase of a key does not return a count");
static_assert(!has_insert<P&, Foo>::value && !has_insert<P&, PK, Foo>::value, "static_unordered_flat_multimap: insert accepts Foo as an element");
static_assert(!has_insert<P&, std::nullptr_t>::value && !has_insert<P&, PK, std::nullptr_t>::value, "static_unordered_flat_multimap: insert accepts std::nullptr_t as an element");
static_assert(!has_insert<P&, Foo, Foo>::value, "static_unordered_flat_multimap: insert accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo>::value, "static_unordered_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!std::is_constructible<P, Foo, Foo, const Equal&>::value, "static_unordered_flat_multimap: constructor accepts a pair of Foo as a range");
static_assert(!has_insert<P&, int, int>::value, "static_unordered_flat_multimap: insert accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int>::value, "static_unordered_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!std::is_constructible<P, int, int, const Equal&>::value, "static_unordered_flat_multimap: constructor accepts a pair of int as a range");
static_assert(!has_insert<P&, NotIt, NotIt>::value, "static_unordered_flat_multimap: insert accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt>::value, "static_unordered_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!std::is_constructible<P, NotIt, NotIt, const Equal&>::value, "static_unordered_flat_multimap: constructor accepts a pair of NotIt as a range");
static_assert(!has_insert<P&, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_multimap: insert accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>>::value, "static_unordered_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!std::is_constructible<P, OutIt<E>, OutIt<E>, const Equal&>::value, "static_unordered_flat_multimap: constructor accepts a pair of OutIt<E> as a range");
static_assert(!has_insert<P&, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_multimap: insert accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t>::value, "static_unordered_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(!std::is_constructible<P, std::nullptr_t, std::nullptr_t, const Equal&>::value, "static_unordered_flat_multimap: constructor accepts a pair of std::nullptr_t as a range");
static_assert(has_insert<P&, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>>::value && std::is_constructible<P, It<E, std::input_iterator_tag>, It<E, std::input_iterator_tag>, const Equal&>::value, "static_unordered_flat_multimap: a range of std::input_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>>::value && std::is_constructible<P, It<E, std::forward_iterator_tag>, It<E, std::forward_iterator_tag>, const Equal&>::value, "static_unordered_flat_multimap: a range of std::forward_iterator_tag is rejected");
static_assert(has_insert<P&, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>>::value && std::is_constructible<P, It<E, std::random_access_iterator_tag>, It<E, std::random_access_iterator_tag>, const Equal&>::value, "static_unordered_flat_multimap: a range of std::random_access_iterator_tag is rejected");
static_assert(has_insert<P&, const E&>::value && has_insert<P&, E&&>::value && has_insert<P&, PK, const E&>::value && has_insert<P&, PK, E&&>::value && has_insert<P&, PI, E&&>::value, "static_unordered_flat_multimap: insert rejects an element");
static_assert(has_insert<P&, std::pair<int, int>>::value && has_insert<P&, PK, std::pair<int, int>>::value, "static_unordered_flat_multimap: insert rejects a pair the element is constructible from");
static_assert(!has_insert<P&, std::pair<void*, int>>::value && !has_insert<P&, PK, std::pair<int, void*>>::value, "static_unordered_flat_multimap: insert accepts a pair the element is not constructible from");
static_assert(!CONV(const Equal&, P), "static_unordered_flat_multimap: a function object converts to a container");
static_assert(IS(decltype((*std::declval<I&>()).second), Mapped) && IS(decltype(*std::declval<K&>()), const E&), "static_unordered_flat_multimap: const_iterator gives mutable access");
static_assert(IS(decltype(*std::declval<const T&>().data()), const E&), "static_unordered_flat_multimap: data() of a const container gives mutable access");
static_assert(IS(decltype(std::declval<C&>().begin()), I), "static_unordered_flat_multimap: begin() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().end()), I), "static_unordered_flat_multimap: end() of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().nth(0)), I), "static_unordered_flat_multimap: nth(0) of a container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().begin()), K), "static_unordered_flat_multimap: begin() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().end()), K), "static_unordered_flat_multimap: end() of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<const C&>().nth(0)), K), "static_unordered_flat_multimap: nth(0) of a const container returns the wrong iterator");
static_assert(IS(decltype(std::declval<C&>().cbegin()), K) && IS(decltype(std::declval<C&>().cend()), K), "static_unordered_flat_multimap: cbegin() or cend() returns the wrong iterator");
static_assert(CONV(I, K) && std::is_assignable<K&, I>::value, "static_unordered_flat_multimap: iterator does not convert to const_iterator");
static_assert(!std::is_constructible<I, K>::value && !std::is_assignable<I&, K>::value, "static_unordered_flat_multimap: const_iterator converts to iterator");
static_assert(has_eq<I, K>::value && has_eq<K, I>::value && has_minus<I, K>::value && has_minus<K, I>::value, "static_unordered_flat_multimap: iterator and const_iterator cannot be mixed");
static_assert(!CONV(E*, I) && !CONV(const E*, K) && !CONV(I, E*) && !CONV(K, const E*), "static_unordered_flat_multimap: pointers and iterators convert into each other");
static_assert(IS(std::iterator_traits<I>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<K>::iterator_category, std::random_access_iterator_tag) && IS(std::iterator_traits<I>::value_type, E) && IS(std::iterator_traits<K>::value_type, E), "static_unordered_flat_multimap: iterators are not random access iterators over the elements");
}
namespace distinct
{
typedef sfl::vector<std::pair<Key, Mapped>> m_vector; typedef sfl::vector<Key> s_vector;
typedef sfl::compact_vector<std::pair<Key, Mapped>> m_compact_vector; typedef sfl::compact_vector<Key> s_compact_vector;
typedef sfl::devector<std::pair<Key, Mapped>> m_devector; typedef sfl::devector<Key> s_devector;
typedef sfl::segmented_vector<std::pair<Key, Mapped>, 3> m_segmented_vector; typedef sfl::segmented_vector<Key, 3> s_segmented_vector;
typedef sfl::segmented_devector<std::pair<Key, Mapped>, 3> m_segmented_devector; typedef sfl::segmented_devector<Key, 3> s_segmented_devector;
typedef sfl::small_vector<std::pair<Key, Mapped>, 3> m_small_vector; typedef sfl::small_vector<Key, 3> s_small_vector;
typedef sfl::static_vector<std::pair<Key, Mapped>, 3> m_static_vector; typedef sfl::static_vector<Key, 3> s_static_vector;
typedef sfl::small_flat_set<Key, 3, Less> s_small_flat_set;
typedef sfl::small_flat_map<Key, Mapped, 3, Less> m_small_flat_map;
typedef sfl::small_flat_multiset<Key, 3, Less> s_small_flat_multiset;
typedef sfl::small_flat_multimap<Key, Mapped, 3, Less> m_small_flat_multimap;
typedef sfl::small_unordered_flat_set<Key, 3, Equal> s_small_unordered_flat_set;
typedef sfl::small_unordered_flat_map<Key, Mapped, 3, Equal> m_small_unordered_flat_map;
typedef sfl::small_unordered_flat_multiset<Key, 3, Equal> s_small_unordered_flat_multiset;
typedef sfl::small_unordered_flat_multimap<Key, Mapped, 3, Equal> m_small_unordered_flat_multimap;
typedef sfl::static_flat_set<Key, 3, Less> s_static_flat_set;
typedef sfl::static_flat_map<Key, Mapped, 3, Less> m_static_flat_map;
typedef sfl::static_flat_multiset<Key, 3, Less> s_static_flat_multiset;
typedef sfl::static_flat_multimap<Key, Mapped, 3, Less> m_static_flat_multimap;
typedef sfl::static_unordered_flat_set<Key, 3, Equal> s_static_unordered_flat_set;
typedef sfl::static_unordered_flat_map<Key, Mapped, 3, Equal> m_static_unordered_flat_map;
typedef sfl::static_unordered_flat_multiset<Key, 3, Equal> s_static_unordered_flat_multiset;
typedef sfl::static_unordered_flat_multimap<Key, Mapped, 3, Equal> m_static_unordered_flat_multimap;
static_assert(!IS(m_vector::iterator, m_compact_vector::iterator) && !CONV(m_vector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_compact_vector::const_iterator) && !CONV(m_compact_vector::iterator, m_vector::const_iterator), "iterators of vector and compact_vector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_compact_vector::iterator>::value && !has_eq<m_vector::iterator, m_compact_vector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_compact_vector::const_iterator>::value, "iterators of vector and compact_vector can be compared");
static_assert(!IS(m_vector::iterator, m_devector::iterator) && !CONV(m_vector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_devector::const_iterator) && !CONV(m_devector::iterator, m_vector::const_iterator), "iterators of vector and devector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_devector::iterator>::value && !has_eq<m_vector::iterator, m_devector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_devector::const_iterator>::value, "iterators of vector and devector can be compared");
static_assert(!IS(m_vector::iterator, m_segmented_vector::iterator) && !CONV(m_vector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_segmented_vector::const_iterator) && !CONV(m_segmented_vector::iterator, m_vector::const_iterator), "iterators of vector and segmented_vector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_segmented_vector::iterator>::value && !has_eq<m_vector::iterator, m_segmented_vector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_segmented_vector::const_iterator>::value, "iterators of vector and segmented_vector can be compared");
static_assert(!IS(m_vector::iterator, m_segmented_devector::iterator) && !CONV(m_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_segmented_devector::const_iterator) && !CONV(m_segmented_devector::iterator, m_vector::const_iterator), "iterators of vector and segmented_devector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_segmented_devector::iterator>::value && !has_eq<m_vector::iterator, m_segmented_devector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_segmented_devector::const_iterator>::value, "iterators of vector and segmented_devector can be compared");
static_assert(!IS(m_vector::iterator, m_small_vector::iterator) && !CONV(m_vector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_small_vector::const_iterator) && !CONV(m_small_vector::iterator, m_vector::const_iterator), "iterators of vector and small_vector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_small_vector::iterator>::value && !has_eq<m_vector::iterator, m_small_vector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_small_vector::const_iterator>::value, "iterators of vector and small_vector can be compared");
static_assert(!IS(m_vector::iterator, m_static_vector::iterator) && !CONV(m_vector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_vector::const_iterator), "iterators of vector and static_vector are not distinct");
static_assert(!has_eq<m_vector::iterator, m_static_vector::iterator>::value && !has_eq<m_vector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_vector::const_iterator, m_static_vector::const_iterator>::value, "iterators of vector and static_vector can be compared");
static_assert(!IS(s_vector::iterator, s_small_flat_set::iterator) && !CONV(s_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_vector::const_iterator), "iterators of vector and small_flat_set are not distinct");
static_assert(!has_eq<s_vector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_vector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_vector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of vector and small_flat_set can be compared");
static_assert(!IS(m_vector::iterator, m_small_flat_map::iterator) && !CONV(m_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_vector::const_iterator), "iterators of vector and small_flat_map are not distinct");
static_assert(!has_eq<m_vector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_vector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_vector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of vector and small_flat_map can be compared");
static_assert(!IS(s_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_vector::const_iterator), "iterators of vector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_vector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_vector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_vector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of vector and small_flat_multiset can be compared");
static_assert(!IS(m_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_vector::const_iterator), "iterators of vector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_vector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_vector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_vector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of vector and small_flat_multimap can be compared");
static_assert(!IS(s_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_vector::const_iterator), "iterators of vector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_vector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_vector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_vector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of vector and small_unordered_flat_set can be compared");
static_assert(!IS(m_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_vector::const_iterator), "iterators of vector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_vector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_vector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_vector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of vector and small_unordered_flat_map can be compared");
static_assert(!IS(s_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_vector::const_iterator), "iterators of vector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_vector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_vector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_vector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of vector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_vector::const_iterator), "iterators of vector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_vector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_vector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_vector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of vector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_vector::iterator, s_static_flat_set::iterator) && !CONV(s_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_vector::const_iterator), "iterators of vector and static_flat_set are not distinct");
static_assert(!has_eq<s_vector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_vector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_vector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of vector and static_flat_set can be compared");
static_assert(!IS(m_vector::iterator, m_static_flat_map::iterator) && !CONV(m_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_vector::const_iterator), "iterators of vector and static_flat_map are not distinct");
static_assert(!has_eq<m_vector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_vector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_vector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of vector and static_flat_map can be compared");
static_assert(!IS(s_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_vector::const_iterator), "iterators of vector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_vector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_vector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_vector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of vector and static_flat_multiset can be compared");
static_assert(!IS(m_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_vector::const_iterator), "iterators of vector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_vector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_vector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_vector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of vector and static_flat_multimap can be compared");
static_assert(!IS(s_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_vector::const_iterator), "iterators of vector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_vector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_vector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_vector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of vector and static_unordered_flat_set can be compared");
static_assert(!IS(m_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_vector::const_iterator), "iterators of vector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_vector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_vector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_vector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of vector and static_unordered_flat_map can be compared");
static_assert(!IS(s_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_vector::iterator) && !CONV(s_vector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_vector::const_iterator), "iterators of vector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_vector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_vector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_vector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of vector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_vector::iterator) && !CONV(m_vector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_vector::const_iterator), "iterators of vector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_vector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_vector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_vector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of vector and static_unordered_flat_multimap can be compared");
static_assert(!IS(m_compact_vector::iterator, m_devector::iterator) && !CONV(m_compact_vector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_devector::const_iterator) && !CONV(m_devector::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and devector are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_devector::iterator>::value && !has_eq<m_compact_vector::iterator, m_devector::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_devector::const_iterator>::value, "iterators of compact_vector and devector can be compared");
static_assert(!IS(m_compact_vector::iterator, m_segmented_vector::iterator) && !CONV(m_compact_vector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_segmented_vector::const_iterator) && !CONV(m_segmented_vector::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and segmented_vector are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_segmented_vector::iterator>::value && !has_eq<m_compact_vector::iterator, m_segmented_vector::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_segmented_vector::const_iterator>::value, "iterators of compact_vector and segmented_vector can be compared");
static_assert(!IS(m_compact_vector::iterator, m_segmented_devector::iterator) && !CONV(m_compact_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_segmented_devector::const_iterator) && !CONV(m_segmented_devector::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and segmented_devector are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_segmented_devector::iterator>::value && !has_eq<m_compact_vector::iterator, m_segmented_devector::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_segmented_devector::const_iterator>::value, "iterators of compact_vector and segmented_devector can be compared");
static_assert(!IS(m_compact_vector::iterator, m_small_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_vector::const_iterator) && !CONV(m_small_vector::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and small_vector are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_small_vector::iterator>::value && !has_eq<m_compact_vector::iterator, m_small_vector::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_small_vector::const_iterator>::value, "iterators of compact_vector and small_vector can be compared");
static_assert(!IS(m_compact_vector::iterator, m_static_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and static_vector are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_static_vector::iterator>::value && !has_eq<m_compact_vector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_static_vector::const_iterator>::value, "iterators of compact_vector and static_vector can be compared");
static_assert(!IS(s_compact_vector::iterator, s_small_flat_set::iterator) && !CONV(s_compact_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and small_flat_set are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_compact_vector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of compact_vector and small_flat_set can be compared");
static_assert(!IS(m_compact_vector::iterator, m_small_flat_map::iterator) && !CONV(m_compact_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and small_flat_map are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_compact_vector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of compact_vector and small_flat_map can be compared");
static_assert(!IS(s_compact_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_compact_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_compact_vector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of compact_vector and small_flat_multiset can be compared");
static_assert(!IS(m_compact_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_compact_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_compact_vector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of compact_vector and small_flat_multimap can be compared");
static_assert(!IS(s_compact_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_compact_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_compact_vector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of compact_vector and small_unordered_flat_set can be compared");
static_assert(!IS(m_compact_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_compact_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_compact_vector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of compact_vector and small_unordered_flat_map can be compared");
static_assert(!IS(s_compact_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_compact_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_compact_vector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of compact_vector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_compact_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_compact_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_compact_vector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of compact_vector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_compact_vector::iterator, s_static_flat_set::iterator) && !CONV(s_compact_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and static_flat_set are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_compact_vector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of compact_vector and static_flat_set can be compared");
static_assert(!IS(m_compact_vector::iterator, m_static_flat_map::iterator) && !CONV(m_compact_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and static_flat_map are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_compact_vector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of compact_vector and static_flat_map can be compared");
static_assert(!IS(s_compact_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_compact_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_compact_vector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of compact_vector and static_flat_multiset can be compared");
static_assert(!IS(m_compact_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_compact_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_compact_vector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of compact_vector and static_flat_multimap can be compared");
static_assert(!IS(s_compact_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_compact_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_compact_vector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of compact_vector and static_unordered_flat_set can be compared");
static_assert(!IS(m_compact_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_compact_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_compact_vector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of compact_vector and static_unordered_flat_map can be compared");
static_assert(!IS(s_compact_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_compact_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_compact_vector::iterator) && !CONV(s_compact_vector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_compact_vector::const_iterator), "iterators of compact_vector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_compact_vector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_compact_vector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_compact_vector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of compact_vector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_compact_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_compact_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_compact_vector::iterator) && !CONV(m_compact_vector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_compact_vector::const_iterator), "iterators of compact_vector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_compact_vector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_compact_vector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_compact_vector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of compact_vector and static_unordered_flat_multimap can be compared");
static_assert(!IS(m_devector::iterator, m_segmented_vector::iterator) && !CONV(m_devector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_segmented_vector::const_iterator) && !CONV(m_segmented_vector::iterator, m_devector::const_iterator), "iterators of devector and segmented_vector are not distinct");
static_assert(!has_eq<m_devector::iterator, m_segmented_vector::iterator>::value && !has_eq<m_devector::iterator, m_segmented_vector::const_iterator>::value && !has_eq<m_devector::const_iterator, m_segmented_vector::const_iterator>::value, "iterators of devector and segmented_vector can be compared");
static_assert(!IS(m_devector::iterator, m_segmented_devector::iterator) && !CONV(m_devector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_segmented_devector::const_iterator) && !CONV(m_segmented_devector::iterator, m_devector::const_iterator), "iterators of devector and segmented_devector are not distinct");
static_assert(!has_eq<m_devector::iterator, m_segmented_devector::iterator>::value && !has_eq<m_devector::iterator, m_segmented_devector::const_iterator>::value && !has_eq<m_devector::const_iterator, m_segmented_devector::const_iterator>::value, "iterators of devector and segmented_devector can be compared");
static_assert(!IS(m_devector::iterator, m_small_vector::iterator) && !CONV(m_devector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_small_vector::const_iterator) && !CONV(m_small_vector::iterator, m_devector::const_iterator), "iterators of devector and small_vector are not distinct");
static_assert(!has_eq<m_devector::iterator, m_small_vector::iterator>::value && !has_eq<m_devector::iterator, m_small_vector::const_iterator>::value && !has_eq<m_devector::const_iterator, m_small_vector::const_iterator>::value, "iterators of devector and small_vector can be compared");
static_assert(!IS(m_devector::iterator, m_static_vector::iterator) && !CONV(m_devector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_devector::const_iterator), "iterators of devector and static_vector are not distinct");
static_assert(!has_eq<m_devector::iterator, m_static_vector::iterator>::value && !has_eq<m_devector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_devector::const_iterator, m_static_vector::const_iterator>::value, "iterators of devector and static_vector can be compared");
static_assert(!IS(s_devector::iterator, s_small_flat_set::iterator) && !CONV(s_devector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_devector::const_iterator), "iterators of devector and small_flat_set are not distinct");
static_assert(!has_eq<s_devector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_devector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_devector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of devector and small_flat_set can be compared");
static_assert(!IS(m_devector::iterator, m_small_flat_map::iterator) && !CONV(m_devector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_devector::const_iterator), "iterators of devector and small_flat_map are not distinct");
static_assert(!has_eq<m_devector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_devector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_devector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of devector and small_flat_map can be compared");
static_assert(!IS(s_devector::iterator, s_small_flat_multiset::iterator) && !CONV(s_devector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_devector::const_iterator), "iterators of devector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_devector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_devector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_devector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of devector and small_flat_multiset can be compared");
static_assert(!IS(m_devector::iterator, m_small_flat_multimap::iterator) && !CONV(m_devector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_devector::const_iterator), "iterators of devector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_devector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_devector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_devector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of devector and small_flat_multimap can be compared");
static_assert(!IS(s_devector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_devector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_devector::const_iterator), "iterators of devector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_devector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_devector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_devector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of devector and small_unordered_flat_set can be compared");
static_assert(!IS(m_devector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_devector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_devector::const_iterator), "iterators of devector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_devector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_devector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_devector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of devector and small_unordered_flat_map can be compared");
static_assert(!IS(s_devector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_devector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_devector::const_iterator), "iterators of devector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_devector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_devector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_devector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of devector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_devector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_devector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_devector::const_iterator), "iterators of devector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_devector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_devector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_devector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of devector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_devector::iterator, s_static_flat_set::iterator) && !CONV(s_devector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_devector::const_iterator), "iterators of devector and static_flat_set are not distinct");
static_assert(!has_eq<s_devector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_devector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_devector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of devector and static_flat_set can be compared");
static_assert(!IS(m_devector::iterator, m_static_flat_map::iterator) && !CONV(m_devector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_devector::const_iterator), "iterators of devector and static_flat_map are not distinct");
static_assert(!has_eq<m_devector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_devector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_devector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of devector and static_flat_map can be compared");
static_assert(!IS(s_devector::iterator, s_static_flat_multiset::iterator) && !CONV(s_devector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_devector::const_iterator), "iterators of devector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_devector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_devector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_devector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of devector and static_flat_multiset can be compared");
static_assert(!IS(m_devector::iterator, m_static_flat_multimap::iterator) && !CONV(m_devector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_devector::const_iterator), "iterators of devector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_devector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_devector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_devector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of devector and static_flat_multimap can be compared");
static_assert(!IS(s_devector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_devector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_devector::const_iterator), "iterators of devector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_devector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_devector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_devector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of devector and static_unordered_flat_set can be compared");
static_assert(!IS(m_devector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_devector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_devector::const_iterator), "iterators of devector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_devector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_devector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_devector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of devector and static_unordered_flat_map can be compared");
static_assert(!IS(s_devector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_devector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_devector::iterator) && !CONV(s_devector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_devector::const_iterator), "iterators of devector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_devector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_devector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_devector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of devector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_devector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_devector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_devector::iterator) && !CONV(m_devector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_devector::const_iterator), "iterators of devector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_devector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_devector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_devector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of devector and static_unordered_flat_multimap can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_segmented_devector::const_iterator) && !CONV(m_segmented_devector::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and segmented_devector are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_segmented_devector::iterator>::value && !has_eq<m_segmented_vector::iterator, m_segmented_devector::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_segmented_devector::const_iterator>::value, "iterators of segmented_vector and segmented_devector can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_small_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_vector::const_iterator) && !CONV(m_small_vector::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and small_vector are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_small_vector::iterator>::value && !has_eq<m_segmented_vector::iterator, m_small_vector::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_small_vector::const_iterator>::value, "iterators of segmented_vector and small_vector can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_static_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and static_vector are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_static_vector::iterator>::value && !has_eq<m_segmented_vector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_static_vector::const_iterator>::value, "iterators of segmented_vector and static_vector can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_small_flat_set::iterator) && !CONV(s_segmented_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and small_flat_set are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_segmented_vector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of segmented_vector and small_flat_set can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_small_flat_map::iterator) && !CONV(m_segmented_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and small_flat_map are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_segmented_vector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of segmented_vector and small_flat_map can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_segmented_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_segmented_vector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of segmented_vector and small_flat_multiset can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_segmented_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_segmented_vector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of segmented_vector and small_flat_multimap can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_segmented_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_segmented_vector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of segmented_vector and small_unordered_flat_set can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_segmented_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_segmented_vector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of segmented_vector and small_unordered_flat_map can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_segmented_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_segmented_vector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of segmented_vector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_segmented_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_segmented_vector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of segmented_vector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_static_flat_set::iterator) && !CONV(s_segmented_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and static_flat_set are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_segmented_vector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of segmented_vector and static_flat_set can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_static_flat_map::iterator) && !CONV(m_segmented_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and static_flat_map are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_segmented_vector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of segmented_vector and static_flat_map can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_segmented_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_segmented_vector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of segmented_vector and static_flat_multiset can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_segmented_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_segmented_vector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of segmented_vector and static_flat_multimap can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_segmented_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_segmented_vector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of segmented_vector and static_unordered_flat_set can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_segmented_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_segmented_vector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of segmented_vector and static_unordered_flat_map can be compared");
static_assert(!IS(s_segmented_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_segmented_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_segmented_vector::iterator) && !CONV(s_segmented_vector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_segmented_vector::const_iterator), "iterators of segmented_vector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_vector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_segmented_vector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_segmented_vector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of segmented_vector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_segmented_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_segmented_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_segmented_vector::iterator) && !CONV(m_segmented_vector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_segmented_vector::const_iterator), "iterators of segmented_vector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_vector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_segmented_vector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_segmented_vector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of segmented_vector and static_unordered_flat_multimap can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_small_vector::iterator) && !CONV(m_segmented_devector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_small_vector::const_iterator) && !CONV(m_small_vector::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and small_vector are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_small_vector::iterator>::value && !has_eq<m_segmented_devector::iterator, m_small_vector::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_small_vector::const_iterator>::value, "iterators of segmented_devector and small_vector can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_static_vector::iterator) && !CONV(m_segmented_devector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and static_vector are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_static_vector::iterator>::value && !has_eq<m_segmented_devector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_static_vector::const_iterator>::value, "iterators of segmented_devector and static_vector can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_small_flat_set::iterator) && !CONV(s_segmented_devector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and small_flat_set are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_segmented_devector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of segmented_devector and small_flat_set can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_small_flat_map::iterator) && !CONV(m_segmented_devector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and small_flat_map are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_segmented_devector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of segmented_devector and small_flat_map can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_small_flat_multiset::iterator) && !CONV(s_segmented_devector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_segmented_devector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of segmented_devector and small_flat_multiset can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_small_flat_multimap::iterator) && !CONV(m_segmented_devector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_segmented_devector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of segmented_devector and small_flat_multimap can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_segmented_devector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_segmented_devector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of segmented_devector and small_unordered_flat_set can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_segmented_devector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_segmented_devector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of segmented_devector and small_unordered_flat_map can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_segmented_devector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_segmented_devector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of segmented_devector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_segmented_devector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_segmented_devector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of segmented_devector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_static_flat_set::iterator) && !CONV(s_segmented_devector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and static_flat_set are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_segmented_devector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of segmented_devector and static_flat_set can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_static_flat_map::iterator) && !CONV(m_segmented_devector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and static_flat_map are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_segmented_devector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of segmented_devector and static_flat_map can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_static_flat_multiset::iterator) && !CONV(s_segmented_devector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_segmented_devector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of segmented_devector and static_flat_multiset can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_static_flat_multimap::iterator) && !CONV(m_segmented_devector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_segmented_devector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of segmented_devector and static_flat_multimap can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_segmented_devector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_segmented_devector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of segmented_devector and static_unordered_flat_set can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_segmented_devector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_segmented_devector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of segmented_devector and static_unordered_flat_map can be compared");
static_assert(!IS(s_segmented_devector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_segmented_devector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_segmented_devector::iterator) && !CONV(s_segmented_devector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_segmented_devector::const_iterator), "iterators of segmented_devector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_segmented_devector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_segmented_devector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_segmented_devector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of segmented_devector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_segmented_devector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_segmented_devector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_segmented_devector::iterator) && !CONV(m_segmented_devector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_segmented_devector::const_iterator), "iterators of segmented_devector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_segmented_devector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_segmented_devector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_segmented_devector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of segmented_devector and static_unordered_flat_multimap can be compared");
static_assert(!IS(m_small_vector::iterator, m_static_vector::iterator) && !CONV(m_small_vector::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_static_vector::const_iterator) && !CONV(m_static_vector::iterator, m_small_vector::const_iterator), "iterators of small_vector and static_vector are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_static_vector::iterator>::value && !has_eq<m_small_vector::iterator, m_static_vector::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_static_vector::const_iterator>::value, "iterators of small_vector and static_vector can be compared");
static_assert(!IS(s_small_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_small_vector::const_iterator), "iterators of small_vector and small_flat_set are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_small_vector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of small_vector and small_flat_set can be compared");
static_assert(!IS(m_small_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_small_vector::const_iterator), "iterators of small_vector and small_flat_map are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_small_vector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of small_vector and small_flat_map can be compared");
static_assert(!IS(s_small_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_small_vector::const_iterator), "iterators of small_vector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_small_vector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of small_vector and small_flat_multiset can be compared");
static_assert(!IS(m_small_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_small_vector::const_iterator), "iterators of small_vector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_small_vector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of small_vector and small_flat_multimap can be compared");
static_assert(!IS(s_small_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_vector::const_iterator), "iterators of small_vector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_small_vector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of small_vector and small_unordered_flat_set can be compared");
static_assert(!IS(m_small_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_vector::const_iterator), "iterators of small_vector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_small_vector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of small_vector and small_unordered_flat_map can be compared");
static_assert(!IS(s_small_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_vector::const_iterator), "iterators of small_vector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_small_vector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of small_vector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_vector::const_iterator), "iterators of small_vector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_small_vector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of small_vector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_small_vector::iterator, s_static_flat_set::iterator) && !CONV(s_small_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_small_vector::const_iterator), "iterators of small_vector and static_flat_set are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_small_vector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of small_vector and static_flat_set can be compared");
static_assert(!IS(m_small_vector::iterator, m_static_flat_map::iterator) && !CONV(m_small_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_small_vector::const_iterator), "iterators of small_vector and static_flat_map are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_small_vector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of small_vector and static_flat_map can be compared");
static_assert(!IS(s_small_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_small_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_small_vector::const_iterator), "iterators of small_vector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_small_vector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of small_vector and static_flat_multiset can be compared");
static_assert(!IS(m_small_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_small_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_small_vector::const_iterator), "iterators of small_vector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_small_vector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of small_vector and static_flat_multimap can be compared");
static_assert(!IS(s_small_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_small_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_vector::const_iterator), "iterators of small_vector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_small_vector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of small_vector and static_unordered_flat_set can be compared");
static_assert(!IS(m_small_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_small_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_vector::const_iterator), "iterators of small_vector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_small_vector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of small_vector and static_unordered_flat_map can be compared");
static_assert(!IS(s_small_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_small_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_vector::iterator) && !CONV(s_small_vector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_vector::const_iterator), "iterators of small_vector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_vector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_small_vector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_vector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of small_vector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_small_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_vector::iterator) && !CONV(m_small_vector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_vector::const_iterator), "iterators of small_vector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_vector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_small_vector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_vector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of small_vector and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_static_vector::iterator, s_small_flat_set::iterator) && !CONV(s_static_vector::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_small_flat_set::const_iterator) && !CONV(s_small_flat_set::iterator, s_static_vector::const_iterator), "iterators of static_vector and small_flat_set are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_small_flat_set::iterator>::value && !has_eq<s_static_vector::iterator, s_small_flat_set::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_small_flat_set::const_iterator>::value, "iterators of static_vector and small_flat_set can be compared");
static_assert(!IS(m_static_vector::iterator, m_small_flat_map::iterator) && !CONV(m_static_vector::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_small_flat_map::const_iterator) && !CONV(m_small_flat_map::iterator, m_static_vector::const_iterator), "iterators of static_vector and small_flat_map are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_small_flat_map::iterator>::value && !has_eq<m_static_vector::iterator, m_small_flat_map::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_small_flat_map::const_iterator>::value, "iterators of static_vector and small_flat_map can be compared");
static_assert(!IS(s_static_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_static_vector::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_static_vector::const_iterator), "iterators of static_vector and small_flat_multiset are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_static_vector::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of static_vector and small_flat_multiset can be compared");
static_assert(!IS(m_static_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_static_vector::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_static_vector::const_iterator), "iterators of static_vector and small_flat_multimap are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_static_vector::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of static_vector and small_flat_multimap can be compared");
static_assert(!IS(s_static_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_static_vector::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_vector::const_iterator), "iterators of static_vector and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_static_vector::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of static_vector and small_unordered_flat_set can be compared");
static_assert(!IS(m_static_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_static_vector::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_vector::const_iterator), "iterators of static_vector and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_static_vector::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of static_vector and small_unordered_flat_map can be compared");
static_assert(!IS(s_static_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_static_vector::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_vector::const_iterator), "iterators of static_vector and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_static_vector::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of static_vector and small_unordered_flat_multiset can be compared");
static_assert(!IS(m_static_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_static_vector::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_vector::const_iterator), "iterators of static_vector and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_static_vector::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of static_vector and small_unordered_flat_multimap can be compared");
static_assert(!IS(s_static_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_vector::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_static_vector::const_iterator), "iterators of static_vector and static_flat_set are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_static_flat_set::iterator>::value && !has_eq<s_static_vector::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of static_vector and static_flat_set can be compared");
static_assert(!IS(m_static_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_vector::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_static_vector::const_iterator), "iterators of static_vector and static_flat_map are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_static_flat_map::iterator>::value && !has_eq<m_static_vector::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of static_vector and static_flat_map can be compared");
static_assert(!IS(s_static_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_vector::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_static_vector::const_iterator), "iterators of static_vector and static_flat_multiset are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_static_vector::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of static_vector and static_flat_multiset can be compared");
static_assert(!IS(m_static_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_vector::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_static_vector::const_iterator), "iterators of static_vector and static_flat_multimap are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_static_vector::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of static_vector and static_flat_multimap can be compared");
static_assert(!IS(s_static_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_vector::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_vector::const_iterator), "iterators of static_vector and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_static_vector::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of static_vector and static_unordered_flat_set can be compared");
static_assert(!IS(m_static_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_vector::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_vector::const_iterator), "iterators of static_vector and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_static_vector::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of static_vector and static_unordered_flat_map can be compared");
static_assert(!IS(s_static_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_vector::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_vector::iterator) && !CONV(s_static_vector::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_vector::const_iterator), "iterators of static_vector and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_static_vector::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_static_vector::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_static_vector::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of static_vector and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_static_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_vector::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_vector::iterator) && !CONV(m_static_vector::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_vector::const_iterator), "iterators of static_vector and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_static_vector::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_static_vector::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_static_vector::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of static_vector and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_set::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_small_flat_multiset::const_iterator) && !CONV(s_small_flat_multiset::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and small_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_small_flat_multiset::iterator>::value && !has_eq<s_small_flat_set::iterator, s_small_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_small_flat_multiset::const_iterator>::value, "iterators of small_flat_set and small_flat_multiset can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_small_flat_set::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of small_flat_set and small_unordered_flat_set can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_small_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of small_flat_set and small_unordered_flat_multiset can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_static_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and static_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_static_flat_set::iterator>::value && !has_eq<s_small_flat_set::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of small_flat_set and static_flat_set can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_small_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and static_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_small_flat_set::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of small_flat_set and static_flat_multiset can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_small_flat_set::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of small_flat_set and static_unordered_flat_set can be compared");
static_assert(!IS(s_small_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_small_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_flat_set::iterator) && !CONV(s_small_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_flat_set::const_iterator), "iterators of small_flat_set and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_set::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_small_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_set::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of small_flat_set and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_map::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_small_flat_multimap::const_iterator) && !CONV(m_small_flat_multimap::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and small_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_small_flat_multimap::iterator>::value && !has_eq<m_small_flat_map::iterator, m_small_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_small_flat_multimap::const_iterator>::value, "iterators of small_flat_map and small_flat_multimap can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_small_flat_map::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of small_flat_map and small_unordered_flat_map can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_small_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of small_flat_map and small_unordered_flat_multimap can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_static_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and static_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_static_flat_map::iterator>::value && !has_eq<m_small_flat_map::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of small_flat_map and static_flat_map can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_small_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and static_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_small_flat_map::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of small_flat_map and static_flat_multimap can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_small_flat_map::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of small_flat_map and static_unordered_flat_map can be compared");
static_assert(!IS(m_small_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_small_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_flat_map::iterator) && !CONV(m_small_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_flat_map::const_iterator), "iterators of small_flat_map and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_map::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_small_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_map::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of small_flat_map and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_unordered_flat_set::const_iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and small_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_small_unordered_flat_set::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_small_unordered_flat_set::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_small_unordered_flat_set::const_iterator>::value, "iterators of small_flat_multiset and small_unordered_flat_set can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of small_flat_multiset and small_unordered_flat_multiset can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and static_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_static_flat_set::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of small_flat_multiset and static_flat_set can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_static_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and static_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of small_flat_multiset and static_flat_multiset can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of small_flat_multiset and static_unordered_flat_set can be compared");
static_assert(!IS(s_small_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_flat_multiset::iterator) && !CONV(s_small_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_flat_multiset::const_iterator), "iterators of small_flat_multiset and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_small_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_flat_multiset::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of small_flat_multiset and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_unordered_flat_map::const_iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and small_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_small_unordered_flat_map::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_small_unordered_flat_map::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_small_unordered_flat_map::const_iterator>::value, "iterators of small_flat_multimap and small_unordered_flat_map can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of small_flat_multimap and small_unordered_flat_multimap can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and static_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_static_flat_map::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of small_flat_multimap and static_flat_map can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_static_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and static_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of small_flat_multimap and static_flat_multimap can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of small_flat_multimap and static_unordered_flat_map can be compared");
static_assert(!IS(m_small_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_flat_multimap::iterator) && !CONV(m_small_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_flat_multimap::const_iterator), "iterators of small_flat_multimap and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_small_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_flat_multimap::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of small_flat_multimap and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_small_unordered_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_small_unordered_flat_set::const_iterator), "iterators of small_unordered_flat_set and small_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_unordered_flat_set::iterator, s_small_unordered_flat_multiset::iterator>::value && !has_eq<s_small_unordered_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_unordered_flat_set::const_iterator, s_small_unordered_flat_multiset::const_iterator>::value, "iterators of small_unordered_flat_set and small_unordered_flat_multiset can be compared");
static_assert(!IS(s_small_unordered_flat_set::iterator, s_static_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_small_unordered_flat_set::const_iterator), "iterators of small_unordered_flat_set and static_flat_set are not distinct");
static_assert(!has_eq<s_small_unordered_flat_set::iterator, s_static_flat_set::iterator>::value && !has_eq<s_small_unordered_flat_set::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_small_unordered_flat_set::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of small_unordered_flat_set and static_flat_set can be compared");
static_assert(!IS(s_small_unordered_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_small_unordered_flat_set::const_iterator), "iterators of small_unordered_flat_set and static_flat_multiset are not distinct");
static_assert(!has_eq<s_small_unordered_flat_set::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_small_unordered_flat_set::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_small_unordered_flat_set::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of small_unordered_flat_set and static_flat_multiset can be compared");
static_assert(!IS(s_small_unordered_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_unordered_flat_set::const_iterator), "iterators of small_unordered_flat_set and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_unordered_flat_set::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_small_unordered_flat_set::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_small_unordered_flat_set::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of small_unordered_flat_set and static_unordered_flat_set can be compared");
static_assert(!IS(s_small_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_unordered_flat_set::const_iterator), "iterators of small_unordered_flat_set and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_small_unordered_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_unordered_flat_set::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of small_unordered_flat_set and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_unordered_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_small_unordered_flat_map::const_iterator), "iterators of small_unordered_flat_map and small_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_unordered_flat_map::iterator, m_small_unordered_flat_multimap::iterator>::value && !has_eq<m_small_unordered_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_unordered_flat_map::const_iterator, m_small_unordered_flat_multimap::const_iterator>::value, "iterators of small_unordered_flat_map and small_unordered_flat_multimap can be compared");
static_assert(!IS(m_small_unordered_flat_map::iterator, m_static_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_small_unordered_flat_map::const_iterator), "iterators of small_unordered_flat_map and static_flat_map are not distinct");
static_assert(!has_eq<m_small_unordered_flat_map::iterator, m_static_flat_map::iterator>::value && !has_eq<m_small_unordered_flat_map::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_small_unordered_flat_map::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of small_unordered_flat_map and static_flat_map can be compared");
static_assert(!IS(m_small_unordered_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_small_unordered_flat_map::const_iterator), "iterators of small_unordered_flat_map and static_flat_multimap are not distinct");
static_assert(!has_eq<m_small_unordered_flat_map::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_small_unordered_flat_map::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_small_unordered_flat_map::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of small_unordered_flat_map and static_flat_multimap can be compared");
static_assert(!IS(m_small_unordered_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_unordered_flat_map::const_iterator), "iterators of small_unordered_flat_map and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_unordered_flat_map::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_small_unordered_flat_map::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_small_unordered_flat_map::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of small_unordered_flat_map and static_unordered_flat_map can be compared");
static_assert(!IS(m_small_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_unordered_flat_map::const_iterator), "iterators of small_unordered_flat_map and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_small_unordered_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_unordered_flat_map::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of small_unordered_flat_map and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_small_unordered_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_flat_set::const_iterator) && !CONV(s_static_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator), "iterators of small_unordered_flat_multiset and static_flat_set are not distinct");
static_assert(!has_eq<s_small_unordered_flat_multiset::iterator, s_static_flat_set::iterator>::value && !has_eq<s_small_unordered_flat_multiset::iterator, s_static_flat_set::const_iterator>::value && !has_eq<s_small_unordered_flat_multiset::const_iterator, s_static_flat_set::const_iterator>::value, "iterators of small_unordered_flat_multiset and static_flat_set can be compared");
static_assert(!IS(s_small_unordered_flat_multiset::iterator, s_static_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_small_unordered_flat_multiset::const_iterator), "iterators of small_unordered_flat_multiset and static_flat_multiset are not distinct");
static_assert(!has_eq<s_small_unordered_flat_multiset::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_small_unordered_flat_multiset::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_small_unordered_flat_multiset::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of small_unordered_flat_multiset and static_flat_multiset can be compared");
static_assert(!IS(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_small_unordered_flat_multiset::const_iterator), "iterators of small_unordered_flat_multiset and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_small_unordered_flat_multiset::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of small_unordered_flat_multiset and static_unordered_flat_set can be compared");
static_assert(!IS(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_unordered_flat_multiset::iterator) && !CONV(s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_small_unordered_flat_multiset::const_iterator), "iterators of small_unordered_flat_multiset and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_small_unordered_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_small_unordered_flat_multiset::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of small_unordered_flat_multiset and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_small_unordered_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_flat_map::const_iterator) && !CONV(m_static_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator), "iterators of small_unordered_flat_multimap and static_flat_map are not distinct");
static_assert(!has_eq<m_small_unordered_flat_multimap::iterator, m_static_flat_map::iterator>::value && !has_eq<m_small_unordered_flat_multimap::iterator, m_static_flat_map::const_iterator>::value && !has_eq<m_small_unordered_flat_multimap::const_iterator, m_static_flat_map::const_iterator>::value, "iterators of small_unordered_flat_multimap and static_flat_map can be compared");
static_assert(!IS(m_small_unordered_flat_multimap::iterator, m_static_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_small_unordered_flat_multimap::const_iterator), "iterators of small_unordered_flat_multimap and static_flat_multimap are not distinct");
static_assert(!has_eq<m_small_unordered_flat_multimap::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_small_unordered_flat_multimap::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_small_unordered_flat_multimap::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of small_unordered_flat_multimap and static_flat_multimap can be compared");
static_assert(!IS(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_small_unordered_flat_multimap::const_iterator), "iterators of small_unordered_flat_multimap and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_small_unordered_flat_multimap::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of small_unordered_flat_multimap and static_unordered_flat_map can be compared");
static_assert(!IS(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_unordered_flat_multimap::iterator) && !CONV(m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_small_unordered_flat_multimap::const_iterator), "iterators of small_unordered_flat_multimap and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_small_unordered_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_small_unordered_flat_multimap::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of small_unordered_flat_multimap and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_static_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_static_flat_multiset::const_iterator) && !CONV(s_static_flat_multiset::iterator, s_static_flat_set::const_iterator), "iterators of static_flat_set and static_flat_multiset are not distinct");
static_assert(!has_eq<s_static_flat_set::iterator, s_static_flat_multiset::iterator>::value && !has_eq<s_static_flat_set::iterator, s_static_flat_multiset::const_iterator>::value && !has_eq<s_static_flat_set::const_iterator, s_static_flat_multiset::const_iterator>::value, "iterators of static_flat_set and static_flat_multiset can be compared");
static_assert(!IS(s_static_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_flat_set::const_iterator), "iterators of static_flat_set and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_static_flat_set::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_static_flat_set::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_static_flat_set::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of static_flat_set and static_unordered_flat_set can be compared");
static_assert(!IS(s_static_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_flat_set::iterator) && !CONV(s_static_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_flat_set::const_iterator), "iterators of static_flat_set and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_static_flat_set::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_static_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_static_flat_set::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of static_flat_set and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_static_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_static_flat_multimap::const_iterator) && !CONV(m_static_flat_multimap::iterator, m_static_flat_map::const_iterator), "iterators of static_flat_map and static_flat_multimap are not distinct");
static_assert(!has_eq<m_static_flat_map::iterator, m_static_flat_multimap::iterator>::value && !has_eq<m_static_flat_map::iterator, m_static_flat_multimap::const_iterator>::value && !has_eq<m_static_flat_map::const_iterator, m_static_flat_multimap::const_iterator>::value, "iterators of static_flat_map and static_flat_multimap can be compared");
static_assert(!IS(m_static_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_flat_map::const_iterator), "iterators of static_flat_map and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_static_flat_map::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_static_flat_map::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_static_flat_map::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of static_flat_map and static_unordered_flat_map can be compared");
static_assert(!IS(m_static_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_flat_map::iterator) && !CONV(m_static_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_flat_map::const_iterator), "iterators of static_flat_map and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_static_flat_map::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_static_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_static_flat_map::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of static_flat_map and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_static_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_flat_multiset::const_iterator), "iterators of static_flat_multiset and static_unordered_flat_set are not distinct");
static_assert(!has_eq<s_static_flat_multiset::iterator, s_static_unordered_flat_set::iterator>::value && !has_eq<s_static_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator>::value && !has_eq<s_static_flat_multiset::const_iterator, s_static_unordered_flat_set::const_iterator>::value, "iterators of static_flat_multiset and static_unordered_flat_set can be compared");
static_assert(!IS(s_static_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_flat_multiset::iterator) && !CONV(s_static_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_flat_multiset::const_iterator), "iterators of static_flat_multiset and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_static_flat_multiset::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_static_flat_multiset::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_static_flat_multiset::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of static_flat_multiset and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_static_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_flat_multimap::const_iterator), "iterators of static_flat_multimap and static_unordered_flat_map are not distinct");
static_assert(!has_eq<m_static_flat_multimap::iterator, m_static_unordered_flat_map::iterator>::value && !has_eq<m_static_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator>::value && !has_eq<m_static_flat_multimap::const_iterator, m_static_unordered_flat_map::const_iterator>::value, "iterators of static_flat_multimap and static_unordered_flat_map can be compared");
static_assert(!IS(m_static_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_flat_multimap::iterator) && !CONV(m_static_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_flat_multimap::const_iterator), "iterators of static_flat_multimap and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_static_flat_multimap::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_static_flat_multimap::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_static_flat_multimap::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of static_flat_multimap and static_unordered_flat_multimap can be compared");
static_assert(!IS(s_static_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_unordered_flat_set::iterator) && !CONV(s_static_unordered_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator) && !CONV(s_static_unordered_flat_multiset::iterator, s_static_unordered_flat_set::const_iterator), "iterators of static_unordered_flat_set and static_unordered_flat_multiset are not distinct");
static_assert(!has_eq<s_static_unordered_flat_set::iterator, s_static_unordered_flat_multiset::iterator>::value && !has_eq<s_static_unordered_flat_set::iterator, s_static_unordered_flat_multiset::const_iterator>::value && !has_eq<s_static_unordered_flat_set::const_iterator, s_static_unordered_flat_multiset::const_iterator>::value, "iterators of static_unordered_flat_set and static_unordered_flat_multiset can be compared");
static_assert(!IS(m_static_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_unordered_flat_map::iterator) && !CONV(m_static_unordered_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator) && !CONV(m_static_unordered_flat_multimap::iterator, m_static_unordered_flat_map::const_iterator), "iterators of static_unordered_flat_map and static_unordered_flat_multimap are not distinct");
static_assert(!has_eq<m_static_unordered_flat_map::iterator, m_static_unordered_flat_multimap::iterator>::value && !has_eq<m_static_unordered_flat_map::iterator, m_static_unordered_flat_multimap::const_iterator>::value && !has_eq<m_static_unordered_flat_map::const_iterator, m_static_unordered_flat_multimap::const_iterator>::value, "iterators of static_unordered_flat_map and static_unordered_flat_multimap can be compared");
}
}

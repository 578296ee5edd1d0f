// Least capable types for the compile witnesses: each offers the operations its name says and nothing else.
// Address-of and comma are overloaded so that any use of the plain operators is rejected by the compiler.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
namespace mini
{
struct Any { template <class T> void operator,(const T&) const = delete; };
struct Arg { explicit Arg(int) {} Arg(const Arg&) = delete; Arg& operator=(const Arg&) = delete; };
#define MINI_HOSTILE(E) void operator&() const = delete; template <class X> friend void operator,(const E&, X&&) = delete; template <class X> friend void operator,(X&&, const E&) = delete; void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void* p) noexcept = delete;
// nothing but construction from Arg and destruction
struct Fixed { explicit Fixed(const Arg&) {} explicit Fixed(const Arg&, int) {} Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; ~Fixed() {} MINI_HOSTILE(Fixed) };
// default construction
struct Def { Def() {} explicit Def(const Arg&) {} Def(const Def&) = delete; Def& operator=(const Def&) = delete; ~Def() {} MINI_HOSTILE(Def) };
// move construction
struct MoveC { explicit MoveC(const Arg&) {} MoveC(MoveC&&) {} MoveC& operator=(const MoveC&) = delete; ~MoveC() {} MINI_HOSTILE(MoveC) };
// default and move construction
struct DefMoveC { DefMoveC() {} explicit DefMoveC(const Arg&) {} DefMoveC(DefMoveC&&) {} DefMoveC& operator=(const DefMoveC&) = delete; ~DefMoveC() {} MINI_HOSTILE(DefMoveC) };
// copy construction
struct CopyC { explicit CopyC(const Arg&) {} CopyC(const CopyC&) {} CopyC& operator=(const CopyC&) = delete; ~CopyC() {} MINI_HOSTILE(CopyC) };
// move construction and assignment
struct Move { explicit Move(const Arg&) {} Move(Move&&) {} Move& operator=(Move&&) { return *this; } ~Move() {} MINI_HOSTILE(Move) };
// default construction, move construction and assignment
struct DefMove { DefMove() {} explicit DefMove(const Arg&) {} DefMove(DefMove&&) {} DefMove& operator=(DefMove&&) { return *this; } ~DefMove() {} MINI_HOSTILE(DefMove) };
// copy construction and assignment
struct Copy { explicit Copy(const Arg&) {} Copy(const Copy&) {} Copy& operator=(const Copy&) { return *this; } ~Copy() {} MINI_HOSTILE(Copy) };
// equality / order only
struct Eq { explicit Eq(const Arg&) {} Eq(const Eq&) = delete; Eq& operator=(const Eq&) = delete; ~Eq() {} friend bool operator==(const Eq&, const Eq&) { return true; } MINI_HOSTILE(Eq) };
struct Lt { explicit Lt(const Arg&) {} Lt(const Lt&) = delete; Lt& operator=(const Lt&) = delete; ~Lt() {} friend bool operator<(const Lt&, const Lt&) { return false; } MINI_HOSTILE(Lt) };

// the least an allocator needs
template <class T> struct Alloc
{
    typedef T value_type;
    explicit Alloc(const Any&) noexcept {}
    Alloc(const Alloc&) noexcept {}
    Alloc& operator=(const Alloc&) noexcept { return *this; }
    template <class U> Alloc(const Alloc<U>&) noexcept {}
    T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) noexcept { ::operator delete(p); }
    template <class U> friend void operator,(const Alloc&, U&&) = delete;
    friend bool operator==(const Alloc&, const Alloc&) noexcept { return true; }
    friend bool operator!=(const Alloc&, const Alloc&) noexcept { return false; }
};

// a fancy pointer: only pointer_to makes one from a reference; no conversion to T*
template <class T> struct FPtr
{
    typedef T element_type; typedef std::ptrdiff_t difference_type; typedef typename std::remove_cv<T>::type value_type; typedef T* pointer; typedef T& reference; typedef std::random_access_iterator_tag iterator_category;
    T* p;
    FPtr() noexcept {} FPtr(std::nullptr_t) noexcept : p(nullptr) {} FPtr(const FPtr& o) noexcept : p(o.p) {}
    template <class U, class = typename std::enable_if<std::is_same<const U, T>::value && !std::is_same<U, T>::value>::type> FPtr(const FPtr<U>& o) noexcept : p(o.p) {}
    FPtr& operator=(const FPtr& o) noexcept { p = o.p; return *this; } FPtr& operator=(std::nullptr_t) noexcept { p = nullptr; return *this; }
    static FPtr pointer_to(T& r) noexcept { FPtr q; q.p = std::addressof(r); return q; }
    explicit operator bool() const noexcept { return p != nullptr; }
    T& operator*() const noexcept { return *p; } T* operator->() const noexcept { return p; } T& operator[](difference_type n) const noexcept { return p[n]; }
    FPtr& operator++() noexcept { ++p; return *this; } FPtr operator++(int) noexcept { FPtr r(*this); ++p; return r; }
    FPtr& operator--() noexcept { --p; return *this; } FPtr operator--(int) noexcept { FPtr r(*this); --p; return r; }
    FPtr& operator+=(difference_type n) noexcept { p += n; return *this; } FPtr& operator-=(difference_type n) noexcept { p -= n; return *this; }
    friend FPtr operator+(const FPtr& a, difference_type n) noexcept { FPtr r(a); r.p += n; return r; }
    friend FPtr operator-(const FPtr& a, difference_type n) noexcept { FPtr r(a); r.p -= n; return r; }
    friend difference_type operator-(const FPtr& a, const FPtr& b) noexcept { return a.p - b.p; }
    friend bool operator==(const FPtr& a, const FPtr& b) noexcept { return a.p == b.p; } friend bool operator!=(const FPtr& a, const FPtr& b) noexcept { return a.p != b.p; }
    friend bool operator<(const FPtr& a, const FPtr& b) noexcept { return a.p < b.p; } friend bool operator>(const FPtr& a, const FPtr& b) noexcept { return a.p > b.p; }
    friend bool operator<=(const FPtr& a, const FPtr& b) noexcept { return a.p <= b.p; } friend bool operator>=(const FPtr& a, const FPtr& b) noexcept { return a.p >= b.p; }
    template <class U> friend void operator,(const FPtr&, U&&) = delete; template <class U> friend void operator,(U&&, const FPtr&) = delete;
    void operator&() const = delete;
};
// the same allocator handing out fancy pointers
template <class T> struct FAlloc
{
    typedef T value_type; typedef FPtr<T> pointer; typedef FPtr<const T> const_pointer;
    explicit FAlloc(const Any&) noexcept {}
    FAlloc(const FAlloc&) noexcept {}
    FAlloc& operator=(const FAlloc&) noexcept { return *this; }
    template <class U> FAlloc(const FAlloc<U>&) noexcept {}
    template <class U> struct rebind { typedef FAlloc<U> other; };
    pointer allocate(std::size_t n) { pointer r; r.p = static_cast<T*>(::operator new(n * sizeof(T))); return r; }
    void deallocate(pointer p, std::size_t) noexcept { ::operator delete((void*)p.p); }
    template <class U> friend void operator,(const FAlloc&, U&&) = delete;
    friend bool operator==(const FAlloc&, const FAlloc&) noexcept { return true; }
    friend bool operator!=(const FAlloc&, const FAlloc&) noexcept { return false; }
};

// iterators with hostile comma, the least each category needs
template <class T> struct In
{
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    T* p; struct Post { T* p; T& operator*() const { return *p; } };
    T& operator*() const { return *p; } T* operator->() const { return p; }
    In& operator++() { ++p; return *this; } Post operator++(int) { Post r = {p}; ++p; return r; }
    friend bool operator==(const In& a, const In& b) { return a.p == b.p; }
    friend bool operator!=(const In& a, const In& b) { return a.p != b.p; }
    template <class U> friend void operator,(const In&, U&&) = delete; template <class U> friend void operator,(U&&, const In&) = delete;
};
// input iterator whose reference is a proxy
template <class T> struct Px
{
    struct reference { T* p; operator const T&() const { return *p; } };
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef void pointer;
    T* p; struct Post { T* p; reference operator*() const { reference r = {p}; return r; } };
    reference operator*() const { reference r = {p}; return r; }
    Px& operator++() { ++p; return *this; } Post operator++(int) { Post r = {p}; ++p; return r; }
    friend bool operator==(const Px& a, const Px& b) { return a.p == b.p; }
    friend bool operator!=(const Px& a, const Px& b) { return a.p != b.p; }
    template <class U> friend void operator,(const Px&, U&&) = delete; template <class U> friend void operator,(U&&, const Px&) = delete;
};
template <class T> struct Fw
{
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    T* p;
    T& operator*() const { return *p; } T* operator->() const { return p; }
    Fw& operator++() { ++p; return *this; } Fw operator++(int) { Fw r = *this; ++p; return r; }
    friend bool operator==(const Fw& a, const Fw& b) { return a.p == b.p; }
    friend bool operator!=(const Fw& a, const Fw& b) { return a.p != b.p; }
    template <class U> friend void operator,(const Fw&, U&&) = delete; template <class U> friend void operator,(U&&, const Fw&) = delete;
};
template <class T> struct Bi
{
    typedef std::bidirectional_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    T* p;
    T& operator*() const { return *p; } T* operator->() const { return p; }
    Bi& operator++() { ++p; return *this; } Bi operator++(int) { Bi r = *this; ++p; return r; }
    Bi& operator--() { --p; return *this; } Bi operator--(int) { Bi r = *this; --p; return r; }
    friend bool operator==(const Bi& a, const Bi& b) { return a.p == b.p; }
    friend bool operator!=(const Bi& a, const Bi& b) { return a.p != b.p; }
    template <class U> friend void operator,(const Bi&, U&&) = delete; template <class U> friend void operator,(U&&, const Bi&) = delete;
};

// function objects without default construction
struct Less { explicit Less(const Any&) {} Less(const Less&) {} Less& operator=(const Less&) { return *this; } template <class T> bool operator()(const T&, const T&) const { return false; } };
struct Equal { explicit Equal(const Any&) {} Equal(const Equal&) {} Equal& operator=(const Equal&) { return *this; } template <class T> bool operator()(const T&, const T&) const { return true; } };
// function objects with neither default construction nor assignment
struct LessNA { explicit LessNA(const Any&) {} LessNA(const LessNA&) {} LessNA& operator=(const LessNA&) = delete; template <class T> bool operator()(const T&, const T&) const { return false; } };
struct EqualNA { explicit EqualNA(const Any&) {} EqualNA(const EqualNA&) {} EqualNA& operator=(const EqualNA&) = delete; template <class T> bool operator()(const T&, const T&) const { return true; } };
struct Het { explicit Het(int) {} Het(const Het&) = delete; };
struct TLess { typedef void is_transparent; explicit TLess(const Any&) {} TLess(const TLess&) {} TLess& operator=(const TLess&) = delete; template <class T, class U> bool operator()(const T&, const U&) const { return false; } };
struct TEqual { typedef void is_transparent; explicit TEqual(const Any&) {} TEqual(const TEqual&) {} TEqual& operator=(const TEqual&) = delete; template <class T, class U> bool operator()(const T&, const U&) const { return true; } };
struct LessD { template <class T> bool operator()(const T&, const T&) const { return false; } };
struct EqualD { template <class T> bool operator()(const T&, const T&) const { return true; } };
struct Pred { template <class T> bool operator()(const T&) const { return false; } };
}

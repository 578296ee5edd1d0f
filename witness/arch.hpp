// Archetypes: the least capable types the documentation allows.  Their members are only declared;
// the analyser gives them a contract (they may throw unless noexcept, copies are equal, a moved-from
// object is valid but unspecified).
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>

namespace arch
{
struct Arg { Arg(const Arg&) = delete; Arg& operator=(const Arg&) = delete; };
// something a transparent comparison object compares keys with
struct Het { Het(const Het&) = delete; Het& operator=(const Het&) = delete; };

void may_throw();
void consume(const void*);

#define ARCH_CTORS(E) \
    explicit E(const Arg&); explicit E(Arg&&); E(const Arg&, Arg&&); explicit E(const Het&); explicit E(Het&&);

struct E_cn { E_cn(); E_cn(const E_cn&); E_cn(E_cn&&) noexcept; E_cn& operator=(const E_cn&); E_cn& operator=(E_cn&&) noexcept; ~E_cn(); ARCH_CTORS(E_cn) };
struct E_ct { E_ct(); E_ct(const E_ct&); E_ct(E_ct&&); E_ct& operator=(const E_ct&); E_ct& operator=(E_ct&&); ~E_ct(); ARCH_CTORS(E_ct) };
struct E_mt { E_mt(); E_mt(const E_mt&) = delete; E_mt(E_mt&&); E_mt& operator=(const E_mt&) = delete; E_mt& operator=(E_mt&&); ~E_mt(); ARCH_CTORS(E_mt) };
struct E_mn { E_mn(); E_mn(const E_mn&) = delete; E_mn(E_mn&&) noexcept; E_mn& operator=(const E_mn&) = delete; E_mn& operator=(E_mn&&) noexcept; ~E_mn(); ARCH_CTORS(E_mn) };
struct E_mp { E_mp(); E_mp(const E_mp&); E_mp(E_mp&&) noexcept; E_mp& operator=(const E_mp&); E_mp& operator=(E_mp&&) noexcept; ~E_mp(); ARCH_CTORS(E_mp) };
#undef ARCH_CTORS

#define ARCH_REL(E) \
    bool operator==(const E&, const E&); bool operator<(const E&, const E&);
ARCH_REL(E_cn) ARCH_REL(E_ct) ARCH_REL(E_mt) ARCH_REL(E_mn) ARCH_REL(E_mp)
#undef ARCH_REL

// Flags: 1 POCCA, 2 POCMA, 4 POCS, 8 is_always_equal, 16 default construction may throw
template <class T, int Flags>
struct A_alloc
{
    typedef T value_type;
    typedef std::integral_constant<bool, (Flags & 1) != 0> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, (Flags & 2) != 0> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, (Flags & 4) != 0> propagate_on_container_swap;
    typedef std::integral_constant<bool, (Flags & 8) != 0> is_always_equal;
    template <class U> struct rebind { typedef A_alloc<U, Flags> other; };
    A_alloc() noexcept(!(Flags & 16));
    A_alloc(const A_alloc&) noexcept;
    A_alloc(A_alloc&&) noexcept;
    template <class U> A_alloc(const A_alloc<U, Flags>&) noexcept;
    A_alloc& operator=(const A_alloc&) noexcept;
    A_alloc& operator=(A_alloc&&) noexcept;
    ~A_alloc();
    T* allocate(std::size_t);
    void deallocate(T*, std::size_t) noexcept;
    A_alloc select_on_container_copy_construction() const;
};
template <class T, class U, int F> bool operator==(const A_alloc<T, F>&, const A_alloc<U, F>&) noexcept;
template <class T, class U, int F> bool operator!=(const A_alloc<T, F>&, const A_alloc<U, F>&) noexcept;

// Iterators
template <class T>
struct It_in
{
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* p;
    const T& operator*() const { may_throw(); return *p; }
    It_in& operator++() { may_throw(); consume(p); ++p; return *this; }
    It_in operator++(int);
    friend bool operator==(const It_in& a, const It_in& b) { may_throw(); return a.p == b.p; }
    friend bool operator!=(const It_in& a, const It_in& b) { may_throw(); return a.p != b.p; }
};
template <class T>
struct It_fw
{
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* p;
    It_fw() : p(nullptr) {}
    const T& operator*() const { may_throw(); return *p; }
    It_fw& operator++() { may_throw(); ++p; return *this; }
    It_fw operator++(int) { It_fw t(*this); ++*this; return t; }
    friend bool operator==(const It_fw& a, const It_fw& b) { may_throw(); return a.p == b.p; }
    friend bool operator!=(const It_fw& a, const It_fw& b) { may_throw(); return a.p != b.p; }
};

// Comparison objects
#define ARCH_FN(C) C() noexcept; C(const C&) noexcept; C& operator=(const C&) noexcept; ~C(); template <class A, class B> bool operator()(const A&, const B&) const;
struct C_less { ARCH_FN(C_less) };
struct C_tless { typedef void is_transparent; ARCH_FN(C_tless) };
struct Q_eq { ARCH_FN(Q_eq) };
struct Q_teq { typedef void is_transparent; ARCH_FN(Q_teq) };
#define ARCH_TFN(C) C(); C(const C&); C& operator=(const C&); ~C(); template <class A, class B> bool operator()(const A&, const B&) const;
struct C_thr { ARCH_TFN(C_thr) };
struct Q_thr { ARCH_TFN(Q_thr) };
#undef ARCH_TFN
#undef ARCH_FN

struct P_pred { P_pred(const P_pred&); template <class T> bool operator()(const T&) const; };

} // namespace arch

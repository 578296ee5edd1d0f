// Wrappers that name the operations of a container's iterators, whatever way those are written (never executed).
#pragma once
#include <cstddef>
namespace itw
{
template <class C, class I> I it_add(C&, I p, std::ptrdiff_t n) { return p + n; }
template <class C, class I> I it_radd(C&, I p, std::ptrdiff_t n) { return n + p; }
template <class C, class I> I it_sub(C&, I p, std::ptrdiff_t n) { return p - n; }
template <class C, class I> I it_add_assign(C&, I p, std::ptrdiff_t n) { p += n; return p; }
template <class C, class I> I it_sub_assign(C&, I p, std::ptrdiff_t n) { p -= n; return p; }
template <class C, class I> I it_add_assign_ret(C&, I p, std::ptrdiff_t n) { return p += n; }
template <class C, class I> I it_sub_assign_ret(C&, I p, std::ptrdiff_t n) { return p -= n; }
template <class C, class I> I it_inc(C&, I p) { ++p; return p; }
template <class C, class I> I it_inc_ret(C&, I p) { return ++p; }
template <class C, class I> I it_inc_post(C&, I p) { p++; return p; }
template <class C, class I> I it_inc_old(C&, I p) { return p++; }
template <class C, class I> I it_dec(C&, I p) { --p; return p; }
template <class C, class I> I it_dec_ret(C&, I p) { return --p; }
template <class C, class I> I it_dec_post(C&, I p) { p--; return p; }
template <class C, class I> I it_dec_old(C&, I p) { return p--; }
template <class C, class I, class J> std::ptrdiff_t it_diff(C&, I p, J q) { return p - q; }
template <class C, class I, class J> bool it_eq(C&, I p, J q) { return p == q; }
template <class C, class I, class J> bool it_ne(C&, I p, J q) { return p != q; }
template <class C, class I, class J> bool it_lt(C&, I p, J q) { return p < q; }
template <class C, class I, class J> bool it_gt(C&, I p, J q) { return p > q; }
template <class C, class I, class J> bool it_le(C&, I p, J q) { return p <= q; }
template <class C, class I, class J> bool it_ge(C&, I p, J q) { return p >= q; }
template <class C, class I> auto it_deref(C&, I p) -> decltype(*p) { return *p; }
template <class C, class I> auto it_index(C&, I p, std::ptrdiff_t n) -> decltype(p[n]) { return p[n]; }
template <class C, class I> auto it_arrow(C&, I p) -> decltype(&*p) { return p.operator->(); }
template <class C, class I> I it_copy(C&, I p) { I q(p); return q; }
template <class C, class I> I it_assign(C&, I p, I q) { p = q; return p; }
template <class C, class I, class J> J it_convert(C&, I p, J) { return J(p); }
// ranges that are delimited by a container's own kind of iterators
template <class C, class I> void it_range_assign(C& c, const C&, I p, I q) { c.assign(p, q); }
template <class C, class I> typename C::iterator it_range_insert(C& c, typename C::const_iterator pos, const C&, I p, I q) { return c.insert(pos, p, q); }
template <class C, class I> void it_range_construct(C& c, const C&, I p, I q) { C t(p, q, c.get_allocator()); c.swap(t); }
template <class C> void use_range(C& c) { it_range_assign(c, c, c.cbegin(), c.cend()); it_range_insert(c, c.cbegin(), c, c.cbegin(), c.cend()); }
template <class C> void use_range_alloc(C& c) { it_range_construct(c, c, c.cbegin(), c.cend()); }
template <class C, class I> void ops(C& c, I p)
{
    it_add(c, p, 1); it_radd(c, p, 1); it_sub(c, p, 1); it_add_assign(c, p, 1); it_sub_assign(c, p, 1); it_add_assign_ret(c, p, 1); it_sub_assign_ret(c, p, 1);
    it_inc(c, p); it_inc_ret(c, p); it_inc_post(c, p); it_inc_old(c, p); it_dec(c, p); it_dec_ret(c, p); it_dec_post(c, p); it_dec_old(c, p);
    it_deref(c, p); it_index(c, p, 1); it_arrow(c, p); it_copy(c, p); it_assign(c, p, p);
}
template <class C, class I, class J> void ops2(C& c, I p, J q)
{
    it_diff(c, p, q); it_eq(c, p, q); it_ne(c, p, q); it_lt(c, p, q); it_gt(c, p, q); it_le(c, p, q); it_ge(c, p, q);
}
template <class C> void use_iter(C& c)
{
    typename C::iterator p = c.begin(); typename C::const_iterator q = c.cbegin();
    ops(c, p); ops(c, q); ops2(c, p, p); ops2(c, q, q); ops2(c, p, q); ops2(c, q, p); it_convert(c, p, q);
}
}

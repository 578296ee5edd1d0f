// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/static_unordered_flat_map.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; C a(f); }
void f1(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.clear(); }
void f3(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f5(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f6(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; (void)c.full(); }
void f8(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.data(); k.data(); }
void f10(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; k.key_eq(); }
void f11(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f13(sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TEqual& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f15(sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, EqualNA> C; c.at(q); k.at(q); }
void f16(sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& c, const sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& k, sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TEqual& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::static_unordered_flat_map<Fixed, Fixed, 3, TEqual> C; c.at(h); k.at(h); }
void f17(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& c, const sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& k, sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, TEqual> C; c.erase(h); }
void f19(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; erase_if(c, Pred()); }
void f20(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); c.emplace_hint(c.cbegin(), std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); }
void f22(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f23(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.insert(std::make_pair(std::move(r), std::move(m))); c.insert(c.cbegin(), std::make_pair(std::move(r), std::move(m))); }
void f24(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.emplace(std::move(r), std::move(m)); c.emplace_hint(c.cbegin(), std::move(r), std::move(m)); }
void f25(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; c.insert_or_assign(std::move(r), std::move(m)); c.insert_or_assign(c.cbegin(), std::move(r), std::move(m)); c.try_emplace(std::move(r), x); c.try_emplace(c.cbegin(), std::move(r), x); }
void f26(sfl::static_unordered_flat_map<Copy, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Move, 3, EqualNA>& o, Arg& x, std::pair<Copy, Move>& v, const Copy& q, Copy& r, Move& m, const Het& h, const EqualNA& f, std::pair<Copy, Move>* p, In<std::pair<Copy, Move>> in, Fw<std::pair<Copy, Move>> fw, Bi<std::pair<Copy, Move>> bi, Px<std::pair<Copy, Move>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Move>> il, const Alloc<std::pair<Copy, Move>>& al) { typedef sfl::static_unordered_flat_map<Copy, Move, 3, EqualNA> C; c.insert_or_assign(q, std::move(m)); c.insert_or_assign(c.cbegin(), q, std::move(m)); c.try_emplace(q, x); c.try_emplace(c.cbegin(), q, x); }
void f27(sfl::static_unordered_flat_map<Move, DefMove, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, DefMove, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, DefMove, 3, EqualNA>& o, Arg& x, std::pair<Move, DefMove>& v, const Move& q, Move& r, DefMove& m, const Het& h, const EqualNA& f, std::pair<Move, DefMove>* p, In<std::pair<Move, DefMove>> in, Fw<std::pair<Move, DefMove>> fw, Bi<std::pair<Move, DefMove>> bi, Px<std::pair<Move, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Move, DefMove>> il, const Alloc<std::pair<Move, DefMove>>& al) { typedef sfl::static_unordered_flat_map<Move, DefMove, 3, EqualNA> C; c[std::move(r)]; c.try_emplace(std::move(r)); }
void f28(sfl::static_unordered_flat_map<Copy, DefMove, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, DefMove, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, DefMove, 3, EqualNA>& o, Arg& x, std::pair<Copy, DefMove>& v, const Copy& q, Copy& r, DefMove& m, const Het& h, const EqualNA& f, std::pair<Copy, DefMove>* p, In<std::pair<Copy, DefMove>> in, Fw<std::pair<Copy, DefMove>> fw, Bi<std::pair<Copy, DefMove>> bi, Px<std::pair<Copy, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Copy, DefMove>> il, const Alloc<std::pair<Copy, DefMove>>& al) { typedef sfl::static_unordered_flat_map<Copy, DefMove, 3, EqualNA> C; c[q]; c.try_emplace(q); }
void f29(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; C d(std::move(c)); }
void f31(sfl::static_unordered_flat_map<Move, Move, 3, Equal>& c, const sfl::static_unordered_flat_map<Move, Move, 3, Equal>& k, sfl::static_unordered_flat_map<Move, Move, 3, Equal>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, Equal> C; c = std::move(o); }
void f32(sfl::static_unordered_flat_map<Move, Move, 3, Equal>& c, const sfl::static_unordered_flat_map<Move, Move, 3, Equal>& k, sfl::static_unordered_flat_map<Move, Move, 3, Equal>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, Equal> C; c.swap(o); swap(c, o); }
void f33(sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& k, sfl::static_unordered_flat_map<Move, Move, 3, EqualNA>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, EqualNA> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA> C; C a(in, in, f); C b(fw, fw, f); C d(bi, bi, f); C e(p, p, f); C g(il, f); }
void f37(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA> C; C a(k); }
void f39(sfl::static_unordered_flat_map<Copy, Copy, 3, Equal>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, Equal>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, Equal>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Equal& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, Equal> C; c = k; c = il; }
void f40(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualNA> C; C a(px, px, f); c.insert(px, px); }
void f41(sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& c, const sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& k, sfl::static_unordered_flat_map<Move, Move, 3, TEqual>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::static_unordered_flat_map<Move, Move, 3, TEqual> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f43(sfl::static_unordered_flat_map<Copy, Copy, 3, EqualD>& c, const sfl::static_unordered_flat_map<Copy, Copy, 3, EqualD>& k, sfl::static_unordered_flat_map<Copy, Copy, 3, EqualD>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualD& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::static_unordered_flat_map<Copy, Copy, 3, EqualD> C; C a; C b(in, in); C d(fw, fw); C e(il); }
void f45(sfl::static_unordered_flat_map<Eq, Eq, 3, EqualNA>& c, const sfl::static_unordered_flat_map<Eq, Eq, 3, EqualNA>& k, sfl::static_unordered_flat_map<Eq, Eq, 3, EqualNA>& o, Arg& x, std::pair<Eq, Eq>& v, const Eq& q, Eq& r, Eq& m, const Het& h, const EqualNA& f, std::pair<Eq, Eq>* p, In<std::pair<Eq, Eq>> in, Fw<std::pair<Eq, Eq>> fw, Bi<std::pair<Eq, Eq>> bi, Px<std::pair<Eq, Eq>> px, const Arg* ax, std::initializer_list<std::pair<Eq, Eq>> il, const Alloc<std::pair<Eq, Eq>>& al) { typedef sfl::static_unordered_flat_map<Eq, Eq, 3, EqualNA> C; (void)(k == k); (void)(k != k); }
}

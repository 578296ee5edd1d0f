// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/small_flat_map.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; C a(f, al); }
void f1(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.clear(); }
void f3(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f4(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f5(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; (void)c.get_allocator(); }
void f8(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.data(); k.data(); }
void f9(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; k.key_comp(); k.value_comp(); }
void f11(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f12(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q); }
void f13(sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f14(sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>> C; c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h); }
void f15(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, Alloc<std::pair<Fixed, Fixed>>> C; c.at(q); k.at(q); }
void f16(sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const Alloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, Alloc<std::pair<Fixed, Fixed>>> C; c.at(h); k.at(h); }
void f17(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>> C; c.erase(h); }
void f19(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; erase_if(c, Pred()); }
void f20(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); c.emplace_hint(c.cbegin(), std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); }
void f22(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f23(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.insert(std::make_pair(std::move(r), std::move(m))); c.insert(c.cbegin(), std::make_pair(std::move(r), std::move(m))); }
void f24(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.emplace(std::move(r), std::move(m)); c.emplace_hint(c.cbegin(), std::move(r), std::move(m)); }
void f25(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; c.insert_or_assign(std::move(r), std::move(m)); c.insert_or_assign(c.cbegin(), std::move(r), std::move(m)); c.try_emplace(std::move(r), x); c.try_emplace(c.cbegin(), std::move(r), x); }
void f26(sfl::small_flat_map<Copy, Move, 3, LessNA, Alloc<std::pair<Copy, Move>>>& c, const sfl::small_flat_map<Copy, Move, 3, LessNA, Alloc<std::pair<Copy, Move>>>& k, sfl::small_flat_map<Copy, Move, 3, LessNA, Alloc<std::pair<Copy, Move>>>& o, Arg& x, std::pair<Copy, Move>& v, const Copy& q, Copy& r, Move& m, const Het& h, const LessNA& f, std::pair<Copy, Move>* p, In<std::pair<Copy, Move>> in, Fw<std::pair<Copy, Move>> fw, Bi<std::pair<Copy, Move>> bi, Px<std::pair<Copy, Move>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Move>> il, const Alloc<std::pair<Copy, Move>>& al) { typedef sfl::small_flat_map<Copy, Move, 3, LessNA, Alloc<std::pair<Copy, Move>>> C; c.insert_or_assign(q, std::move(m)); c.insert_or_assign(c.cbegin(), q, std::move(m)); c.try_emplace(q, x); c.try_emplace(c.cbegin(), q, x); }
void f27(sfl::small_flat_map<Move, DefMove, 3, LessNA, Alloc<std::pair<Move, DefMove>>>& c, const sfl::small_flat_map<Move, DefMove, 3, LessNA, Alloc<std::pair<Move, DefMove>>>& k, sfl::small_flat_map<Move, DefMove, 3, LessNA, Alloc<std::pair<Move, DefMove>>>& o, Arg& x, std::pair<Move, DefMove>& v, const Move& q, Move& r, DefMove& m, const Het& h, const LessNA& f, std::pair<Move, DefMove>* p, In<std::pair<Move, DefMove>> in, Fw<std::pair<Move, DefMove>> fw, Bi<std::pair<Move, DefMove>> bi, Px<std::pair<Move, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Move, DefMove>> il, const Alloc<std::pair<Move, DefMove>>& al) { typedef sfl::small_flat_map<Move, DefMove, 3, LessNA, Alloc<std::pair<Move, DefMove>>> C; c[std::move(r)]; c.try_emplace(std::move(r)); }
void f28(sfl::small_flat_map<Copy, DefMove, 3, LessNA, Alloc<std::pair<Copy, DefMove>>>& c, const sfl::small_flat_map<Copy, DefMove, 3, LessNA, Alloc<std::pair<Copy, DefMove>>>& k, sfl::small_flat_map<Copy, DefMove, 3, LessNA, Alloc<std::pair<Copy, DefMove>>>& o, Arg& x, std::pair<Copy, DefMove>& v, const Copy& q, Copy& r, DefMove& m, const Het& h, const LessNA& f, std::pair<Copy, DefMove>* p, In<std::pair<Copy, DefMove>> in, Fw<std::pair<Copy, DefMove>> fw, Bi<std::pair<Copy, DefMove>> bi, Px<std::pair<Copy, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Copy, DefMove>> il, const Alloc<std::pair<Copy, DefMove>>& al) { typedef sfl::small_flat_map<Copy, DefMove, 3, LessNA, Alloc<std::pair<Copy, DefMove>>> C; c[q]; c.try_emplace(q); }
void f29(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; C d(std::move(c)); }
void f30(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; C d(std::move(c), al); }
void f31(sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>> C; c = std::move(o); }
void f32(sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, Less, Alloc<std::pair<Move, Move>>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, Alloc<std::pair<Move, Move>>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; C a(k); }
void f38(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; C a(k, al); }
void f39(sfl::small_flat_map<Copy, Copy, 3, Less, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, Less, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, Less, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Less& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, Less, Alloc<std::pair<Copy, Copy>>> C; c = k; c = il; }
void f40(sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, Alloc<std::pair<Copy, Copy>>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const Alloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, TLess, Alloc<std::pair<Move, Move>>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f44(sfl::small_flat_map<Copy, Copy, 3, LessD, Alloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessD, Alloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessD, Alloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessD& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const Alloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessD, Alloc<std::pair<Copy, Copy>>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_flat_map<Eq, Eq, 3, LessNA, Alloc<std::pair<Eq, Eq>>>& c, const sfl::small_flat_map<Eq, Eq, 3, LessNA, Alloc<std::pair<Eq, Eq>>>& k, sfl::small_flat_map<Eq, Eq, 3, LessNA, Alloc<std::pair<Eq, Eq>>>& o, Arg& x, std::pair<Eq, Eq>& v, const Eq& q, Eq& r, Eq& m, const Het& h, const LessNA& f, std::pair<Eq, Eq>* p, In<std::pair<Eq, Eq>> in, Fw<std::pair<Eq, Eq>> fw, Bi<std::pair<Eq, Eq>> bi, Px<std::pair<Eq, Eq>> px, const Arg* ax, std::initializer_list<std::pair<Eq, Eq>> il, const Alloc<std::pair<Eq, Eq>>& al) { typedef sfl::small_flat_map<Eq, Eq, 3, LessNA, Alloc<std::pair<Eq, Eq>>> C; (void)(k == k); (void)(k != k); }
void f46(sfl::small_flat_map<Lt, Lt, 3, LessNA, Alloc<std::pair<Lt, Lt>>>& c, const sfl::small_flat_map<Lt, Lt, 3, LessNA, Alloc<std::pair<Lt, Lt>>>& k, sfl::small_flat_map<Lt, Lt, 3, LessNA, Alloc<std::pair<Lt, Lt>>>& o, Arg& x, std::pair<Lt, Lt>& v, const Lt& q, Lt& r, Lt& m, const Het& h, const LessNA& f, std::pair<Lt, Lt>* p, In<std::pair<Lt, Lt>> in, Fw<std::pair<Lt, Lt>> fw, Bi<std::pair<Lt, Lt>> bi, Px<std::pair<Lt, Lt>> px, const Arg* ax, std::initializer_list<std::pair<Lt, Lt>> il, const Alloc<std::pair<Lt, Lt>>& al) { typedef sfl::small_flat_map<Lt, Lt, 3, LessNA, Alloc<std::pair<Lt, Lt>>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}
namespace fancy
{
void f0(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; C a(f, al); }
void f1(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.clear(); }
void f3(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f4(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f5(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; (void)c.get_allocator(); }
void f8(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.data(); k.data(); }
void f9(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; k.key_comp(); k.value_comp(); }
void f11(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f12(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q); }
void f13(sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f14(sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>> C; c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h); }
void f15(sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, LessNA, FAlloc<std::pair<Fixed, Fixed>>> C; c.at(q); k.at(q); }
void f16(sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& c, const sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& k, sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>>& o, Arg& x, std::pair<Fixed, Fixed>& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, std::pair<Fixed, Fixed>* p, In<std::pair<Fixed, Fixed>> in, Fw<std::pair<Fixed, Fixed>> fw, Bi<std::pair<Fixed, Fixed>> bi, Px<std::pair<Fixed, Fixed>> px, const Arg* ax, std::initializer_list<std::pair<Fixed, Fixed>> il, const FAlloc<std::pair<Fixed, Fixed>>& al) { typedef sfl::small_flat_map<Fixed, Fixed, 3, TLess, FAlloc<std::pair<Fixed, Fixed>>> C; c.at(h); k.at(h); }
void f17(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>> C; c.erase(h); }
void f19(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; erase_if(c, Pred()); }
void f20(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); c.emplace_hint(c.cbegin(), std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(x)); }
void f22(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f23(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.insert(std::make_pair(std::move(r), std::move(m))); c.insert(c.cbegin(), std::make_pair(std::move(r), std::move(m))); }
void f24(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.emplace(std::move(r), std::move(m)); c.emplace_hint(c.cbegin(), std::move(r), std::move(m)); }
void f25(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; c.insert_or_assign(std::move(r), std::move(m)); c.insert_or_assign(c.cbegin(), std::move(r), std::move(m)); c.try_emplace(std::move(r), x); c.try_emplace(c.cbegin(), std::move(r), x); }
void f26(sfl::small_flat_map<Copy, Move, 3, LessNA, FAlloc<std::pair<Copy, Move>>>& c, const sfl::small_flat_map<Copy, Move, 3, LessNA, FAlloc<std::pair<Copy, Move>>>& k, sfl::small_flat_map<Copy, Move, 3, LessNA, FAlloc<std::pair<Copy, Move>>>& o, Arg& x, std::pair<Copy, Move>& v, const Copy& q, Copy& r, Move& m, const Het& h, const LessNA& f, std::pair<Copy, Move>* p, In<std::pair<Copy, Move>> in, Fw<std::pair<Copy, Move>> fw, Bi<std::pair<Copy, Move>> bi, Px<std::pair<Copy, Move>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Move>> il, const FAlloc<std::pair<Copy, Move>>& al) { typedef sfl::small_flat_map<Copy, Move, 3, LessNA, FAlloc<std::pair<Copy, Move>>> C; c.insert_or_assign(q, std::move(m)); c.insert_or_assign(c.cbegin(), q, std::move(m)); c.try_emplace(q, x); c.try_emplace(c.cbegin(), q, x); }
void f27(sfl::small_flat_map<Move, DefMove, 3, LessNA, FAlloc<std::pair<Move, DefMove>>>& c, const sfl::small_flat_map<Move, DefMove, 3, LessNA, FAlloc<std::pair<Move, DefMove>>>& k, sfl::small_flat_map<Move, DefMove, 3, LessNA, FAlloc<std::pair<Move, DefMove>>>& o, Arg& x, std::pair<Move, DefMove>& v, const Move& q, Move& r, DefMove& m, const Het& h, const LessNA& f, std::pair<Move, DefMove>* p, In<std::pair<Move, DefMove>> in, Fw<std::pair<Move, DefMove>> fw, Bi<std::pair<Move, DefMove>> bi, Px<std::pair<Move, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Move, DefMove>> il, const FAlloc<std::pair<Move, DefMove>>& al) { typedef sfl::small_flat_map<Move, DefMove, 3, LessNA, FAlloc<std::pair<Move, DefMove>>> C; c[std::move(r)]; c.try_emplace(std::move(r)); }
void f28(sfl::small_flat_map<Copy, DefMove, 3, LessNA, FAlloc<std::pair<Copy, DefMove>>>& c, const sfl::small_flat_map<Copy, DefMove, 3, LessNA, FAlloc<std::pair<Copy, DefMove>>>& k, sfl::small_flat_map<Copy, DefMove, 3, LessNA, FAlloc<std::pair<Copy, DefMove>>>& o, Arg& x, std::pair<Copy, DefMove>& v, const Copy& q, Copy& r, DefMove& m, const Het& h, const LessNA& f, std::pair<Copy, DefMove>* p, In<std::pair<Copy, DefMove>> in, Fw<std::pair<Copy, DefMove>> fw, Bi<std::pair<Copy, DefMove>> bi, Px<std::pair<Copy, DefMove>> px, const Arg* ax, std::initializer_list<std::pair<Copy, DefMove>> il, const FAlloc<std::pair<Copy, DefMove>>& al) { typedef sfl::small_flat_map<Copy, DefMove, 3, LessNA, FAlloc<std::pair<Copy, DefMove>>> C; c[q]; c.try_emplace(q); }
void f29(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; C d(std::move(c)); }
void f30(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; C d(std::move(c), al); }
void f31(sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>> C; c = std::move(o); }
void f32(sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, Less, FAlloc<std::pair<Move, Move>>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, LessNA, FAlloc<std::pair<Move, Move>>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; C a(k); }
void f38(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; C a(k, al); }
void f39(sfl::small_flat_map<Copy, Copy, 3, Less, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, Less, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, Less, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Less& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, Less, FAlloc<std::pair<Copy, Copy>>> C; c = k; c = il; }
void f40(sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessNA, FAlloc<std::pair<Copy, Copy>>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& c, const sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& k, sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>>& o, Arg& x, std::pair<Move, Move>& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, std::pair<Move, Move>* p, In<std::pair<Move, Move>> in, Fw<std::pair<Move, Move>> fw, Bi<std::pair<Move, Move>> bi, Px<std::pair<Move, Move>> px, const Arg* ax, std::initializer_list<std::pair<Move, Move>> il, const FAlloc<std::pair<Move, Move>>& al) { typedef sfl::small_flat_map<Move, Move, 3, TLess, FAlloc<std::pair<Move, Move>>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f44(sfl::small_flat_map<Copy, Copy, 3, LessD, FAlloc<std::pair<Copy, Copy>>>& c, const sfl::small_flat_map<Copy, Copy, 3, LessD, FAlloc<std::pair<Copy, Copy>>>& k, sfl::small_flat_map<Copy, Copy, 3, LessD, FAlloc<std::pair<Copy, Copy>>>& o, Arg& x, std::pair<Copy, Copy>& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessD& f, std::pair<Copy, Copy>* p, In<std::pair<Copy, Copy>> in, Fw<std::pair<Copy, Copy>> fw, Bi<std::pair<Copy, Copy>> bi, Px<std::pair<Copy, Copy>> px, const Arg* ax, std::initializer_list<std::pair<Copy, Copy>> il, const FAlloc<std::pair<Copy, Copy>>& al) { typedef sfl::small_flat_map<Copy, Copy, 3, LessD, FAlloc<std::pair<Copy, Copy>>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_flat_map<Eq, Eq, 3, LessNA, FAlloc<std::pair<Eq, Eq>>>& c, const sfl::small_flat_map<Eq, Eq, 3, LessNA, FAlloc<std::pair<Eq, Eq>>>& k, sfl::small_flat_map<Eq, Eq, 3, LessNA, FAlloc<std::pair<Eq, Eq>>>& o, Arg& x, std::pair<Eq, Eq>& v, const Eq& q, Eq& r, Eq& m, const Het& h, const LessNA& f, std::pair<Eq, Eq>* p, In<std::pair<Eq, Eq>> in, Fw<std::pair<Eq, Eq>> fw, Bi<std::pair<Eq, Eq>> bi, Px<std::pair<Eq, Eq>> px, const Arg* ax, std::initializer_list<std::pair<Eq, Eq>> il, const FAlloc<std::pair<Eq, Eq>>& al) { typedef sfl::small_flat_map<Eq, Eq, 3, LessNA, FAlloc<std::pair<Eq, Eq>>> C; (void)(k == k); (void)(k != k); }
void f46(sfl::small_flat_map<Lt, Lt, 3, LessNA, FAlloc<std::pair<Lt, Lt>>>& c, const sfl::small_flat_map<Lt, Lt, 3, LessNA, FAlloc<std::pair<Lt, Lt>>>& k, sfl::small_flat_map<Lt, Lt, 3, LessNA, FAlloc<std::pair<Lt, Lt>>>& o, Arg& x, std::pair<Lt, Lt>& v, const Lt& q, Lt& r, Lt& m, const Het& h, const LessNA& f, std::pair<Lt, Lt>* p, In<std::pair<Lt, Lt>> in, Fw<std::pair<Lt, Lt>> fw, Bi<std::pair<Lt, Lt>> bi, Px<std::pair<Lt, Lt>> px, const Arg* ax, std::initializer_list<std::pair<Lt, Lt>> il, const FAlloc<std::pair<Lt, Lt>>& al) { typedef sfl::small_flat_map<Lt, Lt, 3, LessNA, FAlloc<std::pair<Lt, Lt>>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}

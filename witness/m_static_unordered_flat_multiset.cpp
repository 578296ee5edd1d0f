// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/static_unordered_flat_multiset.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; C a(f); }
void f1(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; c.clear(); }
void f3(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f5(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f6(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; (void)c.full(); }
void f8(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; c.data(); k.data(); }
void f10(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; k.key_eq(); }
void f11(sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, EqualNA> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f13(sfl::static_unordered_flat_multiset<Fixed, 3, TEqual>& c, const sfl::static_unordered_flat_multiset<Fixed, 3, TEqual>& k, sfl::static_unordered_flat_multiset<Fixed, 3, TEqual>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TEqual& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_unordered_flat_multiset<Fixed, 3, TEqual> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f17(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::static_unordered_flat_multiset<Move, 3, TEqual>& c, const sfl::static_unordered_flat_multiset<Move, 3, TEqual>& k, sfl::static_unordered_flat_multiset<Move, 3, TEqual>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, TEqual> C; c.erase(h); }
void f19(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; erase_if(c, Pred()); }
void f21(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; C d(std::move(c)); }
void f31(sfl::static_unordered_flat_multiset<Move, 3, Equal>& c, const sfl::static_unordered_flat_multiset<Move, 3, Equal>& k, sfl::static_unordered_flat_multiset<Move, 3, Equal>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, Equal> C; c = std::move(o); }
void f32(sfl::static_unordered_flat_multiset<Move, 3, Equal>& c, const sfl::static_unordered_flat_multiset<Move, 3, Equal>& k, sfl::static_unordered_flat_multiset<Move, 3, Equal>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, Equal> C; c.swap(o); swap(c, o); }
void f33(sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Move, 3, EqualNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, EqualNA> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualNA> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualNA> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualNA> C; C a(in, in, f); C b(fw, fw, f); C d(bi, bi, f); C e(p, p, f); C g(il, f); }
void f37(sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualNA> C; C a(k); }
void f39(sfl::static_unordered_flat_multiset<Copy, 3, Equal>& c, const sfl::static_unordered_flat_multiset<Copy, 3, Equal>& k, sfl::static_unordered_flat_multiset<Copy, 3, Equal>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Equal& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, Equal> C; c = k; c = il; }
void f40(sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualNA> C; C a(px, px, f); c.insert(px, px); }
void f41(sfl::static_unordered_flat_multiset<Move, 3, TEqual>& c, const sfl::static_unordered_flat_multiset<Move, 3, TEqual>& k, sfl::static_unordered_flat_multiset<Move, 3, TEqual>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, TEqual> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::static_unordered_flat_multiset<Move, 3, TEqual>& c, const sfl::static_unordered_flat_multiset<Move, 3, TEqual>& k, sfl::static_unordered_flat_multiset<Move, 3, TEqual>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_unordered_flat_multiset<Move, 3, TEqual> C; c.emplace(x); }
void f43(sfl::static_unordered_flat_multiset<Copy, 3, EqualD>& c, const sfl::static_unordered_flat_multiset<Copy, 3, EqualD>& k, sfl::static_unordered_flat_multiset<Copy, 3, EqualD>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_unordered_flat_multiset<Copy, 3, EqualD> C; C a; C b(in, in); C d(fw, fw); C e(il); }
void f45(sfl::static_unordered_flat_multiset<Eq, 3, EqualNA>& c, const sfl::static_unordered_flat_multiset<Eq, 3, EqualNA>& k, sfl::static_unordered_flat_multiset<Eq, 3, EqualNA>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const EqualNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::static_unordered_flat_multiset<Eq, 3, EqualNA> C; (void)(k == k); (void)(k != k); }
}

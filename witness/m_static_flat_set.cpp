// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/static_flat_set.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; C a(f); }
void f1(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.clear(); }
void f3(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f4(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f5(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f6(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; (void)c.full(); }
void f8(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.data(); k.data(); }
void f9(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; k.key_comp(); k.value_comp(); }
void f11(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f12(sfl::static_flat_set<Fixed, 3, LessNA>& c, const sfl::static_flat_set<Fixed, 3, LessNA>& k, sfl::static_flat_set<Fixed, 3, LessNA>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, LessNA> C; c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q); }
void f13(sfl::static_flat_set<Fixed, 3, TLess>& c, const sfl::static_flat_set<Fixed, 3, TLess>& k, sfl::static_flat_set<Fixed, 3, TLess>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, TLess> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f14(sfl::static_flat_set<Fixed, 3, TLess>& c, const sfl::static_flat_set<Fixed, 3, TLess>& k, sfl::static_flat_set<Fixed, 3, TLess>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_flat_set<Fixed, 3, TLess> C; c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h); }
void f17(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::static_flat_set<Move, 3, TLess>& c, const sfl::static_flat_set<Move, 3, TLess>& k, sfl::static_flat_set<Move, 3, TLess>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, TLess> C; c.erase(h); }
void f19(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; erase_if(c, Pred()); }
void f21(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; C d(std::move(c)); }
void f31(sfl::static_flat_set<Move, 3, Less>& c, const sfl::static_flat_set<Move, 3, Less>& k, sfl::static_flat_set<Move, 3, Less>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, Less> C; c = std::move(o); }
void f32(sfl::static_flat_set<Move, 3, Less>& c, const sfl::static_flat_set<Move, 3, Less>& k, sfl::static_flat_set<Move, 3, Less>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, Less> C; c.swap(o); swap(c, o); }
void f33(sfl::static_flat_set<Move, 3, LessNA>& c, const sfl::static_flat_set<Move, 3, LessNA>& k, sfl::static_flat_set<Move, 3, LessNA>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, LessNA> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::static_flat_set<Copy, 3, LessNA>& c, const sfl::static_flat_set<Copy, 3, LessNA>& k, sfl::static_flat_set<Copy, 3, LessNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessNA> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::static_flat_set<Copy, 3, LessNA>& c, const sfl::static_flat_set<Copy, 3, LessNA>& k, sfl::static_flat_set<Copy, 3, LessNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessNA> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::static_flat_set<Copy, 3, LessNA>& c, const sfl::static_flat_set<Copy, 3, LessNA>& k, sfl::static_flat_set<Copy, 3, LessNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessNA> C; C a(in, in, f); C b(fw, fw, f); C d(bi, bi, f); C e(p, p, f); C g(il, f); }
void f37(sfl::static_flat_set<Copy, 3, LessNA>& c, const sfl::static_flat_set<Copy, 3, LessNA>& k, sfl::static_flat_set<Copy, 3, LessNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessNA> C; C a(k); }
void f39(sfl::static_flat_set<Copy, 3, Less>& c, const sfl::static_flat_set<Copy, 3, Less>& k, sfl::static_flat_set<Copy, 3, Less>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Less& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, Less> C; c = k; c = il; }
void f40(sfl::static_flat_set<Copy, 3, LessNA>& c, const sfl::static_flat_set<Copy, 3, LessNA>& k, sfl::static_flat_set<Copy, 3, LessNA>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessNA> C; C a(px, px, f); c.insert(px, px); }
void f41(sfl::static_flat_set<Move, 3, TLess>& c, const sfl::static_flat_set<Move, 3, TLess>& k, sfl::static_flat_set<Move, 3, TLess>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, TLess> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::static_flat_set<Move, 3, TLess>& c, const sfl::static_flat_set<Move, 3, TLess>& k, sfl::static_flat_set<Move, 3, TLess>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_flat_set<Move, 3, TLess> C; c.emplace(x); }
void f43(sfl::static_flat_set<Copy, 3, LessD>& c, const sfl::static_flat_set<Copy, 3, LessD>& k, sfl::static_flat_set<Copy, 3, LessD>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_flat_set<Copy, 3, LessD> C; C a; C b(in, in); C d(fw, fw); C e(il); }
void f45(sfl::static_flat_set<Eq, 3, LessNA>& c, const sfl::static_flat_set<Eq, 3, LessNA>& k, sfl::static_flat_set<Eq, 3, LessNA>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const LessNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::static_flat_set<Eq, 3, LessNA> C; (void)(k == k); (void)(k != k); }
void f46(sfl::static_flat_set<Lt, 3, LessNA>& c, const sfl::static_flat_set<Lt, 3, LessNA>& k, sfl::static_flat_set<Lt, 3, LessNA>& o, Arg& x, Lt& v, const Lt& q, Lt& r, Lt& m, const Het& h, const LessNA& f, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const Alloc<Lt>& al) { typedef sfl::static_flat_set<Lt, 3, LessNA> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}

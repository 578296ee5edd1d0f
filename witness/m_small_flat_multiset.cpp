// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/small_flat_multiset.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; C a(f, al); }
void f1(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.clear(); }
void f3(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f4(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f5(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; (void)c.get_allocator(); }
void f8(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.data(); k.data(); }
void f9(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; k.key_comp(); k.value_comp(); }
void f11(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f12(sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, Alloc<Fixed>> C; c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q); }
void f13(sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f14(sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, TLess, Alloc<Fixed>> C; c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h); }
void f17(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>> C; c.erase(h); }
void f19(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; erase_if(c, Pred()); }
void f21(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; C d(std::move(c)); }
void f30(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; C d(std::move(c), al); }
void f31(sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>> C; c = std::move(o); }
void f32(sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, Less, Alloc<Move>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, Alloc<Move>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; C a(k); }
void f38(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; C a(k, al); }
void f39(sfl::small_flat_multiset<Copy, 3, Less, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, Less, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, Less, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Less& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, Less, Alloc<Copy>> C; c = k; c = il; }
void f40(sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, Alloc<Copy>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, Alloc<Move>> C; c.emplace(x); }
void f44(sfl::small_flat_multiset<Copy, 3, LessD, Alloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessD, Alloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessD, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessD, Alloc<Copy>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_flat_multiset<Eq, 3, LessNA, Alloc<Eq>>& c, const sfl::small_flat_multiset<Eq, 3, LessNA, Alloc<Eq>>& k, sfl::small_flat_multiset<Eq, 3, LessNA, Alloc<Eq>>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const LessNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::small_flat_multiset<Eq, 3, LessNA, Alloc<Eq>> C; (void)(k == k); (void)(k != k); }
void f46(sfl::small_flat_multiset<Lt, 3, LessNA, Alloc<Lt>>& c, const sfl::small_flat_multiset<Lt, 3, LessNA, Alloc<Lt>>& k, sfl::small_flat_multiset<Lt, 3, LessNA, Alloc<Lt>>& o, Arg& x, Lt& v, const Lt& q, Lt& r, Lt& m, const Het& h, const LessNA& f, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const Alloc<Lt>& al) { typedef sfl::small_flat_multiset<Lt, 3, LessNA, Alloc<Lt>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}
namespace fancy
{
void f0(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; C a(f, al); }
void f1(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.clear(); }
void f3(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f4(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f5(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; (void)c.get_allocator(); }
void f8(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.data(); k.data(); }
void f9(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; k.key_comp(); k.value_comp(); }
void f11(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f12(sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const LessNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, LessNA, FAlloc<Fixed>> C; c.lower_bound(q); k.lower_bound(q); c.upper_bound(q); k.upper_bound(q); c.equal_range(q); k.equal_range(q); }
void f13(sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f14(sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& c, const sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& k, sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TLess& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_flat_multiset<Fixed, 3, TLess, FAlloc<Fixed>> C; c.lower_bound(h); k.lower_bound(h); c.upper_bound(h); k.upper_bound(h); c.equal_range(h); k.equal_range(h); }
void f17(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>> C; c.erase(h); }
void f19(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; erase_if(c, Pred()); }
void f21(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; C d(std::move(c)); }
void f30(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; C d(std::move(c), al); }
void f31(sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>> C; c = std::move(o); }
void f32(sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Less& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, Less, FAlloc<Move>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const LessNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, LessNA, FAlloc<Move>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; C a(k); }
void f38(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; C a(k, al); }
void f39(sfl::small_flat_multiset<Copy, 3, Less, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, Less, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, Less, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Less& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, Less, FAlloc<Copy>> C; c = k; c = il; }
void f40(sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessNA, FAlloc<Copy>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& c, const sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& k, sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TLess& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_flat_multiset<Move, 3, TLess, FAlloc<Move>> C; c.emplace(x); }
void f44(sfl::small_flat_multiset<Copy, 3, LessD, FAlloc<Copy>>& c, const sfl::small_flat_multiset<Copy, 3, LessD, FAlloc<Copy>>& k, sfl::small_flat_multiset<Copy, 3, LessD, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const LessD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_flat_multiset<Copy, 3, LessD, FAlloc<Copy>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_flat_multiset<Eq, 3, LessNA, FAlloc<Eq>>& c, const sfl::small_flat_multiset<Eq, 3, LessNA, FAlloc<Eq>>& k, sfl::small_flat_multiset<Eq, 3, LessNA, FAlloc<Eq>>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const LessNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const FAlloc<Eq>& al) { typedef sfl::small_flat_multiset<Eq, 3, LessNA, FAlloc<Eq>> C; (void)(k == k); (void)(k != k); }
void f46(sfl::small_flat_multiset<Lt, 3, LessNA, FAlloc<Lt>>& c, const sfl::small_flat_multiset<Lt, 3, LessNA, FAlloc<Lt>>& k, sfl::small_flat_multiset<Lt, 3, LessNA, FAlloc<Lt>>& o, Arg& x, Lt& v, const Lt& q, Lt& r, Lt& m, const Het& h, const LessNA& f, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const FAlloc<Lt>& al) { typedef sfl::small_flat_multiset<Lt, 3, LessNA, FAlloc<Lt>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}

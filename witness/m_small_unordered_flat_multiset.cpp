// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/small_unordered_flat_multiset.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; C a(f, al); }
void f1(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; c.clear(); }
void f3(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f5(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; (void)c.get_allocator(); }
void f8(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; c.data(); k.data(); }
void f10(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; k.key_eq(); }
void f11(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, Alloc<Fixed>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f13(sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, Alloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, Alloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, Alloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TEqual& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, Alloc<Fixed>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f17(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>> C; c.erase(h); }
void f19(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; erase_if(c, Pred()); }
void f21(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; C d(std::move(c)); }
void f30(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; C d(std::move(c), al); }
void f31(sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>> C; c = std::move(o); }
void f32(sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, Equal, Alloc<Move>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, Alloc<Move>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; C a(k); }
void f38(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; C a(k, al); }
void f39(sfl::small_unordered_flat_multiset<Copy, 3, Equal, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, Equal, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, Equal, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Equal& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, Equal, Alloc<Copy>> C; c = k; c = il; }
void f40(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, Alloc<Copy>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, Alloc<Move>> C; c.emplace(x); }
void f44(sfl::small_unordered_flat_multiset<Copy, 3, EqualD, Alloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualD, Alloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualD, Alloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualD, Alloc<Copy>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, Alloc<Eq>>& c, const sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, Alloc<Eq>>& k, sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, Alloc<Eq>>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const EqualNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, Alloc<Eq>> C; (void)(k == k); (void)(k != k); }
}
namespace fancy
{
void f0(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; C a(f, al); }
void f1(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); (void)c.available(); }
void f2(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; c.clear(); }
void f3(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); }
void f5(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f7(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; (void)c.get_allocator(); }
void f8(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; c.data(); k.data(); }
void f10(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; k.key_eq(); }
void f11(sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const EqualNA& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, EqualNA, FAlloc<Fixed>> C; c.find(q); k.find(q); (void)k.count(q); (void)k.contains(q); }
void f13(sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, FAlloc<Fixed>>& c, const sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, FAlloc<Fixed>>& k, sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, FAlloc<Fixed>>& o, Arg& x, Fixed& v, const Fixed& q, Fixed& r, Fixed& m, const Het& h, const TEqual& f, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::small_unordered_flat_multiset<Fixed, 3, TEqual, FAlloc<Fixed>> C; c.find(h); k.find(h); (void)k.count(h); (void)k.contains(h); }
void f17(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f18(sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>> C; c.erase(h); }
void f19(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; erase_if(c, Pred()); }
void f21(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; c.emplace(x); c.emplace_hint(c.cbegin(), x); }
void f22(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; c.insert(std::move(v)); c.insert(c.cbegin(), std::move(v)); }
void f29(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; C d(std::move(c)); }
void f30(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; C d(std::move(c), al); }
void f31(sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>> C; c = std::move(o); }
void f32(sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const Equal& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, Equal, FAlloc<Move>> C; c.swap(o); swap(c, o); }
void f33(sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const EqualNA& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, EqualNA, FAlloc<Move>> C; C a(std::make_move_iterator(p), std::make_move_iterator(p), f, al); c.insert(std::make_move_iterator(p), std::make_move_iterator(p)); }
void f34(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; c.insert(k.begin()[0]); c.insert(c.cbegin(), k.begin()[0]); }
void f35(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; c.insert(in, in); c.insert(fw, fw); c.insert(bi, bi); c.insert(p, p); c.insert(il); }
void f36(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; C a(in, in, f, al); C b(fw, fw, f, al); C d(bi, bi, f, al); C e(p, p, f, al); C g(il, f, al); }
void f37(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; C a(k); }
void f38(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; C a(k, al); }
void f39(sfl::small_unordered_flat_multiset<Copy, 3, Equal, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, Equal, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, Equal, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const Equal& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, Equal, FAlloc<Copy>> C; c = k; c = il; }
void f40(sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualNA& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualNA, FAlloc<Copy>> C; C a(px, px, f, al); c.insert(px, px); }
void f41(sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin()); c.erase(c.cbegin(), c.cend()); c.erase(q); }
void f42(sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& c, const sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& k, sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>>& o, Arg& x, Move& v, const Move& q, Move& r, Move& m, const Het& h, const TEqual& f, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::small_unordered_flat_multiset<Move, 3, TEqual, FAlloc<Move>> C; c.emplace(x); }
void f44(sfl::small_unordered_flat_multiset<Copy, 3, EqualD, FAlloc<Copy>>& c, const sfl::small_unordered_flat_multiset<Copy, 3, EqualD, FAlloc<Copy>>& k, sfl::small_unordered_flat_multiset<Copy, 3, EqualD, FAlloc<Copy>>& o, Arg& x, Copy& v, const Copy& q, Copy& r, Copy& m, const Het& h, const EqualD& f, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::small_unordered_flat_multiset<Copy, 3, EqualD, FAlloc<Copy>> C; C a(al); C b(in, in, al); C d(fw, fw, al); C e(il, al); }
void f45(sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, FAlloc<Eq>>& c, const sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, FAlloc<Eq>>& k, sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, FAlloc<Eq>>& o, Arg& x, Eq& v, const Eq& q, Eq& r, Eq& m, const Het& h, const EqualNA& f, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const FAlloc<Eq>& al) { typedef sfl::small_unordered_flat_multiset<Eq, 3, EqualNA, FAlloc<Eq>> C; (void)(k == k); (void)(k != k); }
}

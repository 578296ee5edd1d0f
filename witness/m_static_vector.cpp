// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/static_vector.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; C a; }
void f1(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); }
void f2(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.clear(); }
void f3(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.pop_back(); }
void f5(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f6(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.at(1); k.at(1); c[1]; k[1]; c.front(); k.front(); c.back(); k.back(); }
void f7(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.data(); k.data(); }
void f8(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f11(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; c.emplace_back(x); c.emplace_back(x, 1); }
void f13(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; (void)c.available(); }
void f14(sfl::static_vector<Fixed, 3>& c, const sfl::static_vector<Fixed, 3>& k, sfl::static_vector<Fixed, 3>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::static_vector<Fixed, 3> C; (void)c.full(); }
void f16(sfl::static_vector<Def, 3>& c, const sfl::static_vector<Def, 3>& k, sfl::static_vector<Def, 3>& o, Arg& x, Def& v, Def* p, In<Def> in, Fw<Def> fw, Bi<Def> bi, Px<Def> px, const Arg* ax, std::initializer_list<Def> il, const Alloc<Def>& al) { typedef sfl::static_vector<Def, 3> C; C a(3); }
void f17(sfl::static_vector<Def, 3>& c, const sfl::static_vector<Def, 3>& k, sfl::static_vector<Def, 3>& o, Arg& x, Def& v, Def* p, In<Def> in, Fw<Def> fw, Bi<Def> bi, Px<Def> px, const Arg* ax, std::initializer_list<Def> il, const Alloc<Def>& al) { typedef sfl::static_vector<Def, 3> C; c.emplace_back(); }
void f18(sfl::static_vector<Def, 3>& c, const sfl::static_vector<Def, 3>& k, sfl::static_vector<Def, 3>& o, Arg& x, Def& v, Def* p, In<Def> in, Fw<Def> fw, Bi<Def> bi, Px<Def> px, const Arg* ax, std::initializer_list<Def> il, const Alloc<Def>& al) { typedef sfl::static_vector<Def, 3> C; c.resize(3); }
void f19(sfl::static_vector<DefMoveC, 3>& c, const sfl::static_vector<DefMoveC, 3>& k, sfl::static_vector<DefMoveC, 3>& o, Arg& x, DefMoveC& v, DefMoveC* p, In<DefMoveC> in, Fw<DefMoveC> fw, Bi<DefMoveC> bi, Px<DefMoveC> px, const Arg* ax, std::initializer_list<DefMoveC> il, const Alloc<DefMoveC>& al) { typedef sfl::static_vector<DefMoveC, 3> C; c.resize(3); }
void f22(sfl::static_vector<MoveC, 3>& c, const sfl::static_vector<MoveC, 3>& k, sfl::static_vector<MoveC, 3>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::static_vector<MoveC, 3> C; c.emplace_back(x); }
void f23(sfl::static_vector<MoveC, 3>& c, const sfl::static_vector<MoveC, 3>& k, sfl::static_vector<MoveC, 3>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::static_vector<MoveC, 3> C; c.push_back(std::move(v)); }
void f25(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.emplace_back(x); }
void f26(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.push_back(std::move(v)); }
void f31(sfl::static_vector<MoveC, 3>& c, const sfl::static_vector<MoveC, 3>& k, sfl::static_vector<MoveC, 3>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::static_vector<MoveC, 3> C; C d(std::move(c)); }
void f33(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(3, k[0]); }
void f34(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(fw, fw); C b(bi, bi); C d(p, p); }
void f35(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(in, in); }
void f36(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; C a(in, in); C b(fw, fw); C d(bi, bi); C e(p, p); }
void f37(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(k); }
void f39(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(il); }
void f40(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; c.push_back(k[0]); }
void f41(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; c.resize(3, k[0]); }
void f45(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; c.emplace_back(k[0]); }
void f46(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.erase(c.begin()); c.erase(c.cbegin(), c.cend()); }
void f47(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.emplace(c.cbegin(), x); }
void f48(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.insert(c.cbegin(), std::move(v)); }
void f49(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c = std::move(o); }
void f50(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; erase_if(c, Pred()); }
void f51(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.emplace(c.begin(), x); }
void f52(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.swap(o); swap(c, o); }
void f53(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; c.assign(std::make_move_iterator(p), std::make_move_iterator(p)); C a(std::make_move_iterator(p), std::make_move_iterator(p)); c.insert(c.cbegin(), std::make_move_iterator(p), std::make_move_iterator(p)); }
void f54(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; c = k; }
void f55(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; c.assign(3, k[0]); c.assign(in, in); c.assign(fw, fw); c.assign(bi, bi); c.assign(p, p); c.assign(il); c = il; }
void f56(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; c.insert(c.cbegin(), k[0]); c.insert(c.cbegin(), 3, k[0]); }
void f57(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; c.insert(c.cbegin(), in, in); c.insert(c.cbegin(), fw, fw); c.insert(c.cbegin(), bi, bi); c.insert(c.cbegin(), p, p); c.insert(c.cbegin(), il); }
void f58(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; c.emplace(c.cbegin(), k[0]); }
void f59(sfl::static_vector<CopyC, 3>& c, const sfl::static_vector<CopyC, 3>& k, sfl::static_vector<CopyC, 3>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::static_vector<CopyC, 3> C; C a(px, px); }
void f60(sfl::static_vector<Copy, 3>& c, const sfl::static_vector<Copy, 3>& k, sfl::static_vector<Copy, 3>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::static_vector<Copy, 3> C; C a(px, px); c.assign(px, px); c.insert(c.cbegin(), px, px); }
void f61(sfl::static_vector<MoveC, 3>& c, const sfl::static_vector<MoveC, 3>& k, sfl::static_vector<MoveC, 3>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::static_vector<MoveC, 3> C; C a(ax, ax); }
void f62(sfl::static_vector<Move, 3>& c, const sfl::static_vector<Move, 3>& k, sfl::static_vector<Move, 3>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::static_vector<Move, 3> C; C a(ax, ax); }
void f63(sfl::static_vector<Eq, 3>& c, const sfl::static_vector<Eq, 3>& k, sfl::static_vector<Eq, 3>& o, Arg& x, Eq& v, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::static_vector<Eq, 3> C; (void)(k == k); (void)(k != k); }
void f64(sfl::static_vector<Lt, 3>& c, const sfl::static_vector<Lt, 3>& k, sfl::static_vector<Lt, 3>& o, Arg& x, Lt& v, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const Alloc<Lt>& al) { typedef sfl::static_vector<Lt, 3> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}

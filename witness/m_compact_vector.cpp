// written by tools/gencomp.py
#include "min.hpp"
#include <tuple>
#include "sfl/compact_vector.hpp"
using namespace mini;
namespace plain
{
void f0(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; C a(al); }
void f1(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); }
void f2(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.clear(); }
void f5(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f6(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.at(1); k.at(1); c[1]; k[1]; c.front(); k.front(); c.back(); k.back(); }
void f7(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.data(); k.data(); }
void f8(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f9(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; c.swap(o); swap(c, o); }
void f10(sfl::compact_vector<Fixed, Alloc<Fixed>>& c, const sfl::compact_vector<Fixed, Alloc<Fixed>>& k, sfl::compact_vector<Fixed, Alloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const Alloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, Alloc<Fixed>> C; (void)c.get_allocator(); }
void f16(sfl::compact_vector<Def, Alloc<Def>>& c, const sfl::compact_vector<Def, Alloc<Def>>& k, sfl::compact_vector<Def, Alloc<Def>>& o, Arg& x, Def& v, Def* p, In<Def> in, Fw<Def> fw, Bi<Def> bi, Px<Def> px, const Arg* ax, std::initializer_list<Def> il, const Alloc<Def>& al) { typedef sfl::compact_vector<Def, Alloc<Def>> C; C a(3, al); }
void f19(sfl::compact_vector<DefMoveC, Alloc<DefMoveC>>& c, const sfl::compact_vector<DefMoveC, Alloc<DefMoveC>>& k, sfl::compact_vector<DefMoveC, Alloc<DefMoveC>>& o, Arg& x, DefMoveC& v, DefMoveC* p, In<DefMoveC> in, Fw<DefMoveC> fw, Bi<DefMoveC> bi, Px<DefMoveC> px, const Arg* ax, std::initializer_list<DefMoveC> il, const Alloc<DefMoveC>& al) { typedef sfl::compact_vector<DefMoveC, Alloc<DefMoveC>> C; c.resize(3); }
void f22(sfl::compact_vector<MoveC, Alloc<MoveC>>& c, const sfl::compact_vector<MoveC, Alloc<MoveC>>& k, sfl::compact_vector<MoveC, Alloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, Alloc<MoveC>> C; c.emplace_back(x); }
void f23(sfl::compact_vector<MoveC, Alloc<MoveC>>& c, const sfl::compact_vector<MoveC, Alloc<MoveC>>& k, sfl::compact_vector<MoveC, Alloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, Alloc<MoveC>> C; c.push_back(std::move(v)); }
void f25(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.emplace_back(x); }
void f26(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.push_back(std::move(v)); }
void f31(sfl::compact_vector<MoveC, Alloc<MoveC>>& c, const sfl::compact_vector<MoveC, Alloc<MoveC>>& k, sfl::compact_vector<MoveC, Alloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, Alloc<MoveC>> C; C d(std::move(c)); }
void f32(sfl::compact_vector<MoveC, Alloc<MoveC>>& c, const sfl::compact_vector<MoveC, Alloc<MoveC>>& k, sfl::compact_vector<MoveC, Alloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, Alloc<MoveC>> C; C d(std::move(c), al); }
void f33(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(3, k[0], al); }
void f34(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(fw, fw, al); C b(bi, bi, al); C d(p, p, al); }
void f35(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(in, in, al); }
void f36(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; C a(in, in, al); C b(fw, fw, al); C d(bi, bi, al); C e(p, p, al); }
void f37(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(k); }
void f38(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(k, al); }
void f39(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(il, al); }
void f40(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; c.push_back(k[0]); }
void f41(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; c.resize(3, k[0]); }
void f45(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; c.emplace_back(k[0]); }
void f46(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin(), c.cend()); }
void f47(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.emplace(c.cbegin(), x); }
void f48(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.insert(c.cbegin(), std::move(v)); }
void f49(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c = std::move(o); }
void f50(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; erase_if(c, Pred()); }
void f51(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.emplace(c.begin(), x); }
void f52(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.swap(o); swap(c, o); }
void f53(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; c.assign(std::make_move_iterator(p), std::make_move_iterator(p)); C a(std::make_move_iterator(p), std::make_move_iterator(p), al); c.insert(c.cbegin(), std::make_move_iterator(p), std::make_move_iterator(p)); }
void f54(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; c = k; }
void f55(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; c.assign(3, k[0]); c.assign(in, in); c.assign(fw, fw); c.assign(bi, bi); c.assign(p, p); c.assign(il); c = il; }
void f56(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; c.insert(c.cbegin(), k[0]); c.insert(c.cbegin(), 3, k[0]); }
void f57(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; c.insert(c.cbegin(), in, in); c.insert(c.cbegin(), fw, fw); c.insert(c.cbegin(), bi, bi); c.insert(c.cbegin(), p, p); c.insert(c.cbegin(), il); }
void f58(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; c.emplace(c.cbegin(), k[0]); }
void f59(sfl::compact_vector<CopyC, Alloc<CopyC>>& c, const sfl::compact_vector<CopyC, Alloc<CopyC>>& k, sfl::compact_vector<CopyC, Alloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const Alloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, Alloc<CopyC>> C; C a(px, px, al); }
void f60(sfl::compact_vector<Copy, Alloc<Copy>>& c, const sfl::compact_vector<Copy, Alloc<Copy>>& k, sfl::compact_vector<Copy, Alloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const Alloc<Copy>& al) { typedef sfl::compact_vector<Copy, Alloc<Copy>> C; C a(px, px, al); c.assign(px, px); c.insert(c.cbegin(), px, px); }
void f61(sfl::compact_vector<MoveC, Alloc<MoveC>>& c, const sfl::compact_vector<MoveC, Alloc<MoveC>>& k, sfl::compact_vector<MoveC, Alloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const Alloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, Alloc<MoveC>> C; C a(ax, ax, al); }
void f62(sfl::compact_vector<Move, Alloc<Move>>& c, const sfl::compact_vector<Move, Alloc<Move>>& k, sfl::compact_vector<Move, Alloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const Alloc<Move>& al) { typedef sfl::compact_vector<Move, Alloc<Move>> C; C a(ax, ax, al); }
void f63(sfl::compact_vector<Eq, Alloc<Eq>>& c, const sfl::compact_vector<Eq, Alloc<Eq>>& k, sfl::compact_vector<Eq, Alloc<Eq>>& o, Arg& x, Eq& v, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const Alloc<Eq>& al) { typedef sfl::compact_vector<Eq, Alloc<Eq>> C; (void)(k == k); (void)(k != k); }
void f64(sfl::compact_vector<Lt, Alloc<Lt>>& c, const sfl::compact_vector<Lt, Alloc<Lt>>& k, sfl::compact_vector<Lt, Alloc<Lt>>& o, Arg& x, Lt& v, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const Alloc<Lt>& al) { typedef sfl::compact_vector<Lt, Alloc<Lt>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}
namespace fancy
{
void f0(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; C a(al); }
void f1(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; (void)c.size(); (void)c.empty(); (void)c.max_size(); (void)c.capacity(); }
void f2(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.clear(); }
void f5(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.begin(); c.end(); k.begin(); k.end(); c.cbegin(); c.cend(); c.rbegin(); c.rend(); k.rbegin(); k.rend(); c.crbegin(); c.crend(); }
void f6(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.at(1); k.at(1); c[1]; k[1]; c.front(); k.front(); c.back(); k.back(); }
void f7(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.data(); k.data(); }
void f8(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.nth(1); k.nth(1); c.index_of(c.begin()); }
void f9(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; c.swap(o); swap(c, o); }
void f10(sfl::compact_vector<Fixed, FAlloc<Fixed>>& c, const sfl::compact_vector<Fixed, FAlloc<Fixed>>& k, sfl::compact_vector<Fixed, FAlloc<Fixed>>& o, Arg& x, Fixed& v, Fixed* p, In<Fixed> in, Fw<Fixed> fw, Bi<Fixed> bi, Px<Fixed> px, const Arg* ax, std::initializer_list<Fixed> il, const FAlloc<Fixed>& al) { typedef sfl::compact_vector<Fixed, FAlloc<Fixed>> C; (void)c.get_allocator(); }
void f16(sfl::compact_vector<Def, FAlloc<Def>>& c, const sfl::compact_vector<Def, FAlloc<Def>>& k, sfl::compact_vector<Def, FAlloc<Def>>& o, Arg& x, Def& v, Def* p, In<Def> in, Fw<Def> fw, Bi<Def> bi, Px<Def> px, const Arg* ax, std::initializer_list<Def> il, const FAlloc<Def>& al) { typedef sfl::compact_vector<Def, FAlloc<Def>> C; C a(3, al); }
void f19(sfl::compact_vector<DefMoveC, FAlloc<DefMoveC>>& c, const sfl::compact_vector<DefMoveC, FAlloc<DefMoveC>>& k, sfl::compact_vector<DefMoveC, FAlloc<DefMoveC>>& o, Arg& x, DefMoveC& v, DefMoveC* p, In<DefMoveC> in, Fw<DefMoveC> fw, Bi<DefMoveC> bi, Px<DefMoveC> px, const Arg* ax, std::initializer_list<DefMoveC> il, const FAlloc<DefMoveC>& al) { typedef sfl::compact_vector<DefMoveC, FAlloc<DefMoveC>> C; c.resize(3); }
void f22(sfl::compact_vector<MoveC, FAlloc<MoveC>>& c, const sfl::compact_vector<MoveC, FAlloc<MoveC>>& k, sfl::compact_vector<MoveC, FAlloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const FAlloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, FAlloc<MoveC>> C; c.emplace_back(x); }
void f23(sfl::compact_vector<MoveC, FAlloc<MoveC>>& c, const sfl::compact_vector<MoveC, FAlloc<MoveC>>& k, sfl::compact_vector<MoveC, FAlloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const FAlloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, FAlloc<MoveC>> C; c.push_back(std::move(v)); }
void f25(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.emplace_back(x); }
void f26(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.push_back(std::move(v)); }
void f31(sfl::compact_vector<MoveC, FAlloc<MoveC>>& c, const sfl::compact_vector<MoveC, FAlloc<MoveC>>& k, sfl::compact_vector<MoveC, FAlloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const FAlloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, FAlloc<MoveC>> C; C d(std::move(c)); }
void f32(sfl::compact_vector<MoveC, FAlloc<MoveC>>& c, const sfl::compact_vector<MoveC, FAlloc<MoveC>>& k, sfl::compact_vector<MoveC, FAlloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const FAlloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, FAlloc<MoveC>> C; C d(std::move(c), al); }
void f33(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(3, k[0], al); }
void f34(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(fw, fw, al); C b(bi, bi, al); C d(p, p, al); }
void f35(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(in, in, al); }
void f36(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; C a(in, in, al); C b(fw, fw, al); C d(bi, bi, al); C e(p, p, al); }
void f37(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(k); }
void f38(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(k, al); }
void f39(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(il, al); }
void f40(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; c.push_back(k[0]); }
void f41(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; c.resize(3, k[0]); }
void f45(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; c.emplace_back(k[0]); }
void f46(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.erase(c.begin()); c.erase(c.cbegin(), c.cend()); }
void f47(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.emplace(c.cbegin(), x); }
void f48(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.insert(c.cbegin(), std::move(v)); }
void f49(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c = std::move(o); }
void f50(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; erase_if(c, Pred()); }
void f51(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.emplace(c.begin(), x); }
void f52(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.swap(o); swap(c, o); }
void f53(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; c.assign(std::make_move_iterator(p), std::make_move_iterator(p)); C a(std::make_move_iterator(p), std::make_move_iterator(p), al); c.insert(c.cbegin(), std::make_move_iterator(p), std::make_move_iterator(p)); }
void f54(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; c = k; }
void f55(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; c.assign(3, k[0]); c.assign(in, in); c.assign(fw, fw); c.assign(bi, bi); c.assign(p, p); c.assign(il); c = il; }
void f56(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; c.insert(c.cbegin(), k[0]); c.insert(c.cbegin(), 3, k[0]); }
void f57(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; c.insert(c.cbegin(), in, in); c.insert(c.cbegin(), fw, fw); c.insert(c.cbegin(), bi, bi); c.insert(c.cbegin(), p, p); c.insert(c.cbegin(), il); }
void f58(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; c.emplace(c.cbegin(), k[0]); }
void f59(sfl::compact_vector<CopyC, FAlloc<CopyC>>& c, const sfl::compact_vector<CopyC, FAlloc<CopyC>>& k, sfl::compact_vector<CopyC, FAlloc<CopyC>>& o, Arg& x, CopyC& v, CopyC* p, In<CopyC> in, Fw<CopyC> fw, Bi<CopyC> bi, Px<CopyC> px, const Arg* ax, std::initializer_list<CopyC> il, const FAlloc<CopyC>& al) { typedef sfl::compact_vector<CopyC, FAlloc<CopyC>> C; C a(px, px, al); }
void f60(sfl::compact_vector<Copy, FAlloc<Copy>>& c, const sfl::compact_vector<Copy, FAlloc<Copy>>& k, sfl::compact_vector<Copy, FAlloc<Copy>>& o, Arg& x, Copy& v, Copy* p, In<Copy> in, Fw<Copy> fw, Bi<Copy> bi, Px<Copy> px, const Arg* ax, std::initializer_list<Copy> il, const FAlloc<Copy>& al) { typedef sfl::compact_vector<Copy, FAlloc<Copy>> C; C a(px, px, al); c.assign(px, px); c.insert(c.cbegin(), px, px); }
void f61(sfl::compact_vector<MoveC, FAlloc<MoveC>>& c, const sfl::compact_vector<MoveC, FAlloc<MoveC>>& k, sfl::compact_vector<MoveC, FAlloc<MoveC>>& o, Arg& x, MoveC& v, MoveC* p, In<MoveC> in, Fw<MoveC> fw, Bi<MoveC> bi, Px<MoveC> px, const Arg* ax, std::initializer_list<MoveC> il, const FAlloc<MoveC>& al) { typedef sfl::compact_vector<MoveC, FAlloc<MoveC>> C; C a(ax, ax, al); }
void f62(sfl::compact_vector<Move, FAlloc<Move>>& c, const sfl::compact_vector<Move, FAlloc<Move>>& k, sfl::compact_vector<Move, FAlloc<Move>>& o, Arg& x, Move& v, Move* p, In<Move> in, Fw<Move> fw, Bi<Move> bi, Px<Move> px, const Arg* ax, std::initializer_list<Move> il, const FAlloc<Move>& al) { typedef sfl::compact_vector<Move, FAlloc<Move>> C; C a(ax, ax, al); }
void f63(sfl::compact_vector<Eq, FAlloc<Eq>>& c, const sfl::compact_vector<Eq, FAlloc<Eq>>& k, sfl::compact_vector<Eq, FAlloc<Eq>>& o, Arg& x, Eq& v, Eq* p, In<Eq> in, Fw<Eq> fw, Bi<Eq> bi, Px<Eq> px, const Arg* ax, std::initializer_list<Eq> il, const FAlloc<Eq>& al) { typedef sfl::compact_vector<Eq, FAlloc<Eq>> C; (void)(k == k); (void)(k != k); }
void f64(sfl::compact_vector<Lt, FAlloc<Lt>>& c, const sfl::compact_vector<Lt, FAlloc<Lt>>& k, sfl::compact_vector<Lt, FAlloc<Lt>>& o, Arg& x, Lt& v, Lt* p, In<Lt> in, Fw<Lt> fw, Bi<Lt> bi, Px<Lt> px, const Arg* ax, std::initializer_list<Lt> il, const FAlloc<Lt>& al) { typedef sfl::compact_vector<Lt, FAlloc<Lt>> C; (void)(k < k); (void)(k > k); (void)(k <= k); (void)(k >= k); }
}

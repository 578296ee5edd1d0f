#include "arch.hpp"
#include "sfl/small_flat_set.hpp"
#include "use.hpp"
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 1>>;
namespace wit { typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 1>> c_cn_3_1;
void u_c_cn_3_1(c_cn_3_1& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 2>>;
namespace wit { typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 2>> c_cn_3_2;
void u_c_cn_3_2(c_cn_3_2& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 4>>;
namespace wit { typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 4>> c_cn_3_4;
void u_c_cn_3_4(c_cn_3_4& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 7>>;
namespace wit { typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 7>> c_cn_3_7;
void u_c_cn_3_7(c_cn_3_7& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 8>>;
namespace wit { typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 8>> c_cn_3_8;
void u_c_cn_3_8(c_cn_3_8& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }

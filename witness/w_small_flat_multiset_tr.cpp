#include "arch.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "use.hpp"
namespace wit { typedef sfl::small_flat_multiset<arch::E_cn, 3, arch::C_tless, arch::A_alloc<arch::E_cn, 0>> c_cn_3_tr_0;
void u_c_cn_3_tr_0(c_cn_3_tr_0& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_tr(c, in); use_tr_bounds(c, in); use_tr_range(c, in); } }

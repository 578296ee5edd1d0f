#include "arch.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "use.hpp"
namespace wit { typedef sfl::static_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::C_tless> c_cn_3_tr;
void u_c_cn_3_tr(c_cn_3_tr& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_tr(c, in); use_tr_bounds(c, in); use_tr_range(c, in); } }

#include "arch.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "use.hpp"
namespace wit { typedef sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_teq> c_cn_3_tr;
void u_c_cn_3_tr(c_cn_3_tr& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_tr(c, in); } }

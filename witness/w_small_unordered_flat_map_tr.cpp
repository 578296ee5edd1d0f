#include "arch.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "use.hpp"
namespace wit { typedef sfl::small_unordered_flat_map<arch::E_cn, arch::E_mp, 3, arch::Q_teq, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_cn_3_tr_0;
void u_c_cn_3_tr_0(c_cn_3_tr_0& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_tr(c, in); use_tr_umap(c, in); } }

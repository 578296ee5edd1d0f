#include "arch.hpp"
#include "sfl/static_flat_map.hpp"
#include "use.hpp"
template class sfl::static_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less>;
namespace wit { typedef sfl::static_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less> c_cn_3;
void u_c_cn_3(c_cn_3& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }

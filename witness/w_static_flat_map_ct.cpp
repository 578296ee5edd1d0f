#include "arch.hpp"
#include "sfl/static_flat_map.hpp"
#include "use.hpp"
template class sfl::static_flat_map<arch::E_ct, arch::E_mp, 3, arch::C_less>;
namespace wit { typedef sfl::static_flat_map<arch::E_ct, arch::E_mp, 3, arch::C_less> c_ct_3;
void u_c_ct_3(c_ct_3& c, arch::InK<arch::E_ct, std::pair<arch::E_ct, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }

#include "arch.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "use.hpp"
template class sfl::static_unordered_flat_map<arch::E_ct, arch::E_mp, 3, arch::Q_eq>;
namespace wit { typedef sfl::static_unordered_flat_map<arch::E_ct, arch::E_mp, 3, arch::Q_eq> c_ct_3;
void u_c_ct_3(c_ct_3& c, arch::InK<arch::E_ct, std::pair<arch::E_ct, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); c.erase(in.ck); } }

#include "arch.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "use.hpp"
template class sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq>;
namespace wit { typedef sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq> c_cn_3;
void u_c_cn_3(c_cn_3& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); c.erase(in.ck); } }

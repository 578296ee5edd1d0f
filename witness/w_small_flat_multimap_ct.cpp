#include "arch.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "use.hpp"
template class sfl::small_flat_multimap<arch::E_ct, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_ct, arch::E_mp>, 0>>;
namespace wit { typedef sfl::small_flat_multimap<arch::E_ct, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_ct, arch::E_mp>, 0>> c_ct_3_0;
void u_c_ct_3_0(c_ct_3_0& c, arch::InK<arch::E_ct, std::pair<arch::E_ct, arch::E_mp>>& in) { use_map(c, in); use_cmp(c); c.erase(in.ck); } }

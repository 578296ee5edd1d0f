#include "arch.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "use.hpp"
template class sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_thr, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>>;
namespace wit { typedef sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_thr, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_cn_3_thr_0;
void u_c_cn_3_thr_0(c_cn_3_thr_0& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); c.erase(in.ck); } }
template class sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_thr, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 16>>;
namespace wit { typedef sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_thr, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 16>> c_cn_3_thr_16;
void u_c_cn_3_thr_16(c_cn_3_thr_16& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); c.erase(in.ck); } }

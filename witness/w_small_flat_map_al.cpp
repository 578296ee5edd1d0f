#include "arch.hpp"
#include "sfl/small_flat_map.hpp"
#include "use.hpp"
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 1>>;
namespace wit { typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 1>> c_cn_3_1;
void u_c_cn_3_1(c_cn_3_1& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 2>>;
namespace wit { typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 2>> c_cn_3_2;
void u_c_cn_3_2(c_cn_3_2& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 4>>;
namespace wit { typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 4>> c_cn_3_4;
void u_c_cn_3_4(c_cn_3_4& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 7>>;
namespace wit { typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 7>> c_cn_3_7;
void u_c_cn_3_7(c_cn_3_7& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 8>>;
namespace wit { typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 8>> c_cn_3_8;
void u_c_cn_3_8(c_cn_3_8& c, arch::InK<arch::E_cn, std::pair<arch::E_cn, arch::E_mp>>& in) { use_map(c, in); use_umap(c, in); use_cmp(c); c.erase(in.ck); } }

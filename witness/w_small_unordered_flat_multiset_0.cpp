#include "arch.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "use.hpp"
template class sfl::small_unordered_flat_multiset<arch::E_cn, 0, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>>;
namespace wit { typedef sfl::small_unordered_flat_multiset<arch::E_cn, 0, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>> c_cn_0_0;
void u_c_cn_0_0(c_cn_0_0& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); c.erase(in.ck); } }

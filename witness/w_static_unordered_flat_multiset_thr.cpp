#include "arch.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "use.hpp"
template class sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_thr>;
namespace wit { typedef sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_thr> c_cn_3_thr;
void u_c_cn_3_thr(c_cn_3_thr& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); c.erase(in.ck); } }

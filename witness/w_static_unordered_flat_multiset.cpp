#include "arch.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "use.hpp"
template class sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq>;
namespace wit { typedef sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq> c_cn_3;
void u_c_cn_3(c_cn_3& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); c.erase(in.ck); } }

#include "arch.hpp"
#include "sfl/static_flat_set.hpp"
#include "use.hpp"
template class sfl::static_flat_set<arch::E_cn, 3, arch::C_less>;
namespace wit { typedef sfl::static_flat_set<arch::E_cn, 3, arch::C_less> c_cn_3;
void u_c_cn_3(c_cn_3& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }

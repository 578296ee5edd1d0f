#include "arch.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "use.hpp"
namespace wit { typedef sfl::static_unordered_flat_set<arch::E_cn, 3, arch::Q_teq> c_cn_3_tr;
void u_c_cn_3_tr(c_cn_3_tr& c, arch::InK<arch::E_cn, arch::E_cn>& in) { use_tr(c, in); use_tr_set(c, in); } }

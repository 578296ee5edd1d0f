#include "arch.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "use.hpp"
template class sfl::static_unordered_flat_set<arch::E_ct, 3, arch::Q_eq>;
namespace wit { typedef sfl::static_unordered_flat_set<arch::E_ct, 3, arch::Q_eq> c_ct_3;
void u_c_ct_3(c_ct_3& c, arch::InK<arch::E_ct, arch::E_ct>& in) { use_set(c, in); c.erase(in.ck); } }

#include "arch.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "use.hpp"
template class sfl::static_flat_multiset<arch::E_ct, 3, arch::C_less>;
namespace wit { typedef sfl::static_flat_multiset<arch::E_ct, 3, arch::C_less> c_ct_3;
void u_c_ct_3(c_ct_3& c, arch::InK<arch::E_ct, arch::E_ct>& in) { use_set(c, in); use_cmp(c); c.erase(in.ck); } }

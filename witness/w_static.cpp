#include "arch.hpp"
#include "sfl/static_vector.hpp"
#include "use.hpp"
template class sfl::static_vector<arch::E_cn, 3>;
namespace wit { typedef sfl::static_vector<arch::E_cn, 3> c_cn_3;
void u_c_cn_3(c_cn_3& c, arch::In<arch::E_cn>& in) { use_seq(c, in); use_seq_copy(c, in); } }
template class sfl::static_vector<arch::E_ct, 3>;
namespace wit { typedef sfl::static_vector<arch::E_ct, 3> c_ct_3;
void u_c_ct_3(c_ct_3& c, arch::In<arch::E_ct>& in) { use_seq(c, in); use_seq_copy(c, in); } }

#include "arch.hpp"
#include "sfl/small_vector.hpp"
#include "use.hpp"
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_cn_3_0;
void u_c_cn_3_0(c_cn_3_0& c, arch::In<arch::E_cn>& in, const c_cn_3_0::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }

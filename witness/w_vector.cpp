#include "arch.hpp"
#include "sfl/vector.hpp"
#include "use.hpp"
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>> c_cn_0;
void u_c_cn_0(c_cn_0& c, arch::In<arch::E_cn>& in, const c_cn_0::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::vector<arch::E_ct, arch::A_alloc<arch::E_ct, 0>>;
namespace wit { typedef sfl::vector<arch::E_ct, arch::A_alloc<arch::E_ct, 0>> c_ct_0;
void u_c_ct_0(c_ct_0& c, arch::In<arch::E_ct>& in, const c_ct_0::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }

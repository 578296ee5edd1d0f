#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "use.hpp"
template class sfl::segmented_devector<arch::E_cn, 2, arch::A_alloc<arch::E_cn, 0>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 2, arch::A_alloc<arch::E_cn, 0>> c_cn_2_0;
void u_c_cn_2_0(c_cn_2_0& c, arch::In<arch::E_cn>& in, const c_cn_2_0::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }

#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "use.hpp"
template class sfl::segmented_devector<arch::E_ct, 1, arch::A_alloc<arch::E_ct, 16>>;
namespace wit { typedef sfl::segmented_devector<arch::E_ct, 1, arch::A_alloc<arch::E_ct, 16>> c_ct_1_16;
void u_c_ct_1_16(c_ct_1_16& c, arch::In<arch::E_ct>& in, const c_ct_1_16::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }

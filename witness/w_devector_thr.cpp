#include "arch.hpp"
#include "sfl/devector.hpp"
#include "use.hpp"
template class sfl::devector<arch::E_ct, arch::A_alloc<arch::E_ct, 16>>;
namespace wit { typedef sfl::devector<arch::E_ct, arch::A_alloc<arch::E_ct, 16>> c_ct_16;
void u_c_ct_16(c_ct_16& c, arch::In<arch::E_ct>& in, const c_ct_16::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }

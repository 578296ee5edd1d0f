#include "arch.hpp"
#include "sfl/devector.hpp"
#include "use.hpp"
namespace wit { typedef sfl::devector<arch::E_mn, arch::A_alloc<arch::E_mn, 0>> c_mn_0;
void u_c_mn_0(c_mn_0& c, arch::In<arch::E_mn>& in, const c_mn_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_de(c, in); use_de_move(c, in); use_data(c); c.shrink_to_fit(); } }
namespace wit { typedef sfl::devector<arch::E_mt, arch::A_alloc<arch::E_mt, 0>> c_mt_0;
void u_c_mt_0(c_mt_0& c, arch::In<arch::E_mt>& in, const c_mt_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_de(c, in); use_de_move(c, in); use_data(c); c.shrink_to_fit(); } }

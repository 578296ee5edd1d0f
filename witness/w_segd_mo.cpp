#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "use.hpp"
namespace wit { typedef sfl::segmented_devector<arch::E_mn, 1, arch::A_alloc<arch::E_mn, 0>> c_mn_1_0;
void u_c_mn_1_0(c_mn_1_0& c, arch::In<arch::E_mn>& in, const c_mn_1_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_de(c, in); use_de_move(c, in); c.shrink_to_fit(); } }
namespace wit { typedef sfl::segmented_devector<arch::E_mt, 1, arch::A_alloc<arch::E_mt, 0>> c_mt_1_0;
void u_c_mt_1_0(c_mt_1_0& c, arch::In<arch::E_mt>& in, const c_mt_1_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_de(c, in); use_de_move(c, in); c.shrink_to_fit(); } }

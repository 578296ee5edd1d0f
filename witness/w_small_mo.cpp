#include "arch.hpp"
#include "sfl/small_vector.hpp"
#include "use.hpp"
namespace wit { typedef sfl::small_vector<arch::E_mn, 3, arch::A_alloc<arch::E_mn, 0>> c_mn_3_0;
void u_c_mn_3_0(c_mn_3_0& c, arch::In<arch::E_mn>& in, const c_mn_3_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_reserve(c); use_data(c); c.shrink_to_fit(); } }
namespace wit { typedef sfl::small_vector<arch::E_mt, 3, arch::A_alloc<arch::E_mt, 0>> c_mt_3_0;
void u_c_mt_3_0(c_mt_3_0& c, arch::In<arch::E_mt>& in, const c_mt_3_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_reserve(c); use_data(c); c.shrink_to_fit(); } }

#include "arch.hpp"
#include "sfl/compact_vector.hpp"
#include "use.hpp"
namespace wit { typedef sfl::compact_vector<arch::E_mn, arch::A_alloc<arch::E_mn, 0>> c_mn_0;
void u_c_mn_0(c_mn_0& c, arch::In<arch::E_mn>& in, const c_mn_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_data(c); } }
namespace wit { typedef sfl::compact_vector<arch::E_mt, arch::A_alloc<arch::E_mt, 0>> c_mt_0;
void u_c_mt_0(c_mt_0& c, arch::In<arch::E_mt>& in, const c_mt_0::allocator_type& al) { use_seq(c, in); use_seq_move(c, in); use_seq_move_alloc(c, in, al); use_data(c); } }

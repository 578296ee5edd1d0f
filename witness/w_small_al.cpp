#include "arch.hpp"
#include "sfl/small_vector.hpp"
#include "use.hpp"
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 1>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 1>> c_cn_3_1;
void u_c_cn_3_1(c_cn_3_1& c, arch::In<arch::E_cn>& in, const c_cn_3_1::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 2>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 2>> c_cn_3_2;
void u_c_cn_3_2(c_cn_3_2& c, arch::In<arch::E_cn>& in, const c_cn_3_2::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 4>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 4>> c_cn_3_4;
void u_c_cn_3_4(c_cn_3_4& c, arch::In<arch::E_cn>& in, const c_cn_3_4::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 7>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 7>> c_cn_3_7;
void u_c_cn_3_7(c_cn_3_7& c, arch::In<arch::E_cn>& in, const c_cn_3_7::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 8>>;
namespace wit { typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 8>> c_cn_3_8;
void u_c_cn_3_8(c_cn_3_8& c, arch::In<arch::E_cn>& in, const c_cn_3_8::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }

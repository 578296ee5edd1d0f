#include "arch.hpp"
#include "sfl/vector.hpp"
#include "use.hpp"
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 1>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 1>> c_cn_1;
void u_c_cn_1(c_cn_1& c, arch::In<arch::E_cn>& in, const c_cn_1::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 2>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 2>> c_cn_2;
void u_c_cn_2(c_cn_2& c, arch::In<arch::E_cn>& in, const c_cn_2::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 4>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 4>> c_cn_4;
void u_c_cn_4(c_cn_4& c, arch::In<arch::E_cn>& in, const c_cn_4::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 7>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 7>> c_cn_7;
void u_c_cn_7(c_cn_7& c, arch::In<arch::E_cn>& in, const c_cn_7::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 8>>;
namespace wit { typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 8>> c_cn_8;
void u_c_cn_8(c_cn_8& c, arch::In<arch::E_cn>& in, const c_cn_8::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); } }

#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "use.hpp"
template class sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 1>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 1>> c_cn_1_1;
void u_c_cn_1_1(c_cn_1_1& c, arch::In<arch::E_cn>& in, const c_cn_1_1::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }
template class sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 2>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 2>> c_cn_1_2;
void u_c_cn_1_2(c_cn_1_2& c, arch::In<arch::E_cn>& in, const c_cn_1_2::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }
template class sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 4>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 4>> c_cn_1_4;
void u_c_cn_1_4(c_cn_1_4& c, arch::In<arch::E_cn>& in, const c_cn_1_4::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }
template class sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 7>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 7>> c_cn_1_7;
void u_c_cn_1_7(c_cn_1_7& c, arch::In<arch::E_cn>& in, const c_cn_1_7::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }
template class sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 8>>;
namespace wit { typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 8>> c_cn_1_8;
void u_c_cn_1_8(c_cn_1_8& c, arch::In<arch::E_cn>& in, const c_cn_1_8::allocator_type& al) { use_seq(c, in); use_seq_copy(c, in); use_seq_copy_alloc(c, in, al); use_de(c, in); use_de_copy(c, in); } }

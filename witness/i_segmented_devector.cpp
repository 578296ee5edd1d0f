#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 0>> c_1;
typedef sfl::segmented_devector<arch::E_cn, 2, arch::A_alloc<arch::E_cn, 0>> c_2;
typedef sfl::segmented_devector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_3;
typedef sfl::segmented_devector<arch::E_cn, 4, arch::A_alloc<arch::E_cn, 0>> c_4;
void i_c_1(c_1& c) { itw::use_iter(c); }
void i_c_2(c_2& c) { itw::use_iter(c); }
void i_c_3(c_3& c) { itw::use_iter(c); }
void i_c_4(c_4& c) { itw::use_iter(c); }
}

#include "arch.hpp"
#include "sfl/segmented_vector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::segmented_vector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 0>> c_1;
void r_c_1(c_1& c) { itw::use_range(c); itw::use_range_alloc(c); }
typedef sfl::segmented_vector<arch::E_cn, 2, arch::A_alloc<arch::E_cn, 0>> c_2;
void r_c_2(c_2& c) { itw::use_range(c); itw::use_range_alloc(c); }
}

#include "arch.hpp"
#include "sfl/small_vector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_3;
typedef sfl::small_vector<arch::E_cn, 0, arch::A_alloc<arch::E_cn, 0>> c_0;
void i_c_3(c_3& c) { itw::use_iter(c); itw::use_range(c); itw::use_range_alloc(c); }
void i_c_0(c_0& c) { itw::use_iter(c); itw::use_range(c); itw::use_range_alloc(c); }
}

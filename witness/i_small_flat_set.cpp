#include "arch.hpp"
#include "sfl/small_flat_set.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 0>> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

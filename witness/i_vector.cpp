#include "arch.hpp"
#include "sfl/vector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>> c_0;
void i_c_0(c_0& c) { itw::use_iter(c); itw::use_range(c); itw::use_range_alloc(c); }
}

#include "arch.hpp"
#include "sfl/segmented_devector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::segmented_devector<arch::E_cn, 1, arch::A_alloc<arch::E_cn, 0>> c_1;
void r_c_1(c_1& c) { itw::use_range(c); itw::use_range_alloc(c); }
}

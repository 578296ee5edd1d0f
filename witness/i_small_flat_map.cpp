#include "arch.hpp"
#include "sfl/small_flat_map.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

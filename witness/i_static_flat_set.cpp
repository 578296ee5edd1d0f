#include "arch.hpp"
#include "sfl/static_flat_set.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::static_flat_set<arch::E_cn, 3, arch::C_less> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

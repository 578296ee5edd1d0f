#include "arch.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

#include "arch.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

#include "arch.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::small_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); }
}

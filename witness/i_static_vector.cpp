#include "arch.hpp"
#include "sfl/static_vector.hpp"
#include "iter.hpp"
namespace wit {
typedef sfl::static_vector<arch::E_cn, 3> c_3;
void i_c_3(c_3& c) { itw::use_iter(c); itw::use_range(c); }
}

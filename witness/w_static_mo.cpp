#include "arch.hpp"
#include "sfl/static_vector.hpp"
#include "use.hpp"
namespace wit { typedef sfl::static_vector<arch::E_mn, 3> c_mn_3;
void u_c_mn_3(c_mn_3& c, arch::In<arch::E_mn>& in) { use_seq(c, in); use_seq_move(c, in); use_data(c); } }
namespace wit { typedef sfl::static_vector<arch::E_mt, 3> c_mt_3;
void u_c_mt_3(c_mt_3& c, arch::In<arch::E_mt>& in) { use_seq(c, in); use_seq_move(c, in); use_data(c); } }

#include "arch.hpp"
#include "sfl/compact_vector.hpp"
#include "sfl/devector.hpp"
#include "sfl/segmented_devector.hpp"
#include "sfl/segmented_vector.hpp"
#include "sfl/small_flat_map.hpp"
#include "sfl/small_flat_multimap.hpp"
#include "sfl/small_flat_multiset.hpp"
#include "sfl/small_flat_set.hpp"
#include "sfl/small_unordered_flat_map.hpp"
#include "sfl/small_unordered_flat_multimap.hpp"
#include "sfl/small_unordered_flat_multiset.hpp"
#include "sfl/small_unordered_flat_set.hpp"
#include "sfl/small_vector.hpp"
#include "sfl/static_flat_map.hpp"
#include "sfl/static_flat_multimap.hpp"
#include "sfl/static_flat_multiset.hpp"
#include "sfl/static_flat_set.hpp"
#include "sfl/static_unordered_flat_map.hpp"
#include "sfl/static_unordered_flat_multimap.hpp"
#include "sfl/static_unordered_flat_multiset.hpp"
#include "sfl/static_unordered_flat_set.hpp"
#include "sfl/static_vector.hpp"
#include "sfl/vector.hpp"
#include "use.hpp"
template class sfl::compact_vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::devector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::segmented_devector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::segmented_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>>;
template class sfl::small_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>>;
template class sfl::small_flat_multiset<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::small_unordered_flat_map<arch::E_cn, arch::E_mp, 3, arch::Q_eq, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>>;
template class sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>>;
template class sfl::small_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::small_unordered_flat_set<arch::E_cn, 3, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>>;
template class sfl::static_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less>;
template class sfl::static_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::C_less>;
template class sfl::static_flat_multiset<arch::E_cn, 3, arch::C_less>;
template class sfl::static_flat_set<arch::E_cn, 3, arch::C_less>;
template class sfl::static_unordered_flat_map<arch::E_cn, arch::E_mp, 3, arch::Q_eq>;
template class sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq>;
template class sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq>;
template class sfl::static_unordered_flat_set<arch::E_cn, 3, arch::Q_eq>;
template class sfl::static_vector<arch::E_cn, 3>;
template class sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>>;
namespace wit {
typedef sfl::compact_vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>> c_compact_vector;
typedef sfl::devector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>> c_devector;
typedef sfl::segmented_devector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_segmented_devector;
typedef sfl::segmented_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_segmented_vector;
typedef sfl::small_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_small_flat_map;
typedef sfl::small_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::C_less, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_small_flat_multimap;
typedef sfl::small_flat_multiset<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 0>> c_small_flat_multiset;
typedef sfl::small_flat_set<arch::E_cn, 3, arch::C_less, arch::A_alloc<arch::E_cn, 0>> c_small_flat_set;
typedef sfl::small_unordered_flat_map<arch::E_cn, arch::E_mp, 3, arch::Q_eq, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_small_unordered_flat_map;
typedef sfl::small_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq, arch::A_alloc<std::pair<arch::E_cn, arch::E_mp>, 0>> c_small_unordered_flat_multimap;
typedef sfl::small_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>> c_small_unordered_flat_multiset;
typedef sfl::small_unordered_flat_set<arch::E_cn, 3, arch::Q_eq, arch::A_alloc<arch::E_cn, 0>> c_small_unordered_flat_set;
typedef sfl::small_vector<arch::E_cn, 3, arch::A_alloc<arch::E_cn, 0>> c_small_vector;
typedef sfl::static_flat_map<arch::E_cn, arch::E_mp, 3, arch::C_less> c_static_flat_map;
typedef sfl::static_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::C_less> c_static_flat_multimap;
typedef sfl::static_flat_multiset<arch::E_cn, 3, arch::C_less> c_static_flat_multiset;
typedef sfl::static_flat_set<arch::E_cn, 3, arch::C_less> c_static_flat_set;
typedef sfl::static_unordered_flat_map<arch::E_cn, arch::E_mp, 3, arch::Q_eq> c_static_unordered_flat_map;
typedef sfl::static_unordered_flat_multimap<arch::E_cn, arch::E_mp, 3, arch::Q_eq> c_static_unordered_flat_multimap;
typedef sfl::static_unordered_flat_multiset<arch::E_cn, 3, arch::Q_eq> c_static_unordered_flat_multiset;
typedef sfl::static_unordered_flat_set<arch::E_cn, 3, arch::Q_eq> c_static_unordered_flat_set;
typedef sfl::static_vector<arch::E_cn, 3> c_static_vector;
typedef sfl::vector<arch::E_cn, arch::A_alloc<arch::E_cn, 0>> c_vector;
}

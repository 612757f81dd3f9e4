// Instantiates the matching pipeline for one network type, from the tracks that are read to the rows that are written.
#undef EXPLICIT_TEMPLATES
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "matching/matcher.hpp"
#include "app/match.hpp"

namespace verif {
    using namespace map_matching_2;
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)), MM2_INDEX_HELPER_READ_ONLY(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES));
    void workers(std::unique_ptr<network> &n, const app::match_data &d) { app::_start_matching(n, d); }
}

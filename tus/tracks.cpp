// Instantiates the importers of tracks for a forwarder of our own.
#undef EXPLICIT_TEMPLATES
#include <filesystem>
#include <queue>
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/reprojector.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "io/track/csv_track_importer.hpp"
#include "io/track/gpx_track_importer.hpp"
#include "io/track/input_importer.hpp"
#include "io/track/edges_list_importer.hpp"
#include "io/track/seattle_ground_truth_importer.hpp"

namespace verif {
    using namespace map_matching_2;
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)), MM2_INDEX_HELPER_READ_ONLY(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES));
    using edges = std::remove_cvref_t<decltype(std::declval<network &>().graph())>;
    struct sink {
        using multi_track_variant_type = geometry::track::multi_track_variant_type;
        void pass(multi_track_variant_type multi_track);
    };
    void lines(io::track::input_importer<sink> &i) { i.read(); }
}

template class map_matching_2::io::track::csv_track_importer<verif::sink>;
template class map_matching_2::io::track::gpx_track_importer<verif::sink>;
template class map_matching_2::io::track::input_importer<verif::sink>;
template class map_matching_2::io::track::seattle_ground_truth_importer<verif::sink>;
template class map_matching_2::io::track::edges_list_importer<verif::sink, verif::edges>;

// Instantiates the importers of networks for a graph of our own, and the transformation of coordinates.
#undef EXPLICIT_TEMPLATES
#include <filesystem>
#include "types/geometry/network/network.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/reprojector.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/osm_handler_helper.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"
#include "io/network/arc_node_importer.hpp"
#include "io/network/giscup_importer.hpp"
#include "io/network/melbourne_importer.hpp"
#include "io/network/seattle_importer.hpp"
#include "io/network/osm_handler.hpp"
#include "io/network/osm_importer.hpp"
#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"

namespace verif {
    using namespace map_matching_2;
    using point = geometry::point_type<geometry::cs_cartesian>;
    struct graph {
        const geometry::network::node<point> &get_vertex_data(std::size_t) const;
    };
    struct graph_sink {
        using vertex_data_type = geometry::network::node<point>;
        using vertex_descriptor = std::size_t;
        using vertex_size_type = std::size_t;
        const graph &graph() const;
        vertex_descriptor get_vertex_descriptor_for_index(std::size_t) const;
        template<typename... A> std::size_t add_vertex_with_index_mapping(A &&...);
        template<typename... A> void add_edge(std::size_t, std::size_t, A &&...);
    };
    using node_type = geometry::network::node<point>;
    using osm_storage = io::memory_mapped::storage::osm_handler_storage<node_type, io::memory_mapped::memory_types>;
    using osm_helper = io::helper::osm_handler_helper<osm_storage, MM2_TAG_HELPER(MM2_MEMORY_TYPES)>;
    using osm_handler = io::network::osm_handler<graph_sink, osm_helper>;
}

template class map_matching_2::io::network::arc_node_importer<verif::graph_sink>;
template class map_matching_2::io::network::giscup_importer<verif::graph_sink>;
template class map_matching_2::io::network::melbourne_importer<verif::graph_sink>;
template class map_matching_2::io::network::seattle_importer<verif::graph_sink>;
template class map_matching_2::io::network::osm_handler<verif::graph_sink, verif::osm_helper>;
template class map_matching_2::io::network::osm_importer<verif::osm_handler>;
template class map_matching_2::io::network::osm_car_importer<verif::osm_handler>;
template class map_matching_2::io::network::osm_manual_importer<verif::osm_handler>;

// Instantiates every serialize() of the persisted types for a saving and a loading archive.
#undef EXPLICIT_TEMPLATES
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/geometry/models.hpp"
#include "io/serialization/serializer.hpp"
#include "io/serialization/deserializer.hpp"

namespace verif {
    using namespace map_matching_2;

    struct saver {
        using is_saving = boost::mpl::true_;
        using is_loading = boost::mpl::false_;
        template<typename T> saver &operator&(T &&) { return *this; }
        template<typename T> saver &operator<<(T &&) { return *this; }
    };

    struct loader {
        using is_saving = boost::mpl::false_;
        using is_loading = boost::mpl::true_;
        template<typename T> loader &operator&(T &&) { return *this; }
        template<typename T> loader &operator>>(T &&) { return *this; }
    };

    template<typename T> void both(T &t) {
        saver s;
        loader l;
        boost::serialization::access::serialize(s, t, 0u);
        boost::serialization::access::serialize(l, t, 0u);
    }

    template<typename T> void both_free(T &t) {
        saver s;
        loader l;
        boost::serialization::serialize(s, t, 0u);
        boost::serialization::serialize(l, t, 0u);
    }

    using P = geometry::point_type<geometry::cs_geographic>;
    using M = io::memory_mapped::memory_types;
    template<typename T> struct D { using type = T; };

    template<typename Dir, template<typename, typename> typename C, typename V, typename E>
    void lists() {
        using L = graph::adjacency_list<C, C, Dir, V, E, C>;
        both(*static_cast<L *>(nullptr));
        both(*static_cast<typename L::vertex_type *>(nullptr));
        both(*static_cast<typename L::edge_type *>(nullptr));
        both(*static_cast<typename L::base_edge_type *>(nullptr));
        both(*static_cast<typename L::base_edge *>(nullptr));
        both(*static_cast<typename L::base_vertex_type *>(nullptr));
        both(*static_cast<typename L::base_vertex *>(nullptr));
        both(*static_cast<typename L::template vertex<V> *>(nullptr));
        both(*static_cast<typename L::base_bi_vertex *>(nullptr));
    }

    template<typename V, typename E> void csr() {
        using C = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, V, E>;
        both(*static_cast<C *>(nullptr));
        both(*static_cast<typename C::vertex_type *>(nullptr));
        both(*static_cast<typename C::edge_type *>(nullptr));
    }

    void use() {
        lists<graph::bidirectional, std::list, int, int>();
        lists<graph::bidirectional, std::list, void, void>();
        lists<graph::directional, std::vector, int, int>();
        lists<graph::directional, std::vector, void, void>();
        csr<int, int>();
        csr<void, void>();

        using Lin = geometry::linestring_type<P, M>;
        using MLin = geometry::multi_linestring_type<Lin, M>;
        both(*static_cast<Lin *>(nullptr));
        both(*static_cast<MLin *>(nullptr));
        boost::geometry::model::segment<P> *sg = nullptr;
        both_free(*sg);
        boost::geometry::model::linestring<P> *ls = nullptr;
        both_free(*ls);

        both(*static_cast<geometry::network::node_type<P> *>(nullptr));
        both(*static_cast<geometry::network::edge_type<P> *>(nullptr));
        both(*static_cast<geometry::network::eager_edge_type<P> *>(nullptr));

        both(*static_cast<geometry::rich_line_type<P> *>(nullptr));
        both(*static_cast<geometry::lazy_rich_line_type<P> *>(nullptr));
        both(*static_cast<geometry::eager_rich_line_type<P> *>(nullptr));
        both(*static_cast<typename geometry::lazy_rich_line_type<P>::rich_line_data_base_type *>(nullptr));
        both(*static_cast<typename geometry::multi_rich_line_type<P>::rich_line_type *>(nullptr));
        both(*static_cast<typename geometry::lazy_rich_segment_type<P>::rich_segment_data_base_type *>(nullptr));
        both(*static_cast<typename geometry::lazy_multi_rich_line_type<P>::multi_rich_line_data_base_type *>(nullptr));

        using TS = io::memory_mapped::storage::tag_storage<M, std::allocator<void>>;
        using IS = io::memory_mapped::storage::index_storage<P, M>;
        both(*static_cast<TS *>(nullptr));
        both(*static_cast<IS *>(nullptr));
        both(*static_cast<io::memory_mapped::storage::graph_storage_type<P, M> *>(nullptr));
        both(*static_cast<io::memory_mapped::storage::graph_storage_import_type<P, M> *>(nullptr));
        both(*static_cast<io::helper::tag_helper_type<M> *>(nullptr));
        both(*static_cast<io::helper::index_helper_read_only_type<P, M> *>(nullptr));
        both(*static_cast<io::helper::graph_helper_type<P, M> *>(nullptr));

        P *pt = nullptr;
        both_free(*pt);

        auto *gh = static_cast<io::helper::graph_helper_type<P, M> *>(nullptr);
        io::serialization::serializer ser{std::string{}, *gh};
        ser.write();
        io::serialization::deserializer des{std::string{}, *gh};
        des.read();
        both(*static_cast<geometry::rich_segment_type<P> *>(nullptr));
        both(*static_cast<geometry::lazy_rich_segment_type<P> *>(nullptr));
        both(*static_cast<geometry::eager_rich_segment_type<P> *>(nullptr));
    }
}

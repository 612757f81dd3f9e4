// Instantiates the storages and their helpers, in memory and memory-mapped.
#undef EXPLICIT_TEMPLATES
#include <concepts>
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/models.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/index_build_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/osm_handler_helper.hpp"

namespace verif {
    using namespace map_matching_2;
    namespace mm = map_matching_2::io::memory_mapped;
    namespace st = map_matching_2::io::memory_mapped::storage;
    namespace h = map_matching_2::io::helper;
    using P = geometry::point_type<geometry::cs_geographic>;
    using M = mm::memory_types;
    using F = mm::file_types;
    template<typename T> T &v() { return *static_cast<T *>(nullptr); }
    template<typename T> T &&x() { return static_cast<T &&>(*static_cast<T *>(nullptr)); }

    template<typename C> void container(C &c) {
        c.create_only(1); c.open_or_create(1); c.open_read_only(); c.open(); c.open_copy_on_write();
        c.destroy_and_create(1); c.destroy(); (void) c.max_retries();
        c.grow(); c.drop_grow(); c.shrink_to_fit(); c.flush(); c.close(); (void) c.size();
        C d{std::move(c)};
        d = std::move(c);
    }

    struct base : st::mmap_base<F> {
        using st::mmap_base<F>::mmap_base;
        void use() {
            (void) this->create_only("", 1); (void) this->open_or_create("", 1); (void) this->open("");
            (void) this->open_read_only(""); (void) this->open_copy_on_write(""); (void) this->destroy_and_create("", 1);
        }
    };

    template<typename S> void storage(S &s) {
        const S &c = s;
        S m{std::move(s)};
        s = std::move(m);
        if constexpr (requires { S{}; }) { S n{}; }
        if constexpr (requires { s.grow(); }) { s.grow(); }
        if constexpr (requires { s.drop_grow(); }) { s.drop_grow(); }
        if constexpr (requires { s.shrink_to_fit(); }) { s.shrink_to_fit(); }
        if constexpr (requires { (void) s.max_retries(); }) { (void) s.max_retries(); }
        if constexpr (requires { c.allocation_counter(); }) { (void) c.allocation_counter(); }
        (void) c.allocator(); (void) s.allocator();
        if constexpr (requires { c.size(); }) { (void) c.size(); }
        if constexpr (requires { s.graph(); }) { (void) s.graph(); (void) c.graph(); (void) s.vertex_index_map(); (void) c.vertex_index_map(); }
        if constexpr (requires { s.points_index(); }) { (void) s.points_index(); (void) s.segments_index(); }
        if constexpr (requires { s.points(); }) { (void) s.points(); (void) s.segments(); }
        if constexpr (requires { s.vertices(); }) { (void) s.vertices(); }
        if constexpr (requires { s.finalize(); }) { s.finalize(); }
    }

    template<typename T, typename O> void tags(T &t, O &o) {
        (void) t.id("", "");
        t.set_node_tags(1, x<typename T::tag_vector_type>());
        t.set_node_tags(1, v<osmium::TagList>());
        t.copy_node_tags(1, v<std::vector<std::uint64_t>>());
        t.clone_node_tags(1, o);
        t.set_edge_tags(1, x<typename T::tag_vector_type>());
        t.set_edge_tags(1, v<osmium::TagList>());
        t.copy_edge_tags(1, v<std::vector<std::uint64_t>>());
        t.clone_edge_tags(1, o);
        t.merge_edge_tags(1, 2);
        const T &c = t;
        (void) c.node_tags(1); (void) c.edge_tags(1); (void) c.tag(1); (void) c.size();
        t.finalize();
        storage(t.tag_storage());
        T m{std::move(t)};
    }

    template<typename G, typename O> void graphs(G &g, O &o) {
        using VD = typename G::vertex_data_type;
        using ED = typename G::edge_data_type;
        if constexpr (requires { g.add_vertex(v<const VD>(), o); }) {
            (void) g.add_vertex(v<const VD>(), o);
            (void) g.add_vertex(v<const VD>(), v<osmium::TagList>());
            (void) g.add_vertex(x<VD>());
            (void) g.add_vertex_with_index_mapping(v<const VD>(), o);
            (void) g.add_vertex_with_index_mapping(v<const VD>(), v<osmium::TagList>());
            (void) g.add_vertex_with_index_mapping(x<VD>());
            (void) g.get_vertex_descriptor_for_index(1);
            (void) g.add_edge(1, 1, v<const ED>(), o);
            (void) g.add_edge(1, 1, v<const ED>(), v<osmium::TagList>());
            (void) g.add_edge(1, 1, x<ED>());
        }
        (void) g.size();
        storage(g.graph_storage());
        G m{std::move(g)};
    }

    template<typename B> void build(B &b) {
        b.reserve_points(1); b.reserve_segments(1);
        b.add_point(v<typename B::points_value_type>());
        b.add_segment(v<typename B::segments_value_type>());
        (void) b.size();
        storage(b.index_build_storage());
    }

    template<typename I> void index(I &i) {
        i.build_indices();
        storage(i.index_storage());
    }

    template<typename O, typename G> void osm(O &o, G &g) {
        o.add_node(v<osmium::Node>(), v<geometry::point_reprojector_variant>());
        o.check_and_sort_nodes();
        (void) o.contains_node(1);
        o.add_vertex(g, o.get_node(1));
        storage(o.osm_handler_storage());
    }

    void use() {
        container(v<st::mmap_container<F>>());
        v<base>().use();
        using TIM = h::import_tag_helper_type<M>;
        using TIF = h::import_tag_helper_type<F>;
        using TM = h::tag_helper_type<M>;
        using TF = h::tag_helper_type<F>;
        tags(v<TIM>(), v<TIM>()); tags(v<TIF>(), v<TIF>());
        tags(v<TM>(), v<TIM>()); tags(v<TF>(), v<TIF>());
        using GIM = h::graph_helper_import_type<P, M, TIM>;
        using GIF = h::graph_helper_import_type<P, F, TIF>;
        using GM = h::graph_helper_type<P, M, TM>;
        using GF = h::graph_helper_type<P, F, TF>;
        graphs(v<GIM>(), v<TIM>()); graphs(v<GIF>(), v<TIF>());
        graphs(v<GM>(), v<TIM>()); graphs(v<GF>(), v<TIF>());
        v<GM>().from_adjacency_list(v<const GIM>(), v<const TIM>());
        v<GF>().from_adjacency_list(v<const GIF>(), v<const TIF>());
        using BM = h::index_build_helper_type<P, M>;
        using BF = h::index_build_helper_type<P, F>;
        build(v<BM>()); build(v<BF>());
        index(v<h::index_helper_type<P, M, M>>());
        index(v<h::index_helper_type<P, F, F>>());
        osm(v<h::osm_handler_helper_type<P, M, TIM>>(), v<GIM>());
        osm(v<h::osm_handler_helper_type<P, F, TIF>>(), v<GIF>());
    }
}

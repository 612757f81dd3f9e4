// Instantiates the graph structures for every direction, with node based and random access containers.
#include <list>
#include <vector>
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"

namespace verif {
    using namespace map_matching_2;

    struct payload {
        int value{};
    };

    template<typename D, typename VD, typename ED>
    using lists = graph::adjacency_list<std::list, std::list, D, VD, ED, std::list>;
    template<typename D, typename VD, typename ED>
    using vectors = graph::adjacency_list<std::vector, std::vector, D, VD, ED, std::vector>;
    template<typename VD, typename ED>
    using row = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, VD, ED>;

    template<typename G> auto vertex(G &g) {
        if constexpr (std::is_void_v<typename G::vertex_data_type>) return g.add_vertex();
        else return g.add_vertex(typename G::vertex_data_type{});
    }
    template<typename G, typename V> auto edge(G &g, V &s, V &t) {
        if constexpr (std::is_void_v<typename G::edge_data_type>) return g.add_edge(s, t);
        else return g.add_edge(s, t, typename G::edge_data_type{});
    }
    template<typename G> void build() {
        G g;
        auto s = vertex(g), t = vertex(g);
        auto e = edge(g, s, t);
        (void) e;
        const G &c = g;
        (void) c.out_degree(s);
        if constexpr (G::is_bidirectional_v) { (void) c.in_degree(s); (void) c.degree(s); }
        using VD = typename G::vertex_data_type;
        using ED = typename G::edge_data_type;
        row<VD, ED> r;
        r.from_adjacency_list(c);
        const auto &rc = r;
        for (std::size_t i = 0; i < rc.vertices_view().size(); ++i) {
            const auto view = rc.out_edges_view(i);
            const auto view2 = r.out_edges_view(i);
            (void) view2.size();
            for (auto d = view.begin(); d != view.end(); d = view.next(d)) { (void) rc.source(d); (void) rc.target(d); (void) view[d]; }
            (void) view.empty();
            (void) rc.out_degree(i);
        }
    }
    template<typename G> void remove() {
        G g;
        auto s = vertex(g), t = vertex(g);
        auto e = edge(g, s, t);
        g.remove_edge(e);
        g.remove_edge(s, t);
        g.clear_vertex(s);
        g.remove_vertex(s);
        g.reindex();
    }
    template<typename VD, typename ED> void all() {
        build<lists<graph::directional, VD, ED>>();
        build<lists<graph::undirected, VD, ED>>();
        build<lists<graph::bidirectional, VD, ED>>();
        remove<lists<graph::directional, VD, ED>>();
        remove<lists<graph::undirected, VD, ED>>();
        remove<lists<graph::bidirectional, VD, ED>>();
        build<vectors<graph::directional, VD, ED>>();
        build<vectors<graph::undirected, VD, ED>>();
        build<vectors<graph::bidirectional, VD, ED>>();
    }
    void use() {
        all<void, void>();
        all<payload, payload>();
    }
}

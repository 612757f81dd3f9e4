// Instantiates every copy / move / converting construction and assignment of the data types.
#undef EXPLICIT_TEMPLATES
#include <boost/container/vector.hpp>
#include <list>
#include <vector>
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/network/node.hpp"
#include "types/geometry/network/edge.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include "types/geometry/track/measurement.hpp"
#include "types/geometry/track/track.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/rich_line_variant.hpp"
#include "matching/candidate/candidate_edge.hpp"
#include "matching/candidate/candidate_node.hpp"
#include "matching/candidate/candidate.hpp"

namespace verif {
    using namespace map_matching_2;
    namespace g = map_matching_2::geometry;

    using P = g::point_type<g::cs_geographic>;
    using M = io::memory_mapped::memory_types;

    // a second random access container, so that the converting operations are instantiated
    template<typename T, typename A> using other2 = boost::container::vector<T, A>;

    using lin2 = g::linestring<P, other2, std::allocator>;
    using rl = g::rich_line_type<P>;
    using rl2 = g::rich_line<P, other2, std::allocator>;
    using ll = g::lazy_rich_line_type<P>;
    using ll2 = g::lazy_rich_line<P, other2, std::allocator>;
    using el = g::eager_rich_line_type<P>;
    using el2 = g::eager_rich_line<P, other2, std::allocator>;
    using rm = g::multi_rich_line_type<P>;
    using rm2 = g::multi_rich_line<rl2, other2, std::allocator>;
    using lm = g::lazy_multi_rich_line_type<P>;
    using lm2 = g::lazy_multi_rich_line<ll2, other2, std::allocator>;
    using em = g::eager_multi_rich_line_type<P>;
    using em2 = g::eager_multi_rich_line<el2, other2, std::allocator>;
    using rs = g::rich_segment_type<P>;
    using ls = g::lazy_rich_segment_type<P>;
    using es = g::eager_rich_segment_type<P>;
    using rrs = g::rich_referring_segment_type<P>;
    using lrs = g::lazy_rich_referring_segment_type<P>;
    using ers = g::eager_rich_referring_segment_type<P>;
    using rps = g::rich_pointing_segment_type<P>;
    using A = std::allocator<void>;

    template<typename T, typename S> void construct(const S &s) {
        if constexpr (requires { T{s}; }) { T t{s}; (void) t; }
        if constexpr (requires { T(s, A{}); }) { T t(s, A{}); (void) t; }
    }
    template<typename T, typename S> void asg(T &t, const S &s) {
        if constexpr (requires { t = s; }) { t = s; }
    }
    template<typename T, typename S> void conv(T &t, const S &s) {
        construct<T>(s);
        asg(t, s);
    }
    template<typename T> void self(T &t) {
        conv(t, static_cast<const T &>(t));
        { T u{std::move(t)}; (void) u; }
        if constexpr (requires { T(std::move(t), A{}); }) { T u(std::move(t), A{}); (void) u; }
        if constexpr (requires { t = std::move(t); }) { T *u = nullptr; t = std::move(*u); }
    }
    template<typename T> T &v() { return *static_cast<T *>(nullptr); }

    // (lazy <-> eager conversions of multi lines exist but do not compile when used)
    template<typename X, typename Y, typename Z, bool Cross = true> void family() {
        // plain, lazy, eager
        self(v<X>()); self(v<Y>()); self(v<Z>());
        conv(v<X>(), v<Y>()); conv(v<X>(), v<Z>());
        conv(v<Y>(), v<X>()); conv(v<Z>(), v<X>());
        if constexpr (Cross) {
            conv(v<Y>(), v<Z>()); conv(v<Z>(), v<Y>());
        }
    }
    template<typename X, typename Y> void across(const Y &y) { conv(v<X>(), y); }

    void use() {
        family<rl, ll, el>();
        family<rm, lm, em, false>();
        family<rs, ls, es>();
        family<rrs, lrs, ers>();
        across<rl>(v<rl2>()); across<rl>(v<ll2>()); across<rl>(v<el2>()); across<rl>(v<lin2>());
        across<ll>(v<rl2>()); across<ll>(v<ll2>()); across<ll>(v<el2>()); across<ll>(v<lin2>());
        across<el>(v<rl2>()); across<el>(v<ll2>()); across<el>(v<el2>()); across<el>(v<lin2>());
        across<rm>(v<rm2>()); across<rm>(v<lm2>()); across<rm>(v<em2>());
        across<lm>(v<rm2>()); across<lm>(v<lm2>());
        across<em>(v<rm2>()); across<em>(v<em2>());
        across<g::linestring_type<P>>(v<lin2>());
        self(v<g::linestring_type<P>>());
        using ml = g::multi_linestring_type<g::linestring_type<P>>;
        self(v<ml>());
        using rd = typename ll::rich_line_data_base_type;
        using rd2 = typename ll2::rich_line_data_base_type;
        self(v<rd>()); across<rd>(v<rd2>());
        using md = typename lm::multi_rich_line_data_base_type;
        using md2 = typename lm2::multi_rich_line_data_base_type;
        self(v<md>()); across<md>(v<md2>());

        self(v<g::network::route_type<g::cs_geographic>>());
        self(v<g::network::lazy_route_type<g::cs_geographic>>());
        self(v<g::network::eager_route_type<g::cs_geographic>>());
        self(v<g::network::node_type<P>>());
        self(v<g::network::edge_type<P>>());
        self(v<g::network::lazy_edge_type<P>>());
        self(v<g::network::eager_edge_type<P>>());
        self(v<g::network::edge<rl2>>());
        across<g::network::edge_type<P>>(v<g::network::edge<rl2>>());
        across<g::network::lazy_edge_type<P>>(v<g::network::edge_type<P>>());
        across<g::network::eager_edge_type<P>>(v<g::network::edge<rl2>>());
        self(v<g::track::measurement<P>>());
        self(v<g::track::track_type<P>>());
        self(v<g::track::multi_track_type<P>>());
        across<g::track::multi_track_type<P>>(v<g::track::track_type<P>>());
    }

    template<typename Dir, template<typename, typename> typename C, typename V, typename E>
    void lists() {
        using L = graph::adjacency_list<C, C, Dir, V, E, C>;
        self(v<L>());
        self(v<typename L::vertex_type>());
        self(v<typename L::edge_type>());
        using D = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, V, E>;
        self(v<D>());
        self(v<typename D::vertex_type>());
        self(v<typename D::edge_type>());
    }

    void graphs() {
        lists<graph::bidirectional, std::list, int, int>();
        lists<graph::bidirectional, std::vector, void, void>();
        lists<graph::directional, std::list, void, void>();
        lists<graph::directional, std::vector, int, int>();
        lists<graph::undirected, std::vector, int, void>();
    }
}

// Instantiates the rich line / segment / multi line / route types with all their operations.
#undef EXPLICIT_TEMPLATES
#include <list>
#include <vector>
#include "types/geometry/models.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/eager_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include "types/geometry/network/route/eager_route.hpp"

namespace verif {
    using namespace map_matching_2;
    namespace g = map_matching_2::geometry;
    using P = g::point_type<g::cs_geographic>;
    using A = std::allocator<void>;
    template<typename T> T &v() { return *static_cast<T *>(nullptr); }

    using rl = g::rich_line_type<P>;
    using ll = g::lazy_rich_line_type<P>;
    using el = g::eager_rich_line_type<P>;
    using rm = g::multi_rich_line_type<P>;
    using lm = g::lazy_multi_rich_line_type<P>;
    using em = g::eager_multi_rich_line_type<P>;
    using rs = g::rich_segment_type<P>;
    using ls = g::lazy_rich_segment_type<P>;
    using es = g::eager_rich_segment_type<P>;
    using lr = g::network::lazy_route_type<g::cs_geographic>;
    using er = g::network::eager_route_type<g::cs_geographic>;

    template<typename T, typename S> void conv(T &t, const S &s) {
        if constexpr (requires { T{s}; }) { T u{s}; }
        if constexpr (requires { t = s; }) { t = s; }
    }

    template<typename L> void line(L &l) {
        const L &c = l;
        (void) c.length(); (void) c.azimuth(); (void) c.directions(); (void) c.absolute_directions();
        (void) c.has_length(); (void) c.has_azimuth(); (void) c.has_directions();
        (void) c.length(1); (void) c.azimuth(1); (void) c.direction(1); (void) c.absolute_direction(1);
        (void) c.has_length(1); (void) c.has_azimuth(1); (void) c.has_direction(1);
        (void) c.rich_segment(1); (void) c.rich_referring_segment(1);
        (void) c.sub_rich_line(1, 2);
        if constexpr (requires { c.sub_rich_line(1, 2, A{}); }) { (void) c.sub_rich_line(1, 2, A{}); }
        l.erase(v<std::vector<std::size_t>>());
        if constexpr (requires { l.erase(1, true); }) { l.erase(1, true); }
        l.merge(std::move(v<L>()), std::move(v<L>()));
        l.merge(std::move(v<std::vector<L>>()));
        L n{};
        L f{v<typename L::line_type>()};
        if constexpr (requires { L{v<typename L::line_type>(), A{}}; }) { L h{v<typename L::line_type>(), A{}}; }
        l = std::move(v<typename L::line_type>());
    }

    template<typename M, typename L> void multi(M &m) {
        const M &c = m;
        (void) c.length(); (void) c.azimuth(); (void) c.directions(); (void) c.absolute_directions();
        (void) c.has_length(); (void) c.has_azimuth(); (void) c.has_directions();
        m.template merge<L>(std::move(v<std::vector<L>>()));
        M f{v<L>()};
        M h{v<std::vector<L>>()};
        M n{};
    }

    template<typename S> void segment(S &s) {
        const S &c = s;
        (void) c.length(); (void) c.azimuth(); (void) c.has_length(); (void) c.has_azimuth();
        S f{v<typename S::segment_type>()};
        S h{P{}, P{}};
    }

    template<typename R, typename L> void route(R &r) {
        const R &c = r;
        (void) c.length(); (void) c.azimuth(); (void) c.directions(); (void) c.absolute_directions();
        (void) c.has_length(); (void) c.has_azimuth(); (void) c.has_directions(); (void) c.is_connected();
        (void) c.sub_route(1, 2);
        (void) c.template sub_route<L>(1, 2, 3, 4);
        (void) c.template trim_merge<L>(c);
        (void) R::template merge<L>(std::move(v<std::vector<R>>()));
        R::template join<L>(r, r);
        R f{v<L>()};
        R h{v<std::list<typename R::rich_line_variant_type>>()};
    }

    void use() {
        line(v<ll>()); line(v<el>());
        conv(v<ll>(), v<rl>()); conv(v<ll>(), v<el>()); conv(v<el>(), v<rl>()); conv(v<el>(), v<ll>());
        conv(v<ll>(), v<ll>()); conv(v<el>(), v<el>());
        multi<lm, ll>(v<lm>()); multi<em, el>(v<em>());
        conv(v<lm>(), v<rm>()); conv(v<em>(), v<rm>()); conv(v<lm>(), v<lm>()); conv(v<em>(), v<em>());
        segment(v<ls>()); segment(v<es>());
        conv(v<ls>(), v<rs>()); conv(v<es>(), v<rs>()); conv(v<ls>(), v<es>()); conv(v<es>(), v<ls>());
        conv(v<ls>(), v<ls>()); conv(v<es>(), v<es>());
        route<lr, ll>(v<lr>()); route<er, el>(v<er>());
        conv(v<lr>(), v<lr>()); conv(v<er>(), v<er>());
    }
}

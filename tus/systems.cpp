// Instantiates the transformation of points, lines and tracks between all pairs of coordinate systems.
#undef EXPLICIT_TEMPLATES
#include "types/geometry/models.hpp"
#include "types/geometry/reprojector.hpp"
#include "types/geometry/track/track.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/geometry/network/node.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"

namespace verif {

    namespace mm = map_matching_2::geometry;

    template<typename A, typename B>
    void pair(const mm::point_reprojector_variant &r) {
        using in = mm::point_type<A>;
        using out = mm::point_type<B>;
        mm::linestring<in> line;
        mm::linestring<out> other;
        in a;
        out b;
        mm::reproject_point(a, b, r);
        mm::reproject_line(line, other, r);
        mm::multi_linestring<mm::linestring<in>> lines;
        mm::multi_linestring<mm::linestring<out>> others;
        mm::reproject_multi_line(lines, others, r);
        mm::point_reprojector<in, out> p{mm::srs_transform{}};
        (void) p(a);
        (void) p.transform();
        mm::track::measurement<out> m{std::uint64_t{}, a, r};
        mm::track::track_type<out> t{std::string{}, line, r};
        mm::track::multi_track_type<out> mt{std::string{}, line, r}, mt2{std::string{}, lines, r};
        mm::network::node<out> n{std::uint64_t{}, a, r};
    }

    template void pair<mm::cs_geographic, mm::cs_geographic>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_geographic, mm::cs_spherical_equatorial>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_geographic, mm::cs_cartesian>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_spherical_equatorial, mm::cs_geographic>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_spherical_equatorial, mm::cs_spherical_equatorial>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_spherical_equatorial, mm::cs_cartesian>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_cartesian, mm::cs_geographic>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_cartesian, mm::cs_spherical_equatorial>(const mm::point_reprojector_variant &);
    template void pair<mm::cs_cartesian, mm::cs_cartesian>(const mm::point_reprojector_variant &);

}

// Instantiates the result writers and the console reports.
#undef EXPLICIT_TEMPLATES
#include "types/graph/adjacency_list.hpp"
#include "types/graph/compressed_sparse_row.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/track/multi_track.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "types/environment/environments/hmm.hpp"
#include "types/learning/algorithms/viterbi.hpp"
#include "matching/matcher/match_result.hpp"
#include "compare/comparator/compare_result.hpp"
#include "io/results/match/csv_match_exporter.hpp"
#include "io/results/match/csv_candidates_exporter.hpp"
#include "io/results/match/match_output_printer.hpp"
#include "io/results/compare/csv_compare_exporter.hpp"
#include "io/results/compare/compare_output_printer.hpp"
#include "io/results/track/csv_track_exporter.hpp"
#include "io/results/track/track_output_printer.hpp"

namespace verif {
    using namespace map_matching_2;
    namespace r = map_matching_2::io::results;
    template<typename T> T &v() { return *static_cast<T *>(nullptr); }

    using CS = geometry::cs_geographic;
    using P = geometry::point_type<CS>;
    using T = io::helper::tag_helper<io::memory_mapped::memory_types>;
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)), MM2_INDEX_HELPER_READ_ONLY(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES));
    using mr = matching::match_result<learning::viterbi<environment::hmm<network>>>;
    using mt = geometry::track::multi_track_type<P>;
    using cr = compare::compare_result<mt>;

    template<typename E, typename... A> void exporter(const A &...a) {
        E e{v<std::string>(), v<std::string>()};
        e.pass(e.parse_result(a...));
    }
    template<typename E, typename A> void printer(const A &a) {
        E e{true, true};
        e.pass(e.parse_result(a));
    }
    void results() {
        exporter<r::csv_match_exporter<>>(v<mr>());
        exporter<r::csv_candidates_exporter<>>(v<network>(), v<mr>());
        exporter<r::csv_compare_exporter<>>(v<cr>());
        r::csv_track_exporter<> t{v<std::string>()};
        t.pass(t.parse_result(v<mt>()));
        printer<r::match_output_printer>(v<mr>());
        printer<r::compare_output_printer>(v<cr>());
        printer<r::track_output_printer>(v<mt>());
    }
}

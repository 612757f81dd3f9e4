BASE_NOTE = ("Sound for the listed rule on every path of every analysed instantiation (loops summarised, calls inlined through "
             "the real callees); trusts clang's AST, the extractor and the models of std/boost named in DESIGN.md. ")

PROPS = [
P("C01", "Growing a memory-mapped store is transparent to the operation that hit the limit",
  "When an import or preparation step runs out of space in a memory-mapped store, the store that was full is enlarged and the step is repeated as often "
  "as the step allows (then the failure is reported), and if it succeeds the outcome is the same as with unlimited space: no element, tag or attribute is lost, duplicated or emptied. After an "
  "enlargement (or a drop and re-creation) every handle the store gives out points into the new mapping.",
  ["fault_sequences", "histories"], "every operation on every store, the store running full at any allocation inside it, any number of times in a row",
  "Tests use tiny stores for a few graph insertions; which allocation of which operation hits the limit is unbounded, and a stale handle or a half-done retry only shows for particular fill levels.",
  [L + "io/memory_mapped/utils.hpp", L + "io/memory_mapped/storage/base_storage.hpp", L + "io/helper/graph_helper.hpp", L + "io/helper/tag_helper.hpp", L + "io/helper/index_helper.hpp", L + "io/helper/index_build_helper.hpp", L + "io/helper/osm_handler_helper.hpp"],
  [("retry loop", L + "io/memory_mapped/utils.hpp"), ("grow / drop_grow of every storage", L + "io/memory_mapped/storage/")],
  technique="path-sensitive effect and typestate analysis (what a failed attempt leaves behind, which handles survive a remapping) over the clang AST",
  note=BASE_NOTE + "An allocation of a container operation fails before it changes the container (standard exception guarantees). The steps are those of the graph, tag, index, index build and OSM handler helpers; network simplification, which resumes in the middle by its own bookkeeping, and the pruning steps, which are not repeated at all, are outside."),

P("C02", "Stored files from another compiler or program version are refused",
  "Every way of opening an existing memory-mapped store (creating over it, open-or-create, normal, read-only, copy-on-write) "
  "first compares the compiler and the program version recorded in it with those of the running program, and fails with an error if either "
  "differs or the record is missing; every newly created store carries the record.",
  ["histories", "configurations"], "every store kind, every open mode, every recorded compiler/version pair",
  "Tests always read files the same binary wrote, so the refusing path never runs.",
  [L + "io/memory_mapped/storage/base_storage.hpp", L + "io/memory_mapped/utils.hpp", L + "io/memory_mapped/compile_info.hpp"],
  [("process_info / compare_info", L + "io/memory_mapped/storage/base_storage.hpp")],
  technique="path-sensitive gate (typestate) analysis of every function that maps a store, over the clang AST",
  note=BASE_NOTE + "Serialized (non memory-mapped) files carry no record in this repository and are outside."),

P("C03", "A memory-mapped store keeps or drops its data exactly as asked when it is closed",
  "A store closed normally keeps its data, one marked temporary removes its file, and trimming to size happens only for stores that are kept; "
  "a store opened again finds every named object under the name it was created with.",
  ["histories", "configurations"], "every storage kind and every combination of creation and close flags, also after moves and after enlargements",
  "Tests create and destroy a store in one process with one flag combination; leaks or lost data show only in the next run.",
  [L + "io/memory_mapped/storage/base_storage.hpp", L + "io/memory_mapped/storage/graph_storage.hpp", L + "io/memory_mapped/storage/tag_storage.hpp", L + "io/memory_mapped/storage/index_storage.hpp", L + "io/memory_mapped/storage/index_build_storage.hpp", L + "io/memory_mapped/storage/osm_handler_storage.hpp"],
  [("destructors, _create/_open/_open_or_create pairs", L + "io/memory_mapped/storage/")],
  technique="typestate analysis of files, mappings and named objects over every operation of the containers and storages (clang AST, flags enumerated)",
  note=BASE_NOTE + "What the operating system and boost::interprocess do with a removed, trimmed or reopened file is taken as documented."),

P("C04", "The tag dictionary maps each distinct key, value and key/value pair to one stable id",
  "Adding a tag returns the id it already has or a fresh one, and looking that id up returns exactly the key and value that were added; "
  "the forward and the reverse tables are always updated together. Once the dictionary is finalized, lookups still work and additions are refused.",
  ["inputs", "histories"], "every sequence of tag additions, lookups and copies between dictionaries, in memory and memory-mapped",
  "No stable test touches the dictionary.",
  [L + "io/memory_mapped/storage/tag_storage.hpp", L + "io/helper/tag_helper.hpp"],
  [("id / id_key / id_value and the five tables", L + "io/helper/tag_helper.hpp")],
  technique="path-sensitive analysis of symbolic table entries: paired updates of forward and reverse tables on every way out, incl. running out of space (clang AST)",
  note=BASE_NOTE + "The tables themselves (boost::unordered_flat_map) are taken to be maps. That an id taken from the size of a table is fresh relies on nothing being removed from it, which the rule checks."),

P("C05", "Copies, moves and conversions carry the whole state and nothing of the old one",
  "Copying, moving or converting a graph, geometry, network, track or route object (by construction or assignment) gives a target whose every "
  "member that both have in common is taken, unaltered, from the corresponding member of the source, and nothing of an assigned-to object's "
  "earlier content remains.",
  ["inputs", "histories"], "every copy/move/converting constructor and assignment operator of the library's data types, every prior content of the target",
  "Tests copy a few objects into empty targets and compare some members; a member forgotten in one of some 250 hand-written operations, or an append to a non-empty target, goes unseen.",
  [L + "graph/adjacency_list.hpp", L + "graph/compressed_sparse_row.hpp", L + "geometry/models.hpp", L + "geometry/rich_type/", L + "geometry/network/", L + "geometry/track/"],
  [("hand-written constructors and operator=", L + "graph/adjacency_list.hpp"), ("converting operations between rich types", L + "geometry/rich_type/")],
  technique="path-sensitive provenance (def-use) analysis of every special member function over the clang AST",
  note=BASE_NOTE + "Covers the 30+ record families instantiated in tus/copies.cpp; the multi line lazy/eager conversions do not compile in the repository and are outside."),

P("C06", "Serialization stores and restores the complete state of every persisted type",
  "Whatever a persisted type (graphs, vertices, edges, nodes, lines, segments, tag dictionary, spatial index, storages and their helpers) holds "
  "as its content is written on every path when it is saved, and read back into the same member, in the same order, on every path when it is loaded.",
  ["inputs", "programs"], "every persisted type and every instantiation of it (data / no data, directional / bidirectional, memory / memory-mapped)",
  "The two stable serialization tests cover plain spatial indices only; a forgotten or swapped member is invisible until a prepared network is loaded in another process.",
  [L + "graph/adjacency_list.hpp", L + "graph/compressed_sparse_row.hpp", L + "geometry/models.hpp", L + "geometry/rich_type/rich_line_data.hpp", L + "geometry/rich_type/rich_segment_data.hpp", L + "geometry/network/node.hpp", L + "geometry/network/edge.hpp", L + "io/memory_mapped/storage/", L + "io/serialization/serializer.hpp", L + "io/serialization/deserializer.hpp"],
  [("serialize() of each type", L + "graph/adjacency_list.hpp"), ("archive streams", L + "io/serialization/")],
  technique="path-sensitive interprocedural field-coverage analysis over the clang AST (custom libTooling extractor)",
  note=BASE_NOTE + "Decides completeness, order and symmetry of what is archived for 33 persisted types, not the byte encoding done by Boost."),

P("C07", "Lengths, azimuths and directions a line, segment or route answers are those of its current geometry",
  "Whatever is done to a lazy or eager rich line, segment, multi line or route (assigning a plain geometry, erasing points, merging, taking a "
  "part, joining, copying, converting between the kinds), every length, azimuth, direction or connectedness it answers afterwards is that of the "
  "geometry it then has: cached values are dropped, recomputed or taken over together with the geometry they belong to, and a value that is not "
  "there yet is computed before it is returned.",
  ["inputs", "histories"], "every sequence of operations on every lazy and eager type, every position erased, every range taken, every state of the caches",
  "Tests compare a few hand-made lines; whether a cache was filled before the mutation, and which of the two end points went away, multiplies beyond what they sample.",
  [L + "geometry/rich_type/rich_line_data.hpp", L + "geometry/rich_type/lazy_rich_line.hpp", L + "geometry/rich_type/eager_rich_line.hpp", L + "geometry/rich_type/lazy_multi_rich_line.hpp", L + "geometry/network/route/lazy_route.hpp", L + "geometry/network/route/eager_route.hpp"],
  [("_invalidate / _rebuild / _compute*", L + "geometry/rich_type/rich_line_data.hpp"), ("erase, merge, sub_data", L + "geometry/rich_type/")],
  technique="path-sensitive typestate analysis of the cache fields (fresh / dropped / stale) over the clang AST",
  note=BASE_NOTE + "Decides that cached values are dropped, recomputed after the geometry is in place, or taken over whole; not that the formula of a length or azimuth is right."),

P("C18", "Every command line option takes effect where its name says and a given value is never silently replaced",
  "Each option of the prepare, match and compare modes fills its own value, every value reaches the setting, importer, exporter or step that is "
  "named after it unchanged, choices select the alternative of their name and steps run exactly if they are asked for. A correction replaces a "
  "value only if the user did not give it or where the option's description announces it (memory mapping switches follow their group's, then the "
  "general switch; the radius limits follow the radius), the command line overrides the configuration file, and a mode starts only after the "
  "options were parsed, checked and corrected.",
  ["inputs", "configurations"], "every combination of given and defaulted options of the three modes, and every accepted value of every choice",
  "There are some 180 options with thousands of given/defaulted combinations; the stable tests start no mode.",
  ["src/app/src/app/options.cpp", "src/app/include/app/options.hpp", "src/app/src/app/settings.cpp", "src/app/src/app/compare.cpp", "src/app/src/app/prepare.cpp", "src/app/src/app/match_cli.cpp", "src/app/include/app/network.hpp"],
  [("options_*() and correct()", "src/app/src/app/options.cpp"), ("_match_settings and the other settings functions", "src/app/src/app/settings.cpp")],
  technique="path-sensitive flow analysis of option values from their registration through corrections and settings to importers, exporters and steps (clang AST)",
  note=BASE_NOTE + "What option a value belongs to is read from the names the program itself uses: a member, setting or parameter is taken to be the one whose name is closest, and only pairs that would both fit better exchanged are reported. What an option does inside the matcher is outside."),

P("C15", "Matching finds exactly the network that preparation left behind",
  "For every combination of the memory mapping switches, each part of a prepared network (graph, tags, indices) is left in its own file of the output "
  "folder, either memory-mapped or written completely, after import, clean-up, conversion and indexing, and the same part is mapped read-only or read "
  "back, as the same type, from the same file of the input folder before the first track is matched. Working files are removed, final ones kept, no "
  "two stores share a file, and a file that cannot be written or read is an error.",
  ["configurations", "histories"], "all combinations of the eight memory mapping switches in preparation and the three in matching, for every coordinate system",
  "The tests prepare and match nothing; there are 256 combinations of switches, and a part that is neither mapped nor saved shows only in another process.",
  ["src/app/include/app/network.hpp", "src/app/src/app/network.cpp", "src/app/include/app/prepare.hpp", "src/app/include/app/match.hpp", L + "io/serialization/serializer.hpp", L + "io/serialization/deserializer.hpp"],
  [("_create_* / _open_* helpers, save_network, load_network", "src/app/include/app/network.hpp"), ("_import_network", "src/app/include/app/prepare.hpp")],
  technique="path-sensitive effect analysis (stores opened, files written and read, steps run) correlated with the switches each path found set (clang AST)",
  note=BASE_NOTE + "Both sides are taken to be run with the same switches and file names, as the documentation demands. Whether the two coordinate systems agree is outside."),

P("C08", "Every edge of an adjacency list is recorded exactly where its direction says, through every modification",
  "An edge of a directional graph is recorded once in the graph and once among the outgoing edges of its source; of an undirected graph also among "
  "those of its target unless it is a self loop; of a bidirectional graph also among the incoming edges of its target. Adding an edge or a vertex "
  "keeps this, stores the endpoints, data and index given, and leaves nothing behind when storing it fails at any point. Removing an edge, all edges "
  "between two vertices or all edges of a vertex takes exactly those out of all lists, self loops and parallel edges included, also when the "
  "argument refers into the graph, and never uses what it has erased; a vertex with recorded edges is not removed. Reindexing numbers vertices and "
  "edges in order.",
  ["inputs", "histories", "faults"], "every graph, edge, vertex and argument, every allocation of an insertion failing",
  "Tests build a few small graphs; dangling descriptors, self loops, parallel edges, failing insertions and arguments that refer into the lists multiply beyond them.",
  [L + "graph/adjacency_list.hpp", L + "graph/container_view.hpp"],
  [("_add_edge, try_add", L + "graph/adjacency_list.hpp"), ("remove_edge, clear_vertex, remove_vertex, out_remove_if, in_remove_if", L + "graph/adjacency_list.hpp")],
  technique="shape analysis: all paths of each operation over an arbitrary edge materialised in abstract lists, with node lifetimes (clang AST)",
  note=BASE_NOTE + "The abstract graph holds one arbitrary edge between arbitrary vertices, a third vertex, and up to one further arbitrary edge in each list, before or after it."),

P("C09", "The graph used for matching has the vertices and edges of the one it was converted from",
  "Converting an adjacency list of any direction into a compressed sparse row keeps every vertex under its index and every edge once, with its "
  "source, target and data, among the outgoing edges of its source; the reverse record of an undirected edge is skipped, self loops are kept. The "
  "outgoing edges of a vertex are exactly those, the last vertex and vertices without edges included.",
  ["inputs"], "every graph, direction and container kind",
  "Tests convert a handful of graphs; an edge at the wrong vertex shows only where degrees are zero, at the end, or with self loops.",
  [L + "graph/compressed_sparse_row.hpp", L + "graph/container_subview.hpp", L + "graph/container_view.hpp"],
  [("from_adjacency_list, _add_vertex, _add_edge, _out_edges_start_end", L + "graph/compressed_sparse_row.hpp")],
  technique="shape analysis of the conversion and of the views over abstract graphs with materialised vertices and edges (clang AST)",
  note=BASE_NOTE + "The loop invariant (next start = edges stored) is finite in this abstraction; three vertices with up to two edges each reach all its states."),

P("C16", "Every row of a result file gives each column of its header the value that column names",
  "Match, candidate, comparison and track result files start with the columns that were asked for, once, and have one row per result (one per "
  "candidate edge), with exactly as many fields, in the same order, each holding the value of its column for that result, whichever other columns "
  "are asked for; a length is 0 only where there is none, a column that is not known stays empty. The figures of the console reports are those "
  "their labels name, for each result and summed up over all of them.",
  ["inputs", "configurations"], "every list of columns, every result (any number of parts, candidates, edges, chosen or not, with or without a length)",
  "Nothing in the stable tests writes a result file; there are thousands of column lists, and most mistakes show in one column of some of them.",
  [L + "io/results/csv_results_exporter.hpp", L + "io/results/match/csv_match_exporter.hpp", L + "io/results/match/csv_candidates_exporter.hpp", L + "io/results/compare/csv_compare_exporter.hpp", L + "io/results/track/csv_track_exporter.hpp", L + "io/results/match/match_output_printer.hpp", L + "io/results/compare/compare_output_printer.hpp"],
  [("parse_result, _parse_columns, parse_task", L + "io/results/"), ("write_header, write_result", L + "io/results/csv_results_exporter.hpp")],
  technique="provenance analysis: where each field of a row comes from, on every path from the result to the row, over abstract results and column lists (clang AST)",
  note=BASE_NOTE + "Compares where a value comes from, not its formatting (number of digits, quoting). Column lists: each column alone, twice, all, all reversed, and mixed with an unknown one."),

P("C11", "Every queued track is worked on exactly once and answered exactly once, with its own result",
  "A track that is queued before the queue is closed is executed once, whatever the number of threads, the size of the queue and the failures of "
  "other tasks; waiting for the matcher or the comparator waits for all of them, and it is destroyed before what its workers use. The worker "
  "hands the result once to the printer and to every result file; it names the track, the model and the settings that were asked for, and "
  "environments, learners and policies agree in number. The lines of a result file are written by one thread. A match and the ground truth with "
  "the same id are compared once, as such; what is left of the ground truths is compared with an empty match of its id, unless this is switched off.",
  ["inputs", "schedules", "faults"], "every number of threads, every schedule of producer, coordinator and workers, every order in which tracks and ground truths arrive, every failing task",
  "No stable test matches or compares; a lost task shows only in a particular interleaving of closing and taking, a doubled comparison only in a particular order of files.",
  [L + "util/coordinator.hpp", L + "matching/matcher.hpp", "src/library/src/compare/comparator.cpp", "src/library/src/compare/comparator/comparator_forwarder_data.cpp", "src/library/src/io/track/track_exporter.cpp", "src/app/src/app/compare.cpp", "src/app/src/app/match.cpp"],
  [("queue, start, stop, join, _start", L + "util/coordinator.hpp"), ("execute, _match_dispatch, _match_impl", L + "matching/matcher.hpp"), ("pass, finish", "src/library/src/compare/comparator/")],
  technique="typestate of the queue, the threads and the results on all paths of the coordinator, its owners and its workers (clang AST)",
  note=BASE_NOTE + "Assumes that boost's bounded queue and thread pool keep their own contracts."),

P("C12", "Every track of the input arrives once, complete and in order",
  "Each track in the given files (or on standard input) is handed on exactly once under its identifier, with all its points, each with the coordinates "
  "of its own row; points with times are in the order of their times, points at the same time and points without times in the order of the file. "
  "What is not selected, cannot be read or names an edge that does not exist is left out without touching the tracks around it. In grouped files a "
  "track is handed on before later ones are read. A route given as a list of edges has the geometry of its edges, in the direction and order given.",
  ["inputs", "configurations"], "every file, every combination of the import settings (identifiers, grouping, selection, columns, times, WKT, delimiters, several files)",
  "The stable tests read no track; most mistakes concern one combination of settings and the shape of a file (last track, equal times, empty track, several files).",
  [L + "io/track/csv_track_importer.hpp", L + "io/track/gpx_track_importer.hpp", L + "io/track/input_importer.hpp", L + "io/track/seattle_ground_truth_importer.hpp", L + "io/track/edges_list_importer.hpp", "src/library/src/io/csv_importer.cpp"],
  [("process_row, finish_import, configure_format", L + "io/track/csv_track_importer.hpp"), ("read", L + "io/track/gpx_track_importer.hpp"), ("read, _parse_dispatch", L + "io/track/")],
  technique="provenance analysis by abstract execution of the importers over files whose rows are symbolic and whose shape (tracks, order, gaps, settings) is enumerated (clang AST)",
  note=BASE_NOTE + "Coordinates and geometries are symbolic; identifiers, order of rows and settings are those of the listed scenarios, not all. Parsing of CSV, GPX, WKT and of times is trusted; a time is a number."),
P("C13", "A network file arrives in the graph as it describes the network",
  "Importing a network makes exactly one vertex of each node that the file describes (of OpenStreetMap data: of each visible node that a kept way uses), with its "
  "identifier, place and tags, and of each edge or each pair of neighbouring nodes of a kept way one edge with the identifier, points and tags given, in the direction "
  "given, or one in each direction where both ways are allowed. The way is kept if the rules for querying and filtering say so, and oneways, also reversed ones, follow "
  "their rules. Every coordinate is transformed once if a transformation is asked for and otherwise taken as it is. Nodes may come in any order, twice, or be missing: "
  "what refers to a missing one is left out or reported, the rest is unharmed. A missing file is reported.",
  ["inputs", "configurations"], "every network file of the five formats, every order of nodes, every rule specification and every pair of coordinate systems",
  "The stable tests import no network; what goes wrong depends on the order of nodes, missing nodes, tags that combine, several files or a transformation.",
  [L + "io/network/osm_handler.hpp", L + "io/network/osm_importer.hpp", L + "io/network/osm_manual_importer.hpp", L + "io/network/osm_car_importer.hpp", L + "io/helper/osm_handler_helper.hpp",
   L + "io/network/arc_node_importer.hpp", L + "io/network/giscup_importer.hpp", L + "io/network/melbourne_importer.hpp", L + "io/network/seattle_importer.hpp", L + "geometry/algorithm/reproject.hpp"],
  [("node, way, keep, detect_oneway", L + "io/network/osm_handler.hpp"), ("add_node, get_node, add_vertex, add_edge", L + "io/helper/osm_handler_helper.hpp"), ("read", L + "io/network/")],
  technique="provenance analysis by abstract execution of the importers over enumerated small networks with symbolic transformation of coordinates (clang AST)",
  note=BASE_NOTE + "The networks are those of the listed scenarios. Reading of OSM files, number parsing and the transformation itself are trusted; the graph that is filled is a recorder (C08 covers the graph)."),
P("C17", "Coordinates are in the system they should be in",
  "The coordinate system of an input, and the one it is transformed to, are those asked for by code and type; what is left out is filled in as the options say (type by what "
  "the code stands for, code by the type, without either no transformation), and an input without a code is refused. Coordinates are transformed exactly if the two systems "
  "differ, from the projection of the one to that of the other, once and point by point in order; otherwise they are taken unchanged. A reprojector that is not made for the "
  "point types at hand is an error, never a wrong place. Tracks, matches, the ground truth and networks are each read in the system of their own options, a network is kept "
  "with the type of coordinates it is transformed to, and exported to OpenStreetMap data back in WGS84.",
  ["inputs", "configurations"], "every combination of source and target code and type, every pair of coordinate systems, every importer and every track",
  "The stable tests use one or two systems; what goes wrong depends on combinations of codes and types, such as the same code with another type.",
  ["src/library/src/geometry/srs.cpp", L + "geometry/srs.hpp", L + "geometry/reprojector.hpp", L + "geometry/algorithm/reproject.hpp", L + "geometry/algorithm/srs_dispatch.hpp",
   "src/library/src/geometry/algorithm/reproject.cpp", "src/app/src/app/network.cpp", "src/app/src/app/compare.cpp", "src/app/include/app/match.hpp", "src/app/include/app/prepare.hpp"],
  [("compute_srs, compute_srs_transform, compute_next_srs_transform", "src/library/src/geometry/srs.cpp"), ("reproject_point, reproject_line, reproject_multi_line", L + "geometry/algorithm/reproject.hpp"),
   ("srs_dispatch", L + "geometry/algorithm/srs_dispatch.hpp"), ("create_network_import", "src/app/src/app/network.cpp")],
  technique="decision-table analysis by abstract execution over all classes of codes and types, type dispatch resolution, and provenance of systems and reprojectors in the application (clang AST)",
  note=BASE_NOTE + "Codes are represented by those of six systems of the register, one for each kind that the code distinguishes. The mathematics of the projections is that of boost and is trusted."),

P("C20", "Worker threads change nothing that other threads may be using",
  "While tasks are worked on by several threads, a thread changes only what belongs to its own task or is kept per thread: no member of the worker that "
  "all its threads share, no exporter or printer (rows and messages are queued and written by one thread), no global or static variable, and nothing of "
  "the network that all of them read, which does not change its own parts while it is only read. What is shared and does change is guarded by a lock, "
  "is atomic or is a queue made for it. The caches of distances and directions are kept per thread.",
  ["schedules", "histories"], "every interleaving of any number of worker threads, for all four models and both worker kinds",
  "The tests start no workers, and a race shows only for particular interleavings.",
  [L + "matching/matcher.hpp", L + "compare/comparator.hpp", L + "util/coordinator.hpp", L + "geometry/cache.hpp", "src/library/src/geometry/cache.cpp", L + "matching/algorithm/route.hpp", L + "matching/algorithm/candidate_search.hpp", L + "geometry/algorithm/compare.hpp", L + "io/results/csv_results_exporter.hpp", L + "types/graph/compressed_sparse_row.hpp"],
  [("matcher::execute and comparator::execute with everything they call", L + "matching/matcher.hpp"), ("distance_cache, azimuth_cache", "src/library/src/geometry/cache.cpp"), ("the edges of the network that is matched against", L + "types/graph/compressed_sparse_row.hpp")],
  technique="interprocedural effect and escape analysis over the call graph of the worker threads (clang AST with template instantiations)",
  note="Follows references, pointers, iterators and lambdas from the worker's members and from static storage through the real callees, context by context; one instantiation of the network stands for all. Containers and functions of std and boost are judged by constness and parameter types. Flow-insensitive inside a function except for locks, which count from their declaration to the end of the block. What a thread hands over through a queue is outside (C11)."),
]

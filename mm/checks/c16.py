"""C16: a result row answers the columns of its header."""
import itertools
from ..flow import NEXT, RET, THROW, U, St, Limit
from .. import shape
from ..text import Text, TextEngine, cat, is_string

TUS = ["verif:results.cpp"]

shape.SEQS |= {"map_matching_2::geometry::linestring", "map_matching_2::geometry::multi_linestring"}

THIS = ("this",)


def path(v):
    return tuple(x for x in v if x != "*")


def norm(v):
    """where a text comes from"""
    if v is None:
        return ""
    k = v[0]
    if k in ("in", "loc", "ptr"):
        return ".".join(path(v[1]))
    if k == "c":
        return repr(v[1])
    if k == "fld":
        return norm(v[1]) + "." + v[2]
    if k == "cat":
        return " ".join(norm(p) for p in v[1])
    if k == "term":
        name, obj, args = v[1], v[2], v[3]
        if name in ("wkt", "to_wkt"):
            x = norm(obj if obj is not None else args[0])
            if x.endswith(".multi_rich_line"):
                x = x[:-len(".multi_rich_line")]
            return "wkt(%s)" % x
        return "%s(%s)" % (name, ", ".join(([norm(obj)] if obj is not None else []) + [norm(a) for a in args]))
    if k == "line":
        return "[%s]" % ", ".join(norm(x) for x in v[1])
    if k == "agg" and not v[1]:
        return "''"
    if k == "op":
        return "(%s %s %s)" % (norm(v[2]), v[1], norm(v[3]))
    if k == "un":
        return "%s%s" % (v[1], norm(v[2]))
    return "?"


class Rows(Text):
    max_depth = 16
    loop_rounds = 40

    def __init__(self, active=True):
        super().__init__()
        self.active = active

    def should_inline(self, eng, fn, c, n):
        return "io/results" in fn.file

    def may_throw(self, eng, st, fr, n, c):
        return False

    def on_enter(self, eng, st, fr, fn):
        self.touched.add(fn)

    def on_cond(self, eng, st, fr, val, truth, node):
        return super().on_cond(eng, st, fr, val, truth, node)

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        if name == "is_writable":
            return self.ok(st, ("c", self.active))
        if name == "filename" and rec.startswith("map_matching_2::io"):
            return self.ok(st, ("c", "result.csv"))
        if q.startswith("boost::algorithm::") and name == "split" and len(args) >= 3:
            return self.split(eng, st, fr, n, args)
        if q.startswith("boost::algorithm::") and name == "is_any_of":
            return self.ok(st, ("anyof", eng.rv(st, args[0])))
        if rec == "csv::DelimWriter" or name == "operator<<" and "DelimWriter" in repr(c.get("pt")):
            if name == "operator<<":
                C = self.container(st, args[-1])
                if C is None:
                    self.bad("a row with unknown fields is written", fr, n)
                    return []
                s = st.copy()
                row = tuple(eng.rv(s, ("loc", (x,))) for x in self.seq(s, C))
                s.facts["rows"] = s.facts.get("rows", ()) + (row,)
                return self.ok(s, obj or args[0])
            return self.ok(st, obj)
        if q == "std::basic_ostream::operator<<" or q.startswith("std::operator<<") or rec == "std::basic_ostream":
            pass
        if name == "candidates" and obj is not None and obj[0] == "loc" and not args and ("seq", obj[1] + ("candidates",)) in st.facts:
            return self.ok(st, ("loc", obj[1] + ("candidates",)))
        if name == "queue" and "coordinator" in rec:
            s = st.copy()
            self.assign(eng, s, ("task",), args[0])
            s.facts["tasks"] = s.facts.get("tasks", 0) + 1
            return self.ok(s, U)
        if n["k"] == "ctor" and "geometry::" in rec and obj is not None and args and not c.get("ctor") in ("copy", "move"):
            if len(args) == 1 and eng.rv(st, args[0])[0] == "agg":
                args = eng.rv(st, args[0])[1]
            s = st.copy()
            s.env[("val", obj[1])] = ("line", tuple(self.whole(eng, s, a) for a in args))
            return self.ok(s, obj)
        if name in ("to_wkt", "wkt"):
            v = obj if obj is not None else args[0]
            C = self.container(st, v)
            if C is not None:
                return self.ok(st, ("term", "wkt", ("line", tuple(eng.rv(st, ("loc", (x,))) for x in self.seq(st, C))), ()))
            return self.ok(st, ("term", "wkt", self.whole(eng, st, v), ()))
        return super().on_call(eng, st, fr, n, c, obj, args)

    def whole(self, eng, st, v):
        w = eng.rv(st, v) if v[0] == "loc" else v
        return w

    def split(self, eng, st, fr, n, args):
        src, sep = eng.rv(st, args[1]), eng.rv(st, args[2])
        s = st.copy()
        dst = args[0][1]
        s.facts[("seq", dst)] = ()
        if src[0] != "c" or sep[0] != "anyof" or sep[1][0] != "c":
            return None
        parts, cur = [], ""
        for ch in src[1]:
            if ch in sep[1][1]:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        for p in parts + [cur]:
            self.add(eng, s, dst, [("c", p)], fr, n)
        return self.ok(s, args[0])


def exporters(prog):
    """{class: {method: function}} of the writers of result files and of the console reports"""
    res = {}
    for f in prog.fns.values():
        if not f.has_body or "/io/results/" not in "/" + f.file:
            continue
        if f.n in ("parse_result", "execute", "pass"):
            res.setdefault(f.r, {})[f.n] = f
        elif "inits" in f.j:
            res.setdefault(f.r, {})[("ctor", len(f["ps"]))] = f
        elif f.n.startswith("~"):
            res.setdefault(f.r, {})["~"] = f
    return {r: m for r, m in res.items() if "parse_result" in m and "execute" in m}


M = "M"
ZERO = object()


def leaf(*p):
    return ".".join((M,) + p)


def length_of(p):
    return ("cond", "has_length(%s)" % p, "length(%s)" % p)


# what the columns of the result files mean
MATCH = {
    "id": leaf("track", "id"), "aborted": ("flag", leaf("aborted")), "duration": leaf("duration"),
    "track": "wkt(%s)" % leaf("track"), "prepared": "wkt(%s)" % leaf("prepared"), "match": "wkt(%s)" % leaf("match"),
    "track_length": length_of(leaf("track", "multi_rich_line")), "prepared_length": length_of(leaf("prepared", "multi_rich_line")),
    "match_length": length_of(leaf("match")), "edge_ids": "I0 ',' I1",
}
COMPARE = {
    "id": leaf("ground_truth", "id"), "duration": leaf("duration"), "match": "wkt(%s)" % leaf("match"),
    "ground_truth": "wkt(%s)" % leaf("ground_truth"), "match_length": length_of(leaf("match", "multi_rich_line")),
    "ground_truth_length": length_of(leaf("ground_truth", "multi_rich_line")),
    "correct_fraction": leaf("comparison", "correct_fraction"), "error_fraction": leaf("comparison", "error_fraction"),
    "correct": leaf("comparison", "correct"), "error_added": leaf("comparison", "error_added"),
    "error_missed": leaf("comparison", "error_missed"),
    "corrects": "wkt([[first(C0), second(C0)], [first(C1), second(C1)]])", "error_adds": "wkt([[first(A0), second(A0)]])",
    "error_misses": "wkt([[first(X0), second(X0)]])",
}
TRACK = {"id": leaf("id"), "track": "wkt(%s)" % M}
# environment, candidate, edge index -> values
CANDIDATE = {
    "id": lambda e, i, j: leaf("track", "id"), "part_index": lambda e, i, j: str(e), "set_index": lambda e, i, j: str(i),
    "candidate_index": lambda e, i, j: str(j),
    "projection": lambda e, i, j: "wkt([point(%s), %s.projection_point])" % (cand(e, i), edge(e, i, j)),
    "distance": lambda e, i, j: edge(e, i, j) + ".distance", "from": lambda e, i, j: "wkt(line(%s.from))" % edge(e, i, j),
    "to": lambda e, i, j: "wkt(line(%s.to))" % edge(e, i, j),
    "edge_id": lambda e, i, j: "edge(N, %s.edge_desc).id" % edge(e, i, j),
    "is_result": lambda e, i, j: "True" if (i, j) in POLICY[e] else "False",
}
# candidates per environment: number of edges of each candidate; policies: chosen (candidate, edge)
SETS = [[2, 1], [2, 0, 2]]
POLICY = [[(0, 1), (1, 0)], [(0, 0), (2, 1)]]


def cand(e, i):
    return "K%d_%d" % (e, i)


def edge(e, i, j):
    return "G%d_%d_%d" % (e, i, j)


def inputs(st):
    """a match result and a comparison with known lists"""
    f, v = st.facts, st.env
    f[("seq", (M, "edge_ids"))] = ("I0", "I1")
    f[("seq", (M, "comparison", "corrects"))] = ("C0", "C1")
    f[("seq", (M, "comparison", "error_adds"))] = ("A0",)
    f[("seq", (M, "comparison", "error_misses"))] = ("X0",)
    f[("seq", (M, "environments"))] = tuple("ENV%d" % i for i in range(len(SETS)))
    f[("seq", (M, "policies"))] = tuple("POL%d" % i for i in range(len(SETS)))
    for e, sizes in enumerate(SETS):
        f[("seq", ("ENV%d" % e, "candidates"))] = tuple(cand(e, i) for i in range(len(sizes)))
        for i, k in enumerate(sizes):
            f[("seq", (cand(e, i), "edges"))] = tuple(edge(e, i, j) for j in range(k))
        f[("seq", ("POL%d" % e,))] = tuple("PAIR%d_%d" % (e, k) for k in range(len(POLICY[e])))
        for k, (a, b) in enumerate(POLICY[e]):
            v[("val", ("PAIR%d_%d" % (e, k), "first"))] = ("c", a)
            v[("val", ("PAIR%d_%d" % (e, k), "second"))] = ("c", b)


def start(prog, m, columns, active=True):
    """[(client, engine, state)] of a writer that was constructed for the columns"""
    cl = Rows(active)
    eng = TextEngine(prog, cl)
    two, one = m.get(("ctor", 2)), m.get(("ctor", 1))
    f = two or one
    args = [("c", "result.csv")] + ([("c", columns)] if two else [])
    outs = [s for k, s, v in eng.run(f, args=args) if k == RET]
    return cl, eng, outs


MML = leaf("match", "multi_rich_line")
GML = leaf("ground_truth", "multi_rich_line")
EDGES, STATES = ["edges(ENV0)", "edges(ENV1)"], ["states(ENV0)", "states(ENV1)"]
# label -> the figures that are added up; per result, and over all results
REPORTS = {
    "match_output_printer": ({
        "with id '": [leaf("track", "id")], "' done in ": [leaf("duration")], "' aborted after ": [leaf("duration")],
        "track points: ": ["sizes(%s)" % leaf("track", "multi_rich_line")],
        "prepared points: ": ["sizes(%s)" % leaf("prepared", "multi_rich_line")], "candidates: ": EDGES, "combinations: ": STATES,
    }, {
        "total duration: ": [leaf("duration")], "tracks points: ": ["sizes(%s)" % leaf("track", "multi_rich_line")],
        "prepared points: ": ["sizes(%s)" % leaf("prepared", "multi_rich_line")], "candidates: ": EDGES, "combinations: ": STATES,
    }, "wkt(%s)" % leaf("match")),
    "compare_output_printer": ({
        "with id '": [leaf("ground_truth", "id")], "' done in ": [leaf("duration")],
        "ground truth points: ": ["sizes(%s)" % GML], "match points: ": ["sizes(%s)" % MML],
        "correct fraction: ": [leaf("comparison", "correct_fraction")], "error fraction: ": [leaf("comparison", "error_fraction")],
        "correct: ": [leaf("comparison", "correct")], "error added: ": [leaf("comparison", "error_added")],
        "error missed: ": [leaf("comparison", "error_missed")],
    }, {
        "total duration: ": [leaf("duration")], "ground truths points: ": ["sizes(%s)" % GML], "matches points: ": ["sizes(%s)" % MML],
        "ground truths length: ": ["length(%s)" % GML], "matches length: ": ["length(%s)" % MML],
        "mean correct fraction: ": [leaf("comparison", "correct_fraction"), "/"], "mean error fraction: ": [leaf("comparison", "error_fraction"), "/"],
        "correct length: ": [leaf("comparison", "correct")], "errors added: ": [leaf("comparison", "error_added")],
        "errors missed: ": [leaf("comparison", "error_missed")],
    }, None),
    "track_output_printer": ({
        "with id '": [leaf("id")], "track points: ": ["sizes(%s)" % leaf("multi_rich_line")],
    }, {"tracks points: ": ["sizes(%s)" % leaf("multi_rich_line")]}, "wkt(%s)" % M),
}


def emit(cl, eng, m, st, network):
    """hands one result over and executes the queued task: [state]"""
    res = []
    st = st.copy()
    inputs(st)
    args = [("loc", (M,))]
    if len(m["parse_result"]["ps"]) == 2:
        args.insert(0, ("loc", ("N",)))
    for k, s, v in eng.run(m["parse_result"], args=args, st=st):
        if k != RET:
            continue
        for k2, s2, v2 in eng.run(m["pass"], args=[v], st=s):
            if k2 != RET or not s2.facts.get("tasks"):
                cl.viol.append(("a result that is handed over is not queued", m["pass"], 0))
                continue
            s2.facts.pop("tasks")
            for k3, s3, v3 in eng.run(m["execute"], args=[("loc", ("task",))], st=s2):
                if k3 == RET:
                    res.append(s3)
    return res


def decided(st, text):
    """how a condition was decided on this path"""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "cond" and norm(k[1]) == text:
            return v
    return None


def value_of(st, want):
    """the expected text of a field on this path"""
    if isinstance(want, tuple) and want[0] == "cond":
        d = decided(st, want[1])
        return None if d is None else want[2] if d else ZERO
    return want


def field(st, got, want):
    """None, or what is wrong with a field"""
    g = norm(got)
    if isinstance(want, tuple) and want[0] == "flag":
        d = decided(st, want[1])
        w = {True: "'yes'", False: "'no'"}.get(d)
        if d is None:
            return None if g == want[1] else "is %s" % g
        return None if g in (w, "True" if d else "False", "'true'" if d else "'false'") else "is %s where %s is %s" % (g, want[1], str(d).lower())
    w = value_of(st, want)
    if w is None:
        return None if g == want[2] else "is %s whether or not there is a length" % g
    if w is ZERO:
        return None if g in ("0", "0.0", "'0'") else "is %s where there is no length" % g
    return None if g == w or g == "'%s'" % w else "is %s" % (g or "empty")


def describe(want):
    return want[2] if isinstance(want, tuple) and want[0] == "cond" else want[1] if isinstance(want, tuple) else want


def short(prog, r):
    return prog.recs[r].q.rsplit("::", 1)[-1]


def run(prog, rep):
    rep.rule("column", "a result file that is asked for one column has a header with it and one row per result (per candidate edge, for candidates), "
                       "whose field is what the column names")
    rep.rule("order", "fields come in the order of the header, and there are as many, whatever columns are asked for: "
                      "a column that is not known stays empty")
    rep.rule("header", "the header is written once, before the first row, and nothing is written when there is no file")
    found = exporters(prog)
    for r, m in sorted(found.items(), key=lambda x: short(prog, x[0])):
        name = short(prog, r)
        if name in REPORTS:
            report(prog, rep, name, m)
            continue
        spec = {"csv_match_exporter": MATCH, "csv_compare_exporter": COMPARE, "csv_track_exporter": TRACK, "csv_candidates_exporter": CANDIDATE}.get(name)
        if spec is None:
            continue
        for f in m.values():
            rep.fn(f)
        csv(prog, rep, name, m, spec)
    rep.rule("report", "the figures of the console reports are those their labels name, for one result and added up over all of them; "
                       "with console output the result itself is printed")
    rep.floor("report", 12)
    rep.floor("column", 20)
    rep.floor("order", 20)
    rep.floor("header", 4)


def expected(name, spec, columns):
    """[[(column, expected)]]: the rows of one result"""
    if name == "csv_candidates_exporter":
        return [[(c, spec[c](e, i, j) if c in spec else "") for c in columns]
                for e, sizes in enumerate(SETS) for i, k in enumerate(sizes) for j in range(k)]
    return [[(c, spec.get(c, "")) for c in columns]]


def csv(prog, rep, name, m, spec):
    names = list(spec)
    fixed = ("ctor", 2) not in m
    lists = [[c] for c in names]
    # each pair of columns in both orders next to each other somewhere, and unknown ones
    lists.append(names)
    lists.append(names[::-1])
    for c in names:
        lists.append([c, c])
    for i, c in enumerate(names):
        lists.append(["no_such_column", c, names[(i * 3 + 1) % len(names)]])
    if fixed:
        lists = [names]
    first = m["execute"]
    loc = first.loc
    for cols in lists:
        unknown = "no_such_column" in cols
        rule = "column" if len(cols) == 1 else "order"
        label = "%s: %s" % (name, ",".join(cols) if len(cols) < 4 else "all columns" + (" (reversed)" if cols != names else ""))
        try:
            cl, eng, outs = start(prog, m, ",".join(cols))
            outs = [s2 for s in outs for s2 in emit(cl, eng, m, s, None)]
            if len(cols) == 1 and cols[0] == names[0] or fixed:
                second = [s2 for s in outs for s2 in emit(cl, eng, m, s, None)]
            else:
                second = None
        except Limit:
            rep.note("%s: too many paths" % label)
            continue
        rep.instance(rule, label)
        if fixed:
            for c in names:
                rep.instance("column", "%s: %s" % (name, c))
        for msg, fn, line in cl.viol:
            rep.violation("%s|%s|%s" % (rule, name, msg), "%s: %s" % (label, msg), "%s:%s" % (fn.file, line))
        if not outs:
            rep.violation("%s|%s|nothing" % (rule, label), "%s: no result is written" % label, loc)
        want = expected(name, spec, cols)
        for s in outs:
            rows = s.facts.get("rows", ())
            head = [norm(x).strip("'") for x in rows[0]] if rows else []
            if head != cols:
                rep.violation("header|%s|%s" % (name, ",".join(cols)), "%s: the header is %s" % (label, ",".join(head) or "missing"), loc)
                continue
            if len(rows) - 1 != len(want):
                rep.violation("%s|%s|rows" % (rule, label), "%s: %d rows are written for a result with %d" % (label, len(rows) - 1, len(want)), loc)
                continue
            for row, w in zip(rows[1:], want):
                if len(row) != len(w):
                    rep.violation("order|%s|%s" % (name, ",".join(cols) if unknown else "all"),
                                  "%s: a row has %d fields under a header of %d columns" % (label, len(row), len(w)), loc)
                    break
                for got, (c, x) in zip(row, w):
                    if x == "":
                        bad = None if norm(got) in ("''", "") else "is %s for an unknown column" % norm(got)
                    elif len(cols) == 2 and cols[0] == cols[1] and norm(got) not in ("", "''"):
                        continue    # asked for twice: the value must not be lost
                    else:
                        bad = field(s, got, x)
                    if bad:
                        rep.violation("column|%s|%s" % (name, c), "%s: column %s %s, not %s" % (name, c, bad, describe(x)), loc)
        if second is not None:
            rep.instance("header", name + ": two results")
            for s in second:
                rows = s.facts.get("rows", ())
                heads = sum(1 for r in rows if [norm(x).strip("'") for x in r] == cols)
                if heads != 1 or len(rows) != 1 + 2 * len(want):
                    rep.violation("header|%s|twice" % name, "%s: two results give %d header lines and %d rows" % (name, heads, len(rows) - heads), loc)
    cl, eng, outs = start(prog, m, ",".join(names), active=False)
    rep.instance("header", name + ": no file")
    for s in outs:
        for s2 in emit(cl, eng, m, s, None):
            if s2.facts.get("rows"):
                rep.violation("header|%s|inactive" % name, "%s: rows are written although the file cannot be written" % name, loc)


COUT = ("g:std::cout", "text")


def figures(v):
    """{label: value} of a printed line; a label is what stands between the previous comma or figure and the figure"""
    res = {}
    parts = v[1] if v[0] == "cat" else (v,)
    for a, b in zip(parts, parts[1:]):
        if a[0] == "c" and isinstance(a[1], str) and not (b[0] == "c" and isinstance(b[1], str)):
            res[a[1].rsplit(", ", 1)[-1].lstrip()] = b
    return res


def sums(v):
    """(sorted summands, divisor)"""
    if v[0] == "cat" and len(v[1]) == 1:
        return sums(v[1][0])
    if v[0] == "op" and v[1] == "/":
        return sums(v[2])[0], norm(v[3])
    if v[0] == "op" and v[1] == "+":
        return sums(v[2])[0] + sums(v[3])[0], None
    if v[0] == "c" and v[1] in (0, 0.0):
        return [], None
    return [norm(v)], None


def wrong(st, v, want, times):
    got, div = sums(v)
    mean = want[-1] == "/"
    w = []
    for x in [x for x in want if x != "/"] * times:
        if x.startswith("length("):
            d = decided(st, "has_" + x)
            if d is False:
                continue
        w.append(x)
    if sorted(got) != sorted(w):
        return "%s, not %s" % (" + ".join(got) or "nothing", " + ".join(w) or "nothing")
    if mean != (div is not None) or mean and times > 1 and div not in (str(times), "%d.0" % times):
        return "divided by %s" % div
    return None


def report(prog, rep, name, m):
    each, total, text = REPORTS[name]
    loc = m["execute"].loc
    for f in m.values():
        rep.fn(f)

    def begin(console, verbose):
        cl = Rows()
        eng = TextEngine(prog, cl)
        st = St()
        st.env[("val", COUT)] = ("c", "")
        return cl, eng, [s for k, s, v in eng.run(m[("ctor", 2)], args=[("c", console), ("c", verbose)], st=st) if k == RET]
    cl, eng, outs = begin(False, True)
    outs = [s2 for s in outs for s2 in emit(cl, eng, m, s, None)]
    seen = set()
    for s in outs:
        fig = figures(s.env[("val", COUT)])
        for label, want in each.items():
            if label in fig:
                seen.add(label)
                bad = wrong(s, fig[label], want, 1)
                if bad:
                    rep.violation("report|%s|%s" % (name, label), "%s: '%s' is followed by %s" % (name, label, bad), loc)
        if "' done in " in fig and decided(s, leaf("aborted")) or "' aborted after " in fig and decided(s, leaf("aborted")) is False:
            rep.violation("report|%s|aborted" % name, "%s: an aborted match is reported as done or the other way round" % name, loc)
    for l in seen:
        rep.instance("report", "%s: %s" % (name, l))
    two = []
    for s in outs:
        s = s.copy()
        two += emit(cl, eng, m, s, None)
    seen = set()
    if "~" in m:
        for s in two:
            s = s.copy()
            s.env[("val", COUT)] = ("c", "")
            for k, s2, v in eng.run(m["~"], args=[], st=s):
                if k != RET:
                    continue
                fig = figures(s2.env[("val", COUT)])
                for label, want in total.items():
                    if label in fig:
                        seen.add(label)
                        bad = wrong(s2, fig[label], want, 2)
                        if bad:
                            rep.violation("report|%s|total %s" % (name, label), "%s: after two results '%s' is followed by %s" % (name, label, bad), loc)
    for l in seen:
        rep.instance("report", "%s: total %s" % (name, l))
    for msg, fn, line in cl.viol:
        rep.violation("report|%s|%s" % (name, msg), "%s: %s" % (name, msg), "%s:%s" % (fn.file, line))
    cl, eng, outs = begin(True, False)
    outs = [s2 for s in outs for s2 in emit(cl, eng, m, s, None)]
    rep.instance("report", name + ": console")
    for s in outs:
        out = s.env[("val", COUT)]
        parts = [norm(p) for p in (out[1] if out[0] == "cat" else (out,))]
        if parts == ["''"] and any(v and isinstance(k, tuple) and k[0] == "cond" and norm(k[1]).startswith("empty(") for k, v in s.facts.items()):
            continue
        if text is not None and text not in parts:
            rep.violation("report|%s|console" % name, "%s: with console output %s is printed, not %s" % (name, " ".join(parts) or "nothing", text), loc)

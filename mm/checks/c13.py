"""C13: a network file arrives in the graph as it describes the network."""
import re

from ..flow import NEXT, RET, THROW, U, St, Limit
from .. import ir, shape
from ..text import is_string
from .c12 import Import, TrackEngine, World, strings, report, THIS

TUS = ["verif:networks.cpp", "library/src/io/importer.cpp"]

NET = "map_matching_2::io::network::"


class NetEngine(TrackEngine):
    def __init__(self, prog, client):
        super().__init__(prog, client)
        self.lam_bodies = 16

    def binop(self, op, a, b, lv=None):
        r = super().binop(op, a, b, lv)
        if r[0] == "c" and isinstance(r[1], int) and not isinstance(r[1], bool) and r[1] >= 2 ** 64:
            return ("c", r[1] - 2 ** 64)
        return r


shape.SEQS |= {"osmium::memory::Collection", "osmium::NodeRefList", "osmium::WayNodeList", "osmium::TagList", "verif::vertices"}


def systems(prog, rid):
    """the coordinate systems a reprojector is between"""
    for f in prog.by_rec.get(rid, []):
        m = re.findall(r"cs::(\w+)", f.q)
        if len(m) >= 2:
            return m[0], m[1]
    return None


class NetImport(Import):
    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.systems = {}

    def should_inline(self, eng, fn, c, n):
        return any(x in fn.file for x in ("io/network/", "io/importer", "geometry/algorithm/reproject", "network/node.hpp", "helper/osm_handler_helper",
                                          "storage/osm_handler_storage"))

    def alternative(self, eng, st, fr, lam, args, n):
        """the alternative of the reprojector that is visited"""
        w = self.w
        node, f0 = eng.lams[lam[1]]
        for b in node["bodies"]:
            t = (b["ps"] or [{}])[0].get("t") or {}
            rid = t.get("r")
            if rid not in self.systems:
                self.systems[rid] = systems(self.prog, rid)
            if self.systems[rid] == w.systems:
                keep = node["bodies"]
                node["bodies"] = [b]
                try:
                    return eng.call_lambda(lam, [("reprojector",)], st, n)
                finally:
                    node["bodies"] = keep
        return None

    def on_decl(self, eng, st, fr, var, val):
        super().on_decl(eng, st, fr, var, val)
        if var.get("bind") and val:
            v = self.value(eng, st, val)
            if v[0] == "tuple":
                for b, x in zip(var["bind"], v[1]):
                    d = st.env.get((fr.id, b["d"]))
                    if d and d[0] == "loc":
                        st.env[("val", d[1])] = x

    def tuples(self, eng, st, fr, n, c, name, rec, q, obj, args):
        if q == "std::make_tuple":
            return self.ok(st, ("tuple", tuple(self.value(eng, st, a) for a in args)))
        if q == "std::tie":
            return self.ok(st, ("tie", tuple(args)))
        if q == "std::make_pair" and len(args) == 2:
            s = st.copy()
            d = ("t:pair%d_%d.%d" % (n["l"], eng.uid(n), fr.id),)
            self.assign(eng, s, d + ("first",), args[0])
            self.assign(eng, s, d + ("second",), args[1])
            return self.ok(s, ("loc", d))
        if rec == "std::tuple" and n["k"] == "ctor" and obj is not None and obj[0] == "loc" and args:
            v = self.value(eng, st, args[0])
            if len(args) > 1 or v[0] != "tuple":
                v = ("tuple", tuple(self.value(eng, st, a) for a in args))
            s = st.copy()
            s.env[("val", obj[1])] = v
            return self.ok(s, obj)
        if name == "operator=" and rec == "std::tuple" and args:
            o, v = obj if obj[0] == "tie" else self.value(eng, st, obj), self.value(eng, st, args[0])
            if o[0] == "tie" and v[0] == "tuple":
                s = st.copy()
                for d, x in zip(o[1], v[1]):
                    s.env[("val", d[1])] = x
                return self.ok(s, obj)
            if obj[0] == "loc":
                return self.ok(self.put(eng, st, fr, obj, v, n), obj)
        if q == "std::get" and len(args) == 1:
            v = self.value(eng, st, args[0])
            i = (c.get("ta") or "").split(",")[0].strip()
            if v[0] == "tuple" and i.isdigit() and int(i) < len(v[1]):
                return self.ok(st, v[1][int(i)])
        return None

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        w = self.w
        if name == "visit" and len(args) == 2 and args[0][0] == "lam" and self.value(eng, st, args[1]) == ("in", ("reprojector",)):
            return self.alternative(eng, st, fr, args[0], args, n)
        if rec == "map_matching_2::geometry::point_reprojector":
            if name == "transform":
                return self.ok(st, ("c", w.transform))
            if name == "operator()" and args:
                return self.ok(st, ("fwd", self.value(eng, st, args[0])))
        if rec == "boost::geometry::model::point" or q.endswith("boost::geometry::get") or q == "boost::geometry::get":
            r = self.point(eng, st, fr, n, c, name, rec, obj, args)
            if r is not None:
                return r
        if n["k"] == "ctor" and obj is not None and obj[0] == "loc" and rec == "map_matching_2::geometry::linestring" and len(args) == 1 and args[0][0] == "agg":
            s = st.copy()
            s.facts[("seq", obj[1])] = ()
            for x in args[0][1]:
                self.add(eng, s, obj[1], [self.value(eng, s, x)], fr, n)
            return self.ok(s, obj)
        if name == "at" and len(args) == 1 and shape.is_seq(rec) and obj is not None:
            C, i = self.container(st, obj), self.value(eng, st, args[0])
            if C is not None and i[0] == "c" and isinstance(i[1], int) and not 0 <= i[1] < len(self.seq(st, C)):
                return [(THROW, st, ("exc", "range", n["l"]))]
        if n["k"] == "ctor" and obj is not None and obj[0] == "loc":
            last = rec.rsplit("::", 1)[-1]
            v = None
            if last in ("rich_line", "edge", "node") and rec.startswith("map_matching_2::geometry::"):
                if c.get("ctor") in ("copy", "move") and args:
                    if last == "node":
                        s = st.copy()
                        self.assign(eng, s, obj[1], args[0])
                        return self.ok(s, obj)
                    v = self.value(eng, st, args[0])
                elif last == "rich_line" and len(args) == 1:
                    v = self.value(eng, st, args[0])
                elif last == "edge" and len(args) == 2:
                    v = ("edge", self.value(eng, st, args[0]), self.value(eng, st, args[1]))
            if v is not None:
                s = st.copy()
                s.facts.pop(("seq", obj[1]), None)
                s.env[("val", obj[1])] = v
                return self.ok(s, obj)
        if rec == "verif::graph_sink" or rec == "verif::graph":
            return self.graph(eng, st, fr, n, name, args)
        if name == "read_wkt" and len(args) == 2:
            v = self.value(eng, st, args[0])
            if v[0] == "c" and args[1][0] == "loc":
                s = st.copy()
                s.facts[("seq", args[1][1])] = ()
                for xy in v[1][v[1].index("(") + 1:v[1].index(")")].split(","):
                    x, y = xy.split()
                    self.add(eng, s, args[1][1], [("pt", ("num", x), ("num", y))], fr, n)
                return self.ok(s, U)
        if q == "std::reverse" and len(args) == 2:
            a, b = (self.value(eng, st, x) for x in args)
            if a[0] == b[0] == "it" and a[1] == b[1]:
                Q = list(self.seq(st, a[1]))
                i = Q.index(a[2]) if a[2] in Q else len(Q)
                j = Q.index(b[2]) if b[2] in Q else len(Q)
                s = st.copy()
                s.facts[("seq", a[1])] = tuple(Q[:i] + Q[i:j][::-1] + Q[j:])
                return self.ok(s, U)
        r = self.tuples(eng, st, fr, n, c, name, rec, q, obj, args) or self.osm(eng, st, fr, n, c, name, rec, q, obj, args)
        if r is not None:
            return r
        return super().on_call(eng, st, fr, n, c, obj, args)

    def point(self, eng, st, fr, n, c, name, rec, obj, args):
        if n["k"] == "ctor" and obj is not None and obj[0] == "loc":
            v = ("pt",) + tuple(self.value(eng, st, a) for a in args)
            if c.get("ctor") in ("copy", "move") and args:
                v = self.value(eng, st, args[0])
            elif not args:
                v = ("pt", ("c", 0), ("c", 0))
            s = st.copy()
            s.env[("val", obj[1])] = v
            return self.ok(s, obj)
        if name == "operator=" and obj is not None and obj[0] == "loc" and args:
            return self.ok(self.put(eng, st, fr, obj, self.value(eng, st, args[0]), n), obj)
        if name == "get" and (args or obj is not None):
            v = self.value(eng, st, args[0] if args else obj)
            i = (c.get("ta") or "").split(",")[0].strip()
            if v[0] == "pt" and len(v) == 3 and i in ("0", "1"):
                return self.ok(st, v[1 + int(i)])
            return self.ok(st, ("comp", v, i))
        return None

    def node(self, eng, st, v):
        """(identifier, point) of a node"""
        if v[0] != "loc":
            return ("node?", v)
        i, p = (self.value(eng, st, ("loc", v[1] + (x,))) for x in ("id", "point"))
        return ("node", i, p)

    def graph(self, eng, st, fr, n, name, args):
        if name == "graph":
            return self.ok(st, ("loc", ("graph",)))
        if name == "get_vertex_descriptor_for_index" and args:
            return self.ok(st, self.value(eng, st, args[0]))
        if name == "get_vertex_data" and args:
            i = self.value(eng, st, args[0])
            got = st.facts.get("nodes", ())
            if i[0] == "vertex" and i[1] < len(got):
                return self.ok(st, ("loc", ("vertex %d" % i[1],)))
            self.bad("a vertex that does not exist is used", fr, n)
            return []
        s = st.copy()
        if name == "add_vertex_with_index_mapping":
            got = s.facts.get("nodes", ())
            v = self.node(eng, s, args[0])
            s.facts["nodes"] = got + (v,)
            s.env[("val", ("vertex %d" % len(got), "point"))] = v[2] if len(v) > 2 else U
            s.env[("val", ("vertex %d" % len(got), "id"))] = v[1]
            return self.ok(s, ("vertex", len(got)))
        if name == "add_edge":
            vs = tuple(self.value(eng, s, a) for a in args[:3]) + tuple(args[3:4])
            s.facts["arcs"] = s.facts.get("arcs", ()) + (vs,)
            return self.ok(s, U)
        return None

    # ----------------------------------------------------------------- osm
    def less(self, eng, st, n, cmp, a, b):
        """whether the vertex a is before b, by the comparison that is used"""
        if cmp is not None:
            outs = eng.call_lambda(cmp, [("loc", a), ("loc", b)], st, n)
        else:
            f = next((f for f in self.prog.fns.values() if f.n == "operator<" and f.has_body and "osm_handler_storage" in f.file), None)
            if f is None:
                return None
            outs = eng.run(f, args=[("loc", a), ("loc", b)], st=st)
        if len(outs) != 1 or outs[0][2][0] != "c":
            return None
        return bool(outs[0][2][1])

    def osm(self, eng, st, fr, n, c, name, rec, q, obj, args):
        w = self.w
        # filters of tags
        if rec == "osmium::TagsFilterBase" and obj is not None and obj[0] == "loc":
            s = st.copy()
            cur = s.env.get(("val", obj[1]), ("filter", False, ()))
            if n["k"] == "ctor":
                v = self.value(eng, s, args[0]) if args else ("c", False)
                s.env[("val", obj[1])] = v if v[0] == "filter" else ("filter", v[1], ()) if v[0] == "c" else U
                return self.ok(s, obj)
            if name == "operator=":
                s.env[("val", obj[1])] = self.value(eng, s, args[0])
                return self.ok(s, obj)
            if cur[0] != "filter":
                return None
            if name == "set_default_result":
                s.env[("val", obj[1])] = ("filter", self.value(eng, s, args[0])[1], cur[2])
                return self.ok(s, U)
            if name == "add_rule":
                r = tuple(self.value(eng, s, a) for a in args)
                if any(x[0] != "c" for x in r):
                    return None
                s.env[("val", obj[1])] = ("filter", cur[1], cur[2] + (tuple(x[1] for x in r),))
                return self.ok(s, obj)
            if name == "operator()":
                t = self.value(eng, s, args[0])
                if t[0] != "tag":
                    return None
                for r in cur[2]:
                    if r[1] == t[1] and (len(r) == 2 or r[2] == t[2]):
                        return self.ok(st, ("c", bool(r[0])))
                return self.ok(st, ("c", bool(cur[1])))
            if name in ("empty", "count"):
                return self.ok(st, ("c", not cur[2] if name == "empty" else len(cur[2])))
        # reading
        if rec == "osmium::io::File" and n["k"] == "ctor" and args:
            return self.ok(self.put(eng, st, fr, obj, self.value(eng, st, args[0]), n), obj)
        if "operator|" in q and len(args) == 2 and q.startswith("osmium::"):
            a, b = (self.value(eng, st, x) for x in args)
            return self.ok(st, ("c", a[1] | b[1])) if a[0] == b[0] == "c" else None
        if rec == "osmium::io::Reader" and n["k"] == "ctor" and args:
            bits = [v for v in (self.value(eng, st, a) for a in args[1:]) if v[0] == "c" and isinstance(v[1], int)]
            v = ("reader", self.value(eng, st, args[0]), bits[0][1] if bits else 255 if len(args) == 1 else None)
            return self.ok(self.put(eng, st, fr, obj, v, n), obj)
        if q == "osmium::apply" and len(args) == 2:
            r = self.value(eng, st, args[0])
            if r[0] != "reader" or r[1][0] != "c" or r[2] is None:
                return None
            if self.value(eng, st, args[1])[1:] != (("handler",),):
                self.bad("the file is not read with the handler of the network", fr, n)
                return []
            cur, res = [st], []
            for x in w.lines[r[1][1]]:
                kind = "node" if x.startswith("node") else "way"
                if not r[2] & (1 if kind == "node" else 2):
                    continue
                f = next((f for f in self.prog.by_rec[w.handler] if f.n == kind and f.has_body), None)
                nxt = []
                for s in cur:
                    for k, s2, v in eng.enter(f, eng.new_frame(f, args[1], fr.depth + 1), [("loc", (x,))], s):
                        if k == THROW:
                            res.append((k, s2, v))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(NEXT, s, U) for s in cur]
        # the objects of a file
        if rec == "osmium::NodeRef" and obj is not None and obj[0] == "it" and obj[2] != "end":
            obj = ("loc", (obj[2],))
        if rec.startswith("osmium::") and obj is not None and obj[0] == "loc" and n["k"] != "ctor":
            e = w.entities.get(obj[1][0])
            if e:
                if name == "visible":
                    return self.ok(st, ("c", e.get("visible", True)))
                if name == "deleted":
                    return self.ok(st, ("c", not e.get("visible", True)))
                if name in ("id", "positive_id"):
                    return self.ok(st, ("c", e["id"]))
                if name == "location":
                    return self.ok(st, ("place", e["at"]))
                if name == "tags":
                    return self.ok(st, ("loc", ("tags of " + obj[1][0],)))
                if name == "nodes":
                    return self.ok(st, ("loc", ("nodes of " + obj[1][0],)))
            if name in ("ref", "positive_ref"):
                return self.ok(st, self.value(eng, st, obj))
            v = self.value(eng, st, obj)
            if v[0] == "place" and name in ("lon", "lat", "lon_without_check", "lat_without_check"):
                return self.ok(st, ("num", v[1][0 if "lon" in name else 1]))
            if v[0] == "tag" and name in ("key", "value"):
                return self.ok(st, ("c", v[1 if name == "key" else 2]))
        if obj is not None and obj[0] == "place" and name in ("lon", "lat", "lon_without_check", "lat_without_check"):
            return self.ok(st, ("num", obj[1][0 if "lon" in name else 1]))
        if name == "set_node_tags" and len(args) == 2:
            s = st.copy()
            s.facts["node tags"] = s.facts.get("node tags", ()) + ((self.value(eng, s, args[0]), tags(args[1])),)
            return self.ok(s, U)
        # the vertices that were read
        V = ("osm vertices",)
        if name == "vertices" and "osm_handler" in rec:
            return self.ok(st, ("loc", V))
        if name == "tag_helper":
            return self.ok(st, ("loc", ("tag helper",)))
        if name in ("emplace_back", "push_back") and obj is not None and self.container(st, obj) == V and args:
            s = st.copy()
            e = self.new_name(s, V)
            if len(args) > 1 or args[0][0] != "loc":
                f = next((f for f in self.prog.fns.values() if "inits" in f.j and f.has_body and f.q.split("<")[0].endswith("storage::osm_vertex")
                          and len(f.j.get("ps") or ()) == len(args)), None)
                if f is None:
                    return None
                s.facts[("seq", V)] = self.seq(s, V) + (e,)
                return [(NEXT if k == RET else k, s2, ("loc", (e,))) for k, s2, v in eng.enter(f, eng.new_frame(f, ("loc", (e,)), fr.depth + 1), args, s)]
            self.assign(eng, s, (e,), args[0])
            s.facts[("seq", V)] = self.seq(s, V) + (e,)
            return self.ok(s, ("loc", (e,)))
        if q in ("std::sort", "std::stable_sort", "std::binary_search", "std::lower_bound", "std::upper_bound", "std::is_sorted") and len(args) >= 2:
            a, b = (self.value(eng, st, x) for x in args[:2])
            if a[0] == b[0] == "it" and a[1] == b[1] == V:
                k = 2 if "sort" in q else 3
                cmp = self.value(eng, st, args[k]) if len(args) > k else None
                if cmp is not None and cmp[0] != "lam":
                    return None
                Q = list(self.seq(st, V))
                i = Q.index(a[2]) if a[2] in Q else len(Q)
                j = Q.index(b[2]) if b[2] in Q else len(Q)
                part = Q[i:j]
                lt = lambda x, y: self.less(eng, st, n, cmp, x, y)
                if k == 2 and q != "std::is_sorted":
                    import functools
                    part.sort(key=functools.cmp_to_key(lambda x, y: -1 if lt((x,), (y,)) else 1 if lt((y,), (x,)) else 0))
                    s = st.copy()
                    s.facts[("seq", V)] = tuple(Q[:i] + part + Q[j:])
                    return self.ok(s, U)
                good = not any(lt((y,), (x,)) for x, y in zip(part, part[1:]))
                if q == "std::is_sorted":
                    return self.ok(st, ("c", good))
                if not good:
                    self.bad("nodes are searched by halving though they are not in order", fr, n)
                    return []
                x = args[2][1] if args[2][0] == "loc" else None
                if x is None:
                    return None
                before = [y for y in part if lt((y,), x)]
                if q == "std::upper_bound":
                    before = [y for y in part if not lt(x, (y,))]
                if q == "std::binary_search":
                    return self.ok(st, ("c", len(before) < len(part) and not lt(x, (part[len(before)],))))
                return self.ok(st, ("it", V, part[len(before)] if len(before) < len(part) else (Q[j] if j < len(Q) else "end")))
        return None


def network(prog, s):
    """(nodes, edges) that arrived, nodes by their identifier"""
    ids = []
    nodes, edges = [], []
    for v in s.facts.get("nodes", ()):
        i = v[1][1] if len(v) > 2 and v[1][0] == "c" else repr(v[1])
        ids.append(i)
        nodes.append((i, show(v[2]) if len(v) > 2 else "?"))
    for v in s.facts.get("arcs", ()):
        a, b, e = v[:3]
        ends = tuple(ids[x[1]] if x[0] == "vertex" and x[1] < len(ids) else "?" for x in (a, b))
        edges.append(ends + ((e[1][1] if e[1][0] == "c" else repr(e[1])) if e[0] == "edge" else "?",
                             " ".join(show(p) for p in e[2][1]) if e[0] == "edge" and e[2][0] == "line" else repr(e)) + ((tags(v[3]),) if len(v) > 3 else ()))
    return sorted(nodes, key=str), sorted(edges, key=str)


def tags(v):
    return v[1][0].removeprefix("tags of ") if v[0] == "loc" else repr(v)


def show(p):
    if p[0] == "fwd":
        return "T(%s)" % show(p[1])
    if p[0] == "pt" and len(p) == 3:
        return "/".join(str(x[1]) if x[0] in ("num", "c") else repr(x) for x in p[1:])
    return repr(p)


MODES = [(("geographic", "cartesian"), True), (("cartesian", "cartesian"), False), (("cartesian", "cartesian"), True), (("spherical_equatorial", "cartesian"), True)]

T = lambda p, t: "T(%s)" % p if t else p


def importer(prog, q):
    from .c12 import ctor
    return ctor(prog, q)


def files(prog, rep):
    rep.rule("files", "each node of the files becomes one vertex with its identifier and point, each edge one edge between the vertices of its nodes with its "
             "points in its direction, and a second one against it if it can be travelled both ways; each coordinate is transformed once if a transformation is asked for")
    def scenarios(t):
        P = lambda p: T(p, t)
        L = lambda *ps: " ".join(P(p) for p in ps)
        nodes = lambda **kw: [(int(k[1:]), P(v)) for k, v in kw.items()]
        return [
            ("arc_node", "nodes and arcs", ["n", "a"], {"n": ["1.5 2.5", "3.5,4.5", "5.5;6.5"], "a": ["0 1", "1|2", "2 0"]},
             [(0, P("1.5/2.5")), (1, P("3.5/4.5")), (2, P("5.5/6.5"))],
             [(0, 1, 0, L("1.5/2.5", "3.5/4.5")), (1, 2, 1, L("3.5/4.5", "5.5/6.5")), (2, 0, 2, L("5.5/6.5", "1.5/2.5"))]),
            ("arc_node", "two networks", ["n", "a", "m", "b"], {"n": ["1 2", "3 4"], "a": ["0 1"], "m": ["5 6", "7 8"], "b": ["1 0"]},
             [(0, P("1/2")), (1, P("3/4")), (0, P("5/6")), (1, P("7/8"))], [(0, 1, 0, L("1/2", "3/4")), (1, 0, 0, L("7/8", "5/6"))]),
            ("arc_node", "an arc to no node", ["n", "a"], {"n": ["1 2"], "a": ["0 1"]}, None, None),
            ("arc_node", "a missing file", ["n", "x"], {"n": ["1 2"]}, None, None),
            ("arc_node", "no arcs", ["n", "a"], {"n": ["1 2"], "a": []}, [(0, P("1/2"))], []),
            ("giscup", "nodes, edges, points", ["n", "e", "g"],
             {"n": ["11 2.5 1.5", "12 4.5 3.5", "13 6.5 5.5"], "e": ["7 11 12", "8 12 13"],
              "g": ["7^name^type^2^2.5^1.5^9.5^8.5^4.5^3.5", "8^^^2^4.5^3.5^6.5^5.5"]},
             nodes(n11="1.5/2.5", n12="3.5/4.5", n13="5.5/6.5"), [(11, 12, 7, L("1.5/2.5", "8.5/9.5", "3.5/4.5")), (12, 13, 8, L("3.5/4.5", "5.5/6.5"))]),
            ("giscup", "points in another order", ["n", "e", "g"],
             {"n": ["11 2 1", "12 4 3"], "e": ["7 11 12", "8 12 11"], "g": ["8^^^2^4^3^2^1", "7^^^2^2^1^4^3"]},
             nodes(n11="1/2", n12="3/4"), [(11, 12, 7, L("1/2", "3/4")), (12, 11, 8, L("3/4", "1/2"))]),
            ("giscup", "points of no edge", ["n", "e", "g"], {"n": ["11 2 1"], "e": [], "g": ["7^^^2^2^1^4^3"]}, None, None),
            ("giscup", "a missing file", ["n", "e", "x"], {"n": [], "e": []}, None, None),
            ("melbourne", "vertices, edges", ["v", "e", "s"], {"v": ["head", "21 x 1.5 2.5", "22 x 3.5 4.5"], "e": ["head", "head", "5 21 22", "6 22 21", "9 21 21"], "s": []},
             nodes(n21="1.5/2.5", n22="3.5/4.5"), [(21, 22, 5, L("1.5/2.5", "3.5/4.5")), (22, 21, 6, L("3.5/4.5", "1.5/2.5")), (21, 21, 9, L("1.5/2.5", "1.5/2.5"))]),
            ("melbourne", "an edge to no vertex", ["v", "e", "s"], {"v": ["head", "21 x 1 2"], "e": ["head", "head", "5 21 22"], "s": []}, None, None),
            ("melbourne", "a missing file", ["v", "e", "x"], {"v": ["head"], "e": ["head", "head"]}, None, None),
            ("seattle", "one way, two ways", ["f"],
             {"f": ["head", "1\t31\t32\t0\tz\tz\tLINESTRING(1 2, 9 8, 3 4)", "2\t32\t33\t1\tz\tz\t LINESTRING(3 4, 7 6, 5 6) ", "3\t33\t33\t0\tz\tz\tLINESTRING(5 6, 0 0, 5 6)"]},
             nodes(n31="1/2", n32="3/4", n33="5/6"),
             [(31, 32, 1, L("1/2", "9/8", "3/4")), (32, 33, 2, L("3/4", "7/6", "5/6")), (33, 32, 2, L("5/6", "7/6", "3/4")), (33, 33, 3, L("5/6", "0/0", "5/6"))]),
            ("seattle", "two files", ["f", "g"], {"f": ["head", "1\t31\t32\t0\tz\tz\tLINESTRING(1 2, 3 4)"], "g": ["head", "2\t33\t31\t0\tz\tz\tLINESTRING(5 6, 1 2)"]},
             nodes(n31="1/2", n32="3/4", n33="5/6"), [(31, 32, 1, L("1/2", "3/4")), (33, 31, 2, L("5/6", "1/2"))]),
            ("seattle", "a missing file", ["x"], {}, None, None)]
    for systems_, transform in MODES:
        for kind, name, names, lines, nodes, edges in scenarios(transform):
            rid, c, m = importer(prog, NET + kind + "_importer")
            if not c or "read" not in m:
                continue
            w = World(files={f: 1 for f in lines}, lines=lines, names=names)
            w.rid, w.systems, w.transform = rid, systems_, transform
            st = St()
            strings(st, ("names",), names)
            cl = NetImport(prog, w)
            eng = NetEngine(prog, cl)
            name = "%s, %s (%s to %s%s)" % (kind, name, systems_[0], systems_[1], "" if transform else ", unchanged")
            outs = []
            for k, s, v in eng.run(c, args=[("loc", (x,)) for x in ("names", "graph", "reprojector")], st=st):
                if k == RET:
                    outs += eng.run(m["read"], st=s)
            rep.instance("files", name)
            judge(rep, "files", prog, cl, outs, name, nodes, edges, m["read"])
            report(rep, "files", cl, name)
    rep.floor("files", 30)


def osm_scenarios(t):
    """(name, file names, files, entities, rules, nodes, edges): node k is at k.5/k.25"""
    P = lambda k: T("%d.5/%d.25" % (k, k), t)
    E = lambda way, a, b: (a, b, way, P(a) + " " + P(b), "way %d" % way)
    N = lambda *ks: [(k, P(k)) for k in ks]
    def node(*ks, **kw):
        return {"node %d" % k: dict(id=k, at=("%d.5" % k, "%d.25" % k), **kw) for k in ks}
    def way(k, *refs, **tg):
        return {"way %d" % k: {"id": k, "refs": refs, "visible": tg.pop("visible", True), "tags": [(a.rstrip("_"), b) for a, b in tg.items()]}}
    def both(k, *refs):
        return [E(k, a, b) for x, y in zip(refs, refs[1:]) for a, b in ((x, y), (y, x))]
    def fwd(k, *refs):
        return [E(k, a, b) for a, b in zip(refs, refs[1:])]
    def bwd(k, *refs):
        return [E(k, b, a) for a, b in zip(refs, refs[1:])]
    res = []
    def case(name, *parts, nodes=(), edges=(), rules=None, missing=False):
        ents, files = {}, {}
        for i, p in enumerate(parts):
            order = []
            for x in p:
                ents.update(x)
                order += list(x)
            files["f%d" % i] = order
        names = list(files) + (["gone"] if missing else [])
        res.append((name, names, files, ents, rules, N(*nodes) if nodes is not None else None, edges))
    n3 = [node(1, 2, 3)]
    road = dict(highway="residential")
    case("a road", n3 + [way(7, 1, 2, 3, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2, 3))
    case("nodes in no order", [node(3), node(1), node(4), node(2), way(7, 1, 2, 3, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2, 3))
    case("nodes in falling order", [node(3), node(2), node(1), way(7, 1, 2, 3, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2, 3))
    case("roads that meet", n3 + [way(7, 1, 2, **road), way(8, 3, 2, 1, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2) + both(8, 3, 2, 1))
    case("a node at the end only", n3 + [way(7, 1, 3, **road)], nodes=(1, 3), edges=both(7, 1, 3))
    case("a node that is missing", n3 + [way(7, 1, 9, 2, 3, **road)], nodes=(1, 2, 3), edges=both(7, 2, 3))
    case("a node that is missing at the end", n3 + [way(7, 1, 2, 9, **road)], nodes=(1, 2), edges=both(7, 1, 2))
    case("a node that is missing between others", [node(1, 3, 4), way(7, 1, 2, 3, 4, **road)], nodes=(1, 3, 4), edges=both(7, 3, 4))
    case("no nodes", n3 + [way(7, **road), way(8, 1, 2, **road)], nodes=(1, 2), edges=both(8, 1, 2))
    case("one node", n3 + [way(7, 1, **road)], nodes=(1,), edges=[])
    case("a ring", n3 + [way(7, 1, 2, 3, 1, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2, 3, 1))
    case("deleted nodes and ways", [node(1, 2), node(3, visible=False), way(7, 1, 2, 3, **road), way(8, 1, 2, visible=False, **road)], nodes=(1, 2), edges=both(7, 1, 2))
    case("nodes twice", [node(1, 2), node(1, 2), way(7, 1, 2, **road)], nodes=(1, 2), edges=both(7, 1, 2))
    case("two files", [node(1, 2), way(7, 1, 2, **road)], [node(1, 3), way(8, 1, 3, 2, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2) + both(8, 1, 3, 2))
    case("two files in no order", [node(2, 4), way(7, 4, 2, **road)], [node(3, 1), way(8, 1, 3, 2, **road)], nodes=(1, 2, 3, 4), edges=both(7, 4, 2) + both(8, 1, 3, 2))
    case("a missing file", n3, missing=True, nodes=None, edges=None)
    case("no roads", n3 + [way(7, 1, 2, waterway="river"), way(8, 2, 3)], nodes=(), edges=[])
    for k in ("footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform"):
        case("a way that is no road for cars", n3 + [way(7, 1, 2, highway=k), way(8, 2, 3, name="x", highway="service", surface="y")], nodes=(2, 3), edges=both(8, 2, 3))
    case("a road for bicycles too", n3 + [way(7, 1, 2, cycleway="track", highway="primary")], nodes=(1, 2), edges=both(7, 1, 2))
    for tg in ({"oneway": "yes"}, {"oneway": "true"}, {"oneway": "1"}, {"junction": "roundabout"}):
        case("a oneway", n3 + [way(7, 1, 2, 3, **dict(road, **tg))], nodes=(1, 2, 3), edges=fwd(7, 1, 2, 3))
        case("a oneway", n3 + [way(7, 1, 2, 3, **dict(tg, **road))], nodes=(1, 2, 3), edges=fwd(7, 1, 2, 3))
    case("a motorway", n3 + [way(7, 1, 2, 3, highway="motorway", ref="A 1")], nodes=(1, 2, 3), edges=fwd(7, 1, 2, 3))
    for v in ("no", "false", "0", "alternating"):
        case("no oneway", n3 + [way(7, 1, 2, 3, oneway=v, **road)], nodes=(1, 2, 3), edges=both(7, 1, 2, 3))
    for v in ("-1", "reverse"):
        case("a oneway against the way", n3 + [way(7, 1, 2, 3, oneway=v, **road)], nodes=(1, 2, 3), edges=bwd(7, 1, 2, 3))
        case("a oneway against the way", n3 + [way(7, 1, 2, 3, **dict(road, oneway=v))], nodes=(1, 2, 3), edges=bwd(7, 1, 2, 3))
    # rules of the user: query, filter, oneway, oneway reverse
    everything = ("true", "true", "false", "false")
    case("rules: everything", n3 + [way(7, 1, 2, railway="rail"), way(8, 2, 3)], rules=everything, nodes=(1, 2), edges=both(7, 1, 2))
    case("rules: only one tag", n3 + [way(7, 1, 2, railway="rail"), way(8, 2, 3, **road)], rules=("false|true,railway",) + everything[1:], nodes=(1, 2), edges=both(7, 1, 2))
    case("rules: the first counts", n3 + [way(7, 1, 2, highway="construction"), way(8, 2, 3, **road)], rules=("false|false,highway=construction|true,highway",) + everything[1:],
         nodes=(2, 3), edges=both(8, 2, 3))
    case("rules: the first counts", n3 + [way(7, 1, 2, highway="construction"), way(8, 2, 3, **road)], rules=("false|true,highway|false,highway=construction",) + everything[1:],
         nodes=(1, 2, 3), edges=both(7, 1, 2) + both(8, 2, 3))
    case("rules: a value", n3 + [way(7, 1, 2, highway="service"), way(8, 2, 3, **road)], rules=("false|true,highway=residential",) + everything[1:], nodes=(2, 3), edges=both(8, 2, 3))
    case("rules: filtered", n3 + [way(7, 1, 2, access="no", **road), way(8, 2, 3, access="yes", **road)], rules=("false|true,highway", "true|false,access=no|false,access=private") + everything[2:],
         nodes=(2, 3), edges=both(8, 2, 3))
    case("rules: filtered", n3 + [way(7, 1, 2, **dict(road, access="private")), way(8, 2, 3, **road)], rules=("true", "true|false,access=no|false,access=private") + everything[2:],
         nodes=(2, 3), edges=both(8, 2, 3))
    case("rules: oneways", n3 + [way(7, 1, 2, oneway="yes"), way(8, 2, 3, oneway="-1"), way(9, 1, 3, oneway="no")],
         rules=("true", "true", "false|true,oneway=yes", "false|true,oneway=-1"), nodes=(1, 2, 3), edges=fwd(7, 1, 2) + bwd(8, 2, 3) + both(9, 1, 3))
    case("rules: oneways against the way are oneways", n3 + [way(7, 1, 2, oneway="-1", **road)],
         rules=("true", "true", "false|true,oneway=-1", "false|true,oneway=-1"), nodes=(1, 2), edges=bwd(7, 1, 2))
    return res


def osm(prog, rep):
    rep.rule("osm", "each way that the rules keep becomes, between each two of its nodes that are in the files, an edge in the direction that the rules say, with the tags and "
             "identifier of the way, or one in each direction; each node that is used becomes one vertex with its place and tags")
    from .c12 import ctor
    hrid, hc, hm = ctor(prog, NET + "osm_handler")
    if not hc or not {"node", "way"} <= set(hm):
        return
    for systems_, transform in MODES[:1]:
        for name, names, files_, ents, rules, nodes, edges in osm_scenarios(transform):
            rid, c, m = importer(prog, NET + ("osm_manual_importer" if rules else "osm_car_importer"))
            c = next((f for f in prog.by_rec.get(rid, []) if f.has_body and "inits" in f.j and "vector" in repr((f.j.get("ps") or [0])[0])), None)
            rrid, rc, rm = ctor(prog, NET + "osm_importer")
            if not c or "read" not in rm:
                continue
            w = World(files={f: 1 for f in files_}, lines=files_, names=names)
            w.rid, w.handler, w.systems, w.transform, w.entities = rid, hrid, systems_, transform, ents
            st = St()
            st.facts[("seq", ("osm vertices",))] = ()
            for x, e in ents.items():
                for what, vs in (("tags", [("tag",) + y for y in e.get("tags", ())]), ("nodes", [("c", r) for r in e.get("refs", ())])):
                    C = ("%s of %s" % (what, x),)
                    st.facts[("seq", C)] = tuple("%s %d" % (C[0], i) for i in range(len(vs)))
                    for i, v in enumerate(vs):
                        st.env[("val", ("%s %d" % (C[0], i),))] = v
            strings(st, ("names",), names)
            cl = NetImport(prog, w)
            eng = NetEngine(prog, cl)
            name = "osm, %s (%s to %s%s)" % (name, systems_[0], systems_[1], "" if transform else ", unchanged")
            outs = []
            args = [("loc", ("names",)), ("loc", ("handler",))] + [("c", r) for r in rules or ()]
            for k, s, v in eng.run(c, args=args, st=st):
                if k != RET:
                    continue
                # the handler, where the importer refers to it
                for k, s, v in eng.run(hc, this=("loc", THIS + ("_osm_handler",)), args=[("loc", (x,)) for x in ("graph", "reprojector", "helper")], st=s):
                    if k == RET:
                        outs += eng.run(rm["read"], st=s)
            rep.instance("osm", name)
            judge(rep, "osm", prog, cl, outs, name, nodes, edges, hm["way"], ents)
            report(rep, "osm", cl, name)
    rep.floor("osm", 25)


def judge(rep, rule, prog, cl, outs, name, nodes, edges, f, entities=None):
    fails = [o for o in outs if o[0] == THROW]
    ends = [o for o in outs if o[0] != THROW]
    if nodes is None:
        if ends:
            cl.viol.append(("%s: this is not reported" % name, f, 0))
        return
    if fails and not ends or not outs:
        cl.viol.append(("%s: the import fails" % name, f, 0))
        return
    for k, s, v in ends:
        gn, ge = network(prog, s)
        for what, got, want in (("nodes", gn, sorted(nodes, key=str)), ("edges", ge, sorted(edges, key=str))):
            if got != want:
                cl.viol.append(("%s: instead of the %s %s there are %s" % (name, what, want, got), f, 0))
                return
        if entities is not None:
            kept = s.facts.get("node tags", ())
            for i, _ in gn:
                if (("c", i), "node %d" % i) not in kept:
                    cl.viol.append(("%s: the tags of node %d are not kept" % (name, i), f, 0))
                    return
            if any(t != "node %s" % i[1] for i, t in kept):
                cl.viol.append(("%s: a node gets the tags of another" % name, f, 0))
                return


def run(prog, rep):
    files(prog, rep)
    osm(prog, rep)

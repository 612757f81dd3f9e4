"""C09: the compressed sparse row graph is the adjacency list it was made from."""
import itertools
from ..flow import NEXT, RET, THROW, U, St, Limit
from ..shape import Shape, ShapeEngine
from .c08 import kinds

TUS = ["verif:graph.cpp"]

A = ("p:adjacency_list",)
AV, AE = A + ("vertices",), A + ("edges",)
R = ("this",)
RV, RE = R + ("vertices",), R + ("edges",)
VS = ("V:0", "V:1", "V:2")

# out edges per vertex: (source, target) of each, in order
CASES = [
    [[], [], []],
    [[(0, 1), (0, 2)], [], [(2, 0)]],
    [[], [(1, 1)], []],
    [[(0, 0)], [(1, 2), (1, 0)], []],
    [[], [], [(2, 1), (2, 2)]],
    [[(0, 2)], [(1, 2)], [(2, 0), (2, 1)]],
]


class Row(Shape):
    def new_name(self, st, C):
        i = st.facts.get(("count", C), 0)
        st.facts[("count", C)] = i + 1
        return "%s%d" % ("RV:" if C == RV else "RE:" if C == RE else "n:%s:" % ".".join(C), i)

    def on_call(self, eng, st, fr, n, c, obj, args):
        if c["q"].endswith("__assert_fail"):
            self.bad("an assertion about the graphs does not hold", fr, n)
            return []
        return super().on_call(eng, st, fr, n, c, obj, args)

    def may_throw(self, eng, st, fr, n, c):
        return False


def build(kind, lists, case):
    st = St()
    f, e = st.facts, st.env
    edges = []
    outs = {v: [] for v in VS}
    for i, l in enumerate(case):
        for j, (a, b) in enumerate(l):
            x = "E:%d.%d" % (i, j)
            edges.append((x, a, b))
            outs[VS[a]].append((x, a, b))
    if kind == "undirected":
        # the other end records the edge as well, before or after its own edges
        for k, (x, a, b) in enumerate(edges):
            if a != b:
                outs[VS[b]].insert(0 if k % 2 else len(outs[VS[b]]), (x, a, b))
    names = [x for x, _, _ in edges]

    def vd(i):
        return ("it", AV, VS[i]) if lists else ("c", i)

    def ed(x):
        return ("it", AE, x) if lists else ("c", names.index(x))
    f[("seq", AV)], f[("seq", AE)] = VS, tuple(names)
    f[("seq", RV)], f[("seq", RE)] = (), ()
    for i, v in enumerate(VS):
        e[("val", (v, "index"))] = ("c", i)
        e[("val", (v, "data"))] = ("in", (v, "data"))
        items = []
        for x, a, b in outs[v]:
            n = "n:%s:%s" % (v, x)
            e[("val", (n,))] = ed(x)
            items.append(n)
        f[("seq", (v, "out_edges"))] = tuple(items)
        if kind == "bidirectional":
            ins = []
            for x, a, b in edges:
                if b == i:
                    n = "m:%s:%s" % (v, x)
                    e[("val", (n,))] = ed(x)
                    ins.append(n)
            f[("seq", (v, "in_edges"))] = tuple(ins)
    for i, (x, a, b) in enumerate(edges):
        e[("val", (x, "source"))], e[("val", (x, "target"))] = vd(a), vd(b)
        e[("val", (x, "index"))] = ("c", i)
        e[("val", (x, "data"))] = ("in", (x, "data"))
    want = []
    start = []
    for i, v in enumerate(VS):
        start.append(len(want))
        want += [(x, a, b) for x, a, b in outs[v] if a == i]
    return st, start, want


def run(prog, rep):
    rep.rule("convert", "every vertex of the adjacency list becomes the vertex of its index and every edge becomes one edge with the same "
                        "endpoints and data, at the vertex from which it starts, in order; a vertex starts where the edges before it end")
    rep.rule("view", "the outgoing edges of a vertex are those from its start up to the start of the next vertex, or the end")
    ks = {r: (kind, lists, payload) for r, kind, lists, payload, fns in kinds(prog)}
    n = 0
    for f in sorted((f for f in prog.fns.values() if f.has_body and f.n == "from_adjacency_list" and f.file.endswith("compressed_sparse_row.hpp")),
                    key=lambda f: str(f.id)):
        if len(f["ps"]) != 1:
            continue
        a = f["ps"][0]["t"]
        while a.get("k") != "o" and isinstance(a.get("p"), dict):
            a = a["p"]
        if a.get("r") not in ks:
            continue
        kind, lists, payload = ks[a["r"]]
        n += 1
        for ci, case in enumerate(CASES):
            what = "conversion of %s %s%s" % ("an undirected" if kind[0] == "u" else "a " + kind, "list graph" if lists else "vector graph", " with data" if payload else "")
            convert(prog, rep, f, kind, lists, payload, case, what)
    rep.floor("convert", 3)
    views(prog, rep)
    rep.floor("view", 2)


def convert(prog, rep, f, kind, lists, payload, case, what):
    st, start, want = build(kind, lists, case)
    cl = Row()
    eng = ShapeEngine(prog, cl)
    eng.max_steps = 2000000
    try:
        outs = eng.run(f, this=("loc", R), args=[("loc", A)], st=st)
    except Limit as e:
        rep.note("%s: %s" % (what, e))
        return
    rep.fn(f)
    for l in eng.inlined:
        if "graph/" in l:
            rep.analysed.add(l)
    rep.instance("convert", what)
    for msg, fn, line in cl.viol:
        rep.violation("convert:%s" % msg.replace(" ", "-"), "%s: %s" % (what, msg), "%s:%s" % (fn.file, line))
    if not any(k == RET for k, s, v in outs):
        if not cl.viol:
            rep.violation("convert:never", "%s: never completes" % what, f.loc)
    for k, s, v in outs:
        if k == THROW:
            continue
        rv, re_ = s.facts[("seq", RV)], s.facts[("seq", RE)]
        if len(rv) != len(VS):
            rep.violation("convert:vertices", "%s: %d vertices become %d" % (what, len(VS), len(rv)), f.loc)
            continue
        for i, r in enumerate(rv):
            if s.env.get(("val", (r, "start"))) != ("c", start[i]):
                rep.violation("convert:start", "%s: the edges of a vertex do not start where the edges of the vertices before it end" % what, f.loc)
            if payload and not data_of(s, r, VS[i]):
                rep.violation("convert:vertex-data", "%s: a vertex does not get the data of the vertex with its index" % what, f.loc)
        got = [(s.env.get(("val", (r, "source"))), s.env.get(("val", (r, "target")))) for r in re_]
        exp = [(("c", a), ("c", b)) for x, a, b in want]
        if len(got) != len(exp):
            rep.violation("convert:edges:%s" % ("lost" if len(got) < len(exp) else "extra"), "%s: %d edges become %d" % (what, len(exp), len(got)), f.loc)
            continue
        if got != exp:
            rep.violation("convert:endpoints", "%s: an edge gets other endpoints or another position" % what, f.loc)
        if payload:
            for r, (x, a, b) in zip(re_, want):
                if not data_of(s, r, x):
                    rep.violation("convert:edge-data", "%s: an edge does not get the data of its edge" % what, f.loc)


def data_of(s, r, src):
    vals = [v for k, v in s.env.items() if k[0] == "val" and k[1][:2] == (r, "data")]
    return any(repr((src, "data"))[1:-1].rstrip(",") in repr(v) for v in vals)


def views(prog, rep):
    """out edges of vertex i of the row: [start(i), start(i + 1)) or [start(i), edges)"""
    for f in sorted((f for f in prog.fns.values() if f.has_body and f.n in ("out_edges_view", "out_degree") and f.file.endswith("compressed_sparse_row.hpp")),
                    key=lambda f: str(f.id)):
        what = "%s%s of the compressed sparse row" % (f.n, " const" if f.get("const") else "")
        for starts, ne in (((0, 2, 2), 3), ((0, 0, 1), 1), ((0, 0, 0), 0), ((0, 1, 3), 4)):
            for i in range(3):
                st = St()
                names = tuple("RV:%d" % j for j in range(3))
                st.facts[("seq", RV)] = names
                st.facts[("seq", RE)] = tuple("RE:%d" % j for j in range(ne))
                for j, v in enumerate(names):
                    st.env[("val", (v, "start"))] = ("c", starts[j])
                end = starts[i + 1] if i + 1 < 3 else ne
                cl = Row()
                eng = ShapeEngine(prog, cl)
                try:
                    outs = eng.run(f, this=("loc", R), args=[("c", i)], st=st)
                except Limit as e:
                    rep.note("%s: %s" % (what, e))
                    continue
                rep.fn(f)
                rep.instance("view", what)
                for msg, fn, line in cl.viol:
                    rep.violation("view:%s" % msg.replace(" ", "-"), "%s: %s" % (what, msg), "%s:%s" % (fn.file, line))
                for k, s, v in outs:
                    if k == THROW:
                        rep.violation("view:throws", "%s: throws for a vertex of the graph" % what, f.loc)
                        continue
                    if f.n == "out_degree":
                        if eng.rv(s, v) != ("c", end - starts[i]):
                            rep.violation("view:degree", "%s: is not the number of edges of the vertex" % what, f.loc)
                        continue
                    if not v or v[0] != "loc":
                        continue
                    for name, w in (("begin", starts[i]), ("end", end), ("size", end - starts[i]), ("empty", end == starts[i])):
                        for g in subview(prog, f, name):
                            for k2, s2, v2 in ShapeEngine(prog, Row()).run(g, this=v, args=[], st=s):
                                got = v2 if v2 is None or v2[0] != "loc" else eng.rv(s2, v2)
                                if k2 == RET and got != ("c", w):
                                    rep.violation("view:%s" % name, "%s: %s() of the edges of a vertex is wrong" % (what, name), g.loc)


def subview(prog, f, name):
    t = f["rt"]
    r = t.get("r")
    return [g for g in prog.fns.values() if g.has_body and g.r == r and g.n == name and not g["ps"]]

"""C08: every edge of an adjacency list is recorded exactly where its direction says, through every modification."""
import re
from ..flow import NEXT, RET, THROW, U, St, Limit
from ..shape import Shape, ShapeEngine
from .. import ir

TUS = ["verif:graph.cpp"]

CV, CE = ("this", "vertices"), ("this", "edges")
OPS_ADD = ("add_vertex", "add_edge")
OPS_DEL = ("remove_edge", "clear_vertex", "remove_vertex")


class Graph(Shape):
    """three vertices S, T, W, one arbitrary edge x and an arbitrary further edge in one of the lists"""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        self.failing = False
        self.verts = ()

    def candidates(self, st, name):
        # ?s:<edge> / ?t:<edge>: an endpoint that the list in which the edge was found does not determine
        role, edge = name[1], name[3:]
        owner = self.owner[edge]
        other = st.facts.get(("res", "?%s:%s" % ("t" if role == "s" else "s", edge)))
        if self.kind == "undirected" and other is not None and other != owner:
            return (owner,)
        return self.verts

    def same_object(self, st, a, b):
        if a == b:
            return True
        x, y = a[0], b[0]
        if len(a) > 1 or len(b) > 1:
            return None
        if x[:2] == "V:" or y[:2] == "V:":
            return False
        if "e:x" in (x, y) or x.rsplit("@", 1)[-1] == y.rsplit("@", 1)[-1]:
            return False
        return None

    def end(self, st, g, role):
        v = st.env.get(("val", (g, role)))
        tok = v[2] if v and v[0] == "it" else None
        return st.facts.get(("res", tok), tok) if tok else None

    def on_cond(self, eng, st, fr, val, truth, node):
        r = super().on_cond(eng, st, fr, val, truth, node)
        if r is None or not val or val[0] != "op" or val[2][0] != "ptr" or val[3][0] != "ptr":
            return r
        a, b = val[2][1], val[3][1]
        if truth == (val[1] == "==") and a != b and a[0].startswith("e:") and b[0].startswith("e:") and len(a) == len(b) == 1:
            # two further edges that turn out to be the same one have the same endpoints
            for role in ("source", "target"):
                x, y = self.end(r, a[0], role), self.end(r, b[0], role)
                if not x or not y or x == y:
                    continue
                if x[0] == "?":
                    r.facts[("res", x)] = y
                elif y[0] == "?":
                    r.facts[("res", y)] = x
                else:
                    return None
        return r

    def new_name(self, st, C):
        if C == CE:
            return "e:x"
        if C == CV:
            return "V:new"
        return super().new_name(st, C)

    def fail(self, st, fr, n, C):
        return self.failing and "failed" not in st.facts and not C[0].startswith("v:")


def kinds(prog):
    """[(record id, kind, lists?, functions by name)] of the instances of the adjacency list"""
    res = {}
    for f in prog.fns.values():
        if f.has_body and f.file.endswith("graph/adjacency_list.hpp") and f.n == "_add_edge" and f.r not in res:
            t = str([p["t"] for p in f["ps"]][-1])
            rec = f["ps"][2]["t"]
            q = prog.recs[rec["r"]].q if rec.get("r") in prog.recs else t
            kind = "bidirectional" if "graph::bidirectional" in q else "undirected" if "graph::undirected" in q else "directional"
            lists = "vector" not in q.split("map_matching_2::graph::", 2)[1].split("::edge")[0] + q.split("map_matching_2")[1]
            payload = "payload" in q
            res[f.r] = (kind, lists, payload)
    out = []
    for r, (kind, lists, payload) in res.items():
        fns = {}
        for f in prog.fns.values():
            if f.r == r and f.has_body:
                fns.setdefault(f.n, []).append(f)
        out.append((r, kind, lists, payload, fns))
    return sorted(out, key=lambda x: (not x[2], x[1], x[3]))


class Model:
    """the initial state: x from S to T (the same vertex if loop), plus one arbitrary edge in one of the lists"""

    def __init__(self, kind, lists, loop=False, edge=True, shape="front"):
        self.kind, self.lists, self.loop = kind, lists, loop
        shape, where = shape if isinstance(shape, tuple) else (shape, None)
        self.cl = Graph(kind)
        self.vs = ["V:S", "V:W"] if loop else ["V:S", "V:T", "V:W"]
        if shape == "back":
            self.vs.reverse()
        self.cl.verts = tuple(self.vs)
        self.cl.owner = {}
        st = St()
        f, e = st.facts, st.env
        f[("seq", CV)] = tuple(self.vs)
        es = ["e:a@E"] if shape != "bare" else []
        if edge:
            es = es + ["e:x"] if shape != "back" else ["e:x"] + es
        f[("seq", CE)] = tuple(es)
        if edge:
            e[("val", ("e:x", "source"))] = self.vd("V:S")
            e[("val", ("e:x", "target"))] = self.vd(self.T)
        self.st = st
        for v in self.vs:
            for l in ("out_edges", "in_edges") if kind == "bidirectional" else ("out_edges",):
                C = (v, l)
                items = []
                if where in (C, "all"):
                    g = "e:g@%s.%s" % (v[2:], l[:-6])
                    self.cl.owner[g] = v
                    if kind == "undirected" and where == "all":
                        src, tgt = (v, "?t:" + g) if v != "V:T" else ("?s:" + g, v)
                    elif kind == "undirected":
                        src, tgt = "?s:" + g, "?t:" + g
                    elif l == "out_edges":
                        src, tgt = v, "?t:" + g
                    else:
                        src, tgt = "?s:" + g, v
                    e[("val", (g, "source"))] = self.vd(src)
                    e[("val", (g, "target"))] = self.vd(tgt)
                    items.append(self.node(C, g))
                if edge and C in self.places():
                    x = self.node(C, "e:x")
                    items = items + [x] if shape != "back" else [x] + items
                f[("seq", C)] = tuple(items)

    @property
    def T(self):
        return "V:S" if self.loop else "V:T"

    def vd(self, v):
        return ("it", CV, v) if self.lists else ("c", self.vs.index(v))

    def ed(self, x):
        return ("it", CE, x) if self.lists else ("c", self.st.facts[("seq", CE)].index(x))

    def node(self, C, x):
        root = "n:%s:%s" % (".".join(C), x)
        self.st.env[("val", (root,))] = self.ed(x) if x == "e:x" or self.lists else ("c", 99)
        return root

    def places(self, s=None, t=None):
        s, t = s or "V:S", t or self.T
        res = [(s, "out_edges")]
        if self.kind == "undirected" and s != t:
            res.append((t, "out_edges"))
        if self.kind == "bidirectional":
            res.append((t, "in_edges"))
        return res

    def all_lists(self):
        return [(v, l) for v in self.vs for l in ("out_edges", "in_edges") if ("seq", (v, l)) in self.st.facts]

    def count(self, st, C, x):
        want = [("it", CE, "e:x")] if self.lists else [x]
        return sum(1 for n in st.facts.get(("seq", C), ()) if st.env.get(("val", (n,))) in want)


def run(prog, rep):
    rep.rule("add", "adding an edge records it once in the edges, at its source, at the target of an undirected edge that is not a "
                    "self loop and in the incoming edges of the target of a bidirectional graph, with its endpoints, index and data; "
                    "when storing it fails at any point nothing of it remains")
    rep.rule("remove", "removing an edge, clearing or removing a vertex takes exactly the edges it names out of every list, and never "
                       "uses an element that it has erased")
    rep.rule("index", "indices count the vertices and the edges in order")
    for r, kind, lists, payload, fns in kinds(prog):
        name = "%s %s%s" % (kind, "lists" if lists else "vectors", " with data" if payload else "")
        for op in fns.get("add_edge", []):
            add_edge(prog, rep, op, kind, lists, payload, name)
        for op in fns.get("add_vertex", []):
            add_vertex(prog, rep, op, kind, lists, payload, name)
        if payload:
            continue    # the removals do not touch the data; one instance of the template is enough
        for op in fns.get("remove_edge", []):
            if len(op["ps"]) == 2:
                remove_between(prog, rep, op, kind, name)
            else:
                remove_one(prog, rep, op, kind, name)
        for op in fns.get("clear_vertex", []):
            clear(prog, rep, op, kind, name)
        for op in fns.get("remove_vertex", []):
            remove_vertex(prog, rep, op, kind, name)
        for op in fns.get("reindex", []):
            reindex(prog, rep, op, kind, name)
        for op in fns.get("out_degree", []) + fns.get("in_degree", []):
            degree(prog, rep, op, kind, lists, name)
    rep.floor("add", 6)
    rep.floor("remove", 6)


def engine(prog, m, rep):
    eng = ShapeEngine(prog, m.cl)
    eng.max_steps = 3000000
    return eng


def go(prog, rep, op, m, args, what, this=("loc", ("this",))):
    eng = engine(prog, m, rep)
    try:
        outs = eng.run(op, this=this, args=args, st=m.st)
    except Limit as e:
        rep.note("%s: %s" % (what, e))
        return None
    for l in eng.inlined:
        if "graph/" in l:
            rep.analysed.add(l)
    rep.fn(op)
    for msg, fn, line in m.cl.viol:
        rep.violation("%s:%s" % (op.n, re.sub(r"\W+", "-", msg)), "%s: %s in %s" % (what, msg, fn.short.split("(")[0] if hasattr(fn, "short") else "?"),
                      "%s:%s" % (fn.file if hasattr(fn, "file") else op.file, line))
    return outs


def lists_of(st):
    return {k[1]: v for k, v in st.facts.items() if k[0] == "seq" and (k[1] in (CV, CE) or k[1][0].startswith("V:"))}


def add_edge(prog, rep, op, kind, lists, payload, name):
    for loop in (False, True):
        for shape in ["front", "bare"] + (shapes(kind, loop)[1:] if lists else []):
            m = Model(kind, lists, loop, edge=False, shape=shape)
            m.cl.failing = True
            args = []
            for i, v in enumerate(("V:S", m.T)):
                p = ("p:%d" % i,)
                m.st.env[("val", p)] = m.vd(v)
                args.append(("loc", p))
            if payload:
                args.append(("loc", ("p:data",)))
            before = lists_of(m.st)
            n0 = len(before[CE])
            what = "add_edge%s (%s)" % (" of a self loop" if loop else "", name)
            outs = go(prog, rep, op, m, args, what)
            if outs is None:
                continue
            rep.instance("add", what)
            done = False
            for k, s, v in outs:
                after = lists_of(s)
                if k == THROW:
                    for C in before:
                        if after.get(C) != before[C]:
                            rep.violation("add_edge:leftover:%s" % C[-1], "%s: after a failed insertion into %s the %s still hold the edge"
                                          % (what, s.facts.get("failed"), C[-1]), op.loc)
                    continue
                done = True
                new = after[CE][n0:]
                if len(new) != 1 or after[CE][:n0] != before[CE]:
                    rep.violation("add_edge:edges", "%s: the edges grow by %d instead of one" % (what, len(new)), op.loc)
                    continue
                x = new[0]
                desc = ("it", CE, x) if lists else ("c", n0)
                if v and v[0] == "loc":
                    v = s.env.get(("val", v[1]), v)
                if v != desc:
                    rep.violation("add_edge:result", "%s: the result is not the descriptor of the new edge" % what, op.loc)
                for fld, want in (("source", m.vd("V:S")), ("target", m.vd(m.T))) + ((("index", ("c", n0)),) if lists else ()):
                    got = s.env.get(("val", (x, fld)))
                    if got and got[0] == "in" and ("val", got[1]) in m.st.env:
                        got = m.st.env[("val", got[1])]
                    if got != want:
                        rep.violation("add_edge:%s" % fld, "%s: the %s of the new edge is %s" % (what, fld, "not the given one" if fld != "index" else "not its position"), op.loc)
                if payload and not any("p:data" in repr(val) for kk, val in s.env.items() if kk[0] == "val" and kk[1][:2] == (x, "data")):
                    rep.violation("add_edge:data", "%s: the new edge does not hold the given data" % what, op.loc)
                for C in m.all_lists():
                    n = len(after[C]) - len(before[C])
                    want = 1 if C in m.places() else 0
                    mine = sum(1 for y in after[C] if s.env.get(("val", (y,))) == desc)
                    if n != want or mine != want or after[C][:len(before[C])] != before[C]:
                        rep.violation("add_edge:%s:%s" % (C[-1], "missing" if mine < want else "extra"),
                                      "%s: the %s of the %s record the new edge %d times instead of %d"
                                      % (what, C[-1].replace("_", " "), {"V:S": "source", "V:T": "target"}.get(C[0], "wrong vertex"), mine, want), op.loc)
            if not done:
                rep.violation("add_edge:never", "%s: never completes" % what, op.loc)


def add_vertex(prog, rep, op, kind, lists, payload, name):
    m = Model(kind, lists, edge=False)
    m.cl.failing = True
    before = lists_of(m.st)
    what = "add_vertex (%s)" % name
    args = [("loc", ("p:data",))] if payload else []
    outs = go(prog, rep, op, m, args, what)
    if outs is None:
        return
    rep.instance("add", what)
    for k, s, v in outs:
        after = lists_of(s)
        if k == THROW:
            if any(after.get(C) != before[C] for C in before):
                rep.violation("add_vertex:leftover", "%s: a failed insertion leaves a vertex behind" % what, op.loc)
            continue
        new = after[CV][len(before[CV]):]
        if len(new) != 1:
            rep.violation("add_vertex:vertices", "%s: the vertices grow by %d instead of one" % (what, len(new)), op.loc)
            continue
        x = new[0]
        desc = ("it", CV, x) if lists else ("c", len(before[CV]))
        if v and v[0] == "loc":
            v = s.env.get(("val", v[1]), v)
        if v != desc:
            rep.violation("add_vertex:result", "%s: the result is not the descriptor of the new vertex" % what, op.loc)
        if lists and s.env.get(("val", (x, "index"))) != ("c", len(before[CV])):
            rep.violation("add_vertex:index", "%s: the index of the new vertex is not its position" % what, op.loc)
        if payload and not any("p:data" in repr(val) for kk, val in s.env.items() if kk[0] == "val" and kk[1][:2] == (x, "data")):
            rep.violation("add_vertex:data", "%s: the new vertex does not hold the given data" % what, op.loc)
        if any(after[C] != before[C] for C in before if C != CV):
            rep.violation("add_vertex:lists", "%s: changes the edges" % what, op.loc)


def shapes(kind, loop):
    res = ["bare"]
    for v in ["V:S", "V:W"] if loop else ["V:S", "V:T", "V:W"]:
        for l in ("out_edges", "in_edges") if kind == "bidirectional" else ("out_edges",):
            res += [("front", (v, l)), ("back", (v, l))]
    res += [("front", "all"), ("back", "all")]
    return res


def judge(rep, op, m, what, outs, meant, free=False):
    """x is either everywhere it has to be or nowhere"""
    for k, s, v in outs:
        if k == THROW:
            rep.violation("%s:throws" % op.n, "%s: throws" % what, op.loc)
            continue
        alive = 1 if "e:x" in s.facts[("seq", CE)] else 0
        if not free and alive == (1 if meant else 0):
            rep.violation("%s:%s" % (op.n, "kept" if meant else "lost"), "%s: the edge is %s" % (what, "not removed" if meant else "removed although it is not meant"), op.loc)
            continue
        for C in m.all_lists():
            n = sum(1 for y in s.facts[("seq", C)] if s.env.get(("val", (y,))) == ("it", CE, "e:x"))
            want = alive if C in m.places() else 0
            if n != want and not (C[0] not in s.facts[("seq", CV)]):
                rep.violation("%s:%s:%s" % (op.n, C[-1], "dangling" if not alive else "missing"),
                              "%s: %s" % (what, "the %s still record the removed edge" % C[-1].replace("_", " ") if not alive
                                          else "the %s no longer record an edge that still exists" % C[-1].replace("_", " ")), op.loc)


def bind(m, i, v, alias):
    """an argument: a variable of the caller, or a reference to a descriptor stored in the graph"""
    if alias:
        return ("loc", alias)
    p = ("p:%d" % i,)
    m.st.env[("val", p)] = v
    return ("loc", p)


def remove_one(prog, rep, op, kind, name):
    for loop in (False, True):
        for shape in shapes(kind, loop):
            for meant in (True, False):
                m0 = Model(kind, True, loop, shape=shape)
                aliases = [None]
                if meant:
                    aliases += [("n:%s:e:x" % ".".join(C),) for C in m0.places()]
                elif shape == "bare" or shape[1] not in (("V:S", "out_edges"), "all"):
                    continue
                for al in aliases:
                    m = Model(kind, True, loop, shape=shape)
                    x = "e:x" if meant else "e:g@S.out"
                    what = "remove_edge(%s)%s%s" % ("edge" if meant else "another edge", " of a self loop" if loop else "",
                                                    " given by reference to the descriptor in the %s" % al[0].split(".")[1].split(":")[0].replace("_", " ") if al else "")
                    what += " (%s)" % name
                    outs = go(prog, rep, op, m, [bind(m, 0, ("it", CE, x), al)], what)
                    if outs is None:
                        continue
                    rep.instance("remove", what)
                    judge(rep, op, m, what, outs, meant)


def remove_between(prog, rep, op, kind, name):
    for loop in (False, True):
        for shape in shapes(kind, loop):
            m0 = Model(kind, True, loop, shape=shape)
            for s in m0.vs:
                for t in m0.vs:
                    meant = (s, t) == ("V:S", m0.T)
                    rev = kind == "undirected" and (t, s) == ("V:S", m0.T) and not loop
                    for al in (False, True) if meant else (False,):
                        m = Model(kind, True, loop, shape=shape)
                        what = "remove_edge(%s, %s)%s%s (%s)" % (s[2:], t[2:], " with a self loop at S" if loop else " with an edge from S to T",
                                                              " given by reference to its endpoints" if al else "", name)
                        args = [bind(m, 0, m.vd(s), ("e:x", "source") if al else None), bind(m, 1, m.vd(t), ("e:x", "target") if al else None)]
                        outs = go(prog, rep, op, m, args, what)
                        if outs is None:
                            continue
                        rep.instance("remove", what)
                        judge(rep, op, m, what, outs, meant, free=rev)


def clear(prog, rep, op, kind, name):
    for loop in (False, True):
        for shape in shapes(kind, loop):
            m0 = Model(kind, True, loop, shape=shape)
            for v in m0.vs:
                meant = v in ("V:S", m0.T)
                for al in ([None, ("e:x", "source")] if v == "V:S" else [None, ("e:x", "target")] if v == m0.T else [None]):
                    m = Model(kind, True, loop, shape=shape)
                    what = "clear_vertex(%s)%s%s (%s)" % (v[2:], " with a self loop at S" if loop else " with an edge from S to T",
                                                       " given by reference to an endpoint" if al else "", name)
                    outs = go(prog, rep, op, m, [bind(m, 0, m.vd(v), al)], what)
                    if outs is None:
                        continue
                    rep.instance("remove", what)
                    judge(rep, op, m, what, outs, meant)


def remove_vertex(prog, rep, op, kind, name):
    for loop in (False, True):
        for shape in ("bare",):
            m0 = Model(kind, True, loop, shape=shape)
            for v in m0.vs:
                m = Model(kind, True, loop, shape=shape)
                recorded = any(C[0] == v for C in m.places())
                what = "remove_vertex(%s)%s (%s)" % (v[2:], " with a self loop at S" if loop else " with an edge from S to T", name)
                outs = go(prog, rep, op, m, [bind(m, 0, m.vd(v), None)], what)
                if outs is None:
                    continue
                rep.instance("remove", what)
                for k, s, _ in outs:
                    gone = v not in s.facts[("seq", CV)]
                    if recorded and (k != THROW or gone):
                        rep.violation("remove_vertex:connected", "%s: removes a vertex at which an edge is still recorded" % what, op.loc)
                    if not recorded and (k == THROW or not gone):
                        rep.violation("remove_vertex:refused", "%s: does not remove a vertex without edges" % what, op.loc)
                    if any(w != v and w not in s.facts[("seq", CV)] for w in m.vs):
                        rep.violation("remove_vertex:other", "%s: removes another vertex" % what, op.loc)


def reindex(prog, rep, op, kind, name):
    m = Model(kind, True)
    what = "reindex (%s)" % name
    outs = go(prog, rep, op, m, [], what)
    if outs is None:
        return
    rep.instance("index", what)
    for k, s, _ in outs:
        for C in (CV, CE):
            for i, x in enumerate(m.st.facts[("seq", C)]):
                if s.env.get(("val", (x, "index"))) != ("c", i):
                    rep.violation("reindex:%s" % C[1], "%s: the %s are not numbered in order from zero" % (what, C[1]), op.loc)


def degree(prog, rep, op, kind, lists, name):
    m = Model(kind, lists, shape=("front", ("V:S", op.n.split("_")[0] + "_edges")) if lists else "front")
    what = "%s (%s)" % (op.n, name)
    want = len(m.st.facts[("seq", ("V:S", op.n.split("_")[0] + "_edges"))])
    outs = go(prog, rep, op, m, [bind(m, 0, m.vd("V:S"), None)], what)
    if outs is None:
        return
    rep.instance("index", what)
    for k, s, v in outs:
        if v and v[0] == "loc":
            v = s.env.get(("val", v[1]), v)
        if v != ("c", want):
            rep.violation("degree:%s" % op.n, "%s: is not the number of %s edges" % (what, "outgoing" if "out" in op.n else "incoming"), op.loc)

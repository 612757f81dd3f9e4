"""C17: coordinates are in the system they should be in."""
import re

from ..flow import Engine, NEXT, RET, THROW, U, St, Limit
from .. import ir, shape
from ..optmodel import OptCl, literals, path_of, paths_in, tname
from .c12 import World, report, THIS
from .c13 import NetImport, NetEngine, systems, show

TUS = ["verif:systems.cpp", "library/src/geometry/srs.cpp", "library/src/geometry/algorithm/reproject.cpp",
       "app/src/app/match.cpp", "app/src/app/compare.cpp", "app/src/app/network.cpp", "app/src/app/prepare.cpp", "app/src/app/options.cpp",
       "app/src/app/match_cli.cpp"]

GEO = "map_matching_2::geometry::"
FIELDS = ("srs_code", "srs_type", "proj", "transform_srs_code", "transform_srs_type", "transform_proj", "transform")
INVALID, GEOGRAPHIC, SPHERICAL, CARTESIAN = range(4)
NAMES = {"geographic": GEOGRAPHIC, "spherical-equatorial": SPHERICAL, "cartesian": CARTESIAN}
CS = {GEOGRAPHIC: "geographic", SPHERICAL: "spherical_equatorial", CARTESIAN: "cartesian"}
# systems of the register: (is_latlong, is_geocent)
REGISTER = {4326: (1, 0), 4258: (1, 0), 3857: (0, 0), 32632: (0, 0), 4978: (0, 1), 4979: (1, 1)}


def root(st, p):
    """the object itself, if it is known under another name"""
    for _ in range(16):
        for i in range(len(p), 0, -1):
            v = st.env.get(("val", p[:i]), U)
            if v[0] in ("in", "loc") and v[1] != p[:i]:
                p = v[1] + p[i:]
                break
        else:
            return p
    return p


class SysEngine(NetEngine):
    """knows constant strings, and the parts of projections"""

    def __init__(self, prog, client):
        super().__init__(prog, client)
        self.lits = literals(prog)

    def rv(self, st, v):
        if v and v[0] == "loc":
            p = v[1]
            if ("val", p) not in st.env:
                if p[0].startswith("g:") and p[0][2:] in self.lits and len(p) == 1:
                    return ("c", self.lits[p[0][2:]])
                q = root(st, p)
                if q != p:
                    return self.rv(st, ("loc", q))
                if len(p) > 1:
                    up = st.env.get(("val", p[:-1]), U)
                    if up[0] == "epsg" and p[-1] == "code":
                        return up[1]
                    if up[0] == "proj" and p[-1] in ("is_latlong", "is_geocent") and up[1][0] == "c" and up[1][1] in REGISTER:
                        return ("c", REGISTER[up[1][1]][p[-1] == "is_geocent"])
        return super().rv(st, v)


class Systems(NetImport):
    def __init__(self, prog, world=None):
        super().__init__(prog, world or World())

    def should_inline(self, eng, fn, c, n):
        return fn.file.startswith("library/") and ("geometry/srs" in fn.file or "reproject" in fn.file or "srs_dispatch" in fn.file)

    def field(self, st, at, name):
        return st.env.get(("val", at + (name,)), U)

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        new = n["k"] == "ctor" and obj is not None and obj[0] == "loc"
        if rec == "boost::geometry::srs::epsg":
            if args and (new or name == "operator="):
                v = self.value(eng, st, args[0])
                return self.ok(self.put(eng, st, fr, obj, v if v[0] == "epsg" else ("epsg", v), n), obj)
        if rec == "boost::geometry::projections::proj_wrapper":
            if new and args:
                v = self.value(eng, st, args[0])
                return self.ok(self.put(eng, st, fr, obj, ("proj", v[1]) if v[0] == "epsg" else U, n), obj)
            if name == "proj":
                return self.ok(st, obj)
        if name == "params" and obj is not None and obj[0] == "loc":
            return self.ok(st, obj)
        if rec == "boost::geometry::srs::transformation":
            if new and args and c.get("ctor") not in ("copy", "move"):
                return self.ok(self.put(eng, st, fr, obj, ("transformation",) + tuple(self.code(eng, st, a) for a in args), n), obj)
            if name == "forward" and len(args) == 2:
                v = self.value(eng, st, obj)
                return self.ok(self.put(eng, st, fr, args[1], ("fwd", self.value(eng, st, args[0]), v), n), ("c", True))
        if new and rec in (GEO + "srs", GEO + "srs_transform"):
            if c.get("ctor") in ("copy", "move") and args:
                s = st.copy()
                p = root(s, args[0][1]) if args[0][0] == "loc" else None
                for x in FIELDS if p else ():
                    s.env[("val", obj[1] + (x,))] = self.field(s, p, x)
                return self.ok(s, obj)
        return super().on_call(eng, st, fr, n, c, obj, args)

    def code(self, eng, st, v):
        v = self.value(eng, st, v)
        return v[1][1] if v[0] == "epsg" and v[1][0] == "c" else None

    def fields(self, st, at):
        """what is kept of a system: code, type, projection, those it is transformed to, whether it is transformed"""
        out = []
        at = root(st, at)
        for x in FIELDS:
            v = self.field(st, at, x)
            v = v[1] if v[0] == "epsg" else v
            out.append(v[1] if v[0] == "c" else None)
        return out


def srs(code, kind):
    """what the documentation says of the system of an input: None if it is not accepted"""
    if code < 0:
        return None
    return [code, NAMES.get(kind) or detected(code), code]


def detected(code):
    latlong, geocent = REGISTER[code]
    return GEOGRAPHIC if latlong and not geocent else CARTESIAN


def transform(code, kind, tcode, tkind):
    base = srs(code, kind)
    if base is None:
        return None
    t = NAMES.get(tkind)
    if t is None:
        to = [tcode, detected(tcode)] if tcode >= 0 else base[:2]
    else:
        to = [tcode if tcode >= 0 else {GEOGRAPHIC: 4326, CARTESIAN: 3857}.get(t, code), t]
    return base + to + [to[0], to != base[:2]]


def one(cl, outs, f, name):
    if len(outs) == 1:
        return outs[0]
    cl.viol.append(("%s: there is no single outcome" % name, f, 0))
    return None


def kinds(x):
    return {INVALID: "no system", GEOGRAPHIC: "geographic", SPHERICAL: "spherical", CARTESIAN: "cartesian"}.get(x, x)


def text(v):
    if v is None:
        return "an error"
    code, kind, proj, tcode, tkind, tproj, t = (list(v) + [None] * 4)[:7]
    out = "%s (%s) with the projection of %s" % (code, kinds(kind), proj)
    if len(v) > 3:
        out += " to %s (%s) with the projection of %s, %s" % (tcode, kinds(tkind), tproj, "transformed" if t else "not transformed")
    return out


def function(prog, name, n=None):
    return next((f for f in prog.q(GEO + name) if f.has_body and (n is None or len(f.j["ps"]) == n)), None)


def resolve(prog, rep):
    rep.rule("resolve", "the system that coordinates are in, and the one they are transformed to, are those that are asked for by code and type, with what is left out filled in "
             "as documented, and coordinates are transformed exactly if the two differ")
    f = function(prog, "compute_srs", 2)
    cases = [(c, k) for c in (-1, *REGISTER) for k in ("", "geographic", "spherical-equatorial", "cartesian", "other")]
    if f:
        for code, kind in cases:
            cl = Systems(prog)
            eng = SysEngine(prog, cl)
            name = "compute_srs(%s, '%s')" % (code, kind)
            rep.instance("resolve", name)
            o = one(cl, eng.run(f, args=[("c", code), ("c", kind)]), f, name)
            if o:
                got = None if o[0] == THROW else cl.fields(o[1], o[2][1])[:3] if o[2][0] == "loc" else "?"
                want = srs(code, kind)
                if got != want:
                    cl.viol.append(("%s gives %s instead of %s" % (name, text(got), text(want)), f, 0))
            report(rep, "resolve", cl, name)
    f = function(prog, "compute_srs_transform", 4)
    if f:
        for code, kind in cases:
            for tcode in (-1, 4326, 3857, 32632, 4978):
                for tkind in ("", "geographic", "spherical-equatorial", "cartesian", "other"):
                    cl = Systems(prog)
                    eng = SysEngine(prog, cl)
                    name = "compute_srs_transform(%s, '%s', %s, '%s')" % (code, kind, tcode, tkind)
                    rep.instance("resolve", name)
                    o = one(cl, eng.run(f, args=[("c", code), ("c", kind), ("c", tcode), ("c", tkind)]), f, name)
                    if o:
                        got = None if o[0] == THROW else cl.fields(o[1], o[2][1]) if o[2][0] == "loc" else "?"
                        want = transform(code, kind, tcode, tkind)
                        if got != want:
                            cl.viol.append(("%s gives %s instead of %s" % (name, text(got), text(want)), f, 0))
                    report(rep, "resolve", cl, name)
    f = function(prog, "compute_next_srs_transform", 3)
    if f:
        for base in ([4326, 1, 4326, 3857, 3, 3857, True], [3857, 3, 3857, 3857, 3, 3857, False], [4326, 1, 4326, 4326, 1, 4326, False],
                     [4326, 2, 4326, 4326, 1, 4326, True], [4326, 1, 4326, 4326, 2, 4326, True], [3857, 3, 3857, 4326, 1, 4326, True], [-1, 0, -1, -1, 0, -1, False]):
            for to in ([4326, 1], [3857, 3], [4326, 2], [32632, 3]):
                cl = Systems(prog)
                eng = SysEngine(prog, cl)
                name = "compute_next_srs_transform(%s, %s, %s)" % (text(base), to[0], kinds(to[1]))
                rep.instance("resolve", name)
                o = one(cl, eng.run(f, args=[("loc", ("base",)), ("c", to[0]), ("c", to[1])], st=known(base)), f, name)
                if o:
                    start = base[3:5] if base[4] != INVALID else to
                    want = start + [start[0]] + to + [to[0], start != to]
                    got = None if o[0] == THROW else cl.fields(o[1], o[2][1]) if o[2][0] == "loc" else "?"
                    if got != want:
                        cl.viol.append(("%s gives %s instead of %s" % (name, text(got), text(want)), f, 0))
                report(rep, "resolve", cl, name)
    f = function(prog, "create_transformation", 1)
    if f:
        cl = Systems(prog)
        eng = SysEngine(prog, cl)
        name = "create_transformation"
        rep.instance("resolve", name)
        o = one(cl, eng.run(f, args=[("loc", ("base",))], st=known([4326, 1, 4326, 3857, 3, 3857, True])), f, name)
        if o and cl.value(eng, o[1], o[2]) != ("transformation", 4326, 3857):
            cl.viol.append(("the transformation is not from the one projection to the other", f, 0))
        report(rep, "resolve", cl, name)
    rep.floor("resolve", 500)


def known(v, at=("base",)):
    st = St()
    for x, y in zip(FIELDS, v):
        st.env[("val", at + (x,))] = ("epsg", ("c", y)) if x.endswith("proj") else ("c", y)
    return st


PAIRS = [(a, b) for a in CS for b in CS]


def pair(text):
    """the coordinate systems that a text of types names"""
    return tuple(re.findall(r"cs::(\w+)", text))


class Dispatch(Systems):
    """which body a dispatch leads to, and what reprojector is made"""

    def __init__(self, prog):
        super().__init__(prog)
        self.called = []

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec = c.get("n") or "", c.get("rec") or ""
        if name == "srs_dispatch":
            return None
        if name == "operator()" and rec == "(lambda)" and obj is not None:
            lam = self.value(eng, st, obj)
            if lam[0] != "lam":
                self.called.append((pair(c.get("ta") or ""), c.get("id")))
                return self.ok(st, U)
            node, _ = eng.lams[lam[1]]
            keep = node["bodies"]
            node["bodies"] = [b for b in keep if b["id"] == c.get("id")]
            try:
                return eng.call_lambda(lam, args, st, n)
            finally:
                node["bodies"] = keep
        if rec == GEO + "point_reprojector" and n["k"] == "ctor" and args and obj is not None:
            if c.get("ctor") in ("copy", "move"):
                return self.ok(self.put(eng, st, fr, obj, self.value(eng, st, args[0]), n), obj)
            at = root(st, args[0][1]) if args[0][0] == "loc" else args[0]
            return self.ok(self.put(eng, st, fr, obj, ("of", pair(c["q"]), at), n), obj)
        if rec == "std::variant" and n["k"] == "ctor" and args and obj is not None:
            return self.ok(self.put(eng, st, fr, obj, self.value(eng, st, args[0]), n), obj)
        return super().on_call(eng, st, fr, n, c, obj, args)


def dispatch(prog, rep):
    rep.rule("dispatch", "what is done for a pair of coordinate systems is done with the types of that pair, and without a pair that is known it is refused")
    rep.rule("types", "an importer makes the tracks of a pair of coordinate systems in the one from points in the other")
    f = function(prog, "create_point_reprojector", 1)
    every = [(a, b) for a in range(4) for b in range(4)]
    if f:
        for a, b in every:
            name = "a reprojector from %s to %s" % (kinds(a), kinds(b))
            rep.instance("dispatch", name)
            cl = Dispatch(prog)
            eng = SysEngine(prog, cl)
            eng.lam_bodies = 16
            o = one(cl, eng.run(f, args=[("loc", ("base",))], st=known([1, a, 1, 2, b, 2, True])), f, name)
            if o:
                got = cl.value(eng, o[1], o[2]) if o[0] != THROW else None
                want = ("of", (CS[a], CS[b]), ("base",)) if a and b else None
                if got != want:
                    cl.viol.append(("%s: instead there is %s" % (name, "an error" if got is None else "one from %s to %s" % got[1] if got[0] == "of" and len(got[1]) == 2 and got[2] == ("base",)
                                                                                       else "another one"), f, 0))
            report(rep, "dispatch", cl, name)
    bodies = {}
    for g in prog.fns.values():
        if g.has_body and "/io/track/" in g.file:
            for n in ir.walk(g.body):
                for b in n.get("bodies") or ():
                    if b.get("id"):
                        bodies[b["id"]] = (g, b["body"])
    for d in [g for g in prog.fns.values() if g.has_body and g.n == "srs_dispatch"]:
        for a, b in every:
            cl = Dispatch(prog)
            eng = SysEngine(prog, cl)
            args = [("loc", ("base",))] + [("loc", ("func",))] * (len(d.j["ps"]) - 1)
            outs = eng.run(d, args=args, st=known([1, a, 1, 2, b, 2, True]))
            got = [] if any(k == THROW for k, s, v in outs) and len(outs) == 1 else cl.called
            want = [(CS[a], CS[b])] if a and b else []
            where = next((i for _, i in cl.called if i in bodies), None)
            name = "%s to %s%s" % (kinds(a), kinds(b), " in " + bodies[where][0].file.rsplit("/", 1)[-1] if where else "")
            rep.instance("dispatch", name)
            if [p for p, _ in got] != want:
                cl.viol.append(("%s: this is done for %s" % (name, [" to ".join(p) for p, _ in got] or "nothing"), d, 0))
            report(rep, "dispatch", cl, name)
            if where and a and b:
                made(prog, rep, bodies[where], (CS[a], CS[b]), name)
    rep.floor("dispatch", 25)
    rep.floor("types", 9)


def made(prog, rep, start, want, name):
    """the tracks and points that are made in the body of a dispatch"""
    seen, todo = set(), [start]
    while todo:
        f, body = todo.pop()
        rep.fn(f)
        graph = "edges_list" in f.file
        for n in ir.walk(body):
            c = n.get("c") or {}
            g = prog.callee_fn(c) if c else None
            if g is not None and g.has_body and "/io/track/" in g.file and g.id not in seen:
                seen.add(g.id)
                todo.append((g, g.body))
            if n.get("k") == "ctor" and c.get("rec") in (GEO + "track::measurement", GEO + "track::track", GEO + "track::multi_track") and len(n.get("a") or ()) == 3:
                ins = [t for t in (c.get("pt") or ())[1:2]]
                i = pair((ins[0].get("s") or "") + (c.get("ta") or "")) if ins else ()
                o = pair(c["q"])
                rep.instance("types", "%s, line %d" % (name, n["l"]))
                if o and o[0] != want[1] or i and i[0] != want[0] and not graph:
                    msg = "%s: a %s is made in %s from %s" % (name, c["rec"].rsplit("::", 1)[-1], o[0] if o else "?", i[0] if i else "?")
                    rep.violation("types:" + msg, msg, "%s:%d" % (f.file, n["l"]))


class Apply(Systems):
    def __init__(self, prog, systems_, transform):
        super().__init__(prog)
        self.w.systems, self.w.transform = systems_, transform

    def should_inline(self, eng, fn, c, n):
        return "reproject" in fn.file or any(x in fn.file for x in ("track/measurement.hpp", "track/track.hpp", "track/multi_track.hpp", "network/node.hpp"))

    def on_call(self, eng, st, fr, n, c, obj, args):
        # lines with further knowledge of their points are kept as these points
        if (c.get("rec") or "").startswith(GEO) and c["rec"].endswith("rich_line") and obj is not None and len(args) == 1 and (n["k"] == "ctor" or c.get("n") == "operator="):
            a = args[0]
            if a[0] == "agg":
                v = ("line", tuple(self.value(eng, st, x) for x in a[1]))
            else:
                v = self.value(eng, st, a)
                if c["rec"].endswith("multi_rich_line") and v[0] == "line" and v[1] and v[1][0][0] != "line" and n["k"] == "ctor" and c.get("ctor") not in ("copy", "move"):
                    v = ("line", (v,))
            return self.ok(self.put(eng, st, fr, obj, v, n), obj)
        return super().on_call(eng, st, fr, n, c, obj, args)


def params(prog, name, n):
    """the instantiations of a template by the coordinate systems of its arguments"""
    out = {}
    for f in prog.fns.values():
        if f.has_body and f.n == name and f.q.startswith(GEO) and len(f.j["ps"]) == n:
            p = pair(f.j.get("ta") or "")
            if "inits" in f.j:
                p = p[:1] + pair(f.q)[:1]
            p = tuple(dict.fromkeys(p)) if len(p) != 2 else p
            p = p * 2 if len(p) == 1 else p
            if len(p) == 2:
                out.setdefault(p, []).append(f)
    return out


def apply(prog, rep):
    rep.rule("apply", "a point arrives transformed if it is to be transformed and unchanged if not, and a point that the reprojector is not for is an error; lines and tracks do so "
             "point by point")
    own(prog, rep)
    P = [("pt", ("num", "%d" % i), ("num", "%d" % (i + 5))) for i in range(1, 5)]
    for (a, b), fs in sorted(params(prog, "reproject_point", 3).items()):
        f = fs[0]
        for alt in [(CS[x], CS[y]) for x, y in PAIRS]:
            for t in (True, False):
                name = "a point from %s to %s by a reprojector from %s to %s, %s" % (a, b, alt[0], alt[1], "transformed" if t else "not transformed")
                rep.instance("apply", name)
                cl = Apply(prog, alt, t)
                eng = SysEngine(prog, cl)
                st = St()
                st.env[("val", ("in",))] = P[0]
                o = one(cl, eng.run(f, args=[("loc", (x,)) for x in ("in", "out", "reprojector")], st=st), f, name)
                if o:
                    got = cl.value(eng, o[1], ("loc", ("out",))) if o[0] != THROW else None
                    want = (("fwd", P[0]) if alt == (a, b) else None) if t else P[0] if a == b else None
                    if got != want:
                        cl.viol.append(("%s: %s instead of %s" % (name, result(got), result(want)), f, 0))
                report(rep, "apply", cl, name)
    for fname, k in (("reproject_line", 3), ("reproject_multi_line", 3), ("measurement", 3), ("node", 3), ("track", 3), ("multi_track", 3)):
        for (a, b), fs in sorted(params(prog, fname, k).items()):
            for f in fs:
                for t in (True, False) if a == b else (True,):
                    name = "%s from %s to %s%s" % (fname, a, b, "" if t else ", not transformed")
                    multi = fname == "reproject_multi_line" or fname == "multi_track" and "multi_linestring" in (f.j.get("ta") or "").split("<")[0]
                    if multi and fname == "multi_track":
                        name += ", of lines"
                    rep.instance("apply", name)
                    cl = Apply(prog, (a, b), t)
                    eng = SysEngine(prog, cl)
                    st = St()
                    for i, p in enumerate(P):
                        st.env[("val", ("p%d" % i,))] = p
                    if multi:
                        st.facts[("seq", ("in",))] = ("l0", "l1")
                        st.facts[("seq", ("l0",))] = ("p0", "p1", "p2")
                        st.facts[("seq", ("l1",))] = ("p3",)
                    elif fname in ("measurement", "node"):
                        st.env[("val", ("in",))] = P[0]
                    else:
                        st.facts[("seq", ("in",))] = ("p0", "p1", "p2")
                    T = (lambda p: ("fwd", p)) if t else (lambda p: p)
                    want = ("line", (("line", tuple(map(T, P[:3]))), ("line", tuple(map(T, P[3:]))))) if multi else T(P[0]) if fname in ("measurement", "node") else \
                        ("line", tuple(map(T, P[:3])))
                    if fname.startswith("reproject"):
                        st.facts[("seq", ("out",))] = ()
                        args = [("loc", (x,)) for x in ("in", "out", "reprojector")]
                        at = ("out",)
                        o = one(cl, eng.run(f, args=args, st=st), f, name)
                    else:
                        args = [("in", ("id",))] + [("loc", (x,)) for x in ("in", "reprojector")]
                        at = THIS + ({"track": "rich_line", "multi_track": "multi_rich_line"}.get(fname, "point"),)
                        o = one(cl, eng.run(f, args=args, st=st), f, name)
                        if fname == "multi_track" and not multi:
                            want = ("line", (want,))
                    if o:
                        got = cl.value(eng, o[1], ("loc", at)) if o[0] != THROW else None
                        if flat(got) != flat(want):
                            cl.viol.append(("%s: %s instead of %s" % (name, result(got), result(want)), f, 0))
                    report(rep, "apply", cl, name)
    rep.floor("apply", 100)


def flat(v):
    """lines of a single line are that line"""
    while v and v[0] == "line" and len(v[1]) == 1 and v[1][0][0] == "line":
        v = v[1][0]
    return v


def result(v):
    return "an error" if v is None else "the points %s" % " ".join(map(result, v[1])) if v[0] == "line" else show(v) if v[0] in ("fwd", "pt") and len(v) < 4 else "something else"


def own(prog, rep):
    """the reprojector itself"""
    for rid in sorted({f.r for f in prog.fns.values() if f.has_body and f.rec == GEO + "point_reprojector" and f.r}):
        fs = prog.by_rec.get(rid, [])
        c = next((f for f in fs if "inits" in f.j and len(f.j["ps"]) == 1 and f.j["ps"][0]["n"] and (f.j["ps"][0].get("t") or {}).get("n", "").endswith("srs_transform")), None)
        op = next((f for f in fs if f.n == "operator()" and f.has_body), None)
        tr = next((f for f in fs if f.n == "transform" and f.has_body), None)
        if not (c and op and tr):
            continue
        for t in (True, False):
            name = "the reprojector from %s to %s%s" % (systems(prog, rid) + ("" if t else ", not transformed",))
            rep.instance("apply", name)
            cl = Own(prog)
            eng = SysEngine(prog, cl)
            st = known([4326, 1, 4326, 3857, 3, 3857, t])
            st.env[("val", ("in",))] = ("pt", ("in", ("x",)), ("in", ("y",)))
            o = one(cl, eng.run(c, args=[("loc", ("base",))], st=st), c, name)
            if o:
                o1 = one(cl, eng.run(tr, st=o[1]), tr, name)
                if o1 and cl.value(eng, o1[1], o1[2]) != ("c", t):
                    cl.viol.append(("%s does not say whether it transforms" % name, tr, 0))
                o2 = one(cl, eng.run(op, args=[("loc", ("in",))], st=o[1]), op, name)
                if o2 and cl.value(eng, o2[1], o2[2]) != ("fwd", st.env[("val", ("in",))], ("transformation", 4326, 3857)):
                    cl.viol.append(("%s does not transform from the one projection to the other" % name, op, 0))
            report(rep, "apply", cl, name)


class Own(Systems):
    def on_call(self, eng, st, fr, n, c, obj, args):
        if (c.get("rec") or "") == GEO + "point_reprojector":
            return None
        return super().on_call(eng, st, fr, n, c, obj, args)


DATA = ("p:data",)
# what is read from these files is in the system of these options
ROLES = {("tracks", "files"): "srs_tracks", ("match", "files"): "srs_match", ("comparison", "files"): "srs_compare", ("network", "files"): "srs"}


class App(OptCl):
    """which system and which reprojector a reader or writer is given"""
    max_depth = 10

    def more(self, eng, st, fr, n, c, obj, args):
        q, rec, name = c["q"], c.get("rec") or "", c["n"]
        vals = [eng.rv(st, a) if a[0] == "loc" else a for a in args]
        if q.startswith(GEO) and name == "create_point_reprojector":
            return [(NEXT, st, ("reprojector", of(vals[0]) or of(args[0])))]
        if q.startswith(GEO) and name == "compute_next_srs_transform":
            return [(NEXT, st, ("next", of(args[0])) + tuple(v[1] if v[0] == "c" else None for v in vals[1:]))]
        short = rec.rsplit("::", 1)[-1]
        if n["k"] == "ctor" and rec.startswith("map_matching_2::io::") and "helper" not in rec and (short.endswith(("importer", "exporter")) or short == "osm_handler"):
            self.made.append((short, vals, fr.fn, n["l"]))
            return [(NEXT, st, ("term", short, None, ()))]
        if name in ("make_unique", "make_shared") and args:
            m = re.match(r"\s*map_matching_2::io::\w+::(\w+)", c.get("ta") or "")
            if m and (m[1].endswith(("importer", "exporter")) or m[1] == "osm_handler"):
                self.made.append((m[1], vals, fr.fn, n["l"]))
                return [(NEXT, st, ("term", m[1], None, ()))]
        if n["k"] == "ctor" and c.get("ctor") in ("copy", "move") and args and rec.startswith((GEO, "std::variant")):
            return [(NEXT, st, vals[0])]
        if self.stop_at_system and "cs::" in (c.get("ta") or "") and n["k"] != "ctor" and q.startswith("map_matching_2::app::"):
            self.chosen.append(pair(c["ta"])[:1])
            return [(NEXT, st, U)]
        return None

    def should_inline(self, eng, fn, callee, node):
        return fn.n == "benchmark" and "/util/" in fn.file or fn.file.startswith("app/") and (open_ended(fn) or not any(ctors(fn)))


def open_ended(f):
    """whether its callers say which system it works in"""
    return any(tname(p.get("t")).split("<")[0].endswith(("srs_transform", "point_reprojector_variant", "std::variant")) for p in f.j["ps"])


def ctors(f):
    """the readers and writers that a function makes"""
    for n in ir.walk(f.body):
        c = n.get("c") or {}
        if n.get("k") == "ctor" and (c.get("rec") or "").startswith("map_matching_2::io::") and (c["rec"].endswith(("importer", "exporter")) or c["rec"].endswith("osm_handler")):
            yield n
        elif c.get("n") in ("make_unique", "make_shared") and re.match(r"\s*map_matching_2::io::network::osm_handler", c.get("ta") or ""):
            yield n


def of(v):
    """the data that a value is: the path behind the data of the mode"""
    if v and v[0] == "next":
        return v
    p = path_of(v)
    return p[1:] if p and p[0] == DATA[0] else None


def app(prog, rep):
    rep.rule("app", "each reader is given the system of the files it reads, with the reprojector of that system, a network is kept in the system it is transformed to, "
             "and its export as OpenStreetMap data is in geographic coordinates")
    lits = literals(prog)
    seen = set()
    parts = {f.id for f in prog.fns.values() if f.has_body and f.file.startswith("app/") and open_ended(f) and any(ctors(f))}
    roots = {f.id for f in prog.fns.values() if parts and f.has_body and f.file.startswith("app/") and not open_ended(f)
             and any((n.get("c") or {}).get("id") in parts for n in ir.walk(f.body))}
    for f in prog.fns.values():
        if not (f.has_body and f.file.startswith("app/") and (f.id in roots or any(ctors(f)))) or (f.loc, f.n) in seen:
            continue
        seen.add((f.loc, f.n))
        cl = App(lits)
        cl.made, cl.stop_at_system = [], False
        eng = Engine(prog, cl)
        eng.max_steps = 400000
        eng.lam_bodies = 2
        args = [("loc", DATA) if tname(p.get("t")).endswith("_data") else ("loc", ("p:" + (p["n"] or "_"),)) for p in f["ps"]]
        eng.run(f, args=args)
        rep.fn(f)
        for what, vals, fn, line in cl.made:
            files = [ROLES[p] for p in (of(v) for v in vals) if p in ROLES]
            given = [p for p in (of(v) for v in vals) if p and len(p) == 2 and p[1] == "srs_transform"]
            reps = [v[1] for v in vals if v[0] == "reprojector"]
            if not files and not given and not reps:
                continue
            role = files[0] if files else "srs_tracks" if what == "input_importer" else "srs"
            want = (role, "srs_transform")
            if what == "osm_exporter":
                want = ("next", ("srs", "srs_transform"), 4326, GEOGRAPHIC)
            rep.instance("app", "%s in %s, line %d" % (what, f.n, line))
            for p in given:
                if p != want:
                    bad(rep, "%s: the %s is given the system of %s instead of %s" % (f.n, what, p[0], want[0]), fn, line)
            for p in reps:
                if p != want:
                    bad(rep, "%s: the %s is given a reprojector of %s instead of %s" % (f.n, what, spell(p), spell(want)), fn, line)
            if not reps and not (what.startswith("osm_") and what.endswith("importer")) and not open_ended(f):
                bad(rep, "%s: the %s is given no reprojector of known origin" % (f.n, what), fn, line)
    network(prog, rep, lits)
    rep.floor("app", 12)


def spell(p):
    return "something else" if p is None else "the way back from %s to %s (%s)" % (".".join(p[1] or ("?",)), p[2], kinds(p[3])) if p[0] == "next" else ".".join(p)


def bad(rep, msg, fn, line):
    rep.violation("app:" + msg, msg, "%s:%d" % (fn.file, line))


def network(prog, rep, lits):
    """the type of network that is made for a system"""
    for fname, at in (("create_network_import", ("srs", "srs_transform", "transform_srs_type")), ("open_network", ("srs", "srs", "srs_type"))):
        f = next((f for f in prog.q("map_matching_2::app::" + fname) if f.has_body), None)
        if not f:
            continue
        for kind in range(4):
            cl = App(lits)
            cl.made, cl.chosen, cl.stop_at_system = [], [], True
            eng = Engine(prog, cl)
            st = St()
            st.env[("val", DATA + at)] = ("c", kind)
            outs = eng.run(f, args=[("loc", DATA)], st=st)
            name = "%s, %s" % (fname, kinds(kind))
            rep.instance("app", name)
            rep.fn(f)
            want = [(CS[kind],)] if kind else []
            if cl.chosen != want or not kind and any(k != THROW for k, s, v in outs):
                bad(rep, "%s: a network with coordinates that are %s is made" % (name, [x[0] if x else "?" for x in cl.chosen] or "nothing"), f, int(f.loc.rsplit(":", 1)[-1]))
    for rec, srs_ in (("srs_data", "compute_srs"), ("srs_transform_data", "compute_srs_transform")):
        for f in prog.fns.values():
            if f.n != "correct" or not f.has_body or (f.rec or "").rsplit("::", 1)[-1] != rec:
                continue
            cl = Correct(lits)
            eng = Engine(prog, cl)
            cl.calls = []
            eng.run(f, this=("loc", THIS), args=[("loc", ("p:vm",))])
            rep.instance("app", "%s::correct" % rec)
            rep.fn(f)
            want = (srs_, (("_srs",), ("_srs_type",)) + ((("_transform_srs",), ("_transform_srs_type",)) if "transform" in rec else ()), srs_[8:])
            if cl.calls != [want]:
                bad(rep, "%s::correct: the system is not the one of the options" % rec, f, int(f.loc.rsplit(":", 1)[-1]))


class Correct(OptCl):
    def more(self, eng, st, fr, n, c, obj, args):
        if c["q"].startswith(GEO) and c["n"] in ("compute_srs", "compute_srs_transform"):
            return [(NEXT, st, ("made", c["n"], tuple((path_of(eng.rv(st, a) if a[0] == "loc" else a) or ("?",))[1:] for a in args)))]
        if c["n"] == "operator=" and (c.get("rec") or "").startswith(GEO) and obj is not None and args:
            v = eng.rv(st, args[0]) if args[0][0] == "loc" else args[0]
            if v[0] == "made" and obj[0] == "loc":
                self.calls.append(v[1:] + (obj[1][-1],))
                return [(NEXT, st, obj)]
        return None


def run(prog, rep):
    resolve(prog, rep)
    dispatch(prog, rep)
    apply(prog, rep)
    app(prog, rep)

"""C05: copy, move and converting operations carry the whole state and nothing of the old one."""
from ..flow import Engine, Client, NEXT, RET, THROW, U, Limit
from .. import ir
import functools
from .c06 import strip, show

TUS = ["verif:copies.cpp"]

CACHE_RECS = ("rich_line_data", "rich_segment_data", "multi_rich_line_data", "route_data")
CONTENT = "[content]"
APPEND = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "append"}
CLEAR = {"clear"}
REPLACE = {"assign", "operator=", "swap"}
NEUTRAL = {"reserve", "shrink_to_fit", "size", "empty", "begin", "end", "cbegin", "cend", "get_allocator", "capacity"}
IDENT_CALLS = {"cbegin", "cend", "begin", "end", "move", "forward", "make_move_iterator", "rbegin", "rend", "data", "size", "get_allocator",
               "back_inserter", "operator*", "get"}


def src_fields(v, roots, out=None, depth=0):
    """names of source members a value is made from; '*' = the whole source"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] in ("loc", "in", "ptr") and isinstance(v[1], tuple):
            p = v[1]
            for r in roots:
                if p[:len(r)] == r:
                    rest = [x for x in p[len(r):] if x not in ("*",)]
                    out.add("*" if not rest or rest[0] == "[]" else rest[0])
            return out
        if v and v[0] in ("term", "op") and "get_allocator" in v[1:3]:
            return out          # an allocator carries no content
        for x in v:
            src_fields(x, roots, out, depth + 1)
    return out


def altered(v):
    """an arithmetic/logical transformation on the way"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ("op", "un"):
        return True
    if v[0] == "agg":
        return any(altered(x) for x in v[1])
    return False


class Cl(Client):
    loop_min = 1
    loop_rounds = 1
    max_depth = 5

    def should_inline(self, eng, fn, callee, node):
        # numeric algorithms never copy state
        return "/algorithm/" not in fn.file

    def accessor(self, eng, c, depth=0):
        """member that an argument-less method returns (through base accessors), or None"""
        if c.get("id") in self.acc:
            return self.acc[c["id"]]
        self.acc[c["id"]] = None
        fn = eng.p.callee_fn(c)
        res = None
        if fn is not None and fn.has_body and not fn["ps"] and fn.r and depth < 6:
            rets = [x for x in ir.walk(fn.body, lambdas=False) if x.get("k") == "ret"]
            got = set()
            for r in rets:
                e = r.get("e")
                while e and e["k"] in ("icast", "cast"):
                    e = e["e"]
                if e and e["k"] == "mem" and unwrap(e["b"])["k"] == "this":
                    got.add(e["n"])
                elif e and e["k"] == "mcall" and unwrap(e["o"])["k"] == "this" and not e["a"] and e.get("c"):
                    got.add(self.accessor(eng, e["c"], depth + 1))
                elif e and e["k"] == "un" and e["op"] == "*" and unwrap(e["e"])["k"] == "mem":
                    got.add(None)
                else:
                    got.add(None)
            if len(got) == 1:
                res = got.pop()
        self.acc[c["id"]] = res
        return res

    def __init__(self, prog, fields, kind):
        self.prog, self.fields, self.kind = prog, fields, kind
        self.roots = []
        self.acc = {}

    def note(self, st, field, fresh, v, part=None):
        old = st.facts.get(("f", field))
        prov = frozenset(src_fields(v, self.roots)) if v is not None else frozenset()
        if fresh:
            st.facts[("f", field)] = (True, prov, altered(v), v[0] == "c" if v else True)
        else:
            o = old or (self.kind == "ctor", frozenset(), False, True)
            st.facts[("f", field)] = (o[0], o[1] | prov, o[2] or altered(v), False)
            if part is not None:
                st.facts[("part", field)] = st.facts.get(("part", field), frozenset()) | {part}
            else:
                st.facts[("cont", field)] = True
            if part is None and not o[0]:
                st.facts[("dirty", field)] = True

    def fld(self, path):
        """target field of a path or None"""
        if not path or path[0] != "this":
            return None
        return path[1] if len(path) > 1 and path[1] not in ("[]",) else CONTENT

    def on_write(self, eng, st, fr, path, value, node, op="="):
        if path[0] != "this" or (value and value[0] == "loc" and value[1] == path):
            return
        if value and value[0] == "loc" and value[1][0][:2] in ("v:", "t:"):
            value = eng.rv(st, value)
        if len(path) == 1:
            for f in self.fields:
                if value and value[0] in ("loc", "in"):
                    self.note(st, f, True, (value[0], value[1] + (f,)) if f != CONTENT else value)
                else:
                    self.note(st, f, True, value)
            return
        f = path[1]
        if len(path) == 2:
            self.note(st, f, op in ("=", "init"), value)
        elif path[2] != "*":
            self.note(st, f, False, value, part=path[2])
        else:
            self.note(st, f, True, value)

    def on_call(self, eng, st, fr, node, c, obj, args):
        rec, name = c.get("rec", ""), c["n"]
        ext = not (c.get("r") in self.prog.recs)
        if not ext and obj is not None and obj[0] == "loc" and not args and not c.get("ctor"):
            f = self.accessor(eng, c)
            if f:
                return [(NEXT, st, ("loc", obj[1] + (f,)))]
        if not ext and obj is not None and obj[0] == "loc" and args and not c.get("ctor") and obj[1][0] == "this" and \
                not any(src_fields(eng.rv(st, a) if a[0] == "loc" else a, self.roots) for a in args):
            return [(NEXT, st, U)]    # cannot carry anything from the source
        # copy / move / conversion of one of our records: its own operation is an instance of its own (or defaulted)
        if (c.get("ctor") or name == "operator=") and not ext and args and obj is not None and obj[0] == "loc" and args[0][0] in ("loc", "in", "t"):
            at = (c.get("pt") or [None])[0] or {}
            o = at.get("r")
            if o in self.prog.recs and family(self.prog, c["r"]) & family(self.prog, o):
                st = st.copy()
                if obj[1] == ("this",):
                    tf, sf = all_fields(self.prog, c["r"]), all_fields(self.prog, o)
                    for f in tf:
                        if f in sf and args[0][0] != "t":
                            self.note(st, f, True, (args[0][0], args[0][1] + (f,)))
                            st.env[("val", ("this", f))] = ("in", args[0][1] + (f,))
                    return [(NEXT, st, obj)]
                if c.get("ctor"):
                    return [(NEXT, st, args[0])]
                eng.write(st, fr, obj, args[0], node, "=")
                return [(NEXT, st, obj)]
        if name in ("swap", "exchange", "iter_swap") and obj is None and len(args) == 2 and args[0][0] == "loc":
            st = st.copy()
            a, b = args
            va, vb = eng.rv(st, a), eng.rv(st, b) if b[0] == "loc" else b
            eng.write(st, fr, a, vb if b[0] != "loc" or vb[0] != "in" else b, node, "=")
            if b[0] == "loc" and name == "swap":
                eng.write(st, fr, b, va, node, "=")
            return [(NEXT, st, va)]
        # algorithms that fill a container through an inserter
        if obj is None and ext and any(a[0] == "term" and a[1] in ("back_inserter", "inserter", "front_inserter") for a in args):
            st = st.copy()
            for a in args:
                if a[0] == "term" and a[1] in ("back_inserter", "inserter", "front_inserter"):
                    dst = a[3][0] if a[3] else None
                    if dst and dst[0] in ("in", "loc"):
                        f = self.fld(dst[1])
                        if f:
                            self.note(st, f, False, ("t",) + tuple(x for x in args if x is not a))
            return [(NEXT, st, U)]
        if name in ("back_inserter", "inserter", "front_inserter") and obj is None and args:
            return [(NEXT, st, ("term", name, None, (args[0],)))]
        if obj is not None and obj[0] == "loc" and ext:
            f = self.fld(obj[1])
            if f is not None:
                if c.get("ctor"):
                    if obj[1] == ("this",):
                        st = st.copy()
                        self.note(st, CONTENT, True, ("t",) + tuple(args))
                        return [(NEXT, st, obj)]
                    if fr.this == obj:      # base class of a member
                        st = st.copy()
                        eng.write(st, fr, obj, ("t",) + tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args), node, "=")
                        return [(NEXT, st, obj)]
                    if len(obj[1]) == 2:
                        return [(NEXT, st, ("t", "ctor") + tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args))]
                elif name in CLEAR or (name == "resize" and args and args[0] == ("c", 0)):
                    st = st.copy()
                    self.note(st, f, True, None)
                    st.facts[("cont", f)] = True
                    return [(NEXT, st, U)]
                elif name in REPLACE:
                    st = st.copy()
                    if len(obj[1]) <= 2:
                        self.note(st, f, True, ("t",) + tuple(args))
                    else:
                        self.note(st, f, False, ("t",) + tuple(args), part=obj[1][2])
                    if name == "operator=":
                        eng.write(st, fr, obj, args[0] if args else U, node, "=") if len(obj[1]) > 1 else None
                    return [(NEXT, st, obj)]
                elif name in APPEND:
                    st = st.copy()
                    self.note(st, f, False, ("t",) + tuple(args))
                    return [(NEXT, st, U)]
                elif name in NEUTRAL:
                    return None
        # a graph filled from another graph as a whole: decided by C09 for the filling function
        if not ext and obj is not None and obj[0] == "loc" and obj[1] == ("this",) and args and args[0][0] == "loc" and \
                args[0][1] in self.roots and "graph::" in rec and not c.get("ctor") and not c.get("asg") and not c.get("const"):
            st = st.copy()
            for f in self.fields:
                self.note(st, f, False, ("loc", args[0][1] + (f,)))
            return [(NEXT, st, U)]
        return None

    def on_cond(self, eng, st, fr, val, truth, node):
        if val and val[0] == "op" and val[1] in ("!=", "==", "operator!=", "operator=="):
            ps = [x[1] for x in val[2:4] if isinstance(x, tuple) and x[0] == "ptr"]
            if len(ps) == 2 and set(ps) & {("this",)} and set(ps) & set(self.roots):
                same = (val[1].endswith("==")) == truth
                return None if same else st
        st.facts["conds"] = st.facts.get("conds", ()) + ((val, truth),)
        return st


@functools.lru_cache(None)
def all_fields(prog, rid):
    """name -> owning record of all non-static members, including those of bases"""
    out = {}
    for r in prog.bases_closure(rid):
        rec = prog.recs[r]
        for f in rec.fields:
            out[f["n"]] = rec
        for b in rec.bases:
            if b.get("r") not in prog.recs and not empty_ext(b):
                out[CONTENT] = rec
    return out


def unwrap(e):
    while e and e.get("k") in ("icast", "cast") or (e and e.get("k") == "un" and e.get("op") == "*"):
        e = e["e"]
    return e or {"k": None}


def empty_ext(b):
    q = b.get("q") or b.get("n") or ""
    return not any(x in q for x in ("vector", "list", "deque", "map", "set", "pair", "array", "linestring", "segment", "point"))


@functools.lru_cache(None)
def family(prog, rid):
    return {strip(prog.recs[r].q) for r in prog.bases_closure(rid)}


def special_functions(prog):
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, f.id)):
        if not f.has_body or not f.r or f.r not in prog.recs:
            continue
        nm = f.q.rsplit("::", 1)[-1]
        ctor = "inits" in f.j
        if not (ctor or nm == "operator=") or not f["ps"]:
            continue
        t = f["ps"][0].get("t") or {}
        o = t.get("r")
        if o not in prog.recs or "&" not in t.get("f", ""):
            continue
        if not any(x in f.file for x in ("library/", "app/")):
            continue
        yield f, ("ctor" if ctor else "asg"), o


# members that are deliberately not taken over
NOT_COPIED = {
}


def run(prog, rep):
    rep.rule("complete", "on every path that is not self assignment, every member the target shares with the source is taken, unaltered, "
                         "from the same-named member of the source")
    rep.rule("replace", "in an assignment a container is emptied or replaced before source elements are added to it")
    n = 0
    for f, kind, o in special_functions(prog):
        same = strip(prog.recs[o].q) == strip(prog.recs[f.r].q)
        if not same and not (family(prog, f.r) & family(prog, o)):
            continue
        tf, sf = all_fields(prog, f.r), all_fields(prog, o)
        shared = {x for x in tf if x in sf}
        # void data members and the like: nothing to carry
        if not shared:
            continue
        if kind == "ctor" and f.j.get("delegating"):
            pass
        name = "%s %s from %s%s" % (strip(f.q), {"ctor": "constructed", "asg": "assigned"}[kind], strip(prog.recs[o].q),
                                    {"&": "&", "&&": "&&"}.get((f["ps"][0]["t"].get("f") or "").replace("c", ""), ""))
        name = name.replace("map_matching_2::", "")
        src = ("p:%s" % (f["ps"][0]["n"] or 0),)
        cl = Cl(prog, tf, kind)
        cl.roots = [src]
        eng = Engine(prog, cl)
        try:
            outs = eng.run(f)
        except Limit as e:
            rep.note("%s: %s" % (name, e))
            continue
        n += 1
        rep.fn(f)
        rep.instance("complete", "%s@%s" % (name, f.loc), f.loc)
        if kind == "asg":
            rep.instance("replace", "%s@%s" % (name, f.loc), f.loc)
        for l in eng.inlined:
            rep.fn(l)
        anyof = {}
        for k, s, v in outs:
            if k != THROW:
                for fl in shared:
                    got = s.facts.get(("f", fl))
                    if got is not None and s.facts.get(("cont", fl)) and {fl, "*"} & got[1]:
                        anyof[fl] = True
        for k, s, v in outs:
            if k == THROW:
                continue
            conds = s.facts.get("conds", ())
            for fl in sorted(shared):
                if (strip(f.q), fl) in NOT_COPIED:
                    continue
                cache = not same and any(tf[fl].q.rsplit("::", 1)[-1].split("<")[0] == x for x in CACHE_RECS)
                got = s.facts.get(("f", fl))
                if s.facts.get(("dirty", fl)):
                    rep.violation("append:%s:%s" % (name, fl), "%s adds to member %s without removing its earlier content" % (name, fl), f.loc)
                if cache and not (got and got[1] and not ({fl, "*"} & got[1])):
                    continue
                key = "%s:%s" % (name, fl)
                if (got is None or not ({fl, "*"} & got[1])) and not (got and anyof.get(fl) and s.facts.get(("cont", fl))):
                    rep.violation("missing:" + key, "%s: member %s is not taken from the source%s%s" % (
                        name, fl, "" if got is None or not got[1] else " but from " + ", ".join(sorted(got[1])), when(conds)), f.loc)
                elif s.facts.get(("part", fl)) in (frozenset(["first"]), frozenset(["second"])):
                    rep.violation("partial:" + key, "%s: only %s of member %s is taken over%s" % (
                        name, "/".join(s.facts[("part", fl)]), fl, when(conds)), f.loc)
                elif got[2]:
                    rep.violation("altered:" + key, "%s: member %s is altered on the way%s" % (name, fl, when(conds)), f.loc)
    rep.floor("complete", 100)
    rep.floor("replace", 30)


def when(conds):
    return " when " + " and ".join("%s is %s" % (show(c) if c else "?", t) for c, t in conds) if conds else ""

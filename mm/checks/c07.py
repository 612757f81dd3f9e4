"""C07: cached derived values of rich geometries are those of the current geometry."""
import itertools
from ..flow import Engine, Client, NEXT, RET, THROW, U, Limit, St
from .. import ir
from .c06 import strip, show

TUS = ["verif:rich.cpp", "verif:copies.cpp"]

NEUTRAL = {"reserve", "shrink_to_fit", "size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend",
           "get_allocator", "capacity", "back", "front", "at", "operator[]", "data", "max_size"}
INSERTER = {"back_inserter", "inserter", "front_inserter"}


# ------------------------------------------------------------------ records
def closure_fields(prog, rid):
    out = {}
    for r in prog.bases_closure(rid):
        for f in prog.recs[r].fields:
            out.setdefault(f["n"], (f, prog.recs[r]))
    return out


def split(prog, rid):
    """(cache fields, geometry fields) of a record: mutable members are caches"""
    fs = closure_fields(prog, rid)
    cache = {n for n, (f, r) in fs.items() if f.get("mut")}
    geo = {n for n, (f, r) in fs.items() if n not in cache}
    return cache, geo


def eager(prog, rid):
    """an eager type: own accessors do not compute, only constructors / assignments do"""
    return any("::eager_" in "::" + strip(prog.recs[r].q) for r in prog.bases_closure(rid))


# ------------------------------------------------------------- linear forms
def lin(v, gvmap=None):
    """(dict atom -> coefficient, constant) or None"""
    if not v or len(v) < 2:
        return None
    if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
        return ({}, v[1])
    if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
        a, b = lin(v[2]), lin(v[3])
        if a is None or b is None:
            return None
        s = 1 if v[1] == "+" else -1
        d = dict(a[0])
        for k, c in b[0].items():
            d[k] = d.get(k, 0) + s * c
        return ({k: c for k, c in d.items() if c}, a[1] + s * b[1])
    return ({v: 1}, 0)


def diff(a, b):
    return lin(("op", "-", a, b))


def nonzero(cond, truth):
    """the linear form that an (in)equality being `truth` excludes from zero, plus the forms known to be zero"""
    if not (isinstance(cond, tuple) and cond and cond[0] == "op" and len(cond) == 4):
        return None, None
    op = cond[1].replace("operator", "")
    f = diff(cond[2], cond[3])
    if f is None:
        return None, None
    a, c = f
    if op == "==":
        return (None, (a, c)) if truth else ((a, c), None)
    if op == "!=":
        return ((a, c), None) if truth else (None, (a, c))
    k = {("<", True): 0, (">", True): 0, ("<=", True): -1, (">=", True): 1,
         ("<", False): 1, ("<=", False): 0, (">=", False): 0, (">", False): -1}.get((op, truth))
    return (None, None) if k is None else ((a, c + k), None)


def has_leaf(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        return any(has_leaf(x, pred) for x in v)
    return False


class Eng(Engine):
    """floating point sums are all alike, and so are exceptions"""

    def e_throw(self, n, fr, st, dest):
        return [(k, s, ("exc",) if v and v[0] == "exc" else v) for k, s, v in super().e_throw(n, fr, st, dest)]

    def e_bin(self, n, fr, st, dest):
        r = super().e_bin(n, fr, st, dest)
        if (n.get("t") or {}).get("k") == "f" and n["op"] in "+-*/":
            return [(k, s, ("term", "sum", None, ()) if k == NEXT else v) for k, s, v in r]
        return r

    def write(self, st, fr, tgt, val, n, op):
        if isinstance(n, dict) and n.get("k") == "asg" and n["op"] not in ("=",) and (n.get("t") or {}).get("k") == "f":
            val = ("term", "sum", None, ())
        if tgt[0] == "loc" and isinstance(self.cl, Cl) and self.cl.root_of(tgt[1]):
            # the status of a field stands for its value
            path = tgt[1]
            self.cl.on_write(self, st, fr, path, val, n, op)
            for k in [k for k in st.env if k[0] == "val" and k[1][:len(path)] == path]:
                del st.env[k]
            return
        super().write(st, fr, tgt, val, n, op)


# ------------------------------------------------------------------- client
class Cl(Client):
    max_depth = 9
    loop_rounds = 1
    loop_min = 1

    def __init__(self, chk, roots, srcs, keep_conds):
        self.chk, self.prog = chk, chk.prog
        self.roots = roots            # root path -> record id
        self.srcs = srcs              # root name -> record id of source objects
        self.keep = keep_conds
        self.nv, self.comp, self.recomp, self.erased = set(), set(), set(), set()

    def root_of(self, path):
        for r in self.roots:
            if path[:len(r)] == r:
                return r
        return None

    def caches(self, r):
        return self.chk.split(self.roots[r])[0]

    # status ------------------------------------------------------------
    def get(self, st, r, f):
        return st.facts.get(("s", r, f), "old")

    def put(self, st, r, f, v):
        if v == "nv":
            self.nv.add((r, f))
            v = "fresh"
        elif v == "fresh":
            self.comp.add((r, f))
        st.facts[("s", r, f)] = v

    def geo(self, st, r, node=None):
        st.facts[("gv", r)] = min(st.facts.get(("gv", r), 0) + 1, 3)
        for f in self.caches(r):
            s = self.get(st, r, f)
            if s in ("old", "fresh", "ok"):
                self.put(st, r, f, "stale")
            elif s == "touched" and st.facts.get(("tc", r, f)):
                self.put(st, r, f, "stale")

    def classify(self, st, v):
        if v is None:
            return "fresh"
        if v[0] == "in" and v[1][0].startswith("g:"):
            n = v[1][0]
            if "not_initialized" in n:
                return "reset"
            if "not_valid" in n:
                return "nv"
        if v[0] == "c":
            return {"nan": "reset", "inf": "nv"}.get(v[1], "const")
        src = None
        # values that come from another rich object
        for name, rid in self.srcs.items():
            if has_leaf(v, lambda x: isinstance(x, tuple) and x and x[0] in ("in", "loc") and len(x) > 1 and
                        isinstance(x[1], tuple) and x[1] and x[1][0] == name):
                src = (name, rid)
        if src:
            rid = src[1]
            if rid is None or (rid in self.prog.recs and eager(self.prog, rid)):
                return "srcok"
            if v[0] == "term" and v[1] == "computed":
                return "srcok"
            return "src"
        if has_leaf(v, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] in ("in", "loc") and isinstance(x[1], tuple) and
                    len(x[1]) > 1 and self.root_of(x[1]) and x[1][len(self.root_of(x[1]))] in self.caches(self.root_of(x[1])) and
                    not (v[0] == "op")):
            return "self"
        return "fresh"

    # events --------------------------------------------------------------
    def on_write(self, eng, st, fr, path, value, node, op="="):
        r = self.root_of(path)
        if r is None:
            return
        if value and value[0] == "loc":
            value = eng.rv(st, value)
        if len(path) == len(r):
            if value and value[0] in ("in", "loc"):
                cache, geo = self.chk.split(self.roots[r])
                self.geo(st, r)
                for f in cache:
                    self.put(st, r, f, self.classify(st, value))
            return
        f = path[len(r)]
        cache, geo = self.chk.split(self.roots[r])
        if f in geo:
            self.geo(st, r, node)
            return
        if f not in cache:
            return
        if len(path) == len(r) + 1:
            c = self.classify(st, value)
            if c == "self":
                return
            self.put(st, r, f, ("fresh" if value[1] else "reset") if c == "const" and isinstance(value[1], bool) else "nv" if c == "const" else c)
        else:
            c = self.classify(st, value)
            if self.get(st, r, f) != "reset" or c == "fresh":
                if self.get(st, r, f) not in ("fresh", "srcok"):
                    self.put(st, r, f, "touched")
                st.facts[("tc", r, f)] = c == "fresh"
            if c in ("fresh", "nv", "const"):
                st.facts.pop(("er", r, f), None)
            el = path[-1]
            if isinstance(el, tuple):
                if self.chk.accessor:
                    st.facts[("el", r, f) + el] = "ok"
                if c == "fresh" and value and value[0] == "term":
                    self.recomp.add((r, f))
                    self.chk.element(el[1], value, f, fr, node)

    def should_inline(self, eng, fn, callee, node):
        return "rich_type/" in fn.file or "route/" in fn.file

    def on_read(self, eng, st, fr, path, node):
        return None

    def on_call(self, eng, st, fr, node, c, obj, args):
        name = c["n"]
        ext = c.get("r") not in self.prog.recs
        if name in ("initialized", "valid") and obj is None and len(args) == 1:
            a = args[0]
            p = a[1] if a[0] in ("loc", "in") else None
            r = self.root_of(p) if p else None
            if a[0] == "loc" and r is None:
                a = eng.rv(st, a)
            if r is None and a[0] == "in" and a[1][0].startswith("g:"):
                if name == "initialized":
                    return [(NEXT, st, ("c", "not_initialized" not in a[1][0]))]
                return [(NEXT, st, ("c", False))]
            if a[0] == "c":
                return [(NEXT, st, ("c", a[1] != "nan" and (name == "initialized" or a[1] != "inf")))]
            if r is not None and name == "valid":
                self.use(st, r, p, node)
            return [(NEXT, st, ("term", name, None, (("in", p) if p else a,)))]
        # element access: remember the index
        if ext and name in ("at", "operator[]") and obj is not None and obj[0] == "loc" and args:
            return [(NEXT, st, ("loc", obj[1] + ("[]", ("ix", eng.rv(st, args[0]) if args[0][0] == "loc" else args[0]))))]
        if obj is not None and obj[0] == "ptr":
            obj = ("loc", obj[1])
        if ext and c.get("ctor") and obj is not None and obj[0] == "loc" and args:
            r = self.root_of(obj[1])
            if r is not None and len(obj[1]) == len(r) + 1 and obj[1][-1] in self.caches(r):
                vals = tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args)
                cl = self.classify(st, ("t",) + vals)
                if cl in ("src", "srcok"):
                    st = st.copy()
                    self.put(st, r, obj[1][-1], cl)
                    return [(NEXT, st, ("term", "ctor", None, vals))]
        if ext and obj is None and name in INSERTER and args and args[0][0] == "loc":
            r = self.root_of(args[0][1])
            if r is not None:
                st = st.copy()
                if args[0][1][len(r):][:1] and args[0][1][len(r)] in self.chk.split(self.roots[r])[1]:
                    self.geo(st, r, node)
            return [(NEXT, st, ("term", name, None, (args[0],)))]
        # algorithm that fills through an inserter
        if ext and obj is None:
            for a in args:
                if a[0] == "term" and a[1] in INSERTER and a[3] and a[3][0][0] in ("loc", "in"):
                    r = self.root_of(a[3][0][1])
                    if r is not None:
                        st = st.copy()
                        f = a[3][0][1][len(r)] if len(a[3][0][1]) > len(r) else None
                        if f in self.caches(r):
                            cl = self.classify(st, ("t",) + tuple(eng.rv(st, x) for x in args if x is not a))
                            was = self.get(st, r, f)
                            raw = st.facts.get(("filled",), frozenset())
                            if cl in ("src", "srcok", "fresh") and was == "reset":
                                self.put(st, r, f, "srcok" if f in raw and cl == "src" else cl)
                            else:
                                self.put(st, r, f, "touched")
                        return [(NEXT, st, U)]
        if obj is not None and obj[0] == "loc":
            r = self.root_of(obj[1])
            if r is not None and ext and not c.get("ctor") and len(obj[1]) > len(r):
                if name not in NEUTRAL and not c.get("const"):
                    st = st.copy()
                    vals = tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args)
                    self.mutate(st, r, obj[1], vals, name, eng, fr, node)
                    return [(NEXT, st, ("term", name, None, vals) if name != "operator=" else obj)]
                if name in ("size", "empty"):
                    return [(NEXT, st, self.size(st, r, obj, name))]
                if c.get("const") or name in NEUTRAL - {"back", "front"}:
                    return None
            # const methods of the geometry side: values of the current geometry, not looked into
            if not ext and not c.get("ctor") and c.get("const"):
                if r is not None and len(obj[1]) == len(r):
                    cache, _ = self.chk.split(c["r"])
                    if not cache:
                        if name in ("size", "empty"):
                            return [(NEXT, st, self.size(st, r, obj, name))]
                        return [(NEXT, st, ("term", name, None, tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args) +
                                            (("gv", st.facts.get(("gv", r), 0)),)))]
                elif r is None:
                    nm = obj[1][0]
                    if nm in self.srcs and len(obj[1]) == 1:
                        fills = self.chk.fills(c)
                        if fills:
                            st = st.copy()
                            st.facts[("filled",)] = st.facts.get(("filled",), frozenset()) | fills
                            return [(NEXT, st, ("term", "computed", None, (("in", obj[1]), name)))]
                        return None
                    return [(NEXT, st, ("term", name, ("in", obj[1]), tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args)))]
        return None

    def size(self, st, r, obj, name):
        f = obj[1][len(r):]
        if f and f[0] in self.caches(r):
            s = self.get(st, r, f[0])
            if name == "empty" and s == "reset":
                return ("c", True)
            if name == "empty" and s in ("fresh",):
                return ("term", "empty", None, (("in", obj[1]),))
            return ("term", name, None, (("in", obj[1]),))
        return ("term", name, None, (("in", r), ("gv", st.facts.get(("gv", r), 0))))

    def mutate(self, st, r, path, vals, name, eng=None, fr=None, node=None):
        if len(path) <= len(r):
            return
        f = path[len(r)]
        cache, geo = self.chk.split(self.roots[r])
        if f in geo:
            self.geo(st, r, node)
            return
        if f not in cache:
            return
        if name == "clear":
            self.put(st, r, f, "reset")
        elif name in ("assign", "operator=", "swap"):
            c = self.classify(st, ("t",) + vals)
            if c == "src" and f in st.facts.get(("filled",), frozenset()):
                c = "srcok"
            self.put(st, r, f, c)
        elif name in ("emplace_back", "push_back", "insert", "emplace", "insert_range", "append"):
            c = self.classify(st, vals[-1]) if vals else "fresh"
            was = self.get(st, r, f)
            if was == "reset":
                self.put(st, r, f, "reset" if c == "nv" else c)
            elif was in ("fresh", "src", "srcok"):
                pass
            else:
                self.put(st, r, f, "touched")
                st.facts[("tc", r, f)] = c == "fresh" and was != "touched"
        elif name == "erase":
            if self.get(st, r, f) not in ("reset",):
                self.put(st, r, f, "touched")
                st.facts[("tc", r, f)] = False
                st.facts[("er", r, f)] = True
            self.erased.add((r, f))
        else:
            if name not in INSERTER:
                self.put(st, r, f, "touched")

    # R4: a lazy accessor looks at a value that may not be there yet
    def use(self, st, r, p, node):
        if self.chk.accessor is None:
            return
        rest = p[len(r):]
        if not rest or rest[0] not in self.caches(r):
            return
        if len(rest) == 1:
            if self.get(st, r, rest[0]) == "old":
                st.facts[("unc", rest[0])] = True
        elif len(rest) == 3:
            if st.facts.get(("el", r, rest[0]) + rest[2]) is None and self.get(st, r, rest[0]) not in ("fresh", "touched", "reset") and \
                    not st.facts.get(("ne", r, rest[0])):
                st.facts[("unc", rest[0])] = True

    def on_cond(self, eng, st, fr, val, truth, node):
        v, t = val, truth
        if v and v[0] == "term" and v[1] == "initialized" and v[3] and v[3][0][0] == "in":
            p = v[3][0][1]
            r = self.root_of(p)
            if r is not None and len(p) == len(r) + 1:
                s = self.get(st, r, p[-1])
                if s == "reset" and t:
                    return None
                if s in ("fresh", "ok") and not t:
                    return None
                if t and s == "src":
                    st.facts[("srcsib", r)] = True
                    for x in self.caches(r):
                        if self.get(st, r, x) == "src" and x.startswith(p[-1]):
                            self.put(st, r, x, "fresh")
                if t and s == "old" and not st.facts.get(("gv", r)):
                    st.facts[("sib", r)] = True
                if s in ("old", "src"):
                    if t:
                        self.put(st, r, p[-1], "ok" if s == "old" and not st.facts.get(("gv", r)) else ("fresh" if s == "src" else s))
                    else:
                        self.put(st, r, p[-1], "reset")
                if s == "stale" and not t:
                    self.put(st, r, p[-1], "reset")
                return st
            if r is not None and len(p) == len(r) + 3:
                k = ("el", r, p[len(r)]) + p[-1]
                if not self.chk.accessor:
                    return st
                if t:
                    st.facts[k] = "ok"
                elif st.facts.get(k) == "ok":
                    return None
                return st
        if v and v[0] == "term" and v[1] == "empty" and v[3] and v[3][0][0] == "in" and isinstance(v[3][0][1], tuple):
            p = v[3][0][1]
            r = self.root_of(p)
            if r is not None and len(p) > len(r) and p[len(r)] in self.caches(r):
                f = p[len(r)]
                s = self.get(st, r, f)
                if s == "fresh" and t:
                    return None
                if t and s in ("old", "stale", "src", "touched"):
                    self.put(st, r, f, "reset")
                elif not t and s == "src":
                    self.put(st, r, f, "fresh")
                elif self.chk.accessor and not t and s == "old" and not st.facts.get(("gv", r)):
                    st.facts[("ne", r, f)] = True
        if v and v[0] in ("op",) and v[1] in ("==", "!=") and self.selfcmp(v):
            same = (v[1] == "==") == t
            return None if same else st
        if self.keep and v:
            fst, lst = endpoint(v, t)
            if fst:
                st.facts[("first",)] = True
            if lst:
                st.facts[("last",)] = True
            if v[0] == "term" and v[1] == "empty" and t:
                st.facts[("nothing",)] = True
            for w in ends(v, t):
                st.facts[(w,)] = True
            x = outside(v, t)
            if x:
                st.facts[("out", x)] = True
        return st

    def selfcmp(self, v):
        ps = [x[1] for x in v[2:4] if isinstance(x, tuple) and x[0] == "ptr"]
        return len(ps) == 2 and ("this",) in ps and any(p[0] in self.srcs for p in ps)


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self._split, self._fills, self._wr = {}, {}, {}
        self.accessor = None
        self.cur = ""
        self.curfn = None

    def split(self, rid):
        if rid not in self._split:
            self._split[rid] = split(self.prog, rid) if rid in self.prog.recs else (set(), set())
        return self._split[rid]

    def writes(self, fn, seen=None):
        """cache fields a const method of an object (re)computes on some path"""
        seen = seen if seen is not None else set()
        if fn is None or fn.id in seen or not fn.has_body:
            return frozenset()
        seen.add(fn.id)
        out = set()
        cache = self.split(fn.r)[0] if fn.r else set()
        for x in ir.walk(fn.body):
            if x.get("k") == "asg":
                n = x["a"]
                while n["k"] in ("icast", "cast", "sub"):
                    n = n.get("e") or n.get("b")
                if n["k"] == "mem" and n["n"] in cache:
                    out.add(n["n"])
            elif x.get("k") == "mcall" and x.get("c"):
                o = x["o"]
                while o["k"] in ("icast", "cast") or (o["k"] == "un" and o["op"] == "*"):
                    o = o["e"]
                if o["k"] == "mem" and o["n"] in cache and x["c"]["n"] in ("emplace_back", "push_back", "resize", "insert"):
                    out.add(o["n"])
                if o["k"] == "this":
                    out |= self.writes(self.prog.callee_fn(x["c"]), seen)
        return frozenset(out)

    def fills(self, c):
        if c["id"] not in self._fills:
            self._fills[c["id"]] = self.writes(self.prog.callee_fn(c))
        return self._fills[c["id"]]

    # R5: element k of a per segment cache is recomputed from segment k
    def element(self, ix, value, f, fr, node):
        idx = []

        def rec(x):
            if isinstance(x, tuple):
                if x[:1] == ("term",) and len(x) == 4 and len(x[3]) == 2 and isinstance(x[3][1], tuple) and x[3][1][:1] == ("gv",):
                    idx.append(x[3][0])
                    return
                for y in x:
                    rec(y)
        rec(value)
        if not idx or ix[0] == "u":
            return
        key = "element:%s:%s" % (self.cur, f)
        loc = "%s:%s" % (fr.fn.file, node.get("l", "?"))
        cand = [a for a in idx if a[0] != "u" and (a[0] != "in" or a[1][0].startswith(("p:", "v:")))]
        self.rep.instance("segment", "%s %s" % (fr.fn.short if hasattr(fr.fn, "short") else "", f), loc)
        for a in cand:
            d = diff(ix, a)
            if d == ({}, 0):
                return
        if cand:
            self.rep.violation(key, "element %s of %s is computed from segment %s" % (show(ix), f, ", ".join(show(a) for a in cand)), loc)


def run(prog, rep):
    chk = Check(prog, rep)
    rep.rule("fresh", "after every operation that writes the geometry of a lazy or eager object, every cached value is dropped, recomputed from "
                      "the new geometry or taken over together with it; eager objects hold computed values")
    rep.rule("endpoint", "erasing points keeps the cached azimuth only where the first and the last point are known to stay")
    rep.rule("whole", "a sub line takes over a whole line value only where it covers the whole line")
    rep.rule("accessor", "every accessor of a lazy type computes the value it returns if it is not there yet")
    rep.rule("segment", "the cached value of one segment is recomputed from the segment of the same index")
    types = {}
    for rid, rec in prog.recs.items():
        q = strip(rec.q)
        cache, geo = chk.split(rid)
        if cache and geo and ("rich_type/" in rec.file or "route/" in rec.file):
            types[rid] = rec
    ids = {}
    done = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, f.id)):
        if not f.has_body or f.r not in types or f.j.get("dtor") or f.n.startswith("~") or f.n == "serialize":
            continue
        import time, os
        t0 = time.time()
        mutator(prog, rep, chk, types, f)
        if os.environ.get("DBG") and time.time() - t0 > 1: print("%.1f" % (time.time() - t0), f.loc, f.n)
        lazy_accessor(prog, rep, chk, types, f)
    whole(prog, rep, chk)
    rep.floor("fresh", 40)
    rep.floor("accessor", 20)
    rep.floor("whole", 1)
    rep.floor("segment", 2)


def pretty(f):
    ps = []
    for p in f["ps"]:
        t = (p.get("t") or {}).get("q") or (p.get("t") or {}).get("n") or "?"
        ps.append(strip(t).split("::")[-1])
    return "%s(%s)" % (strip(f.q).replace("map_matching_2::geometry::", ""), ", ".join(ps))


def mutator(prog, rep, chk, types, f):
    ctor = "inits" in f.j
    if f.j.get("const") and not f.j.get("static"):
        return
    roots, srcs = {}, {}
    if not f.j.get("static"):
        roots[("this",)] = f.r
    for p in f["ps"]:
        t = p.get("t") or {}
        r = t.get("r")
        if r in prog.recs and chk.split(r)[0]:
            if f.j.get("static") and "&" in t.get("f", "") and "c" not in t.get("f", "") and "&&" not in t.get("f", ""):
                roots[("p:" + p["n"],)] = r
            else:
                srcs["p:" + p["n"]] = r
        elif r is not None:
            srcs["p:" + p["n"]] = r
    if not roots:
        return
    if ctor and not any((p.get("t") or {}).get("k") not in ("b",) and "allocator" not in ((p.get("t") or {}).get("q") or "") for p in f["ps"]):
        return
    # only sources that are rich objects or their data, or single values
    srcs = {k: r for k, r in srcs.items() if r in prog.recs and (chk.split(r)[0])}
    for p in f["ps"]:
        if (p.get("t") or {}).get("k") == "f":
            srcs["p:" + p["n"]] = None
    for p in f["ps"]:
        if "p:" + p["n"] in srcs:
            srcs["v:%s#%d.1" % (p["n"], p["d"])] = srcs["p:" + p["n"]]
    bools = [i for i, p in enumerate(f["ps"]) if (p.get("t") or {}).get("k") == "b"]
    if ctor or f.j.get("static"):
        bools = []
    name = pretty(f)
    chk.cur, chk.curfn, chk.accessor = name, f, None
    results = []
    for combo in itertools.product((True, False), repeat=len(bools)):
        cl = Cl(chk, roots, srcs, keep_conds=not ctor and f.n != "operator=")
        eng = Eng(prog, cl)
        eng.max_steps = 4000000
        args = [("loc", ("p:%s" % (p["n"] or i),)) for i, p in enumerate(f["ps"])]
        for i, b in zip(bools, combo):
            args[i] = ("c", b)
        st = St()
        for r in roots:
            if ctor and r == ("this",):
                for x in chk.split(f.r)[0]:
                    st.facts[("s", r, x)] = "reset"
        try:
            outs = eng.run(f, args=args, st=st)
        except Limit as e:
            rep.note("%s: %s" % (name, e))
            return
        for l in eng.inlined:
            rep.fn(l)
        bad, touched = judge(prog, chk, f, outs, roots, cl)
        results.append((bad, touched, combo))
    touched = any(t for _, t, _ in results)
    if not touched:
        return
    rep.instance("fresh", "%s@%s" % (name, f.loc), f.loc)
    if results and all(b for b, _, _ in results):
        for key, msg in sorted(results[0][0].items()):
            rep.violation("%s:%s" % (key, name), "%s: %s" % (name, msg), f.loc)


def judge(prog, chk, f, outs, roots, cl):
    bad, touched = {}, False
    some = {}
    for k, s, v in outs:
        if k == THROW:
            continue
        for r in roots:
            for x in cl.caches(r):
                if cl.get(s, r, x) in ("fresh", "src", "srcok", "touched", "ok"):
                    some[(r, x)] = True
    for k, s, v in outs:
        if k == THROW:
            continue
        for r, rid in roots.items():
            if not s.facts.get(("gv", r)):
                continue
            touched = True
            eg = eager(prog, rid)
            fields = closure_fields(prog, rid)
            obj = "" if r == ("this",) else " of %s" % r[0][2:]
            for x in sorted(cl.caches(r)):
                stt = cl.get(s, r, x)
                cont = (fields[x][0].get("t") or {}).get("k") in ("r", "rec") or "vector" in ((fields[x][0].get("t") or {}).get("f") or "") or \
                    (fields[x][0].get("t") or {}).get("r") is not None
                if stt in ("stale", "old"):
                    if cont and (s.facts.get(("out", x)) or s.facts.get(("nothing",))):
                        continue
                    if x == "_azimuth" and stt == "stale" and s.facts.get(("first",)) and s.facts.get(("last",)):
                        continue
                    bad["stale:%s%s" % (x, obj)] = "the cached %s%s is still that of the geometry before the operation" % (x, obj)
                elif stt == "fresh" and (r, x) in cl.nv and (r, x) not in cl.comp:
                    bad["invalid:%s%s" % (x, obj)] = "the cached %s%s is marked as not computable instead of not computed" % (x, obj)
                elif eg and stt == "src" and not (cont and s.facts.get(("srcsib", r))):
                    bad["raw:%s%s" % (x, obj)] = "the cached %s%s is taken from an object that may not have computed it" % (x, obj)
                elif eg and stt == "reset" and (fields[x][0].get("t") or {}).get("k") != "b":
                    if cont and some.get((r, x)):
                        continue
                    if cont and not any(cl.get(s2, r, x) != "reset" for k2, s2, _ in outs if k2 != THROW):
                        bad["uncomputed:%s%s" % (x, obj)] = "the cached %s%s is dropped and never computed again" % (x, obj)
                    elif not cont:
                        bad["uncomputed:%s%s" % (x, obj)] = "the cached %s%s is left uncomputed" % (x, obj)
    for k, s, v in outs:
        if k == THROW:
            continue
        for r, x in sorted(cl.erased & cl.recomp):
            if s.facts.get(("er", r, x)) and cl.get(s, r, x) == "touched" and not (
                    s.facts.get(("isfirst",)) or s.facts.get(("islast",)) or s.facts.get(("out", x))):
                bad["joined:%s" % x] = "a segment value is removed from %s and the segment joined in its place is not recomputed, although the erased point may lie inside the line" % x
    for r, x in sorted(cl.erased - cl.recomp):
        if any(cl.get(s, r, x) == "touched" for k, s, v in outs if k != THROW):
            bad["unrecomputed:%s" % x] = "a segment value is removed from %s and no path recomputes the joined segment" % x
    return bad, touched


def sizeatom(v):
    """geometry size term -> version or None"""
    if v[0] == "term" and v[1] == "size" and len(v[3]) == 2 and isinstance(v[3][1], tuple) and v[3][1][0:1] == ("gv",):
        return v[3][1][1]
    return None


def endpoint(c, t):
    """the condition excludes that the first / the last point was erased"""
    first = last = False
    nz, _ = nonzero(c, t)
    if nz is None:
        return False, False
    atoms, k = nz
    sz = [(a, sizeatom(a)) for a in atoms if sizeatom(a) is not None]
    oth = [a for a in atoms if sizeatom(a) is None]
    if len(oth) != 1 or "p:" not in repr(oth[0]) and "v:" not in repr(oth[0]):
        return False, False
    o = oth[0]
    if not sz and k == 0 and abs(atoms[o]) == 1 and which(o) in (None, "front"):
        first = True
    if len(sz) == 1 and atoms[o] == -atoms[sz[0][0]] and which(o) in (None, "back"):
        # o - size(ver) + (1 - ver)  != 0
        if k * atoms[o] == 1 - min(sz[0][1], 1):
            last = True
    return first, last


def ends(c, t):
    """the condition implies that the erased point was the first ("isfirst") or the last one ("islast")"""
    out = set()
    for atoms, k in atmost(c, t):
        oth = [a for a in atoms if sizeatom(a) is None and not cachesize(a)]
        if len(oth) != 1 or "p:" not in repr(oth[0]) and "v:" not in repr(oth[0]):
            continue
        o = oth[0]
        rest = [a for a in atoms if a is not o]
        if not rest and atoms[o] == 1 and k >= 0:
            out.add("isfirst")
        if len(rest) == 1 and atoms[o] == -1 and atoms[rest[0]] == 1:
            if cachesize(rest[0]) or k >= min(sizeatom(rest[0]), 1) - 1:
                out.add("islast")
    return out


def cachesize(v):
    return v[0] == "term" and v[1] == "size" and v[3] and v[3][0][0] == "in" and len(v[3][0][1]) > 1


def atmost(c, t):
    """linear forms (atoms, k) with sum + k <= 0 that hold when condition c has truth t"""
    if c[0] != "op" or len(c) != 4 or c[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return []
    op, a, b = c[1], c[2], c[3]
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    if op == "!=":
        op, t = "==", not t
    d = diff(a, b)
    if d is None:
        return []
    atoms, k = d
    neg = ({x: -y for x, y in atoms.items()}, -k)
    if op == "==":
        return [(atoms, k), neg] if t else []
    if op == "<":
        return [(atoms, k + 1)] if t else [neg]
    return [(atoms, k)] if t else [(neg[0], neg[1] + 1)]


def outside(c, t):
    """the condition says that the erased position lies behind the cached elements (so it cannot be one of the line's points)"""
    if c[0] == "op" and len(c) == 4 and (c[1], t) in (("<=", False), (">", True), (">=", False), ("<", True)):
        a, b = (c[2], c[3]) if c[1] in ("<=", ">") else (c[3], c[2])
        if b[0] == "term" and b[1] == "size" and a[0] == "in" and b[3] and b[3][0][0] == "in" and len(b[3][0][1]) > 1:
            return b[3][0][1][-1]
    return None


def which(o):
    r = repr(o)
    if "'front'" in r or "'begin'" in r or "'cbegin'" in r:
        return "front"
    if "'back'" in r or "'rbegin'" in r:
        return "back"
    return None


# ------------------------------------------------------------ lazy accessors
def lazy_accessor(prog, rep, chk, types, f):
    if eager(prog, f.r) or f.j.get("static") or "inits" in f.j or not f.j.get("const"):
        return
    q = strip(prog.recs[f.r].q)
    if "::lazy_" not in "::" + q:
        return
    rt = f["rt"] or {}
    name = pretty(f)
    cl = Cl(chk, {("this",): f.r}, {}, keep_conds=False)
    chk.cur, chk.accessor = name, f
    eng = Eng(prog, cl)
    try:
        outs = eng.run(f)
    except Limit as e:
        rep.note("%s: %s" % (name, e))
        return
    cache = cl.caches(("this",))
    rel = False
    normal = False
    for k, s, v in outs:
        if k == THROW:
            continue
        normal = True
        for x, rest in mentioned(v, cache):
            rel = True
            if rest:
                ok = s.facts.get(("el", ("this",), x) + rest[-1]) == "ok" or cl.get(s, ("this",), x) == "fresh"
            else:
                ok = cl.get(s, ("this",), x) != "old" or \
                    (boolean(prog, f.r, x) and s.facts.get(("sib", ("this",))))
            if not ok:
                rep.violation("unchecked:%s:%s" % (name, x), "%s returns %s without computing it first" % (name, x), f.loc)
        for key in s.facts:
            if isinstance(key, tuple) and key[0] == "unc":
                rel = True
                rep.violation("unchecked:%s:%s" % (name, key[1]), "%s judges %s without computing it first" % (name, key[1]), f.loc)
        if has_leaf(v, lambda x: isinstance(x, tuple) and x[:2] == ("term", "valid")):
            rel = True
    chk.accessor = None
    if not normal and outs:
        rep.violation("throws:%s" % name, "%s cannot return normally" % name, f.loc)
    if rel or not normal:
        rep.instance("accessor", "%s@%s" % (name, f.loc), f.loc)
        for l in eng.inlined:
            rep.fn(l)


def boolean(prog, rid, x):
    return (closure_fields(prog, rid)[x][0].get("t") or {}).get("k") == "b"


def mentioned(v, cache):
    out = set()

    def rec(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ("in", "loc") and isinstance(x[1], tuple) and x[1][:1] == ("this",) and len(x[1]) > 1 and x[1][1] in cache:
                out.add((x[1][1], x[1][2:]))
                return
            if x and x[0] == "term" and x[1] in ("size", "empty"):
                return
            for y in x:
                rec(y)
    rec(v)
    return out


# ------------------------------------------------------------------ sub data
def whole(prog, rep, chk):
    """functions that build a data object for a part [from, to) of a line"""
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, f.id)):
        if not f.has_body or not f.r or f.r not in prog.recs or f.j.get("static") or not f.j.get("const"):
            continue
        cache, geo = chk.split(f.r)
        if not cache or geo:
            continue
        ints = [p for p in f["ps"] if (p.get("t") or {}).get("k") in ("i", "u") and (p.get("t") or {}).get("k") != "b"]
        rt = f["rt"] or {}
        if len(ints) != 2 or rt.get("r") != f.r:
            continue
        sub_data(prog, rep, chk, f, ints, cache)


class Sub(Client):
    max_depth = 3

    def __init__(self, prog, cache):
        self.prog, self.cache = prog, cache
        self.takes = []

    def should_inline(self, eng, fn, callee, node):
        return fn.r is not None and "inits" not in fn.j and fn.file.endswith("_data.hpp")

    def on_cond(self, eng, st, fr, val, truth, node):
        if val:
            cs = st.facts.get("conds", ())
            if (val, not truth) in cs:
                return None
            if (val, truth) not in cs:
                st.facts["conds"] = cs + ((val, truth),)
        return st

    def on_read(self, eng, st, fr, path, node):
        if path[0] == "this" and len(path) == 2 and path[1] in self.cache:
            st.facts[("rd", path[1])] = True


def sub_data(prog, rep, chk, f, ints, cache):
    name = pretty(f)
    cl = Sub(prog, cache)
    eng = Engine(prog, cl)
    try:
        outs = eng.run(f)
    except Limit as e:
        rep.note("%s: %s" % (name, e))
        return
    a, b = ints[0]["n"], ints[1]["n"]
    fields = closure_fields(prog, f.r)
    rep.instance("whole", "%s@%s" % (name, f.loc), f.loc)
    for k, s, v in outs:
        if k == THROW or not v:
            continue
        conds = s.facts.get("conds", ())
        zeros = [nonzero(c, t)[1] for c, t in conds]
        pa = ("in", ("p:" + a,))
        pb = ("in", ("p:" + b,))
        if any(zero_of(c, t, pb) for c, t in conds):
            continue
        from0 = any(z and z[0] in ({pa: 1}, {pa: -1}) and z[1] == 0 for z in zeros) or \
            any(c == pa and not t for c, t in conds)
        whole_to = False
        for z in zeros:
            if z and len(z[0]) == 2 and pb in z[0]:
                o = [x for x in z[0] if x != pb][0]
                sg = z[0][pb]
                if o[0] == "term" and o[1] == "size" and z[0][o] == -sg and z[1] * sg == -1:
                    whole_to = True
        for x in sorted(direct(v, cache, fields)):
            rep.instance("whole", "%s %s@%s" % (name, x, f.loc), f.loc)
            if not (from0 and whole_to):
                rep.violation("whole:%s:%s" % (name, x), "%s passes on the whole line's %s although the range [%s, %s) need not cover the whole line" %
                              (name, x, a, b), f.loc)
        for x, p, q in ranges(v, cache):
            rep.instance("whole", "%s range of %s@%s" % (name, x, f.loc), f.loc)
            if p != ({pa: 1}, 0) or q != ({pb: 1}, -1):
                rep.violation("range:%s:%s" % (name, x), "%s passes on other elements of %s than those of the points %s .. %s" %
                              (name, x, a, b), f.loc)


def zero_of(c, t, p):
    """the condition says that the unsigned p is zero"""
    if c == p:
        return not t
    if c[0] == "op" and len(c) == 4:
        f = diff(c[2], c[3])
        if f and f[1] == 0 and f[0] in ({p: 1}, {p: -1}):
            s = f[0][p]
            return (c[1], t) in ((("==", True), ("!=", False), (">", False), ("<=", True)) if s == 1 else
                                 (("==", True), ("!=", False), ("<", False), (">=", True)))
    return False


def direct(v, cache, fields):
    out = set()

    def rec(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ("in", "loc") and isinstance(x[1], tuple) and x[1][:1] == ("this",) and len(x[1]) == 2 and x[1][1] in cache:
                out.add(x[1][1])
                return
            if x and x[0] == "term" and x[1] in ("size", "empty", "begin", "cbegin", "end", "cend"):
                return
            for y in x:
                rec(y)
    rec(v)
    return out


def ranges(v, cache):
    """(field, first, last) of iterator pairs begin()+i, begin()+j inside a value"""
    out = []

    def norm(x):
        if isinstance(x, tuple) and x and x[0] == "term" and x[1] in ("operator+", "operator-"):
            args = ((x[2],) if x[2] else ()) + x[3]
            if len(args) == 2:
                return ("op", x[1][-1], norm(args[0]), norm(args[1]))
        if isinstance(x, tuple) and x and x[0] == "op" and len(x) == 4:
            return ("op", x[1].replace("operator", ""), norm(x[2]), norm(x[3]))
        return x

    def itr(x):
        f = lin(norm(x))
        if f is None:
            return None
        base = [a for a in f[0] if a[0] == "term" and a[1] in ("begin", "cbegin") and "'this'" in repr(a)]
        if len(base) != 1 or f[0][base[0]] != 1:
            return None
        fld = [c for c in cache if "'%s'" % c in repr(base[0])]
        return (fld[0], ({a: k for a, k in f[0].items() if a != base[0]}, f[1])) if fld else None

    def rec(x):
        if isinstance(x, tuple):
            its = [itr(y) for y in x if isinstance(y, tuple)]
            its = [i for i in its if i]
            if len(its) == 2 and its[0][0] == its[1][0]:
                out.append((its[0][0], its[0][1], its[1][1]))
                return
            for y in x:
                rec(y)
    rec(v)
    return out

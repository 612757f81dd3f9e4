"""Model of the application's options: registrations, lookups, literals, name similarity."""
import re

from .flow import Client, NEXT, U
from . import ir

NS = "map_matching_2::app::"


def literals(prog):
    """global const strings: qualified name -> literal"""
    out = {}
    for v in prog.var_list():
        t = v.get("t") or {}
        if not v.get("const") or "string" not in (t.get("f", "") + t.get("n", "")):
            continue
        for n in ir.walk(v.get("e") or {}):
            if n.get("k") == "str":
                out[v["q"]] = n["v"]
                break
    return out


def path_of(v):
    """the access path a value denotes (location or initial content), or None"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] in ("loc", "in", "ptr") and isinstance(v[1], tuple):
        return v[1]
    if v[0] == "fld":
        b = path_of(v[1])
        return b + (v[2],) if b else None
    return None


def paths_in(v, out=None):
    """all access paths a value is made from"""
    out = set() if out is None else out
    p = path_of(v)
    if p is not None:
        out.add(p)
        return out
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                paths_in(x, out)
    return out


def tokens(s):
    out = set()
    for t in re.split(r"[^A-Za-z0-9]+", s):
        t = re.sub(r"(?<=[a-z])(?=[A-Z])", "_", t)
        for u in t.lower().split("_"):
            if u:
                out.add(u[:-1] if len(u) > 2 and u.endswith("s") and not u.endswith("ss") else u)
    return out


def tok_eq(a, b):
    return a == b or (len(a) >= 4 and len(b) >= 4 and (a.startswith(b) or b.startswith(a)))


def sim(a, b):
    A, B = (a if isinstance(a, (set, frozenset)) else tokens(a)), (b if isinstance(b, (set, frozenset)) else tokens(b))
    if not A or not B:
        return 0.0
    m = sum(1 for x in A if any(tok_eq(x, y) for y in B))
    m2 = sum(1 for y in B if any(tok_eq(x, y) for x in A))
    inter = min(m, m2)
    return inter / float(len(A) + len(B) - inter)


def swapped(pairs):
    """pairs: [(left name, right name, type)] -> pairs of indices whose right sides fit better the other way round"""
    bad = []
    for i in range(len(pairs)):
        for j in range(i + 1, len(pairs)):
            a, b = pairs[i], pairs[j]
            if a[2] != b[2] or a[1] == b[1] or a[0] == b[0]:
                continue
            cur = sim(a[0], a[1]) + sim(b[0], b[1])
            alt = sim(a[0], b[1]) + sim(b[0], a[1])
            if alt > cur + 1e-9:
                bad.append((i, j))
    return bad


def tname(t):
    """type name without references and const"""
    if not t:
        return "?"
    s = t.get("n") or t.get("f") or "?"
    return re.sub(r"\bconst\b|&", "", s).strip()


class OptCl(Client):
    """strings as constants, program_options objects, comparisons with literals"""
    max_depth = 12
    loop_rounds = 1

    def __init__(self, lits, preset=None):
        self.lits = lits
        self.preset = preset or {}      # path -> literal
        self.descs = 0
        self.sinks = []

    def lit(self, eng, st, v):
        v = eng.rv(st, v) if v and v[0] == "loc" else v
        if v and v[0] == "c" and isinstance(v[1], str):
            return v[1]
        p = path_of(v)
        if p and len(p) == 1 and p[0].startswith("g:"):
            return self.lits.get(p[0][2:])
        return None

    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("app/")

    def canon(self, v):
        p = path_of(v)
        return ("in", p) if p is not None else v

    def on_call(self, eng, st, fr, n, c, obj, args):
        q, name, rec = c["q"], c["n"], c.get("rec", "") or ""
        if "basic_string" in q or "basic_string" in rec or "string_view" in rec:
            if n["k"] == "ctor":
                if not args:
                    return [(NEXT, st, ("c", ""))]
                l = self.lit(eng, st, args[0])
                if l is not None:
                    return [(NEXT, st, ("c", l))]
                if c.get("ctor") in ("copy", "move"):
                    return [(NEXT, st, eng.rv(st, args[0]) if args[0][0] == "loc" else args[0])]
            if name in ("c_str", "data", "operator basic_string_view") and obj is not None:
                return [(NEXT, st, eng.rv(st, obj))]
            if name == "empty" and obj is not None:
                l = self.lit(eng, st, obj)
                p = path_of(eng.rv(st, obj))
                if l is None and p is not None and p in self.preset:
                    l = self.preset[p]
                return [(NEXT, st, ("c", l == "") if l is not None else ("empty", self.canon(eng.rv(st, obj))))]
        if name == "operator+" and len(args) == 2:
            a, b = self.lit(eng, st, args[0]), self.lit(eng, st, args[1])
            if a is not None and b is not None:
                return [(NEXT, st, ("c", a + b))]
        if name in ("operator==", "operator!=") and (len(args) == 2 or (obj is not None and len(args) == 1)):
            xs = ([obj] if obj is not None else []) + list(args)
            ls = [self.lit(eng, st, x) for x in xs]
            if ls.count(None) == 1:
                i = ls.index(None)
                x = self.canon(eng.rv(st, xs[i]) if xs[i][0] == "loc" else xs[i])
                p = path_of(x)
                if p is not None and p in self.preset:
                    return [(NEXT, st, ("c", (self.preset[p] == ls[1 - i]) == (name == "operator==")))]
                v = ("eq", x, ls[1 - i])
                return [(NEXT, st, v if name == "operator==" else ("un", "!", v))]
        if "program_options" in q:
            r = self.po(eng, st, fr, n, c, obj, args)
            if r is not None:
                return r
        return self.more(eng, st, fr, n, c, obj, args)

    def more(self, eng, st, fr, n, c, obj, args):
        return None

    def po(self, eng, st, fr, n, c, obj, args):
        name, rec = c["n"], c.get("rec", "") or ""
        held = eng.rv(st, obj) if obj is not None and obj[0] == "loc" else obj
        if "variables_map" in rec:
            l = self.lit(eng, st, args[0]) if args else None
            if name in ("operator[]", "at") and l is not None:
                self.sinks.append(("lookup", l, fr.fn, n["l"], c))
                return [(NEXT, st, ("vm", l))]
            if name == "count" and l is not None:
                self.sinks.append(("count", l, fr.fn, n["l"], c))
                return [(NEXT, st, ("vmq", l, "count"))]
        if held and held[0] == "vm" and name in ("defaulted", "empty", "as"):
            self.sinks.append((name, held[1], fr.fn, n["l"], c))
            return [(NEXT, st, ("vmq", held[1], name))]
        if "options_description" in rec and "easy_init" not in rec:
            if n["k"] == "ctor":
                if c.get("ctor") in ("copy", "move"):
                    return [(NEXT, st, eng.rv(st, args[0]) if args[0][0] == "loc" else args[0])]
                self.descs += 1
                return [(NEXT, st, ("desc", self.descs))]
            if name == "operator=" and args and obj is not None:
                v = eng.rv(st, args[0]) if args[0][0] == "loc" else args[0]
                s = st.copy()
                eng.write(s, fr, obj, v, n, "=")
                return [(NEXT, s, obj)]
            if name == "add_options" and held and held[0] == "desc":
                return [(NEXT, st, ("einit", held[1]))]
            if name == "add" and held and held[0] == "desc" and args:
                v = eng.rv(st, args[0]) if args[0][0] == "loc" else args[0]
                if v[0] == "desc":
                    s = st.copy()
                    s.facts[("kids", held[1])] = s.facts.get(("kids", held[1]), ()) + (v[1],)
                    return [(NEXT, s, obj)]
        if "easy_init" in rec and name == "operator()" and held and held[0] == "einit":
            l = self.lit(eng, st, args[0])
            sem = next((eng.rv(st, a) if a[0] == "loc" else a for a in args[1:] if (eng.rv(st, a) if a[0] == "loc" else a)[0] == "sem"), None)
            s = st.copy()
            k = ("opts", held[1])
            s.facts[k] = s.facts.get(k, ()) + ((l, sem, fr.fn.loc.rsplit(":", 1)[0] + ":%d" % n["l"], fr.fn.n),)
            return [(NEXT, s, held)]
        if name in ("value", "bool_switch") and obj is None:
            p = args[0][1] if args and args[0][0] == "ptr" else path_of(args[0]) if args else None
            t = (c.get("tr") or [None])
            return [(NEXT, st, ("sem", p, name, tname((c.get("pt") or [None])[0])))]
        if held and held[0] == "sem":
            return [(NEXT, st, held)]
        return None

    # conditions keep their outcome
    def norm(self, v, truth):
        while isinstance(v, tuple) and v and v[0] == "un" and v[1] == "!":
            v, truth = v[2], not truth
        if isinstance(v, tuple) and v and v[0] == "op" and v[1] in ("==", "!=") and v[3][0] == "c" and isinstance(v[3][1], bool):
            t = v[3][1] if v[1] == "==" else not v[3][1]
            return self.norm(v[2], truth == t)
        p = path_of(v)
        return (("in", p) if p is not None else v), truth

    def on_cond(self, eng, st, fr, val, truth, node):
        v, t = self.norm(val, truth)
        if v == U:
            return st
        k = ("cond", v)
        if k in st.facts:
            return st if st.facts[k] == t else None
        if v[0] == "eq" and t:
            for (kk, *r), x in list(st.facts.items()):
                if kk == "cond" and r[0][0] == "eq" and r[0][1] == v[1] and x and r[0][2] != v[2]:
                    return None
        if v[0] == "eq" and not t:
            pass
        st.facts[k] = t
        return st


def closure(st, d):
    out, seen, todo = [], set(), [d]
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        out += list(st.facts.get(("opts", x), ()))
        todo += list(st.facts.get(("kids", x), ()))
    return out, seen


class Opt:
    __slots__ = ("name", "short", "path", "kind", "type", "loc", "fn")

    def __init__(self, raw, sem, loc, fn):
        self.name, _, self.short = (raw or "?").partition(",")
        self.path = tuple(x for x in sem[1] if x) if sem and sem[1] else None
        self.kind = sem[2] if sem else None
        self.type = sem[3] if sem else None
        self.loc, self.fn = loc, fn

    def __repr__(self):
        return "--%s -> %s" % (self.name, ".".join(self.path[1:]) if self.path else "-")

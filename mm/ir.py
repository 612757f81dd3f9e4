"""Loads extraction results: Program -> Fn / Rec / Var, lazily parsed."""
import json
import re

from . import extract as X


class TU:
    __slots__ = ("path", "S", "T", "C", "files")


class Fn:
    __slots__ = ("id", "q", "loc", "rec", "r", "tu", "_raw", "_j", "has_body", "n")

    def __init__(self, tu, id_, q, loc, rec, r, has_body, raw):
        self.tu, self.id, self.q, self.loc, self.rec, self.r = tu, id_, q, loc, rec, r
        self.has_body = has_body
        self._raw, self._j = raw, None
        self.n = q.rsplit("::", 1)[-1]

    @property
    def j(self):
        if self._j is None:
            self._j = json.loads(self._raw)
            self._raw = None
            resolve(self._j, self.tu)
            self.n = self._j["n"]
        return self._j

    def __getitem__(self, k):
        return self.j[k]

    def get(self, k, d=None):
        return self.j.get(k, d)

    @property
    def body(self):
        return self.j.get("body")

    @property
    def file(self):
        return self.loc.rsplit(":", 1)[0]

    @property
    def line(self):
        return int(self.loc.rsplit(":", 1)[1])

    @property
    def short(self):
        q = re.sub(r"^map_matching_2::", "", self.q)
        return q

    def __repr__(self):
        return "<Fn %s @%s>" % (self.q, self.loc)


def resolve(j, tu):
    """replaces table indices by table entries (in place)"""
    T, C, S = tu.T, tu.C, tu.S
    st = [j]
    while st:
        n = st.pop()
        if isinstance(n, list):
            for x in n:
                if isinstance(x, (dict, list)):
                    st.append(x)
            continue
        t = n.get("t")
        if type(t) is int:
            n["t"] = T[t] if t >= 0 else None
        t = n.get("rt")
        if type(t) is int:
            n["rt"] = T[t] if t >= 0 else None
        if type(n.get("c")) is int:
            n["c"] = C[n["c"]]
        if type(n.get("rec")) is int:
            n["rec"] = S[n["rec"]]
        for k, x in n.items():
            if k in ("t", "rt"):
                continue
            if isinstance(x, list) or (isinstance(x, dict) and not (k == "c" and "q" in x)):
                st.append(x)


class Rec:
    __slots__ = ("id", "q", "loc", "tu", "_raw", "_j")

    def __init__(self, tu, id_, q, loc, raw):
        self.tu, self.id, self.q, self.loc, self._raw, self._j = tu, id_, q, loc, raw, None

    @property
    def j(self):
        if self._j is None:
            self._j = json.loads(self._raw)
            self._raw = None
            resolve(self._j, self.tu)
        return self._j

    @property
    def fields(self):
        return self.j["f"]

    @property
    def bases(self):
        return self.j["b"]

    @property
    def methods(self):
        return self.j["m"]

    @property
    def file(self):
        return self.loc.rsplit(":", 1)[0]


class Program:
    def __init__(self, tus):
        self.tus = tus
        paths = X.extract(tus)
        self.fns = {}       # id -> Fn
        self.recs = {}      # id -> Rec
        self.vars = []
        self.by_q = {}      # qualified name -> [Fn]
        self.by_loc = {}    # pattern location -> [Fn]
        self.by_rec = {}    # record id -> [Fn]
        self.rec_q = {}
        self.files = set()
        for p in paths:
            self._load(p)
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
            self.by_loc.setdefault(f.loc, []).append(f)
            if f.r:
                self.by_rec.setdefault(f.r, []).append(f)
        for r in self.recs.values():
            self.rec_q.setdefault(r.q, []).append(r)

    def _load(self, path):
        tu = TU()
        tu.path = path
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                kind, id_, q, loc, rec, r, b, raw = line.rstrip("\n").split("\t", 7)
                if kind == "F":
                    old = self.fns.get(id_)
                    if old is None or (b and not old.has_body):
                        self.fns[id_] = Fn(tu, id_, q, loc, rec, r, bool(b), raw)
                elif kind == "R":
                    if id_ not in self.recs:
                        self.recs[id_] = Rec(tu, id_, q, loc, raw)
                elif kind == "V":
                    self.vars.append((tu, q, loc, raw))
                elif kind == "Z":
                    z = json.loads(raw)
                    tu.S, tu.T, tu.C, tu.files = z["S"], z["T"], z["C"], z["files"]
                    for c in tu.C:
                        c["pt"] = [tu.T[i] if i >= 0 else None for i in c.get("pt", [])]
                        if "tr" in c:
                            c["tr"] = [tu.T[i] if i >= 0 else None for i in c["tr"]]
                        rt = c.get("rt")
                        c["rt"] = tu.T[rt] if isinstance(rt, int) and rt >= 0 else None
                    self.files.update(tu.files)

    # -- lookups -------------------------------------------------------
    def q(self, name):
        """functions by suffix of the qualified name"""
        return [f for q, fs in self.by_q.items() if q == name or q.endswith("::" + name) for f in fs]

    def callee_fn(self, c):
        """Fn of a callee descriptor, or a template sibling of it"""
        if not c:
            return None
        f = self.fns.get(c.get("id"))
        if f is not None and f.has_body:
            return f
        # same pattern, other instantiation
        l = c.get("l")
        if l and l in self.by_loc:
            for g in self.by_loc[l]:
                if g.has_body and g.n == c["n"]:
                    return g
        return f

    def bases_closure(self, rid):
        out, st = [], [rid]
        while st:
            r = st.pop()
            rec = self.recs.get(r)
            if not rec or r in out:
                continue
            out.append(r)
            for b in rec.bases:
                if b.get("r"):
                    st.append(b["r"])
        return out

    def var_list(self):
        out = []
        for tu, q, loc, raw in self.vars:
            j = json.loads(raw)
            resolve(j, tu)
            out.append(j)
        return out


KIDS_SKIP = ("t", "rt", "c")


def kids(n):
    """direct child nodes (dicts with k or lists of such) in evaluation-ish order"""
    for k, x in n.items():
        if k in ("t", "rt"):
            continue
        if isinstance(x, dict):
            if k == "c" and "q" in x:
                continue
            yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    yield y


def walk(n, lambdas=True):
    """pre-order over all nodes"""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        if not lambdas and x.get("k") == "lambda":
            continue
        st.extend(reversed(list(kids(x))))


CALLS = ("call", "mcall", "opcall", "ctor")


def calls(n, lambdas=True):
    for x in walk(n, lambdas):
        if x.get("k") in CALLS and x.get("c"):
            yield x


def callee_name(n):
    c = n.get("c")
    return c.get("n") if isinstance(c, dict) else None


def callee_q(n):
    c = n.get("c")
    return c.get("q") if isinstance(c, dict) else None

"""C04: the tag dictionary gives every key, value and pair one id, and both directions of every table agree."""
from ..flow import Engine, Client, NEXT, RET, THROW, U
from .. import ir

TUS = ["verif:storages.cpp"]
END = ("end", "cend")
SAME = ("move", "forward", "as_const", "c_str", "data", "basic_string", "string", "basic_string_view")


def maplike(rec):
    b = (rec or "").split("<")[0].rsplit("::", 1)[-1]
    return "map" in b


def norm(v, st=None, eng=None):
    """the value behind conversions between kinds of text and number"""
    while isinstance(v, tuple) and v:
        if v[0] == "term" and len(v) == 4 and (v[1] in SAME or v[1].startswith("operator ")):
            if v[1] in ("c_str", "data") or v[1].startswith("operator "):
                if v[2] is None:
                    return v
                v = v[2]
            elif v[3]:
                v = v[3][0]
            else:
                return v
            continue
        if v[0] in ("loc", "ptr"):
            if st is not None and v[0] == "loc":
                w = eng.rv(st, v)
                if w != v and w != ("in", v[1]):
                    v = w
                    continue
            return ("in", v[1])
        if v[0] == "fld" and isinstance(v[1], tuple) and v[1] and v[1][0] == "term" and v[1][1] == "pair" and v[2] in ("first", "second") and len(v[1][3]) == 2:
            v = v[1][3][0 if v[2] == "first" else 1]
            continue
        if v[0] == "term" and v[1] == "pair" and len(v[3]) == 1:
            v = v[3][0]
            continue
        if v[0] == "term" and v[1] in ("pair", "make_pair") and len(v[3]) == 2:
            return ("term", "pair", None, (norm(v[3][0], st, eng), norm(v[3][1], st, eng)))
        return v
    return v


def leaf_tables(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] in ("ent", "sz"):
            out.add(v[1])
        for x in v:
            leaf_tables(x, out)
    return out


class Dict(Client):
    max_depth = 14
    loop_rounds = 1

    def __init__(self, prog, fn, stop=()):
        self.prog, self.fn, self.stop = prog, fn, stop
        self.flags = {}
        self.calls = []

    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("library/") and ("/io/helper/" in fn.file or "/io/memory_mapped/" in fn.file) and fn.n not in self.stop and fn.n != "retry_alloc"

    def may_throw(self, eng, st, fr, node, callee):
        return False

    def throw(self, st, node):
        return (THROW, st.copy(), ("exc", "alloc", node.get("l")))

    def table(self, eng, st, v):
        if v and v[0] == "loc":
            return tuple(x for x in v[1] if x not in ("*",))
        if v and v[0] == "in":
            return tuple(x for x in v[1] if x not in ("*",))
        return None

    def N(self, eng, st, v):
        return norm(v, st, eng)

    def on_call(self, eng, st, fr, node, c, obj, args):
        n, rec = c["n"], c.get("rec", "")
        if n == "retry_alloc" and args and args[0][0] == "lam":
            return eng.call_lambda(args[0], [], st, node)
        if n in self.stop and obj is not None:
            self.calls.append((n, tuple(self.N(eng, st, a) for a in args), "%s:%s" % (fr.fn.file, node.get("l"))))
            return [(NEXT, st, ("term", n, None, tuple(self.N(eng, st, a) for a in args)))]
        if c.get("ctor") and rec.split("<")[0].rsplit("::", 1)[-1] == "pair" and len(args) in (1, 2):
            return [(NEXT, st, norm(("term", "pair", None, tuple(self.N(eng, st, a) for a in args))))]
        if n == "make_pair" and obj is None and len(args) == 2:
            return [(NEXT, st, ("term", "pair", None, tuple(self.N(eng, st, a) for a in args)))]
        if n in ("operator==", "operator!=") and len(args) + (obj is not None) == 2:
            a, b = [eng.rv(st, x) if x[0] == "loc" else x for x in ([obj] if obj is not None else []) + list(args)]
            return [(NEXT, st, ("op", n[8:], a, b))]
        if obj is not None and n in ("operator->", "operator*") and len(args) == 0:
            v = eng.rv(st, obj) if obj[0] == "loc" else obj
            if v[0] == "term" and v[1] == "find":
                return [(NEXT, st, ("ptr" if n == "operator->" else "loc", ("ent", v[2], v[3][0])))]
        if obj is not None and maplike(rec) and not c.get("ctor") and n != "operator=":
            T = self.table(eng, st, obj)
            if T is None:
                return None
            if n in END:
                return [(NEXT, st, ("term", "end", T, ()))]
            k = self.N(eng, st, args[0]) if args else None
            if n == "find" and k is not None:
                return [(NEXT, st, ("term", "find", T, (k,)))]
            if n in ("contains", "count"):
                return [(NEXT, st, ("op", "!=", ("term", "find", T, (k,)), ("term", "end", T, ())))]
            if n == "at":
                st = st.copy()
                return [(NEXT, st, ("loc", ("ent", T, k, "second")))]
            if n in ("size",):
                cnt = sum(1 for t, _, _ in st.facts.get("ins", ()) if t == T)
                return [(NEXT, st, ("sz", T, cnt))]
            if n in ("emplace", "try_emplace", "insert_or_assign", "insert", "operator[]"):
                if n == "insert" or len(args) == 1 and n != "operator[]":
                    p = k
                    if not (p and p[0] == "term" and p[1] == "pair" and len(p[3]) == 2):
                        return None
                    k, v = p[3]
                elif n == "operator[]":
                    if self.present(st, T, k) is True:
                        return [(NEXT, st, ("loc", ("ent", T, k, "second")))]
                    v = ("default",)
                elif len(args) == 2:
                    v = self.N(eng, st, args[1])
                else:
                    return None
                s, t = st.copy(), self.throw(st, node)
                s.facts["ins"] = tuple(s.facts.get("ins", ())) + ((T, k, v),)
                s.facts["at"] = "%s:%s" % (fr.fn.file, node.get("l"))
                f = s.facts.get("guard", ())
                s.facts["known"] = tuple(s.facts.get("known", ())) + ((T, k, v, self.present(st, T, k)),)
                if n == "operator[]":
                    return [(NEXT, s, ("loc", ("ent", T, k, "second"))), t]
                return [(NEXT, s, U), t]
            if n == "erase" and len(args) == 1:
                s = st.copy()
                if k and k[0] == "term" and k[1] == "find":
                    k = k[3][0]
                ins = tuple(x for x in s.facts.get("ins", ()) if not (x[0] == T and x[1] == k))
                if ins == tuple(s.facts.get("ins", ())) and self.present(st, T, k) is not False and not (k and k[0] == "sz"):
                    s.facts["del"] = tuple(s.facts.get("del", ())) + ((T, k),)
                s.facts["ins"] = ins
                return [(NEXT, s, U)]
            if n == "clear":
                s = st.copy()
                s.facts["del"] = tuple(s.facts.get("del", ())) + ((T, None),)
                return [(NEXT, s, U)]
        return None

    def present(self, st, T, k):
        return st.facts.get(("has", T, k))

    def on_write(self, eng, st, fr, path, value, node, op="="):
        if path and path[0] == "ent" and len(path) >= 4 and path[3] == "second":
            T, k = path[1], path[2]
            ins = [(t, kk, (norm(value, st, eng) if (t, kk) == (T, k) else v)) for t, kk, v in st.facts.get("ins", ())]
            if tuple(ins) == tuple(st.facts.get("ins", ())):
                st.facts["del"] = tuple(st.facts.get("del", ())) + ((T, k),)
            st.facts["ins"] = tuple(ins)
        elif path and path[0] == "this":
            st.facts[("w", path)] = norm(value, st, eng)

    def on_cond(self, eng, st, fr, v, truth, node):
        if v and v[0] == "op" and v[1] in ("==", "!="):
            a, b = v[2], v[3]
            if a[0] == "term" and a[1] == "end":
                a, b = b, a
            if a[0] == "term" and a[1] == "find" and b[0] == "term" and b[1] == "end":
                if a[2] != b[2]:
                    st.facts["mixed"] = (a[2], b[2])
                has = (v[1] == "!=") == bool(truth)
                old = st.facts.get(("has", a[2], a[3][0]))
                if old is not None and old != has:
                    return None
                st.facts[("has", a[2], a[3][0])] = has
                return st
        x = norm(v, st, eng)
        if x and x[0] == "in" and x[1] and x[1][0] == "this":
            st.facts[("flag", tuple(y for y in x[1] if y != "*"))] = bool(truth)
        return st


def kind(f):
    return "memory-mapped" if "managed_mapped_file" in f.q else "memory"


def tname(T):
    return str([x for x in T if isinstance(x, str)][-1]).strip("_") if T else "?"


def describe(k):
    if not isinstance(k, tuple) or not k:
        return str(k)
    if k[0] == "sz":
        return "a fresh id"
    if k[0] == "in":
        return ".".join(str(x) for x in k[1] if isinstance(x, str)).replace("p:", "")
    if k[0] == "term" and k[1] == "pair":
        return "(%s, %s)" % tuple(describe(x) for x in k[3][:2]) if len(k[3]) > 1 else "pair"
    return k[0]


def adders(prog):
    """functions that put new entries into the dictionary: take a key and a value and return the id"""
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, str(f.r))):
        if f.has_body and f.n == "id" and "/io/helper/" in f.file and len(f["ps"]) >= 2 and "tag" in f.file:
            yield f


def twins_of(prog, rep, f, exits_only=False):
    """analyses one adder; reports; returns the tables and which is the reverse of which"""
    cl = Dict(prog, f)
    eng = Engine(prog, cl)
    args = [("loc", ("p:%d" % i,)) for i in range(len(f["ps"]))]
    outs = eng.run(f, args=args)
    rep.fn(f)
    twin = {}
    fwd = {}
    results = set()
    for k, s, v in outs:
        ins = list(s.facts.get("ins", ()))
        end = "returning" if k == RET or k == NEXT else "running out of space"
        if s.facts.get("del"):
            T, kk = s.facts["del"][0]
            rep.violation("removes:%s" % tname(T), "id() removes or overwrites an entry of %s it did not add itself when %s" % (tname(T), end), s.facts.get("at", f.loc))
        if s.facts.get("mixed"):
            a, b = s.facts["mixed"]
            rep.violation("mixed:%s" % tname(a), "id() compares a position in %s with the end of %s" % (tname(a), tname(b)), f.loc)
        for T, kk, vv in ins:
            mates = [(t2, k2, v2) for t2, k2, v2 in ins if t2 != T and k2 == vv and v2 == kk]
            if not mates:
                rep.violation("oneway:%s" % tname(T), "id() leaves %s -> %s in %s without the opposite entry in its reverse table when %s" % (describe(kk), describe(vv), tname(T), end), s.facts.get("at", f.loc))
                continue
            for t2, _, _ in mates:
                if twin.setdefault(T, t2) != t2:
                    rep.violation("twin:%s" % tname(T), "the entries of %s are mirrored in two tables, %s and %s" % (tname(T), tname(twin[T]), tname(t2)), f.loc)
            if len([1 for t2, k2, v2 in ins if t2 == T and k2 == kk]) > 1:
                rep.violation("twice:%s" % tname(T), "id() adds %s to %s twice" % (describe(kk), tname(T)), f.loc)
        for T, kk, vv, has in s.facts.get("known", ()):
            if vv and vv[0] == "sz" or kk and kk[0] == "sz":
                if vv and vv[0] == "sz":
                    fwd[T] = vv[1]
                    if has is not False:
                        rep.violation("known:%s" % tname(T), "id() adds %s to %s without having looked that it is not there yet" % (describe(kk), tname(T)), s.facts.get("at", f.loc))
                    if vv[2] != 0:
                        rep.violation("fresh:%s" % tname(T), "id() takes the size of %s for a new id after it already added to it" % tname(vv[1]), f.loc)
            elif has is not None or True:
                rep.violation("fresh:%s" % tname(T), "id() adds %s -> %s to %s, neither of which is the next free id" % (describe(kk), describe(vv), tname(T)), s.facts.get("at", f.loc))
        if ins or s.facts.get("known"):
            guards = [p for kf, p in s.facts.items() if isinstance(kf, tuple) and kf[0] == "flag" and "final" in str(kf[1][-1])]
            if not guards or any(guards):
                rep.violation("finalized", "id() adds to the dictionary without having made sure that it is not finalized", f.loc)
        if k in (RET, NEXT):
            results.add((norm(v, s, eng), s.key() if False else tuple(ins)))
    for T, sz in fwd.items():
        if sz != T and twin.get(T) != sz:
            rep.violation("fresh:%s" % tname(T), "ids of %s are taken from the size of %s" % (tname(T), tname(sz)), f.loc)
    # what is returned, and what the pair consists of
    final = None
    for v, ins in sorted(results, key=repr):
        if v and v[0] == "in" and v[1][0] == "ent" and len(v[1]) > 3 and v[1][3] == "second":
            T, key = v[1][1], v[1][2]
        elif v and v[0] == "sz":
            got = [(t, k2) for t, k2, v2 in ins if v2 == v]
            if not got:
                rep.violation("result", "id() returns a fresh id that it did not store", f.loc)
                continue
            T, key = got[0]
        else:
            rep.violation("result", "id() returns something other than the stored or the fresh id of the tag", f.loc)
            continue
        if final not in (None, T):
            rep.violation("result", "id() returns ids of two tables, %s and %s" % (tname(final), tname(T)), f.loc)
        final = T
        if not (key and key[0] == "term" and key[1] == "pair" and len(key[3]) == 2):
            rep.violation("result:pair", "id() looks its result up by something other than the pair of the ids of key and value", f.loc)
            continue
        for i, comp in enumerate(key[3]):
            if comp and comp[0] == "in" and comp[1][0] == "ent":
                t, kk = comp[1][1], comp[1][2]
            elif comp and comp[0] == "sz":
                got = [(t, k2) for t, k2, v2 in ins if v2 == comp]
                if not got:
                    rep.violation("result:pair", "id() builds the pair from a fresh id that it did not store", f.loc)
                    continue
                t, kk = got[0]
            else:
                rep.violation("result:pair", "id() builds the pair from something other than the ids of key and value", f.loc)
                continue
            if kk != ("in", ("p:%d" % i,)):
                rep.violation("result:pair", "part %d of the pair is the id of %s" % (i + 1, describe(kk)), f.loc)
            fwd.setdefault(("part", i), t)
            if fwd[("part", i)] != t:
                rep.violation("result:pair", "part %d of the pair comes from two tables" % (i + 1), f.loc)
    return {"twin": twin, "final": final, "part": [fwd.get(("part", 0)), fwd.get(("part", 1))], "exits": len(outs), "results": len(results)}


def suffix(T):
    return tuple(x for x in T if x not in ("this", "*"))


def lookups(prog, rep, f, d):
    cl = Dict(prog, f)
    eng = Engine(prog, cl)
    outs = eng.run(f, args=[("loc", ("p:%d" % i,)) for i in range(len(f["ps"]))])
    rep.fn(f)
    tw = d["twin"]
    okret = 0
    for k, s, v in outs:
        if k == THROW:
            continue
        v = norm(v, s, eng)
        if not (v and v[0] == "term" and v[1] == "pair" and len(v[3]) == 2):
            rep.violation("lookup:result", "tag() returns something other than the key and the value found for the id", f.loc)
            continue
        okret += 1
        for i, comp in enumerate(v[3]):
            want = ("in", ("ent", tw.get(d["part"][i]), ("in", ("ent", tw.get(d["final"]), ("in", ("p:0",)), "second", "first" if i == 0 else "second")), "second"))
            if comp != want:
                rep.violation("lookup:%s" % ("key" if i == 0 else "value"), "tag() does not return as %s what the reverse tables hold for the id" % ("key" if i == 0 else "value"), f.loc)
        T = tw.get(d["final"])
        if T is not None and s.facts.get(("has", T, ("in", ("p:0",)))) is not True and not any(c.get("c", {}).get("n") == "at" and False for c in ()):
            # .at() throws by itself
            if any((c.get("c") or {}).get("n") == "find" for c in ir.calls(f.body)):
                rep.violation("lookup:absent", "tag() goes on with an id that it did not find", f.loc)
    if not okret:
        rep.violation("lookup:never", "tag() never returns a tag", f.loc)


def run(prog, rep):
    rep.rule("twins", "on every way out of id(), also when space runs out, every entry it added to one table of the dictionary has its opposite in the reverse table; ids are fresh and only given to what was looked up and not found; nothing is added once finalized")
    rep.rule("lookup", "tag() reads, for an id, the key and the value through exactly the reverse tables that id() filled")
    rep.rule("finalize", "finalizing marks the dictionary and drops only tables that lookups do not read")
    rep.rule("pairs", "whoever asks for an id hands over the key and the value of one tag, in that order")
    rep.rule("owners", "tags of nodes and tags of edges are written to and read from a table of their own")
    for f in adders(prog):
        d = twins_of(prog, rep, f)
        rep.instance("twins", "id (%s) %d ways out, %d tables" % (kind(f), d["exits"], len(d["twin"])), f.loc)
        for g in prog.fns.values():
            if g.r == f.r and g.n == "tag" and g.has_body:
                lookups(prog, rep, g, d)
                rep.instance("lookup", "tag (%s)" % kind(g), g.loc)
        callers(prog, rep, f)
        owners(prog, rep, f)
        finalize(prog, rep, f, d)
    rep.rule("sides", "ids of nodes go with tags of nodes, ids of edges with tags of edges, wherever tags are asked for or cloned")
    sides(prog, rep)
    rep.floor("sides", 8)
    rep.floor("twins", 2)
    rep.floor("lookup", 2)
    rep.floor("finalize", 2)
    rep.floor("pairs", 2)
    rep.floor("owners", 8)


def callers(prog, rep, f):
    for g in sorted(prog.fns.values(), key=lambda g: g.loc):
        if g.r != f.r or not g.has_body or g is f or g.n == "id":
            continue
        if not any((c.get("c") or {}).get("id") == f.id for c in ir.calls(g.body)):
            continue
        cl = Dict(prog, g, stop=("id",))
        eng = Engine(prog, cl)
        eng.run(g, args=[("loc", ("p:%d" % i,)) for i in range(len(g["ps"]))])
        rep.fn(g)
        rep.instance("pairs", "%s@%s (%s)" % (g.n, g.loc, kind(g)), g.loc)
        if not cl.calls:
            continue
        for n, a, loc in cl.calls:
            if len(a) < 2 or part(a[0]) is None or part(a[1]) is None or part(a[0])[0] != 0 or part(a[1])[0] != 1 or part(a[0])[1] != part(a[1])[1]:
                rep.violation("pairs:%s" % g.n, "%s asks for the id of something other than the key and the value of one tag" % g.n, loc)


def part(v):
    """(0 for key / 1 for value, the tag)"""
    if v and v[0] == "term" and v[1] in ("key", "value") and not v[3]:
        return (0 if v[1] == "key" else 1, v[2])
    if v and v[0] == "fld" and v[2] in ("first", "second"):
        return (0 if v[2] == "first" else 1, v[1])
    if v and v[0] == "in" and v[1][-1] in ("first", "second"):
        return (0 if v[1][-1] == "first" else 1, v[1][:-1])
    return None


class Touch(Dict):
    """which tables of per-element tags a function reads or writes"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.touched = {}

    def on_call(self, eng, st, fr, node, c, obj, args):
        if obj is not None and maplike(c.get("rec", "")) and not c.get("ctor"):
            T = self.table(eng, st, obj)
            if T:
                self.touched.setdefault(suffix(T), "%s:%s" % (fr.fn.file, node.get("l")))
        return super().on_call(eng, st, fr, node, c, obj, args)


def owners(prog, rep, f):
    dict_tables = None
    side = {}
    for g in sorted(prog.fns.values(), key=lambda g: (g.loc, str(g.r))):
        if g.r != f.r or not g.has_body or g.j.get("acc") != "public" or not ("node" in g.n or "edge" in g.n):
            continue
        which = "node" if "node" in g.n else "edge"
        cl = Touch(prog, g, stop=("id", "tag"))
        eng = Engine(prog, cl)
        eng.run(g, args=[("loc", ("p:%d" % i,)) for i in range(len(g["ps"]))])
        rep.fn(g)
        own = {T: l for T, l in cl.touched.items() if len(T) and "tag_storage" in str(T[0])}
        rep.instance("owners", "%s@%s (%s)" % (g.n, g.loc, kind(g)), g.loc)
        for T, l in own.items():
            side.setdefault(T, {}).setdefault(which, (g, l))
        if len(own) != 1:
            rep.violation("owners:%s" % g.n, "%s uses %s" % (g.n, "no table" if not own else "the tables " + ", ".join(sorted(tname(T) for T in own))), g.loc)
    for T, w in side.items():
        if len(w) > 1:
            rep.violation("owners:%s" % tname(T), "%s holds the tags of nodes (%s) and of edges (%s)" % (tname(T), w["node"][0].n, w["edge"][0].n), w["edge"][1])
    for which in ("node", "edge"):
        ts = [T for T, w in side.items() if which in w]
        if len(ts) > 1:
            rep.violation("owners:two-%s" % which, "the tags of %ss are spread over %s" % (which, ", ".join(sorted(map(tname, ts)))), side[ts[0]][which][1])


def plain(e):
    while isinstance(e, dict) and e.get("k") in ("icast", "cast", "paren", "load"):
        e = e.get("e")
    return e or {}


def sides(prog, rep):
    """calls about the tags of nodes and edges, as made by and about the elements"""
    import re
    for g in sorted(prog.fns.values(), key=lambda g: (g.loc, str(g.r))):
        if not g.has_body or not g.file.startswith("library/"):
            continue
        mine = re.search(r"(node|edge)_tags$", g.n)
        for c in ir.calls(g.body):
            m = re.search(r"(node|edge)_tags$", (c.get("c") or {}).get("n", ""))
            if not m or not c.get("a"):
                continue
            loc = "%s:%s" % (g.file, c.get("l"))
            if mine:
                rep.instance("sides", "%s@%s -> %s" % (g.n, g.loc, c["c"]["n"]), loc)
                if m.group(1) != mine.group(1):
                    rep.violation("sides:%s" % g.n, "%s works with the tags of %ss" % (g.n, m.group(1)), loc)
                continue
            a = plain(c["a"][0])
            if a.get("k") != "mem":
                continue
            b = plain(a.get("b"))
            t = "this" if b.get("k") == "this" else str((b.get("t") or {}).get("n", ""))
            kindof = g.q.split("<")[0].rsplit("::", 1)[-1] if t == "this" else t.rsplit("::", 1)[-1]
            if kindof in ("node", "edge"):
                rep.fn(g)
                rep.instance("sides", "%s@%s" % (g.n, loc), loc)
                if kindof != m.group(1):
                    rep.violation("sides:%s" % g.n, "%s hands the id of %s to %s" % (g.n, "a node" if kindof == "node" else "an edge", c["c"]["n"]), loc)


def text(v, st, eng):
    v = norm(v, st, eng)
    while v and v[0] == "term" and v[3]:
        v = norm(v[3][0], st, eng)
    return v[1] if v and v[0] == "c" else repr(v)


class Fin(Touch):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dropped = {}
        self.named = {}

    def on_call(self, eng, st, fr, node, c, obj, args):
        n, rec = c["n"], c.get("rec", "")
        if obj is not None and n in ("reset", "release") and obj[0] == "loc" and ("ptr" in rec) and (not args or n == "reset" and nothing(args[0])):
            self.dropped[suffix(obj[1])] = "%s:%s" % (fr.fn.file, node.get("l"))
            return [(NEXT, st, U)]
        if obj is not None and n == "operator=" and "ptr" in rec and obj[0] == "loc" and args and nothing(args[0]):
            self.dropped[suffix(obj[1])] = "%s:%s" % (fr.fn.file, node.get("l"))
            return [(NEXT, st, U)]
        if obj is not None and n == "clear" and maplike(rec) and obj[0] == "loc":
            self.dropped[suffix(self.table(eng, st, obj))] = "%s:%s" % (fr.fn.file, node.get("l"))
            return [(NEXT, st, U)]
        if n in ("destroy", "destroy_ptr") and "managed" in rec and args:
            a = text(args[0], st, eng)
            self.dropped[("name", a)] = "%s:%s" % (fr.fn.file, node.get("l"))
            return [(NEXT, st, U)]
        if n in ("find", "construct", "find_or_construct") and "managed" in rec and args:
            return [(NEXT, st, ("term", "named", None, (("c", text(args[0], st, eng)),)))]
        return super().on_call(eng, st, fr, node, c, obj, args)

    def on_write(self, eng, st, fr, path, value, node, op="="):
        v = norm(value, st, eng)
        for x in _named(v):
            self.named[x] = suffix(path)
        super().on_write(eng, st, fr, path, value, node, op)


def nothing(v):
    return v in (("c", None), ("c", 0)) or v and v[0] == "term" and v[1] == "zero" or v == U or v and v[0] == "c" and not v[1]


def _named(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "term" and v[1] == "named" and v[3] and v[3][0][0] == "c":
            out.add(v[3][0][1])
        for x in v:
            _named(x, out)
    return out


def finalize(prog, rep, f, d):
    fns = [g for g in prog.fns.values() if g.r == f.r and g.n == "finalize" and g.has_body]
    for g in fns:
        cl = Fin(prog, g)
        eng = Engine(prog, cl)
        outs = eng.run(g)
        rep.fn(g)
        rep.instance("finalize", "finalize (%s)" % kind(g), g.loc)
        names = {}
        if any(k[0] == "name" for k in cl.dropped):
            # which member the name belongs to
            sr = {fn.r for fn in prog.fns.values() if fn.loc in eng.inlined and fn.n == "finalize"}
            for h in prog.fns.values():
                if h.has_body and h.n in ("_open", "_create") and h.r in sr:
                    c2 = Fin(prog, h)
                    Engine(prog, c2).run(h)
                    for nm, p in c2.named.items():
                        names.setdefault(nm, set()).add(p[-1] if p else None)
        gone = {}
        for k, l in cl.dropped.items():
            if k and k[0] == "name":
                for m in names.get(k[1], ()):
                    gone[m] = l
                if k[1] not in names:
                    rep.violation("finalize:name", "finalize drops an object named %s that nobody created" % k[1], l)
            else:
                gone[[x for x in k if isinstance(x, str)][-1]] = l
        # what lookups read
        for h in prog.fns.values():
            if h.r == f.r and h.has_body and h.j.get("acc") == "public" and h.j.get("const") and h.n in ("tag", "node_tags", "edge_tags"):
                c3 = Touch(prog, h)
                Engine(prog, c3).run(h, args=[("loc", ("p:%d" % i,)) for i in range(len(h["ps"]))])
                for T in c3.touched:
                    m = [x for x in T if isinstance(x, str)][-1]
                    if m in gone:
                        rep.violation("finalize:%s" % m, "finalize drops %s, which %s reads" % (m.strip("_"), h.n), gone[m])
        for k, s, v in outs:
            if k == THROW:
                continue
            ws = [(kk[1], vv) for kk, vv in s.facts.items() if isinstance(kk, tuple) and kk[0] == "w" and "final" in str([x for x in kk[1] if x != "*"][-1])]
            if not ws or ws[-1][1] != ("c", True):
                rep.violation("finalize:mark", "finalize does not mark the dictionary as finalized", g.loc)

"""C01: growing a memory-mapped store is transparent to the operation that hit the limit."""
from ..flow import Engine, Client, St, NEXT, RET, THROW, U
from .. import ir
from ..stores import StoreCl, store_records, alloc_fields, base_name, leafs
from . import c03

TUS = ["verif:storages.cpp"]
GROWERS = ("grow", "drop_grow")
OWNING = ("vector", "string", "list", "deque", "map", "set", "unique_ptr", "shared_ptr", "function", "any")
SEQ_ADD = ("emplace_back", "push_back")
ALLOCATING = ("emplace", "insert", "try_emplace", "insert_or_assign", "resize", "assign", "reserve", "append", "push_front", "emplace_front", "rehash")
INTERPROCESS = "interprocess_allocator"


# ------------------------------------------------------------- handles
def handles(prog, rep):
    rep.rule("handles", "an operation of a store that replaces the mapping leaves no handle and no allocator of the old mapping behind: objects are looked up after reopening and made after re-creating")
    for rec, cf in store_records(prog):
        nm = base_name(rec)
        allocs = alloc_fields(prog, rec)
        for f in sorted(prog.fns.values(), key=lambda f: f.loc):
            if f.r != rec.id or not f.has_body or f.j.get("def") or f.j.get("const") or "inits" in f.j or f.n.startswith("~") or f.n.startswith("operator"):
                continue
            if f.j.get("acc") != "public":
                continue
            cl, outs = c03.run_op(prog, f, rec, allocs)
            hit = False
            for k, s, v in outs:
                es = s.facts.get("ev", ())
                maps = [e for e in es if e[0] == "map"]
                if not es:
                    continue
                hit = True
                if s.facts.get("mapped") is False:
                    continue   # closed: the next use is another open
                want = ("make", "null") if maps and maps[-1][1] in ("create_only_t",) else ("find", "null") if maps else None
                for h in sorted(cl.handles):
                    got = s.facts.get(("h", h), "old")
                    if got == "stale":
                        rep.violation("handles:%s:%s:%s" % (nm, f.n, h), "after %s, %s still points into the old mapping" % (f.n, h), f.loc)
                    elif k == RET and want and got not in want:
                        rep.violation("handles:%s:%s:%s" % (nm, f.n, h), "after %s, %s is %s although the mapping was %s" % (
                            f.n, h, {"find": "looked up", "make": "made anew", "old": "unchanged"}.get(got, got), "re-created" if want[0] == "make" else "reopened"), f.loc)
                    elif k == RET and want == ("find", "null") and got == "null":
                        rep.violation("handles:%s:%s:%s" % (nm, f.n, h), "after %s, %s is forgotten although its object is still in the file" % (f.n, h), f.loc)
                for a in sorted(allocs):
                    got = s.facts.get(("a", a), "old")
                    if got not in ("fresh",) and k == RET:
                        rep.violation("handles:%s:%s:%s" % (nm, f.n, a), "after %s, %s is %s" % (f.n, a, {"stale": "still that of the old mapping", "null": "missing"}.get(got, got)), f.loc)
            if hit:
                rep.fn(f)
                rep.instance("handles", "%s.%s/%d" % (nm, f.n, len(f["ps"])), f.loc)
    rep.floor("handles", 15)


# --------------------------------------------------------------- retries
def owns(prog, t, depth=0):
    """does a value of this type own memory (moving from it changes it)"""
    if not t or t.get("k") not in ("o", "r", "c", None):
        return False
    if "&" in t.get("f", "") and depth:
        return False
    r = prog.recs.get(t.get("r")) if t.get("r") else None
    n = (t.get("n") or t.get("s") or "").split("<")[0].rsplit("::", 1)[-1]
    if any(n == o or n.endswith(o) for o in OWNING):
        return True
    if r is None or depth > 5:
        return False
    for f in r.fields:
        ft = f.get("t") or {}
        if ft.get("k") in ("o", "r", "c") and owns(prog, ft, depth + 1):
            return True
    for b in prog.bases_closure(r.id) if hasattr(prog, "bases_closure") else ():
        br = prog.recs.get(b) if not hasattr(b, "fields") else b
        if br is not None and br is not r and any(owns(prog, f.get("t"), depth + 1) for f in br.fields):
            return True
    return False


def frame_of(root):
    root = str(root)
    if root[:2] in ("v:", "t:") and "." in root:
        tail = root.rsplit(".", 1)[1]
        return int(tail) if tail.isdigit() else None
    return None


class Quiet:
    def violation(self, *a, **k):
        pass


def direct_retries(f):
    if not f.has_body:
        return []
    r = getattr(f, "_retries", None)
    if r is None:
        r = [c for c in ir.calls(f.body) if (c.get("c") or {}).get("n") == "retry_alloc"]
        try:
            f._retries = r
        except AttributeError:
            pass
    return r


class Cl(Client):
    max_depth = 40

    def __init__(self, prog, rep, stores, fn, memo=None):
        self.memo = {} if memo is None else memo
        self.prog, self.rep, self.fn = prog, rep, fn
        self.stores = stores        # record ids of memory-mapped stores
        self.used = set()
        self.second = set()         # retries whose second attempt was followed
        self.retries = 0

    def where(self, fr, node):
        return "%s:%s" % (fr.fn.file if fr.fn is not None else "?", node.get("l"))

    def name(self):
        # named by what it takes, not by what its parameters are called
        return "%s(%s)" % (self.fn.n, ",".join(((p.get("t") or {}).get("n") or (p.get("t") or {}).get("s") or "?").split("<")[0].split("::")[-1] + ("&" if "&" in ((p.get("t") or {}).get("f") or "") else "") for p in self.fn["ps"]))

    def should_inline(self, eng, fn, callee, node):
        return ("/io/helper/" in fn.file or "/graph/" in fn.file or "/geometry/network/" in fn.file and fn.n != "simplify") and fn.file.startswith("library/")

    # ---- store access
    def root_of(self, path):
        return str(path[0]) if path and str(path[0]).startswith("at:") else None

    def gen(self, st, store):
        return st.facts.get(("gen", store), 0)

    def check_use(self, eng, st, fr, node, vals):
        for v in vals:
            for l in leafs(v):
                r = self.root_of(l)
                if not r:
                    continue
                store, g = r[3:].rsplit("#", 1)[0].split("/")[0], int(r.rsplit("#", 1)[1])
                if g < self.gen(st, store):
                    self.rep.violation("stale:%s:%s" % (self.name(), store), "%s uses a reference into %s that was taken before an operation that may have enlarged it" % (self.fn.n, store), self.where(fr, node))

    def call_values(self, st, eng, obj, args):
        return ([obj] if obj else []) + [a for a in args]

    def throw(self, st, node, store):
        s = st.copy()
        s.facts["from"] = store
        return (THROW, s, ("exc", "alloc", node.get("l")))

    def on_call(self, eng, st, fr, node, c, obj, args):
        n, rec = c["n"], c.get("rec", "")
        if n == "retry_alloc" and len(args) >= 2:
            return self.retry(eng, st, fr, node, args)
        rid = c.get("rid") or c.get("r")
        base = rec.split("<")[0].rsplit("::", 1)[-1]
        if base in self.stores and obj is not None and "storage" in rec and not c.get("ctor"):
            if n in GROWERS:
                s = st.copy()
                s.facts[("gen", base)] = self.gen(s, base) + 1
                s.facts[("grown", base)] = n
                return [(NEXT, s, U)]
            if n == "max_retries":
                return [(NEXT, st, ("term", "max_retries", None, ()))]
            if n == "size":
                return [(NEXT, st, U)]
            rt = c.get("rt") or {}
            if not args and "&" in rt.get("f", ""):
                return [(NEXT, st, ("loc", ("at:%s/%s#%d" % (base, n, self.gen(st, base)),)))]
            if n.startswith("build_"):
                return [(NEXT, st, U), self.throw(st, node, base)]
            # makes a temporary in the store
            return [(NEXT, st, ("term", n, None, (("loc", ("at:%s/new#%d" % (base, self.gen(st, base)),)),))), self.throw(st, node, base)]
        vals = self.call_values(st, eng, obj, args)
        callee = self.prog.callee_fn(c)
        if callee is not None and callee is not self.fn and "/io/helper/" in callee.file and direct_retries(callee):
            return self.summary(eng, st, fr, node, callee, args)
        path = obj[1] if obj and obj[0] == "loc" else None
        root = self.root_of(path) if path else None
        fn = self.prog.callee_fn(c)
        inl = fn is not None and fn.has_body and self.should_inline(eng, fn, c, node)
        if not inl:
            self.check_use(eng, st, fr, node, [eng.rv(st, v) if v[0] == "loc" and not self.root_of(v[1]) else v for v in vals])
        # moving out of something
        if c.get("ctor") == "move" and args and args[0][0] == "loc" or (n == "operator=" and c.get("asg") == "move" and args and args[0][0] == "loc"):
            st2 = self.consume(eng, st, fr, node, args[0][1], (c.get("pt") or [{}])[0])
            if st2 is not None:
                if not inl:
                    return [(NEXT, st2, obj if obj else eng.rv(st, args[0]))]
                st.facts.update(st2.facts)
        if not inl and not root and n in ("operator*", "operator->") and obj is not None and len(args) <= 1:
            # what a position inside a store refers to
            at = sorted({l for l in leafs(eng.rv(st, obj)) if self.root_of(l)}, key=repr)
            if at:
                return [(NEXT, st, (("loc" if n == "operator*" else "ptr"), tuple(at[0]) + ("[]",)))]
        if root and not inl:
            store = root[3:].split("/")[0]
            key = "/".join([root[3:].rsplit("#", 1)[0]] + [str(x) for x in path[1:] if x not in ("*", "[]")])
            if n == "size" and not args:
                return [(NEXT, st, ("sz", key, st.facts.get(("net", key), 0)))]
            keyed = any(x in rec.split("<")[0] for x in ("map", "set"))
            if n in SEQ_ADD and not keyed:
                s = st.copy()
                s.facts[("net", key)] = s.facts.get(("net", key), 0) + 1
                return [(NEXT, s, ("loc", path + ("new",))), self.throw(st, node, store)]
            if n in ("pop_back", "erase") and args is not None:
                seq = not keyed
                s = st.copy()
                if seq:
                    s.facts[("net", key)] = s.facts.get(("net", key), 0) - 1
                else:
                    s.facts[("keyed", key)] = 0
                return [(NEXT, s, U)]
            if n in ALLOCATING:
                s, t = st.copy(), st
                if n in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                    t = self.consume_args(eng, st, fr, node, c, args)
                    s = t.copy()
                return [(NEXT, s, ("term", n, obj, ())), self.throw(t, node, store)]
        elif not inl and path is not None and n in SEQ_ADD + ALLOCATING:
            # a temporary whose memory comes from a store
            tv = eng.rv(st, obj)
            src = [self.root_of(l) for l in leafs(tv) if self.root_of(l)]
            if src:
                return [(NEXT, st, U), self.throw(st, node, src[0][3:].split("/")[0])]
        return None

    def summary(self, eng, st, fr, node, fn, args):
        consts = tuple((i, eng.rv(st, a)[1]) for i, a in enumerate(args) if a and eng.rv(st, a)[0] == "c")
        key = (fn.id if hasattr(fn, "id") else id(fn), consts)
        memo = self.memo
        if key not in memo:
            memo[key] = [("next", (), None, (), False)]     # recursion: no effect
            sub = Cl(self.prog, Quiet(), self.stores, fn, memo)
            e2 = Engine(self.prog, sub)
            a2 = [("loc", ("p:%s" % (p["n"] or i),)) for i, p in enumerate(fn["ps"])]
            for i, v in consts:
                if i < len(a2):
                    a2[i] = ("c", v)
            res = set()
            for k, s, v in e2.run(fn, args=a2):
                gens = tuple(sorted((k2[1], v2) for k2, v2 in s.facts.items() if isinstance(k2, tuple) and k2[0] == "gen"))
                nets = tuple(sorted((k2[1], v2) for k2, v2 in s.facts.items() if isinstance(k2, tuple) and k2[0] == "net" and v2))
                alloc = k == THROW and v and v[0] == "exc" and v[1] == "alloc"
                if k == THROW and not alloc:
                    continue
                made = sorted({self.root_of(l)[3:].split("/")[0] for l in (leafs(v) if v and k != THROW else ()) if self.root_of(l)})
                res.add(("throw" if k == THROW else "next", gens, s.facts.get("from") if k == THROW else None, nets, made[0] if made else None))
            memo[key] = sorted(res, key=repr)
        out = []
        grown = sorted({g for k, gens, frm, nets, made in memo[key] for g, n in gens if n})
        if grown and st.facts.get("outer") is not None and not any(k == "throw" for k, *_ in memo[key]):
            # the helper gives up when even the enlarged store is too small
            s = st.copy()
            s.facts["from"], s.facts["gaveup"] = grown[0], True
            for g in grown:
                s.facts[("gen", g)] = self.gen(s, g) + 1
            out.append((THROW, s, ("exc", "alloc", node.get("l"))))
        for k, gens, frm, nets, made in memo[key]:
            s = st.copy()
            for g, n in gens:
                s.facts[("gen", g)] = min(self.gen(s, g) + n, self.gen(s, g) + 1)
            for nkey, n in nets:
                s.facts[("net", nkey)] = s.facts.get(("net", nkey), 0) + n
            if k == "throw":
                s.facts["from"] = frm
                out.append((THROW, s, ("exc", "alloc", node.get("l"))))
            else:
                out.append((NEXT, s, ("term", fn.n, None, (("loc", ("at:%s/new#%d" % (made, self.gen(s, made)),)),)) if made else U))
        return out

    def owned_by_outer(self, st, path):
        lim = st.facts.get("outer")
        if lim is None:
            return False
        r = str(path[0])
        if r.startswith("p:"):
            return True
        f = frame_of(r)
        return f is not None and f <= lim

    def consume(self, eng, st, fr, node, path, t):
        if not self.owned_by_outer(st, path) or not owns(self.prog, t):
            return None
        s = st.copy()
        s.facts["consumed"] = s.facts.get("consumed", ()) + ((str(path[0]), self.where(fr, node)),)
        return s

    def consume_args(self, eng, st, fr, node, c, args):
        for a, e in zip(args, node.get("a") or []):
            while isinstance(e, dict) and e.get("k") in ("icast", "cast", "paren"):
                e = e.get("e")
            if isinstance(e, dict) and e.get("k") == "call" and (e.get("c") or {}).get("n") in ("move", "forward") and a[0] == "loc":
                t = self.arg_type(e)
                s = self.consume(eng, st, fr, node, a[1], t)
                if s is not None:
                    st = s
        return st

    def arg_type(self, e):
        for x in ir.walk(e):
            if isinstance(x, dict) and x.get("k") in ("ref", "mem") and x.get("t"):
                return x["t"]
        return {}

    # ---- the retry itself
    def retry(self, eng, st, fr, node, args):
        self.retries += 1
        tr, ca = args[0], args[1]
        if tr[0] != "lam":
            return None
        limit = args[2] if len(args) > 2 else None
        if limit and limit[0] == "c" and isinstance(limit[1], int) and limit[1] < 1:
            self.rep.violation("grow:%s:limit" % self.name(), "%s never repeats the step that ran out of space" % self.fn.n, self.where(fr, node))
        s0 = st.copy()
        outer_facts = {k: s0.facts.get(k) for k in ("outer", "consumed", "from", "gaveup")}
        s0.facts.pop("gaveup", None)
        s0.facts["outer"] = eng.frames
        s0.facts["consumed"] = ()
        saved = {k: v for k, v in s0.facts.items() if isinstance(k, tuple) and k[0] == "net"}
        for k in saved:
            del s0.facts[k]
        site = self.where(fr, node)
        res = []
        for k, s, v in eng.call_lambda(tr, [], s0, node):
            s = s.copy()
            if k == THROW and v and v[0] == "exc" and v[1] == "alloc":
                self.failed(eng, s, fr, node, ca, site, res, saved, outer_facts, tr)
                continue
            self.restore(s, saved, outer_facts)
            res.append((NEXT if k in (NEXT, RET) else k, s, v))
        return res

    def restore(self, s, saved, outer):
        for k, v in saved.items():
            s.facts[k] = s.facts.get(k, 0) + v
        for k, v in outer.items():
            if v is None:
                s.facts.pop(k, None)
            else:
                s.facts[k] = v

    def failed(self, eng, s, fr, node, ca, site, res, saved, outer, tr):
        store = s.facts.get("from")
        self.used.add(store)
        before = {k: v for k, v in s.facts.items()}
        grown = {}
        ok = []
        if ca[0] == "lam":
            for k, s2, v in eng.call_lambda(ca, [U], s.copy(), node):
                g = {k2[1]: v2 for k2, v2 in s2.facts.items() if isinstance(k2, tuple) and k2[0] == "grown" and s2.facts.get(("gen", k2[1]), 0) > before.get(("gen", k2[1]), 0)}
                if k in (NEXT, RET):
                    if store not in g and not s.facts.get("gaveup"):
                        self.rep.violation("grow:%s:%s" % (self.name(), store), "when %s is full, %s tries again without enlarging it" % (store, self.fn.n), site)
                    ok.append((s2, g))
        if not ok and not s.facts.get("gaveup"):
            self.rep.violation("grow:%s:never" % self.name(), "%s is never tried again after enlarging %s" % (self.fn.n, store), site)
        dropped = any(v == "drop_grow" for _, g in ok for v in g.values())
        for k, v in before.items():
            if isinstance(k, tuple) and k[0] == "net" and v != 0 and not dropped:
                self.rep.violation("undo:%s:%s" % (self.name(), k[1]), "%s: when it runs out of space, %s elements %s %s stay behind and the step is done again" % (
                    self.fn.n, abs(v), "added to" if v > 0 else "removed from", k[1]), site)
        for root, loc in before.get("consumed", ()):
            self.rep.violation("consumed:%s" % self.name(), "%s: the step moves %s away and is done again with what is left of it when it runs out of space" % (self.fn.n, root.split("#")[0]), loc)
        # the second attempt sees what the first one sees, in a new mapping
        for s2, g in ok[:1]:
            s3 = s2.copy()
            for k in [k for k in s3.facts if isinstance(k, tuple) and k[0] == "net"]:
                del s3.facts[k]
            if (site, store) not in self.second:
                # once for every way to get here the step is followed again, for what it takes from before
                self.second.add((site, store))
                s4 = s3.copy()
                s4.facts["outer"], s4.facts["consumed"] = eng.frames, ()
                for k, s5, v in eng.call_lambda(tr, [], s4, node):
                    if k in (NEXT, RET):
                        s5 = s5.copy()
                        self.restore(s5, saved, outer)
                        res.append((NEXT, s5, v))
            self.restore(s3, saved, outer)
            res.append((NEXT, s3, U))

    def on_cond(self, eng, st, fr, v, truth, node):
        if v and v[0] == "op" and len(v) == 4 and v[2] and v[3] and v[2][0] == "sz" and v[3][0] == "sz" and v[2][1] == v[3][1]:
            a, b = v[2][2], v[3][2]
            r = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}.get(v[1])
            return st if r is None or r == bool(truth) else None
        # the new element is the last one, and the container is not empty, while it is being taken back
        if v and v[0] == "term" and v[1] == "empty" and truth:
            for l in leafs(v[2]) if v[2] else ():
                r = self.root_of(l)
                if r:
                    key = "/".join([r[3:].rsplit("#", 1)[0]] + [str(x) for x in l[1:] if x not in ("*", "[]")])
                    if st.facts.get(("net", key), 0) > 0:
                        return None
        if v and v[0] == "op" and v[1] == "==" and st.facts.get("from") and "at:" in repr(v[2]) and "at:" in repr(v[3]) and v[2][0] in ("ptr", "term", "loc"):
            return st if truth else None
        return st


def retries(prog, rep):
    rep.rule("undo", "a step that is done again after enlarging its store has first taken back every element the failed attempt added")
    rep.rule("consumed", "a step that may be done again does not move its input away before it can no longer fail")
    rep.rule("stale", "no reference into a store is used after an operation that may have enlarged that store")
    rep.rule("grow", "a step that ran out of space is done again only after enlarging the store that was full")
    stores = {base_name(r) for r, _ in store_records(prog)}
    sites = set()
    tot = 0
    memo = {}
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, str(f.r))):
        if not f.has_body or "/io/helper/" not in f.file or "inits" in f.j:
            continue
        direct = direct_retries(f)
        if not direct:
            continue
        cl = Cl(prog, rep, stores, f, memo)
        eng = Engine(prog, cl)
        eng.run(f)
        rep.fn(f)
        tot += cl.retries
        for n in direct:
            sites.add("%s:%s" % (f.file, n["l"]))
        for r in ("undo", "consumed", "stale", "grow"):
            rep.instance(r, cl.name() + "@" + f.loc, f.loc)
    rep.floor("grow", 12)


# ------------------------------------------------------- the retry loop
class Again(Client):
    loop_rounds = 12
    max_depth = 4

    def should_inline(self, eng, fn, callee, node):
        return callee["n"] == "retry_alloc"

    def on_call(self, eng, st, fr, node, c, obj, args):
        if node["k"] == "opcall" and node.get("op") == "()" and obj and obj[0] == "term" and obj[1] in ("@try", "@catch"):
            ok, full = st.copy(), st.copy()
            tr = st.facts.get("tr", "")
            if obj[1] == "@catch":
                ok.facts["tr"] = tr + "g"
                return [(NEXT, ok, U)]
            ok.facts["tr"], full.facts["tr"] = tr + "t", tr + "x"
            return [(NEXT, ok, ("term", "@result", None, ())), (THROW, full, ("exc", "alloc", node["l"]))]
        return None

    def may_throw(self, eng, st, fr, node, callee):
        return False

    def on_catch(self, eng, st, fr, h, v):
        t = h.get("t")
        if t in (None, -1):
            return True
        name = (t.get("n") or "") + (t.get("s") or "") if isinstance(t, dict) else ""
        return "bad_alloc" in name or "interprocess_exception" in name or "std::exception" in name

    def escapes(self, eng, st, fr, n, v):
        return False


def again(prog, rep):
    rep.rule("again", "the retry loop does the step again after every enlargement while the limit allows, returns what the successful attempt returned, and reports the failure when the limit is reached")
    for f in sorted(prog.fns.values(), key=lambda f: (f.loc, str(f.r))):
        if f.n != "retry_alloc" or not f.has_body or len(f["ps"]) < 3:
            continue
        for limit in (0, 1, 3):
            cl = Again()
            eng = Engine(prog, cl)
            outs = eng.run(f, args=[("term", "@try", None, ()), ("term", "@catch", None, ()), ("c", limit)])
            got = set()
            for k, s, v in outs:
                tr = s.facts.get("tr", "")
                if k == THROW:
                    got.add((tr.rstrip("g"), "throw"))
                else:
                    void = (f.j.get("rt") or {}).get("n") == "void" or v in (None, U)
                    got.add((tr, "ret" if void or v == ("term", "@result", None, ()) else "other"))
            want = {("xg" * i + "t", "ret") for i in range(limit + 1)} | {("xg" * limit + "x", "throw")}
            for tr, how in sorted(got - want):
                what = tr.replace("t", "step done, ").replace("x", "step out of space, ").replace("g", "enlarged, ")
                rep.violation("again:%s" % how, "retry_alloc allowing %d repetitions: %sthen %s" % (limit, what, {"ret": "returns", "other": "returns something else", "throw": "gives up"}[how]), f.loc)
            for tr, how in sorted(want - got):
                rep.violation("again:missing", "retry_alloc allowing %d repetitions never gets to '%s'" % (limit, tr.replace("t", "step done, ").replace("x", "step out of space, ").replace("g", "enlarged, ")), f.loc)
            rep.fn(f)
        rep.instance("again", "%s %s" % (f.n, f.loc), f.loc)
    rep.floor("again", 1)


def keyed(prog, rep):
    """entries added to the tag dictionary before space ran out: the repetition would find half of them"""
    from .c04 import adders, Dict, tname, kind
    rep.rule("keyed", "when space runs out in the middle of adding to the tag dictionary, no entry stays in one table whose opposite is missing in the reverse table, as the repetition would find it and skip the rest")
    for f in adders(prog):
        eng = Engine(prog, Dict(prog, f))
        outs = eng.run(f, args=[("loc", ("p:%d" % i,)) for i in range(len(f["ps"]))])
        rep.fn(f)
        ways = 0
        for k, s, v in outs:
            if k != THROW:
                continue
            ways += 1
            ins = s.facts.get("ins", ())
            for T, kk, vv in ins:
                if not any(t2 != T and k2 == vv and v2 == kk for t2, k2, v2 in ins):
                    rep.violation("keyed:%s" % tname(T), "id() leaves an entry in %s when space runs out before its opposite is stored; the repetition finds it and never stores the opposite" % tname(T), s.facts.get("at", f.loc))
        rep.instance("keyed", "id (%s) %d ways to run out of space" % (kind(f), ways), f.loc)
    rep.floor("keyed", 2)


def run(prog, rep):
    handles(prog, rep)
    keyed(prog, rep)
    again(prog, rep)
    retries(prog, rep)
    rep.note("container operations are taken to have the standard exception guarantees; network.simplify, which resumes at the vertex it failed at, is not followed")

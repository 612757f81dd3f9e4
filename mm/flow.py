"""Path-sensitive, interprocedural (inlining) dataflow over the extracted IR.

Abstract values (tuples):
  ('loc', path)            an lvalue / object; path = (root, field, field, ...)
  ('c', constant)
  ('lam', n)               a lambda (engine.lams[n])
  ('in', path)             the unknown initial content of an object
  ('op', op, a, b) / ('un', op, a)
  ('term', name, obj, args)  result of a call that is not inlined
  ('u',)                   unknown

The client (domain) gets the events; the engine does environments, reference
aliasing, control flow, loops (0..2 rounds to a fixpoint of the finite state),
exceptions and lambdas.
"""
from . import ir

NEXT, RET, BRK, CONT, THROW = "next", "ret", "brk", "cont", "throw"
U = ("u",)


class Limit(Exception):
    pass


class St:
    """abstract state: env (locals -> value) and client facts, copy on write"""
    __slots__ = ("env", "facts")

    def __init__(self, env=None, facts=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return St(dict(self.env), dict(self.facts))

    def key(self):
        return (frozenset(self.env.items()), frozenset((k, v if not isinstance(v, (set, list, dict)) else repr(v)) for k, v in self.facts.items()))


class Frame:
    __slots__ = ("id", "fn", "this", "depth", "parent", "loc")

    def __init__(self, id_, fn, this, depth, parent=None, loc=""):
        self.id, self.fn, self.this, self.depth, self.parent, self.loc = id_, fn, this, depth, parent, loc


class Client:
    max_depth = 14
    max_states = 4000
    loop_rounds = 2
    loop_min = 0        # 1: ignore the path that skips a loop altogether

    def should_inline(self, eng, fn, callee, node):
        return True

    def on_call(self, eng, st, fr, node, callee, obj, args):
        return None

    def on_write(self, eng, st, fr, path, value, node, op="="):
        return None

    def on_enter(self, eng, st, fr, fn):
        return None

    def on_cond(self, eng, st, fr, val, truth, node):
        return st

    def on_decl(self, eng, st, fr, var, val):
        return None

    def may_throw(self, eng, st, fr, node, callee):
        return False

    def on_read(self, eng, st, fr, path, node):
        return None


PASS_THROUGH = {"move", "forward", "cref", "ref", "as_const", "addressof", "get", "as_mutable", "move_if_noexcept"}
ELEM = {"at", "operator[]", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "top"}


class Engine:
    def __init__(self, prog, client):
        self.p = prog
        self.cl = client
        self.lams = []
        self.frames = 0
        self.steps = 0
        self.inlined = set()
        self.max_steps = 400000
        self.lam_bodies = 4
        self.uids = {}

    # ------------------------------------------------------------ running
    def new_frame(self, fn, this, depth, parent=None):
        self.frames += 1
        return Frame(self.frames, fn, this, depth, parent, fn.loc if hasattr(fn, "loc") else (parent.loc if parent else ""))

    def run(self, fn, this=("loc", ("this",)), args=None, st=None):
        st = st or St()
        fr = self.new_frame(fn, this, 0)
        if args is None:
            args = [("loc", ("p:%s" % (p["n"] or i),)) for i, p in enumerate(fn["ps"])]
        return self.enter(fn, fr, args, st)

    def bind(self, st, fr, ps, args):
        for i, p in enumerate(ps):
            v = args[i] if i < len(args) else U
            self.bind_var(st, fr, p, v)

    def is_ref(self, t):
        return bool(t) and ("&" in t.get("f", ""))

    def bind_var(self, st, fr, var, v):
        """binds a declared variable to a value; references alias, values become fresh roots"""
        key = (fr.id, var["d"])
        if self.is_ref(var.get("t")):
            st.env[key] = v
        else:
            st.env[key] = ("loc", ("v:%s#%d.%d" % (var["n"], var["d"], fr.id),))
            st.env[("val", st.env[key][1])] = self.rv(st, v)

    def rv(self, st, v):
        """value stored in an lvalue if the engine knows it"""
        if v and v[0] == "loc":
            got = st.env.get(("val", v[1]))
            if got is not None:
                return got
            return ("in", v[1])
        return v

    def enter(self, fn, fr, args, st):
        st = st.copy()
        self.bind(st, fr, fn["ps"], args)
        self.cl.on_enter(self, st, fr, fn)
        outs = [(NEXT, st, None)]
        if "inits" in fn.j:
            outs = self.ctor_inits(fn, fr, st)
        res = []
        for k, s, v in outs:
            if k != NEXT:
                res.append((k, s, v))
                continue
            for k2, s2, v2 in self.stmt(fn.body, fr, s):
                if k2 in (NEXT, RET):
                    res.append((RET, s2, v2))
                else:
                    res.append((k2, s2, v2))
        return self.dedupe(res)

    def ctor_inits(self, fn, fr, st):
        outs = [(NEXT, st, None)]
        for init in fn["inits"]:
            nxt = []
            for k, s, v in outs:
                if k != NEXT:
                    nxt.append((k, s, v))
                    continue
                e = init.get("e")
                if "m" in init:
                    path = fr.this[1] + (init["m"],)
                    for k2, s2, v2 in self.expr(e, fr, s, dest=("loc", path)):
                        if k2 == NEXT:
                            self.write(s2, fr, ("loc", path), v2, e or {"l": 0}, "init")
                        nxt.append((k2, s2, None))
                else:
                    for k2, s2, v2 in self.expr(e, fr, s, dest=fr.this):
                        nxt.append((k2, s2, None))
            outs = self.dedupe(nxt)
        return outs

    def dedupe(self, outs):
        if len(outs) <= 1:
            return outs
        seen, res = set(), []
        for k, s, v in outs:
            key = (k, s.key(), repr(v))
            if key not in seen:
                seen.add(key)
                res.append((k, s, v))
        if len(res) > self.cl.max_states:
            raise Limit("too many states")
        return res

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit")

    # --------------------------------------------------------- statements
    def stmt(self, n, fr, st):
        self.tick()
        if n is None:
            return [(NEXT, st, None)]
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            # unknown statement: evaluate children in order
            outs = [(NEXT, st, None)]
            for c in ir.kids(n):
                outs = self.seq(outs, lambda s, c=c: self.stmt(c, fr, s) if c.get("k") else [(NEXT, s, None)])
            return outs
        return m(n, fr, st)

    def seq(self, outs, f):
        res = []
        for k, s, v in outs:
            if k == NEXT:
                res.extend(f(s))
            else:
                res.append((k, s, v))
        return self.dedupe(res)

    def s_expr(self, n, fr, st):
        return [(k, s, None if k == NEXT else v) for k, s, v in self.expr(n["e"], fr, st)]

    def s_block(self, n, fr, st):
        outs = [(NEXT, st, None)]
        for c in n["s"]:
            outs = self.seq(outs, lambda s, c=c: self.stmt(c, fr, s))
            if not any(o[0] == NEXT for o in outs):
                break
        dead = [v["d"] for c in n["s"] if c and c["k"] == "decl" for v in c["v"]]
        dead += [b["d"] for c in n["s"] if c and c["k"] == "decl" for v in c["v"] for b in v.get("bind", [])]
        return self.kill(outs, fr, dead)

    def kill(self, outs, fr, dead):
        """forgets block local variables when their scope ends"""
        if not dead:
            return outs
        res = []
        for k, s, v in outs:
            if k in (NEXT, BRK, CONT):
                s = s.copy()
                for d in dead:
                    loc = s.env.pop((fr.id, d), None)
                    if loc is not None and loc[0] == "loc" and loc[1][0].startswith("v:") and loc[1][0].endswith("#%d.%d" % (d, fr.id)):
                        for key in [x for x in s.env if x[0] == "val" and x[1][0] == loc[1][0]]:
                            del s.env[key]
            res.append((k, s, v))
        return self.dedupe(res)

    def s_nop(self, n, fr, st):
        return [(NEXT, st, None)]

    def s_decl(self, n, fr, st):
        outs = [(NEXT, st, None)]
        for v in n["v"]:
            outs = self.seq(outs, lambda s, v=v: self.decl(v, fr, s))
        return outs

    def decl(self, v, fr, st):
        key = (fr.id, v["d"])
        isref = self.is_ref(v.get("t"))
        if v.get("e") is None:
            st = st.copy()
            st.env[key] = ("loc", ("v:%s#%d.%d" % (v["n"], v["d"], fr.id),))
            st.env.pop(("val", st.env[key][1]), None)
            self.cl.on_decl(self, st, fr, v, None)
            return [(NEXT, st, None)]
        dest = None if isref else ("loc", ("v:%s#%d.%d" % (v["n"], v["d"], fr.id),))
        if dest and ("val", dest[1]) in st.env:
            st = st.copy()
            del st.env[("val", dest[1])]
        res = []
        for k, s, val in self.expr(v["e"], fr, st, dest=dest):
            if k != NEXT:
                res.append((k, s, val))
                continue
            s = s.copy()
            if isref:
                s.env[key] = val
            else:
                s.env[key] = dest
                if val != dest:
                    s.env[("val", dest[1])] = self.rv(s, val)
            for b in v.get("bind", []):
                base = val if isref else dest
                bk = (fr.id, b["d"])
                s.env[bk] = ("loc", base[1] + (self.bound(v, b),)) if base[0] == "loc" else ("fld", base, self.bound(v, b))
                if b.get("hv"):
                    s.env[(fr.id, b["hv"])] = s.env[bk]
                if not isref and val != dest:
                    src = self.rv(s, val)
                    name = self.bound(v, b)
                    s.env[("val", s.env[bk][1])] = self.rv(s, ("loc", src[1] + (name,))) if src[0] in ("in", "loc") else ("fld", src, name)
            self.cl.on_decl(self, s, fr, v, val)
            res.append((NEXT, s, None))
        return res

    @staticmethod
    def bound(v, b):
        """the member that a structured binding names"""
        e = b.get("e") or {}
        if e.get("k") == "mem" and e.get("n"):
            return e["n"]
        bs = v.get("bind", [])
        t = v.get("t") or {}
        while t.get("k") == "r" or t.get("p") and isinstance(t.get("p"), dict):
            t = t.get("p") or t.get("t") or {}
        if len(bs) == 2 and str(t.get("n", v.get("t", {}).get("n", ""))).rsplit("::", 1)[-1].startswith("pair"):
            return "first" if bs[0] is b else "second"
        return "#" + b["n"]

    def s_if(self, n, fr, st):
        outs = [(NEXT, st, None)]
        if n.get("init"):
            outs = self.seq(outs, lambda s: self.stmt(n["init"], fr, s))
        if n.get("cv"):
            outs = self.seq(outs, lambda s: self.decl(n["cv"], fr, s))
        return self.seq(outs, lambda s: self.branch(n["c"], fr, s,
                                                    lambda s2: self.stmt(n["a"], fr, s2),
                                                    lambda s2: self.stmt(n.get("b"), fr, s2)))

    def branch(self, c, fr, st, then, els):
        """short-circuit aware evaluation of a condition"""
        res = []
        for k, s, t in self.cond(c, fr, st):
            if k != NEXT:
                res.append((k, s, t))
            elif t:
                res.extend(then(s))
            else:
                res.extend(els(s))
        return self.dedupe(res)

    def cond(self, c, fr, st):
        """list of (kind, state, truth)"""
        while c and c["k"] in ("icast", "cast") and c.get("t", {}).get("k") == "b":
            c = c["e"]
        if c["k"] == "un" and c["op"] == "!":
            return [(k, s, (not t) if k == NEXT else t) for k, s, t in self.cond(c["e"], fr, st)]
        if c["k"] == "bin" and c["op"] in ("&&", "||"):
            res = []
            for k, s, t in self.cond(c["a"], fr, st):
                if k != NEXT:
                    res.append((k, s, t))
                elif (c["op"] == "&&") != bool(t):
                    res.append((NEXT, s, t))
                else:
                    res.extend(self.cond(c["b"], fr, s))
            return res
        res = []
        for k, s, v in self.expr(c, fr, st):
            if k != NEXT:
                res.append((k, s, v))
                continue
            v2 = self.rv(s, v)
            if v2 and v2[0] == "c" and isinstance(v2[1], (bool, int)):
                res.append((NEXT, s, bool(v2[1])))
                continue
            for t in (True, False):
                s2 = self.cl.on_cond(self, s.copy(), fr, v2, t, c)
                if s2 is not None:
                    res.append((NEXT, s2, t))
        return res

    def loop(self, fr, st, head, body, post):
        """head(s) -> list (kind, state, enter?)"""
        res, seen = [], set()
        work = [(0, st)]
        while work:
            rnd, s = work.pop()
            key = s.key()
            if key in seen:
                continue
            seen.add(key)
            for k, s1, t in head(s):
                if k != NEXT:
                    res.append((k, s1, t))
                    continue
                if not t or rnd >= self.cl.loop_rounds:
                    if t or rnd >= self.cl.loop_min:
                        res.append((NEXT, s1, None))
                    continue
                for k2, s2, v2 in body(s1):
                    if k2 == BRK:
                        res.append((NEXT, s2, None))
                    elif k2 in (NEXT, CONT):
                        for k3, s3, v3 in post(s2):
                            if k3 == NEXT:
                                work.append((rnd + 1, s3))
                            else:
                                res.append((k3, s3, v3))
                    else:
                        res.append((k2, s2, v2))
        return self.dedupe(res)

    def s_for(self, n, fr, st):
        outs = self.stmt(n.get("init"), fr, st) if n.get("init") else [(NEXT, st, None)]

        def one(s):
            def head(s1):
                if not n.get("c"):
                    return [(NEXT, s1, True), (NEXT, s1, False)] if False else [(NEXT, s1, True)]
                return self.cond(self.loop_cond(n["c"]), fr, s1)

            def post(s1):
                if not n.get("inc"):
                    return [(NEXT, s1, None)]
                return [(k, x, None if k == NEXT else v) for k, x, v in self.expr(n["inc"], fr, s1)]
            return self.loop(fr, s, head, lambda s1: self.stmt(n["b"], fr, s1), post)
        dead = [v["d"] for v in n["init"]["v"]] if n.get("init") and n["init"]["k"] == "decl" else []
        return self.kill(self.seq(outs, one), fr, dead)

    def loop_cond(self, c):
        return c

    def s_while(self, n, fr, st):
        return self.loop(fr, st, lambda s: self.cond(n["c"], fr, s), lambda s: self.stmt(n["b"], fr, s),
                         lambda s: [(NEXT, s, None)])

    def s_do(self, n, fr, st):
        first = self.stmt(n["b"], fr, st)
        res = []
        for k, s, v in first:
            if k in (NEXT, CONT):
                res.extend(self.loop(fr, s, lambda s1: self.cond(n["c"], fr, s1),
                                     lambda s1: self.stmt(n["b"], fr, s1), lambda s1: [(NEXT, s1, None)]))
            elif k == BRK:
                res.append((NEXT, s, None))
            else:
                res.append((k, s, v))
        return self.dedupe(res)

    def s_rfor(self, n, fr, st):
        outs = self.stmt(n.get("init"), fr, st) if n.get("init") else [(NEXT, st, None)]
        res = []
        for k, s, v in outs:
            if k != NEXT:
                res.append((k, s, v))
                continue
            for k2, s2, rng in self.expr(n["r"], fr, s):
                if k2 != NEXT:
                    res.append((k2, s2, rng))
                    continue
                var = n["v"]

                def body(s3, rng=rng):
                    s3 = s3.copy()
                    elem = ("loc", (rng[1] if rng[0] == "loc" else ("t",)) + ("[]",))
                    if self.is_ref(var.get("t")):
                        s3.env[(fr.id, var["d"])] = elem
                    else:
                        d = ("loc", ("v:%s#%d.%d" % (var["n"], var["d"], fr.id),))
                        s3.env[(fr.id, var["d"])] = d
                        s3.env[("val", d[1])] = ("in", elem[1])
                    for b in var.get("bind", []):
                        s3.env[(fr.id, b["d"])] = ("loc", elem[1] + (self.bound(var, b),))
                        if b.get("hv"):
                            s3.env[(fr.id, b["hv"])] = s3.env[(fr.id, b["d"])]
                    self.cl.on_decl(self, s3, fr, var, elem)
                    return self.stmt(n["b"], fr, s3)
                res.extend(self.loop(fr, s2, lambda s3: [(NEXT, s3, True), (NEXT, s3, False)], body,
                                     lambda s3: [(NEXT, s3, None)]))
        return self.dedupe(res)

    def s_switch(self, n, fr, st):
        outs = self.stmt(n["init"], fr, st) if n.get("init") else [(NEXT, st, None)]
        res = []
        body = n["b"]
        items = body["s"] if body and body["k"] == "block" else [body]
        flat = []
        for it in items:
            labels = []
            while it and it["k"] in ("case", "default"):
                labels.append(it.get("v") if it["k"] == "case" else "default")
                it = it.get("s")
            flat.append((labels, it))
        hasdef = any("default" in [x for x in l if isinstance(x, str)] for l, _ in flat)
        for k, s, v in outs:
            if k != NEXT:
                res.append((k, s, v))
                continue
            for k1, s1, cv in self.expr(n["c"], fr, s):
                if k1 != NEXT:
                    res.append((k1, s1, cv))
                    continue
                entries = [i for i, (l, _) in enumerate(flat) if l]
                vals = {i: [("d",) if x == "default" else self.case_value(x, fr, s1) for x in flat[i][0]] for i in entries}
                c0 = self.rv(s1, cv) if cv and cv[0] == "loc" else cv
                known = c0 and c0[0] == "c" and all(x[0] in ("c", "d") for l in vals.values() for x in l)
                hit = [i for i in entries if any(x[0] == "c" and x[1] == c0[1] for x in vals[i])] if known else None
                for i in entries:
                    lab = flat[i][0]
                    if known and (i not in hit if hit else ("d",) not in vals[i]):
                        continue
                    s2 = s1.copy()
                    if not known:
                        if ("d",) not in vals[i]:
                            if len(vals[i]) == 1 and vals[i][0][0] == "c":
                                s2 = self.cl.on_cond(self, s2, fr, ("op", "==", c0, vals[i][0]), True, n)
                        else:
                            for l in vals.values():
                                for x in l:
                                    if x[0] == "c" and s2 is not None and l is not vals[i]:
                                        s2 = self.cl.on_cond(self, s2, fr, ("op", "==", c0, x), False, n)
                        if s2 is None:
                            continue
                    s2 = self.cl_case(s2, fr, cv, lab, n)
                    if s2 is None:
                        continue
                    cur = [(NEXT, s2, None)]
                    for l, stn in flat[i:]:
                        cur = self.seq(cur, lambda s3, stn=stn: self.stmt(stn, fr, s3))
                    for k3, s3, v3 in cur:
                        res.append((NEXT if k3 == BRK else k3, s3, v3))
                if not hasdef and not (known and hit):
                    s2 = s1
                    if not known:
                        s2 = s1.copy()
                        for l in vals.values():
                            for x in l:
                                if x[0] == "c" and s2 is not None:
                                    s2 = self.cl.on_cond(self, s2, fr, ("op", "==", c0, x), False, n)
                    if s2 is not None:
                        res.append((NEXT, s2, None))
        return self.dedupe(res)

    def case_value(self, e, fr, st):
        if not isinstance(e, dict):
            return U
        for k, s, v in self.expr(e, fr, st):
            if k == NEXT and v:
                return v
        return U

    def cl_case(self, st, fr, cv, labels, n):
        f = getattr(self.cl, "on_case", None)
        return f(self, st, fr, cv, labels, n) if f else st

    def s_ret(self, n, fr, st):
        if not n.get("e"):
            return [(RET, st, None)]
        return [(RET if k == NEXT else k, s, v) for k, s, v in self.expr(n["e"], fr, st)]

    def s_break(self, n, fr, st):
        return [(BRK, st, None)]

    def s_continue(self, n, fr, st):
        return [(CONT, st, None)]

    def s_try(self, n, fr, st):
        outs = self.stmt(n["b"], fr, st)
        res = []
        for k, s, v in outs:
            if k == THROW:
                caught = False
                for h in n["h"]:
                    s2 = s.copy()
                    f = getattr(self.cl, "on_catch", None)
                    r = f(self, s2, fr, h, v) if f else None
                    if r is False or caught:
                        continue
                    caught = r == "certainly"
                    if h.get("v"):
                        s2.env[(fr.id, h["v"]["d"])] = U
                    for k3, s3, v3 in self.stmt(h["b"], fr, s2):
                        if k3 == THROW and v3 == ("u", "rethrow"):
                            v3 = v
                        res.append((k3, s3, v3))
                if not caught and not any((h.get("t") is None) or h.get("t") == -1 for h in n["h"]):
                    f = getattr(self.cl, "escapes", None)
                    if f is None or f(self, s, fr, n, v):
                        res.append((k, s, v))
            else:
                res.append((k, s, v))
        return self.dedupe(res)

    # -------------------------------------------------------- expressions
    def expr(self, n, fr, st, dest=None):
        """list of (NEXT|THROW, state, value)"""
        self.tick()
        if n is None:
            return [(NEXT, st, U)]
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.e_x(n, fr, st, dest)
        return m(n, fr, st, dest)

    def many(self, es, fr, st):
        outs = [(NEXT, st, [])]
        for e in es:
            nxt = []
            for k, s, vs in outs:
                if k != NEXT:
                    nxt.append((k, s, vs))
                    continue
                for k2, s2, v in self.expr(e, fr, s):
                    nxt.append((k2, s2, vs + [v] if k2 == NEXT else v))
            outs = nxt
        return outs

    def e_x(self, n, fr, st, dest):
        es = [c for c in ir.kids(n) if c.get("k")]
        res = []
        for k, s, vs in self.many(es, fr, st):
            res.append((k, s, ("c", self.const(n["cv"])) if "cv" in n and k == NEXT else (U if k == NEXT else vs)))
        return res

    @staticmethod
    def const(v):
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                return v
        return v

    def lookup(self, st, fr, d):
        f = fr
        while f is not None:
            v = st.env.get((f.id, d))
            if v is not None:
                return v
            f = f.parent
        return None

    def e_ref(self, n, fr, st, dest):
        v = self.lookup(st, fr, n["d"])
        if v is None:
            if "cv" in n:
                return [(NEXT, st, ("c", self.const(n["cv"])))]
            if "sv" in n:
                return [(NEXT, st, ("c", n["sv"]))]
            v = ("loc", ("g:" + n.get("q", n["n"]),))
        if v[0] == "loc":
            self.cl.on_read(self, st, fr, v[1], n)
        return [(NEXT, st, v)]

    def e_fref(self, n, fr, st, dest):
        return [(NEXT, st, ("fn", n["c"]["q"]))]

    def e_enum(self, n, fr, st, dest):
        return [(NEXT, st, ("c", self.const(n["v"])))]

    def e_this(self, n, fr, st, dest):
        if fr.this and fr.this[0] == "loc":
            return [(NEXT, st, ("ptr", fr.this[1]))]
        return [(NEXT, st, U)]

    def e_mem(self, n, fr, st, dest):
        res = []
        for k, s, b in self.expr(n["b"], fr, st):
            if k != NEXT:
                res.append((k, s, b))
                continue
            if b[0] == "ptr" and n.get("arrow"):
                b = ("loc", b[1])
            elif b[0] == "loc" and n.get("arrow"):
                b = ("loc", self.deref(s, b[1]))
            if b[0] == "loc":
                path = b[1]
                v = ("loc", path + (n["n"],))
                # resolve a reference-typed or known pointer field
                self.cl.on_read(self, s, fr, v[1], n)
                if "&" in (n.get("t") or {}).get("f", "") and ("val", v[1]) in s.env:
                    w = s.env[("val", v[1])]
                    if w[0] == "loc":
                        v = w
                res.append((NEXT, s, v))
            elif b[0] in ("term", "in"):
                res.append((NEXT, s, ("fld", b, n["n"])))
            else:
                res.append((NEXT, s, U))
        return res

    def e_mref(self, n, fr, st, dest):
        return [(NEXT, st, U)]

    def deref(self, st, path):
        v = st.env.get(("val", path))
        if v and v[0] == "ptr":
            return v[1]
        if v and v[0] == "in":
            return v[1] + ("*",)
        return path + ("*",)

    def e_un(self, n, fr, st, dest):
        res = []
        op = n["op"]
        for k, s, v in self.expr(n["e"], fr, st):
            if k != NEXT:
                res.append((k, s, v))
                continue
            if op == "*":
                if v[0] == "ptr":
                    res.append((NEXT, s, ("loc", v[1])))
                elif v[0] == "loc":
                    res.append((NEXT, s, ("loc", self.deref(s, v[1]))))
                else:
                    res.append((NEXT, s, U))
                continue
            if op == "&":
                res.append((NEXT, s, ("ptr", v[1]) if v[0] == "loc" else U))
                continue
            if op in ("++", "--", "++p", "--p"):
                if v[0] == "loc":
                    s = s.copy()
                    old = self.rv(s, v)
                    new = ("op", "+" if "+" in op else "-", old, ("c", 1))
                    if old[0] == "c" and isinstance(old[1], int):
                        new = ("c", old[1] + (1 if "+" in op else -1))
                    s = self.do_write(s, fr, v, new, n, op)
                    res.append((NEXT, s, old if op.endswith("p") else v))
                else:
                    res.append((NEXT, s, U))
                continue
            rv = self.rv(s, v)
            if op == "!" and rv[0] == "c":
                res.append((NEXT, s, ("c", not rv[1])))
            elif op == "-" and rv[0] == "c" and isinstance(rv[1], (int, float)):
                res.append((NEXT, s, ("c", -rv[1])))
            else:
                res.append((NEXT, s, ("un", op, rv)))
        return res

    def e_bin(self, n, fr, st, dest):
        op = n["op"]
        if op in ("&&", "||"):
            res = []
            for k, s, t in self.cond(n, fr, st):
                res.append((k, s, ("c", bool(t)) if k == NEXT else t))
            return res
        res = []
        for k, s, vs in self.many([n["a"], n["b"]], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if op == ",":
                res.append((NEXT, s, vs[1]))
                continue
            res.append((NEXT, s, self.binop(op, a, b, vs)))
        return res

    def binop(self, op, a, b, lv=None):
        if a[0] == "c" and b[0] == "c":
            try:
                x, y = a[1], b[1]
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "==": lambda: x == y,
                     "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y,
                     ">=": lambda: x >= y}.get(op)
                if r:
                    return ("c", r())
            except TypeError:
                pass
        return ("op", op, a, b)

    def e_asg(self, n, fr, st, dest):
        res = []
        # C++17: right side first
        for k, s, vs in self.many([n["b"], n["a"]], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            s = s.copy()
            val, tgt = vs
            if n["op"] != "=":
                val = ("op", n["op"][:-1], self.rv(s, tgt), self.rv(s, val))
            s = self.do_write(s, fr, tgt, val, n, n["op"])
            res.append((NEXT, s, tgt))
        return res

    def do_write(self, st, fr, tgt, val, n, op):
        self.write(st, fr, tgt, val, n, op)
        return st

    def write(self, st, fr, tgt, val, n, op):
        """strong update of a location (in place on st)"""
        if tgt[0] != "loc":
            return
        path = tgt[1]
        self.cl.on_write(self, st, fr, path, val, n, op)
        if val == tgt:
            return      # constructed in place
        # drop knowledge about sub paths
        kill = [k for k in st.env if k[0] == "val" and len(k[1]) > len(path) and k[1][:len(path)] == path]
        for k in kill:
            del st.env[k]
        if "[]" in path:
            st.env.pop(("val", path), None)
            return
        v = val
        if v is not None and v[0] == "loc":
            v = self.rv(st, v)
        st.env[("val", path)] = v if v is not None else U

    def e_cond(self, n, fr, st, dest):
        return self.branch(n["c"], fr, st, lambda s: self.expr(n["a"], fr, s, dest),
                           lambda s: self.expr(n["b"], fr, s, dest))

    def e_int(self, n, fr, st, dest):
        return [(NEXT, st, ("c", int(n["v"])))]

    def e_float(self, n, fr, st, dest):
        return [(NEXT, st, ("c", float(n["v"])))]

    def e_str(self, n, fr, st, dest):
        return [(NEXT, st, ("c", n["v"]))]

    def e_char(self, n, fr, st, dest):
        return [(NEXT, st, ("c", n["v"]))]

    def e_bool(self, n, fr, st, dest):
        return [(NEXT, st, ("c", bool(n["v"])))]

    def e_null(self, n, fr, st, dest):
        return [(NEXT, st, ("c", None))]

    def e_zero(self, n, fr, st, dest):
        return [(NEXT, st, ("c", 0))]

    def e_sizeof(self, n, fr, st, dest):
        return [(NEXT, st, U)]

    def e_icast(self, n, fr, st, dest):
        return [(k, s, self.rv(s, v) if k == NEXT else v) for k, s, v in self.expr(n["e"], fr, st)]

    def e_cast(self, n, fr, st, dest):
        return self.expr(n["e"], fr, st, dest)

    def e_sub(self, n, fr, st, dest):
        res = []
        for k, s, vs in self.many([n["b"], n["i"]], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
            else:
                res.append((NEXT, s, ("loc", vs[0][1] + ("[]",)) if vs[0][0] == "loc" else U))
        return res

    def e_init(self, n, fr, st, dest):
        res = []
        for k, s, vs in self.many(n["a"], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            if len(vs) == 1 and not n.get("fields"):
                res.append((NEXT, s, vs[0]))
            else:
                res.append((NEXT, s, ("agg", tuple(self.rv(s, v) for v in vs))))
        return res

    def e_new(self, n, fr, st, dest):
        return [(k, s, ("ptr", ("new:%d" % n["l"],)) if k == NEXT else v) for k, s, v in self.expr(n.get("e"), fr, st)]

    def e_delete(self, n, fr, st, dest):
        res = []
        for k, s, v in self.expr(n["e"], fr, st):
            if k == NEXT and hasattr(self.cl, "on_delete"):
                s = s.copy()
                self.cl.on_delete(self, s, fr, self.rv(s, v) if v[0] == "loc" else v, n)
            res.append((k, s, v))
        return res

    def e_throw(self, n, fr, st, dest):
        if n.get("e") is None:
            return [(THROW, st, ("u", "rethrow"))]
        t = n["e"].get("t") or {}
        return [(THROW, s, ("exc", t.get("n", "?"), n["l"])) for k, s, v in self.expr(n["e"], fr, st)]

    def e_lambda(self, n, fr, st, dest):
        st = st.copy()
        caps = []
        outs = [(NEXT, st, None)]
        for c in n["caps"]:
            if "this" in c:
                continue
            if "init" in c:
                nxt = []
                for k, s, _ in outs:
                    if k != NEXT:
                        nxt.append((k, s, _))
                        continue
                    for k2, s2, v in self.expr(c["init"], fr, s):
                        if k2 == NEXT:
                            s2 = s2.copy()
                            if c.get("ref"):
                                s2.env[(fr.id, c["d"])] = v
                            else:
                                p = ("v:%s#%d.%d" % (c["n"], c["d"], fr.id),)
                                s2.env[(fr.id, c["d"])] = ("loc", p)
                                s2.env[("val", p)] = self.rv(s2, v)
                        nxt.append((k2, s2, v))
                outs = nxt
        idx = len(self.lams)
        self.lams.append((n, fr))
        return [(k, s, ("lam", idx) if k == NEXT else v) for k, s, v in outs]

    def call_lambda(self, lam, args, st, node=None):
        n, fr = self.lams[lam[1]]
        res = []
        if not n["bodies"]:
            return [(NEXT, st, U)]
        for b in n["bodies"][:self.lam_bodies]:
            f2 = self.new_frame(fr.fn, fr.this, fr.depth + 1, fr)
            s = st.copy()
            self.bind(s, f2, b["ps"], list(args))
            for k, s2, v in self.stmt(b["body"], f2, s):
                if k in (NEXT, RET):
                    if v is not None and v[0] == "loc" and v[1][0].endswith(".%d" % f2.id):
                        v = self.returned(s2, v, f2, fr, node or n, None)
                s2 = self.gc(s2, f2)
                res.append((NEXT if k in (NEXT, RET) else k, s2, v if v is not None else U))
        return self.dedupe(res)

    # calls -----------------------------------------------------------
    def e_call(self, n, fr, st, dest):
        res = []
        es = list(n["a"])
        f = n.get("f")
        for k, s, vs in self.many(([f] if f else []) + es, fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            if f:
                fv, vs = vs[0], vs[1:]
                if fv[0] == "lam":
                    res.extend(self.call_lambda(fv, vs, s, n))
                    continue
            res.extend(self.invoke(n, n.get("c"), None, vs, fr, s, dest))
        return res

    def e_mcall(self, n, fr, st, dest):
        res = []
        for k, s, vs in self.many([n["o"]] + list(n["a"]), fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            obj = vs[0]
            if obj[0] == "ptr":
                obj = ("loc", obj[1])
            elif n.get("arrow") and obj[0] == "loc" and ((n["o"].get("t") or {}).get("k") == "p"):
                obj = ("loc", self.deref(s, obj[1]))
            res.extend(self.invoke(n, n.get("c"), obj, vs[1:], fr, s, dest))
        return res

    def e_opcall(self, n, fr, st, dest):
        res = []
        op, c = n["op"], n.get("c") or {}
        member = bool(c.get("rec")) and not c.get("static")
        order = list(n["a"])
        for k, s, vs in self.many(order, fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            if op == "()" and vs and vs[0][0] == "loc":
                held = self.rv(s, vs[0])
                if held[0] == "lam":
                    vs = [held] + list(vs[1:])
            if op == "()" and vs and vs[0][0] == "lam":
                res.extend(self.call_lambda(vs[0], vs[1:], s, n))
                continue
            if member:
                res.extend(self.invoke(n, c, vs[0], vs[1:], fr, s, dest))
            else:
                res.extend(self.invoke(n, c, None, vs, fr, s, dest))
        return res

    def uid(self, n):
        """tells temporaries of one line apart"""
        key = id(n)
        got = self.uids.get(key)
        if got is None:
            got = self.uids[key] = (len(self.uids), n)
        return got[0]

    def e_ctor(self, n, fr, st, dest):
        res = []
        d = dest
        if d is None:
            d = ("loc", ("t:%d_%d.%d" % (n["l"], self.uid(n), fr.id),))
        for k, s, vs in self.many(n["a"], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            res.extend(self.invoke(n, n["c"], d, vs, fr, s, dest, ctor=True))
        return res

    def invoke(self, n, c, obj, args, fr, st, dest, ctor=False):
        if c is None:
            return [(NEXT, st, U)]
        pre = []
        if self.cl.may_throw(self, st, fr, n, c):
            pre.append((THROW, st.copy(), ("exc", "call:" + c["q"], n["l"])))
        r = self.cl.on_call(self, st, fr, n, c, obj, args)
        if r is not None:
            return pre + [(k, s, v) for k, s, v in r]
        # known standard helpers
        r = self.std(n, c, obj, args, fr, st, dest, ctor)
        if r is not None:
            return pre + r
        fn = self.p.callee_fn(c)
        if fn is not None and fn.has_body and fr.depth < self.cl.max_depth and self.cl.should_inline(self, fn, c, n):
            d, cnt = fr, 0
            while d is not None:
                if d.fn is fn:
                    cnt += 1
                d = getattr(d, "caller", None) if hasattr(d, "caller") else d.parent
            if cnt < 2:
                self.inlined.add(fn.loc)
                f2 = self.new_frame(fn, obj, fr.depth + 1)
                outs = []
                for k, s, v in self.enter(fn, f2, args, st):
                    if k == RET:
                        if ctor:
                            v = obj
                        elif v is not None and not self.is_ref(fn["rt"]):
                            v = self.returned(s, v, f2, fr, n, dest) if v[0] == "loc" and v[1][0].endswith(".%d" % f2.id) else v
                        s = self.gc(s, f2)
                        outs.append((NEXT, s, v if v is not None else U))
                    else:
                        outs.append((k, self.gc(s, f2), v))
                return pre + self.dedupe(outs)
        # defaulted copy / move
        if ctor and c.get("ctor") in ("copy", "move") and args:
            return pre + [(NEXT, st, args[0] if dest is None else self.rv(st, args[0]))]
        if c.get("asg") and args and obj is not None:
            s = st.copy()
            s = self.do_write(s, fr, obj, args[0], n, "=")
            return pre + [(NEXT, s, obj)]
        # unknown callee: lambdas handed over may run
        outs = [(NEXT, st, None)]
        for a in args:
            if a[0] == "lam":
                nxt = []
                for k, s, v in outs:
                    nxt.append((k, s, v))
                    if k == NEXT:
                        nb = self.lams[a[1]][0]["bodies"]
                        np = len(nb[0]["ps"]) if nb else 0
                        other = [x for x in args if x[0] == "loc"]
                        la = [("loc", x[1] + ("[]",)) for x in other][:np]
                        la += [U] * (np - len(la))
                        for k2, s2, v2 in self.call_lambda(a, la, s, n):
                            nxt.append((k2, s2, None))
                outs = self.dedupe(nxt)
        term = ("term", c["n"], self.rvk(st, obj), tuple(self.rv(st, a) if a[0] == "loc" else a for a in args))
        return pre + [(k, s, (obj if ctor and dest is not None else term) if k == NEXT else v) for k, s, v in outs]

    def returned(self, st, v, callee, fr, n, dest):
        """the value of a local object that is returned by value"""
        return self.rv(st, v)

    def rvk(self, st, obj):
        if obj is None:
            return None
        return self.rv(st, obj) if obj[0] == "loc" and obj[1][0].startswith("v:") and ("val", obj[1]) in st.env else obj

    def gc(self, st, fr):
        suf = ".%d" % fr.id
        st = st.copy()
        for k in list(st.env):
            if k[0] == fr.id or (k[0] == "val" and k[1][0].endswith(suf) and k[1][0][:2] in ("v:", "t:")):
                del st.env[k]
        return st

    def std(self, n, c, obj, args, fr, st, dest, ctor):
        q, name = c["q"], c["n"]
        if q.startswith("std::") or q.startswith("boost::"):
            if name in ("visit", "apply_visitor") and args and args[0][0] == "lam":
                return self.call_lambda(args[0], args[1:], st, n)
            if name in ("invoke", "call_once") and args and args[0][0] == "lam":
                return self.call_lambda(args[0], args[1:], st, n)
            if obj is None and name in ("move", "forward", "cref", "ref", "as_const", "move_if_noexcept") and len(args) == 1:
                return [(NEXT, st, args[0])]
            if obj is None and name in ("get", "get_if") and len(args) == 1 and args[0][0] == "loc":
                return [(NEXT, st, args[0])]
            if obj is None and name == "addressof" and args[0][0] == "loc":
                return [(NEXT, st, ("ptr", args[0][1]))]
            rec = c.get("rec", "")
            if obj is not None and obj[0] == "loc":
                if "reference_wrapper" in rec and not ctor:
                    return [(NEXT, st, obj)]
                if name in ("operator*", "operator->", "get", "value", "get_ptr") and name != "get" or (name == "get" and "ptr" in rec):
                    if "iterator" not in rec and "Iterator" not in rec and "deque" not in rec:
                        return [(NEXT, st, ("loc", obj[1] + ("*",)))]
                if name in ("at", "operator[]", "front", "back") and not ctor:
                    return [(NEXT, st, ("loc", obj[1] + ("[]",)))]
            if ctor and "reference_wrapper" in rec and args:
                return [(NEXT, st, args[0])]
        return None

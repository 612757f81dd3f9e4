"""Containers, iterators and node lifetimes for the dataflow engine.

A container is a path whose content is a sequence of nodes (fact ("seq", path)).
A node is a root name; scalar elements are the node's value in the environment,
objects are its members.  Iterators are ('it', container path, node | 'end').
An iterator to an element that is only known as "some vertex" is
('it', path, '?name'): it is resolved to every node it can be, consistently
within one path.  A node leaves the sequence when it is erased; everything that
is read from it or through an iterator to it afterwards is reported.
"""
from . import ir
from .flow import Engine, Client, NEXT, RET, THROW, U

SEQS = {"std::list", "std::vector", "std::deque", "std::__cxx11::list", "boost::container::vector", "boost::container::list", "std::forward_list"}
INDEXED = {"std::vector", "boost::container::vector", "std::deque"}
CMP = {"==", "!=", "<", ">", "<=", ">="}
DEAD = "dead"


def is_seq(rec):
    return rec in SEQS


def is_iter(rec):
    return "iterator" in (rec or "").rsplit("::", 1)[-1]


class ShapeEngine(Engine):
    """range based loops over known containers follow the iterator protocol"""

    def s_rfor(self, n, fr, st):
        outs = self.stmt(n.get("init"), fr, st) if n.get("init") else [(NEXT, st, None)]
        res = []
        for k, s, v in outs:
            if k != NEXT:
                res.append((k, s, v))
                continue
            for k2, s2, rng in self.expr(n["r"], fr, s):
                if k2 != NEXT:
                    res.append((k2, s2, rng))
                    continue
                C = self.cl.container(s2, rng)
                if C is None:
                    res.extend(self.rfor_unknown(n, fr, s2, rng))
                    continue
                var = n["v"]
                key = ("rfor", n["l"], fr.id)

                def head(s3, C=C):
                    return [(NEXT, s3, s3.env[key][2] != "end")]

                def body(s3, C=C):
                    res = []
                    for k4, s4, elem in self.cl.deref(self, s3, fr, s3.env[key], n):
                        s4 = s4.copy()
                        if self.is_ref(var.get("t")):
                            s4.env[(fr.id, var["d"])] = elem
                        else:
                            d = ("loc", ("v:%s#%d.%d" % (var["n"], var["d"], fr.id),))
                            s4.env[(fr.id, var["d"])] = d
                            s4.env[("val", d[1])] = self.rv(s4, elem)
                        for bd in var.get("bind", []):
                            name = self.bound(var, bd)
                            at = s4.env[(fr.id, var["d"])]
                            s4.env[(fr.id, bd["d"])] = ("loc", at[1] + (name,)) if at[0] == "loc" else ("fld", at, name)
                            if bd.get("hv"):
                                s4.env[(fr.id, bd["hv"])] = s4.env[(fr.id, bd["d"])]
                        self.cl.on_decl(self, s4, fr, var, elem)
                        res.extend(self.stmt(n["b"], fr, s4))
                    return res

                def post(s3, C=C):
                    s3 = s3.copy()
                    s3.env[key] = self.cl.step(self, s3, fr, s3.env[key], 1, n)
                    return [(NEXT, s3, None)]
                s2 = s2.copy()
                s2.env[key] = self.cl.first(s2, C)
                for k5, s5, v5 in self.loop(fr, s2, head, body, post):
                    s5 = s5.copy()
                    s5.env.pop(key, None)
                    res.append((k5, s5, v5))
        return self.dedupe(res)

    def rv(self, st, v):
        """members of an object that was copied are those of the original"""
        if v and v[0] == "loc":
            path, rest = v[1], ()
            for _ in range(8):
                got = st.env.get(("val", path))
                if got is not None and not rest:
                    return got
                if got is not None and got[0] == "in" and got[1] != path:
                    path, rest = got[1] + rest, ()
                    continue
                if len(path) == 1:
                    return ("in", path + rest)
                path, rest = path[:-1], path[-1:] + rest
            return ("in", path + rest)
        return v

    def returned(self, st, v, callee, fr, n, dest):
        """an object with known members is handed over to the caller with its members"""
        got = st.env.get(("val", v[1]))
        if got is not None and got[0] != "loc":
            return got
        src = v[1]
        sub = [k for k in st.env if k[0] == "val" and len(k[1]) > len(src) and k[1][:len(src)] == src]
        seqs = [k for k in st.facts if k[0] == "seq" and k[1][:len(src)] == src]
        if not sub and not seqs:
            return self.rv(st, v)
        new = dest[1] if dest is not None and dest[0] == "loc" else ("t:r%d.%d.%d" % (n["l"], callee.id, fr.id),)
        for k in sub:
            st.env[("val", new + k[1][len(src):])] = st.env[k]
        for k in seqs:
            st.facts[("seq", new + k[1][len(src):])] = st.facts[k]
        return ("loc", new)

    def rfor_unknown(self, n, fr, st, rng):
        m = dict(n)
        m.pop("init", None)
        return Engine.s_rfor(self, m, fr, st)


class Shape(Client):
    loop_rounds = 8
    max_depth = 20

    def __init__(self):
        self.viol = []      # (message, location)
        self.unknown = set()
        self.serial = 0
        self.types = {}
        self.touched = set()

    # ------------------------------------------------------------- basics
    def bad(self, msg, fr, n):
        self.viol.append((msg, fr.fn, (n or {}).get("l", 0)))

    def container(self, st, v):
        if v and v[0] == "ptr":
            v = ("loc", v[1])
        if v and v[0] == "loc":
            if ("seq", v[1]) in st.facts:
                return v[1]
            w = st.env.get(("val", v[1]))
            if w and w[0] in ("loc", "in") and ("seq", w[1]) in st.facts:
                return w[1]
        return None

    @staticmethod
    def seq(st, C):
        return st.facts.get(("seq", C), ())

    def first(self, st, C):
        q = self.seq(st, C)
        return ("it", C, q[0] if q else "end")

    def step(self, eng, st, fr, it, k, n):
        C, pos = it[1], it[2]
        q = self.seq(st, C)
        if pos == "end":
            i = len(q)
            if k > 0:
                self.bad("an iterator is advanced past the end", fr, n)
                return ("it", C, "end")
        elif pos in q:
            i = q.index(pos)
        else:
            self.bad("an iterator to an element that was erased is advanced", fr, n)
            return ("it", C, "end")
        i += k
        if i < 0 or i > len(q):
            self.bad("an iterator leaves its container", fr, n)
            return ("it", C, "end")
        return ("it", C, q[i] if i < len(q) else "end")

    def candidates(self, st, name):
        return ()

    def resolve(self, st, it):
        """[(state, iterator)] with a known node"""
        pos = it[2]
        if not isinstance(pos, str) or not pos.startswith("?"):
            return [(st, it)]
        got = st.facts.get(("res", pos))
        if got:
            return [(st, ("it", it[1], got))]
        res = []
        for c in self.candidates(st, pos):
            s = st.copy()
            s.facts[("res", pos)] = c
            res.append((s, ("it", it[1], c)))
        return res

    def deref(self, eng, st, fr, it, n):
        res = []
        for s, i in self.resolve(st, it):
            C, pos = i[1], i[2]
            if pos == "end":
                self.bad("the end of a container is dereferenced", fr, n)
                continue
            if self.erased(s, C, pos):
                self.bad("an element is used after it was erased", fr, n)
                continue
            res.append((NEXT, s, ("loc", (pos,))))
        return res

    def erased(self, st, C, pos):
        return (DEAD, pos) in st.facts

    def erase(self, eng, st, fr, C, pos, n):
        """in place; returns the following iterator"""
        q = self.seq(st, C)
        if (DEAD, pos) in st.facts:
            self.bad("an element is erased twice", fr, n)
            return ("it", C, "end")
        nxt = ("it", C, "end")
        if pos in q:
            i = q.index(pos)
            nxt = ("it", C, q[i + 1] if i + 1 < len(q) else "end")
            st.facts[("seq", C)] = q[:i] + q[i + 1:]
        self.kill(st, pos)
        return nxt

    @staticmethod
    def kill(st, pos):
        st.facts[(DEAD, pos)] = True
        for k in [k for k in st.env if k[0] == "val" and k[1][0] == pos]:
            st.env[k] = (DEAD, pos)
        st.env[("val", (pos,))] = (DEAD, pos)

    def add(self, eng, st, C, args, fr, n, front=False):
        """appends one element constructed from args (in place)"""
        self.serial += 1
        root = self.new_name(st, C)
        q = self.seq(st, C)
        st.facts[("seq", C)] = (root,) + q if front else q + (root,)
        if len(args) == 1:
            a = args[0]
            if a[0] == "loc":
                src = a[1]
                for k in list(st.env):
                    if k[0] == "val" and k[1][:len(src)] == src:
                        st.env[("val", (root,) + k[1][len(src):])] = st.env[k]
                for k in list(st.facts):
                    if k[0] == "seq" and k[1][:len(src)] == src:
                        st.facts[("seq", (root,) + k[1][len(src):])] = st.facts[k]
                held = self.container(st, a)
                if held is not None:
                    st.facts[("seq", (root,))] = self.seq(st, held)
                if ("val", (root,)) not in st.env:
                    st.env[("val", (root,))] = ("in", src)
            else:
                st.env[("val", (root,))] = a
        else:
            st.env[("val", (root,))] = ("agg", tuple(eng.rv(st, x) for x in args))
        return root

    def new_name(self, st, C):
        i = 0
        for k in st.facts:
            if k[0] == "count" and k[1] == C:
                i = st.facts[k]
        st.facts[("count", C)] = i + 1
        return "n:%s:+%d" % (".".join(C), i)

    # ---------------------------------------------------------- conditions
    def binds(self, v):
        return v

    def compare(self, st, op, a, b):
        """True / False / None"""
        if a[0] == "it" and b[0] == "it" and op in ("==", "!="):
            if a[1] == b[1] and not str(a[2]).startswith("?") and not str(b[2]).startswith("?"):
                return (a[2] == b[2]) == (op == "==")
        if a[0] == "ptr" and b[0] == "ptr" and op in ("==", "!="):
            same = self.same_object(st, a[1], b[1])
            if same is not None:
                return same == (op == "==")
        if op in ("==", "!=") and a == b and a[0] not in ("u",):
            return op == "=="
        return None

    def same_object(self, st, a, b):
        return a == b

    def on_cond(self, eng, st, fr, val, truth, node):
        if val and val[0] == "op" and val[1] in CMP:
            r = self.compare(st, val[1], val[2], val[3])
            if r is not None:
                return st if r == truth else None
            if val[1] == "!=":
                val, truth = ("op", "==") + val[2:], not truth
            if val[1] == "==" and repr(val[3]) < repr(val[2]):
                val = ("op", "==", val[3], val[2])
        if val and val[0] == "un" and val[1] == "!":
            return self.on_cond(eng, st, fr, val[2], not truth, node)
        if val and val[0] != "u":
            key = ("cond", val)
            if key in st.facts:
                return st if st.facts[key] == truth else None
            st.facts[key] = truth
        return st

    # --------------------------------------------------------------- calls
    def fail(self, st, fr, n, C):
        """may the element insertion fail here?"""
        return False

    def ok(self, s, v):
        return [(NEXT, s, v)]

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        if is_iter(rec) or is_seq(rec) or (q.startswith("std::") and name not in ("move", "forward", "addressof", "as_const", "move_if_noexcept")):
            for v in ([obj] if obj is not None else []) + list(args):
                w = eng.rv(st, v) if v and v[0] == "loc" else v
                if w and w[0] == DEAD and name not in ("operator=",):
                    self.bad("a value is read from an element that was erased", fr, n)
                    return []
        if n["k"] == "ctor":
            if is_seq(rec):
                return self.make(eng, st, fr, n, c, obj, args)
            if rec == "std::pair" and len(args) == 2 and obj and obj[0] == "loc":
                s = st.copy()
                for m, a in zip(("first", "second"), args):
                    s.env[("val", obj[1] + (m,))] = eng.rv(s, a)
                return self.ok(s, obj)
            if is_iter(rec):
                v = eng.rv(st, args[0]) if args else ("it", None, None)
                return self.ok(st, v)
            return None
        if is_seq(rec) and obj is not None:
            C = self.container(st, obj)
            if C is not None:
                return self.method(eng, st, fr, n, name, rec, C, args)
        if is_iter(rec) or (args and name.startswith("operator") and any((eng.rv(st, a) if a else U)[0] == "it" for a in args)):
            return self.iterop(eng, st, fr, n, name, ([obj] if obj is not None else []) + list(args))
        if q.startswith("std::") and args and not rec:
            return self.free(eng, st, fr, n, name, args)
        return None

    def make(self, eng, st, fr, n, c, obj, args):
        s = st.copy()
        kind = c.get("ctor")
        real = [a for a in args if not self.is_alloc(a)]
        if kind in ("copy", "move") and real:
            src = self.container(s, real[0])
            if src is not None:
                s.facts[("seq", obj[1])] = self.seq(s, src)
                if kind == "move":
                    s.facts[("seq", src)] = ()
                return self.ok(s, obj)
            return None
        if not args or all(self.is_alloc(a) or a[0] == "term" for a in args):
            s.facts[("seq", obj[1])] = ()
            self.types[obj[1]] = c.get("rec")
            return self.ok(s, obj)
        return None

    @staticmethod
    def is_alloc(a):
        return a[0] == "term" and a[1] == "get_allocator" or a[0] == "loc" and "alloc" in a[1][-1]

    def node_at(self, st, C, i):
        q = self.seq(st, C)
        if i[0] == "c" and isinstance(i[1], int) and 0 <= i[1] < len(q):
            return q[i[1]]
        return None

    def method(self, eng, st, fr, n, name, rec, C, args):
        q = self.seq(st, C)
        if name in ("begin", "cbegin"):
            return self.ok(st, self.first(st, C))
        if name in ("end", "cend"):
            return self.ok(st, ("it", C, "end"))
        if name == "size":
            return self.ok(st, ("c", len(q)))
        if name == "empty":
            return self.ok(st, ("c", not q))
        if name in ("back", "front"):
            if not q:
                self.bad("%s() of an empty container" % name, fr, n)
                return []
            return self.ok(st, ("loc", (q[-1 if name == "back" else 0],)))
        if name in ("operator[]", "at"):
            i = eng.rv(st, args[0])
            node = self.node_at(st, C, i)
            if node is None:
                self.bad("an element outside of a container is accessed (%s of %d)" % (i[1] if i[0] == "c" else "?", len(q)), fr, n)
                return []
            return self.ok(st, ("loc", (node,)))
        if name in ("emplace_back", "push_back", "emplace_front", "push_front"):
            res = []
            if self.fail(st, fr, n, C):
                s = st.copy()
                s.facts["failed"] = ".".join(C)
                res.append((THROW, s, ("exc", "alloc", n["l"])))
            s = st.copy()
            root = self.add(eng, s, C, args, fr, n, front="front" in name)
            ctor = self.constructor(eng, n, len(args)) if len(args) != 1 or self.converts(n) else None
            if ctor is None:
                res.append((NEXT, s, ("loc", (root,))))
                return res
            s.env.pop(("val", (root,)), None)
            for k, s2, v in eng.enter(ctor, eng.new_frame(ctor, ("loc", (root,)), fr.depth + 1), args, s):
                if k == RET:
                    res.append((NEXT, s2, ("loc", (root,))))
                else:
                    res.append((k, s2, v))
            return res
        if name in ("pop_back", "pop_front"):
            if not q:
                self.bad("%s() of an empty container" % name, fr, n)
                return []
            s = st.copy()
            self.erase(eng, s, fr, C, q[-1 if name == "pop_back" else 0], n)
            return self.ok(s, U)
        if name == "clear":
            s = st.copy()
            for x in q:
                self.kill(s, x)
            s.facts[("seq", C)] = ()
            return self.ok(s, U)
        if name == "erase":
            it = eng.rv(st, args[0])
            if it[0] != "it":
                return None
            res = []
            for s, i in self.resolve(st, it):
                s = s.copy()
                if len(args) == 2:
                    last = eng.rv(s, args[1])
                    cur = i
                    for _ in range(len(q) + 1):
                        if cur == last or cur[2] == "end":
                            break
                        cur = self.erase(eng, s, fr, C, cur[2], n)
                    res.append((NEXT, s, cur))
                elif i[2] == "end":
                    self.bad("the end of a container is erased", fr, n)
                else:
                    res.append((NEXT, s, self.erase(eng, s, fr, C, i[2], n)))
            return res
        if name == "insert" and len(args) == 3:
            pos, b, e = (eng.rv(st, a) for a in args)
            if pos == ("it", C, "end") and b[0] == e[0] == "it" and b[1] == e[1]:
                s = st.copy()
                cur, got = b, None
                for _ in range(len(self.seq(s, b[1])) + 1):
                    if cur == e or cur[2] == "end":
                        break
                    x = self.add(eng, s, C, [("loc", (cur[2],))], fr, n)
                    got = got or x
                    cur = self.step(eng, s, fr, cur, 1, n)
                return self.ok(s, ("it", C, got or "end"))
        if name in ("remove_if", "remove"):
            return self.remove_if(eng, st, fr, n, C, args[0])
        if name in ("reserve", "shrink_to_fit"):
            return self.ok(st, U)
        if name == "capacity":
            return self.ok(st, ("term", "capacity", C, ()))
        if name == "get_allocator":
            return self.ok(st, ("term", "get_allocator", None, ()))
        return None

    @staticmethod
    def strip_t(t):
        while t and t.get("k") not in ("o", None) and isinstance(t.get("p"), dict):
            t = t["p"]
        return t or {}

    def converts(self, n):
        """the argument of an insertion is not an object of the element type"""
        e = self.strip_t((n.get("c") or {}).get("rt"))
        a = self.strip_t((n["a"][0] or {}).get("t")) if n.get("a") else {}
        return e.get("k") == "o" and not is_iter(e.get("n")) and e.get("r") != a.get("r")

    @staticmethod
    def constructor(eng, n, count):
        """the constructor of the element type that takes that many arguments"""
        t = (n.get("c") or {}).get("rt") or {}
        while t.get("k") not in ("o", None) and isinstance(t.get("p"), dict):
            t = t["p"]
        for f in eng.p.fns.values():
            if f.r == t.get("r") and f.has_body and len(f["ps"]) == count and "inits" in f.j:
                return f
        return None

    def remove_if(self, eng, st, fr, n, C, pred):
        if pred[0] == "loc":
            pred = eng.rv(st, pred)
        if pred[0] != "lam":
            return None
        outs = [(NEXT, st, None)]
        for x in self.seq(st, C):
            nxt = []
            for k, s, v in outs:
                if k != NEXT:
                    nxt.append((k, s, v))
                    continue
                for k2, s2, v2 in eng.call_lambda(pred, [("loc", (x,))], s, n):
                    if k2 != NEXT:
                        nxt.append((k2, s2, v2))
                        continue
                    v2 = eng.rv(s2, v2)
                    for t in (True, False):
                        s3 = s2.copy()
                        if v2[0] == "c":
                            if bool(v2[1]) != t:
                                continue
                        else:
                            s3 = self.on_cond(eng, s3, fr, v2, t, n)
                            if s3 is None:
                                continue
                        if t:
                            self.erase(eng, s3, fr, C, x, n)
                        nxt.append((NEXT, s3, None))
            outs = eng.dedupe(nxt)
        return [(k, s, U if k == NEXT else v) for k, s, v in outs]

    def iterop(self, eng, st, fr, n, name, args):
        a = eng.rv(st, args[0])
        if a[0] != "it":
            return None
        if name in ("operator*", "operator->"):
            r = self.deref(eng, st, fr, a, n)
            if name == "operator->":
                r = [(k, s, ("ptr", v[1])) for k, s, v in r]
            return r
        if name in ("operator++", "operator--"):
            s = st.copy()
            res = []
            for s, i in self.resolve(s, a):
                s = s.copy()
                nv = self.step(eng, s, fr, i, 1 if name == "operator++" else -1, n)
                if args[0][0] == "loc":
                    s.env[("val", args[0][1])] = nv
                res.append((NEXT, s, i if len(args) > 1 else (args[0] if args[0][0] == "loc" else nv)))
            return res
        if name == "operator=":
            s = st.copy()
            if args[0][0] == "loc":
                eng.write(s, fr, args[0], eng.rv(s, args[1]), n, "=")
            return self.ok(s, args[0])
        if name in ("operator==", "operator!="):
            b = eng.rv(st, args[1])
            res = []
            for s, i in self.resolve(st, a):
                for s2, j in (self.resolve(s, b) if b[0] == "it" else [(s, b)]):
                    v = ("op", name[8:], i, j)
                    r = self.compare(s2, name[8:], i, j)
                    res.append((NEXT, s2, ("c", r) if r is not None else v))
            return res
        if name in ("operator+", "operator-") and len(args) > 1:
            b = eng.rv(st, args[1])
            if b[0] == "c" and isinstance(b[1], int):
                return self.ok(st, self.step(eng, st, fr, a, b[1] if name == "operator+" else -b[1], n))
        return None

    def free(self, eng, st, fr, n, name, args):
        C = self.container(st, args[0])
        if C is not None and name in ("begin", "cbegin", "end", "cend", "size", "empty", "data") and len(args) == 1:
            return self.method(eng, st, fr, n, name, "", C, [])
        if C is not None and name == "erase_if":
            return self.remove_if(eng, st, fr, n, C, args[1])
        a = eng.rv(st, args[0])
        if a[0] == "it" and name == "make_move_iterator":
            return self.ok(st, a)
        if a[0] == "it" and name in ("next", "prev"):
            k = eng.rv(st, args[1]) if len(args) > 1 else ("c", 1)
            if k[0] != "c":
                return None
            res = []
            for s, i in self.resolve(st, a):
                res.append((NEXT, s, self.step(eng, s, fr, i, k[1] if name == "next" else -k[1], n)))
            return res
        if name in ("copy", "move", "move_backward") and len(args) == 3:
            b, out = eng.rv(st, args[1]), eng.rv(st, args[2])
            if a[0] == b[0] == "it" and a[1] == b[1] and out[0] == "ins":
                s = st.copy()
                cur = a
                for _ in range(len(self.seq(s, a[1])) + 1):
                    if cur == b or cur[2] == "end":
                        break
                    self.add(eng, s, out[1], [("loc", (cur[2],))], fr, n)
                    cur = self.step(eng, s, fr, cur, 1, n)
                return self.ok(s, out)
        if C is not None and name in ("back_inserter", "inserter"):
            return self.ok(st, ("ins", C))
        if name == "swap" and len(args) == 2:
            s = st.copy()
            x, y = eng.rv(s, args[0]), eng.rv(s, args[1])
            eng.write(s, fr, args[0], y, n, "=")
            eng.write(s, fr, args[1], x, n, "=")
            return self.ok(s, U)
        return None

"""Strings, streams and associative containers on top of the container model.

A string is ('c', text) or ('cat', parts): parts are literals and the values
that were converted to text, in order.  An associative container is a sequence
of entries with a key each: fact ("key", entry).
"""
from .flow import NEXT, U
from .shape import Shape, ShapeEngine, is_seq, is_iter

STRINGS = {"std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"}
STREAMS = ("basic_ostringstream", "basic_stringstream", "basic_ostream")


def is_string(rec):
    return rec in STRINGS


def is_stream(rec):
    return (rec or "").rsplit("::", 1)[-1] in STREAMS


def is_assoc(rec):
    last = (rec or "").rsplit("::", 1)[-1]
    return (last.endswith("map") or last.endswith("set")) and (rec.startswith("std::") or rec.startswith("boost::unordered") or rec.startswith("boost::container"))


def cat(*vs):
    parts = []
    for v in vs:
        for p in (v[1] if v[0] == "cat" else (v,)):
            if p[0] == "c" and isinstance(p[1], str) and p[1] == "":
                continue
            if p[0] == "c" and isinstance(p[1], str) and parts and parts[-1][0] == "c" and isinstance(parts[-1][1], str):
                parts[-1] = ("c", parts[-1][1] + p[1])
            else:
                parts.append(p)
    if not parts:
        return ("c", "")
    if len(parts) == 1 and parts[0][0] == "c" and isinstance(parts[0][1], str):
        return parts[0]
    return ("cat", tuple(parts))


class TextEngine(ShapeEngine):
    def e_char(self, n, fr, st, dest):
        v = n["v"]
        return [(NEXT, st, ("c", chr(v) if isinstance(v, int) else v))]

    def e_init(self, n, fr, st, dest):
        """an aggregate is an object with its members"""
        if not n["a"] and not n.get("fields") and (n.get("t") or {}).get("k") not in ("o", None):
            return [(NEXT, st, ("c", 0))]
        if not n.get("fields"):
            return super().e_init(n, fr, st, dest)
        d = dest if dest is not None and dest[0] == "loc" else ("loc", ("t:%d_%d.%d" % (n["l"], self.uid(n), fr.id),))
        res = []
        for k, s, vs in self.many(n["a"], fr, st):
            if k != NEXT:
                res.append((k, s, vs))
                continue
            s = s.copy()
            for f, v in zip(n["fields"], vs):
                name = f if isinstance(f, str) else f.get("n")
                self.cl.assign(self, s, d[1] + (name,), v)
            res.append((NEXT, s, d))
        return res


class Text(Shape):
    def assign(self, eng, st, path, v):
        """copies an object with what it holds (in place)"""
        if v[0] == "loc":
            src = v[1]
            for k in list(st.env):
                if k[0] == "val" and len(k[1]) > len(src) and k[1][:len(src)] == src:
                    st.env[("val", path + k[1][len(src):])] = st.env[k]
            for k in list(st.facts):
                if k[0] == "seq" and k[1][:len(src)] == src:
                    st.facts[("seq", path + k[1][len(src):])] = st.facts[k]
            C = self.container(st, v)
            if C is not None:
                st.facts[("seq", path)] = self.seq(st, C)
                return
        st.env[("val", path)] = eng.rv(st, v)

    # ------------------------------------------------------------- strings
    def text(self, eng, st, v):
        """the text a value turns into"""
        v = eng.rv(st, v)
        if v[0] == "c" and not isinstance(v[1], str):
            return ("cat", (v,)) if v[1] is not None else ("c", "")
        return v

    def string(self, eng, st, fr, n, c, name, obj, args):
        if n["k"] == "ctor":
            real = [a for a in args if not self.is_alloc(a)]
            v = ("c", "") if not real else self.text(eng, st, real[0])
            if c.get("ctor") == "move" and real and self.moved(n["a"][0]):
                st = self.left(eng, st, fr, real[0], n)
            return self.ok(st, v)
        cur = self.text(eng, st, obj)
        if cur[0] == "in" and ("val", cur[1]) not in st.env and name in ("append", "operator+=", "push_back"):
            cur = ("cat", (cur,))
        if name in ("append", "operator+=", "push_back"):
            s = st.copy()
            eng.write(s, fr, obj, cat(cur, self.text(eng, st, args[0])), n, "=")
            return self.ok(s, obj)
        if name in ("operator=", "assign") and len(args) == 1:
            s = st.copy()
            eng.write(s, fr, obj, self.text(eng, st, args[0]), n, "=")
            return self.ok(s, obj)
        if name in ("c_str", "str", "data"):
            return self.ok(st, cur)
        if name == "clear":
            s = st.copy()
            eng.write(s, fr, obj, ("c", ""), n, "=")
            return self.ok(s, U)
        if name in ("empty", "size", "length"):
            if cur[0] == "c":
                return self.ok(st, ("c", (not cur[1]) if name == "empty" else len(cur[1])))
            if cur[0] == "cat":
                if name == "empty" and any(p[0] == "c" and p[1] for p in cur[1]):
                    return self.ok(st, ("c", False))
                return self.ok(st, ("term", name, cur, ()))
            return None
        if name == "reserve":
            return self.ok(st, U)
        return None

    @staticmethod
    def moved(e):
        """the argument is std::move of something"""
        while e and e.get("k") in ("icast", "cast", "paren", "x") and e.get("e"):
            e = e["e"]
        return bool(e) and e.get("k") == "call" and (e.get("c") or {}).get("q") == "std::move" and len(e.get("a") or ()) == 1

    def left(self, eng, st, fr, v, n):
        """a string that was moved from is empty"""
        if v[0] != "loc" or v[1][0].startswith("t:"):
            return st
        s = st.copy()
        s.env[("val", v[1])] = ("c", "")
        return s

    def method(self, eng, st, fr, n, name, rec, C, args):
        r = super().method(eng, st, fr, n, name, rec, C, args)
        if r is not None and name in ("emplace_back", "push_back", "emplace_front", "push_front") and len(args) == 1 and n.get("a") and self.moved(n["a"][0]) \
                and is_string(self.strip_t(n["a"][0].get("t")).get("n")):
            r = [(k, self.left(eng, s, fr, args[0], n) if k == NEXT else s, v) for k, s, v in r]
        return r

    @staticmethod
    def format(fmt, vals):
        """parts of a formatted string, or None"""
        parts, i, lit = [], 0, ""
        k = 0
        while i < len(fmt):
            ch = fmt[i]
            if ch in "{}" and fmt[i:i + 2] == ch * 2:
                lit += ch
                i += 2
                continue
            if ch == "{":
                j = fmt.find("}", i)
                if j < 0:
                    return None
                spec = fmt[i + 1:j]
                idx = spec.split(":", 1)[0]
                w = k
                if idx.isdigit():
                    w = int(idx)
                else:
                    k += 1
                if w >= len(vals):
                    return None
                parts += [("c", lit), vals[w]]
                lit = ""
                i = j + 1
                continue
            lit += ch
            i += 1
        return cat(*parts, ("c", lit))

    # -------------------------------------------------------------- assoc
    def same_key(self, st, a, b):
        return a == b

    def find(self, eng, st, C, k):
        for x in self.seq(st, C):
            if self.same_key(st, st.facts.get(("key", x)), k):
                return x
        return None

    def entry(self, eng, st, C, rec, k, v=None):
        """adds an entry (in place)"""
        root = self.new_name(st, C)
        st.facts[("seq", C)] = self.seq(st, C) + (root,)
        st.facts[("key", root)] = k
        if rec.endswith("set"):
            st.env[("val", (root,))] = k
        else:
            st.env[("val", (root, "first"))] = k
            if v is None:
                st.facts[("seq", (root, "second"))] = ()
                st.env[("val", (root, "second"))] = ("c", 0)
            else:
                self.assign(eng, st, (root, "second"), v)
        return root

    def assoc(self, eng, st, fr, n, c, rec, name, obj, args):
        if n["k"] == "ctor":
            if c.get("ctor") in ("copy", "move") and args:
                src = self.container(st, args[0])
                if src is None:
                    return None
                s = st.copy()
                s.facts[("seq", obj[1])] = self.seq(s, src)
                if c["ctor"] == "move":
                    s.facts[("seq", src)] = ()
                return self.ok(s, obj)
            s = st.copy()
            s.facts[("seq", obj[1])] = ()
            items = eng.rv(s, args[0]) if args else ("agg", ())
            for x in items[1] if items[0] == "agg" else ():
                if rec.endswith("set"):
                    self.entry(eng, s, obj[1], rec, x)
                elif x[0] == "in":
                    self.entry(eng, s, obj[1], rec, eng.rv(s, ("loc", x[1] + ("first",))), ("loc", x[1] + ("second",)))
                elif x[0] == "agg" and len(x[1]) == 2:
                    self.entry(eng, s, obj[1], rec, x[1][0], x[1][1])
            return self.ok(s, obj)
        C = self.container(st, obj)
        if C is None:
            return None
        if name in ("operator[]", "at", "find", "contains", "count") and args:
            k = eng.rv(st, args[0])
            x = self.find(eng, st, C, k)
            if name == "find":
                return self.ok(st, ("it", C, x or "end"))
            if name in ("contains", "count"):
                return self.ok(st, ("c", x is not None if name == "contains" else int(x is not None)))
            if x is None and name == "at":
                return []
            s = st.copy()
            if x is None:
                x = self.entry(eng, s, C, rec, k)
            return self.ok(s, ("loc", (x, "second")))
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign") and args:
            s = st.copy()
            if rec.endswith("set"):
                k, v = eng.rv(st, args[0]), None
            elif len(args) >= 2:
                k, v = eng.rv(st, args[0]), args[1]
            elif name == "try_emplace":
                k, v = eng.rv(st, args[0]), None
            else:
                p = args[0]
                if p[0] != "loc":
                    return None
                k, v = eng.rv(st, ("loc", p[1] + ("first",))), ("loc", p[1] + ("second",))
            x = self.find(eng, s, C, k)
            new = x is None
            if new and len(args) == 3 and name == "try_emplace" and isinstance(args[0], tuple) and args[0][0] != "it":
                x = self.entry(eng, s, C, rec, k)
                self.assign(eng, s, (x, "second", "first"), args[1])
                self.assign(eng, s, (x, "second", "second"), args[2])
            elif new:
                x = self.entry(eng, s, C, rec, k, v)
            elif name == "insert_or_assign":
                self.assign(eng, s, (x, "second"), v)
            t = ("t:%d_%d.%d" % (n["l"], eng.uid(n), fr.id),)
            s.env[("val", t + ("first",))] = ("it", C, x)
            s.env[("val", t + ("second",))] = ("c", new)
            return self.ok(s, ("loc", t))
        if name == "erase" and args:
            a = eng.rv(st, args[0])
            if a[0] != "it":
                s = st.copy()
                x = self.find(eng, s, C, a)
                if x is not None:
                    self.erase(eng, s, fr, C, x, n)
                return self.ok(s, ("c", int(x is not None)))
        return self.method(eng, st, fr, n, name, rec, C, args)

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        if is_string(rec) and obj is not None:
            r = self.string(eng, st, fr, n, c, name, obj, args)
            if r is not None:
                return r
        if is_stream(rec) and n["k"] == "ctor":
            s = st.copy()
            s.env[("val", obj[1] + ("text",))] = ("c", "")
            return self.ok(s, obj)
        if name == "operator<<" and (is_stream(rec) or q.startswith("std::operator")):
            o, a = (obj, args[0]) if obj is not None else (args[0], args[1])
            r = self.stream(eng, st, fr, n, o, a)
            if r is not None:
                return r
        if is_stream(rec) and name == "str" and obj is not None and obj[0] == "loc" and not args:
            return self.ok(st, st.env.get(("val", obj[1] + ("text",)), U))
        if is_assoc(rec) and obj is not None:
            r = self.assoc(eng, st, fr, n, c, rec, name, obj, args)
            if r is not None:
                return r
        if q.startswith("std::"):
            if n["k"] == "ctor" and rec == "std::basic_format_string" and args:
                return self.ok(st, eng.rv(st, args[0]))
            if name == "to_string" and len(args) == 1:
                v = self.text(eng, st, args[0])
                return self.ok(st, v if v[0] == "cat" else ("cat", (v,)))
            if name == "format" and args and args[0][0] == "c":
                r = self.format(args[0][1], [self.text(eng, st, a) for a in args[1:]])
                if r is not None:
                    return self.ok(st, r)
            if name == "operator+" and not rec and len(args) == 2:
                a, b = self.text(eng, st, args[0]), self.text(eng, st, args[1])
                if not (a[0] == "it" or b[0] == "it"):
                    return self.ok(st, cat(a, b))
            if name in ("operator==", "operator!=") and not rec and len(args) == 2:
                a, b = eng.rv(st, args[0]), eng.rv(st, args[1])
                if a[0] == "c" and b[0] == "c":
                    return self.ok(st, ("c", (a[1] == b[1]) == (name == "operator==")))
        return super().on_call(eng, st, fr, n, c, obj, args)

    def stream(self, eng, st, fr, n, o, a):
        if o[0] != "loc" or ("val", o[1] + ("text",)) not in st.env:
            return None
        s = st.copy()
        s.env[("val", o[1] + ("text",))] = cat(s.env[("val", o[1] + ("text",))], self.text(eng, st, a))
        return self.ok(s, o)

"""C12: every track of the input arrives once, complete and in order."""
from ..flow import NEXT, RET, THROW, U, St, Limit
from .. import ir, shape
from ..text import Text, TextEngine, is_string, is_assoc

TUS = ["verif:tracks.cpp", "library/src/io/csv_importer.cpp", "library/src/io/importer.cpp"]

shape.SEQS |= {"map_matching_2::geometry::linestring", "map_matching_2::geometry::multi_linestring"}

THIS = ("this",)


class TrackEngine(TextEngine):
    def __init__(self, prog, client):
        super().__init__(prog, client)
        self.lam_bodies = 1     # the code is the same for all coordinate systems
        self.max_steps = 3000000

    def rfor_unknown(self, n, fr, st, rng):
        v = self.rv(st, rng)
        if v and v[0] == "c" and isinstance(v[1], str):
            s = st.copy()
            m = dict(n, r={"k": "known", "l": n.get("l"), "v": ("loc", self.cl.chars(s, v[1]))})
            m.pop("init", None)
            return self.s_rfor(m, fr, s)
        if v and v[0] == "agg":
            s = st.copy()
            C = ("t:list%d.%d" % (self.uid(n), fr.id),)
            s.facts[("seq", C)] = ()
            for x in v[1]:
                made = x[0] == "in" and x[1][0].startswith("t:")
                self.cl.add(self, s, C, [("loc", x[1]) if made else self.cl.value(self, s, x)], fr, n)
            m = dict(n, r={"k": "known", "l": n.get("l"), "v": ("loc", C)})
            m.pop("init", None)
            return self.s_rfor(m, fr, s)
        return super().rfor_unknown(n, fr, st, rng)

    # a pointer into an array is an iterator
    def deref(self, st, path):
        v = st.env.get(("val", path))
        if v and v[0] == "it" and v[2] != "end":
            return (v[2],)
        return super().deref(st, path)

    def e_un(self, n, fr, st, dest):
        if n["op"] == "*" and n["e"]["k"] not in ("this", "mem", "var", "ref"):
            outs = self.expr(n["e"], fr, st)
            if len(outs) == 1 and outs[0][2] and outs[0][2][0] == "it" and outs[0][2][2] != "end":
                return [(NEXT, outs[0][1], ("loc", (outs[0][2][2],)))]
        return super().e_un(n, fr, st, dest)

    def e_mem(self, n, fr, st, dest):
        if n.get("arrow") and n["b"]["k"] not in ("this", "mem", "var", "ref"):
            outs = self.expr(n["b"], fr, st)
            if len(outs) == 1 and outs[0][2] and outs[0][2][0] == "it" and outs[0][2][2] != "end":
                return [(NEXT, outs[0][1], ("loc", (outs[0][2][2], n["n"])))]
        return super().e_mem(n, fr, st, dest)

    def e_bin(self, n, fr, st, dest):
        res = []
        for k, s, v in super().e_bin(n, fr, st, dest):
            if v and v[0] == "op" and len(v) == 4 and v[1] in ("+", "-") and v[2][0] == "it" and v[3][0] == "c":
                v = self.cl.step(self, s, fr, v[2], v[3][1] if v[1] == "+" else -v[3][1], n)
            res.append((k, s, v))
        return res

    def e_known(self, n, fr, st, dest):
        return [(NEXT, st, n["v"])]

    def do_write(self, st, fr, tgt, val, n, op):
        if val and val[0] == "op" and len(val) == 4 and op != "=":
            if val[1] in ("+", "-") and val[2][0] == "it" and val[3][0] == "c":
                val = self.cl.step(self, st, fr, val[2], val[3][1] if val[1] == "+" else -val[3][1], n)
            else:
                val = self.binop(*val[1:])
        return super().do_write(st, fr, tgt, val, n, op)

    def binop(self, op, a, b, lv=None):
        if op in ("==", "!=") and {a[0], b[0]} == {"ptr", "c"} and ("c", None) in (a, b):
            return ("c", op == "!=")
        if op in ("|", "&", "^") and a[0] == b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
            return ("c", {"|": a[1] | b[1], "&": a[1] & b[1], "^": a[1] ^ b[1]}[op])
        if op in ("/", "%") and a[0] == b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int) and b[1] > 0 and a[1] >= 0:
            return ("c", a[1] // b[1] if op == "/" else a[1] % b[1])
        return super().binop(op, a, b, lv)


class Import(Text):
    """an importer over an abstract input"""
    max_depth = 24
    loop_rounds = 40

    def __init__(self, prog, world):
        super().__init__()
        self.prog, self.w = prog, world

    def should_inline(self, eng, fn, c, n):
        return ("io/track/" in fn.file or "/io/csv_importer" in fn.file or "/io/importer" in fn.file) and fn.n != "parse_time"

    def may_throw(self, eng, st, fr, n, c):
        return False

    def on_enter(self, eng, st, fr, fn):
        self.touched.add(fn)

    def on_cond(self, eng, st, fr, val, truth, node):
        if val and (val[0] == "ptr" or val == ("c", None)):
            return st if truth == (val[0] == "ptr") else None
        return super().on_cond(eng, st, fr, val, truth, node)

    def on_decl(self, eng, st, fr, var, val):
        super().on_decl(eng, st, fr, var, val)
        if var.get("bind") and val and val[0] == "loc" and not eng.is_ref(var.get("t")):
            d = st.env.get((fr.id, var["d"]))
            if d and d[0] == "loc" and d != val:
                self.assign(eng, st, d[1], val)

    # ------------------------------------------------------------ helpers
    def rebase(self, s, a, b):
        """the object at b becomes a copy of that at a"""
        k = len(a)
        for key, v in list(s.env.items()):
            if key[0] == "val" and key[1][:k] == a and len(key[1]) > k:
                s.env[("val", b + key[1][k:])] = v
        for key, v in list(s.facts.items()):
            if isinstance(key, tuple) and key[0] == "seq" and key[1][:k] == a:
                s.facts[("seq", b + key[1][k:])] = v

    def value(self, eng, st, v):
        """a value, objects by what they hold"""
        C = self.container(st, v)
        if C is not None:
            return ("line", tuple(self.value(eng, st, ("loc", (x,))) for x in self.seq(st, C)))
        w = eng.rv(st, v) if v[0] == "loc" else v
        if w[0] == "loc" and w != v:
            return self.value(eng, st, w)
        return w

    def chars(self, st, text):
        """the characters of a known string as a sequence (in place)"""
        C = ("s:" + text,)
        if ("seq", C) not in st.facts:
            st.facts[("seq", C)] = tuple("ch:%s:%d" % (text, i) for i in range(len(text)))
            for i, ch in enumerate(text):
                st.env[("val", ("ch:%s:%d" % (text, i),))] = ("c", ch)
        return C

    def put(self, eng, st, fr, tgt, v, n):
        s = st.copy()
        if tgt[0] == "loc":
            s.facts.pop(("seq", tgt[1]), None)
            s.env[("val", tgt[1])] = v
        return s

    def sort(self, eng, st, fr, n, args, stable):
        a, b = eng.rv(st, args[0]), eng.rv(st, args[1])
        if a[0] != "it" or b[0] != "it" or a[1] != b[1]:
            return None
        q = list(self.seq(st, a[1]))
        i = q.index(a[2]) if a[2] in q else len(q)
        j = q.index(b[2]) if b[2] in q else len(q)
        part = q[i:j]
        vals = {x: self.value(eng, st, ("loc", (x,))) for x in part}
        if any(v[0] != "meas" or v[1][0] != "c" for v in vals.values()):
            return None
        if not stable:
            part.reverse()      # equal elements may end up in any order
        back = False
        if len(args) > 2:
            f = self.value(eng, st, args[2])
            if f[0] != "lam":
                return None
            # the order the comparison makes of two times
            s, r = st.copy(), []
            for k, (x, y) in enumerate(((1, 2), (2, 1))):
                for m, t in (("l", x), ("r", y)):
                    s.env[("val", ("t:cmp%d%s" % (k, m),))] = ("meas", ("c", t), U)
                    s.env[("val", ("t:cmp%d%s" % (k, m), "timestamp"))] = ("c", t)
                outs = eng.call_lambda(f, [("loc", ("t:cmp%dl" % k,)), ("loc", ("t:cmp%dr" % k,))], s, n)
                r.append(outs[0][2] if len(outs) == 1 else U)
            if r == [("c", False), ("c", True)]:
                back = True
            elif r != [("c", True), ("c", False)]:
                return None
        part.sort(key=lambda x: -vals[x][1][1] if back else vals[x][1][1])
        s = st.copy()
        s.facts[("seq", a[1])] = tuple(q[:i] + part + q[j:])
        return self.ok(s, U)

    def override(self, name, rid):
        """the function that a virtual call on the importer under test ends up in"""
        return next((f for f in self.prog.by_rec.get(rid, []) if f.n == name and f.has_body), None)

    # --------------------------------------------------------------- calls
    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = c.get("n") or c["q"].rsplit("::", 1)[-1], c.get("rec") or "", c["q"]
        w = self.w
        if name == "srs_dispatch":
            f = self.value(eng, st, args[1])
            if self.value(eng, st, args[0]) != ("in", ("srs_transform",)):
                self.bad("the coordinate systems are not those the importer was given", fr, n)
            return eng.call_lambda(f, [], st, n) if f[0] == "lam" else None
        if obj == ("loc", THIS) and rec.startswith("map_matching_2::io::") and w.rid:
            f = self.override(name, w.rid)
            if f is not None and f.q != c["q"]:
                return [(NEXT if k == RET else k, s, v) for k, s, v in eng.enter(f, eng.new_frame(f, obj, fr.depth + 1), args, st)]
        if name == "pass" and rec == "verif::sink":
            s = st.copy()
            s.facts["tracks"] = s.facts.get("tracks", ()) + (self.value(eng, s, args[0]),)
            return self.ok(s, U)
        if name == "parse_time":
            t, f = self.value(eng, st, args[0]), self.value(eng, st, args[1])
            if f != ("c", w.settings.get("time_format")):
                self.bad("a time is not parsed with the given format", fr, n)
            return self.ok(st, ("c", w.times[t[1]]) if t[0] == "c" and t[1] in w.times else ("term", "time", t, ()))
        if rec.endswith("csv_settings") and n["k"] == "ctor" and obj is not None and obj[0] == "loc" and args and args[0][0] == "loc":
            s = st.copy()
            a = eng.rv(s, args[0])
            self.rebase(s, a[1] if a[0] in ("loc", "in") else args[0][1], obj[1])
            return self.ok(s, obj)
        # files
        if q == "std::filesystem::exists":
            v = self.value(eng, st, args[0])
            return self.ok(st, ("c", v[0] == "c" and v[1] in w.files)) if v[0] == "c" else None
        if rec == "std::filesystem::path" and n["k"] == "ctor":
            return self.ok(st, self.value(eng, st, args[0]))
        if rec == "csv::CSVReader" and n["k"] == "ctor":
            v = self.value(eng, st, args[0])
            s = st.copy()
            s.facts["read"] = s.facts.get("read", ()) + (v,)
            s.facts[("seq", obj[1])] = tuple(w.files.get(v[1], ())) if v[0] == "c" else ()
            return self.ok(s, obj)
        if rec == "csv::CSVReader" and name in ("begin", "end"):
            C = self.container(st, obj)
            return self.ok(st, self.first(st, C) if name == "begin" else ("it", C, "end"))
        if name == "get_col_names":
            s = st.copy()
            C = ("column names",)
            s.facts[("seq", C)] = tuple("col:" + str(x) for x in w.columns)
            for x in w.columns:
                s.env[("val", ("col:" + str(x),))] = ("c", x)
            return self.ok(s, ("loc", C))
        if rec == "csv::CSVFormat":
            if n["k"] == "ctor":
                return self.ok(st, obj)
            s = st.copy()
            s.facts["format"] = s.facts.get("format", ()) + ((name,) + tuple(self.value(eng, st, a) for a in args),)
            return self.ok(s, obj)
        if "CSVReader" in rec and name in ("operator*", "operator->") and obj is not None:
            it = self.value(eng, st, obj)
            return self.ok(st, ("loc", (it[2],))) if it[0] == "it" and it[2] != "end" else None
        if rec == "csv::CSVRow" and name == "operator[]":
            row = obj[1][0]
            if len(obj[1]) == 2 and obj[1][1] == "*":
                it = st.env.get(("val", obj[1][:1]), U)
                row = it[2] if it[0] == "it" else row
            if row not in w.rows:
                return None
            col = self.value(eng, st, args[0])
            missing = [t for t in w.settled.get(row, ()) if t not in [canonical(x)[0] for x in st.facts.get("tracks", ())]]
            if missing:
                self.bad("points, grouped: track %s is complete, but is not handed on before the tracks after it are read" % missing[0], fr, n)
                return []
            return self.ok(st, ("field", row, col))
        if rec == "csv::CSVField" and n["k"] != "ctor":
            f = self.value(eng, st, obj) if obj[0] == "loc" else obj
            if f[0] != "field":
                return None
            if f[2][0] != "c":
                self.bad("a field of a column that is not known is read", fr, n)
                return []
            r = w.rows[f[1]]
            if f[2][1] not in r:
                self.bad("a column is read that the file does not have (%s)" % (f[2][1],), fr, n)
                return []
            return self.ok(st, ("c", r[f[2][1]]) if isinstance(r[f[2][1]], str) else ("in", (f[1], str(f[2][1]))))
        if rec == "csv::CSVField":
            return self.ok(st, self.value(eng, st, args[0])) if args else None
        # gpx
        if rec.startswith("gpx::") and n["k"] != "ctor" and obj is not None and obj[0] == "loc":
            if name == "parse":
                s = st.copy()
                v = self.value(eng, s, args[0])
                g = w.files.get(v[1][1]) if v[0] == "file" and v[1][0] == "c" else None
                if g is None:
                    self.bad("another stream than that of the file is parsed", fr, n)
                    return []
                s.facts["read"] = s.facts.get("read", ()) + (v[1],)
                return self.ok(s, ("ptr", (g,)) if g != "broken" else ("c", None))
            if name in ("trks", "trksegs", "trkpts", "metadata", "name", "time", "lat", "lon"):
                return self.ok(st, ("loc", obj[1] + (name,)))
            if name == "list":
                return self.ok(st, ("loc", obj[1]))
            if name == "getValue":
                return self.ok(st, self.value(eng, st, obj))
            return self.ok(st, U)
        if rec.rsplit("::", 1)[-1] in ("basic_ifstream",):
            if n["k"] == "ctor":
                s = st.copy()
                s.env[("val", obj[1])] = ("file", self.value(eng, st, args[0])) if args else ("file", None)
                return self.ok(s, obj)
            if name == "open":
                s = st.copy()
                s.env[("val", obj[1])] = ("file", self.value(eng, st, args[0]))
                return self.ok(s, U)
        if name in ("is_open", "good") and obj is not None and self.value(eng, st, obj)[0] == "file":
            return self.ok(st, ("c", True))
        if name in ("fail", "bad", "operator!") and obj is not None and self.value(eng, st, obj)[0] == "file":
            return self.ok(st, ("c", False))
        if q == "std::getline" and len(args) >= 2:
            src = self.value(eng, st, args[0])
            key = src[1][1] if src[0] == "file" and src[1][0] == "c" else "<stdin>"
            lines = w.lines.get(key, ())
            i = st.facts.get(("line", key), 0)
            s = st.copy()
            if i >= len(lines):
                return self.ok(s, ("c", False))
            s.facts[("line", key)] = i + 1
            s = self.put(eng, s, fr, args[1], ("c", lines[i]), n)
            return self.ok(s, ("c", True))
        if name in ("operator bool", "operator!") and obj is not None and obj[0] == "c" and isinstance(obj[1], bool):
            return self.ok(st, obj if name != "operator!" else ("c", not obj[1]))
        # text
        if q.startswith("boost::algorithm::"):
            v = self.value(eng, st, args[0]) if args else U
            if name in ("to_upper", "trim", "to_upper_copy", "trim_copy") and v[0] == "c" and isinstance(v[1], str):
                r = ("c", v[1].upper() if "upper" in name else v[1].strip())
                return self.ok(st, r) if name.endswith("copy") else self.ok(self.put(eng, st, fr, args[0], r, n), U)
            if name in ("istarts_with", "starts_with"):
                p = self.value(eng, st, args[1])
                if v[0] == p[0] == "c":
                    return self.ok(st, ("c", v[1].upper().startswith(p[1].upper()) if name[0] == "i" else v[1].startswith(p[1])))
            if name == "is_any_of":
                return self.ok(st, ("anyof", self.value(eng, st, args[0])))
            if name == "split" and len(args) >= 3:
                return self.split(eng, st, fr, n, args)
        if is_string(rec) and obj is not None and n["k"] != "ctor":
            cur = self.value(eng, st, obj)
            if cur[0] == "c" and isinstance(cur[1], str):
                a = [self.value(eng, st, x) for x in args]
                if name == "starts_with" and a and a[0][0] == "c":
                    return self.ok(st, ("c", cur[1].startswith(a[0][1])))
                if name in ("begin", "cbegin", "end", "cend"):
                    s = st.copy()
                    C = self.chars(s, cur[1])
                    return self.ok(s, self.first(s, C) if "begin" in name else ("it", C, "end"))
                if name in ("operator[]", "at", "front", "back"):
                    i = a[0][1] if a else (0 if name == "front" else len(cur[1]) - 1)
                    return self.ok(st, ("c", cur[1][i])) if 0 <= i < len(cur[1]) else []
                if name in ("find", "rfind") and a and all(x[0] == "c" for x in a) and len(a) < 3:
                    i = cur[1].find(a[0][1], *[x[1] for x in a[1:]]) if name == "find" else cur[1].rfind(a[0][1], 0, a[1][1] + len(a[0][1]) if len(a) > 1 and a[1][1] < len(cur[1]) else None)
                    return self.ok(st, ("c", i if i >= 0 else 2 ** 64 - 1))
                if name == "substr" and a and all(x[0] == "c" for x in a):
                    return self.ok(st, ("c", cur[1][a[0][1]:] if len(a) == 1 else cur[1][a[0][1]:a[0][1] + a[1][1]]))
                if name == "compare" and a and a[0][0] == "c":
                    return self.ok(st, ("c", (cur[1] > a[0][1]) - (cur[1] < a[0][1])))
        if name.startswith("operator basic_string_view") and obj is not None or name == "basic_string_view" and n["k"] == "ctor" and args:
            return self.ok(st, self.value(eng, st, obj if n["k"] != "ctor" else args[0]))
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend") and len(args) == 1:
            cur = self.value(eng, st, args[0])
            if cur[0] == "c" and isinstance(cur[1], str):
                s = st.copy()
                C = self.chars(s, cur[1])
                return self.ok(s, self.first(s, C) if "begin" in q else ("it", C, "end"))
        if q == "std::to_string" and len(args) == 1:
            v = self.value(eng, st, args[0])
            if v[0] == "c" and isinstance(v[1], int):
                return self.ok(st, ("c", str(v[1])))
        if name == "isdigit" and len(args) >= 1:
            v = self.value(eng, st, args[0])
            if v[0] == "c" and isinstance(v[1], str) and len(v[1]) == 1:
                return self.ok(st, ("c", int("0" <= v[1] <= "9")))
        if q in ("std::stoul", "std::stoull", "std::stoi", "std::stol", "std::stoll", "std::stod") or name == "lexical_cast" and args:
            v = self.value(eng, st, args[0])
            if v[0] == "c" and isinstance(v[1], str):
                t = v[1].strip()
                if q == "std::stod":
                    return self.ok(st, ("num", t))
                if t.lstrip("-").isdigit():
                    return self.ok(st, ("c", int(t)))
                return [(THROW, st, ("exc", "number", n["l"]))]
            return self.ok(st, v)
        if rec == "std::pair" and n["k"] == "ctor" and obj is not None and obj[0] == "loc" and args:
            s = st.copy()
            if len(args) == 2:
                self.assign(eng, s, obj[1] + ("first",), args[0])
                self.assign(eng, s, obj[1] + ("second",), args[1])
            elif args[0][0] == "loc":
                self.assign(eng, s, obj[1], args[0])
            return self.ok(s, obj)
        # any
        if rec == "std::any" and n["k"] == "ctor" and args:
            if c.get("ctor") in ("copy", "move") or obj is None or obj[0] != "loc":
                return self.ok(st, args[0])
            s = st.copy()
            self.assign(eng, s, obj[1], args[0])
            return self.ok(s, obj)
        if rec == "std::any" and name == "operator=" and obj is not None and obj[0] == "loc":
            s = st.copy()
            self.assign(eng, s, obj[1], args[0])
            return self.ok(s, obj)
        if q == "std::any_cast":
            a = args[0]
            if a[0] == "ptr":
                return self.ok(st, a)
            if a[0] == "loc" and (c.get("rt") or {}).get("f") != "&" and c.get("rt"):
                s = st.copy()
                d = ("t:any%d_%d.%d" % (n["l"], eng.uid(n), fr.id),)
                self.assign(eng, s, d, a)
                return self.ok(s, ("loc", d))
            return self.ok(st, a)
        if is_assoc(rec) and name == "at" and obj is not None:
            r = super().on_call(eng, st, fr, n, c, obj, args)
            return r if r != [] else [(THROW, st, ("exc", "key", n["l"]))]
        if rec == "std::numeric_limits" and name in ("min", "max", "lowest"):
            return self.ok(st, ("c", 2 ** 63 - 1 if name == "max" else -2 ** 63))
        if name == "operator=" and obj is not None and obj[0] == "loc" and args and shape.is_seq(rec):
            C = self.container(st, args[0])
            if C is not None:
                s = st.copy()
                s.env.pop(("val", obj[1]), None)
                s.facts[("seq", obj[1])] = self.seq(st, C)
                return self.ok(s, obj)
        if rec == "std::queue" and obj is not None and obj[0] == "loc":
            r = self.queue(eng, st, fr, n, c, name, obj, args)
            if r is not None:
                return r
        # iterators over lines
        if name in ("rbegin", "crbegin", "rend", "crend") and obj is not None and obj[0] == "loc":
            C = self.container(st, obj)
            if C is not None:
                s = st.copy()
                R = ("reversed",) + C
                s.facts[("seq", R)] = tuple(reversed(self.seq(st, C)))
                return self.ok(s, self.first(s, R) if "begin" in name else ("it", R, "end"))
        if q in ("std::next", "std::prev") and args:
            it = self.value(eng, st, args[0])
            k = self.value(eng, st, args[1]) if len(args) > 1 else ("c", 1)
            if it[0] == "it" and k[0] == "c":
                return self.ok(st, self.step(eng, st, fr, it, k[1] if q == "std::next" else -k[1], n))
        if q in ("std::back_inserter", "std::make_reverse_iterator") and args:
            C = self.container(st, args[0])
            if q == "std::back_inserter" and args[0][0] == "loc":
                return self.ok(st, ("back", C if C is not None else args[0][1]))
        if q == "std::copy" and len(args) == 3:
            a, b, o = (self.value(eng, st, x) for x in args)
            if a[0] == b[0] == "it" and a[1] == b[1] and o[0] == "back":
                Q = list(self.seq(st, a[1]))
                i = Q.index(a[2]) if a[2] in Q else len(Q)
                j = Q.index(b[2]) if b[2] in Q else len(Q)
                s = st.copy()
                for x in Q[i:j]:
                    self.add(eng, s, o[1], [self.value(eng, s, ("loc", (x,)))], fr, n)
                return self.ok(s, o)
        if q == "std::transform" and len(args) == 4 or q == "std::for_each" and len(args) == 3:
            a, b, f = (self.value(eng, st, x) for x in (args[0], args[1], args[-1]))
            o = self.value(eng, st, args[2])
            if a[0] == b[0] == "it" and a[1] == b[1] and f[0] == "lam" and (o[0] == "back" or len(args) == 3):
                Q = list(self.seq(st, a[1]))
                i = Q.index(a[2]) if a[2] in Q else len(Q)
                j = Q.index(b[2]) if b[2] in Q else len(Q)
                cur, res = [st], []
                for x in Q[i:j]:
                    nxt = []
                    for s in cur:
                        for k, s2, v in eng.call_lambda(f, [("loc", (x,))], s, n):
                            if k != NEXT:
                                res.append((k, s2, v))
                                continue
                            if len(args) == 4:
                                s2 = s2.copy()
                                self.add(eng, s2, o[1], [self.value(eng, s2, v)], fr, n)
                            nxt.append(s2)
                    cur = nxt
                return res + [(NEXT, s, o if len(args) == 4 else f) for s in cur]
        if rec.endswith("iterator") and n["k"] == "ctor" and args and eng.rv(st, args[0])[0] in ("it", "back"):
            return self.ok(st, eng.rv(st, args[0]))
        # the network
        if name == "edges_view":
            return self.ok(st, ("loc", ("edges",)))
        if obj == ("loc", ("edges",)) or obj is not None and self.container(st, obj) == ("edges",):
            E = ("edges",)
            if name in ("begin", "end"):
                return self.ok(st, self.first(st, E) if name == "begin" else ("it", E, "end"))
            if name == "next":
                return self.ok(st, self.step(eng, st, fr, self.value(eng, st, args[0]), 1, n))
            if name == "operator[]":
                it = self.value(eng, st, args[0])
                return self.ok(st, ("loc", (it[2],)))
        if name == "get" and obj is not None and obj[0] == "loc" and obj[1][0].startswith("edge "):
            return self.ok(st, obj)
        if name == "get_edge_data" and args:
            it = self.value(eng, st, args[0])
            return self.ok(st, ("loc", (it[2],))) if it[0] == "it" and it[1] == ("edges",) else None
        if obj is not None and obj[0] == "loc" and len(obj[1]) == 2 and obj[1][1] == "rich_line":
            e = w.edges.get(obj[1][0])
            if e:
                if name in ("front", "back"):
                    return self.ok(st, ("end point", e[1 if name == "front" else 2]))
                if name == "empty":
                    return self.ok(st, ("c", False))
                if name == "line":
                    return self.ok(st, ("edge line", obj[1][0]))
        if name == "equals_points":
            a, b = (self.value(eng, st, x) for x in args[:2])
            if a[0] == b[0] == "end point":
                return self.ok(st, ("c", a == b))
        if name == "rich_line" and n["k"] == "ctor" and args and self.value(eng, st, args[0])[0] == "edge line":
            return self.ok(st, self.value(eng, st, args[0]))
        if name == "merge" and args:
            v = self.value(eng, st, args[0])
            return self.ok(st, ("merged", v))
        if name == "multi_line" and obj is not None and self.value(eng, st, obj)[0] == "merged":
            return self.ok(st, self.value(eng, st, obj)[1])
        # geometry
        if name == "read_wkt" and len(args) == 2:
            v = self.value(eng, st, args[0])
            if w.letters and v[0] == "c" and args[1][0] == "loc":
                s = st.copy()
                s.facts[("seq", args[1][1])] = ()
                for ch in v[1][v[1].index("(") + 1:v[1].index(")")].split():
                    self.add(eng, s, args[1][1], [("c", ch)], fr, n)
                return self.ok(s, U)
            if v[0] == "c" and isinstance(v[1], str) and "BROKEN" in v[1]:
                return [(THROW, st, ("exc", "wkt", n["l"]))]
            return self.ok(self.put(eng, st, fr, args[1], ("wkt", v), n), U)
        if name == "measurements2line":
            v = self.value(eng, st, args[0])
            if v[0] != "line" or any(x[0] != "meas" for x in v[1]):
                self.bad("a line is made of something else than the points of the track", fr, n)
                return []
            return self.ok(st, ("line", tuple(x[2] for x in v[1])))
        if n["k"] == "ctor" and obj is not None and obj[0] == "loc":
            last = rec.rsplit("::", 1)[-1]
            if last in ("measurement", "multi_track", "point", "linestring", "multi_linestring") and rec.startswith(("map_matching_2::", "boost::geometry::model::")):
                if c.get("ctor") in ("copy", "move") and args:
                    v = self.value(eng, st, args[0])
                elif last == "measurement":
                    vs = [self.value(eng, st, a) for a in args]
                    if len(vs) > 2 and vs[2] != ("in", ("reprojector",)):
                        self.bad("a point is not reprojected as the importer was told to", fr, n)
                    v = ("meas", vs[0], vs[1])
                elif last == "multi_track":
                    vs = [self.value(eng, st, a) for a in args]
                    if len(vs) > 2 and vs[2] != ("in", ("reprojector",)):
                        self.bad("a track is not reprojected as the importer was told to", fr, n)
                    v = ("track", vs[0], vs[1], len(vs) > 2) if len(vs) > 1 else U
                elif last == "point":
                    v = ("pt",) + tuple(self.value(eng, st, a) for a in args)
                else:
                    return super().on_call(eng, st, fr, n, c, obj, args)
                s = st.copy()
                s.env[("val", obj[1])] = v
                return self.ok(s, obj)
        if n["k"] == "ctor" and rec == "std::variant" and len(args) == 1:
            return self.ok(st, args[0])
        if q in ("std::sort", "std::stable_sort", "std::ranges::sort", "std::ranges::stable_sort") and len(args) >= 2:
            r = self.sort(eng, st, fr, n, args, "stable" in q)
            if r is not None:
                return r
        # sets of names
        if is_assoc(rec) and n["k"] == "ctor" and len(args) >= 2:
            a, b = self.value(eng, st, args[0]), self.value(eng, st, args[1])
            if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
                s = st.copy()
                s.facts[("seq", obj[1])] = ()
                for x in self.seq(s, a[1]):
                    self.entry(eng, s, obj[1], rec, self.value(eng, s, ("loc", (x,))))
                return self.ok(s, obj)
        if rec.endswith("::char_separator") and n["k"] == "ctor" and obj is not None and obj[0] == "loc":
            s = st.copy()
            s.env[("val", obj[1])] = self.value(eng, st, args[0]) if args else U
            return self.ok(s, obj)
        if rec.endswith("::tokenizer") and name in ("begin", "end") and obj is not None:
            C = self.container(st, obj)
            if C is not None:
                return self.ok(st, self.first(st, C) if name == "begin" else ("it", C, "end"))
        if rec.endswith("::tokenizer") and n["k"] == "ctor" and args:
            v = self.value(eng, st, args[0])
            sep = self.value(eng, st, args[1]) if len(args) > 1 else U
            if sep[0] != "c":
                return None
            s = st.copy()
            s.facts[("seq", obj[1])] = ()
            if v[0] == "c":
                text_ = v[1]
                for ch in sep[1]:
                    text_ = text_.replace(ch, "\0")
                for t in text_.split("\0"):
                    if t:
                        self.add(eng, s, obj[1], [("c", t)], fr, n)
            return self.ok(s, obj)
        if q in ("std::all_of", "std::any_of", "std::none_of") and len(args) == 3:
            a, f = self.value(eng, st, args[0]), self.value(eng, st, args[2])
            if a[0] == "it" and f[0] == "lam":
                stop = q != "std::all_of"
                cur, res = [(st, None)], []
                for x in self.seq(st, a[1]):
                    nxt = []
                    for s, _ in cur:
                        for k, s2, v in eng.call_lambda(f, [("loc", (x,))], s, n):
                            v = eng.rv(s2, v)
                            if k == THROW:
                                res.append((k, s2, v))
                            elif v[0] == "c" and bool(v[1]) == stop:
                                res.append((NEXT, s2, ("c", q == "std::any_of")))
                            elif v[0] == "c":
                                nxt.append((s2, None))
                            else:
                                return None
                    cur = nxt
                return res + [(NEXT, s, ("c", q != "std::any_of")) for s, _ in cur]
        if q in ("std::find", "std::ranges::find") and len(args) >= 2:
            a = self.value(eng, st, args[0])
            v = self.value(eng, st, args[-1])
            if a[0] == "it" and v[0] == "c":
                for x in self.seq(st, a[1]):
                    if self.value(eng, st, ("loc", (x,))) == v:
                        return self.ok(st, ("it", a[1], x))
                return self.ok(st, ("it", a[1], "end"))
        return super().on_call(eng, st, fr, n, c, obj, args)

    def queue(self, eng, st, fr, n, c, name, obj, args):
        s = st.copy()
        C = self.container(st, obj) or obj[1]
        q = self.seq(st, C)
        if n["k"] == "ctor":
            s.facts[("seq", obj[1])] = ()
            if args:
                self.assign(eng, s, obj[1], args[0])
            return self.ok(s, obj)
        if name in ("push", "emplace"):
            e = self.new_name(s, C)
            if len(args) == 2:
                self.assign(eng, s, (e, "first"), args[0])
                self.assign(eng, s, (e, "second"), args[1])
            else:
                self.assign(eng, s, (e,), args[0])
            s.facts[("seq", C)] = q + (e,)
            return self.ok(s, ("loc", (e,)))
        if name in ("front", "back", "pop"):
            if not q:
                self.bad("an element of an empty queue is used", fr, n)
                return []
            if name != "pop":
                return self.ok(st, ("loc", (q[0 if name == "front" else -1],)))
            s.facts[("seq", C)] = q[1:]
            return self.ok(s, U)
        if name in ("empty", "size"):
            return self.ok(st, ("c", not q if name == "empty" else len(q)))
        return None

    def split(self, eng, st, fr, n, args):
        src, sep = self.value(eng, st, args[1]), self.value(eng, st, args[2])
        s = st.copy()
        dst = args[0][1]
        s.facts[("seq", dst)] = ()
        if sep[0] == "anyof" and sep[1][0] == "line" and all(x[0] == "c" for x in sep[1][1]):
            sep = ("anyof", ("c", "".join(x[1] for x in sep[1][1])))
        if src[0] != "c" or sep[0] != "anyof" or sep[1][0] != "c":
            return None
        cur, parts = "", []
        for ch in src[1]:
            if ch in sep[1][1]:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        for p in parts + [cur]:
            self.add(eng, s, dst, [("c", p)], fr, n)
        return self.ok(s, args[0])


class World:
    """what an importer is given: files, rows, settings"""

    def __init__(self, files=None, rows=None, columns=(), settings=None, selectors=(), times=None, lines=None, skip=0, names=None):
        self.files, self.rows, self.columns = files or {}, rows or {}, columns
        self.settings = dict(settings or {})
        self.selectors, self.times, self.lines, self.skip = selectors, times or {}, lines or {}, skip
        self.names = list(names if names is not None else self.files)
        self.rid = None
        self.delimiters = None  # characters, if not just the one of the settings
        self.letters = False    # a line is the sequence of its points
        self.edges = {}         # edge -> (id, first point, last point)
        self.settled = {}       # row -> tracks that have arrived when it is read


SETTINGS = {"grouped": True, "no_header": False, "no_id": False, "no_id_whole_file": False, "wkt": False, "no_parse_time": False,
            "skip_lines": 0, "delimiter": ",", "id_aggregator": "_", "field_x": "x", "field_y": "y", "field_geometry": "geometry",
            "time_aggregator": "_", "time_format": "%F", "field_id": ["id"], "field_time": ["time"]}


def strings(st, C, values):
    st.facts[("seq", C)] = tuple("%s%d" % (C[-1], i) for i in range(len(values)))
    for i, v in enumerate(values):
        st.env[("val", ("%s%d" % (C[-1], i),))] = ("c", v)


def point(row):
    return ("pt", ("in", (row, "x")), ("in", (row, "y")))


def csv_worlds():
    """[(name, world, expected tracks)]: a track is (id, points or text, in any order of the tracks that arrive together)"""
    def row(i, x=None, t=None, **kw):
        r = {"x": 0, "y": 0}
        if i is not None:
            r["id"] = i
        if t is not None:
            r["time"] = t
        r.update(kw)
        return r
    res = []

    def world(name, files, rows, want, columns=("id", "x", "y", "time"), selectors=(), times=None, names=None, **settings):
        s = dict(SETTINGS)
        s.update(settings)
        res.append((name, World(files, rows, columns, s, selectors, times, skip=s["skip_lines"], names=names), want))
    T = {"t1": 10, "t2": 20, "t3": 30, "t4": 40}
    P = point
    for g in (True, False):
        how = "grouped" if g else "ungrouped"
        world("points, %s: tracks one after another" % how, {"f": ["r0", "r1", "r2", "r3"]},
              {"r0": row("A", t="t1"), "r1": row("A", t="t2"), "r2": row("B", t="t1"), "r3": row("C", t="t3")},
              [("A", [P("r0"), P("r1")]), ("B", [P("r2")]), ("C", [P("r3")])], times=T, grouped=g)
        if g:
            res[-1][1].settled = {"r3": ["A"]}
        world("points, %s: out of order in time" % how, {"f": ["r0", "r1", "r2", "r3"]},
              {"r0": row("A", t="t3"), "r1": row("A", t="t1"), "r2": row("A", t="t2"), "r3": row("B", t="t1")},
              [("A", [P("r1"), P("r2"), P("r0")]), ("B", [P("r3")])], times=T, grouped=g)
        world("points, %s: several at the same time" % how, {"f": ["r0", "r1", "r2", "r3"]},
              {"r0": row("A", t="t2"), "r1": row("A", t="t2"), "r2": row("A", t="t1"), "r3": row("A", t="t2")},
              [("A", [P("r2"), P("r0"), P("r1"), P("r3")])], times=T, grouped=g)
        world("points, %s: no times" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": row("A"), "r1": row("A"), "r2": row("A")},
              [("A", [P("r0"), P("r1"), P("r2")])], columns=("id", "x", "y"), grouped=g)
        world("points, %s: numbers as times" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": row("A", t="17"), "r1": row("A", t="9"), "r2": row("B", t="5")},
              [("A", [P("r1"), P("r0")]), ("B", [P("r2")])], grouped=g, no_parse_time=True)
        world("points, %s: times that are not numbers" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": row("A", t="x"), "r1": row("A", t="y"), "r2": row("A", t="w")},
              [("A", [P("r0"), P("r1"), P("r2")])], grouped=g, no_parse_time=True)
        world("points, %s: only a selected track" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": row("A", t="t1"), "r1": row("B", t="t2"), "r2": row("B", t="t3")},
              [("B", [P("r1"), P("r2")])], times=T, grouped=g, selectors=("B", "D"))
        world("points, %s: two files, another missing" % how, {"f": ["r0", "r1"], "g": ["r2"]},
              {"r0": row("A", t="t1"), "r1": row("B", t="t2"), "r2": row("C", t="t3")},
              [("A", [P("r0")]), ("B", [P("r1")]), ("C", [P("r2")])], times=T, grouped=g, names=["f", "missing", "g"])
        world("points, %s: nothing in the file" % how, {"f": []}, {}, [], times=T, grouped=g)
    world("points, ungrouped: tracks that alternate", {"f": ["r0", "r1", "r2", "r3"]},
          {"r0": row("A", t="t1"), "r1": row("B", t="t2"), "r2": row("A", t="t2"), "r3": row("B", t="t1")},
          [("A", [P("r0"), P("r2")]), ("B", [P("r3"), P("r1")])], times=T, grouped=False)
    world("points: lines at the head are skipped", {"f": ["r0", "r1", "r2"], "g": ["r3", "r4"]},
          {"r0": row("A", t="t1"), "r1": row("A", t="t2"), "r2": row("A", t="t3"), "r3": row("B", t="t1"), "r4": row("B", t="t2")},
          [("A", [P("r1"), P("r2")]), ("B", [P("r4")])], times=T, skip_lines=1)
    world("points: identifier of two columns", {"f": ["r0", "r1", "r2"]},
          {"r0": row("A", t="t1", part="1"), "r1": row("A", t="t2", part="1"), "r2": row("A", t="t2", part="2")},
          [("A_1", [P("r0"), P("r1")]), ("A_2", [P("r2")])], columns=("id", "part", "x", "y", "time"), times=T, field_id=["id", "part"])
    world("points: time of two columns", {"f": ["r0", "r1"]},
          {"r0": row("A", day="d2", hour="h"), "r1": row("A", day="d1", hour="h")},
          [("A", [P("r1"), P("r0")])], columns=("id", "x", "y", "day", "hour"), times={"d1 h": 1, "d2 h": 2}, field_time=["day", "hour"], time_aggregator=" ")
    world("points: no identifier, a track per file", {"f": ["r0", "r1"], "g": ["r2"]},
          {"r0": row(None, t="t1"), "r1": row(None, t="t2"), "r2": row(None, t="t1")},
          [("0", [P("r0"), P("r1")]), ("1", [P("r2")])], columns=("x", "y", "time"), times=T, no_id=True, no_id_whole_file=True)
    for g in (True, False):
        world("points: no identifier, a track per row, %s" % ("grouped" if g else "ungrouped"), {"f": ["r0", "r1"]},
              {"r0": row(None, t="t1"), "r1": row(None, t="t1")},
              [("0", [P("r0")]), ("1", [P("r1")])], columns=("x", "y", "time"), times=T, no_id=True, grouped=g)

    def num(i, t):
        return {0: i, 1: 0, 2: 0, 3: t}
    q = lambda r: ("pt", ("in", (r, "1")), ("in", (r, "2")))
    for delimiter, chars in (("\\t", "\t"), ("\\s|", " |"), ("\\\\t", "\\t"), (";x\\tt", ";x\tt")):
        world("points: delimiter %s" % delimiter, {"f": ["r0"]}, {"r0": row("A", t="t1")}, [("A", [P("r0")])], times=T, delimiter=delimiter)
        res[-1][1].delimiters = chars
    world("points: columns by number, no identifier", {"f": ["r0", "r1"]}, {"r0": {1: 0, 2: 0}, "r1": {1: 0, 2: 0}},
          [("0", [("pt", ("in", (r, "1")), ("in", (r, "2"))) for r in ("r0", "r1")])], columns=(), no_header=True, no_id=True, no_id_whole_file=True,
          field_x="1", field_y="2", field_time=[], delimiter="t")
    world("points: columns by number", {"f": ["r0", "r1", "r2"]}, {"r0": num("A", "t2"), "r1": num("A", "t1"), "r2": num("B", "t1")},
          [("A", [q("r1"), q("r0")]), ("B", [q("r2")])], columns=(), times=T, no_header=True, field_id=["0"], field_x="1", field_y="2", field_time=["3"])
    for g in (True, False):
        how = "grouped" if g else "ungrouped"

        def wk(i, text, t=None):
            r = {"geometry": text}
            if i is not None:
                r["id"] = i
            if t:
                r["time"] = t
            return r
        world("WKT lines, %s" % how, {"f": ["r0", "r1", "r2", "r3"]},
              {"r0": wk("A", "linestring(1)"), "r1": wk("B", "MULTILINESTRING(2)"), "r2": wk("C", "GEOMETRYCOLLECTION EMPTY"), "r3": wk("D", "Linestring(3)")},
              [("A", "LINESTRING(1)"), ("B", "MULTILINESTRING(2)"), ("C", []), ("D", "LINESTRING(3)")], columns=("id", "geometry"), wkt=True, grouped=g)
        world("WKT lines that are selected, %s" % how, {"f": ["r0", "r1", "r2", "r3", "r4"]},
              {"r0": wk("A", "LINESTRING(1)"), "r1": wk("B", "LINESTRING(2)"), "r2": wk("C", "MULTILINESTRING(3)"), "r3": wk("D", "GEOMETRYCOLLECTION EMPTY"), "r4": wk("B", "GEOMETRYCOLLECTION EMPTY")},
              [("B", "LINESTRING(2)"), ("B", [])], columns=("id", "geometry"), wkt=True, grouped=g, selectors=("B",))
        world("WKT lines without identifier, %s" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": wk(None, "LINESTRING(1)"), "r1": wk(None, "MULTILINESTRING(2)"), "r2": wk(None, "GEOMETRYCOLLECTION EMPTY")},
              [("0", "LINESTRING(1)"), ("1", "MULTILINESTRING(2)"), ("2", [])], columns=("geometry",), wkt=True, grouped=g, no_id=True)
        world("WKT points, %s" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": wk("A", "POINT(1)", "t2"), "r1": wk("A", "point(2)", "t1"), "r2": wk("B", "POINT(3)", "t1")},
              [("A", [("wkt", ("c", "POINT(2)")), ("wkt", ("c", "POINT(1)"))]), ("B", [("wkt", ("c", "POINT(3)"))])],
              columns=("id", "geometry", "time"), times=T, wkt=True, grouped=g)
        world("WKT of another kind, %s" % how, {"f": ["r0", "r1"]},
              {"r0": wk("A", "POLYGON(1)"), "r1": wk("B", "LINESTRING(2)")},
              [("B", "LINESTRING(2)")], columns=("id", "geometry"), wkt=True, grouped=g)
    world("WKT: column by number", {"f": ["r0"]}, {"r0": {0: "A", 1: "LINESTRING(1)"}}, [("A", "LINESTRING(1)")], columns=(), wkt=True,
          no_header=True, field_id=["0"], field_geometry="1")
    for g in (True, False):
        how = "grouped" if g else "ungrouped"
        W = lambda *texts: {"r%d" % i: {"geometry": x} for i, x in enumerate(texts)}
        world("WKT: whole file, but lines, %s" % how, {"f": ["r0", "r1", "r2", "r3"]},
              W("LINESTRING(1)", "MULTILINESTRING(2)", "GEOMETRYCOLLECTION EMPTY", "MULTILINESTRING(3)"),
              [("0", "LINESTRING(1)"), ("1", "MULTILINESTRING(2)"), ("2", []), ("3", "MULTILINESTRING(3)")], columns=("geometry",),
              wkt=True, no_id=True, no_id_whole_file=True, grouped=g)
        world("WKT: whole file of points, %s" % how, {"f": ["r0", "r1"], "g": ["r2"]}, W("POINT(1)", "POINT(2)", "POINT(3)"),
              [("0", [("wkt", ("c", "POINT(1)")), ("wkt", ("c", "POINT(2)"))]), ("1", [("wkt", ("c", "POINT(3)"))])], columns=("geometry",),
              wkt=True, no_id=True, no_id_whole_file=True, grouped=g)
        world("WKT: selected lines without identifier, %s" % how, {"f": ["r0", "r1", "r2", "r3"]},
              W("LINESTRING(1)", "MULTILINESTRING(2)", "GEOMETRYCOLLECTION EMPTY", "LINESTRING(3)"),
              [("1", "MULTILINESTRING(2)"), ("2", [])], columns=("geometry",), wkt=True, no_id=True, grouped=g, selectors=("1", "2"))
        world("WKT: selected points, %s" % how, {"f": ["r0", "r1", "r2"]},
              {"r0": {"id": "A", "geometry": "POINT(1)"}, "r1": {"id": "B", "geometry": "POINT(2)"}, "r2": {"id": "A", "geometry": "LINESTRING(3)"}},
              [("B", [("wkt", ("c", "POINT(2)"))])], columns=("id", "geometry"), wkt=True, grouped=g, selectors=("B",))
    return res


def canonical(t):
    """(id, points or text) of a track that was handed on"""
    if t[0] != "track":
        return ("?", repr(t))
    i = t[1][1] if t[1][0] == "c" else repr(t[1])
    g = t[2]
    if g[0] == "line":
        return (i, list(g[1]))
    if g[0] == "wkt" and g[1][0] == "c":
        return (i, g[1][1])
    if g == U or g[0] == "in":
        return (i, [])
    return (i, repr(g))


def text(track):
    i, g = track
    if isinstance(g, str):
        return "%s %s" % (i, g)
    return "%s (%s)" % (i, " ".join(pt(p) for p in g))


def pt(p):
    if p[0] == "pt":
        return "/".join(sorted({x[1][0] if x[0] == "in" else str(x[1]) for x in p[1:]})) if len(p) == 3 and (p[1][0] != "in" or p[1][1][0] == p[2][1][0] and p[1] != p[2]) else repr(p)
    if p[0] == "wkt":
        return str(p[1][1])
    if p[0] == "line":
        return "(%s)" % " ".join(pt(x) for x in p[1])
    return repr(p)


def ctor(prog, q):
    """(record, constructor, functions by name) of the importer"""
    for rid, rec in prog.recs.items():
        if rec.q.split("<")[0] == q:
            fns = [f for f in prog.by_rec.get(rid, []) if f.has_body]
            cs = [f for f in fns if "inits" in f.j and f.j.get("ctor") not in ("copy", "move")]
            if cs:
                return rid, cs[0], {f.n: f for f in fns}
    return None, None, {}


def judge(rep, rule, cl, outs, name, want, f):
    got_any = False
    for k, s, v in outs:
        if k == THROW:
            got_any = True
            if want is not None:
                cl.viol.append(("the import fails for: %s" % name, f, 0))
            continue
        if k != RET:
            continue
        got_any = True
        if want is None:
            cl.viol.append(("%s: this is not reported" % name, f, 0))
            continue
        got = [canonical(t) for t in s.facts.get("tracks", ())]
        a, b = sorted(map(text, got)), sorted(map(text, want))
        if a != b:
            cl.viol.append(("%s: instead of the tracks [%s] these arrive: [%s]" % (name, "; ".join(b), "; ".join(a)), f, 0))
        elif sorted(map(repr, got)) != sorted(map(repr, want)):
            cl.viol.append(("%s: a point does not have the coordinates of its row" % name, f, 0))
    if not got_any and not cl.viol:
        cl.viol.append(("the import does not end for: %s" % name, f, 0))


def report(rep, rule, cl, name):
    for fn in cl.touched:
        rep.fn(fn)
    for msg, fn, line in cl.viol:
        rep.violation("%s:%s" % (rule, msg), msg, "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))


def formats(cl, outs, w, name, f):
    """the file is read with the delimiter and the header it has"""
    want = {("delimiter", ("line", tuple(("c", x) for x in w.delimiters or w.settings["delimiter"])))} | ({("no_header",)} if w.settings["no_header"] else set())
    for k, s, v in outs:
        if k == RET and w.names and set(s.facts.get("format", ())) != want:
            cl.viol.append(("%s: the delimiter or the header of the file is not that of the settings" % name, f, 0))


def csv(prog, rep):
    rep.rule("csv", "the rows of a CSV file become one track per identifier, with the points of its rows in order of time and of the file, "
             "or one track per line in WKT, each handed on once, if it is selected")
    rid, c, m = ctor(prog, "map_matching_2::io::track::csv_track_importer")
    read = next((f for f in prog.q("map_matching_2::io::csv_importer::read") if f.has_body), None)
    if not c or not read:
        return
    for name, w, want in csv_worlds():
        w.rid = rid
        cl = Import(prog, w)
        eng = TrackEngine(prog, cl)
        st = St()
        strings(st, ("names",), w.names)
        strings(st, ("selectors",), w.selectors)
        for k, v in w.settings.items():
            if isinstance(v, list):
                strings(st, ("settings", k), v)
            else:
                st.env[("val", ("settings", k))] = ("c", v)
        args = [("loc", (x,)) for x in ("names", "selectors", "settings", "forwarder", "srs_transform", "reprojector")]
        outs = []
        for k, s, v in eng.run(c, args=args, st=st):
            if k == RET:
                outs += eng.run(m.get("read") or read, st=s)
        rep.instance("csv", name)
        judge(rep, "csv", cl, outs, name, want, m["process_row"])
        formats(cl, outs, w, name, m["configure_format"])
        report(rep, "csv", cl, name)
    rep.floor("csv", 20)


def gpx_worlds():
    """[(name, files, settings, expected)]: a file is [(track name, [segment [(point, time)]])], metadata name"""
    def trk(name, *segs):
        return (name, segs)
    A, B = trk("A", [("a", ""), ("b", "")]), trk("B", [("c", "")], [("d", ""), ("e", "")])
    res = []

    def world(name, files, want, selectors=(), names=None, times=None, **settings):
        s = {"no_id": False, "no_parse_time": False, "time_format": "%F"}
        s.update(settings)
        res.append((name, files, names or list(files), s, selectors, times or {}, want))
    p = lambda *xs: ("line", tuple(("pt", ("num", x + ".lon"), ("num", x + ".lat")) for x in xs))
    world("tracks of a file", {"f": ("", [A, B])}, [("A", [p("a", "b")]), ("B", [p("c"), p("d", "e")])])
    world("selected tracks", {"f": ("", [A, B])}, [("B", [p("c"), p("d", "e")])], selectors=("B", "C"))
    world("two files, one broken, one missing", {"f": ("", [A]), "x": None, "g": ("", [B])}, [("A", [p("a", "b")]), ("B", [p("c"), p("d", "e")])], names=["f", "x", "missing", "g"])
    world("a broken file, then another", {"x": None, "g": ("", [B])}, [("B", [p("c"), p("d", "e")])])
    world("selected by number", {"f": ("", [A, B, trk("1", [("a", "")])])}, [("1", [p("c"), p("d", "e")])], selectors=("1", "A"), no_id=True)
    world("selected by the name of the file", {"f": ("M", [trk("", [("c", "")]), A])}, [("M", [p("c")])], selectors=("M",))
    world("no identifiers", {"f": ("", [A, B]), "g": ("", [A])}, [("0", [p("a", "b")]), ("1", [p("c"), p("d", "e")]), ("2", [p("a", "b")])], no_id=True)
    world("tracks without a name", {"f": ("", [trk("", [("a", "")]), trk("", [("b", "")])]), "g": ("M", [trk("", [("c", "")]), trk("N", [("d", "")])])},
          [("0", [p("a")]), ("1", [p("b")]), ("M", [p("c")]), ("N", [p("d")])])
    world("times out of order", {"f": ("", [trk("A", [("a", "t3"), ("b", "t1"), ("c", "t2")])])}, [("A", [p("b", "c", "a")])], times={"t1": 1, "t2": 2, "t3": 3})
    world("points at the same time", {"f": ("", [trk("A", [("a", "t1"), ("b", "t1"), ("c", "t0"), ("d", "t1")])])}, [("A", [p("c", "a", "b", "d")])], times={"t1": 1, "t0": 0})
    world("numbers as times", {"f": ("", [trk("A", [("a", "30"), ("b", "4")])])}, [("A", [p("b", "a")])], no_parse_time=True)
    world("times that are not numbers", {"f": ("", [trk("A", [("a", "x"), ("b", "y"), ("c", "z")])])}, [("A", [p("a", "b", "c")])], no_parse_time=True)
    world("gaps in the lists", {"f": ("", [None, trk("A", None, [("a", ""), None, ("b", "")]), None])}, [("A", [p("a", "b")])])
    world("an empty track", {"f": ("", [trk("A"), trk("B", [])])}, [("A", []), ("B", [p()])])
    world("an empty file", {"f": ("", [])}, [])
    return res


def gpx(prog, rep):
    rep.rule("gpx", "a track of a GPX file arrives once, with a line per segment and the points of the segment in order of time and of the file, if it is selected")
    rid, c, m = ctor(prog, "map_matching_2::io::track::gpx_track_importer")
    if not c or "read" not in m:
        return
    for name, files, names, settings, selectors, times, want in gpx_worlds():
        w = World(settings=settings, times=times, names=names)
        st = St()

        def elements(C, xs, tag):
            q = []
            for i, x in enumerate(xs):
                e, o = "%s:%s%d" % (C[-1], tag, i), "%s.%s%d" % (".".join(C[:-1]), tag, i)
                q.append(e)
                st.env[("val", (e,))] = ("ptr", (o,)) if x is not None else ("c", None)
                if x is None:
                    continue
                if tag == "trk":
                    st.env[("val", (o, "name"))] = ("c", x[0])
                    elements((o, "trksegs"), x[1], "seg")
                elif tag == "seg":
                    elements((o, "trkpts"), x, "pt")
                else:
                    st.env[("val", (o, "time"))] = ("c", x[1])
                    st.env[("val", (o, "lon"))] = ("c", x[0] + ".lon")
                    st.env[("val", (o, "lat"))] = ("c", x[0] + ".lat")
            # names of elements are unique
            q2 = []
            for e in q:
                u = "%s|%s" % (C[0], e)
                st.env[("val", (u,))] = st.env.pop(("val", (e,)))
                q2.append(u)
            st.facts[("seq", C)] = tuple(q2)
        for f, root in files.items():
            w.files[f] = "gpx " + f if root is not None else "broken"
            if root is not None:
                st.env[("val", ("gpx " + f, "metadata", "name"))] = ("c", root[0])
                elements(("gpx " + f, "trks"), root[1], "trk")
        w.rid = rid
        cl = Import(prog, w)
        eng = TrackEngine(prog, cl)
        strings(st, ("names",), w.names)
        strings(st, ("selectors",), selectors)
        args = [("loc", ("names",)), ("loc", ("selectors",)), ("c", settings["no_id"]), ("c", settings["time_format"]), ("c", settings["no_parse_time"])] + \
            [("loc", (x,)) for x in ("forwarder", "srs_transform", "reprojector")]
        outs = []
        for k, s, v in eng.run(c, args=args, st=st):
            if k == RET:
                outs += eng.run(m["read"], st=s)
        rep.instance("gpx", name)
        judge(rep, "gpx", cl, outs, "gpx: " + name, want, m["read"])
        report(rep, "gpx", cl, name)
    rep.floor("gpx", 8)


def input_worlds():
    w = lambda x: ("wkt", ("c", x))
    return [
        ("lines of points", ["point(1), POINT(2)", "POINT(3)", "POINT(4);POINT(5)|POINT(6)"], [("0", [w("POINT(1)"), w("POINT(2)")]), ("1", [w("POINT(3)")]), ("2", [w("POINT(4)"), w("POINT(5)"), w("POINT(6)")])]),
        ("lines", ["LINESTRING(1)", " MultiLineString(2) ", "linestring(3)"], [("0", "LINESTRING(1)"), ("1", "MULTILINESTRING(2)"), ("2", "LINESTRING(3)")]),
        ("broken lines", ["LINESTRING(1)", "POINT(BROKEN)", "LINESTRING(BROKEN)", "MULTILINESTRING(BROKEN)", "POLYGON(1)", "LINESTRING(2)"], [("0", "LINESTRING(1)"), ("5", "LINESTRING(2)")]),
        ("an empty line", ["LINESTRING(1)", "  ", "LINESTRING(2)"], [("0", "LINESTRING(1)")]),
        ("nothing", [], []),
    ]


def lines(prog, rep):
    rep.rule("lines", "every line of the standard input becomes the next track; one that cannot be read is left out, and those after it are read")
    rid, c, m = ctor(prog, "map_matching_2::io::track::input_importer")
    if not c or "read" not in m:
        return
    for name, text_lines, want in input_worlds():
        w = World(lines={"<stdin>": text_lines})
        w.rid = rid
        cl = Import(prog, w)
        eng = TrackEngine(prog, cl)
        outs = []
        for k, s, v in eng.run(c, args=[("loc", (x,)) for x in ("forwarder", "srs_transform", "reprojector")], st=St()):
            if k == RET:
                outs += eng.run(m["read"], st=s)
        rep.instance("lines", name)
        judge(rep, "lines", cl, outs, "input: " + name, want, m["read"])
        report(rep, "lines", cl, name)
    rep.floor("lines", 4)


SEATTLE = ["head", "1\tx\ty\t1\tz\tz\tLINESTRING(a b c) ", "2\tx\ty\t0\tz\tz\tLINESTRING(c d)", "7\tx\ty\t1\tz\tz\tLINESTRING(f e d)"]


def seattle(prog, rep):
    rep.rule("ground truth", "the route of the Seattle data is the lines of its edges in the order and the direction they are travelled in, with each point once")
    rid, c, m = ctor(prog, "map_matching_2::io::track::seattle_ground_truth_importer")
    if not c or "read" not in m:
        return
    tr = lambda text: [("0", [("c", x) for x in text])]
    for name, names, route, want in [
            ("forward", ["net", "route"], ["head", "1\t1", "2\t1"], tr("abcd")), ("backward", ["net", "route"], ["head", "1\t1", "2\t1", "7\t0"], tr("abcdef")),
            ("backward first", ["net", "route"], ["head", "7\t0", "7\t1"], tr("defed")), ("no edges", ["net", "route"], ["head"], tr("")),
            ("against a oneway", ["net", "route"], ["head", "2\t0"], None), ("an edge that does not exist", ["net", "route"], ["head", "1\t1", "9\t1"], None),
            ("a missing network", ["none", "route"], ["head"], []), ("a missing route", ["net", "none"], ["head"], []), ("one file", ["net"], ["head"], None)]:
        w = World(files={"net": 1, "route": 1}, lines={"net": SEATTLE, "route": route}, names=names)
        w.rid, w.letters = rid, True
        st = St()
        strings(st, ("names",), names)
        cl = Import(prog, w)
        eng = TrackEngine(prog, cl)
        outs = []
        for k, s, v in eng.run(c, args=[("loc", (x,)) for x in ("names", "forwarder", "srs_transform", "reprojector")], st=st):
            if k == RET:
                outs += eng.run(m["read"], st=s)
        rep.instance("ground truth", name)
        judge(rep, "ground truth", cl, outs, "ground truth, " + name, want, m["read"])
        report(rep, "ground truth", cl, name)
    rep.floor("ground truth", 6)


# edge -> (identifier, first point, last point)
NET = {"edge 1": (1, "a", "b"), "edge 1 back": (1, "b", "a"), "edge 2": (2, "b", "c"), "edge 3 back": (3, "d", "c"), "edge 3": (3, "c", "d"), "edge 8": (8, "x", "y")}


def edges(prog, rep):
    rep.rule("edges", "a list of edges becomes a track of the lines of those edges, in the order of the list and in the directions that connect; "
             "a list with an edge that the network does not have, an empty one and a missing one are left out, and those after them are read")
    rid, c, m = ctor(prog, "map_matching_2::io::track::edges_list_importer")
    if not c or "read" not in m:
        return
    E = lambda *xs: ("line", tuple(("edge line", "edge " + x) for x in xs))
    def tr(*ts):
        return [(str(i), list(E(*xs)[1])) for i, xs in ts]
    for name, files, names, delimiter, columns, skip, want in [
            ("forward", {"f": ["1", "2", "3"]}, "f", "", [], 0, tr((0, ("1", "2", "3")))),
            ("the direction that connects", {"f": ["2", "3"]}, "f", "", [], 0, tr((0, ("2", "3")))),
            ("a repeated edge", {"f": ["1", "1", "2"]}, "f", "", [], 0, tr((0, ("1", "2")))),
            ("a gap", {"f": ["1", "2", "8", "2", "3"]}, "f", "", [], 0, tr((0, ("1", "2", "8", "2", "3")))),
            ("an edge that is not in the network", {"f": ["1", "9", "2"], "g": ["2"]}, "fg", "", [], 0, tr((1, ("2",)))),
            ("columns", {"f": ["x,1,2", "y,2,3"]}, "f", ",", ["1", "2"], 0, tr((0, ("1", "2", "3")))),
            ("no column number", {"f": ["1,x", "2,x"]}, "f", ",", ["id"], 0, tr((0, ("1", "2")))),
            ("lines at the head", {"f": ["x", "x", "1"], "g": ["x", "x", "2", "3"]}, "fg", "", [], 2, tr((0, ("1",)), (1, ("2", "3")))),
            ("an empty file, a missing one", {"f": [], "g": ["1"]}, "fmg", "", [], 0, tr((2, ("1",))))]:
        w = World(files={f: 1 for f in files}, lines=files, names=list(names))
        w.rid, w.edges = rid, NET
        st = St()
        strings(st, ("names",), w.names)
        strings(st, ("columns",), columns)
        st.facts[("seq", ("edges",))] = tuple(NET)
        for e, (i, a, b) in NET.items():
            st.env[("val", (e, "id"))] = ("c", i)
        cl = Import(prog, w)
        eng = TrackEngine(prog, cl)
        outs = []
        args = [("loc", (x,)) for x in ("names", "forwarder", "srs_transform", "reprojector", "graph")] + [("c", delimiter), ("loc", ("columns",)), ("c", skip)]
        for k, s, v in eng.run(c, args=args, st=st):
            if k == RET:
                outs += eng.run(m["read"], st=s)
        rep.instance("edges", name)
        judge(rep, "edges", cl, outs, "edges, " + name, want, m["read"])
        report(rep, "edges", cl, name)
    rep.floor("edges", 6)


def run(prog, rep):
    seattle(prog, rep)
    edges(prog, rep)
    csv(prog, rep)
    gpx(prog, rep)
    lines(prog, rep)

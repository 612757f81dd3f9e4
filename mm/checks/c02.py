"""C02: opening an existing memory-mapped store always compares the recorded compiler and program version."""
from ..flow import Engine, Client, NEXT, RET, THROW
from .. import ir

TUS = ["verif:storages.cpp"]
SYS = {"get_compiler_info": "compiler", "version": "version"}
WRAP = ("basic_string", "basic_string_view", "cbegin", "cend", "begin", "end", "data", "c_str", "size", "length",
        "allocator", "string", "operator basic_string_view", "get_segment_manager", "operator basic_string_view", "operator std::basic_string_view<char>")
FRESH = ("create_only_t",)
MAYBE = ("open_or_create_t",)
OPEN = ("open_only_t", "open_read_only_t", "open_copy_on_write_t", "open_read_private_t")


def managed(rec):
    return (rec or "").startswith("boost::interprocess::basic_managed_")


def leaves(v, out=None):
    """the values a (possibly converted) text consists of; None inside means something else than a plain conversion"""
    out = set() if out is None else out
    if not isinstance(v, tuple) or not v:
        return out
    k = v[0]
    if k == "term":
        if v[1].startswith("@"):
            out.add(v)
            return out
        if v[1] not in WRAP and not v[1].startswith("operator "):
            out.add(None)
            return out
        for x in v[3]:
            leaves(x, out)
        if (v[1] in ("begin", "cbegin", "end", "cend", "data", "c_str", "size", "length") or v[1].startswith("operator ")) and v[2]:
            leaves(v[2], out)
    elif k in ("in", "loc", "ptr"):
        out.add(("at",) + tuple(v[1]))
    else:
        out.add(None)
    return out


class Cl(Client):
    max_depth = 12

    def __init__(self, prog, rec_fields):
        self.prog, self.fields = prog, rec_fields
        self.bad = {}
        self.ids = {}
        self.constructs = []

    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("library/")

    def on_call(self, eng, st, fr, node, c, obj, args):
        n, rec = c["n"], c.get("rec", "")
        if c["q"].startswith("map_matching_2::util::") and n in SYS:
            return [(NEXT, st, ("term", "@" + SYS[n], None, ()))]
        if c.get("ctor") == "other" and managed(rec) and len(args) >= 2:
            mode = tagname(node)
            st = st.copy()
            for k in [k for k in st.facts if k in ("found", "okc", "okv", "wc", "wv", "cons")]:
                st.facts.pop(k)
            st.facts["cons"] = mode
            return None if not self.note(mode, node) else [(NEXT, st, obj)]
        if n == "find" and obj is not None and rec.startswith("boost::interprocess::"):
            self.ids.setdefault(ident(args), set()).add("find")
        if n in ("construct", "find_or_construct") and rec.startswith("boost::interprocess::"):
            self.ids.setdefault(ident(args), set()).add("construct")
        if n == "operator()" and obj and obj[0] == "term" and obj[1] in ("construct", "find_or_construct"):
            roles = [role(a, eng, st) for a in args]
            if any(roles):
                t = self.target(node, c)
                st = st.copy()
                self.wrote(st, [(f, next((r for i, r in enumerate(roles) if self.fields.get((t, i)) == f), None))
                                for f in sorted(self.fields["role"])], node, fr)
                st.facts["found"] = True
                return [(NEXT, st, ("term", "record", None, ()))]
        if obj and obj[0] == "loc" and len(obj[1]) > 1 and obj[1][-1] in self.fields["names"] and \
                n in ("assign", "operator=", "append", "operator+=", "push_back", "insert", "swap"):
            rs = {role(a, eng, st) for a in args} - {None}
            st = st.copy()
            self.wrote(st, [(obj[1][-1], next(iter(rs)) if len(rs) == 1 and n in ("assign", "operator=") else None)], node, fr)
            return [(NEXT, st, obj)]
        return None

    def note(self, mode, node):
        return mode is not None

    def target(self, node, c):
        return self.fields["rec"]

    def wrote(self, st, pairs, node, fr):
        mode = st.facts.get("cons")
        where = "%s:%s" % (fr.fn.file if fr.fn else "?", node.get("l", "?") if isinstance(node, dict) else "?")
        for f, r in pairs:
            if f in self.fields["role"] and self.fields["role"][f] != r:
                self.bad.setdefault("record:%s" % f, ("the record's %s is not written from the running program's own %s" % (f, self.fields["role"][f]), where))
            if f not in self.fields["role"]:
                continue
            st.facts["wc" if self.fields["role"][f] == "compiler" else "wv"] = True
        if mode is not None:
            name = fr_name(fr)
            if mode in OPEN:
                self.bad.setdefault("overwrite:%s:%s" % (mode, name), ("the record of a store opened with %s is written instead of compared" % mode, where))
            elif mode in MAYBE and st.facts.get("found") is not False and not (st.facts.get("wc") and st.facts.get("fresh")):
                self.bad.setdefault("overwrite:%s:%s" % (mode, name), ("the record of a store that may already exist is overwritten", where))
            if mode in MAYBE and st.facts.get("found") is False or mode in FRESH:
                st.facts["fresh"] = True

    def on_cond(self, eng, st, fr, val, truth, node):
        v, t = val, truth
        if not v:
            return st
        if v[0] == "op" and len(v) == 4 and v[1] in ("==", "!=") and v[3] in (("c", 0), ("c", None), ("null",)):
            inner = v[2]
            if inner[0] == "term" and inner[1] == "compare":
                return self.compare(st, (inner[2],) + tuple(inner[3]), t == (v[1] == "=="))
            v, t = inner, t == (v[1] == "!=")
        if isfind(v):
            if st.facts.get("found") is not None and st.facts["found"] != t:
                return None
            st.facts["found"] = t
            return st
        if v[0] == "term" and v[1] == "record":
            return st if t else None
        if v[0] == "term" and v[1] in ("operator==", "equal", "equals"):
            return self.compare(st, ((v[2],) if v[2] and v[1] != "equal" else ()) + tuple(v[3]), t)
        if v[0] == "op" and v[1] in ("==", "!=") and len(v) == 4:
            return self.compare(st, (v[2], v[3]), t == (v[1] == "=="))
        return st

    def compare(self, st, vals, same):
        ls = set()
        for x in vals:
            leaves(x, ls)
        if None in ls:
            return st
        sysv = {x[1][1:] for x in ls if x[0] == "term"}
        rec = {self.fields["role"].get(x[-1]) for x in ls if x[0] == "at"} - {None}
        if len(sysv) == 1 and rec == sysv and same:
            st.facts["okc" if "compiler" in sysv else "okv"] = True
        return st


def fr_name(fr):
    return fr.fn.n if fr.fn else "?"


def isfind(v):
    if v[0] == "fld" and len(v) >= 3 and v[2] == "first":
        v = v[1]
        return v[0] == "term" and v[1] == "find"
    return v[0] == "term" and v[1] == "@found"


def ident(args):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if x and x[0] in ("in", "loc") and isinstance(x[1], tuple):
                if str(x[1][0]).startswith("g:"):
                    out.append(x[1][0].rsplit("::", 1)[-1])
                return
            if x and x[0] == "c" and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                rec(y)
    rec(tuple(args))
    return "/".join(out) or "?"


def role(a, eng, st):
    if a and a[0] == "loc":
        a = eng.rv(st, a)
    ls = leaves(a)
    if None in ls:
        return None
    r = {x[1][1:] for x in ls if x[0] == "term"}
    return next(iter(r)) if len(r) == 1 and len(ls) == 1 else None


def tagname(node):
    """the open mode (tag type of the first constructor argument)"""
    a = (node.get("a") or [None])[0] if isinstance(node, dict) else None
    t = (a or {}).get("t") or {}
    n = (t.get("n") or t.get("s") or "").replace("const ", "").strip(" &")
    return n.rsplit("::", 1)[-1] if n.endswith("_t") else None


def opens(f):
    """constructor calls that map a store"""
    out = []
    for c in ir.calls(f.body):
        cc = c.get("c") or {}
        if cc.get("ctor") == "other" and managed(cc.get("rec")) and len(c.get("a") or []) >= 2:
            out.append(c)
    return out


class Init(Client):
    """which field of the record each constructor argument / assign argument ends up in"""

    def __init__(self):
        self.m = {}

    def on_call(self, eng, st, fr, node, c, obj, args):
        if obj and obj[0] == "loc" and len(obj[1]) == 2 and obj[1][0] == "this":
            ps = set()
            ok = True
            for a in args:
                a = eng.rv(st, a) if a and a[0] == "loc" else a
                for x in leaves(a):
                    if x is None:
                        ok = False
                    elif x[0] == "at":
                        ps.add(x[1:])
            if c.get("ctor") or c["n"] in ("assign", "operator="):
                self.m[obj[1][1]] = ps if ok else set()
        return None


def run(prog, rep):
    rep.rule("gate", "on every normal way out of a function that maps a store, a record is present and both the compiler and the "
                     "version recorded were compared equal with the running program's (or were just written into a new store)")
    rep.rule("record", "a new store's record is written from the running program's compiler and version, each into its own field, "
                       "under the name it is looked for; an existing record is never overwritten")
    rid = ctor = None
    for r in prog.recs.values():
        low = [x["n"].lower() for x in r.fields]
        if r.file.startswith("library/include/io/") and any("compiler" in x for x in low) and any("version" in x for x in low):
            for f in sorted(prog.fns.values(), key=lambda f: (f.loc, f.id)):
                if f.r == r.id and f.has_body and "inits" in f.j and len(f["ps"]) >= 2:
                    rid, ctor = r.id, f
                    break
    if rid is None:
        raise_broken("no record type with compiler and version found")
    names = {x["n"] for x in prog.recs[rid].fields}
    fields = {"rec": rid, "names": names, "role": {}}
    ini = Init()
    Engine(prog, ini).run(ctor)
    texts = {}
    for p in ctor["ps"]:
        t = p.get("t") or {}
        if "string" in (t.get("n") or "") + (t.get("f") or "") + (t.get("s") or "") or t.get("k") == "p":
            texts["p:" + p["n"]] = texts["v:%s#%d.1" % (p["n"], p["d"])] = p["n"]
    for i, p in enumerate(ctor["ps"]):
        for fn_, ps in ini.m.items():
            if {texts[x[0]] for x in ps if x[0] in texts} == {p["n"]}:
                fields[(rid, i)] = fn_
    # names decide which field is which: the field's own name
    for n in names:
        for r in ("compiler", "version"):
            if r in n.lower():
                fields["role"][n] = r
    if set(fields["role"].values()) != {"compiler", "version"}:
        raise_broken("record fields for compiler and version not found")
    for (t, i), n in [x for x in fields.items() if isinstance(x[0], tuple)]:
        rep.instance("record", "constructor argument %d of %s is stored in %s" % (i, prog.recs[rid].q.rsplit("::", 1)[-1], n), ctor.loc)

    direct = {}
    for f in prog.fns.values():
        if f.has_body and f.file.startswith(("library/", "app/")):
            o = opens(f)
            if o:
                direct[f.id, f.loc, f.r] = f
    work, seen = list(direct.values()), set()
    ids = {}
    total = 0
    callers = caller_index(prog)
    while work:
        f = work.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        cl = Cl(prog, fields)
        eng = Engine(prog, cl)
        outs = eng.run(f)
        for i, u in cl.ids.items():
            ids.setdefault(i, set()).update(u)
        name = "%s::%s" % (cls(prog, f), f.n)
        modes = set()
        bad = dict(cl.bad)
        for k, s, v in outs:
            m = s.facts.get("cons")
            if m:
                modes.add(m)
            if k == THROW or m is None:
                continue
            fresh = s.facts.get("fresh") and s.facts.get("wc") and s.facts.get("wv")
            for fact, what in (("okc", "compiler"), ("okv", "version")):
                if not (s.facts.get(fact) and s.facts.get("found")) and not fresh:
                    bad.setdefault("ungated:%s:%s" % (name, what), ("%s maps a store (%s) and returns without having compared its recorded %s" % (name, m, what), f.loc))
            if m not in FRESH + MAYBE + OPEN:
                bad.setdefault("mode:%s" % name, ("%s maps a store in the unknown mode %s" % (name, m), f.loc))
        ungated = [k for k in bad if k.startswith("ungated:")]
        up = callers.get((f.r, f.n), ())
        if ungated and up and f.j.get("acc") != "public":
            # a helper: whoever calls it has to do the comparison
            for k in ungated:
                bad.pop(k)
            work.extend(up)
        for k, (m, w) in sorted(bad.items()):
            rep.violation(k, m, w)
        for m in sorted(modes):
            rep.instance("gate", "%s: %s" % (name, m), f.loc)
        total += len(outs)
        for l in eng.inlined:
            rep.fn(l)
    both = [i for i, u in ids.items() if u == {"find", "construct"}]
    if ids and not both:
        rep.violation("identifier", "the record is created under another name than it is looked for: %s" % ", ".join(
            "%s (%s)" % (i, "/".join(sorted(u))) for i, u in sorted(ids.items())), ctor.loc)
    for i in both:
        rep.instance("record", "created and found under %s" % i)
    for i, u in sorted(ids.items()):
        if i not in both:
            rep.violation("identifier:%s" % i, "a record named %s is %s but never %s" % (i, "found" if "find" in u else "constructed", "constructed" if "find" in u else "found"), ctor.loc)
    rep.floor("gate", 3)
    rep.floor("record", 2)
    rep.note("%d ways out of %d functions judged" % (total, len(seen)))


def cls(prog, f):
    r = prog.recs.get(f.r)
    return r.q.rsplit("::", 1)[-1].split("<")[0] if r else "?"


def caller_index(prog):
    out = {}
    for f in prog.fns.values():
        if not f.has_body or not f.file.startswith(("library/", "app/")):
            continue
        for c in ir.calls(f.body):
            cc = c.get("c") or {}
            t = prog.callee_fn(cc) if cc else None
            if t is not None:
                out.setdefault((t.r, t.n), []).append(f)
    return out


def raise_broken(m):
    from ..extract import AnalysisError
    raise AnalysisError(m)

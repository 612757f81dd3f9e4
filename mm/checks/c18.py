"""C18: every option takes effect where its name says, and a given value is never silently replaced."""
import itertools
import re

from .. import ir
from ..flow import Engine, NEXT, RET, THROW, U, Limit
from ..optmodel import OptCl, Opt, closure, literals, path_of, paths_in, sim, swapped, tname, tokens, NS

TUS = ["app/src/app/options.cpp", "app/src/app/settings.cpp", "app/src/app/compare.cpp", "app/src/app/match_cli.cpp",
       "app/src/app/prepare.cpp", "app/src/app/match.cpp", "app/src/app/global.cpp", "app/src/app/network.cpp"]

DATA = ("p:data",)
MODES = {"prepare": "prepare_data", "match": "match_data", "compare": "compare_data", "any": "mode_data"}


def dotted(p):
    return ".".join(x for x in p[1:])


def app_fns(prog):
    return [f for f in prog.fns.values() if f.has_body and f.file.startswith("app/")]


class Model:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.lits = literals(prog)
        self.of = {}        # record name of the data parameter -> (fn, [Opt])
        self.locals = {}    # fn name -> [Opt] registered by this function itself
        self.recname = {}
        for f in app_fns(prog):
            if "options_description" not in (f["rt"] or {}).get("n", "") or not f["ps"]:
                continue
            t = f["ps"][0].get("t") or {}
            rec = tname(t).rsplit("::", 1)[-1]
            if not rec.endswith("_data"):
                continue
            cl = OptCl(self.lits)
            eng = Engine(prog, cl)
            args = [("loc", DATA)] + [("c", "") if "string" in tname(p.get("t")) else ("loc", ("p:" + p["n"],)) for p in f["ps"][1:]]
            outs = [o for o in eng.run(f, args=args) if o[0] == RET]
            tab, lost = {}, None
            for k, s, v in outs:
                v = eng.rv(s, v) if v and v[0] == "loc" else v
                if not v or v[0] != "desc":
                    continue
                os_, seen = closure(s, v[1])
                for o in os_:
                    tab[(o[0], o[1])] = Opt(*o)
                allopts = {(o[0], o[1]): o for kk, x in s.facts.items() if kk[0] == "opts" for o in x}
                gone = [o for key, o in allopts.items() if key not in {(x[0], x[1]) for x in os_}]
                if gone:
                    lost = gone
            rep.fn(f)
            if not tab:
                continue
            if lost:
                for o in lost:
                    rep.violation("lost-option:%s:%s" % (f.n, o[0]), "option %s is created in the course of %s but is missing in the options it returns: it cannot be given" % (o[0], f.short), f.loc)
            opts = list(tab.values())
            key = rec
            if key not in self.of or len(opts) > len(self.of[key][1]):
                self.of[key] = (f, opts)
            self.locals.setdefault(f.n, (f, opts))

    def opts(self, rec):
        return self.of.get(rec, (None, []))[1]


def check_registration(m, rep):
    rep.rule("register", "each option of a mode has its own name and fills its own member, the one its name speaks of")
    for mode, rec in MODES.items():
        opts = m.opts(rec)
        names, members, shorts = {}, {}, {}
        for o in opts:
            rep.instance("register", "%s --%s" % (mode, o.name))
            if o.name in names and names[o.name].path != o.path:
                rep.violation("dup-option:%s:%s" % (mode, o.name), "option --%s is registered twice in the %s mode (%s and %s)" % (o.name, mode, names[o.name], o), o.loc)
            names[o.name] = o
            if o.short:
                if o.short in shorts and shorts[o.short].name != o.name:
                    rep.violation("dup-short:%s:%s" % (mode, o.short), "option -%s stands for --%s and --%s" % (o.short, shorts[o.short].name, o.name), o.loc)
                shorts[o.short] = o
            if o.path:
                if o.path in members and members[o.path].name != o.name:
                    rep.violation("shared-member:%s:%s" % (mode, dotted(o.path)), "options --%s and --%s of the %s mode fill the same member %s" % (
                        members[o.path].name, o.name, mode, dotted(o.path)), o.loc)
                members[o.path] = o
        bound = [o for o in opts if o.path]
        # the most specific comparison: within the members of one structure
        groups = {}
        for o in bound:
            groups.setdefault((o.path[:-1], o.type), []).append(o)
        for (pre, t), os_ in groups.items():
            for i, j in swapped([(o.name, o.path[-1], t) for o in os_]):
                a, b = os_[i], os_[j]
                rep.violation("crossed:%s:%s:%s" % (mode, min(a.name, b.name), max(a.name, b.name)),
                              "--%s fills %s and --%s fills %s: their values are exchanged" % (a.name, dotted(a.path), b.name, dotted(b.path)), a.loc)
        # sub structures with a prefix of their own: the structure's name goes with it
        subs = {}
        for o in bound:
            subs.setdefault(o.path[:-1], []).append(o)
        byl = {}
        for pre, os_ in subs.items():
            byl.setdefault(frozenset(x.path[-1] for x in os_), []).append((pre, os_))
        for mem, l in byl.items():
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    (p1, o1), (p2, o2) = l[i], l[j]
                    n1, n2 = " ".join(o.name for o in o1), " ".join(o.name for o in o2)
                    if not p1[1:] or not p2[1:]:
                        continue
                    cur = sim(p1[-1], n1) + sim(p2[-1], n2)
                    alt = sim(p1[-1], n2) + sim(p2[-1], n1)
                    if alt > cur + 1e-9:
                        rep.violation("crossed-group:%s:%s:%s" % (mode, dotted(p1), dotted(p2)), "the options of %s fill %s and the other way round" % (dotted(p1), dotted(p2)), o1[0].loc)


# ------------------------------------------------------------------ correct()
class CorrectCl(OptCl):
    def __init__(self, lits, inline_correct=False):
        super().__init__(lits)
        self.called = []
        self.writes = []

    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("app/")

    def more(self, eng, st, fr, n, c, obj, args):
        if c["n"] == "correct" and (c.get("rec") or "").endswith("_data") and obj is not None and obj[0] in ("loc", "in", "fld"):
            p = path_of(obj)
            if p != eng.root_this:
                st.facts[("called",)] = st.facts.get(("called",), frozenset()) | {(p, c["id"])}
                return [(NEXT, st, U)]
        return None

    def on_write(self, eng, st, fr, path, value, node, op="="):
        if path[0] == "p:data" and op != "init":
            self.writes.append((path, self.canon(eng.rv(st, value)) if value else U, op, dict(st.facts), fr.fn, node["l"]))
            st.facts[("w", path)] = True


def method(prog, rec, name):
    """the definition of a virtual member that an object of exactly this class has"""
    for rid in order(prog, rec):
        for f in prog.by_rec.get(rid, []):
            if f.n == name and f.has_body:
                return f
    return None


def order(prog, rid):
    out, todo = [], [rid]
    while todo:
        r = todo.pop(0)
        if r in out or r not in prog.recs:
            continue
        out.append(r)
        todo += [b["r"] for b in prog.recs[r].bases if b.get("r")]
    return out


def all_fields(prog, rid):
    return [f for r in order(prog, rid) for f in prog.recs[r].fields]


def rec_of(prog, name):
    for r in prog.recs.values():
        if r.q.rsplit("::", 1)[-1] == name and r.file.startswith("app/"):
            return r
    return None


def field_rec(prog, f):
    t = f.get("t") or {}
    n = tname(t).rsplit("::", 1)[-1]
    return rec_of(prog, n) if n.endswith("_data") else None


def run_correct(m, f, path):
    cl = CorrectCl(m.lits)
    eng = Engine(m.prog, cl)
    eng.root_this = path
    outs = eng.run(f, this=("loc", path), args=[("loc", ("p:vm",))])
    return cl, eng, outs


def nontrivial(f):
    return f is not None and any(x.get("k") not in ("block",) for x in ir.walk(f.body))


def check_correct(m, rep):
    prog = m.prog
    rep.rule("correct-all", "the correction of a mode's data runs the correction of every part that has one, on every way through")
    rep.rule("lookup", "every option that a correction asks for exists in the mode it runs in")
    rep.rule("keep", "a correction replaces a value only if the user did not give it, or as the option's description announces")
    rep.rule("computed", "every member the program reads is filled by an option or by the correction")
    lookups = {}     # name -> modes where it is asked for
    computed = {}    # mode -> set of paths written
    for mode, recn in MODES.items():
        if mode == "any":
            pass
        rec = rec_of(prog, recn)
        opts = m.opts(recn)
        if rec is None or not opts:
            continue
        root = method(prog, rec.id, "correct")
        if root is None:
            continue
        bypath = {o.path: o for o in opts if o.path}
        byname = {o.name: o for o in opts}
        written = computed.setdefault(mode, set())

        def sub(rid, path):
            for fl in all_fields(prog, rid):
                fr = field_rec(prog, fl)
                if fr is not None:
                    yield fl, fr, path + (fl["n"],)

        def visit(f, rid, path, depth=0):
            if depth > 6:
                return
            rep.fn(f)
            cl, eng, outs = run_correct(m, f, path)
            fin = [o for o in outs if o[0] == RET]
            need = []
            for fl, fr, p in sub(rid, path):
                g = method(prog, fr.id, "correct")
                if g is None:
                    continue
                if nontrivial(g):
                    need.append((p, g, fr))
            for p, g, fr in need:
                rep.instance("correct-all", "%s: %s" % (mode, dotted(p)))
                missing = [s for k, s, v in fin if not any(x[0] == p for x in s.facts.get(("called",), ()))]
                if missing or not fin:
                    rep.violation("uncorrected:%s:%s" % (mode, dotted(p)), "%s does not run the correction of %s (%s): its checks and derived values are missing" % (
                        f.short, dotted(p), g.short), f.loc)
                    continue
                visit(g, fr.id, p, depth + 1)
            for kind, name, fn, line, c in cl.sinks:
                lookups.setdefault((name, fn.short, fn.file), set()).add((mode, kind if kind not in ("lookup",) else "", line))
            for p, v, op, facts, fn, line in cl.writes:
                written.add(p)
                o = bypath.get(p)
                if o is None:
                    continue
                rep.instance("keep", "%s %s" % (fn.short, dotted(p)))
                if allowed(o, p, v, facts, path, bypath):
                    continue
                rep.violation("overridden:%s:%s" % (fn.short, o.path[-1]), "%s replaces the value of --%s (by %s) even if the user gave one" % (fn.short, o.name, show(v)), "%s:%d" % (fn.file, line))
            announce(m, rep, mode, f, path, bypath, eng, fin)
            cascade(m, rep, mode, f, rid, path, bypath, eng, fin)

        visit(root, rec.id, DATA)
    for (name, fn, file), uses in sorted(lookups.items()):
        modes = {u[0] for u in uses}
        rep.instance("lookup", "%s: %s" % (fn, name))
        have = {mo for mo in modes if name in {o.name for o in m.opts(MODES[mo])}}
        line = min(u[2] for u in uses)
        if not have:
            rep.violation("unknown-option:%s:%s" % (fn, name), "%s asks for the option %s, which no mode it runs in has: it always looks like not given" % (fn, name), "%s:%d" % (file, line))
        else:
            for mo in modes - have:
                if any(u[1] in ("defaulted", "as") and u[0] == mo for u in uses) and not any(u[1] == "empty" and u[0] == mo for u in uses):
                    rep.violation("unknown-option:%s:%s:%s" % (fn, name, mo), "%s uses the option %s, which the %s mode does not have" % (fn, name, mo), "%s:%d" % (file, line))
    return computed


def show(v, d=0):
    if not isinstance(v, tuple) or not v or d > 4:
        return str(v)[:40]
    if v[0] == "c":
        return str(v[1])
    p = path_of(v)
    if p:
        return dotted(p) if p[0] == "p:data" else ".".join(p)
    if v[0] == "op":
        return "%s %s %s" % (show(v[2], d + 1), v[1], show(v[3], d + 1))
    if v[0] == "un":
        return "%s%s" % (v[1], show(v[2], d + 1))
    if v[0] == "eq":
        return "%s == %s" % (show(v[1], d + 1), v[2])
    if v[0] == "term":
        return "%s(...)" % v[1]
    return v[0]


def truth(facts, v):
    return facts.get(("cond", v))


def given(facts, o):
    """True/False/None: whether the path knows the user gave the option"""
    d = facts.get(("cond", ("vmq", o.name, "defaulted")))
    if d is not None:
        return not d
    e = facts.get(("cond", ("vmq", o.name, "empty")))
    if e is True:
        return False
    e = facts.get(("cond", ("vmq", o.name, "count")))
    if e is False:
        return False
    e = facts.get(("cond", ("empty", ("in", o.path))))
    if e is True:
        return False
    return None


def cmp_truth(facts, a, b):
    """what the path knows about a > b (True: a > b, False: a <= b)"""
    for op, x, y, neg in ((">", a, b, False), ("<", b, a, False), ("<=", a, b, True), (">=", b, a, True)):
        t = facts.get(("cond", ("op", op, ("in", x), ("in", y))))
        if t is not None:
            return t != neg
    return None


def mem(path, name):
    return path + (name,)


def allowed(o, p, v, facts, path, bypath):
    g = given(facts, o)
    if g is False:
        return True
    if p in paths_in(v) and not any(q in bypath and q != p for q in paths_in(v)):
        return True                       # normalises its own value
    name = p[-1]
    if name == "verbose":
        return v == ("c", False) and truth(facts, ("in", path + ("quiet",))) is True
    if name in ("radius_upper_limit", "radius_lower_limit"):
        r = path + ("radius",)
        if paths_in(v) <= {p, r}:
            if v == ("in", r):
                t = cmp_truth(facts, r, p) if name == "radius_upper_limit" else cmp_truth(facts, p, r)
                return t is True
            return isinstance(v, tuple) and v[0] == "term" and v[1] in ("max", "min", "clamp")
    if name == "k_nearest":
        return v == ("c", 1) and truth(facts, ("eq", ("in", path + ("candidate_search",)), "next")) is True
    return False


def final(eng, st, p):
    v = st.env.get(("val", p))
    if v is None:
        return ("in", p)
    return v


def announce(m, rep, mode, f, path, bypath, eng, fin):
    """overrides that the option descriptions promise"""
    names = {p[-1]: p for p in bypath if p[:-1] == path}
    key = lambda s: "%s:%s" % (f.short, s)
    if "quiet" in names and "verbose" in names and path[-1:] == ("all",):
        rep.instance("keep", key("quiet overrides verbose"))
        for k, s, v in fin:
            val = final(eng, s, names["verbose"])
            if truth(s.facts, ("in", names["quiet"])) is not False and val != ("c", False):
                if not quiet_term(val, names):
                    rep.violation(key("quiet"), "%s leaves verbose on although quiet, which overrides it, may be given" % f.short, f.loc)
                    break
    if {"radius", "radius_upper_limit", "radius_lower_limit"} <= set(names):
        r, up, lo = names["radius"], names["radius_upper_limit"], names["radius_lower_limit"]
        for lim, a, b, what in ((up, r, up, "upper"), (lo, lo, r, "lower")):
            rep.instance("keep", key("radius within its %s limit" % what))
            for k, s, v in fin:
                val = final(eng, s, lim)
                t = cmp_truth(s.facts, a, b)
                ok = val == ("in", r) or (t is False and val == ("in", lim)) or (isinstance(val, tuple) and val[0] == "term" and val[1] in ("max", "min") and paths_in(val) == {lim, r} and (val[1] == "max") == (what == "upper"))
                if not ok:
                    rep.violation(key("radius-" + what), "after %s the radius may lie outside its %s limit" % (f.short, what), f.loc)
                    break
    if "k_nearest" in names and "candidate_search" in names:
        rep.instance("keep", key("next uses one candidate"))
        for k, s, v in fin:
            if truth(s.facts, ("eq", ("in", names["candidate_search"]), "next")) is True and final(eng, s, names["k_nearest"]) != ("c", 1):
                rep.violation(key("next"), "%s: candidate search \"next\" does not limit the candidates to the nearest edge" % f.short, f.loc)
                break
    ad = [n for n in names if n.startswith("candidate_adoption")]
    if ad and "within_edge_turns" in names:
        rep.instance("keep", key("within-edge-turns without adoption"))
        o = bypath[names["within_edge_turns"]]
        for k, s, v in fin:
            off = all(truth(s.facts, ("in", names[a])) is False for a in ad)
            val = final(eng, s, names["within_edge_turns"])
            if off and given(s.facts, o) is False and val != ("c", True):
                rep.violation(key("within-edge-turns"), "%s: with all candidate adoption off, within-edge turns are announced to be on by default, but are not" % f.short, f.loc)
                break
            if not off and val != ("in", names["within_edge_turns"]):
                rep.violation(key("within-edge-turns-on"), "%s switches within-edge turns on although candidate adoption is in use" % f.short, f.loc)
                break


def quiet_term(val, names):
    return isinstance(val, tuple) and val[0] == "op" and val[1] in ("&&", "&") and ("un", "!", ("in", names["quiet"])) in val


def cascade(m, rep, mode, f, rid, path, bypath, eng, fin):
    """memory mapping switches: own option, else the group's, else the general one, else the default"""
    mm = {p[-1]: o for p, o in bypath.items() if p[:-1] == path and p[-1].startswith("mmap_")}
    gen = bypath.get(path + ("memory_mapping",))
    if not mm or gen is None:
        return
    prog = m.prog
    prep = mm.get("mmap_preparation")
    own = {fl["n"] for fl in prog.recs[rid].fields} if prep is not None else set()
    for n, o in sorted(mm.items()):
        rep.instance("keep", "%s %s: %s" % (f.short, mode, o.name))
        chain = [o]
        if n in own and n != "mmap_preparation":
            chain.append(prep)
        chain.append(gen)
        for k, s, v in fin:
            val = final(eng, s, o.path)
            known = [(c, given(s.facts, c)) for c in chain]
            free = [c for c, g in known if g is None]
            for bits in itertools.product((True, False), repeat=len(free)):
                g = {c.name: x for c, x in known}
                g.update({c.name: x for c, x in zip(free, bits)})
                exact = next((c.path for c in chain if g[c.name]), o.path)
                if val != ("in", exact):
                    rep.violation("cascade:%s:%s" % (f.short, n), "%s: with %s, %s becomes %s instead of %s" % (
                        f.short, ", ".join("--%s %s" % (c.name, "given" if g[c.name] else "not given") for c in chain), n, show(val), dotted(exact)), f.loc)
                    break
            else:
                continue
            break



# ------------------------------------------------------------------ settings
ENUM_RE = re.compile(r"[^A-Za-z0-9]+")


def opt_tables(m, t):
    """options that a value of this data type can carry (paths relative to p:data)"""
    rec = tname(t).rsplit("::", 1)[-1]
    return m.opts(rec)


def enumerators(prog, f):
    out = {}
    for n in ir.walk(f.body):
        if n.get("k") == "enum":
            out[n.get("v")] = n.get("n") or n.get("q")
    return out


def check_settings(m, rep):
    """the functions that hand option values over to the library"""
    prog = m.prog
    rep.rule("handed", "every setting receives, unchanged, the value of the option that it is named after")
    rep.rule("choice", "each accepted value of a choice option selects the alternative of that name")
    consumed = {}
    for f in sorted(app_fns(prog), key=lambda f: f.loc):
        rt = (f["rt"] or {})
        if not f["ps"] or not tname(rt).endswith("settings") or "&" in rt.get("f", ""):
            continue
        opts = opt_tables(m, f["ps"][0].get("t"))
        if not opts:
            continue
        rep.fn(f)
        bypath = {o.path: o for o in opts if o.path}
        cl = OptCl(m.lits)
        eng = Engine(prog, cl)
        outs = [o for o in eng.run(f, args=[("loc", DATA)]) if o[0] == RET]
        srec = next((r for r in prog.recs.values() if r.id == rt.get("r") or r.q == tname(rt)), None)
        if srec is None or not outs:
            continue
        enums = {}
        for e in enum_nodes(prog):
            enums.setdefault(e[0], {})[e[1]] = e[2]
        pairs, seen = [], {}
        for k, s, v in outs:
            root = v[1] if v and v[0] == "loc" else None
            if v and v[0] == "in":
                root = v[1]
            if root is None:
                continue
            for fl in srec.fields:
                val = s.env.get(("val", root + (fl["n"],)))
                if val is None:
                    continue
                seen.setdefault(fl["n"], []).append((val, s))
        for name, vals in sorted(seen.items()):
            vs = {v for v, s in vals}
            conds = {kk[1] for v, s in vals for kk in s.facts if kk[0] == "cond" and kk[1][0] == "eq"}
            best = sorted(((sim(name, o.name), o) for o in opts if o.path), key=lambda x: -x[0])
            if all(path_of(v) is not None for v in vs):
                if len(vs) == 1:
                    p = path_of(next(iter(vs)))
                    pairs.append((name, p, fld_type(srec, name)))
                    rep.instance("handed", "%s: %s <- %s" % (f.short, name, dotted(p)))
                else:
                    rep.violation("unsteady:%s:%s" % (f.short, name), "%s sets %s from different options on different paths (%s)" % (f.short, name, ", ".join(sorted(dotted(path_of(v)) for v in vs))), f.loc)
                continue
            if all(v[0] == "c" for v in vs) and conds and is_enum(srec, name):
                choice(m, rep, f, srec, name, vals, bypath)
                continue
            if all(v[0] == "c" for v in vs):
                exact = [o for o in opts if o.path and tokens(o.path[-1]) == tokens(name)]
                if exact:
                    rep.violation("constant:%s:%s" % (f.short, name), "%s sets %s to a constant although --%s exists" % (f.short, name, exact[0].name), f.loc)
                continue
            for v in vs:
                q = sorted(p for p in paths_in(v) if p in bypath)
                if q and not isinstance(v[0], tuple):
                    o = bypath[q[0]]
                    rep.violation("altered:%s:%s" % (f.short, name), "%s does not hand the value of --%s over as it is (%s)" % (f.short, o.name, show(v)), f.loc)
        names = {p: (bypath[p].name if p in bypath else " ".join(p[1:])) for _, p, _ in pairs}
        tri = [(n, names[p] if p in bypath else dotted(p), t) for n, p, t in pairs]
        used = {p for _, p, _ in pairs}
        for i, j in swapped(tri):
            rep.violation("exchanged:%s:%s:%s" % (f.short, min(tri[i][0], tri[j][0]), max(tri[i][0], tri[j][0])),
                          "%s sets %s from %s and %s from %s: exchanged" % (f.short, tri[i][0], tri[i][1], tri[j][0], tri[j][1]), f.loc)
        for (n, p, t), tr in zip(pairs, tri):
            if p not in bypath:
                continue
            for q, o in bypath.items():
                if q in used or tname2(bypath[p].type) != tname2(o.type):
                    continue
                if sim(n, o.name) > sim(n, tr[1]) + 1e-9 and q[-1] != p[-1]:
                    rep.violation("wrong-option:%s:%s" % (f.short, n), "%s sets %s from --%s, while --%s goes unused" % (f.short, n, tr[1], o.name), f.loc)
        # the same setting from two options
        srcs = {}
        for n, p, t in pairs:
            srcs.setdefault(p, []).append(n)
        for p, ns in srcs.items():
            if len(ns) > 1 and p in bypath:
                rep.violation("doubled:%s:%s" % (f.short, dotted(p)), "%s sets %s all from --%s" % (f.short, ", ".join(ns), bypath[p].name), f.loc)


def tname2(t):
    return t


_en = {}


def enum_nodes(prog):
    if "l" not in _en:
        out = set()
        for f in prog.fns.values():
            if f.has_body and f.file.startswith("app/"):
                for n in ir.walk(f.body):
                    if n.get("k") == "enum":
                        out.add((tname(n.get("t")), str(n.get("v")), n.get("n") or ""))
        _en["l"] = out
    return _en["l"]


def fld(rec, name):
    return next((f for f in rec.fields if f["n"] == name), {})


def fld_type(rec, name):
    return tname(fld(rec, name).get("t"))


def is_enum(rec, name):
    return (fld(rec, name).get("t") or {}).get("k") == "e" or any(e[0] == fld_type(rec, name) for e in _en.get("l", ()))


def choice(m, rep, f, srec, name, vals, bypath):
    t = fld_type(srec, name)
    labels = {v: n for tt, v, n in enum_nodes(m.prog) if tt == t}
    seen = {}
    for v, s in vals:
        for (kk, *r), tr in s.facts.items():
            if kk == "cond" and r[0][0] == "eq" and tr and path_of(r[0][1]) is not None:
                p = path_of(r[0][1])
                if sim(name, p[-1]) > 0:
                    seen.setdefault((p, r[0][2]), set()).add(v)
    acc = accepted(m)
    for (p, lit), vs in sorted(seen.items()):
        rep.instance("choice", "%s: %s" % (f.short, lit))
        for v in vs:
            lab = labels.get(str(v[1]), "?")
            if tokens(lab) != tokens(lit):
                rep.violation("choice:%s:%s" % (f.short, lit), "%s: \"%s\" of --%s selects %s" % (f.short, lit, bypath[p].name if p in bypath else dotted(p), lab), f.loc)
    for p in {p for p, _ in seen}:
        if p not in bypath:
            continue
        have = {l for q, l in seen if q == p}
        for lit in acc.get(p[-1], set()) - have:
            rep.violation("choice-missing:%s:%s" % (f.short, lit), "%s has no alternative for \"%s\", which --%s accepts" % (f.short, lit, bypath[p].name), f.loc)


def accepted(m):
    """member name -> literals its correction accepts (the others are refused)"""
    if getattr(m, "_acc", None) is not None:
        return m._acc
    out = {}
    for f in app_fns(m.prog):
        if f.n != "correct" or not f.r:
            continue
        for p, lits in compared(m, f, DATA).items():
            for lit in lits:
                cl = CorrectCl(m.lits)
                cl.preset = {p: lit}
                eng = Engine(m.prog, cl)
                eng.root_this = DATA
                outs = eng.run(f, this=("loc", DATA), args=[("loc", ("p:vm",))])
                if any(o[0] == RET for o in outs):
                    out.setdefault(p[-1], set()).add(lit)
            # anything else
            cl = CorrectCl(m.lits)
            cl.preset = {p: "\0other"}
            eng = Engine(m.prog, cl)
            eng.root_this = DATA
            outs = eng.run(f, this=("loc", DATA), args=[("loc", ("p:vm",))])
            fin = [o for o in outs if o[0] == RET]
            thr = [o for o in outs if o[0] == THROW]
            m.strict.setdefault(p[-1], bool(thr) and (not fin or p[-1] == "file_extension"))
    m._acc = out
    return out


def compared(m, f, path):
    """members compared with literals in f (of its object / data parameter)"""
    out = {}
    cl = CorrectCl(m.lits)
    eng = Engine(m.prog, cl)
    eng.root_this = path
    for k, s, v in eng.run(f, this=("loc", path), args=[("loc", ("p:vm",))]):
        for (kk, *r), tr in s.facts.items():
            if kk == "cond" and r[0][0] == "eq":
                p = path_of(r[0][1])
                if p and p[0] == path[0]:
                    out.setdefault(p, set()).add(r[0][2])
    return out


# ------------------------------------------------------------------ consumers
class UseCl(OptCl):
    """records the calls that receive option values"""

    def __init__(self, lits, preset=None, deep=False):
        super().__init__(lits, preset)
        self.uses = []
        self.deep = deep

    def should_inline(self, eng, fn, callee, node):
        if "/util/" in fn.file:
            return fn.n == "benchmark"
        if not fn.file.startswith("app/") or "settings" in fn.n:
            return False
        return self.deep or data_param(fn) is None or fn["ps"][0].get("n") is None

    def more(self, eng, st, fr, n, c, obj, args):
        fn = eng.p.callee_fn(c)
        q = c["q"]
        if q.startswith(("std::", "boost::")):
            if c.get("n") == "operator/" or (c.get("n") in ("string", "to_string", "operator basic_string") and obj is not None):
                xs = ([obj] if obj is not None else []) + list(args)
                ps = sorted(set(p for x in xs for p in paths_in(eng.rv(st, x) if x[0] == "loc" else x)))
                return [(NEXT, st, ("term", "path", None, tuple(("in", p) for p in ps)))]
            return None
        if fn is not None and fn.has_body and (self.should_inline(eng, fn, c, n) or fn.n.startswith("_") and fn.file.startswith("app/") and data_param(fn) is None):
            return None
        vals = [eng.rv(st, a) if a[0] == "loc" else a for a in args]
        ev = (q, c.get("rec"), n["k"], c["n"], tuple(vals), c.get("id"), n["l"], fr.loc)
        st.facts[("ev",)] = st.facts.get(("ev",), ()) + (ev,) if len(st.facts.get(("ev",), ())) < 60 else st.facts[("ev",)]
        self.uses.append((ev, dict((k, v) for k, v in st.facts.items() if k[0] == "cond"), fn))
        return None


def run_use(m, f, preset=None, deep=False):
    cl = UseCl(m.lits, preset, deep)
    eng = Engine(m.prog, cl)
    args = [("loc", DATA) if tname(p.get("t")).endswith("_data") else ("loc", ("p:" + (p["n"] or "_"),)) for p in f["ps"]]
    try:
        outs = eng.run(f, args=args)
    except Limit:
        return cl, []
    return cl, outs


def data_param(f):
    return next((p for p in f["ps"] if tname(p.get("t")).endswith("_data") and tname(p.get("t")).startswith(NS)), None)


def workers(m):
    """one instance of each app function that works on the data of a mode"""
    out = {}
    for f in app_fns(m.prog):
        if f.n in ("correct",) or "options_description" in (f["rt"] or {}).get("n", "") or tname(f["rt"]).endswith("settings"):
            continue
        if data_param(f) is not None:
            out.setdefault(f.loc, f)
    return [out[k] for k in sorted(out)]


def reads_member(m, f, name):
    return any(n.get("k") == "mem" and n.get("n") == name for n in ir.walk(f.body))


def check_consumers(m, rep):
    prog = m.prog
    rep.rule("dispatch", "each accepted value of a format, file type or profile option leads to the importer of that name, and only to it")
    rep.rule("argument", "an option value is passed to the parameter that is named after it; the two sides of a comparison are not mixed")
    rep.rule("switched", "a step or an export that an option asks for happens exactly if the option says so")
    rep.rule("used", "every option's member is read by the program")
    acc = accepted(m)
    ws = workers(m)
    # choices
    todo = {}
    for f in ws:
        for n in ir.walk(f.body):
            if n.get("k") == "opcall" and n.get("op") in ("==", "!="):
                for a in n["a"]:
                    if a.get("k") == "mem" and (a.get("rec") or "").startswith(NS) and a["n"] in acc:
                        todo.setdefault((f.loc, a["n"]), (f, full_path(a)))
    for (loc, name), (f, p) in sorted(todo.items()):
        if p is None or name in ("simplify",):
            continue
        rep.fn(f)
        tri = []
        opaths = {o.path for o in m.opts(tname(data_param(f).get("t")).rsplit("::", 1)[-1])}
        for lit in sorted(acc[name]):
            cl, outs = run_use(m, f, {p: lit}, True)
            fin = [o for o in outs if o[0] == RET]
            imp = set()
            for k, s, v in fin:
                for ev in s.facts.get(("ev",), ()):
                    if ev[2] == "ctor" and "importer" in (ev[1] or "") and not ev[1].startswith(NS):
                        if any(q[:2] != p[:2] and q[:2] + p[-1:] in opaths for x in ev[4] for q in paths_in(x)):
                            continue      # reads the other input
                        imp.add(ev[1].split("<")[0].rsplit("::", 1)[-1])
            if not fin:
                continue
            if not imp:
                if any("importer" in str(u) for l2 in acc[name] for u in run_use(m, f, {p: l2}, True)[0].uses):
                    if name == "file_extension" and lit not in ("csv", "gpx") and "match" not in f.file:
                        continue
                    rep.violation("no-importer:%s:%s" % (f.short, lit), "%s reads nothing for \"%s\", which the option accepts" % (f.short, lit), f.loc)
                continue
            rep.instance("dispatch", "%s: %s -> %s" % (f.short, lit, ", ".join(sorted(imp))))
            for i in imp:
                tri.append((lit, i, "importer"))
        for i, j in swapped(tri):
            rep.violation("dispatch:%s:%s:%s" % (f.short, tri[i][0], tri[j][0]), "%s reads \"%s\" with %s and \"%s\" with %s" % (f.short, tri[i][0], tri[i][1], tri[j][0], tri[j][1]), f.loc)
        for i in range(len(tri)):
            for j in range(i + 1, len(tri)):
                if tri[i][1] == tri[j][1] and tri[i][0] != tri[j][0] and sim(tri[i][0], tri[i][1]) != sim(tri[j][0], tri[j][1]):
                    a = tri[i] if sim(tri[i][0], tri[i][1]) < sim(tri[j][0], tri[j][1]) else tri[j]
                    rep.violation("dispatch:%s:%s" % (f.short, a[0]), "%s reads \"%s\" with %s" % (f.short, a[0], a[1]), f.loc)
    # arguments
    for f in ws:
        check_args(m, rep, f)
    check_simplify(m, rep, ws)
    check_switched(m, rep, ws)
    check_read_line(m, rep, ws)
    check_settings_used(m, rep)
    check_used(m, rep, ws)


def full_path(a):
    parts = []
    while a and a.get("k") == "mem":
        parts.append(a["n"])
        a = a["b"]
    if a and a.get("k") in ("ref",) and parts:
        return DATA + tuple(reversed(parts))
    return None


def side_of(opts):
    """sub structure -> the side of a comparison it belongs to (by the prefix of its options)"""
    out = {}
    for o in opts:
        if o.path and len(o.path) > 2:
            out.setdefault(o.path[:2], set()).add(o.name.split("-", 1)[0])
    return {p: next(iter(v)) for p, v in out.items() if len(v) == 1}


def check_args(m, rep, f):
    prog = m.prog
    rec = tname(data_param(f).get("t")).rsplit("::", 1)[-1]
    opts = m.opts(rec)
    if not opts:
        return
    bypath = {o.path: o for o in opts if o.path}
    sides = {}
    pre = {}
    for o in opts:
        if o.path and len(o.path) > 2:
            pre.setdefault(o.path[:2], []).append(o.name)
    for p, names in pre.items():
        first = {n.split("-", 1)[0] + "-" for n in names if "-" in n}
        for x in ("match-", "compare-"):
            if len([n for n in names if n.startswith(x)]) * 2 > len(names):
                sides[p] = x
    cl, outs = run_use(m, f)
    for ev, facts, fn in cl.uses:
        q, r, kind, name, vals, cid, line, loc = ev
        tri, sd = [], {}
        ps = fn["ps"] if fn is not None else []
        for i, v in enumerate(vals):
            pp = {p for p in paths_in(v) if p[0] == "p:data" and len(p) > 1}
            for p in pp:
                for s, x in sides.items():
                    if p[:len(s)] == s:
                        sd.setdefault(x, p)
            if not pp:
                pp = {p for p in paths_in(v) if len(p) > 1 and p[0].startswith("g:")}
            if len(pp) == 1 and i < len(ps) and ps[i].get("n") and (path_of(v) is not None or v[0] == "term"):
                p = next(iter(pp))
                tri.append((ps[i]["n"], bypath[p].name if p in bypath else " ".join(p[1:]), tname(ps[i].get("t"))))
        if tri:
            rep.instance("argument", "%s -> %s" % (f.short, (r or q).split("<")[0].rsplit("::", 1)[-1]))
        if len(sd) > 1 and rec == "compare_data":
            rep.violation("mixed:%s:%s" % (f.short, name), "%s passes %s together with %s to %s: options of the two sides are mixed" % (
                f.short, dotted(sd["match-"]), dotted(sd["compare-"]), name), "%s:%d" % (loc.rsplit(":", 1)[0], line))
        for i, j in swapped(tri):
            rep.violation("swapped-arg:%s:%s:%s" % (f.short, tri[i][0], tri[j][0]), "%s passes %s as %s and %s as %s" % (
                f.short, tri[i][1], tri[i][0], tri[j][1], tri[j][0]), "%s:%d" % (loc.rsplit(":", 1)[0], line))
    return


def check_simplify(m, rep, ws):
    """none: nothing happens; all / osm-aware: simplified, without / with regard to the tags"""
    want = {"none": (False, None), "all": (True, True), "osm-aware": (True, False)}
    for f in ws:
        if not any(n.get("k") in ("mcall", "call") and callee(n).startswith("simplify") for n in ir.walk(f.body)):
            continue
        p = next((full_path(n) for n in ir.walk(f.body) if n.get("k") == "mem" and n.get("n") == "simplify"), None)
        if p is None:
            continue
        rep.fn(f)
        for lit, (call, arg) in want.items():
            cl, outs = run_use(m, f, {p: lit})
            rep.instance("switched", "%s: %s" % (f.short, lit))
            for k, s, v in outs:
                if k != RET:
                    continue
                evs = [e for e in s.facts.get(("ev",), ()) if e[3] == "simplify"]
                if bool(evs) != call:
                    rep.violation("simplify:%s:%s" % (f.short, lit), "%s %s the network for --simplify %s" % (f.short, "simplifies" if evs else "does not simplify", lit), f.loc)
                    break
                if evs and arg is not None:
                    bools = [x[1] for x in evs[0][4] if x[0] == "c" and isinstance(x[1], bool)]
                    if bools and bools[0] != arg:
                        rep.violation("simplify-mode:%s:%s" % (f.short, lit), "%s simplifies %s the tags for --simplify %s" % (f.short, "without regard to" if bools[0] else "with regard to", lit), f.loc)
                        break


def callee(n):
    c = n.get("c")
    return (c or {}).get("n", "") if isinstance(c, dict) else ""


class SwitchCl(UseCl):
    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("app/") and fn.n in ("verbose_frame",)


def check_switched(m, rep, ws):
    """steps behind a boolean option; files written for an option"""
    tri = []
    for f in ws:
        bools = {}
        for n in ir.walk(f.body):
            if n.get("k") == "if":
                for c in ir.walk(n["c"]):
                    if c.get("k") == "mem" and (c.get("rec") or "").startswith(NS) and c["n"].startswith("remove_"):
                        p = full_path(c)
                        if p:
                            bools[p] = c["n"]
        for p, name in bools.items():
            rep.fn(f)
            cl, outs = run_use(m, f)
            on, off = set(), set()
            for k, s, v in outs:
                if k != RET:
                    continue
                t = s.facts.get(("cond", ("in", p)))
                evs = {e[3] for e in s.facts.get(("ev",), ()) if e[3].startswith("remove_")}
                (on if t else off).update(evs or set())
                if t and not evs:
                    rep.violation("not-done:%s" % name, "%s does nothing although the option for %s is on" % (f.short, name), f.loc)
            for x in off & on or (off if off else set()):
                rep.violation("always:%s" % name, "%s runs %s although the option is off" % (f.short, x), f.loc)
            for x in on:
                tri.append((name, x, "step"))
                rep.instance("switched", "%s: %s" % (name, x))
        # exports: what is written was asked for
        cl, outs = run_use(m, f)
        for ev, facts, fn in cl.uses:
            for v in ev[4]:
                for p in paths_in(v):
                    if p[:2] == DATA + ("expo",) and p[-1].startswith("export_"):
                        t = facts.get(("cond", ("empty", ("in", p))))
                        rep.instance("switched", "%s: %s -> %s" % (f.short, p[-1], ev[3]))
                        tri.append((ev[3] if ev[2] != "ctor" else (ev[1] or "").split("<")[0].rsplit("::", 1)[-1], p[-1], "export"))
                        if t is not False:
                            rep.violation("export-unasked:%s:%s" % (f.short, p[-1]), "%s writes %s although %s" % (f.short, p[-1], "it is not given" if t else "whether it is given was not asked"), f.loc)
    tri = sorted(set(tri))
    for i, j in swapped(tri):
        rep.violation("switched:%s:%s" % (tri[i][0], tri[j][0]), "%s goes with %s and %s with %s" % (tri[i][0], tri[i][1], tri[j][0], tri[j][1]), "")


def check_read_line(m, rep, ws):
    """console input is read exactly if asked for"""
    for f in ws:
        p = next((full_path(n) for n in ir.walk(f.body) if n.get("k") == "mem" and n.get("n") == "read_line" and (n.get("rec") or "").startswith(NS)), None)
        if p is None:
            continue
        cl, outs = run_use(m, f, None, True)
        rep.instance("switched", "%s: read_line" % f.short)
        for k, s, v in outs:
            if k != RET:
                continue
            t = s.facts.get(("cond", ("in", p)))
            imps = {(e[1] or "").split("<")[0].rsplit("::", 1)[-1] for e in s.facts.get(("ev",), ()) if e[2] == "ctor" and "importer" in (e[1] or "")}
            if t is True and (not any(i.startswith("input") for i in imps) or len(imps) > 1):
                rep.violation("read-line:on", "%s does not read (only) the console input although --read-line is given" % f.short, f.loc)
                break
            if t is not True and any(i.startswith("input") for i in imps):
                rep.violation("read-line:off", "%s reads console input although --read-line is not given" % f.short, f.loc)
                break


def check_settings_used(m, rep):
    """what the application hands over is looked at by the library"""
    prog = m.prog
    recs = {tname(f["rt"]) for f in app_fns(prog) if f["ps"] and tname(f["rt"]).endswith("settings")}
    reads = set()
    for f in prog.fns.values():
        if not f.has_body or f.file.startswith("app/"):
            continue
        for part in [f.body] + [i.get("e") for i in f.get("inits", []) or []]:
            for n in ir.walk(part):
                if n.get("k") == "mem" and n.get("rec") in recs:
                    reads.add((n["rec"], n["n"]))
    for r in sorted(recs):
        rec = next((x for x in prog.recs.values() if x.q == r), None)
        if rec is None or not any(x[0] == r for x in reads):
            continue
        for fl in rec.fields:
            rep.instance("used", "%s::%s" % (r.rsplit("::", 2)[-2] + "::" + r.rsplit("::", 1)[-1], fl["n"]))
            if (r, fl["n"]) not in reads:
                rep.violation("unused-setting:%s:%s" % (r.replace("map_matching_2::", ""), fl["n"]), "the setting %s of %s is handed over but never looked at" % (fl["n"], r), rec.loc)


UNUSED_OK = {"all_data.config", "global_data.prepare", "global_data.match", "global_data.server", "global_data.compare"}


def check_used(m, rep, ws):
    prog = m.prog
    reads = set()
    for f in app_fns(prog):
        if "options_description" in (f["rt"] or {}).get("n", ""):
            continue
        for n in ir.walk(f.body):
            if n.get("k") == "mem":
                r = (n.get("rec") or "").rsplit("::", 1)[-1]
                if f.n == "correct" and f.r and (f.rec or "").rsplit("::", 1)[-1] == r and not r.startswith(("global", "srs", "memory", "prepare_memory", "all")):
                    continue
                reads.add((r, n["n"]))
    lookups = set()
    for f in app_fns(prog):
        for n in ir.walk(f.body):
            if n.get("k") == "opcall" and n.get("op") == "[]" and "variables_map" in ((n.get("c") or {}).get("rec") or ""):
                for x in ir.walk(n):
                    if x.get("k") == "str":
                        lookups.add(x["v"])
    for mode, recn in MODES.items():
        for o in m.opts(recn):
            if not o.path or o.name in lookups and False:
                continue
            own = owner(m, recn, o.path)
            if own is None:
                continue
            rep.instance("used", "%s --%s" % (mode, o.name))
            if not any((r, o.path[-1]) in reads for r in own) and o.name not in lookups:
                rep.violation("unused-option:%s" % ".".join((own[0], o.path[-1])), "--%s has no effect: its member %s is never read" % (o.name, dotted(o.path)), o.loc)


def owner(m, recn, path):
    """names of the classes in which the member may be declared"""
    rec = rec_of(m.prog, recn)
    for x in path[1:-1]:
        if rec is None:
            return None
        fl = next((f for f in all_fields(m.prog, rec.id) if f["n"] == x), None)
        rec = field_rec(m.prog, fl) if fl else None
    if rec is None:
        return None
    for rid in order(m.prog, rec.id):
        if any(f["n"] == path[-1] for f in m.prog.recs[rid].fields):
            return [m.prog.recs[rid].q.rsplit("::", 1)[-1]]
    return None


def check_computed(m, rep, computed, ws):
    """members that no option fills and no initialiser sets must come from the correction"""
    for f in ws:
        rec = tname(data_param(f).get("t")).rsplit("::", 1)[-1]
        mode = next((k for k, v in MODES.items() if v == rec), None)
        if mode is None or mode not in computed:
            continue
        opts = {o.path for o in m.opts(rec) if o.path}
        for n in ir.walk(f.body):
            if n.get("k") != "mem" or not (n.get("rec") or "").startswith(NS) or not (n.get("rec") or "").endswith("_data"):
                continue
            p = full_path(n)
            if p is None or len(p) < 3:
                continue
            t = n.get("t") or {}
            if tname(t).startswith(NS) and tname(t).endswith("_data"):
                continue
            r = rec_of(m.prog, rec)
            rep.instance("computed", "%s %s" % (mode, dotted(p)))
            if p in opts or any(w[:len(p)] == p or p[:len(w)] == w for w in computed[mode]):
                continue
            rep.violation("uncomputed:%s:%s" % (mode, dotted(p)), "%s reads %s, which no option and no correction of the %s mode fills" % (f.short, dotted(p), mode), f.loc)


# ------------------------------------------------------------------ parsing
class ParseCl(OptCl):
    def on_call(self, eng, st, fr, n, c, obj, args):
        q, name = c["q"], c["n"]
        if "program_options" in q:
            ev = None
            if name in ("store", "notify"):
                src = None
                v = eng.rv(st, args[0]) if args and args[0][0] == "loc" else (args[0] if args else U)
                txt = repr(v)
                if name == "store":
                    src = "file" if "parse_config_file" in txt else "cli" if "run" in txt or "command_line" in txt else "?"
                ev = (name, src)
            elif name == "allow_unregistered":
                ev = (name, None)
            elif name == "parse_config_file":
                ev = (name, repr(args[2]) if len(args) > 2 else None)
                r = self.canon(eng.rv(st, args[2]) if args[2][0] == "loc" else args[2]) if len(args) > 2 else ("c", False)
                ev = (name, r)
            if ev:
                st.facts[("ev",)] = st.facts.get(("ev",), ()) + (ev,)
        return super().on_call(eng, st, fr, n, c, obj, args)


def check_parse(m, rep):
    rep.rule("parse", "the command line is read before (thus overrides) the configuration file, both before the values are handed out, and unknown options are refused once the mode is known")
    rep.rule("order", "a mode works on its data only after parsing succeeded and the correction ran")
    prog = m.prog
    modes = {e[2]: int(e[1]) for e in enum_nodes(prog) if e[0].endswith("MODE")}
    fs = [f for f in app_fns(prog) if any(callee(n) == "notify" for n in ir.walk(f.body)) and f["ps"]]
    for f in fs:
        mp = [p for p in f["ps"] if tname(p.get("t")).endswith("MODE")]
        for mn, mv in sorted(modes.items()):
            cl = ParseCl(m.lits)
            eng = Engine(prog, cl)
            args = [("c", mv) if tname(p.get("t")).endswith("MODE") else ("loc", ("p:" + p["n"],)) for p in f["ps"]]
            outs = eng.run(f, args=args)
            rep.fn(f)
            rep.instance("parse", "%s in mode %s" % (f.short, mn))
            for k, s, v in outs:
                if k != RET or (v and eng.rv(s, v) == ("c", False)):
                    continue
                ev = list(s.facts.get(("ev",), ()))
                names = [e[0] + (":" + e[1] if e[0] == "store" else "") for e in ev]
                if "notify" not in names:
                    rep.violation("no-notify:%s" % f.short, "%s reports success without handing out the parsed values" % f.short, f.loc)
                    break
                if "store:cli" not in names or names.index("store:cli") > names.index("notify"):
                    rep.violation("no-cli:%s" % f.short, "%s does not read the command line before the values are handed out" % f.short, f.loc)
                    break
                if "store:file" in names and (names.index("store:file") < names.index("store:cli")):
                    rep.violation("file-first:%s" % f.short, "%s stores the configuration file before the command line: the file overrides what is given explicitly" % f.short, f.loc)
                    break
                if "store:file" in names and names.index("store:file") > names.index("notify"):
                    rep.violation("file-late:%s" % f.short, "%s reads the configuration file after the values were handed out" % f.short, f.loc)
                    break
                lax = "allow_unregistered" in names
                flax = [e[1] for e in ev if e[0] == "parse_config_file"]
                if mn != "NONE" and (lax or any(x == ("c", True) for x in flax)):
                    rep.violation("lax:%s" % f.short, "%s silently ignores unknown options of the %s mode" % (f.short, mn), f.loc)
                    break
                if mn == "NONE" and (not lax or any(x == ("c", False) for x in flax)):
                    rep.violation("strict:%s" % f.short, "%s refuses the options of the modes when it only looks for the mode" % f.short, f.loc)
                    break
            if not any(k == RET and any(e[0] == "store" and e[1] == "file" for e in s.facts.get(("ev",), ())) for k, s, v in outs):
                rep.violation("no-file:%s" % f.short, "%s never reads the configuration file" % f.short, f.loc)
    # the mode functions
    for f in app_fns(prog):
        loc = next((v for n in ir.walk(f.body) if n.get("k") == "decl" for v in n["v"] if tname(v.get("t")).endswith("_data") and tname(v.get("t")).startswith(NS)), None)
        if loc is None or not any(callee(n) == "process" for n in ir.walk(f.body)):
            continue
        rep.fn(f)
        rep.instance("order", f.short)

        class OrderCl(OptCl):
            def should_inline(self, eng, fn, callee_, node):
                return False

            def more(self, eng, st, fr, n, c, obj, args):
                if c["q"].startswith(NS):
                    st.facts[("ev",)] = st.facts.get(("ev",), ()) + ((c["n"], tuple(path_of(a) for a in args), path_of(obj) if obj else None, n["l"]),)
                    if c["n"] == "process":
                        return [(NEXT, st, ("proc",))]
                return None

            def may_throw(self, eng, st, fr, node, c):
                return c["n"] == "correct"
        cl = OrderCl(m.lits)
        eng = Engine(prog, cl)
        outs = eng.run(f)
        for k, s, v in outs:
            evs = s.facts.get(("ev",), ())
            work = [i for i, e in enumerate(evs) if e[0] not in ("process", "correct") and not e[0].startswith("options_") and "_data" in ptypes(prog, f, e[0]) and any(a and a[0].startswith("v:" + loc["n"]) for a in e[1])]
            corr = [i for i, e in enumerate(evs) if e[0] == "correct"]
            ok = s.facts.get(("cond", ("proc",)))
            if work and ok is not True:
                rep.violation("unparsed:%s" % f.short, "%s goes on although reading the options failed" % f.short, f.loc)
                break
            if work and (not corr or corr[0] > work[0]):
                rep.violation("uncorrected-use:%s" % f.short, "%s works on data that was not corrected" % f.short, f.loc)
                break
            if k == RET and ok is True and not work and v == ("c", 0):
                rep.violation("no-work:%s" % f.short, "%s returns success without doing its work" % f.short, f.loc)
                break


def ptypes(prog, f, name):
    for n in ir.calls(f.body):
        if n["c"]["n"] == name:
            return " ".join(tname(t) for t in n["c"].get("pt", []) if t)
    return ""


def run(prog, rep):
    m = Model(prog, rep)
    m.strict = {}
    enum_nodes(prog)
    check_registration(m, rep)
    computed = check_correct(m, rep)
    check_settings(m, rep)
    check_consumers(m, rep)
    check_computed(m, rep, computed, workers(m))
    check_parse(m, rep)
    for name, st in sorted(m.strict.items()):
        rep.instance("choice", "refused otherwise: " + name)
        if not st:
            rep.violation("lax-choice:" + name, "an unknown value of %s is not refused" % name, "")
    rep.floor("register", 120)
    rep.floor("correct-all", 15)
    rep.floor("handed", 40)
    rep.floor("dispatch", 8)
    rep.floor("parse", 2)
    rep.floor("order", 3)

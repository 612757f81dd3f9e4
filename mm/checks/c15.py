"""C15: matching reads exactly the files that preparation leaves behind."""
from .. import ir
from ..flow import Client, Engine, NEXT, RET, THROW, U, Limit, St
from ..optmodel import OptCl, literals, path_of, paths_in, sim, swapped, tname, tokens, NS

TUS = ["app/src/app/network.cpp", "app/src/app/prepare.cpp", "app/src/app/match_cli.cpp"]
DATA = ("p:data",)


def dotted(p):
    return ".".join(x for x in p[1:])


def data_rec(f):
    for p in f["ps"]:
        n = tname(p.get("t"))
        if n.startswith(NS) and n.endswith("_data"):
            return n.rsplit("::", 1)[-1]
    return None


def enum_table(prog, *endings):
    out = {}
    for f in prog.fns.values():
        if f.has_body and f.file.startswith("app/"):
            for n in ir.walk(f.body):
                if n.get("k") == "enum":
                    t = tname(n.get("t"))
                    if t.endswith(endings):
                        out.setdefault(t, {})[n.get("v")] = n.get("n")
    return out


class Cl(OptCl):
    """events: storages opened on files, serializers, calls of the library"""
    max_depth = 16
    max_states = 60000

    def __init__(self, lits, deep=True):
        super().__init__(lits)
        self.deep = deep

    def should_inline(self, eng, fn, callee, node):
        if "/util/" in fn.file:
            return fn.n == "benchmark"
        return fn.file.startswith("app/") and fn.n not in self.stop

    stop = ()

    def ev(self, st, e):
        st.facts[("ev",)] = st.facts.get(("ev",), ()) + (e,)

    def more(self, eng, st, fr, n, c, obj, args):
        q, rec = c["q"], (c.get("rec") or "")
        short = rec.split("<")[0].rsplit("::", 1)[-1]
        vals = [eng.rv(st, a) if a[0] == "loc" else a for a in args]
        if q.startswith("std::filesystem") or "filesystem::" in rec:
            xs = ([obj] if obj is not None else []) + list(args)
            ps = [p for x in xs for p in dict.fromkeys(paths_in2(eng.rv(st, x) if x[0] == "loc" else x))]
            if n["k"] == "ctor" or c["n"] in ("operator/", "string", "native", "operator/=", "append", "generic_string"):
                return [(NEXT, st, ("term", "path", None, tuple(("in", p) for p in dict.fromkeys(ps))))]
            return None
        if n["k"] == "ctor" and short.endswith("_storage") and not rec.startswith("std::") and c.get("ctor") not in ("copy", "move"):
            files = tuple(p for v in vals for p in dict.fromkeys(paths_in2(v)) if p[0] == "p:data")
            st2 = st
            if files:
                flags = flags_of(eng, vals, c)
                self.ev(st2, ("store", short, c.get("r") or c.get("rid") or c.get("id"), files, flags, rec, n["l"], fr.loc))
            return [(NEXT, st2, ("term", short, None, ()))]
        if n["k"] == "ctor" and short in ("serializer", "deserializer") and c.get("ctor") not in ("copy", "move"):
            files = tuple(p for v in vals for p in dict.fromkeys(paths_in2(v)) if p[0] == "p:data")
            pt = c.get("pt") or []
            data = pt[1] if len(pt) > 1 else {}
            helper = (tname(data).split("<")[0].rsplit("::", 1)[-1], data.get("r"))
            return [(NEXT, st, ("ser", short, files, helper, fr.loc, n["l"]))]
        if obj is not None and c["n"] in ("read", "write"):
            h = eng.rv(st, obj) if obj[0] == "loc" else obj
            if h and h[0] == "ser":
                self.ev(st, ("io", c["n"]) + h[1:])
                return [(NEXT, st, U)]
        fn = eng.p.callee_fn(c)
        if fn is not None and self.should_inline(eng, fn, c, n):
            return None
        if q.startswith("map_matching_2::") and n["k"] != "ctor":
            ps = tuple(p for v in vals for p in dict.fromkeys(paths_in2(v)) if p[0] == "p:data")
            root = obj[1] if obj is not None and obj[0] in ("loc", "ptr") else ()
            self.ev(st, ("call", c["n"], short, ps, n["l"], fr.loc, root))
        if obj is not None and obj[0] == "loc" and c["n"] == "reset" and "unique_ptr" in rec:
            self.ev(st, ("reset", obj[1], n["l"], fr.loc))
        return None


def flags_of(eng, vals, c):
    out = []
    for v, t in zip(vals, c.get("pt") or []):
        if v and v[0] == "c" and t is not None and t.get("k") == "e":
            out.append((tname(t).rsplit("::", 1)[-1], v[1]))
    return tuple(out)


def paths_in2(v, out=None):
    """access paths in order of appearance"""
    out = [] if out is None else out
    p = path_of(v)
    if p is not None:
        if p not in out:
            out.append(p)
        return out
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                paths_in2(x, out)
    return out


def runs(prog, lits, f, stop=(), quiet=True, bodies=4, preset=None):
    cl = Cl(lits)
    cl.preset = preset or {}
    cl.stop = stop
    eng = Engine(prog, cl)
    eng.max_steps = 3000000
    eng.lam_bodies = bodies
    st = St()
    if quiet:
        for n in ("verbose", "quiet"):
            st.env[("val", ("g:" + NS + "global", n))] = ("c", False)
    args = [("loc", DATA) if tname(p.get("t")).endswith("_data") else ("loc", ("p:" + (p["n"] or "_"),)) for p in f["ps"]]
    return [(k, s, v) for k, s, v in eng.run(f, args=args, st=st)]


def flag(s, p):
    return s.facts.get(("cond", ("in", p)))


def evs(s, kind):
    return [e for e in s.facts.get(("ev",), ()) if e[0] == kind]


def files_of(e):
    return [p for p in e if p[:2] == ("p:data", "files") and p[-1] != "initial_size"]


def dir_of(e):
    return [p for p in e if p[:2] != ("p:data", "files")]


OUT = ("p:data", "network", "output")
IN = ("p:data", "input", "input")


def named(prog, *names):
    return sorted((f for f in prog.fns.values() if f.has_body and f.n in names and f.file.startswith("app/")), key=lambda f: (f.loc, f.id if hasattr(f, "id") else ""))


def of_type(prog, mode, ret):
    """entry points: app functions that work on the data of a mode and answer a network (variant)"""
    out = []
    for f in prog.fns.values():
        if f.has_body and f.file.startswith("app/") and data_rec(f) == mode and ret in (f["rt"] or {}).get("s", "") + (f["rt"] or {}).get("n", ""):
            out.append(f)
    return out


def opened(prog, lits, f):
    """the ways through f that return, with the stores they open"""
    return [(s, evs(s, "store")) for k, s, v in runs(prog, lits, f) if k in (NEXT, RET)]


def where(e):
    return "%s:%d" % (e[-1].rsplit(":", 1)[0], e[-2])


class Ctx:
    pass


def check_open(c, rep):
    prog = c.prog
    rep.rule("switch", "a memory-mapped file is used on exactly the paths on which the switch of that name is on")
    rep.rule("place", "preparation works in its output folder, matching in its input folder, each store on a file of its own")
    rep.rule("life", "files that matching opens are created anew by preparation and kept; all others are removed when closed; matching opens read-only")
    rep.rule("type", "matching maps a file with the same storage type that preparation created it with")
    groups = {"prepare": ("create_network_import", "create_compatible_network", "create_osm_handler"), "match": ("open_network",)}
    c.files = {}                    # file path -> {(mode, kind)}
    stores = {"prepare": [], "match": []}
    flagged = {}                    # (mode, file) -> list of (facts, opened?)
    for mode, ns in groups.items():
        for n in ns:
            fs = named(prog, n)
            for f in fs:
                rep.fn(f)
                ways = opened(prog, c.lits, f)
                seen = set()
                for s, es in ways:
                    stores[mode] += [(e, f) for e in es]
                    for e in es:
                        seen |= set(files_of(e[3]))
                        if len(files_of(e[3])) != 1 or not dir_of(e[3]):
                            rep.violation("place:%s:%s" % (f.n, e[1]), "%s opens a %s on %s" % (f.short, e[1], ", ".join(dotted(p) for p in e[3])), where(e))
                    got = [p for e in es for p in files_of(e[3])]
                    for p in set(got):
                        if got.count(p) > 1:
                            e = [e for e in es if p in e[3]][1]
                            rep.violation("shared-file:%s:%s" % (f.n, p[-1]), "%s opens %s twice" % (f.short, dotted(p)), where(e))
                c.files.setdefault(mode, set()).update(seen)
                for p in seen:
                    for s, es in ways:
                        flagged.setdefault((mode, p), []).append((s, [e for e in es if p in e[3]], f))
    # pair files with switches
    c.flag = {}
    for mode in ("prepare", "match"):
        for p in sorted(c.files.get(mode, ())):
            ways = flagged[(mode, p)]
            cand = {}
            for s, es, f in ways:
                for k, v in s.facts.items():
                    if k[0] == "cond" and k[1][0] == "in" and k[1][1][:2] == ("p:data", "memory"):
                        cand.setdefault(k[1][1], []).append((v, bool(es)))
            good = [x for x, vs in cand.items() if len(vs) == len(ways) and all(a == b for a, b in vs)]
            rep.instance("switch", "%s: %s" % (mode, dotted(p)))
            if not good:
                # the best explanation shows what is off
                tri = sorted(cand, key=lambda x: -sim(x[-1], p[-1]))
                best = tri[0] if tri else None
                for s, es, f in ways:
                    fl = flag(s, best) if best else None
                    if fl != bool(es):
                        e = es[0] if es else None
                        rep.violation("switch:%s:%s" % (mode, p[-1]), "%s %s %s although %s is %s" % (
                            f.short, "opens" if es else "does not open", dotted(p), dotted(best) if best else "a switch", {True: "on", False: "off", None: "not asked"}[fl]),
                            where(e) if e else f.loc)
                        break
                continue
            c.flag[(mode, p)] = good[0]
        ps = [p for p in sorted(c.files.get(mode, ())) if (mode, p) in c.flag]
        tri = [(c.flag[(mode, p)][-1], p[-1], "switch") for p in ps]
        for i, j in swapped(tri):
            rep.violation("switch-swapped:%s:%s" % (mode, ps[i][-1]), "%s is used if %s and %s if %s" % (
                dotted(ps[i]), tri[i][0], dotted(ps[j]), tri[j][0]), flagged[(mode, ps[i])][0][2].loc)
        for x in sorted({v for k, v in c.flag.items() if k[0] == mode}):
            at = [p for p in ps if c.flag[(mode, p)] == x]
            if len(at) > 1:
                rep.violation("switch-shared:%s:%s" % (mode, x[-1]), "%s decides about %s" % (dotted(x), " and ".join(dotted(p) for p in at)), flagged[(mode, at[0])][0][2].loc)
    # every switch decides something
    for mode, want in (("prepare", OUT), ("match", IN)):
        kinds = {}
        for e, f in stores[mode]:
            rep.instance("place", "%s %s" % (f.short.split("<")[0], e[1]))
            fl = [p for p in e[3] if p[:2] != ("p:data", "files")]
            if fl and fl[0] != want:
                rep.violation("place:%s:%s" % (f.n, e[1]), "%s opens a %s in %s instead of %s" % (f.short, e[1], dotted(fl[0]), dotted(want)), where(e))
            for p in files_of(e[3]):
                kinds.setdefault(p, {}).setdefault((e[1], f.n), e)
        c.kinds = getattr(c, "kinds", {})
        c.kinds[mode] = kinds
        for p, ks in kinds.items():
            if len(ks) > 1:
                e = list(ks.values())[1]
                rep.violation("shared-file:%s:%s" % (mode, p[-1]), "%s is used by %s" % (dotted(p), " and by ".join("%s of %s" % k for k in sorted(ks))), where(e))
    final = {p for e, f in stores["match"] for p in files_of(e[3])}
    c.final = final
    for e, f in stores["prepare"]:
        fl = dict(e[4])
        for p in files_of(e[3]):
            rep.instance("life", "prepare %s" % dotted(p))
            if fl.get("open_or_create_tag") != c.tags.get("DESTROY_AND_CREATE"):
                rep.violation("life:open:%s" % p[-1], "preparation opens %s without recreating it: what an earlier run left there is kept" % dotted(p), where(e))
            destroy = fl.get("destroy_on_close_tag") == c.tags.get("DESTROY_ON_CLOSE")
            if p in final and destroy:
                rep.violation("life:final:%s" % p[-1], "preparation removes %s when it closes it, matching needs it" % dotted(p), where(e))
            if p not in final and not destroy:
                rep.violation("life:temp:%s" % p[-1], "preparation leaves its working file %s behind" % dotted(p), where(e))
    for e, f in stores["match"]:
        rep.instance("life", "match %s" % e[1])
        if dict(e[4]).get("open_or_create_tag") != c.tags.get("OPEN_READ_ONLY") or dict(e[4]).get("destroy_on_close_tag") == c.tags.get("DESTROY_ON_CLOSE"):
            rep.violation("life:match:%s" % e[1], "matching does not open %s read-only" % ", ".join(dotted(p) for p in files_of(e[3])), where(e))
    ty = {}
    for mode in stores:
        for e, f in stores[mode]:
            for p in files_of(e[3]):
                ty.setdefault(p, {}).setdefault(mode, {})[e[5]] = e
    for p in sorted(final):
        rep.instance("type", dotted(p))
        a, b = ty[p].get("prepare", {}), ty[p].get("match", {})
        if not a:
            rep.violation("type:missing:%s" % p[-1], "matching opens %s, which preparation never creates" % dotted(p), where(list(b.values())[0]))
        elif set(a) != set(b):
            rep.violation("type:%s" % p[-1], "preparation creates %s as %s, matching opens it as %s" % (dotted(p), ", ".join(sorted(set(a) - set(b)))[:200] or "fewer kinds", ", ".join(sorted(set(b) - set(a)))[:200] or "fewer kinds"), where(list(b.values())[0]))
    for (mode, p), x in c.flag.items():
        if p in final and ("match", p) in c.flag and c.flag[("match", p)] != x:
            rep.violation("type:switch:%s" % p[-1], "preparation decides by %s whether it maps %s, matching by %s" % (dotted(x), dotted(p), dotted(c.flag[("match", p)])), "app/include/app/network.hpp")


def reach_storages(prog, rid, depth=0, seen=None):
    """storage records inside a network record, by kind"""
    seen = set() if seen is None else seen
    out = {}
    if rid in seen or rid not in prog.recs or depth > 4:
        return out
    seen.add(rid)
    r = prog.recs[rid]
    for b in r.bases:
        out.update(reach_storages(prog, b.get("r"), depth, seen))
    for fl in r.fields:
        t = fl["t"]
        n = tname(t).split("<")[0].rsplit("::", 1)[-1]
        if n.endswith("_storage"):
            out[n] = t.get("r")
        elif n.endswith("_helper"):
            out.update(reach_storages(prog, t.get("r"), depth + 1, seen))
    return out


def is_mapped(prog, rid):
    return any("mmap" in prog.recs[x].q.rsplit("::", 1)[-1] or "base_storage" in prog.recs[x].q for x in order(prog, rid)[1:])


def check_files(c, rep):
    prog = c.prog
    rep.rule("written", "what is not memory-mapped is written to its file after preparation and read back before matching, on every way through")
    rep.rule("archived", "the type archived into a file is the type read back from it")
    table = {}
    for n, mode, want, io in (("save_network", "prepare", OUT, "write"), ("load_network", "match", IN, "read")):
        fs = named(prog, n)
        for f in fs:
            net = tname(f["ps"][0]["t"])
            rid = f["ps"][0]["t"].get("r")
            st = reach_storages(prog, rid)
            rep.fn(f)
            outs = [s for k, s, v in runs(prog, c.lits, f) if k in (NEXT, RET)]
            for p in sorted(c.final):
                ks = {k for (k, fn) in c.kinds["match"].get(p, {})}
                kind = next(iter(ks)) if len(ks) == 1 else None
                if kind not in st or (mode, p) not in c.flag:
                    continue
                mapped = is_mapped(prog, st[kind])
                rep.instance("written", "%s: %s %s" % (n, dotted(p), "mapped" if mapped else "in memory"))
                for s in outs:
                    fl = flag(s, c.flag[(mode, p)])
                    es = [e for e in evs(s, "io") if p in e[3]]
                    if mapped and fl is not False and es:
                        rep.violation("overwritten:%s:%s" % (n, p[-1]), "%s %ss %s, which is memory-mapped" % (f.n, io, dotted(p)), where(es[0]))
                        break
                    if not mapped and fl is not True:
                        if not [e for e in es if e[1] == io]:
                            rep.violation("unwritten:%s:%s" % (n, p[-1]), "%s does not %s %s on a way on which %s is %s" % (
                                f.n, io, dotted(p), dotted(c.flag[(mode, p)]), "off" if fl is False else "not asked"), f.loc)
                            break
                        h = es[0][4]
                        if len(es) > 1:
                            rep.violation("twice:%s:%s" % (n, p[-1]), "%s %ss %s twice" % (f.n, io, dotted(p)), where(es[1]))
                            break
                        d = [x for x in es[0][3] if x[:2] != ("p:data", "files")]
                        if d[:1] != [want]:
                            rep.violation("place:%s:%s" % (n, p[-1]), "%s looks for %s in %s" % (f.n, dotted(p), dotted(d[0]) if d else "the working folder"), where(es[0]))
                            break
                        inner = reach_storages(prog, h[1])
                        if st[kind] not in inner.values():
                            rep.violation("wrong-part:%s:%s" % (n, p[-1]), "%s %ss %s of %s, memory mapping keeps the %s there" % (f.n, io, h[0], dotted(p), kind), where(es[0]))
                            break
                        for x in archived(prog, h[1]):
                            table.setdefault(p, {}).setdefault(mode, {})[x] = es[0]
    for p, ms in sorted(table.items()):
        rep.instance("archived", dotted(p))
        a, b = ms.get("prepare", {}), ms.get("match", {})
        if set(a) != set(b) and a and b:
            rep.violation("archived:%s" % p[-1], "what is archived into %s is not what is read from it" % dotted(p), where(list(b.values())[0]))


def archived(prog, rid):
    """types of the members that a helper hands to the archive, in order, per archive"""
    out = set()
    for f in prog.by_rec.get(rid, []):
        if f.n in ("serialize", "save", "load") and f.has_body:
            seq = []
            for n in ir.walk(f.body):
                if n.get("k") == "opcall" and n.get("op") in ("&", "<<", ">>") and len(n["a"]) == 2:
                    t = n["a"][1].get("t") or {}
                    seq.append(t.get("r") or t.get("n"))
            out.add(tuple(seq))
    return out


def order(prog, rid):
    out, todo = [], [rid]
    while todo:
        r = todo.pop(0)
        if r in out or r not in prog.recs:
            continue
        out.append(r)
        todo += [b["r"] for b in prog.recs[r].bases if b.get("r")]
    return out


STEP = ("save_network", "load_network", "create_compatible_network", "create_osm_handler")
EDIT = ("simplify", "remove_unconnected_components", "remove_duplicate_nodes", "remove_duplicate_edges")


def check_order(c, rep):
    prog = c.prog
    rep.rule("order", "preparation: import, clean up, convert, index, save; matching: load before the first track is handed over")
    fs = named(prog, "_import_network")
    for f in fs[:2]:
        rep.fn(f)
        outs = [s for k, s, v in runs(prog, c.lits, f, stop=STEP, bodies=1,
                preset={("p:data", "network", "format"): "osm", ("p:data", "osm_import", "profile"): "car"}) if k in (NEXT, RET)]
        rep.instance("order", "%s: %d ways" % (f.n, len(outs)))
        if not outs:
            rep.violation("order:none:" + f.n, "%s does not return" % f.short, f.loc)
        for s in outs:
            es = s.facts.get(("ev",), ())
            at = lambda ok: [i for i, e in enumerate(es) if ok(e)]
            call = lambda *ns: at(lambda e: e[0] == "call" and e[1] in ns)
            imp = at(lambda e: e[0] == "call" and e[1] == "read" and e[2].endswith("_importer"))
            edit, conv, idx = call(*EDIT), call("from_adjacency_list"), call("build_spatial_indices")
            save = at(lambda e: e[0] == "io" or e[0] == "call" and e[1] == "save_network")
            bad = None
            if not imp:
                bad = ("import", "never imports")
            elif not conv:
                bad = ("convert", "never converts the imported network")
            elif not idx:
                bad = ("index", "never builds the spatial index")
            elif edit and (edit[-1] > conv[0] or edit[0] < imp[-1]) or imp[-1] > conv[0]:
                bad = ("edit", "imports or cleans up the network after it was converted, or cleans it up before it was imported")
            elif idx[0] < conv[0]:
                bad = ("index-first", "builds the spatial index of the network before the network was converted")
            elif save and save[0] < idx[0]:
                bad = ("save-first", "saves the network before its spatial index is built")
            elif not save:
                fl = [flag(s, c.flag[("prepare", p)]) for p in sorted(c.final) if ("prepare", p) in c.flag]
                if any(x is not True for x in fl):
                    bad = ("unsaved", "does not save the network although not everything of it is memory-mapped")
            if bad is None:
                for i, e in enumerate(es):
                    if e[0] == "reset":
                        for e2 in es[i + 1:]:
                            if e2[0] == "call" and e2[6][:len(e[1])] == e[1]:
                                bad = ("reset:" + e2[1], "uses the network after it released it")
            if bad:
                rep.violation("order:%s:%s" % (f.n, bad[0]), "%s %s on a way through" % (f.short.split("<")[0], bad[1]), f.loc)
                break
    fs = named(prog, "_start_matching")
    for f in fs[:2]:
        rep.fn(f)
        outs = [s for k, s, v in runs(prog, c.lits, f, stop=STEP, bodies=1,
                preset={("p:data", "tracks", "file_extension"): "csv"}) if k in (NEXT, RET)]
        rep.instance("order", "%s: %d ways" % (f.n, len(outs)))
        for s in outs:
            es = s.facts.get(("ev",), ())
            load = [i for i, e in enumerate(es) if e[0] == "io" or e[0] == "call" and e[1] == "load_network"]
            work = [i for i, e in enumerate(es) if e[0] == "call" and (e[1] == "start" or e[1] == "read")]
            fl = [flag(s, c.flag[("match", p)]) for p in sorted(c.final) if ("match", p) in c.flag]
            if any(x is not True for x in fl) and not load:
                rep.violation("order:unloaded", "%s does not load the network although not everything of it is memory-mapped" % f.short.split("<")[0], f.loc)
                break
            if load and work and work[0] < load[-1]:
                rep.violation("order:late-load", "%s hands over tracks before the network is loaded" % f.short.split("<")[0], f.loc)
                break
            if not work:
                rep.violation("order:no-work", "%s matches nothing" % f.short.split("<")[0], f.loc)
                break


class IoCl(Client):
    max_depth = 3

    def on_cond(self, eng, st, fr, val, truth, node):
        while isinstance(val, tuple) and val[:2] == ("un", "!"):
            val, truth = val[2], not truth
        k = ("cond", val)
        if val == ("streamok",):
            if st.facts.setdefault(k, truth) != truth:
                return None
        return st

    def should_inline(self, eng, fn, callee, node):
        return "serialization/" in fn.file

    def may_throw(self, eng, st, fr, node, c):
        return False

    def on_call(self, eng, st, fr, n, c, obj, args):
        if n["k"] == "opcall" and n.get("op") in ("<<", ">>", "&") and "archive" in (c.get("rec") or c["q"]):
            st = st.copy()
            st.facts[("done",)] = True
            if st.facts.get(("cond", ("streamok",))) is not True and not st.facts.get(("guarded",)):
                st.facts[("blind",)] = True
            return [(NEXT, st, U)]
        if obj is not None and "basic_" in (c.get("rec") or c["q"]) + c["q"] or "fstream" in (c.get("rec") or ""):
            if c["n"] in ("is_open", "good", "operator bool"):
                return [(NEXT, st, ("streamok",))]
            if c["n"] in ("fail", "operator!"):
                return [(NEXT, st, ("un", "!", ("streamok",)))]
            if c["n"] == "exceptions" and args:
                st = st.copy()
                st.facts[("guarded",)] = True
                return [(NEXT, st, U)]
        return None


def check_stream(c, rep):
    prog = c.prog
    rep.rule("complete", "writing or reading a file either archives the data or reports the failure")
    fs = [f for f in prog.fns.values() if f.has_body and f.n in ("write", "read") and f.file.endswith(("io/serialization/serializer.hpp", "io/serialization/deserializer.hpp"))]
    for f in sorted(fs, key=lambda f: f.loc):
        rep.fn(f)
        eng = Engine(prog, IoCl())
        outs = eng.run(f)
        rep.instance("complete", "%s %s" % (f.short.split("<")[0], f.n))
        for k, s, v in outs:
            if k in (NEXT, RET) and not s.facts.get(("done",)):
                rep.violation("complete:%s" % f.n, "%s returns normally without having %s the data: a missing or unwritable file goes unnoticed" % (
                    f.q.split("<")[0] + "::" + f.n, "written" if f.n == "write" else "read"), f.loc)
                break
            if s.facts.get(("blind",)):
                rep.violation("complete:open:%s" % f.n, "%s goes on without knowing that its file could be opened" % f.short.split("<")[0], f.loc)
                break


def run(prog, rep):
    c = Ctx()
    c.prog = prog
    c.lits = literals(prog)
    c.tags = {}
    for t, vs in enum_table(prog, "open_or_create_tag", "destroy_on_close_tag", "shrink_on_close_tag").items():
        for v, n in vs.items():
            c.tags[n] = int(v)
    check_open(c, rep)
    check_files(c, rep)
    check_order(c, rep)
    check_stream(c, rep)
    rep.floor("switch", 6)
    rep.floor("life", 8)
    rep.floor("written", 8)
    rep.floor("order", 2)
    rep.floor("complete", 2)

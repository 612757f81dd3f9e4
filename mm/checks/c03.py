"""C03: a memory-mapped store keeps or drops its data exactly as asked when it is closed, and finds it again."""
from ..flow import Engine, St, RET, THROW
from .. import ir
from ..stores import StoreCl, store_records, alloc_fields, base_name, managed

TUS = ["verif:storages.cpp"]
NS = "map_matching_2::io::memory_mapped::storage::"
SIZE = ("size",)


def enums(prog):
    out = {}
    for f in prog.fns.values():
        if f.file.startswith("library/") and "/memory_mapped/" in f.file and f.has_body:
            for n in ir.walk(f.j):
                if isinstance(n, dict) and n.get("k") == "enum":
                    out[n["n"]] = ("c", int(n["v"]) if str(n["v"]).lstrip("-").isdigit() else n["v"])
    return out


def norm(v):
    """sizes: the size the container had, the requested size"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "term" and v[1] in ("get_size", "size"):
        return SIZE
    if v[0] == "in" and len(v[1]) == 1:
        return ("asked",)
    if v[0] == "op":
        a, b = norm(v[2]), norm(v[3])
        if v[1] == "*" and repr(b) < repr(a):
            a, b = b, a
        if v[1] == "+" and a == b:
            return ("op", "*", *sorted((("c", 2), a), key=repr))
        if v[1] == "<<" and b == ("c", 1):
            return ("op", "*", *sorted((("c", 2), a), key=repr))
        return ("op", v[1], a, b)
    return v


def larger(v):
    """an expression that is larger than the current size for every non-empty store"""
    return isinstance(v, tuple) and v[0] == "op" and v[1] == "*" and SIZE in v[2:] and any(x[0] == "c" and isinstance(x[1], (int, float)) and x[1] > 1 for x in v[2:])


def evs(s):
    out = []
    for e in s.facts.get("ev", ()):
        if e[0] == "map":
            out.append(("map", e[1], norm(e[3]) if e[3] is not None else None, e[2]))
        elif e[0] == "extend":
            out.append(("extend", norm(e[2]), None, e[1]))
        elif e[0] == "unmap":
            out.append(("unmap", None, None, None))
        else:
            out.append((e[0], None, None, e[1]))
    return out


def brief(es):
    return [e[:3] if e[0] in ("map", "extend") else e[0] for e in es]


def show(es):
    return ", ".join("%s%s" % (e[0], " " + str(e[1]) if e[0] == "map" else "") for e in es) or "nothing"


def run_op(prog, f, rec, allocs, seed=None, mapped=True, args=None):
    cl = StoreCl(prog, rec, allocs)
    eng = Engine(prog, cl)
    st = St()
    st.facts["mapped"] = mapped
    for k, v in (seed or {}).items():
        st.env["val", k] = v
    outs = eng.run(f, st=st, args=args)
    return cl, [(k, s, v) for k, s, v in outs]


CREATE = {"create_only": "create_only_t", "open_or_create": "open_or_create_t"}
OPEN = {"open": "open_only_t", "open_read_only": "open_read_only_t", "open_copy_on_write": "open_copy_on_write_t"}


def container(prog, rep):
    recs = [r for r in prog.recs.values() if r.q.startswith(NS + "mmap_container") or r.q.split("<")[0] == NS + "mmap_container"]
    rep.rule("container", "each operation of a memory-mapped container maps, unmaps, enlarges, trims and removes exactly what it says, on its own file")
    seen = 0
    for rec in sorted(recs, key=lambda r: str(r.id)):
        for f in sorted(prog.fns.values(), key=lambda f: f.loc):
            if f.r != rec.id or not f.has_body or f.j.get("def"):
                continue
            n, np = f.n, len(f["ps"])
            want = None
            if n in CREATE and np == 1:
                want, mapped = [[("map", CREATE[n], ("asked",))]], False
            elif n in OPEN and np == 0:
                want, mapped = [[("map", OPEN[n], None)]], False
            elif n == "destroy" and np == 0:
                want, mapped = [["unmap", "remove"]], True
            elif n == "destroy_and_create" and np == 1:
                want, mapped = [["unmap", "remove", ("map", "create_only_t", ("asked",))], ["remove", ("map", "create_only_t", ("asked",))]], None
            elif n == "grow" and np == 1:
                want, mapped = [["unmap", ("extend", ("op", "-", ("asked",), SIZE), None), ("map", "open_only_t", None)]], True
            elif n == "drop_grow" and np == 1:
                want, mapped = [["unmap", "remove", ("map", "create_only_t", ("asked",))]], True
            elif n in ("grow", "drop_grow") and np == 0:
                want, mapped = "grow", True
            elif n == "shrink_to_fit" and np == 1:
                want, mapped = "shrink", True
            if want is None:
                continue
            rep.fn(f)
            seen += 1
            key = "%s/%d" % (n, np)
            variants = [None] if want != "shrink" else [("c", True), ("c", False)]
            for var in variants:
                cl, outs = run_op(prog, f, rec, (), seed={("p:%s" % f["ps"][0]["n"],): var} if var else None, mapped=mapped)
                got = []
                for k, s, v in outs:
                    es = evs(s)
                    if es and k == RET:
                        got.append(es)
                    if s.facts.get("live"):
                        rep.violation("container:%s:live" % key, "%s changes or removes the file while it is still mapped (%s)" % (n, show(es)), f.loc)
                    for e in es:
                        if e[3] is not None and not any(l[:2] == ("this", "_path") or l[:2] == ("this", "_name") for l in e[3]):
                            rep.violation("container:%s:path" % key, "%s works on something else than the container's own file" % n, f.loc)
                if want == "grow":
                    b = {tuple(map(repr, brief(g))) for g in got}
                    for g in got:
                        for e in g:
                            size = e[2] if e[0] == "map" and e[2] is not None else (e[1][2] if e[0] == "extend" and isinstance(e[1], tuple) and e[1][0] == "op" and e[1][1] == "-" and e[1][3] == SIZE else None)
                            if e[0] in ("extend",) or (e[0] == "map" and e[1] == "create_only_t"):
                                if not larger(size):
                                    rep.violation("container:%s:larger" % key, "%s() without a size does not ask for more than the current size (%s)" % (n, size), f.loc)
                    if not got:
                        rep.violation("container:%s" % key, "%s() without a size does nothing" % n, f.loc)
                else:
                    w = want
                    if want == "shrink":
                        w = [["unmap", "trim"] + ([("map", "open_only_t", None)] if var[1] else [])]
                    wr = {repr(x) for x in w}
                    gr = {repr(brief(g)) for g in got}
                    if not gr:
                        rep.violation("container:%s" % key, "%s does not change the mapping or its file at all" % n, f.loc)
                    for g in got:
                        if repr(brief(g)) not in wr:
                            rep.violation("container:%s" % key, "%s%s does: %s; expected: %s" % (
                                n, " (reopen %s)" % var[1] if var else "", ", ".join(map(str, brief(g))), " or ".join(", ".join(map(str, x)) for x in w)), f.loc)
            rep.instance("container", key, f.loc)
    rep.floor("container", 10)


def base(prog, rep):
    rep.rule("directory", "a store's file lies in the store's directory under the file name given for it, opened in the mode asked for")
    for f in sorted(prog.fns.values(), key=lambda f: f.loc):
        if not f.has_body or not (f.q.startswith(NS + "mmap_base<") or f.q.startswith(NS + "mmap_base::")) or f.n not in set(CREATE) | set(OPEN) | {"destroy_and_create"}:
            continue
        cl = StoreCl(prog)
        calls = []

        class C(StoreCl):
            def on_call(self, eng, st, fr, node, c, obj, args):
                if c["n"] in set(CREATE) | set(OPEN) | {"destroy_and_create"} and "mmap_container" in c.get("rec", "") and fr.depth == 0:
                    calls.append((c["n"], tuple(args)))
                if c["n"] == "operator/":
                    calls.append(("/", tuple(eng.rv(st, a) if a[0] == "loc" else a for a in args), tuple(args)))
                return super().on_call(eng, st, fr, node, c, obj, args)
        eng = Engine(prog, C(prog))
        outs = eng.run(f)
        rep.fn(f)
        mode = CREATE.get(f.n) or OPEN.get(f.n) or "create_only_t"
        for k, s, v in outs:
            es = evs(s)
            names = [e for e in es if e[0] == "map"]
            if k == RET and (not names or names[-1][1] != mode or len(names) != 1):
                rep.violation("directory:%s" % f.n, "%s maps %s" % (f.n, ", ".join(str(e[1]) for e in names) or "nothing"), f.loc)
            if k == RET and ("remove" in brief(es)) != (f.n == "destroy_and_create"):
                rep.violation("directory:%s" % f.n, "%s %s an existing file" % (f.n, "keeps" if f.n == "destroy_and_create" else "removes"), f.loc)
        slash = [c for c in calls if c[0] == "/"]
        ok = any("_path" in repr(c[2][0]) and "p:" in repr(c[2][1]) for c in slash)
        if not ok and not any(("_path" in repr(c) and "p:" in repr(c)) for c in calls):
            rep.violation("directory:%s:path" % f.n, "%s does not put the file into the store's directory" % f.n, f.loc)
        rep.instance("directory", f.n, f.loc)
    rep.floor("directory", 5)


def flag(rec, enum):
    for f in rec.fields:
        if ((f.get("t") or {}).get("n") or "").endswith("::" + enum):
            return f["n"]


def accessors(prog, rep, rec, hs):
    nm = base_name(rec)
    acc = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.loc):
        if f.r != rec.id or not f.has_body or f["ps"] or f.j.get("acc") != "public" or "inits" in f.j or f.n.startswith("~"):
            continue
        cl, outs = run_op(prog, f, rec, ())
        for k, s, v in outs:
            if k == RET and v and v[0] in ("loc", "in", "ptr") and len(v[1]) >= 2 and v[1][0] == "this" and v[1][1] in hs:
                acc.setdefault(f.n, {}).setdefault(v[1][1], f.loc)
    for n in sorted(acc):
        if len(acc[n]) > 1:
            rep.violation("objects:%s:%s()" % (nm, n), "%s gives out %s" % (n, " or ".join(sorted(acc[n]))), sorted(acc[n].values())[0])
        for m in sorted(acc):
            if m < n and set(acc[m]) & set(acc[n]):
                rep.violation("objects:%s:%s()" % (nm, n), "%s and %s give out the same object" % (m, n), sorted(acc[n].values())[0])
        rep.instance("objects", "%s.%s()" % (nm, n))


def storages(prog, rep):
    ev = enums(prog)
    rep.rule("creation", "a store that is to be created replaces its file and makes every named object, one that is to be opened opens it read-only and finds them; the flags it was given are kept")
    rep.rule("closing", "closing removes the file exactly for temporary stores, trims it exactly for kept stores that ask for it, and never maps it again")
    rep.rule("objects", "every handle is looked up under the type and name it was created with, and no two handles share them")
    rep.rule("assigning", "assigning over a store first closes the old one as it asked for")
    need = ["DESTROY_AND_CREATE", "OPEN_READ_ONLY", "DESTROY_ON_CLOSE", "DO_NOT_DESTROY_ON_CLOSE", "SHRINK_ON_CLOSE", "DO_NOT_SHRINK_ON_CLOSE"]
    for i, n in enumerate(need):
        ev.setdefault(n, {"OPEN_READ_ONLY": ("c", 0), "DESTROY_AND_CREATE": ("c", 1)}.get(n, ("c", 0 if n.startswith("DO_NOT") else 1)))
    names = {base_name(r) for r, _ in store_records(prog)}
    for rec in sorted(prog.recs.values(), key=lambda r: (r.q, str(r.id))):
        if base_name(rec) in names and rec.q.startswith(NS) and not any(rec is r for r, _ in store_records(prog)):
            accessors(prog, rep, rec, {f["n"] for f in rec.fields if (f.get("t") or {}).get("n") == "std::unique_ptr"})
    for rec, cf in store_records(prog):
        nm = base_name(rec)
        allocs = alloc_fields(prog, rec)
        fo, fd, fs = flag(rec, "open_or_create_tag"), flag(rec, "destroy_on_close_tag"), flag(rec, "shrink_on_close_tag")
        if not (fo and fd and fs):
            rep.violation("creation:%s:flags" % nm, "%s does not keep its creation and closing flags" % nm, rec.file)
            continue
        made, found = {}, {}
        for f in sorted(prog.fns.values(), key=lambda f: f.loc):
            if f.r != rec.id or not f.has_body or f.j.get("def"):
                continue
            ptypes = [((p.get("t") or {}).get("n") or "").rsplit("::", 1)[-1] for p in f["ps"]]
            if "inits" in f.j and "open_or_create_tag" in ptypes:
                rep.fn(f)
                pn = {t: "p:" + p["n"] for t, p in zip(ptypes, f["ps"])}
                for mode in ("DESTROY_AND_CREATE", "OPEN_READ_ONLY"):
                    cl, outs = run_op(prog, f, rec, allocs, seed={(pn["open_or_create_tag"],): ev[mode]}, mapped=False)
                    for k, s, v in outs:
                        if k != RET:
                            continue
                        es = evs(s)
                        maps = [e for e in es if e[0] == "map"]
                        kinds = [e[0] for e in es]
                        if mode == "DESTROY_AND_CREATE":
                            ok = "remove" in kinds and len(maps) == 1 and maps[0][1] == "create_only_t" and kinds.index("remove") < kinds.index("map")
                        else:
                            ok = "remove" not in kinds and "trim" not in kinds and len(maps) == 1 and maps[0][1] == "open_read_only_t"
                        if not ok:
                            rep.violation("creation:%s:%s" % (nm, mode), "%s with %s does: %s" % (nm, mode, show(es)), f.loc)
                        for e in maps:
                            if not any(l[:2] == ("this", "_path") or l == (("p:%s" % f["ps"][0]["n"]),) for l in e[3]) or not any(str(l[0]).startswith("p:") for l in e[3]):
                                rep.violation("creation:%s:path" % nm, "%s does not map the file it was asked to map" % nm, f.loc)
                        want = ("make", "null") if mode == "DESTROY_AND_CREATE" else ("find",)
                        for h in sorted(cl.handles):
                            got = s.facts.get(("h", h), "old")
                            if got not in want:
                                rep.violation("creation:%s:%s:%s" % (nm, mode, h), "%s with %s leaves %s %s" % (nm, mode, h, {"old": "unset", "find": "looked up", "make": "newly made", "stale": "pointing to an old mapping"}.get(got, got)), f.loc)
                        for fl, tag in ((fo, "open_or_create_tag"), (fd, "destroy_on_close_tag"), (fs, "shrink_on_close_tag")):
                            v2 = s.env.get(("val", ("this", fl)))
                            exp = ev[mode] if fl == fo else ("in", (pn.get(tag),))
                            if v2 != exp:
                                rep.violation("creation:%s:flag:%s" % (nm, fl), "%s does not keep the flag it was given in %s (%s)" % (nm, fl, v2), f.loc)
                    if mode == "OPEN_READ_ONLY":
                        pass
                rep.instance("creation", nm, f.loc)
            if len(f["ps"]) == 1 and ptypes[0] == rec.q.split("<")[0].rsplit("::", 1)[-1] and ("inits" in f.j or f.n == "operator="):
                rep.fn(f)
                pn0 = "p:" + f["ps"][0]["n"]
                cl, outs = run_op(prog, f, rec, allocs, mapped="inits" not in f.j)
                for k, s, v in outs:
                    if k != RET:
                        continue
                    vs = {fl: s.env.get(("val", ("this", fl))) for fl in (fo, fd, fs)}
                    if f.n == "operator=" and not evs(s) and all(x is None or x == ("in", ("this", fl)) for fl, x in vs.items()):
                        continue   # assigned to itself
                    for fl, x in vs.items():
                        if x != ("in", (pn0, fl)):
                            rep.violation("moving:%s:%s" % (nm, fl), "%s moved %s does not take over %s" % (nm, "into" if f.n == "operator=" else "from", fl), f.loc)
                rep.instance("moving", "%s (%s)" % (nm, "assigned" if f.n == "operator=" else "constructed"), f.loc)
            is_dtor = f.n.startswith("~")
            if is_dtor or (f.n == "operator=" and ptypes and len(f["ps"]) == 1):
                rep.fn(f)
                rid = "closing" if is_dtor else "assigning"
                for d in ("DO_NOT_DESTROY_ON_CLOSE", "DESTROY_ON_CLOSE"):
                    for sh in ("DO_NOT_SHRINK_ON_CLOSE", "SHRINK_ON_CLOSE"):
                        cl, outs = run_op(prog, f, rec, allocs, seed={("this", fd): ev[d], ("this", fs): ev[sh]})
                        for k, s, v in outs:
                            if k != RET:
                                continue
                            es = evs(s)
                            kinds = [e[0] for e in es]
                            if not is_dtor and not es and s.env.get(("val", ("this", fd))) == ev[d] and s.facts.get("mapped") is True:
                                continue   # assigned to itself
                            # what happens to the old file
                            old = [e for e in es if e[0] in ("remove", "trim", "unmap", "map")]
                            rm = "remove" in kinds
                            tr = "trim" in kinds
                            want_rm = d == "DESTROY_ON_CLOSE"
                            want_tr = sh == "SHRINK_ON_CLOSE" and not want_rm
                            who = "%s%s (%s, %s)" % (nm, "" if is_dtor else " being assigned over", d, sh)
                            if rm != want_rm:
                                rep.violation("%s:%s:remove:%s" % (rid, nm, d), "%s %s its file" % (who, "removes" if rm else "keeps"), f.loc)
                            if tr != want_tr and not (rm and want_rm and tr):
                                rep.violation("%s:%s:trim:%s:%s" % (rid, nm, d, sh), "%s %s its file" % (who, "trims" if tr else "does not trim"), f.loc)
                            if "map" in kinds:
                                rep.violation("%s:%s:map" % (rid, nm), "%s maps its file again" % who, f.loc)
                            if "unmap" not in kinds and (is_dtor is False):
                                rep.violation("%s:%s:unmap" % (rid, nm), "%s keeps the old mapping" % who, f.loc)
                            if s.facts.get("live"):
                                rep.violation("%s:%s:live" % (rid, nm), "%s changes its file while it is still mapped" % who, f.loc)
                            for e in es:
                                if e[3] is not None and not any(l[:2] == ("this", cf) for l in e[3]):
                                    rep.violation("%s:%s:path" % (rid, nm), "%s works on something else than its own file" % who, f.loc)
                rep.instance(rid, nm, f.loc)
            # identities
            cl, _ = run_op(prog, f, rec, allocs)
            for h, ids in cl.made.items():
                made.setdefault(h, set()).update(ids)
            for h, ids in cl.found.items():
                found.setdefault(h, set()).update(ids)
        hs = {f["n"] for f in rec.fields if (f.get("t") or {}).get("k") == "p"}
        accessors(prog, rep, rec, hs)
        for h in sorted(hs):
            m, fo_ = made.get(h, set()), found.get(h, set())
            if not m or not fo_:
                rep.violation("objects:%s:%s:never" % (nm, h), "%s is never %s" % (h, "made" if not m else "looked up"), rec.file)
            elif m != fo_ or len(m) != 1:
                rep.violation("objects:%s:%s" % (nm, h), "%s is made as %s but looked up as %s" % (h, "; ".join(sorted(m)), "; ".join(sorted(fo_))), rec.file)
            for g in sorted(hs):
                if g < h and made.get(g) and made.get(g) & m:
                    rep.violation("objects:%s:%s" % (nm, h), "%s and %s are the same object" % (g, h), rec.file)
            rep.instance("objects", "%s.%s" % (nm, h))
    rep.floor("creation", 5)
    rep.floor("closing", 5)
    rep.rule("moving", "a store that is moved stays temporary, to be trimmed and new as it was")
    rep.floor("moving", 5)
    rep.floor("assigning", 5)
    rep.floor("objects", 8)


def run(prog, rep):
    container(prog, rep)
    base(prog, rep)
    storages(prog, rep)
    rep.note("the allocation inside boost::interprocess, and what the file system does with a removed or trimmed file, are taken as documented")

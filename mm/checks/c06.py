"""C06: every persisted type archives its whole state, in saving and in loading."""
from ..flow import Engine, Client, NEXT, RET, THROW
from .. import ir

TUS = ["verif:serialize.cpp"]

# state that is not part of the persisted content (by the type that holds it or, for helpers, by field)
RESOURCE = ("allocation_counter", "allocator", "memory_resource", "monotonic_buffer_resource",
            "unsynchronized_pool_resource", "pool_resource", "thread_safe_allocation_counter",
            "counting_allocator", "counting_polymorphic_allocator", "counting_interprocess_allocator",
            "interprocess_allocator")
NOT_PERSISTED = {
    ("graph_storage", "_vertex_index_map"): "import-time index, rebuilt on import",
    ("index_helper", "_index_build_helper"): "build-time scratch storage",
    ("graph_helper", "_tag_helper"): "persisted in a file of its own",
}
# fields only needed while the dictionary still grows; may be left out once finalized
CONDITIONAL = {
    ("tag_storage", "_key_id_map"): ("_finalized", True),
    ("tag_storage", "_value_id_map"): ("_finalized", True),
    ("tag_storage", "_ids_map"): ("_finalized", True),
}
ARCHIVES = ("verif::saver", "verif::loader")
OPS = ("operator&", "operator<<", "operator>>")


class Cl(Client):
    def __init__(self):
        self.bad = []

    def on_call(self, eng, st, fr, node, c, obj, args):
        rec = c.get("rec", "")
        if rec in ARCHIVES and c["n"] in OPS:
            v = args[0]
            st = st.copy()
            st.facts["arch"] = st.facts.get("arch", ()) + (v,)
            return [(NEXT, st, obj)]
        n = c["n"]
        if n == "base_object" and args and args[0][0] == "loc":
            rt = c.get("rt") or {}
            return [(NEXT, st, ("loc", args[0][1] + ("base:" + rt.get("r", "?"),)))]
        if n == "make_nvp" and len(args) == 2:
            return [(NEXT, st, args[1])]
        if n in ("make_binary_object", "make_array") and args:
            return [(NEXT, st, args[0])]
        if n in ("split_member", "split_free") and len(args) == 3:
            name = "save" if "saver" in str(node) else "load"
            # the archive's type decides the direction
            at = (c.get("pt") or [None])[0] or {}
            name = "save" if at.get("n") == "verif::saver" else "load"
            ot = (c.get("pt") or [None, None])[1] or {}
            for f in eng.p.fns.values():
                if f.n != name and not f.q.endswith("::" + name):
                    continue
                if f.has_body and f["ps"] and (f["ps"][0].get("t") or {}).get("n") == at.get("n"):
                    if n == "split_member" and f.r == ot.get("r"):
                        f2 = eng.new_frame(f, args[1], fr.depth + 1)
                        return [(NEXT if k == RET else k, s, None) for k, s, v in eng.enter(f, f2, [args[0], args[2]], st)]
                    if n == "split_free" and len(f["ps"]) == 3 and (f["ps"][1].get("t") or {}).get("r") == ot.get("r"):
                        f2 = eng.new_frame(f, None, fr.depth + 1)
                        return [(NEXT if k == RET else k, s, None) for k, s, v in eng.enter(f, f2, args, st)]
            return None
        return None

    def on_cond(self, eng, st, fr, val, truth, node):
        st.facts["conds"] = st.facts.get("conds", ()) + ((val, truth),)
        return st


def required(prog, rec):
    req = {}
    base = rec.q.rsplit("::", 1)[-1].split("<")[0]
    for f in rec.fields:
        t = f.get("t") or {}
        s = t.get("s", "")
        head = s.split("<", 1)
        inner = s
        if s.startswith("std::unique_ptr<"):
            inner = s[len("std::unique_ptr<"):]
        nm = inner.split("<")[0].split("::")[-1].replace("_type", "").strip(" >&*")
        canon = prog_inner(prog, t)
        if nm in RESOURCE or canon in RESOURCE:
            continue
        if (base, f["n"]) in NOT_PERSISTED:
            continue
        req[f["n"]] = ("field", f["n"])
    for b in rec.bases:
        br = prog.recs.get(b.get("r"))
        if br is not None and not br.fields and not br.bases:
            continue   # empty base
        req["base:" + b["r"]] = ("base", b.get("q") or b.get("n") or b["r"])
    return base, req


def prog_inner(prog, t):
    return (t.get("n") or "").rsplit("::", 1)[-1]


def seqs(prog, fn, isfree):
    cl = Cl()
    eng = Engine(prog, cl)
    outs = eng.run(fn)
    res = []
    for k, s, v in outs:
        if k == THROW:
            continue
        res.append((s.facts.get("arch", ()), s.facts.get("conds", ())))
    return res, eng


def arch_names(root, arch):
    out, foreign = [], []
    for v in arch:
        if v[0] == "loc" and v[1][:len(root)] == root:
            out.append(v[1][len(root)] if len(v[1]) > len(root) else "*self")
            if len(v[1]) > len(root) + 1:
                foreign.append(v)
        else:
            foreign.append(v)
    return out, foreign


def run(prog, rep):
    rep.rule("complete", "on every path of serialize (saving and loading archive) every persisted field and every non-empty "
                         "base of the object itself is archived exactly once")
    rep.rule("symmetric", "the saving and the loading path archive the same members in the same order")
    rep.rule("stream", "serializer and deserializer archive exactly the object they were constructed with, binary on both sides")
    sers = {}
    for f in prog.fns.values():
        if not f.has_body or f.q.rsplit("::", 1)[-1] != "serialize" or not f.file.startswith("library/"):
            continue
        ps = f["ps"]
        if not ps or (ps[0].get("t") or {}).get("n") not in ARCHIVES:
            continue
        free = not f.rec
        subj = (ps[1].get("t") or {}).get("s") if free else f.q.rsplit("::", 1)[0]
        sers.setdefault((f.loc, f.r or subj), {})[ps[0]["t"]["n"]] = (f, free)
    names = set()
    for (loc, r), d in sorted(sers.items()):
        if len(d) != 2:
            continue
        all_paths = {}
        for a, (f, free) in d.items():
            rep.fn(f)
            if free:
                name = "serialize(%s)" % ((f["ps"][1].get("t") or {}).get("n") or "").rsplit("::", 1)[-1]
                root = ("p:%s" % f["ps"][1]["n"],)
                rec = None
            else:
                rec = prog.recs.get(f.r)
                name = rec.q.replace("map_matching_2::", "")
                name = name.split("<")[0] if "<" not in name else strip(name)
                root = ("this",)
            paths, eng = seqs(prog, f, free)
            rep.instance("complete", "%s@%s" % (name, f.file), f.loc)
            names.add(name)
            for l in eng.inlined:
                rep.fn(l)
            if rec is not None:
                base, req = required(prog, rec)
            else:
                base, req = name, {"*self": ("object", name)}
            pk = set()
            for arch, conds in paths:
                got, foreign = arch_names(root, arch)
                for k, (kind, what) in req.items():
                    if got.count(k) == 1:
                        continue
                    if got.count(k) > 1:
                        rep.violation("twice:%s:%s" % (name, what), "%s archives %s %s twice" % (name, kind, what), f.loc)
                        continue
                    cond = CONDITIONAL.get((base, k))
                    if cond and any(cv == ("in", root + (cond[0],)) and t == cond[1] for cv, t in conds):
                        continue
                    what2 = what if kind != "base" else basename(prog, k)
                    rep.violation("missing:%s:%s" % (name, what2),
                                  "%s of %s: %s %s is not archived%s" % ("saving" if "saver" in a else "loading", name, kind,
                                                                           what2, " when " + " and ".join(
                                      "%s is %s" % (show(c), t) for c, t in conds) if conds else ""), f.loc)
                pk.add(tuple(got))
            all_paths[a] = pk
        rep.instance("symmetric", name)
        if len({frozenset(x) for x in all_paths.values()}) != 1:
            rep.violation("asymmetric:%s" % name, "%s saves %s but loads %s" % (
                name, sorted(all_paths["verif::saver"]), sorted(all_paths["verif::loader"])), loc)
    rep.floor("complete", 28)
    rep.floor("symmetric", 28)
    stream(prog, rep)


def basename(prog, k):
    r = prog.recs.get(k[5:])
    return r.q.rsplit("::", 1)[-1].split("<")[0] if r else k


def strip(name):
    """qualified name without template arguments"""
    out, d = [], 0
    for ch in name:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    # keep whether the data type is void
    return s + ("<void>" if name.endswith("<void>") else "")


def show(v):
    if v[0] in ("loc", "in"):
        return ".".join(str(x).split("#")[0] for x in v[1])
    return str(v[0])


class SCl(Client):
    """serializer::write / deserializer::read"""

    def on_call(self, eng, st, fr, node, c, obj, args):
        rec = c.get("rec", "")
        if rec.startswith("boost::archive::") and c["n"] in ("operator<<", "operator>>", "operator&") and args:
            st = st.copy()
            st.facts["io"] = st.facts.get("io", ()) + ((rec.rsplit("::", 1)[-1], c["n"], args[0]),)
            return [(NEXT, st, obj)]
        if rec.startswith("boost::archive::") and c.get("ctor"):
            st = st.copy()
            st.facts["arch"] = st.facts.get("arch", ()) + (rec.rsplit("::", 1)[-1],)
            return None
        if c["n"] == "open" and rec.startswith("std::"):
            st = st.copy()
            st.facts["open"] = "binary"
            return None
        return None

    def on_cond(self, eng, st, fr, val, truth, node):
        st.facts["c"] = st.facts.get("c", ()) + ((str(val)[:80], truth),)
        return st


def stream(prog, rep):
    found = {}
    for cls, meth in (("serializer", "write"), ("deserializer", "read")):
        for f in prog.fns.values():
            if f.has_body and f.rec.endswith("serialization::" + cls) and f.q.endswith("::" + meth):
                eng = Engine(prog, SCl())
                outs = eng.run(f)
                rep.instance("stream", "%s::%s" % (cls, meth), f.loc)
                done = set()
                for k, s, v in outs:
                    io = s.facts.get("io", ())
                    if io:
                        done.add((tuple((a, p) for a, _, p in io), s.facts.get("arch")))
                if not done:
                    rep.violation("stream-none:%s" % cls, "%s::%s archives nothing on any path" % (cls, meth), f.loc)
                for io, arch in done:
                    if len(io) != 1 or not (io[0][1][0] == "loc" and io[0][1][1][0] == "this"):
                        rep.violation("stream-object:%s" % cls, "%s::%s archives %s, not once the object it was constructed with" % (
                            cls, meth, [show(p) for _, p in io]), f.loc)
                    found.setdefault(cls, set()).add(arch)
    rep.floor("stream", 2)
    a = {x[0].replace("_oarchive", "") for x in found.get("serializer", ()) if x}
    b = {x[0].replace("_iarchive", "") for x in found.get("deserializer", ()) if x}
    if a and b and a != b:
        rep.violation("stream-format", "serializer writes %s archives, deserializer reads %s archives" % (sorted(a), sorted(b)),
                      "library/include/io/serialization/serializer.hpp")

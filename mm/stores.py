"""What an operation of a memory-mapped store does to its file, its mapping and the handles into it (shared by C01 and C03)."""
from .flow import Client, NEXT, RET, THROW
from . import ir

NS = "map_matching_2::io::memory_mapped::storage::"


def managed(rec):
    return (rec or "").startswith("boost::interprocess::basic_managed_")


def tagname(node):
    a = (node.get("a") or [None])[0] if isinstance(node, dict) else None
    t = (a or {}).get("t") or {}
    n = (t.get("n") or t.get("s") or "").replace("const ", "").strip(" &")
    return n.rsplit("::", 1)[-1] if n.endswith("_t") else None


def leafs(v, out=None):
    """locations and constants a value is made of"""
    out = set() if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] in ("in", "loc", "ptr") and len(v) > 1 and isinstance(v[1], tuple):
            if not str(v[1][0]).startswith("t:"):
                out.add(v[1])
            return out
        if v[0] == "c":
            out.add(("c", v[1] if len(v) > 1 else None))
            return out
        for x in (v if isinstance(v[0], tuple) else v[1:]):
            leafs(x, out)
    return out


class StoreCl(Client):
    max_depth = 14

    def __init__(self, prog, rec=None, allocs=(), root=("this",)):
        self.prog = prog
        self.root = root
        self.handles = {f["n"] for f in rec.fields if (f.get("t") or {}).get("k") == "p"} if rec else set()
        self.allocs = set(allocs)
        self.made, self.found = {}, {}
        self.bad = []

    # ---------------------------------------------------------------- facts
    def ev(self, st, *e):
        st.facts["ev"] = st.facts.get("ev", ()) + (e,)

    def val(self, eng, st, v):
        if v and v[0] == "loc":
            return eng.rv(st, v)
        if v and v[0] in ("op", "un"):
            return v[:2] + tuple(self.val(eng, st, x) if isinstance(x, tuple) else x for x in v[2:])
        return v

    def unmap(self, st):
        if st.facts.get("mapped", True):
            self.ev(st, "unmap")
        st.facts["mapped"] = False
        st.facts["mode"] = None
        for h in self.handles:
            if st.facts.get(("h", h), "old") != "null":
                st.facts["h", h] = "stale"
        for a in self.allocs:
            if st.facts.get(("a", a), "old") != "null":
                st.facts["a", a] = "stale"

    def should_inline(self, eng, fn, callee, node):
        return fn.file.startswith("library/") and "/io/memory_mapped/" in fn.file and \
            fn.n not in ("process_info", "compare_info", "write_info", "write_and_compare_info")

    def on_delete(self, eng, st, fr, v, node):
        if v and v[0] in ("in", "ptr", "loc") and len(v[1]) and (v[1][-1] == "_storage" or str(v[1][0]).startswith("new:")):
            self.unmap(st)

    def on_call(self, eng, st, fr, node, c, obj, args):
        n, rec, q = c["n"], c.get("rec", ""), c["q"]
        if c.get("ctor") == "other" and managed(rec) and len(args) >= 2:
            st = st.copy()
            mode = tagname(node)
            self.ev(st, "map", mode, tuple(sorted(leafs(args[1]), key=repr)), self.val(eng, st, args[2]) if mode in ("create_only_t", "open_or_create_t") and len(args) > 2 else None)
            st.facts["mapped"] = True
            st.facts["mode"] = mode
            return [(NEXT, st, obj)]
        if c.get("static") and n in ("grow", "shrink_to_fit") and managed(rec):
            st = st.copy()
            self.ev(st, "extend" if n == "grow" else "trim", tuple(sorted(leafs(args[0]), key=repr)), self.val(eng, st, args[1]) if n == "grow" else None)
            if st.facts.get("mapped") is not False:
                st.facts["live"] = True
            return [(NEXT, st, ("u",))]
        if n in ("remove", "remove_all") and (q.startswith("boost::interprocess") or q.startswith("std::filesystem")):
            st = st.copy()
            if st.facts.get("mapped") is not False:
                st.facts["live"] = True
            self.ev(st, "remove", tuple(sorted(leafs(args[0]), key=repr)))
            return [(NEXT, st, ("u",))]
        if n in ("find", "find_or_construct", "construct", "destroy") and rec.startswith("boost::interprocess::") and (c.get("tr") or [None])[0]:
            t = c["tr"][0]
            ident = "%s|%s" % (t.get("r") or t.get("n"), "/".join(sorted(self.ident(args))))
            st = st.copy()
            if n == "find":
                if st.facts.get("mapped") is False:
                    self.bad.append(("unmapped", "an object is looked for while nothing is mapped", fr, node))
                return [(NEXT, st, ("loc", ("obj:find:" + ident,)))]
            if n == "destroy":
                return [(NEXT, st, ("u",))]
            return [(NEXT, st, ("term", "@make", None, (("c", ident),)))]
        if n == "operator()" and obj and obj[0] == "term" and obj[1] == "@make":
            return [(NEXT, st, ("ptr", ("obj:make:" + obj[3][0][1],)))]
        if obj and obj[0] == "loc" and len(obj[1]) == len(self.root) + 1 and obj[1][:-1] == self.root and obj[1][-1] in self.allocs:
            a = obj[1][-1]
            if n == "reset" or n == "release":
                st = st.copy()
                v = eng.rv(st, args[0]) if args and args[0][0] == "loc" else (args[0] if args else None)
                isnull = n == "release" or not args or v in (("c", None), ("c", 0)) or args[0][0] == "u"
                st.facts["a", a] = "null" if isnull else "fresh"
                return [(NEXT, st, ("u",))]
            if n == "operator=":
                v = eng.rv(st, args[0]) if args and args[0][0] == "loc" else (args[0] if args else None)
                st = st.copy()
                st.facts["a", a] = "null" if not args or v in (("c", None), ("c", 0)) else ("fresh" if st.facts.get("mapped") is not False else "stale")
                return [(NEXT, st, obj)]
        return None

    def ident(self, args):
        out = set()
        for l in leafs(tuple(("x",) + tuple(args))):
            if l[0] == "c":
                out.add(str(l[1]))
            elif str(l[0]).startswith("g:"):
                out.add(str(l[0]).rsplit("::", 1)[-1])
        return out

    def on_write(self, eng, st, fr, path, value, node, op="="):
        r = self.root
        if len(path) == len(r) + 1 and path[:-1] == r and path[-1] in self.handles:
            v = eng.rv(st, value) if value and value[0] == "loc" else value
            p = v[1] if v and v[0] in ("ptr", "in") and isinstance(v[1], tuple) else None
            h = path[-1]
            if p and str(p[0]).startswith("obj:"):
                how, ident = p[0][4:8], p[0][9:] + "".join("." + str(x) for x in p[1:] if x not in ("first", "*"))
                (self.made if how == "make" else self.found).setdefault(h, set()).add(ident)
                if st.facts.get("mapped") is False:
                    st.facts["h", h] = "stale"
                else:
                    st.facts["h", h] = how
            elif v in (("c", None), ("c", 0), ("c", False)) or (v and v[0] == "null"):
                st.facts["h", h] = "null"
            else:
                st.facts["h", h] = "other"
        if path and path[-1] == "_storage":
            pass

    def on_cond(self, eng, st, fr, v, truth, node):
        if not v:
            return st
        if v[0] == "ptr":
            return st if truth else None
        if v[0] == "c" and v[1] is None:
            return None if truth else st
        ls = leafs(v)
        if len(ls) == 1:
            l = next(iter(ls))
            if l[:-1] == self.root and l[-1] in self.allocs:
                s = st.facts.get(("a", l[-1]), "old")
                if (s == "null") == bool(truth):
                    return None
            if l and l[-1] == "_storage" and v[0] == "in":
                m = st.facts.get("mapped")
                if m is False and truth or m is True and not truth:
                    return None
                if m is None:
                    st.facts["mapped"] = bool(truth)
                    if not truth:
                        st.facts["was"] = "closed"
        key = ("cond", v)
        if v[0] in ("op", "in", "term"):
            if key in st.facts and st.facts[key] != truth:
                return None
            st.facts[key] = truth
        return st

    def may_throw(self, eng, st, fr, node, callee):
        return False


def alloc_fields(prog, rec):
    """smart pointer fields that hold something made from the mapping's segment manager"""
    out = set()
    for f in prog.fns.values():
        if f.r != rec.id or not f.has_body:
            continue
        for c in ir.calls(f.body):
            cc = c.get("c") or {}
            if cc.get("n") in ("operator=", "reset") and "ptr" in cc.get("rec", ""):
                sub = list(ir.calls(c))
                if any((x.get("c") or {}).get("n") == "get_segment_manager" for x in sub):
                    for n in ir.walk(c):
                        if n.get("k") == "mem" and n.get("n") in {x["n"] for x in rec.fields} and n["n"] != "_container":
                            t = n.get("t") or {}
                            if "ptr" in (t.get("n") or ""):
                                out.add(n["n"])
                                break
    return out


def store_records(prog):
    """records that own a memory-mapped container"""
    res = []
    for r in sorted(prog.recs.values(), key=lambda r: (r.q, str(r.id))):
        for f in r.fields:
            if ((f.get("t") or {}).get("n") or "").endswith("storage::mmap_container"):
                res.append((r, f["n"]))
    return res


def base_name(rec):
    return rec.q.split("<")[0].rsplit("::", 1)[-1]

"""C20: worker threads change nothing that another thread may be using."""
import re

from .. import ir

TUS = ["verif:workers.cpp", "library/src/compare/comparator.cpp", "library/src/compare/comparator/compare_task.cpp",
       "library/src/matching/matcher/match_task.cpp", "library/src/geometry/cache.cpp", "library/src/util/time_helper.cpp"]

COORD = "map_matching_2::util::coordinator"
SYNC = re.compile(r"(^|[:_ ])(mutex|shared_mutex|recursive_mutex|timed_mutex|condition_variable(_any)?|atomic(_flag|_ref)?|counting_semaphore|"
                  r"binary_semaphore|once_flag|barrier|latch|(sync_|sync_bounded_)queue(_base)?|basic_thread_pool|executor|osyncstream|"
                  r"stop_source|stop_token)(<|$|\b)")
GUARD = re.compile(r"(^|::)(lock_guard|scoped_lock|unique_lock|shared_lock|shared_lock_guard|strict_lock|externally_locked)(<|$)")
REFLIKE = re.compile(r"iterator|reference_wrapper|_view\b|span|subrange")
# functions of the runtime that keep what they answer in one place for all threads
HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale",
          "tmpnam", "setenv", "putenv", "unsetenv", "readdir", "getlogin", "strerror", "lgamma"}
PASS = {"move", "forward", "as_const", "ref", "cref", "addressof", "__addressof", "get", "get_if", "max", "min", "next", "prev", "begin", "end",
        "move_if_noexcept", "forward_like", "to_address", "data", "rbegin", "rend", "tie", "make_tuple", "launder", "exchange", "swap"}
LOOK = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "data", "size", "empty", "front", "back", "get", "operator->", "operator*",
        "value", "top", "lower_bound", "upper_bound", "equal_range", "contains", "count", "lock", "capacity", "local", "load",
        "operator bool", "get_allocator", "good", "is_open", "rdbuf", "what", "str", "index", "operator()", "has_value"}


def sync(t):
    """something several threads may use at once"""
    return t is not None and bool(SYNC.search(t["n"]))


def flags(t):
    return (t or {}).get("f", "")


def changeable_ref(t):
    """a reference or pointer through which can be written"""
    f = flags(t)
    if "*" in f:
        return "k" not in f
    if "&" in f:
        return "c" not in f
    return False


class Reach:
    """what runs on the worker threads, and what they change of what is not their own"""

    def __init__(self, prog, rep, globs):
        self.prog, self.rep, self.globs = prog, rep, globs
        self.done, self.work, self.viol = set(), [], []
        self.functions, self.lookups = {}, set()
        self.over = {}
        for f in prog.fns.values():
            if f.rec and f.has_body:
                self.over.setdefault(f.n, []).append(f)
        self.subs = {}
        for r in prog.recs.values():
            for b in prog.bases_closure(r.id):
                self.subs.setdefault(b, set()).add(r.id)
        self.entry_of = {}

    def add(self, fn, this, params, entry):
        key = (fn.id, this, params)
        if key in self.done or not fn.has_body:
            return
        self.done.add(key)
        self.functions.setdefault(fn.id, fn)
        self.entry_of.setdefault(fn.id, entry)
        self.work.append((fn, this, params, entry))

    def run(self):
        while self.work:
            fn, this, params, entry = self.work.pop()
            Body(self, fn, this, params, entry).go()

    def targets(self, c):
        f = self.prog.callee_fn(c)
        out = [f] if f is not None and f.has_body else []
        if c.get("virt") and c.get("r"):
            for g in self.over.get(c["n"], ()):
                if g not in out and g.r in self.subs.get(c["r"], ()):
                    out.append(g)
        return out

    def bad(self, fn, what, n, key):
        self.viol.append((fn, what, (n or {}).get("l", 0), key))


class Body:
    def __init__(self, reach, fn, this, params, entry):
        self.R, self.prog, self.fn, self.this, self.entry = reach, reach.prog, fn, this, entry
        self.sh = {}                 # declared names that stand for something shared
        self.locked = False
        for i, p in enumerate(fn["ps"]):
            if i in params:
                self.sh[p["d"]] = "a parameter"
        self.globs = reach.globs

    def go(self):
        j = self.fn.j
        for init in j.get("inits") or ():
            self.expr(init["e"])
            what = self.shared(init["e"])
            if what and not sync(init["e"].get("t") if init["e"] else None):
                fields = {f["n"]: f for r in self.prog.recs.values() if r.id == self.fn.r for f in r.fields}
                f = fields.get(init.get("m"))
                if f is not None and changeable_ref(f["t"]) and not sync(f["t"]):
                    self.write(init["e"], what, "is kept to be changed later")
        self.stmt(j.get("body"))

    # -- what an expression stands for ----------------------------------
    def shared(self, e):
        """a name of what is shared, if this is something shared that can be changed"""
        if not e:
            return None
        k = e.get("k")
        if k == "this":
            return "the worker" if self.this else None
        if k == "ref":
            if e.get("s") in ("global", "smember") and e.get("q") in self.globs:
                return None if sync(self.globs[e["q"]]["t"]) else "the variable " + e["q"].rsplit("::", 1)[-1]
            return self.sh.get(e.get("d"))
        if k == "mem":
            if e.get("static"):
                q = [g for g in self.globs.values() if g["n"] == e["n"]]
                return "the variable " + e["n"] if q and not sync(q[0]["t"]) else None
            b = self.shared(e["b"])
            if not b:
                return None
            t = e.get("t")
            if sync(t) or ("&" in flags(t) and "c" in flags(t)) or ("*" in flags(t) and "k" in flags(t) and "c" in flags(t)):
                return None
            return "the member " + e["n"]
        if k in ("cast", "icast", "paren"):
            return self.shared(e.get("e"))
        if k == "x":
            for a in e.get("a") or ():
                s = self.shared(a)
                if s:
                    return s
            return None
        if k == "un":
            return self.shared(e["e"]) if e["op"] in ("*", "&", "++", "--") else None
        if k == "sub":
            return self.shared(e["b"])
        if k == "asg":
            return self.shared(e["a"])
        if k == "bin" and e["op"] == ",":
            return self.shared(e["b"])
        if k == "bin" and e["op"] in ("+", "-") and "*" in flags(e.get("t")):
            return self.shared(e["a"]) or self.shared(e["b"])
        if k == "cond":
            return self.shared(e["a"]) or self.shared(e["b"])
        if k in ("opcall", "mcall", "call"):
            c = e.get("c") or {}
            rt = c.get("rt")
            if rt is not None and not (changeable_ref(rt) or REFLIKE.search(rt["n"])):
                return None
            obj = e.get("o") if k == "mcall" else (e["a"][0] if k == "opcall" and e.get("a") else None)
            s = self.shared(obj)
            if s:
                return s
            if k == "call" and (c.get("n") in PASS or self.R.targets(c)):
                for a in e.get("a") or ():
                    s = self.shared(a)
                    if s:
                        return s
            return None
        if k == "ctor":
            if (e.get("t") and (REFLIKE.search(e["t"]["n"]))) and e.get("a"):
                for a in e["a"]:
                    s = self.shared(a)
                    if s:
                        return s
        if k == "init":
            return None
        return None

    # -- effects -----------------------------------------------------------
    def write(self, n, what, how):
        if self.locked:
            return
        self.R.bad(self.fn, "%s, which other threads use as well, %s without a lock" % (what, how), n,
                   "%s:%s" % (what.rsplit(" ", 1)[-1], self.fn.n))

    def bind(self, var, init, ref=None):
        t = var.get("t")
        what = self.shared(init) if init else None
        if what and t is not None and (changeable_ref(t) or REFLIKE.search(t["n"])) and not sync(t):
            self.sh[var["d"]] = what
            for b in var.get("bind") or ():
                self.sh[b["d"]] = what
        if what:
            for b in var.get("bind") or ():
                if changeable_ref(t):
                    self.sh[b["d"]] = what

    def var(self, v):
        t = v.get("t")
        if v.get("static") and not v.get("tls") and "c" not in flags(t) and not sync(t):
            self.sh[v["d"]] = "the static variable " + v["n"]
            return                     # its first value is set once, under the lock of the compiler
        if v.get("e"):
            self.expr(v["e"])
            self.bind(v, v["e"])
        if t is not None and GUARD.search(t["n"]):
            self.locked = True

    def stmt(self, s):
        if s is None:
            return
        k = s.get("k")
        if k == "block":
            was = self.locked
            for x in s["s"]:
                self.stmt(x)
            self.locked = was
        elif k == "decl":
            for v in s["v"]:
                self.var(v)
        elif k == "expr":
            self.expr(s["e"])
        elif k == "ret":
            self.expr(s.get("e"))
        elif k == "rfor":
            self.stmt(s.get("init"))
            self.expr(s["r"])
            self.bind(s["v"], s["r"])
            self.stmt(s["b"])
        elif k == "try":
            self.stmt(s["b"])
            for h in s["h"]:
                self.stmt(h["b"])
        else:
            for key in ("init", "cv", "c", "v", "a", "b", "inc", "s"):
                x = s.get(key)
                if isinstance(x, list):
                    for y in x:
                        self.stmt(y)
                elif isinstance(x, dict):
                    if key == "cv" and "d" in x:
                        self.var(x)
                    elif x.get("k") in ("block", "decl", "expr", "ret", "rfor", "try", "if", "for", "while", "do", "switch", "case",
                                        "default", "break", "continue", "nop", "xs"):
                        self.stmt(x)
                    else:
                        self.expr(x)

    def expr(self, e):
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "lambda":
            return self.lam(e, False)
        if k == "asg":
            what = self.shared(e["a"])
            if what:
                self.write(e, what, "is changed")
        elif k == "un" and e["op"] in ("++", "--", "++p", "--p"):
            what = self.shared(e["e"])
            if what:
                self.write(e, what, "is changed")
        elif k == "delete":
            what = self.shared(e["e"])
            if what:
                self.write(e, what, "is deleted")
        elif k == "cast":
            self.cast(e)
        elif k == "ref" and e.get("s") in ("global", "smember") and e.get("q") in self.R.tls:
            self.R.lookups.add(e["q"])
        elif k in ("call", "mcall", "opcall", "ctor") and e.get("c"):
            self.call(e)
        for x in ir.kids(e):
            if x.get("k") == "lambda":
                self.lam(x, k in ("call", "mcall", "opcall") and any(self.shared(a) for a in e.get("a") or ()))
            else:
                self.expr(x)

    def lam(self, e, handed):
        for cap in e.get("caps") or ():
            if cap.get("init") is not None:
                self.expr(cap["init"])
                what = self.shared(cap["init"])
                if what and cap.get("ref"):
                    self.sh[cap["d"]] = what
        for b in e.get("bodies") or ():
            if handed:
                for p in b["ps"]:
                    if changeable_ref(p["t"]):
                        self.sh[p["d"]] = "what the function is given"
            was = self.locked
            self.stmt(b["body"])
            self.locked = was

    def cast(self, e):
        """taking away const from what is not this function's own to change"""
        t, x = e.get("t"), e.get("e")
        if not changeable_ref(t) or not isinstance(x, dict):
            return
        src = x.get("t") or {}
        const = ("k" in flags(src)) if "*" in flags(t) else ("c" in flags(src))
        if x.get("k") == "this":
            const = bool(self.fn.get("const"))
        elif x.get("k") == "un" and x["op"] == "*" and (x.get("e") or {}).get("k") == "this":
            const = bool(self.fn.get("const"))
        elif x.get("k") in ("mcall", "opcall", "call"):
            const = const or "c" in flags((x.get("c") or {}).get("rt")) or "k" in flags((x.get("c") or {}).get("rt"))
        elif x.get("k") == "mem":
            const = const or (bool(self.fn.get("const")) and self.of_this(x) and not x.get("mut"))
        if not const or "void" in (t["n"],):
            return
        # in a function that may change the object, const that was only added before may be taken away again
        if not self.fn.get("const") and any(y.get("k") == "cast" and y.get("const_cast") for y in ir.walk(x)):
            return
        if sync(t):
            return
        self.R.bad(self.fn, "const is taken away from %s, so that what other threads read can be changed" % t["n"].rsplit("::", 1)[-1], e,
                   "const:%s" % self.fn.n)

    @staticmethod
    def of_this(e):
        while e and e.get("k") in ("mem", "icast"):
            e = e["b"] if e["k"] == "mem" else e["e"]
        return bool(e) and e.get("k") == "this"

    def call(self, e):
        k, c = e["k"], e["c"]
        name = c.get("n") or c["q"].rsplit("::", 1)[-1]
        args = e.get("a") or []
        obj = e.get("o") if k == "mcall" else None
        if k == "opcall" and c.get("rec") and not c.get("static") and args:
            obj, args = args[0], args[1:]
        targets = self.R.targets(c)
        if name in HIDDEN and not targets and not c.get("rec") and c["q"] in (name, "std::" + name):
            self.R.bad(self.fn, "%s() answers from a place that all threads share" % name, e, "hidden:%s:%s" % (name, self.fn.n))
        what = self.shared(obj) if obj is not None else None
        pts = c.get("pt") or []
        given = {}
        for i, a in enumerate(args):
            w = self.shared(a) if isinstance(a, dict) else None
            if w and i < len(pts) and pts[i] is not None and (changeable_ref(pts[i]) or REFLIKE.search(pts[i]["n"])) and not sync(pts[i]):
                given[i] = w
        if targets:
            for f in targets:
                n = len(f["ps"])
                # what has its own lock taken before is not followed with what is shared
                if self.locked:
                    self.R.add(f, False, frozenset(), self.entry)
                else:
                    self.R.add(f, bool(what), frozenset(i for i in given if i < n), self.entry)
            return
        if what and not c.get("const") and not c.get("static") and k != "ctor":
            if sync({"n": c.get("rec") or ""}):
                pass
            elif name in LOOK or (name == "operator[]" and not re.search(r"map", c.get("rec") or "")):
                pass
            else:
                self.write(e, what, "is changed (%s)" % name)
        if name in PASS and name not in ("exchange", "swap"):
            return
        if k == "ctor" and (GUARD.search(c.get("rec") or "") or REFLIKE.search(c.get("rec") or "")):
            return
        if name in ("get", "holds_alternative", "visit", "begin", "end", "operator==", "operator!=", "operator-", "operator+"):
            return
        for i, w in given.items():
            if changeable_ref(pts[i]):
                self.write(e, w, "is handed to %s to be changed" % name)


def single_threaded(prog, rec):
    """every constructor of the class starts its base with one thread"""
    def one(rid, seen):
        if rid in seen:
            return False
        seen.add(rid)
        ctors = [f for f in prog.by_rec.get(rid, ()) if f.get("ctor") in ("other", "default") and f.get("inits") is not None]
        ok = True                # one that is made nowhere here has no other threads either
        for f in ctors:
            got = None
            for init in f["inits"]:
                if init.get("del"):
                    got = True
                    continue
                br = init.get("br")
                if not br or not any(prog.recs[x].q == COORD for x in prog.bases_closure(br) if x in prog.recs):
                    continue
                if prog.recs.get(br) is not None and prog.recs[br].q == COORD:
                    a = [x for x in (init["e"] or {}).get("a") or ()]
                    got = bool(a) and const(a[0]) == 1
                else:
                    got = one(br, seen)
            ok = ok and bool(got)
        return ok
    return one(rec.id, set())


def const(e):
    while e and e.get("k") in ("cast", "icast", "paren", "x", "init") and not e.get("cv"):
        e = e.get("e") or ((e.get("a") or [None])[0])
    if e and (e.get("k") == "int" or "cv" in e):
        return int(e.get("v") or e.get("cv"))
    return None


def parts(prog, rid):
    """the types of which something consists, and those that it lets others see"""
    out, st = {}, [(rid, ())]
    while st:
        r, way = st.pop()
        rec = prog.recs.get(r)
        if rec is None or r in out:
            continue
        out[r] = way
        here = way + (rec.q.rsplit("::", 1)[-1],)
        for b in rec.bases:
            st.append((b.get("r"), way))
        for f in rec.fields:
            st.append((f["t"].get("r"), here))
        for m in rec.methods:
            rt = m.get("rt")
            if m.get("const") and not m.get("static") and rt and ("&" in flags(rt) or "*" in flags(rt)) and rt.get("r"):
                st.append((rt["r"], here))
    return out


def run(prog, rep):
    rep.rule("members", "on a worker thread, no member of the worker, no global and no static variable is changed without a lock")
    rep.rule("network", "what the network that all threads read consists of has no parts that change although they are const")
    rep.rule("const", "on a worker thread, const is not taken away from what it did not make itself")
    rep.rule("own", "what is changed while a task is worked on is kept per thread or per task")
    globs, tls = {}, {}
    for v in prog.var_list():
        if v.get("slocal"):
            continue
        if v.get("tls"):
            tls[v["q"]] = v
        elif not v.get("const"):
            globs[v["q"]] = v
    for q in tls:                                # the declarations in headers carry it as well
        globs.pop(q, None)
    R = Reach(prog, rep, globs)
    R.tls = tls
    entries = []
    for f in prog.fns.values():
        if f.n != "execute" or not f.has_body or not f.r:
            continue
        bases = [prog.recs[x].q for x in prog.bases_closure(f.r) if x in prog.recs]
        if COORD not in bases:
            continue
        rec = prog.recs[f.r]
        alone = single_threaded(prog, rec)
        name = rec.q.rsplit("::", 1)[-1]
        entries.append((f, rec, alone, name))
        rep.instance("members", "%s: %s" % (name, "one thread" if alone else "several threads"))
    for f, rec, alone, name in entries:
        R.add(f, not alone, frozenset(), name)
    # what is shared for reading: everything that the workers refer to
    shared, where = {}, {}
    for f, rec, alone, name in entries:
        if alone:
            continue
        for x in rec.fields:
            t = x["t"]
            if "&" in flags(t) or "*" in flags(t) or "_ptr" in t["n"] or "reference_wrapper" in t["n"]:
                for r, way in parts(prog, t.get("r")).items():
                    shared.setdefault(r, (name,) + way)
    for r, way in sorted(shared.items(), key=lambda x: x[1]):
        rec = prog.recs[r]
        short = rec.q.rsplit("::", 1)[-1]
        rep.instance("network", "/".join(way + (short,)))
    R.run()
    # functions of what is shared that run on the workers
    todo = [f for f in R.functions.values() if f.r in shared and f.get("const") and f.get("acc") == "public"]
    for f in todo:
        R.add(f, True, frozenset(), R.entry_of[f.id])
    R.run()
    for f in R.functions.values():
        rep.fn(f)
        rep.instance("const", f.short + "@" + f.loc)
    for q in R.lookups:
        rep.instance("own", q)
    rep.note("functions on worker threads: %d, in %d contexts; types that are only read: %d" % (len(R.functions), len(R.done), len(shared)))
    for fn, what, line, key in R.viol:
        rep.violation(key, "%s: %s (on a thread of %s)" % (fn.short[:120], what, R.entry_of.get(fn.id)), "%s:%d" % (fn.file, line))
    rep.floor("members", 4)
    rep.floor("network", 6)
    rep.floor("const", 150)

"""C11: every task that is queued is worked on exactly once and answered exactly once."""
from .. import ir
from ..flow import NEXT, RET, THROW, U, St, Limit, Client, Engine

TUS = ["verif:workers.cpp", "library/src/compare/comparator.cpp", "library/src/compare/comparator/compare_task.cpp",
       "library/src/matching/matcher/match_task.cpp",
       "library/src/compare/comparator/comparator_forwarder_data.cpp",
       "library/src/compare/comparator/comparator_forwarder_matches.cpp",
       "library/src/compare/comparator/comparator_forwarder_compares.cpp",
       "library/src/io/track/track_exporter.cpp", "app/src/app/compare.cpp", "app/src/app/settings.cpp"]

SUCCESS, EMPTY, CLOSED, BUSY = 0, 1, 3, 4      # boost::queue_op_status
COORD = "map_matching_2::util::coordinator"


def is_queue(rec):
    return "sync_bounded_queue" in rec or "sync_queue" in rec or "sync_bounded_queue_base" in rec


class Base(Client):
    def __init__(self):
        self.viol = []      # (message, function, line)
        self.touched = set()

    def bad(self, msg, fr, n):
        v = (msg, fr.fn, (n or {}).get("l", 0))
        if v not in self.viol:
            self.viol.append(v)

    def on_enter(self, eng, st, fr, fn):
        self.touched.add(fn)

    def ok(self, st, v):
        return [(NEXT, st, v)]

    @staticmethod
    def name(c):
        return c.get("n") or c["q"].rsplit("::", 1)[-1]


class Loop(Base):
    """the thread that takes tasks from the queue and hands them to the pool"""
    loop_rounds = 3

    def should_inline(self, eng, fn, c, n):
        return fn.file.endswith("util/coordinator.hpp")

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = self.name(c), c.get("rec") or "", c["q"]
        f = st.facts
        if is_queue(rec):
            if name == "closed":
                if f.get("closed"):
                    return self.ok(st, ("c", True))
                s = st.copy()
                s.facts["closed"] = True
                return [(NEXT, s, ("c", True)), (NEXT, st.copy(), ("c", False))]
            if name in ("empty", "size"):
                none, some = (("c", True), ("c", False)) if name == "empty" else (("c", 0), ("c", 1))
                if f.get("drained"):
                    return self.ok(st, none)
                s = st.copy()
                if f.get("closed"):
                    s.facts["drained"] = True
                return [(NEXT, s, none), (NEXT, st.copy(), some)]
            if name in ("wait_pull_front", "pull_front", "try_pull_front", "nonblocking_pull_front"):
                res = []
                if not f.get("drained"):
                    if f.get("held"):
                        self.bad("a task that was taken from the queue is dropped when the next one is taken", fr, n)
                        return []
                    s = st.copy()
                    where = args[0][1] if args and args[0][0] == "loc" else ("t:pulled",)
                    s.facts["held"] = where
                    s.env[("val", where)] = ("task",)
                    res.append((NEXT, s, ("c", SUCCESS) if args else ("loc", where)))
                s = st.copy()
                s.facts["closed"] = s.facts["drained"] = True
                if not args or name == "pull_front":
                    res.append((THROW, s, ("exc", "boost::sync_queue_is_closed", n["l"])))
                else:
                    res.append((NEXT, s, ("c", CLOSED)))
                if name in ("try_pull_front", "nonblocking_pull_front") and not f.get("drained"):
                    s = st.copy()
                    if f.get("closed"):
                        s.facts["drained"] = True
                    res.append((NEXT, s, ("c", EMPTY)))
                    res.append((NEXT, st.copy(), ("c", BUSY)))
                return res
            if name == "close":
                self.bad("the loop closes its own queue", fr, n)
            return self.ok(st, U)
        if "semaphore" in rec and name in ("acquire", "release"):
            s = st.copy()
            k = (self.level(f), name)
            s.facts[k] = s.facts.get(k, 0) + 1
            return self.ok(s, U)
        if "thread_pool" in rec or "executor" in rec:
            s = st.copy()
            if name == "close":
                s.facts["pool"] = "closed"
                return self.ok(s, U)
            if name == "join":
                if s.facts.get("pool") != "closed":
                    self.bad("the pool is joined without being closed, which never returns", fr, n)
                s.facts["pool"] = "joined"
                return self.ok(s, U)
        lam = next((a for a in args if a[0] == "lam"), None)
        if lam is None:
            lam = next((eng.rv(st, a) for a in args if a[0] == "loc" and eng.rv(st, a)[0] == "lam"), None)
        if lam is not None and (q in ("boost::async", "std::async") or name in ("submit", "post", "submit_async")):
            return self.submit(eng, st, fr, n, lam)
        if name == "execute":
            return self.execute(eng, st, fr, n, args)
        if name == "operator<<" and any(x in repr(args) + repr(obj) for x in ("std::cerr", "std::clog", "'g:std::cerr'")):
            s = st.copy()
            s.facts["reported"] = True
            return self.ok(s, args[0] if obj is None else obj)
        if name == "operator<<":
            return self.ok(st, args[0] if obj is None else obj)
        return None

    @staticmethod
    def level(f):
        return "task" if f.get("in task") else "loop"

    def execute(self, eng, st, fr, n, args):
        s = st.copy()
        v = eng.rv(s, args[0]) if args else U
        if v != ("task",):
            self.bad("execute is not given the task that was taken from the queue", fr, n)
        s.facts["executed"] = s.facts.get("executed", 0) + 1
        if not s.facts.get("in task"):
            s.facts["held"] = None
        res = [(NEXT, s, U)]
        for what in ("std::exception", "other"):
            s2 = s.copy()
            s2.facts["failed"] = what
            res.append((THROW, s2, ("exc", what, n["l"])))
        return res

    def on_catch(self, eng, st, fr, h, v):
        t = (h.get("t") or {}) if isinstance(h.get("t"), dict) else {}
        ty = repr(t) + repr((h.get("v") or {}).get("t"))
        if not h.get("v") and not t:
            return "certainly"
        if v[0] == "exc" and v[1] == "other":
            return False
        if "std::exception" in ty and v[0] == "exc":
            return "certainly"
        return None

    def submit(self, eng, st, fr, n, lam):
        f = st.facts
        if f.get("pool"):
            self.bad("a task is handed to a pool that is already closed", fr, n)
        s = st.copy()
        s.facts["in task"] = True
        s.facts["executed"] = 0
        s.facts["reported"] = s.facts["failed"] = None
        acquired = s.facts.get(("loop", "acquire"), 0)
        self.submitted = True
        ends = 0
        for k, s2, v in eng.call_lambda(lam, [], s, n):
            ends += 1
            g = s2.facts
            if g.get("executed") != 1:
                self.bad("a task that was taken from the queue is executed %s" % ("never" if not g.get("executed") else "more than once"), fr, n)
            if g.get(("task", "release"), 0) + g.get(("loop", "release"), 0) != acquired:
                how = "after a failure" if g.get("failed") else "after success"
                self.bad("the semaphore is acquired %d and released %d times for a task (%s)" % (
                    acquired, g.get(("task", "release"), 0) + g.get(("loop", "release"), 0), how), fr, n)
            if g.get("failed") == "std::exception" and not g.get("reported"):
                self.bad("a task that fails is dropped without a message", fr, n)
        if not ends:
            self.bad("a task that was taken from the queue is executed never", fr, n)
        s = st.copy()
        s.facts["held"] = None
        for k in (("loop", "acquire"), ("loop", "release")):
            s.facts.pop(k, None)
        return self.ok(s, U)


def coordinator_loop(prog, rep):
    rep.rule("loop", "the thread of a coordinator takes every task out of its queue, executes each exactly once, reports a failure, "
             "gives its place back on every path, and ends only once the queue was seen empty after it was seen closed, with the pool drained")
    seen = set()
    for f in prog.fns.values():
        if not f.has_body or f.n != "_start" and f.n != "start" or not prog.recs.get(f.r) or not prog.recs[f.r].q.startswith(COORD):
            continue
        if f.n != "start":
            continue
        key = f.q.rsplit("::", 1)[0]
        # start(): the lambda of the thread is the loop
        cl = Thread()
        eng = Engine(prog, cl)
        outs = eng.run(f, st=St())
        for fn in cl.touched:
            rep.fn(fn)
        rep.instance("loop", key)
        for k, s, v in outs:
            if k in (RET, NEXT) and s.facts.get(("thread", ("this", "_coordinator"))) is None and not cl.threads:
                cl.viol.append(("starting a coordinator does not start its thread", f, 0))
        for msg, fn, line in cl.viol:
            rep.violation("loop:%s" % msg, "%s: %s" % (short(key), msg), "%s:%s" % (fn.file, line))
    rep.floor("loop", 2)


def short(q):
    import re
    return re.sub(r"map_matching_2::|[a-z_]+::(?=[a-z_]+task)", "", q)


class Thread(Loop):
    """start(): the function that the new thread runs is judged as a path of its own"""

    def __init__(self):
        super().__init__()
        self.threads = 0

    def on_call(self, eng, st, fr, n, c, obj, args):
        rec = c.get("rec") or ""
        if n["k"] == "ctor" and rec in ("boost::thread", "std::thread", "std::jthread") and args:
            lam = args[0] if args[0][0] == "lam" else eng.rv(st, args[0])
            if lam[0] == "lam":
                self.threads += 1
                for k, s, v in eng.call_lambda(lam, [], St(), n):
                    self.ended(k, s, v, fr, n)
                return self.ok(st, obj)
        return super().on_call(eng, st, fr, n, c, obj, args)

    def ended(self, k, s, v, fr, n):
        f = s.facts
        if k == THROW:
            self.bad("a failure ends the thread that hands out the tasks", fr, n)
            return
        if f.get("held"):
            self.bad("a task that was taken from the queue is never executed", fr, n)
        elif not f.get("drained"):
            self.bad("the loop can end while the queue still holds tasks: the queue is not seen empty after it is seen closed", fr, n)
        elif f.get("pool") != "joined":
            self.bad("the loop ends without waiting for the pool", fr, n)



def derived(prog, rid):
    """is this class a coordinator"""
    return any(prog.recs[r].q == COORD for r in prog.bases_closure(rid) if r in prog.recs)


def of_class(prog, c):
    """the class a method belongs to is a coordinator"""
    for f in (prog.fns.get(c.get("id")), prog.callee_fn(c)):
        if f is not None and f.r:
            return derived(prog, f.r)
    return (c.get("rec") or "").startswith(COORD)


ORDER = {"new": 0, "running": 1, "stopped": 2, "joined": 3}


class Life(Base):
    """typestate of the coordinators that an object owns"""

    def __init__(self, prog, label):
        super().__init__()
        self.prog, self.label = prog, label

    def should_inline(self, eng, fn, c, n):
        return not fn.file.endswith("util/coordinator.hpp") and "/io/results/" not in "/" + fn.file

    def on_call(self, eng, st, fr, n, c, obj, args):
        name = self.name(c)
        if n["k"] == "ctor" or name not in ("start", "stop", "join") or obj is None or obj[0] != "loc":
            return None
        if not of_class(self.prog, c):
            return None
        s = st.copy()
        self.event(s, fr, n, obj[1], name)
        return self.ok(s, U)

    def event(self, s, fr, n, path, name):
        k = ("life", path)
        was = s.facts.get(k, "new")
        what = self.label(path)
        if name == "start":
            if was != "new":
                self.bad("%s is started %s" % (what, "twice" if was == "running" else "after it was stopped"), fr, n)
            s.facts[k] = "running"
        elif name == "stop":
            self.stopping(s, fr, n, path, what)
            if was == "running":
                s.facts[k] = "stopped"
        else:
            if was == "running":
                self.bad("%s is joined before it is stopped, which never returns" % what, fr, n)
            if was in ("running", "stopped"):
                s.facts[k] = "joined"

    def stopping(self, s, fr, n, path, what):
        if len(path) > 1 and s.facts.get(("life", path[:1])) in ("running", "stopped") and self.workers(path):
            self.bad("%s is stopped while workers that hand results to it may still run" % what, fr, n)

    def workers(self, path):
        return True


def owners(prog, rep):
    """classes with coordinators as members"""
    rep.rule("owner", "the owner of coordinators starts each once when it is constructed; its destructor stops and joins each, after its own workers "
             "were stopped and joined when it is a coordinator itself")
    rep.rule("pool", "a coordinator that writes results in order has one worker")
    done = set()
    for rid, rec in prog.recs.items():
        if not rec.q.startswith("map_matching_2::"):
            continue
        members = [f["n"] for f in rec.fields if (f.get("t") or {}).get("r") and not (f["t"].get("f") or "") and (f["t"].get("k") == "o")
                   and f["t"]["r"] in prog.recs and derived(prog, f["t"]["r"])]
        if not members:
            continue
        fns = [f for f in prog.by_rec.get(rid, []) if f.has_body]
        own = derived(prog, rid)
        name = rec.q.replace("map_matching_2::", "")
        for f in fns:
            if "inits" in f.j and len(f["ps"]) > 1 or f.n.startswith("~"):
                dtor = f.n.startswith("~")
                cl = Life(prog, lambda p: ".".join(p[1:]) or "the coordinator itself")
                eng = Engine(prog, cl)
                st = St()
                if dtor:
                    for m in members:
                        st.facts[("life", ("this", m))] = "running"
                    if own:
                        st.facts[("life", ("this",))] = "running"
                outs = eng.run(f, st=st)
                rep.instance("owner", "%s::%s" % (name, f.n))
                rep.fn(f)
                for k, s, v in outs:
                    if k == THROW:
                        continue
                    for m in members:
                        state = s.facts.get(("life", ("this", m)), "new")
                        if not dtor and state != "running":
                            cl.viol.append(("%s is not started" % m, f, 0))
                        if dtor and state != "joined":
                            cl.viol.append(("%s may still have work when it is destroyed: it is %s" % (m, "stopped but not joined" if state == "stopped" else "not stopped"), f, 0))
                    if dtor and own and s.facts.get(("life", ("this",))) != "joined":
                        cl.viol.append(("the workers may still run when the members they use are destroyed", f, 0))
                for msg, fn, line in cl.viol:
                    rep.violation("owner:%s:%s:%s" % (name, "~" if dtor else "ctor", msg), "%s: %s" % (name + "::" + f.n, msg),
                                  "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))
                done.add((rid, dtor))
        if fns and (rid, True) not in done and any("inits" in f.j for f in fns):
            rep.instance("owner", "%s::~" % name)
            rep.violation("owner:%s:~" % name, "%s has no destructor that stops and joins %s" % (name, ", ".join(members)), rec.loc)
    rep.floor("owner", 4)


def coordinator_parts(prog, rep):
    """queue, stop, join, destructor"""
    rep.rule("parts", "queue() appends its task once and waits for room; stop() closes the queue; join() waits for the thread; "
             "the destructor closes the queue before it waits")
    seen = set()
    for f in prog.fns.values():
        rec = prog.recs.get(f.r)
        if not f.has_body or not rec or rec.q != COORD or f.n not in ("queue", "stop", "join", "~coordinator") or "inits" in f.j:
            continue
        cl = Parts()
        eng = Engine(prog, cl)
        args = [("loc", ("task",))] if f["ps"] else []
        st = St()
        outs = eng.run(f, args=args, st=st)
        rep.instance("parts", f.q)
        rep.fn(f)
        for k, s, v in outs:
            ev = s.facts.get("ev", ())
            if f.n == "queue" and [e[0] for e in ev] != ["push"]:
                cl.viol.append(("queue() appends the task %s" % ("never" if not ev else "%d times" % len(ev)), f, 0))
            elif f.n == "queue" and (ev[0][1] != "wait_push_back" and ev[0][1] != "push_back" or ev[0][2] != ("in", ("task",))):
                cl.viol.append(("queue() can drop its task", f, 0))
            if f.n == "stop" and ("close",) not in ev:
                cl.viol.append(("stop() does not close the queue", f, 0))
            if f.n == "join" and ("wait",) not in ev:
                cl.viol.append(("join() does not wait for the thread", f, 0))
            if f.n.startswith("~"):
                if ("wait",) not in ev:
                    cl.viol.append(("the destructor does not wait for the thread", f, 0))
                elif ("close",) not in ev[:ev.index(("wait",))] and not s.facts.get("closed"):
                    cl.viol.append(("the destructor waits for the thread without closing the queue", f, 0))
        for msg, fn, line in cl.viol:
            rep.violation("parts:%s" % msg, "%s: %s" % (short(f.q), msg), f.loc)
    rep.floor("parts", 4)


class Parts(Base):
    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec = self.name(c), c.get("rec") or ""

        def ev(*e):
            s = st.copy()
            s.facts["ev"] = s.facts.get("ev", ()) + (e,)
            return self.ok(s, U)
        if is_queue(rec):
            if name == "closed":
                s = st.copy()
                s.facts["closed"] = True
                return [(NEXT, s, ("c", True)), (NEXT, st.copy(), ("c", False))]
            if name == "close":
                return ev("close")
            if "push" in name:
                return ev("push", name, eng.rv(st, args[0]) if args else None)
            return None
        if rec in ("boost::thread", "std::thread", "std::jthread") and name == "join":
            return ev("wait")
        if rec in ("boost::thread", "std::thread", "std::jthread") and name == "joinable":
            return self.ok(st, ("c", True))
        return None


def workers(prog, rep):
    """the number of threads of the coordinators that write"""
    for rid, rec in prog.recs.items():
        if not rec.q.startswith("map_matching_2::io::") or not derived(prog, rid):
            continue
        for f in prog.by_rec.get(rid, []):
            if not f.has_body or "inits" not in f.j or f.j.get("ctor") in ("copy", "move"):
                continue
            cl = Threads()
            eng = Engine(prog, cl)
            outs = eng.run(f)
            if not cl.made:
                continue
            rep.instance("pool", rec.q.replace("map_matching_2::", ""))
            rep.fn(f)
            for th, line, fn in cl.made:
                if th != ("c", 1):
                    rep.violation("pool:%s" % rec.q, "%s has more than one worker: its lines can be written out of order and at the same time" % rec.q.replace("map_matching_2::", ""),
                                  "%s:%s" % (fn.file, line))
    rep.floor("pool", 3)


class Threads(Base):
    def __init__(self):
        super().__init__()
        self.made = []

    def should_inline(self, eng, fn, c, n):
        return "/io/results/" in "/" + fn.file or fn.file.endswith("util/coordinator.hpp")

    def on_call(self, eng, st, fr, n, c, obj, args):
        rec = c.get("rec") or ""
        if n["k"] == "ctor" and "thread_pool" in rec:
            self.made.append((eng.rv(st, args[0]) if args else ("u", "default"), n["l"], fr.fn))
            return self.ok(st, obj)
        return None


class Flow(Base):
    """one task from the worker to the writers"""
    loop_rounds = 2

    def __init__(self, prog, files):
        super().__init__()
        self.prog, self.files = prog, files

    def should_inline(self, eng, fn, c, n):
        return any(x in fn.file for x in self.files)

    # -- values
    def origin(self, eng, st, v):
        """what a value was copied from"""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == "loc":
            v = eng.rv(st, v)
        if v and v[0] == "in":
            path, seen = v[1], 0
            while seen < 20:
                seen += 1
                for i in range(len(path), 0, -1):
                    w = st.env.get(("val", path[:i]))
                    if w is not None and w != ("in", path[:i]):
                        break
                else:
                    return ("in", path)
                if w[0] in ("in", "loc"):
                    path = w[1] + path[i:]
                    continue
                w = self.origin(eng, st, w)
                for m in path[i:]:
                    w = ("fld", w, m)
                return w
            return ("in", path)
        return tuple(self.origin(eng, st, x) if isinstance(x, tuple) else x for x in v)

    def snapshot(self, eng, st, path):
        res = {}
        for k, v in st.env.items():
            if k[0] == "val" and k[1][:len(path)] == path and len(k[1]) == len(path) + 1:
                res[k[1][-1]] = self.origin(eng, st, v)
        for k, v in st.facts.items():
            if k[0] == "els" and k[1][:len(path)] == path and len(k[1]) == len(path) + 1:
                res[k[1][-1]] = ("els", v)
        return tuple(sorted(res.items(), key=repr))

    # -- hooks
    def on_cond(self, eng, st, fr, val, truth, node):
        k = ("cond", val)
        if st.facts.get(k, truth) != truth:
            return None
        st.facts[k] = truth
        if isinstance(val, tuple) and val[0] == "op" and val[1] in ("==", "!="):
            for a, b in ((val[2], val[3]), (val[3], val[2])):
                if b[0] == "c" and a[0] == "in" and a[1][-1] == "model":
                    name = self.model(b[1])
                    if truth == (val[1] == "=="):
                        st.facts["model"] = name
                    else:
                        st.facts["models"] = st.facts.get("models", ()) + (name,)
        return st

    def model(self, value):
        return next((e["n"] for e in self.enums if str(e["v"]) == str(value)), str(value))

    enums = ()

    def on_decl(self, eng, st, fr, var, val):
        loc = eng.lookup(st, fr, var["d"])
        if loc and loc[0] == "loc":
            for k in [k for k in st.facts if k[0] in ("moved", "els") and k[1][:len(loc[1])] == loc[1]]:
                del st.facts[k]

    def on_write(self, eng, st, fr, path, value, node, op="="):
        for k in [k for k in st.facts if k[0] == "moved" and (k[1][:len(path)] == path)]:
            del st.facts[k]
        if value and value[0] == "in" and ("els", value[1]) in st.facts:
            st.facts[("els", path)] = st.facts[("els", value[1])]
        elif value and value[0] == "loc" and ("els", value[1]) in st.facts:
            st.facts[("els", path)] = st.facts[("els", value[1])]

    def on_read(self, eng, st, fr, path, node):
        for k in st.facts:
            if k[0] == "moved" and (path[:len(k[1])] == k[1]):
                root = node
                while root.get("k") == "mem":
                    root = root["b"]
                if root.get("k") != "ref" or "#%s." % root.get("d") not in path[0]:
                    continue        # through the parameter it was moved to
                self.bad("%s is read after it was moved away" % ".".join([path[0].split("#")[0].replace("v:", "")] + list(path[1:])), fr, node)

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec, q = self.name(c), c.get("rec") or "", c["q"]
        if q == "std::move" and len(args) == 1 and args[0][0] == "loc" and args[0][1][0].startswith("v:"):
            s = st.copy()
            s.facts[("moved", args[0][1])] = n["l"]
            return self.ok(s, args[0])
        if name == "is_console":
            k = ("console",)
            if k in st.facts:
                return self.ok(st, ("c", st.facts[k]))
            a, b = st.copy(), st.copy()
            a.facts[k], b.facts[k] = True, False
            return [(NEXT, a, ("c", True)), (NEXT, b, ("c", False))]
        if name == "parse_result":
            r = args[-1]
            snap = self.snapshot(eng, st, r[1]) if r[0] == "loc" else ()
            return self.ok(st, ("parsed", rec, self.origin(eng, st, r), snap))
        if name in ("pass", "queue") and of_class(self.prog, c):
            s = st.copy()
            if name == "queue":
                a = args[0]
                what = self.snapshot(eng, s, a[1]) if a[0] == "loc" else a
            else:
                what = eng.rv(s, args[0])
            s.facts["passed"] = s.facts.get("passed", ()) + ((rec, what),)
            return self.ok(s, U)
        if n["k"] == "ctor" and rec == "std::variant" and len(args) == 1:
            if obj is None or obj[0] != "loc":
                return self.ok(st, args[0])
            s = st.copy()
            s.env[("val", obj[1])] = self.origin(eng, s, args[0])
            return self.ok(s, obj)
        if n["k"] == "ctor" and rec.endswith("::multi_track") and args and not c.get("ctor") in ("copy", "move") and obj is not None:
            return self.ok(st, ("term", "multi_track", None, tuple(self.origin(eng, st, a) for a in args)))
        if name in ("emplace_back", "push_back") and obj is not None and obj[0] == "loc":
            s = st.copy()
            k = ("els", obj[1])
            els = s.facts.get(k, ())
            node = obj[1] + ("#%d" % len(els),)
            s.facts[k] = els + (tuple(self.origin(eng, s, a) for a in args),)
            if len(args) == 1:
                s.env[("val", node)] = eng.rv(s, args[0])
            return self.ok(s, ("loc", node))
        if name == "operator()" and "::learning::" in rec:
            s = st.copy()
            s.facts["learner"] = s.facts.get("learner", ()) + (rec,)
            return self.ok(s, ("term", "learn", obj, ()))
        if name == "set" and "::environment::" in rec:
            s = st.copy()
            s.facts["environment"] = s.facts.get("environment", ()) + ((rec, obj, self.origin(eng, s, args[0])),)
            return self.ok(s, U)
        if name == "result" and "::environment::" in rec:
            return self.ok(st, ("term", "route", obj, tuple(self.origin(eng, st, a) for a in args)))
        if name == "compare" and "line_comparator" in rec:
            s = st.copy()
            v = ("term", "comparison", None, tuple(self.origin(eng, s, a) for a in args))
            return self.ok(s, v)
        return None


def mentions(v, what):
    if v == what:
        return True
    return isinstance(v, tuple) and any(mentions(x, what) for x in v)


WRITERS = {"matcher": ("match_output_printer", ("csv_match_exporter", "csv_candidates_exporter")),
           "comparator": ("compare_output_printer", ("csv_compare_exporter",)),
           "track_exporter": ("track_output_printer", ("csv_track_exporter",))}


def answered(cl, s, f, owner):
    """the results that were handed to the writers on one path: [(class, parsed)]"""
    printer, files = WRITERS[owner]
    passed = s.facts.get("passed", ())
    by = {}
    for rec, v in passed:
        by.setdefault(rec.rsplit("::", 1)[-1], []).append(v)
    want = [printer] + ([] if s.facts.get(("console",)) else list(files))
    for w in want:
        k = len(by.get(w, ()))
        if k != 1:
            cl.viol.append(("%s gets the result of a task %s" % (w, "not at all" if not k else "%d times" % k), f, 0))
    for w in by:
        if w not in want:
            cl.viol.append(("%s gets a result although the results go to the console" % w, f, 0))
    res = []
    for w, vs in by.items():
        for v in vs:
            if v[0] != "parsed":
                cl.viol.append(("%s is given something else than the row of the result" % w, f, 0))
            elif v[1].rsplit("::", 1)[-1] != w:
                cl.viol.append(("%s is given the row of %s" % (w, v[1].rsplit("::", 1)[-1]), f, 0))
            else:
                res.append((w, v))
    return res


def check_match(cl, s, f):
    model = s.facts.get("model")
    passed = s.facts.get("passed")
    if model is None and not passed:
        if len(set(s.facts.get("models", ()))) < max(2, len(cl.models)):
            cl.viol.append(("a task is dropped on a path that decides no model", f, 0))
        return
    learners = {x.rsplit("::", 1)[-1] for x in s.facts.get("learner", ())}
    if model and learners and learners != {model.lower()}:
        cl.viol.append(("model %s is matched with %s" % (model, ", ".join(sorted(learners))), f, 0))
    envs = {x[0].rsplit("::", 1)[-1] for x in s.facts.get("environment", ())}
    for w, v in answered(cl, s, f, "matcher"):
        d = dict(v[3])
        if d.get("track") != ("in", ("task", "multi_track")):
            cl.viol.append(("the track of the result is not the track of the task when it is handed to %s" % w, f, 0))
        if not mentions(d.get("prepared"), ("in", ("task", "multi_track", "id"))):
            cl.viol.append(("the prepared track does not carry the id of the track when it is handed to %s" % w, f, 0))
        for k in ("prepared", "policies", "match", "duration", "edge_ids"):
            if k not in d:
                cl.viol.append(("the result has no %s yet when it is handed to %s" % (k, w), f, 0))
        lists = {}
        for k in ("environments", "policies"):
            lists[k] = d[k][1] if k in d and isinstance(d[k], tuple) and d[k] and d[k][0] == "els" else ()
        if len(lists["environments"]) != len(lists["policies"]):
            cl.viol.append(("%d parts of the track have an environment and %d a policy when they are handed to %s" % (
                len(lists["environments"]), len(lists["policies"]), w), f, 0))
    # each part of the track: its own environment, its own policy
    sets = s.facts.get("environment", ())
    for rec, obj, t in sets:
        if not mentions(t, ("in", ("task", "multi_track"))):
            cl.viol.append(("an environment is not given a part of the track", f, 0))
    if len({o for _, o, _ in sets}) != len(sets):
        cl.viol.append(("one environment is given several parts of the track", f, 0))


def check_compare(cl, s, f):
    for w, v in answered(cl, s, f, "comparator"):
        d = dict(v[3])
        for k in ("ground_truth", "match"):
            if d.get(k) != ("in", ("task", k)):
                cl.viol.append(("the %s of the result is not that of the task when it is handed to %s" % (k.replace("_", " "), w), f, 0))
        c = d.get("comparison")
        want = tuple(("in", ("task", k, "multi_rich_line")) for k in ("ground_truth", "match"))
        if not isinstance(c, tuple) or c[:2] != ("term", "comparison") or c[3] != want:
            cl.viol.append(("the comparison is not that of the ground truth with the match of the task", f, 0))
        if "duration" not in d:
            cl.viol.append(("the result has no duration yet when it is handed to %s" % w, f, 0))


def check_export(cl, s, f):
    for w, v in answered(cl, s, f, "track_exporter"):
        if v[2] != ("in", ("task",)):
            cl.viol.append(("%s is not given the track" % w, f, 0))


def pipeline(prog, rep):
    rep.rule("answer", "a worker hands the result of its task once to the printer and, unless results go to the console, once to every file writer; "
             "the result holds the track (the pair) of the task, complete and unmoved, and the model that is asked for")
    # the models a user can ask for: those any part of the program names
    models = {}
    for f in prog.fns.values():
        if f.has_body:
            for x in ir.walk(f.body):
                if x.get("k") == "enum" and (x.get("t") or {}).get("n", "").endswith("::MODEL"):
                    models[x["n"]] = x
    Flow.enums = tuple(models.values())
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if not f.has_body:
            continue
        if f.n == "execute" and f.file.endswith("matching/matcher.hpp"):
            judge, files = check_match, ["matching/matcher.hpp", "util/benchmark.hpp", "matcher/match_result.hpp"]
        elif f.n == "execute" and "compare/comparator" in f.file:
            judge, files = check_compare, ["compare/comparator.hpp", "compare/comparator.cpp", "util/benchmark.hpp"]
        elif f.n == "pass" and "io/track/track_exporter" in f.file:
            judge, files = check_export, ["io/track/track_exporter"]
        else:
            continue
        cl = Flow(prog, files)
        cl.models = models
        eng = Engine(prog, cl)
        eng.max_steps = 1500000
        outs = eng.run(f, args=[("loc", ("task",))])
        ends = 0
        for k, s, v in outs:
            if k == RET:
                ends += 1
                judge(cl, s, f)
        rep.instance("answer", f.q)
        for fn in cl.touched:
            rep.fn(fn)
        for msg, fn, line in cl.viol:
            rep.violation("answer:%s:%s" % (f.r and prog.recs[f.r].q.rsplit("::", 1)[-1], msg), "%s: %s" % (f.n, msg), "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))
    rep.floor("answer", 3)


class Submit(Flow):
    """what is handed to the workers"""


def submissions(prog, rep):
    rep.rule("submit", "what the matcher and the comparator queue is the track and the settings, the match and the ground truth and the settings, that they were given")
    WANT = {("matcher", "match"): ["multi_track", "match_settings"],
            ("comparator", "compare"): ["match", "ground_truth", "compare_settings"]}
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        rec = prog.recs.get(f.r)
        if not f.has_body or not rec:
            continue
        want = WANT.get((rec.q.rsplit("::", 1)[-1], f.n))
        if not want or len(f["ps"]) != len(want):
            continue
        cl = Submit(prog, ["match_task", "compare_task", "matching/matcher.hpp", "compare/comparator"])
        eng = Engine(prog, cl)
        outs = eng.run(f, args=[("loc", ("arg%d" % i,)) for i in range(len(want))])
        for k, s, v in outs:
            if k != RET:
                continue
            q = s.facts.get("passed", ())
            if len(q) != 1:
                cl.viol.append(("the task is queued %s" % ("never" if not q else "%d times" % len(q)), f, 0))
                continue
            d = dict(q[0][1]) if isinstance(q[0][1], tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in q[0][1]) else {}
            for i, w in enumerate(want):
                if d.get(w) != ("in", ("arg%d" % i,)):
                    cl.viol.append(("the %s of the queued task is not the one that was handed over" % w.replace("_", " "), f, 0))
        rep.instance("submit", f.q)
        rep.fn(f)
        for msg, fn, line in cl.viol:
            rep.violation("submit:%s:%s" % (rec.q.rsplit("::", 1)[-1], msg), "%s: %s" % (f.n, msg), "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))
    rep.floor("submit", 2)


class Pair(Flow):
    """matches and ground truths that wait for each other"""

    def where(self, eng, st, v):
        """the map behind an object"""
        v = eng.rv(st, v) if v and v[0] == "loc" and ("val", v[1]) in st.env else v
        if v and v[0] in ("loc", "in"):
            return v[1][-1]
        return None

    def key(self, eng, st, v):
        return self.origin(eng, st, v)

    def event(self, st, *e):
        s = st.copy()
        s.facts["ev"] = s.facts.get("ev", ()) + (e,)
        return s

    def lookup_in(self, st, m, key):
        """[(state, found)]"""
        k = ("has", m)
        if k in st.facts:
            return [(st, st.facts[k])]
        a, b = st.copy(), st.copy()
        a.facts[k], b.facts[k] = True, False
        return [(a, True), (b, False)]

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec = self.name(c), c.get("rec") or ""
        m = self.where(eng, st, obj) if obj is not None and obj[0] == "loc" else None
        if m in ("matches", "compares") and ("map" in rec or "table" in rec or "unordered" in rec):
            if name in ("find", "contains", "count"):
                res = []
                k = self.key(eng, st, args[0])
                if k != ("in", ("track", "id")):
                    self.bad("%s are searched for another id than that of the track" % m, fr, n)
                for s, found in self.lookup_in(st, m, k):
                    s = self.event(s, "find", m)
                    res.append((NEXT, s, ("it", m, found) if name == "find" else ("c", found if name == "contains" else int(found))))
                return res
            if name in ("end", "cend"):
                return self.ok(st, ("it", m, False))
            if name in ("begin", "cbegin") and obj[0] == "loc":
                # one arbitrary entry, or none
                return [(NEXT, st.copy(), ("it", m, ("each", obj[1]))), (NEXT, st.copy(), ("it", m, False))]
            if name == "at" or name == "operator[]":
                return self.ok(st, ("loc", ("waiting " + m,)))
            if name == "erase":
                if any(e == ("erase", m) for e in st.facts.get("ev", ())):
                    self.bad("the entry of %s is removed twice" % m, fr, n)
                return self.ok(self.event(st, "erase", m), U)
            if name in ("emplace", "insert", "insert_or_assign", "try_emplace"):
                a = [self.origin(eng, st, x) for x in args]
                if len(a) == 1 and isinstance(a[0], tuple) and a[0][:1] == ("pair",):
                    a = a[0][1:]
                elif len(a) == 1 and args[0][0] == "loc":
                    a = [self.origin(eng, st, ("loc", args[0][1] + (x,))) for x in ("first", "second")]
                return self.ok(self.event(st, "store", m, a[0] if a else None, a[1] if len(a) > 1 else None), U)
            return None
        if name in ("operator==", "operator!=") and len(args) + (obj is not None) == 2:
            a, b = [eng.rv(st, x) for x in ([obj] if obj is not None else []) + list(args)]
            if a[0] == "it" and b[0] == "it":
                return self.ok(st, ("c", (a[2] == b[2]) == (name == "operator==")))
        if n["k"] == "ctor" and rec == "std::pair":
            a = tuple(self.origin(eng, st, x) for x in args)
            if len(a) == 1:
                a = a[0][1:] if isinstance(a[0], tuple) and a[0][:1] == ("pair",) else a
            if len(a) == 2:
                if obj is None or obj[0] != "loc":
                    return self.ok(st, ("pair",) + a)
                s = st.copy()
                s.env[("val", obj[1] + ("first",))], s.env[("val", obj[1] + ("second",))] = a
                return self.ok(s, obj)
        if name == "operator++" and (obj or args):
            where = obj if obj is not None else args[0]
            it = eng.rv(st, where)
            if it[0] == "it" and where[0] == "loc":
                s = st.copy()
                s.env[("val", where[1])] = ("it", it[1], False)
                return self.ok(s, where)
        if name in ("operator->", "operator*") and (obj or args):
            it = eng.rv(st, obj if obj is not None else args[0])
            if it[0] == "it" and isinstance(it[2], tuple):
                p = it[2][1] + ("[]",)
                return self.ok(st, ("ptr", p) if name == "operator->" else ("loc", p))
            if it[0] == "it":
                if not it[2]:
                    self.bad("an entry that was not found is used", fr, n)
                    return []
                if ("erase", it[1]) in st.facts.get("ev", ()):
                    self.bad("an entry of %s is used after it was removed" % it[1], fr, n)
                p = ("entry " + it[1],)
                return self.ok(st, ("ptr", p) if name == "operator->" else ("loc", p))
        if name == "compare" and of_class(self.prog, c):
            s = self.event(st, "compare", *[self.origin(eng, st, a) for a in args])
            return self.ok(s, U)
        return super().on_call(eng, st, fr, n, c, obj, args)


def text_of(v):
    if v and v[0] in ("in", "loc"):
        return ".".join(v[1])
    return repr(v)


def pairing(prog, rep):
    rep.rule("pair", "a match and the ground truth with the same id are compared once, the match as match and the ground truth as ground truth, and "
             "neither waits any longer; a track without a partner waits under its id; unless told otherwise, what is left of the ground truths is "
             "compared with an empty match of the same id")
    SELF = {"comparator_forwarder_matches": ("compares", "matches"), "comparator_forwarder_compares": ("matches", "compares")}
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        rec = prog.recs.get(f.r)
        cls = rec.q.rsplit("::", 1)[-1] if rec else ""
        if not f.has_body:
            continue
        if cls in SELF and f.n == "pass":
            other, own = SELF[cls]
        elif cls == "comparator_forwarder_data" and f.n == "finish":
            other = own = None
        else:
            continue
        cl = Pair(prog, ["comparator_forwarder"])
        cl.loop_rounds = 1
        eng = Engine(prog, cl)
        outs = eng.run(f, args=[("loc", ("track",))] if own else [])
        some = False
        for k, s, v in outs:
            if k != RET:
                continue
            ev = [e for e in s.facts.get("ev", ()) if e[0] != "find"]
            if own:
                if ("has", other) not in s.facts:
                    cl.viol.append(("a track does not look for its partner in the waiting %s" % other, f, 0))
                    continue
                found = s.facts[("has", other)]
                cmp_ = [e for e in ev if e[0] == "compare"]
                if found:
                    sides = [text_of(e) for e in cmp_[0][1:3]] if cmp_ else []
                    mine, partner = "track", "entry %s.second" % other
                    want = [mine, partner] if own == "matches" else [partner, mine]
                    alt = [x.replace("entry %s.second" % other, "waiting %s" % other) for x in want]
                    if len(cmp_) != 1:
                        cl.viol.append(("a track and its partner are compared %s" % ("never" if not cmp_ else "%d times" % len(cmp_)), f, 0))
                    elif sides not in (want, alt):
                        cl.viol.append(("the match and the ground truth are not compared as such", f, 0))
                    if ("erase", other) not in ev:
                        cl.viol.append(("a partner that was compared keeps waiting in %s" % other, f, 0))
                    if any(e[0] == "store" for e in ev):
                        cl.viol.append(("a track that was compared waits for a second partner", f, 0))
                else:
                    if cmp_:
                        cl.viol.append(("a track without a partner is compared", f, 0))
                    st_ = [e for e in ev if e[0] == "store"]
                    if len(st_) != 1 or st_[0][1] != own:
                        cl.viol.append(("a track without a partner does not wait in %s" % own, f, 0))
                    elif st_[0][2:] != (("in", ("track", "id")), ("in", ("track",))):
                        cl.viol.append(("a track without a partner does not wait as itself under its id", f, 0))
            else:
                skip = next((t for k2, t in s.facts.items() if isinstance(k2, tuple) and k2[0] == "cond" and "ignore_non_existent" in repr(k2)), None)
                cmp_ = [e for e in ev if e[0] == "compare"]
                if skip is None and not cmp_:
                    pass
                if skip and cmp_:
                    cl.viol.append(("ground truths without a match are compared although they are to be ignored", f, 0))
                if skip is False and cmp_:
                    some = True
                    for e in cmp_:
                        if "compares" not in text_of(e[2]) or not text_of(e[2]).endswith("second"):
                            cl.viol.append(("what is left is not compared as ground truth", f, 0))
                        if not mentions(e[1], ("in", ("this", "compares", "[]", "first"))) and not mentions(e[1], ("in", ("this", "compares", "[]", "second", "id"))):
                            cl.viol.append(("the empty match does not carry the id of the ground truth", f, 0))
        if not own and not some:
            cl.viol.append(("ground truths without a match are not compared", f, 0))
        rep.instance("pair", f.q)
        for fn in cl.touched:
            rep.fn(fn)
        for msg, fn, line in cl.viol:
            rep.violation("pair:%s:%s" % (cls, msg), "%s::%s: %s" % (cls, f.n, msg), "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))
    rep.floor("pair", 3)


class App(Life):
    """the order of the stages of a run"""
    loop_rounds = 1

    def __init__(self, prog):
        super().__init__(prog, lambda p: "the " + ("matcher" if "matcher" in p[0] else "comparator"))

    def should_inline(self, eng, fn, c, n):
        return fn.file.startswith(("app/",)) or "util/" in fn.file and "coordinator" not in fn.file or "_forwarder" in fn.file and fn.n != "finish"

    def on_cond(self, eng, st, fr, val, truth, node):
        k = ("cond", val)
        if st.facts.get(k, truth) != truth:
            return None
        st.facts[k] = truth
        return st

    def workers(self, path):
        return False

    def on_call(self, eng, st, fr, n, c, obj, args):
        name, rec = self.name(c), c.get("rec") or ""
        if n["k"] == "ctor":
            if "_forwarder_" in rec and not rec.endswith("_data") and obj is not None:
                s = st.copy()
                s.facts[("forwarder", obj[1])] = rec.rsplit("::", 1)[-1]
                return self.ok(s, obj)
            if rec.startswith("map_matching_2::io::track::") and obj is not None and "importer" in rec:
                s = st.copy()
                kinds = [s.facts.get(("forwarder", a[1])) for a in args if a[0] == "loc"]
                s.facts[("importer", obj[1])] = next((x for x in kinds if x), "tracks")
                s.facts[("importer reads", obj[1])] = tuple(eng.rv(st, a) for a in args[:1])
                return self.ok(s, obj)
            if rec.startswith("map_matching_2::") and rec.rsplit("::", 1)[-1] in ("csv_settings", "srs_transform"):
                return self.ok(st, obj)
        if name == "make_unique" and ("matcher" in repr(c.get("rt")) or "comparator" in repr(c.get("rt"))):
            return self.ok(st, ("ptr", ("the matcher" if "::matcher" in repr(c.get("rt")) else "the comparator",)))
        if name == "read" and obj is not None and ("importer" in rec or ("importer", obj[1]) in st.facts):
            what = st.facts.get(("importer", obj[1]), "tracks")
            s = st.copy()
            s.facts["read"] = s.facts.get("read", ()) + ((what, s.facts.get(("importer reads", obj[1]))),)
            feeds = "seattle" not in rec and "edges_list" not in rec
            lives = [v for k, v in s.facts.items() if k[0] == "life"]
            if feeds and "running" not in lives:
                self.bad("tracks are read %s" % ("after the queue was closed: they are dropped" if lives else "before the workers are started"), fr, n)
            return self.ok(s, U)
        if name == "finish" and "comparator_forwarder" in rec:
            s = st.copy()
            if len({w for w, _ in s.facts.get("read", ())}) < 2:
                self.bad("the ground truths without a match are reported before everything is read", fr, n)
            if "running" not in [v for k, v in s.facts.items() if k[0] == "life"]:
                self.bad("the ground truths without a match are reported after the queue was closed", fr, n)
            s.facts["finished"] = True
            return self.ok(s, U)
        if name == "reset" and obj is not None and obj[0] == "loc" and "unique_ptr" in rec:
            return self.ok(st, U)
        return super().on_call(eng, st, fr, n, c, obj, args)

    def event(self, s, fr, n, path, name):
        super().event(s, fr, n, path[-1:] if path[-1:] and path[-1] in ("the matcher", "the comparator") else ("the comparator" if "comparator" in repr(path) else "the matcher",), name)


def stages(prog, rep):
    rep.rule("run", "a run starts the workers, reads every input once, reports what is left, closes the queue and waits, in this order")
    for name, kinds in (("_start_matching", None), ("_start_comparison", ("comparator_forwarder_compares", "comparator_forwarder_matches"))):
        for f in prog.q("map_matching_2::app::" + name):
            if not f.has_body:
                continue
            cl = App(prog)
            eng = Engine(prog, cl)
            outs = eng.run(f)
            n = 0
            for k, s, v in outs:
                if k != RET:
                    continue
                n += 1
                lives = [v2 for k2, v2 in s.facts.items() if k2[0] == "life"]
                if not lives:
                    cl.viol.append(("the workers are never started", f, 0))
                read = [w for w, _ in s.facts.get("read", ())]
                if kinds:
                    for w in kinds:
                        if read.count(w) > 1:
                            cl.viol.append(("an input is read twice", f, 0))
                    if not s.facts.get("finished"):
                        cl.viol.append(("ground truths without a match are never reported", f, 0))
                    sources = {}
                    for w, src in s.facts.get("read", ()):
                        sources[w] = repr(src)
                    for w, src in sources.items():
                        if w in kinds and ("comparison" if w.endswith("compares") else "'match'") not in src:
                            cl.viol.append(("the files of the ground truth and of the matches are exchanged", f, 0))
                elif len(read) > 1:
                    cl.viol.append(("the tracks are read twice", f, 0))
            if not n:
                cl.viol.append(("no run ends", f, 0))
            rep.instance("run", f.q)
            for fn in cl.touched:
                rep.fn(fn)
            for msg, fn, line in cl.viol:
                rep.violation("run:%s:%s" % (name, msg), "%s: %s" % (name, msg), "%s:%s" % (fn.file, line or fn.loc.rsplit(":", 1)[-1]))
    rep.floor("run", 2)


def run(prog, rep):
    coordinator_loop(prog, rep)
    coordinator_parts(prog, rep)
    workers(prog, rep)
    owners(prog, rep)
    pipeline(prog, rep)
    submissions(prog, rep)
    pairing(prog, rep)
    stages(prog, rep)

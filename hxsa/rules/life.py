"""opening, changing and closing an instance"""
from rules.common import *
from rules.client import at
from rules.flow import freezed, unwrap
from rules.results import steps, param
from rules.serve import not_
from rules.getop import Split, check, DROP

SRC = "src/hxhim/hxhim.cpp"


def public(P, qn):
    f = [f for f in P.by_qn.get(qn, []) if f.has_cfg]
    if len(f) != 1:
        raise AnalysisBroken("anchor vanished: " + qn)
    return f[0]


def hx(t):
    return param(unwrap(t), 0)


def comm(t):
    n, _, r = steps(unwrap(t))
    return n == ("p", "bootstrap", "comm") and param(r, 0)


class Session(Hooks):
    """what all functions on instances have in common"""
    max_depth = 4
    containers = False
    term_scale = 2
    files = (SRC,)

    def __init__(self, P):
        self.P = P
        self.success, self.error = macro_value(P, "HXHIM_SUCCESS"), macro_value(P, "HXHIM_ERROR")

    def inline(self, x, c, g):
        if g.qn == "hxhim::started":
            return True
        return g.file in self.files and g.qn not in ("hxhim::Close", "hxhimClose") and not c.e.get("virt")

    def flag(self, t, truth):
        """('known', what, truth) for the conditions on the instance itself"""
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!=") and ("c", 0) in (t[2], t[3]):
            truth = truth == (t[1] == "!=")
            t = t[2] if t[3] == ("c", 0) else t[3]
            t, truth = not_(t, truth)
        while t[0] == "m" and t[1] in ("operator bool", "load", "test") and len(t) >= 3:
            t = unwrap(t[2])
        if t[0] == "p" and param(t, 0):
            return ("known", "hx", truth)
        n, _, r = steps(t)
        if param(r, 0):
            if n == ("p",):
                return ("known", "p", truth)
            if n == ("p", "running"):
                return ("known", "running", truth)
        return None

    def compared(self, t, truth):
        """(term, value, equal) of a comparison with a constant"""
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("==", "!="):
            a, b = unwrap(t[2]), unwrap(t[3])
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                return a, b[1], truth == (t[1] == "==")
        return t, 0, not truth

    def under(self, loc):
        out, t = set(), loc
        while isinstance(t, tuple) and t[0] in ("f", "e", "d", "v"):
            if t[0] == "d":
                if t[1][0] == "p" and param(t[1], 0):
                    out.add("hx")
                elif t[1][0] == "f" and t[1][2] == "p" and param(unwrap(t[1][1]), 0):
                    out.add("p")
            t = t[1]
        return tuple(sorted(out))


def know(st, s):
    """conditions on the instance: None if they contradict what is known"""
    if st[s[1]] is not None and st[s[1]] != s[2]:
        return DROP
    st[s[1]] = s[2]
    return None


# ---------------------------------------------------------------- opening ----
class Opening(Session):
    def tag(self, x, c):
        if c.qn.startswith("hxhim::init::"):
            return ("init", c.name)
        return None

    def access(self, x, loc, node, write):
        u = self.under(loc)
        return ("deref", u) if u else None

    def call(self, x, c):
        if c.qn.startswith("hxhim::init::"):
            return ("init", c.name, bool(c.args) and hx(c.args[0]), c.name != "one_datastore" or len(c.args) > 1 and param(unwrap(c.args[1]), 1))
        if c.name == "MPI_Barrier":
            return ("barrier", comm(c.args[0]))
        if c.qn in ("hxhim::Close", "hxhimClose"):
            return ("close", hx(c.args[0]))
        return None

    def cond(self, x, t, truth, node):
        k = self.flag(t, truth)
        if k:
            return k
        a, v, eq = self.compared(t, truth)
        if a[0] == "r" and len(a) > 2 and isinstance(a[2], tuple) and a[2][0] == "init":
            return ("did", a[2][1], v == self.success, eq)
        n, _, r = steps(a)
        if n == ("p", "bootstrap", "size") and param(r, 0):
            return ("one", v == 1, eq)
        return None

    def exit(self, x, v):
        v = unwrap(v)
        if v[0] == "r" and len(v) > 2 and isinstance(v[2], tuple) and v[2][0] == "init":
            return ("exit", "of", v[2][1])
        return ("exit", v[1] if v[0] == "c" else None)


AFTER = (("bootstrap", "datastore"), ("bootstrap", "transport"), ("running", "transport"), ("datastore", "transport"),
         ("datastore", "queues"), ("one_datastore", "queues"), ("queues", "async_puts"), ("bootstrap", "one_datastore"))


def opening(rep):
    P = rep.prog
    rep.rule("open", "an instance is open only if every part of it was started, in an order in which each has what it needs; all ranks then go on together", 2)
    rep.rule("undone", "an instance that could not be opened is closed, after all ranks met if they can, and reported", 2)
    for qn, parts in (("hxhim::Open", ("bootstrap", "running", "datastore", "transport", "queues", "async_puts")),
                      ("hxhim::OpenOne", ("bootstrap", "running", "one_datastore", "queues", "async_puts"))):
        f = public(P, qn)
        hk = Opening(P)
        A = Split(P, hk).run(f)
        single = qn.endswith("One")

        def step(st, s):
            k = s[0]
            if k == "known":
                return know(st, s)
            if k == "deref":
                if st["close"]:
                    return ("bad", ("undone", "an instance is used after it was closed"))
                for u in s[1]:
                    if st[u] is not True:
                        return ("bad", ("open", "an instance that need not exist is used"))
            elif k in ("init", "barrier", "close"):
                if st["hx"] is not True or st["p"] is not True or st["running"] is not False:
                    return ("bad", ("open", "an instance that may be running already is started again"))
                if k == "init":
                    if not s[2] or not s[3]:
                        return ("bad", ("open", "%s is started for something else than what was asked for" % s[1]))
                    if s[1] in st["tried"]:
                        return ("bad", ("open", "%s is started twice" % s[1]))
                    if st["close"] or st["failed"]:
                        return ("bad", ("open", "%s is started although opening has failed" % s[1]))
                    for a, b in AFTER:
                        if b == s[1] and a in parts and a not in st["ok"]:
                            return ("bad", ("open", "%s is started before %s" % (b, a)))
                    if single and s[1] == "one_datastore" and st["one"] is not True:
                        return ("bad", ("open", "one datastore is opened by several ranks"))
                    st["tried"] = st["tried"] | {s[1]}
                elif k == "barrier":
                    if not s[1] or "bootstrap" not in st["ok"]:
                        return ("bad", ("undone", "the ranks wait for each other without knowing each other"))
                    if st["barrier"]:
                        return ("bad", ("open", "the ranks wait for each other twice"))
                    if st["close"]:
                        return ("bad", ("undone", "an instance is used after it was closed"))
                    st["barrier"] = "failed" if st["failed"] else "ok" if set(parts) <= st["ok"] else "early"
                else:
                    if not s[1]:
                        return ("bad", ("undone", "another instance is closed"))
                    if st["close"]:
                        return ("bad", ("undone", "an instance is closed twice"))
                    st["close"] = True
            elif k == "did":
                if s[2]:
                    ok = s[3]
                elif s[3]:
                    ok = False
                else:
                    return None
                if s[1] in st["ok"] and not ok or st["failed"] == s[1] and ok:
                    return DROP
                if ok:
                    st["ok"] = st["ok"] | {s[1]}
                else:
                    st["failed"] = s[1]
            elif k == "one":
                if s[1]:
                    if st["one"] is not None and st["one"] != s[2]:
                        return DROP
                    st["one"] = s[2]
                    if single and not s[2]:
                        st["failed"] = st["failed"] or "size"
            elif k == "exit":
                v = s[1]
                if v == "of":
                    return ("bad", ("open", "whether %s was started is not looked at" % s[2]))
                if v == hk.success:
                    miss = [p for p in parts if p not in st["ok"]]
                    if st["failed"]:
                        return ("bad", ("open", "an instance is reported to be open although %s failed" % st["failed"]))
                    if miss:
                        return ("bad", ("open", "an instance is reported to be open without " + miss[0]))
                    if st["barrier"] != "ok":
                        return ("bad", ("open", "the ranks do not wait for each other"))
                    if st["close"]:
                        return ("bad", ("open", "an instance is reported to be open although it was closed"))
                elif v is None:
                    return ("bad", ("open", "whether an instance was opened is not reported"))
                elif st["tried"]:
                    if not st["failed"]:
                        return ("bad", ("open", "an instance is reported not to be open although nothing failed"))
                    if not st["close"]:
                        return ("bad", ("undone", "an instance that could not be opened is not closed"))
                    if "bootstrap" in st["ok"] and st["barrier"] != "failed":
                        return ("bad", ("undone", "the other ranks wait for one whose instance could not be opened"))
                elif st["close"] and st["running"] is not False:
                    return ("bad", ("undone", "a running instance is closed instead of opened"))
                elif st["hx"] is True and st["p"] is True and st["running"] is False:
                    return ("bad", ("open", "an instance is not opened without a reason"))
            return None
        run(rep, f, A, dict(hx=None, p=None, running=None, tried=frozenset(), ok=frozenset(), failed=None, one=None, barrier=None, close=False), step)
        rep.ok("open", f.id)
        rep.ok("undone", f.id)


def run(rep, f, A, init, step):
    def wrapped(st, s):
        st = dict(st)
        r = step(st, s)
        return None if r == DROP else r if r else freezed(st)
    rep.auto(A)
    for m, pos, tr in typestate(A, freezed(init), wrapped):
        rep.bad(m[0], at(pos, f), f.qn, m[1], m[1], tr)


class Part(Session):
    """one part being started"""
    files = ("src/hxhim/init.cpp",)
    PARTS = {"Init": "a datastore", "init": "the transport", "MPI_Comm_rank": "the rank", "MPI_Comm_size": "the number of ranks", "running": "the instance"}
    OK = {"init": "TRANSPORT_SUCCESS", "running": "HXHIM_SUCCESS"}

    def __init__(self, P):
        Session.__init__(self, P)
        self.ok = {n: macro_value(P, m) for n, m in self.OK.items()}
        self.ok.update(MPI_Comm_rank=0, MPI_Comm_size=0)

    def kind(self, c):
        if c.qn in ("Datastore::Init", "Transport::init", "hxhim::init::running", "MPI_Comm_rank", "MPI_Comm_size"):
            return c.name
        return None

    def inline(self, x, c, g):
        return Session.inline(self, x, c, g) and not self.kind(c)

    def tag(self, x, c):
        k = self.kind(c)
        return ("part", k) if k else None

    def call(self, x, c):
        k = self.kind(c)
        return ("part", k) if k else None

    def part(self, t):
        t = unwrap(t)
        return t[2][1] if t[0] == "r" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "part" else None

    def cond(self, x, t, truth, node):
        a, v, eq = self.compared(t, truth)
        p = self.part(a)
        if not p:
            return None
        if p == "Init":
            return ("did", p, not eq) if v == 0 else None
        if v == self.ok[p]:
            return ("did", p, eq)
        return ("did", p, False) if eq else None

    def exit(self, x, v):
        v = unwrap(v)
        if self.part(v):
            return ("exit", "of", self.part(v))
        return ("exit", v[1] if v[0] == "c" else None)


def parts(rep):
    P = rep.prog
    rep.rule("reported", "a part that could not be started is reported", 3)
    fs = [f for f in P.funcs.values() if f.has_cfg and f.qn.startswith("hxhim::init::") and f.file == Part.files[0] and f.d.get("ret", f.d.get("rt", "int")) == "int"]
    if len(fs) < 6:
        raise AnalysisBroken("anchor vanished: hxhim::init")
    for f in sorted(fs, key=lambda f: f.line):
        hk = Part(P)
        A = Split(P, hk).run(f)

        def step(st, s):
            if s[0] == "part":
                if st["open"]:
                    return ("bad", ("reported", "whether %s could be started is not looked at" % Part.PARTS[st["open"]]))
                st["open"] = s[1]
            elif s[0] == "did":
                if st["open"] == s[1]:
                    st["open"] = None
                if not s[2]:
                    st["failed"] = s[1]
            elif s[0] == "exit":
                if s[1] == "of":
                    if hk.ok.get(s[2]) == hk.success:
                        return None
                    return ("bad", ("reported", "what is reported is not whether %s could be started" % Part.PARTS[s[2]]))
                if s[1] == hk.success:
                    if st["failed"]:
                        return ("bad", ("reported", "%s could not be started, which is not reported" % Part.PARTS[st["failed"]]))
                    if st["open"]:
                        return ("bad", ("reported", "whether %s could be started is not looked at" % Part.PARTS[st["open"]]))
                elif s[1] is None:
                    return ("bad", ("reported", "whether a part was started is not reported"))
            return None
        run(rep, f, A, dict(open=None, failed=None), step)
        rep.ok("reported", f.id)


def opened(rep):
    opening(rep)
    parts(rep)


# ---------------------------------------------------------------- closing ----
def name_of(w):
    return "datastores" if w == "ds" else "queued " + w.upper()


QUEUES = ("puts", "gets", "getops", "deletes", "histograms")
ALL = QUEUES + ("ds",)


class Closing(Session):
    max_depth = 6
    files = (SRC, "src/hxhim/destroy.cpp", "src/transport/transports.cpp", "src/datastore/datastores.cpp")

    def inline(self, x, c, g):
        if g.qn in ("hxhim::started", "hxhim::nocheck::GetMPI"):
            return True
        return g.file in self.files and g.qn not in ("hxhim::Sync",) and not c.e.get("virt") or g.name == "destruct" and False

    def private(self, t):
        """what of the instance a term is (part of)"""
        n, _, r = steps(unwrap(t))
        return n[1:] if n[:1] == ("p",) and param(r, 0) else None

    def instance(self, t):
        n, i, r = steps(unwrap(t))
        return n == ("p",) and not i and param(r, 0)

    def of(self, t):
        """the container of an instance a term is (an element of): its name, or
        the key of the loop whose element it is"""
        for s in subterms(t):
            if s[0] == "f" and len(s) > 2:
                n, _, r = steps(s)
                if param(r, 0) and n[:2] == ("p", "queues") and len(n) > 2:
                    return n[2]
                if param(r, 0) and n == ("p", "range_server", "datastores", "ds"):
                    return "ds"
        for s in subterms(t):
            if s[0] in ("phi", "j"):
                return "@" + str(s)
        return None

    def element(self, t):
        t = unwrap(t)
        return self.of(t) if t[0] in ("d", "e", "f", "phi", "m", "v", "j") and self.private(t) not in (("queues",),) else None

    def range(self, t, truth):
        """(key, container, more) of the condition of a loop over a container"""
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("!=", "==", "<"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                ends = [s for s in subterms(b) if s[0] == "m" and s[1] in ("end", "cend", "size") and len(s) == 3]
                keys = [s for s in subterms(a) if s[0] in ("phi", "j")]
                if ends and (keys or t[1] == "<"):
                    w = self.of(ends[0][2])
                    if w:
                        return "@" + str(keys[0]) if keys else "", w, truth == (t[1] != "==")
        return None

    def access(self, x, loc, node, write):
        u = self.under(loc)
        return ("deref", u) if u else None

    def assign(self, x, loc, val, n):
        if self.instance(loc):
            return ("null", val == ("c", 0))
        p = self.private(loc)
        if p == ("running",):
            return ("running", val)
        if p == ("bootstrap", "comm"):
            return ("alone",)
        if p in (("transport", "transport"), ("async_puts", "results")) and val == ("c", 0):
            return ("gone", ".".join(p))
        return None

    def call(self, x, c):
        if c.name in ("operator=", "store") and c.obj is not None and self.private(c.obj) == ("running",):
            return ("running", unwrap(c.args[0]))
        if c.name == "join" and c.obj is not None and self.private(c.obj) == ("async_puts", "thread"):
            return ("join",)
        if c.qn == "hxhim::wait_for_background_puts":
            return ("drain",)
        if c.qn in ("hxhim::Sync", "hxhim::Flush"):
            return ("sync",)
        if c.name == "MPI_Barrier":
            return ("barrier",)
        if c.name == "Close" and c.obj is not None and "Datastore" in c.qn:
            return ("shut", self.element(c.obj))
        if c.name in ("destruct", "operator delete") and c.args or c.kind == "delete":
            a = unwrap(c.args[0])
            if self.instance(a):
                return ("free",)
            p = self.private(a)
            if p in (("transport", "transport"), ("async_puts", "results"), ("transport", "config"), ("range_server", "datastores", "config")):
                return ("end", ".".join(p))
            q = self.element(a)
            if q:
                return ("end", q)
        if c.obj is not None:
            u = self.under(unwrap(c.obj))
            if u:
                return ("deref", u)
        return None

    def cond(self, x, t, truth, node):
        k = self.flag(t, truth)
        if k:
            return k
        t, truth = not_(t, truth)
        each = self.range(t, truth)
        if each:
            return ("each",) + each
        a, v, eq = self.compared(t, truth)
        if a[0] == "m" and a[1] == "joinable":
            return ("has", "thread", not eq)
        if v == 0:
            p = self.private(a)
            if p in (("async_puts", "enabled"),):
                return ("has", "enabled", not eq)
            if a[0] in ("d", "e") and self.element(a):
                return ("has", self.element(a), not eq)
        return None

    def exit(self, x, v):
        v = unwrap(v)
        return ("exit", v[1] if v[0] == "c" else None)


def closed(rep):
    P = rep.prog
    rep.rule("order", "what uses a part of an instance is stopped before that part goes away", 1)
    rep.rule("all", "closing stops and releases every part once, and the instance with them", 1)
    f = public(P, "hxhim::Close")
    hk = Closing(P)
    A = Interp(P, hk).run(f)
    kinds = {s[:2] if s[0] == "end" else s[:1] for s in A.symbols()}
    for need, what in ((("join",), "the thread that sends PUTs is not stopped"), (("shut",), "the datastores are not closed"),
                       (("free",), "the instance is not released"), (("end", "transport.transport"), "the transport is not stopped"),
                       (("end", "async_puts.results"), "results of PUTs that nobody asked for are not released")):
        if need not in kinds:
            rep.bad("all", f, f.qn, what, what)

    def step(st, s):
        k = s[0]
        over = "instance" in st["done"]
        if k in ("end", "shut", "has", "each"):
            loops = dict(st["loops"])
            s = tuple(loops.get(w, (w, 0))[0] if isinstance(w, str) and w[:1] == "@" and (k, n) != ("each", 1) else w for n, w in enumerate(s))
        if k == "each":
            w = s[2]
            if w not in ALL:
                return None
            lv = [n for (v, n) in st["levels"] if v == s[1]]
            raw = lv[0] if lv else 1 + max([n for (v, n) in st["pend"] if v == w] or [0])
            st["levels"] = st["levels"] | {(s[1], raw)}
            loops[s[1]] = (w, raw)
            st["loops"] = frozenset(loops.items())
            if (w, raw) in st["pend"]:
                return ("bad", ("all", "not every one of the %s is released" % name_of(w)))
            if s[3]:
                st["pend"] = st["pend"] | {(w, raw)}
            elif raw > 1:
                st["pend"] = st["pend"] - {(w, raw - 1)}
            else:
                st["done"] = st["done"] | {w}
            return None
        if k == "deref":
            if (over or st["null"]) and "p" in s[1]:
                return ("bad", ("order", "an instance is used after it was released"))
            for u in s[1]:
                if st[u] is not True:
                    return ("bad", ("all", "an instance that need not exist is closed"))
        elif k == "known":
            if s[1] == "running":
                return None
            if s[1] == "p" and over:
                return None
            return know(st, s)
        elif k == "has":
            if s[1] == "ds":
                st["has"] = s[2]
                if not s[2]:
                    st["pend"] = st["pend"] - {("ds", 1)}
            elif s[1] in QUEUES:
                pass
            else:
                n = s[1]
                if st[n] is not None and st[n] != s[2]:
                    return DROP
                st[n] = s[2]
        elif k == "running":
            if s[1] == ("c", 0):
                st["done"] = st["done"] | {"running"}
            else:
                return ("bad", ("order", "an instance that is closed is set to run"))
        elif k == "join":
            if "running" not in st["done"]:
                return ("bad", ("order", "the thread that sends PUTs is waited for although it was not told to stop"))
            if not st["drained"]:
                return ("bad", ("order", "the thread that sends PUTs is waited for although it may be waiting itself"))
            if st["thread"] is not True:
                return ("bad", ("all", "a thread that was not started is waited for"))
            st["done"] = st["done"] | {"thread"}
        elif k == "drain":
            if "running" not in st["done"]:
                return ("bad", ("order", "the thread that sends PUTs is woken before it was told to stop"))
            st["drained"] = True
        elif k == "sync":
            if st["done"] & {"transport.transport", "ds", "thread", "alone"}:
                return ("bad", ("order", "requests are sent after the parts they need are gone"))
        elif k == "barrier":
            if over:
                return ("bad", ("order", "an instance is used after it was released"))
        elif k == "shut":
            if "transport.transport" not in st["done"]:
                return ("bad", ("order", "a datastore is closed while requests for it may come in"))
            if st["enabled"] is not False and st["thread"] is not False and "thread" not in st["done"]:
                return ("bad", ("order", "a datastore is closed while PUTs may be sent to it"))
            if st["has"] is not True:
                return ("bad", ("all", "a datastore that need not exist is closed"))
            st["shut"] = True
        elif k == "end":
            w = s[1]
            deep = max([n for (v, n) in st["pend"] if v == w] or [0])
            if deep:
                st["pend"] = st["pend"] - {(w, deep)}
            if w in QUEUES + ("transport.transport", "async_puts.results"):
                if st["enabled"] is not False and st["thread"] is not False and "thread" not in st["done"]:
                    return ("bad", ("order", "%s is released while the thread that sends PUTs may use it" % w))
            if w == "ds":
                if not st["shut"] and st["has"] is not False:
                    return ("bad", ("order", "a datastore is released without having been closed"))
                st["shut"], st["has"] = False, None
            elif w in ("transport.transport", "transport.config", "range_server.datastores.config", "async_puts.results"):
                if w in st["done"] and w not in st["gone"]:
                    return ("bad", ("all", "%s is released twice" % w))
                st["done"] = st["done"] | {w}
            if over:
                return ("bad", ("order", "an instance is used after it was released"))
        elif k == "gone":
            st["gone"] = st["gone"] | {s[1]}
        elif k == "alone":
            st["done"] = st["done"] | {"alone"}
        elif k == "free":
            if over:
                return ("bad", ("all", "an instance is released twice"))
            miss = [w for w in ("running", "transport.transport", "async_puts.results") + ALL if w not in st["done"]]
            if miss:
                return ("bad", ("all", "an instance is released although its %s still are there" % name_of(miss[0]) if miss[0] in ALL else "an instance is released with its %s" % miss[0]))
            if st["enabled"] is not False and st["thread"] is not False and "thread" not in st["done"]:
                return ("bad", ("order", "an instance is released while the thread that sends PUTs may use it"))
            st["done"] = st["done"] | {"instance"}
        elif k == "null":
            if not s[1]:
                return ("bad", ("order", "another instance is put in the place of one that is closed"))
            st["null"] = True
        elif k == "exit":
            if s[1] == hk.success:
                if not over or not st["null"]:
                    return ("bad", ("all", "an instance is reported to be closed although it is not"))
            elif s[1] == hk.error:
                if st["hx"] is True and st["p"] is True or over:
                    return ("bad", ("all", "an instance that exists is not closed"))
            else:
                return ("bad", ("all", "whether an instance was closed is not reported"))
        return None
    run(rep, f, A, dict(hx=None, p=None, enabled=None, thread=None, has=None, done=frozenset(), gone=frozenset(), drained=False, shut=False, null=False, loops=frozenset(), levels=frozenset(), pend=frozenset()), step)
    rep.ok("order", f.id)
    rep.ok("all", f.id)


# --------------------------------------------------------------- changing ----
class Changing(Session):
    """another hash or another datastore name for a running instance"""
    max_depth = 4
    files = (SRC,)
    hash = ("name", "func", "args")

    def __init__(self, P, f):
        Session.__init__(self, P)
        self.f = f

    def inline(self, x, c, g):
        if g.qn in ("hxhim::Sync", "hxhim::Flush"):
            return False
        return Session.inline(self, x, c, g)

    def tag(self, x, c):
        if c.qn == "hxhim::Sync":
            return ("sync",)
        if c.name == "str" and "stream" in c.qn:
            return ("made", "stream")
        if c.qn in ("Datastore::generate_name",) or c.name == "to_string":
            return ("made", ",".join(sorted(self.parts(c))))
        if c.name == "ID":
            return ("id",)
        return None

    def private(self, t):
        n, _, r = steps(unwrap(t))
        return n[1:] if n[:1] == ("p",) and param(r, 0) else None

    def parts(self, c):
        """what a name is made of"""
        out = set()
        for a in list(c.args) + ([c.obj] if c.obj is not None else []):
            out |= self.mentions(a)
        return out

    def mentions(self, t):
        out = set()
        for s in subterms(t):
            if s[0] == "p" and s[1].startswith("p") and not s[1].startswith("p0d0"):
                out.add("arg" + s[1][1:s[1].index("d")])
            if s[0] == "r" and len(s) > 2 and isinstance(s[2], tuple):
                if s[2][0] == "id":
                    out.add("id")
                elif s[2][0] == "made":
                    out |= set(s[2][1].split(","))
            if s[0] == "m" and s[1] == "ID":
                out.add("id")
            if s[0] == "m" and s[1] == "str":
                out.add("stream")
            if s[0] == "f" and len(s) > 2:
                n = steps(s)[0]
                if n[:1] == ("p",) and len(n) > 2:
                    out.add(n[-1])
        return out - {""}

    def call(self, x, c):
        if c.qn == "hxhim::Sync":
            return ("sync", hx(c.args[0]))
        if c.name == "MPI_Barrier":
            return ("barrier", comm(c.args[0]))
        if c.name == "operator<<" and c.args:
            m = self.mentions(c.args[-1])
            return ("piece", tuple(sorted(m))) if m else None
        if c.name == "Change" and c.obj is not None and "Datastore" in c.qn:
            return ("change", tuple(sorted(self.mentions(c.args[0]))))
        if c.name in ("operator=", "assign") and c.obj is not None:
            p = self.private(c.obj)
            if p and p[0] in ("hash", "range_server"):
                return ("set", ".".join(p), tuple(sorted(self.mentions(c.args[0]))))
        return None

    def assign(self, x, loc, val, n):
        p = self.private(loc)
        if p and p[0] in ("hash", "range_server"):
            return ("set", ".".join(p), tuple(sorted(self.mentions(val))))
        return None

    def cond(self, x, t, truth, node):
        k = self.flag(t, truth)
        if k:
            return k
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("!=", "==", "<"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                ends = [s for s in subterms(b) if s[0] == "m" and s[1] in ("end", "cend", "size") and len(s) == 3]
                if ends and steps(unwrap(ends[0][2]))[0][-2:] == ("datastores", "ds"):
                    return ("each", truth == (t[1] != "=="))
        if t[0] == "d" and any(s[0] == "phi" for s in subterms(t)):
            return ("has", truth)
        return None

    def exit(self, x, v):
        v = unwrap(v)
        if v[0] == "r" and len(v) > 2 and isinstance(v[2], tuple):
            return ("exit", v[2][0])
        return ("exit", "null" if v == ("c", 0) else None)


def changing(rep):
    P = rep.prog
    rep.rule("together", "a change is made by all ranks after the requests before it and before those after it", 2)
    rep.rule("everywhere", "every datastore gets its own new name, and what was given is kept", 2)
    wrapped(rep)
    for qn, need, name in (("hxhim::ChangeHash", {"hash.name": "arg1", "hash.func": "arg2", "hash.args": "arg3"}, ({"arg1", "name"}, {"id"})),
                           ("hxhim::ChangeDatastoreName", {"range_server.datastores.basename": "arg1"}, ({"basename", "arg1", "id"}, {"id", "prefix", "postfix"}))):
        f = public(P, qn)
        hk = Changing(P, f)
        A = Split(P, hk).run(f)
        forms = {s for s in A.symbols() if s[0] == "set"}
        kept = {}
        for s in forms:
            kept.setdefault(s[1], set()).add(s[2])
        for o, arg in sorted(need.items()):
            if kept.get(o) != {(arg,)}:
                rep.bad("everywhere", f, f.qn, "%s is not set to what was given" % o, o)
        for o in sorted(set(kept) - set(need)):
            rep.bad("everywhere", f, f.qn, "%s is changed although that was not asked for" % o, o)
        def step(st, s):
            k = s[0]
            if k == "known":
                return know(st, s)
            if k in ("sync", "barrier", "change", "set"):
                if (st["hx"], st["p"], st["running"]) != (True, True, True):
                    return ("bad", ("together", "an instance is changed that need not run"))
            if k == "sync":
                if not s[1]:
                    return ("bad", ("together", "another instance is synced"))
                if st["sync"] or st["barriers"]:
                    return ("bad", ("together", "the requests before a change are not answered first"))
                st["sync"] = True
            elif k == "barrier":
                if not s[1]:
                    return ("bad", ("together", "other ranks than those of the instance wait for each other"))
                if not st["sync"]:
                    return ("bad", ("together", "the ranks wait for each other before their requests are answered"))
                st["barriers"] += 1
                if st["barriers"] > 2:
                    return ("bad", ("together", "the ranks wait for each other a third time"))
                if st["barriers"] == 2 and (not st["all"] or set(need) - st["set"]):
                    return ("bad", ("together", "the ranks go on before the change is made"))
            elif k in ("change", "set"):
                if st["barriers"] != 1:
                    return ("bad", ("together", "a change is made while other ranks may use what is changed"))
                if k == "set":
                    if s[1].endswith("basename") and st["any"]:
                        return ("bad", ("everywhere", "the name is changed after datastores got theirs"))
                    st["set"] = st["set"] | {s[1]}
                else:
                    if not st["ds"]:
                        return ("bad", ("everywhere", "a datastore is changed twice"))
                    st["ds"], st["any"] = False, True
                    w = set(s[1])
                    if "stream" in w:
                        w |= st["pieces"]
                    if not name[1] <= w:
                        return ("bad", ("everywhere", "the new name of a datastore is made without its %s" % sorted(name[1] - w)[0]))
                    if not w & (name[0] - {"id"}):
                        return ("bad", ("everywhere", "the new name of a datastore is made without the name that was given"))
            elif k == "piece":
                st["pieces"] = st["pieces"] | set(s[1])
            elif k == "has":
                if not s[1]:
                    st["ds"] = False
            elif k == "each":
                if st["ds"]:
                    return ("bad", ("everywhere", "a datastore is left as it was"))
                st["ds"], st["pieces"] = s[1], frozenset()
                if not s[1]:
                    st["all"] = True
            elif k == "exit":
                if s[1] == "null":
                    if (st["hx"], st["p"], st["running"]) == (True, True, True):
                        return ("bad", ("together", "the results of the requests before a change are not returned"))
                elif s[1] == "sync":
                    if st["barriers"] != 2 or not st["all"]:
                        return ("bad", ("together", "the ranks do not wait for each other after a change"))
                else:
                    return ("bad", ("together", "something else than the results of the requests before a change is returned"))
            return None
        run(rep, f, A, dict(hx=None, p=None, running=None, sync=False, barriers=0, set=frozenset(), ds=False, any=False, all=False, pieces=frozenset()), step)
        rep.ok("together", f.id)
        rep.ok("everywhere", f.id)


class Wrapper(Hooks):
    """a C function that hands everything on"""
    max_depth = 2
    containers = False

    def __init__(self, P, to):
        self.P, self.to = P, to

    def inline(self, x, c, g):
        return g.file == "src/hxhim/hxhim.cpp" and g.qn != self.to

    def form(self, t):
        t = unwrap(t)
        while t[0] == "b" and t[1] == "!=" and t[3] == ("c", 0) or t[0] == "m" and t[1] in ("move", "forward") and len(t) > 2:
            t = unwrap(t[2])
        n, pos = not_(t, True)
        if pos and n[0] == "p":
            t = n
        if t[0] == "p" and "d" in t[1]:
            return "param" + t[1][1:t[1].index("d")]
        if t[0] == "m" and t[1].startswith(("new std::basic_string", "new std::string")) and len(t) >= 4:
            a, b = unwrap(t[2]), unwrap(t[3])
            if b[0] == "b" and b[1] == "+" and a in b[2:]:
                b = unwrap([u for u in b[2:] if u != a][0])
            if a[0] == b[0] == "p":
                return "name " + self.form(a) + " " + self.form(b)
        return "?"

    def tag(self, x, c):
        return ("changed",) if c.qn == self.to else None

    def call(self, x, c):
        if c.qn == self.to:
            return ("calls",) + tuple(self.form(a) for a in c.args)
        if c.name == "hxhim_results_init":
            r = unwrap(c.args[1])
            return ("wraps", r[0] == "r" and len(r) > 2 and r[2] == ("changed",))
        return None


def wrapped(rep):
    """the C functions change the same"""
    for qn, to in (("hxhimChangeHash", "hxhim::ChangeHash"), ("hxhimChangeDatastoreName", "hxhim::ChangeDatastoreName")):
        f = public(rep.prog, qn)
        A = Split(rep.prog, Wrapper(rep.prog, to)).run(f)
        n = len(f.params)
        want = ("param0", "name param1 param2") + tuple("param%d" % i for i in range(3, n))

        def step(st, s):
            if s[0] == "calls":
                if s[1:] != want:
                    return ("bad", ("everywhere", "what is changed is not what was given"))
                st["n"] = min(2, st["n"] + 1)
            elif s[0] == "wraps":
                if not s[1] or st["n"] != 1:
                    return ("bad", ("together", "the results of the requests before the change are not given out"))
                st["out"] = True
            return None
        run(rep, f, A, {"n": 0, "out": False}, step)
        if not any(s[0] == "calls" for s in A.symbols()):
            rep.bad("everywhere", f, f.qn, "nothing is changed", "nothing")
        rep.ok("everywhere", f.qn)

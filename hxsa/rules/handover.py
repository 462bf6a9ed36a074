"""PUTs sent in the background: from the queue to the results of the next flush"""
from rules.common import *
from rules.client import at
from rules.flow import freezed, unwrap
from rules.results import steps, param
from rules.getop import Split, DROP
from rules.serve import not_
from rules.life import run, public
from rules.keys import flat

MUTEX = {("p", "queues", "puts", "mutex"): "queue", ("p", "async_puts", "mutex"): "results"}
CV = {("p", "queues", "puts", "start_processing"): "start", ("p", "async_puts", "done"): "done"}
HELD = ("p", "async_puts", "results")
QUEUE = ("p", "queues", "puts", "queue")


class Handing(Hooks):
    max_depth = 3
    containers = False
    term_scale = 3
    exact = True
    files = ("src/hxhim/init.cpp", "src/hxhim/private.cpp", "src/hxhim/ops/FLUSH.cpp")
    opaque = ("process", "FlushImpl", "wait_for_background_puts", "Append", "destruct", "construct", "Destroy", "mlog")

    def __init__(self, P):
        self.P = P

    def inline(self, x, c, g):
        return g.file in self.files and g.name not in self.opaque

    def where(self, t):
        """path of a place of the session"""
        n, ix, r = steps(t)
        if ix:
            return None
        if param(r, 0):
            return n
        # what a call may have changed keeps the name of its place
        if r[0] == "o" and not n:
            for y in flat(r[1:]):
                if y.startswith("[") and "'p'" in y:
                    return tuple(z.strip(" '") for z in y.strip("[]").split(","))[1:]
        return None

    def volatile(self, x, loc):
        return self.where(loc) == ("p", "running")

    def thing(self, t):
        """which results a term names"""
        t = unwrap(t)
        if self.where(t) == HELD:
            return "held"
        if t[0] == "r":
            f = flat(t[2:])
            for k in ("sent", "made"):
                if k in f:
                    return k
        return None

    def tag(self, x, c):
        if c.name in ("process", "FlushImpl"):
            return ("sent",)
        if c.name == "construct" and not c.args:
            return ("made",)
        return None

    def loop(self, x, variables):
        return ("head", tuple(sorted(variables)))

    def counter(self, t):
        """(variable, what is added to its value at the loop head)"""
        if t[0] == "b" and t[1] in ("+", "-") and t[3][0] == "c" and t[2][0] == "phi":
            return t[2][2], t[3][1] if t[1] == "+" else -t[3][1]
        return (t[2], 0) if t[0] == "phi" else None

    def call(self, x, c):
        a = c.args
        # the other thread may have stopped the instance meanwhile
        x.facts = frozenset((t, p) for t, p in x.facts if not any(self.where(u) == ("p", "running") for u in subterms(t)))
        if c.obj is not None:
            w = self.where(c.obj)
            if c.name in ("lock", "unlock"):
                if w in MUTEX:
                    return (c.name, MUTEX[w])
                if c.obj[0] == "L":
                    return ("g" + c.name, c.obj[2])
            if w in CV:
                return ("wait" if c.name.startswith("wait") else "notify", CV[w])
            if w == QUEUE:
                if c.name == "clear":
                    return ("queue", "cleared")
                if c.name in ("resize", "assign"):
                    return ("queue", "sized" if self.where(a[0]) == ("p", "range_server", "datastores", "total") else "missized")
                if c.name == "swap" and a:
                    return [("take", str(c.lvs[0][1])[:60] if c.lvs else "?")] + self.fresh(c.lvs[0][1] if c.lvs and c.lvs[0][0] == "lv" else a[0])
            if c.name == "swap" and a and self.where(a[0]) == QUEUE:
                return [("take", "swap")] + self.fresh(c.obj)
            if c.obj[0] == "L" and c.name == "clear":
                return ("lnew", c.obj[2], False)
            if c.obj[0] == "L" and c.name == "resize":
                return ("lsize", c.obj[2], self.where(a[0]) == ("p", "range_server", "datastores", "total"))
            if c.name == "Append" and a:
                return ("append", self.thing(c.obj[1] if c.obj[0] == "d" else c.obj), self.thing(a[0]))
        if c.name == "swap" and c.obj is None and len(a) == 2:
            for i in (0, 1):
                if self.where(a[i]) == QUEUE:
                    return [("take", "swap")] + self.fresh(c.lvs[1 - i][1] if c.lvs and c.lvs[1 - i][0] == "lv" else a[1 - i])
        if c.name == "process" and len(a) >= 2:
            lv = c.lvs[1] if c.lvs and len(c.lvs) > 1 else ("rv", a[1])
            return ("process", lv[0] == "lv" and lv[1][0] == "L")
        if c.name == "FlushImpl" and len(a) >= 2:
            return ("process", self.where(a[1]) == QUEUE)
        if c.name in ("destruct", "Destroy") and a:
            k = self.thing(a[0])
            return ("free", k) if k else None
        if c.name == "wait_for_background_puts":
            drop = len(a) > 1 and a[1] != ("c", 0)
            return ("waited", drop)
        return None

    def fresh(self, v):
        v = unwrap(v)
        if v[0] == "L":
            return [("swapped", v[2])]
        if v[0] == "m" and v[1].startswith("new std::vector") and len(v) > 2 and self.where(v[2]) == ("p", "range_server", "datastores", "total"):
            return [("queue", "cleared"), ("queue", "sized")]
        return [("queue", "missized")]

    def assign(self, x, loc, val, n):
        w = self.where(loc) if loc[0] == "f" else None
        v = unwrap(val)
        if w == HELD:
            return ("store", "null" if v == ("c", 0) or v[0] == "n" else self.thing(v))
        if w == QUEUE:
            return [("queue", "cleared")] + self.fresh(v)[1:]
        if w == ("p", "queues", "puts", "count"):
            return ("count", v[1] if v[0] == "c" else None)
        if w == ("p", "queues", "puts", "flushed"):
            return ("flushed", bool(v[1]) if v[0] == "c" else None)
        if w == ("p", "async_puts", "done_check"):
            return ("done", bool(v[1]) if v[0] == "c" else None)
        if loc[0] == "L":
            if v[0] == "m" and v[1].startswith("new std::") and "lock" in v[1] and len(v) >= 3:
                m = MUTEX.get(self.where(v[2]))
                return ("gset", loc[2], m, len(v) == 3) if m else None
            if self.where(v) == QUEUE:
                return ("take", loc[2])
            if self.where(v) == HELD:
                return ("got", loc[2])
            if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
                return ("int", loc[2], v[1], None)
            if self.counter(v):
                return ("int", loc[2]) + self.counter(v)
            if v[0] == "m" and v[1].startswith("new std::vector"):
                return ("lnew", loc[2], len(v) > 2 and self.where(v[2]) == ("p", "range_server", "datastores", "total"))
        return None

    def dtor(self, x, loc, el):
        return ("gdtor", loc[2]) if loc[0] == "L" else None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!=") and (t[3] == ("c", 0) or t[3][0] == "n"):
            if self.where(t[2]):
                t, truth = t[2], truth == (t[1] == "!=")
        if t[0] == "b" and t[3][0] == "c" and t[1] in OPS and self.counter(t[2]):
            return ("test",) + self.counter(t[2]) + (t[1], t[3][1], truth)
        while t[0] == "m" and t[1] in ("operator bool", "load") and len(t) == 3:
            t = unwrap(t[2])
        if t[0] == "p" and param(t, 1):
            return ("drop", truth)
        w = self.where(t)
        if w == HELD:
            return ("is held", truth)
        if w == ("p", "running"):
            return ("running", truth)
        if w == ("p", "async_puts", "enabled"):
            return ("enabled", truth)
        return None

    def exit(self, x, v):
        if v is None:
            return ("exit", None)
        return ("exit", self.thing(v) or ("got" if self.where(unwrap(v)) == HELD else None))


def locking(st, s):
    """keeps what is locked; (mutex, 'lock'|'unlock') of a step"""
    g, h = dict(st["guards"]), set(st["held"])
    k, out = s[0], None
    if k == "gset":
        g[s[1]] = s[2]
        if s[3]:
            h.add(s[2])
            out = (s[2], "lock")
    elif k in ("glock", "lock"):
        m = g.get(s[1]) if k == "glock" else s[1]
        h.add(m)
        out = (m, "lock")
    elif k in ("gunlock", "unlock", "gdtor"):
        m = s[1] if k == "unlock" else g.get(s[1])
        if k == "gdtor":
            g.pop(s[1], None)
        if m in h:
            h.discard(m)
            out = (m, "unlock")
    else:
        return None
    st["guards"], st["held"] = tuple(sorted(g.items())), tuple(sorted(h, key=str))
    return out


OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def counting(st, s):
    """small integers counting rounds: the value of a variable, and the one it
    had at the loop head"""
    d = dict(st["ints"])
    if s[0] == "head":
        d.update({v + "^": d.get(v) for v in s[1]})
    elif s[0] == "int":
        v = s[2] if not isinstance(s[2], str) else d[s[2] + "^"] + s[3] if d.get(s[2] + "^") is not None else None
        d[s[1]] = v if v is None or abs(v) < 9 else None
    elif s[0] == "test" and d.get(s[1] + "^") is not None:
        if OPS[s[3]](d[s[1] + "^"] + s[2], s[4]) != s[5]:
            return DROP
    st["ints"] = tuple(sorted((k, v) for k, v in d.items() if v is not None))
    return None


def thread(rep, f):
    hk = Handing(rep.prog)
    A = Split(rep.prog, hk).run(f)
    T, S = "taken", "stored"

    def idle(st):
        if st["taken"] and not st["sent"]:
            return ("bad", (T, "PUTs that were taken are not sent"))
        if st["pending"]:
            return ("bad", (S, "the results of PUTs are not stored"))
        if st["taken"] and not st["done"]:
            return ("bad", (S, "who waits for PUTs to be sent is not told"))
        return None

    def step(st, s):
        k = s[0]
        if k in ("head", "int", "test"):
            return counting(st, s)
        l = locking(st, s)
        if l:
            m, what = l
            if what == "unlock" and m == "queue" and "take" in st["section"]:
                for need, msg in (("cleared", "the queue is not emptied"), ("sized", "the queue is not made ready for new PUTs for every datastore"),
                                  ("count", "the number of queued PUTs is not reset"), ("flushed", "the request to flush is not taken back")):
                    if need not in st["section"]:
                        return ("bad", (T, "PUTs are taken, but %s before others can be queued" % msg))
            if m == "queue":
                st["section"] = frozenset()
            if m == "results":
                st["null"] = None
            return None
        if k == "wait":
            if s[1] == "start":
                r = idle(st)
                if r:
                    return r
                if st["waits"] and not st["running"]:
                    return ("bad", ("stops", "the thread waits again without checking whether the instance is still running"))
                st.update(waits=True, running=False, taken=False, sent=False, done=False, pending=None, section=frozenset())
        elif k == "running":
            if s[1]:
                st["running"] = True
            else:
                st["stopping"] = True
        elif k == "take":
            if st["taken"]:
                return None if "take" in st["section"] else ("bad", (T, "PUTs are taken twice"))
            st["taken"] = True
            st["section"] |= {"take"}
            st["new"] -= {s[1]}
        elif k == "queue":
            if s[1] == "missized":
                return ("bad", (T, "the queue is not made ready for new PUTs for every datastore"))
            if s[1] == "cleared":
                if "take" not in st["section"]:
                    return ("bad", (T, "queued PUTs are dropped"))
                st["section"] -= {"sized"}
            st["section"] |= {s[1]}
        elif k == "lnew":
            st["new"] |= {s[1]}
            st["lsized"] = st["lsized"] | {s[1]} if s[2] else st["lsized"] - {s[1]}
        elif k == "lsize":
            if s[2] and s[1] in st["new"]:
                st["lsized"] |= {s[1]}
        elif k == "swapped":
            if s[1] not in st["lsized"]:
                return ("bad", (T, "the queue is not made ready for new PUTs for every datastore"))
            st["section"] |= {"cleared", "sized"}
            st["lsized"] -= {s[1]}
            st["new"] -= {s[1]}
        elif k == "count":
            if s[1] == 0:
                st["section"] |= {"count"}
        elif k == "flushed":
            if s[1] is False:
                st["section"] |= {"flushed"}
        elif k == "process":
            if not s[1]:
                return ("bad", (T, "PUTs are sent from the queue others use"))
            if not st["taken"] or st["sent"]:
                return ("bad", (T, "PUTs are sent that were not taken, or sent again"))
            st.update(sent=True, pending="new")
        elif k == "is held":
            if st["null"] is not None and st["null"] == s[1]:
                return DROP
            st["null"] = not s[1]
        elif k == "append":
            if s[1:] == ("held", "sent"):
                if "results" not in st["held"]:
                    return ("bad", (S, "results are added without the lock"))
                if not st["pending"]:
                    return ("bad", (S, "results are stored twice"))
                if st["null"] is not False:
                    return ("bad", (S, "results are added to results there may not be"))
                st.update(pending=None, gone="appended")
            elif s[1] == "sent" or s[2] == "held":
                return ("bad", (S, "results are moved the wrong way"))
        elif k == "store":
            if s[1] != "sent" or st["null"] is not True:
                return ("bad", (S, "results nobody fetched yet are replaced"))
            if not st["pending"]:
                return ("bad", (S, "results are stored twice"))
            st.update(pending=None, gone="stored", null=False)
        elif k == "free":
            if s[1] == "held" or st["pending"] or st["gone"] != "appended":
                return ("bad", (S, "results are freed that were not fetched"))
            st["gone"] = None
        elif k == "done":
            if s[1] is not True:
                return ("bad", (S, "the thread takes back that PUTs were sent"))
            if st["pending"] or not st["sent"]:
                return ("bad", (S, "PUTs are said to be sent before their results are stored"))
            st["done"] = True
        elif k == "exit":
            return idle(st)
        return None
    run(rep, f, A, {"guards": (), "held": (), "ints": (), "section": frozenset(), "new": frozenset(), "lsized": frozenset(), "waits": False, "running": False, "stopping": False, "taken": False,
                    "sent": False, "done": False, "pending": None, "gone": None, "null": None}, step)
    if not any(s[0] == "process" for s in A.symbols()):
        rep.bad(T, f, f.qn, "queued PUTs are never sent")
    for r in (T, S, "stops"):
        rep.ok(r, f.qn)


def waiting(rep, f):
    hk = Handing(rep.prog)
    A = Split(rep.prog, hk).run(f)
    W = "waited"

    def step(st, s):
        k = s[0]
        if k in ("head", "int", "test"):
            return counting(st, s)
        l = locking(st, s)
        if l:
            if l == ("results", "unlock"):
                st["asked"] = frozenset()
            return None
        if k == "drop":
            if st["drop"] is not None and st["drop"] != s[1]:
                return DROP
            st["drop"] = s[1]
        elif k == "queue" or k == "take":
            if st["drop"] is not True:
                return ("bad", (W, "queued PUTs are dropped although they should be sent"))
        elif k == "running":
            if not s[1]:
                st["stopped"] = True
        elif k == "done":
            if s[1] is not False:
                return ("bad", (W, "what the thread has to say is made up"))
            if "results" not in st["held"]:
                return ("bad", (W, "the thread's answer is reset without its lock"))
            st["asked"] |= {"reset"}
        elif k == "flushed":
            if s[1] is True:
                st["asked"] |= {"flushed"}
                st["asked"] -= {"told"}
        elif k == "notify" and s[1] == "start":
            if "flushed" in st["asked"]:
                st["asked"] |= {"told"}
        elif k == "wait" and s[1] == "done":
            if "reset" not in st["asked"]:
                return ("bad", (W, "an answer given earlier is taken for the one waited for"))
            if "flushed" not in st["asked"] or "told" not in st["asked"]:
                return ("bad", (W, "the thread is waited for without being asked to send what is queued"))
            st["asked"] = frozenset()
            st["rounds"] = min(2, st["rounds"] + 1)
        elif k == "exit":
            if st["rounds"] < 2 and not st["stopped"]:
                return ("bad", (W, "the thread may still be sending PUTs it took before, or those queued meanwhile"))
        return None
    run(rep, f, A, {"guards": (), "held": (), "ints": (), "asked": frozenset(), "rounds": 0, "drop": None, "stopped": False}, step)
    rep.ok(W, f.qn)


def fetching(rep, f):
    hk = Handing(rep.prog)
    A = Split(rep.prog, hk).run(f)
    F = "fetched"

    def step(st, s):
        k = s[0]
        l = locking(st, s)
        if l:
            if l == ("results", "unlock"):
                if "got" in st["section"] and "null" not in st["section"]:
                    return ("bad", (F, "results that were fetched stay where the thread may add to them"))
                st["section"] = frozenset()
            return None
        c = dict(st["in"])
        if k == "enabled":
            if st["enabled"] is not None and st["enabled"] != s[1]:
                return DROP
            st["enabled"] = s[1]
        elif k == "waited":
            if s[1]:
                return ("bad", (F, "flushing drops queued PUTs"))
            st["waited"] = True
        elif k in ("append", "got"):
            if k == "got" or s[2] == "held" and not st["got"]:
                if not st["waited"] and st["enabled"] is not False:
                    return ("bad", (F, "results are fetched before the thread is done"))
                if "results" not in st["held"]:
                    return ("bad", (F, "results are fetched without the lock"))
                if "held" in st["seen"]:
                    return ("bad", (F, "results are fetched twice"))
                st["section"] |= {"got"}
                st["seen"] |= {"held"}
                st["got"] = k == "got"
            if k == "append" and s[1] and s[2]:
                if s[1] == "held":
                    return ("bad", (F, "results are given to the thread's"))
                c[s[1]] = c.get(s[1], ()) + c.get(s[2], ())
                st["in"] = tuple(sorted(c.items()))
                if len(c[s[1]]) > 3:
                    return ("bad", (F, "results are added twice"))
        elif k == "is held":
            if not s[1]:
                st["seen"] |= {"held"}
                c["held"] = ()
                st["none"] = True
        elif k == "free":
            st["freed"] |= {s[1]}
            if s[1] == "held":
                if "got" not in st["section"] and not st["got"]:
                    return ("bad", (F, "results are freed that were not fetched"))
                st["section"] |= {"freed"}
        elif k == "store":
            if s[1] != "null":
                return ("bad", (F, "the thread's results are replaced"))
            if "got" not in st["section"] and not st["none"]:
                return ("bad", (F, "results are dropped that were not fetched"))
            st["section"] |= {"null"}
        elif k == "process":
            if not s[1]:
                return ("bad", (F, "something else than the queue is flushed"))
            if st["enabled"] is not False and not st["waited"]:
                return ("bad", (F, "PUTs are flushed past those the thread is sending"))
            st.update(sent=min(2, st["sent"] + 1), count=False)
            if st["sent"] > 1:
                return ("bad", (F, "the queue is flushed twice"))
        elif k == "count":
            st["count"] = s[1] == 0
        elif k == "exit":
            if s[1] is None:
                return ("bad", (F, "what is returned is not what was collected"))
            if s[1] in st["freed"] and s[1] != "held":
                return ("bad", (F, "the results returned are freed"))
            if not st["sent"]:
                return ("bad", (F, "the queue is not flushed"))
            if "held" not in st["seen"]:
                return ("bad", (F, "results of PUTs sent before are not returned"))
            have = c.get("held" if s[1] == "got" else s[1], ())
            want = ("sent",) if st["none"] else ("held", "sent")
            if have != want and not (st["none"] and have == ("held", "sent")):
                return ("bad", (F, "what is returned is not the earlier results followed by the new ones"))
            if not st["count"]:
                return ("bad", (F, "the number of queued PUTs is not reset"))
        return None
    run(rep, f, A, {"guards": (), "held": (), "section": frozenset(), "enabled": None, "waited": False, "got": False, "seen": frozenset(), "freed": frozenset(),
                    "none": False, "sent": 0, "count": True, "in": (("held", ("held",)), ("made", ()), ("sent", ("sent",)))}, step)
    rep.ok(F, f.qn)


def handover(rep):
    P = rep.prog
    rep.rule("taken", "the thread takes all queued PUTs and leaves an empty queue with a place for every datastore before anybody can queue more, and sends what it took once")
    rep.rule("stored", "their results are kept with those nobody fetched yet, before those who wait are told")
    rep.rule("stops", "the thread checks that the instance is running before it waits again")
    rep.rule("waited", "waiting for the thread covers both what it took before and what was queued since; nothing queued is dropped unless asked for")
    rep.rule("fetched", "a flush returns the results of the PUTs sent before, once, followed by those of the PUTs it sends itself")
    ts = [f for f in P.by_qn.get("async_put_thread", []) if f.has_cfg]
    if not ts:
        ids = {e.get("f") for g in P.funcs.values() if g.file == "src/hxhim/init.cpp" for e in g.exprs if e and e.get("dk") == "fn"}
        ts = [f for f in P.funcs.values() if f.file == "src/hxhim/init.cpp" and f.has_cfg and any(e and e.get("name") == "process" for e in f.exprs)]
    if len(ts) != 1:
        raise AnalysisBroken("anchor vanished: the thread that sends PUTs")
    thread(rep, ts[0])
    waiting(rep, public(P, "hxhim::wait_for_background_puts"))
    fetching(rep, public(P, "hxhim::FlushPuts"))

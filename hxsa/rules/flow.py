"""What happens to queued requests: every one is sent once to the right place,
and every answer becomes results."""
from rules.common import *
from rules.client import at, consts, norm
from rules.place import pindex


def unwrap(t):
    while t[0] in ("v", "d", "a"):
        t = t[1]
    return t


def name(t):
    """identity of the local variable a term is the value of"""
    if t[0] in ("L", "phi", "j"):
        n = t[-1]
        return str(n[-1] if isinstance(n, tuple) else n).rstrip("'")
    return "?"


INTEGRAL = ("unsigned long", "bool", "int", "unsigned int", "long")


class Left(Hooks):
    """how many requests are left: queues visited, lengths added"""
    term_scale = 4

    def isqueues(self, t):
        t = unwrap(t)
        return t[0] == "p" and t[1].startswith("p0d0")

    def size(self, t):
        t = unwrap(t)
        if t[0] == "m" and t[1] in ("size", "empty") and len(t) > 2:
            q = unwrap(t[2])
            if q[0] == "e" and self.isqueues(q[1]):
                return q[2]
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "L":
            if val[0] == "c":
                return ("from", name(loc), val[1])
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
            if val[0] == "b" and val[1] == "+":
                for a, b in ((val[2], val[3]), (val[3], val[2])):
                    if name(a) == name(loc) and self.size(b) is not None:
                        return ("add", name(loc), name(self.size(b)))
            return ("set", name(loc))
        return None

    def cond(self, x, t, truth, node):
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("==", "!=", ">", "<") and ("c", 0) in (t[2], t[3]):
            z = t[2] if t[3] == ("c", 0) else t[3]
            t, truth = z, truth == (t[1] != "==")
        if self.size(t) is not None:
            return ("some", name(self.size(t)), truth == (unwrap(t)[1] == "size"))
        if t[0] == "b" and t[1] in ("<", "!=") and t[3][0] == "m" and t[3][1] == "size" and self.isqueues(t[3][2]):
            return ("visit", name(t[2]), truth)
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v is not None and v[0] == "c" else name(v) if v is not None else None)


def left(rep, P, f):
    A = Interp(P, Left()).run(f)
    rep.auto(A)
    sy = A.symbols()
    if not any(s[0] == "visit" for s in sy):
        rep.notes.append("%s counts the requests left by library algorithms and was not examined" % f.qn)
        return
    starts = {s[1] for s in sy if s[0] == "from" and s[2] == 0}

    def step(st, s):
        cur, done, full, one, missed, sums = st
        if s[0] in ("visit",):
            if cur is not None and done != cur:
                missed = True
            if not s[2]:
                full = True
            return (s[1] if s[2] else None, None, full, one, missed, sums)
        if s[0] == "some":
            if s[2]:
                return (cur, done, full, True, missed, sums)
            return (cur, s[1], full, one, missed, sums)
        if s[0] == "add":
            if done == s[2]:
                return ("bad", "a queue is counted twice")
            return (cur, s[2], full, one, missed, sums | {s[1]})
        if s[0] == "exit":
            if one and s[1] in (0, False):
                return ("bad", "no requests are reported as left although a queue holds some")
            if not one and (not full or missed):
                return ("bad", "the requests of some queues are not counted as left")
            if isinstance(s[1], str) and (s[1] not in starts or ("set", s[1]) in sy):
                return ("bad", "the number of requests left is not the sum over the queues")
        return st
    for m, pos, tr in typestate(A, (None, None, False, False, False, frozenset()), step):
        rep.bad("all", at(pos, f), f.qn, m, m, tr)
    for v in {s[1] for s in sy if s[0] == "visit"}:
        if v not in starts or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
            rep.bad("all", f, f.qn, "not every queue is counted", "visit")
    rep.ok("all", f.qn)


class Proc(Hooks):
    max_depth = 5
    term_scale = 4
    containers = True

    def __init__(self, prog, f):
        def of(q):
            return {g.id for g in prog.funcs.values() if g.qn == q}
        self.anch = {}
        for k, q in (("send", "Transport::Transport::communicate"), ("serve", "Transport::local::range_server"), ("addall", "hxhim::Result::AddAll"), ("free", "destruct")):
            ids = of(q)
            if not ids and k != "free":
                raise AnalysisBroken("%s not found" % q)
            for i in ids:
                self.anch[i] = k
        reqs = set(prog.all_derived("Message::Request::Request")) | {"Message::Request::Request"}
        takes = {g.id for g in prog.funcs.values() if g.has_cfg and any("Queue" in p["t"] or "ReqList" in p["t"] or "list<" in p["t"] and "Request" in p["t"] or ptr_class(p["ct"]) in reqs for p in g.params)}
        self.relevant = (reaching(prog, [i for i, k in self.anch.items() if k != "free"], self.anch) | takes) - set(self.anch)
        # the sum of the lengths of all queues (proved by left())
        self.count = {g.id for g in prog.funcs.values() if g.id in takes and g.d.get("rct") in INTEGRAL and len(g.params) == 1 and not reaching_any(prog, g, self.anch)}

    # what a term stands for
    def queue(self, t):
        """index of the queue a term is"""
        t = unwrap(t)
        if t[0] == "e" and self.isqueues(t[1]):
            return t[2]
        return None

    def isqueues(self, t):
        t = unwrap(t)
        return t[0] == "p" and t[1].startswith("p1d0") or (t[0] == "f" and "queues" in fields(t)[0])

    def head(self, t):
        """index of the queue a request is the first of"""
        t = unwrap(t)
        if t[0] == "m" and t[1] in ("front", "begin") and len(t) > 2:
            return self.queue(t[2])
        return None

    def cont(self, t):
        n = name(unwrap(t))
        return None if n == "?" else n

    def item(self, t):
        """iterator variable a request comes from"""
        t = unwrap(t)
        if t[0] == "f" and t[2] == "second":
            t = unwrap(t[1])
        return name(t) if t[0] in ("phi", "j", "L") else None

    def tag(self, x, c):
        k = self.anch.get(c.fid)
        if k in ("send", "serve"):
            return ("resp", k)
        if c.fid in self.count:
            return ("count",)
        if c.name == "construct":
            return ("made", c.e["ct"])
        if c.name == "make_pair" and len(c.args) == 2:
            return ("pair", c.args[0], c.args[1])
        return None

    def inline(self, x, c, f):
        return f.id in self.relevant and f.id not in self.count

    def call(self, x, c):
        k = self.anch.get(c.fid)
        if k == "send":
            return ("send", self.cont(c.lvs[0][1] if c.lvs and c.lvs[0][0] == "lv" else c.args[0]) or self.cont(c.args[0]))
        if k == "serve":
            return ("serve", self.item(c.args[-1]), self.head(c.args[-1]))
        if k == "addall":
            r = c.args[2]
            return ("answer", c.args[1], r[2] if r[0] == "r" and len(r) > 2 else None)
        if k == "free" or c.name == "destruct":
            if self.item(c.args[0]) or self.head(c.args[0]) is not None:
                return ("free", self.item(c.args[0]), self.head(c.args[0]))
            return None
        if c.obj is not None:
            q = self.queue(c.obj)
            if q is not None:
                if c.name in ("front", "begin"):
                    return ("front", q)
                if c.name in ("pop_front", "erase"):
                    return ("pop", q)
                if c.name in ("pop_back", "clear", "back", "resize", "remove", "swap"):
                    return ("odd", c.name)
            if self.isqueues(c.obj) and c.name in ("clear", "resize", "pop_back", "erase"):
                return ("odd", c.name)
            t = self.cont(c.obj)
            if t is not None:
                if c.name in ("push_back", "emplace_back", "push_front", "emplace_front") and self.head(c.args[0]) is not None:
                    return ("put", t, self.head(c.args[0]), None)
                if c.name in ("insert", "emplace") and len(c.args) == 2 and self.head(c.args[1]) is not None:
                    return ("put", t, self.head(c.args[1]), c.args[0])
                if c.name in ("insert", "emplace") and len(c.args) == 1:
                    a = unwrap(c.args[0])
                    if a[0] == "m" and "pair" in a[1] and len(a) == 3:
                        a = unwrap(a[2])
                    a = a[2:4] if a[0] == "m" and "pair" in a[1] and len(a) == 4 else a[2][1:] if a[0] == "r" and len(a) > 2 and a[2] and a[2][0] == "pair" else None
                    if a and self.head(a[1]) is not None:
                        return ("put", t, self.head(a[1]), a[0])
                if c.name in ("clear",) or c.kind == "construct":
                    return ("fresh", t)
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "e":
            t = self.cont(loc[1])
            if t is not None and self.head(val) is not None:
                return ("put", t, self.head(val), loc[2])
        if loc[0] == "f" and self.head(loc[1]) is not None and loc[2] in ("src", "dst", "dst_rank"):
            return ("field", loc[2], self.head(loc[1]), val)
        if loc[0] == "L":
            if val[0] == "m" and val[1] in ("begin", "cbegin") and self.cont(val[2]) is not None:
                return ("iter", name(loc), self.cont(val[2]))
            if val[0] == "n" and "list" in str(val) or val[0] == "n" and "map" in str(val):
                return ("fresh", name(loc))
            if val[0] == "c":
                return ("from", name(loc), val[1])
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
        return None

    def cond(self, x, t, truth, node):
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("==", "!=", ">", "<") and ("c", 0) in (t[2], t[3]) and t[2] != t[3]:
            z = t[2] if t[3] == ("c", 0) else t[3]
            if z[0] in ("m", "r"):
                t, truth = z, truth == (t[1] != "==")
        if t[0] == "r" and len(t) > 2 and t[2] == ("count",):
            return ("more", truth)
        if t[0] == "m" and t[1] in ("size", "empty") and len(t) > 2:
            if t[1] == "empty":
                truth = not truth
            q = self.queue(t[2])
            if q is not None:
                return ("some", q, truth)
            c = self.cont(t[2])
            if c is not None:
                return ("held", c, truth)
        if t[0] == "m" and t[1] == "count" and len(t) > 3 and self.cont(t[2]) is not None:
            return ("taken", self.cont(t[2]), t[3], truth)
        if t[0] == "b" and t[1] in ("==", "!="):
            a, b, eq = t[2], t[3], truth == (t[1] == "==")
            for a, b in ((a, b), (b, a)):
                if a[0] == "m" and a[1] == "find" and b[0] == "m" and b[1] in ("end", "cend"):
                    return ("taken", self.cont(a[2]), a[3], not eq)
                if b[0] == "m" and b[1] in ("end", "cend") and name(unwrap(a)) != "?":
                    return ("next", name(unwrap(a)), not eq)
                if self.rank(a) and self.table(b) is not None:
                    return ("here", self.table(b), eq)
        if t[0] == "b" and t[1] in ("<", "!=") and t[3][0] == "m" and t[3][1] == "size" and self.isqueues(t[3][2]):
            return ("visit", name(t[2]), truth)
        return None

    def rank(self, t):
        return fields(t)[0][-2:] == ("bootstrap", "rank")

    def table(self, t):
        t = unwrap(t)
        if t[0] == "e" and fields(t[1])[0][-1:] == ("ds_to_rank",):
            return t[2]
        return None

    def exit(self, x, v):
        return ("exit", v)


def reaching_any(prog, g, ids):
    seen, w = set(), [g.id]
    while w:
        i = w.pop()
        if i in ids:
            return True
        if i in seen or i not in prog.funcs:
            continue
        seen.add(i)
        w += list(prog.callees(prog.funcs[i]))
    return False


def sending(rep):
    P = rep.prog
    rep.rule("taken", "each round takes at most one request off the front of every queue, and leaves no queue out for good", 5)
    rep.rule("addressed", "a request is addressed from this rank to the datastore whose queue it was in, and goes to the local range server exactly if that datastore is on this rank", 5)
    rep.rule("sent", "every request taken is handed to exactly one range server, exactly once, and no request to another rank displaces another", 5)
    rep.rule("answered", "every answer's results are added, once, to the results that are returned", 5)
    rep.rule("freed", "every request is freed exactly once, after it was sent", 5)
    rep.rule("all", "processing ends only when no request is left in any queue", 5)
    fs = [f for f in P.funcs.values() if f.qn == "hxhim::process" and f.has_cfg]
    if len(fs) < 5:
        raise AnalysisBroken("only %d instances of process" % len(fs))
    done = set()
    for f in sorted(fs, key=lambda f: f.id):
        hk = Proc(P, f)
        for g in sorted(hk.count & {c for c in P.callees(f)} - done):
            done.add(g)
            left(rep, P, P.funcs[g])
        A = Interp(P, hk).run(f)
        rep.auto(A)
        who = "%s(%s)" % (f.qn, f.params[1]["t"].split("::")[-1].split(">")[0].strip())
        results = {s[1] for s in A.symbols() if s[0] == "answer"}
        S0 = dict(q=None, popped=False, some=frozenset(), skip=True, fields=frozenset(), here=None, put=0, absent=None, filled=frozenset(), mapped=frozenset(),
                  loop=False, sent=frozenset(), freed=frozenset(), iters=(), item=None, did=frozenset(), open=None, more=None)

        def step(st, s):
            st = dict(st)
            k = s[0]

            def bad(r, m):
                return ("bad", (r, m))

            def settle():
                if st["q"] is not None:
                    if not st["popped"]:
                        return bad("taken", "a request is sent but stays in its queue")
                    if not st["put"]:
                        return bad("sent", "a request taken from its queue is not sent anywhere")
            if k == "odd":
                return bad("taken", "requests are taken out of their queue by %s" % s[1])
            if k == "visit":
                r = settle()
                if r:
                    return r
                if not st["skip"]:
                    return bad("taken", "a queue that holds requests is passed over without need")
                st.update(q=None, popped=False, put=0, fields=frozenset(), here=None, absent=None, some=frozenset(), skip=not s[2], loop=s[2])
            elif k == "some":
                st["some"] = frozenset([s[1]]) if s[2] else frozenset()
                if not s[2]:
                    st["skip"] = True
            elif k == "taken":
                if s[3]:
                    st["skip"] = True
                    st["absent"] = None
                else:
                    st["absent"] = (s[1], s[2])
            elif k == "here":
                st["here"] = (s[1], s[2])
            elif k == "front":
                if st["popped"]:
                    return bad("taken", "a second request is taken from a queue in one round") if not st["put"] else bad("taken", "a second request is taken from a queue in one round")
                if s[1] not in st["some"]:
                    return bad("taken", "a request is taken from a queue that may be empty")
                st.update(q=s[1], skip=True)
            elif k == "pop":
                if st["q"] is None:
                    return bad("taken", "a request is dropped from its queue")
                if st["popped"]:
                    return bad("taken", "two requests are taken off the queue for one that is sent")
                st["popped"] = True
            elif k == "field":
                v = unwrap(s[3])
                ok = {"src": hk.rank(v), "dst": v == unwrap(s[2]), "dst_rank": hk.table(v) is not None and unwrap(hk.table(v)) == unwrap(s[2])}[s[1]]
                if not ok:
                    return bad("addressed", "a request's %s is set to %s" % (s[1], show(s[3])[:60]))
                st["fields"] |= {s[1]}
            elif k == "put":
                if st["put"]:
                    return bad("sent", "a request is sent twice")
                miss = {"src", "dst", "dst_rank"} - st["fields"]
                if miss:
                    return bad("addressed", "a request is sent without its %s" % sorted(miss)[0])
                if st["here"] is None or unwrap(st["here"][0]) != unwrap(s[2]):
                    return bad("addressed", "a request is sent without checking where its datastore is")
                if s[3] is None:
                    if not st["here"][1]:
                        return bad("addressed", "a request for another rank is given to the local range server")
                else:
                    if st["here"][1]:
                        return bad("addressed", "a request for this rank is given to the transport")
                    if hk.table(s[3]) is None or unwrap(hk.table(s[3])) != unwrap(s[2]):
                        return bad("addressed", "a request is sent to rank %s" % show(s[3])[:60])
                    if st["absent"] is None or st["absent"][0] != s[1] or hk.table(st["absent"][1]) != hk.table(s[3]):
                        return bad("sent", "a request to another rank may displace one already collected for that rank")
                    st["mapped"] |= {s[1]}
                st["put"] = 1
                st["filled"] |= {s[1]}
            elif k in ("held", "more") and st["loop"] and not st["filled"]:
                return bad("all", "the search for requests ends although there may be some in other queues")
            elif k == "held":
                if not s[2]:
                    if s[1] in st["filled"] and s[1] not in st["sent"]:
                        return None
                elif s[1] not in st["filled"]:
                    return None
            elif k == "iter":
                st["iters"] = tuple(sorted([i for i in st["iters"] if i[0] != s[1]] + [(s[1], s[2])], key=str))
                st["did"] = frozenset()
            elif k == "next":
                c = dict(st["iters"]).get(s[1])
                if c is None:
                    return freezed(st)
                r = None
                if s[2]:
                    if c not in st["filled"]:
                        return None
                    if st["item"] == s[1]:
                        r = ended(st, c, False)
                    st["item"], st["did"] = s[1], frozenset()
                else:
                    if st["item"] != s[1] and c in st["filled"]:
                        return None                # holds requests: the loop runs
                    if st["item"] == s[1]:
                        r = ended(st, c, True)
                    st["item"] = None
                if r:
                    return bad(*r)
            elif k == "send":
                if s[1] is None or s[1] not in st["mapped"]:
                    return bad("sent", "the transport is not given the collected requests")
                if s[1] in st["sent"]:
                    return bad("sent", "requests are sent twice")
                if st["open"]:
                    return bad("answered", "an answer is dropped")
                st["sent"] |= {s[1]}
                st["open"] = "send"
            elif k == "serve":
                if st["open"]:
                    return bad("answered", "an answer is dropped")
                if s[1] is None or s[1] != st["item"]:
                    return bad("sent", "the local range server is given something else than a collected request")
                if "serve" in st["did"]:
                    return bad("sent", "a request is sent twice")
                if "free" in st["did"]:
                    return bad("freed", "a request is sent after it was freed")
                st["did"] |= {"serve"}
                st["open"] = "serve"
            elif k == "answer":
                if s[2] is None or s[2] != ("resp", st["open"]):
                    return bad("answered", "results are added from something else than the latest answer")
                st["open"] = None
            elif k == "free":
                if s[2] is not None:
                    return bad("freed", "a request is freed before it was sent")
                if s[1] != st["item"] or s[1] is None:
                    return bad("freed", "a request is freed outside the loop over the requests")
                c = dict(st["iters"]).get(s[1])
                if "free" in st["did"] or c in st["freed"]:
                    return bad("freed", "a request is freed twice")
                if c in st["mapped"] and c not in st["sent"] or c not in st["mapped"] and "serve" not in st["did"] and c not in st["sent"]:
                    return bad("freed", "a request is freed before it was sent")
                st["did"] |= {"free"}
            elif k in ("fresh", "more"):
                r = settle()
                if r:
                    return r
                if k == "more" and st["open"]:
                    return bad("answered", "an answer is dropped")
                for c in st["filled"] if k == "more" else st["filled"] & {s[1]}:
                    if c not in st["sent"]:
                        return bad("sent", "requests taken from their queues are not sent")
                    if c not in st["freed"]:
                        return bad("freed", "requests are not freed")
                if k == "more":
                    keep = S0
                    st = dict(keep, more=s[1])
                else:
                    for n in ("filled", "mapped", "sent", "freed"):
                        st[n] -= {s[1]}
            elif k == "exit":
                if st["more"] is not False:
                    return bad("all", "processing ends although requests may be left")
                if results and s[1] not in results:
                    return bad("answered", "the results that are returned are not those the answers were added to")
            return freezed(st)

        def ended(st, c, last):
            """an iteration over container c is over"""
            if c in st["mapped"]:
                if "free" in st["did"] and last:
                    st["freed"] |= {c}
                return None
            if last:
                if "serve" in st["did"]:
                    st["sent"] |= {c}
                if "free" in st["did"]:
                    st["freed"] |= {c}
            return None
        for m, pos, tr in typestate(A, freezed(S0), step):
            r, m = m if isinstance(m, tuple) else ("sent", m)
            rep.bad(r, at(pos, f), f.qn, m, m, tr)
        if len(results) > 1:
            rep.bad("answered", f, f.qn, "answers are added to different results", "results")
        sy = A.symbols()
        for v in {s[1] for s in sy if s[0] == "visit"}:
            if ("from", v, 0) not in sy or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
                rep.bad("taken", f, f.qn, "not every queue is visited", "visit")
        if not any(s[0] == "visit" for s in sy):
            rep.bad("taken", f, f.qn, "the queues are not visited", "novisit")
        for r in ("taken", "addressed", "sent", "answered", "freed", "all"):
            rep.ok(r, who)


class freezed(tuple):
    """a hashable dict"""
    def __new__(cls, d):
        return tuple.__new__(cls, sorted(d.items(), key=lambda x: x[0]))

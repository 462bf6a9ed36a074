"""The range server: what becomes of a request that arrived."""
import re
from rules.common import *
from rules.client import at
from rules.flow import name, unwrap, freezed
from rules.results import macro_or as macro_value_, steps, param, class_op, INT


def not_(t, truth):
    while t[0] == "u" and t[1] == "!":
        t, truth = t[2], not truth
    return t, truth


def request(t):
    """does a term denote the request that was received?"""
    t = unwrap(t)
    while t[0] == "m" and t[1] in ("static_cast", "dynamic_cast") and len(t) == 3:
        t = unwrap(t[2])
    return param(t, 1)


class Serve(Hooks):
    max_depth = 6

    def __init__(self, P):
        self.P = P
        self.relevant = {f.id for f in P.funcs.values() if f.has_cfg and not f.d.get("rec") and any("hxhim" in p["ct"] for p in f.params)
                         and any("Message::" in p["ct"] for p in f.params)}
        self.relevant |= {f.id for f in P.funcs.values() if f.has_cfg and f.file.startswith(("src/transport/backend/local", "include/transport/backend/local"))}

    def cls(self, c):
        return ptr_class(c.e["ct"])

    def tag(self, x, c):
        if c.name == "construct" and "Message::Response::" in c.e["ct"]:
            return ("made", self.cls(c))
        if c.name == "operate":
            return ("answer", self.cls(c))
        return None

    def what(self, t):
        t = unwrap(t)
        if t[0] == "r" and len(t) > 2 and t[2]:
            return t[2]
        if name(t) != "?":
            return ("var", name(t))
        return None

    def call(self, x, c):
        if c.name == "construct" and "Message::Response::" in c.e["ct"]:
            return ("make", self.cls(c), steps(c.args[0])[0][-1:] == ("count",) and request(steps(c.args[0])[2]) if c.args else False)
        if c.name == "operate" and c.obj is not None:
            g = self.P.funcs.get(c.fid)
            return ("operate", ptr_class(g.params[0]["ct"]) if g is not None else self.cls(c), request(c.args[0]), self.cls(c))
        if c.name == "steal" and c.obj is not None and len(c.args) == 2:
            w, fr = self.what(c.obj), self.what(c.args[0])
            return ("steal", w, fr, name(unwrap(c.args[1])))
        if c.name in ("destruct", "dealloc") and c.args:
            if request(c.args[0]):
                return ("free", "request")
            w = self.what(c.args[0])
            if w:
                return ("free", w)
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "f" and loc[2] in ("src", "dst"):
            w = self.what(loc[1])
            if w:
                ns, ix, root = steps(val)
                return ("head", w, loc[2], ns[-1] if ns and request(root) else "?")
        if loc[0] == "f" and loc[2] == "count":
            w = self.what(loc[1])
            if w:
                return ("setcount", w, val[1] if val[0] == "c" else None)
        if loc[0] in ("L", "phi", "j") and not INT(x, n):
            w = self.what(val)
            return ("let", name(loc), w) if w or val == ("c", 0) else None
        if loc[0] in ("L", "phi", "j") and INT(x, n):
            if val[0] == "c":
                return ("from", name(loc), val[1])
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                ns, ix, root = steps(a)
                if b[0] == "c" and ns[-1:] == ("op",) and request(root):
                    return ("op", b[1], truth == (t[1] == "=="))
                w = self.what(a)
                if b == ("c", 0) and w and w[0] in ("answer", "var"):
                    return ("answer", truth == (t[1] == "!="), w)
        if t[0] == "b" and t[1] in ("<", "!=", ">=", "=="):
            ns, ix, root = steps(t[3])
            if ns[-1:] == ("count",):
                w = self.what(root)
                of = w if w else ("request",) if request(root) else ("?",)
                return ("item", name(unwrap(t[2])), of, truth == (t[1] in ("<", "!=")))
        w = self.what(t)
        if w and w[0] in ("answer", "var"):
            return ("answer", truth, w)
        return None

    def ret(self, x, v, n):
        return ("let", "ret", self.what(v)) if n["f"].d.get("rct", "").endswith("*") or v == ("c", 0) else None

    def exit(self, x, v):
        w = self.what(v) if v is not None else None
        return ("exit", w if w else ("null",) if v == ("c", 0) else ("?",))


def range_server(rep):
    P = rep.prog
    rep.rule("kind", "a request is carried out as the operation it is and answered by a response of that operation", 5)
    rep.rule("answer", "the response goes back where the request came from, with the answer of the datastore", 5)
    rep.rule("items", "every item of the datastore's answer is moved into the response, once and in order", 5)
    rep.rule("carried out", "a datastore that can be used carries a request out once, as its own kind, and answers with what that returned", 5)
    reqs = {c: class_op(P, c) for c in leaves(P, "Message::Request::Request")}
    ress = {c: class_op(P, c) for c in leaves(P, "Message::Response::Response")}
    if any(len(v) != 1 for v in list(reqs.values()) + list(ress.values())):
        raise AnalysisBroken("the operation of a message class is not constant")
    served = {}
    root = [f for f in P.by_qn.get("Transport::local::range_server", []) if f.has_cfg and not f.d.get("ta")]
    if len(root) != 1:
        raise AnalysisBroken("anchor vanished: Transport::local::range_server")
    f = root[0]
    hk = Serve(P)
    A = Interp(P, hk).run(f)
    rep.auto(A)
    init = freezed(dict(op=None, no=frozenset(), made=None, operated=None, src=None, dst=None, ans=None, stolen=False, all=False, i=None, vars=()))

    movers = {s[3] for s in A.symbols() if s[0] == "steal"}

    def step(st, s):
        st = dict(st)
        vs = dict(st["vars"])
        k = s[0]

        def r(w):
            """what a value is: made, answer, ..."""
            return vs.get("ret" if w[1].isdigit() else w[1], "?") if w and w[0] == "var" else w[0] if w else "null"
        if k == "let":
            vs[s[1]] = r(s[2])
            st["vars"] = tuple(sorted(vs.items()))
            return freezed(st)
        if k in ("item", "answer") and s[2][0] in ("answer", "var", "made"):
            s = s[:2] + (r(s[2]),) + s[3:]
        elif k == "item":
            s = s[:2] + ("answer" if s[1] in movers and s[2][0] == "request" else s[2][0],) + s[3:]
        elif k in ("head", "setcount", "free", "exit") and isinstance(s[1], tuple):
            s = (k, r(s[1])) + s[2:]
        elif k == "steal":
            s = (k, r(s[1]) == "made", r(s[2]) == "answer", s[3])
        if k == "op":
            if st["op"] is not None:
                if (st["op"] == s[1]) != s[2]:
                    return None
                return freezed(st)
            if s[2]:
                if s[1] in st["no"]:
                    return None
                st["op"] = s[1]
            else:
                st["no"] |= {s[1]}
        elif k == "make":
            if st["made"]:
                return ("bad", ("answer", "two responses are made for one request"))
            st["made"] = s[1]
            if not s[2]:
                return ("bad", ("items", "the response is not made with room for every item of the request"))
            if st["op"] is None or ress.get(s[1]) != {st["op"]}:
                return ("bad", ("kind", "a request of operation %s is answered by %s" % (st["op"], s[1])))
        elif k == "operate":
            if st["operated"]:
                return ("bad", ("kind", "a request is carried out twice"))
            if not s[2]:
                return ("bad", ("kind", "a datastore is given something else than the request"))
            st["operated"] = s[1]
            if st["op"] is None or reqs.get(s[1]) != {st["op"]}:
                return ("bad", ("kind", "a request of operation %s is carried out as %s" % (st["op"], s[1])))
            if ress.get(s[3]) != reqs.get(s[1]):
                return ("bad", ("kind", "%s is answered by %s" % (s[1], s[3])))
        elif k == "head":
            if s[1] == "made":
                want = "dst" if s[2] == "src" else "src"
                if s[3] != want:
                    return ("bad", ("answer", "the response's %s is not the request's %s" % (s[2], want)))
                st[s[2]] = True
        elif k == "answer":
            if s[2] != "answer":
                return None if s[2] in ("made", "null") and (s[2] == "made") != s[1] else freezed(st)
            if st["ans"] is not None and st["ans"] != s[1]:
                return None
            st["ans"] = s[1]
        elif k == "item":
            if s[2] != "answer" and st["i"] is None:
                if s[2] == "made":
                    return ("bad", ("items", "the items moved are counted by the response they are moved to"))
                return freezed(st)
            if st["all"]:
                return freezed(st)
            if st["ans"] is False:
                return ("bad", ("items", "the items of an answer that does not exist are looked at"))
            if st["i"] is not None and not st["stolen"]:
                return ("bad", ("items", "an item of the answer is not moved"))
            if s[3]:
                st["i"], st["stolen"] = s[1], False
            else:
                st["i"], st["all"] = None, True
        elif k == "steal":
            if not s[1] or not s[2]:
                return ("bad", ("items", "items are moved from something else than the datastore's answer, or into something else than the response"))
            if st["i"] is None or s[3] != st["i"]:
                return ("bad", ("items", "another item than the one the loop is at is moved"))
            if st["stolen"]:
                return ("bad", ("items", "an item is moved twice"))
            st["stolen"] = True
        elif k == "setcount":
            if s[1] == "made" or not st["all"]:
                return ("bad", ("items", "the number of items is changed before all were moved"))
        elif k == "free":
            if s[1] == "request":
                return ("bad", ("answer", "the request, which the caller frees, is freed"))
            if s[1] == "made":
                return ("bad", ("answer", "the response is freed before it was returned"))
            if s[1] == "answer" and not st["all"] and st["ans"] is not False:
                return ("bad", ("items", "the answer is freed before its items were moved"))
        elif k == "exit":
            if st["op"] in {v for o in reqs.values() for v in o}:
                if s[1] == "answer":
                    return ("bad", ("answer", "the datastore's own answer, which has no addresses, is returned"))
                if s[1] != "made":
                    return ("bad", ("answer", "no response is returned"))
                if not st["operated"]:
                    return ("bad", ("kind", "the request is not carried out"))
                for h in ("src", "dst"):
                    if not st[h]:
                        return ("bad", ("answer", "the response has no %s" % h))
                if st["ans"] is not False and not st["all"]:
                    return ("bad", ("items", "items of the answer are left behind"))
                served.setdefault(st["op"], (st["operated"], st["made"]))
        return freezed(st)
    for (r, m), pos, tr in typestate(A, init, step):
        rep.bad(r, at(pos, f), f.qn, m, m, tr)
    sy = A.symbols()
    for v in movers:
        if {s[2] for s in sy if s[0] == "from" and s[1] == v} != {0} or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
            rep.bad("items", f, f.qn, "not every item is visited, in order", "visit")
    for c, o in sorted(reqs.items()):
        if next(iter(o)) not in served and not rep.viol:
            rep.bad("kind", f, f.qn, "%s is not carried out" % c, c)
        else:
            for r in ("kind", "answer", "items"):
                rep.ok(r, c)
    operate(rep, P, reqs)
    listen(rep, P, f)


class Listen(Hooks):
    """a thread that serves requests from other ranks: values are followed by
    the variable they are in"""
    max_depth = 4

    def __init__(self, P, target):
        self.P, self.target = P, target
        self.relevant = reaching(P, [target.id]) - {target.id}

    def inline(self, x, c, f):
        return f.id in self.relevant

    def role(self, c):
        if c.fid == self.target.id:
            return "serve"
        if c.qn == "Message::Unpacker::unpack" and "Request" in (c.e["pt"][0]):
            return "unpack"
        if c.qn == "Message::Packer::pack":
            return "pack"
        if c.name in ("destruct", "dealloc"):
            return "free"
        p = [t.replace("const ", "").strip() for t in c.e.get("pt", ())]
        if len(p) == 3 and p[0] == "int" and p[1] == "void *" and re.match(r"(std::)?size_t$|unsigned long$", p[2]):
            return "send"
        if len(p) == 2 and p[0] == "void **" and re.match(r"((std::)?size_t|unsigned long) \*$", p[1]):
            return "recv"
        return None

    def tag(self, x, c):
        return (self.role(c),) if self.role(c) else None

    def v(self, t):
        """('var', name) a local, ('out', role) what a call stored through a pointer, ..."""
        t = unwrap(t)
        if t[0] == "r" and len(t) > 2 and t[2]:
            return ("r",) + t[2]
        if t[0] == "o" and isinstance(t[2], tuple) and t[2][:1] == ("out",):
            return ("out", t[2][1][0] if isinstance(t[2][1], tuple) else t[2][1])
        if t[0] == "f":
            return ("f", self.v(t[1]), t[2])
        if t[0] in ("L", "phi", "j"):
            return ("var", name(t))
        return ("c", t[1]) if t[0] == "c" else ("?",)

    def call(self, x, c):
        r = self.role(c)
        if r:
            return (r, tuple(self.v(a) for a in c.args))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!=") and t[3][0] == "c":
            return ("is", self.v(t[2]), t[3][1], truth == (t[1] == "=="))
        return ("is", self.v(t), 0, not truth)

    def exit(self, x, v):
        return ("exit",)


def listen(rep, P, target):
    rep.rule("remote", "a request received from another rank is served exactly if it could be read, and its response is sent to its destination", 1)
    ok = {"unpack": macro_value(P, "MESSAGE_SUCCESS"), "recv": macro_value(P, "TRANSPORT_SUCCESS"), "pack": macro_value(P, "MESSAGE_SUCCESS")}
    inside = {i for i in reaching(P, [target.id]) - {target.id} if P.funcs[i].has_cfg and "RangeServer" in P.funcs[i].qn and not P.funcs[i].file.startswith("test")}
    roots = [P.funcs[i] for i in sorted(inside) if not any(c in inside and c != i for c in P.callers(i))]
    if not roots:
        raise AnalysisBroken("no range server calls %s" % target.qn)
    for f in roots:
        A = Interp(P, Listen(P, target)).run(f)
        rep.auto(A)
        init = freezed({"recv": None, "unpack": None, "serve": None, "pack": None})   # None, open, good, bad, done

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k in ("recv", "exit"):
                if st["unpack"] == "good":
                    return ("bad", "a request that was read is not served")
                if st["serve"] in ("open", "good"):
                    return ("bad", "a response is not packed")
                if st["pack"] in ("open", "good"):
                    return ("bad", "a response is not sent")
                return freezed({"recv": "open", "unpack": None, "serve": None, "pack": None})
            if k == "unpack":
                if st["recv"] != "good" or s[1][1] != ("out", "recv") or s[1][2] != ("out", "recv"):
                    return ("bad", "what is read as a request was not received")
                st["unpack"] = "open"
            elif k == "serve":
                if st["unpack"] != "good" or s[1][1] != ("out", "unpack"):
                    return ("bad", "a request is served that could not be read")
                st["unpack"], st["serve"] = "done", "open"
            elif k == "pack":
                if st["serve"] != "good" or s[1][0] != ("r", "serve"):
                    return ("bad", "a response is packed that was not made")
                st["serve"], st["pack"] = "done", "open"
            elif k == "send":
                if st["pack"] != "good" or s[1][1] != ("out", "pack") or s[1][2] != ("out", "pack"):
                    return ("bad", "something else than the packed response is sent")
                if s[1][0] != ("f", ("r", "serve"), "dst"):
                    return ("bad", "the response is not sent to its destination")
                st["pack"] = "done"
            elif k == "is" and s[1][0] == "r":
                w = s[1][1]
                if w == "serve" and s[2] == 0 and st["serve"] == "open":
                    st["serve"] = "bad" if s[3] else "good"
                elif w in ok and s[2] == ok[w] and st[w] in ("open", "good", "bad"):
                    if st[w] != "open" and (st[w] == "good") != s[3]:
                        return None
                    st[w] = "good" if s[3] else "bad"
            return freezed(st)
        for m, pos, tr in typestate(A, init, step):
            rep.bad("remote", at(pos, f), f.qn, m, m, tr)
        for need in ("recv", "unpack", "serve", "pack", "send"):
            if not any(s[0] == need for s in A.symbols()):
                rep.bad("remote", f, f.qn, "requests from other ranks are not served (%s)" % need, need)
        rep.ok("remote", f.qn)


def operate(rep, P, reqs):
    """Datastore::operate: exactly once, as its own kind"""
    base = "Datastore::Datastore"
    for f in [f for f in P.by_qn.get(base + "::operate", []) if f.has_cfg]:
        k = ptr_class(f.params[0]["ct"])

        class Op(Hooks):
            max_depth = 4

            def inline(self, x, c, g):
                return g.qn.startswith(base) and not c.e.get("virt")

            def tag(self, x, c):
                if c.name == "construct" and "Message::Response" in c.e["ct"]:
                    return ("own",)
                if c.e.get("virt") and len(c.args) == 1 and "Message::Request" in c.e["pt"][0]:
                    return ("impl",)
                if c.e.get("virt") and c.name.startswith("Usable"):
                    return ("usable",)
                return None

            def what(self, t):
                u = unwrap(t)
                if u[0] == "r" and len(u) > 2 and u[2]:
                    return u[2]
                if u[0] == "m" and u[1].startswith("Usable") or u[0] == "o" and mentions(u, ("usable",)):
                    return ("usable",)
                return ("var", name(u)) if name(u) != "?" else ("null",) if u == ("c", 0) else None

            def call(self, x, c):
                t = self.tag(x, c)
                if t == ("impl",):
                    return ("impl", ptr_class(c.e["pt"][0]), param(unwrap(c.args[0]), 0))
                if t == ("own",):
                    return ("own",)
                if c.name in ("destruct", "dealloc") and c.args and self.what(c.args[0]):
                    return ("free", self.what(c.args[0]))
                return None

            def assign(self, x, loc, val, n):
                if loc[0] in ("L", "phi", "j") and not INT(x, n):
                    return ("let", name(loc), self.what(val))
                return None

            def ret(self, x, v, n):
                return ("let", "ret", self.what(v))

            def cond(self, x, t, truth, node):
                t, truth = not_(t, truth)
                if t[0] == "b" and t[1] in ("==", "!=") and t[3] == ("c", 0):
                    t, truth = t[2], truth == (t[1] == "!=")
                w = self.what(t)
                return ("is", w, truth) if w and w != ("null",) else None

            def exit(self, x, v):
                return ("exit", self.what(v))
        A = Interp(P, Op()).run(f)
        rep.auto(A)
        own = any(s[0] == "own" for s in A.symbols())

        def step(st, s):
            st = dict(st)
            vs = dict(st["vars"])

            def r(w):
                return vs.get("ret" if w[1].isdigit() else w[1], "?") if w and w[0] == "var" else w[0] if w else "?"
            if s[0] == "let":
                vs[s[1]] = r(s[2])
                st["vars"] = tuple(sorted(vs.items()))
            elif s[0] == "is":
                w = r(s[1])
                if w in ("usable", "impl"):
                    if st[w + "?"] is not None and st[w + "?"] != s[2]:
                        return None
                    st[w + "?"] = s[2]
                elif w in ("null", "own") and s[2] != (w == "own"):
                    return None
            elif s[0] == "impl":
                if s[1] != k or not s[2]:
                    return ("bad", "%s is carried out as something else" % k)
                if st["done"]:
                    return ("bad", "%s is carried out twice" % k)
                st["done"] = True
                if st["usable?"] is False:
                    return ("bad", "a datastore that cannot be used is used")
            elif s[0] == "free" and r(s[1]) in ("impl", "own"):
                return ("bad", "the answer is freed")
            elif s[0] == "exit":
                w = r(s[1])
                if w == "null" and (st["usable?"] is False or st["impl?"] is False):
                    return freezed(st)
                if own and not st["done"]:
                    if w != "own":
                        return ("bad", "%s is not answered" % k)
                elif w != "impl" or not st["done"]:
                    return ("bad", "the answer of the datastore to %s is not returned" % k)
            return freezed(st)
        for m, pos, tr in typestate(A, freezed({"usable?": None, "impl?": None, "done": False, "vars": ()}), step):
            rep.bad("carried out", at(pos, f), f.qn, m, m, tr)
        rep.ok("carried out", k)

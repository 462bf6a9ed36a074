"""From responses to results: every answered item becomes one result of its
kind that carries its own data and status."""
from rules.common import *
from rules.client import at
from rules.flow import name, unwrap, freezed


def steps(t):
    """(names, indices, root) of an access path"""
    names, idx = [], []
    while isinstance(t, tuple):
        k = t[0]
        if k == "f":
            names.append(t[2])
            t = t[1]
        elif k == "e":
            idx.append(t[2])
            t = t[1]
        elif k in ("d", "a", "v"):
            t = t[1]
        elif k == "m" and t[1] in ("operator[]", "at") and len(t) == 4:
            idx.append(t[3])
            t = t[2]
        elif k == "m" and t[1] in ("move", "std::move", "data", "get", "operator->", "operator*", "new Blob") and len(t) == 3:
            t = t[2]
        elif k == "j" and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == "f":
            t = t[2]
        else:
            break
    return tuple(reversed(names)), tuple(reversed(idx)), t


def param(t, n):
    return t[0] == "p" and t[1].startswith("p%dd0" % n) or name(t).startswith("p%dd0:" % n)


def class_op(P, cls):
    """value of the op field an object of the class is created with"""
    class Ops(Hooks):
        max_depth = 5

        def inline(self, x, c, f):
            return f.kind == "ctor" or f.name == f.qn.split("::")[-2:-1] or c.kind == "construct"

        def assign(self, x, loc, val, n):
            if loc[0] == "f" and loc[2] == "op":
                return ("op", val[1] if val[0] == "c" else None)
            return None
    out = set()
    for f in P.funcs.values():
        if f.has_cfg and ("<" in cls and f.qn == "construct" and (f.d.get("ta") or [None])[0] == cls or f.kind == "ctor" and f.qn.rsplit("::", 1)[0] == cls) and not any(ptr_class(p["ct"]) == cls for p in f.params):
            A = Interp(P, Ops()).run(f)
            last = [s[1] for s in A.symbols() if s[0] == "op"]
            out |= set(last) or {None}
    return out


def INT(x, n):
    return n["e"].get("ct", "").replace("const ", "") in ("unsigned long", "int", "unsigned int", "long")


class Make(Hooks):
    max_depth = 4

    def __init__(self, P):
        self.P = P
        self.relevant = {f.id for f in P.funcs.values() if f.has_cfg and f.file.endswith("Results.cpp") and f.d.get("static")}

    def inline(self, x, c, f):
        return f.id in self.relevant or (f.has_cfg and f.qn.startswith("hxhim::Result::") and f.kind == "function" and f.name != "init")

    def tag(self, x, c):
        if c.name == "construct":
            return ("made", ptr_class(c.e["ct"]))
        return None

    def made(self, t):
        t = unwrap(t)
        if t[0] == "r" and len(t) > 2 and t[2] and t[2][0] == "made":
            return ("site",) + t[1][:2], t[2][1]
        return None

    def call(self, x, c):
        if c.name == "construct":
            return ("make", ptr_class(c.e["ct"]), tuple(c.args), ("site", c.f.id, c.id))
        if c.name == "destruct" and c.args and self.node(c.args[0]):
            return ("free", self.node(c.args[0]))
        return None

    def node(self, t):
        t = unwrap(t)
        m = self.made(t)
        if m:
            return m[0]
        n = name(t)
        if n == "?":
            return None
        return ("head", n) if t[0] == "phi" else n

    def loop(self, x, variables):
        return ("loop", tuple(sorted(str(v).rstrip("'") for v in variables)))

    def assign(self, x, loc, val, n):
        if loc[0] == "f" and self.node(loc[1]):
            return ("set", self.node(loc[1]), loc[2], val)
        if loc[0] == "e" and steps(loc)[0]:
            return None
        if loc[0] in ("L", "phi", "j"):
            if self.node(val):
                return ("let", name(loc), self.node(val))
            if val[0] == "c" and INT(x, n):
                return ("from", name(loc), val[1])
            if val == ("c", 0):
                return ("let", name(loc), None)
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
        return None

    def cond(self, x, t, truth, node):
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("==", "!="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == "c":
                    eq = truth == (t[1] == "==")
                    ns = steps(a)[0]
                    if ns[-1:] == ("status",) and b[1] == self.HX:
                        return ("good", eq)
                    if ns[-1:] == ("statuses",) and b[1] == self.DS:
                        return ("good", eq) if self.mine(a) else ("odd",)
                    if ns[-1:] in (("status",), ("statuses",)) and b[1] in (self.HXE, self.DSE):
                        # the result's status is one of two values
                        return ("good", not eq) if ns[-1] == "status" and b[1] == self.HXE else None
        if t[0] == "b" and t[1] in ("<", "!=") and steps(t[3])[0][-1:] == ("num_recs",):
            b, o = linear(t[2])
            return ("more", t[3], truth, name(b), o)
        if t[0] == "b" and t[1] in ("==", "!=", ">") and t[3] == ("c", 0) and name(t[2]) != "?" and t[2][0] == "phi":
            return ("null", self.node(t[2]), truth == (t[1] == "=="))
        if self.node(t):
            return ("null", self.node(t), not truth)
        return None

    def mine(self, a):
        ns, ix, root = steps(a)
        return param(root, 1) and len(ix) == 1 and param(unwrap(ix[0]), 2)

    def exit(self, x, v):
        return ("exit", self.node(v) if v is not None else None)


ITEM = {"subject": ("orig", "subjects"), "predicate": ("orig", "predicates"), "object": ("objects",), "histogram": ("histograms",)}
RECS = {"subject": ("subjects",), "predicate": ("predicates",), "object": ("objects",)}


def conversion(rep):
    P = rep.prog
    rep.rule("own-data", "a result carries the subject, predicate, object or histogram of the item it was made from, and the object or histogram exactly if the item succeeded", 5)
    rep.rule("own-status", "a result's status is success exactly if the status of the item it was made from is", 6)
    rep.rule("records", "a GETOP's result has one entry per record, in order", 1)
    rep.rule("kind", "a response becomes results of its own kind", 5)
    rep.rule("every", "every item of every response becomes exactly one result", 1)
    rep.rule("moved", "moving an item from one response to another moves all of it", 5)
    inits = [f for f in P.funcs.values() if f.qn == "hxhim::Result::init" and f.has_cfg and len(f.params) == 3]
    kinds = leaves(P, "Message::Response::Response")
    over = {ptr_class(f.params[1]["ct"]): f for f in inits}
    ds = enumerators_of(P)
    Make.HX, Make.HXE = macro_or(P, "HXHIM_SUCCESS"), macro_or(P, "HXHIM_ERROR")
    Make.DS, Make.DSE = ds
    madeof = {}
    for k in kinds:
        f = over.get(k)
        if f is None:
            rep.bad("kind", inits[0], "hxhim::Result::init", "there are no results for %s" % k, k)
            continue
        hk = Make(P)
        A = Interp(P, hk).run(f)
        rep.auto(A)
        fields_ = all_fields(P, k)
        listy = "num_recs" in fields_
        made = {s[1] for s in A.symbols() if s[0] == "make" and "Result::" in s[1]}
        if len(made) != 1:
            rep.bad("kind", f, f.qn, "results of several kinds are made from one response", k)
            continue
        madeof[k] = made.pop()
        want = {}
        rf = all_fields(P, madeof[k])
        for fld, src in (RECS if listy else ITEM).items():
            if fld in rf:
                want[fld] = src
        if not want:
            raise AnalysisBroken("no data in %s" % madeof[k])
        if listy:
            check_list(rep, P, f, A, hk, want)
        else:
            check_item(rep, P, f, A, hk, want, k)
        rep.ok("own-data", k)
        rep.ok("own-status", k)
    check_status(rep, P)
    check_dispatch(rep, P, over, madeof)
    check_all(rep, P)
    check_steal(rep, P, kinds)


def macro_or(P, n):
    try:
        return macro_value(P, n)
    except AnalysisBroken:
        for e in P.enums.values():
            for v in e["vals"]:
                if v["name"] == n:
                    return v["v"]
        raise


def enumerators_of(P):
    return macro_or(P, "DATASTORE_SUCCESS"), macro_or(P, "DATASTORE_ERROR")


def all_fields(P, cls):
    out, w = {}, [cls]
    while w:
        c = w.pop()
        for r in P.rec_by_qn.get(c) or P.rec_by_qn.get(c.split("<")[0], []):
            for x in r["fields"]:
                out.setdefault(x["name"], x)
            w += r["bases"]
    return out


def check_item(rep, P, f, A, hk, want, k):
    def step(st, s):
        st = dict(st)
        if s[0] == "make" and "Result::" in s[1]:
            if st["made"]:
                return ("bad", ("own-data", "two results are made for one item"))
            st["made"] = True
            if not any(steps(a)[0][-1:] == ("statuses",) and hk.mine(a) for a in s[2]):
                return ("bad", ("own-status", "a result is not given the status of its item"))
        elif s[0] == "good":
            if st["good"] is not None and st["good"] != s[1]:
                return None
            st["good"] = s[1]
        elif s[0] == "odd":
            return ("bad", ("own-data", "the status of another item is looked at"))
        elif s[0] == "set" and s[2] in want:
            ns, ix, root = steps(s[3])
            if s[3] == ("c", 0) or s[3][0] == "n" or s[3][0] == "m" and s[3][1].startswith("new ") and s[3][2:] in ((), (("c", 0),)):
                return freezed(st)          # cleared
            if ns[-len(want[s[2]]):] != want[s[2]] or not param(root, 1) or len(ix) != 1 or not param(unwrap(ix[0]), 2):
                return ("bad", ("own-data", "a result's %s is set to %s" % (s[2], show(s[3])[:80])))
            if s[2] in ("object", "histogram") and st["good"] is False:
                return ("bad", ("own-data", "a result that failed is given an %s" % s[2]))
            st["set"] |= {s[2]}
        elif s[0] == "set" and s[2] == "status":
            ns, ix, root = steps(s[3])
            return ("bad", ("own-status", "a result's status is changed to %s" % show(s[3])[:60]))
        elif s[0] == "exit":
            if not st["made"]:
                return ("bad", ("own-data", "no result is made for an item"))
            for w in want:
                if w in ("object", "histogram") and st["good"] is False:
                    continue
                if w not in st["set"]:
                    return ("bad", ("own-data", "a result does not get its item's %s" % w))
            if any(w in ("object", "histogram") for w in want) and st["good"] is None and "object" in want:
                return ("bad", ("own-data", "an object is taken from an item without looking at its status"))
        return freezed(st)
    for m, pos, tr in typestate(A, freezed(dict(made=False, good=None, set=frozenset())), step):
        r, m = m
        rep.bad(r, at(pos, f), f.qn, "%s: %s" % (k.split("::")[-1], m), m, tr)


def check_list(rep, P, f, A, hk, want):
    """a list with one entry per record: nodes are tracked by name"""
    def canon(st):
        vs = dict(st["vars"])
        nodes = dict(st["nodes"])
        # unlink filled nodes nobody names any more
        named = set(vs.values()) | {st["head"]}
        ch = True
        while ch:
            ch = False
            for n, (fill, nx) in list(nodes.items()):
                if nx in nodes and nx not in named and nodes[nx][0] == "all" and nodes[nx][1] is not None and fill == "all" and nx != n and n == st["head"]:
                    nodes[n] = (fill, nodes[nx][1])
                    del nodes[nx]
                    ch = True
        order, w = {}, [st["head"]] + [vs[v] for v in sorted(vs, key=str)]
        while w:
            n = w.pop(0)
            if n is None or n in order or n not in nodes:
                continue
            order[n] = len(order)
            w.append(nodes[n][1])
        st["vars"] = tuple(sorted(((v, order.get(n)) for v, n in vs.items()), key=str))
        st["nodes"] = tuple(sorted((order[n], (fl, order.get(nx))) for n, (fl, nx) in nodes.items() if n in order))
        st["head"] = order.get(st["head"])
        return freezed(st)

    def full(fill, st):
        if fill != "all" and (fill >= set(want) or st["good"] is False and fill >= set(want) - {"object"}):
            return "all"
        return fill

    def step(st, s):
        st = dict(st)
        nodes, vs = dict(st["nodes"]), dict(st["vars"])

        def put():
            st["nodes"], st["vars"] = tuple(nodes.items()), tuple(vs.items())
            return canon(st)
        k = s[0]
        if k == "make" and "Result::" in s[1]:
            n = max(nodes, default=-1) + 1
            nodes[n] = (frozenset(), None)
            vs[s[3]] = n
            if st["head"] is None:
                st["head"] = n
            if not any(steps(a)[0][-1:] == ("statuses",) and hk.mine(a) for a in s[2]):
                return ("bad", ("own-status", "a result is not given the status of its item"))
        elif k == "loop":
            for v in s[1]:
                if v in vs:
                    vs["head", v] = vs[v]
                st["since"] = tuple((w, (0, y) if w == v else (x_, y)) for w, (x_, y) in st["since"])
        elif k == "free":
            n = vs.get(s[1], "?")
            if n == "?" or n is None:
                return freezed(st)
            nodes[n] = ("gone", None)
        elif k == "let":
            if s[2] is None:
                vs[s[1]] = None
            elif s[2] in vs:
                vs[s[1]] = vs[s[2]]
            else:
                return freezed(st)
        elif k == "more":
            ns, ix, root = steps(s[1])
            if not (param(root, 1) and len(ix) == 1 and param(unwrap(ix[0]), 2)):
                return ("bad", ("records", "the number of records of another item is used"))
            if s[2]:
                st["iter"] = 1
            since = dict(st["since"])
            if s[3] in since and since[s[3]][0] == s[4]:
                known = since[s[3]][1]
                if known is not None and known != s[2]:
                    return None
                since[s[3]] = (since[s[3]][0], s[2])
                st["since"] = tuple(sorted(since.items()))
                if not s[2]:
                    st["over"] = True
        elif k in ("from", "by"):
            since = dict(st["since"])
            if k == "from":
                since[s[1]] = (0, None)
                st["count"] = tuple(sorted((dict(st["count"]) | {s[1]: 0 if s[2] == 0 else "?"}).items()))
            else:
                since[s[1]] = (since.get(s[1], (0, None))[0] + s[2], None)
                if abs(since[s[1]][0]) > 3:
                    return ("bad", ("records", "not every record is visited"))
                c = dict(st["count"])
                c[s[1]] = 1 if s[2] == 1 and c.get(s[1]) in (0, 1) else "?"
                st["count"] = tuple(sorted(c.items()))
            st["since"] = tuple(sorted(since.items()))
        elif k == "good":
            if st["good"] is not None and st["good"] != s[1]:
                return None
            st["good"] = s[1]
            nodes = {n: (full(fill, st), nx) for n, (fill, nx) in nodes.items()}
        elif k == "null":
            n = vs.get(s[1], "?")
            if n != "?" and (n is None) != s[2]:
                return None
            c = dict(st["count"]).get(s[1][1] if isinstance(s[1], tuple) else s[1])
            if c in (0, 1) and (c == 0) != s[2]:
                return None
        elif k == "set":
            n = vs.get(s[1])
            if n is None:
                return ("bad", ("records", "something is stored in a result that does not exist"))
            fill, nx = nodes[n]
            if s[2] == "next":
                nn = None if s[3] == ("c", 0) else vs.get(hk.node(s[3]))
                nodes[n] = (fill, nn)
            elif s[2] in want:
                ns, ix, root = steps(s[3])
                if ns[-len(want[s[2]]):] != want[s[2]] or not param(root, 1) or len(ix) != 2 or not param(unwrap(ix[0]), 2) or name(unwrap(ix[1])) == "?":
                    return ("bad", ("own-data", "a result's %s is set to %s" % (s[2], show(s[3])[:80])))
                if dict(st["count"]).get(name(unwrap(ix[1])), "?") == "?":
                    return ("bad", ("records", "not every record is visited"))
                if s[2] == "object" and st["good"] is False:
                    return ("bad", ("own-data", "a result that failed is given an object"))
                if fill == "all" or s[2] in fill:
                    return ("bad", ("records", "two records are stored in one entry of the list"))
                fill = fill | {s[2]}
                nodes[n] = (full(fill, st), nx)
        elif k == "exit":
            n = vs.get(s[1])
            if n is None:
                return ("bad", ("records", "no result is returned"))
            if nodes[n][0] == "gone":
                return ("bad", ("records", "an entry of the list has been freed"))
            if n != st["head"]:
                return ("bad", ("records", "the list returned does not start with its first entry"))
            seen = 0
            if st["iter"]:
                while n is not None:
                    if nodes[n][0] == "gone":
                        return ("bad", ("records", "an entry of the list has been freed"))
                    if nodes[n][0] != "all":
                        return ("bad", ("records", "an entry of the list holds no record"))
                    seen += 1
                    n = nodes[n][1]
            elif nodes[n][1] is not None:
                return ("bad", ("records", "there are entries without records"))
            return freezed(st)
        return put()
    S0 = freezed(dict(vars=(), nodes=(), head=None, good=None, iter=0, since=(), count=(), over=False))
    for m, pos, tr in typestate(A, S0, step):
        r, m = m
        rep.bad(r, at(pos, f), f.qn, "GETOP: %s" % m, m, tr)
    rep.ok("records", f.sig)


def check_status(rep, P):
    ctors = [f for f in P.funcs.values() if f.qn == "hxhim::Result::Result::Result" and f.has_cfg and len(f.params) >= 3]
    for f in ctors:
        class St(Hooks):
            exact = True

            def assign(self, x, loc, val, n):
                if loc[0] == "f" and loc[2] == "status":
                    return ("status", val)
                return None

            def cond(self, x, t, truth, node):
                if t[0] == "b" and t[1] in ("==", "!="):
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if b[0] == "c" and a[0] == "p" and b[1] == Make.DS:
                            return ("good", truth == (t[1] == "=="))
                        if b[0] == "c" and a[0] == "p":
                            return ("other", b[1])
                return None
        A = Interp(P, St()).run(f)
        rep.auto(A)

        def step(st, s):
            if s[0] == "good":
                return (s[1], st[1])
            if s[0] == "other":
                return ("bad", "a result's status depends on whether the item's status is %s" % s[1])
            if s[0] == "status":
                v = s[1]
                if v[0] != "c":
                    return (st[0], "?")
                return (st[0], v[1])
            return st

        def final(st, v):
            if st[1] is None:
                return "a result has no status"
            if st[0] is None or st[1] == "?":
                return "a result's status does not depend on whether the item succeeded"
            if st[1] != (Make.HX if st[0] else Make.HXE):
                return "the status of a result whose item %s is %s" % ("succeeded" if st[0] else "failed", st[1])
            return None
        for m, pos, tr in typestate(A, (None, None), step, final):
            rep.bad("own-status", at(pos, f), f.qn, m, m, tr)
        rep.ok("own-status", f.sig)
    if not ctors:
        raise AnalysisBroken("no constructor of results")


def check_dispatch(rep, P, over, madeof):
    f = over.get("Message::Response::Response")
    if f is None:
        raise AnalysisBroken("no conversion of responses in general")

    class Ds(Hooks):
        relevant = {g.id for g in P.funcs.values() if g.has_cfg and g.qn != "hxhim::Result::init" and any("Message::Response" in p["ct"] for p in g.params) and not g.d.get("rec")}

        def cond(self, x, t, truth, node):
            if t[0] == "b" and t[1] == "==" and truth and t[3][0] == "c" and steps(t[2])[0][-1:] == ("op",):
                return ("case", t[3][1])
            if t[0] == "b" and t[1] == "==" and truth and t[2][0] == "c" and steps(t[3])[0][-1:] == ("op",):
                return ("case", t[2][1])
            if t[0] == "b" and t[1] == "!=" and not truth and t[3][0] == "c" and steps(t[2])[0][-1:] == ("op",):
                return ("case", t[3][1])
            return None

        def call(self, x, c):
            g = P.funcs.get(c.fid)
            if g is not None and g.qn == "hxhim::Result::init" and len(g.params) == 3:
                a = c.args
                ok = param(unwrap(a[0]), 0) and param(unwrap(a[1]), 1) and param(unwrap(a[2]), 2)
                return ("init", ptr_class(g.params[1]["ct"]), ok)
            return None
    A = Interp(P, Ds()).run(f)
    rep.auto(A)
    done = set()

    def step(st, s):
        if s[0] == "case":
            return s[1]
        if s[0] == "init":
            if not s[2]:
                return ("bad", "a result is made from another item than the one asked for")
            ops = class_op(P, s[1])
            if ops != {st}:
                return ("bad", "%s is used for responses with operation %s" % (s[1], st))
            done.add(s[1])
        return st
    for m, pos, tr in typestate(A, None, step):
        rep.bad("kind", at(pos, f), f.qn, m, m, tr)
    for k in sorted(set(over) - {"Message::Response::Response"}):
        if k not in done and not any(v["rule"] == "kind" for v in rep.viol):
            rep.bad("kind", f, f.qn, "no results are made of %s" % k, k)
        if k in madeof and class_op(P, k) != class_op(P, madeof[k]):
            rep.bad("kind", over[k], over[k].qn, "%s becomes %s, which is of another operation" % (k, madeof[k]), "k" + k)
        rep.ok("kind", k)


def check_all(rep, P):
    for f in [f for f in P.funcs.values() if f.qn == "hxhim::Result::AddAll" and f.has_cfg]:
        class Al(Hooks):
            def __init__(self):
                self.relevant = set()

            def tag(self, x, c):
                if c.qn == "hxhim::Result::init":
                    return ("res",) + tuple(c.args[1:3])
                if c.qn in ("Message::next",):
                    return ("next",)
                return None

            def call(self, x, c):
                if c.qn == "hxhim::Result::init":
                    return ("init", unwrap(c.args[1]), unwrap(c.args[2]))
                if c.name == "Add" and c.obj is not None:
                    a = unwrap(c.args[0])
                    return ("add", param(unwrap(c.obj), 1), a[0] == "r" and len(a) > 2 and a[2] is not None and a[2][0] == "res")
                if c.qn == "Message::next":
                    return ("next", unwrap(c.args[0]))
                return None

            def assign(self, x, loc, val, n):
                if loc[0] == "L":
                    if val[0] == "c":
                        return ("from", name(loc), val[1])
                    b, o = linear(val)
                    if o and name(b) == name(loc):
                        return ("by", name(loc), o)
                    v = unwrap(val)
                    if param(v, 2):
                        return ("at", name(loc), "first")
                    if v[0] == "r" and len(v) > 2 and v[2] == ("next",):
                        return ("at", name(loc), "next")
                    if v[0] == "f" and v[2] == "next":
                        return ("at", name(loc), "next")
                return None

            def cond(self, x, t, truth, node):
                while t[0] == "u" and t[1] == "!":
                    t, truth = t[2], not truth
                if t[0] == "b" and t[1] in ("==", "!=") and ("c", 0) in (t[2], t[3]):
                    truth = truth == (t[1] == "!=")
                    t = t[2] if t[3] == ("c", 0) else t[3]
                if t[0] == "b" and t[1] in ("<", "!=", ">=", "==") and steps(t[3])[0][-1:] == ("count",):
                    return ("item", name(unwrap(t[2])), name(steps(t[3])[2]) if not param(steps(t[3])[2], 2) else "?", truth == (t[1] in ("<", "!=")))
                u = unwrap(t)
                if param(u, 2) or u[0] in ("phi", "L", "j") or u[0] == "r" and len(u) > 2 and u[2] == ("next",):
                    return ("resp", truth)
                return None
        A = Interp(P, Al()).run(f)
        rep.auto(A)

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k == "resp":
                if st["resp"] is True and not st["items"]:
                    return ("bad", "a response's items are passed over")
                st["resp"], st["items"], st["cur"], st["done"] = s[1], False, None, None
            elif k == "item":
                if st["cur"] is not None and st["done"] != "added":
                    return ("bad", "an item's result is not kept")
                st["cur"], st["done"] = (s[1] if s[3] else None), None
                if not s[3]:
                    st["items"] = True
            elif k == "init":
                if name(s[2]) != st["cur"]:
                    return ("bad", "a result is made of another item")
                if st["done"]:
                    return ("bad", "an item becomes two results")
                st["done"] = "made"
            elif k == "add":
                if not s[1] or not s[2]:
                    return ("bad", "something else than an item's result is added, or to something else than the results")
                if st["done"] != "made":
                    return ("bad", "a result is added twice")
                st["done"] = "added"
            elif k == "next":
                if not st["items"]:
                    return ("bad", "a response's items are passed over")
            return freezed(st)

        def final(st, v):
            if dict(st)["resp"] is not False:
                return "responses are passed over"
            return None
        for m, pos, tr in typestate(A, freezed(dict(resp=None, items=False, cur=None, done=None)), step, final):
            rep.bad("every", at(pos, f), f.qn, m, m, tr)
        sy = A.symbols()
        for v in {s[1] for s in sy if s[0] == "item"}:
            if {s[2] for s in sy if s[0] == "from" and s[1] == v} != {0} or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
                rep.bad("every", f, f.qn, "not every item is visited", "visit")
        for need in ("resp", "item", "init", "add"):
            if not any(s[0] == need for s in sy):
                rep.bad("every", f, f.qn, "no results are added (%s)" % need, need)
        rep.ok("every", f.qn)


class Steal(Hooks):
    max_depth = 7

    def inline(self, x, c, f):
        return f.qn.startswith("Message::")

    def assign(self, x, loc, val, n):
        ns, ix, root = steps(loc)
        if root == ("this",) and ns == ("count",):
            b, o = linear(val)
            return ("count", o if b == ("f", ("this",), "count") or steps(b)[0] == ("count",) else None)
        if root == ("this",) and len(ix) == 1 and ns[:1] != ("timestamps",):
            b, o = linear(ix[0])
            return ("put", ns, o if steps(b)[0] == ("count",) and steps(b)[2] == ("this",) else None, val)
        return None

    def cond(self, x, t, truth, node):
        if t[0] == "b" and t[1] in ("==", "!="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                ns, ix, root = steps(a)
                if b == ("c", Make.DS) and ns == ("statuses",) and param(root, 0) and len(ix) == 1 and param(unwrap(ix[0]), 1):
                    return ("good", truth == (t[1] == "=="))
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v and v[0] == "c" else None)


def check_steal(rep, P, kinds):
    err = macro_or(P, "MESSAGE_ERROR")
    for k in kinds:
        fs = [f for f in P.funcs.values() if f.qn == k + "::steal" and f.has_cfg]
        if not fs:
            base = [f for c in [k] for f in P.funcs.values() if f.name == "steal" and f.has_cfg and k in P.all_derived(f.qn.rsplit("::", 1)[0])]
            fs = sorted(base, key=lambda f: -len(f.qn))[:1]
        if not fs:
            rep.bad("moved", ("include/message", 1), k, "no way to move an item", k)
            continue
        f = fs[0]
        # the arrays of the class
        alloc = [g for g in P.funcs.values() if g.name == "alloc" and g.has_cfg and (g.qn == k + "::alloc" or k in P.all_derived(g.qn.rsplit("::", 1)[0]))]

        class Al(Hooks):
            max_depth = 6

            def inline(self, x, c, f):
                return f.qn.startswith("Message::") and f.name == "alloc"

            def assign(self, x, loc, val, n):
                ns, ix, root = steps(loc)
                if root == ("this",) and not ix and val[0] in ("r", "n") and ns[:1] != ("timestamps",):
                    return ("array", ns)
                return None
        alloc.sort(key=lambda g: (g.qn != k + "::alloc", -len(g.qn)))
        B = Interp(P, Al()).run(alloc[0]) if alloc else None
        need = {s[1] for s in B.symbols() if s[0] == "array"} if B else set()
        if not need:
            raise AnalysisBroken("no arrays in %s" % k)
        A = Interp(P, Steal()).run(f)
        rep.auto(A)

        def step(st, s, need=need):
            got, cnt, good = st
            if s[0] == "good":
                return None if good not in (None, s[1]) else (got, cnt, s[1])
            if s[0] == "put":
                ns, ix, root = steps(s[3])
                if s[1] not in need:
                    return st
                if s[3] == ("c", 0):
                    return st
                if s[2] is None or s[2] != 0 and cnt == 0 or s[2] - cnt not in (0, -cnt):
                    return ("bad", "the item is stored in another place than the next free one")
                if s[2] != 0:
                    return ("bad", "the item is stored behind the next free place")
                if ns != s[1] or not param(root, 0) or len(ix) != 1 or not param(unwrap(ix[0]), 1):
                    return ("bad", "an item's %s is taken from %s" % (".".join(s[1]), show(s[3])[:60]))
                return (got | {s[1]}, cnt, good)
            if s[0] == "count":
                if s[1] is None:
                    return ("bad", "the number of items becomes something else than one more")
                return (got, cnt + s[1], good) if cnt + s[1] < 3 else ("bad", "an item is counted more than once")
            if s[0] == "exit" and s[1] != err:
                miss = need - got
                if good is False:
                    miss -= {("objects",), ("histograms",)}
                if miss:
                    return ("bad", "an item's %s is left behind" % ".".join(sorted(miss)[0]))
                if cnt != 1:
                    return ("bad", "a moved item is counted %d times" % cnt)
            return st
        for m, pos, tr in typestate(A, (frozenset(), 0, None), step):
            rep.bad("moved", at(pos, f), f.qn, "%s: %s" % (k.split("::")[-1], m), m, tr)
        rep.ok("moved", k)

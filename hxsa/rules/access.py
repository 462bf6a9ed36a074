"""what the accessors of results give out"""
from rules.common import *
from rules.client import at
from rules.flow import freezed, unwrap
from rules.results import steps, param, class_op
from rules.serve import not_

FILE = "src/hxhim/Results.cpp"
BASE = "hxhim::Result::Result"


class Look(Hooks):
    max_depth = 5
    containers = False
    term_scale = 2

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.success, self.error = macro_value(P, "HXHIM_SUCCESS"), macro_value(P, "HXHIM_ERROR")
        self.hist = macro_value(P, "HISTOGRAM_SUCCESS")
        self.method = f.kind not in ("function",) and bool(f.d.get("rec"))

    def inline(self, x, c, g):
        return g.file.endswith(("hxhim/Results.cpp", "hxhim/Results.hpp", "hxhim/private/Results.hpp")) and not c.e.get("virt")

    def result(self, x, c):
        if c.name in ("begin", "cbegin", "end", "cend") and c.obj is not None and self.list(c.obj):
            return ("m", "begin" if "begin" in c.name else "end", ("s", "results"))
        if c.name == "next" and c.qn in ("std::next",) and c.args and (len(c.args) == 1 or c.args[1] == ("c", 1)):
            return ("b", "+", unwrap(c.args[0]), ("c", 1))
        return None

    def list(self, t):
        return steps(t)[0][-1:] == ("results",)

    def it(self, t):
        """is a term the position?"""
        t = unwrap(t)
        while t[0] == "m" and t[1].startswith("new ") and len(t) == 3:
            t = unwrap(t[2])
        n, i, r = steps(t)
        if n[-1:] == ("it",) and not i:
            return True
        return t[0] == "m" and t[1] == "begin" or t[0] == "b" and t[1] == "+" and self.it(t[2])

    def res(self, loc):
        """fields of the result at the position a location goes through"""
        names, t = [], loc
        while isinstance(t, tuple) and t[0] in ("f", "d", "v", "e", "a"):
            if t[0] in ("d", "v") and self.it(t[1]) and t[1][0] != "d":
                return tuple(reversed(names))
            if t[0] == "f":
                names.append(t[2])
            t = t[1]
        return None

    def pars(self, t):
        return tuple(sorted({int(s[1][1:s[1].index("d")]) for s in subterms(t) if s[0] == "p" and s[1][:1] == "p" and s[1][1:2].isdigit()}))

    def access(self, x, loc, node, write):
        e = node["e"]
        n = self.res(loc)
        if n is not None:
            if n and e["k"] == "member" and e.get("rec", "").startswith("hxhim::Result::") and e["name"] == n[-1]:
                return ("field", e["rec"], n[0])
            return ("deref",)
        u = self.owner(loc)
        return ("use", u) if u else None

    def owner(self, loc):
        """what has to exist for a location to exist"""
        if self.method:
            return ()
        out, t = set(), loc
        while isinstance(t, tuple) and t[0] in ("f", "e", "d", "v"):
            if t[0] == "d":
                u = unwrap(t[1])
                if u[0] == "p" and param(u, 0):
                    out.add("list")
                elif t[1][0] == "f" and t[1][2] == "res" and param(unwrap(t[1][1]), 0):
                    out.add("results")
            t = t[1]
        return tuple(sorted(out))

    def call(self, x, c):
        if c.name in ("begin", "cbegin", "end", "cend"):
            return None
        if c.obj is not None:
            n = self.res(c.obj)
            if n:
                ps = tuple(sorted({p for a in c.args for p in self.pars(a)}))
                if ps:
                    return ("out", n[0], c.name, ps)
            u = self.owner(unwrap(c.obj))
            return ("use", u) if u else None
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "f" and loc[2] == "it":
            v = unwrap(val)
            while v[0] == "m" and v[1].startswith("new ") and len(v) == 3:
                v = unwrap(v[2])
            if v[0] == "m" and v[1] == "begin":
                return ("move", "head")
            if v == ("b", "+", loc, ("c", 1)):
                return ("move", "next")
            return ("move", "?")
        if loc[0] == "d" and unwrap(loc)[0] == "p":
            r = self.res(val)
            ps = self.pars(loc)
            if r:
                return ("out", r[0], "=", ps)
            for s in subterms(val):
                if s[0] == "m" and len(s) > 2 and self.res(s[2]):
                    return ("out", self.res(s[2])[0], s[1], ps)
            if val[0] == "m" and val[1] in ("size", "length"):
                return ("out", "", "size", ps)
            return ("out", None, "?", ps)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator!=", "operator==") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "p":
            if param(t, 0) and not self.method:
                return ("known", "list", truth)
            return ("given", self.pars(t), truth)
        n, _, r = steps(t)
        if n == ("res",) and param(r, 0):
            return ("known", "results", truth)
        if t[0] == "b" and t[1] in ("==", "!="):
            truth = truth == (t[1] == "==")
            for v, w in ((t[2], t[3]), (t[3], t[2])):
                if unwrap(w)[:2] == ("m", "end") and self.it(v):
                    return ("at", not truth)
                if w[0] == "c":
                    if w[1] == 0 and v[0] == "p":
                        return ("known", "list", not truth) if param(v, 0) and not self.method else ("given", self.pars(v), not truth)
                    if w[1] == 0 and steps(v)[0] == ("res",):
                        return ("known", "results", not truth)
                    f = self.res(v)
                    if f == ("op",):
                        return ("op", w[1], truth)
                    if f == ("status",):
                        return ("status", truth == (w[1] == self.success)) if w[1] in (self.success, self.error) else None
                    if v[0] in ("r", "m"):
                        return ("answer", truth == (w[1] in (self.success, self.hist)))
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v[0] == "c" else None)


def kinds(P):
    """class -> ops of the results that are objects of it"""
    if not any(r["qn"] == BASE for r in P.records.values()):
        raise AnalysisBroken("anchor vanished: " + BASE)
    out = {}
    for c in [BASE] + sorted(P.all_derived(BASE)):
        ops = set()
        for d in {c} | set(P.all_derived(c)):
            if d != BASE and not set(P.all_derived(d)) - {d}:
                ops |= {o for o in class_op(P, d) if o is not None}
        out[c] = ops
    return out


def access(rep):
    P = rep.prog
    rep.rule("position", "a result is looked at only if there is one at the position, and the position is moved only from an existing result", 5)
    rep.rule("kind", "what only some results have is given out only for those, and for all of those", 3)
    rep.rule("given", "an accessor that succeeds has given out what it is called for, and one that fails has a reason to", 5)
    rep.rule("own", "every part of a result is given out by its own accessor", 1)
    ops = kinds(P)
    every = set().union(*ops.values())
    if len(every) < 5:
        raise AnalysisBroken("anchor vanished: operations of results")
    roots = []
    for f in P.funcs.values():
        if not f.has_cfg or f.file != FILE or f.d.get("static") or f.kind == "ctor":
            continue
        c = f.params and f.params[0]["ct"].startswith("hxhim_results") and f.d.get("rct") == "int"
        m = f.d.get("rec") == "hxhim::Results" and f.d.get("rct") == "int"
        if c or m:
            roots.append(f)
    if len(roots) < 15:
        raise AnalysisBroken("anchor vanished: accessors of results")
    gives = {}
    for f in sorted(roots, key=lambda f: (f.line, f.id)):
        hk = Look(P, f)
        A = Interp(P, hk).run(f)
        rep.auto(A)
        fields = {s[2]: s[1] for s in A.symbols() if s[0] == "field"}
        outs = {s[1] for s in A.symbols() if s[0] == "out" and s[1]}
        moves = any(s[0] in ("move",) for s in A.symbols())
        looks = bool(outs) or moves or any(s[0] == "at" for s in A.symbols())
        limited = [c for n, c in fields.items() if n in outs and ops.get(c, every) != every]
        allowed = set.intersection(*[ops[c] for c in limited]) if limited else every
        payload = any(c not in (BASE, "hxhim::Result::SubjectPredicate") and n in outs for n, c in fields.items())
        writes = set().union(*[set(s[3]) for s in A.symbols() if s[0] == "out"]) if outs else set()

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k == "known":
                if st.get(s[1]) not in (None, s[2]):
                    return None
                st[s[1]] = s[2]
            elif k == "use":
                for u in s[1]:
                    if st[u] is not True:
                        return ("bad", ("position", "a list of results that need not exist is used"))
            elif k == "at":
                if st["at"] not in (None, s[1]):
                    return None
                st["at"] = s[1]
            elif k == "deref":
                if st["at"] is not True:
                    return ("bad", ("position", "the result at the position is used although there need not be one"))
            elif k == "field":
                if st["at"] is not True:
                    return ("bad", ("position", "the result at the position is used although there need not be one"))
                need = ops.get(s[1], every)
                if need != every and not (st["op"] in need or every - st["nots"] <= need):
                    return ("bad", ("kind", "%s of a result is used although the result need not have one" % s[2]))
                if s[1] not in (BASE, "hxhim::Result::SubjectPredicate") and st["status"] is not True:
                    return ("bad", ("kind", "%s of a result is used although the operation may have failed" % s[2]))
            elif k == "op":
                if s[2]:
                    if s[1] in st["nots"] or st["op"] not in (None, s[1]):
                        return None
                    st["op"] = s[1]
                else:
                    if st["op"] == s[1]:
                        return None
                    st["nots"] = st["nots"] | {s[1]}
            elif k == "status":
                if st["status"] not in (None, s[1]):
                    return None
                st["status"] = s[1]
            elif k == "answer":
                if not s[1]:
                    st["failed"] = True
            elif k == "given":
                d = dict(st["null"])
                for p in s[1]:
                    if d.get(p, s[2]) != s[2]:
                        return None
                    d[p] = s[2]
                st["null"] = tuple(sorted(d.items()))
            elif k == "out":
                if s[2] == "=" or s[2] == "size":
                    if dict(st["null"]).get(s[3][0]) is not True:
                        return ("bad", ("given", "something is stored where there need not be a place for it"))
                if s[1] is None:
                    return ("bad", ("given", "something else than a part of the result is given out"))
                st["done"] = st["done"] | set(s[3])
            elif k == "move":
                if s[1] == "?":
                    return ("bad", ("position", "the position is moved to something else than the first or the next result"))
                if s[1] == "next" and st["at"] is not True:
                    return ("bad", ("position", "the position is moved beyond the end"))
                st["at"] = None
            elif k == "exit":
                gone = st["list"] is False or st["results"] is False
                if s[1] not in (hk.success, hk.error):
                    return ("bad", ("given", "an accessor answers something else than success or failure"))
                if s[1] == hk.success:
                    if gone:
                        return ("bad", ("given", "an accessor succeeds for a list of results that does not exist"))
                    if looks and st["at"] is not True and (moves or outs - {""}):
                        return ("bad", ("given", "an accessor succeeds although there need not be a result"))
                    miss = [p for p in writes if p not in st["done"] and dict(st["null"]).get(p) is not False]
                    if miss:
                        return ("bad", ("given", "%s is not given out" % ", ".join(f.params[p]["name"] if p < len(f.params) else "?" for p in miss)))
                else:
                    why = gone or st["at"] is False or st["failed"] or st["op"] is not None and st["op"] not in allowed \
                        or limited and allowed <= st["nots"] or payload and st["status"] is False
                    if not why and f.name not in ():
                        return ("bad", ("given" if not limited else "kind", "an accessor fails for a result that has what it is called for"))
            return freezed(st)
        init = dict(list=None, results=None, at=None, op=None, nots=frozenset(), status=None, failed=False, null=(), done=frozenset())
        for m, pos, tr in typestate(A, freezed(init), step):
            rep.bad(m[0], at(pos, f), f.qn, m[1], m[1], tr)
        for r in ("position", "given") + (("kind",) if limited else ()):
            rep.ok(r, f.id)
        gives[f] = frozenset((s[1], s[2] if s[2] not in ("=",) else "", tuple(f.params[p]["ct"] for p in s[3] if p < len(f.params))) for s in A.symbols() if s[0] == "out" and s[1])
    fs = list(gives)
    for a in range(len(fs)):
        for b in range(a + 1, len(fs)):
            f, g = fs[a], fs[b]
            if f.name == g.name or f.qn.startswith("hxhim::") != g.qn.startswith("hxhim::"):
                continue
            both = gives[f] & gives[g]
            for o in sorted(both, key=str):
                rep.bad("own", g, g.qn, "%s is also given out by %s" % (o[0] or "the size", f.qn), (o[0], f.qn))
        rep.ok("own", fs[a].id)

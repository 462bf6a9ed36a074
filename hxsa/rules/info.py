"""what an open instance tells about itself"""
from rules.common import *
from rules.client import at
from rules.flow import unwrap
from rules.results import steps, param
from rules.serve import not_
from rules.options import Set
from rules.getop import Split

# parameter -> what is given through it (None: anything)
TABLE = {"GetEpoch": {1: None},
         "GetMPI": {1: "bootstrap.comm", 2: "bootstrap.rank", 3: "bootstrap.size"},
         "GetRangeServerCount": {1: "range_server.total_range_servers"},
         "GetRangeServerClientToServerRatio": {1: "range_server.client_ratio", 2: "range_server.server_ratio"},
         "GetDatastoreCount": {1: "range_server.datastores.total"},
         "GetDatastoreLocation": {2: "get_rank", 3: "% range_server.datastores.per_server"},
         "GetHash": {1: "hash.name", 2: "hash.func", 3: "hash.args"},
         "HaveHistogram": {3: "histograms.names"}}
CLOSED = ("GetEpoch",)              # also of an instance that is not running
MUST = {"HaveHistogram": (3,)}      # refused without somewhere to put the answer
RANGE = {"GetDatastoreLocation": 1}


class Get(Set):
    limits = False
    file = "src/hxhim/accessors.cpp"

    def inline(self, x, c, g):
        return not c.e.get("virt") and (g.file == self.file or g.qn in ("hxhim::started", "hxhim::valid"))

    def source(self, t):
        t = unwrap(t)
        while t[0] == "m" and len(t) >= 3 and t[1] in ("c_str", "data", "operator bool", "load", "move"):
            t = unwrap(t[2])
        o = self.option(t)
        if o:
            return o
        if t[0] == "b" and t[1] == "%" and param(unwrap(t[2]), 1):
            return "% " + str(self.option(unwrap(t[3])))
        neg = False
        t, pos = not_(t, True)
        if t[0] == "b" and t[1] in ("==", "!=", ">", ">="):
            found = {("!=", "find"), (">", "count"), ("!=", "count"), (">=", "count")} if pos else {("==", "find"), ("==", "count")}
            for s in subterms(t):
                if s[0] == "m" and len(s) >= 3 and (t[1], s[1]) in found:
                    if s[1] == "count" and t[3] != ("c", 1 if t[1] == ">=" else 0):
                        continue
                    return self.option(unwrap(s[2]))
        if t[0] == "m" and t[1] == "count" and len(t) >= 3 and pos:
            return self.option(unwrap(t[2]))
        if t[0] == "r" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "rank":
            return "get_rank"
        if t[0] == "c":
            return "constant %s" % t[1]
        return "something else"

    def tag(self, x, c):
        return ("rank",) if c.name == "get_rank" else Set.tag(self, x, c)

    def named(self, t):
        """whether what is looked for is the whole name given"""
        for s in subterms(t):
            if s[0] == "m" and s[1].startswith(("new std::basic_string", "new std::string")) and len(s) >= 4:
                a, b = unwrap(s[2]), unwrap(s[3])
                if b[0] == "b" and b[1] == "+":
                    b = [unwrap(u) for u in b[2:] if unwrap(u) != a][0]
                return param(a, 1) and param(b, 2)
        return False

    def out(self, loc):
        """the parameter a place given by the caller belongs to"""
        t, deref = loc, False
        while t[0] in ("f", "d"):
            deref = deref or t[0] == "d"
            t = t[1]
        if t[0] != "p" or "d0:" not in t[1] or param(t, 0):
            return None
        return int(t[1][1:t[1].index("d")])

    def access(self, x, loc, node, write):
        u = self.under(loc)
        return ("deref", u) if u else None

    def assign(self, x, loc, val, n):
        if n["decl"] or not (loc[0] == "d" or loc[0] == "p" or loc[0] == "f"):
            return None
        k = self.out(loc)
        if k is not None:
            src = self.source(val)
            if src == "histograms.names" and not self.named(val):
                src = "whether there is something else"
            v = unwrap(val)
            if loc[0] == "f" and v[0] == "b" and (loc[2], v[1]) in (("tv_sec", "%"), ("tv_nsec", "/")):
                src = "the wrong part of the time"
            return ("gives", k, src, loc[0] != "p")
        return ("changes", self.option(loc)) if self.option(loc) else None

    def call(self, x, c):
        # assignments of class type
        if c.name == "operator=" and c.obj is not None and c.args:
            k = self.out(c.obj)
            if k is not None:
                return ("gives", k, self.source(c.args[0]), c.obj[0] != "p")
        return None

    def cond(self, x, t, truth, node):
        e = Set.cond(self, x, t, truth, node)
        if e:
            return e
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!=") and (t[3] == ("c", 0) or t[3][0] == "n"):
            t, truth = t[2], truth == (t[1] == "!=")
        if self.named(t):
            for u, yes in ((t, truth), (("u", "!", t), not truth)):
                if self.source(u) == "histograms.names":
                    return ("found", yes)
        if t[0] == "p" and self.out(t) is not None:
            return ("asked", self.out(t), truth)
        if t[0] == "b" and t[1] in ("<", "<=", ">", ">="):
            a, b, op = t[2], t[3], t[1]
            if op in (">", ">="):
                a, b, op = b, a, "<" if op == ">" else "<="
            # a op b
            if param(unwrap(a), 1) and unwrap(b) == ("c", 0) and op == "<":
                return ("low", not truth)
            if unwrap(a) == ("c", 0) and param(unwrap(b), 1) and op == "<=":
                return ("low", truth)
            if unwrap(a) == ("c", -1) and param(unwrap(b), 1) and op == "<":
                return ("low", truth)
            if param(unwrap(a), 1) and self.option(unwrap(b)) == "range_server.datastores.total" and op == "<":
                return ("high", truth)
            if param(unwrap(b), 1) and self.option(unwrap(a)) == "range_server.datastores.total" and op == "<=":
                return ("high", not truth)
            if op == "<" and unwrap(b) == ("c", 0):
                s = unwrap(a)
                if s[0] == "r" and len(s) > 2 and s[2] == ("rank",) or s[0] == "d":
                    return ("norank", truth)
        return None


def getters(P):
    out = [f for f in P.funcs.values() if f.has_cfg and f.params and f.params[0]["ct"] == "hxhim_t *" and
           (f.qn.startswith("hxhim::") and not f.qn.startswith("hxhim::nocheck") and f.name in TABLE or f.name.startswith("hxhim") and f.name[5:] in TABLE)]
    if {f.name.replace("hxhim", "", 1) for f in out} != set(TABLE):
        raise AnalysisBroken("anchor vanished: accessors of an instance")
    return sorted(out, key=lambda f: f.id)


def info(rep):
    P = rep.prog
    rep.rule("told", "what is given through each pointer is what the function is named for, and all that is asked for is given", 16)
    rep.rule("refused", "an instance that is not open is refused and not looked into; pointers are tested before they are written through", 16)
    rep.rule("kept", "asking changes nothing", 16)
    hk = Get(P)
    for f in getters(P):
        n = f.name.replace("hxhim", "", 1) if f.name.startswith("hxhim") else f.name
        want, closed, must, rng = TABLE[n], n in CLOSED, MUST.get(n, ()), n in RANGE
        hk.f = f
        A = Split(P, hk).run(f)
        rep.auto(A)

        def step(st, s):
            known, asked, given = st
            d, a, k = dict(known), dict(asked), s[0]
            isopen = d.get("hx") and d.get("p") and (closed or d.get("running"))
            if k in ("known", "running"):
                w = s[1] if k == "known" else "running"
                v = s[-1]
                if d.get(w, v) != v:
                    return None
                d[w] = v
            elif k in ("low", "high", "norank", "found"):
                if d.get(k, s[1]) != s[1]:
                    return None
                d[k] = s[1]
            elif k == "asked":
                if a.get(s[1], s[2]) != s[2]:
                    return None
                a[s[1]] = s[2]
            elif k == "deref":
                for u in s[1]:
                    if not d.get(u):
                        return ("bad", ("refused", "an instance that need not exist is used"))
            elif k == "changes":
                return ("bad", ("kept", "%s is changed by asking for something" % s[1]))
            elif k == "gives":
                if not isopen:
                    return ("bad", ("refused", "something is told about an instance that is not open"))
                if s[3] and not f.params[s[1]]["ref"] and a.get(s[1]) is not True:
                    return ("bad", ("refused", "%s is written through without being tested" % f.params[s[1]]["name"]))
                if s[2] in ("constant 0", "constant 1") and want.get(s[1]) == "histograms.names" and d.get("found") == (s[2] == "constant 1"):
                    s = s[:2] + (want[s[1]],) + s[3:]
                if s[1] in want and (s[2] != want[s[1]] if want[s[1]] is not None else s[2] == "the wrong part of the time"):
                    return ("bad", ("told", "%s is given %s" % (f.params[s[1]]["name"], s[2])))
                if rng and not (d.get("low") and d.get("high")):
                    return ("bad", ("refused", "the location of a datastore that need not exist is told"))
                given = given | {s[1]}
            elif k == "exit":
                if s[1] == hk.success:
                    if not isopen:
                        return ("bad", ("refused", "an instance that is not open is accepted"))
                    if rng and (d.get("low") is False or d.get("high") is False or d.get("norank")):
                        return ("bad", ("refused", "a datastore that does not exist has a location"))
                    for p in want:
                        if p not in given and a.get(p) is not False:
                            return ("bad", ("told", "%s is not set" % f.params[p]["name"]))
                    if any(a.get(p) is False for p in must):
                        return ("bad", ("refused", "an answer nobody can get is reported as given"))
                elif s[1] == hk.error:
                    if isopen and not (rng and (d.get("low") is False or d.get("high") is False or d.get("norank"))) and not any(a.get(p) is False for p in must):
                        return ("bad", ("refused", "an open instance is refused"))
                else:
                    return ("bad", ("told", "whether the instance was asked successfully is not reported"))
            return (tuple(sorted(d.items())), tuple(sorted(a.items())), given)
        for m, pos, tr in typestate(A, ((), (), frozenset()), step):
            rep.bad(m[0], at(pos, f), f.qn, m[1], m[1], tr)
        for r in ("told", "refused", "kept"):
            rep.ok(r, f.id)

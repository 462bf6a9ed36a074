"""options of an instance: set before it runs, kept as they were given"""
from rules.common import *
from rules.client import at
from rules.flow import freezed, unwrap
from rules.results import steps, param
from rules.serve import not_

STORE = ("insert", "emplace", "push_back", "emplace_back", "clear", "erase", "operator=", "assign", "append", "insert_or_assign", "swap", "try_emplace", "reset", "store", "exchange")


def made(tag):
    return [int(n) for n in tag[2].split(",") if n != "-"]


LIMITS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
USUAL = (1, 2, 3, 1000, 1 << 20)      # what an option may always be set to


def limited(rep, f, A, hk):
    """values are refused only for being zero, negative, null or unknown"""
    def step(st, s):
        ok, left, bad = st
        if s[0] == "known":
            return (ok and s[2], left, bad)
        if s[0] == "running":
            return (ok and not s[1], left, bad)
        if s[0] == "limit":
            d = dict(left)
            d[s[1]] = tuple(v for v in d.get(s[1], USUAL) if LIMITS[s[2]](*((s[3], v) if s[4] else (v, s[3]))) == s[5])
            return (ok, tuple(sorted(d.items())), bad if d[s[1]] else bad | {s[1]})
        if s[0] == "exit" and ok and left and s[1] in (hk.error, hk.success):
            out.setdefault(s[1], []).append((dict(left), bad))
        return st
    out = {}
    typestate(A, (True, (), frozenset()), step)
    for k in sorted({k for left, bad in out.get(hk.error, ()) for k in left}):
        could = {v for left, bad in out.get(hk.error, ()) for v in left.get(k, ())}
        can = {v for left, bad in out.get(hk.success, ()) for v in left.get(k, USUAL)}
        miss = sorted(set(USUAL) - can)
        if could and miss:
            rep.bad("stored", f, f.qn, "%s cannot be set to %s" % (f.params[k]["name"], ", ".join(map(str, miss))), k)


class Set(Hooks):
    max_depth = 4
    containers = False
    limits = True         # whether tests of given values are events
    term_scale = 2
    file = "src/hxhim/options.cpp"

    def __init__(self, P):
        self.P = P
        self.success, self.error = macro_value(P, "HXHIM_SUCCESS"), macro_value(P, "HXHIM_ERROR")

    def inline(self, x, c, g):
        return g.file == self.file and not c.e.get("virt")

    def hx(self, t):
        t = unwrap(t)
        return param(t, 0)

    def option(self, loc):
        """name of the option a location is part of"""
        n, _, r = steps(loc)
        if n[:1] == ("p",) and len(n) > 1 and param(r, 0):
            return ".".join(n[1:])
        return None

    def under(self, loc):
        """what has to exist for a location to exist: ('hx',) or ('hx', 'p')"""
        out, t = set(), loc
        while isinstance(t, tuple) and t[0] in ("f", "e", "d", "v"):
            if t[0] == "d":
                if t[1] == ("p", "p0d0:hx") or t[1][0] == "p" and param(t[1], 0):
                    out.add("hx")
                elif t[1][0] == "f" and t[1][2] == "p" and param(unwrap(t[1][1]), 0):
                    out.add("p")
            t = t[1]
        return tuple(sorted(out))

    def tag(self, x, c):
        """what an object is made of"""
        if c.fid in self.P.funcs and self.inline(x, c, self.P.funcs[c.fid]):
            return None
        ps = sorted(set(s for a in c.args for s in self.params(a)))
        t = str(c.e.get("t", ""))
        return ("of", c.name, ",".join(map(str, ps)) or "-", t) if ps or c.name == "construct" else None

    def params(self, t):
        for s in subterms(t):
            if s[0] == "p" and s[1].startswith("p") and not s[1].startswith("p0d0"):
                yield int(s[1][1:s[1].index("d")])
            elif s[0] == "r" and len(s) > 2 and isinstance(s[2], tuple) and s[2][0] == "of":
                yield from made(s[2])
            elif s[0] == "o" and len(s) > 2 and isinstance(s[2], tuple) and s[2][0] == "out" and s[2][1][0] == "of":
                yield from made(s[2][1])

    def unsigned(self, t):
        t = unwrap(t)
        ps = self.f.params
        i = int(t[1][1:t[1].index("d")]) if t[0] == "p" and "d" in t[1] else -1
        return 0 <= i < len(ps) and ps[i]["ct"].replace("const ", "").startswith(("unsigned", "bool"))

    def shape(self, t):
        """(kind, parameters) of a stored value"""
        ps = tuple(sorted(set(self.params(t))))
        t = unwrap(t)
        while True:
            if t[0] == "u" and t[1] == "!" and t[2][0] == "u" and t[2][1] == "!":
                t = t[2][2]
            elif t[0] == "b" and t[1] == "!=" and ("c", 0) in (t[2], t[3]):
                t = t[2] if t[3] == ("c", 0) else t[3]
            elif t[0] == "b" and (t[1], t[2]) in (("<", ("c", 0)), ("<=", ("c", 1))) and self.unsigned(t[3]):
                t = t[3]
            elif t[0] == "b" and (t[1], t[3]) in ((">", ("c", 0)), (">=", ("c", 1))) and self.unsigned(t[2]):
                t = t[2]
            elif t[0] == "m" and len(t) >= 3 and (t[1] in ("move", "std::move", "forward", "operator bool", "c_str", "get") or t[1].startswith("new ")):
                t = unwrap(t[2])
            else:
                break
        if t[0] == "p":
            return ("is", ps)
        if t[0] == "r" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "of":
            return ("made " + t[2][3], ps)
        if any(s[0] == "m" and s[1] in ("find", "at", "operator[]", "operator->", "count") for s in subterms(t)):
            return ("found", ps)
        if not ps:
            return ("const", t[1] if t[0] == "c" else None)
        return ("changed", ps)

    def access(self, x, loc, node, write):
        u = self.under(loc)
        return ("deref", u) if u else None

    def assign(self, x, loc, val, n):
        o = self.option(loc)
        if o is None:
            return None
        kind, ps = self.shape(val)
        idx = tuple(p for i in steps(loc)[1] for p in self.params(i))
        return ("write", o, (kind, tuple(sorted(set(ps + idx)))) if idx else (kind, ps), False)

    def call(self, x, c):
        if c.name in STORE and c.obj is not None and c.kind != "ctor":
            o = self.option(unwrap(c.obj))
            if o is not None and c.name != "operator=":
                ps = tuple(sorted(set(p for a in c.args for p in self.params(a))))
                pair = len(c.args) >= 2 or any(s[0] == "r" and len(s) > 2 and isinstance(s[2], tuple) and s[2][0] == "of" and s[2][1] == "make_pair" for a in c.args for s in subterms(a))
                changed = any(self.shape(a)[0] == "changed" for a in c.args)
                if c.name in ("clear", "erase"):
                    return ("empty", o, ps)
                return ("write", o, ("changed" if changed else c.name, ps), c.name in ("emplace", "insert", "try_emplace") and pair)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!=") and ("c", 0) in (t[2], t[3]):
            truth = truth == (t[1] == "!=")
            t = t[2] if t[3] == ("c", 0) else t[3]
            t, truth = not_(t, truth)
        while t[0] == "m" and t[1] in ("operator bool", "load") and len(t) >= 3:
            t = unwrap(t[2])
        if t[0] == "p" and param(t, 0):
            return ("known", "hx", truth)
        if t[0] == "b" and t[1] in LIMITS and self.limits:
            for a, b, flip in ((t[2], t[3], False), (t[3], t[2], True)):
                a = unwrap(a)
                if a[0] == "p" and "d0:" in a[1] and b[0] == "c" and isinstance(b[1], (int, float)):
                    return ("limit", int(a[1][1:a[1].index("d")]), t[1], b[1], flip, truth)
        n, _, r = steps(t)
        if param(r, 0):
            if n == ("p",):
                return ("known", "p", truth)
            if n == ("p", "running"):
                return ("running", truth)
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v[0] == "c" else None)


def setters(P):
    out = [f for f in P.funcs.values() if f.has_cfg and f.file == Set.file and f.params and f.params[0]["ct"] == "hxhim_t *" and not f.d.get("static")]
    if len(out) < 15:
        raise AnalysisBroken("anchor vanished: option setters")
    return sorted(out, key=lambda f: (f.line, f.id))


def options(rep):
    P = rep.prog
    rep.rule("refused", "the options of an instance that does not exist or is running are not touched, and a setter that fails has changed nothing", 2)
    rep.rule("stored", "a setter that succeeds has stored everything it was given, as it was given, replacing what was there before", 1)
    rep.rule("own", "every option is set by its own setter", 1)
    hk = Set(P)
    writes = {}
    for f in setters(P):
        hk.f = f
        A = Interp(P, hk).run(f)
        rep.auto(A)
        wanted = set(range(1, len(f.params)))
        whole = frozenset(s[1] for s in A.symbols() if s[0] in ("write", "empty"))

        def step(st, s):
            hx, p, run, wrote, got, fresh, src = st
            k = s[0]
            if k == "known":
                if s[1] == "hx":
                    if hx not in (None, s[2]):
                        return None
                    return (s[2], p, run, wrote, got, fresh, src)
                if p not in (None, s[2]):
                    return None
                return (hx, s[2], run, wrote, got, fresh, src)
            if k == "running":
                return (hx, p, s[1], wrote, got, fresh, src)
            if k == "deref":
                for u in s[1]:
                    if (hx if u == "hx" else p) is not True:
                        return ("bad", ("refused", "an instance that need not exist is used"))
                return st
            if k in ("write", "empty"):
                if run is not False or p is not True or hx is not True:
                    return ("bad", ("refused", "%s is changed although the instance may be running" % s[1]))
                if k == "empty":
                    return (hx, p, run, wrote | {s[1]}, got, fresh | {s[1]}, src)
                if s[2][0] == "changed":
                    return ("bad", ("stored", "%s is set to something else than what was given" % s[1]))
                if s[3] and s[1] not in fresh:
                    return ("bad", ("stored", "a value of %s that was set before is not replaced" % s[1]))
                w = s[2][1] if isinstance(s[2][1], tuple) else ()
                if s[2][0] == "is" and any(o == s[1] and q != w for o, q in src):
                    return ("bad", ("own", "%s is set twice, from %s" % (s[1], " and ".join(sorted(f.params[i]["name"] for o, q in src | {(s[1], w)} if o == s[1] for i in q)))))
                if s[2][0] == "is":
                    src = src | {(s[1], w)}
                return (hx, p, run, wrote | {s[1]}, got | set(w), fresh, src)
            if k == "exit":
                if s[1] == hk.success:
                    if hx is not True or p is not True or run is not False:
                        return ("bad", ("refused", "an option of an instance that may be running is reported to be set"))
                    if wrote != whole:
                        return ("bad", ("stored", "%s is not set although the setter succeeds" % ", ".join(sorted(whole - wrote))))
                    if not wrote:
                        return ("bad", ("stored", "an option is reported to be set although it is not"))
                    miss = wanted - got
                    if miss:
                        return ("bad", ("stored", "%s is not stored" % ", ".join(f.params[i]["name"] for i in sorted(miss))))
                elif s[1] == hk.error:
                    if wrote:
                        return ("bad", ("refused", "%s is changed although the setter fails" % ", ".join(sorted(wrote))))
                else:
                    return ("bad", ("stored", "whether an option is set is not reported"))
            return st
        for m, pos, tr in typestate(A, (None, None, None, frozenset(), frozenset(), frozenset(), frozenset()), step):
            rep.bad(m[0], at(pos, f), f.qn, m[1], m[1], tr)
        limited(rep, f, A, hk)
        rep.ok("refused", f.id)
        rep.ok("stored", f.id)
        ws = {}
        for s in A.symbols():
            if s[0] == "empty":
                ws.setdefault(s[1], set())
            if s[0] == "write":
                ws.setdefault(s[1], set()).add(s[2])
        writes[f] = ws
        # what is called like an option of this setter is stored there
        leaves = {w.rsplit(".", 1)[-1]: w for w in ws}
        for w, shapes in ws.items():
            for kind, ps in shapes:
                if kind != "is":
                    continue
                for i in ps:
                    n = f.params[i]["name"]
                    if n in leaves and leaves[n] != w and w.rsplit(".", 1)[-1] != n:
                        if not any("is" == k2 and i in p2 for k2, p2 in ws[leaves[n]]):
                            rep.bad("own", f, f.qn, "%s is stored as %s, not as %s" % (n, w, leaves[n]), (w, n))
    fs = list(writes)
    for a in range(len(fs)):
        for b in range(a + 1, len(fs)):
            f, g = fs[a], fs[b]
            if f.name == g.name:
                continue
            both = set(writes[f]) | set(writes[g])
            if set(writes[f]) & set(writes[g]):
                for h in (f, g):
                    for o in sorted(both - set(writes[h])):
                        rep.bad("stored", h, h.qn, "%s is left as it was, although it belongs to what is set" % o, o)
            sf, sg = tuple(p["ct"] for p in f.params), tuple(p["ct"] for p in g.params)
            for o in sorted(set(writes[f]) & set(writes[g])):
                same = {s for s in writes[f][o] & writes[g][o] if s[0] in ("is", "insert", "emplace", "operator[]", "found") or s[0].startswith("made ")}
                if same and sf == sg:
                    rep.bad("own", g, g.qn, "%s is also set by %s" % (o, f.qn), (o, f.qn))
        rep.ok("own", fs[a].id)

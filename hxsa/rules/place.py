"""Where a triple lives: hashing to a datastore id, and the arithmetic between
ranks, range servers and datastores."""
from rules.common import *
from rules.client import explore, at, consts


# -- arithmetic normal form ---------------------------------------------------
def poly(t, atom):
    """integer expression -> {monomial: coefficient}; a monomial is a sorted
    tuple of atoms; quotients and remainders are atoms over normal forms"""
    while t[0] == "v":
        t = t[1]
    if t[0] == "c" and isinstance(t[1], int):
        return {(): t[1]} if t[1] else {}
    if t[0] == "b" and t[1] in ("+", "-", "*", "/", "%"):
        a, b = poly(t[2], atom), poly(t[3], atom)
        if t[1] in "+-":
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0) + (c if t[1] == "+" else -c)
            return remainder({m: c for m, c in out.items() if c})
        if t[1] == "*":
            out = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = tuple(sorted(m + n, key=str))
                    out[k] = out.get(k, 0) + c * d
            return {m: c for m, c in out.items() if c}
        return {(("div" if t[1] == "/" else "mod", freeze(a), freeze(b)),): 1}
    if t[0] == "m" and t[1] == "min":
        return {(("min", frozenset((freeze(poly(t[2], atom)), freeze(poly(t[3], atom))))),): 1}
    return {(atom(t),): 1}


def freeze(p):
    return frozenset(p.items())


def remainder(p):
    """x - (x/y)*y is x%y"""
    for m, c in list(p.items()):
        for n, a in enumerate(m):
            if c == -1 and a[0] == "div":
                y = dict([(m[:n] + m[n + 1:], 1)])
                if freeze(y) != a[2]:
                    continue
                rest = dict(p)
                del rest[m]
                x = dict(a[1])
                if all(rest.get(k) == v for k, v in x.items()):
                    for k in x:
                        del rest[k]
                    k = (("mod", a[1], a[2]),)
                    rest[k] = rest.get(k, 0) + 1
                    return remainder(rest)
    return p


def B(o, a, b):
    return ("b", o, a, b)


def nf(t):
    return freeze(poly(t, lambda x: x))


class Exact(Hooks):
    exact = True
    term_scale = 12

    def __init__(self, prog, inl, role):
        self.relevant = {f.id for f in prog.funcs.values() if f.qn.startswith(inl)}
        self.role = role

    def atom(self, t):
        return ("role", self.role(t)) if self.role(t) else t

    def norm(self, t):
        return freeze(poly(t, self.atom))

    def cond(self, x, t, truth, node):
        while True:
            if t[0] == "u" and t[1] == "!":
                t, truth = t[2], not truth
            elif t[0] == "v":
                t = t[1]
            else:
                break
        if t[0] == "b" and t[1] in ("<", ">", "<=", ">=", "==", "!="):
            a, b, o = t[2], t[3], t[1]
            if o in ("==", "!="):
                if ("c", 0) in (a, b):
                    return ("nz", self.norm(b if a == ("c", 0) else a), truth == (o == "!="))
                return ("eq", frozenset((self.norm(a), self.norm(b))), truth == (o == "=="))
            if o in (">", "<="):
                a, b = b, a
            lt = o in ("<", ">")
            return ("lt", self.norm(a), self.norm(b), truth if lt else not truth)
        return ("nz", self.norm(t), truth)

    def result(self, x, c):
        if c.name in ("min", "max") and len(c.args) == 2 and c.qn.startswith("std::"):
            return ("rv", ("m", c.name) + tuple(x.rd(a) if a[0] in ("L", "f", "d", "e", "g") else a for a in c.args))
        return None

    def exit(self, x, v):
        return ("exit", v)


def paths(A, limit=20000):
    """every cycle-free path: (symbols in order, last position)"""
    out = []
    todo = [(A.start, (), frozenset([A.start]), None)]
    while todo:
        c, syms, seen, pos = todo.pop()
        if c in A.accept:
            out.append((syms, pos))
            if len(out) > limit:
                raise AnalysisBroken("too many paths")
        for s, t, p in A.edges.get(c, ()):
            if t not in seen:
                todo.append((t, syms + ((s,) if s is not None else ()), seen | {t}, p or pos))
    return out


RANK, ID, SIZE, OFF, C, S, PER = (("role", n) for n in ("rank", "id", "size", "offset", "client", "server", "per"))
cC, cS, cPER, cRANK, cID, cSIZE, cOFF = (nf(x) for x in (C, S, PER, RANK, ID, SIZE, OFF))
ZERO = nf(("c", 0))
DIVS = {cC: "client ratio", cS: "server ratio", cPER: "number of datastores per server"}
SERVER_ID = B("+", B("*", B("/", RANK, C), S), B("%", RANK, C))


def rank_of(i):
    return B("+", B("*", B("/", i, S), C), B("%", i, S))


FORMS = {   # (what, has per): (all ranks are servers, only some are)
    ("get_id", False): (RANK, SERVER_ID),
    ("get_id", True): (B("+", B("*", RANK, PER), OFF), B("+", B("*", SERVER_ID, PER), OFF)),
    ("get_rank", False): (ID, rank_of(ID)),
    ("get_rank", True): (B("/", ID, PER), rank_of(B("/", ID, PER))),
}


def divisors(t):
    out = set()
    for m, _ in (t if isinstance(t, frozenset) else ()):
        for a in m:
            if isinstance(a, tuple) and a and a[0] in ("div", "mod"):
                out.add(a[2])
                out |= divisors(a[1]) | divisors(a[2])
            elif isinstance(a, tuple) and a and a[0] == "min":
                for x in a[1]:
                    out |= divisors(x)
    return out


def guarded(syms, val):
    """a ratio divided by on the path before it is known to be nonzero"""
    nz = set()
    for s in syms:
        used = set()
        for x in s[1:]:
            used |= divisors(x)
        if s[0] != "exit":
            for d in used:
                if d in DIVS and d not in nz:
                    return DIVS[d]
        if s[0] == "nz" and s[2]:
            nz.add(s[1])
        if s[0] == "lt" and s[1] == ZERO and s[3]:
            nz.add(s[2])
    for d in divisors(val):
        if d in DIVS and d not in nz:
            return DIVS[d]
    return None


def role_names(fn):
    """parameter number -> role, from the order and types"""
    ps = [p["t"].replace("const ", "").strip() for p in fn.params]
    if not ps or "int" not in ps[0]:
        return None
    first = "id" if fn.name == "get_rank" else "rank"
    ds = "::Datastore::" in fn.qn
    out, rest = {0: first}, list(range(1, len(ps)))
    if fn.name == "get_id" and ds:
        out[rest.pop(0)] = "offset"
    tail = ["client", "server"] + (["per"] if ds else [])
    if len(rest) == len(tail) + 1:
        out[rest.pop(0)] = "size"
    if len(rest) != len(tail):
        return None
    out.update(zip(rest, tail))
    return out


def pindex(t):
    while t[0] == "v":
        t = t[1]
    if t[0] == "p" and t[1].startswith("p"):
        return int(t[1].split("d")[0][1:])
    return None


def mapping(rep):
    P = rep.prog
    OK, ERR = consts(P)
    rep.rule("forms", "ranks, range server ids and datastore ids are computed from each other by the documented arithmetic, so that converting there and back is the identity", 8)
    rep.rule("refused", "an id or rank is refused exactly when it is out of range or not a server", 8)
    rep.rule("divide", "no ratio is divided by before it is known not to be zero", 8)
    rep.rule("totals", "the number of range servers counts every server rank, and each has the configured number of datastores with consecutive ids starting at its own", 4)
    rep.rule("routing", "the rank a request is sent to and the datastore it is given to there are those of its datastore id", 6)
    INL = ("hxhim::Datastore::get_", "hxhim::RangeServer::", "hxhim::nocheck::")
    fns = [f for f in P.funcs.values() if f.has_cfg and f.name in ("get_id", "get_rank", "is_range_server") and f.qn.startswith(("hxhim::Datastore::", "hxhim::RangeServer::")) and f.params and "hxhim_t" not in f.params[0]["t"]]
    if len(fns) < 10:
        raise AnalysisBroken("only %d rank/id conversions" % len(fns))
    for f in sorted(fns, key=lambda f: (f.qn, len(f.params))):
        roles = role_names(f)
        if roles is None:
            raise AnalysisBroken("signature of %s" % f.id)
        who = "%s/%d" % (f.qn, len(f.params))
        hk = Exact(P, INL, lambda t: roles.get(pindex(t)))
        A = Interp(P, hk).run(f)
        rep.auto(A)
        sized, per, isrs = "size" in roles.values(), "per" in roles.values(), f.name == "is_range_server"
        subj = cID if f.name == "get_rank" else cRANK
        seen = set()
        for syms, pos in paths(A):
            facts = {s[:-1]: s[-1] for s in syms if s[0] in ("lt", "nz")}
            val = hk.norm(syms[-1][1])
            d = guarded(syms[:-1], val)
            if d:
                rep.bad("divide", f, f.qn, "the %s may be zero where it is divided by" % d, "div|%s|%s" % (who, d))
            notall = facts.get(("lt", cS, cC))
            noserver = facts.get(("lt", nf(B("%", RANK, C)), cS)) is False
            bad = facts.get(("lt", subj, ZERO)) or any(facts.get(("nz", z)) is False for z in DIVS) or facts.get(("lt", cOFF, cPER)) is False
            if not bad and sized:
                bad = facts.get(("lt", cRANK, cSIZE)) is False or any(k[0] == "lt" and k[2] == cSIZE and v is False for k, v in facts.items())
            if isrs:
                t = syms[-1][1]
                if val == nf(("c", -1)):
                    if not bad:
                        rep.bad("refused", f, f.qn, "a valid rank is refused", "r|" + who)
                    continue
                want = facts.get(("lt", nf(B("%", RANK, C)), cS))
                if t[0] == "b":
                    e = hk.cond(None, t, True, None)
                    if e[:3] == ("lt", nf(B("%", RANK, C)), cS):
                        want = "value"
                        ok = e[3]
                    else:
                        ok = False
                else:
                    ok = want is not None and val == nf(("c", 1 if want else 0))
                if not ok:
                    rep.bad("forms", f, f.qn, "whether a rank is a range server is not rank % client ratio < server ratio", "isrs|" + who)
                if bad:
                    rep.bad("refused", f, f.qn, "an invalid rank is accepted", "a|" + who)
                seen.add("some")
                continue
            if val == nf(("c", -1)):
                if not bad and not (f.name == "get_id" and notall and noserver):
                    rep.bad("refused", f, f.qn, "a valid %s is refused" % roles[0], "r|" + who)
                continue
            allf, somef = FORMS[(f.name, per)]
            if val == nf(allf) and notall is False:
                seen.add("all")
            elif val == nf(somef) and notall is True:
                seen.add("some")
                if f.name == "get_id" and not facts.get(("lt", nf(B("%", RANK, C)), cS)):
                    rep.bad("refused", f, f.qn, "a rank that is no range server gets an id", "n|" + who)
            else:
                rep.bad("forms", f, f.qn, "%s is computed as %s when %s" % ("the id" if f.name == "get_id" else "the rank", show(syms[-1][1])[:120], {True: "only some ranks are servers", False: "all ranks are servers"}.get(notall, "the ratios were not compared")), "f|%s|%s" % (who, notall))
            if bad:
                rep.bad("refused", f, f.qn, "an invalid %s is accepted" % roles[0], "a|" + who)
            need = [("lt", subj, ZERO)] + ([("lt", cOFF, cPER)] if "offset" in roles.values() else [])
            for n in need:
                if n not in facts:
                    rep.bad("refused", f, f.qn, "a %s is not checked" % ("negative " + roles[0] if n[2] == ZERO else "too large offset"), "u|%s|%s" % (who, n[1]))
            if sized and not any(k[0] == "lt" and k[2] == cSIZE for k in facts):
                rep.bad("refused", f, f.qn, "a rank beyond the number of ranks is not refused", "s|" + who)
        if seen != ({"some"} if isrs else {"all", "some"}):
            rep.bad("forms", f, f.qn, "no path computes the case: %s" % sorted({"all", "some"} - seen), "m|" + who)
        for r in ("forms", "refused", "divide"):
            rep.ok(r, who)

    # -- the session's own tables ------------------------------------------------
    FIELD = {("bootstrap", "size"): "size", ("bootstrap", "rank"): "rank", ("range_server", "client_ratio"): "client", ("range_server", "server_ratio"): "server",
             ("datastores", "per_server"): "per", ("datastores", "total"): "total"}

    def frole(t):
        fs = fields(t)[0]
        return FIELD.get(fs[-2:]) if t[0] == "f" else None

    class Session(Exact):
        def assign(self, x, loc, val, n):
            fs = fields(loc)[0]
            nm = fs[-1] if fs else leaf(loc)
            if loc[0] == "L" and loc[1] == 0 and name(loc) in names and n["decl"]:
                return ("first", self.norm(val), val)
            return ("set", nm, self.norm(val), val) if nm in ("total", "total_range_servers", "id") and loc[0] == "f" else None

        def call(self, x, c):
            if c.qn == "Datastore::Init" and len(c.args) > 1:
                return ("init", self.norm(c.args[1]), c.args[1])
            return None
    f = P.by_qn["hxhim::init::datastore"][0]
    names, steps = datastore_ids(P, f)
    hk = Session(P, INL, frole)
    A = Interp(P, hk).run(f)
    rep.auto(A)
    allrs = nf(SIZE)
    somers = nf(B("+", B("*", S, B("/", SIZE, C)), ("m", "min", B("%", SIZE, C), S)))
    got = {}
    for syms, pos in paths(A):
        notall, last = None, {}
        for s in syms:
            if s[0] == "lt" and s[1:3] == (cS, cC):
                notall = s[3]
            if s[0] == "lt" and s[1:3] == (cC, cS) and notall is None:
                notall = None if not s[3] else False
            if s[0] == "set":
                last[s[1]] = (s[2], s[3])
        if syms[-1][1] != ("c", OK) and "total" not in last:
            continue
        if "total_range_servers" not in last or "total" not in last:
            rep.bad("totals", f, f.qn, "the number of range servers or datastores is not set", "unset")
            continue
        rs, tot = last["total_range_servers"], last["total"]
        want = somers if notall else allrs
        if notall is None or rs[0] != want:
            rep.bad("totals", f, f.qn, "the number of range servers is computed as %s" % show(rs[1])[:140], "rs|%s" % notall)
        if tot[0] != hk.norm(B("*", rs[1], ("f", ("f", ("d", ("p", "p0")), "datastores"), "per_server"))):
            rep.bad("totals", f, f.qn, "the number of datastores is computed as %s" % show(tot[1])[:140], "ds")
        got[notall] = 1
        if "id" in last:
            got["id"] = 1
            i = last["id"][0]
            if i not in (cRANK, nf(SERVER_ID), nf(("c", -1))):
                rep.bad("totals", f, f.qn, "the range server's id is %s" % show(last["id"][1])[:140], "id")
        firsts = [s for s in syms if s[0] == ("first" if names else "init")]
        if firsts:
            got["init"] = 1
            if firsts[0][1] not in {nf(B("*", RANK, PER)), nf(B("*", SERVER_ID, PER)), nf(("c", -1))}:
                rep.bad("totals", f, f.qn, "the first datastore's id is %s" % show(firsts[0][2])[:140], "first")
    # consecutive ids
    if steps != {1}:
        rep.bad("totals", f, f.qn, "the ids of a rank's datastores are not consecutive (%s)" % sorted(map(str, steps)), "steps")
    for k in (True, False, "id", "init"):
        if k in got:
            rep.ok("totals", "%s: %s" % (f.qn, k))
        else:
            rep.bad("totals", f, f.qn, "no path sets up the case %s" % k, "miss|%s" % k)

    # -- routing -----------------------------------------------------------------
    f = P.by_qn["hxhim::init::queues"][0]

    class Table(Hooks):
        relevant = set()

        def tag(self, x, c):
            return ("rankof", tuple(c.args), c.fid) if c.qn == "hxhim::Datastore::get_rank" else None

        def assign(self, x, loc, val, n):
            if loc[0] == "e" and "ds_to_rank" in fields(loc)[0]:
                return ("route", loc[2], val)
            if loc[0] == "L" and (n["op"] in ("++", "post++", "pre++", "+=", "-=", "--") or n["decl"] or n["op"] == "="):
                if val[0] == "c":
                    return ("from", str(loc[-1]).split(":")[-1], val[1])
                if val[0] == "b" and val[1] in ("+", "-") and val[3][0] == "c":
                    return ("by", str(loc[-1]).split(":")[-1], val[3][1] if val[1] == "+" else -val[3][1])
            return None

        def cond(self, x, t, truth, n):
            if t[0] == "b" and t[1] in ("<", "!=") and fields(t[3])[0][-2:] == ("datastores", "total"):
                return ("until", t[2], truth)
            return None
    A = Interp(P, Table()).run(f)
    rep.auto(A)
    routes = [s for s in A.symbols() if s[0] == "route"]
    for s in routes:
        v, ix = s[2], s[1]
        nm = str(ix[-1]).split(":")[-1].rstrip("'")
        msg = None
        if v[0] != "r" or len(v) < 3 or v[2][0] != "rankof":
            msg = "the rank of a datastore is %s" % show(v)[:100]
        else:
            a = v[2][1]
            order = [frole(t) or ("id" if t == ix else "?") for t in a]
            roles = role_names(P.funcs[v[2][2]])
            if order != [roles[n] for n in range(len(a))]:
                msg = "the rank of a datastore is looked up with (%s)" % ", ".join(order)
        if not any(u[0] == "until" and u[1] == ix for u in A.symbols()):
            msg = msg or "the routing table is not filled up to the number of datastores"
        if ("from", nm, 0) not in A.symbols() or {y[2] for y in A.symbols() if y[0] == "by" and y[1] == nm} != {1}:
            msg = msg or "the routing table is not filled for every datastore"
        if msg:
            rep.bad("routing", f, f.qn, msg, msg)
    if not routes:
        rep.bad("routing", f, f.qn, "the routing table is never filled", "noroute")
    rep.ok("routing", f.qn)
    # the datastore at the destination
    n = 0
    for g in P.funcs.values():
        if not g.has_cfg:
            continue
        for e in g.exprs:
            if e["k"] == "call" and e.get("qn", "").endswith("Datastore::operate") and "Datastore" in e.get("qn", ""):
                n += 1
                self_rooted(rep, P, g, frole)
                break
    if n < 5:
        raise AnalysisBroken("only %d callers of Datastore::operate" % n)
    f = P.by_qn["hxhim::nocheck::GetDatastoreLocation"][0]
    hk = Location(P, INL, lambda t: frole(t) or ("id" if pindex(t) == 1 else None))
    A = Interp(P, hk).run(f)
    rep.auto(A)
    okr = {nf(FORMS[("get_rank", True)][0]), nf(FORMS[("get_rank", True)][1])}
    for s in sorted(A.symbols(), key=str):
        if s[0] == "out" and s[1] == 3 and s[2] != nf(B("%", ID, PER)):
            rep.bad("routing", f, f.qn, "the offset of a datastore is %s" % show(s[3])[:100], "off")
        if s[0] == "out" and s[1] == 2 and s[2] not in okr and s[2] != nf(("c", -1)):
            rep.bad("routing", f, f.qn, "the rank of a datastore is %s" % show(s[3])[:140], "loc")
    if {s[1] for s in A.symbols() if s[0] == "out"} != {2, 3}:
        rep.bad("routing", f, f.qn, "rank and offset are not both reported", "both")
    rep.ok("routing", f.qn)


class Location(Exact):
    def assign(self, x, loc, val, n):
        if loc[0] == "d" and pindex(loc[1]) is not None:
            return ("out", pindex(loc[1]), self.norm(val), val)
        return None


def datastore_ids(P, f):
    """by how much the id given to Datastore::Init advances between calls"""
    class Ids(Hooks):
        relevant = set()

        def call(self, x, c):
            return ("init", c.args[1]) if c.qn == "Datastore::Init" else None

        def assign(self, x, loc, val, n):
            if loc[0] == "L" and not n["decl"]:
                b, o = linear(val)
                if b[0] in ("phi", "L", "r", "j") and o:
                    return ("by", loc, o)
            return None
    A = Interp(P, Ids()).run(f)
    args = [s[1] for s in A.symbols() if s[0] == "init"]
    out, names = set(), set()
    for a in args:
        b, o = linear(a)
        names.add(name(b))
        out |= {s[2] for s in A.symbols() if s[0] == "by" and name(s[1]) == name(b)} or {"?"}
    return names - {"?"}, out or {"none"}


def name(t):
    return str(t[-1]).split(":")[-1].rstrip("'") if t[0] in ("L", "phi", "j") else "?"


def self_rooted(rep, P, g, frole):
    class Op(Hooks):
        relevant = set()

        def call(self, x, c):
            if c.name == "operate" and c.obj is not None:
                return ("operate", c.obj, c.args[0] if c.args else None)
            return None
    A = Interp(P, Op()).run(g)
    rep.auto(A)
    for s in sorted(A.symbols(), key=str):
        o, msg = s[1], None
        while o[0] in ("d", "v"):
            o = o[1]
        if o[0] != "e" or "ds" not in fields(o)[0]:
            msg = "the request is given to %s" % show(o)[:100]
        else:
            want = freeze(poly(B("%", ("dst",), PER), lambda t: t))
            have = freeze(poly(o[2], lambda t: ("role", frole(t)) if frole(t) else ("dst",) if fields(t)[0][-1:] == ("dst",) and mentions(t, s[2]) else t))
            if have != want:
                msg = "the datastore at the destination is chosen as number %s" % show(o[2])[:100]
        if msg:
            rep.bad("routing", g, g.qn, msg, msg)
    rep.ok("routing", "%s(%s)" % (g.qn, g.params[-1]["t"]))


# -- hashing -------------------------------------------------------------------
def hashing(rep):
    P = rep.prog
    OK, ERR = consts(P)
    rep.rule("bounds", "an item is queued only after the datastore chosen for it was checked to exist", 40)
    rep.rule("range", "every hash function supplied with the library answers the number of an existing datastore", 9)
    rep.rule("pure", "the datastore a supplied hash function chooses depends on nothing but the key, its arguments and what stays fixed while the session is open", 9)
    rep.rule("dispatch", "the session's hash function is called with the key and with the extra arguments it was registered with", 1)
    for f, cls, bulk, roles, typed, A in explore(rep):
        if cls == "BHistogram":
            continue

        def step(st, s):
            if s[0] == "dead":
                return None
            if s[0] == "hashneg":
                return st | {"pos"} if not s[1] else frozenset()
            if s[0] == "hashlow":
                return st | {"low"} if s[1] else frozenset()
            if s[0] in ("item", "want"):
                return frozenset()
            if s[0] == "add" and s[2] and s[2][1][0] == "hash" and len(st) < 2:
                return ("bad", "an item is queued for a datastore whose number was not checked to be " + ("below the number of datastores" if "pos" in st else "positive"))
            return st
        for m, pos, tr in typestate(A, frozenset(), step):
            rep.bad("bounds", at(pos, f), f.qn, m, m, tr)
        rep.ok("bounds", f.qn)
    sig = P.by_qn["hxhim_hash"][0]
    fns = [f for f in P.funcs.values() if f.has_cfg and f.qn.startswith("hxhim_hash_") and len(f.params) == 6]
    if len(fns) < 5:
        raise AnalysisBroken("only %d hash functions" % len(fns))
    for f in sorted(fns, key=lambda f: f.qn):
        class Hk(Exact):
            exact = False

            def __init__(self):
                Exact.__init__(self, P, ("hxhim::nocheck::",), lambda t: None)
                self.cond = lambda *a: None
        A = Interp(P, Hk()).run(f)
        rep.auto(A)
        for v in A.accept.values():
            if v[0] == "c" and v[1] == 0:
                continue
            if v[0] == "b" and v[1] == "%" and fields(v[3])[0][-2:] == ("datastores", "total"):
                continue
            rep.bad("range", f, f.qn, "the answer is %s, not reduced to the number of datastores" % show(v)[:120], "range")
        for g, e in signed_remainders(P, f):
            rep.bad("range", (g.file, e["l"]), f.qn, "the answer is the remainder of a number that may be negative", "signed")
        rep.ok("range", f.qn)
        for g, line, what in impure(P, f):
            rep.bad("pure", (g.file, line), f.qn, what, what)
        rep.ok("pure", f.qn)

    class Disp(Hooks):
        def __init__(self):
            self.relevant = {f.id for f in P.funcs.values() if f.qn.startswith("hxhim::nocheck::")}

        def call(self, x, c):
            if c.kind != "direct" and c.fid is None or c.kind == "indirect":
                return ("indirect", tuple(c.args))
            return None
    A = Interp(P, Disp()).run(sig)
    rep.auto(A)
    calls = [s for s in A.symbols() if s[0] == "indirect"]
    for s in calls:
        a = s[1]
        ok = len(a) == 6 and [pindex(t) for t in a[:5]] == [0, 1, 2, 3, 4] and fields(a[5])[0][-2:] == ("hash", "args")
        if not ok:
            rep.bad("dispatch", sig, sig.qn, "the hash function is called with (%s)" % ", ".join(show(t)[:30] for t in a), "args")
    if not calls:
        rep.bad("dispatch", sig, sig.qn, "the session's hash function is not called", "nocall")
    rep.ok("dispatch", sig.qn)


SIGNED = ("int", "long", "short", "signed char", "char", "long long")


def signed_remainders(P, f):
    """remainders taken in a signed type of a value that is not known to be
    positive"""
    seen, w = set(), [f.id]
    while w:
        i = w.pop()
        if i in seen or i not in P.funcs:
            continue
        seen.add(i)
        g = P.funcs[i]
        for e in g.exprs:
            if e["k"] == "bin" and e["op"] in ("%", "%=") and e["ct"].replace("const ", "") in SIGNED and not positive(g, e["c"][0]):
                yield g, e
            t = e.get("f") or e.get("fid") if e["k"] == "call" else None
            if t and not (e.get("qn") or "").startswith(("std::", "hxhim::nocheck")):
                w.append(t)


def positive(g, i, depth=0):
    """whether an expression cannot be negative"""
    e = g.exprs[i]
    if depth > 8:
        return False
    if isinstance(e.get("v"), int):
        return e["v"] >= 0
    k, c = e["k"], e.get("c") or []
    ct = e["ct"].replace("const ", "")
    if k == "cast":
        s = g.exprs[c[0]]["ct"].replace("const ", "")
        if s in ("unsigned char", "bool", "unsigned short"):
            return True                  # widened
        return positive(g, c[0], depth + 1)
    if k == "bin" and e["op"] == "&":
        return any(positive(g, x, depth + 1) for x in c)
    if ct not in SIGNED:
        return ct in ("unsigned char", "bool", "unsigned short")
    if k == "bin" and e["op"] in ("%", ">>"):
        return positive(g, c[0], depth + 1)
    if k == "bin" and e["op"] in ("+", "*", "/", "|", "^"):
        return all(positive(g, x, depth + 1) for x in c)
    if k == "call":
        return (e.get("qn") or "").split("::")[-1] in ("abs", "labs")
    if k == "ref" and e.get("dk") == "var":
        for x in g.exprs:                # numbers the library itself hands out are not negative
            if x["k"] == "un" and x["op"] == "&" and g.root_var(x["c"][0]) == e["d"]:
                return any(y["k"] == "call" and (y.get("qn") or "").startswith("hxhim::nocheck::") and x in [g.exprs[z] for z in y["c"]] for y in g.exprs)
        for x in g.exprs:                # everything stored in it
            if x["k"] == "bin" and x.get("asg") and g.root_var(x["c"][0]) == e["d"]:
                if x["op"] not in ("=", "+=", "*=", "|=", "&=", "^=", "%=", "/=", ">>=") or not positive(g, x["c"][1], depth + 1):
                    return False
            if x["k"] == "un" and "--" in x["op"] and g.root_var(x["c"][0]) == e["d"]:
                return False
        init = [v for b in g.blocks.values() for el in b["els"] for v in el.get("decl", ()) if v["d"] == e["d"]]
        return all("init" in v and positive(g, v["init"], depth + 1) for v in init)
    return False


def impure(P, f):
    """uses of state other than the parameters, in f and what it calls"""
    seen, w = set(), [f.id]
    while w:
        i = w.pop()
        if i in seen:
            continue
        seen.add(i)
        g = P.funcs[i]
        for e in g.exprs:
            if e["k"] == "ref" and e.get("dk") in ("global", "static") and not e.get("m") and not e["t"].startswith("const "):
                yield g, e["l"], "it depends on the variable %s" % (e.get("qn") or e["name"])
            if e["k"] == "call":
                t = e.get("f") or e.get("fid")
                if t in P.funcs and P.funcs[t].has_cfg:
                    w.append(t)
                elif not e.get("qn", "").startswith(("mlog", "std::mem", "mem", "str")):
                    yield g, e["l"], "it depends on the result of %s" % (e.get("qn") or "an unknown function")

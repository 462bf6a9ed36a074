"""The client side: what the public operations do with what the caller passed,
from the entry point down to the request packet."""
from rules.common import *

REQ = "Message::Request::"
OPS = (("GetOp", "BGetOp"), ("Get", "BGet"), ("Put", "BPut"), ("Delete", "BDelete"), ("Histogram", "BHistogram"))
ENT = ("subject", "predicate", "object")
LETTER = {"S": "subject", "P": "predicate", "O": "object"}


def entries(prog):
    """[(function, op class, bulk)] of the public operations"""
    adds = {f.id for f in prog.funcs.values() if f.name == "add" and f.qn.startswith(REQ)}
    if len(adds) < 5:
        raise AnalysisBroken("request add() routines not found")
    reach = reaching(prog, adds)
    out = []
    for i in reach:
        f = prog.funcs[i]
        if not f.has_cfg or not f.params or "hxhim_t *" not in f.params[0]["t"]:
            continue
        if any("Queue" in p["t"] or "Blob" in p["t"] for p in f.params):
            continue
        n = f.qn[7:] if f.qn.startswith("hxhim::") else f.qn[5:] if f.qn.startswith("hxhim") else ""
        bulk = n.startswith("B") and n[1:2].isupper()
        for pre, cls in OPS:
            if n[bulk:].lower().startswith(pre.lower()):
                out.append((f, cls, bulk))
                break
    if len(out) < 20:
        raise AnalysisBroken("only %d public operations found" % len(out))
    return sorted(out, key=lambda x: x[0].qn)


def norm(t):
    return t.replace("const ", "").replace("enum ", "").replace("std::", "").replace(" const", "").strip()


def api_roles(f, cls, bulk):
    """parameter index -> role, from the order and types of the signature;
    -> (roles, fixed object type or None)"""
    roles, k, last, typed = {0: "hx"}, 0, None, None
    ps = [norm(p["t"]) for p in f.params]
    seen = set()

    def put(n, r):
        roles[n] = r
        seen.add(r)
    if cls == "BHistogram":
        for n, r in zip(range(1, len(ps)), ("rs_id", "name", "name_len", "count")):
            put(n, r)
        return roles, None
    for n, t in enumerate(ps):
        if n == 0:
            continue
        e = t[:-1].strip() if bulk and t.endswith("*") else t
        if e.endswith("*"):
            last = ENT[min(k, 2)]
            k += 1
            put(n, last)
            if e[:-1].strip() in ("double", "float"):
                typed = e[:-1].strip()
        elif "hxhim_data_t" in e:
            put(n, last + "_type" if last + "_type" not in seen and (last != "predicate" or last + "_len" in seen) else "object_type")
        elif "getop" in e:
            put(n, "op")
        elif "permutation" in e:
            put(n, "permutations")
        elif e == "size_t":
            if last and last + "_len" not in seen and ps[n - 1].rstrip("*").strip() in ("void",) and n - 1 in roles and roles[n - 1] == last:
                put(n, last + "_len")
            elif n + 1 < len(ps) and "getop" in ps[n + 1]:
                put(n, "num_records")
            else:
                put(n, "count")
    nm = f.qn.lower()
    if typed is None:
        typed = "double" if nm.endswith("double") else "float" if nm.endswith("float") else None
    return roles, typed


class Api(Hooks):
    term_scale = 6
    max_depth = 9

    def __init__(self, prog, roles):
        self.prog, self.roles = prog, roles
        adds = {f.id for f in prog.funcs.values() if f.name == "add" and f.qn.startswith(REQ)}
        hashes = {f.id for f in prog.by_qn.get("hxhim_hash", [])}
        starts = {f.id for f in prog.by_qn.get("hxhim::started", [])}
        if not hashes or not starts:
            raise AnalysisBroken("hxhim_hash/started not found")
        self.starts = starts
        cons = {f.id for f in prog.funcs.values() if f.name == "construct" and f.has_cfg and any(c.startswith(REQ) for c in self.builds(f))}
        if not cons:
            raise AnalysisBroken("no function constructs request packets")
        anchors = adds | hashes | cons
        self.adds, self.hashes, self.cons = adds, hashes, cons
        flush = {f.id for f in prog.funcs.values() if f.name == "process" and f.qn.startswith("hxhim::")}
        self.relevant = (reaching(prog, adds | hashes, anchors | flush) | (reaching(prog, cons, anchors) & self.below(adds, prog))) - anchors

    @staticmethod
    def builds(f):
        return [e["rec"] for e in f.exprs if e["k"] in ("new", "construct") and e.get("rec")] + list(ptr_class(e["ct"]) for e in f.exprs if e["k"] == "new")

    @staticmethod
    def below(adds, prog):
        return set(i for i, f in prog.funcs.items() if f.has_cfg and any("Queue" in p["t"] or "list<" in p.get("ct", p["t"]) for p in f.params))

    # -- roles of terms ----------------------------------------------------
    def role(self, t):
        """(role, index variable or None)"""
        while t[0] in ("v",):
            t = t[1]
        if t[0] == "p":
            n = int(t[1].split("d")[0][1:]) if t[1].startswith("p") else -1
            return (self.roles.get(n, "?"), None)
        if t[0] == "e":
            b = t[1]
            if b[0] == "d":
                b = b[1]
            if b[0] == "r" and len(b) > 2 and b[2][0] == "fill":
                return (b[2][1], None)
            r = self.role(b)
            return (r[0], self.index(t[2]))
        if t[0] == "c":
            return (("const", t[1]), None)
        return ("?", None)

    def index(self, t):
        b, o = linear(t)
        if b[0] in ("phi", "j", "L"):
            return (str(b[-1]).split(":")[-1].rstrip("'"), o)
        if b[0] == "c":
            return ("#", b[1] + o)
        return ("?", o)

    def blob(self, x, t):
        """the (pointer, length, type) roles of a blob value"""
        for _ in range(6):
            if t[0] == "r" and len(t) > 2 and t[2][0] == "blob":
                return t[2][1:]
            if t[0] == "m" and t[1] == "new Blob" and len(t) >= 5:
                return tuple(self.role(a) for a in t[2:5])
            n = x.rd(t) if t[0] in ("L", "v", "f", "d", "e") else t
            if n == t:
                break
            t = n
        return None

    def tag(self, x, c):
        if c.name in ("ReferenceBlob", "RealBlob") and len(c.args) == 3:
            return ("blob",) + tuple(self.role(a) for a in c.args)
        if c.fid in self.hashes:
            return ("hash", self.part(x, c.args[1]), self.part(x, c.args[2]), self.part(x, c.args[3]), self.part(x, c.args[4]))
        if c.name == "alloc_array" and len(c.args) == 2:
            return ("fill", self.role(c.args[1])[0], self.role(c.args[0])[0])
        if c.fid in self.starts:
            return ("started",)
        if c.fid in self.cons:
            return ("packet", leaf(c.args[0]) if c.args else "?")
        return None

    def part(self, x, t):
        if t[0] == "m" and t[1] in ("data", "size", "data_type") and len(t) > 2:
            b = self.blob(x, t[2])
            return b[("data", "size", "data_type").index(t[1])] if b else ("?", None)
        return self.role(t)

    def queue(self, t):
        """('queue', what selects it) of a packet or queue term"""
        for y in subterms(t):
            if y[0] == "e":
                fs, _ = fields(y[1])
                if "queues" in fs:
                    q = [s for s in fs[fs.index("queues") + 1:]]
                    for z in subterms(y[2]):
                        if z[0] == "r" and len(z) > 2 and z[2][0] == "hash":
                            return (".".join(q), z[2])
                    return (".".join(q), ("direct", self.role(y[2])))
        return None

    def packet(self, t):
        while t[0] in ("v",):
            t = t[1]
        if t[0] == "r" and len(t) > 2 and t[2][0] == "packet":
            return True
        if t[0] == "d":
            t = t[1]
        return t[0] == "m" and t[1] in ("rbegin", "back", "front", "begin") and self.queue(t) is not None

    # -- events --------------------------------------------------------------
    def result(self, x, c):
        if c.name in ("push_back", "emplace_back", "push_front", "emplace_front") and c.obj is not None and self.queue(c.obj):
            return ("rv", ("c", 0))       # the queue keeps its identity
        return None

    def call(self, x, c):
        if c.fid in self.adds:
            at = "?"
            for y in subterms(c.obj):
                if y[0] == "m" and y[1] in ("rbegin", "back", "crbegin"):
                    at = "last"
                elif y[0] == "m" and y[1] in ("front", "begin", "cbegin"):
                    at = "first"
                elif y[0] == "r" and len(y) > 2 and y[2][0] == "packet":
                    at = "new"
            args = []
            for a in c.args:
                b = self.blob(x, a)
                args.append(("blob",) + b if b else self.role(a))
            return ("add", c.qn[len(REQ):-len("::add")], self.queue(c.obj), at, tuple(args))
        if c.fid in self.cons:
            return ("packet", fields(c.args[0])[0][-1:] if c.args else ())
        if c.name in ("push_back", "emplace_back", "push_front", "emplace_front", "insert") and c.obj is not None and self.queue(c.obj):
            return ("queued", c.name, self.queue(c.obj)[1])
        return None

    def cond(self, x, t, truth, node):
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("==", "!=") and ("c", 0) in (t[2], t[3]):
            t, truth = (t[3] if t[2] == ("c", 0) else t[2]), truth == (t[1] == "!=")
        r = self.role(t)
        if r[0] != "?" and not isinstance(r[0], tuple):
            return ("nonzero", r[0], r[1] is not None, truth)
        if t[0] == "r" and len(t) > 2 and t[2][0] == "started":
            return ("started", truth)
        if t[0] == "m" and t[1] == "empty" and self.queue(t):
            return ("qempty", truth)
        if self.packet(t):
            return None if truth else ("dead",)      # queues hold no null packets
        if t[0] == "r" and len(t) > 2 and t[2][0] == "fill":
            return ("nonzero", t[2][1], False, truth) if isinstance(t[2][1], str) else None if truth else ("dead",)
        fs = fields(t)[0]
        if fs[-2:] == ("max_per_request", "size"):
            return ("limited", truth)
        if t[0] == "b" and t[1] == "&":
            a, b = t[2], t[3]
            if self.role(b)[0] == "permutations":
                a, b = b, a
            if self.role(a)[0] == "permutations":
                p = self.perm(b)
                return ("want", p, truth) if p else None
        if t[0] == "b" and t[1] in ("==", "!="):
            a, b = t[2], t[3]
            if a[0] == "c":
                a, b = b, a
            p = self.perm(a)
            if p and b[0] == "c":
                return ("perm", b[1], truth == (t[1] == "=="))
            if t[1] == "==" and self.isperm(a) and b[0] == "c":
                return ("perm", b[1], truth)
        if t[0] == "b" and t[1] in ("<", ">", "<=", ">=", "!="):
            FL = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
            for a, b, op in ((t[2], t[3], t[1]), (t[3], t[2], FL.get(t[1], t[1]))):
                if op in (">=", ">"):
                    o2, tr = {">=": "<", ">": "<="}[op], not truth
                else:
                    o2, tr = op, truth
                # a o2 b == tr
                if a[0] == "r" and len(a) > 2 and a[2][0] == "hash" and b == ("c", 0) and o2 == "<":
                    return ("hashneg", tr)
                if a[0] == "r" and len(a) > 2 and a[2][0] == "hash" and o2 == "<" and b[0] == "m" and b[1] == "size" and "queues" in fields(b[2])[0]:
                    return ("hashlow", tr)
                if self.role(a)[0] == "rs_id" and b == ("c", 0) and o2 == "<":
                    return ("rsneg", self.role(a)[1] is not None, tr)
                if self.role(a)[0] == "rs_id" and o2 == "<":
                    fb = fields(b)[0]
                    if fb:
                        return ("rslow", fb[-1], self.role(a)[1] is not None, tr)
                if self.role(b)[0] == "count" and linear(a)[0][0] in ("phi", "j", "c", "L") and o2 in ("<", "!="):
                    return ("item", self.index(a), node["f"].qn, node["id"], tr)
                fa, fb = fields(a)[0], fields(b)[0]
                if fb[-2:] == ("max_per_request", "ops") and fa[-1:] == ("count",) and self.queue(a):
                    return ("room", tr) if o2 in ("<",) else ("room?", o2, tr)
                if fb[-2:] == ("max_per_request", "size"):
                    sz = any(y[0] in ("m",) and y[1] == "size" and self.queue(y) or y[0] == "r" for y in subterms(a))
                    if sz and o2 in ("<=", "<"):
                        return ("fits", o2, self.sizes(x, a), tr)
                if b[0] == "g" and "PERMUTATIONS" in b[1]:
                    return None
        if self.touches(t):
            return ("other", truth)
        return None

    def sizes(self, x, t):
        """roles of the blobs whose packed size is part of a sum"""
        out = set()
        for y in subterms(t):
            if y[0] == "m" and y[1] == "pack_size":
                b = self.blob(x, y[2])
                out.add(b[0][0] if b else "?")
        return tuple(sorted(map(str, out)))

    def touches(self, t):
        return any(y[0] == "r" and len(y) > 2 and y[2][0] == "hash" for y in subterms(t))

    def perm(self, t):
        """the permutation a term stands for: an element of the constant table or a constant"""
        if t[0] == "c":
            return ("const", t[1])
        for y in subterms(t):
            if y[0] == "e" and (y[1][0] == "g" or y[1] == ("d", ("g", "HXHIM_PUT_PERMUTATIONS"))) and "PERMUTATIONS" in str(y[1]):
                return ("table",) + tuple(self.index(y[2]))
        return None

    def isperm(self, t):
        return "PERMUTATIONS" in str(t) if len(str(t)) < 2000 else False

    def assign(self, x, loc, val, n):
        if loc[0] == "L" and (n["op"] in ("++", "--", "post++", "post--", "pre++", "pre--", "+=", "-=") or n["decl"] or n["op"] == "="):
            nm = str(loc[-1]).split(":")[-1]
            if val[0] == "c" and isinstance(val[1], int):
                return ("set", nm, val[1])
            if val[0] == "b" and val[1] in ("+", "-") and val[3][0] == "c":
                return ("step", nm, val[3][1] if val[1] == "+" else -val[3][1])
        return None


def expected(cls, roles, typed):
    """what add() must be given, per permutation for PUT"""
    def ent(n):
        if n == "object" and typed:
            size = {"double": 8, "float": 4}[typed]
            return ("blob", "object", ("const", size), ("const", "TYPE"))
        return ("blob", n, n + "_len", n + "_type")
    return {n: ent(n) for n in ENT}


def permutations(prog):
    """value -> roles, from the names of the public constants"""
    out = {}
    for a in ("SPO", "SOP", "PSO", "POS", "OSP", "OPS"):
        out[macro_value(prog, "HXHIM_PUT_" + a)] = tuple(LETTER[c] for c in a)
    return out


def explore(rep):
    """automaton of every public operation (shared by the rules)"""
    P = rep.prog
    if not hasattr(P, "_client"):
        out = []
        for f, cls, bulk in entries(P):
            roles, typed = api_roles(f, cls, bulk)
            A = Interp(P, Api(P, roles)).run(f)
            out.append((f, cls, bulk, roles, typed, A))
        P._client = out
    for x in P._client:
        rep.auto(x[-1])
    return P._client


def consts(P):
    return macro_value(P, "HXHIM_SUCCESS"), macro_value(P, "HXHIM_ERROR")


def at(pos, f):
    return pos[:2] if pos else (f.file, f.line)


def required(f, cls, bulk, roles):
    r = {x for n, x in roles.items() if not bulk or norm(f.params[n]["t"]).endswith("*")} - {"hx", "count"}
    if bulk:
        return r | ({"rs_id>=0", "rs_id<n"} if cls == "BHistogram" else set())
    if cls == "BHistogram":
        return {"rs_id>=0", "rs_id<n"}
    need = {"subject", "subject_len"}
    if cls != "BGetOp":
        need |= {"predicate", "predicate_len"}
    if cls == "BPut":
        need |= {"object", "object_len"}
    return need & r


WORD = {"rs_id>=0": "that the range server id is not negative", "rs_id<n": "that the range server id is below the number of range servers", "started": "that the session is open"}


def arguments(rep):
    P = rep.prog
    OK, ERR = consts(P)
    rep.rule("checked", "nothing is queued before the session and every argument it is built from were checked", 40)
    rep.rule("rejected", "an operation is answered with an error only when a check failed, and one rejected for its arguments queues nothing", 40)
    rep.rule("accepted", "an operation is not reported as accepted on a path on which a check or the choice of its datastore failed", 40)
    nperm = len(permutations(P))
    for f, cls, bulk, roles, typed, A in explore(rep):
        need = required(f, cls, bulk, roles) | {"started"}

        def step(st, s):
            chk, fail, added, noperm = st
            k = s[0]
            if k == "dead":
                return None
            if k == "nonzero" and not s[2]:
                if s[3]:
                    chk = chk | {s[1]}
                elif s[1] in need:
                    fail = fail or "arg"
            elif k == "started":
                chk, fail = (chk | {"started"}, fail) if s[1] else (chk, "arg")
            elif k == "rsneg":
                chk, fail = (chk, "arg") if s[2] else (chk | {"rs_id>=0"}, fail)
            elif k == "rslow":
                chk, fail = (chk | {"rs_id<n"}, fail) if s[3] else (chk, "arg")
            elif k == "item" and not s[4]:
                # the checking loop has run over every item (or there is none)
                if bulk and cls == "BHistogram":
                    chk = chk | {"rs_id>=0", "rs_id<n"}
            elif k == "hashneg" and s[1] or k == "hashlow" and not s[1]:
                fail = fail or "hash"
            elif k == "perm":
                noperm = 0 if s[2] else noperm + 1
                if noperm >= nperm:
                    fail = fail or "perm"
            elif k == "want":
                noperm = 0
            elif k == "add":
                miss = sorted(need - chk)
                if miss:
                    return ("bad", "the item is queued without checking " + WORD.get(miss[0], miss[0]))
                added = True
            return (chk, fail, added, noperm)

        def final(st, v):
            chk, fail, added, _ = st
            if v == ("c", OK):
                if fail:
                    return "the operation is reported as accepted although " + {"arg": "an argument check failed", "hash": "no datastore could be chosen for an item", "perm": "a permutation is unknown"}[fail]
            elif v == ("c", ERR):
                if not fail:
                    return "valid arguments are rejected"
                if fail == "arg" and added:
                    return "an operation rejected for its arguments has queued items"
            else:
                return "the operation returns neither success nor error"
        for m, pos, tr in typestate(A, (frozenset(), None, False, 0), step, final):
            r = "checked" if "without" in m else "accepted" if "accepted" in m else "rejected"
            rep.bad(r, at(pos, f), f.qn, m, m, tr)
        for r in ("checked", "rejected", "accepted"):
            rep.ok(r, f.qn)


def forwarding(rep):
    P = rep.prog
    OK, ERR = consts(P)
    types = enumerators(P, "HXHIM_DATA_")
    rep.rule("triple", "what is queued is exactly the subject, predicate and object (pointer, length and type) the caller passed, under the operation the function is named after", 40)
    rep.rule("once", "an accepted operation queues every one of its items exactly once, in the caller's order", 40)
    rep.rule("target", "the datastore an item is queued for is chosen from the very subject and predicate that are queued", 40)
    for f, cls, bulk, roles, typed, A in explore(rep):
        want = expected(cls, roles, typed)
        idxs = set()

        def blobrole(b, n):
            """complaint about a queued blob standing for entity n"""
            if b[0] != "blob":
                return "something else than a blob is queued"
            w = want[n]
            for g, x in zip(b[1:], w[1:]):
                if g[1] is not None:
                    idxs.add(g[1])
                if x == ("const", "TYPE"):
                    x = ("const", types["HXHIM_DATA_" + typed.upper()])
                if g[0] != x:
                    return "the %s is queued with %s as its %s" % (n, g[0] if isinstance(g[0], str) else g[0][1], ("pointer", "length", "type")[w[1:].index(x) if x in w[1:] else 2])
            return None
        adds = sorted({(s, pos) for es in A.edges.values() for s, _, pos in es if s and s[0] == "add"}, key=str)
        if not adds:
            rep.bad("triple", f, f.qn, "nothing is ever queued", "none")
        for s, pos in adds:
            args = s[4]
            if s[1] != cls:
                rep.bad("triple", at(pos, f), f.qn, "a %s is queued as a %s" % (cls[1:], s[1][1:]), "class")
                continue
            if s[2] is None:
                rep.bad("target", at(pos, f), f.qn, "the item is not added to a queued packet", "queue")
                continue
            msgs = []
            if cls == "BPut":
                who = [b[1][0] if b[0] == "blob" else "?" for b in args[:3]]
                if sorted(who) != sorted(ENT):
                    msgs.append("the queued triple is (%s)" % ", ".join(map(str, who)))
                else:
                    msgs += [blobrole(b, n) for b, n in zip(args, who)]
            elif cls == "BHistogram":
                b = args[0]
                g = [x[0] for x in b[1:]]
                if g[:2] != ["name", "name_len"] or g[2] != ("const", types["HXHIM_DATA_BYTE"]):
                    msgs.append("the histogram name is queued as (%s)" % (g,))
                idxs.update(x[1] for x in b[1:] if x[1] is not None)
                if s[2][1][0] != "direct" or s[2][1][1][0] != "rs_id":
                    rep.bad("target", at(pos, f), f.qn, "the histogram is not queued for the range server that was named", "rs")
                elif s[2][1][1][1] is not None:
                    idxs.add(s[2][1][1][1])
            else:
                msgs += [blobrole(b, n) for b, n in zip(args[:2], ENT)]
                rest = list(args[2:])
                exp = []
                if cls in ("BGet", "BGetOp"):
                    exp.append(("const", types["HXHIM_DATA_" + typed.upper()]) if typed else "object_type")
                if cls == "BGetOp":
                    exp += ["num_records", "op"]
                for a, e in zip(rest, exp):
                    if a[1] is not None:
                        idxs.add(a[1])
                    if a[0] != e:
                        msgs.append("%s is queued where %s belongs" % (a[0], e))
                if len(rest) != len(exp):
                    msgs.append("the item is queued with %d extra values" % len(rest))
            for m in msgs:
                if m:
                    rep.bad("triple", at(pos, f), f.qn, m, m)
            if cls != "BHistogram":
                h = s[2][1]
                exp = tuple(x for b in args[:2] if b[0] == "blob" for x in b[1:3])
                if h[0] != "hash":
                    rep.bad("target", at(pos, f), f.qn, "the datastore is not chosen by the hash", "nohash")
                elif h[1:] != exp:
                    rep.bad("target", at(pos, f), f.qn, "the datastore is chosen from (%s), the item queued there is (%s)" % (", ".join(str(x[0]) for x in h[1:]), ", ".join(str(x[0]) for x in exp)), "hash")
        names = {i[0] for i in idxs}
        if bulk and (len(names) != 1 or any(i[1] for i in idxs) or names & {"?", "#"}):
            rep.bad("once", f, f.qn, "the item mixes elements of different positions (%s)" % sorted(map(str, idxs)), "index")
        for s in A.symbols():
            if bulk and s[0] == "set" and s[1] in names and s[2] != 0:
                rep.bad("once", f, f.qn, "the loop over the items starts at %s" % s[2], "start")
            if bulk and s[0] == "step" and s[1] in names and s[2] != 1:
                rep.bad("once", f, f.qn, "the loop over the items advances by %s" % s[2], "step")
        # every item once
        per = {}

        def step(st, s):
            loop, n, bad, vis = st
            k = s[0]
            if k == "dead":
                return None
            if k == "item":
                if loop is not None:
                    per.setdefault(loop, set()).add((n, bad))
                return (s[2:4], 0, False, vis | {s[2:4]}) if s[4] else (None, 0, False, vis | {s[2:4]})
            if k == "hashneg" and s[1] or k == "hashlow" and not s[1]:
                return (loop, n, True, vis)
            if k == "add":
                if bulk and loop is None:
                    return ("bad", "an item is queued outside the loop over the caller's items")
                if cls != "BPut" and n:
                    return ("bad", "an item is queued twice")
                return (loop, 1, bad, vis)
            return st

        def final(st, v):
            if v == ("c", OK) and not bulk and cls != "BPut" and not st[1]:
                return "an accepted operation is not queued"
            if v == ("c", OK) and bulk and not (adding & st[3]):
                return "an accepted operation skips its items"
        adding = set()
        typestate(A, (None, 0, False, frozenset()), step)
        adding = {l for l, x in per.items() if any(n for n, _ in x)}
        for m, pos, tr in typestate(A, (None, 0, False, frozenset()), step, final):
            rep.bad("once", at(pos, f), f.qn, m, m, tr)
        if bulk and not adding:
            rep.bad("once", f, f.qn, "no loop over the caller's items queues them", "noloop")
        if cls != "BPut":
            for l in adding:
                if (0, False) in per[l]:
                    rep.bad("once", f, f.qn, "some item of an accepted operation is not queued", "skip")
        for r in ("triple", "once", "target"):
            rep.ok(r, f.qn)


def put_permutations(rep):
    P = rep.prog
    OK, ERR = consts(P)
    perms = permutations(P)
    rep.rule("arrangement", "each permutation stores exactly the arrangement it is named after", 6)
    rep.rule("selection", "an arrangement is stored if and only if its bit was requested, once per item", 8)
    rep.rule("table", "the table of permutations lists every permutation once", 1)
    n = 0
    for f, cls, bulk, roles, typed, A in explore(rep):
        if cls != "BPut":
            continue
        seen = set()

        def step(st, s):
            cur, want, n, none = st
            k = s[0]
            if k == "dead":
                return None
            if k == "want":
                if want is True and n == 0:
                    return ("bad", "a requested permutation is not stored")
                return (None, s[2], 0, 0)
            if k == "perm":
                if s[2]:
                    return (s[1], want, n, 0)
                return (cur, want, n, none + 1) if none + 1 < len(perms) else (cur, None, n, 0)   # not a permutation: the operation fails (P04)
            if k == "hashneg" and s[1] or k == "hashlow" and not s[1]:
                return (cur, None, 0, 0)
            if k == "item":
                if want is True and n == 0:
                    return ("bad", "a requested permutation is not stored")
                return (None, None, 0, 0)
            if k == "add":
                if want is not True:
                    return ("bad", "an arrangement is stored although its permutation was not requested")
                if n:
                    return ("bad", "an arrangement is stored twice")
                who = tuple(b[1][0] if b[0] == "blob" else "?" for b in s[4][:3])
                if cur is None or who != perms.get(cur):
                    return ("bad", "permutation %s stores (%s)" % ("".join(x[0] for x in perms[cur]).upper() if cur in perms else cur, ", ".join(map(str, who))))
                seen.add(cur)
                return (cur, want, 1, 0)
            return st

        def final(st, v):
            if v == ("c", OK) and st[1] is True and not st[2]:
                return "a requested permutation is not stored"
        for m, pos, tr in typestate(A, (None, None, 0, 0), step, final):
            rep.bad("arrangement" if "permutation " in m and " stores (" in m else "selection", at(pos, f), f.qn, m, m, tr)
        rep.ok("selection", f.qn)
        for v, who in perms.items():
            if v in seen:
                rep.ok("arrangement", "%s: %s" % (f.qn, "".join(x[0] for x in who).upper()))
            else:
                rep.bad("arrangement", f, f.qn, "permutation %s is never stored" % "".join(x[0] for x in who).upper(), "never|%d" % v)
        tables = {s[1][1:] for s in A.symbols() if s[0] == "want" and s[1][0] == "table"}
        for s in A.symbols():
            if s[0] in ("set", "step") and s[1] in {t[0] for t in tables}:
                if s[0] == "set" and s[2] != 0 or s[0] == "step" and s[2] != 1:
                    rep.bad("selection", f, f.qn, "the loop over the permutations does not visit each (%s %s)" % (s[0], s[2]), "range")
        if any(t[1] for t in tables):
            rep.bad("selection", f, f.qn, "the permutation tested is not the one at the loop's position", "offset")
    g = P.glob_by_qn.get("HXHIM_PUT_PERMUTATIONS")
    g = g[0] if isinstance(g, list) else g
    if not g:
        raise AnalysisBroken("no HXHIM_PUT_PERMUTATIONS")
    vals = [e["v"] for e in g["exprs"] if e["k"] == "lit" and "v" in e]
    if sorted(vals) != sorted(perms):
        rep.bad("table", (g["file"], g["line"]), "HXHIM_PUT_PERMUTATIONS", "the table holds %s" % vals, "table")
    rep.ok("table", "HXHIM_PUT_PERMUTATIONS")


def packets(rep):
    P = rep.prog
    rep.rule("room", "an item is only added to the newest packet of its queue, and only if that packet is new or has a free slot", 40)
    rep.rule("limit", "when a size limit is set, an item is added to an existing packet only if the packet's size with the whole item added stays within the limit", 40)
    rep.rule("capacity", "a new packet is made with the configured number of slots and appended to the queue of the item's datastore", 40)
    for f, cls, bulk, roles, typed, A in explore(rep):
        if not any(s[0] == "packet" for s in A.symbols()):
            rep.bad("capacity", f, f.qn, "no packet is ever made", "none")

        def step(st, s):
            facts, lim, fit, new = st
            k = s[0]
            if k == "dead":
                return None
            if k == "qempty":
                return (facts | {"some"} if not s[1] else facts, lim, fit, new)
            if k == "room":
                return (facts | {"room"} if s[1] else facts - {"room"}, lim, fit, new)
            if k == "limited":
                return (facts, s[1], fit, new)
            if k == "fits":
                return (facts, lim, s[2] if s[3] else None, new)
            if k == "packet":
                if s[1] != ("ops",):
                    return ("bad", "a packet is made with %s instead of the configured number of slots" % (s[1] or "something else",))
                return (facts, lim, fit, "made")
            if k == "queued":
                if new == "made" and s[1].endswith("back"):
                    return (facts, lim, fit, ("last", s[2]))
                return (facts, lim, fit, ("first", s[2]) if new == "made" else new)
            if k == "add":
                if s[3] not in ("last", "new"):
                    return ("bad", "the item is not added to the newest packet of its queue")
                if isinstance(new, tuple):
                    if new[0] == "first":
                        return ("bad", "a new packet is put before the packets already queued")
                    if s[2] and new[1] != s[2][1]:
                        return ("bad", "the new packet is queued for another datastore")
                elif new == "made":
                    return ("bad", "a new packet is never queued")
                else:
                    if not {"some", "room"} <= facts:
                        return ("bad", "an item is added to an existing packet that may have no free slot")
                    if lim is not False:
                        if fit is None:
                            return ("bad", "an item is added to an existing packet without regard to the size limit")
                        whole = {b[1][0] for b in s[4] if b[0] == "blob"}
                        if not whole <= set(fit):
                            return ("bad", "the size limit is checked without the item's %s" % ", ".join(sorted(whole - set(fit))))
                return (frozenset(), None, None, None)
            if k in ("item", "want"):
                return (frozenset(), None, None, None)
            return st
        for m, pos, tr in typestate(A, (frozenset(), None, None, None), step):
            rep.bad("limit" if "size limit" in m else "capacity" if "packet is" in m else "room", at(pos, f), f.qn, m, m, tr)
        for r in ("room", "limit", "capacity"):
            rep.ok(r, f.qn)

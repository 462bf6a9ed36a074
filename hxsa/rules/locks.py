"""State shared with the background PUT thread: locksets, lock order,
waiting and waking."""
from rules.common import *
from rules.client import at
from rules.flow import name, unwrap, freezed

SCALAR = ("bool", "int", "unsigned int", "long", "unsigned long", "size_t")
READS = {"size", "empty", "find", "count", "at", "c_str", "data", "str", "length", "capacity", "get", "load", "rdbuf", "cbegin", "cend",
         "operator bool", "operator==", "operator!=", "operator<", "operator->", "operator*", "what", "joinable", "compare", "lower_bound", "upper_bound"}
ONLYREAD = {"begin", "end", "front", "back", "operator[]"}       # hand out references: what is done with them is seen later
SYNC = ("std::mutex", "std::recursive_mutex", "std::condition_variable", "std::atomic", "std::shared_mutex", "std::timed_mutex")
COMPARE = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b, "==": lambda a, b: a == b}
FORWARD = {"construct", "emplace", "emplace_back", "emplace_front", "make_pair", "make_tuple", "make_unique", "make_shared", "forward"}
GONE = ("no", "gone")       # no background thread: not started or joined; gone: and the session is known to be stopping
MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::shared_timed_mutex", "std::recursive_timed_mutex")
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


ROOT = ["session"]


def chain(t):
    """access path from its root: list of field names, '[]' and '*'"""
    out = []
    while isinstance(t, tuple):
        k = t[0]
        if k == "f":
            out.append(t[2])
            t = t[1]
        elif k == "d":
            out.append("*")
            t = t[1]
        elif k == "e":
            out.append("[]")
            t = t[1]
        elif k in ("a", "v"):
            t = t[1]
        elif k == "m" and t[1] in ("operator[]", "at", "front", "back", "begin", "end", "find") and len(t) > 2:
            out.append("[]")
            t = t[2]
        elif k == "m" and t[1].startswith("new ") and ("iterator" in t[1] or "shared_ptr" in t[1] or "unique_ptr" in t[1]) and len(t) > 2:
            t = t[2]
        elif k == "m" and t[1] in ("get", "operator->", "operator*") and len(t) > 2:
            out.append("*")
            t = t[2]
        else:
            break
    return list(reversed(out)), t


def state(t):
    """name of the session state a term lies in, e.g. queues.puts.queue; a
    trailing * stands for what the state points to"""
    c, root = chain(t)
    if ROOT[0] == "this":
        if root[0] != "this" or len(c) < 2 or c[0] != "*":
            return None
        out = []
        for n, x in enumerate(c[1:]):
            if x in ("[]", "*"):
                return ".".join(out) + ("*" if "*" in c[n + 1:] else "") if out else None
            out.append(x)
        return ".".join(out)
    if root[0] == "S":
        c = ["p", "*"] + list(root[1:]) + c
    for i in range(len(c) - 2):
        if c[i] == "p" and c[i + 1] == "*":
            out = []
            for n, x in enumerate(c[i + 2:]):
                if x in ("[]", "*"):
                    return ".".join(out) + ("*" if "*" in c[i + 2 + n:] else "") if out else None
                out.append(x)
            return ".".join(out) if out else None
    return None


def own_mutex(P):
    """classes whose own methods lock a mutex they have among their members,
    and those derived from them -> names of the mutexes"""
    if not hasattr(P, "_own_mutex"):
        P._own_mutex = {}
        for r in P.records.values():
            ms = {x["name"] for x in r.get("fields", ()) if x["ct"].startswith(MUTEX)}
            if not ms:
                continue
            cls = {r["qn"]} | set(P.all_derived(r["qn"]))
            if any(f.has_cfg and f.d.get("rec") in cls and any(e and e["k"] == "member" and e.get("name") in ms for e in f.exprs) for f in P.funcs.values()):
                for c in cls:
                    P._own_mutex[c] = P._own_mutex.get(c, frozenset()) | ms
    return P._own_mutex


class Locks(Hooks):
    max_depth = 8

    def __init__(self, P, relevant, small, conds=False):
        self.P, self.enter, self.small, self.conds = P, relevant, small, conds
        self.own = own_mutex(P)             # classes that lock for themselves

    def inline(self, x, c, f):
        return f.id in self.small

    def keep_fact(self, a):
        # answers of other objects do not decide what is locked
        return not any(s[0] == "m" and s[1] not in ("owns_lock", "operator bool", "joinable") for s in subterms(a))

    def loop(self, x, variables):
        """loops that count up to a constant: whether they are entered"""
        fr = x.frame
        counted = self.counts(fr.f)
        if not counted:
            return None
        out = []
        for d in sorted(counted & set(variables)):
            v = x.env.get(("L", fr.depth, d))
            if v is not None:
                out.append((d, v[1] if v[0] == "c" and isinstance(v[1], int) else None))
        return ("first", tuple(out)) if out else None

    def counts(self, f):
        memo = self.P.__dict__.setdefault("_counts", {})
        if f.id not in memo:
            memo[f.id] = set()
            for h, body in f.loops().items():
                for b in body:
                    t = f.blocks[b].get("term")
                    if t and t.get("cond", -1) >= 0:
                        for i in f.subexprs(t["cond"]):
                            e = f.exprs[i]
                            if e["k"] == "bin" and e["op"] in COMPARE and any(f.exprs[j]["k"] == "lit" for j in e["c"] if j >= 0):
                                memo[f.id] |= {f.exprs[j]["d"] for j in f.subexprs(i) if f.exprs[j]["k"] == "ref" and "d" in f.exprs[j]}
        return memo[f.id]

    def volatile(self, x, loc):
        return state(loc) is not None

    def refresh(self, x):
        """other threads may have changed the session's state"""
        for k in [k for k in x.env if state(k)]:
            del x.env[k]
        x.facts = frozenset((a, p) for a, p in x.facts if not any(state(u) for u in subterms(a)))

    def keep(self, t):
        """what of an argument matters to the callee"""
        if not isinstance(t, tuple):
            return None
        s = state(t)
        if s is not None:
            return t
        return None

    def mutex(self, t):
        s = state(t)
        if s:
            return s
        c, root = chain(t)
        c = [x for x in c if x not in ("*", "[]")]
        return ".".join(c) if c else None

    def guard(self, ct):
        return any(ct.startswith(g) for g in GUARDS)

    def uses(self, c):
        """session state a call that is not entered may read or change"""
        out = []
        f = self.P.funcs.get(c.fid)
        at_ = (c.f.file, c.line)
        if c.obj is not None:
            s = state(c.obj)
            if s and not (s.endswith("*") and f is not None and f.d.get("rec") in self.own):
                const = c.e.get("constm") or (f is not None and f.d.get("constm")) or c.name in READS
                ismap = "map<" in str(c.e.get("ot", "")) or "std::map" in c.qn or "unordered_map" in c.qn
                if c.name in ONLYREAD and not (ismap and c.name == "operator[]"):
                    const = True
                out.append(("use", s, "r" if const else "w", at_))
        for n, (kind, t) in enumerate(c.lvs or ()):
            if kind == "lv":
                s = state(t)
                if s and s.split(".")[-1] not in ("mutex",):
                    pt = f.params[n]["t"] if f is not None and n < len(f.params) else ""
                    w = pt.endswith("&") and "const" not in pt and not pt.endswith("&&") and c.name not in FORWARD
                    out.append(("use", s, "w" if w else "r", at_))
            elif isinstance(t, tuple) and t and t[0] == "a":
                s = state(t)
                if s:
                    out.append(("use", s, "w", at_))
        return out

    def call(self, x, c):
        if c.kind == "construct":
            ct = c.e.get("ct", "")
            if self.guard(ct) or any(ct.startswith(s) for s in SYNC):
                return None
            if ct.startswith("std::thread") and c.args and c.args[0][0] == "fn":
                return ("spawn", c.args[0][1])
        o = state(c.obj) if c.obj is not None else None
        last = c.qn.split("::")
        if c.obj is not None and len(last) >= 2:
            cls = "::".join(last[:-1])
            if "mutex" in last[-2]:
                m = self.mutex(c.obj)
                if c.name in ("lock", "lock_shared"):
                    return ("lock", m)
                if c.name in ("unlock", "unlock_shared"):
                    return ("unlock", m)
                if c.name.startswith("try_lock"):
                    return ("odd", "try_lock")
            if "unique_lock" in last[-2] or "shared_lock" in last[-2]:
                v = self.var(x, c)
                if c.name in ("lock", "unlock"):
                    return ("g" + c.name, v)
                return None
            if "condition_variable" in last[-2]:
                if c.name.startswith("wait"):
                    self.refresh(x)         # its conditions are read anew
                    pred = [a[1] for a in c.args if a[0] == "fn"]
                    return ("wait", self.mutex(c.obj), self.var(x, c, 0), pred[0] if pred else None, (c.f.file, c.line))
                if c.name.startswith("notify"):
                    return ("notify", self.mutex(c.obj), c.name, (c.f.file, c.line))
            if cls == "std::thread":
                if c.name == "join":
                    return [("use", o, "w", (c.f.file, c.line)), ("join",)] if o else ("join",)
                return None
            if "atomic" in last[-2]:
                return None
        todo = [f for f in {c.fid} | set(self.P.overriders.get(c.fid, ()) if c.e.get("virt") else ()) if f in self.enter and self.P.funcs[f].has_cfg]
        if todo:
            args = []
            for n, (kind, t) in enumerate(c.lvs or ()):
                k = self.keep(t)
                args.append(k and (("ref", k) if kind == "lv" and n < len(self.P.funcs[todo[0]].params) and self.P.funcs[todo[0]].params[n]["ref"] else c.args[n]))
            this = self.keep(c.obj) if c.obj is not None else None
            out = []
            for f in sorted(todo):
                ps = self.P.funcs[f].params
                out.append(("enter", f, tuple(args), this, tuple((ps[n]["d"], self.var(x, c, n)) for n in range(min(len(ps), len(c.args)))
                                                                 if ps[n]["ref"] and self.guard(ps[n]["ct"].replace("const ", "")) and self.var(x, c, n))))
            return out
        out = self.uses(c)
        for a in c.args:
            if isinstance(a, tuple) and a and a[0] == "fn" and a[1] in self.P.funcs:
                out.append(("runs", a[1]))
        return out or None

    def var(self, x, c, n=None):
        t = c.obj if n is None else (c.lvs[n][1] if c.lvs and n < len(c.lvs) else c.args[n])
        t = unwrap(t)
        return t[1] if t[0] == "p" else name(t) if name(t) != "?" else None

    def assign(self, x, loc, val, n):
        ct = n["e"].get("ct", "")
        if n["decl"] or self.guard(ct):
            if self.guard(ct) and loc[0] in ("L", "phi", "j"):
                ms = [a for a in val[2:]] if val[0] == "m" else []
                tags = [show(a) for a in ms[1:]]
                mode = "defer" if any("defer" in t for t in tags) else "try" if any("try" in t for t in tags) else "adopt" if any("adopt" in t for t in tags) else ""
                return ("guard", name(loc), tuple(self.mutex(m) for m in ms if self.mutex(m) and "_lock" not in show(m)), mode)
            return None
        if any(ct.startswith(s) for s in SYNC):
            return None
        s = state(loc)
        return ("use", s, "w", (n["f"].file, n["line"]), val[1] if val[0] == "c" else None) if s else None

    def access(self, x, loc, node, write):
        ct = node["e"].get("ct", "").replace("const ", "")
        if ct in SCALAR or ct.endswith("*"):
            s = state(loc)
            if s:
                return ("use", s, "r", (node["f"].file, node["line"]))
        return None

    def dtor(self, x, loc, el):
        if self.guard(el.get("t", "")):
            return ("drop", name(loc))
        return None

    def cond(self, x, t, truth, node):
        t, truth = literal(t, truth)
        out = []
        if t[0] == "b" and t[1] in COMPARE and t[2][0] == "phi" and t[3][0] == "c" and isinstance(t[3][1], int) and self.counts(node["f"]):
            out.append(("limit", t[2][2], t[1], t[3][1], truth))
        if self.conds and any(state(u) for u in subterms(t)):
            out.append(("cond", t, truth))
        s = state(t)
        if s in ("async_puts.enabled", "running"):
            out.append(("is", s, truth))
        elif t[0] == "m" and t[1] in ("owns_lock", "operator bool") and len(t) > 2 and name(unwrap(t[2])) != "?":
            out.append(("owns", name(unwrap(t[2])), truth))
        elif t[0] == "m" and t[1] == "joinable":
            out.append(("is", "joinable", truth))
        return out or None


def literal(t, truth):
    """a condition without negations, comparisons with constants and loads"""
    while True:
        if t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        elif t[0] == "b" and t[1] in ("==", "!=") and t[3] in (("c", 0), ("c", 1), ("c", True), ("c", False)):
            truth = truth == ((t[1] == "==") == bool(t[3][1]))
            t = t[2]
        elif t[0] == "m" and t[1] in ("load", "operator bool") and len(t) > 2 and state(t[2]):
            t = t[2]
        else:
            return t, truth


class Ready:
    """what a condition variable is waited for: the truth table of the
    predicate over the conditions it tests"""

    def __init__(self, paths):
        self.atoms = sorted({a for lits, r in paths for a, v in lits}, key=str)
        if len(self.atoms) > 10:
            raise AnalysisBroken("a wait predicate tests %d conditions" % len(self.atoms))
        self.vars = {a: {state(u) for u in subterms(a)} - {None} for a in self.atoms}
        self.table = {}
        for n in range(1 << len(self.atoms)):
            env = {a: bool(n >> i & 1) for i, a in enumerate(self.atoms)}
            rs = {r for lits, r in paths if all(env[a] == v for a, v in lits)}
            self.table[n] = True in rs

    def mentions(self, var):
        return any(var in v for v in self.vars.values())

    def always(self, var, val):
        """whether the predicate is true whenever var is val"""
        on = [i for i, a in enumerate(self.atoms) if state(a) == var]
        return all(self.table[n] for n in self.table if not any(bool(n >> i & 1) != val for i in on)) if on else all(self.table.values())

    def enabling(self, var, val):
        """whether a write of val to var may make the predicate true"""
        for i, a in enumerate(self.atoms):
            if var not in self.vars[a]:
                continue
            want = (True, False)
            if val is not None:
                if state(a) == var:
                    want = (bool(val),)
                elif a[0] == "b" and state(a[2]) == var and val == 0 and a[1] in (">", ">=", "<", "<="):
                    want = (a[1] in ("<", "<="),)
            for n in self.table:
                if (n >> i & 1) in want and self.table[n] and not self.table[n ^ (1 << i)]:
                    return True
        return False


class PredHooks(Hooks):
    max_depth = 6

    def __init__(self, P):
        self.P = P

    def inline(self, x, c, f):
        return f.has_cfg and "/hxhim/" in f.file

    def cond(self, x, t, truth, node):
        return ("cond",) + literal(t, truth)


def predicate(P, fid):
    """paths through the predicate lambda: conditions tested, result"""
    f, paths = P.funcs[fid], set()
    A = Interp(P, PredHooks(P)).run(f)

    def step(st, s):
        return st if s[1:] in st else st + (s[1:],)

    def final(st, v):
        if v is None:
            return None
        v, truth = literal(v, True)
        if v[0] == "c":
            paths.add((st, bool(v[1]) == truth))
        else:
            paths.add((st + ((v, truth),), True))
            paths.add((st + ((v, not truth),), False))
    typestate(A, (), step, final)
    return paths


def rechecked(P, A, where):
    """the same for a wait without predicate that is repeated in a loop"""
    paths = set()

    def step(st, s):
        if s[0] == "wait" and s[4] == where:
            if st != "before":
                paths.add((st, False))
            return ()
        if st == "before" or s[0] in ("is", "first", "limit", "owns") or s[0] == "use" and s[2] == "r":
            return st
        if s[0] == "cond":
            return st if s[1:] in st else st + (s[1:],)
        paths.add((st, True))
        return None

    def final(st, v):
        if st != "before":
            paths.add((st, True))
    typestate(A, "before", step, final)
    return paths


def mentions_session(P):
    """functions that touch the session's state"""
    out = set()
    for f in P.funcs.values():
        if f.has_cfg and any(e["k"] == "member" and str(e.get("rec", "")).startswith(("hxhim_private", "hxhim::Stats")) for e in f.exprs if e):
            out.add(f.id)
    return out


# setting up and taking down, and handing out references; not operations
LIFE = {"Open", "Close", "Change", "AddHistogram", "ReadHistograms", "WriteHistograms", "Usable", "GetHistogram", "GetHistograms"}


def datastore(rep):
    """P20"""
    P = rep.prog
    D = "Datastore::Datastore"
    if D not in own_mutex(P):
        raise AnalysisBroken("the datastores have no lock")
    ROOT[0] = "this"
    try:
        cls = {D} | set(P.all_derived(D))
        mine = {f.id for f in P.funcs.values() if f.has_cfg and f.d.get("rec") in cls and f.kind == "method" and not f.d.get("mstatic")}
        public = {m["f"] for r in P.rec_by_qn[D] for m in r["methods"] if m["acc"] == 0}
        enter = reaching(P, mine) & {f.id for f in P.funcs.values() if f.has_cfg and "/datastore/" in "/" + f.file}
        roots = [f for f in P.funcs.values() if f.id in mine and f.id in public and f.name not in LIFE]
        X = Explorer(rep, P, enter)
        for f in sorted(roots, key=lambda f: f.id):
            for held, alive, owed, gs in X.run(f, f.id):
                X.left(f, held, ("F", "no"), owed)
    finally:
        ROOT[0] = "session"
    rep.rule("one at a time", "no two operations on a datastore use its state at the same time, one of them changing it, unless both hold a common lock", 3)
    rep.rule("released", "an operation locks the datastore once and releases it on every path", 6)
    for f in roots:
        rep.ok("released", f.qn + str(len(f.params)))
    for rule, where, f, msg, tr in X.bad:
        rep.bad("released", where, f.qn, msg, trace=tr)
    by = {}
    for (ctx, s, rw, held, alive), (pos, f) in X.uses.items():
        by.setdefault(s, []).append((rw, held, pos, f, ctx))
    for s in sorted(by):
        pairs = [(a, b) for a in by[s] for b in by[s] if a[0] == "w"]
        rep.ok("one at a time", "%s: %d uses" % (s, len(by[s])))
        for a, b in pairs:
            if a[1] & b[1]:
                continue
            one, other = (b, a) if len(b[1]) <= len(a[1]) else (a, b)
            rep.bad("one at a time", one[2], one[3].qn, "%s is %s %s in %s while %s may change it at %s:%d" % (
                s, "changed" if one[0] == "w" else "read", "holding " + ", ".join(sorted(one[1])) if one[1] else "without a lock",
                P.funcs[one[4]].qn, P.funcs[other[4]].qn, other[2][0], other[2][1]), key=s)


class Explorer:
    """records every use of session state, each function once for every set of
    locks it may be entered with. The state of a thread is (locks held, guards,
    (background PUTs enabled, background thread), wake-ups owed)."""

    def __init__(self, rep, P, relevant, ready=None):
        self.rep, self.P, self.relevant = rep, P, relevant
        self.uses, self.order, self.waits, self.notes, self.spawned, self.bad, self.memo = {}, {}, {}, {}, {}, [], {}
        self.autos, self.last = {}, set()
        self.ready = ready or {}        # cv -> (waiting contexts, mutexes, Ready)
        self.small = {f.id for f in P.funcs.values() if f.has_cfg and len(f.blocks) <= 12 and not f.loops() and f.d.get("rct") in ("bool", "int") and
                      any(e and e["k"] == "member" and e.get("name") in ("running", "enabled") for e in f.exprs) and
                      not any("mutex" in str(e.get("qn", "")) for b, i, e in f.calls())}

    def auto(self, f, args, this):
        k = (f.id, args, this)
        if k not in self.autos:
            conds = any("condition_variable" in str(e.get("qn", "")) for b, i, e in f.calls())
            A = Interp(self.P, Locks(self.P, self.relevant - self.small, self.small, conds)).run(f, args, this or ("this",))
            self.rep.auto(A)
            self.autos[k] = A
        return self.autos[k]

    def owe(self, owed, ctx, var, held, val, where):
        """a write another thread may be waiting for has to be followed by a
        wake-up, with the waiter's lock held at or after the write"""
        for cv, (ctxs, ms, ready) in self.ready.items():
            if ctxs - {ctx} and ready.mentions(var) and ready.enabling(var, val):
                owed = owed | {(cv, var, bool(ms & held), where)}
        return owed

    def settle(self, st):
        if st[0] == "bad" or not st[3]:
            return st
        return st[:3] + (frozenset((cv, v, seen or bool(self.ready[cv][1] & st[0]), w) for cv, v, seen, w in st[3]),)

    def run(self, f, ctx, held=frozenset(), alive=("?", "?"), owed=frozenset(), args=(), this=None, guards=()):
        """-> set of (held, alive, owed, guards) the function may return with;
        guards are those it was given references to"""
        key = (f.id, ctx, held, alive, owed, args, this, guards)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {(held, alive, owed, guards)}
        given = {v for v, g in guards}
        A = self.auto(f, args, this)
        outs = set()

        def acquire(st, m):
            held, gs, alive, owed = st
            if m in held:
                return ("bad", ("order", "%s is locked again by the thread that already holds it" % m))
            for h in held:
                self.order.setdefault((h, m), f)
            return self.settle((held | {m}, gs, alive, owed))

        def lockall(st, ms):
            for m in ms:
                st = acquire(st, m)
                if st[0] == "bad":
                    return st
            return st

        def step(st, s):
            held, gs, alive, owed = st
            k = s[0]
            if k == "use":
                self.uses.setdefault((ctx, s[1], s[2], held, alive[1]), (s[3], f))
                if s[2] == "w":
                    val = s[4] if len(s) > 4 else None
                    if s[1] == "running" and val == 0 and ctx == "caller":
                        alive = (alive[0], "gone" if alive[1] in GONE else "stopping")
                    elif s[1] == "running" and alive[1] == "gone":
                        alive = (alive[0], "no")
                    if alive[1] not in GONE:
                        owed = self.owe(owed, ctx, s[1], held, val, s[3])
                    return (held, gs, alive, owed)
            elif k == "first":
                d = dict(gs)
                for v, n in s[1]:
                    if n is None:
                        d.pop("#" + v, None)
                    else:
                        d["#" + v] = n
                return (held, tuple(sorted(d.items())), alive, owed)
            elif k == "limit":
                n = dict(gs).get("#" + s[1])
                if n is not None and COMPARE[s[2]](n, s[3]) != s[4]:
                    return []
            elif k == "enter":
                d = dict(gs)
                r = self.run(self.P.funcs[s[1]], ctx, held, alive, owed, s[2], s[3], tuple((p, d[v]) for p, v in s[4] if v in d))
                back = {p: v for p, v in s[4]}
                return [(h, tuple(sorted({**d, **{back[p]: g for p, g in gg}}.items())), a, o) for h, a, o, gg in sorted(r, key=str)]
            elif k == "lock":
                return acquire(st, s[1])
            elif k == "unlock":
                if s[1] not in held:
                    return ("bad", ("released", "%s is unlocked although it is not held" % s[1]))
                return (held - {s[1]}, gs, alive, owed)
            elif k == "guard":
                d = dict(gs)
                if s[3] == "try":
                    return ("bad", ("released", "whether %s is held is not known" % ", ".join(s[2])))
                if d.get(s[1], ((), False))[1]:
                    held = held - set(d[s[1]][0])
                d[s[1]] = (s[2], s[3] != "defer")
                st = (held, tuple(sorted(d.items())), alive, owed)
                return st if s[3] else lockall(st, s[2])
            elif k in ("drop", "gunlock"):
                d = dict(gs)
                ms, on = d.get(s[1], ((), False))
                if on:
                    held = held - set(ms)
                elif k == "gunlock":
                    return ("bad", ("released", "a lock is released although it is not held"))
                if k == "drop":
                    d.pop(s[1], None)
                elif s[1] in d:
                    d[s[1]] = (ms, False)
                return (held, tuple(sorted(d.items())), alive, owed)
            elif k == "glock":
                d = dict(gs)
                ms, on = d.get(s[1], ((), False))
                if on:
                    return ("bad", ("order", "%s is locked again by the thread that already holds it" % ", ".join(ms)))
                d[s[1]] = (ms, True)
                return lockall((held, tuple(sorted(d.items())), alive, owed), ms)
            elif k == "owns":
                if s[1] in dict(gs) and dict(gs)[s[1]][1] != s[2]:
                    return []
            elif k == "is":
                en, al = alive
                if s[1] == "running" and s[2] and al in ("stopping", "gone"):
                    return []
                if s[1] == "async_puts.enabled":
                    if en == ("F" if s[2] else "T"):
                        return []
                    if s[2]:
                        return (held, gs, ("T", "yes" if al == "?" else al), owed)
                    return (held, gs, ("F", al if al in GONE else "no"), frozenset())
                if not s[2] and (s[1] == "joinable" or ctx == "caller" and al in ("?", "yes", "no")):
                    return (held, gs, (en, "gone" if al in ("stopping", "gone") or s[1] == "running" else "no"), frozenset())
            elif k == "join":
                if alive[1] not in GONE:
                    if held:
                        return ("bad", ("waiting", "the background thread is waited for while %s is held" % ", ".join(sorted(held))))
                    for cv, v, seen, w in sorted(owed, key=str):
                        return ("bad", ("waking", self.unwoken(cv, v, seen)))
                return (held, gs, (alive[0], "gone" if alive[1] in ("stopping", "gone") else "no"), frozenset())
            elif k == "spawn":
                self.spawned.setdefault(s[1], set()).add(alive[1])
                return (held, gs, (alive[0], "yes"), owed)
            elif k == "wait":
                ms, on = dict(gs).get(s[2], ((), False))
                self.waits.setdefault((ctx, s[1], ms, s[3], s[4]), (f, A))
                if ctx == "background" or alive[1] in ("stopping", "gone"):
                    self.last.add((s[3], s[4]))
                if not on:
                    return ("bad", ("waiting", "%s is waited for without holding its lock" % s[1]))
                if alive[1] not in GONE and held - set(ms):
                    return ("bad", ("waiting", "%s is waited for while %s is held" % (s[1], ", ".join(sorted(held - set(ms))))))
                if ctx == "caller" and alive[1] in ("no", "?"):
                    return ("bad", ("waiting", "%s is waited for where there may be no background thread to signal it" % s[1]))
                for cv, v, seen, w in sorted(owed, key=str):
                    return ("bad", ("waking", self.unwoken(cv, v, seen)))
                if s[3] and s[3] in self.P.funcs:
                    self.run(self.P.funcs[s[3]], ctx, held, alive)
            elif k == "runs":
                if s[1] not in self.spawned and self.P.funcs[s[1]].has_cfg:
                    self.run(self.P.funcs[s[1]], ctx, held, alive)
            elif k == "notify":
                self.notes.setdefault((ctx, s[1], s[2], held), (s[3], f))
                return (held, gs, alive, frozenset(o for o in owed if o[0] != s[1] or not o[2]))
            elif k == "odd":
                return ("bad", ("released", "%s leaves it open whether the lock is held" % s[1]))
            return st

        def final(st, v):
            outs.add((st[0], st[2], st[3], tuple((v, g) for v, g in st[1] if v in given)))
            return None
        for m, pos, tr in typestate(A, (held, guards, alive, owed), step, final):
            self.bad.append((m[0], at(pos, f), f, m[1], tr))
        self.memo[key] = outs or {(held, alive, owed, guards)}
        return self.memo[key]

    def unwoken(self, cv, var, seen):
        if seen:
            return "%s is changed but %s is not notified before the thread waits or leaves" % (var, cv)
        return "%s is changed without %s held between the change and the notification of %s" % (var, " or ".join(sorted(self.ready[cv][1])), cv)

    def left(self, f, held, alive, owed):
        """what a thread must not leave the API with"""
        if held:
            self.bad.append(("released", (f.file, f.line), f, "%s is still locked when the function is left" % ", ".join(sorted(held)), []))
        if alive[1] not in GONE:
            for cv, v, seen, w in sorted(owed, key=str):
                self.bad.append(("waking", w, f, self.unwoken(cv, v, seen), []))


def find_threads(P):
    """functions started as threads of the session -> those that start them"""
    out = {}
    for f in P.funcs.values():
        if not f.has_cfg or "/hxhim/" not in f.file:
            continue
        for b, i, e in f.calls():
            if e["k"] == "construct" and e.get("ct", "").startswith("std::thread"):
                for c in e.get("c", ()):
                    for j in f.subexprs(c):
                        x = f.exprs[j]
                        t = x.get("f") or x.get("d")
                        if t in P.funcs and P.funcs[t].has_cfg:
                            out.setdefault(t, set()).add(f.id)
    return out


def explore(rep, ready=None):
    P = rep.prog
    threads = find_threads(P)
    if not threads:
        raise AnalysisBroken("no background thread found")
    relevant = reaching(P, mentions_session(P) | set(threads))
    up = reaching(P, {s for v in threads.values() for s in v})
    roots = [f for f in P.funcs.values() if f.id in relevant and f.has_cfg and "/hxhim/" in f.file and f.id not in threads and not f.d.get("lambda")
             and not P.callers(f.id) and f.kind == "function" and any("hxhim_t *" in p["t"] or "hxhim_t *" in p["ct"] for p in f.params)]
    X = Explorer(rep, P, relevant, ready)
    for e in sorted(threads):
        for held, alive, owed, gs in X.run(P.funcs[e], "background", alive=("T", "yes")):
            X.left(P.funcs[e], held, alive, owed)
    for f in sorted(roots, key=lambda f: f.id):
        for held, alive, owed, gs in X.run(f, "caller", alive=("?", "no" if f.id in up else "?")):
            X.left(f, held, alive, owed)
    X.roots = roots
    return X


def threads_and_locks(rep):
    """both passes: what is waited for first, then everything else"""
    P = rep.prog
    X = explore(rep)
    ready, odd, endless = {}, [], []
    for (ctx, cv, ms, pred, where), (f, A) in X.waits.items():
        paths = predicate(P, pred) if pred else rechecked(P, A, where)
        if all(r for lits, r in paths):
            odd.append((cv, where, f))
            continue
        r = ready.setdefault(cv, (set(), set(), set()))
        r[0].add(ctx)
        r[1].update(ms)
        r[2].update(paths)
        if (pred, where) in X.last and not Ready(paths).always("running", False):
            endless.append((cv, where, f))
    ready = {cv: (c, m, Ready(p)) for cv, (c, m, p) in ready.items()}
    X = explore(rep, ready)
    X.odd, X.endless = odd, endless
    return X


def races(rep):
    """P24"""
    X = threads_and_locks(rep)
    rep.rule("race", "no location is used by the background thread and by a caller of the API at the same time, one of them changing it, unless both hold a common lock", 8)
    by = {}
    for (ctx, s, rw, held, alive), (pos, f) in X.uses.items():
        if alive not in GONE:
            by.setdefault(s, {}).setdefault(ctx, []).append((rw, held, pos, f))
    for s in sorted(by):
        bg, fg = by[s].get("background", ()), by[s].get("caller", ())
        if not bg or not fg:
            continue
        pairs = [(a, b) for a in bg for b in fg if a[0] == "w" or b[0] == "w"]
        rep.ok("race", s + (" (never changed while both run)" if not pairs else " (%d conflicting pairs)" % len(pairs)))
        for a, b in pairs:
            if a[1] & b[1]:
                continue
            one, other = (b, a) if len(b[1]) <= len(a[1]) else (a, b)
            rep.bad("race", one[2], one[3].qn, "%s is %s by %s %s while %s may %s it at %s:%d%s" % (
                s, "changed" if one[0] == "w" else "read", "an API call" if one is b else "the background thread",
                "holding " + ", ".join(sorted(one[1])) if one[1] else "without a lock", "the background thread" if one is b else "an API call",
                "change" if other[0] == "w" else "read", other[2][0], other[2][1], " holding " + ", ".join(sorted(other[1])) if other[1] else ""), key=s)


def waiting(rep):
    """P25"""
    X = threads_and_locks(rep)
    rep.rule("order", "locks are always taken in the same order and never taken again by their holder", 1)
    rep.rule("released", "every lock is released exactly once on every path", 20)
    rep.rule("waiting", "a thread waits only with the lock that belongs to the condition, holding no other, and only if there is a thread to wake it", 2)
    rep.rule("predicate", "what is waited for is checked again after waking up", 2)
    rep.rule("stopping", "what is waited for while the instance is being closed does not depend on the other thread once it is stopping", 2)
    rep.rule("waking", "every change that may end another thread's wait is followed by a notification, with the waiter's lock held in between", 3)
    for rule, where, f, msg, tr in X.bad:
        rep.bad(rule, where, f.qn, msg, trace=tr)
    for a, b in sorted(X.order):
        rep.ok("order", "%s before %s" % (a, b))
        w, seen = [b], set()
        while w:
            n = w.pop()
            if n in seen:
                continue
            seen.add(n)
            w += [y for x, y in X.order if x == n]
        if a in seen:
            g = X.order[(a, b)]
            rep.bad("order", g, g.qn, "%s is locked while %s is held, and elsewhere the other way round" % (b, a))
    for f in X.roots:
        rep.ok("released", f.qn)
    for ctx, cv, ms, pred, where in X.waits:
        rep.ok("waiting", "%s waits for %s with %s" % (ctx, cv, ", ".join(ms)))
        rep.ok("predicate", "%s:%d" % where)
    for pred, where in X.last:
        rep.ok("stopping", "%s:%d" % where)
    for cv, where, f in X.endless:
        rep.bad("stopping", where, f.qn, "%s is waited for although nobody has to signal it once the instance is stopping" % cv, key=cv)
    for cv, where, f in X.odd:
        rep.bad("predicate", where, f.qn, "%s is waited for without checking anything afterwards" % cv, key=cv)
    for ctx, cv, how, held in X.notes:
        rep.ok("waking", "%s notifies %s" % (ctx, cv))

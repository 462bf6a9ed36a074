"""Abstract interpreter over the extracted CFGs.

It explores (call stack, block, abstract state) configurations of one entry
function with repository callees inlined, and yields a finite automaton whose
edges carry the events a rule asked for.  The state is a finite map from
abstract locations to terms plus the branch facts known on the path; loops are
cut by widening every variable they assign, so the exploration always ends.
There is no solver: a branch is pruned only when its condition is a constant
or literally already decided on the path.

Terms
  ('c', n) constants   ('s', text) strings      ('a', loc) address of loc
  ('L', depth, d) local variable location       ('p', d) parameter of the entry
  ('g', qn) global     ('this',)                ('d', v) pointee of pointer v
  ('f', loc, name) field                         ('e', base, idx) element
  ('m', name, args...) pure call                 ('b', op, a, b) / ('u', op, a)
  ('r', point) result of an opaque call          ('o', point, what) unknown
  ('phi', point, d) loop-widened variable        ('n', point) fresh object
"""
import re
import sys
from collections import defaultdict, deque
from facts import AnalysisBroken

sys.setrecursionlimit(10000)

MUTATOR_FREE = {  # non-const overloads of these do not change the container
    "begin", "end", "rbegin", "rend", "front", "back", "at", "find", "data", "get", "operator[]", "operator*", "operator->",
    "lower_bound", "upper_bound", "equal_range", "base", "count", "size", "empty", "c_str", "load", "str", "joinable", "good", "owns_lock",
}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and mentions(y, x):
                return True
    return False


def subst(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        for z in t:
            if isinstance(z, tuple):
                return tuple(subst(z, x, y) if isinstance(z, tuple) else z for z in t)
    return t


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for y in t:
            if isinstance(y, tuple):
                yield from subterms(y)


def leaf(t):
    """last name of an access path"""
    while isinstance(t, tuple):
        if t[0] == "f":
            return t[2]
        if t[0] in ("e", "d", "a", "u"):
            t = t[1] if t[0] != "u" else t[2]
            continue
        if t[0] == "m":
            return t[1]
        if t[0] == "L":
            return t[2].split(":")[-1]
        if t[0] == "p":
            return t[1].split(":")[-1]
        if t[0] == "phi":
            return t[2].split(":")[-1]
        if t[0] == "g":
            return t[1].split("::")[-1]
        if t[0] == "this":
            return "this"
        if t[0] == "v":
            return t[1]
        return None
    return None


def path(t):
    """access path as a list of names, outermost object first (indices -> '[]')"""
    if not isinstance(t, tuple):
        return [str(t)]
    k = t[0]
    if k == "f":
        return path(t[1]) + [t[2]]
    if k == "e":
        return path(t[1]) + ["[]"]
    if k in ("d", "a"):
        return path(t[1])
    if k in ("L",):
        return [t[2].split(":")[-1]]
    if k == "p":
        return [t[1].split(":")[-1]]
    if k == "phi":
        return [t[2].split(":")[-1]]
    if k == "g":
        return [t[1]]
    if k == "this":
        return ["this"]
    if k == "c":
        return [str(t[1])]
    if k == "m":
        return (path(t[2]) if len(t) > 2 else []) + [t[1] + "()"]
    if k == "b":
        return ["(" + ".".join(path(t[2])) + t[1] + ".".join(path(t[3])) + ")"]
    if k == "u":
        return [t[1] + ".".join(path(t[2]))]
    return ["?" + k]


def show(t):
    return ".".join(path(t)).replace(".[]", "[]")


class Frame:
    __slots__ = ("f", "depth", "block", "pos", "vals", "ret_expr", "retlv", "point")

    def __init__(self, f, depth, block, pos, vals, ret_expr, point):
        self.f, self.depth, self.block, self.pos, self.vals, self.ret_expr, self.point = f, depth, block, pos, vals, ret_expr, point

    def key(self):
        return (self.f.id, self.depth, self.block, self.pos, frozenset((k, v if self.sp(v) else None) for k, v in self.vals.items() if self.sp(v)), self.ret_expr)

    @staticmethod
    def sp(v):
        return not isinstance(v, tuple) or (isinstance(v[1], tuple) and v[1][0] in ("c", "n", "s", "fn", "void", "a"))


class Hooks:
    containers = False     # keep default constructed std:: locals as places
    max_depth = 6
    term_scale = 1               # larger: longer terms are kept exactly
    max_configs = 60000
    exact = False                # keep paths with different values apart (small functions only)
    split_fields = frozenset()   # fields whose constants are told apart on every path
    overrides = {}               # field -> constant its reads are taken to give
    def override(self, x, loc):
        """value to take for an element of the named array field"""
        if loc[0] == "e":
            n = leaf(loc)
            if n in self.overrides:
                return ("c", self.overrides[n])
        return None

    casts = False                # call cast() for every conversion
    def cast(self, x, term, e, src):
        """term for a converted value, or None if the conversion is of no interest"""
        return None

    relevant = None              # ids of the functions worth entering (None: all)

    def inline(self, x, call, func):
        return self.relevant is None or func.id in self.relevant

    def call(self, x, call):
        return None

    def assign(self, x, loc, val, node):
        return None

    def cond(self, x, term, truth, node):
        return None

    def ret(self, x, val, node):
        return None

    def exit(self, x, val):
        return None

    def throw(self, x, node):
        return None

    def dtor(self, x, loc, el):
        return None

    def volatile(self, x, loc):
        """whether other threads may change the location at any time, so that
        what was stored there says nothing about what is read later"""
        return False

    def loop(self, x, variables):
        """a loop head: the variables get new names for the values they have"""
        return None

    def access(self, x, loc, node, write):
        return None

    def result(self, x, call):
        """term to use for the result of an opaque call, or None"""
        return None

    def keep_fact(self, term):
        return True

    def tag(self, x, call):
        """label carried by an opaque call's result and by what it writes
        through its arguments: ('r', point, tag), ('o', point, ('out', tag))"""
        return None

    def split(self, x, call):
        """terms a call's result should be split over (list) or None"""
        return None


class Call:
    """one evaluated call-like expression"""
    __slots__ = ("e", "kind", "qn", "name", "fid", "obj", "args", "argids", "id", "f", "line", "params", "lvs", "pointer")

    def __init__(self, e, kind, qn, name, fid, obj, args, argids, id, f):
        self.e, self.kind, self.qn, self.name, self.fid, self.obj, self.args, self.argids, self.id, self.f = e, kind, qn, name, fid, obj, args, argids, id, f
        self.line = e["l"]
        self.params = e.get("pn") or []
        self.lvs = None            # ("lv", location) or ("rv", value) of each argument

    def arg(self, name_or_idx):
        if isinstance(name_or_idx, int):
            return self.args[name_or_idx] if name_or_idx < len(self.args) else None
        if name_or_idx in self.params:
            return self.args[self.params.index(name_or_idx)]
        return None


class Auto:
    """automaton: edges[state] = [(symbol or None, target, (file,line))]"""

    def __init__(self):
        self.edges = defaultdict(list)
        self.start = None
        self.accept = {}     # state -> info
        self.n = 0
        self.truncated = False
        self.functions = set()

    def new(self):
        self.n += 1
        return self.n - 1

    def prune(self):
        """forget what the start state does not reach"""
        seen, w = set(), [self.start]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w += [t for _, t, _ in self.edges.get(x, ())]
        self.edges = defaultdict(list, {k: v for k, v in self.edges.items() if k in seen})
        self.accept = {k: v for k, v in self.accept.items() if k in seen}

    def symbols(self):
        return {s for es in self.edges.values() for s, _, _ in es if s is not None}


class Interp:
    def __init__(self, prog, hooks):
        self.P, self.H = prog, hooks
        self.shape_memo = {}

    # ---------------------------------------------------------------- state
    def run(self, func, args=None, this=("this",), env=None):
        """explore func; -> Auto.  A first pass without path facts finds the
        conditions that are tested at more than one place; only those are
        remembered by the second pass."""
        self.phase, self.sites = 1, defaultdict(set)
        try:
            self.run1(func, args, this, env)
        except AnalysisBroken:
            if not self.sites:
                raise
        self.keep = {a for a, s in self.sites.items() if len(s) > 1}
        self.keepleaf = {x[2] for a in self.keep for x in subterms(a) if x[0] == "f"}
        self.phase = 2
        return self.run1(func, args, this, env)

    def erase(self, a):
        if a[0] == "b" and a[1] == "==":
            if a[3][0] == "c":
                a = a[2]
            elif a[2][0] == "c":
                a = a[3]
        def er(t):
            if not isinstance(t, tuple):
                return t
            if t[0] in ("o", "r", "n"):
                return (t[0], t[1] if t[0] != "o" else t[1][:3] if isinstance(t[1], tuple) else t[1])
            return tuple(er(y) for y in t)
        return er(a)

    def run1(self, func, args, this, env):
        if not func.has_cfg:
            raise AnalysisBroken("no CFG for %s" % func.qn)
        A = Auto()
        self.A = A
        env = dict(env or {})
        for n, p in enumerate(func.params):
            if args and n < len(args) and args[n] is not None:
                v = args[n]
            elif p["ref"]:
                v = ("ref", ("p", p["d"]))
            else:
                v = ("p", p["d"])
            env[("L", 0, p["d"])] = v
        env[("L", 0, "this")] = this
        fr = Frame(func, 0, func.entry, 0, {}, None, None)
        self.ids, self.info, self.queued = {}, {}, set()
        work = deque()
        self.cur, self.nodes = None, []
        start = self.cfg_id([fr], env, frozenset(), work)
        A.start = start
        visits = 0
        while work:
            cid = work.popleft()
            self.queued.discard(cid)
            stack, env, facts = self.info[cid]
            visits += 1
            if len(self.ids) > self.H.max_configs or visits > 8 * self.H.max_configs:
                A.truncated = True
                raise AnalysisBroken("exploration of %s exceeds %d configurations" % (func.qn, self.H.max_configs))
            A.edges.pop(cid, None)
            A.accept.pop(cid, None)
            self.step(cid, stack, env, facts, work)
        A.configs = len(self.ids)
        A.prune()
        return A

    SPLIT = ("c", "n", "s", "fn", "void")

    def cfg_id(self, stack, env, facts, work):
        """configuration of this program point.  Configurations that agree on
        the calls made, the facts and the constants held share one node; what
        else they hold is joined."""
        fr = stack[-1]
        # drop dead locals of the running frame at block starts
        if fr.pos == 0:
            live = fr.f.liveness().get(fr.block)
            if live is not None:
                dead = [k for k in env if k[0] == "L" and k[1] == fr.depth and k[2] not in live and k[2] != "this" and not self.aliased(env, k)]
                if dead:
                    dead = set(dead)
                    env = {k: v for k, v in env.items() if k not in dead and not any(x in dead for x in subterms(k))}
        point = (fr.f.id, fr.block, fr.pos, fr.depth)
        # names this join point gave out before are history now
        env, facts = self.retire_point(point, env, facts, stack)
        env = self.gc_env(env, stack)
        if self.H.exact:
            key = (tuple(f.key() for f in stack), tuple(frozenset((k, repr(v)) for k, v in f.vals.items()) for f in stack), frozenset(env.items()), facts)
        else:
            key = (tuple(f.key() for f in stack), frozenset((k, v) for k, v in env.items() if self.is_split(k, v)), facts)
        i = self.ids.get(key)
        if i is None:
            i = self.A.new()
            self.ids[key] = i
            self.info[i] = (stack, env, facts)
            work.append(i)
            self.queued.add(i)
            return i
        ostack, oenv, ofacts = self.info[i]
        nenv, ch = oenv, False
        for k in set(oenv) | set(env):
            a, b = oenv.get(k), env.get(k)
            if a == b or (a is not None and a[0] == "j" and a[1] == point):
                continue
            if not ch:
                nenv, ch = dict(oenv), True
            if k[0] == "L" and (a is None or b is None):
                nenv.pop(k, None)
            else:
                nenv[k] = ("j", point, k)
        nstack = ostack
        for n, (f, g) in enumerate(zip(ostack, stack)):
            if f.vals != g.vals:
                vals = dict(f.vals)
                for k in set(f.vals) | set(g.vals):
                    a, b = f.vals.get(k), g.vals.get(k)
                    if a == b:
                        continue
                    if a is None or b is None:
                        vals.pop(k, None)
                        if a is not None:
                            ch = True
                        continue
                    if isinstance(a, tuple) and isinstance(a[1], tuple) and a[1][0] == "j" and a[1][1] == point:
                        continue
                    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "rv" and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] == b[1][0] == "m":
                        v = ("rv", self.join_answers(a[1], b[1], point, ("val", n, k)))
                    else:
                        v = ("rv" if not (isinstance(a, tuple) and a[0] == "lv") else "lv", ("j", point, ("val", n, k)))
                    if v != a:
                        vals[k] = v
                        ch = True
                if vals != f.vals:
                    nstack = list(nstack)
                    nstack[n] = Frame(f.f, f.depth, f.block, f.pos, vals, f.ret_expr, f.point)
        if ch:
            self.info[i] = (nstack, nenv, facts)
            if i not in self.queued:
                work.append(i)
                self.queued.add(i)
        return i

    def join_answers(self, a, b, point, n):
        """what is known about either of two answers: the same question may
        have been asked of different objects"""
        if a == b or (a[0] == "j" and a[1] == point):
            return a
        if a[0] == b[0] == "m" and a[1] == b[1] and len(a) == len(b) and all(isinstance(x, tuple) for x in a[2:] + b[2:]):
            return a[:2] + tuple(self.join_answers(x, y, point, n + (i,)) for i, (x, y) in enumerate(zip(a[2:], b[2:])))
        return ("j", point, n)

    def is_split(self, k, v):
        if k[0] == "L":
            return v[0] in ("a", "ref") or v[0] in self.SPLIT
        return v[0] == "c" and self.phase == 2 and (leaf(k) in self.keepleaf or leaf(k) in self.H.split_fields)

    def retire_point(self, point, env, facts, stack):
        def has(t):
            return any(x[0] == "j" and x[1] == point for x in subterms(t))

        def ren(t):
            if t[0] == "j" and t[1] == point:
                return ("j", ("old",) + point, t[2])
            return tuple(ren(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in t)
        if any(has(v) or has(k) for k, v in env.items()):
            e2 = {}
            for k, v in env.items():
                e2[ren(k) if has(k) else k] = ren(v) if has(v) else v
            env = e2
        if any(has(a) for a, _ in facts):
            facts = frozenset((a, p) for a, p in facts if not has(a))
        return env, facts

    def gc_env(self, env, stack):
        """drop stores through names nothing holds any more"""
        heap = [k for k in env if k[0] != "L"]
        if not heap:
            return env
        held = set()
        for k, v in env.items():
            if k[0] == "L":
                held.update(x for x in subterms(v) if x[0] in self.NAMES)
        for fr in stack:
            for v in fr.vals.values():
                if isinstance(v, tuple) and isinstance(v[1], tuple):
                    held.update(x for x in subterms(v[1]) if x[0] in self.NAMES)
        todo, keep = heap, set()
        ch = True
        while ch:
            ch = False
            rest = []
            for k in todo:
                if all(x in held for x in subterms(k) if x[0] in self.NAMES):
                    keep.add(k)
                    n = len(held)
                    held.update(x for x in subterms(env[k]) if x[0] in self.NAMES)
                    ch = ch or len(held) != n
                else:
                    rest.append(k)
            todo = rest
        if not todo:
            return env
        return {k: v for k, v in env.items() if k[0] == "L" or k in keep}

    NAMES = ("o", "r", "n", "phi", "j")

    def aliased(self, env, loc):
        for k, v in env.items():
            if k != loc and isinstance(v, tuple) and mentions(v, loc):
                return True
        return False

    # ----------------------------------------------------------- evaluation
    def rd(self, loc):
        """value stored at loc"""
        if self.H.overrides and loc[0] in ("e", "f"):
            n = self.H.override(self, loc)
            if n is not None:
                return n
        v = self.env.get(loc)
        if v is not None:
            if v[0] == "ref":
                return self.rd(v[1])
            return v
        if loc[0] == "v":
            return loc[1]
        return loc

    def resolve(self, loc):
        v = self.env.get(loc)
        if v is not None and v[0] == "ref":
            return self.resolve(v[1])
        return loc

    def deref(self, v):
        if v[0] == "a":
            return v[1]
        return ("d", v)

    def addr(self, loc):
        if loc[0] == "d":
            return loc[1]
        return ("a", loc)

    def field(self, loc, name):
        return ("f", loc, name)

    def lv(self, fr, i):
        k, t = self.val(fr, i)
        if k == "lv":
            return t
        return ("v", t)

    def rv(self, fr, i):
        if i is None or i < 0:
            return ("o", (fr.f.id, -1), "none")
        k, t = self.val(fr, i)
        if k == "lv":
            e = fr.f.exprs[i]
            if e.get("ct", "").endswith("]"):     # array decays to its address
                return self.addr(t)
            return self.rd(t)
        return t

    def val(self, fr, i):
        if i in fr.vals:
            return fr.vals[i]
        r = self.evaluate(fr, i, False)
        return r

    def truthy(self, t):
        """True/False/None"""
        if t[0] == "c":
            return bool(t[1])
        if t[0] in ("a", "n", "s"):
            return True
        if t[0] == "b" and t[1] == "+" and t[3][0] == "c" and t[3][1]:
            return True
        return self.known(t)

    def norm(self, t):
        """(atom, polarity)"""
        pol = True
        while True:
            if t[0] == "u" and t[1] == "!":
                t, pol = t[2], not pol
                continue
            if t[0] == "b" and t[1] in ("==", "!="):
                a, b = t[2], t[3]
                if repr(a) > repr(b):
                    a, b = b, a
                if a == ("c", 0):
                    a, b = b, a
                if b == ("c", 0):
                    # x == 0  <=> !x
                    pol = pol if t[1] == "!=" else not pol
                    t = a
                    continue
                if t[1] == "!=":
                    pol = not pol
                return ("b", "==", a, b), pol
            if t[0] == "b" and t[1] in (">", "<=", ">="):
                a, b = t[2], t[3]
                if t[1] == ">":
                    return ("b", "<", b, a), pol
                if t[1] == ">=":
                    return ("b", "<", a, b), not pol
                if t[1] == "<=":
                    return ("b", "<", b, a), not pol
            return t, pol

    def known(self, t):
        a, p = self.norm(t)
        if a[0] == "c":
            return bool(a[1]) == p
        if a[0] in ("a", "n", "s") or (a[0] == "b" and a[1] == "+" and a[3][0] == "c" and a[3][1]):
            return p
        for fa, fp in self.facts:
            if fa == a:
                return fp == p
        if a[0] == "b" and a[1] == "==":
            x, y = a[2], a[3]
            if x == y:
                return p
            if x[0] == "c" and y[0] == "c":
                return (x[1] == y[1]) == p
            # x == c1 known and asked x == c2
            for fa, fp in self.facts:
                if fp and fa[0] == "b" and fa[1] == "==":
                    if fa[2] == x and fa[3][0] == "c" and y[0] == "c" and fa[3][1] != y[1]:
                        return not p
                    if fa[3] == y and fa[2][0] == "c" and x[0] == "c" and fa[2][1] != x[1]:
                        return not p
                    if fa[2] == y and fa[3][0] == "c" and x[0] == "c" and fa[3][1] != x[1]:
                        return not p
                    if fa[3] == x and fa[2][0] == "c" and y[0] == "c" and fa[2][1] != y[1]:
                        return not p
                # !x known (x is zero) and asked x == c (c != 0)
                if not fp and y[0] == "c" and fa == x and y[1] != 0:
                    return not p
                if not fp and x[0] == "c" and fa == y and x[1] != 0:
                    return not p
        else:
            # asked nz(x) and x == c known
            for fa, fp in self.facts:
                if fp and fa[0] == "b" and fa[1] == "==":
                    for u, w in ((fa[2], fa[3]), (fa[3], fa[2])):
                        if u == a and w[0] == "c":
                            return bool(w[1]) == p
        if a[0] == "b" and a[1] == "<" and a[2][0] == "c" and a[3][0] == "c":
            return (a[2][1] < a[3][1]) == p
        return None

    def assume(self, t, truth):
        a, p = self.norm(t)
        if a[0] in ("c", "a", "n", "s"):
            return
        if not self.H.keep_fact(a):
            return
        if self.phase == 1:
            return
        if self.erase(a) not in self.keep:
            return
        if any(x[0] == "o" and x[2] == "vol" for x in subterms(a)):
            return
        pos = p == truth
        x = None
        if a[0] == "b" and a[1] == "==" and pos:
            x = a[2] if a[3][0] == "c" else a[3] if a[2][0] == "c" else None
        elif not pos and not (a[0] == "b" and a[1] in NEG):
            x = a
        if x is not None:
            # the value is known now: what it is not follows from that
            self.facts = frozenset((fa, fp) for fa, fp in self.facts if not (fa == x or (fa[0] == "b" and fa[1] == "==" and not fp and ((fa[2] == x and fa[3][0] == "c") or (fa[3] == x and fa[2][0] == "c")))))
        self.facts = self.facts | {(a, pos)}

    def fresh(self, fr, i, what=""):
        """a new unknown for this program point; earlier ones of the same point are renamed"""
        t = ("o", (fr.f.id, i, fr.depth), what)
        self.retire(t)
        return t

    def retire(self, t):
        stale = ("o", t[1] if isinstance(t[1], tuple) else (t[1],), "stale")
        if any(mentions(v, t) for v in self.env.values()):
            self.env = {k: subst(v, t, stale) for k, v in self.env.items() if not mentions(k, stale)}
        if any(mentions(k, t) for k in self.env):
            self.env = {subst(k, t, stale) if mentions(k, t) else k: v for k, v in self.env.items()}
        if any(mentions(a, t) for a, _ in self.facts):
            self.facts = frozenset((a, p) for a, p in self.facts if not mentions(a, t) and not mentions(a, stale))

    def write(self, loc, val):
        """strong update of loc"""
        loc = self.resolve(loc)
        if loc[0] == "v":
            return loc
        # sub-locations are no longer valid
        dead = [k for k in self.env if k != loc and mentions(k, loc) and k[0] != "L"]
        for k in dead:
            self.env.pop(k)
        if self.H.volatile(self, loc):
            self.forget(loc)
            return loc
        if val == loc:
            # assigning an object from itself carries no information
            self.env.pop(loc, None)
        else:
            self.env[loc] = val
        # a store through some path may change what another path to the same
        # field holds
        if loc[0] in ("f", "d", "e"):
            for k in list(self.env):
                if k != loc and k[0] == loc[0] and k[0] == "f" and k[2] == loc[2] and not self.disjoint(k, loc):
                    self.env.pop(k)
                    self.env[k] = ("o", ("alias", repr(k)), "")
        if loc[0] == "e":
            for k in list(self.env):
                if k != loc and k[0] == "e" and k[1] == loc[1]:
                    self.env.pop(k)
        return loc

    def forget(self, loc):
        self.env.pop(loc, None)
        self.facts = frozenset((a, p) for a, p in self.facts if not mentions(a, loc))

    def disjoint(self, a, b):
        ra, rb = self.base(a), self.base(b)
        if ra != rb and ra[0] in ("L", "n") and rb[0] in ("L", "n", "p", "this", "g"):
            return True
        if ra != rb and rb[0] in ("L", "n") and ra[0] in ("p", "this", "g"):
            return True
        return ra != rb and path(a)[:-1] != path(b)[:-1]

    def base(self, t):
        while t[0] in ("f", "e", "d", "a"):
            t = t[1]
        return t

    def havoc(self, fr, i, loc, n=0, tag=None):
        loc = self.resolve(loc)
        if loc[0] in ("v",):
            return
        v = ("o", (fr.f.id, i, fr.depth, n), "mut" if tag is None else ("out", tag))
        self.retire(v)
        dead = [k for k in self.env if k != loc and mentions(k, loc) and k[0] != "L"]
        for k in dead:
            self.env.pop(k)
        if self.H.volatile(self, loc):
            self.forget(loc)
            return
        # facts about the old value of loc stay true of the old value only;
        # reads now give v
        self.env[loc] = v

    def havoc_fields(self, fr, i, names):
        """locations of the named fields (of any object) become unknown"""
        if not names:
            return
        hit = {}

        def fields_of(t):
            for x in subterms(t):
                if x[0] == "f" and x[2] in names:
                    yield x
        for k in list(self.env):
            if k[0] != "L" and k[0] != "phi":
                if any(True for _ in fields_of(k)):
                    self.env.pop(k)
                    v = ("o", (fr.f.id, i, fr.depth, repr(path(k))), "mut")
                    self.retire(v)
                    self.env[k] = v
        # field locations that facts know under their initial value
        seen = set()
        for a, _ in self.facts:
            for x in fields_of(a):
                if x not in self.env and x not in seen and not any(y[0] == "o" for y in subterms(x)):
                    seen.add(x)
        for x in seen:
            v = ("o", (fr.f.id, i, fr.depth, repr(path(x))), "mut")
            self.retire(v)
            self.env[x] = v

    # one expression -------------------------------------------------------
    def evaluate(self, fr, i, effects):
        """-> ('lv', loc) or ('rv', value).  effects: this is the CFG element of
        the expression (side effects and events happen exactly there)."""
        e = fr.f.exprs[i]
        k = e["k"]
        c = e.get("c", [])
        if k == "ref":
            dk = e.get("dk")
            if dk in ("var", "parm", "static", "binding"):
                loc = self.resolve(("L", fr.depth, e["d"]))
                if dk == "static":
                    loc = ("g", fr.f.qn + "::" + e["name"])
                return ("lv", loc)
            if dk == "global":
                if "v" in e:
                    return ("rv", ("c", e["v"]))
                return ("lv", ("g", e["qn"]))
            if dk == "enum":
                return ("rv", ("c", e.get("v")))
            if dk == "func":
                return ("rv", ("fn", e["d"]))
            return ("rv", ("g", e.get("qn", e["name"])))
        if k == "lit":
            if "v" in e:
                return ("rv", ("c", e["v"] if not isinstance(e["v"], str) else int(e["v"])))
            return ("rv", ("o", (fr.f.id, i), "lit"))
        if k == "flit":
            return ("rv", ("c", e.get("fv")))
        if k == "str":
            return ("rv", ("s", e.get("s", "")))
        if k == "this":
            return ("rv", self.rd(("L", fr.depth, "this")))
        if k == "member":
            if "qn" in e and "rec" not in e:
                return ("rv", ("fn", e["d"]))
            if e.get("arrow"):
                loc = self.deref(self.rv(fr, c[0]))
            else:
                kk, t = self.val(fr, c[0])
                loc = t if kk == "lv" else ("v", t)
                if loc[0] == "v":
                    loc = t
            if e.get("anon"):
                return ("lv", loc)
            return ("lv", self.field(loc, e["name"]))
        if k == "index":
            b = self.rv(fr, c[0])
            ix = self.rv(fr, c[1])
            base = b[1] if b[0] == "a" else ("d", b)
            return ("lv", ("e", base, ix))
        if k == "sizeof":
            if "v" in e:
                return ("rv", ("c", e["v"]))
            return ("rv", ("o", (fr.f.id, i), "sizeof"))
        if k == "cast" and self.H.casts and c and c[0] >= 0:
            v = self.H.cast(self, self.rv(fr, c[0]), e, fr.f.exprs[c[0]])
            return ("rv", v) if v is not None else self.val(fr, c[0])
        if k == "cast":
            return self.val(fr, c[0]) if c and c[0] >= 0 else ("rv", ("o", (fr.f.id, i), "cast"))
        if k == "un":
            return self.ev_un(fr, i, e, effects)
        if k == "bin":
            return self.ev_bin(fr, i, e, effects)
        if k == "cond":
            t = self.truthy(self.rv(fr, c[0]))
            # the arm that was evaluated on this path
            if t is None:
                t = fr.vals.get(("arm", i))
            if t is True:
                return self.val(fr, c[1])
            if t is False:
                return self.val(fr, c[2])
            a, b = self.rv(fr, c[1]), self.rv(fr, c[2])
            if a == b:
                return ("rv", a)
            return ("rv", ("m", "?:", self.rv(fr, c[0]), a, b))
        if k in ("call", "construct", "new", "delete"):
            if "v" in e and k == "call":
                return ("rv", ("c", e["v"]))
            if not effects:
                # an argument that has no CFG element of its own (constant folded)
                return self.opaque_call(fr, i, e, None, False)
            raise AssertionError("calls are handled by step()")
        if k == "initlist":
            if len(c) == 1:
                return ("rv", self.rv(fr, c[0]))
            return ("rv", ("m", "{}") + tuple(self.rv(fr, x) for x in c))
        if k == "lambda":
            return ("rv", ("fn", e["f"]))
        if k == "throw":
            return ("rv", ("c", 0))
        return ("rv", ("o", (fr.f.id, i), k))

    def ev_un(self, fr, i, e, effects):
        op, c = e["op"], e["c"]
        if op == "*":
            return ("lv", self.deref(self.rv(fr, c[0])))
        if op == "&":
            kk, t = self.val(fr, c[0])
            if kk == "lv":
                return ("rv", self.addr(t))
            return ("rv", t if t[0] == "fn" else ("a", ("v", t)))
        if "++" in op or "--" in op:
            loc = self.lv(fr, c[0])
            old = self.rd(loc)
            if not effects:
                return ("rv", old)
            o = "+" if "++" in op else "-"
            if old[0] == "c" and isinstance(old[1], int) and abs(old[1]) < 8 and loc[0] == "L":
                nv = ("c", old[1] + (1 if o == "+" else -1))
            else:
                nv = ("b", o, old, ("c", 1)) if self.size(old) < 12 else self.fresh(fr, i)
            self.do_assign(fr, loc, nv, e, op=op)
            if op.startswith("post"):
                return ("rv", old)
            return ("lv", loc)
        if "v" in e:
            return ("rv", ("c", e["v"]))
        v = self.rv(fr, c[0])
        if op == "!":
            t = self.truthy(v)
            if t is not None:
                return ("rv", ("c", 0 if t else 1))
            return ("rv", ("u", "!", v))
        if op == "-" and v[0] == "c":
            return ("rv", ("c", -v[1]))
        return ("rv", ("u", op, v))

    def size(self, t):
        n = 0
        for _ in subterms(t):
            n += 1
            if n > 400:
                break
        return n // self.H.term_scale

    def ev_bin(self, fr, i, e, effects):
        op, c = e["op"], e["c"]
        if e.get("asg"):
            loc = self.lv(fr, c[0])
            if op == "=":
                v = self.rv(fr, c[1])
                if effects:
                    self.do_assign(fr, loc, v, e, rhs=c[1])
            else:
                old, r = self.rd(loc), self.rv(fr, c[1])
                v = ("b", op[:-1], old, r)
                if self.size(v) > 14:
                    v = self.fresh(fr, i) if effects else ("o", (fr.f.id, i), "big")
                if effects:
                    self.do_assign(fr, loc, v, e, op=op, rhs=c[1])
            return ("lv", loc)
        if "v" in e:
            return ("rv", ("c", e["v"]))
        if op == ",":
            return self.val(fr, c[1])
        if op in ("&&", "||"):
            l = self.truthy(self.rv(fr, c[0]))
            if l is not None:
                if op == "&&" and l is False:
                    return ("rv", ("c", 0))
                if op == "||" and l is True:
                    return ("rv", ("c", 1))
                r = self.rv(fr, c[1])
                t = self.truthy(r)
                return ("rv", ("c", int(t)) if t is not None else r)
            return ("rv", ("b", op, self.rv(fr, c[0]), self.rv(fr, c[1])))
        a, b = self.rv(fr, c[0]), self.rv(fr, c[1])
        if op in NEG:
            t = self.known(("b", op, a, b))
            if t is not None:
                return ("rv", ("c", int(t)))
            if op in ("==", "!=") and a == b:
                return ("rv", ("c", int(op == "==")))
        elif a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
            try:
                r = {"+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1], "*": lambda: a[1] * b[1], "|": lambda: a[1] | b[1], "&": lambda: a[1] & b[1]}.get(op)
                if r:
                    return ("rv", ("c", r()))
            except Exception:
                pass
        t = ("b", op, a, b)
        if self.size(t) > 24:
            t = ("o", (fr.f.id, i), "big")
        return ("rv", t)

    def do_assign(self, fr, loc, val, node, op="=", rhs=None, decl=False):
        loc = self.resolve(loc) if not decl else loc
        if not (op == "=" and val[0] in ("o",) and False):
            self.emit(fr, self.H.assign(self, loc, val, {"e": node, "op": op, "decl": decl, "rhs": rhs, "f": fr.f, "line": node["l"]}), node["l"])
        self.write(loc, val)
        if decl and self.H.containers and val[0] == "m" and len(val) == 2 and val[1].startswith("new std::"):
            self.env.pop(loc, None)         # stays a place: its contents change

    def emit(self, fr, sym, line):
        if sym is None:
            return
        if isinstance(sym, list):
            for s in sym:
                self.emit(fr, s, line)
            return
        n = self.A.new()
        self.A.edges[self.cur].append((sym, n, (fr.f.file, line, fr.f.qn)))
        self.cur = n

    # calls ------------------------------------------------------------------
    def mk_call(self, fr, i, e):
        obj = None
        if e.get("obj", -1) is not None and e.get("obj", -1) >= 0:
            kk, t = self.val(fr, e["obj"])
            oe = fr.f.exprs[e["obj"]]
            if kk == "lv" and "*" not in oe.get("ct", "").split("<")[0][-2:] and not oe.get("ct", "").rstrip().endswith("*"):
                obj = t
            elif kk == "lv":
                obj = self.deref(self.rd(t))     # p->method(): implicit object is *p
            else:
                ct = oe.get("ct", "").rstrip()
                obj = self.deref(t) if ct.endswith("*") or oe["k"] == "this" else ("v", t)
        args = [self.val(fr, a) if a >= 0 else ("rv", ("c", 0)) for a in e.get("c", [])]
        vals = []
        for (kk, t), a in zip(args, e.get("c", [])):
            vals.append(self.rv(fr, a) if a >= 0 else t)
        call = Call(e, e["k"], e.get("qn", ""), e.get("name") or e.get("rec", ""), e.get("f"), obj, vals, e.get("c", []), i, fr.f)
        if e.get("fn", -1) >= 0:
            call.pointer = self.rv(fr, e["fn"])     # what an indirect call calls
        return call, args

    def opaque_call(self, fr, i, e, call, effects):
        """result of a call that is not inlined"""
        if call is None:
            call, _ = self.mk_call(fr, i, e)
        qn, name = call.qn, call.name
        k = e["k"]
        if k == "new":
            n = ("n", (fr.f.id, i, fr.depth))
            return ("rv", n)
        if k == "delete":
            return ("rv", ("c", 0))
        if k == "construct":
            if len(call.args) == 1 and (e.get("copy") or e.get("move")):
                return self.val(fr, call.argids[0])
            return ("rv", ("m", "new " + e["rec"]) + tuple(call.args)) if len(call.args) < 4 and self.size(("x",) + tuple(call.args)) < 16 else ("rv", ("o", (fr.f.id, i), "ctor"))
        h = self.H.result(self, call)
        if h is not None:
            return h if h[0] in ("lv", "rv") else ("rv", h)
        if qn in ("std::move", "std::forward", "std::addressof", "std::ref") and call.argids:
            return self.val(fr, call.argids[0])
        oper = e.get("oper")
        if oper == "[]" and call.obj is not None:
            return ("lv", ("e", call.obj if call.obj[0] != "v" else call.obj[1], call.args[0]))
        if oper in ("*",) and call.obj is not None and not call.args:
            return ("lv", ("d", self.rd(call.obj)))
        if oper == "->" and call.obj is not None:
            return ("rv", ("a", ("d", self.rd(call.obj))))
        if name == "at" and call.obj is not None and call.args:
            return ("lv", ("e", call.obj if call.obj[0] != "v" else call.obj[1], call.args[0]))
        if oper in ("==", "!=", "<", ">", "<=", ">="):
            a = [self.rd(call.obj)] + call.args if call.obj is not None else call.args
            if len(a) == 2:
                t = self.known(("b", oper, a[0], a[1]))
                return ("rv", ("c", int(t)) if t is not None else ("b", oper, a[0], a[1]))
        if oper == "!" and call.obj is not None:
            return ("rv", ("u", "!", self.rd(call.obj)))
        if oper == "=" and call.obj is not None and call.args:
            if effects:
                self.do_assign(fr, call.obj, call.args[0], e, rhs=call.argids[0])
            return ("lv", call.obj)
        if oper in ("++", "--") and call.obj is not None:
            if effects:
                old = self.rd(call.obj)
                nv = ("b", oper[0], old, ("c", 1)) if self.size(old) < 12 else self.fresh(fr, i)
                self.do_assign(fr, call.obj, nv, e, op=oper)
                if call.args:
                    return ("rv", old)
            return ("lv", call.obj)
        if oper in ("+=", "-=") and call.obj is not None:
            if effects:
                self.havoc(fr, i, call.obj)
            return ("lv", call.obj)
        if oper in ("+", "-"):
            a = [self.rd(call.obj)] + call.args if call.obj is not None else call.args
            return ("rv", ("m", "op" + oper) + tuple(a))
        pure = e.get("constm") or name in MUTATOR_FREE
        if name.startswith("operator") and name.split("operator")[1].strip() in ("bool", "int", "char", "unsigned long"):
            return ("rv", self.rd(call.obj))
        outs = e.get("constm") and name not in MUTATOR_FREE and any(re.search(r"[*&]\s*$", pt) and not pt.startswith("const ") for pt in e.get("pt") or ())
        if pure and call.obj is not None and not outs:
            t = ("m", name, self.rd(call.obj)) + tuple(call.args)
            if self.is_atomic(e):
                t = ("o", (fr.f.id, i), "vol")
            if self.size(t) <= 20:
                if e["ct"].endswith("*") or not self.isref(e):
                    return ("rv", t)
                return ("lv", ("v", t))
        # effects on what it can reach
        tag = self.H.tag(self, call)
        mod = self.P.mods().get(e.get("f")) if not e.get("virt") else None
        if effects and e.get("virt") and e.get("f"):
            ms = [self.P.mods().get(m) for m in list(self.P.overriders.get(e["f"], ())) + [e["f"]]]
            ms = [m for m in ms if m is not None]
            if ms:
                mod = (frozenset().union(*[m[0] for m in ms]), frozenset().union(*[m[1] for m in ms]))
        if effects and mod is not None:
            pts = e.get("pt") or []
            for n, a in enumerate(call.argids):
                if n in mod[1]:
                    pt = pts[n] if n < len(pts) else ""
                    if pt.rstrip().endswith("&"):
                        kk, t = self.val(fr, a)
                        if kk == "lv":
                            self.havoc(fr, i, t, n + 1, tag)
                    else:
                        v = call.args[n]
                        self.havoc(fr, i, v[1] if v[0] == "a" else ("d", v), n + 1, tag)
            self.havoc_fields(fr, i, mod[0])
            if call.obj is not None and not e.get("constm") and mod[0]:
                # what const methods of the object answered before says nothing any more
                o = self.rd(call.obj)
                gone = lambda t: any(y[0] == "m" and len(y) > 2 and y[2] == o for y in subterms(t))
                if any(gone(a) for a, _ in self.facts):
                    self.facts = frozenset((a, p) for a, p in self.facts if not gone(a))
        elif effects:
            if call.obj is not None and not pure:
                self.havoc(fr, i, call.obj)
            pts = e.get("pt") or []
            for n, a in enumerate(call.argids):
                pt = pts[n] if n < len(pts) else ""
                if pt.rstrip().endswith("&") and not pt.startswith("const "):
                    kk, t = self.val(fr, a)
                    if kk == "lv":
                        self.havoc(fr, i, t, n + 1, tag)
                elif pt.rstrip().endswith("*") and not pt.startswith("const "):
                    v = call.args[n]
                    if v[0] == "a":
                        self.havoc(fr, i, v[1], n + 1, tag)
                    elif v[0] in ("p", "f", "phi", "r", "L", "d", "e", "n"):
                        self.havoc(fr, i, ("d", v), n + 1, tag)
        r = ("r", (fr.f.id, i, fr.depth)) if tag is None else ("r", (fr.f.id, i, fr.depth), tag)
        if effects:
            self.retire(r)
        return ("rv", r) if not self.isref(e) else ("lv", ("v", r))

    def isref(self, e):
        return e.get("rr", False)

    def is_atomic(self, e):
        return "atomic" in (e.get("objt") or "")

    # ------------------------------------------------------------------ steps
    def step(self, cid, stack, env, facts, work):
        self.cur = cid
        self.env, self.facts = dict(env), facts
        stack = [Frame(f.f, f.depth, f.block, f.pos, dict(f.vals), f.ret_expr, f.point) for f in stack]
        fr = stack[-1]
        self.A.functions.add(fr.f.id)
        b = fr.f.blocks[fr.block]
        if fr.pos == 0:
            # loop heads: forget variables the loop assigns
            w = fr.f.loop_widen().get(fr.block)
            if w:
                self.frame = fr
                s = self.H.loop(self, [d for d in w if ("L", fr.depth, d) in self.env])
                if s is not None:
                    self.emit(fr, s, fr.f.line)
                for d in w:
                    loc = ("L", fr.depth, d)
                    if loc in self.env:
                        v = self.env[loc]
                        if v[0] == "ref":
                            continue
                        phi = ("phi", (fr.f.id, fr.block, fr.depth), d)
                        self.retire_phi(phi, loc)
                        dead = [k for k in self.env if k != loc and mentions(k, loc) and k[0] != "L"]
                        for k in dead:
                            self.env.pop(k)
                        self.env[loc] = phi
        els = b["els"]
        n = fr.pos
        seen = set()
        for j in range(n):
            if "e" in els[j]:
                seen.add(els[j]["e"])
        while n < len(els):
            el = els[n]
            if "initf" in el or "initbase" in el or "initdel" in el:
                self.ctor_init(fr, el)
            elif "e" in el:
                i = el["e"]
                if i in seen or i < 0:
                    n += 1
                    continue
                seen.add(i)
                e = fr.f.exprs[i]
                if e["k"] in ("call", "construct", "new", "delete") and not ("v" in e and e["k"] == "call"):
                    if self.do_call(stack, fr, i, e, n, work):
                        return
                elif e["k"] in ("lit", "str", "flit"):
                    pass
                elif e["k"] == "throw":
                    self.emit(fr, self.H.throw(self, {"f": fr.f, "line": e["l"]}), e["l"])
                    return          # no normal continuation
                else:
                    fr.vals[i] = self.evaluate(fr, i, True)
                    if e["k"] in ("member", "ref", "index", "un") and fr.vals[i][0] == "lv":
                        s = self.H.access(self, fr.vals[i][1], {"e": e, "id": i, "f": fr.f, "line": e["l"]}, False)
                        self.emit(fr, s, e["l"])
            elif "decl" in el:
                for v in el["decl"]:
                    loc = ("L", fr.depth, v["d"])
                    if v.get("static"):
                        continue
                    if "init" in v:
                        kk, t = self.val(fr, v["init"])
                        if v["ref"]:
                            self.env[loc] = ("ref", t if kk == "lv" else ("v", t))
                        else:
                            val = self.rv(fr, v["init"])
                            self.do_assign(fr, loc, val, {"l": v["l"], "k": "decl", "c": [], "t": v["t"], "ct": v["ct"]}, rhs=v["init"], decl=True)
                    else:
                        self.env[loc] = ("o", (fr.f.id, v["d"], fr.depth), "undef")
            elif "ret" in el:
                if el["ret"] >= 0:
                    rt = fr.f.d["rt"].rstrip()
                    kk, t = self.val(fr, el["ret"])
                    if rt.endswith("&") and kk == "lv":
                        fr.vals["ret"] = ("lv", t)
                    else:
                        fr.vals["ret"] = ("rv", self.rv(fr, el["ret"]))
                    self.emit(fr, self.H.ret(self, fr.vals["ret"][1], {"f": fr.f, "line": el["l"], "depth": fr.depth, "id": el["ret"]}), el["l"])
            elif "dtor" in el:
                loc = ("L", fr.depth, el["dtor"])
                self.emit(fr, self.H.dtor(self, loc, el), el.get("l", 0))
                self.env.pop(loc, None)
            n += 1
        self.finish_block(stack, fr, b, work)

    def is_const_store(self, k):
        v = self.env[k]
        return v[0] == "c"

    def retire_phi(self, phi, loc):
        stale = ("phi", phi[1], phi[2] + "'")
        env = {}
        for k, v in self.env.items():
            if k != loc and isinstance(v, tuple) and mentions(v, phi):
                v = subst(v, phi, stale)
            if mentions(k, phi):
                k = subst(k, phi, stale)
            env[k] = v
        self.env = env
        self.facts = frozenset((a, p) for a, p in self.facts if not mentions(a, phi) and not mentions(a, stale))

    def ctor_init(self, fr, el):
        if "initf" in el and "e" in el:
            this = self.rd(("L", fr.depth, "this"))
            loc = self.field(self.deref(this), el["initf"])
            v = self.rv(fr, el["e"])
            self.do_assign(fr, loc, v, {"l": el["l"], "k": "init", "c": [], "t": "", "ct": ""}, rhs=el["e"], decl=True)

    def do_call(self, stack, fr, i, e, n, work):
        call, args = self.mk_call(fr, i, e)
        call.lvs = args
        self.emit(fr, self.H.call(self, call), call.line)
        targets = []
        if e["k"] in ("call", "construct"):
            t = e.get("f")
            if e.get("virt"):
                cand = [m for m in self.P.overriders.get(t, ()) if m in self.P.funcs]
                if t in self.P.funcs:
                    cand.append(t)
                targets = cand
            elif t in self.P.funcs:
                targets = [t]
            elif e.get("oper") == "()" and e.get("obj", -1) >= 0:
                pass
        elif e["k"] == "delete" and e.get("dtor") in self.P.funcs:
            targets = [e["dtor"]]
        onstack = {f.f.id for f in stack}
        inl = []
        for t in targets:
            f = self.P.funcs[t]
            if f.has_cfg and t not in onstack and fr.depth < self.H.max_depth and self.H.inline(self, call, f):
                inl.append(f)
        if not inl:
            sp = self.H.split(self, call)
            if sp:
                self.opaque_call(fr, i, e, call, True)
                base = (self.cur, dict(self.env), self.facts)
                for v in sp:
                    self.cur, self.env, self.facts = base[0], dict(base[1]), base[2]
                    nf = Frame(fr.f, fr.depth, fr.block, n + 1, dict(fr.vals), fr.ret_expr, fr.point)
                    nf.vals[i] = ("rv", v)
                    st = stack[:-1] + [nf]
                    self.link(st, work)
                return True
            fr.vals[i] = self.opaque_call(fr, i, e, call, True)
            return False
        # continue after this element when the callee returns
        fr.pos = n + 1
        keep = {x: v for x, v in fr.vals.items()}
        base = (self.cur, dict(self.env), self.facts)
        for f in inl:
            self.cur, self.env, self.facts = base[0], dict(base[1]), base[2]
            caller = Frame(fr.f, fr.depth, fr.block, n + 1, keep, fr.ret_expr, fr.point)
            d = fr.depth + 1
            for m, p in enumerate(f.params):
                loc = ("L", d, p["d"])
                if m < len(args):
                    kk, t = args[m]
                    if p["ref"]:
                        self.env[loc] = ("ref", t if kk == "lv" else ("v", t))
                    else:
                        self.env[loc] = call.args[m]
                else:
                    self.env[loc] = ("o", (f.id, p["d"]), "arg")
            if e["k"] == "construct":
                obj = ("n", (fr.f.id, i, fr.depth))
                self.env[("L", d, "this")] = obj
                caller.vals[("obj", i)] = obj
            elif e["k"] == "delete":
                self.env[("L", d, "this")] = call.args[0] if call.args else ("o", (fr.f.id, i), "del")
            elif call.obj is not None:
                o = call.obj
                self.env[("L", d, "this")] = self.addr(self.resolve(o)) if o[0] != "v" else ("a", o)
            nf = Frame(f, d, f.entry, 0, {}, i, (fr.f.id, i))
            self.link(stack[:-1] + [caller, nf], work)
        return True

    IMPURE = ("call", "construct", "new", "delete", "cond", "lambda", "stmtexpr", "throw")

    def prune_vals(self, fr):
        f = fr.f
        need = f.need_after(fr.block, fr.pos)
        out = {}
        for k, v in fr.vals.items():
            if isinstance(k, tuple) and k[0] == "arm":
                if k[1] in need:
                    out[k] = v
                continue
            if not isinstance(k, int):
                out[k] = v
                continue
            if k in need:
                e = f.exprs[k]
                if e["k"] in self.IMPURE or (e["k"] == "bin" and (e.get("asg") or e["op"] in ("&&", "||"))) or (e["k"] == "un" and ("++" in e["op"] or "--" in e["op"])) or (k in f.cross() and v[0] == "rv" and v[1][0] == "c"):
                    out[k] = v
        fr.vals = out

    def gc_facts(self, stack):
        if not self.facts:
            return
        live = set()
        for v in self.env.values():
            live.update(subterms(v))
        for k in self.env:
            if k[0] != "L":
                live.update(subterms(k))
        for fr in stack:
            for v in fr.vals.values():
                if isinstance(v, tuple):
                    live.update(subterms(v[1]))

        def ok(t, top=False):
            if t in live:
                return True
            k = t[0]
            if k in ("c", "s", "g", "p", "this", "L", "fn", "v"):
                return True
            if k in ("a", "d", "f", "e", "m"):
                return all(ok(y) for y in t[1:] if isinstance(y, tuple))
            if k == "b" and (top or t[1] in NEG):
                return ok(t[2]) and ok(t[3])
            if k == "u":
                return ok(t[2])
            return False
        self.facts = frozenset((a, p) for a, p in self.facts if ok(a, True))

    def link(self, stack, work):
        for fr in stack[-2:]:
            self.prune_vals(fr)
        self.gc_facts(stack)
        t = self.cfg_id(stack, self.env, self.facts, work)
        self.A.edges[self.cur].append((None, t, None))

    def finish_block(self, stack, fr, b, work):
        if fr.block == fr.f.exit:
            self.do_return(stack, fr, work)
            return
        succ = b["succ"]
        term = b.get("term")
        cross = fr.f.cross()
        live_vals = dict(fr.vals)
        base = (self.cur, self.env, self.facts)

        def go(s, cur, env, facts, vals):
            if s < 0:
                return
            self.cur, self.env, self.facts = cur, env, facts
            nf = Frame(fr.f, fr.depth, s, 0, vals, fr.ret_expr, fr.point)
            self.link(stack[:-1] + [nf], work)

        if self.phase == 1 and term and term.get("cond", -1) >= 0 and len(succ) >= 2:
            t0 = self.rv(fr, term["cond"])
            if term["k"] == "SwitchStmt":
                self.sites[self.erase(t0)].add((fr.f.id, term["cond"]))
                self.sites[self.erase(t0)].add((fr.f.id, "switch"))
            elif t0[0] != "c":
                self.sites[self.erase(self.norm(t0)[0])].add((fr.f.id, term["cond"]))
        if not term or term.get("cond", -1) < 0 or len(succ) < 2:
            for s in succ:
                go(s, base[0], dict(base[1]), base[2], dict(live_vals))
            return
        if term["k"] == "SwitchStmt":
            v = self.rv(fr, term["cond"])
            cases, default = [], None
            for s in succ:
                if s < 0:
                    continue
                sb = fr.f.blocks[s]
                if "case" in sb:
                    cases.append((s, fr.f.exprs[sb["case"]].get("v")))
                else:
                    default = s
            for s, cv in cases:
                self.env, self.facts, self.cur = dict(base[1]), base[2], base[0]
                t = ("b", "==", v, ("c", cv))
                kn = self.known(t)
                if kn is False:
                    continue
                sym = self.H.cond(self, t, True, {"f": fr.f, "line": term["l"], "id": term["cond"]})
                self.emit(fr, sym, term["l"])
                if kn is None:
                    self.assume(t, True)
                go(s, self.cur, self.env, self.facts, dict(live_vals))
                if kn is True:
                    return
            if default is not None:
                self.env, self.facts, self.cur = dict(base[1]), base[2], base[0]
                for s, cv in cases:
                    t = ("b", "==", v, ("c", cv))
                    sym = self.H.cond(self, t, False, {"f": fr.f, "line": term["l"], "id": term["cond"]})
                    self.emit(fr, sym, term["l"])
                    self.assume(t, False)
                go(default, self.cur, self.env, self.facts, dict(live_vals))
            return
        t = self.rv(fr, term["cond"])
        kn = self.truthy(t)
        vol = any(x[0] == "o" and x[2] == "vol" for x in subterms(t))
        for s, truth in ((succ[0], True), (succ[1], False)):
            if s < 0 or (kn is not None and kn != truth):
                continue
            self.cur, self.env, self.facts = base[0], dict(base[1]), base[2]
            if t[0] != "c":
                sym = self.H.cond(self, t, truth, {"f": fr.f, "line": term["l"], "id": term["cond"]})
                self.emit(fr, sym, fr.f.exprs[term["cond"]]["l"])
            if kn is None and not vol:
                self.assume(t, truth)
            vals = dict(live_vals)
            for a in fr.f.logic_over(term["cond"]):
                # what was held for them is from an earlier evaluation
                vals.pop(a, None)
            if term["cond"] in cross or "lhs" in term:
                vals[term.get("lhs", term["cond"])] = ("rv", ("c", int(truth)))
                if term["cond"] in cross:
                    vals[term["cond"]] = ("rv", ("c", int(truth)))
            if term["k"] in ("ConditionalOperator", "BinaryConditionalOperator"):
                for x, ee in enumerate(fr.f.exprs):
                    if ee["k"] == "cond" and ee["c"] and self.cond_leaf(fr.f, ee["c"][0], term["cond"]):
                        vals[("arm", x)] = truth
            go(s, self.cur, self.env, self.facts, vals)

    def cond_leaf(self, f, root, x):
        """x is (the last operand of) the condition root"""
        while True:
            if root == x:
                return True
            e = f.exprs[root]
            if e["k"] == "bin" and e["op"] in ("&&", "||"):
                root = e["c"][1]
                continue
            if e["k"] == "un" and e["op"] == "!":
                root = e["c"][0]
                continue
            return False

    def do_return(self, stack, fr, work):
        rv = fr.vals.get("ret")
        if fr.depth == 0:
            self.emit(fr, self.H.exit(self, rv[1] if rv else None), fr.f.d.get("endline", fr.f.line))
            self.A.accept[self.cur] = rv[1] if rv else None
            return
        caller = stack[-2]
        nf = Frame(caller.f, caller.depth, caller.block, caller.pos, dict(caller.vals), caller.ret_expr, caller.point)
        e = caller.f.exprs[fr.ret_expr]
        if e["k"] == "construct":
            obj = nf.vals.pop(("obj", fr.ret_expr))
            nf.vals[fr.ret_expr] = ("rv", obj)
        elif rv is not None:
            if rv[0] == "rv":
                rv = ("rv", self.escape(rv[1], fr.depth))
            nf.vals[fr.ret_expr] = rv
        else:
            nf.vals[fr.ret_expr] = ("rv", ("c", 0)) if e["k"] == "delete" else ("rv", ("void",))
        # locals of the callee die
        d = fr.depth
        retv = nf.vals[fr.ret_expr][1]
        self.env = {k: v for k, v in self.env.items() if not (k[0] == "L" and k[1] == d and not self.escapes(k, retv)) and not (k[0] != "L" and any(x[0] == "L" and x[1] == d for x in subterms(k)))}
        self.link(stack[:-2] + [nf], work)

    def escapes(self, loc, v):
        return isinstance(v, tuple) and mentions(v, loc)

    def escape(self, v, d):
        return v

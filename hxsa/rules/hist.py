"""Histograms: what is counted, what is answered, what is kept."""
import re
from rules.common import *
from rules.client import at
from rules.flow import name, unwrap, freezed
from rules.results import macro_or as macro_value_, steps, param, INT
from rules.serve import not_


class Count(Hooks):
    """a PUT seen from the histograms of its datastore"""
    max_depth = 5
    casts = True

    def __init__(self, P):
        self.P = P
        self.success = macro_value(P, "DATASTORE_SUCCESS")

    def inline(self, x, c, g):
        return g.file.startswith(("src/datastore/datastore.", "include/datastore/datastore.")) and not c.e.get("virt")

    def cast(self, x, t, e, src):
        m = re.match(r"(const )?(float|double) \*$", e.get("ct", ""))
        return ("m", "as", ("c", m.group(2)), t) if m and "void" in src.get("ct", "void") else None

    def tag(self, x, c):
        if c.name in ("memcpy", "memmove") and len(c.args) == 3:
            return ("copy", self.item(c.args[1]), c.args[2][1] if c.args[2][0] == "c" else None)
        if c.e.get("virt") and len(c.args) == 1 and "Message::Request" in c.e["pt"][0]:
            return ("impl",)
        return None

    def item(self, t):
        """(array of the request or response, index) something is taken from"""
        ns, ix, root = steps(t)
        if not ns or not ix:
            return None
        root = unwrap(root)
        of = "req" if param(root, 0) else "res" if root[0] == "r" and len(root) > 2 and root[2] == ("impl",) else None
        return (ns[-1], name(ix[-1]) if ix[-1][0] != "c" else str(ix[-1][1])) if of else None

    def found(self, t):
        """the item whose name was looked up to get something out of the histograms"""
        for s in subterms(t):
            if s[0] == "m" and s[1] in ("find", "count", "at", "operator[]") and len(s) == 4 and self.hists(s[2]):
                return self.key(s[3])
            if s[0] == "e" and self.hists(s[1]):
                return self.key(s[2])
        return None

    def hists(self, t):
        return steps(t)[0][-1:] == ("hists",)

    def key(self, t):
        for s in subterms(t):
            if self.item(s):
                return self.item(s)
        return ("?", "?")

    def value(self, t):
        """(item, type) of a number"""
        u = t
        for s in subterms(u):
            if s[0] == "m" and s[1] == "as":
                return self.item(s[3]), s[2][1]
            if s[0] == "o" and isinstance(s[2], tuple) and s[2][:1] == ("out",) and s[2][1][0] == "copy":
                return s[2][1][1], {4: "float", 8: "double"}.get(s[2][1][2])
        return None, None

    def call(self, x, c):
        if c.qn == "Histogram::Histogram::add":
            it, ty = self.value(c.args[0])
            return ("add", self.found(c.obj), it, ty)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("==", "!="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                eq = truth == (t[1] == "==")
                if self.found(a) and mentions_end(b):
                    return ("known", self.found(a), not eq)
                if a[0] == "m" and a[1] == "data_type" and b[0] == "c" and self.item(a[2]):
                    return ("type", self.item(a[2]), b[1], eq)
                if b[0] == "c" and self.item(a) and self.item(a)[0] == "statuses":
                    return ("status", self.item(a), b[1], eq)
                if b == ("c", 0) and self.found(a):
                    return ("known", self.found(a), not eq)
                if b == ("c", 0) and a[0] == "m" and a[1] == "size" and self.hists(a[2]):
                    return ("some", not eq)
        if t[0] == "b" and t[1] in ("<", "!=", ">"):
            a, b = (t[2], t[3]) if t[1] != ">" else (t[3], t[2])
            if steps(b)[0][-1:] == ("count",):
                return ("item", name(unwrap(a)), truth)
            if a == ("c", 0) and b[0] == "m" and b[1] == "size" and self.hists(b[2]):
                return ("some", truth)
        if t[0] == "m" and t[1] in ("size", "empty") and self.hists(t[2]):
            return ("some", truth == (t[1] == "size"))
        if self.found(t):
            return ("known", self.found(t), truth)
        if unwrap(t)[0] == "r" and self.tagged(unwrap(t)) or t[0] == "m" and t[1].startswith("Usable"):
            return None if truth else ("none",)
        return None

    def tagged(self, t):
        return len(t) > 2 and t[2] == ("impl",)

    def assign(self, x, loc, val, n):
        if loc[0] in ("L", "phi", "j") and INT(x, n):
            if val[0] == "c":
                return ("from", name(loc), val[1])
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
        return None

    def exit(self, x, v):
        return ("exit",)


def mentions_end(t):
    return any(s[0] == "m" and s[1] in ("end", "cend") for s in subterms(t))


def counting(rep):
    P = rep.prog
    rep.rule("counted", "an item of a PUT is added to a histogram exactly if it was stored, its predicate names the histogram and its object is a float or double, as the number it is", 1)
    rep.rule("every item", "every item of a PUT is considered", 1)
    D = enumerators(P, "HXHIM_DATA_")
    BYTE, NUM = D["HXHIM_DATA_BYTE"], {D["HXHIM_DATA_FLOAT"]: "float", D["HXHIM_DATA_DOUBLE"]: "double"}
    fs = [f for f in P.by_qn.get("Datastore::Datastore::operate", []) if f.has_cfg and ptr_class(f.params[0]["ct"]).endswith("::BPut")]
    if len(fs) != 1:
        raise AnalysisBroken("anchor vanished: Datastore::operate(BPut)")
    f = fs[0]
    hk = Count(P)
    A = Interp(P, hk).run(f)
    rep.auto(A)
    init = freezed(dict(i=None, some=None, done=False, status=None, byte=None, known=None, type=None, no=frozenset(), added=False))
    blank = dict(status=None, byte=None, known=None, type=None, no=frozenset(), added=False)

    def step(st, s):
        st = dict(st)
        k = s[0]
        if k == "some":
            if st["some"] is not None and st["some"] != s[1]:
                return None
            st["some"] = s[1]
        elif k == "none":
            st["some"] = False
        elif k == "item":
            if st["i"] is not None and not st["added"]:
                if not (st["status"] is False or st["byte"] is False or st["known"] is False or set(NUM) <= st["no"] or (st["type"] is not None and st["type"] not in NUM)):
                    return ("bad", ("counted", "a stored item whose predicate names a histogram is not added to it"))
            if s[2]:
                if st["done"]:
                    return None
                st["i"] = s[1]
                st.update(blank)
            else:
                st["i"], st["done"] = None, True
                st.update(blank)
        elif k in ("status", "known", "type"):
            if st["i"] is None or s[1][1] != st["i"]:
                return ("bad", ("counted", "the %s of another item is looked at" % {"status": "status", "known": "predicate", "type": "type"}[k]))
            if k == "status":
                v = s[3] if s[2] == hk.success else (False if s[3] else None)
                if v is not None:
                    if st["status"] is not None and st["status"] != v:
                        return None
                    st["status"] = v
            elif k == "known":
                if s[1][0] != "predicates":
                    return ("bad", ("counted", "a histogram is looked up by something else than the predicate"))
                if st["known"] is not None and st["known"] != s[2]:
                    return None
                st["known"] = s[2]
            elif s[1][0] == "predicates":
                v = s[3] if s[2] == BYTE else (False if s[3] else None)
                if v is not None:
                    if st["byte"] is not None and st["byte"] != v:
                        return None
                    st["byte"] = v
            elif s[1][0] == "objects":
                if s[3]:
                    if s[2] in st["no"] or st["type"] is not None and st["type"] != s[2]:
                        return None
                    st["type"] = s[2]
                else:
                    if st["type"] == s[2]:
                        return None
                    st["no"] |= {s[2]}
        elif k == "add":
            if s[1] is None or s[1][0] != "predicates" or s[1][1] != st["i"]:
                return ("bad", ("counted", "something is added to a histogram that the item's predicate does not name"))
            if s[2] is None or s[2][0] != "objects" or s[2][1] != st["i"]:
                return ("bad", ("counted", "something else than the item's object is added to a histogram"))
            if st["status"] is not True:
                return ("bad", ("counted", "an item that was not stored is added to a histogram"))
            if st["known"] is not True:
                return ("bad", ("counted", "a histogram is used that might not exist"))
            if st["byte"] is not True:
                return ("bad", ("counted", "a predicate that is not text is taken for the name of a histogram"))
            if NUM.get(st["type"]) is None or NUM[st["type"]] != s[3]:
                return ("bad", ("counted", "an object of type %s is added as a %s" % ({v: n for n, v in D.items()}.get(st["type"], "unknown"), s[3])))
            if st["added"]:
                return ("bad", ("counted", "an item is added twice"))
            st["added"] = True
        elif k == "exit":
            if st["some"] is not False and not st["done"]:
                return ("bad", ("every item", "items are left out"))
        return freezed(st)
    for (r, m), pos, tr in typestate(A, init, step):
        rep.bad(r, at(pos, f), f.qn, m, m, tr)
    sy = A.symbols()
    for v in {s[1] for s in sy if s[0] == "item"}:
        if {s[2] for s in sy if s[0] == "from" and s[1] == v} != {0} or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
            rep.bad("every item", f, f.qn, "not every item is visited", "visit")
    for need in ("item", "add"):
        if not any(s[0] == need for s in sy):
            rep.bad("counted", f, f.qn, "PUTs are not counted (%s)" % need, need)
    rep.ok("counted", f.qn)
    rep.ok("every item", f.qn)


class Add(Hooks):
    """one value added to a histogram"""
    max_depth = 5

    def __init__(self, P):
        self.P = P
        self.ok = macro_value(P, "HISTOGRAM_SUCCESS")
        self.made = {}

    def inline(self, x, c, g):
        return g.file.startswith(("src/utils/Histogram.", "include/utils/Histogram.")) and not c.e.get("virt")

    def field(self, t):
        """member of the histogram itself a term is the value of"""
        while t[0] in ("v", "d", "a"):
            t = t[1]
        if t[0] == "o" and t[2] == ("out", ("gen",)):
            return self.made.get(t[1][3])
        if t[0] == "r" and len(t) > 2 and t[2] == ("counts",):
            return "counts_"
        if t[0] in ("j", "phi") and isinstance(t[-1], tuple):
            return self.field(t[-1])
        return t[2] if t[0] == "f" and unwrap(t[1]) == ("this",) else None

    def top(self, t):
        """is a term the upper end of the buckets?"""
        if t[0] in ("j", "phi") and isinstance(t[-1], tuple):
            t = t[-1]
        return t[0] == "e" and self.field(t[1]) == "buckets_" and self.field(t[2]) == "size_"

    def number(self, t):
        """which of the values a term is"""
        if param(unwrap(t), 0):
            return ("value",)
        if t[0] == "e" and self.field(t[1]) == "cache_":
            return ("cached", name(unwrap(t[2])))
        return ("?",)

    def tag(self, x, c):
        if c.name in ("upper_bound", "lower_bound") and len(c.args) == 3:
            if self.field(c.args[0]) == "buckets_":
                e = c.args[1]
                whole = e[0] == "b" and e[1] == "+" and {self.field(e[2]), self.field(e[3])} == {"buckets_", "size_"}
                return ("search", c.name if whole else "part", self.number(c.args[2]))
        if c.name in ("lowest", "min", "max", "infinity") and not c.args:
            return ("limit", c.name)
        if self.generates(c):
            self.made = {n + 1: self.field(a) for n, a in enumerate(c.args)}
            return ("gen",)
        if c.name in ("alloc_array", "alloc") and re.match(r"(unsigned long|std::size_t|size_t) \*$", c.e["ct"]):
            return ("counts",)
        return None

    def generates(self, c):
        return any(self.field(a) == "cache_" for a in c.args) and any(self.field(a) == "buckets_" and a[0] == "a" for a in c.args)

    def call(self, x, c):
        if self.generates(c):
            n = c.args[1]
            b, o = linear(n)
            return ("gen", "first" if self.field(n) == "first_n_" else ("count", o) if self.field(b) == "count_" else "?")
        return None

    def index(self, t):
        """(search, offset) a bucket is chosen by"""
        b, o = linear(t)
        if b[0] == "b" and b[1] == "-" and self.field(b[3]) == "buckets_" and unwrap(b[2])[0] == "r" and len(unwrap(b[2])) > 2 and unwrap(b[2])[2]:
            return unwrap(b[2])[2], o
        return None, 0

    def assign(self, x, loc, val, n):
        fl = self.field(loc)
        if fl == "count_":
            b, o = linear(val)
            return ("inc", o if self.field(b) == "count_" else "?")
        if loc[0] == "e" and self.field(loc[1]) == "cache_":
            b, o = linear(loc[2])
            return ("cache", o if self.field(b) == "count_" else "?", self.number(val))
        if loc[0] == "e" and self.field(loc[1]) == "counts_":
            s, o = self.index(loc[2])
            e = n["e"]
            amount = 1 if "++" in n["op"] else n["f"].exprs[n["rhs"]].get("v") if n["op"] == "+=" and n["rhs"] is not None else linear(val)[1] if n["op"] == "=" and linear(val)[0] == loc else None
            if val != ("c", 0) and amount != 1 and (n["op"] != "=" or linear(val)[0] == loc):
                return ("tally", "amount", 0, ("?",))
            if s is not None:
                return ("tally", s[1], o, s[2])
            return ("tally", "?", 0, ("?",)) if val != ("c", 0) else None
        if self.top(loc):
            v = unwrap(val)
            return ("top", v[2] if v[0] == "r" and len(v) > 2 and v[2] else self.number(val))
        if loc[0] in ("L", "phi", "j") and INT(x, n):
            if val[0] == "c":
                return ("from", name(loc), val[1])
            b, o = linear(val)
            if o and name(b) == name(loc):
                return ("by", name(loc), o)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if self.field(t) in ("buckets_", "counts_", "size_", "gen_"):
            return ("has", self.field(t), truth)
        if t[0] == "b" and t[1] in ("<", ">", "<=", ">=", "==", "!="):
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
            for a, b, op in ((t[2], t[3], t[1]), (t[3], t[2], flip.get(t[1], t[1]))):
                ua = unwrap(a)
                if ua[0] == "r" and len(ua) > 2 and ua[2] == ("gen",) and b[0] == "c" and op in ("==", "!="):
                    return ("made", b[1] == self.ok, truth == (op == "=="))
                la, oa = linear(a)
                lb, ob = linear(b)
                if self.field(la) == "count_" and self.field(lb) == "first_n_":
                    return ("rel", oa - ob, op, truth)
                if la[0] in ("phi", "j", "L") and op in ("<", "!="):
                    if self.field(lb) in ("first_n_", "count_"):
                        return ("item", name(la), self.field(lb), oa - ob if oa - ob else -ob, truth)
                if b == ("c", 0) and self.field(a) in ("buckets_", "counts_", "size_", "gen_"):
                    return ("has", self.field(a), truth == (op in ("!=", ">")))
                s, o = self.index(a)
                if s is not None and b[0] == "c":
                    if (b[1] - o) in (0, 2 ** 64) and op in ("==", "!="):
                        return ("below", truth == (op == "=="))
                    if op == "<" and b[1] == o + 1:
                        return ("below", truth)
                    if op == ">=" and b[1] == o + 1:
                        return ("below", not truth)
                if self.top(b) and op in (">", ">="):
                    return ("above", self.number(a), truth)
                if self.top(b) and op in ("<=", "<"):
                    return ("above", self.number(a), not truth)
                if ua[0] == "r" and len(ua) > 2 and ua[2] and ua[2][0] == "search" and self.field(b) == "buckets_" and op in ("==", "!="):
                    return ("below", truth == (op == "=="))
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v is not None and v[0] == "c" else None)


OPS = {"<": lambda a: a < 0, ">": lambda a: a > 0, "<=": lambda a: a <= 0, ">=": lambda a: a >= 0, "==": lambda a: a == 0, "!=": lambda a: a != 0}


def adding(rep):
    P = rep.prog
    rep.rule("one bucket", "a value added to a histogram is kept while fewer than first_n came before it, and counted in the bucket it belongs to once otherwise; the kept values are counted when the buckets are made", 1)
    rep.rule("upper end", "the upper end of the buckets is the largest value counted", 1)
    fs = [f for f in P.by_qn.get("Histogram::Histogram::add", []) if f.has_cfg]
    if len(fs) != 1:
        raise AnalysisBroken("anchor vanished: Histogram::add")
    f = fs[0]
    hk = Add(P)
    A = Interp(P, hk).run(f)
    rep.auto(A)
    # how many values came before this one, compared with first_n: at least 2 fewer, 1 fewer, as many, more
    init = freezed(dict(d=frozenset((-2, -1, 0, 1)), cached=False, inc=False, gen=None, failed=False, new=None, top=False, i=None, loop=False, item=None, direct=None, up=None))

    def settle(st, what):
        """a value is dealt with: its bucket and the upper end"""
        if st["up"] == "due":
            return ("bad", ("upper end", "the upper end is not moved up to a value above it"))
        if st[what] == "yes" and st["up"] is None:
            return ("bad", ("upper end", "the upper end is not compared with a value that was counted"))
        return None

    def step(st, s):
        st = dict(st)
        k = s[0]
        where = "item" if st["i"] is not None else "direct"
        if k == "rel":
            d = frozenset(e for e in st["d"] if OPS[s[2]](e + s[1]) == s[3] or abs(e) == 2 and s[1] > 1)
            if not d:
                return None
            st["d"] = d
        elif k == "inc":
            if st["inc"] or s[1] != 1:
                return ("bad", ("one bucket", "a value is not taken as one value"))
            st["inc"] = True
        elif k == "cache":
            if s[1] != 0 or s[2] != ("value",):
                return ("bad", ("one bucket", "the value is not kept in the place after the others"))
            if st["cached"] or st["d"] - {-2, -1}:
                return ("bad", ("one bucket", "a value is kept for which there is no room"))
            st["cached"] = True
        elif k == "gen":
            if st["gen"]:
                return ("bad", ("one bucket", "the buckets are made twice"))
            if s[1] != "first" and not (isinstance(s[1], tuple) and st["d"] == frozenset((-s[1][1],))):
                return ("bad", ("one bucket", "buckets are made from more values than are kept"))
            if st["d"] & {-2}:
                return ("bad", ("one bucket", "the buckets are made too early"))
            if st["new"] is not True:
                return ("bad", ("one bucket", "buckets that exist are made again"))
            st["gen"] = "open"
        elif k == "made":
            if s[1] == s[2]:
                st["gen"] = "good"
            else:
                st["gen"], st["failed"] = "bad", True
        elif k == "has":
            if s[1] == "buckets_" and not st["gen"] and st["new"] is None:
                st["new"] = not s[2]
                if s[2]:
                    st["d"] -= {-1, -2}
                    if not st["d"]:
                        return None
            elif s[1] == "buckets_" and not st["gen"] and st["new"] == s[2]:
                return None
            elif not s[2]:
                st["failed"] = True
        elif k == "item":
            if st["i"] is not None:
                if st["item"] is None and not st["failed"]:
                    return ("bad", ("one bucket", "a value that was kept is not counted"))
                b = settle(st, "item")
                if b:
                    return b
            if s[4]:
                if st["gen"] not in ("good", "open"):
                    return ("bad", ("one bucket", "kept values are counted again"))
                if st["loop"]:
                    return None
                if not (s[2] == "first_n_" and s[3] == 0 or s[2] == "count_" and st["d"] == frozenset((s[3],))):
                    return ("bad", ("one bucket", "not exactly the kept values are counted"))
                st.update(i=s[1], item=None, up=None)
            else:
                st.update(i=None, loop=True, item=None, up=None)
        elif k == "below":
            if s[1]:
                st[where] = "below"
        elif k == "tally":
            if st[where] is not None:
                return ("bad", ("one bucket", "a value is counted twice"))
            if s[1] == "amount":
                return ("bad", ("one bucket", "a bucket is not counted up by one"))
            if s[1] == "lower_bound":
                return ("bad", ("one bucket", "a value at the left end of a bucket is counted in another"))
            if s[1] == "part" or s[1] == "upper_bound" and s[2] != -1:
                return ("bad", ("one bucket", "a value is not counted in the last bucket that starts at or before it"))
            if s[3] not in (("?",), ("value",) if where == "direct" else ("cached", st["i"])):
                return ("bad", ("one bucket", "the bucket of another value is counted up"))
            if where == "direct" and st["d"] & {-2, -1}:
                return ("bad", ("one bucket", "a value that is kept is counted as well"))
            st[where] = "yes"
        elif k == "top":
            if s[1][0] == "limit":
                if s[1][1] == "min":
                    return ("bad", ("upper end", "the upper end starts above values that can be added"))
                if st["loop"] or st["i"] is not None or st["gen"] is None:
                    return ("bad", ("upper end", "the upper end starts over"))
                st["top"] = True
            elif s[1] in (("value",), ("cached", st["i"])):
                if s[1] != (("value",) if where == "direct" else ("cached", st["i"])) or st["up"] == "no":
                    return ("bad", ("upper end", "the upper end is moved to another value"))
                st["up"] = "yes"
            elif s[1] == ("?",):
                st["up"] = "yes"
            else:
                return ("bad", ("upper end", "the upper end is moved to another value"))
        elif k == "above":
            if not st["top"] and st["gen"] and not st["failed"]:
                return ("bad", ("upper end", "the upper end is not set when the buckets are made"))
            if st["up"] != "yes":
                st["up"] = "due" if s[2] else "no"
        elif k == "exit":
            if st["gen"] == "open":
                return ("bad", ("one bucket", "whether the buckets could be made is not looked at"))
            if not st["inc"]:
                return ("bad", ("one bucket", "a value is not taken as one value"))
            if st["failed"]:
                return freezed(st)
            if s[1] not in (None, hk.ok):
                return ("bad", ("one bucket", "a value is refused although nothing failed"))
            b = settle(st, "direct")
            if b:
                return b
            for d in st["d"]:
                if d < 0 and not st["cached"]:
                    return ("bad", ("one bucket", "a value that came before the buckets is not kept"))
                if d >= -1 and st["new"] is not False and not st["loop"]:
                    return ("bad", ("one bucket", "the kept values are not counted when there are enough of them"))
                if d >= 0 and st["direct"] is None:
                    return ("bad", ("one bucket", "a value that came after the buckets is not counted"))
        return freezed(st)
    for (r, m), pos, tr in typestate(A, init, step):
        rep.bad(r, at(pos, f), f.qn, m, m, tr)
    sy = A.symbols()
    for v in {s[1] for s in sy if s[0] == "item"}:
        if {s[2] for s in sy if s[0] == "from" and s[1] == v} != {0} or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
            rep.bad("one bucket", f, f.qn, "not every kept value is counted", "visit")
    for need in ("rel", "cache", "inc", "gen", "tally"):
        if not any(s[0] == need for s in sy):
            rep.bad("one bucket", f, f.qn, "values are not counted (%s)" % need, need)
    rep.ok("one bucket", f.qn)
    rep.ok("upper end", f.qn)


def counts(rep):
    counting(rep)
    adding(rep)


class Answer(Count):
    """a histogram request"""
    def __init__(self, P):
        Count.__init__(self, P)
        self.error = macro_value(P, "DATASTORE_ERROR")

    def call(self, x, c):
        if c.qn == "Message::Response::BHistogram::add" and len(c.args) == 2:
            null = any(s == ("c", 0) for s in subterms(c.args[0])) and not self.found(c.args[0])
            return ("answer", self.found(c.args[0]), null, c.args[1][1] if c.args[1][0] == "c" else None)
        return None


def answering(rep):
    P = rep.prog
    rep.rule("answered", "every histogram asked for is answered, in order: with the histogram of that name if the datastore has it, with an error otherwise", 1)
    fs = [f for f in P.by_qn.get("Datastore::Datastore::operate", []) if f.has_cfg and ptr_class(f.params[0]["ct"]).endswith("::BHistogram")]
    if len(fs) != 1:
        raise AnalysisBroken("anchor vanished: Datastore::operate(BHistogram)")
    f = fs[0]
    hk = Answer(P)
    A = Interp(P, hk).run(f)
    rep.auto(A)
    init = freezed(dict(i=None, done=False, known=None, answered=False))

    def step(st, s):
        st = dict(st)
        k = s[0]
        if k == "item":
            if st["i"] is not None and not st["answered"]:
                return ("bad", "a histogram that was asked for is not answered")
            if s[2] and st["done"]:
                return None
            st.update(i=s[1] if s[2] else None, done=not s[2], known=None, answered=False)
        elif k == "known":
            if s[1][0] != "names" or s[1][1] != st["i"]:
                return ("bad", "another histogram than the one asked for is looked up")
            if st["known"] is not None and st["known"] != s[2]:
                return None
            st["known"] = s[2]
        elif k == "answer":
            if st["answered"]:
                return ("bad", "a histogram is answered twice")
            if st["i"] is None:
                return ("bad", "an answer belongs to no name")
            if s[1] is not None:
                if st["known"] is not True or s[1] != ("names", st["i"]):
                    return ("bad", "a histogram is answered by one of another name, or by one that might not exist")
                if s[3] != hk.success:
                    return ("bad", "a histogram that was found is answered as an error")
            elif s[3] != hk.error and s[3] is not None:
                return ("bad", "a histogram that does not exist is answered as one")
            elif st["known"] is not False:
                return ("bad", "a histogram that exists is answered by an error")
            st["answered"] = True
        elif k == "exit" and not st["done"]:
            return ("bad", "histograms that were asked for are left out")
        return freezed(st)
    for m, pos, tr in typestate(A, init, step):
        rep.bad("answered", at(pos, f), f.qn, m, m, tr)
    sy = A.symbols()
    for v in {s[1] for s in sy if s[0] == "item"}:
        if {s[2] for s in sy if s[0] == "from" and s[1] == v} != {0} or {s[2] for s in sy if s[0] == "by" and s[1] == v} != {1}:
            rep.bad("answered", f, f.qn, "not every name is visited, in order", "visit")
    for need in ("item", "answer"):
        if not any(s[0] == need for s in sy):
            rep.bad("answered", f, f.qn, "histogram requests are not answered (%s)" % need, need)
    rep.ok("answered", f.qn)


class Keep(Hooks):
    """histograms written into, or read from, a backend"""
    max_depth = 5

    def __init__(self, P):
        self.P = P

    def inline(self, x, c, g):
        return g.file.startswith(("src/datastore/", "include/datastore/")) and not c.e.get("virt") and g.name != "sp_to_key"

    def role(self, t):
        r = "?"
        for s in subterms(t):
            if s[0] == "g" and s[1].endswith("HISTOGRAM_SUBJECT"):
                return "HISTOGRAM_SUBJECT"
            if s[0] == "f" and s[2] in ("first", "second") and r in ("?", "name"):
                r = s[2]
            elif s[0] == "d" and s[1][0] in ("phi", "L", "j") and r == "?":
                r = "name"
        return r

    def tag(self, x, c):
        if c.name == "sp_to_key" and len(c.args) == 3:
            return ("key", self.role(c.args[0]), self.role(c.args[1]))
        if c.name == "pack" and c.qn.startswith("Histogram::"):
            return ("packed", self.role(c.obj))
        if c.name == "unpack" and c.qn.startswith("Histogram::"):
            return ("unpacked", name_of(c.obj))
        if c.name in ("Get", "Write", "Put") and c.obj is not None:
            return (c.name.lower(), self.out(c.args, "key"))
        if c.name in ("make_pair", "pair") and len(c.args) == 2:
            return ("pair", self.role(c.args[0]), name_of(c.args[1]))
        return None

    def out(self, ts, what):
        for t in ts if isinstance(ts, (list, tuple)) and not (ts and isinstance(ts[0], str)) else [ts]:
            for s in subterms(t):
                if s[0] == "o" and isinstance(s[2], tuple) and s[2][:1] == ("out",) and s[2][1][0] == what:
                    return s[2][1]
        return None

    def data(self, t):
        """key of the entry some data comes from"""
        g = self.out([t], "get")
        if g:
            return g[1]
        for s in subterms(t):
            if s[0] == "m" and s[1] in ("find", "at") and steps(s[2])[0][-1:] == ("db",):
                return self.out([s[3]], "key")
            if s[0] == "e" and steps(s[1])[0][-1:] == ("db",):
                return self.out([s[2]], "key")
        return None

    def batch(self, x, c):
        o = unwrap(c.obj)
        return name(o) if name(o) != "?" else None

    def call(self, x, c):
        if c.obj is not None and not c.e.get("constm"):
            k, v = self.out(list(c.args), "key"), self.out(list(c.args), "packed")
            if v and c.name not in ("push_back", "emplace_back", "operator="):
                return ("store", k, v, self.batch(x, c))
        if c.name == "Write" and c.obj is not None:
            for a in c.args:
                if name(unwrap(a)) != "?":
                    return ("commit", name(unwrap(a)))
        if c.name in ("emplace", "insert", "try_emplace") and c.obj is not None and steps(c.obj)[0][-1:] == ("hists",):
            p = [s[2] for s in subterms(unwrap(c.args[0])) if s[0] == "r" and len(s) > 2 and s[2] and s[2][0] == "pair"]
            if p:
                return ("set", p[0][1], p[0][2], "new")
            return ("set", self.role(c.args[0]), name_of(c.args[-1]), "new")
        if c.name == "insert_or_assign" and c.obj is not None and steps(c.obj)[0][-1:] == ("hists",):
            return ("set", self.role(c.args[0]), name_of(c.args[-1]), "any")
        if c.name == "erase" and c.obj is not None and steps(c.obj)[0][-1:] == ("hists",):
            return ("unset",)
        if c.name == "unpack" and c.qn.startswith("Histogram::"):
            return ("parse", self.data(c.args[0]), name_of(c.obj))
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "e" and self.out([val], "packed"):
            return ("store", self.out([loc], "key"), self.out([val], "packed"), None)
        if loc[0] == "e" and steps(loc[1])[0][-1:] == ("hists",):
            return ("set", self.role(loc[2]), name_of(val), "any")
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        u = unwrap(t)
        if u[0] == "r" and len(u) > 2 and u[2] and u[2][0] == "unpacked":
            return ("parsed", truth)
        if t[0] == "m" and t[1] == "ok" and unwrap(t[2])[0] == "r" and len(unwrap(t[2])) > 2 and unwrap(t[2])[2]:
            w = unwrap(t[2])[2]
            return ("found", w[1], truth) if w[0] == "get" else ("committed", truth) if w[0] == "write" else None
        if t[0] == "m" and t[1] == "IsNotFound":
            return None
        if t[0] == "m" and t[1] in ("operator!=", "operator==") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("!=", "==") and mentions_end(t[3]):
            yes = truth == (t[1] == "!=")
            end = [s for s in subterms(t[3]) if s[0] == "m" and s[1] in ("end", "cend")][0]
            if steps(end[2])[0][-1:] == ("db",):
                return ("found", self.data(t[2]), yes)
            if steps(end[2])[0][-1:] == ("hists",) and any(s[0] == "m" and s[1] == "find" and len(s) == 4 for s in subterms(t[2])):
                return ("have", yes)
            if steps(end[2])[0][-1:] == ("hists",) or param(unwrap(end[2]), 0):
                return ("each", yes)
        if self.data(t) and t[0] == "m" and t[1] == "count":
            return ("found", self.data(t), truth)
        return None

    def exit(self, x, v):
        return ("exit", v[1] if v is not None and v[0] == "c" else None)


def name_of(t):
    """identity of the object behind a smart pointer or pointer"""
    for s in subterms(t):
        if s[0] in ("r", "n"):
            return s[:2]
    return name(unwrap(t))


def keeping(rep):
    P = rep.prog
    rep.rule("written", "a backend writes every histogram, packed, under the key of its name, and says so only if that worked", 1)
    rep.rule("read", "a backend reads the histograms it is asked for from the keys they are written under, and each that is there replaces the one of its name", 1)
    good = macro_value(P, "DATASTORE_SUCCESS")
    from rules.store import backends
    for f in backends(P, "WriteHistogramsImpl"):
        A = Interp(P, Keep(P)).run(f)
        rep.auto(A)
        init = freezed(dict(i=None, stored=False, batch=None, due=False, failed=False, any=False))

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k == "each":
                if st["i"] and not st["stored"]:
                    return ("bad", "a histogram is not written")
                if s[1] and st["any"]:
                    return None
                st["i"], st["stored"] = s[1], False
                if not s[1]:
                    st["any"] = True
            elif k == "store":
                if s[1] != ("key", "HISTOGRAM_SUBJECT", "first") or s[2] != ("packed", "second"):
                    return ("bad", "what is written is not the packed histogram under the key of its name")
                if not st["i"] or st["stored"]:
                    return ("bad", "a histogram is written twice, or outside of the loop over all of them")
                st["stored"] = True
                if s[3]:
                    st["batch"], st["due"] = s[3], True
            elif k == "commit":
                if st["batch"] in (None, s[1]):
                    st["due"] = False
            elif k == "committed":
                st["failed"] = not s[1]
            elif k == "exit":
                if st["due"]:
                    return ("bad", "the batch of histograms is not written")
                if not st["any"]:
                    return ("bad", "histograms are left out")
                if (s[1] == good) == st["failed"] and s[1] is not None:
                    return ("bad", "whether the histograms were written is reported wrongly")
            return freezed(st)
        for m, pos, tr in typestate(A, init, step):
            rep.bad("written", at(pos, f), f.qn, m, m, tr)
        for need in ("each", "store"):
            if not any(s[0] == need for s in A.symbols()):
                rep.bad("written", f, f.qn, "histograms are not written (%s)" % need, need)
        rep.ok("written", f.qn)
    for f in backends(P, "ReadHistogramsImpl"):
        A = Interp(P, Keep(P)).run(f)
        rep.auto(A)
        init = freezed(dict(i=None, key=None, found=None, obj=None, parsed=None, set=False, gone=None, any=False))

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k == "each":
                if st["i"] and not st["set"] and st["found"] is not False and st["parsed"] is not False:
                    return ("bad", "a histogram that is there is not read")
                if s[1] and st["any"]:
                    return None
                st.update(i=s[1], key=None, found=None, obj=None, parsed=None, set=False, gone=None)
                if not s[1]:
                    st["any"] = True
            elif k == "found":
                if s[1] not in (("key", "HISTOGRAM_SUBJECT", "name"), ("key", "HISTOGRAM_SUBJECT", "first")):
                    return ("bad", "a histogram is looked up under another key than the one it is written under")
                if st["found"] is not None and st["found"] != s[2]:
                    return None
                st["found"] = s[2]
            elif k == "parse":
                if st["found"] is not True or s[1] != ("key", "HISTOGRAM_SUBJECT", "name"):
                    return ("bad", "a histogram is made from something that was not found under its key")
                st["obj"] = s[2]
            elif k == "parsed":
                st["parsed"] = s[1]
            elif k == "unset":
                st["gone"] = True
            elif k == "have":
                if st["gone"] is None:
                    st["gone"] = not s[1]
            elif k == "set":
                if s[3] == "new" and not st["gone"]:
                    return ("bad", "a histogram that was read does not replace the one of its name")
                if st["parsed"] is not True:
                    return ("bad", "a histogram is used that was not read successfully")
                if s[1] != "name" or s[2] != st["obj"]:
                    return ("bad", "a histogram that was read is registered under another name, or another histogram is")
                st["set"] = True
            elif k == "exit" and not st["any"]:
                return ("bad", "histograms are left out")
            return freezed(st)
        for m, pos, tr in typestate(A, init, step):
            rep.bad("read", at(pos, f), f.qn, m, m, tr)
        for need in ("each", "found", "parse", "set"):
            if not any(s[0] == need for s in A.symbols()):
                rep.bad("read", f, f.qn, "histograms are not read (%s)" % need, need)
        rep.ok("read", f.qn)



class Life(Hooks):
    """opening and closing a datastore"""
    max_depth = 5

    def __init__(self, P):
        self.P = P

    def inline(self, x, c, g):
        return g.file.startswith(("src/datastore/datastore.", "include/datastore/datastore.")) and not c.e.get("virt")

    def call(self, x, c):
        if c.e.get("virt") and c.name.endswith("Impl"):
            a = [param_index(unwrap(v)) for v in c.args]
            return (c.name[:-4], tuple(a))
        if c.name in ("clear",) and c.obj is not None and steps(c.obj)[0][-1:] == ("hists",):
            return ("forget",)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1].startswith("Usable"):
            return ("usable", truth)
        if t[0] == "b" and t[1] in ("!=", "==") and t[3] == ("c", 0):
            t, truth = t[2], truth == (t[1] == "!=")
        if t[0] == "p":
            return ("arg", param_index(t), truth)
        return None

    def exit(self, x, v):
        return ("exit",)


def param_index(t):
    m = re.match(r"p(\d+)d0", t[1]) if t[0] == "p" else re.match(r"p(\d+)d0", name(t))
    return int(m.group(1)) if m else None


def life(rep):
    P = rep.prog
    rep.rule("kept", "histograms are written before their datastore is closed if that was asked for, forgotten with it, and read when it is opened if that was asked for", 3)
    for fn, close, opened in (("Close", 0, None), ("Change", 1, (0, 2)), ("Open", None, (0, 1))):
        fs = [f for f in P.by_qn.get("Datastore::Datastore::" + fn, []) if f.has_cfg]
        if len(fs) != 1:
            raise AnalysisBroken("anchor vanished: Datastore::" + fn)
        f = fs[0]
        A = Interp(P, Life(P)).run(f)
        rep.auto(A)
        init = freezed(dict(asked=None, names=None, usable=None, wrote=False, closed=False, forgot=False, opened=False, read=False))

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k == "arg":
                w = "asked" if s[1] == close and close is not None else "names" if opened and s[1] == opened[1] else None
                if w:
                    if st[w] is not None and st[w] != s[2]:
                        return None
                    st[w] = s[2]
            elif k == "usable":
                if st["usable"] is not None and st["usable"] != s[1]:
                    return None
                st["usable"] = s[1]
            elif k == "WriteHistograms":
                if st["closed"] or st["forgot"] or st["opened"]:
                    return ("bad", "histograms are written after they were forgotten or their datastore was closed")
                if st["asked"] is not True:
                    return ("bad", "histograms are written although that was not asked for")
                st["wrote"] = True
            elif k == "forget":
                st["forgot"] = True
            elif k == "Close":
                if st["asked"] is not False and not st["wrote"] and st["usable"] is not False:
                    return ("bad", "histograms are not written before their datastore is closed")
                st["closed"], st["usable"] = True, None
            elif k == "Open":
                if close is not None and not st["closed"]:
                    return ("bad", "a datastore is opened before the other one is closed")
                if close is not None and not st["forgot"]:
                    return ("bad", "the histograms of the datastore before are kept")
                if s[1] != (opened[0],):
                    return ("bad", "another datastore than the one named is opened")
                st["opened"], st["usable"] = True, None
            elif k == "ReadHistograms":
                if not st["opened"] or st["usable"] is not True:
                    return ("bad", "histograms are read from a datastore that is not known to be open")
                if st["names"] is not True or s[1] != (opened[1],):
                    return ("bad", "histograms are read that were not asked for")
                st["read"] = True
            elif k == "exit":
                if close is not None and not st["closed"]:
                    return ("bad", "the datastore is not closed")
                if close is not None and not st["forgot"]:
                    return ("bad", "the histograms of a closed datastore are kept")
                if opened and not st["opened"]:
                    return ("bad", "the datastore is not opened")
                if opened and st["names"] is not False and st["usable"] is not False and not st["read"]:
                    return ("bad", "the histograms of the datastore are not read")
            return freezed(st)
        for m, pos, tr in typestate(A, init, step):
            rep.bad("kept", at(pos, f), f.qn, m, m, tr)
        rep.ok("kept", f.qn)


class Configured(Hooks):
    """the histograms an instance is configured with get into its datastores"""
    max_depth = 2
    term_scale = 2

    def __init__(self, P):
        self.P = P
        ids = [f.id for f in P.by_qn.get("Datastore::Datastore::AddHistogram", [])]
        self.reach = reaching(P, ids) - set(ids)

    def inline(self, x, c, g):
        return g.id in self.reach or g.d.get("static", False)

    def names(self, t):
        return steps(t)[0][-2:] == ("histograms", "names")

    def elem(self, t):
        """is a term the configured name at hand?"""
        return any(s[0] == "d" and s[1][0] in ("phi", "L", "j") for s in subterms(t))

    def ds(self, t):
        t = unwrap(t)
        return t[:2] if t[0] in ("r", "n") else ("var", name(t))

    def call(self, x, c):
        if c.name == "AddHistogram" and c.obj is not None:
            return ("add", self.elem(c.args[0]))
        if c.name == "ReadHistograms" and c.obj is not None:
            return ("read", self.names(c.args[0]))
        if c.name == "Change" and c.obj is not None and len(c.args) == 3:
            return ("change", self.names(unwrap(c.args[2])) if c.args[2] not in (("c", 0), ("null",)) else None)
        if c.name == "Open" and c.obj is not None and c.qn.startswith("Datastore::"):
            return ("open",)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator!=", "operator==") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("!=", "==") and mentions_end(t[3]):
            end = [s for s in subterms(t[3]) if s[0] == "m" and s[1] in ("end", "cend")][0]
            yes = truth == (t[1] == "!=")
            if self.names(end[2]):
                return ("each", yes)
            if any(s[0] == "m" and s[1] == "find" and len(s) == 4 and self.elem(s[3]) for s in subterms(t[2])):
                return ("known", yes)
        if t[0] == "b" and t[1] in (">", "!=", "==") and t[3] == ("c", 0):
            t, truth = t[2], truth == (t[1] != "==")
        if t[0] == "m" and t[1] == "count" and len(t) == 4 and self.elem(t[3]):
            return ("known", truth)
        if t[0] == "p":
            return ("arg", t[1].split(":")[-1], truth)
        return None


def configured(rep):
    P = rep.prog
    rep.rule("configured", "after a datastore was opened it has a histogram of every configured name, and those that were read from it are not replaced", 2)
    hk = Configured(P)
    fs = [P.funcs[i] for i in sorted(hk.reach) if P.funcs[i].has_cfg and P.funcs[i].file.startswith("src/")
          and any(e["k"] == "call" and e.get("qn") in ("Datastore::Datastore::Open", "Datastore::Datastore::Change") for e in P.funcs[i].exprs)]
    if len(fs) < 2:
        raise AnalysisBroken("nothing adds the configured histograms")
    for f in fs:
        A = Interp(P, hk).run(f)
        rep.auto(A)
        args = {s[1] for s in A.symbols() if s[0] == "arg"}
        init = freezed(dict(i=None, known=None, added=False, asked=None, done=False, skip=False, fresh=False))

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k in ("open", "change"):
                if st["fresh"]:
                    return ("bad", "the histograms of a datastore are not added")
                st.update(fresh=True, skip=False, done=False)
                if k == "change" and s[1] is not None:
                    if not s[1]:
                        return ("bad", "other histograms than the configured ones are read")
                    st["done"] = True
            elif k == "read":
                if not s[1]:
                    return ("bad", "other histograms than the configured ones are read")
                st["done"] = True
            elif k == "arg" and "read" in s[1]:
                if st["asked"] is not None and st["asked"] != s[2]:
                    return None
                st["asked"] = s[2]
            elif k == "arg" and "create" in s[1]:
                st["skip"] = not s[2]
            elif k == "each":
                if st["i"] and not st["added"] and not st["skip"] and st["known"] is not True:
                    return ("bad", "a configured histogram is not added to the datastore")
                if not st["done"] and st["asked"] is not False:
                    return ("bad", "the histograms of a datastore are not read although that may have been asked for")
                if not s[1]:
                    st["fresh"] = False
                st.update(i=s[1], known=None, added=False)
            elif k == "known":
                if st["known"] is not None and st["known"] != s[1]:
                    return None
                st["known"] = s[1]
            elif k == "add":
                if not s[1] or not st["i"]:
                    return ("bad", "a histogram is added under another name than the configured one")
                if st["known"] is True:
                    return ("bad", "a histogram of the datastore is replaced by an empty one")
                if st["known"] is None and st["asked"] is not False:
                    return ("bad", "a histogram is added without looking whether the datastore has it")
                st["added"] = True
            return freezed(st)
        for m, pos, tr in typestate(A, init, step):
            rep.bad("configured", at(pos, f), f.qn, m, m, tr)
        for need in ("each", "add"):
            if not any(s[0] == need for s in A.symbols()):
                rep.bad("configured", f, f.qn, "the configured histograms are not added (%s)" % need, need)
        rep.ok("configured", f.qn)


def keep(rep):
    answering(rep)
    keeping(rep)
    life(rep)
    configured(rep)

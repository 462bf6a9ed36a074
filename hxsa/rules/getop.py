"""GETOP: which records of a datastore are returned, in which order"""
import re
from rules.common import *
from rules.client import at
from rules.flow import name, unwrap, freezed
from rules.results import steps, param
from rules.serve import not_
from rules.store import backends

OPS = ("EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST")
FORWARD, BACKWARD = ("NEXT", "FIRST", "LOWEST"), ("PREV", "LAST", "HIGHEST")
PREFIXED = ("EQ", "LOWEST", "HIGHEST")


def op_values(P):
    """values of hxhim_getop_t"""
    out = {}
    for e in P.enums.values():
        for v in e["vals"]:
            if v["name"].startswith("HXHIM_GETOP_"):
                out[v["name"][len("HXHIM_GETOP_"):]] = v["v"]
    return out


class Walk(Hooks):
    """the position in a datastore while the operations of a request are done"""
    max_depth = 4
    containers = False
    term_scale = 2

    def __init__(self, P):
        self.P = P
        self.error = macro_value(P, "DATASTORE_ERROR")
        self.unset = macro_value(P, "DATASTORE_UNSET")
        self.success = macro_value(P, "DATASTORE_SUCCESS")

    def inline(self, x, c, g):
        return g.file.startswith(("src/datastore/", "include/datastore/")) and not c.e.get("virt") \
            and not c.name.startswith("BGetOp_") and c.name not in ("encode", "decode", "sp_to_key", "key_to_sp")

    def tag(self, x, c):
        if c.name == "BGetOp_loop_init":
            return ("init",)
        if c.name in ("BGetOp_get_seek", "BGetOp_get_seek_end"):
            return ("seek" if c.name == "BGetOp_get_seek" else "seekend",)
        return None

    def keep_fact(self, a):
        return False         # the monitor keeps what it needs

    def what(self, t):
        """kind of a key that is looked for"""
        parts = set()
        for s in subterms(t):
            if s[0] == "r" and len(s) > 2 and s[2] in (("seek",), ("seekend",)):
                return s[2][0]
            if s[0] == "o" and s[2:3] and isinstance(s[2], tuple) and s[2][:1] == ("out",) and s[2][1] == ("init",):
                parts.add(s[1])
            if s[0] == "m" and s[1] == "size":
                return "key"
        return "prefix" if len(parts) == 2 else "?"

    def db(self, t, *names):
        for s in subterms(t):
            if s[0] == "m" and s[1] in names and len(s) > 2 and steps(s[2])[0][-1:] == ("db",):
                return s
        return None

    def is_cursor(self, t):
        t = unwrap(t)
        while t[0] == "m" and t[1].startswith("new ") and len(t) == 3:
            t = unwrap(t[2])
        if t[0] == "b" and t[1] in "+-" and t[3] == ("c", 1):
            return True
        if t[0] in ("m",):
            return self.db(t, "lower_bound", "upper_bound", "find", "begin", "end", "cbegin", "cend", "rbegin", "rend") is not None
        return t[0] in ("phi", "j", "L", "o")

    def call(self, x, c):
        n = c.name
        if n == "Seek" and c.obj is not None:
            return ("seek", "lower", self.what(c.args[0]))
        if n == "SeekForPrev" and c.obj is not None:
            return ("seek", "floor", self.what(c.args[0]))
        if n in ("SeekToFirst", "SeekToLast") and c.obj is not None:
            return ("seek", "begin" if n == "SeekToFirst" else "last", None)
        if n in ("Next", "Prev") and c.obj is not None and not c.args:
            return ("move", 1 if n == "Next" else -1, "it")
        if n == "BGetOp_copy_response":
            k, v = c.args[1], c.args[2]
            same = k[0] == "m" and v[0] == "m" and (k[1], v[1]) == ("key", "value") and k[2] == v[2] or \
                k[0] == "f" and v[0] == "f" and (k[2], v[2]) == ("first", "second") and k[1] == v[1]
            j = c.args[6]
            slot = 0 if j == ("c", 0) else "num_recs" if steps(j)[0][-1:] == ("num_recs",) else name(j)
            return ("copy", bool(same), slot)
        if n == "BGetOp_loop_init":
            return ("init",)
        if n == "BGetOp_error_response":
            return ("failed",)
        return None

    def assign(self, x, loc, val, n):
        if self.status(loc):
            return ("status", val[1] if val[0] == "c" else None)
        if loc[0] == "L":
            v = unwrap(val)
            while v[0] == "m" and v[1].startswith("new ") and len(v) == 3:
                v = unwrap(v[2])
            if v[0] == "c" and isinstance(v[1], int):
                return ("index", name(loc), v[1])
            if v[0] == "b" and v[1] in "+-" and v[3] == ("c", 1):
                w = unwrap(v[2])
                if self.db(w, "end", "begin", "lower_bound", "upper_bound", "cend", "cbegin") or re.search(r"iterator|_Self", self.type_of(x, n)):
                    return ("move", 1 if v[1] == "+" else -1, "map")
                return ("index", name(loc), ("+", 1 if v[1] == "+" else -1))
            if v[0] == "m":
                s = self.db(v, "lower_bound", "upper_bound", "find", "begin", "end", "cbegin", "cend", "rbegin", "rend")
                if s is not None and v == s:
                    k = {"lower_bound": "lower", "cbegin": "begin", "cend": "end"}.get(s[1], s[1])
                    return ("seek", k, self.what(s[3]) if len(s) == 4 else None)
                if s is not None:
                    return ("seek", "?", None)
        return None

    def status(self, t):
        """is a term the status of an item?"""
        while t[0] in ("v", "j") and isinstance(t[-1], tuple) and t[-1][0] in ("e", "j", "v"):
            t = t[-1]
        return t[0] == "e" and "statuses" in str(t[1])

    def type_of(self, x, n):
        return str(n["e"].get("t", ""))

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator!=", "operator==") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "m" and t[1] == "Valid":
            return ("valid", truth)
        if t[0] == "m" and t[1] == "starts_with":
            return ("prefix", self.what(t[3]) == "prefix", truth)
        if t[0] == "m" and t[1] in ("size", "empty"):
            u = unwrap(t[2])
            if u[0] == "r" and len(u) > 2 and u[2] == ("seekend",):
                return ("past", truth == (t[1] == "empty"))
        if t[0] != "b":
            return None
        op, a, b = t[1:]
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if op in ("!=", "=="):
            for v, w in ((a, b), (b, a)):
                e = self.db(w, "end", "cend", "begin", "cbegin")
                if e is not None and self.is_cursor(v):
                    if e[1] in ("end", "cend"):
                        o = self.db(v, "begin", "cbegin")
                        return ("valid" if o is None else "some", truth == (op == "!="))
                    return ("first", truth == (op == "=="))
                if v[0] == "e" and steps(v)[0][-1:] == ("ops",) and w[0] == "c":
                    return ("op", w[1], truth == (op == "=="))
                if w[0] == "c" and self.status(v):
                    return ("has", w[1], truth == (op == "=="))
                if w == ("c", 0) and (v[0] == "m" and v[1] in ("compare", "memcmp", "strncmp") or v[0] == "r"):
                    if v[0] == "m" and self.what(v[3:]) == "prefix":
                        return ("prefix", True, truth == (op == "=="))
                if w == ("c", 0) and v[0] == "m" and v[1] == "size":
                    u = unwrap(v[2])
                    if u[0] == "r" and len(u) > 2 and u[2] == ("seekend",):
                        return ("past", truth == (op == "=="))
        if op in ("<", "!=", "<=") :
            for v, w, less in ((a, b, True), (b, a, False)):
                if v[0] == "e" and steps(v)[0][-1:] == ("num_recs",) and param(steps(v)[2], 0):
                    if not less and op != "<=":
                        j = w
                        return ("bound", 0 if j == ("c", 0) else "num_recs" if steps(j)[0][-1:] == ("num_recs",) else name(j), truth)
                    if less and op == "<=":
                        return ("bound", 0 if w == ("c", 0) else name(w), not truth)
            for v, w in ((a, b), (b, a)):
                if v[0] == "f" and v[2] == "count" and param(steps(v)[2], 0):
                    return ("each", truth == (op == "<"))
        return None

    def exit(self, x, v):
        return ("exit",)


def empty():
    return dict(item=False, op=None, nots=frozenset(), pos=None, valid=None, first=None, prefix=None, past=False, copies=0, moved=None,
                lag=None, bound=None, err=False, skip=False, stop=None, gone=False, ready=False,
                told=0, done=False, open=False, some=False)


def walking(rep):
    P = rep.prog
    rep.rule("start", "the first record a GETOP returns is the one its operator starts at, an operation that has no such record fails, and no other does", 2)
    rep.rule("order", "records are returned one after the other in the direction of the operator, each in its own place, from existing entries only, as long as there are some and not more than asked for", 2)
    rep.rule("answer", "every operation succeeds or fails, and one that fails is answered once with its subject and predicate", 2)
    vals = op_values(P)
    if any(o not in vals for o in OPS):
        raise AnalysisBroken("anchor vanished: GETOP operators")
    names = {vals[o]: o for o in OPS}
    for f in backends(P, "BGetOpImpl"):
        hk = Walk(P)
        A = Interp(P, hk).run(f)
        rep.auto(A)

        def start_ok(st):
            p = st["pos"]
            return {"EQ": p == ("lower", "prefix"), "NEXT": p == ("lower", "prefix"), "PREV": p == ("lower", "prefix"),
                    "FIRST": p == ("begin",), "LAST": p == ("last",),
                    "LOWEST": p in (("lower", "prefix"), ("lower", "seek")),
                    "HIGHEST": p == ("before", "seekend") or p == ("last",) and st["past"]}[st["op"]]

        def answer(st):
            if st["item"]:
                failed = st["err"] or st["skip"]
                if st["told"] != failed or st["done"] == failed:
                    return "an operation that %s is not answered as such" % ("failed" if failed else "succeeded")

        def finish(st):
            if not st["item"] or st["skip"] or st["op"] is None and len(st["nots"]) < len(OPS):
                if st["item"] and not st["skip"] and not st["err"]:
                    return "an operation is finished without having been done"
                return None
            if st["op"] is None:
                return None if st["err"] else "an unknown operation succeeds"
            if st["err"]:
                return None
            if not st["copies"]:
                if st["bound"] is False and start_ok(st) and st["valid"] is not False:
                    return None
                return "an operation succeeds without having returned the record it starts at"
            if st["op"] == "EQ":
                return None
            s = st["stop"]
            if s == "bound" or s == "end" and st["op"] in FORWARD or s == "end" and st["op"] in BACKWARD or s == "prefix" and st["op"] in ("LOWEST", "HIGHEST"):
                return None
            return "an operation ends although there may be more records to return"

        def step(st, s):
            st = dict(st)
            k = s[0]
            if k in ("exit", "each"):
                m = finish(st)
                if m:
                    return ("bad", "start", m)
                m = answer(st)
                if m:
                    return ("bad", "answer", m)
                st = empty()
                st["item"] = k == "each" and s[1]
            elif k == "init":
                st["ready"] = True
            elif not st["item"]:
                pass
            elif k == "failed":
                st["told"] = min(2, st["told"] + 1)
            elif k == "has":
                if s[1] == hk.unset:
                    if (st["err"] or st["skip"]) and s[2]:
                        return None
                    if s[2] and not st["copies"]:
                        st["open"] = True
                    if not s[2] and st["open"] and not st["copies"] and not st["err"]:
                        return None
                    if not s[2] and not st["err"]:
                        if st["copies"]:
                            st["err"] = True
                        else:
                            st["skip"] = True
            elif k == "status":
                if s[1] == hk.error:
                    if not st["skip"] and not st["err"]:
                        if st["op"] is None and len(st["nots"]) < len(OPS):
                            return ("bad", "start", "an operation fails before it is looked at")
                        if st["op"] and (st["copies"] or not (st["valid"] is False or st["op"] in PREFIXED and st["prefix"] is False)):
                            return ("bad", "start", "an operation fails although the record it starts at exists")
                        if st["op"] and not (start_ok(st) or st["op"] == "LAST" and st["pos"] == ("end",) and st["first"] is True
                                             or st["op"] == "HIGHEST" and st["pos"] == ("end",) and st["gone"]):
                            return ("bad", "start", "an operation fails because of another record than the one it starts at")
                    st["err"] = True
                elif s[1] == hk.success and not st["err"] and not st["skip"]:
                    st["done"] = True
                else:
                    return ("bad", "answer", "the status of an operation is set to something else than what it did")
            elif k == "op":
                o = names.get(s[1])
                if s[2]:
                    if st["op"] not in (None, o) or o is None or o in st["nots"]:
                        return None
                    st["op"] = o
                elif o:
                    if st["op"] == o:
                        return None
                    st["nots"] = st["nots"] | {o}
            elif k == "seek":
                if s[2] == "seekend" and not st["some"]:
                    return ("bad", "start", "the end of the prefix is looked for although there need not be one")
                if st["copies"]:
                    return ("bad", "order", "the position is changed while records are returned")
                if s[1] == "end" and (st["pos"] == ("lower", "seekend") or st["pos"] == ("end",) and st["past"]) and st["first"] is True:
                    st["gone"] = True
                else:
                    st["gone"] = False
                if s[1] == "last" and st["pos"] == ("lower", "seekend") and st["valid"] is False:
                    st["past"] = True
                st.update(pos=(s[1],) if s[2] is None else (s[1], s[2]), valid=False if s[1] == "end" else None, first=None, prefix=None, moved=None)
            elif k == "move":
                if s[2] == "map" and s[1] < 0:
                    if st["first"] is not False:
                        return ("bad", "order", "the position is moved in front of the first entry")
                elif st["valid"] is not True:
                    return ("bad", "order", "the position is moved without there being an entry")
                p = st["pos"]
                if not st["copies"]:
                    st["pos"] = ("last",) if p == ("end",) and s[1] < 0 else ("before", p[1]) if p and p[0] == "lower" and s[1] < 0 else ("?",)
                elif st["moved"] is not None:
                    st["moved"] = "twice"
                else:
                    st["moved"] = s[1]
                st.update(valid=True if s[2] == "map" and s[1] < 0 else None, first=None, prefix=None, bound=st["bound"])
            elif k in ("valid", "some"):
                if k == "some" or st["valid"] is not None:
                    if st["valid"] is not None and st["valid"] != s[1]:
                        return None
                st["valid"] = s[1]
                if s[1] is False:
                    st["stop"] = "end"
            elif k == "first":
                if st["first"] is not None and st["first"] != s[1]:
                    return None
                st["first"] = s[1]
                if s[1] and st["moved"] is None:
                    st["stop"] = "end" if st["op"] in BACKWARD else "first"
            elif k == "prefix":
                if not s[1]:
                    return st_(st)
                if st["valid"] is not True:
                    return ("bad", "order", "the prefix of an entry that need not exist is looked at")
                if st["prefix"] is not None and st["prefix"] != s[2]:
                    return None
                st["prefix"] = s[2]
                if not s[2]:
                    st["stop"] = "prefix"
            elif k == "past":
                if s[1] and st["some"] or not s[1] and st["past"] and not st["some"]:
                    return None
                if s[1]:
                    st["past"] = True
                else:
                    st["some"] = True
            elif k == "index":
                if isinstance(s[2], int):
                    if s[2] == 0:
                        st["lag"] = (s[1], -st["copies"])
                elif st["lag"] and st["lag"][0] == s[1]:
                    st["lag"] = (s[1], max(-2, min(2, st["lag"][1] + s[2][1])))
            elif k == "bound":
                if place(st, s[1]):
                    st["bound"] = s[2]
                    if not s[2]:
                        st["stop"] = "bound"
            elif k == "copy":
                if not s[1]:
                    return ("bad", "order", "the key and the value of a record are not from one entry")
                if st["op"] is None:
                    return ("bad", "start", "a record is returned for an unknown operation")
                if st["err"]:
                    return ("bad", "start", "a record is returned by an operation that failed")
                if st["valid"] is not True:
                    return ("bad", "order", "a record is returned from an entry that need not exist")
                if not place(st, s[2]):
                    return ("bad", "order", "a record is returned in another place than the next one")
                if st["op"] != "EQ" and st["bound"] is not True:
                    return ("bad", "order", "more records are returned than were asked for")
                if st["op"] in PREFIXED and st["prefix"] is not True:
                    return ("bad", "start", "a record is returned whose key need not have the prefix that was asked for")
                if not st["copies"]:
                    if not start_ok(st):
                        return ("bad", "start", "the first record is not the one the operation starts at")
                elif st["op"] == "EQ":
                    return ("bad", "order", "more than one record is returned for EQ")
                elif st["moved"] != (1 if st["op"] in FORWARD else -1):
                    return ("bad", "order", "a record is not followed by its neighbour in the direction of the operation")
                st.update(copies=1, moved=None, bound=None, stop=None, first=st["first"])
                if st["lag"]:
                    st["lag"] = (st["lag"][0], max(-2, st["lag"][1] - 1))
            return st_(st)

        def st_(st):
            return freezed(st)

        def place(st, j):
            if j == "num_recs":
                return True
            if j == 0:
                return not st["copies"]
            return st["lag"] is not None and st["lag"] == (j, 0)

        init = empty()
        init["gone"] = False

        def wrapped(st, s):
            r = step(st, s)
            if isinstance(r, tuple) and r and r[0] == "bad":
                return ("bad", (r[1], r[2]))
            return r
        for m, pos, tr in typestate(A, freezed(init), wrapped):
            rep.bad(m[0], at(pos, f), f.qn, m[1], m[1], tr)
        for need in ("init", "op", "seek", "move", "copy", "bound", "status"):
            if not any(s[0] == need for s in A.symbols()):
                rep.bad("start", f, f.qn, "the records of a GETOP are not looked for (%s)" % need, need)
        rep.ok("start", f.qn)
        rep.ok("order", f.qn)
        rep.ok("answer", f.qn)



class Split(Interp):
    SPLIT = ("c", "n", "s", "fn", "void", "e", "r", "m", "b", "o")


def small(P, f, hk):
    """a short function of the datastore, path by path"""
    return Split(P, hk).run(f)


def member(P, n):
    f = [f for f in P.by_qn.get("Datastore::Datastore::" + n, []) if f.has_cfg]
    if not f:
        raise AnalysisBroken("anchor vanished: " + n)
    return f[0]


DROP = "drop"        # the path cannot happen


def check(rep, rule, f, A, init, step, needs=()):
    def wrapped(st, s):
        st = dict(st)
        r = step(st, s)
        return None if r == DROP else r if r else freezed(st)
    rep.auto(A)
    for m, pos, tr in typestate(A, freezed(init), wrapped):
        rep.bad(rule, at(pos, f), f.qn, m, m, tr)
    for need in needs:
        if not any(s[0] == need for s in A.symbols()):
            rep.bad(rule, f, f.qn, "not done: " + need, need)
    rep.ok(rule, f.qn)


class Parts(Hooks):
    """where the parts of a record come from and go to"""
    max_depth = 3
    containers = False
    term_scale = 2
    opaque = ("decode", "key_to_sp", "remove_type", "encode", "sp_to_key", "alloc_array", "max")

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.success = macro_value(P, "DATASTORE_SUCCESS")
        self.error = macro_value(P, "DATASTORE_ERROR")
        self.unset = macro_value(P, "DATASTORE_UNSET")

    def inline(self, x, c, g):
        return g.file.startswith(("src/datastore/", "include/datastore/")) and not c.e.get("virt") and c.name not in self.opaque

    def pos(self, t, n):
        """is a term the n-th parameter?"""
        t = unwrap(t)
        return param(t, n)

    def out(self, t):
        """(tag, argument) of a value a call wrote"""
        t = unwrap(t)
        if t[0] == "o" and len(t) > 2 and isinstance(t[2], tuple) and t[2][:1] == ("out",):
            return t[2][1], t[1][3]
        return None, None

    def ptag(self, t):
        t = unwrap(t)
        while t[0] == "m" and t[1] in ("move", "std::move") and len(t) == 3:
            t = unwrap(t[2])
        return t[2] if t[0] == "r" and len(t) > 2 else None

    def entry(self, t, field, who, i):
        """is a term FIELD[i] of the parameter WHO?"""
        t = unwrap(t)
        n, idx, r = steps(t)
        return n[-1:] == (field,) and len(idx) == 1 and param(idx[0], i) and param(r, who)

    def status(self, t, who, i):
        while t[0] in ("v", "j") and isinstance(t[-1], tuple) and t[-1][0] in ("e", "j", "v"):
            t = t[-1]
        return self.entry(t, "statuses", who, i)


class Copy(Parts):
    """void BGetOp_copy_response(callbacks, key, value, req, res, i, j, event)"""
    def kind(self, t):
        t = unwrap(t)
        g, n = self.out(t)
        if g == ("split",):
            return {2: "subjects", 3: "predicates"}.get(n)
        g = self.ptag(t)
        return "objects" if g == ("object",) else None

    def whole(self, a, b, n):
        """are two terms the data and the size of a parameter?"""
        return a[0] == "m" and b[0] == "m" and (a[1], b[1]) in (("data", "size"), ("data", "length"), ("c_str", "size")) and self.pos(a[2], n) and self.pos(b[2], n)

    def tag(self, x, c):
        n, a = c.name, c.args
        if n in ("ReferenceBlob", "Blob") and len(a) >= 3:
            if self.whole(a[0], a[1], 1):
                return ("key",)
            d = a[0]
            if d[0] == "m" and d[1] in ("data", "c_str") and self.pos(d[2], 2) and self.out(a[1]) == (("type",), 2) and self.ptag(a[2]) == ("type",):
                return ("object",)
        if n in ("RealBlob",) and len(a) >= 3:
            g, k = self.out(a[0])
            h, l = self.out(a[1])
            if g and g[0] == "dec" and g == h and (k, l) == (3, 4):
                t = a[2]
                if t[0] == "m" and t[1] == "data_type" and self.kind(t[2]) == g[1]:
                    return ("blob", g[1])
            return ("blob", None)
        if n == "key_to_sp" and len(a) >= 3:
            return ("split",) if self.ptag(a[0]) == ("key",) else None
        if n == "remove_type":
            return ("type",) if self.whole(a[0], ("m", "size", ("p", "p2d0")), 2) else None
        if n == "decode":
            return ("dec", self.kind(a[1])) if self.pos(a[0], 0) else ("dec", None)
        return None

    def call(self, x, c):
        if c.name == "decode":
            return ("decode",)
        return None

    def assign(self, x, loc, val, n):
        if loc[0] != "e":
            return None
        if self.status(loc, 4, 5):
            return ("status", val[1] if val[0] == "c" else None)
        if self.entry(loc, "num_recs", 4, 5):
            return ("count", val == ("b", "+", loc, ("c", 1)))
        nm, idx, r = steps(loc)
        if len(nm) == 1 and param(r, 4):
            ok = len(idx) == 2 and param(idx[0], 5)
            j = "j" if ok and param(idx[1], 6) else "next" if ok and self.entry(idx[1], "num_recs", 4, 5) else None
            g = self.ptag(val)
            return ("put", nm[0], g[1] if g and g[0] == "blob" else None, j)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!="):
            truth = truth == (t[1] == "==")
            for v, w in ((t[2], t[3]), (t[3], t[2])):
                if w[0] != "c":
                    continue
                g = self.ptag(v)
                if g and g[0] == "dec" and w[1] in (self.success, self.error):
                    return ("dec", g[1], truth == (w[1] == self.success))
                if self.status(v, 4, 5) and w[1] in (self.unset, self.error):
                    return ("failed", truth == (w[1] == self.error))
        return None

    def exit(self, x, v):
        return ("exit",)


RECORD = ("subjects", "predicates", "objects")


def record(rep):
    P = rep.prog
    rep.rule("record", "a returned record consists of the decoded subject, predicate and object of its entry and is counted once, and a record that cannot be decoded makes its operation fail", 1)
    f = member(P, "BGetOp_copy_response")
    hk = Copy(P, f)
    A = small(P, f, hk)

    def step(st, s):
        k = s[0]
        if k == "failed":
            if s[1] and not st["puts"] and not st["failed"]:
                st["skip"] = True
        elif k == "dec":
            d = dict(st["decs"])
            if d.get(s[1], s[2]) != s[2]:
                return DROP
            d[s[1]] = s[2]
            st["decs"] = tuple(sorted(d.items(), key=str))
        elif k == "put":
            if s[1] in RECORD:
                if st["skip"]:
                    return ("bad", "a record is returned by an operation that failed")
                if s[2] != s[1]:
                    return ("bad", "the %s of a record is not the one that was stored" % s[1][:-1])
                if s[3] is None or s[3] == "next" and st["count"]:
                    return ("bad", "the %s of a record is put into another place" % s[1][:-1])
                if dict(st["decs"]).get(s[1]) is not True:
                    return ("bad", "the %s of a record is returned although it need not have been decoded" % s[1][:-1])
                st["puts"] = st["puts"] | {s[1]}
        elif k == "count":
            if not s[1]:
                return ("bad", "the records that are returned are not counted one by one")
            st["count"] += 1
            if st["count"] > 1:
                return ("bad", "a record is counted twice")
        elif k == "status":
            if s[1] != hk.error:
                return ("bad", "a record changes the status of its operation to something else than failure")
            st["failed"] = True
        elif k == "exit":
            if st["skip"]:
                if st["count"]:
                    return ("bad", "a record is counted by an operation that failed")
                return
            bad = [k for k, v in st["decs"] if v is False]
            if st["failed"] and not bad:
                return ("bad", "an operation fails although its record was decoded")
            if st["failed"] and st["count"]:
                return ("bad", "a record that was not decoded is counted")
            if not st["failed"]:
                if bad:
                    return ("bad", "a record that was not decoded does not make its operation fail")
                if not st["count"] or st["puts"] != frozenset(RECORD):
                    return ("bad", "a record is not returned although its operation goes on")

    check(rep, "record", f, A, dict(decs=(), puts=frozenset(), count=0, failed=False, skip=False), step, ("put", "count", "status", "decode"))


class Room(Parts):
    """void BGetOp_loop_init(req, res, i, subject, subject_len, predicate, predicate_len, key, prefix_len)"""
    def tag(self, x, c):
        n, a = c.name, c.args
        if n == "max" and len(a) == 2:
            for v, w in ((a[0], a[1]), (a[1], a[0])):
                if self.entry(v, "num_recs", 0, 2) and w[0] == "c" and w[1] >= 1:
                    return ("enough",)
        if n == "alloc_array" and a:
            return ("room", self.amount(a[0]))
        if n == "encode" and len(a) == 4:
            for w in ("subjects", "predicates"):
                if self.entry(a[1], w, 0, 2):
                    return ("enc", w)
        if n in ("ReferenceBlob", "Blob") and len(a) >= 3:
            g, k = self.out(a[0])
            h, l = self.out(a[1])
            if g and g[0] == "enc" and g == h and (k, l) == (3, 4) and a[2][0] == "m" and a[2][1] == "data_type" and self.entry(a[2][2], g[1], 0, 2):
                return ("part", g[1])
        if n == "sp_to_key" and len(a) == 3:
            if self.ptag(a[0]) == ("part", "subjects") and self.ptag(a[1]) == ("part", "predicates") and self.pos(a[2], 7):
                return ("key",)
        return None

    def amount(self, t):
        t = unwrap(t)
        if self.ptag(t) == ("enough",):
            return "enough"
        if t[0] == "c":
            return "some" if t[1] >= 1 else "none"
        if self.entry(t, "num_recs", 0, 2):
            return "asked"
        b, o = linear(t)
        if o and o >= 1 and self.entry(b, "num_recs", 0, 2):
            return "enough"
        return "?"

    def call(self, x, c):
        if c.name == "add" and c.obj is not None and param(steps(c.obj)[2], 1):
            a = c.args
            return ("add", tuple(g[1] if g and g[0] == "room" else None for g in map(self.ptag, a[:3])), a[3] == ("c", 0), a[4] == ("c", self.unset))
        if c.name == "encode":
            g = self.tag(x, c)
            ok = self.pos(c.args[2], 3 if g == ("enc", "subjects") else 5) and self.pos(c.args[3], 4 if g == ("enc", "subjects") else 6)
            return ("encode", g[1] if g and ok else None)
        if c.name == "sp_to_key":
            return ("key", self.tag(x, c) == ("key",))
        return None

    def assign(self, x, loc, val, n):
        if self.status(loc, 1, 2):
            return ("status", val[1] if val[0] == "c" else None)
        if self.pos(loc, 8) and val != ("c", 0):
            ok = val[0] == "b" and val[1] == "+" and {self.out(val[2]), self.out(val[3])} == {(("enc", "subjects"), 4), (("enc", "predicates"), 4)}
            return ("prefix", bool(ok))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if self.entry(t, "num_recs", 0, 2):
            return ("asked", truth)
        if t[0] == "b" and t[1] in ("==", "!=", "<", ">", "<=", ">="):
            op, a, b = t[1:]
            if op in ("<", "<=", ">", ">=") and b[0] == "c" and self.entry(a, "num_recs", 0, 2):
                op, a, b = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], b, a
            if op in ("<", "<=", ">", ">=") and a[0] == "c" and self.entry(b, "num_recs", 0, 2):
                if (op, a[1]) in (("<", 0), ("<=", 1)):
                    return ("asked", truth)
                if (op, a[1]) in ((">", 1), (">=", 0)):
                    return ("asked", not truth)
                return None
            if op in ("==", "!="):
                truth = truth == (op == "==")
                for v, w in ((a, b), (b, a)):
                    if w[0] != "c":
                        continue
                    if w[1] == 0 and self.entry(v, "num_recs", 0, 2):
                        return ("asked", not truth)
                    if self.entry(v, "ops", 0, 2):
                        return ("op", w[1], truth)
                    g = self.ptag(v)
                    if g and g[0] == "enc":
                        return ("enc", g[1], truth == (w[1] == self.success)) if w[1] in (self.success, self.error) else None
                    if g == ("key",):
                        return ("made", truth == (w[1] == self.hx)) if w[1] in (self.hx, self.hxerr) else None
                    if self.status(v, 1, 2) and w[1] in (self.unset, self.error):
                        return ("failed", truth == (w[1] == self.error))
        return None

    def exit(self, x, v):
        return ("exit",)


def request(rep):
    P = rep.prog
    rep.rule("request", "an operation starts with an empty answer that has room for the records asked for and at least one, and with the key of its encoded subject and predicate, or it fails", 1)
    f = member(P, "BGetOp_loop_init")
    hk = Room(P, f)
    hk.hx, hk.hxerr = macro_value(P, "HXHIM_SUCCESS"), macro_value(P, "HXHIM_ERROR")
    A = small(P, f, hk)
    vals = op_values(P)
    plain = {vals["FIRST"], vals["LAST"]}

    def step(st, s):
        k = s[0]
        if k == "asked":
            if st["asked"] not in (None, s[1]):
                return DROP
            st["asked"] = s[1]
        elif k == "op":
            if s[2]:
                if s[1] in st["nots"] or st["op"] not in (None, s[1]):
                    return DROP
                st["op"] = s[1]
            else:
                if st["op"] == s[1]:
                    return DROP
                st["nots"] = st["nots"] | {s[1]}
        elif k == "add":
            if st["added"]:
                return ("bad", "an operation has two answers")
            st["added"] = True
            for r in s[1]:
                if not (r == "enough" or r == "asked" and st["asked"] or r == "some" and st["asked"] is False):
                    return ("bad", "there may be less room for records than is needed")
            if not s[2] or not s[3]:
                return ("bad", "an operation does not start with an empty answer that is still open")
        elif k == "encode":
            if s[1] is None:
                return ("bad", "something else than the subject and the predicate of the operation is encoded")
            st["encs"] = st["encs"] | {s[1]}
        elif k == "enc":
            if s[1] == "subjects":
                if st["enc"] not in (None, s[2]):
                    return DROP
                st["enc"] = s[2]
        elif k == "failed":
            if s[1] != st["failed"]:
                return DROP
        elif k == "key":
            if not s[1] or st["encs"] != frozenset(("subjects", "predicates")):
                return ("bad", "the key of an operation is not made from its encoded subject and predicate")
            st["key"] = None
        elif k == "made":
            st["key"] = s[1]
        elif k == "prefix":
            if not s[1]:
                return ("bad", "the length of the prefix is not that of the encoded subject and predicate")
            st["prefix"] = True
        elif k == "status":
            if s[1] == hk.error and st["added"]:
                st["failed"] = True
            else:
                return ("bad", "the status of an operation is set to something else than failure before it is done")
        elif k == "exit":
            if not st["added"]:
                return ("bad", "an operation has no answer")
            if st["op"] in plain:
                return ("bad", "an operation that needs no subject and predicate fails") if st["failed"] and not st["encs"] else None
            good = st["enc"] is True and st["key"] is True
            if not st["failed"] and not good:
                if st["op"] is None and not plain <= st["nots"] and st["enc"] is not False:
                    return DROP
                return ("bad", "an operation goes on without the key of its subject and predicate")
            if not st["failed"] and not st["prefix"]:
                return ("bad", "an operation goes on without the length of its prefix")
            if st["failed"] and good:
                return ("bad", "an operation fails although there is a key for its subject and predicate")

    check(rep, "request", f, A, dict(asked=None, op=None, nots=frozenset(), added=False, encs=frozenset(), enc=None, key="none", prefix=False, failed=False),
          step, ("add", "encode", "key", "prefix", "status"))


class Seek(Parts):
    """std::string BGetOp_get_seek(key, prefix_len, predicate_len, predicate_type)"""
    numbers = ()

    def symbol(self, t):
        t = unwrap(t)
        if t[0] == "c" and isinstance(t[1], int):
            return ("c", t[1] & 255)
        n, _, r = steps(t)
        return n[-1] if n and n[-1] in ("neg", "pos") and r[0] == "this" else "?"

    def after(self, t):
        """characters after the prefix a length is"""
        b, o = linear(unwrap(t))
        return o if param(b, 1) else None

    def made(self, t):
        """length of the prefix of the key a string is made with"""
        t = unwrap(t)
        if t[0] == "m" and t[1].startswith("new ") and "string" in t[1] and len(t) >= 4 and t[2][0] == "m" and t[2][1] == "data" and self.pos(t[2][2], 0):
            n = self.after(t[3])
            return n if n is not None else "?"
        return None

    def call(self, x, c):
        n, a = c.name, c.args
        if n in ("operator+=", "push_back", "append") and c.obj is not None and a:
            if n == "append" and len(a) == 2:
                return ("more", self.symbol(a[1])) if a[0] == ("c", 1) else ("more", "?")
            return ("more", self.symbol(a[0]))
        if n == "resize" and c.obj is not None:
            k = self.after(a[0])
            return ("cut", "?" if k is None else k)
        if n == "pop_back" and c.obj is not None:
            return ("pop",)
        return None

    def assign(self, x, loc, val, n):
        m = self.made(val)
        if loc[0] == "L" and m is not None:
            return ("make", m)
        if "basic_string" in str(n["e"].get("t", "")) and loc[0] == "L":
            return ("make", "?")
        t = unwrap(loc)
        if t[0] == "m" and t[1] == "back":
            b, o = linear(val)
            return ("last", "inc" if o == 1 and unwrap(b)[:2] == ("m", "back") else "?")
        if t[0] == "m" and t[1] in ("operator[]", "at") or t[0] == "e":
            k = self.after(t[3] if t[0] == "m" else t[2])
            return ("write", "?" if k is None else k, self.symbol(val))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("size", "length", "empty"):
            if param(unwrap(t[2]), 0):
                return None
            return ("some", truth == (t[1] != "empty"))
        if t[0] == "b" and t[1] in ("==", "!=", "<", ">"):
            op, a, b = t[1:]
            if op == ">":
                op, a, b = "<", b, a
            if op == "<":
                if a == ("c", 0) and b[0] == "m" and b[1] in ("size", "length"):
                    return ("some", truth)
                return None
            truth = truth == (op == "==")
            for v, w in ((a, b), (b, a)):
                if w[0] != "c":
                    continue
                if v[0] == "m" and v[1] in ("size", "length") and w[1] == 0:
                    return ("some", not truth)
                if v[0] == "m" and v[1] == "back" and w[1] in (0xffffffff, 0xff, -1):
                    return ("top", truth)
                if param(unwrap(v), 2) and w[1] == 0:
                    return ("rest", truth)
                if param(unwrap(v), 3):
                    return ("type", w[1], truth)
        return None

    def exit(self, x, v):
        return ("exit",)


def bounds(rep):
    P = rep.prog
    rep.rule("bounds", "the search for a prefix starts at the prefix, for numbers at their sign, and the search for its end at the first key after all keys that have it", 2)
    kinds = {}
    for e in P.enums.values():
        for v in e["vals"]:
            if v["name"].startswith("HXHIM_DATA_"):
                kinds[v["v"]] = v["name"][len("HXHIM_DATA_"):]
    numbers = {v for v, n in kinds.items() if n in ("INT32", "INT64", "UINT32", "UINT64", "FLOAT", "DOUBLE")}
    if len(numbers) != 6:
        raise AnalysisBroken("anchor vanished: data types")
    for fn, sign in (("BGetOp_get_seek", "neg"), ("BGetOp_get_seek_end", "pos")):
        f = member(P, fn)
        hk = Seek(P, f)
        A = small(P, f, hk)

        def step(st, s):
            k = s[0]
            if k == "make":
                if s[1] == "?" or not isinstance(s[1], int) or s[1] < 0:
                    return ("bad", "the key that is looked for does not start with the prefix")
                if st["tail"] is not None:
                    return ("bad", "the key that is looked for is replaced")
                st["tail"] = ("?",) * s[1]
            elif st["tail"] is None and k not in ("rest", "type", "exit"):
                return
            elif k == "rest":
                if st["rest"] not in (None, s[1]):
                    return DROP
                st["rest"] = s[1]
            elif k == "type":
                if s[2]:
                    if st["type"] not in (None, s[1]) or s[1] in st["nots"]:
                        return DROP
                    st["type"] = s[1]
                else:
                    if st["type"] == s[1]:
                        return DROP
                    st["nots"] = st["nots"] | {s[1]}
            elif k in ("more", "write", "cut"):
                if st["popped"] or st["inc"]:
                    return ("bad", "characters are added after the last one was increased")
                t = st["tail"]
                if k == "more":
                    t = t + (s[1],)
                elif s[1] == "?" or s[1] < 0:
                    return ("bad", "the prefix that is looked for is changed")
                elif k == "write":
                    if s[1] >= len(t):
                        return ("bad", "a character behind the end is set")
                    t = t[:s[1]] + (s[2],) + t[s[1] + 1:]
                else:
                    t = t[:s[1]] + (("c", 0),) * (s[1] - len(t))
                if len(t) > 4:
                    return ("bad", "more characters are added than are known to be right")
                st["tail"] = t
            elif k == "pop":
                if st["top"] is not True or st["some"] is not True:
                    return ("bad", "a character is dropped that need not be the greatest there is")
                st["popped"], st["top"], st["some"] = True, None, None
            elif k == "some":
                if st["some"] not in (None, s[1]):
                    return DROP
                st["some"] = s[1]
            elif k == "top":
                if st["some"] is not True:
                    return ("bad", "the last character is looked at although there need not be one")
                if st["top"] not in (None, s[1]):
                    return DROP
                st["top"] = s[1]
            elif k == "last":
                if s[1] != "inc" or st["some"] is not True or st["top"] is not False or st["inc"]:
                    return ("bad", "the last character is not increased by one")
                st["inc"] = True
            elif k == "exit":
                t = st["tail"]
                number = st["rest"] is True and st["type"] in numbers
                other = st["rest"] is False or numbers <= st["nots"] or st["type"] is not None and st["type"] not in numbers
                if t is None:
                    return ("bad", "the key that is looked for is not made from the prefix")
                if sign == "neg":
                    if st["inc"] or st["popped"]:
                        return ("bad", "the key that is looked for is not that of the prefix")
                    if not (t in ((), (("c", 0),)) or number and t in (("neg",), ("neg", ("c", 0)))):
                        return ("bad", "the search does not start at the prefix")
                    if not other and "neg" not in t:
                        return ("bad", "the search for the lowest number does not start at the sign")
                else:
                    if not (t == ("pos",) and number or t == () and other):
                        return ("bad", "the end of the prefix is looked for from something else than the prefix")
                    if not st["inc"] and st["some"] is not False:
                        return ("bad", "the end of the prefix is not behind the keys that have it")
            return

        check(rep, "bounds", f, A, dict(tail=None, rest=None, type=None, nots=frozenset(), popped=False, inc=False, top=None, some=None), step, ("make",))


class Failure(Parts):
    """void BGetOp_error_response(res, i, subject, predicate, event)"""
    def assign(self, x, loc, val, n):
        if loc[0] != "e":
            return None
        if self.entry(loc, "num_recs", 0, 1):
            return ("count", val == ("b", "+", loc, ("c", 1)))
        nm, idx, r = steps(loc)
        if len(nm) == 1 and param(r, 0):
            ok = len(idx) == 2 and param(idx[0], 1) and self.entry(idx[1], "num_recs", 0, 1)
            v = steps(val)[2]
            return ("put", nm[0], "subjects" if param(v, 2) else "predicates" if param(v, 3) else None, ok)
        return None

    def exit(self, x, v):
        return ("exit",)


def failure(rep):
    P = rep.prog
    rep.rule("failure", "a GETOP that fails returns its subject and predicate once, behind the records it found", 1)
    f = member(P, "BGetOp_error_response")
    A = small(P, f, Failure(P, f))

    def step(st, s):
        if s[0] == "put":
            if s[2] != s[1] or not s[3]:
                return ("bad", "the %s of a GETOP that failed is not put behind the records it found" % s[1].rstrip("s"))
            st["puts"] = st["puts"] | {s[1]}
        elif s[0] == "count":
            st["count"] += 1
            if not s[1] or st["count"] > 1:
                return ("bad", "a failure is not counted once")
        elif s[0] == "exit":
            if not st["count"] or st["puts"] != frozenset(("subjects", "predicates")):
                return ("bad", "a GETOP that failed is not answered with its subject and predicate")
    check(rep, "failure", f, A, dict(puts=frozenset(), count=0), step, ("put", "count"))


def getop(rep):
    walking(rep)
    record(rep)
    request(rep)
    bounds(rep)
    failure(rep)

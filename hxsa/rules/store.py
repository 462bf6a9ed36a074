"""Datastore backends: what a bulk PUT/GET/DELETE does for each item."""
from rules.common import *

BASE = "Datastore::Datastore"


def backends(prog, name):
    """overriders of a pure/virtual datastore hook"""
    ids = set()
    for f in prog.by_name[name]:
        if f.has_cfg and f.qn.startswith("Datastore::") and f.qn != BASE + "::" + name:
            ids.add(f.id)
    out = sorted((prog.funcs[i] for i in ids), key=lambda f: f.qn)
    if not out:
        raise AnalysisBroken("no backend implements %s" % name)
    return out


def cmp_const(t, truth):
    """branch fact -> (term, constant, equal?) or None"""
    while t[0] == "u" and t[1] == "!":
        t, truth = t[2], not truth
    if t[0] == "b" and t[1] in ("==", "!="):
        a, b = t[2], t[3]
        if a[0] == "c":
            a, b = b, a
        if b[0] == "c":
            return a, b[1], truth == (t[1] == "==")
    if t[0] in ("r", "m", "o", "f", "p", "d", "e", "phi", "j", "v"):
        return t, 0, not truth
    return None


def idx_of(t):
    """indices used along a term, as (variable, offset)"""
    out = set()
    for x in subterms(t):
        if x[0] == "e" and fields(x)[0]:
            b, o = linear(x[2])
            out.add((leaf(b) or str(b[0]), o) if b[0] != "c" else ("const", b[1] + o))
    return frozenset(out)


def rolei(t):
    fs, _ = fields(t)
    return ".".join(fs) if fs else "?"


class Item(Hooks):
    """events of a backend's bulk operation"""
    term_scale = 4
    max_depth = 4

    def __init__(self, prog, overrides=None):
        self.prog = prog
        self.overrides = overrides or {}
        anchors = set()
        for q in (BASE + "::encode", BASE + "::decode", "sp_to_key", BASE + "::append_type", BASE + "::remove_type"):
            anchors |= {f.id for f in prog.by_qn.get(q, [])}
        if len(anchors) < 5:
            raise AnalysisBroken("datastore helpers not found")
        anchors |= {f.id for f in prog.funcs.values() if f.qn.startswith("Message::")}
        self.anchors = anchors
        self.relevant = {i for i in reaching(prog, anchors, anchors) - anchors if prog.funcs[i].qn.startswith("Datastore::") and not prog.funcs[i].name.endswith("Impl")}
        self.status = {macro_value(prog, "DATASTORE_" + n): n.lower() for n in ("SUCCESS", "ERROR", "UNSET")}
        self.good = [v for v, n in self.status.items() if n == "success"][0]

    def blobrole(self, t):
        for x in subterms(t):
            if x[0] == "r" and len(x) > 2 and x[2][0] == "blob":
                return x[2]
            if x[0] == "m" and x[1] == "new Blob" and len(x) >= 5:
                return ("blob",) + tuple(self.src(a) for a in x[2:5]) + (self.idx(x[2:5]),)
        return None

    def tag(self, x, c):
        if c.qn == BASE + "::encode" and len(c.args) >= 3:
            return ("enc", rolei(c.args[1]))
        if c.qn == BASE + "::decode" and len(c.args) >= 3:
            b = self.blobrole(c.args[1])
            return ("dec", b[2:4] if b else ("?", "?"))
        if c.qn == "sp_to_key":
            return ("key", self.kb(c.args[0]), self.kb(c.args[1]))
        if c.name in ("ReferenceBlob", "RealBlob") and len(c.args) == 3:
            return ("blob", self.src(c.args[0]), self.src(c.args[1]), self.src(c.args[2]), self.idx(c.args))
        if c.qn == BASE + "::append_type":
            return ("val",) + tuple(self.src(a) for a in c.args)
        if c.qn == BASE + "::remove_type":
            return ("rmtype",)
        if c.name in ("Write", "Get", "Put", "Delete") and c.obj is not None:
            return ("db", c.name)
        return None

    def idx(self, ts):
        return frozenset().union(*[idx_of(a) for a in ts])

    def kb(self, t):
        b = self.blobrole(t)
        return b[1:4] if b else ("?",)

    def src(self, t):
        """what a pointer/length/type argument stands for"""
        for x in subterms(t):
            if x[0] == "o" and isinstance(x[2], tuple) and x[2][0] == "out":
                tg = x[2][1]
                return "encoded:" + tg[1] if tg[0] == "enc" else tg[0]
            if x[0] == "r" and len(x) > 2 and x[2][0] in ("rmtype", "dec"):
                return x[2][0]
        if t[0] == "m" and t[1] in ("size", "data_type", "data"):
            return t[1] + ":" + rolei(t[2])
        return rolei(t)

    def loopcond(self, x, t, truth, node):
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("<", ">", "!=", "==", ">=", "<="):
            for a, b, op in ((t[2], t[3], t[1]), (t[3], t[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t[1], t[1]))):
                fs = fields(b)[0]
                if linear(a)[0][0] in ("phi", "j") and fs and fs[-1] == "count":
                    if op in ("==", ">="):
                        return ("more", (node["f"].qn, node["id"]), not truth)
                    return ("more", (node["f"].qn, node["id"]), truth)
        return None

    def cond(self, x, t, truth, node):
        s = self.loopcond(x, t, truth, node)
        if s is not None:
            return s
        r = cmp_const(t, truth)
        if r is None:
            # iterator against the end of the container
            for y in subterms(t):
                if y[0] == "m" and y[1] in ("end", "cend"):
                    tt = t
                    while tt[0] == "u" and tt[1] == "!":
                        tt, truth = tt[2], not truth
                    if tt[0] == "b" and tt[1] in ("==", "!="):
                        return ("found", truth == (tt[1] == "!="))
            return None
        a, v, eq = r
        if a[0] == "r" and len(a) > 2 and a[2][0] in ("enc", "dec", "key"):
            if v == self.good or (a[2][0] == "key" and v in (1, 3)):
                return (a[2][0], a[2][1] if a[2][0] == "enc" else "", eq)
            return (a[2][0], a[2][1] if a[2][0] == "enc" else "", False) if eq else None
        if a[0] == "m" and a[1] in ("ok", "IsNotFound") and v == 0:
            for y in subterms(a):
                if y[0] == "r" and len(y) > 2 and y[2][0] == "db":
                    return ("dbok", y[2][1], (not eq) if a[1] == "ok" else None)
        return None

    def call(self, x, c):
        if c.qn == "sp_to_key":
            return ("mkkey", self.kb(c.args[0]), self.kb(c.args[1]))
        if c.qn == BASE + "::append_type":
            return ("mkval",) + tuple(self.src(a) for a in c.args)
        if c.obj is not None and c.name in ("Put", "Delete", "Get", "Write", "erase", "find") and not c.qn.startswith("Message"):
            k = [tg for a in c.args for tg in self.tags(a)]
            return ("store", c.name, tuple(sorted(set(k))))
        if c.name == "add" and c.qn.startswith("Message::Response"):
            st = c.args[-1]
            b = [self.blobrole(a) for a in c.args[:-1]]
            ix = self.idx(c.args).union(*[y[4] for y in b if y])
            return ("add", self.status.get(st[1], str(st[1])) if st[0] == "c" else "?", tuple((y[1:4] if y else None) for y in b), tuple(sorted(ix)))
        return None

    def tags(self, t):
        out = []
        for y in subterms(t):
            if y[0] == "o" and isinstance(y[2], tuple) and y[2][0] == "out":
                out.append(y[2][1][0])
            elif y[0] == "r" and len(y) > 2:
                out.append(y[2][0])
        return out

    def assign(self, x, loc, val, n):
        fs, base = fields(loc)
        if loc[0] == "e" and val[0] == "c" and n["e"].get("ct") == "int" and val[1] in self.status:
            return ("mark", self.status[val[1]], leaf(loc), tuple(sorted(idx_of(loc))) or (("?", 0),))
        if loc[0] == "e" and base == ("this",) or (loc[0] == "e" and fs and fs[-1] == "db"):
            return ("store", "assign", tuple(sorted(set(self.tags(loc[2]) + self.tags(val)))))
        return None


NEED = {"BPutImpl": ("subjects", "predicates", "objects"), "BGetImpl": ("subjects", "predicates"), "BDeleteImpl": ("subjects", "predicates")}
STORES = ("assign", "Put", "insert", "emplace", "insert_or_assign", "try_emplace", "push_back")


def work_step(op):
    """state of one item: frozenset of what has been done"""
    def step(st, s):
        done, idx = st
        k = s[0]
        if k == "more":
            return (frozenset(), None) if s[2] else (done - PER_ITEM, None)
        add = None
        if k == "enc":
            add = "enc:" + s[1] if s[2] else "fail"
        elif k in ("dec", "key"):
            add = k if s[2] else "fail"
        elif k == "found":
            add = "found" if s[1] else "fail"
        elif k == "dbok":
            add = "dbok:" + s[1] if s[2] else "fail"
        elif k == "mkval":
            add = "mkval"
        elif k == "store":
            add = "store:" + s[1]
            if op == "BPutImpl" and s[1] in STORES and not {"key", "val"} <= set(s[2]):
                return ("bad", "what is stored is not the item's key and typed value")
            if s[1] in ("Get", "Delete", "find") and op != "BPutImpl" and "key" not in s[2]:
                return ("bad", "the store is not asked for the item's key")
        if add:
            done = done | {add}
        return (done, idx)
    return step


PER_ITEM = frozenset()


def missing(op, done, deferred):
    """steps a successful item still lacks"""
    out = ["encoding its " + r for r in NEED[op] if "enc:" + r not in done]
    if op == "BPutImpl":
        if "mkval" not in done:
            out.append("appending its type")
        if not any("store:" + n in done for n in STORES):
            out.append("storing it")
    elif op == "BGetImpl":
        if not ("found" in done or "dbok:Get" in done):
            out.append("finding it")
        if "dec" not in done:
            out.append("decoding its object")
    else:
        if not ("store:Delete" in done or ("found" in done and "store:erase" in done)):
            out.append("removing it")
    if not deferred and ("store:Put" in done or "store:Delete" in done) and "dbok:Write" not in done:
        out.append("a successful write")
    return out


def item_status(rep):
    P = rep.prog
    rep.rule("success", "an item is given a successful status only on paths on which each of its steps (encode, find/store, decode, write) succeeded", 9)
    rep.rule("failure", "an item whose steps all succeeded is not given an error status, and an item one of whose steps failed keeps its error status to the end", 9)
    rep.rule("one-response", "every request item gets exactly one response, built from its own subject and predicate references", 9)
    rep.rule("key-and-value", "keys are built from the encoded subject and predicate with their types; values from the encoded object with its type; GET decodes the stored object with its stored type", 9)
    for op in NEED:
        for f in backends(P, op):
            A = Interp(P, Item(P)).run(f)
            rep.auto(A)
            marks = {s[2] for s in A.symbols() if s[0] == "mark"}
            two = bool(marks)
            short = f.qn.replace("Datastore::", "", 1)
            base = work_step(op)

            def pos_of(pos):
                return pos[:2] if pos else (f.file, f.line)
            # -- single phase, or the phase that marks
            def step(st, s):
                r = base(st, s)
                if len(r) == 2 and r[0] == "bad":
                    return r
                done = r[0]
                tgt = None
                if two and s[0] == "mark":
                    tgt = s[1] in ("unset", "success")
                elif not two and s[0] == "add":
                    tgt = s[1] == "success"
                    if s[1] not in ("success", "error"):
                        return ("bad", "an item is answered with a status that is neither success nor error")
                if tgt is True:
                    m = missing(op, done, two)
                    if "fail" in done:
                        return ("bad", "an item is taken as successful although one of its steps failed")
                    if m:
                        return ("bad", "an item is taken as successful without " + ", ".join(m))
                elif tgt is False and "fail" not in done:
                    return ("bad", "an item is given an error status although none of its steps failed")
                return r
            for m, pos, tr in typestate(A, (frozenset(), None), step):
                rep.bad("success" if "successful" in m or "stor" in m else "failure", pos_of(pos), f.qn, m, m, tr)
            rep.ok("success", short)
            rep.ok("failure", short)
            if two:
                good = [v for v, n in Item(P).status.items() if n == "unset"][0]
                err = [v for v, n in Item(P).status.items() if n == "error"][0]
                E = Interp(P, Item(P, {m: err for m in marks})).run(f)
                if any(s[0] == "add" and s[1] != "error" for s in E.symbols()):
                    pos = next(p for es in E.edges.values() for s, _, p in es if s and s[0] == "add" and s[1] != "error")
                    rep.bad("failure", pos_of(pos), f.qn, "an item that failed before the batch was written is answered with the status of the batch", "batch status")
                rep.ok("failure", short + " [failed item]")
                G = Interp(P, Item(P, {m: good for m in marks})).run(f)

                def gstep(st, s):
                    if s[0] == "dbok" and s[1] == "Write":
                        return "ok" if s[2] else "failed"
                    if s[0] == "store" and s[1] == "Write":
                        return ""
                    if s[0] == "add":
                        if s[1] == "success" and st != "ok":
                            return ("bad", "a batched item is taken as successful without a successful write")
                        if s[1] != "success" and st != "failed":
                            return ("bad", "a batched item is answered with an error although the batch was written")
                    return st
                for m, pos, tr in typestate(G, "", gstep):
                    rep.bad("success", pos_of(pos), f.qn, m, m, tr)
                rep.ok("success", short + " [batched item]")
            # -- one response per item
            adding, why = set(), {}
            kinds = {}

            def rstep(st, s):
                loop, n, mk = st
                if s[0] == "more":
                    if loop is not None:
                        kinds.setdefault(loop, set()).add((n, min(mk, 2)))
                    return (s[1], 0, 0) if s[2] else (None, 0, 0)
                if s[0] == "add":
                    if loop is None:
                        return ("bad", "a response is added outside the loop over the request's items")
                    if n:
                        return ("bad", "an item gets two responses")
                    return (loop, 1, mk)
                if s[0] == "mark":
                    return (loop, n, mk + 1 if mk < 2 else mk)
                return st
            for m, pos, tr in typestate(A, (None, 0, 0), rstep):
                rep.bad("one-response", pos_of(pos), f.qn, m, m, tr)
            adding = {l for l, ks in kinds.items() if any(n for n, _ in ks)}
            if not adding:
                rep.bad("one-response", f, f.qn, "no loop over the request's items adds responses", "none")
            for l in adding:
                if any(n == 0 for n, _ in kinds[l]):
                    rep.bad("one-response", f, f.qn, "some path through the item loop adds no response", "skip")

            def visited(st, s):
                return st | {s[1]} if s[0] == "more" and s[1] in adding else st
            for m, pos, tr in typestate(A, frozenset(), visited, lambda s, v: "a path returns without answering the request's items" if len(s) != len(adding) and v != ("c", 0) else None):
                rep.bad("one-response", f, f.qn, m, m, tr)
            if len(adding) > 1:
                rep.bad("one-response", f, f.qn, "two loops add responses", "two")
            if two:
                for l, ks in kinds.items():
                    if any(mk for _, mk in ks) and any(mk == 0 for _, mk in ks):
                        rep.bad("one-response", f, f.qn, "some path through the marking loop leaves an item without a status", "unmarked")
            rep.ok("one-response", short)
            # -- roles
            for es in A.edges.values():
                for s, _, pos in es:
                    if not s:
                        continue
                    if s[0] == "mkkey" and s[1:] != tuple(("encoded:" + r, "encoded:" + r, "data_type:" + r) for r in ("subjects", "predicates")):
                        rep.bad("key-and-value", pos_of(pos), f.qn, "the key is not built from the encoded subject and predicate and their types (%s)" % (s[1:],), "key")
                    elif s[0] == "mkval" and s[1:] != ("encoded:objects", "encoded:objects", "data_type:objects"):
                        rep.bad("key-and-value", pos_of(pos), f.qn, "the value is not built from the encoded object and its type (%s)" % (s[1:],), "value")
                    elif s[0] == "add":
                        want = tuple(("orig." + r, "size:" + r, "data_type:" + r) for r in ("subjects", "predicates"))
                        if s[2][:2] != want:
                            rep.bad("one-response", pos_of(pos), f.qn, "the response does not refer to the item's own subject and predicate (%s)" % (s[2][:2],), "refs")
                        if len(s[3]) != 1 or s[3][0][0] == "const":
                            rep.bad("one-response", pos_of(pos), f.qn, "the response mixes items (%s)" % (s[3],), "index")
                        if op == "BGetImpl" and s[1] == "success" and s[2][2:] != (("dec", "dec", "rmtype"),):
                            rep.bad("key-and-value", pos_of(pos), f.qn, "a successful GET does not return the decoded object with its stored type (%s)" % (s[2][2:],), "object")
            if not any(s[0] == "mkkey" for s in A.symbols()):
                rep.bad("key-and-value", f, f.qn, "no key is built", "nokey")
            rep.ok("key-and-value", short)

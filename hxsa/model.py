"""Program model over the extracted facts: functions, class hierarchy, CFG
helpers (loop heads, liveness, variables assigned in loops)."""
import re
from collections import defaultdict
from facts import load_raw, AnalysisBroken


class Func:
    __slots__ = ("id", "d", "qn", "name", "file", "line", "params", "blocks", "exprs", "entry", "exit", "kind", "prog",
                 "_loops", "_live", "_assigned", "_cross", "_order", "_logic", "_addr", "_where", "_elive")

    def __init__(self, prog, fid, d):
        self.prog, self.id, self.d = prog, fid, d
        self.qn, self.name, self.file, self.line = d["qn"], d["name"], d["file"], d["line"]
        self.params = d["params"]
        self.exprs = d["exprs"]
        for e in self.exprs:
            if e.get("pt"):
                e["pt"] = [t.replace("__restrict", "").rstrip() for t in e["pt"]]
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.entry, self.exit = d.get("entry"), d.get("exit")
        self.kind = d["kind"]
        self._loops = self._live = self._cross = self._order = self._assigned = None

    def __repr__(self):
        return "<%s %s:%d>" % (self.qn, self.file, self.line)

    @property
    def has_cfg(self):
        return bool(self.blocks)

    @property
    def sig(self):
        return "%s(%s)" % (self.qn, ", ".join(p["t"] for p in self.params))

    # -- CFG helpers -----------------------------------------------------
    def succs(self, b):
        return [s for s in self.blocks[b]["succ"] if s >= 0]

    def loops(self):
        """head -> set of blocks of its natural loop(s)"""
        if self._loops is None:
            order, seen = [], set()
            stack = [(self.entry, iter(self.succs(self.entry)))]
            seen.add(self.entry)
            onstack = {self.entry}
            back = []
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        onstack.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                    elif s in onstack:
                        back.append((n, s))
                else:
                    stack.pop()
                    onstack.discard(n)
            preds = defaultdict(set)
            for b in self.blocks:
                for s in self.succs(b):
                    preds[s].add(b)
            L = {}
            for t, h in back:
                body = L.setdefault(h, {h})
                w = [t]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w += list(preds[x])
            self._loops = L
        return self._loops

    def expr_roots(self, b):
        for el in self.blocks[b]["els"]:
            if "e" in el and el["e"] >= 0:
                yield el["e"]
            for v in el.get("decl", []):
                if "init" in v:
                    yield v["init"]
            if el.get("ret", -1) >= 0:
                yield el["ret"]
        t = self.blocks[b].get("term")
        if t and t.get("cond", -1) is not None and t.get("cond", -1) >= 0:
            yield t["cond"]

    def logic_over(self, i):
        """the && and || expressions i is an operand of"""
        if getattr(self, "_logic", None) is None:
            self._logic = {}
            for a, e in enumerate(self.exprs):
                if e["k"] == "bin" and e.get("op") in ("&&", "||"):
                    for x in self.subexprs(a):
                        if x != a:
                            self._logic.setdefault(x, []).append(a)
        return self._logic.get(i, ())

    def subexprs(self, i):
        out, seen, w = [], set(), [i]
        while w:
            x = w.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            out.append(x)
            e = self.exprs[x]
            w += e.get("c", [])
            for k in ("obj", "fn", "size"):
                if isinstance(e.get(k), int):
                    w.append(e[k])
        return out

    def root_var(self, i):
        """the local variable/parameter an lvalue expression is rooted at"""
        while i is not None and i >= 0:
            e = self.exprs[i]
            if e["k"] == "ref":
                return e["d"] if e.get("dk") in ("var", "parm", "static", "binding") else None
            return None
        return None

    def addr_kept(self):
        """&x expressions that are only stored in a local pointer: what is
        written through it is written at its uses"""
        if getattr(self, "_addr", None) is None:
            self._addr = set()

            def strip(i):
                while i is not None and i >= 0 and self.exprs[i]["k"] == "cast" and self.exprs[i].get("c"):
                    i = self.exprs[i]["c"][0]
                return i
            for e in self.exprs:
                if e["k"] == "bin" and e.get("asg") and e["op"] == "=" and self.root_var(e["c"][0]):
                    self._addr.add(strip(e["c"][1]))
                elif e["k"] == "cond":
                    self._addr.update(strip(c) for c in e["c"][1:])
            for b in self.blocks.values():
                for el in b["els"]:
                    for v in el.get("decl", []):
                        if v.get("init") is not None:
                            self._addr.add(strip(v["init"]))
        return self._addr

    def var_writes(self, b):
        """[(var id, rhs expr or None)] in block b (direct writes to whole variables)"""
        out = []
        ids = set()
        for r in self.expr_roots(b):
            ids.update(self.subexprs(r))
        # only elements evaluated in this block
        here = {el["e"] for el in self.blocks[b]["els"] if "e" in el}
        for i in ids & here:
            e = self.exprs[i]
            if e["k"] == "bin" and e.get("asg"):
                v = self.root_var(e["c"][0])
                if v:
                    out.append((v, e["c"][1] if e["op"] == "=" else None))
            elif e["k"] == "un" and ("++" in e["op"] or "--" in e["op"]):
                v = self.root_var(e["c"][0])
                if v:
                    out.append((v, None))
            elif e["k"] == "un" and e["op"] == "&":
                v = self.root_var(e["c"][0])
                if v and i not in self.addr_kept():
                    out.append((v, None))
            elif e["k"] in ("call", "construct"):
                if e.get("obj", -1) >= 0 and not e.get("constm"):
                    v = self.root_var(e["obj"])
                    if v and not self.exprs[e["obj"]].get("ct", "").rstrip().endswith("*"):      # p->f() does not change p
                        out.append((v, None))
                pts = e.get("pt")
                mod = self.prog.mods().get(e.get("f")) if not e.get("virt") else None
                for n, a in enumerate(e.get("c", [])):
                    v = self.root_var(a)
                    if mod is not None and n not in mod[1]:
                        continue
                    if v and pts and n < len(pts) and pts[n].rstrip().endswith("&") and not pts[n].startswith("const "):
                        out.append((v, None))
        for el in self.blocks[b]["els"]:
            for v in el.get("decl", []):
                out.append((v["d"], v.get("init")))
        return out

    def const_of(self, i):
        return self.exprs[i].get("v") if i is not None and i >= 0 else None

    def loop_widen(self):
        """head -> variables to widen at it (assigned in the loop with something
        that is not a constant)"""
        if getattr(self, "_assigned", None) is None:
            W = {}
            for h, body in self.loops().items():
                s = set()
                for b in body:
                    for v, rhs in self.var_writes(b):
                        if rhs is None or self.const_of(rhs) is None:
                            s.add(v)
                W[h] = s
            self._assigned = W
        return self._assigned

    def liveness(self):
        """block -> set of variables that may be read at or after its start.
        Variables whose address is taken or that are bound to references stay
        live everywhere (kept simple: variables mentioned anywhere reachable)."""
        if self._live is None:
            use = {}
            for b in self.blocks:
                u = set()
                for r in self.expr_roots(b):
                    for i in self.subexprs(r):
                        e = self.exprs[i]
                        if e["k"] == "ref" and e.get("dk") in ("var", "parm", "static", "binding"):
                            u.add(e["d"])
                        if e["k"] == "lambda":
                            u.update(c["d"] for c in e["caps"] if "d" in c)
                        if e["k"] == "sizeof":
                            pass
                for el in self.blocks[b]["els"]:
                    if "dtor" in el:
                        u.add(el["dtor"])
                use[b] = u
            live = {b: set(use[b]) for b in self.blocks}
            ch = True
            while ch:
                ch = False
                for b in self.blocks:
                    n = set(live[b])
                    for s in self.succs(b):
                        n |= live[s]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            # references: if a live variable aliases another, keep everything
            self._live = live
        return self._live

    def cross(self):
        """expressions evaluated in one block and used by an element of another"""
        if self._cross is None:
            where = {}
            for b in self.blocks:
                for el in self.blocks[b]["els"]:
                    if "e" in el:
                        where.setdefault(el["e"], set()).add(b)
            c = set()
            for b in self.blocks:
                roots = set(self.expr_roots(b))
                for r in roots:
                    for i in self.subexprs(r):
                        if i in where and where[i] != {b}:
                            c.add(i)
                t = self.blocks[b].get("term")
                if t and "lhs" in t:
                    c.add(t["lhs"])
            self._cross = c
        return self._cross

    def kept(self, i):
        """expressions whose value is remembered once evaluated"""
        e = self.exprs[i]
        return e["k"] in ("call", "construct", "new", "delete", "cond", "lambda", "stmtexpr", "throw") or (e["k"] == "bin" and (e.get("asg") or e["op"] in ("&&", "||"))) or (e["k"] == "un" and ("++" in e["op"] or "--" in e["op"]))

    def uses(self, roots, self_evaluated=()):
        """remembered expressions needed to evaluate the roots"""
        out, seen = set(), set()
        w = list(roots)
        top = set(roots)
        where = self.elem_blocks()
        while w:
            x = w.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            out.add(x)
            if x in where and self.kept(x) and x not in top:
                continue
            e = self.exprs[x]
            w += e.get("c", [])
            for k in ("obj", "fn", "size"):
                if isinstance(e.get(k), int):
                    w.append(e[k])
        return out

    def elem_blocks(self):
        if getattr(self, "_where", None) is None:
            self._where = {}
            for b in self.blocks:
                for el in self.blocks[b]["els"]:
                    if "e" in el:
                        self._where.setdefault(el["e"], set()).add(b)
        return self._where

    def el_roots(self, el):
        if "e" in el and el["e"] >= 0:
            yield el["e"]
        for v in el.get("decl", []):
            if "init" in v:
                yield v["init"]
        if el.get("ret", -1) >= 0:
            yield el["ret"]

    def expr_live(self):
        """block -> remembered expressions live at its start"""
        if getattr(self, "_elive", None) is None:
            use, dfn = {}, {}
            for b, blk in self.blocks.items():
                u, d = set(), set()
                for el in blk["els"]:
                    roots = list(self.el_roots(el))
                    if "e" in el:
                        # an element evaluates itself: its own value is not needed
                        mine = self.uses(roots) - set(roots)
                    else:
                        mine = self.uses([-1] if not roots else roots)
                        for r in roots:
                            if r in self.elem_blocks() and self.kept(r):
                                mine = (mine - self.uses([r])) | {r}
                    u |= mine - d
                    if "e" in el:
                        d.add(el["e"])
                t = blk.get("term")
                if t and t.get("cond", -1) >= 0:
                    c = t["cond"]
                    mine = {c} if (c in self.elem_blocks() and self.kept(c)) else self.uses([c])
                    u |= mine - d
                use[b], dfn[b] = u, d
            live = {b: set(use[b]) for b in self.blocks}
            ch = True
            while ch:
                ch = False
                for b in self.blocks:
                    n = set(use[b])
                    for s in self.succs(b):
                        n |= live[s] - dfn[b]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._elive = live
        return self._elive

    def need_after(self, b, pos):
        """expressions whose value is needed at or after pos of block b"""
        if getattr(self, "_order", None) is None:
            self._order = {}
        k = (b, pos)
        if k not in self._order:
            blk = self.blocks[b]
            need = set()
            if pos == 0:
                need |= self.expr_live()[b]
            else:
                d = set()
                for el in blk["els"][pos:]:
                    roots = list(self.el_roots(el))
                    need |= self.uses(roots) - d
                    if "e" in el:
                        d.add(el["e"])
                t = blk.get("term")
                if t and t.get("cond", -1) >= 0:
                    need |= self.uses([t["cond"]])
                for s in self.succs(b):
                    need |= self.expr_live()[s]
            self._order[k] = need
        return self._order[k]

    def calls(self):
        for b in self.blocks:
            for i in self.block_elems(b):
                if self.exprs[i]["k"] in ("call", "construct", "new", "delete"):
                    yield b, i, self.exprs[i]

    def block_elems(self, b):
        seen = set()
        for el in self.blocks[b]["els"]:
            if "e" in el and el["e"] >= 0 and el["e"] not in seen and "initf" not in el:
                seen.add(el["e"])
                yield el["e"]

    def text(self, i, depth=0):
        """readable rendering of an expression (diagnostics only)"""
        if i is None or i < 0 or depth > 12:
            return "?"
        e = self.exprs[i]
        k, T = e["k"], lambda j: self.text(j, depth + 1)
        c = e.get("c", [])
        if k == "ref":
            return e["name"]
        if k == "member":
            if c and self.exprs[c[0]]["k"] == "this":
                return e["name"]
            return T(c[0]) + ("->" if e.get("arrow") else ".") + e["name"]
        if k == "this":
            return "this"
        if k == "lit":
            return "nullptr" if e.get("null") else (e.get("m") or str(e.get("v")))
        if k == "flit":
            return str(e.get("fv"))
        if k == "str":
            return '"%s"' % e.get("s", "")[:30]
        if k == "bin":
            return "%s %s %s" % (T(c[0]), e["op"], T(c[1]))
        if k == "un":
            return e["op"].replace("post", "") + T(c[0])
        if k == "index":
            return "%s[%s]" % (T(c[0]), T(c[1]))
        if k == "call":
            n = e.get("name") or T(e.get("fn", -1))
            o = (T(e["obj"]) + ".") if e.get("obj", -1) is not None and e.get("obj", -1) >= 0 else ""
            return "%s%s(%s)" % (o, n, ", ".join(T(x) for x in c))
        if k == "construct":
            return "%s(%s)" % (e["rec"], ", ".join(T(x) for x in c))
        if k == "sizeof":
            return "sizeof(%s)" % e["tt"]
        if k == "cast":
            return T(c[0])
        if k == "cond":
            return "%s ? %s : %s" % (T(c[0]), T(c[1]), T(c[2]))
        if k == "new":
            return "new " + e["nt"]
        if k == "delete":
            return "delete " + T(c[0])
        return k


class Program:
    def __init__(self, raw):
        self.raw = raw
        self.units = raw["units"]
        self.funcs = {u: Func(self, u, d) for u, d in raw["funcs"].items()}
        self.by_qn = defaultdict(list)
        self.by_name = defaultdict(list)
        for f in self.funcs.values():
            self.by_qn[f.qn].append(f)
            self.by_name[f.name].append(f)
        self.records = raw["records"]
        self.rec_by_qn = defaultdict(list)
        for u, r in self.records.items():
            self.rec_by_qn[r["qn"]].append(r)
        self.enums = raw["enums"]
        self.globals = raw["globals"]
        self.glob_by_qn = {g["qn"]: g for g in self.globals.values()}
        self.overriders = defaultdict(set)
        over = {}
        for r in self.records.values():
            for m in r["methods"]:
                over[m["f"]] = m["over"]
        for m, bases in over.items():
            seen, w = set(), list(bases)
            while w:
                b = w.pop()
                if b in seen:
                    continue
                seen.add(b)
                self.overriders[b].add(m)
                w += over.get(b, [])
        self.derived = defaultdict(set)
        for r in self.records.values():
            for b in r["bases"]:
                self.derived[b].add(r["qn"])

    def func(self, qn, nparams=None, pred=None, required=True):
        c = [f for f in self.by_qn.get(qn, []) if f.has_cfg and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if not c:
            if required:
                raise AnalysisBroken("anchor vanished: no function %s%s" % (qn, "" if nparams is None else "/%d" % nparams))
            return None
        return c[0]

    def fns(self, qn):
        return [f for f in self.by_qn.get(qn, []) if f.has_cfg]

    def match(self, rx):
        r = re.compile(rx)
        return [f for f in self.funcs.values() if f.has_cfg and r.fullmatch(f.qn)]

    def all_derived(self, qn):
        out, w = set(), [qn]
        while w:
            x = w.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    w.append(d)
        return out

    def callees(self, f, virt=True):
        """resolved repo functions f may call directly (incl. constructors, deletes, lambdas)"""
        out = set()
        for b, i, e in f.calls():
            if e["k"] in ("call", "construct"):
                t = e.get("f")
                if t in self.funcs:
                    out.add(t)
                if virt and e.get("virt"):
                    out |= {m for m in self.overriders.get(t, ()) if m in self.funcs}
            elif e["k"] == "delete" and e.get("dtor"):
                if e["dtor"] in self.funcs:
                    out.add(e["dtor"])
                if e.get("vdtor"):
                    out |= {m for m in self.overriders.get(e["dtor"], ()) if m in self.funcs}
        return out

    def reach(self, roots, stop=lambda f: False):
        seen, w = set(), [r.id if isinstance(r, Func) else r for r in roots]
        while w:
            x = w.pop()
            if x in seen or x not in self.funcs:
                continue
            seen.add(x)
            if stop(self.funcs[x]):
                continue
            w += list(self.callees(self.funcs[x]))
        return seen

    # -- modification summaries ------------------------------------------
    def mods(self):
        """fid -> (fields, params): names of the fields a function (or anything
        it calls) may assign or mutate, and which of its reference/pointer
        parameters it may write through directly"""
        if hasattr(self, "_mods"):
            return self._mods
        direct = {}
        for f in self.funcs.values():
            if not f.has_cfg:
                continue
            fields, params = set(), set()
            pidx = {p["d"]: n for n, p in enumerate(f.params)}
            flow = []        # (callee, callee param index, own param index)

            def target(i, deref=False, f=f, fields=fields, params=params, pidx=pidx):
                """record that the lvalue i is written"""
                while i is not None and i >= 0:
                    e = f.exprs[i]
                    k = e["k"]
                    if k == "member":
                        fields.add(e["name"])
                        return
                    if k == "ref":
                        if e.get("dk") == "parm" and e["d"] in pidx:
                            n = pidx[e["d"]]
                            if f.params[n]["ref"] or deref:
                                params.add(n)
                        elif e.get("dk") == "var":
                            # a local reference/pointer: assume it may alias any parameter's pointee by field name only
                            pass
                        elif e.get("dk") == "global":
                            fields.add("::" + e.get("qn", ""))
                        return
                    if k == "index":
                        i = e["c"][0]
                        deref = True
                        continue
                    if k == "un" and e["op"] == "*":
                        i = e["c"][0]
                        deref = True
                        continue
                    if k == "call" and e.get("obj", -1) is not None and e.get("obj", -1) >= 0:
                        if e.get("constm") and e["ct"].endswith("*"):
                            return       # what the object points at, not the object
                        i = e["obj"]
                        deref = True
                        continue
                    if k in ("cast", "un", "cond", "bin") or k == "call" and e.get("name") in ("forward", "move"):
                        i = e["c"][0] if e["c"] else None
                        continue
                    return
            for b in f.blocks.values():
                for el in b["els"]:
                    if "e" not in el or el["e"] < 0 or "initf" in el:
                        continue
                    e = f.exprs[el["e"]]
                    k = e["k"]
                    if k == "bin" and e.get("asg"):
                        target(e["c"][0])
                    elif k == "un" and ("++" in e["op"] or "--" in e["op"]):
                        target(e["c"][0])
                    elif k == "call":
                        obj = e.get("obj", -1)
                        inrepo = e.get("f") in self.funcs
                        if obj is not None and obj >= 0 and not e.get("constm") and (not inrepo or e.get("oper") in ("=", "+=", "-=")) and (e.get("oper") in ("=", "++", "--", "+=", "-=") or not e.get("oper")) and e.get("name") not in ("begin", "end", "find", "at", "front", "back", "data", "get", "rbegin", "rend"):
                            target(obj)
                        pts = e.get("pt") or []
                        if not inrepo and e.get("name") in ("forward", "move", "addressof", "as_const"):
                            pts = []
                        for n, a in enumerate(e.get("c", [])):
                            pt = pts[n] if n < len(pts) else ""
                            byref = pt.rstrip().endswith("&") and not pt.startswith("const ")
                            byptr = pt.rstrip().endswith("*") and not pt.startswith("const ")
                            if byref or byptr:
                                if inrepo:
                                    flow.append((e["f"], n, a, byref))
                                else:
                                    ae = f.exprs[a] if a >= 0 else None
                                    if ae and ae["k"] == "un" and ae["op"] == "&":
                                        target(ae["c"][0])
                                    elif byref:
                                        target(a)
                                    elif byptr:
                                        target(a, True)
            direct[f.id] = [fields, params, flow, target, f]
        ch = True
        while ch:
            ch = False
            for fid, (fields, params, flow, target, f) in direct.items():
                n0 = len(fields), len(params)
                for c in self.callees(f):
                    if c in direct:
                        fields |= direct[c][0]
                for c, n, a, byref in flow:
                    if c in direct and n in direct[c][1] and a >= 0:
                        ae = f.exprs[a]
                        if ae["k"] == "un" and ae["op"] == "&":
                            target(ae["c"][0])
                        else:
                            target(a, not byref)
                if (len(fields), len(params)) != n0:
                    ch = True
        self._mods = {k: (frozenset(v[0]), frozenset(v[1])) for k, v in direct.items()}
        return self._mods

    def callers(self, fid):
        if not hasattr(self, "_callers"):
            self._callers = defaultdict(set)
            for f in self.funcs.values():
                if f.has_cfg:
                    for c in self.callees(f):
                        self._callers[c].add(f.id)
        return self._callers.get(fid, set())


_prog = {}


def load(repo=None):
    if repo not in _prog:
        _prog[repo] = Program(load_raw(repo))
    return _prog[repo]

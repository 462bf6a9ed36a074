"""P03: every layer has its own vocabulary of statuses."""
import re
from rules.common import *

WORD = re.compile(r"^(DATASTORE|HXHIM|TRANSPORT|MESSAGE|HISTOGRAM|MPI)_(SUCCESS|ERROR)$")
# statuses kept in fields: (class, field) -> vocabulary
FIELDS = {("Message::Response::Response", "statuses"): "DATASTORE", ("hxhim::Result::Result", "status"): "HXHIM",
          ("hxhim::Results::Result", "status"): "HXHIM"}
# callbacks supplied by the application, as documented in datastore/transform.h
CALLBACK = re.compile(r"^(?:int \(\*(?:const)?\)\(void \*, (?:const )?(?:unsigned long|size_t|std::size_t), void \*\*, (?:unsigned long|size_t|std::size_t) \*, void \*\)|(?:const )?hxhim_(?:en|de)code_func(?: const)?)$")


class Domains:
    def __init__(self, P):
        self.P, self.memo = P, {}
        self.defs = {}
        self.args = {}          # function -> parameter number -> [(caller, expression)]
        for f in P.funcs.values():
            for e in f.exprs:
                if e and e["k"] in ("call", "construct", "new") and e.get("f") in P.funcs:
                    for n, c in enumerate(e.get("c", ())):
                        if c >= 0:
                            self.args.setdefault(e["f"], {}).setdefault(n, []).append((f, c))

    def assigned(self, f):
        """local -> expressions assigned to it; None if it escapes"""
        if f.id not in self.defs:
            d = {}
            for b in f.blocks.values():
                for el in b["els"]:
                    for v in el.get("decl", ()):
                        if "init" in v:
                            d.setdefault(v["d"], []).append(v["init"])
            for i, e in enumerate(f.exprs):
                if e and e["k"] == "bin" and e.get("asg"):
                    x = self.strip(f, e["c"][0])
                    if x["k"] == "ref":
                        d.setdefault(x["d"], []).append(e["c"][1] if e["op"] == "=" else None)
            self.defs[f.id] = d
        return self.defs[f.id]

    def param(self, f, d):
        for n, p in enumerate(f.params):
            if p.get("d") == d:
                return n
        return None

    def strip(self, f, i):
        e = f.exprs[i]
        while e["k"] in ("cast",) or e["k"] == "un" and e["op"] in ("+",):
            e = f.exprs[e["c"][0]]
        return e

    def function(self, fid, stack=()):
        """vocabularies a function may answer in"""
        if fid in stack or fid not in self.P.funcs:
            return set()
        if fid in self.memo:
            return self.memo[fid]
        out = set()
        f = self.P.funcs[fid]
        if f.d.get("rct") == "int":
            for b in f.blocks.values():
                for el in b["els"]:
                    if "ret" in el and el["ret"] >= 0:
                        out |= self.expr(f, el["ret"], stack + (fid,))
        if not stack:
            self.memo[fid] = out
        return out

    def expr(self, f, i, stack=(), seen=()):
        e = self.strip(f, i)
        k = e["k"]
        if k == "lit":
            m = WORD.match(str(e.get("m") or ""))
            return {m.group(1)} if m else set()
        if k == "cond":
            return self.expr(f, e["c"][1], stack, seen) | self.expr(f, e["c"][2], stack, seen)
        if k == "call":
            out = set()
            if e.get("qn") in ("std::forward", "std::move"):
                return self.expr(f, e["c"][0], stack, seen)
            if re.match(r"MPI_[A-Z]", e.get("qn") or "") and e.get("ct") == "int":
                out.add("MPI")
            elif e.get("f"):
                for g in {e["f"]} | set(self.P.overriders.get(e["f"], ()) if e.get("virt") else ()):
                    out |= self.function(g, stack)
            elif e.get("fn") is not None and self.strip(f, e["fn"])["k"] == "ref" and self.param(f, self.strip(f, e["fn"])["d"]) is not None:
                n = self.param(f, self.strip(f, e["fn"])["d"])
                for g, c in self.args.get(f.id, {}).get(n, ()):
                    for j in g.subexprs(c):
                        if g.exprs[j].get("d") in self.P.funcs:
                            out |= self.function(g.exprs[j]["d"], stack)
            elif e.get("fn") is not None and CALLBACK.match(f.exprs[e["fn"]].get("t", "")):
                out.add("HXHIM")
            return out
        if k == "ref" and e.get("dk") in ("var", "local", None) or k == "ref":
            if (f.id, e["d"]) in seen:
                return set()
            out = set()
            for j in self.assigned(f).get(e["d"], ()):
                if j is not None:
                    out |= self.expr(f, j, stack, seen + ((f.id, e["d"]),))
            n = self.param(f, e["d"])
            if n is not None and re.match(r"(const )?int( &+)?$", f.params[n]["ct"]):
                for g, c in self.args.get(f.id, {}).get(n, ()):
                    out |= self.expr(g, c, stack, seen + ((f.id, e["d"]),))
            return out
        if k == "index":
            return self.expr(f, e["c"][0], stack, seen)
        if k == "member":
            d = FIELDS.get((e.get("rec"), e.get("name")))
            return {d} if d else set()
        if k == "bin" and e["op"] == "=":
            return self.expr(f, e["c"][1], stack, seen)
        return set()


def vocabulary(rep):
    P = rep.prog
    D = Domains(P)
    rep.rule("compared", "a status is compared only with the constants of the layer it comes from", 60)
    rep.rule("stored", "what is stored as the status of an item or result is a status of that layer", 20)
    rep.rule("truth", "a status, whose values are all nonzero, is never used as a truth value", 0)
    rep.rule("answers", "a function answers in the vocabulary of one layer", 60)
    for f in P.funcs.values():
        if not f.has_cfg:
            continue
        hit = False
        for i, e in enumerate(f.exprs):
            if not e:
                continue
            if e["k"] == "bin" and e["op"] in ("==", "!="):
                for a, b in (e["c"], e["c"][::-1]):
                    x = D.strip(f, a)
                    m = WORD.match(str(x.get("m") or "")) if x["k"] == "lit" else None
                    if not m:
                        continue
                    hit = True
                    s = D.expr(f, b)
                    if s and m.group(1) not in s:
                        rep.bad("compared", (f.file, e["l"]), f.qn, "a status of the %s layer is compared with %s" % ("/".join(sorted(s)), x["m"]), key="%s %s" % (sorted(s), x["m"]))
                    else:
                        rep.ok("compared", "%s:%d" % (f.file, e["l"]) if s else "")
            elif e["k"] == "bin" and e["op"] == "=":
                x = D.expr(f, e["c"][0]) if D.strip(f, e["c"][0])["k"] in ("member", "index") else set()
                s = D.expr(f, e["c"][1])
                if x and s:
                    hit = True
                    if x & s and not s - x:
                        rep.ok("stored", "%s:%d" % (f.file, e["l"]))
                    else:
                        rep.bad("stored", (f.file, e["l"]), f.qn, "a status of the %s layer is stored where the %s layer's belongs" % ("/".join(sorted(s - x)), "/".join(sorted(x))))
            elif e["k"] == "call" and e.get("f") in P.funcs:
                g = P.funcs[e["f"]]
                for n, p in enumerate(g.params):
                    if p["name"] in ("status", "stat") and p["ct"] == "int" and n < len(e.get("c", ())) and e["c"][n] >= 0:
                        s = D.expr(f, e["c"][n])
                        want = {"DATASTORE"} if g.qn.startswith("Message::") else {"HXHIM"} if g.qn.startswith("hxhim") else None
                        if want and s:
                            hit = True
                            if s - want:
                                rep.bad("stored", (f.file, e["l"]), f.qn, "a status of the %s layer is stored where the %s layer's belongs" % ("/".join(sorted(s - want)), "/".join(want)))
                            else:
                                rep.ok("stored", "%s:%d" % (f.file, e["l"]))
            truth = []
            if e["k"] == "un" and e["op"] == "!":
                truth.append(e["c"][0])
            elif e["k"] == "cond":
                truth.append(e["c"][0])
            elif e["k"] == "bin" and e["op"] in ("&&", "||"):
                truth += e["c"]
            for c in truth:
                if c >= 0 and D.strip(f, c)["k"] in ("call", "ref", "lit", "member", "index") and D.strip(f, c).get("ct") == "int" and D.expr(f, c):
                    rep.bad("truth", (f.file, e["l"]), f.qn, "a status is used as a truth value, and is always true", key=str(e["l"] - f.line))
        for b in f.blocks.values():
            t = b.get("term")
            if t and t.get("cond", -1) is not None and t.get("cond", -1) >= 0:
                x = D.strip(f, t["cond"])
                if x["k"] in ("call", "ref", "member", "index") and x.get("ct") == "int" and len(f.succs(b["id"])) == 2 and D.expr(f, t["cond"]):
                    rep.bad("truth", (f.file, t.get("l", f.line)), f.qn, "a status is used as a truth value, and is always true", key=str(t.get("l", f.line) - f.line))
        s = D.function(f.id)
        if s:
            hit = True
            if f.qn.startswith("hxhim") and s - {"HXHIM"}:
                rep.bad("answers", (f.file, f.line), f.qn, "answers the application with a status of the %s layer" % "/".join(sorted(s - {"HXHIM"})))
            elif len(s) > 1:
                rep.bad("answers", (f.file, f.line), f.qn, "answers with statuses of the layers %s" % ", ".join(sorted(s)))
            else:
                rep.ok("answers", f.qn)
        if hit:
            rep.use(f)

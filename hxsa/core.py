"""Reports, known findings, evidence, automaton checks."""
import json, os, sys, time
from collections import deque, defaultdict
from facts import AnalysisBroken, VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, pid, prog):
        self.pid, self.prog = pid, prog
        self.viol = []            # dict(rule, file, line, func, msg, key, trace)
        self.rules = {}           # rule -> dict(text, n)
        self.functions = set()
        self.notes = []
        self.configs = 0

    def rule(self, name, text, minimum=1):
        self.rules.setdefault(name, {"text": text, "n": 0, "min": minimum, "inst": []})

    def ok(self, rule, inst="", n=1):
        r = self.rules[rule]
        r["n"] += n
        if inst and len(r["inst"]) < 400:
            r["inst"].append(str(inst))

    def bad(self, rule, where, func, msg, key=None, trace=None):
        """where: (file, line) or Func; key identifies the construct"""
        f, l = where if isinstance(where, tuple) else (where.file, where.line)
        key = "%s|%s|%s" % (rule, func, key if key is not None else msg)
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"rule": rule, "file": f, "line": l, "function": func, "msg": msg, "key": key, "trace": trace or []})

    def use(self, *fs):
        for f in fs:
            if f is not None:
                self.functions.add(f.id if hasattr(f, "id") else f)

    def auto(self, A):
        self.functions |= A.functions
        self.configs += getattr(A, "configs", 0)

    def finish(self):
        for n, r in self.rules.items():
            if r["n"] < r["min"] and not self.viol:
                raise AnalysisBroken("rule %s found %d instances, expected at least %d" % (n, r["n"], r["min"]))


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("KNOWN property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key[len("key="):] if key.startswith("key=") else key] = what
    return out


# ---------------------------------------------------------------- automata
def eps(A):
    return A.edges


def typestate(A, init, step, final=None, limit=400000):
    """run the automaton A against a deterministic monitor.
    step(state, symbol) -> state, ('bad', msg) to report, or None to drop the path.
    final(state, accept_value) -> None or msg.
    yields (msg, (file, line, func), trace)"""
    seen = {}
    start = (A.start, init)
    seen[start] = None
    w = deque([start])
    out = {}
    n = 0

    def trace(p):
        t = []
        while p is not None and seen[p] is not None:
            q, sym, pos = seen[p]
            if sym is not None:
                t.append((sym, pos))
            p = q
        return list(reversed(t))
    while w:
        p = w.popleft()
        n += 1
        if n > limit:
            raise AnalysisBroken("monitor product too large")
        c, s = p
        if c in A.accept and final is not None:
            m = final(s, A.accept[c])
            if m is not None:
                t = trace(p)
                pos = t[-1][1] if t else None
                for one in (m if isinstance(m, list) else [m]):
                    out.setdefault(one, (one, pos, t))
        for sym, t, pos in A.edges.get(c, ()):
            if sym is None:
                q = (t, s)
            else:
                r = step(s, sym)
                if r is None:       # the path cannot happen
                    continue
                if isinstance(r, tuple) and len(r) == 2 and r[0] == "bad":
                    m = r[1]
                    if m not in out:
                        out[m] = (m, pos, trace(p) + [(sym, pos)])
                    continue
                if isinstance(r, tuple) and len(r) == 3 and r[0] == "warn":   # report and go on
                    m = r[1]
                    if m not in out:
                        out[m] = (m, pos, trace(p) + [(sym, pos)])
                    r = r[2]
                if isinstance(r, list):     # one of several ways on
                    for one in r:
                        q = (t, one)
                        if q not in seen:
                            seen[q] = (p, sym, pos)
                            w.append(q)
                    continue
                q = (t, r)
            if q not in seen:
                seen[q] = (p, sym, pos)
                w.append(q)
    return list(out.values())


def closure(A, S):
    S = set(S)
    w = list(S)
    while w:
        x = w.pop()
        for sym, t, _ in A.edges.get(x, ()):
            if sym is None and t not in S:
                S.add(t)
                w.append(t)
    return frozenset(S)


def compare_languages(A, B, accA=None, accB=None, limit=200000):
    """None if the event languages are equal, else (word, what, posA, posB).
    acc*: predicate on the accept value"""
    accA = accA or (lambda v: True)
    accB = accB or (lambda v: True)
    # only states from which an accepting state can be reached count
    def trim(X, acc):
        good = {s for s, v in X.accept.items() if acc(v)}
        rev = defaultdict(set)
        for s, es in X.edges.items():
            for _, t, _ in es:
                rev[t].add(s)
        w = list(good)
        alive = set(good)
        while w:
            x = w.pop()
            for y in rev[x]:
                if y not in alive:
                    alive.add(y)
                    w.append(y)
        return alive, good
    la, ga = trim(A, accA)
    lb, gb = trim(B, accB)
    s0 = (closure(A, [A.start]) & la, closure(B, [B.start]) & lb)
    seen = {s0: None}
    w = deque([s0])
    n = 0

    def word(p):
        t = []
        while seen[p] is not None:
            q, s = seen[p]
            t.append(s)
            p = q
        return list(reversed(t))

    def moves(X, S, alive):
        m = defaultdict(set)
        pos = {}
        for s in S:
            for sym, t, ps in X.edges.get(s, ()):
                if sym is not None and t in alive:
                    m[sym].add(t)
                    pos.setdefault(sym, ps)
        return {k: closure(X, v) & alive for k, v in m.items()}, pos
    while w:
        p = w.popleft()
        n += 1
        if n > limit:
            raise AnalysisBroken("language comparison too large")
        a, b = p
        ea, eb = bool(a & ga), bool(b & gb)
        ma, pa = moves(A, a, la)
        mb, pb = moves(B, b, lb)
        if ea != eb:
            return word(p), ("one side may end here, the other goes on", sorted(map(str, ma)), sorted(map(str, mb))), next(iter(pa.values()), None), next(iter(pb.values()), None)
        for sym in sorted(set(ma) | set(mb), key=str):
            if sym not in ma or sym not in mb:
                return word(p), ("after these, only one side continues with %s" % (sym,), sorted(map(str, ma)), sorted(map(str, mb))), pa.get(sym) or next(iter(pa.values()), None), pb.get(sym) or next(iter(pb.values()), None)
            q = (frozenset(ma[sym]), frozenset(mb[sym]))
            if q not in seen:
                seen[q] = (p, sym)
                w.append(q)
    return None


# ------------------------------------------------------------------ driver
def run_check(pid, fn, tier, meta):
    import model
    t0 = time.time()
    try:
        prog = model.load()
        rep = Report(pid, prog)
        rep.tier = tier
        fn(rep)
        rep.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    kn = known(pid)
    new = [v for v in rep.viol if v["key"] not in kn]
    old = [v for v in rep.viol if v["key"] in kn]
    total = sum(r["n"] for r in rep.rules.values()) + len(rep.viol)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": meta.get("explanation", "") or "static analysis of the current tree: every instance of the rules below was decided from the source",
            "obligations": total, "discharged": total - len(rep.viol),
            "functions_analysed": len(rep.functions), "configurations_explored": rep.configs,
            "units_parsed": len(prog.units),
            "rules": {n: {"rule": r["text"], "instances": r["n"], "sample": r["inst"][:12]} for n, r in rep.rules.items()},
            "functions": sorted({prog.funcs[f].qn for f in rep.functions if f in prog.funcs})[:200],
        },
        "assumptions": meta.get("assumptions", []) + rep.notes,
        "violations": len(new),
    }
    if new:
        ev["coverage"]["reported"] = [{k: v[k] for k in ("rule", "file", "line", "function", "msg", "key")} for v in new]
    if old:
        ev["coverage"]["known_findings"] = [v["key"] for v in old]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s:%s %s" % (pid, v["file"], v["line"], kn[v["key"]] or v["msg"]))
    if new:
        p = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(p, "w") as f:
            for v in new:
                f.write("%s:%s: in %s: [%s] %s\n    key=%s\n" % (v["file"], v["line"], v["function"], v["rule"], v["msg"], v["key"]))
                for s, pos in v["trace"][-40:]:
                    f.write("      %s:%s %s\n" % (pos[0] if pos else "?", pos[1] if pos else "?", s))
        for v in new:
            print("%s:%s: in %s: [%s] %s" % (v["file"], v["line"], v["function"], v["rule"], v["msg"]))
            if os.environ.get("HXSA_VERBOSE"):
                print("   key=" + v["key"])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("OK property=%s %d obligations, %d functions, %.1fs" % (pid, total, len(rep.functions), time.time() - t0))
    return 0

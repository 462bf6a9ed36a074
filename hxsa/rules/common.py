"""Helpers shared by the rules."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from facts import AnalysisBroken, REPO
from interp import Hooks, Interp, show, path, leaf, mentions, subterms, subst, Auto
from core import typestate, compare_languages


def fields(t):
    """field names along an access path, object first; locals and call results
    at its root are dropped"""
    out = []
    while isinstance(t, tuple):
        k = t[0]
        if k == "f":
            out.append(t[2])
            t = t[1]
        elif k in ("e", "d", "a", "v"):
            t = t[1]
        elif k == "m" and t[1] in ("data", "get", "at", "front", "back", "operator*", "operator->") and len(t) > 2:
            t = t[2]
        else:
            break
    return tuple(reversed(out)), t


def linear(t):
    """(base, offset) of a sum with constants"""
    off = 0
    while t[0] == "b" and t[1] in ("+", "-"):
        if t[3][0] == "c" and isinstance(t[3][1], int):
            off += t[3][1] if t[1] == "+" else -t[3][1]
            t = t[2]
        elif t[1] == "+" and t[2][0] == "c" and isinstance(t[2][1], int):
            off += t[2][1]
            t = t[3]
        else:
            break
    return t, off


def reaching(prog, targets, stop=()):
    """functions from which one of the target ids can be called (targets
    included); search does not pass through functions in stop"""
    stop = set(stop)
    out, w = set(targets), list(targets)
    while w:
        x = w.pop()
        for c in prog.callers(x):
            if c not in out and c not in stop:
                out.add(c)
                w.append(c)
    return out


def loop_vars(f):
    """integer locals compared in conditions that leave a loop"""
    out = set()
    for h, body in f.loops().items():
        for b in body:
            t = f.blocks[b].get("term")
            if not t or t.get("cond", -1) < 0:
                continue
            if all(s in body for s in f.succs(b)):
                continue
            e = f.exprs[t["cond"]]
            for i in f.subexprs(t["cond"]):
                x = f.exprs[i]
                if x["k"] == "bin" and x["op"] in ("<", ">", "!=", "<=", ">=", "=="):
                    for c in x["c"]:
                        y = f.exprs[c]
                        while y["k"] in ("cast", "un") and y.get("c"):
                            y = f.exprs[y["c"][0]]
                        if y["k"] == "ref" and y.get("dk") == "var":
                            out.add(y["d"])
    return out


def ptr_class(ct):
    """class name behind 'const X *', 'X **', 'X &'"""
    return ct.replace("const ", "").replace("*", "").replace("&", "").strip()


def enumerators(prog, prefix):
    """name -> value of the enumeration whose constants start with prefix"""
    best = {}
    for e in prog.enums.values():
        v = {x["name"]: x["v"] for x in e["vals"]}
        if all(n.startswith(prefix) for n in v):
            best = v if len(v) > len(best) else best
    if not best:
        raise AnalysisBroken("no enumeration %s*" % prefix)
    return best


def macro_value(prog, name):
    """value a status macro expands to"""
    if not hasattr(prog, "_macros"):
        prog._macros = {}
        for f in prog.funcs.values():
            for e in f.exprs:
                if e.get("m") and e["k"] == "lit" and isinstance(e.get("v"), int):
                    prog._macros.setdefault(e["m"], e["v"])
    if name not in prog._macros:
        raise AnalysisBroken("macro %s is not used anywhere" % name)
    return prog._macros[name]


def leaves(prog, root):
    """classes derived from root that nothing derives from"""
    return sorted(c for c in prog.all_derived(root) if not prog.derived.get(c))

"""who frees the data a blob refers to"""
from rules.common import *
from rules.client import at
from rules.flow import unwrap, freezed
from rules.results import steps, param
from rules.serve import not_
from rules.getop import Split
from rules.life import run

FIELDS = ("ptr", "len", "type", "clean")


class Owning(Hooks):
    max_depth = 5
    containers = False
    term_scale = 2
    exact = True

    def __init__(self, P):
        self.P = P

    def inline(self, x, c, g):
        return g.d.get("rec") == self.rec and g.kind != "ctor" and g.file.endswith("Blob.cpp")

    def which(self, t):
        """blob a term stands for"""
        while t[0] in ("d", "a", "v") and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        if t == ("this",):
            return "this"
        if t[0] == "p" and param(t, 0):
            return "rhs"
        return None

    def field(self, t):
        t = unwrap(t)
        if t[0] == "f" and t[2] in FIELDS:
            w = self.which(t[1])
            return w and w + "." + t[2]
        return None

    def what(self, t):
        t = unwrap(t)
        f = self.field(t)
        if f:
            return f
        if t[0] == "n" or t == ("c", 0):
            return "none"
        if t == ("c", 1):
            return "yes"
        if t[0] == "p":
            return "arg%s" % t[1][1:t[1].index("d")] if "d" in t[1] else "arg"
        if t[0] == "r" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] in ("alloc", "str"):
            return " ".join(t[2])
        if t[0] == "r" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "was":
            return t[2][1]
        if t[0] == "m" and t[1] in ("data", "c_str", "size", "length") and len(t) > 2 and self.what(t[2]).startswith("arg"):
            return self.what(t[2]) + (".data" if t[1] in ("data", "c_str") else ".size")
        if t[0] == "m" and t[1] in ("move", "forward") and len(t) > 2:
            return self.what(t[2])
        if t[0] == "c":
            return str(t[1])
        if t[0] == "o":
            return "decoded"
        return "?"

    def tag(self, x, c):
        if c.name == "exchange" and len(c.args) == 2 and c.lvs and c.lvs[0][0] == "lv":
            return ("was", self.what(x.rd(c.lvs[0][1])))
        return ("alloc", self.what(c.args[0])) if c.name == "alloc" and c.args else None

    def call(self, x, c):
        a = c.args
        if c.name == "dealloc" and c.obj is None and a:
            return ("free", self.what(a[0]))
        if c.name in ("free", "operator delete") and a:
            return ("free", self.what(a[0]))
        if c.kind == "construct" and c.name == "Blob":
            return ("made", tuple(self.what(t) for t in a), tuple(p["ct"] for p in self.P.funcs[c.fid].params) if c.fid in self.P.funcs else ())
        if c.name == "exchange" and len(a) == 2 and c.lvs and c.lvs[0][0] == "lv" and self.field(c.lvs[0][1]):
            return ("set", self.field(c.lvs[0][1]), "0" if a[1] == ("c", "HXHIM_DATA_INVALID") else self.what(a[1]))
        if c.name in ("memcpy", "memmove") and len(a) == 3:
            return ("copied",) + tuple(self.what(t) for t in a)
        return None

    def assign(self, x, loc, val, n):
        f = self.field(loc)
        if f:
            return ("set", f, self.what(val))
        k = unwrap(loc)
        if loc[0] == "d" and loc[1][0] == "p":
            return ("gives", self.what(loc[1]), self.what(val))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "b" and t[1] in ("==", "!="):
            ws = {self.which(t[2]), self.which(t[3])}
            if ws == {"this", "rhs"}:
                return ("self", truth == (t[1] == "=="))
            if t[3] == ("c", 0) or t[3][0] == "n":
                t, truth = t[2], truth == (t[1] == "!=")
        f = self.field(t)
        if f:
            return ("is", f, truth)
        if t[0] == "p":
            return ("is", self.what(t), truth)
        return None

    def exit(self, x, v):
        return ("exit", self.what(v) if v is not None else None)


COPY = {"this.ptr": "alloc arg0", "this.len": "arg0", "this.type": "arg2", "this.clean": "yes"}
REFER = {"this.ptr": "rhs.ptr", "this.len": "rhs.len", "this.type": "rhs.type", "this.clean": "none"}
MOVED = {"this.ptr": "rhs.ptr", "this.len": "rhs.len", "this.type": "rhs.type", "this.clean": "rhs.clean", "rhs.ptr": "none", "rhs.len": "none", "rhs.clean": "none"}
EMPTY = {"this.ptr": "none", "this.len": "none", "this.clean": "none"}


def wanted(f):
    """(what the fields are afterwards, whether old data is freed, what is returned)"""
    ct = tuple(p["ct"] for p in f.params)
    if f.kind == "ctor" or f.name == "Blob":
        if ct and ct[0] == "Blob &":
            return REFER, False, None
        if ct and ct[0] == "Blob &&":
            return MOVED, False, None
        if ct and ct[0].startswith("void *"):
            return {"this." + n: "arg%d" % i for i, n in enumerate(FIELDS)}, False, None
        if ct and ct[0].startswith(("const unsigned long", "unsigned long", "const std::size_t", "std::size_t")):
            return COPY, False, None
        return {"this.ptr": "arg0.data", "this.len": "arg0.size", "this.type": "arg1"}, False, None
    if f.name == "operator=":
        return (MOVED if ct[0] == "Blob &&" else REFER), True, None
    return {"~Blob": ({}, True, None), "dealloc": (EMPTY, True, None), "clear": (EMPTY, False, None),
            "set_type": ({"this.type": "arg0"}, False, "this.type"), "set_clean": ({"this.clean": "arg0"}, False, "this.clean"),
            "data": ({}, False, "this.ptr"), "size": ({}, False, "this.len"), "data_type": ({}, False, "this.type"),
            "will_clean": ({}, False, "this.clean"), "get": ({}, False, None)}.get(f.name)


def blobs(rep):
    P = rep.prog
    rep.rule("freed", "the data a blob had is freed when it is given up if the blob owns it, once, and not otherwise", 4)
    rep.rule("owner", "afterwards the blob refers to what it should, and exactly one blob owns it", 10)
    rep.rule("told", "what is asked of a blob is told", 4)
    hk = Owning(P)
    done = set()
    fs = [f for f in P.funcs.values() if f.has_cfg and f.qn.startswith("Blob::") and f.file == "src/utils/Blob.cpp"]
    for f in sorted(fs, key=lambda f: (f.line, f.id)):
        w = wanted(f)
        if f.name in ("unpack", "unpack_ref"):
            w = ({}, None, None)
        if w is None:
            continue
        want, frees, ret = w
        hk.rec = f.d.get("rec")
        A = Split(P, hk).run(f)
        ctor = f.name == "Blob"
        done.add(f.name + (f.params[0]["ct"] if f.params else ""))

        def step(st, s):
            k = s[0]
            d = dict(st["now"])
            if k == "is":
                e = dict(st["known"])
                if st["base"] and {"none": False, "yes": True}.get(d.get(s[1]), s[2]) != s[2]:
                    return "drop"
                if e.get(s[1], s[2]) != s[2]:
                    return "drop"
                e[s[1]] = s[2]
                st["known"] = tuple(sorted(e.items()))
            elif k == "self":
                if st["self"] not in (None, s[1]) or ctor and s[1]:
                    return "drop"
                st["self"] = s[1]
            elif k == "set":
                d[s[1]] = s[2]
            elif k == "made" and ctor:
                st["base"] = True
                args = list(s[1]) + ["none", "none", "none", "none"][len(s[1]):]
                if s[2] and s[2][0].startswith("void"):
                    d.update({"this." + n: a for n, a in zip(FIELDS, args)})
                elif s[2] and ("long" in s[2][0] or "size_t" in s[2][0]):
                    d.update({"this.ptr": "copy of " + args[1], "this.len": args[0], "this.type": args[2], "this.clean": "yes"})
                elif s[2] and s[2][0] == "Blob &":
                    d.update({"this." + n: "rhs." + n for n in FIELDS})
                    d["this.clean"] = "none"
            elif k == "copied":
                st["copied"] |= {s[1:]}
            elif k == "free":
                if s[1] in ("none",):
                    return None
                if s[1] != "this.ptr":
                    return ("bad", ("freed", "data that was not the blob's is freed" if s[1].startswith("rhs") else "something else than the data of the blob is freed"))
                if not frees:
                    return ("bad", ("freed", "the data of the blob is freed although it is not given up"))
                if st["freed"]:
                    return ("bad", ("freed", "data is freed twice"))
                if dict(st["known"]).get("this.clean") is not True:
                    return ("bad", ("freed", "data is freed that the blob does not own"))
                st["freed"] = True
            elif k == "gives":
                st["gave"] |= {s[1:]}
            elif k == "exit":
                known = dict(st["known"])
                if st["self"]:
                    if st["freed"] or any(v != n for n, v in d.items()):
                        return ("bad", ("owner", "a blob assigned to itself loses its data"))
                    return None
                if f.name == "operator=" and st["self"] is None:
                    return ("bad", ("owner", "a blob assigned to itself loses its data"))
                if frees and not st["freed"] and known.get("this.clean") is not False:
                    return ("bad", ("freed", "data the blob owns is not freed"))
                if f.name == "~Blob":
                    return None
                if f.name.startswith("unpack"):
                    c = d.get("this.clean", "this.clean")
                    p = d.get("this.ptr", "this.ptr")
                    if c == "this.clean" and p == "this.ptr":
                        return None
                    own = known.get("arg2", None) if c == "arg2" else True if c == "yes" else False if c == "none" else None
                    mine = p.startswith("alloc")
                    if own is None or own != mine:
                        return ("bad", ("owner", "a blob %s" % ("owns data it did not allocate" if not mine else "does not own the data it allocated")))
                    if f.name == "unpack" and "arg2" in known and mine != known["arg2"]:
                        return ("bad", ("owner", "unpacked data is %scopied" % ("" if mine else "not ")))
                    return None
                for n in FIELDS:
                    for w in ("this.", "rhs."):
                        have = d.get(w + n, w + n)
                        need = want.get(w + n)
                        if need is None and (w == "this." and (ctor or want is EMPTY or not want) or w + n == "rhs.type"):
                            if not want and have != w + n:
                                return ("bad", ("owner", "%s is changed" % (w + n)))
                            continue
                        need = need or w + n
                        if have.startswith("copy of") and n == "ptr" and need == "arg0.data" and have == "copy of arg0.data":
                            continue
                        if have == need:
                            continue
                        # what is known of a value names it as well
                        if need == "none" and known.get(have) is False or need == "yes" and known.get(have) is True:
                            continue
                        if {have, need} == {"rhs.clean", "none"} and known.get("rhs.clean") is False:
                            continue
                        return ("bad", ("owner", "%s is %s afterwards" % (w + n, {"none": "nothing", "yes": "true"}.get(have, have))))
                if want is COPY and not any(t[1] == "arg1" and t[2] in ("arg0", "this.len") and (t[0].startswith("alloc") or t[0] == "this.ptr") for t in st["copied"]):
                    return ("bad", ("owner", "the data is not copied"))
                if ret and s[1] != ret:
                    return ("bad", ("told", "%s is returned" % s[1]))
                if f.name == "get":
                    for i, n in enumerate(FIELDS[:3]):
                        if ("arg%d" % i, "this." + n) not in st["gave"] and known.get("arg%d" % i) is not False:
                            return ("bad", ("told", "%s is not given" % n))
                    if any((a, v) not in {("arg%d" % i, "this." + n) for i, n in enumerate(FIELDS[:3])} for a, v in st["gave"]):
                        return ("bad", ("told", "something else is given"))
            st["now"] = tuple(sorted(d.items()))
            return None
        run(rep, f, A, {"now": (), "known": (), "self": None, "base": False, "freed": False, "copied": frozenset(), "gave": frozenset()}, step)
        if frees:
            rep.ok("freed", f.id)
        rep.ok("told" if ret or f.name == "get" else "owner", f.id)
    for f in sorted((f for f in P.funcs.values() if f.has_cfg and f.qn in ("RealBlob", "ReferenceBlob")), key=lambda f: f.id):
        hk.rec = None
        A = Split(P, hk).run(f)
        own = "yes" if f.name == "RealBlob" else "none"

        def making(st, s):
            if s[0] == "made" and s[2] and not s[2][0].startswith("Blob"):
                a = s[1] + ("none",) * (4 - len(s[1]))
                if s[2][0].startswith("void"):
                    if a[:3] != ("arg0", "arg1", "arg2") or a[3] != own:
                        return ("bad", ("owner", "the blob made %s its data" % ("owns" if a[3] != "none" else "does not own") if a[:3] == ("arg0", "arg1", "arg2") else "the blob is made of something else"))
                elif a[:3] != ("arg0", "arg1", "arg2") or own != "yes":
                    return ("bad", ("owner", "the blob is made of something else"))
                st["made"] = True
            elif s[0] == "exit" and not st["made"]:
                return ("bad", ("owner", "no blob is made"))
            return None
        run(rep, f, A, {"made": False}, making)
        rep.ok("owner", f.id)
    for n in ("BlobBlob &", "BlobBlob &&", "operator=Blob &", "operator=Blob &&", "~Blob", "dealloc"):
        if n not in done:
            raise AnalysisBroken("anchor vanished: Blob::" + n)

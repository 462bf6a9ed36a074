"""the bytes keys and values are made of, and the transforms"""
from rules.common import *
from rules.client import at
from rules.flow import freezed, unwrap
from rules.results import steps, param
from rules.getop import Split, DROP
from rules.serve import not_
from rules.life import run, public

KEYS = "src/datastore/triplestore.cpp"
DS = "src/datastore/datastore.cpp"


# ------------------------------------------------------------ linear sums ----
def lin(t, resolve=None):
    """a term as {atom: coefficient}, the constant under ()"""
    out = {}

    def go(t, k):
        if t[0] == "c" and isinstance(t[1], int):
            out[()] = out.get((), 0) + k * t[1]
        elif t[0] == "b" and t[1] in ("+", "-"):
            go(t[2], k)
            go(t[3], k if t[1] == "+" else -k)
        elif t[0] == "b" and t[1] == "*" and "c" in (t[2][0], t[3][0]):
            a, b = (t[2], t[3]) if t[3][0] == "c" else (t[3], t[2])
            go(a, k * b[1])
        elif t[0] == "a" and t[1][0] == "e":
            go(t[1][1] if t[1][1][0] != "d" else t[1][1][1], k)
            go(t[1][2], k)
        elif t[0] == "a" and t[1][0] == "d":
            go(t[1][1], k)
        else:
            r = resolve(t) if resolve else None
            if r is not None:
                for a, n in r:
                    out[a] = out.get(a, 0) + k * n
            else:
                out[t] = out.get(t, 0) + k
    go(t, 1)
    return lfreeze(out)


def lfreeze(d):
    return tuple(sorted(((a, n) for a, n in d.items() if n), key=str))


def ladd(a, b, k=1):
    d = dict(a)
    for x, n in b:
        d[x] = d.get(x, 0) + k * n
    return lfreeze(d)


def num(n):
    return lfreeze({(): n})


def text(a):
    def one(x):
        if x == ():
            return ""
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ("size", "bytes", "type", "data"):
            return "%s(%s)" % x
        return show(x)[:40]
    return " + ".join(("%d" % n if x == () else ("" if n == 1 else "%d*" % n) + one(x)) for x, n in a) or "0"


class Bytes(Hooks):
    """which bytes are written to and read from a buffer"""
    max_depth = 4
    containers = False
    term_scale = 6
    exact = True
    BLOB = ("size", "data", "data_type")

    def __init__(self, P, files, names):
        self.P, self.files, self.names = P, files, names
        self.success = macro_value(P, "HXHIM_SUCCESS")
        self.marks = {}

    def inline(self, x, c, g):
        return g.file in self.files or g.name == "pack_size" and g.file.endswith("Blob.cpp")

    # terms
    def name_of(self, t):
        for n, w in self.names.items():
            if param(t, n):
                return w
        return None

    def atom(self, t):
        """what is known of a term: sum over its atoms, or None"""
        if t[0] == "m" and t[1] in ("size", "data", "data_type") and len(t) == 3:
            w = self.name_of(unwrap(t[2]))
            if w:
                return lfreeze({({"size": "size", "data": "bytes", "data_type": "type"}[t[1]], w): 1})
        if t[0] == "f" and t[2] in ("len", "ptr", "type"):
            w = self.name_of(unwrap(t[1]))
            if w:
                return lfreeze({({"len": "size", "ptr": "bytes", "type": "type"}[t[2]], w): 1})
        if t[0] == "p":
            w = self.name_of(t)
            if w:
                return lfreeze({w if isinstance(w, tuple) else ("param", w): 1})
        if t[0] == "m" and t[1] in ("cast", "(cast)") and len(t) == 3:
            return lin(t[2], self.atom)
        return None

    def lin(self, t):
        return lin(t, self.atom)

    def value(self, x, t):
        """what a pointer to a value points to"""
        if t[0] == "a":
            v = x.rd(t[1])
            return v
        return ("d", t)

    # reading
    def tag(self, x, c):
        if c.name in ("decode", "memcpy", "memmove", "copy") and c.args:
            src, n = None, None
            if c.name == "decode" and c.qn.startswith("little_endian::") and len(c.args) == 3:
                src, n = c.args[1], c.args[2]
            elif c.name in ("memcpy", "memmove") and len(c.args) == 3:
                src, n = c.args[1], c.args[2]
            if src is not None and self.pointer(src):
                k = "read %s of %s" % (text(self.lin(src)), text(self.lin(n)))
                self.marks[k] = (self.lin(src), self.lin(n))
                return (k,)
        if c.name in ("alloc",) and len(c.args) == 1:
            k = "alloc " + text(self.lin(c.args[0]))
            self.marks[k] = (self.lin(c.args[0]),)
            return (k,)
        return None

    def pointer(self, src):
        return any(a != () and isinstance(a, tuple) and a[0] == "bytes" for a, n in self.lin(src))

    def result(self, x, c):
        if c.name in ("RealBlob", "ReferenceBlob") and len(c.args) == 3:
            return ("m", "new " + c.name) + tuple(c.args)
        return None

    # writing
    def call(self, x, c):
        a = c.args
        if c.name in ("memcpy", "memmove") and len(a) == 3:
            if self.region(a[0]):
                if self.pointer(a[1]) and not a[1][0] == "a":
                    return ("w", self.lin(a[0]), ("bytes", self.lin(a[1])), self.lin(a[2]))
                return ("w", self.lin(a[0]), ("value", self.lin(self.value(x, a[1]))), self.lin(a[2]))
        if c.name == "copy" and len(a) == 3 and self.region(a[2]):
            return ("w", self.lin(a[2]), ("bytes", self.lin(a[0])), ladd(self.lin(a[1]), self.lin(a[0]), -1))
        if c.name == "encode" and c.qn.startswith("little_endian::") and len(a) == 3:
            return ("w", self.lin(a[0]), ("value", self.lin(a[1])), self.lin(a[2]))
        return None

    def region(self, t):
        return any(isinstance(x, tuple) and x and x[0] == "r" for x, n in self.lin(t))

    def assign(self, x, loc, val, n):
        for k, w in self.names.items():
            if param(loc[1] if loc[0] == "d" else loc, k):
                return ("give", w, val)
        if loc[0] == "d" and self.region(loc[1]):
            return ("w", self.lin(loc[1]), ("value", self.lin(val)), num(1))
        if loc[0] == "e" and self.region(loc[1] if loc[1][0] != "d" else loc[1][1]):
            return ("w", self.lin(("a", loc)), ("value", self.lin(val)), num(1))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        w = self.name_of(t) if t[0] == "p" else None
        return ("if", w, truth) if w else None

    def exit(self, x, v):
        return ("exit", v)


def blob(v):
    """(pointer, length, type, owned, copied) of a new blob"""
    v = unwrap(v)
    while v[0] == "m" and v[1] in ("move", "std::move") and len(v) == 3:
        v = unwrap(v[2])
    if v[0] != "m" or not v[1].startswith("new "):
        return None
    return v[1][4:], v[2:]


def region_of(off):
    for x, n in off:
        if isinstance(x, tuple) and x and x[0] == "r" and n == 1:
            return x
    return None


def layout(rep, f, hk, A, want_first, finish):
    """the segments of the buffer handed out on every path that succeeds"""
    found = []

    def step(st, s):
        if s[0] == "w":
            r = region_of(s[1])
            if r is None:
                return None
            seg = (ladd(s[1], ((r, 1),), -1), s[3], s[2])
            if seg[1] == ():
                return None
            if any(o == seg[0] for o, _, _ in st["segs"]):
                st["segs"] = frozenset(x for x in st["segs"] if x[0] != seg[0])
            st["segs"] = st["segs"] | {seg}
        elif s[0] == "give":
            st["given"] = s[2]
        elif s[0] == "exit":
            r = finish(st, s[1])
            if r is None:
                return None
            if r[0] == "bad":
                return ("bad", ("layout", r[1]))
            _, total, want = r
            segs, cur, chain = set(st["segs"]), (), []
            while segs:
                nx = [x for x in segs if x[0] == cur]
                if len(nx) != 1:
                    return ("bad", ("layout", "the bytes at %s of the buffer are not filled" % text(cur)))
                chain.append(nx[0])
                segs.discard(nx[0])
                cur = ladd(cur, nx[0][1])
            if cur != total:
                return ("bad", ("layout", "%s bytes are filled of a buffer of %s" % (text(cur), text(total))))
            for (o, w, what), (wa, ww) in zip(chain, want_first):
                if what != wa or w != ww:
                    return ("bad", ("layout", "at %s comes %s %s instead of %s" % (text(o), what[0], text(what[1]), text(wa[1]))))
            if len(chain) < len(want_first):
                return ("bad", ("layout", "the buffer holds too little"))
            found.append(tuple(chain))
        return None
    run(rep, f, A, {"segs": frozenset(), "given": None}, step)
    return set(found)


def keys(rep):
    P = rep.prog
    rep.rule("layout", "a key is the bytes of the subject, then those of the predicate, then what is needed to tell them apart; each byte of the buffer is filled once")
    rep.rule("terminated", "the parts of a key are followed by 0xff, so that the keys of a subject or predicate stay together")
    rep.rule("read-back", "subject and predicate are read from where they were put, with their lengths and types")
    rep.rule("aliasing", "subject and predicate are copies of the key's bytes exactly if asked for")
    rep.rule("value", "a stored value is the bytes of the object followed by its type, and is taken apart the same way", 2)
    f = public(P, "sp_to_key")
    hk = Bytes(P, (KEYS,), {0: "subject", 1: "predicate", 2: "key"})
    A = Split(P, hk).run(f)

    def finish(st, v):
        if v[0] == "c" and v[1] != hk.success:
            return None
        b = blob(st["given"]) if st["given"] else None
        if b is None:
            return ("bad", "no key is given out")
        kind, a = b
        if kind == "ReferenceBlob" or kind == "Blob" and (len(a) != 4 or a[3] != ("c", 1)):
            return ("bad", "the key does not own its bytes")
        ptr, n = unwrap(a[0]), hk.lin(a[1])
        if ptr[0] != "r" or len(ptr) < 3 or hk.marks.get(ptr[2][0] if isinstance(ptr[2], tuple) else ptr[2]) != (n,):
            return ("bad", "the key is not as long as the buffer allocated for it")
        return ("ok", n, None)

    def fin(st, v):
        r = finish(st, v)
        return r if r is None or r[0] == "bad" else (r[0], r[1], None)
    want = [(("bytes", num1(("bytes", w))), num1(("size", w))) for w in ("subject", "predicate")]
    lays = layout(rep, f, hk, A, want, fin)
    rep.ok("layout", f.qn)
    if len(lays) != 1:
        if lays:
            rep.bad("layout", f, f.qn, "keys are laid out in different ways", "keys are laid out in different ways")
        elif not rep.viol:
            rep.bad("layout", f, f.qn, "no key is made", "no key is made")
        return
    lay = lays.pop()
    total = ()
    for o, w, what in lay:
        total = ladd(total, w)
    # an end mark: one constant byte right after the parts, above every length byte that can follow
    if not (lay[2][1] == num(1) and lay[2][2][0] == "value" and lay[2][2][1] and all(a == () and n & 255 == 255 for a, n in lay[2][2][1])):
        rep.bad("layout", f, f.qn, "the key is not terminated by 0xff", "the parts of a key are not terminated by 0xff")
    rep.ok("terminated", f.qn)

    # reading it back
    g = public(P, "key_to_sp")
    hk = Back(P, lay, total)
    A = Split(P, hk).run(g)

    def step(st, s):
        if s[0] == "if" and s[1] == "copy":
            if st["copy"] is not None and st["copy"] != s[2]:
                return DROP
            st["copy"] = s[2]
        elif s[0] == "give" and s[1] in ("subject", "predicate"):
            b = blob(s[2])
            if b is None:
                return ("bad", ("read-back", "the %s is not made from the key" % s[1]))
            kind, a = b
            if len(a) < 3:
                return ("bad", ("read-back", "the %s has no type" % s[1]))
            l = [hk.full(y) for y in a[:2]]
            copied = any(y == ("bytes", "key") for y, n in l[1])
            if copied:
                l.reverse()
            off = ladd(l[0], num1(("bytes", "key")), -1)
            want = [o for o, w, what in lay if what == ("bytes", num1(("bytes", s[1])))][0]
            if off != want:
                return ("bad", ("read-back", "the %s is read from %s of the key, and was put at %s" % (s[1], text(off), text(want))))
            if l[1] != num1(("size", s[1])):
                return ("bad", ("read-back", "the %s gets the length %s" % (s[1], text(l[1]))))
            if hk.full(a[2]) != num1(("type", s[1])):
                return ("bad", ("read-back", "the %s gets the type %s" % (s[1], text(hk.full(a[2])))))
            owned = copied or kind == "RealBlob" or kind == "Blob" and len(a) > 3 and a[3] == ("c", 1)
            if owned and not copied:
                return ("bad", ("aliasing", "the %s owns memory of the key" % s[1]))
            if st["copy"] is None or st["copy"] != copied:
                return ("bad", ("aliasing", "the %s %s the bytes of the key%s" % (s[1], "copies" if copied else "refers to",
                                                                               "" if st["copy"] is None else ", and should not")))
            st[s[1]] = True
        elif s[0] == "exit":
            if s[1][0] == "c" and s[1][1] != hk.success:
                return None
            for w in ("subject", "predicate"):
                if not st[w]:
                    return ("bad", ("read-back", "no %s is given out" % w))
        return None
    run(rep, g, A, {"copy": None, "subject": False, "predicate": False}, step)
    for r in ("read-back", "aliasing"):
        rep.ok(r, g.qn)
    typed(rep)


def num1(a):
    return lfreeze({a: 1})


class Back(Bytes):
    """reads of a buffer whose segments are known"""
    def __init__(self, P, lay, total, names=None, files=(KEYS,), base=("bytes", "key"), size=("size", "key")):
        Bytes.__init__(self, P, files, names or {0: "key", 1: "subject", 2: "predicate", 3: "copy"})
        self.lay, self.total, self.base, self.size_ = lay, total, base, size

    def segment(self, off, width):
        for o, w, what in self.lay:
            if o == off and (width is None or w == width) and what[0] == "value":
                return what[1]
        return None

    def full(self, t):
        """a term, with what is read from the buffer replaced by what was put there"""
        def res(t):
            r = self.atom(t)
            if r is not None:
                return self.grow(r)
            tag = None
            if t[0] in ("o", "r") and len(t) > 2:
                for y in subterms(t[2]) if isinstance(t[2], tuple) else ():
                    pass
                tag = [y for y in flat(t[2:]) if y in self.marks]
            if tag:
                src, n = self.marks[tag[0]]
                off = ladd(self.grow(src), num1(self.base), -1)
                return self.segment(off, n)
            if t[0] == "d":
                off = ladd(self.full(t[1]), num1(self.base), -1)
                return self.segment(off, None)
            if t[0] == "e":
                off = ladd(self.full(("a", t)), num1(self.base), -1)
                return self.segment(off, None)
            return None
        return lin(t, res)

    def grow(self, l):
        n = dict(l).get(self.size_)
        if n:
            l = ladd(ladd(l, num1(self.size_), -n), self.total, n)
        # what earlier reads gave
        for a, k in l:
            if isinstance(a, tuple) and a and a[0] in ("o", "r", "d", "e"):
                r = self.full(a)
                if r != num1(a):
                    l = ladd(ladd(l, num1(a), -k), r, k)
        return l


def flat(t):
    out = []
    for y in t:
        if isinstance(y, tuple):
            out += flat(y)
        elif isinstance(y, str):
            out.append(y)
    return out


def typed(rep):
    """values: the bytes of the object, then its type"""
    P = rep.prog
    f = public(P, "Datastore::Datastore::append_type")
    hk = Bytes(P, (DS,), {0: ("bytes", "object"), 1: ("size", "object"), 2: ("type", "object")})
    A = Split(P, hk).run(f)

    def finish(st, v):
        b = blob(v)
        if b is None:
            return ("bad", "no value is given out")
        kind, a = b
        if kind == "ReferenceBlob" or kind == "Blob" and (len(a) != 4 or a[3] != ("c", 1)):
            return ("bad", "the value does not own its bytes")
        ptr, n = unwrap(a[0]), hk.lin(a[1])
        if ptr[0] != "r" or len(ptr) < 3 or hk.marks.get(flat(ptr[2:])[0]) != (n,):
            return ("bad", "the value is not as long as the buffer allocated for it")
        return ("ok", n, None)
    lays = layout(rep, f, hk, A, [(("bytes", num1(("bytes", "object"))), num1(("size", "object")))], finish)
    rep.ok("value", f.qn)
    if len(lays) != 1:
        if not rep.viol:
            rep.bad("value", f, f.qn, "values are laid out in different ways", "values are not laid out in one way")
        return
    lay = lays.pop()
    total = ()
    for o, w, what in lay:
        total = ladd(total, w)
    g = public(P, "Datastore::Datastore::remove_type")
    hk = Back(P, lay, total, {0: ("bytes", "value"), 1: ("size", "value")}, (DS,), ("bytes", "value"), ("size", "value"))
    A = Split(P, hk).run(g)

    def step(st, s):
        if s[0] == "give" and s[1] == ("size", "value"):
            if hk.full(s[2]) != num1(("size", "object")):
                return ("bad", ("value", "the object gets the length %s" % text(hk.full(s[2]))))
            st["len"] = True
        elif s[0] == "exit":
            if hk.full(s[1]) != num1(("type", "object")):
                return ("bad", ("value", "the type of a value is read as %s" % text(hk.full(s[1]))[:80]))
            if not st["len"]:
                return ("bad", ("value", "the type is not taken off the value"))
        return None
    run(rep, g, A, {"len": False}, step)
    rep.ok("value", g.qn)


# ------------------------------------------------------------- transforms ----
KINDS = {"int": "INT32", "long": "INT64", "unsigned int": "UINT32", "unsigned long": "UINT64", "long long": "INT64",
         "unsigned long long": "UINT64", "float": "FLOAT", "double": "DOUBLE"}
PLAIN = ("BYTE", "POINTER")


def places(t):
    """(names, root) of a term, through iterators and map lookups"""
    names = []
    while isinstance(t, tuple):
        k = t[0]
        if k == "f":
            names.append(t[2])
            t = t[1]
        elif k in ("d", "a", "v", "e"):
            t = t[1]
        elif k == "m" and (t[1].startswith("new ") or t[1] in ("find", "at", "operator->", "operator*", "get", "move")) and len(t) > 2:
            t = t[2]
        else:
            break
    return tuple(reversed(names)), t


class Lookup(Hooks):
    """using the transform of a type"""
    max_depth = 3
    containers = False
    term_scale = 2

    def __init__(self, P, side):
        self.P, self.side = P, side
        self.ok, self.error = macro_value(P, "DATASTORE_SUCCESS"), macro_value(P, "DATASTORE_ERROR")
        self.cb_ok = macro_value(P, "HXHIM_SUCCESS")

    def inline(self, x, c, g):
        return g.file == DS

    def src(self, t, what):
        t = unwrap(t)
        if t[0] == "m" and t[1] == what and len(t) == 3:
            return param(unwrap(t[2]), 1)
        return t[0] == "f" and t[2] == {"data": "ptr", "size": "len", "data_type": "type"}[what] and param(unwrap(t[1]), 1)

    def key(self, t):
        """the lookup a term comes from: 'own' for the entry of the source's type"""
        for y in subterms(t):
            if y[0] == "m" and y[1] in ("find", "at", "count") and len(y) == 4:
                m, k = y[2], y[3]
            elif y[0] == "e":
                m, k = y[1], y[2]
            else:
                continue
            ns, r = places(m)
            return "own" if ns == (self.side,) and param(r, 0) and self.src(k, "data_type") else "other"
        return None

    def entry(self, t):
        """('first'|'second') of the pair found"""
        ns, r = places(t)
        k = self.key(t)
        if k is None or not ns or ns[-1] not in ("first", "second"):
            return None
        return ns[-1] if k == "own" else "other " + ns[-1]

    def tag(self, x, c):
        if c.name == "" and getattr(c, "pointer", None):
            return ("did",)
        if c.name == "alloc" and len(c.args) == 1:
            return ("alloc", "whole" if self.src(c.args[0], "size") else "part")
        return None

    def call(self, x, c):
        a = c.args
        if getattr(c, "pointer", None) is not None:
            good = (len(a) == 5 and self.entry(c.pointer) == "first" and self.src(a[0], "data") and self.src(a[1], "size")
                    and param(unwrap(a[2]), 2) and param(unwrap(a[3]), 3) and self.entry(a[4]) == "second")
            return ("call", good)
        if c.name in ("memcpy", "memmove") and len(a) == 3:
            return ("copy", "whole" in flat(a[0][2:] if a[0][0] == "r" else ()) or param(unwrap(a[0]), 2), self.src(a[1], "data") and (self.src(a[2], "size") or a[2][0] == "d" and param(a[2][1], 3)))
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "d" and param(loc[1], 2):
            return ("dst", val[0] == "r" and flat(val[2:])[-2:] == ["alloc", "whole"])
        if loc[0] == "d" and param(loc[1], 3):
            return ("len", bool(self.src(val, "size")))
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("==", "!="):
            a, b = t[2], t[3]
            if a[0] == "c":
                a, b = b, a
            eq = truth == (t[1] == "==")
            for p, q in ((a, b), (b, a)):
                if any(y[0] == "m" and y[1] == "find" for y in subterms(p)) and any(y[0] == "m" and y[1] == "end" for y in subterms(q)) and not self.entry(p):
                    e = [y for y in subterms(q) if y[0] == "m" and y[1] == "end"][0]
                    ns, r = places(e[2])
                    return ("found", not eq, self.key(p) == "own" and ns == (self.side,) and param(r, 0))
            if a[0] == "r" and "did" in flat(a[2:]) and b[0] == "c":
                return ("ran", b[1] == self.cb_ok, eq)
            if b == ("c", 0) or b[0] == "n":
                t, truth = a, not eq
        if t[0] == "m" and t[1] == "count" and len(t) == 4:
            return ("found", truth, self.key(t) == "own")
        e = self.entry(t)
        if e and e.endswith("first"):
            return ("has", truth, e == "first")
        return None

    def exit(self, x, v):
        v = unwrap(v)
        if v[0] == "r" and "did" in flat(v[2:]):
            return ("exit", "ran" if self.ok == self.cb_ok else "other status")
        return ("exit", v[1] if v[0] == "c" else None)


def using(rep, side):
    P = rep.prog
    f = public(P, "Datastore::Datastore::" + side)
    hk = Lookup(P, side)
    A = Split(P, hk).run(f)
    R = "use"

    def step(st, s):
        k = s[0]
        if k in ("found", "has"):
            if not s[2]:
                return ("bad", (R, "the transform of another type or direction is looked at"))
            if st[k] is not None and st[k] != s[1]:
                return DROP
            st[k] = s[1]
            if k == "has" and not st["found"]:
                return ("bad", (R, "the transform is used before it is known to exist"))
        elif k == "call":
            if not s[1]:
                return ("bad", (R, "the transform function of the type is not called with the value, its destination and its own extra data"))
            if not st["found"] or not st["has"]:
                return ("bad", (R, "a function that is not there is called"))
            st["call"] += st["call"] < 2
        elif k == "ran":
            # s: (ran, compared with success, equal)
            if s[1]:
                st["ran"] = s[2]
            elif s[2]:
                st["ran"] = False
        elif k == "copy":
            st["copy"] = bool(s[1] and s[2])
        elif k == "dst":
            st["dst"] = s[1]
        elif k == "len":
            st["len"] = s[1]
        elif k == "exit":
            good = s[1] == hk.ok or s[1] == "ran"
            if s[1] is None or s[1] == "other status":
                return ("bad", (R, "what is reported does not come from the transform"))
            if st["found"] is None:
                return ("bad", (R, "the transform is not looked up")) if good else None
            if not st["found"]:
                return ("bad", (R, "success is reported without a transform for the type")) if good else None
            if st["has"] is None:
                return ("bad", (R, "nothing is done with the value")) if good else None
            if st["has"]:
                if good and st["call"] != 1:
                    return ("bad", (R, "success is reported although the transform function was not called once"))
                if s[1] != "ran" and good and st["ran"] is not True:
                    return ("bad", (R, "success is reported although the transform function may have failed"))
                if not good and st["ran"] is not False:
                    return ("bad", (R, "failure is reported although the transform function may have succeeded"))
            else:
                if not good:
                    return ("bad", (R, "a value that needs no transform is refused"))
                if not (st["copy"] and st["dst"] and st["len"]):
                    return ("bad", (R, "a value that needs no transform is not copied as a whole"))
        return None
    run(rep, f, A, {"found": None, "has": None, "call": 0, "ran": None, "copy": False, "dst": False, "len": False}, step)
    rep.ok(R, f.qn)


class Defaults(Hooks):
    """filling the tables of transforms"""
    max_depth = 3
    containers = False
    term_scale = 4

    def inline(self, x, c, g):
        return g.file in ("src/datastore/transform.cpp",)

    def result(self, x, c):
        if c.name == "make_pair" and len(c.args) == 2:
            return ("m", "pair", c.args[0], c.args[1])
        return None

    def put(self, m, k, v):
        ns, r = places(m)
        if ns[-1:] not in (("encode",), ("decode",)):
            return None
        v = unwrap(v)
        while v[0] == "m" and v[1].startswith("new ") and len(v) == 3:
            v = unwrap(v[2])
        if v[0] == "m" and (v[1] == "pair" or v[1].startswith("new ")) and len(v) == 4:
            return ("put", ns[-1], k[1] if k[0] == "c" else None, v[2], v[3])
        return ("put", ns[-1], k[1] if k[0] == "c" else None, None, None)

    def call(self, x, c):
        if c.obj is not None and c.name in ("emplace", "insert", "insert_or_assign") and c.args:
            a = list(c.args)
            if len(a) == 1:
                v = unwrap(a[0])
                while v[0] == "m" and v[1].startswith("new ") and len(v) == 3:
                    v = unwrap(v[2])
                if v[0] == "m" and len(v) == 4:
                    a = [v[2], v[3]]
            if len(a) == 2:
                return self.put(c.obj, a[0], a[1])
            return ("put", places(c.obj)[0][-1:] and places(c.obj)[0][-1], None, None, None)
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "e":
            return self.put(loc[1], loc[2], val)
        return None

    def exit(self, x, v):
        return ("exit",)


def instance(P, t):
    """(function, type) of the instantiation a function term names"""
    t = unwrap(t)
    if t[0] == "a":
        t = unwrap(t[1])
    if t[0] != "fn":
        return None
    f = P.funcs.get(t[1])
    import re
    m = re.search(r"<([a-z ]+),void,>$", str(t[1]))
    return (f, m.group(1)) if f and m else None


def defaults(rep):
    P = rep.prog
    f = public(P, "Datastore::Transform::default_callbacks")
    types = {v: n[len("HXHIM_DATA_"):] for n, v in enumerators(P, "HXHIM_DATA_").items()}
    A = Split(P, Defaults()).run(f)
    insts = set()

    def step(st, s):
        if s[0] == "put":
            _, side, k, fn, extra = s
            if k is None or fn is None:
                return ("bad", ("defaults", "a transform is set that cannot be told"))
            d = dict(st["set"])
            if (side, k) in d:
                return None             # emplace keeps the first
            i = instance(P, fn)
            null = fn == ("c", 0) or fn[0] == "n"
            kind = types.get(k, "?")
            if not null:
                if i is None:
                    return ("bad", ("defaults", "the function for %s cannot be told" % kind))
                g, T = i
                if g.qn.split("::")[-2] != side:
                    return ("bad", ("defaults", "%s is %sd by %s" % (kind, side, g.qn)))
                if KINDS.get(T) != kind:
                    return ("bad", ("defaults", "%s values are %sd as %s" % (kind, side, T)))
                ns, r = places(extra)
                if ns[-1:] != ("numeric_extra",):
                    return ("bad", ("defaults", "the transform of %s has no numeric settings" % kind))
                insts.add(g.id)
            elif kind not in PLAIN:
                return ("bad", ("defaults", "%s values are not %sd" % (kind, side)))
            d[(side, k)] = "copy" if null else i[0].qn.split("::")[-1] + " " + i[1]
            st["set"] = tuple(sorted(d.items()))
        elif s[0] == "exit":
            d = dict(st["set"])
            for k, kind in types.items():
                if kind in KINDS.values() or kind in PLAIN:
                    for side in ("encode", "decode"):
                        if (side, k) not in d:
                            return ("bad", ("defaults", "there is no %s for %s" % (side, kind)))
                    if d[("encode", k)] != d[("decode", k)]:
                        return ("bad", ("defaults", "%s is encoded as %s and decoded as %s" % (kind, d[("encode", k)], d[("decode", k)])))
        return None
    run(rep, f, A, {"set": ()}, step)
    rep.ok("defaults", f.qn, len(insts))
    return [P.funcs[i] for i in sorted(insts)]


class Numeric(Hooks):
    """one transform function of a number type"""
    max_depth = 3
    containers = False
    term_scale = 4

    def __init__(self, P, f, T):
        self.P, self.f, self.T = P, f, T
        self.ok = macro_value(P, "HXHIM_SUCCESS")
        self.side = f.qn.split("::")[-2]

    def inline(self, x, c, g):
        return "Transform" in g.qn and g.qn.startswith("Datastore::") or g.file == "include/datastore/transform.tpp"

    def extra(self, t):
        ns, r = places(unwrap(t) if t[0] == "d" else t)
        return ns[0] if len(ns) == 1 and param(r, 4) else None

    def tag(self, x, c):
        if c.qn.startswith("elen::"):
            return ("elen",)
        if c.name == "alloc" and len(c.args) == 1:
            a = c.args[0]
            if a[0] == "c":
                return ("alloc", str(a[1]))
            return ("alloc", "encoded" if self.sized(a) else "other")
        return None

    def elen(self, t):
        t = unwrap(t)
        while t[0] == "m" and t[1] in ("c_str", "data", "new std::basic_string") and len(t) == 3:
            t = unwrap(t[2])
        return t[0] == "r" and "elen" in flat(t[2:])

    def sized(self, t):
        t = unwrap(t)
        return t[0] == "m" and t[1] in ("size", "length") and len(t) == 3 and self.elen(t[2])

    def call(self, x, c):
        a = c.args
        if c.qn.startswith("elen::%s::" % self.side):
            names = c.e.get("pn") or []
            given = {n: v for n, v in zip(names, a)}
            bad = []
            for n in ("neg", "pos"):
                if n in given and self.extra(given[n]) != n:
                    bad.append(n)
            if "precision" in given and self.extra(given["precision"]) != self.T + "_precision":
                bad.append("precision")
            if self.side == "encode":
                if not (a[0][0] == "d" and param(a[0][1], 0)):
                    bad.append("value")
            else:
                v = a[0]
                if not (v[0] == "m" and v[1].startswith("new std::") and len(v) >= 4 and param(unwrap(v[2]), 0) and param(unwrap(v[3]), 1)):
                    bad.append("value")
            import re
            m = re.search(r"<([a-z ]+),", str(c.e.get("f")).rsplit("#", 1)[-1])
            if m and m.group(1) != self.T:
                bad.append("type")
            if c.name != self.f.qn.split("::")[-1]:
                bad.append("function")
            return ("elen", tuple(bad))
        if c.qn.startswith("elen::"):
            return ("elen", ("direction",))
        if c.name in ("memcpy", "memmove") and len(a) == 3:
            return ("copy", a[0][0] == "r" and flat(a[0][2:])[-2:] == ["alloc", "encoded"] and self.elen(a[1]) and self.sized(a[2]))
        return None

    def assign(self, x, loc, val, n):
        if loc[0] == "d" and param(loc[1], 2):
            return ("dst", flat(val[2:])[-1] if val[0] == "r" and "alloc" in flat(val[2:]) else None)
        if loc[0] == "d" and param(loc[1], 3):
            return ("len", "encoded" if self.sized(val) else str(val[1]) if val[0] == "c" else None)
        if loc[0] == "d" and loc[1][0] in ("r", "d"):
            return ("store", self.elen(val))
        return None

    def exit(self, x, v):
        v = unwrap(v)
        return ("exit", v[1] if v[0] == "c" else None)


WIDTH = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "float": 4, "double": 8, "long long": 8, "unsigned long long": 8}


def numbers(rep, fs):
    P = rep.prog
    import re
    R = "numbers"
    for f in fs:
        T = re.search(r"<([a-z ]+),void,>$", str(f.id)).group(1)
        hk = Numeric(P, f, T)
        A = Split(P, hk).run(f)
        enc = hk.side == "encode"

        def step(st, s):
            k = s[0]
            if k == "elen":
                if s[1]:
                    return ("bad", (R, "%s %ss with a wrong %s" % (T, hk.side, ", ".join(s[1]))))
                st["elen"] = True
            elif k == "copy":
                st["data"] = bool(s[1])
            elif k == "store":
                st["data"] = bool(s[1])
            elif k in ("dst", "len"):
                st[k] = s[1]
            elif k == "exit" and s[1] == hk.ok:
                if not st["elen"] or not st["data"]:
                    return ("bad", (R, "%s: success although nothing was %sd" % (T, hk.side)))
                want = "encoded" if enc else str(WIDTH[T])
                if st["dst"] != want:
                    return ("bad", (R, "%s: the destination has not the size of what is put there" % T))
                if st["len"] not in ((want,) if enc else (want, "")):
                    return ("bad", (R, "%s: the size given out is not that of the result" % T))
            elif k == "exit" and st["elen"]:
                return ("bad", (R, "%s: failure is reported although the value was %sd" % (T, hk.side)))
            return None
        run(rep, f, A, {"elen": False, "data": False, "dst": None, "len": ""}, step)
        rep.ok(R, f.qn + " " + T)


class Chosen(Hooks):
    """the transforms of an instance"""
    max_depth = 2
    containers = False
    term_scale = 3

    def inline(self, x, c, g):
        return g.file == "src/hxhim/init.cpp"

    def own(self, t, what):
        ns, r = places(t)
        return ns == ("p", "range_server", "datastores", "transform", what) and param(r, 0)

    def tag(self, x, c):
        return ("defaults",) if c.name == "default_callbacks" else None

    def made(self, t):
        ns, r = places(t)
        return ns if r[0] == "r" and "defaults" in flat(r[2:]) else None

    def assign(self, x, loc, val, n):
        ns = self.made(loc)
        if ns is None or loc[0] not in ("f", "e"):
            return None
        if ns == ("numeric_extra",):
            return ("numeric", self.own(val, "numeric_extra"))
        if len(ns) == 2 and ns[0] == "numeric_extra":
            vs, r = places(val)
            return ("numeric1", ns[1], vs[-2:] == ns and param(r, 0))
        if loc[0] == "e" and ns in (("encode",), ("decode",)):
            k, v = loc[2], val
            kn, kr = places(k)
            vn, vr = places(v)
            return ("put", ns[0], kn == ("first",) and vn == ("second",) and kr == vr and kr[0] == "phi")
        return ("odd",)

    def call(self, x, c):
        if c.name in ("emplace", "insert", "clear", "erase", "swap") and c.obj is not None and self.made(c.obj) is not None:
            return ("odd",)
        return None

    def cond(self, x, t, truth, node):
        t, truth = not_(t, truth)
        if t[0] == "m" and t[1] in ("operator==", "operator!=") and len(t) == 4:
            t = ("b", t[1][8:], t[2], t[3])
        if t[0] == "b" and t[1] in ("==", "!="):
            for y in (t[2], t[3]):
                y = unwrap(y)
                while y[0] == "m" and y[1].startswith("new ") and len(y) == 3:
                    y = y[2]
                if y[0] == "m" and y[1] in ("end", "cend") and len(y) == 3:
                    for w in ("encode", "decode"):
                        if self.own(y[2], w):
                            return ("more", w, truth == (t[1] == "!="))
        return None

    def exit(self, x, v):
        return ("exit", self.made(v) == ())


def chosen(rep):
    P = rep.prog
    f = public(P, "hxhim::init::transform")
    A = Split(P, Chosen()).run(f)
    R = "chosen"

    def step(st, s):
        k = s[0]
        if k == "numeric":
            if not s[1]:
                return ("bad", (R, "the numeric settings do not come from the options"))
            st["numeric"] = 4
        elif k == "numeric1":
            if not s[2]:
                return ("bad", (R, "the numeric setting %s does not come from its option" % s[1]))
            st["numeric"] += st["numeric"] < 4
        elif k == "odd":
            return ("bad", (R, "the transforms given in the options do not replace the defaults"))
        elif k == "more":
            if st["open"] is not None:
                return ("bad", (R, "a transform given in the options is passed over"))
            if s[2]:
                st["open"] = s[1]
            else:
                st[s[1]] = True
        elif k == "put":
            if not s[2] or st["open"] != s[1]:
                return ("bad", (R, "a transform is put in the place of another"))
            st["open"] = None
        elif k == "exit":
            if not s[1]:
                return ("bad", (R, "the transforms given out are not those that were made"))
            if not st["encode"] or not st["decode"] or st["numeric"] < 4:
                return ("bad", (R, "the options for transforms are not all used"))
            if st["open"] is not None:
                return ("bad", (R, "a transform given in the options is passed over"))
        return None
    run(rep, f, A, {"numeric": 0, "open": None, "encode": False, "decode": False}, step)
    rep.ok(R, f.qn)


def transforms(rep):
    rep.rule("use", "a value is transformed by the function registered for its type and direction, copied if there is none to call, refused if the type is unknown; its status is that of the function", 2)
    rep.rule("defaults", "each type has a function in both directions for the same C type, sharing the numeric settings, or is copied in both", 1)
    rep.rule("numbers", "each default function encodes the value, or decodes all of the bytes, with the settings of its extra data in their roles, into memory of the right size", 12)
    rep.rule("chosen", "the transforms of an instance are the defaults, replaced by what the options give")
    using(rep, "encode")
    using(rep, "decode")
    numbers(rep, defaults(rep))
    chosen(rep)

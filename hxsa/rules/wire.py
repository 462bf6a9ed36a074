"""Wire format of the messages: packers and unpackers agree, and a message's
recorded size covers what its packer writes."""
from rules.common import *

RUN = "little_endian::run"
BLOBM = {"pack": "blob", "unpack": "blob", "pack_ref": "ref", "unpack_ref": "ref"}
COUNT = {"max_count": "count"}


def local_roles(prog, fids):
    """local variable -> message field it is stored to (or 'count' when it
    sizes the message)"""
    out = {}
    for fid in fids:
        f = prog.funcs[fid]
        for e in f.exprs:
            if e["k"] == "bin" and e.get("op") == "=":
                r = f.exprs[e["c"][1]]
                while r["k"] == "cast":
                    r = f.exprs[r["c"][0]]
                if r["k"] == "ref" and r.get("dk") == "var":
                    l = f.exprs[e["c"][0]]
                    while l["k"] == "index" or (l["k"] == "call" and l.get("oper") == "[]"):
                        l = f.exprs[l["c"][0] if l["k"] == "index" else l["obj"]]
                    if l["k"] == "member":
                        out.setdefault(r["d"], COUNT.get(l["name"], l["name"]))
            elif e["k"] == "call" and e.get("name") == "alloc" and e.get("obj", -1) is not None and e.get("obj", -1) >= 0 and len(e["c"]) == 1:
                r = f.exprs[e["c"][0]]
                if r["k"] == "ref" and r.get("dk") == "var":
                    out[r["d"]] = "count"
    return out


def role(t, x=None):
    """name of the message field a wire value comes from or goes to"""
    lr = x.H.local_roles if x is not None else {}
    if x is not None:
        for _ in range(4):
            fs, base = fields(t)
            if fs:
                break
            if base[0] == "m" and base[1] in ("size", "length") and len(base) == 3:
                return "#len"
            if base[0] == "L" and base[2] in lr:
                return lr[base[2]]
            if base[0] == "L" and x.env.get(base, base) not in (base,) and x.env[base][0] not in ("c", "o", "j"):
                t = x.env[base]
            elif base[0] in ("r", "n", "o", "m", "p"):
                at = [k for k, v in x.env.items() if v == base and fields(k)[0]] or [k for k, v in x.env.items() if v[0] == "m" and base in v and fields(k)[0]]
                if not at:
                    at = [k[2] for k, v in x.env.items() if v == base and k[0] == "L"]
                    for k in at:
                        if k in lr:
                            return lr[k]
                    return "#len" if at and base[0] == "o" else "#len" if base[0] == "p" and base[1] in () else "?"
                t = min(at, key=str)
            else:
                break
    fs, base = fields(t)
    fs = [f for f in fs if f != "orig"]
    if not fs:
        d = base[2] if base[0] in ("L", "phi") else base[2][2] if base[0] == "j" and len(base) > 2 and base[2][0] == "L" else None
        return lr.get(d, "#len")
    fs[-1] = COUNT.get(fs[-1], fs[-1])
    return ".".join(str(f) for f in fs)


class Wire(Hooks):
    """events of one packer or unpacker"""
    max_depth = 5

    def __init__(self, prog, side, overrides=None, stop_blob=True, hist=False):
        self.hist = hist
        self.prog, self.side = prog, side
        run = {f.id for f in prog.by_qn[RUN]}
        blob = {f.id for n in BLOBM for f in prog.by_qn["Blob::" + n]} if stop_blob else set()
        hist = {f.id for n in ("pack", "unpack") for f in prog.by_qn["Histogram::Histogram::" + n]}
        if not run or (stop_blob and (not blob or not hist)):
            raise AnalysisBroken("wire primitives not found")
        stop = run | blob | hist
        self.relevant = reaching(prog, stop, stop) - stop
        self.overrides = overrides or {}
        self.lv = {}
        self.local_roles = local_roles(prog, self.relevant)

    def disp(self, x, t):
        """distance between a write position and the current cursor"""
        b, o = linear(t)
        best = None
        for k, v in x.env.items():
            if v[0] in ("a", "c", "ref"):
                continue
            vb, vo = linear(v)
            if vb == b and o - vo >= 0 and (best is None or o - vo < best):
                best = o - vo
        return best or 0

    def width(self, t):
        return t[1] if t[0] == "c" else "len"

    def call(self, x, c):
        if c.qn == RUN or c.name in ("memcpy", "memmove"):
            if len(c.args) < 3:
                return None
            dst, src, n = c.args[:3]
            if self.side == "pack":
                return ("int", role(src, x), self.width(n), self.disp(x, dst))
            return ("int", role(dst, x), self.width(n), self.disp(x, src))
        if self.hist and c.name == "assign" and c.obj is not None and len(c.args) == 2:
            return ("int", role(c.obj, x), self.width(c.args[1]), self.disp(x, c.args[0]))
        if c.obj is not None and c.qn == "Blob::" + c.name and c.name in BLOBM:
            inc = c.args[1] if len(c.args) > 1 else ("?",)
            return (BLOBM[c.name], role(c.obj, x), inc[1] if inc[0] == "c" else "?")
        if c.obj is not None and c.qn in ("Histogram::Histogram::pack", "Histogram::Histogram::unpack"):
            return ("hist", role(c.obj, x))
        if c.name == "alloc" and c.e.get("obj", -1) >= 0 and len(c.args) == 1:
            return ("alloc", self.width(c.args[0]) if c.args[0][0] == "c" else role(c.args[0], x))
        return None

    def assign(self, x, loc, val, n):
        ct = n["e"].get("ct", "")
        if ct == "char *":
            a, b = linear(val), linear(x.rd(loc))
            if n["op"] in ("+=", "++", "post++") or (a[0] == b[0] and a[1] > b[1]):
                if a[0] == b[0]:
                    return ("adv", a[1] - b[1])
                if val[0] == "b" and val[1] == "+":
                    return ("adv", "len")
                return ("adv", "?")
        if leaf(loc) == "count" and loc[0] == "f":
            a, b = linear(val), linear(x.rd(loc))
            return ("count+", a[1] - b[1]) if a[0] == b[0] else ("count=", role(val))
        if loc[0] == "L" and loc[2] in self.loopvars(n["f"]):
            a, b = linear(val), linear(x.rd(loc))
            if val[0] == "c":
                return ("idx", val[1])
            if a[0] == b[0]:
                return ("idx+", a[1] - b[1])
            return ("idx", "?")
        return None

    def loopvars(self, f):
        if f.id not in self.lv:
            self.lv[f.id] = loop_vars(f)
        return self.lv[f.id]

    def cond(self, x, t, truth, node):
        # loop bounds: an index compared with a field or a decoded count
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("<", ">", "!=", "<=", ">=", "=="):
            lvs = self.loopvars(node["f"])
            for a, b, op in ((t[2], t[3], t[1]), (t[3], t[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t[1], t[1]))):
                if self.isvar(a, lvs) and (b[0] == "c" or role(b, x) not in ("?",)):
                    if op in ("==", ">="):
                        op, truth = {"==": "!=", ">=": "<"}[op], not truth
                    if op in ("<=", ">"):
                        return ("more", str(b[1]) if b[0] == "c" else role(b, x), "inclusive", truth)
                    return ("more", str(b[1]) if b[0] == "c" else role(b, x), "", truth)
        return None

    def isvar(self, t, lvs):
        b, _ = linear(t)
        if b[0] == "phi":
            return b[2] in lvs
        if b[0] == "j":
            return len(b) > 2 and b[2][0] == "L" and b[2][2] in lvs
        return b[0] == "c" and False


def strip(A, keep):
    """automaton with the symbols mapped through keep (None drops)"""
    B = Auto()
    B.start, B.accept, B.functions = A.start, A.accept, A.functions
    for s, es in A.edges.items():
        B.edges[s] = [(keep(sym) if sym is not None else None, t, p) for sym, t, p in es]
    return B


def entries(prog):
    """class -> (packer, unpacker)"""
    out = {}
    for root in ("Message::Request::Request", "Message::Response::Response"):
        for c in leaves(prog, root):
            pk = [f for f in prog.fns("Message::Packer::pack") if len(f.params) == 3 and ptr_class(f.params[0]["ct"]) == c]
            up = [f for f in prog.fns("Message::Unpacker::unpack") if len(f.params) == 3 and ptr_class(f.params[0]["ct"]) == c]
            if len(pk) != 1 or len(up) != 1:
                raise AnalysisBroken("packer/unpacker of %s not found" % c)
            out[c] = (pk[0], up[0])
    if len(out) < 2:
        raise AnalysisBroken("message classes vanished")
    return out


def valuations(prog, cls):
    if cls.startswith("Message::Request::"):
        if "BGetOp" in cls or any(f["name"] == "ops" for r in prog.rec_by_qn[cls] for f in r["fields"]):
            return [(n, {"ops": v}) for n, v in sorted(enumerators(prog, "HXHIM_GETOP_").items())]
        return [("any", {})]
    return [("success", {"statuses": macro_value(prog, "DATASTORE_SUCCESS")}), ("error", {"statuses": macro_value(prog, "DATASTORE_ERROR")})]


def wire_sym(s):
    if s[0] == "int":
        return s[:3]
    if s[0] in ("blob", "ref", "hist", "more", "idx", "idx+"):
        return s
    return None


def cursor_step(st, s):
    """bytes written past the cursor must be skipped before the next field"""
    if s[0] == "int":
        if s[3] != st_off(st):
            return ("bad", "field %s is placed %d bytes past the cursor, %s bytes are already used there" % (s[1], s[3], st_off(st)))
        return st + (s[2],)
    if s[0] == "adv":
        n = s[1]
        st = list(st)
        if isinstance(n, int) and all(isinstance(w, int) for w in st):
            if n > sum(st):
                return ("bad", "the cursor skips %d bytes after a field of %d" % (n, sum(st)))
            left = sum(st) - n
            return (left,) if left else ()
        if n in st:
            st.remove(n)
            return tuple(st)
        return ("bad", "the cursor moves by %s after writing %s" % (n, list(st)))
    if s[0] in ("blob", "ref", "hist"):
        if st:
            return ("bad", "the cursor was not moved past a field of %s bytes before %s" % (list(st), s[1]))
    if s[0] == "more" and st:
        return ("bad", "the cursor was not moved past a field of %s bytes at the end of an item" % (list(st),))
    return st


def st_off(st):
    return sum(w for w in st if isinstance(w, int))


def count_step(st, s):
    """every item unpacked is counted once"""
    owed, whole = st
    if s[0] == "more" and s[1] == "count":
        if owed and not whole:
            return ("bad", "an item is unpacked without being counted")
        return (s[3], whole)
    if s[0] == "count+":
        if not owed or s[1] != 1:
            return ("bad", "items are counted more often than they are unpacked")
        return (False, whole)
    if s[0] == "count=":
        return (owed, True)
    return st


def alloc_step(st, s):
    """the message is sized by the count read from the wire"""
    if s[0] == "int" and s[1] == "count" and st == "":
        return "count"
    if s[0] == "alloc" and st != "done":
        if s[1] == "count" and st == "count":
            return "done"
        return ("bad", "storage is allocated for %s items, not for the count read from the message" % (s[1],))
    if s[0] in ("blob", "ref", "hist") and st != "done":
        return ("bad", "items are unpacked before storage was allocated for them")
    return st


def roundtrip(rep):
    P = rep.prog
    ok = macro_value(P, "MESSAGE_SUCCESS")
    acc = lambda v: v == ("c", ok)
    rep.rule("same-fields", "for each message class and each operation/status valuation the unpacker reads, in order, exactly the fields (name, width, blob/reference kind, loop bound) the packer writes", 10)
    rep.rule("cursor", "the cursor advances by exactly the width of every scalar before the next field, in packers and unpackers", 10)
    rep.rule("item-count", "each unpacked item increments the message's count exactly once", 5)
    rep.rule("allocation", "an unpacker allocates its storage with the count taken from the message before filling it", 5)
    rep.rule("success", "a packer/unpacker has a path returning the message layer's success code", 10)
    for cls, (pk, up) in sorted(entries(P).items()):
        short = cls.replace("Message::", "")
        for name, val in valuations(P, cls):
            A = Interp(P, Wire(P, "pack", val)).run(pk)
            B = Interp(P, Wire(P, "unpack", val)).run(up)
            rep.auto(A)
            rep.auto(B)
            for X, f in ((A, pk), (B, up)):
                if not any(acc(v) for v in X.accept.values()):
                    rep.bad("success", f, f.qn, "no path of %s(%s) returns MESSAGE_SUCCESS" % (f.qn, short), short)
                    continue
                rep.ok("success", short)
                for m, pos, tr in typestate(X, (), cursor_step, lambda s, v: "the cursor was not moved past the last field" if s and acc(v) else None):
                    rep.bad("cursor", pos[:2] if pos else f, pos[2] if pos else f.qn, "%s [%s]: %s" % (short, name, m), short + m, tr)
                rep.ok("cursor", "%s[%s] %s" % (f.qn, name, short))
            d = compare_languages(strip(A, wire_sym), strip(B, wire_sym), acc, acc)
            if d:
                word, what, pa, pb = d
                pos = pb or pa or (up.file, up.line, up.qn)
                rep.bad("same-fields", pos[:2], pos[2], "%s [%s]: packer and unpacker disagree after %s: packer goes on with %s, unpacker with %s" % (short, name, list(word[-3:]), what[1], what[2]), short, [(w, None) for w in word])
            else:
                rep.ok("same-fields", "%s[%s]" % (short, name))
            for m, pos, tr in typestate(B, (False, False), count_step):
                rep.bad("item-count", pos[:2] if pos else up, pos[2] if pos else up.qn, "%s: %s" % (short, m), short + m, tr)
            rep.ok("item-count", short)
            for m, pos, tr in typestate(B, "", alloc_step):
                rep.bad("allocation", pos[:2] if pos else up, pos[2] if pos else up.qn, "%s: %s" % (short, m), short + m, tr)
            rep.ok("allocation", short)


class Prim(Wire):
    """events of the blob and histogram serializers themselves"""

    def __init__(self, prog, side, root):
        Wire.__init__(self, prog, side, stop_blob=False, hist=True)
        self.relevant = {f.id for f in prog.funcs.values() if f.has_cfg and f.qn.startswith(("little_endian::",)) and f.name != "run"}
        self.relevant |= prog.reach([root], lambda f: f.name == "run" or not (f.qn.startswith(root.qn.rsplit("::", 1)[0]) or f.qn.startswith("little_endian::"))) - {f.id for f in prog.by_qn[RUN]}
        self.relevant -= {f.id for f in prog.funcs.values() if f.name in ("clear", "dealloc", "gen_counts", "pack_size", "alloc", "alloc_array", "dealloc_array", "construct", "destruct")}
        self.local_roles = {}

    def cond(self, x, t, truth, node):
        s = Wire.cond(self, x, t, truth, node)
        if s is not None:
            return s
        while t[0] == "u" and t[1] == "!":
            t, truth = t[2], not truth
        if t[0] == "b" and t[1] in ("==", "!=") and ("c", 0) in t[2:]:
            truth = truth if t[1] == "!=" else not truth
            t = t[2] if t[3] == ("c", 0) else t[3]
        if t[0] == "b" and t[1] in ("<", ">", "<=", ">="):
            a, b = role(t[2], x), role(t[3], x)
            if not a.startswith(("#", "?")) and not b.startswith(("#", "?")):
                op = t[1]
                if op in (">", "<="):
                    a, b, op = b, a, {">": "<", "<=": ">="}[op]
                if op == ">=":
                    op, truth = "<", not truth
                return ("if", a, "<", b, truth)
            return None
        if t[0] in ("p", "f", "o", "v", "m"):
            if t[0] == "p" or (t[0] in ("v", "o") and not role(t, x)[0].isalpha()):
                return ("arg", truth)
            return ("set", role(t, x), truth)
        return None


def field_syms(s):
    if s[0] == "int":
        return s[:3]
    if s[0] in ("more", "idx", "idx+", "if"):
        return s
    if s[0] == "set" and s[1] == "size_":
        return s
    return None


def payload(A, has):
    """the fields of a blob that has data (or: of any blob, its data aside)"""
    B = Auto()
    B.start, B.accept, B.functions = A.start, A.accept, A.functions
    for s, es in A.edges.items():
        for sym, t, p in es:
            if has and sym == ("set", "len", False):
                continue
            keep = sym is not None and sym[0] == "int" and (has or sym[2] != "len")
            B.edges[s].append((sym[:3] if keep else None, t, p))
    return B


def primitives(rep):
    P = rep.prog
    rep.rule("blob-format", "a blob (or blob reference) is unpacked from the same fields it is packed into, with and without its type", 4)
    rep.rule("blob-total", "packing a blob writes its fields for every blob that has data or is empty; a null blob is packed as an empty one", 2)
    rep.rule("blob-cursor", "blob serializers advance the cursor by exactly the bytes of each field", 8)
    nonnull = lambda v: v != ("c", 0)
    for a, b in (("pack", "unpack"), ("pack_ref", "unpack_ref")):
        pk, up = P.func("Blob::" + a), P.func("Blob::" + b)
        for inc in (0, 1):
            A = Interp(P, Prim(P, "pack", pk)).run(pk, [None, ("c", inc)])
            B = Interp(P, Prim(P, "unpack", up)).run(up, [None, ("c", inc)] + [("c", 1)] * (len(up.params) - 2))
            rep.auto(A)
            rep.auto(B)
            d = compare_languages(payload(A, True), payload(B, True), nonnull, nonnull) or compare_languages(payload(A, False), payload(B, False), nonnull, nonnull)
            if d:
                pos = d[3] or d[2] or (up.file, up.line, up.qn)
                rep.bad("blob-format", pos[:2], pos[2], "Blob::%s and Blob::%s (type %s) disagree after %s: packed %s, unpacked %s" % (a, b, "included" if inc else "left out", list(d[0][-2:]), d[1][1], d[1][2]), a)
            else:
                rep.ok("blob-format", "%s/%s type=%d" % (a, b, inc))
            for X, f in ((A, pk), (B, up)):
                for m, pos, tr in typestate(X, (), cursor_step, lambda s, v: "the cursor was not moved past the last field" if s and nonnull(v) else None):
                    rep.bad("blob-cursor", pos[:2] if pos else f, f.qn, m, f.name + m, tr)
                rep.ok("blob-cursor", f.name)
            if a == "pack":
                # a path that writes nothing must have seen a null destination
                # or missing data of a nonzero length
                def step(st, s):
                    if s[0] == "int":
                        return "w"
                    if st == "w":
                        return st
                    if s[0] == "arg" and not s[1]:
                        return "w"
                    if s[0] == "set" and s[1] == "len" and s[2]:
                        return "w"
                    return st
                for m, pos, tr in typestate(A, "", step, lambda s, v: "a blob without data is not written at all, although its reader expects a length" if s != "w" else None):
                    rep.bad("blob-total", pos[:2] if pos else pk, pk.qn, m, "skip", tr)
                rep.ok("blob-total", "type=%d" % inc)
    # no copy: same displacement
    rep.rule("histogram-format", "a histogram is unpacked from the same fields, under the same conditions, it is packed into", 1)
    cand = lambda n: P.func("Histogram::Histogram::" + n, 3, lambda f: f.params[0]["ct"].startswith("char *&") or "char *&" in f.params[0]["ct"])
    pk, up = cand("pack"), cand("unpack")
    A = Interp(P, Prim(P, "pack", pk)).run(pk)
    B = Interp(P, Prim(P, "unpack", up)).run(up)
    rep.auto(A)
    rep.auto(B)
    true = lambda v: v == ("c", 1)
    d = compare_languages(strip(A, field_syms), strip(B, field_syms), true, true)
    if d:
        pos = d[3] or d[2] or (up.file, up.line, up.qn)
        rep.bad("histogram-format", pos[:2], pos[2], "Histogram pack and unpack disagree after %s: packed %s, unpacked %s" % (list(d[0][-3:]), d[1][1], d[1][2]), "hist")
    else:
        rep.ok("histogram-format", "pack/unpack")
    for X, f in ((A, pk), (B, up)):
        for m, pos, tr in typestate(X, (), cursor_step, lambda s, v: "the cursor was not moved past the last field" if s and true(v) else None):
            rep.bad("blob-cursor", pos[:2] if pos else f, f.qn, m, f.qn + m, tr)
        rep.ok("blob-cursor", f.qn)


def wire_check(rep):
    roundtrip(rep)
    primitives(rep)


# ------------------------------------------------------------ size accounting
MADD = "Message::Message::add"


class Size(Wire):
    """contributions of add()/update_size() to the recorded message size"""
    term_scale = 6

    def __init__(self, prog, overrides=None):
        self.hist, self.side = False, "pack"
        base = {f.id for f in prog.by_qn[MADD]}
        if not base:
            raise AnalysisBroken("Message::Message::add not found")
        sz = {f.id for n in ("pack_size", "pack_ref_size") for f in prog.by_qn["Blob::" + n]}
        sz |= {f.id for f in prog.by_qn["Histogram::Histogram::pack_size"]}
        self.relevant = {i for i in reaching(prog, base | sz, base | sz) - base - sz if prog.funcs[i].qn.startswith("Message::") and prog.funcs[i].name not in ("pack", "unpack")}
        self.overrides = overrides or {}
        self.lv = {}
        self.local_roles = {}

    def atoms(self, x, t):
        """term -> tuple of atoms, or None"""
        out = []

        def go(t):
            if t[0] == "b" and t[1] == "+":
                return go(t[2]) and go(t[3])
            if t[0] == "c":
                if t[1]:
                    out.append(("int", t[1]))
                return True
            if t[0] == "m" and t[1] in ("pack_size", "pack_ref_size"):
                inc = t[3] if len(t) > 3 else None
                kind = "ref" if t[1] == "pack_ref_size" else "hist" if inc is None else "blob"
                out.append((kind, role(t[2], x), inc[1] if inc and inc[0] == "c" else None))
                return True
            if t[0] in ("j", "phi", "o", "r"):
                out.append(("acc",))
                return True
            return False
        return tuple(sorted(out, key=str)) if go(t) else None

    def call(self, x, c):
        if c.fid and c.qn == MADD and len(c.args) == 2:
            a = self.atoms(x, c.args[0])
            inc = c.args[1]
            return ("add", a, inc[1] if inc[0] == "c" else "?")
        return None

    def assign(self, x, loc, val, n):
        s = Wire.assign(self, x, loc, val, n)
        if s is not None and s[0] in ("count+", "count=", "idx", "idx+"):
            return s
        if loc[0] == "e":
            fs, base = fields(loc)
            ix = loc[2]
            if fs and ix[0] == "f" and ix[2] == "count":
                return ("store", role(loc, x), "count")
            if fs and base[0] in ("this", "d", "p"):
                return ("store", role(loc, x), "other")
        if leaf(loc) == "serialized_size" and val[0] == "c":
            return ("init", val[1])
        # accumulators
        if loc[0] == "L" and val[0] == "b" and n["op"] in ("+=", "="):
            a = self.atoms(x, val)
            if a:
                old = x.rd(loc)
                return ("acc", a, self.atoms(x, old) if old[0] != "c" else ())
        return None


def contributions(A, count_ctx):
    """contexts -> set of atom multisets accumulated between loop heads"""


def packed_atoms(s):
    """what a packer event contributes"""
    if s[0] == "int":
        return [("int", s[2])]
    if s[0] in ("blob", "ref"):
        return [(s[0], s[1], s[2])]
    if s[0] == "hist":
        return [("hist", s[1], None)]
    return []


def norm(ms):
    """multiset -> (constant, sorted non-constant atoms)"""
    k = sum(a[1] for a in ms if a[0] == "int" and isinstance(a[1], int))
    return k, tuple(sorted((a for a in ms if a[0] != "int"), key=str))


def segments(A, atoms_of, outer):
    """walk the automaton; -> (header, item, inner) sets of normalised
    multisets: before the item loop, per item outside nested loops, per
    iteration of a nested loop.  outer: bound of the item loop or None when
    the whole run is one item"""
    res = {"head": set(), "item": set(), "inner": set()}
    start = ("head" if outer else "item", (), ())
    seen = {(A.start, start)}
    w = [(A.start, start)]
    while w:
        q, (ctx, it, inn) = w.pop()
        if len(seen) > 200000:
            raise AnalysisBroken("size accounting: too many paths")
        if q in A.accept:
            if ctx == "head":
                res["head"].add(norm(it))
            elif outer is None:
                res["item"].add(norm(it))
        for sym, t, pos in A.edges.get(q, ()):
            n = (ctx, it, inn)
            if sym is not None:
                if sym[0] == "more":
                    if outer and sym[1] == outer:
                        if ctx == "head":
                            res["head"].add(norm(it))
                        elif ctx == "item":
                            res["item"].add(norm(it))
                        n = ("item", (), ()) if sym[3] else ("done", (), ())
                    elif ctx in ("item", "inner"):
                        if ctx == "inner":
                            res["inner"].add(norm(inn))
                        n = ("inner", it, ()) if sym[3] else ("item", it, ())
                else:
                    at = tuple(atoms_of(sym))
                    if at:
                        if ctx == "inner":
                            k, o = norm(inn + at)
                            n = (ctx, it, (("int", k),) * bool(k) + o)
                        elif ctx in ("item", "head"):
                            k, o = norm(it + at)
                            n = (ctx, (("int", k),) * bool(k) + o, inn)
            if (t, n) not in seen:
                seen.add((t, n))
                w.append((t, n))
    return res


def covers(give, need):
    """constant and blob atoms of need are all in give"""
    if give[0] < need[0]:
        return False
    g = list(give[1])
    for a in need[1]:
        hit = next((b for b in g if b[0] == a[0] and (a[0] == "hist" or b[1] == a[1]) and (b[2] == a[2] or b[2] == 1)), None)
        if hit is None:
            return False
        g.remove(hit)
    return True


def size_args(prog, f, val):
    """argument vector fixing the parameters a valuation speaks about"""
    args = []
    for p in f.params:
        ct = p["ct"]
        if ct.endswith("hxhim_getop_t") and "ops" in val:
            args.append(("c", val["ops"]))
        elif ct.replace("const ", "") == "int" and "statuses" in val:
            args.append(("c", val["statuses"]))
        elif ct.replace("const ", "") == "unsigned long" and "statuses" in val:
            args.append(("c", 0))       # no records are passed: update_size accounts for them
        else:
            args.append(None)
    return args


def give_atoms(s):
    if s[0] == "add" and s[1]:
        return [a for a in s[1] if a[0] != "acc"]
    return []


def size_check(rep):
    P = rep.prog
    ok = macro_value(P, "MESSAGE_SUCCESS")
    rep.rule("header", "the size a message starts with covers the header every packer writes", 1)
    rep.rule("item", "for every message class and operation/status, adding an item records at least the bytes its packer writes for that item", 10)
    rep.rule("records", "the records of a GETOP response are accounted for by update_size", 1)
    rep.rule("counted", "adding an item counts it exactly once, after its elements were stored at the old count", 10)
    rep.rule("accumulates", "Message::add adds the given amount to the recorded size, which size() returns, and counts only when told to", 3)
    rep.rule("primitive", "pack_size/pack_ref_size return the bytes pack/pack_ref write", 4)
    # --- Message itself
    add = P.func(MADD, 2)
    for inc in (0, 1):
        A = Interp(P, Whole(P)).run(add, [None, ("c", inc)])
        rep.auto(A)
        syms = [s for s in A.symbols()]
        grown = [s for s in syms if s[0] == "grow"]
        cnt = [s for s in syms if s[0] == "count+"]
        if grown != [("grow", "serialized_size", "p0")]:
            rep.bad("accumulates", add, add.qn, "the amount added to a message is not accumulated into its size (%s)" % grown, "grow")
        if (len(cnt) == 1 and cnt[0][1] == 1) != bool(inc):
            rep.bad("accumulates", add, add.qn, "count incremented %s although increment_count=%d" % (cnt, inc), "inc%d" % inc)
        rep.ok("accumulates", "add(ds,%d)" % inc)
    sz = P.func("Message::Message::size", 0)
    A = Interp(P, Hooks()).run(sz)
    if any(fields(v)[0][-1:] != ("serialized_size",) for v in A.accept.values()):
        rep.bad("accumulates", sz, sz.qn, "size() does not return the accumulated size", "size")
    rep.ok("accumulates", "size()")
    ctor = P.func("Message::Message::Message", 3)
    C = Interp(P, Size(P)).run(ctor)
    init = [s[1] for s in C.symbols() if s[0] == "init"]
    for cls, (pk, up) in sorted(entries(P).items()):
        short = cls.replace("Message::", "")
        for name, val in valuations(P, cls):
            A = Interp(P, Wire(P, "pack", val)).run(pk)
            for q in [q for q, v in A.accept.items() if v != ("c", ok)]:
                del A.accept[q]
            need = segments(A, packed_atoms, "count")
            hd = max((h[0] for h in need["head"]), default=0)
            if not init or any(i < hd for i in init):
                rep.bad("header", ctor, ctor.qn, "messages start with size %s, the header of %s takes %d bytes" % (init, short, hd), short)
            else:
                rep.ok("header", short)
            if not need["item"]:
                raise AnalysisBroken("no item loop in the packer of %s" % short)
            addf = [f for f in P.fns(cls + "::add")]
            if not addf:
                raise AnalysisBroken("%s::add not found" % cls)
            for f in addf:
                G = Interp(P, Size(P, val)).run(f, size_args(P, f, val))
                rep.auto(G)
                give = segments(G, give_atoms, None)
                if any(s[0] == "add" and s[1] is None for s in G.symbols()):
                    rep.bad("item", f, f.qn, "%s [%s]: amount added to the size is not a sum of field sizes" % (short, name), short + name)
                for g in give["item"]:
                    for n in need["item"]:
                        if not covers(g, n):
                            rep.bad("item", f, f.qn, "%s [%s]: adding an item records %s but its packer writes %s" % (short, name, fmt(g), fmt(n)), short + name)
                rep.ok("item", "%s[%s]" % (short, name))
                for m, pos, tr in typestate(G, 0, counted_step, lambda s, v: "an item is added without being counted" if s != 1 else None):
                    rep.bad("counted", pos[:2] if pos else f, f.qn, "%s [%s]: %s" % (short, name, m), short + m, tr)
                rep.ok("counted", "%s[%s]" % (short, name))
            if need["inner"] - {(0, ())}:
                us = P.fns(cls + "::update_size")
                if not us:
                    raise AnalysisBroken("%s packs a nested list but has no update_size" % short)
                G = Interp(P, Size(P, val)).run(us[0])
                rep.auto(G)
                give = segments(G, give_atoms, None)
                for g in give["inner"] or {(0, ())}:
                    for n in need["inner"]:
                        if not covers(g, n):
                            rep.bad("records", us[0], us[0].qn, "%s [%s]: update_size records %s per record but the packer writes %s" % (short, name, fmt(g), fmt(n)), short + name)
                    if any(s[0] == "more" and s[1] != "num_recs" for s in G.symbols()) or not any(s[0] == "idx" and s[1] == 0 for s in G.symbols()) or any(s[0] == "idx" and s[1] != 0 or s[0] == "idx+" and s[1] != 1 for s in G.symbols()):
                        rep.bad("records", us[0], us[0].qn, "%s: update_size does not visit every record" % short, short + "loop")
                rep.ok("records", "%s[%s]" % (short, name))
    # --- primitives
    for a, b in (("pack", "pack_size"), ("pack_ref", "pack_ref_size")):
        pk = P.func("Blob::" + a)
        ps = P.func("Blob::" + b, 1)
        for inc in (0, 1):
            A = Interp(P, Prim(P, "pack", pk)).run(pk, [None, ("c", inc)])
            for q in [q for q, v in A.accept.items() if v == ("c", 0)]:
                del A.accept[q]
            B = Interp(P, Hooks()).run(ps, [("c", inc)])
            rep.auto(B)
            need = {norm([x]) for x in ()}
            tot = segments(payload(A, True), lambda s: [("int", s[2])] if isinstance(s[2], int) else [("blob", "len", None)], None)["item"]
            for v in B.accept.values():
                base, off = linear(v)
                flat = flatten(v)
                k = sum(x[1] for x in flat if x[0] == "c")
                vars_ = [x for x in flat if x[0] != "c"]
                for n in tot:
                    if k != n[0] or len(vars_) != len(n[1]) or any(leaf(x) != "len" for x in vars_):
                        rep.bad("primitive", ps, ps.qn, "Blob::%s(%d) returns %s bytes, Blob::%s writes %s" % (b, inc, show(v), a, fmt(n)), b + str(inc))
            rep.ok("primitive", "%s(%d)" % (b, inc))


def flatten(t):
    if t[0] == "b" and t[1] == "+":
        return flatten(t[2]) + flatten(t[3])
    return [t]


def fmt(n):
    return "%d bytes%s" % (n[0], "".join(" + %s(%s%s)" % (a[0], a[1], "" if a[2] is None else ", type" if a[2] else "") for a in n[1] if len(a) > 2))


def counted_step(st, s):
    if s[0] == "add" and s[2] not in (0,):
        if s[2] == "?":
            return ("bad", "it is not known whether the item is counted")
        return ("bad", "an item is counted twice") if st else 1
    if s[0] == "count+":
        return ("bad", "an item is counted twice") if st or s[1] != 1 else 1
    if s[0] == "store" and (st or s[2] != "count"):
        return ("bad", "%s of an item is not stored at the message's old count" % s[1])
    return st


class Whole(Hooks):
    def __init__(self, prog):
        self.relevant = set()

    def assign(self, x, loc, val, n):
        a, b = linear(val), linear(x.rd(loc))
        if leaf(loc) == "count":
            return ("count+", a[1] - b[1]) if a[0] == b[0] else ("count=",)
        if val[0] == "b" and val[1] == "+" and x.rd(loc) in (val[2], val[3]):
            o = val[3] if val[2] == x.rd(loc) else val[2]
            return ("grow", leaf(loc), o[1].split("d")[0] if o[0] == "p" else "?")
        return None

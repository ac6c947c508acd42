"""Bits, nibbles, paths: provenance of every bit."""
from rules import prop
from rules.domain import *
from spec import *
from terms import *
import terms as TM


# ------------------------------------------------------------------ bit provenance
SMALL = {Fld(Par("a1"), "0")}       # the number inside a Nibble argument: below 16


def pw(k):
    return k.bit_length() - 1 if k > 0 and k & (k - 1) == 0 else None


def bitsof(t, w):
    """list of w bits (least significant first): 0, 1, (source, k) or None"""
    o = t.op
    if o == "int":
        return [t.a[0] >> i & 1 for i in range(w)]
    if o == "lin":
        acc = [t.a[0] >> i & 1 for i in range(w)] if t.a[0] >= 0 else None
        if acc is None:
            return [None] * w
        for x, k in t.a[1]:
            s = pw(k)
            if s is None:
                return [None] * w
            b = ([0] * s + bitsof(x, w))[:w]
            if any(p != 0 and q != 0 for p, q in zip(acc, b)):
                return [None] * w
            acc = [q if p == 0 else p for p, q in zip(acc, b)]
        return acc
    if o == "bin":
        f, x, y = t.a[0], t.a[1], t.a[2]
        if f in ("BitAnd", "BitOr", "BitXor"):
            p, q = bitsof(x, w), bitsof(y, w)
            out = []
            for a, b in zip(p, q):
                if f == "BitAnd":
                    out.append(0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 else a if a == b else None)
                elif f == "BitOr":
                    out.append(1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 else a if a == b else None)
                else:
                    out.append(b if a == 0 else a if b == 0 else None)
            return out
        if y.op == "int":
            k = y.a[0]
            if f in ("Shl", "ShlC"):
                return ([0] * k + bitsof(x, w))[:w]
            if f == "Shr":
                return (bitsof(x, w)[k:] + [0] * k)[:w]
            if f == "Div" and pw(k) is not None:
                return (bitsof(x, w)[pw(k):] + [0] * w)[:w]
            if f == "Rem" and pw(k) is not None:
                s = pw(k)
                return (bitsof(x, w)[:s] + [0] * w)[:w]
            if f == "Mul" and pw(k) is not None:
                return ([0] * pw(k) + bitsof(x, w))[:w]
    if o == "trunc":
        return (bitsof(t.a[1], w)[:t.a[0]] + [0] * w)[:w]
    if o == "bin":
        return [None] * w
    return [(t, i) if i < (4 if t in SMALL else 8) else 0 for i in range(w)]


class Bits(M):
    """a number made of these bits (least significant first)"""

    def __init__(self, bits):
        self.bits = bits

    def m(self, X, st, v):
        got = bitsof(v, 8)
        want = (list(self.bits) + [0] * 8)[:8]
        # a source known to be below 16 has no high bits
        got = [0 if isinstance(g, tuple) and g[1] >= 4 and implied(st.facts, Bin("Lt", Int(15), g[0])) is False else g
               for g in got]
        if got == want:
            return True, ""
        if any(g is None for g in got):
            return None, "bits of %s not determined" % short(v, 90)
        return False, "is %s: not the expected bits" % short(v, 120)


def atom(t):
    """(bit, polarity) if the condition is one bit"""
    pol = True
    if t.op == "not":
        t, pol = t.a[0], False
    if t.op == "bin" and t.a[0] == "Eq":
        k, x = t.a[1], t.a[2]
        if x.op == "int":
            k, x = x, k
        if k.op != "int":
            return None
        b = bitsof(x, 16)
        src = [(i, s) for i, s in enumerate(b) if isinstance(s, tuple)]
        if len(src) != 1 or any(s is None for s in b):
            return None
        rest = sum(1 << i for i, s in enumerate(b) if s == 1)
        if k.a[0] == rest:
            return src[0][1], not pol
        if k.a[0] == rest | 1 << src[0][0]:
            return src[0][1], pol
    if t.op == "bin" and t.a[0] == "Lt" and t.a[1].op == "int":
        b = bitsof(t.a[2], 16)
        src = [(i, s) for i, s in enumerate(b) if isinstance(s, tuple)]
        if len(src) == 1 and not any(s is None or s == 1 for s in b):
            if t.a[1].a[0] == 0 or 0 <= t.a[1].a[0] < 1 << src[0][0]:
                return src[0][1], pol
    return None


class Bit(M):
    """a boolean equal to this bit"""

    def __init__(self, src, k):
        self.b = (src, k)

    def m(self, X, st, v):
        if v.op == "bool":
            for t, x in st.facts.items():
                if isinstance(t, Term):
                    a = atom(t)
                    if a and a[0] == self.b:
                        return (True, "") if (x == a[1]) == v.a[0] else (False, "is the negation of the expected bit")
            return False, "is %s without reading bit %d of %s" % (v.a[0], self.b[1], short(self.b[0], 60))
        a = atom(v)
        if a is None and tabulated(v, self.b) is False:
            return False, "is %s: not bit %d of %s for every value of it" % (short(v, 90), self.b[1], short(self.b[0], 60))
        if a is None:
            return None, "bit %s not determined" % short(v, 90)
        return (True, "") if a == (self.b, True) else (False, "is bit %d of %s%s, expected bit %d of %s" % (
            a[0][1], short(a[0][0], 60), "" if a[1] else " negated", self.b[1], short(self.b[0], 60)))


def number(t, src, x, cut):
    """the value of t where the byte `src` is x (None: depends on something else)"""
    if t is src:
        return x
    if t.op == "int":
        return t.a[0]
    if t.op == "bool":
        return bool(t.a[0])
    if t.op == "not":
        y = number(t.a[0], src, x, cut)
        return None if y is None else not y
    if t.op == "lin":
        r = t.a[0]
        for y, k in t.a[1]:
            z = number(y, src, x, cut)
            if z is None:
                return None
            r += k * z
        return r
    if t.op == "trunc":
        y = number(t.a[1], src, x, cut)
        return None if y is None else y & ((1 << t.a[0]) - 1)
    if t.op == "bin":
        a, b = number(t.a[1], src, x, cut), number(t.a[2], src, x, cut)
        if a is None or b is None or min(a, b) < 0:
            return None
        f = t.a[0]
        if f in ("Div", "Rem") and b == 0 or f[:3] in ("Shl", "Shr") and b > 15:
            return None
        r = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "ShlC": lambda: a << b,
             "Shr": lambda: a >> b, "Div": lambda: a // b, "Rem": lambda: a % b, "Mul": lambda: a * b,
             "Eq": lambda: a == b, "Lt": lambda: a < b}.get(f)
        r = None if r is None else r()
        return r & 0xff if r is not None and cut and f in ("Shl", "ShlC") else r
    return None


def tabulated(v, bit):
    """False where the condition is not this bit, whichever way a shift is cut off, found by trying every byte"""
    src, k = bit
    for cut in (False, True):
        vs = [number(v, src, x, cut) for x in range(256)]
        if any(y is None for y in vs) or all(bool(y) == bool(x >> k & 1) for x, y in enumerate(vs)):
            return None
    return False


def nib(i, hi):
    return [(i, k) for k in (range(4, 8) if hi else range(4))]


class NibVal(M):
    """Nibble with these bits"""

    def __init__(self, bits):
        self.bits = bits

    def m(self, X, st, v):
        return Bits(self.bits).m(X, st, Fld(v, "0"))


def seltf(name, s):
    return s.env.get(("O", Par("self")), Par("self"))


class PN:
    def __init__(self, c):
        self.num = c.field("NibblePath", "num_nibbles", 0)
        self.bytes = c.field("NibblePath", "bytes", 1)


@prop("C11", floor=250)
def accessors(c, rep):
    """bit and nibble accessors of keys and paths"""
    p = PN(c)
    S = Par("self")
    by = Fld(S, p.bytes)
    gn = c.method("NibblePath", "get_nibble")
    gb = c.method("NibblePath", "get_bit")
    kn = c.method("[u8; 32]", "get_nibble", trait="Bytes32Ext")
    ku = c.method("[u8; 32]", "nibble", trait="Bytes32Ext")
    for i in range(64):
        x = Idx(by, Int(i // 2))
        X, rs = c.run(gn, args={1: Int(i)})
        table(rep, X, "path nibble %d" % i, where(gn), rs, [Row("in path", [], NibVal(nib(x, i % 2 == 0)))])
        y = Idx(S, Int(i // 2))
        X, rs = c.run(kn, args={1: Int(i)})
        table(rep, X, "key nibble %d" % i, where(kn), rs, [Row("all", [], NibVal(nib(y, i % 2 == 0)))])
        X, rs = c.run(ku, args={1: Int(i)})
        table(rep, X, "key nibble value %d" % i, where(ku), rs, [Row("all", [], Bits(nib(y, i % 2 == 0)))])
    for i in range(256):
        x = Idx(by, Int(i // 8))
        X, rs = c.run(gb, args={1: Int(i)})
        table(rep, X, "path bit %d" % i, where(gb), rs, [Row("in path", [], Bit(x, 7 - i % 8))])


@prop("C11", floor=512)
def key_bits(c, rep):
    """iter_bits yields bit 0 (most significant) first, from either end"""
    ib = c.method("[u8; 32]", "iter_bits", trait="Bytes32Ext")
    X, rs = c.run(ib)
    hb = c.field("HashValueBitIterator", "hash_bytes", 0)
    ps = c.field("HashValueBitIterator", "pos", 1)
    rng = "std::ops::Range"
    if len(rs) != 1 or rs[0][1].op != "agg":
        rep.undet("iter_bits", where(ib), "iterator not determined")
        return
    it = rs[0][1]
    rep.put(*rl(match(X, rs[0][0], Fields(**{hb: Par("self")}), it)), "iter_bits/source", where(ib))
    r = Fld(it, ps)
    rep.put(*rl(match(X, rs[0][0], Fields(start=Int(0), end=Int(256)), r)), "iter_bits/range", where(ib))
    for nm, tr, idx in (("next", "Iterator", lambda a, b: a), ("next_back", "DoubleEndedIterator", lambda a, b: b - 1)):
        b = c.method("HashValueBitIterator", nm, trait=tr)
        for i in range(256):
            a, e = (i, 256) if nm == "next" else (0, i + 1)
            s = Agg(it.a[0], it.a[1], it.a[2], tuple(Par("h") if f == hb else Agg(r.a[0], r.a[1], r.a[2], (Int(a), Int(e)))
                                                     for f in it.a[2]))
            X, rs = c.run(b, args={0: s})
            k = idx(a, e)
            a, e = (i + 1, 256) if nm == "next" else (0, i)
            table(rep, X, "%s %d" % (nm, i), where(b), rs, [Row("bit", [], Tu(
                Con("Some", Bit(Idx(Par("h"), Int(k // 8)), 7 - k % 8)),
                Fields(**{hb: Par("h"), ps: Fields(start=Int(a), end=Int(e))})))],
                value=lambda st, v: Tup(v, st.env.get(("O", s), s)))
        s = Agg(it.a[0], it.a[1], it.a[2], tuple(Par("h") if f == hb else Agg(r.a[0], r.a[1], r.a[2], (Int(256), Int(256)))
                                                 for f in it.a[2]))
        X, rs = c.run(b, args={0: s})
        table(rep, X, "%s at the end" % nm, where(b), rs, [Row("end", [], Con("None"))])
    b = c.method("HashValueBitIterator", "size_hint", trait="Iterator", opt=True)
    if b is None:
        # the default answer, (0, None), makes ExactSizeIterator::len fail
        rep.bad("bits left", where(ib), "HashValueBitIterator does not say how many bits are left")
        return
    for i in range(257):
        s = Agg(it.a[0], it.a[1], it.a[2], tuple(Par("h") if f == hb else Agg(r.a[0], r.a[1], r.a[2], (Int(i), Int(256)))
                                                 for f in it.a[2]))
        X, rs = c.run(b, args={0: s})
        n = Int(256 - i)
        table(rep, X, "bits left %d" % i, where(b), rs, [Row("exact", [], Tu(n, Con("Some", n)))])


def rl(r):
    return (r[0],)


@prop("C11", floor=12)
def path_ops(c, rep):
    """push, pop, last and the constructors"""
    p = PN(c)
    S = Par("self")
    by, num = Fld(S, p.bytes), Fld(S, p.num)
    n0 = Fld(Par("a1"), "0")
    nb = [(n0, k) for k in range(4)]
    push, pop, last = (c.method("NibblePath", n) for n in ("push", "pop", "last"))
    nm = c.method("NibblePath", "num_nibbles")
    emp = c.method("NibblePath", "is_empty")
    X, rs = c.run(c.method("NibblePath", "new"))
    tpl = rs[0][1]
    if tpl.op != "agg":
        rep.undet("shape", where(push), "path not determined")
        return
    X, rs = c.run(c.method("NibblePath", "bytes"))
    table(rep, X, "bytes", where(push), rs, [Row("all", [], by)])
    for k in range(65):
        # a path of k nibbles: (k+1)/2 bytes, the last one half used when k is odd
        n = (k + 1) // 2
        B = Par("bytes%d" % n)
        TM.KNOWN_LEN[B] = n
        s = Agg(tpl.a[0], tpl.a[1], tpl.a[2], tuple({p.num: Int(k), p.bytes: B}[f] for f in tpl.a[2]))
        fin = lambda st, v: Tup(v, st.env.get(("O", s), s))
        lst = Idx(B, Int(n - 1)) if n else None
        X, rs = c.run(push, args={0: s})
        if k == 64:
            rep.put(not rs, "push on a full path", where(push), "returns %s" % short(rs[0][1], 60) if rs else "")
        elif k % 2 == 0:
            table(rep, X, "push to %d" % k, where(push), rs, [Row("even", [], Tu(Any(), Fields(**{
                p.num: Int(k + 1), p.bytes: Pushed(B, [0, 0, 0, 0] + nb)})))], value=fin)
        else:
            table(rep, X, "push to %d" % k, where(push), rs, [Row("odd", [], Tu(Any(), Fields(**{
                p.num: Int(k + 1), p.bytes: Stored(B, n - 1, nb + [None] * 4)})))], value=fin)
        X, rs = c.run(pop, args={0: s})
        table(rep, X, "pop from %d" % k, where(pop), rs, [
            Row("empty", [], Tu(Con("None"), Fields(**{p.num: Int(0), p.bytes: B}))) if not k else
            Row("even", [], Tu(Con("Some", NibVal(nib(lst, False))), Fields(**{
                p.num: Int(k - 1), p.bytes: Stored(B, n - 1, [0, 0, 0, 0] + [None] * 4)}))) if k % 2 == 0 else
            Row("odd", [], Tu(Con("Some", NibVal(nib(lst, True))), Fields(**{p.num: Int(k - 1), p.bytes: Short(B, n)})))],
            value=fin)
        X, rs = c.run(last, args={0: s})
        table(rep, X, "last of %d" % k, where(last), rs, [
            Row("last", [], Con("Some", NibVal(nib(lst, k % 2 == 1))) if k else Con("None"))])
        X, rs = c.run(nm, args={0: s})
        table(rep, X, "num_nibbles %d" % k, where(nm), rs, [Row("all", [], Int(k))])
        X, rs = c.run(emp, args={0: s})
        table(rep, X, "is_empty %d" % k, where(emp), rs, [Row("all", [], TRUE if k == 0 else FALSE)])
    b = c.method("NibblePath", "new")
    X, rs = c.run(b)
    table(rep, X, "new", where(b), rs, [Row("all", [], Fields(**{p.num: Mul(2, Len(Par("a0"))), p.bytes: Par("a0")}))])
    b = c.method("NibblePath", "new_odd", opt=True)
    if b:
        X, rs = c.run(b)
        table(rep, X, "new_odd", where(b), rs, [Row("all", [], Fields(**{
            p.num: Sub(Mul(2, Len(Par("a0"))), Int(1)), p.bytes: Par("a0")}))])


def Mul(k, t):
    r = t
    for _ in range(k - 1):
        r = Add(r, t)
    return r


class Pushed(M):
    def __init__(self, s, bits):
        self.s, self.bits = s, bits

    def m(self, X, st, v):
        if v.op == "pushed" and v.a[0] is self.s:
            b = bitsof(v.a[1], 8)
            return (True, "") if b == self.bits else (None if any(x is None for x in b) else False,
                                                      "pushes %s" % short(v.a[1], 90))
        return False, "is %s, expected one byte more" % short(v, 120)


class Short(M):
    """the sequence without its last byte"""

    def __init__(self, s, n):
        self.s, self.n = s, n

    def m(self, X, st, v):
        if v in (T("popped", self.s), T("take", self.s, Int(self.n - 1)), T("vecop", "truncate", (self.s, Int(self.n - 1)))):
            return True, ""
        return (False if known_space(v) or v.op == "store" else None), "is %s, expected the last byte removed" % short(v, 120)


class Stored(M):
    """the sequence with one byte rewritten: bits as given, None = unchanged"""

    def __init__(self, s, idx, bits):
        self.s, self.idx, self.bits = s, idx, bits

    def m(self, X, st, v):
        if v.op != "store" or v.a[0] is not self.s:
            return False, "is %s, expected one byte rewritten" % short(v, 120)
        i = v.a[1]
        if i is not Int(self.idx):
            return (False if i.op == "int" else None), "rewrites byte %s" % short(i, 80)
        cur = Idx(self.s, i)
        got = bitsof(v.a[2], 8)
        want = [(cur, k) if b is None else b for k, b in enumerate(self.bits)]
        ok = []
        for g, w in zip(got, want):
            if isinstance(w, tuple) and w[0] is not cur and g is None:
                g = w if or_of(v.a[2], cur, w) else g
            ok.append(g)
        if ok == want:
            return True, ""
        return (None if any(x is None for x in ok) else False), "writes %s" % short(v.a[2], 120)


def or_of(t, cur, w):
    """bit w or-ed into a byte whose low half is empty (NibblePath keeps it zero)"""
    return t.op == "bin" and t.a[0] == "BitOr" and {t.a[1], t.a[2]} == {cur, w[0]}


class Prefix(M):
    """number of leading bits two keys have in common"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def m(self, X, st, v):
        a, b = self.a, self.b
        cpl = T("cpl", *sorted((a, b)))
        if v in (cpl, T("cpl", a, b)):
            return True, ""
        full = v is Int(256)
        if full and (implied(st.facts, Eq(a, b)) is True or any(
                t is Eq(cpl, w) and x for t, x in st.facts.items() for w in (Int(256), Len(T("bits", a))))):
            return True, ""
        # byte by byte: the first pair of bytes that differ, and the leading zeros of their difference
        for L in X.loops.values():
            its = [(k, d) for k, d in L.vars.items() if k.op == "itpos"]
            if len(its) != 1 or len(L.vars) != 1:
                continue
            k, d = its[0]
            r, u = d["init"], k.a[1]
            e = T("elem", r, 0, u)
            x = None
            if r.op == "agg" and r.a[2] == ("start", "end") and r.a[3] == (Int(0), Int(32)):
                x, y, pos = Idx(a, e), Idx(b, e), e
            z = r.a[0] if r.op == "enum" else r
            if z.op == "zip" and len(z.a) >= 2 and {w.a[0] for w in z.a if isinstance(w, Term) and w.op == "iter"} == {a, b}:
                x, y, pos = T("elem", T("iter", a), 0, u), T("elem", T("iter", b), 0, u), T("ipos", z, 0)
            if x is None or not d["next"]:
                continue
            diff = T("bin", "BitXor", x, y)
            same = (Eq(Int(0), diff), Eq(diff, Int(0)), Eq(x, y), Eq(y, x))
            known = lambda fs, w: any(implied(dict(fs), t) is w for t in same)
            if not all(known(f, True) for f, n in d["next"]):
                continue
            if full and implied(st.facts, T("hasnext", r, 0, u)) is False:
                return True, ""
            if known(st.facts, False) and any(v is Add(Mul(8, pos), T("num", "leading_zeros", "u8", (z,))) for z in (
                    diff, T("bin", "BitXor", y, x))):
                return True, ""
        looped = any(t.op == "hasnext" for t in st.facts if isinstance(t, Term))
        return (None if looped or any(t.op in ("num", "loopvar") for t in subterms(v)) else False), \
            "is %s, expected %s" % (short(v, 120), short(cpl, 60))


@prop("C11", floor=3)
def prefixes(c, rep):
    b = c.method("[u8; 32]", "common_prefix_bits_len", trait="Bytes32Ext")
    X, rs = c.run(b)
    S, O = Par("self"), Par("a1")
    cpl = T("cpl", *sorted((S, O)))
    table(rep, X, "common_prefix_bits_len", where(b), rs, [Row("all", [], Prefix(S, O))])
    b = c.trait_default("Bytes32Ext", "common_prefix_nibbles_len")
    X, rs = c.run(b)
    table(rep, X, "common_prefix_nibbles_len", where(b), rs, [Row("all", [], OneOf(
        Bin("Div", T("cpl", S, O), Int(4)), Bin("Div", cpl, Int(4))))])


@prop("C11", floor=130)
def nibble_iter(c, rep):
    """walking a path nibble by nibble"""
    p = PN(c)
    path = c.field("NibbleIterator", "nibble_path", 0)
    pos = c.field("NibbleIterator", "pos", 1)
    start = c.field("NibbleIterator", "start", 2)
    S = Par("self")
    b = c.method("NibblePath", "nibbles")
    X, rs = c.run(b)
    table(rep, X, "nibbles", where(b), rs, [Row("all", [], Fields(**{
        path: S, pos: Fields(start=Int(0), end=Fld(S, p.num)), start: Int(0)}))])
    it = rs[0][1]
    if it.op != "agg":
        rep.undet("nibbles/shape", where(b), "iterator not determined")
        return
    r = Fld(it, pos)

    def mk(a, e):
        return Agg(it.a[0], it.a[1], it.a[2], tuple(
            Par("p") if f == path else Int(0) if f == start else Agg(r.a[0], r.a[1], r.a[2], (Int(a), Int(e)))
            for f in it.a[2]))
    by = Fld(Par("p"), p.bytes)
    b = c.method("NibbleIterator", "next", trait="Iterator")
    for i in range(64):
        s = mk(i, 64)
        X, rs = c.run(b, args={0: s})
        table(rep, X, "next %d" % i, where(b), rs, [Row("nibble", [], Tu(
            Con("Some", NibVal(nib(Idx(by, Int(i // 2)), i % 2 == 0))),
            Fields(**{pos: Fields(start=Int(i + 1), end=Int(64)), path: Par("p"), start: Int(0)})))],
            value=lambda st, v: Tup(v, st.env.get(("O", s), s)))
    s = mk(64, 64)
    X, rs = c.run(b, args={0: s})
    table(rep, X, "next end", where(b), rs, [Row("end", [], Con("None"))])
    sp, se, s0, sp_path = Fld(Fld(S, pos), "start"), Fld(Fld(S, pos), "end"), Fld(S, start), Fld(S, path)
    for nm, lo, hi in (("visited_nibbles", s0, sp), ("remaining_nibbles", sp, se)):
        b = c.method("NibbleIterator", nm)
        X, rs = c.run(b)
        table(rep, X, nm, where(b), rs, [Row("all", [], Fields(**{
            path: sp_path, pos: Fields(start=lo, end=hi), start: lo}))])
    b = c.method("NibbleIterator", "bits")
    X, rs = c.run(b)
    bp, bpos = c.field("BitIterator", "nibble_path", 0), c.field("BitIterator", "pos", 1)
    table(rep, X, "bits", where(b), rs, [Row("all", [], Fields(**{
        bp: sp_path, bpos: Fields(start=Mul(4, sp), end=Mul(4, se))}))])
    b = c.method("NibblePath", "bits")
    X, rs = c.run(b)
    table(rep, X, "path bits", where(b), rs, [Row("all", [], Fields(**{
        bp: S, bpos: Fields(start=Int(0), end=Mul(4, Fld(S, p.num)))}))])
    b = c.method("NibbleIterator", "num_nibbles")
    X, rs = c.run(b)
    table(rep, X, "num_nibbles", where(b), rs, [Row("all", [], Sub(se, s0))])




@prop("C11", floor=900)
def peeking(c, rep):
    """looking at the next nibble or bit without advancing, and bits from either end"""
    X, rs = c.run(c.method("NibblePath", "new"))
    tpl = rs[0][1]
    X, rs = c.run(c.method("NibblePath", "nibbles"))
    itn = rs[0][1]
    X, rs = c.run(c.method("NibblePath", "bits"))
    itb = rs[0][1]
    if any(x.op != "agg" for x in (tpl, itn, itb)):
        rep.undet("shape", "nibble_path", "iterators not determined")
        return
    p = PN(c)
    npath, npos, nstart = (c.field("NibbleIterator", n, i) for i, n in enumerate(("nibble_path", "pos", "start")))
    bpath, bpos = (c.field("BitIterator", n, i) for i, n in enumerate(("nibble_path", "pos")))
    B = Par("bytes32")
    TM.KNOWN_LEN[B] = 32
    path = Agg(tpl.a[0], tpl.a[1], tpl.a[2], tuple({p.num: Int(64), p.bytes: B}[f] for f in tpl.a[2]))
    span = lambda r, a, e: Agg(r.a[0], r.a[1], r.a[2], (Int(a), Int(e)))

    def niter(a, e):
        return Agg(itn.a[0], itn.a[1], itn.a[2], tuple(
            {npath: path, npos: span(Fld(itn, npos), a, e), nstart: Int(0)}[f] for f in itn.a[2]))

    def biter(a, e):
        return Agg(itb.a[0], itb.a[1], itb.a[2], tuple({bpath: path, bpos: span(Fld(itb, bpos), a, e)}[f] for f in itb.a[2]))
    pk, fi = c.method("NibbleIterator", "peek", trait="Peekable"), c.method("NibbleIterator", "is_finished")
    for i in range(65):
        for e in {64, min(i + 1, 64), i}:
            s = niter(i, e)
            X, rs = c.run(pk, args={0: s})
            table(rep, X, "peek %d of %d" % (i, e), where(pk), rs, [Row("peek", [], Tu(
                Con("Some", NibVal(nib(Idx(B, Int(i // 2)), i % 2 == 0))) if i < e else Con("None"), Fields(**{
                    npath: path, npos: Fields(start=Int(i), end=Int(e)), nstart: Int(0)})))],
                value=lambda st, v: Tup(v, st.env.get(("O", s), s)))
            X, rs = c.run(fi, args={0: s})
            table(rep, X, "is_finished %d of %d" % (i, e), where(fi), rs, [Row("over", [], TRUE if i >= e else FALSE)])
    ops = [(c.method("BitIterator", "peek", trait="Peekable"), "peek"), (c.method("BitIterator", "next", trait="Iterator"), "next"),
           (c.method("BitIterator", "next_back", trait="DoubleEndedIterator"), "back")]
    for b, n in ops:
        for i in range(256):
            a, e = (0, i + 1) if n == "back" else (i, 256)
            s = biter(a, e)
            after = Fields(**{bpath: path, bpos: Fields(start=Int(a + (n == "next")), end=Int(e - (n == "back")))})
            X, rs = c.run(b, args={0: s})
            table(rep, X, "bit %s %d" % (n, i), where(b), rs, [Row("bit", [], Tu(Con("Some", Bit(Idx(B, Int(i // 8)), 7 - i % 8)), after))],
                  value=lambda st, v: Tup(v, st.env.get(("O", s), s)))
        s = biter(7, 7)
        X, rs = c.run(b, args={0: s})
        table(rep, X, "bit %s none left" % n, where(b), rs, [Row("end", [], Con("None"))])


@prop("C11", floor=5)
def gathering(c, rep):
    """paths built from nibbles, and walking two paths as far as they agree"""
    dom = Dom(c)
    p = PN(c)
    b = c.method("NibblePath", "from_iter", trait="FromIterator")
    X, rs = c.run(b, intr=dom.path())
    A = Par("a0")
    if len(rs) != 1 or rs[0][1].op != "loopvar" or loop_of(X, rs[0][1]) is None:
        rep.undet("from_iter", where(b), "loop not recognised")
    else:
        lv, L = rs[0][1], loop_of(X, rs[0][1])
        d = L.vars[lv]
        its = [k for k in L.vars if k.op == "itpos" and k.a[0] is A]
        ok, msg = match(X, rs[0][0], Fields(**{p.num: Int(0)}), d["init"])
        rep.put(ok, "from_iter/starts empty", where(b), msg)
        e = T("elem", A, 0, its[0].a[1]) if len(its) == 1 else None
        nx = {n for _, n in d["next"]}
        good = nx == {T("ppush", lv, e)} if e is not None else None
        rep.put(good if good or e is None or all(n is lv or n.op == "ppush" for n in nx) else None, "from_iter/each nibble in order",
                where(b), "appends %s" % ", ".join(short(n, 80) for n in nx))
        rep.put(True if its and all(n is T("adv", 1, its[0]) for _, n in L.vars[its[0]]["next"]) else None, "from_iter/all nibbles", where(b), "")
    S = Par("self")
    pos = positions(c)
    b = c.method("NibbleIterator", "get_nibble_path")
    gn = c.method("NibblePath", "get_nibble")
    intr = {k: v for k, v in pos.items() if k.split("::")[-1] in ("visited_nibbles", "remaining_nibbles")}
    intr[gn["path"]] = lambda k: k.ret(T("nibat", k.e.snap(k.st, k.val(0)), k.val(1)))
    X, rs = c.run(b, intr=intr)
    vis, rem = T("visited", S), T("remaining", S)
    for st, v in rs:
        src = v.a[1] if v.op == "collected" else v.a[0] if v.op == "pathof" else None
        if src is None:
            rep.undet("get_nibble_path", where(b), "is %s" % short(v, 90))
            continue
        if src.op == "chain":
            parts = list(src.a[:2])
            rep.put(True if parts == [vis, rem] else False if set(parts) <= {vis, rem} else None, "get_nibble_path", where(b),
                    "collects %s" % short(src, 90))
        elif src in (vis, rem):
            rep.bad("get_nibble_path", where(b), "collects only %s" % short(src, 60))
        else:
            rep.undet("get_nibble_path", where(b), "collects %s" % short(src, 90))
    b = c.func("skip_common_prefix")
    X, rs = c.run(b)
    x, y = Par("a0"), Par("a1")
    Ls = [L for L in X.loops.values() if {k.a[0] for k in L.vars if k.op == "itpos"} == {x, y}]
    if len(Ls) != 1:
        rep.undet("skip_common_prefix", where(b), "loop over both iterators not recognised")
        return
    L = Ls[0]
    ix, iy = (T("itpos", z, L.uid) for z in (x, y))
    ex, ey = (T("elem", z, 0, L.uid) for z in (x, y))
    hx, hy = (T("hasnext", z, 0, L.uid) for z in (x, y))
    eq = Eq(ex, ey)
    for f, _ in L.vars[ix]["next"]:
        f = dict(f)
        rep.put(True if all(implied(f, t) is True for t in (hx, hy, eq)) else False, "skip_common_prefix/goes on only while equal",
                where(b), "goes on without the two elements being there and equal")
    for k in (ix, iy):
        ns = {n for _, n in L.vars[k]["next"]}
        rep.put(ns == {T("adv", 1, k)} or (False if all(n.op == "used" or iterbase(n) is not None and n.op in ("adv", "itpos") for n in ns) else None),
                "skip_common_prefix/one step each", where(b), ", ".join(short(n, 60) for n in ns))
    for st, v in rs:
        cnt = [k for k, d in L.vars.items() if k.op == "loopvar"]
        for z, k in ((x, ix), (y, iy)):
            now = st.env.get(("O", z))
            rep.put(True if now is k else False if now is not None and now.op == "adv" else None, "skip_common_prefix/stops before the difference",
                    where(b), "leaves %s" % short(now, 60) if now is not None else "")
        rep.put(True if implied(st.facts, eq) is False or implied(st.facts, hx) is False or implied(st.facts, hy) is False else False,
                "skip_common_prefix/stops only at a difference or an end", where(b), "stops although the elements agree")
        n = [k for k in cnt if Add(v, Int(0)) is Add(Sub(k, L.vars[k]["init"]), Int(0))]
        good = len(n) == 1 and {w for _, w in L.vars[n[0]]["next"]} == {Add(n[0], Int(1))}
        lin = len(cnt) == 1 and Sub(v, cnt[0]).op == "int" or v.op == "int"
        rep.put(True if good else False if lin or n else None, "skip_common_prefix/count", where(b), "returns %s" % short(v, 60))

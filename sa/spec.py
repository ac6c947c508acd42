"""Decision-table comparison between an engine run (paths: facts -> outcome) and a specification
(rows: guards -> outcome).  A path and a row whose guards can hold together must agree on the outcome:
that is at once soundness (nothing is accepted that the specification rejects) and completeness
(nothing is rejected that it accepts), and it does not depend on the order or nesting of the tests."""
import json
import os
import re
from terms import *
from engine import Program, Engine, bounds, assume, implied, head, unadv, Unsupported, Budget, State, worlds
import terms as TM
import copy
import index as IX

UNDET_OPS = {"phi", "sub", "uninit", "apply", "unk"}
ADT = {}


class Anchor(Exception):
    pass


class Undet(Exception):
    pass


ARITY = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arity.json")))


def arity(key, b):
    """the rules describe functions with these numbers of parameters"""
    if ARITY.get(key, b["argc"]) != b["argc"]:
        raise Anchor("%s with %d parameters" % (key, ARITY[key]))
    return b


class Ctx:
    """one analysed configuration"""

    def __init__(self, facts, config):
        self.p = Program(facts)
        self.config = config
        self.runs = {}
        self.analysed = set()
        self.used = {}            # function -> functions of the crate whose abstraction its analysis relies on
        self.bypath = {b["path"]: b for b in self.p.facts["bodies"] if b["kind"] == "fn"}

    # ---- anchors
    def method(self, ty, name, trait=None, opt=False):
        ms = [b for b in self.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == name
              and b.get("impl_self") and head(b["impl_self"]).split("::")[-1] == ty]
        ms = [b for b in ms if (b.get("impl_trait") is None) == (trait is None)
              and (trait is None or strip(b["impl_trait"]).split("::")[-1] == trait)]
        if not ms:
            if opt:
                return None
            raise Anchor("%s::%s%s not found" % (ty, name, " (impl %s)" % trait if trait else ""))
        return arity("%s::%s" % (ty, name), ms[0])

    def func(self, name, opt=False):
        ms = [b for b in self.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == name
              and not b.get("impl_self") and not b.get("in_trait")]
        if not ms:
            if opt:
                return None
            raise Anchor("fn %s not found" % name)
        return arity(name, ms[0])

    def trait_default(self, trait, name):
        ms = [b for b in self.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == name
              and b.get("in_trait") and strip(b["in_trait"]).split("::")[-1] == trait]
        if not ms:
            raise Anchor("default method %s::%s not found" % (trait, name))
        return ms[0]

    def adt(self, name):
        ms = [a for a in self.p.facts["adts"] if a["path"].split("::")[-1] == name]
        if not ms:
            raise Anchor("type %s not found" % name)
        return ms[0]

    def field(self, ty, name, idx=None, variant=None):
        """current name of a field: by name, else by position (a private field may be renamed)"""
        a = self.adt(ty)
        fs = a["variants"][0]["fields"] if variant is None else \
            [v for v in a["variants"] if v["name"] == variant][0]["fields"]
        names = [f["name"] for f in fs]
        if name in names:
            return name
        if idx is not None and idx < len(names):
            return names[idx]
        raise Anchor("field %s.%s not found" % (ty, name))

    def run(self, body, opaque=(), intr=None, facts=None, args=None, key=None, vocab=(), canon=(), **k):
        kk = (body["id"], key, tuple(sorted(opaque)) if not callable(opaque) else id(opaque))
        if key is not None and kk in self.runs:
            return self.runs[kk]
        vocab = set(vocab)
        if not callable(opaque):
            opaque = set(opaque)
            for i in opaque:
                vocab.add(self.p.bodies[i]["name"])
        e = Engine(self.p, opaque=opaque, intrinsics=intr or {}, **k)
        e.vocab = vocab
        e.canon = canon
        rs = e.run(body, args=args, facts=facts)
        self.analysed.add(body["id"])
        self.analysed |= e.inlined
        for _, q in e.calls:
            x = self.bypath.get(q)
            if x is not None and x["id"] not in e.inlined and x is not body:
                self.used.setdefault(body["path"], set()).add(q)
        r = (e, rs)
        if key is not None:
            self.runs[kk] = r
        return r


def strip(p):
    from engine import strip_generics
    return strip_generics(p)


def where(body):
    sp = body.get("sp") or body.get("span")
    return "%s (%s)" % (body["path"], sp[0] if isinstance(sp, (list, tuple)) else sp)


class Report:
    """obligations of one property on one configuration"""

    def __init__(self, prop, config):
        self.prop, self.config = prop, config
        self.obs = []       # (name, site, status, detail)

    def ok(self, name, site, detail=""):
        self.obs.append((name, site, "ok", detail))

    def bad(self, name, site, detail):
        self.obs.append((name, site, "violation", detail))

    def undet(self, name, site, detail):
        self.obs.append((name, site, "undetermined", detail))

    def put(self, verdict, name, site, detail=""):
        (self.ok if verdict is True else self.bad if verdict is False else self.undet)(name, site, detail)


# ------------------------------------------------------------------ outcomes
def undetermined(t, known=frozenset()):
    """the engine lost track of this value"""
    for s in subterms(t):
        if s.op in UNDET_OPS:
            return s
    return None


def is_err(v):
    return v.op == "agg" and v.a[1] == "Err"


def is_ok(v):
    return v.op == "agg" and v.a[1] == "Ok"


class M:
    def m(self, X, st, v):
        raise NotImplementedError


class IsErr(M):
    def m(self, X, st, v):
        if is_err(v):
            return True, ""
        if v.op == "agg" or v.op == "tuple":
            return False, "returns %s where an error is required" % short(v)
        if implied(st.facts, Is(v, "Err")) is True:
            return True, ""
        return False, "returns %s where an error is required" % short(v)


class Con(M):
    """constructor pattern: Ok(m), Some(m), tuple"""

    def __init__(self, variant, *ms):
        self.variant, self.ms = variant, ms

    def m(self, X, st, v):
        if v.op == "agg":
            if v.a[1] != self.variant:
                return False, "returns %s, expected %s" % (short(v), self.variant)
            vals = v.a[3]
        else:
            if implied(st.facts, Is(v, self.variant)) is not True:
                return False, "returns %s, expected %s" % (short(v), self.variant)
            vals = [Fld(As(v, self.variant), str(i)) for i in range(len(self.ms))]
        if len(vals) < len(self.ms):
            return False, "arity"
        for m, x in zip(self.ms, vals):
            r = match(X, st, m, x)
            if r[0] is not True:
                return r
        return True, ""


class Tu(M):
    def __init__(self, *ms):
        self.ms = ms

    def m(self, X, st, v):
        vals = v.a[0] if v.op == "tuple" else [Fld(v, str(i)) for i in range(len(self.ms))]
        if len(vals) != len(self.ms):
            return False, "arity"
        for m, x in zip(self.ms, vals):
            r = match(X, st, m, x)
            if r[0] is not True:
                return r
        return True, ""


class Any(M):
    def m(self, X, st, v):
        return True, ""


class OneOf(M):
    def __init__(self, *ms):
        self.ms = ms

    def m(self, X, st, v):
        rs = [match(X, st, m, v) for m in self.ms]
        for r in rs:
            if r[0] is True:
                return r
        for r in rs:
            if r[0] is None:
                return r
        return rs[0]


class Fields(M):
    """struct value with the named fields matching"""

    def __init__(self, **ms):
        self.ms = ms

    def m(self, X, st, v):
        for n, m in self.ms.items():
            r = match(X, st, m, Fld(v, n))
            if r[0] is not True:
                return r[0], "%s: %s" % (n, r[1])
        return True, ""


def match(X, st, m, v):
    if callable(m) and not isinstance(m, M):
        m = m(st)
    if isinstance(m, M):
        ok, msg = m.m(X, st, v)
        if ok is False and alien(X, v) is not None:
            return None, msg
        return ok, msg
    if m is v:
        return True, ""
    if m.op == "bool" and v.op in ("bin", "is", "not", "hasnext"):
        if consistent(st.facts, [(v, not m.a[0])]) is None:
            return True, ""
    # equal under the path's facts
    if implied(st.facts, Eq(m, v)) is True if Eq(m, v).op != "not" else False:
        return True, ""
    u = alien(X, v)
    if u is not None:
        return None, "value not determined: %s" % short(u)
    # enum constants known through facts
    return False, "is %s, expected %s" % (short(v), short(m))


def short(t, n=220):
    s = show(t) if not isinstance(t, str) else t
    return s if len(s) <= n else s[:n] + "…"


VOCAB = re.compile(r"^(get$|slice::get|default<|into<|closure:)|TreeReader|TreeWriter|HasPreimage")


def alien(X, t):
    """a subterm the engine only names (an unmodelled call, a lost value)"""
    voc = getattr(X, "vocab", ())
    for s in subterms(t):
        if s.op in UNDET_OPS:
            return s
        if s.op in ("call", "mut") and isinstance(s.a[0], str) and not VOCAB.search(s.a[0]) \
                and not any(v in s.a[0] for v in voc):
            return s
    return None


def alien_path(X, st):
    for k in st.facts:
        if isinstance(k, Term):
            a = alien(X, k)
            if a is not None:
                return a
    return None


class Row:
    def __init__(self, name, guards, out, optional=False):
        self.name, self.guards, self.out, self.optional = name, guards, out, optional


def sized(b, n):
    """a function with the number of parameters its description is for"""
    if b["argc"] != n:
        raise Anchor("%s with %d parameters" % (b["path"], n))
    return b


def consistent(facts, guards):
    f = dict(facts)
    for g in guards:
        t, v = g if isinstance(g, tuple) else (g, True)
        if t.op == "not":
            t, v = t.a[0], not v
        if not assume(f, t, v):
            return None
    # a second pass catches contradictions revealed by later guards
    for g in guards:
        t, v = g if isinstance(g, tuple) else (g, True)
        if t.op == "not":
            t, v = t.a[0], not v
        c = implied(f, t)
        if c is not None and c != v:
            return None
    for k, v in facts.items():
        if isinstance(k, Term) and k.op == "bin" and k.a[0] in ("Eq", "Lt") and (k.a[1].op == "lin" or k.a[2].op == "lin"):
            x = f.pop(k, None)
            c = implied(f, k)
            f[k] = x if x is not None else v
            if c is not None and c != v:
                return None
    return f if bits_ok(f) else None


ALL16 = (1 << 65536) - 1
_BIT, _SETS = {}, {}


def bit_is(b):
    """the set (bit i = number i) of 16-bit numbers with bit b set"""
    if b not in _BIT:
        blk = ((1 << (1 << b)) - 1) << (1 << b)
        n = 2 << b
        while n < 65536:
            blk |= blk << n
            n *= 2
        _BIT[b] = blk
    return _BIT[b]


def bitset(kind, mask, k):
    key = (kind, mask, k)
    if key not in _SETS:
        if kind == "eq":
            r = ALL16 if k & ~mask == 0 else 0
            for b in range(16):
                if mask >> b & 1:
                    r &= bit_is(b) if k >> b & 1 else ALL16 ^ bit_is(b)
        else:                    # number of ones in the mask
            cnt = {0: ALL16}
            for b in range(16):
                if mask >> b & 1:
                    nx = {}
                    for c, x in cnt.items():
                        nx[c] = nx.get(c, 0) | (x & ~bit_is(b))
                        nx[c + 1] = nx.get(c + 1, 0) | (x & bit_is(b))
                    cnt = nx
            r = cnt.get(k, 0)
        _SETS[key] = r & ALL16
    return _SETS[key]


def masked16(t):
    if t.op == "bin" and t.a[0] == "BitAnd" and t.a[1].op == "int":
        t = T("bin", t.a[0], t.a[2], t.a[1], *t.a[3:])
    if t.op == "bin" and t.a[2].op == "int":
        k = t.a[2].a[0]
        if t.a[0] == "BitAnd" and 0 <= k <= 0xffff:
            return t.a[1], k
        if t.a[0] == "Rem" and 0 < k <= 0x10000 and k & (k - 1) == 0:
            return t.a[1], k - 1
    return (t, 0xffff) if t.op in ("ebits", "lbits", "par") else None


def span(lo, hi):
    """the numbers from lo to hi - 1"""
    return ((1 << hi) - 1) ^ ((1 << lo) - 1) if lo < hi else 0


def zeros(kind, k, mask=0xffff):
    """the numbers whose bits in the mask have k leading / trailing zeros (of 16)"""
    if not 0 <= k <= 16:
        return 0
    key = (kind, k, mask)
    if key not in _SETS:
        order = range(16) if kind == "trailing_zeros" else range(15, -1, -1)
        r = ALL16
        for n, b in enumerate(order):
            if n == k:
                r &= bit_is(b) if mask >> b & 1 else 0
                break
            if mask >> b & 1:
                r &= ALL16 ^ bit_is(b)
        _SETS[key] = r
    return _SETS[key]


def above(mask, k):
    """the numbers x with x & mask > k"""
    if k < 0:
        return ALL16
    key = ("gt", mask, k)
    if key not in _SETS:
        r, eq = 0, ALL16 if k < 65536 else 0
        for b in range(15, -1, -1):
            xb = bit_is(b) if mask >> b & 1 else 0
            if k >> b & 1:
                eq &= xb
            else:
                r |= eq & xb
                eq &= ALL16 ^ xb
        _SETS[key] = r
    return _SETS[key]


def below(x, ok):
    """numbers (of the value x is a function of) for which the predicate holds of x: (value, set) or None"""
    if x.op == "num" and x.a[1] == "u16" and x.a[0] in ("leading_zeros", "trailing_zeros", "count_ones"):
        m = masked16(x.a[2][0])
        if m is None:
            return None
        r = 0
        for k in range(17):
            if ok(k):
                r |= bitset("ones", m[1], k) if x.a[0] == "count_ones" else zeros(x.a[0], k, m[1])
        return m[0], r
    return None


def shifted(x, f):
    """a bitmap shifted down by an amount the facts fix: (bitmap, amount) or None"""
    if not (x.op == "bin" and x.a[0].startswith("Shr") and bitmap(x.a[1])):
        return None
    lo, hi = bounds(f, x.a[2])
    return (x.a[1], lo) if lo is not None and lo == hi and 0 <= lo < 16 else None


def code16(t, f=None):
    c = code16_(t, f)
    if c is None and f:
        lo, hi = bounds(f, t)
        if lo is not None and lo == hi:
            return None, str(lo)
    return c


def code16_(t, f):
    """a quantity computed from one 16-bit map: (the map, python expression of it in x) or None"""
    if bitmap(t):
        return t, "x"
    if t.op == "int":
        return None, str(t.a[0])
    parts = None
    if t.op == "lin":
        parts, fmt = [y for _, y in t.a[1]], "(%d%s)" % (t.a[0], "".join("+(%d)*{%d}" % (k, i) for i, (k, _) in enumerate(t.a[1])))
    elif t.op == "bin" and t.a[0] in ("BitAnd", "BitOr", "BitXor"):
        parts, fmt = t.a[1:3], "({0}%s{1})" % {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[t.a[0]]
    elif t.op == "bin" and t.a[0] in ("Div", "Rem") and t.a[2].op == "int" and t.a[2].a[0] > 0:
        parts, fmt = t.a[1:2], "({0}%s%d)" % ("//" if t.a[0] == "Div" else "%", t.a[2].a[0])
    elif t.op == "num" and t.a[1] == "u16" and t.a[0] in NUM16:
        parts, fmt = t.a[2], "%s({0})" % t.a[0]
    elif t.op == "bin" and t.a[0] in ("Shl", "ShlC", "Shr"):
        parts, fmt = t.a[1:3], "%s({0},{1})" % t.a[0][:3].lower()
    if parts is None:
        return None
    leaf, out = None, []
    for y in parts:
        c = code16(y, f)
        if c is None or c[0] is not None and leaf not in (None, c[0]):
            return None
        leaf = leaf or c[0]
        out.append(c[1])
    return leaf, fmt.format(*out)


NUM16 = {"count_ones": lambda x: bin(x).count("1"), "leading_zeros": lambda x: 16 - (x & 0xffff).bit_length(),
         "trailing_zeros": lambda x: 16 if x & 0xffff == 0 else (x & -x).bit_length() - 1}


SHIFTS = [{"shr": lambda a, b: a >> b if 0 <= b < 128 else 0, "shl": lambda a, b, m=m: a << b & m if 0 <= b < 128 else 0}
          for m in (0xffff, (1 << 128) - 1)]


def by_value(t, f=None):
    """a comparison of quantities computed from one 16-bit map: (the map, the numbers it holds for), by trying each;
    None where that depends on how wide a shifted number is"""
    c = [code16(y, f) for y in t.a[1:3]]
    if None in c or c[0][0] is None and c[1][0] is None or None not in (c[0][0], c[1][0]) and c[0][0] is not c[1][0]:
        return None
    if len(c[0][1]) + len(c[1][1]) > 300:
        return None
    key = "%s%s%s" % (c[0][1], "==" if t.a[0] == "Eq" else "<", c[1][1])
    if key not in _SETS:
        ok = [eval("[%s for x in range(65536)]" % key, dict(NUM16, **fs)) for fs in SHIFTS[:2 if "sh" in key else 1]]
        _SETS[key] = int("".join("1" if v else "0" for v in reversed(ok[0])), 2) if ok[0] == ok[-1] else None
    if _SETS[key] is None:
        return None
    return c[0][0] or c[1][0], _SETS[key]


def present(t):
    """`the child a map's lowest or highest bit names is there`: (the map, the mask whose bits are looked at)"""
    x = t.a[0]
    if x.op != "idx" or not (x.a[0].op == "fld" and x.a[0].a[1] == "children"):
        return None
    y = x.a[0].a[0]
    if not (y.op == "fld" and y.a[1] == "children"):
        return None
    i, (c, m) = x.a[1], lin_parts(x.a[1])
    E = T("ebits", y.a[0])
    if i.op == "int":
        return (E, 1 << i.a[0]) if 0 <= i.a[0] < 16 else None
    if len(m) != 1:
        return None
    (n, k), = m.items()
    if n.op != "num" or n.a[1] != "u16" or (n.a[0], c, k) not in (("trailing_zeros", 0, 1), ("leading_zeros", 15, -1)):
        return None
    b = masked16(n.a[2][0])
    return b if b is not None and b[0] is E else None


def bits_ok(f):
    """the facts about 16-bit masks of one value are satisfiable together (decided exactly)"""
    by, same = {}, []
    for t, v in f.items():
        if isinstance(t, Term) and t.op == "is" and t.a[1] in ("Some", "None"):
            r = present(t)
            if r is not None:
                # there, exactly when its bit is set
                by.setdefault(r[0], []).append((bitset("eq", r[1], 0), v is (t.a[1] == "None")))
            continue
        if not (isinstance(t, Term) and t.op == "bin" and t.a[0] in ("Eq", "Lt")):
            continue
        k, x = t.a[1], t.a[2]
        r = by_value(t, f) if any(y.op in ("bin", "lin") and (y.op == "lin" or masked16(y) is None) for y in (k, x)) else None
        if r is not None:
            by.setdefault(r[0], []).append((r[1], v))
            continue
        if t.a[0] == "Lt":
            if k.op != "int":
                continue
            c, m = lin_parts(x)
            if len(m) > 1:
                for y in list(m):
                    lo, hi = f.get(("bnd", y), (None, None))
                    if lo is not None and lo == hi:
                        c += m.pop(y) * lo
            if len(m) != 1:
                continue
            (y, n), = m.items()
            if n not in (1, -1):
                continue
            ks = k.a[0]
            r = below(y, lambda u: ks < c + n * u)
            m16 = masked16(y) if r is None else None
            sh = shifted(y, f) if r is None and m16 is None else None
            if sh is not None:
                # ks < c + n * (u >> s)
                up = lambda t: above(0xffff, ((t + 1) << sh[1]) - 1) if t >= 0 else ALL16
                r = sh[0], up(ks - c) if n == 1 else ALL16 ^ up(c - ks - 1)
            if m16 is not None and (y is not m16[0] or bitmap(y)):
                # ks < c + n*y
                r = m16[0], above(m16[1], ks - c) if n == 1 else ALL16 ^ above(m16[1], c - ks - 1)
            if r is not None:
                by.setdefault(r[0], []).append((r[1], v))
            continue
        if v and k.op == "discr" and x.op == "discr":
            p, q = f.get(("pos", k.a[0])), f.get(("pos", x.a[0]))
            if p is not None and q is not None and p != q:
                return False
        if x.op == "int":
            k, x = x, k
        if k.op != "int":
            p, q = masked16(k), masked16(x)
            if p and q and p[1] == q[1] and p[0] is not q[0]:
                same.append((p[0], q[0], p[1], v))
            continue
        if x.op == "num":
            r = below(x, lambda u: u == k.a[0])
            if r is not None:
                by.setdefault(r[0], []).append((r[1], v))
            continue
        sh = shifted(x, f)
        if sh is not None:
            by.setdefault(sh[0], []).append((bitset("eq", 0xffff >> sh[1] << sh[1], k.a[0] << sh[1]), v))
            continue
        m = masked16(x)
        if m is None or x is m[0] and not bitmap(x):
            continue
        by.setdefault(m[0], []).append((bitset("eq", m[1], k.a[0]), v))
    sets = {}
    for x, cs in by.items():
        r = ALL16
        for b, v in cs:
            r &= b if v else ALL16 ^ b
            if not r:
                return False
        sets[x] = r
    for x, y, m, v in same:
        a, b = sets.get(x, ALL16), sets.get(y, ALL16)
        if v:
            sets[x], sets[y] = a & onto(b, m), b & onto(a, m)
        elif leafpair(x, y) or leafpair(y, x):
            # the leaves are some of the children, and not all of them
            e, l = (x, y) if leafpair(x, y) else (y, x)
            pe = onto(sets.get(e, ALL16), m)
            few = bitset("ones", m, 0)
            if pe | few == few:
                return False
            few |= bitset("ones", m, 1)
            if pe | few == few:
                sets[l] = sets.get(l, ALL16) & bitset("eq", m, 0)
    for x in list(sets):
        y = leafmap(x)
        if y in sets:
            sets[y] &= downset(sets[x])
    return all(sets.values())


def bitmap(x):
    return x.op in ("ebits", "lbits") or x.op == "par" and x.a in (("E",), ("L",))


def leafmap(x):
    """the bitmap of leaves that belongs to a bitmap of children"""
    return T("lbits", *x.a) if x.op == "ebits" else T("par", "L") if x.op == "par" and x.a == ("E",) else None


def leafpair(x, y):
    return leafmap(x) is y


def onto(s, m):
    """numbers that agree with some member of the set on the mask"""
    if s in (0, ALL16):
        return s
    for b in range(16):
        if not m >> b & 1:
            one = bit_is(b)
            s |= (s & one) >> (1 << b) | (s & ~one & ALL16) << (1 << b)
    return s


def downset(s):
    """numbers whose bits are among those of some member"""
    if s in (0, ALL16):
        return s
    for b in range(16):
        s |= (s & bit_is(b)) >> (1 << b)
    return s


def decided(f, x):
    """whether bits_ok decides every fact about this bit-counting term"""
    if x.op != "num" or below(x, lambda u: True) is None:
        return False
    for t in f:
        if not isinstance(t, Term) or silent(t) or x not in subterms(t):
            continue
        if t.op != "bin" or t.a[0] not in ("Eq", "Lt"):
            return False
        a, b = t.a[1], t.a[2]
        if t.a[0] == "Eq" and (a is x and b.op == "int" or b is x and a.op == "int"):
            continue
        if t.a[0] == "Lt" and a.op == "int":
            c, m = lin_parts(b)
            if all(y is x or (f.get(("bnd", y)) or (None, 0))[0] == (f.get(("bnd", y)) or (None, 0))[1] for y in m) and abs(m.get(x, 0)) == 1:
                continue
        return False
    return True


def describe(facts, guards=()):
    fs = ["%s%s" % ("" if v else "not ", short(k, 90)) for k, v in facts.items() if isinstance(k, Term)]
    return " & ".join(fs[:12])


def silent(k):
    """presence of the child a quantity names, or what is stored under a key made from it"""
    return k.op == "is" and (k.a[0].op == "idx" and k.a[1] in ("Some", "None") or k.a[0].op == "node") \
        or k.op in ("nodeok", "nodehere")


def numterms(facts):
    """counted or reduced quantities the facts depend on; which child is present or what is stored under a key
    says nothing about the quantity that named the child"""
    for k in facts:
        if isinstance(k, Term):
            if silent(k):
                continue
            for s in subterms(k):
                if s.op in ("num", "reduce"):
                    yield s


class Never(M):
    """no path may return here"""

    def m(self, X, st, v):
        return False, "returns %s where it must go on" % short(v)


def flags(st, val):
    """the cases of a value that counts a condition as 0 or 1"""
    b = next((x for x in subterms(val) if x.op == "b2i"), None)
    if b is None:
        return [(st, val)]
    out = []
    for yes in (True, False):
        f = dict(st.facts)
        c, v = (b.a[0].a[0], not yes) if b.a[0].op == "not" else (b.a[0], yes)
        if assume(f, c, v):
            new = substm(val, {b: Int(int(yes))})
            out += [(State(st.env, f, st.did), new)] if b in subterms(new) else flags(State(st.env, f, st.did), new)
    return out


WORKED_OUT = "worked out for each value"


def table(rep, X, name, site, results, rows, value=lambda s, v: v, odd=lambda st: None):
    """compare every path with every row it can coincide with.  X carries the engine; `odd` names a
    condition of a path that the rule does not understand."""
    seen = set()
    nums = set()
    for row in rows:
        nums.update(numterms([g[0] if isinstance(g, tuple) else g for g in row.guards]))
    paths = []
    for st, v in results:
        val = value(st, v)
        paths += [(State(st.env, w, st.did), val) for w in worlds(st.facts)]
    paths = [p for st, val in paths for p in flags(st, val)]
    for i, (st, val) in enumerate(paths):
        if not bits_ok(st.facts):
            continue
        hit = 0
        for row in rows:
            f = consistent(st.facts, row.guards)
            if f is None:
                continue
            hit += 1
            seen.add(row.name)
            s2 = State(st.env, f, st.did)
            try:
                ok, msg = match(X, s2, row.out, val)
            except Undet as u:
                ok, msg = None, str(u)
            if ok is True:
                rep.ok("%s/%s" % (name, row.name), site)
            else:
                if ok is False:
                    if ("lossy",) in st.facts:
                        ok = None
                    a = alien_path(X, st) or alien(X, val) or odd(st) or next((x for x in numterms(st.facts) if x not in nums and not decided(f, x)), None)
                    if a is not None and WORKED_OUT not in msg:
                        ok, msg = None, "%s (depends on %s, which is not understood)" % (msg, short(a, 80))
                rep.put(ok, "%s/%s" % (name, row.name), site,
                        "%s; on the path where %s" % (msg, describe(st.facts)))
        if not hit:
            rep.undet("%s/uncovered" % name, site, "no specification row for the path where %s (returns %s)"
                      % (describe(st.facts), short(val)))
    for row in rows:
        if row.name not in seen and not row.optional and consistent({}, row.guards) is not None:
            und = [a for a in (alien_path(X, st) or odd(st) for st, _ in results) if a is not None]
            rep.put(None if und else False, "%s/%s" % (name, row.name), site, "no path of the function handles this case")


# ------------------------------------------------------------------ loops
def zips(t):
    """components of an iteration space"""
    if t.op == "zip":
        return zips(t.a[0]) + zips(t.a[1])
    if t.op in ("filter", "filter_map", "map", "inspect", "enum") and inner_zip(t):
        return zips(t.a[0])
    return [t]


def inner_zip(t):
    while t.op in ("filter", "filter_map", "map", "inspect", "enum"):
        t = t.a[0]
    return t.op == "zip"


def loop_of(X, lv):
    if lv.op != "loopvar":
        return None
    return X.loops.get(lv.a[0])


PUREOPS = {"par", "fld", "as", "bits", "iter", "rev", "skip", "take", "lin", "int", "len", "bin", "adv", "itpos",
           "loopid", "elem", "agg", "tuple", "vec0", "pushed", "extended", "vecop", "cpl", "hash", "bytes", "zip",
           "loopvar", "nth", "idx"}


def known_space(t, X=None):
    """an iteration space the engine describes exactly"""
    if indexy(t):
        return False
    for s in subterms(t):
        if s.op not in PUREOPS and not (X is not None and s.op in ("call", "node", "ppop", "popped", "lastof")
                                        and alien(X, s) is None):
            return False
    return True


def seq_parts(t):
    """contents of a sequence: list of ("one", x) / ("rep", count, x) / ("all", t); None if unknown"""
    o = t.op
    if o == "vec0":
        return []
    if o == "pushed":
        p = seq_parts(t.a[0])
        return None if p is None else p + [("one", t.a[1])]
    if o in ("extended", "chain"):
        p, q = seq_parts(t.a[0]), seq_parts(t.a[1])
        return None if p is None or q is None else p + q
    if o == "vecop" and t.a[0] == "resize":
        v, n, x = t.a[1]
        p = seq_parts(v)
        return None if p is None else p + [("rep", Sub(n, Len(v)), x)]
    if o == "array":
        return [("one", x) for x in t.a[0]]
    if o == "iter":
        return seq_parts(t.a[0])
    if o in ("par", "fld", "elem"):
        return [("all", t)]
    return None


def reindexed(X, L):
    """the loop with counted positions as iterators (None if it counts none)"""
    if not hasattr(X, "reidx"):
        X.reidx = {}
    if L.uid not in X.reidx:
        X.reidx[L.uid] = IX.deindex(L, unadv)
    return X.reidx[L.uid]


def find_loop(X, its):
    """loop whose always-advancing iterators are exactly `its`"""
    out = find_loop_in(X.loops.values(), its)
    if not out:
        out = find_loop_in([n[0] for n in (reindexed(X, L) for L in X.loops.values()) if n is not None], its)
    return out


def recast(X, L, rs):
    """the analysis and the states after or within L, described as L is when L is a loop with its positions
    made iterators"""
    n = getattr(X, "reidx", {}).get(L.uid)
    if n is None or n[0] is not L:
        return X, rs
    term, facts = n[1], n[2]
    Y = copy.copy(X)
    Y.reidx, Y.loops = {}, {}
    for u, l in X.loops.items():
        if u is L.uid:
            Y.loops[u] = L
            continue
        u = term(u)
        Y.loops[u] = type(l)(
            uid=u, site=l.site, stack=l.stack, kind=l.kind, entry_facts=facts(l.entry_facts),
            vars={term(k): dict(d, init=term(d["init"]), next=[(facts(f), term(x)) for f, x in d["next"]])
                  for k, d in l.vars.items()},
            exits=[(tb, [facts(x) for x in xs]) for tb, xs in l.exits] if l.exits else l.exits,
            skips=[facts(x) for x in l.skips or ()], stops=[facts(x) for x in l.stops or ()])
    return Y, [(State(s.env, facts(s.facts), s.did), term(v)) for s, v in rs]


def find_loop_in(loops, its):
    out = []
    for L in loops:
        got = []
        for k, d in L.vars.items():
            if k.op == "itpos":
                got += zips(d["init"])
        if sorted(map(show, got)) == sorted(map(show, its)):
            out.append(L)
    return out


def stepped(g, others):
    """a component cut to the length of one walked in step with it"""
    while g.op == "take" and any(extent(h) == g.a[1] for h in others):
        g = g.a[0]
    return g


def extent(h):
    while h.op == "rev":
        h = h.a[0]
    return Len(h.a[0]) if h.op == "iter" else None


def space_match(X, st, got, its):
    """assign each expected component to one found component: (ok, msg, order)"""
    if len(got) == len(its):
        raw = got
        got = [stepped(g, [h for j, h in enumerate(raw) if j != i]) for i, g in enumerate(raw)]
        rest = list(got)
        order = []
        for w in its:
            hit = None
            for g in rest:
                r = (w is g) if isinstance(w, Term) else w(X, st, g)
                if r is True:
                    hit = g
                    break
                if r is None and not isinstance(w, Term):
                    return None, "iteration space not determined: %s" % short(g), None
            if hit is None:
                if getattr(w, "strict", False):
                    return False, "loop runs over [%s], expected %s" % ("; ".join(short(g, 110) for g in got), w.name), None
                break
            rest.remove(hit)
            order.append(raw[next(i for i, g in enumerate(got) if g is hit)])
        else:
            return True, "", order
    ok = False if got and all(known_space(g, X) for g in got) else None
    return ok, "loop runs over [%s]%s" % ("; ".join(short(g, 110) for g in got), ", expected [%s]" % "; ".join(
        short(i, 110) if isinstance(i, Term) else getattr(i, "name", "?") for i in its)), None


def forget(facts, uid):
    """what is known of anything but the elements of a loop"""
    return {k: v for k, v in facts.items() if not any(isinstance(x, Term) and mentions(x, uid) for x in (
        k if isinstance(k, tuple) else (k,)))}


def eta(facts, v):
    """a value taken apart and put together again is that value"""
    if v.op in ("agg", "tuple"):
        parts = [eta(facts, x) for x in (v.a[3] if v.op == "agg" else v.a[0])]
        if not parts:
            for k, x in facts.items():
                if x is True and isinstance(k, Term) and k.op == "is" and k.a[1] == v.a[1] and k.a[0].op == "loopvar" and v.op == "agg":
                    return k.a[0]
            return v
        bases = set()
        for i, p in enumerate(parts):
            n = v.a[2][i] if v.op == "agg" else str(i)
            if p.op != "fld" or str(p.a[1]) != str(n):
                return v
            bases.add(p.a[0])
        if len(bases) != 1:
            return v
        b = bases.pop()
        if v.op == "tuple":
            return b
        return b.a[0] if b.op == "as" and b.a[1] == v.a[1] else v
    return v


def gathered(facts, v):
    """the value, or the path, depends on something made of what a loop gathered"""
    def of(t):
        return any(s.op in ("vecop", "len") and any(y.op == "loopvar" for y in subterms(s)) for s in subterms(t))
    return v.op == "agg" and any(s.op == "loopvar" for s in subterms(v)) or of(v) or any(isinstance(k, Term) and of(k) for k in facts)


class Fold(M):
    """value accumulated by a loop that visits `its` in step (and `cond` when a case says so), from
    `init`, through `step(elems, cond_elems, acc)` -> [(guards, next matcher, advanced cond indices)]"""

    def __init__(self, its, init, step, cond=()):
        self.its, self.init, self.step, self.cond = its, init, step, list(cond)

    def m(self, X, st, v):
        v = eta(st.facts, v)
        if v.op != "loopvar":
            return (None if v.op == "reduce" or gathered(st.facts, v) else False), "is %s, expected the fold over %s" % (
                short(v), ", ".join(short(i, 60) if isinstance(i, Term) else getattr(i, "name", "?") for i in self.its))
        L = X.loops[v.a[0]]
        r = self.over(X, st, v, L)
        if r[0] is True:
            return r
        n = reindexed(X, L)
        if n is None:
            return r
        L, _, facts = n
        st = State(st.env, facts(st.facts))
        q = self.over(X, st, v, L)
        if q[0] is False and any(x.op == "itn" for d in L.vars.values() for dl, y in d["next"]
                                 for z in [y] + [k for k in dl if isinstance(k, Term)] for x in subterms(z)):
            return None, q[1]
        return q

    def over(self, X, st, v, L):
        var = L.vars[v]
        uid = v.a[0]
        drive, cnd = [], []
        for k, d in L.vars.items():
            if k.op != "itpos":
                continue
            moves = [unadv(nx)[1] if unadv(nx)[0] is k else None for _, nx in d["next"]]
            if any(x is None for x in moves):
                return None, "iterator moved in a way not understood"
            (drive if all(x == 1 for x in moves) and not self.is_cond(d["init"]) else cnd).append((k, d, moves))
        got = []
        for k, d, _ in drive:
            got += zips(d["init"])
        ok, msg, order = space_match(X, st, got, self.its)
        if ok is not True:
            return ok, msg
        cinit = [d["init"] for _, d, _ in cnd]
        if sorted(map(show, cinit)) != sorted(map(show, self.cond)):
            return (False if all(known_space(x, X) for x in cinit) else None), "loop also consumes [%s]" % "; ".join(
                short(i, 90) for i in cinit)
        r = match(X, st, self.init, var["init"])
        if r[0] is not True:
            return r[0], "initial value %s" % r[1]
        el = [w.elem(it, uid) if hasattr(w, "elem") else T("elem", it, 0, uid) for w, it in zip(self.its, order)]
        cel = [T("elem", it, 0, uid) for it in self.cond]
        cmoves = {show(d["init"]): mv for _, d, mv in cnd}
        rows, advs = [], []
        for i, cs in enumerate(self.step(el, cel, v)):
            rows.append(Row(i, cs[0], cs[1], optional=len(cs) > 3 and cs[3]))
            advs.append(set(cs[2]) if len(cs) > 2 else set())
        base = forget(st.facts, uid)
        seen = set()
        for j, (delta, nx) in enumerate(var["next"]):
            f0 = dict(base)
            for kk, vv in delta.items():
                f0[kk] = vv
                learnd(f0, kk, vv)
            for row, f0 in [(r, w) for w in worlds(f0) for r in rows]:
                f = consistent(f0, row.guards)
                if f is None:
                    continue
                seen.add(row.name)
                ok, msg = match(X, State({}, f), row.out, nx)
                if ok is not True:
                    return (None if ("lossy",) in f0 else ok), "loop step %s when %s" % (msg, describe(delta))
                for ci, it in enumerate(self.cond):
                    want = 1 if ci in advs[row.name] else 0
                    if cmoves[show(it)][j] != want:
                        return False, "loop step advances %s by %s when %s" % (
                            short(it), cmoves[show(it)][j], describe(delta))
        for delta in L.skips or ():
            f0 = dict(base)
            for kk, vv in delta.items():
                f0[kk] = vv
                learnd(f0, kk, vv)
            for w in worlds(f0):
                for row in rows:
                    f = consistent(w, row.guards)
                    if f is None:
                        continue
                    seen.add(row.name)
                    ok, msg = match(X, State({}, f), row.out, v)
                    if ok is not True:
                        return (None if ("lossy",) in w or alien_path(X, State({}, f)) is not None else ok), \
                            "element is skipped when %s" % describe(delta)
        if L.stops:
            return None, "loop ends early when %s" % describe(L.stops[0])
        for row in rows:
            if row.name not in seen and not row.optional:
                return False, "loop never handles the case %s" % describe({g[0] if isinstance(g, tuple) else g: (
                    g[1] if isinstance(g, tuple) else True) for g in row.guards})
        ended = any(isinstance(k, Term) and k.op == "hasnext" and x is False and k.a[2] is uid
                    for k, x in st.facts.items())
        if not ended:
            for tb, dls in (L.exits or []):
                for dl in dls:
                    if not any(k.op == "hasnext" and x is False for k, x in dl.items() if isinstance(k, Term)):
                        return False, "loop may stop before its end (%s)" % describe(dl)
        else:
            dset = {show(g) for g in got} | {show(d["init"]) for _, d, _ in drive}
            if not any(isinstance(k, Term) and k.op == "hasnext" and x is False and k.a[2] is uid
                       and show(k.a[0]) in dset for k, x in st.facts.items()):
                return False, "loop may stop before its end"
        return True, ""

    def is_cond(self, init):
        return any(show(c) == show(init) for c in self.cond)


class Check(M):
    """accepts (with `then`) exactly when one of `alts` equals `root`"""

    def __init__(self, root, alts, then):
        self.root, self.alts, self.then = root, alts, then

    def m(self, X, st, v):
        if v.op == "agg" and v.a[1] == "Err" or implied(st.facts, Is(v, "Err")) is True:
            ok = False
        else:
            ok = True
        best, n = None, 0
        for k, x in st.facts.items():
            if not (isinstance(k, Term) and k.op == "bin" and k.a[0] == "Eq" and self.root in k.a[1:]):
                continue
            o = k.a[2] if k.a[1] is self.root else k.a[1]
            for a in self.alts:
                r = match(X, st, a, o)
                if r[0] is True and x == ok:
                    return match(X, st, self.then, v) if ok else (True, "")
                if r[0] is True:
                    n += 1
                elif best is None or r[0] is None:
                    best = r
        if best is not None and (best[0] is None or not n):
            return best[0], ("accepts: the value compared with the root " if ok else "the compared value ") + best[1]
        for k in st.facts:
            if isinstance(k, Term) and (mentions(k, self.root) and not (k.op == "bin" and k.a[0] == "Eq")
                                        or undetermined(k) is not None):
                return None, "condition not understood: %s" % short(k)
        return False, ("accepts without comparing the recomputed root with the expected root" if ok else
                       "rejects although every condition of acceptance holds")


def learnd(f, k, v):
    if isinstance(k, Term):
        if k in f:
            del f[k]
        assume(f, k, v)


class Over:
    """iteration over every element of `seq` (possibly numbered, filtered or mapped lazily)"""

    def __init__(self, seq):
        self.seq = seq
        self.name = "iter(%s)" % short(seq, 80)

    def base(self, t):
        while t.op in ("filter", "filter_map", "map", "enum", "inspect", "proj", "takewhile", "map_while"):
            t = t.a[0]
        return t

    def __call__(self, X, st, t):
        b = self.base(t)
        if b.op == "itermut":
            b = T("iter", b.a[1])
        if b is T("iter", self.seq):
            return True
        return False if known_space(b, X) else None

    def elem(self, t, uid):
        return T("elem", T("iter", self.seq), 0, uid), T("ipos", T("iter", self.seq), 0)


def indexy(t):
    b = t
    while b.op in ("rev", "skip", "take", "enum", "map", "stepby"):
        b = b.a[0]
    return b.op == "agg" and b.a[0].startswith("std::ops::Range")

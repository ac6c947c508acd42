"""Hash-consed provenance terms and their normal form.

A term says where a value comes from: parameters, fields, constants, constructors, uninterpreted
calls.  Constructors normalise (sums are linear forms, comparisons have one spelling, newtype
equality looks through the wrapper), so two spellings of one computation give one term.
"""


class Term:
    __slots__ = ("op", "a", "id", "_s")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _k(x):
    if isinstance(x, Term):
        return ("T", x.id)
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    if isinstance(x, bool):
        return ("b", x)
    return x


def T(op, *a):
    k = (op,) + tuple(_k(x) for x in a)
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        Term._n += 1
        t.id = Term._n
        t._s = None
        Term._tab[k] = t
    return t


def flat(x):
    """sub-terms directly contained in an argument"""
    if isinstance(x, Term):
        yield x
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from flat(y)


def kids(t):
    for x in t.a:
        yield from flat(x)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, sub):
    return any(x is sub for x in subterms(t))


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, (tuple, list)):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, d) for x in t)) + "}"
        return str(t)
    if t._s is not None:
        return t._s
    if d > 12:
        return "…"
    o, a = t.op, t.a
    if o in ("int", "bool", "str"):
        r = str(a[0]) if o != "str" else repr(a[0])
    elif o == "bytes":
        try:
            b = bytes.fromhex(a[0])
            r = "b'%s'" % b.decode("ascii") if all(32 <= c < 127 for c in b) else "0x" + a[0]
        except Exception:
            r = "0x" + a[0]
    elif o == "par":
        r = a[0]
    elif o == "fld":
        r = "%s.%s" % (show(a[0], d + 1), a[1])
    elif o == "as":
        r = "(%s as %s)" % (show(a[0], d + 1), a[1])
    elif o == "is":
        r = "(%s is %s)" % (show(a[0], d + 1), a[1])
    elif o == "agg":
        nm = a[0].split("::")[-1]
        if a[1] and a[1] != nm:
            nm += "::" + a[1]
        r = "%s{%s}" % (nm, ", ".join("%s: %s" % (f, show(v, d + 1)) for f, v in zip(a[2], a[3])))
    elif o == "tuple":
        r = "(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    elif o == "array":
        r = "[" + ", ".join(show(x, d + 1) for x in a[0]) + "]"
    elif o == "call":
        r = "%s(%s)" % (a[0].split("::")[-1], ", ".join(show(x, d + 1) for x in a[1]))
    elif o == "bin":
        r = "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    elif o == "loopid":
        r = "#%d" % t.id
    elif o == "loopvar":
        r = "lv(%s,%s)" % (show(a[0]), a[1].split("'")[1] if "'" in str(a[1]) else a[1])
    elif o == "agg" and False:
        pass
    elif o == "not":
        r = "!%s" % show(a[0], d + 1)
    elif o == "lin":
        p = [] if a[0] == 0 else [str(a[0])]
        for c, x in a[1]:
            p.append(show(x, d + 1) if c == 1 else "%d*%s" % (c, show(x, d + 1)))
        r = "(" + " + ".join(p) + ")"
    else:
        r = "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
    if d == 0 and len(r) < 4000:
        t._s = r
    return r


# ------------------------------------------------------------------ constructors
def Int(n):
    return T("int", int(n))


def Bool(b):
    return T("bool", bool(b))


TRUE, FALSE = Bool(True), Bool(False)
UNIT = T("tuple", ())


def Par(n):
    return T("par", n)


def Tup(*xs):
    return T("tuple", tuple(xs))


def Agg(adt, variant, names, vals):
    return T("agg", adt, variant, tuple(names), tuple(vals))


OPT = "std::option::Option"
RES = "std::result::Result"


def Some(x):
    return Agg(OPT, "Some", ("0",), (x,))


NONE = Agg(OPT, "None", (), ())


def Ok(x):
    return Agg(RES, "Ok", ("0",), (x,))


def Err(x):
    return Agg(RES, "Err", ("0",), (x,))


def Call(name, *args):
    return T("call", name, tuple(args))


def Phi(vals):
    s = set()
    for v in vals:
        if v.op == "phi":
            s.update(v.a[0])
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    return T("phi", tuple(sorted(s)))


def Fld(b, name):
    o = b.op
    if o == "agg":
        if name in b.a[2]:
            return b.a[3][b.a[2].index(name)]
        return T("fld", b, name)
    if o == "as":
        inner = b.a[0]
        if inner.op == "agg" and name in inner.a[2]:
            return inner.a[3][inner.a[2].index(name)]
    if o == "tuple":
        i = int(name)
        if i < len(b.a[0]):
            return b.a[0][i]
    if o == "clos":
        i = int(name) if name.isdigit() else -1
        if 0 <= i < len(b.a[2]):
            return b.a[2][i]
    if o == "upd":
        if b.a[1] == name:
            return b.a[2]
        return Fld(b.a[0], name)
    if o == "phi":
        return Phi([Fld(x, name) for x in b.a[0]])
    if o == "adv" and isinstance(b.a[0], int) and b.a[1].op == "agg" and b.a[1].a[0].endswith("ops::Range"):
        x = Fld(b.a[1], name)
        return Add(x, Int(b.a[0])) if name == "start" else x
    return T("fld", b, name)


def As(b, variant):
    if b.op == "agg":
        return b
    if b.op == "phi":
        vs = [As(x, variant) for x in b.a[0] if not (x.op == "agg" and x.a[1] != variant)]
        if vs:
            return Phi(vs)
    if b.op == "upd":
        return b
    return T("as", b, variant)


def Upd(b, name, v):
    """b with field `name` replaced by v"""
    if b.op == "agg" and name in b.a[2]:
        i = b.a[2].index(name)
        vals = list(b.a[3])
        vals[i] = v
        return T("agg", b.a[0], b.a[1], b.a[2], tuple(vals))
    if b.op == "tuple":
        i = int(name)
        vals = list(b.a[0])
        if i < len(vals):
            vals[i] = v
            return T("tuple", tuple(vals))
    if b.op == "clos" and name.isdigit() and int(name) < len(b.a[2]):
        vals = list(b.a[2])
        vals[int(name)] = v
        return T("clos", b.a[0], b.a[1], tuple(vals))
    if Fld(b, name) is v:
        return b
    if b.op == "upd":
        if b.a[1] == name:
            return Upd(b.a[0], name, v)
        if b.a[1] > name:
            return whole(T("upd", Upd(b.a[0], name, v), b.a[1], b.a[2]))
    return whole(T("upd", b, name, v))


SHAPES = {}  # field names -> (adt, variant, names) of the one struct that has them, filled from facts


def whole(t):
    """a value all of whose fields are replaced"""
    if t.op != "upd" or t.a[0].op != "upd":
        return t
    names, x = {}, t
    while x.op == "upd":
        names[x.a[1]] = x.a[2]
        x = x.a[0]
    s = SHAPES.get(frozenset(names))
    return Agg(s[0], s[1], s[2], tuple(names[f] for f in s[2])) if s else t


def Idx(b, i):
    if b.op in ("array",) and i.op == "int" and 0 <= i.a[0] < len(b.a[0]):
        return b.a[0][i.a[0]]
    if b.op == "repeat":
        return b.a[0]
    if b.op == "bytes" and i.op == "int" and 0 <= i.a[0] < len(b.a[0]) // 2:
        return Int(int(b.a[0][2 * i.a[0]:2 * i.a[0] + 2], 16))
    if b.op == "store":
        if b.a[1] is i or i.op == "lastidx" and i.a[0] is b and b.a[1].op == "lastidx":
            return b.a[2]
        if b.a[1].op == "int" and i.op == "int":
            return Idx(b.a[0], i)
    if b.op == "pushed":
        d = fromend(b, i)
        if d == 0:
            return b.a[1]
        if d is not None and d > 0:
            return Idx(b.a[0], i)
    if b.op == "slice":
        return Idx(b.a[0], Add(b.a[1], i))
    if i.op != "int" and Len(b).op != "int" and fromend(b, i) == 0:
        return T("lastof", b)
    return T("idx", b, i)


def Slice(b, lo, hi):
    """b[lo..hi]"""
    if b.op == "array" and lo.op == "int" and hi.op == "int" and lo.a[0] <= hi.a[0] <= len(b.a[0]):
        return T("array", b.a[0][lo.a[0]:hi.a[0]])
    if lo.op == "int" and lo.a[0] == 0 and hi is Len(b):
        return b
    if b.op == "slice":
        return Slice(b.a[0], Add(b.a[1], lo), Add(b.a[1], hi))
    return T("slice", b, lo, hi)


def fromend(b, i):
    """how far before the last entry of the list `b` the index `i` is, if that is a known number"""
    if i.op == "lastidx" and i.a[0] is b:
        return 0
    d = Sub(Sub(Len(b), Int(1)), i)
    return d.a[0] if d.op == "int" else None


def Store(b, i, v):
    if b.op == "array" and i.op == "int" and 0 <= i.a[0] < len(b.a[0]):
        vals = list(b.a[0])
        vals[i.a[0]] = v
        return T("array", tuple(vals))
    if b.op == "repeat" and i.op == "int" and isinstance(b.a[1], int) and b.a[1] <= 64:
        vals = [b.a[0]] * b.a[1]
        vals[i.a[0]] = v
        return T("array", tuple(vals))
    if b.op == "pushed":
        d = fromend(b, i)
        if d == 0:
            return T("pushed", b.a[0], v)
        if d is not None and d > 0:
            return T("pushed", Store(b.a[0], i, v), b.a[1])
    if i.op == "lin" and Len(b).op != "int" and fromend(b, i) == 0:
        i = T("lastidx", b)
    if b.op == "store" and b.a[1] is i and i.op != "lastidx":
        b = b.a[0]
    return T("store", b, i, v)


# ------------------------------------------------------------------ arithmetic
def lin_parts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], {x: c for c, x in t.a[1]}
    return 0, {t: 1}


def Lin(c, m):
    m = {x: k for x, k in m.items() if k != 0}
    for x, k in list(m.items()):
        # k*(X div n) with n | k:  (k/n)*(X - X mod n)
        if x.op == "bin" and x.a[0] == "Div" and x.a[2].op == "int" and x.a[2].a[0] > 1 and k % x.a[2].a[0] == 0:
            q = k // x.a[2].a[0]
            del m[x]
            c2, m2 = lin_parts(Sub(x.a[1], Bin("Rem", x.a[1], x.a[2])))
            for y, j in m2.items():
                m[y] = m.get(y, 0) + q * j
            return Lin(c + q * c2, m)
    if not m:
        return Int(c)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        if k == 1:
            return x
    return T("lin", c, tuple((k, x) for x, k in sorted(m.items(), key=lambda p: p[0].id)))


def Add(a, b, s=1):
    ca, ma = lin_parts(a)
    cb, mb = lin_parts(b)
    m = dict(ma)
    for x, k in mb.items():
        m[x] = m.get(x, 0) + s * k
    return Lin(ca + s * cb, m)


def Sub(a, b):
    return Add(a, b, -1)


def Mul(a, b):
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        c, m = lin_parts(a)
        return Lin(c * b.a[0], {x: k * b.a[0] for x, k in m.items()})
    return T("bin", "Mul", *sorted((a, b)))


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def Not(t):
    if t.op == "bool":
        return Bool(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return T("not", t)


NEWTYPES = {}  # adt path -> field name, filled from facts (single-field structs)
SINGLE = set()


# off where the code under analysis is the bit access itself
BIT_ACCESS = True


def bit_access(x, y):
    """x & y is a power of two or zero: bit i of K, most significant first, read by hand; None otherwise"""
    if not BIT_ACCESS:
        return None
    r7 = lambda t: t if t.op == "bin" and t.a[0] == "Rem" and t.a[2] is Int(8) else None
    byte, i = None, None
    if y.op == "bin" and y.a[0] == "Shr" and y.a[1] is Int(0x80):
        byte, i = x, r7(y.a[2])
    elif y.op == "bin" and y.a[0] == "Shl" and y.a[1] is Int(1):
        byte, i = x, r7(Sub(Int(7), y.a[2]))
    elif y is Int(1) and x.op == "bin" and x.a[0] == "Shr":
        byte, i = x.a[1], r7(Sub(Int(7), x.a[2]))
    if i is None or byte.op != "idx":
        return None
    i = i.a[1]
    if byte.a[1] is not T("bin", "Div", i, Int(8)):
        return None
    return T("idx", T("bits", byte.a[0]), i)


def Eq(a, b):
    if a is b:
        return TRUE
    # look through newtype constructors
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] in NEWTYPES:
            return Eq(Fld(x, NEWTYPES[x.a[0]]), Fld(y, NEWTYPES[x.a[0]]))
    # x & bit == bit  is  not (x & bit == 0)
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0 and x.op == "bin" and x.a[0] == "BitAnd" \
                and y in x.a[1:]:
            return Not(Eq(x, Int(0)))
    if b is Int(0) and a.op == "bin" and a.a[0] == "BitAnd":
        r = bit_access(a.a[1], a.a[2]) or bit_access(a.a[2], a.a[1])
        if r is not None:
            return Not(r)
    # N.0 == M.0 for a newtype N is N == M; kept as the field form on both sides
    if a.op == "int" and b.op == "int":
        return Bool(a.a[0] == b.a[0])
    if a.op == "bool":
        return b if a.a[0] else Not(b)
    if b.op == "bool":
        return a if b.a[0] else Not(a)
    if a.op == "bytes" and b.op == "bytes":
        return Bool(a.a[0] == b.a[0])
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[3]:
            return TRUE
        if len(a.a[3]) == 1:
            return Eq(a.a[3][0], b.a[3][0])
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and not x.a[3] and y.op != "agg":
            return Is(y, x.a[1])
    if a.op in ("lin", "int") or b.op in ("lin", "int"):
        # move everything to one side: sum == const
        c, m = lin_parts(Sub(a, b))
        if not m:
            return Bool(c == 0)
        if len(m) == 1:
            (x, k), = m.items()
            if (-c) % k == 0 and abs(k) >= 1:
                return T("bin", "Eq", *sorted((x, Int(-c // k))))
        lead = sorted(m.items(), key=lambda p: p[0].id)[0][1]
        if lead < 0:
            c, m = -c, {x: -k for x, k in m.items()}
        return T("bin", "Eq", *sorted((Lin(0, m), Int(-c))))
    return T("bin", "Eq", *sorted((a, b)))


def Lt(a, b):
    """a < b over the integers, one spelling: c < x (c constant) or x < y"""
    if a is b:
        return FALSE
    ca, ma = lin_parts(a)
    cb, mb = lin_parts(b)
    m = {}
    for x, k in mb.items():
        m[x] = m.get(x, 0) + k
    for x, k in ma.items():
        m[x] = m.get(x, 0) - k
    m = {x: k for x, k in m.items() if k}
    c = ca - cb          # a < b  <=>  c < sum(m)
    if not m:
        return Bool(c < 0)
    items = sorted(m.items(), key=lambda p: p[0].id)
    if items[0][1] < 0:
        # sum' = -sum ; c < sum <=> sum' < -c <=> not(-c-1 < sum')
        return T("not", T("bin", "Lt", Int(-c - 1), Lin(0, {x: -k for x, k in m.items()})))
    return T("bin", "Lt", Int(c), Lin(0, m))


def Le(a, b):
    return Not(Lt(b, a))


def Is(t, variant):
    if t.op == "agg":
        return Bool(t.a[1] == variant)
    return T("is", t, variant)


def bits_of(ty):
    return INTS.get(ty)


def Bin(op, a, b, ty=None):
    op = op.replace("Unchecked", "")
    if op in ("Add",):
        return Add(a, b)
    if op == "Sub":
        return Sub(a, b)
    if op == "Mul":
        return Mul(a, b)
    if op == "Eq":
        return Eq(a, b)
    if op == "Ne":
        return Not(Eq(a, b))
    if op == "Lt":
        return Lt(a, b)
    if op == "Gt":
        return Lt(b, a)
    if op == "Le":
        return Not(Lt(b, a))
    if op == "Ge":
        return Not(Lt(a, b))
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        n = bits_of(ty) or 64
        mask = (1 << n) - 1
        try:
            if op == "Div":
                return Int(x // y)
            if op == "Rem":
                return Int(x % y)
            if op == "BitAnd":
                return Int(x & y)
            if op == "BitOr":
                return Int(x | y)
            if op == "BitXor":
                return Int(x ^ y)
            if op == "Shl":
                return Int((x << y) & mask)
            if op == "Shr":
                return Int(x >> y)
        except Exception:
            pass
    if a.op == "bool" or b.op == "bool":
        if op == "BitAnd":
            if a is FALSE or b is FALSE:
                return FALSE
            return b if a is TRUE else a
        if op == "BitOr":
            if a is TRUE or b is TRUE:
                return TRUE
            return b if a is FALSE else a
        if op == "BitXor":
            return (Not(b) if a.a[0] else b) if a.op == "bool" else (Not(a) if b.a[0] else a)
    # powers of two: one spelling
    if op == "Shr" and b.op == "int":
        return Bin("Div", a, Int(1 << b.a[0]), ty)
    if op == "Shl" and b.op == "int":
        return Bin("ShlC", a, b, ty)
    if op == "BitAnd":
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and ty in ("u8", "u16", "u32", "u64", "usize") and y.a[0] == (1 << INTS[ty]) - 1:
                return x
            if y.op == "int" and x.op == "bin" and x.a[0] == "BitAnd" and any(z.op == "int" for z in x.a[1:]):
                z, k = (x.a[1], x.a[2]) if x.a[2].op == "int" else (x.a[2], x.a[1])
                return Bin("BitAnd", z, Int(k.a[0] & y.a[0]), ty)
            if y.op == "int" and x.op == "bin" and x.a[0] == "Rem" and x.a[2].op == "int" \
                    and x.a[2].a[0] & (x.a[2].a[0] - 1) == 0:
                return Bin("BitAnd", x.a[1], Int(y.a[0] & (x.a[2].a[0] - 1)), ty)
            if y.op == "int" and y.a[0] >= 0 and (y.a[0] & (y.a[0] + 1)) == 0:
                if y.a[0] == 0:
                    return Int(0)
                return Bin("Rem", x, Int(y.a[0] + 1), ty)
    if op == "Div" and b.op == "int":
        if b.a[0] == 1:
            return a
        c, m = lin_parts(a)
        k = b.a[0]
        if m and k > 0 and all(v % k == 0 for v in m.values()):
            return Lin(c // k, {x: v // k for x, v in m.items()})
        for x, j in m.items():
            # (t - t mod k) / k
            if j == -1 and x.op == "bin" and x.a[0] == "Rem" and x.a[2] is b and Add(a, x) is x.a[1]:
                return Bin("Div", x.a[1], b, ty)
        if a.op == "bin" and a.a[0] == "Div" and a.a[2].op == "int":
            return Bin("Div", a.a[1], Int(a.a[2].a[0] * k), ty)
    if op == "Rem" and b.op == "int":
        if b.a[0] == 1:
            return Int(0)
        k = b.a[0]
        c, m = lin_parts(a)
        if k > 0 and m:
            # drop inner remainders by the same modulus
            m2 = dict(m)
            for x, j in m.items():
                if x.op == "bin" and x.a[0] == "Rem" and x.a[2].op == "int" and x.a[2].a[0] % k == 0:
                    del m2[x]
                    ci, mi = lin_parts(x.a[1])
                    c += j * ci
                    for y, q in mi.items():
                        m2[y] = m2.get(y, 0) + j * q
            if m2 != m:
                return Bin("Rem", Lin(c, m2), b, ty)
        if k > 0 and m and (c < 0 or c >= k or any(v < 0 or v >= k for v in m.values())):
            return Bin("Rem", Lin(c % k, {x: v % k for x, v in m.items()}), b, ty)
        if k > 2 and m and 2 * m[min(m, key=lambda x: x.id)] > k:
            # (-1 - t) mod k = k - 1 - (t mod k)
            return Sub(Int(k - 1), Bin("Rem", Lin((-1 - c) % k, {x: -v % k for x, v in m.items()}), b, ty))
        if a.op == "bin" and a.a[0] == "Rem" and a.a[2].op == "int" and a.a[2].a[0] % k == 0:
            return Bin("Rem", a.a[1], b, ty)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a is b:
            return a if op != "BitXor" else Int(0)
        a, b = sorted((a, b))
        if op == "BitOr" or op == "BitXor":
            if a.op == "int" and a.a[0] == 0:
                return b
            if b.op == "int" and b.a[0] == 0:
                return a
    return T("bin", op, a, b)


KNOWN_LEN = {}  # term -> length, from fixed-size array types


def Len(x):
    if x in KNOWN_LEN:
        return Int(KNOWN_LEN[x])
    if x.op == "array":
        return Int(len(x.a[0]))
    if x.op == "bytes":
        return Int(len(x.a[0]) // 2)
    if x.op == "repeat" and isinstance(x.a[1], int):
        return Int(x.a[1])
    if x.op == "bits":
        return Int(256)
    if x.op in ("iter", "rev"):
        return Len(x.a[0])
    if x.op == "agg" and x.a[0] == "std::ops::Range":
        f = dict(zip(x.a[2], x.a[3]))
        return Sub(f["end"], f["start"])
    if x.op == "store":
        return Len(x.a[0])
    if x.op == "pushed":
        return Add(Len(x.a[0]), Int(1))
    if x.op == "vec0":
        return Int(0)
    if x.op == "collected" and x.a[0] == "std::vec::Vec" and x.a[1].op == "iter" and x.a[1].a[0].op == "present":
        return Add(Int(2), T("more", x.a[1]))  # fewer are written out
    if x.op == "extended":
        return Add(Len(x.a[0]), Len(x.a[1]))
    if x.op == "slice":
        return Sub(x.a[2], x.a[1])
    if x.op == "vecop" and x.a[0] == "resize" and len(x.a[1]) == 3:
        return x.a[1][1]
    if x.op == "vecop" and x.a[0].startswith(("sort", "reverse")) and len(x.a[1]):
        return Len(x.a[1][0])
    return T("len", x)


def rebuild(t, f):
    """t with its arguments mapped by f, normalised again"""
    o, a = t.op, t.a
    if o in ("int", "bool", "str", "bytes", "par", "konst", "vec0", "fn", "noise", "loopid", "uninit"):
        return t
    if o == "lin":
        r = Int(a[0])
        for k, x in a[1]:
            r = Add(r, Mul(f(x), Int(k)))
        return r
    if o == "bin":
        return Bin(a[0], f(a[1]), f(a[2]))
    if o == "not":
        return Not(f(a[0]))
    if o == "fld":
        return Fld(f(a[0]), a[1])
    if o == "as":
        return As(f(a[0]), a[1])
    if o == "is":
        return Is(f(a[0]), a[1])
    if o == "idx":
        return Idx(f(a[0]), f(a[1]))
    if o == "slice":
        return Slice(f(a[0]), f(a[1]), f(a[2]))
    if o == "len":
        return Len(f(a[0]))
    if o == "phi":
        return Phi([f(x) for x in a[0]])
    if o == "upd":
        return Upd(f(a[0]), a[1], f(a[2]))

    def g(x):
        if isinstance(x, Term):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(g(y) for y in x)
        return x
    return T(o, *[g(x) for x in a])


def substm(t, m, memo=None):
    """replace terms of t by the mapping m"""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            memo[x] = x
            r = memo[x] = rebuild(x, go)
        return r
    return go(t)


# ------------------------------------------------------------------ common prefixes of keys
def bitview(it):
    """iterator over the bits/nibbles of a key: -> (key, unit, start) or None"""
    n = Int(0)
    while it.op == "skip":
        n = Add(n, it.a[1])
        it = it.a[0]
    if it.op == "iter" and it.a[0].op == "bits":
        return it.a[0].a[0], 1, n
    if it.op == "agg" and "pos" in it.a[2]:
        pos = Fld(it, "pos")
        if not (pos.op == "agg" and "start" in pos.a[2]):
            return None
        end = Fld(pos, "end")
        key = None
        for f in it.a[2]:
            v = Fld(it, f)
            if v.op == "agg" and "bytes" in v.a[2]:
                key = Fld(v, "bytes")
            elif f == "hash_bytes":
                key = v
        if key is None or end.op != "int" or end.a[0] not in (64, 256):
            return None
        return key, 4 if end.a[0] == 64 else 1, Add(n, Fld(pos, "start"))
    return None


def advance(it, n):
    """iterator `it` after n more elements"""
    if it.op == "agg" and "pos" in it.a[2] and Fld(it, "pos").op == "agg" and "start" in Fld(it, "pos").a[2]:
        p = Fld(it, "pos")
        return Upd(it, "pos", Upd(p, "start", Add(Fld(p, "start"), n)))
    if it.op == "skip":
        return T("skip", it.a[0], Add(it.a[1], n))
    return T("skip", it, n)


def cpn(a, b):
    """number of equal leading elements of two key views, or None"""
    x, y = bitview(a), bitview(b)
    if x is None or y is None or x[1] != y[1] or x[2] is not y[2]:
        return None
    c = T("cpl", *sorted((x[0], y[0])))
    if x[1] == 4:
        return Sub(Bin("Div", c, Int(4)), x[2])
    return Sub(c, x[2])

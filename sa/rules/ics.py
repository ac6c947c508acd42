"""The ICS23 form of proofs."""
from rules import prop
from rules.domain import *
from rules.read import guarded
from rules.restore import Seq, knownkeys
from spec import *
from terms import *


class Bytes(M):
    """this byte string, however it was put together"""

    def __init__(self, *parts):
        self.want = parts

    def m(self, X, st, v):
        try:
            got = parts(v)
        except Undet as u:
            return None, str(u)
        if len(got) == len(self.want) and all(a is b for a, b in zip(got, self.want)):
            return True, ""
        return False, "is [%s], expected [%s]" % (" ".join(short(x, 60) for x in got), " ".join(short(x, 60) for x in self.want))


def parts(v):
    """the byte strings a byte string is made of"""
    if v.op == "vec0" or v.op == "array" and not v.a[0]:
        return []
    if v.op == "bytes":
        return [v] if v.a[0] else []
    if v.op == "extended":
        return parts(v.a[0]) + parts(v.a[1])
    if v.op in ("sibhash", "hash", "par"):
        return [v]
    if v.op == "call" and v.a[0].endswith("::concat") and isinstance(v.a[1], tuple) and v.a[1][0].op == "array":
        return [p for x in v.a[1][0].a[0] for p in parts(x)]
    if v.op == "iter":
        return parts(v.a[0])
    if v.op == "collected" and v.a[1].op in ("iter", "chain"):
        return parts(v.a[1])
    if v.op == "chain":
        return parts(v.a[0]) + parts(v.a[1])
    raise Undet("the bytes %s were not recognised" % short(v))


class Enum(M):
    """this value of an enumeration of the ICS23 crate, as number"""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def m(self, X, st, v):
        if v.op == "int":
            return v.a[0] == self.n, "is %d, expected %s (%d)" % (v.a[0], self.name, self.n)
        for s in subterms(v):
            if s.op == "agg" and s.a[0].startswith("ics23::"):
                return s.a[1] == self.name, "is %s, expected %s" % (s.a[1], self.name)
        return None, "is %s" % short(v)


SHA = Enum("Sha256", 1)


class Ics:
    def __init__(self, c):
        self.leaf = self.dom(c, "SparseMerkleLeafNode")
        self.inner = self.dom(c, "SparseMerkleInternalNode")
        ph = [b for b in c.p.facts["bodies"] if b.get("name") == "hash" and strip(b.get("impl_self") or "").endswith("SparseMerkleNode")]
        if len(ph) != 1:
            raise Undet("SparseMerkleNode::hash was not recognised")
        self.nodehash = ph[0]
        _, rs = c.run(ph[0], args={0: Agg("types::proof::SparseMerkleNode", "Null", (), ())})
        self.placeholder = rs[0][1]
        self.proof = c.adt("SparseMerkleProof")
        self.fs = tuple(f["name"] for f in self.proof["variants"][0]["fields"])
        self.fleaf, self.fsib = c.field("SparseMerkleProof", "leaf", 0), c.field("SparseMerkleProof", "siblings", 1)

    @staticmethod
    def dom(c, ty):
        """the constant this kind of node's hash starts with"""
        X, rs = c.run(c.method(ty, "hash"))
        ds = {v.a[1][0] for _, v in rs if v.op == "hash"}
        if len(ds) != 1 or len(rs) != 1 or next(iter(ds)).op != "bytes":
            raise Undet("the hash of %s was not recognised" % ty)
        return ds.pop()

    def mkproof(self, leaf, sibs):
        d = {self.fleaf: leaf, self.fsib: T("array", tuple(sibs))}
        return Agg(self.proof["path"], "SparseMerkleProof", self.fs, tuple(d.get(f, Par("ph")) for f in self.fs))

    def leafop(self):
        return Fields(hash=SHA, prehash_key=SHA, prehash_value=SHA, length=Enum("NoPrefix", 0), prefix=Bytes(self.leaf))

    def exist(self, key, value, bits, sibs):
        """`sibs` from the bottom up; `bits` of the key's hash from the top down"""
        path = []
        for i, s in enumerate(sibs):
            h = T("sibhash", s)
            one = bits[len(sibs) - 1 - i]
            path.append(Fields(hash=SHA, prefix=Bytes(self.inner, h) if one else Bytes(self.inner), suffix=Bytes() if one else Bytes(h)))
        return Fields(key=key, value=value, leaf=Con("Some", self.leafop()), path=Seq(path))


def keybytes(seed):
    return [(seed * 37 + 11 * i * i + 5 * i + (seed >> 3)) & 255 for i in range(32)]


def khash(bs):
    return Agg("KeyHash", "KeyHash", ("0",), (T("array", tuple(Int(b) for b in bs)),))


def allbits(bs):
    return [b >> (7 - j) & 1 for b in bs for j in range(8)]


def answer(value, proof):
    return Con("Ok", Tu(value, Fields(proof=Con("Some", proof))))


class Setup:
    def __init__(self, c):
        self.c, self.k = c, Ics(c)
        self.b = c.method("JellyfishMerkleTree", "get_with_ics23_proof")
        self.excl = c.method("JellyfishMerkleTree", "get_with_exclusion_proof")["path"]
        self.get = c.method("JellyfishMerkleTree", "get")["path"]
        self.hashwith = c.method("KeyHash", "with")["path"]
        self.name, self.site = "get_with_ics23_proof", where(self.b)
        self.key, self.ver = Par("a1"), Par("a2")

    def run(self, hashes, found, preimages={}):
        """`hashes`: key -> bytes; `found`: what the tree finds; `preimages`: key hash -> (key, value)"""
        c = self.c
        me = Par("self")

        def hw(k):
            x = k.e.snap(k.st, k.val(0))
            bs = hashes.get(x)
            if bs is None:
                return k.ret(Agg("KeyHash", "KeyHash", ("0",), (T("hash", "H", (x,)),)))
            return k.ret(khash(bs))

        def excl(k):
            t, kh, v = (k.e.snap(k.st, k.val(i)) for i in range(3))
            if t is not me or kh is not khash(hashes[self.key]) or v is not self.ver:
                raise Undet("asks for %s at %s" % (short(kh), short(v)))
            return [(s, found if ok else Err(T("err", "excl"))) for s, ok in k.e.branch(k.st, T("excl_ok"))]

        def opt(name, at):
            def f(k):
                a = [k.e.snap(k.st, k.val(i)) for i in range(len(k.args))]
                x = preimages.get(a[1])
                right = x is not None and (len(a) < 3 or a[0] is me and a[2] is self.ver)
                if len(a) == 3 and a[0] is not me:
                    raise Undet("reads a value of %s" % short(a[0]))
                x = x[at] if right else T("other_" + name, *a[1:])
                at_ = a[1:2] if right else a[1:]
                out = []
                for s, ok in k.e.branch(k.st, T(name + "_ok", *at_)):
                    if not ok:
                        out.append((s, Err(T("err", name))))
                        continue
                    out += [(s2, Ok(Some(x) if here else NONE)) for s2, here in k.e.branch(s, T(name + "_here", *at_))]
                return out
            return f
        I = {**Dom(c).path(), **knownkeys(c, {}), self.hashwith: hw, self.excl: excl, self.get: opt("value", 1),
             self.k.nodehash["path"]: lambda k: k.ret(T("sibhash", k.e.snap(k.st, k.val(0))))}
        I["reader::HasPreimage::preimage"] = opt("preimage", 0)
        return c.run(self.b, args={0: me, 1: self.key, 2: self.ver}, intr=I, trips=260)


@prop("C30", floor=30, configs=("all",))
def present(c, rep):
    """the proof of a key that is there"""
    S = Setup(c)
    k = S.k

    def go(n, seed):
        bs = keybytes(seed)
        sibs = [Par("sib%d" % i) for i in range(n)]
        val = Par("value")
        X, rs = S.run({S.key: bs}, Ok(Ok(Tup(val, k.mkproof(Par("leaf"), sibs)))))
        want = answer(Con("Some", val), PExist(k.exist(S.key, val, allbits(bs), sibs)))
        table(rep, X, S.name, S.site, rs, [Row("present, %d siblings, key %d" % (n, seed), [T("excl_ok")], want),
                                           Row("present, %d siblings: error" % n, [Not(T("excl_ok"))], IsErr())])
    for n in (0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 17, 63, 64, 65, 128, 200, 255, 256):
        guarded(rep, S.name, S.site, lambda: go(n, n % 5))


def PExist(m):
    return Con("Exist", m)


@prop("C30", floor=30, configs=("all",))
def absent(c, rep):
    """the proof of a key that is not there: its neighbours are"""
    S = Setup(c)
    k = S.k
    fl = {v["name"]: [f["name"] for f in v["fields"]] for v in c.adt("ExclusionProof")["variants"]}
    L, R = "rightmost_left_proof", "leftmost_right_proof"
    if {n: sorted(f) for n, f in fl.items()} != {"Leftmost": [R], "Rightmost": [L], "Middle": sorted([L, R])}:
        raise Undet("the kinds of exclusion proofs were not recognised")
    path = c.adt("ExclusionProof")["path"]
    kh = c.field("SparseMerkleLeafNode", "key_hash", 0)

    def go(kind, nl, nr):
        side = {L: (nl, 21, Par("keyL"), Par("valueL")), R: (nr, 34, Par("keyR"), Par("valueR"))}
        proofs, hashes, pre, exist = {}, {S.key: keybytes(9)}, {}, {}
        for s in fl[kind]:
            n, seed, key, val = side[s]
            bs = keybytes(seed)
            sibs = [Par("%s%d" % (s[0], i)) for i in range(n)]
            leaf = Agg(c.adt("SparseMerkleLeafNode")["path"], "SparseMerkleLeafNode", (kh, "value_hash"), (khash(bs), Par(s)))
            proofs[s] = k.mkproof(Some(leaf), sibs)
            hashes[key] = bs
            pre[khash(bs)] = (key, val)
            exist[s] = k.exist(key, val, allbits(bs), sibs)
        found = Ok(Err(Agg(path, kind, tuple(fl[kind]), tuple(proofs[s] for s in fl[kind]))))
        X, rs = S.run(hashes, found, pre)
        sides = {x: Con("Some", exist[s]) if s in exist else Con("None") for x, s in (("left", L), ("right", R))}
        want = answer(Con("None"), Con("Nonexist", Fields(key=S.key, **sides)))
        what = "absent, %s, %d and %d siblings" % (kind, nl, nr)
        need = [T("excl_ok")] + [T(x, h) for h in pre for x in ("preimage_ok", "preimage_here", "value_ok", "value_here")]
        rows = [Row(what, need, want)]
        for g in need:
            on = [T(g.a and g.op.replace("here", "ok") or g.op, *g.a)] if g.op.endswith("here") else []
            rows.append(Row(what + ": %s" % {"excl_ok": "storage error", "preimage_ok": "no preimage can be read", "preimage_here": "the preimage is unknown",
                                             "value_ok": "no value can be read", "value_here": "the value is missing"}[g.op], [T("excl_ok")] * (g.op != "excl_ok") + on + [Not(g)], IsErr()))
        table(rep, X, S.name, S.site, rs, rows)
    for kind in ("Leftmost", "Rightmost", "Middle"):
        for nl, nr in ((1, 2), (3, 1), (9, 12), (70, 66)):
            guarded(rep, S.name, S.site, lambda: go(kind, nl, nr))


@prop("C30", floor=1, configs=("all",))
def spec_(c, rep):
    """the specification verifiers are given"""
    k = Ics(c)
    bs = [b for b in c.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == "ics23_spec"]
    if len(bs) != 1:
        raise Undet("ics23_spec was not found")
    b = bs[0]
    X, rs = c.run(b)

    class Length(M):
        def m(self, X, st, v):
            n = len(bytes.fromhex(k.inner.a[0]))
            if v.op == "int":
                return v.a[0] == n, "is %d, expected %d" % (v.a[0], n)
            return None, "is %s" % short(v)

    class Order(M):
        def m(self, X, st, v):
            got = [x.a[0] for x in v.a[0] if x.op == "int"] if v.op == "array" else None
            return (None if got is None else got == [0, 1]), "is %s, expected [0, 1]" % short(v)
    table(rep, X, "ics23_spec", where(b), rs, [Row("specification", [], Fields(
        leaf_spec=Con("Some", k.leafop()), inner_spec=Con("Some", Fields(
            hash=SHA, child_order=Order(), min_prefix_length=Length(), max_prefix_length=Length(), child_size=Int(32),
            empty_child=Bytes(k.placeholder))), prehash_key_before_comparison=TRUE, min_depth=Int(0)))])
    for st, v in rs:
        d = Fld(v, "max_depth")
        rep.put((d.a[0] == 0 or d.a[0] >= 256) if d.op == "int" else None, "ics23_spec/max_depth %s" % short(d), where(b),
                "proofs may have at most %s steps, but those of the tree have up to 256" % short(d))

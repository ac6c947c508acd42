"""Panic freedom of the code that handles untrusted input."""
from rules import prop
from spec import *
from terms import *

CONDOPS = {"par", "fld", "as", "len", "int", "lin", "elem", "iter", "bin", "is", "not", "skip", "take", "rev", "zip",
           "ovf", "idx", "keybits", "bits", "loopid", "cpl"}
ROUND = {"Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"}


def pcond(q):
    """the condition under which the construct panics: a list of guards, or None if not expressible"""
    k, o = q.kind, q.ops
    if k == "overflow:Sub" and len(o) == 2:
        return [Lt(o[0], o[1])]
    if k == "bounds" and len(o) == 2:
        return [Not(Lt(o[1], o[0]))]
    if k == "slice" and len(o) == 2:
        return [Lt(o[0], o[1])]
    if k.startswith("overflow") or k == "index":
        return None
    return []


def harmless(q):
    """the number of elements of values in memory cannot overflow a usize"""
    return q.kind == "overflow:Add" and all(small(x) for x in q.ops)


def small(x):
    if x.op in ("len", "itpos", "ipos", "lpos"):
        return True
    if x.op == "int":
        return abs(x.a[0]) < 1 << 32
    if x.op == "lin":
        return all(small(s) for s in subterms(x) if s is not x and s.op not in ("par", "fld", "elem", "iter", "as"))
    return False


def no_panic(rep, X, name, site, allow=lambda q: False):
    """no construct reachable from this function can panic"""
    out = []
    for q in X.panics:
        if harmless(q) or allow(q):
            continue
        g = pcond(q)
        und = ("lossy",) in q.facts
        if g is None:
            und = True
        elif consistent(q.facts, g) is None:
            continue
        st = State({}, dict(q.facts), ())
        if alien_path(X, st) is not None or any(alien(X, o) is not None for o in q.ops if isinstance(o, Term)):
            und = True
        for t in [x for x in (g or [])]:
            for s in subterms(t):
                if s.op == "loopvar" or s.op == "bin" and s.a[0] in ROUND or s.op not in CONDOPS or s.op == "elem" and indexy(unzip(s)):
                    und = True
        out.append((und, q))
    if not out and X.unknown:
        rep.undet(name, site, "calls that are not modelled: %s" % ", ".join(sorted(map(str, X.unknown)))[:300])
    elif not out:
        rep.ok(name, site, "%d panicking constructs, all unreachable" % len(X.panics))
    for und, q in out:
        rep.put(None if und else False, name, site, "%s(%s) at %s can be reached when %s" % (
            q.kind, ", ".join(short(o, 90) for o in q.ops), ":".join(map(str, q.site[:2])) if q.site else "?",
            describe(q.facts)))


def unzip(s):
    t = s.a[0]
    while t.op in ("rev", "skip", "take", "enum", "map", "stepby", "iter"):
        t = t.a[0]
    return t


@prop("C05", floor=5)
def c05(c, rep):
    for ty, n in (("SparseMerkleProof", "verify"), ("SparseMerkleProof", "verify_existence"),
                  ("SparseMerkleProof", "verify_nonexistence"), ("UpdateMerkleProof", "verify_update"),
                  ("SparseMerkleRangeProof", "verify")):
        b = c.method(ty, n)
        X, rs = c.run(b)
        no_panic(rep, X, "%s::%s" % (ty, n), where(b))
        rep.put(True if rs else None, "%s::%s returns" % (ty, n), where(b))

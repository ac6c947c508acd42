"""Hash preimages, equality, ordering, cloning."""
import re
from rules import prop
from rules.domain import *
from rules.nodes import NN
from rules.proofs import Names, leafhash, inthash, PH, hparam, H as HH, by as lit, LEAFTAG, INTTAG
from models import MODELS
from spec import *
from terms import *


@prop("C06", floor=9)
def preimages(c, rep):
    pn, n = Names(c), NN(c)
    S = Par("self")
    b = c.method("SparseMerkleLeafNode", "hash")
    X, rs = c.run(b)
    table(rep, X, "leaf hash", where(b), rs, [Row("all", [], leafhash(
        hparam(b), Fld(Fld(S, pn.kh), "0"), Fld(Fld(S, pn.vh), "0")))])
    b = c.method("SparseMerkleInternalNode", "hash")
    X, rs = c.run(b)
    table(rep, X, "internal hash", where(b), rs, [Row("all", [], inthash(hparam(b), Fld(S, pn.l), Fld(S, pn.r)))])
    b = c.method("SparseMerkleNode", "hash")
    X, rs = c.run(b)
    h = hparam(b)
    lf, it = Fld(As(S, "Leaf"), "0"), Fld(As(S, "Internal"), "0")
    table(rep, X, "proof node hash", where(b), rs, [
        Row("null", [Is(S, "Null")], PH),
        Row("leaf", [Is(S, "Leaf")], leafhash(h, Fld(Fld(lf, pn.kh), "0"), Fld(Fld(lf, pn.vh), "0"))),
        Row("internal", [Is(S, "Internal")], inthash(h, Fld(it, pn.l), Fld(it, pn.r)))])
    b = c.method("LeafNode", "hash")
    X, rs = c.run(b)
    table(rep, X, "tree leaf hash", where(b), rs, [Row("all", [], leafhash(
        hparam(b), Fld(Fld(S, n.lk), "0"), Fld(Fld(S, n.lv), "0")))])
    for ty in ("ValueHash", "KeyHash"):
        b = c.method(ty, "with")
        X, rs = c.run(b)
        table(rep, X, ty + "::with", where(b), rs, [Row("all", [], Fields(**{"0": HH(hparam(b), Par("a0"))}))])
    b = c.trait_default("SimpleHasher", "hash")
    X, rs = c.run(b)
    table(rep, X, "SimpleHasher::hash", where(b), rs, [Row("all", [], HH("Self", Par("a0")))])
    digest_adapter(c, rep)
    tags = [LEAFTAG, INTTAG]
    rep.put(not any(x != y and x.startswith(y) for x in tags for y in tags) and len(set(tags)) == 2,
            "domain separation", "specification", "one domain tag is a prefix of the other")


class Peeled(M):
    """the same bytes, converted or not"""

    def __init__(self, inner):
        self.inner = inner

    def __str__(self):
        return short(self.inner)

    def m(self, X, st, v):
        while v.op == "call" and v.a[0].startswith("into<") and len(v.a[1]) == 1:
            v = v.a[1][0]
        return match(X, st, self.inner, v)


def digest_adapter(c, rep):
    """a Digest used as a SimpleHasher is started, fed and finished as the Digest itself"""
    I = {"digest::Digest::" + n: MODELS["SimpleHasher::" + n] for n in ("new", "update", "finalize")}

    def chain(k):
        r = k.val(0)
        d = k.e.snap(k.st, k.val(1))
        return k.ret(T("hs", r.a[0], r.a[1] + (d,)) if r.op == "hs" else T("hsx", r, d))
    I["digest::Digest::chain_update"] = chain
    ty = [b for b in c.p.facts["bodies"] if b["kind"] == "fn" and b.get("impl_trait")
          and strip(b["impl_trait"]).split("::")[-1] == "SimpleHasher" and b.get("impl_self") in (b.get("generics") or [])]
    by_name = {b["name"]: b for b in ty}
    for n in ("new", "update", "finalize"):
        b = by_name.get(n)
        if b is None:
            rep.put(None, "Digest as SimpleHasher/%s" % n, "SimpleHasher", "no implementation for every Digest was found")
            continue
        X, rs = c.run(b, intr=I)
        S = Par("self")
        if n == "new":
            rows = [Row("all", [], T("hs", b["impl_self"], ()))]
            table(rep, X, "Digest as SimpleHasher/new", where(b), rs, rows)
        elif n == "update":
            me = ("O", S)
            table(rep, X, "Digest as SimpleHasher/update", where(b), rs, [Row("all", [], T("hsx", S, Par("a1")))],
                  value=lambda st, v: st.env.get(me, S))
        else:
            table(rep, X, "Digest as SimpleHasher/finalize", where(b), rs, [Row("all", [], Peeled(T("hashx", S)))])
    if "hash" in by_name:
        b = by_name["hash"]
        X, rs = c.run(b, intr=I)
        table(rep, X, "Digest as SimpleHasher/hash", where(b), rs, [Row("all", [], Peeled(HH(b["impl_self"], Par("a0"))))])


# ------------------------------------------------------------------ equality, order, clone
EQ = ["NodeKey", "NodeType", "Child", "Children", "InternalNode", "LeafNode", "Node", "NibblePath", "Nibble", "RootHash",
      "KeyHash", "ValueHash", "SparseMerkleNode", "SparseMerkleInternalNode", "SparseMerkleLeafNode",
      "SparseMerkleProof", "SparseMerkleRangeProof", "StaleNodeIndex", "NodeBatch", "TreeUpdateBatch", "NodeStats"]
ORD = ["NodeKey", "StaleNodeIndex", "NibblePath", "Nibble", "KeyHash", "ValueHash", "RootHash"]


def leaves(c, ty, t, depth=0):
    """the comparable parts of a struct of this crate, in declaration order (newtypes looked through)"""
    return [Fld(t, f["name"]) for f in c.adt(ty)["variants"][0]["fields"] if "PhantomData" not in f["ty"]]


def names(c, ty):
    a = c.adt(ty)
    return [f["name"] for f in a["variants"][0]["fields"] if "PhantomData" not in str(f.get("ty", ""))]


def factor(t):
    """path of field names below self / a1"""
    p = []
    while t.op in ("fld", "as"):
        p.append(t.a[1])
        t = t.a[0]
    return t, tuple(reversed(p))


def mention_paths(st, extra=()):
    out = set()
    for t in list(st.facts) + list(extra):
        if isinstance(t, Term):
            for s in subterms(t):
                if s.op == "fld":
                    out.add(s)
    return out


@prop("C12", floor=20)
def equality(c, rep):
    """eq is true exactly when every field (of the same variant) is equal"""
    S, O = Par("self"), Par("a1")
    for ty in EQ:
        b = c.method(ty, "eq", trait="PartialEq", opt=True)
        if b is None:
            rep.undet("eq/%s" % ty, ty, "no equality in this crate's MIR")
            continue
        X, rs = c.run(b)
        a = c.adt(ty)
        bad, und, n = None, None, 0
        for st, v in rs:
            for w in worlds(st.facts):
                if not bits_ok(w):
                    continue
                n += 1
                for w2, v2 in outcomes(w, v):
                    r = eq_path(c, a, X, State(st.env, w2, st.did), v2, S, O)
                    if r[0] is False:
                        bad = bad or r[1]
                    elif r[0] is None:
                        und = und or r[1]
        if not bad:
            tr = [v for st, v in rs if v is not FALSE]
            if not tr:
                bad = "never returns true"
            if ty not in ("RootHash",) and all(v is TRUE for st, v in rs):
                bad = "always returns true"
        rep.put(False if bad and not und else None if und else True, "eq/%s" % ty, where(b), bad or und or "")


def outcomes(w, v):
    """a negated comparison as the two results it can have"""
    if v.op != "not":
        return [(w, v)]
    out = []
    for b in (TRUE, FALSE):
        f = consistent(w, [(v.a[0], b is FALSE)])
        if f is not None:
            out.append((f, b))
    return out


def eqs(w, v=None):
    """known equal / different pairs"""
    pos, neg = set(), set()
    for t, x in w.items():
        if isinstance(t, Term) and t.op == "bin" and t.a[0] == "Eq":
            (pos if x else neg).add(frozenset((t.a[1], t.a[2])))
    if v is not None and v.op == "bin" and v.a[0] == "Eq":
        pos.add(frozenset((v.a[1], v.a[2])))
    return pos, neg


def eq_path(c, a, X, st, v, S, O):
    if alien_path(X, st) or alien(X, v):
        return None, "not determined: %s" % short(alien_path(X, st) or alien(X, v), 80)
    conj = []

    def split(t):
        if t.op == "bin" and t.a[0] == "BitAnd":
            split(t.a[1])
            split(t.a[2])
        else:
            conj.append(t)
    if v.op != "bool":
        split(v)
    pos, neg = eqs(st.facts)
    for t in conj:
        p, n = eqs({}, t)
        if not p:
            return None, "result %s" % short(v, 80)
        pos |= p
    if v is FALSE:
        # some part differs
        if neg or any(isinstance(t, Term) and t.op == "is" for t in st.facts):
            return True, ""
        return False, "says two values differ when %s" % describe(st.facts)
    # true: every field of the variant is compared
    vs = a["variants"]
    if len(vs) > 1:
        sv = next((t.a[1] for t, x in st.facts.items() if isinstance(t, Term) and t.op == "is" and x and t.a[0] is S), None)
        ov = next((t.a[1] for t, x in st.facts.items() if isinstance(t, Term) and t.op == "is" and x and t.a[0] is O), None)
        if sv is None or ov is None:
            same = any(p for p in pos if all(x.op == "discr" for x in p))
            if sv is None and not same:
                return None, "variant not determined when %s" % describe(st.facts)
            ov = ov or sv
        if sv != ov:
            return False, "%s equals %s" % (sv, ov)
        va = [x for x in vs if x["name"] == sv][0]
        s, o = As(S, sv), As(O, sv)
    else:
        va, s, o = vs[0], S, O
    missing = []
    for f in va["fields"]:
        if "PhantomData" in str(f.get("ty", "")):
            continue
        if not covered(c, Fld(s, f["name"]), Fld(o, f["name"]), pos, st.facts, f, 0):
            missing.append(f["name"])
    if missing:
        return False, "says two values are equal without comparing %s" % ", ".join(missing)
    return True, ""


def covered(c, x, y, pos, facts, f, depth):
    if frozenset((x, y)) in pos:
        return True
    if depth > 4:
        return False
    # a newtype or struct compared field by field; an enum or option compared by variant
    sub = {}
    for p in pos:
        for t in p:
            r, path = factor_below(t, x)
            if path:
                sub.setdefault(path[0], True)
    for t, v in facts.items():
        if isinstance(t, Term) and t.op == "is" and v and t.a[0] is x:
            if implied(facts, Is(y, t.a[1])) is True:
                kids = [p for p in pos for z in p if factor_below(z, As(x, t.a[1]))[1]]
                if kids or t.a[1] in ("None", "Leaf", "Null"):
                    return True
    ty = str(f.get("ty", ""))
    nm = re.sub(r"<.*", "", ty).split("::")[-1]
    a = [a for a in c.p.facts["adts"] if a["path"].split("::")[-1] == nm]
    if a and len(a[0]["variants"]) == 1:
        return all(covered(c, Fld(x, g["name"]), Fld(y, g["name"]), pos, facts, g, depth + 1)
                   for g in a[0]["variants"][0]["fields"] if "PhantomData" not in str(g.get("ty", "")))
    return False


def factor_below(t, x):
    p = []
    while t.op in ("fld", "as"):
        if t is x:
            return t, tuple(reversed(p))
        p.append(t.a[1])
        t = t.a[0]
    return t, (tuple(reversed(p)) if t is x else ())


@prop("C12", floor=7)
def order(c, rep):
    """comparison is lexicographic over the fields in their declared order (version first, shorter path first)"""
    S, O = Par("self"), Par("a1")
    for ty in ORD:
        for nm, tr in (("cmp", "Ord"), ("partial_cmp", "PartialOrd")):
            b = c.method(ty, nm, trait=tr, opt=True)
            if b is None:
                rep.undet("%s/%s" % (nm, ty), ty, "not found")
                continue
            X, rs = c.run(b)
            fs = [f["name"] for f in c.adt(ty)["variants"][0]["fields"]]
            rows = []
            eqg = []
            for f in fs:
                x, y = deep(c, ty, f, Fld(S, f)), deep(c, ty, f, Fld(O, f))
                rows.append(Row("%s less" % f, eqg + [Lt(x, y)], ordv(nm, "Less")))
                rows.append(Row("%s greater" % f, eqg + [Lt(y, x)], ordv(nm, "Greater")))
                eqg = eqg + [Eq(x, y)]
            rows.append(Row("equal", eqg, ordv(nm, "Equal")))
            if nm == "partial_cmp" and any(isinstance(t, Term) and t is Eq(S, O) for st, v in rs for t in st.facts):
                # defined through cmp of the whole value
                rows = [Row("less", [Lt(S, O)], ordv(nm, "Less")), Row("greater", [Lt(O, S)], ordv(nm, "Greater")),
                        Row("equal", [Eq(S, O)], ordv(nm, "Equal"))]
            flat_table(rep, X, "%s/%s" % (nm, ty), where(b), rs, rows)


def flat_table(rep, X, name, site, rs, rows):
    table(rep, X, name, site, rs, rows)


def deep(c, ty, f, t):
    return t


def ordv(nm, k):
    return Con(k) if nm == "cmp" else Con("Some", Con(k))


@prop("C12", floor=15)
def clones(c, rep):
    """clone copies every field"""
    S = Par("self")
    for ty in EQ + ["NibbleIterator"]:
        b = c.method(ty, "clone", trait="Clone", opt=True)
        if b is None:
            continue
        if calls(b, b["id"]):
            rep.bad("clone/%s" % ty, where(b), "calls itself on the same value, without end")
            continue
        X, rs = c.run(b)
        a = c.adt(ty)
        for st, v in rs:
            if v is S:
                rep.ok("clone/%s" % ty, where(b))
                continue
            bad = None
            if v.op != "agg":
                rep.undet("clone/%s" % ty, where(b), "value %s" % short(v, 80))
                continue
            src = S if len(a["variants"]) == 1 else As(S, v.a[1])
            if len(a["variants"]) > 1 and implied(st.facts, Is(S, v.a[1])) is not True:
                bad = (False, "clones another variant to %s" % v.a[1])
            va = [x for x in a["variants"] if len(a["variants"]) == 1 or x["name"] == v.a[1]][0]
            for f in va["fields"]:
                if "PhantomData" in str(f.get("ty", "")):
                    continue
                r = same_val(c, X, st, Fld(src, f["name"]), Fld(v, f["name"]))
                if r[0] is not True:
                    bad = bad or (r[0], "field %s: %s" % (f["name"], r[1]))
            rep.put(bad[0] if bad else True, "clone/%s" % ty, where(b), bad[1] if bad else "")


def calls(t, fid):
    """does a body's MIR name this function as a callee"""
    if isinstance(t, dict):
        return t.get("rid") == fid or any(calls(x, fid) for x in t.values())
    return isinstance(t, (list, tuple)) and any(calls(x, fid) for x in t)


def same_val(c, X, st, want, got):
    if got is want:
        return True, ""
    if got.op == "agg":
        w = want
        if got.a[1] and implied(st.facts, Is(want, got.a[1])) is True:
            w = As(want, got.a[1])
        elif got.a[1] not in (got.a[0].split("::")[-1], ""):
            return (False, "variant %s" % got.a[1])
        for f, x in zip(got.a[2], got.a[3]):
            if f in ("phantom", "phantom_hasher") or x.op == "agg" and "PhantomData" in x.a[0]:
                continue
            r = same_val(c, X, st, Fld(w, f), x)
            if r[0] is not True:
                return r
        return True, ""
    return match(X, st, want, got)

"""Encodings: what is written is read back."""
import re
from rules import prop
from rules.domain import *
from spec import *
from terms import *

W, R = "borsh::BorshSerialize::serialize", "borsh::BorshDeserialize::deserialize_reader"


def canon_ty(t):
    """types with the same encoding"""
    t = re.sub(r"'\w+ ", "", t).strip()
    while True:
        m = re.match(r"^(?:std::boxed::Box|std::rc::Rc|std::sync::Arc)<(.*)>$", t) or re.match(r"^&(?:mut )?(.*)$", t)
        if not m:
            break
        t = m.group(1).strip()
    return {"usize": "u64", "isize": "i64"}.get(t, t)


def atom_ty(k):
    a = k.f.get("args") or [""]
    return canon_ty(k.e.subst(k.fr, a[0]))


def borsh_intr(body):
    """reading and writing a value of any type but the analysed one is one step"""
    out = {}

    def ser(k):
        old, x, ty = k.val(1), k.e.snap(k.st, k.val(0)), atom_ty(k)
        res = []
        for s, b in k.e.branch(k.st, T("wok", old, ty, x)):
            if b:
                setref(k, 1, T("wrote", old, ty, x), s)
                res.append((s, Ok(UNIT)))
            else:
                res.append((s, Err(T("err", "write"))))
        return res

    def de(k):
        old, ty = k.val(0), atom_ty(k)
        res = []
        for s, b in k.e.branch(k.st, T("rok", old, ty)):
            if b:
                setref(k, 0, T("rest", old, ty), s)
                res.append((s, Ok(T("rd", old, ty))))
            else:
                res.append((s, Err(T("err", "read"))))
        return res

    def write_all(k):
        x = k.e.snap(k.st, k.val(1))
        v = one_byte(x)
        if v is None:
            return None
        old = k.val(0)
        res = []
        for s, b in k.e.branch(k.st, T("wok", old, "u8", v)):
            if b:
                setref(k, 0, T("wrote", old, "u8", v), s)
                res.append((s, Ok(UNIT)))
            else:
                res.append((s, Err(T("err", "write"))))
        return res
    out[W], out[R], out["std::io::Write::write_all"] = ser, de, write_all
    return out


def one_byte(x):
    if x.op == "arr" and len(x.a[0]) == 1:
        return x.a[0][0]
    if x.op == "bytes" and len(x.a[0]) == 2:
        return Int(int(x.a[0], 16))
    if x.op == "num" and x.a[0] in ("to_le_bytes", "to_be_bytes", "to_ne_bytes") and x.a[1] == "u8":
        return x.a[2][0]
    return None


TYPES = ["RootHash", "KeyHash", "ValueHash", "NibblePath", "NodeKey", "NodeType", "Child", "Children", "InternalNode", "LeafNode",
         "Node", "NodeStats", "StaleNodeIndex", "NodeBatch", "TreeUpdateBatch", "SparseMerkleNode", "SparseMerkleInternalNode",
         "SparseMerkleLeafNode", "SparseMerkleProof", "UpdateMerkleProof", "SparseMerkleRangeProof"]


def chain(t, op, base):
    """[(type, value)] written to / [type] read from base"""
    out = []
    while t.op == op:
        out.append(t.a[1:])
        t = t.a[0]
    return list(reversed(out)) if t is base else None


def self_value(c, ty, st):
    """the analysed value as its variant and its fields"""
    S, a = Par("self"), c.adt(ty)
    vs = [v for v in a["variants"] if len(a["variants"]) == 1 or implied(st.facts, Is(S, v["name"])) is not False]
    return vs


def same_value(c, ty, vs, v):
    """v is self: same variant, every field that carries data the same -> (verdict, why)"""
    S = Par("self")
    if v is S:
        return True, ""
    if v.op != "agg":
        return None, "value %s" % short(v, 100)
    if len(vs) != 1:
        return None, "several variants"
    x = vs[0]
    if len(c.adt(ty)["variants"]) > 1 and v.a[1] != x["name"]:
        return False, "variant %s comes back as %s" % (x["name"], v.a[1])
    base = S if len(c.adt(ty)["variants"]) == 1 else As(S, x["name"])
    for f in x["fields"]:
        if "PhantomData" in f["ty"]:
            continue
        want, got = Fld(base, f["name"]), Fld(v, f["name"])
        if got is want:
            continue
        inner = got
        while inner.op in ("cast", "trunc"):
            inner = [y for y in inner.a if isinstance(y, Term)][0]
        if inner is want:
            if f["name"] in ("num_nibbles", "num_children"):
                return None, "%s is narrowed" % f["name"]
            return False, "%s is cut to a smaller type: %s" % (f["name"], short(got, 60))
        own = sorted({s.a[1] for s in subterms(got) if s.op == "fld" and s.a[0] is base})
        if f["name"] not in own:
            lost = not any(s.op in UNDET_OPS or s.op in ("call", "rd", "loopvar") for s in subterms(got))
            return (False if lost else None), "field %s comes back as %s, which does not depend on it" % (f["name"], short(got, 80))
        return None, "field %s comes back as %s" % (f["name"], short(got, 80))
    return True, ""


def back(read, wrote, base=Par("a0")):
    """what reading yields after writing: each value read is the value written there"""
    m, st = {}, base
    for (ty,), (_, x) in zip(read, wrote):
        m[T("rd", st, ty)] = x
        st = T("rest", st, ty)
    return m


def holds(facts, m):
    """can these facts of the reader hold for the values written -> (possible, certain)"""
    certain = True
    for t, b in facts.items():
        if not isinstance(t, Term):
            continue
        if t.op == "rok":
            if b is False:
                return False, True
            continue
        u = substm(t, m)
        if u is TRUE or u is FALSE:
            if (u is TRUE) != b:
                return False, True
            continue
        if t.op == "bin" and t.a[0] == "Eq":
            x, y = substm(t.a[1], m), substm(t.a[2], m)
            e = Eq(x, y)
            if e is TRUE or e is FALSE:
                if (e is TRUE) != b:
                    return False, True
                continue
        certain = False
    return True, certain


@prop("C31", floor=20)
def borsh(c, rep):
    for ty in TYPES:
        w = c.method(ty, "serialize", trait="BorshSerialize", opt=True)
        r = c.method(ty, "deserialize_reader", trait="BorshDeserialize", opt=True)
        if w is None or r is None:
            rep.undet("borsh/%s" % ty, ty, "no Borsh encoding in this crate's MIR")
            continue
        X, ws = c.run(w, intr=borsh_intr(w))
        Y, rs = c.run(r, intr=borsh_intr(r))
        W0, R0 = Par("a1"), Par("a0")
        verdict, why, seen = True, "", set()

        def worse(v, y):
            nonlocal verdict, why
            if v is True or verdict is False:
                return
            if v is False or verdict is True:
                verdict, why = v, y
        if X.panics:
            worse(None, "writing may panic")
        for st, v in ws:
            if is_err(v):
                if not any(t.op == "wok" and b is False for t, b in st.facts.items() if isinstance(t, Term)):
                    worse(None if alien_path(X, st) or alien(X, v) else False, "writing fails although the writer does not, when %s" % describe(st.facts))
                continue
            wr = chain(st.env.get(("O", W0), W0), "wrote", W0)
            if wr is None or not is_ok(v):
                worse(None, "what is written is not understood: %s" % short(st.env.get(("O", W0), W0), 120))
                continue
            vs = self_value(c, ty, st)
            seen |= {x["name"] for x in vs}
            n = 0
            for s2, v2 in rs:
                rd = chain(s2.env.get(("O", R0), R0), "rest", R0)
                if rd is None:
                    worse(None, "what is read is not understood")
                    continue
                k = min(len(rd), len(wr))
                m = back(rd, wr)
                ok, sure = holds(s2.facts, m)
                if not ok:
                    continue
                n += 1
                tys = [a[0] for a in rd], [a[0] for a in wr]
                if tys[0][:k] != tys[1][:k] or (is_ok(v2) and len(rd) != len(wr)):
                    j = next((i for i in range(k) if tys[0][i] != tys[1][i]), k)
                    mj = back(rd[:j], wr[:j])
                    near = {q: y for q, y in s2.facts.items() if isinstance(q, Term)
                            and all(z in mj for z in subterms(q) if z.op == "rd")}
                    worse(False if holds(near, mj) == (True, True) and plain(tys) else None, "writes %s but reads %s" % (", ".join(tys[1]) or "nothing", ", ".join(tys[0]) or "nothing"))
                    continue
                if not is_ok(v2):
                    worse(False if sure else None, "reading what was written fails: %s when %s" % (short(v2, 60), describe(s2.facts)))
                    continue
                if not sure:
                    worse(None, "read under %s" % describe(s2.facts))
                got = substm(Fld(v2, "0"), m)
                worse(*same_value(c, ty, vs, got))
            if not n:
                worse(None, "no way to read what is written")
        miss = [x["name"] for x in c.adt(ty)["variants"] if x["name"] not in seen]
        if miss and verdict is True:
            worse(None, "nothing written for %s" % ", ".join(miss))
        rep.put(verdict, "borsh/%s" % ty, where(w), why)


def plain(tys):
    """the encodings of these types are never equal by being nested"""
    from collections import Counter
    a, b = map(Counter, tys)
    d = (a - b) + (b - a)
    return not any("::" in t and not t.startswith(("std::vec::Vec<u8>",)) for t in d)


# ------------------------------------------------------------------ serde
def forks(k, cond, no, yes):
    """[(state, value)]: the operation fails or succeeds"""
    out = []
    for s, b in k.e.branch(k.st, cond):
        if b:
            v = yes(s)
            out.extend(v if isinstance(v, list) else [(s, v)])
        else:
            out.append((s, no))
    return out


def serde_out():
    out, P = {}, "serde::ser::Serialize"

    def start(kind):
        def f(k):
            a = tuple(k.e.snap(k.st, x) for x in k.args[1:])
            return forks(k, T("sok", kind, a), Err(T("err", "write")), lambda s: Ok(T("sbeg", kind, a)))
        return f

    def whole(kind):
        def f(k):
            a = tuple(k.e.snap(k.st, x) for x in k.args[1:])
            return forks(k, T("sok", kind, a), Err(T("err", "write")), lambda s: Ok(T("sdone", T("sbeg", kind, a))))
        return f

    def field(keyed):
        def f(k):
            old = k.val(0)
            key = k.val(1) if keyed else UNIT
            x = k.e.snap(k.st, k.val(2 if keyed else 1))

            def yes(s):
                setref(k, 0, T("sfld", old, key, x), s)
                return Ok(UNIT)
            return forks(k, T("sok", old, key), Err(T("err", "write")), yes)
        return f

    def skip(k):
        return k.ret(Ok(UNIT))

    def end(k):
        v = k.val(0)
        return forks(k, T("sok", v, UNIT), Err(T("err", "write")), lambda s: Ok(T("sdone", v)))
    for n in ("struct", "struct_variant", "tuple_struct", "tuple_variant", "seq", "tuple", "map"):
        out["serde::Serializer::serialize_" + n] = start(n)
    for n in ("newtype_struct", "newtype_variant", "unit_variant", "unit_struct"):
        out["serde::Serializer::serialize_" + n] = whole(n)
    for n, keyed in (("Struct", True), ("StructVariant", True), ("TupleStruct", False), ("TupleVariant", False)):
        out[P + n + "::serialize_field"] = field(keyed)
        out[P + n + "::skip_field"] = skip
        out[P + n + "::end"] = end
    return out


def serde_in():
    out = {}

    def elem(k):
        old, ty = k.val(0), atom_ty2(k)

        def some(s):
            r = []
            for s2, b in k.e.branch(s, T("rhere", old, ty)):
                if b:
                    setref(k, 0, T("rest", old, ty), s2)
                    r.append((s2, Ok(Some(T("rd", old, ty)))))
                else:
                    r.append((s2, Ok(NONE)))
            return r
        return forks(k, T("rok", old, ty), Err(T("err", "read")), some)

    def val(k):
        old, ty = k.val(0), atom_ty2(k)

        def some(s):
            setref(k, 0, T("rest", old, ty), s)
            return Ok(T("rd", old, ty))
        return forks(k, T("rok", old, ty), Err(T("err", "read")), some)
    out["serde::de::SeqAccess::next_element"] = elem
    out["serde::de::MapAccess::next_key"] = elem
    out["serde::de::MapAccess::next_value"] = val
    return out


def atom_ty2(k):
    a = k.f.get("args") or [""]
    return canon_ty(k.e.subst(k.fr, a[-1]))


def visitor(c, ty, name):
    """the visitor methods of the type's derived decoder"""
    out = []
    for b in c.p.facts["bodies"]:
        if b.get("name") == name and re.search(r"Deserialize<'de> for ([\w:]*::)?%s(<[^>]*>)?>::deserialize::" % ty, b["path"]):
            out.append(b)
    return out


class Tally:
    """the worst of several verdicts"""

    def __init__(self):
        self.v, self.why = True, ""

    def add(self, v, why=""):
        if v is True or self.v is False:
            return
        if v is False or self.v is True:
            self.v, self.why = v, why


def written(v):
    """a serialized value: (kind, names, [(key, value)])"""
    if not (is_ok(v) and Fld(v, "0").op == "sdone"):
        return None
    t = Fld(v, "0").a[0]
    fs = []
    while t.op == "sfld":
        fs.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != "sbeg":
        return None
    return t.a[0], t.a[1], list(reversed(fs))


def data_fields(x):
    return [f["name"] for f in x["fields"] if "PhantomData" not in f["ty"]]


def key_index(c, bs):
    """field visitor: name -> identifier variant, and number -> identifier variant"""
    names, nums, raw = {}, {}, {}
    A = Par("a1")
    for b in bs:
        X, rs = c.run(b)
        for st, v in rs:
            if not is_ok(v) or Fld(v, "0").op != "agg":
                continue
            to = Fld(v, "0").a[1]
            if b["name"] == "visit_u64":
                for k in range(64):
                    if implied(st.facts, Eq(A, Int(k))) is True:
                        nums[k] = to
            elif b["name"] == "visit_str":
                for t, x in st.facts.items():
                    if isinstance(t, Term) and t.op == "bin" and t.a[0] == "Eq" and x is True and A in t.a[1:]:
                        o = [y for y in t.a[1:] if y is not A][0]
                        if o.op == "str":
                            names[o.a[0]] = to
            elif b["name"] == "visit_bytes":
                bd = {t[1]: x for t, x in st.facts.items() if isinstance(t, tuple) and t[0] == "bnd"}
                n = bd.get(Len(A))
                if n and n[0] == n[1]:
                    cs = [bd.get(Idx(A, Int(i))) for i in range(n[0])]
                    if all(x and x[0] == x[1] for x in cs):
                        raw[bytes(x[0] for x in cs).decode("latin1")] = to
    return names, nums, raw


def in_enum(b):
    return "::visit_enum::" in b["path"]


PLAIN = ["NodeStats", "StaleNodeIndex", "NodeBatch", "TreeUpdateBatch"]     # without serde


@prop("C31", floor=20)
def serde(c, rep):
    for ty in [x for x in TYPES if x not in PLAIN] + ["Nibble"]:
        ws = [b for b in c.p.facts["bodies"] if b.get("name") == "serialize" and b["kind"] == "fn"
              and re.search(r"Serialize for ([\w:]*::)?%s(<[^>]*>)?>" % ty, b["path"])]
        if len(ws) != 1:
            rep.undet("serde/%s" % ty, ty, "no derived Serialize in this crate's MIR")
            continue
        w = ws[0]
        X, rs = c.run(w, intr=serde_out())
        t = Tally()
        forms = {}
        for st, v in rs:
            if is_err(v):
                if not any(isinstance(q, Term) and q.op == "sok" and b is False for q, b in st.facts.items()):
                    t.add(None if alien_path(X, st) or alien(X, v) else False, "serializing fails by itself when %s" % describe(st.facts))
                continue
            vs = self_value(c, ty, st)
            f = written(v)
            if f is None or len(vs) != 1:
                t.add(None, "what is written is not understood: %s" % short(v, 100))
                continue
            kind, a, fs = f
            x = vs[0]
            base = Par("self") if len(c.adt(ty)["variants"]) == 1 else As(Par("self"), x["name"])
            if kind.startswith("newtype"):
                fs = [(UNIT, a[-1])]
            if kind in ("struct", "struct_variant") and a[-1] is not Int(len(fs)):
                t.add(False if a[-1].op == "int" else None, "announces %s fields but writes %d" % (short(a[-1]), len(fs)))
            lost = [n for n in data_fields(x) if not any(y is Fld(base, n) for _, y in fs)]
            odd = [y for _, y in fs if not (y.op == "fld" and y.a[0] is base)]
            if lost:
                dep = [n for n in lost if any(z is Fld(base, n) for y in odd for z in subterms(y))]
                t.add(None if dep or any(y.op not in ("agg", "int", "bool", "str") and "Serialize" in show(y) for y in odd) else False,
                      "%s is not written%s" % (", ".join(lost), " when %s" % describe(st.facts) if st.facts else ""))
            ks = [k for k, _ in fs if k.op == "str"]
            if len(set(ks)) < len(ks):
                t.add(False, "two fields under one name")
            if x["name"] in forms and forms[x["name"]] != (kind, a[:-1] if "struct" not in kind else a, fs):
                t.add(None, "written in several ways")
            forms[x["name"]] = (kind, a, fs)
        rep.put(t.v, "serde write/%s" % ty, where(w), t.why)
        if t.v is not True:
            continue
        multi = len(c.adt(ty)["variants"]) > 1
        for x in c.adt(ty)["variants"]:
            if x["name"] not in forms:
                rep.undet("serde/%s" % ty, where(w), "nothing written for %s" % x["name"])
                continue
            kind, a, fs = forms[x["name"]]
            for n in ("visit_seq", "visit_newtype_struct", "visit_map"):
                if n == "visit_map" and "struct" not in kind.replace("newtype_struct", "").replace("tuple_struct", ""):
                    continue
                if n == "visit_newtype_struct" and kind != "newtype_struct":
                    continue
                if n == "visit_seq" and kind in ("unit_variant", "newtype_variant"):
                    continue
                bs = [b for b in visitor(c, ty, n) if b["kind"] == "fn" and in_enum(b) == multi]
                if len(bs) != 1:
                    rep.undet("serde %s/%s" % (n, ty), ty, "%d such functions" % len(bs))
                    continue
                r = Tally()
                (as_map if n == "visit_map" else as_seq)(c, ty, x, fs, bs[0], r, n)
                rep.put(r.v, "serde %s/%s%s" % (n, ty, "/" + x["name"] if multi else ""), where(bs[0]), r.why)
        if multi:
            as_enum(c, rep, ty, forms)


def as_seq(c, ty, x, fs, b, t, n):
    """formats without names: the i-th element read is the i-th value written"""
    Y, rs = c.run(b, intr=serde_in())
    R0, seen = Par("a1"), 0
    for st, v in rs:
        if any(isinstance(q, Term) and q.op in ("rok", "rhere") and y is False for q, y in st.facts.items()):
            continue
        if not is_ok(v):
            if n == "visit_newtype_struct":
                continue
            t.add(None if alien_path(Y, st) or alien(Y, v) or len(st.facts) > 2 * len(fs) else False, "reading back fails: %s when %s" % (short(v, 60), describe(st.facts)))
            continue
        seen += 1
        got = Fld(v, "0")
        if n == "visit_newtype_struct":
            m = {s: fs[0][1] for s in subterms(got) if s.op == "fld" and s.a[0].op == "as" and s.a[0].a[0].op == "call"}
        else:
            rd = [chain(T("rest", *q.a), "rest", R0) for q, y in st.facts.items() if isinstance(q, Term) and q.op == "rok"]
            if any(q is None for q in rd):
                t.add(None, "what is read is not understood")
                continue
            rd = max(rd, key=len, default=[])
            if len(rd) != len(fs):
                t.add(False if got.op == "agg" else None, "writes %d values but reads %d" % (len(fs), len(rd)))
                continue
            m = back(rd, [(UNIT, y) for _, y in fs], R0)
        t.add(*same_value(c, ty, [x], substm(got, m)))
    if not seen:
        t.add(None, "nothing is read")


def as_map(c, ty, x, fs, b, t, n):
    """formats with names: each field is read under the name it was written under"""
    multi = len(c.adt(ty)["variants"]) > 1
    names, nums, raw = key_index(c, [q for k in ("visit_str", "visit_u64", "visit_bytes") for q in visitor(c, ty, k)
                                     if q["kind"] == "fn" and in_enum(q) == multi])
    Y, rs = c.run(b, intr=serde_in())
    base = Par("self") if not multi else As(Par("self"), x["name"])
    seen = 0
    for i, (k, y) in enumerate(fs):
        if k.op != "str" or names.get(k.a[0]) is None:
            t.add(False if k.op == "str" and names else None, "no field is read under the name %s" % short(k))
        elif raw and raw.get(k.a[0]) != names[k.a[0]]:
            t.add(None, "name %s read differently as bytes" % short(k))
    if t.v is not True:
        return
    for st, v in rs:
        if any(isinstance(q, Term) and q.op == "rok" and y is False for q, y in st.facts.items()):
            continue
        if not is_ok(v) or any(s.op == "call" and "missing_field" in str(s.a[0]) for s in subterms(v)):
            continue
        if any(isinstance(q, Term) and q.op == "is" and q.a[0].op == "loopvar" and (q.a[1], y) in (("None", True), ("Some", False))
               for q, y in st.facts.items()):
            continue            # a field that was not in the input
        got = Fld(v, "0")
        if got.op != "agg":
            t.add(None, "value %s" % short(got, 80))
            continue
        seen += 1
        for k, y in fs:
            f = [n2 for n2 in (z["name"] for z in x["fields"]) if y is Fld(base, n2)]
            if not f or f[0] not in data_fields(x):
                continue
            g = Fld(got, f[0])
            lv = g.a[0].a[0] if g.op == "fld" and g.a[0].op == "as" and g.a[0].a[1] == "Some" else None
            L = loop_of(Y, lv) if lv is not None else None
            if L is None:
                t.add(False if g.op in ("agg", "int", "bool", "str", "vec0") else None, "field %s comes back as %s" % (f[0], short(g, 80)))
                continue
            d = [q for q in L.vars.items() if q[0] is lv] or [q for q in L.vars.items() if T("loopvar", L.uid, q[0]) is lv]
            if not d:
                t.add(None, "field %s: loop variable not found" % f[0])
                continue
            want, upd = names[k.a[0]], []
            for fa, nx in d[0][1]["next"]:
                ids = [q for q, z in fa.items() if isinstance(q, Term) and q.op == "is" and z is True and str(q.a[1]).startswith("__")]
                if nx is lv or nx is d[0][1].get("init"):
                    continue
                if nx.op == "agg" and nx.a[1] == "Some":
                    upd.append({q.a[1] for q in ids})
                else:
                    upd.append(None)
            if any(u is None or not u for u in upd) or not upd:
                t.add(None, "field %s: set in a way not understood" % f[0])
            elif any(want not in u for u in upd):
                t.add(False, "field %s is read under %s, written under the name of %s" % (f[0], sorted(upd[0])[0], want))
    if not seen:
        t.add(None, "nothing is read")


def as_enum(c, rep, ty, forms):
    """the variant written is the variant read"""
    bs = [b for b in visitor(c, ty, "visit_enum") if b["kind"] == "fn"]
    if len(bs) != 1:
        rep.undet("serde visit_enum/%s" % ty, ty, "%d such functions" % len(bs))
        return
    t = Tally()
    names, nums, raw = key_index(c, [q for k in ("visit_str", "visit_u64", "visit_bytes") for q in visitor(c, ty, k)
                                     if q["kind"] == "fn" and not in_enum(q)])
    Y, rs = c.run(bs[0], intr=serde_in())
    got = {}
    for st, v in rs:
        ids = {q.a[1] for q, z in st.facts.items() if isinstance(q, Term) and q.op == "is" and z is True and str(q.a[1]).startswith("__field")}
        if not is_ok(v):
            continue
        g = Fld(v, "0")
        if len(ids) == 1:
            if g.op == "agg":
                got.setdefault(list(ids)[0], set()).add(g.a[1])
            else:
                got.setdefault(list(ids)[0], set()).add(None)
    for vn, (kind, a, fs) in forms.items():
        if len(a) < 3 or a[1].op != "int" or a[2].op != "str":
            t.add(None, "variant %s written as %s" % (vn, kind))
            continue
        for how, to in (("number %d" % a[1].a[0], nums.get(a[1].a[0])), ("name %s" % a[2].a[0], names.get(a[2].a[0]))):
            if to is None:
                t.add(False if nums and names else None, "no variant is read for the %s" % how)
            elif to in got and None not in got[to] and got[to] != {vn}:
                t.add(False, "%s written under %s is read as %s" % (vn, how, sorted(got[to])))
            elif to not in got and kind != "struct_variant":
                t.add(None, "nothing read for %s" % to)
    rep.put(t.v, "serde visit_enum/%s" % ty, where(bs[0]), t.why)


@prop("C31", floor=3)
def bytes_of_roots(c, rep):
    S, A = Par("self"), Par("a0")
    for name, pat, want in (("into bytes", r"From<RootHash> for \[u8; 32\]>::from$", Fld(A, "0")),
                            ("from bytes", r"^<RootHash as std::convert::From<\[u8; 32\]>>::from$", Fields(**{"0": A})),
                            ("as bytes", r"^<RootHash as std::convert::AsRef<\[u8\]>>::as_ref$", Fld(S, "0"))):
        bs = [b for b in c.p.facts["bodies"] if re.search(pat, b["path"])]
        if len(bs) != 1:
            rep.undet("root hash/" + name, "RootHash", "no such conversion")
            continue
        X, rs = c.run(bs[0])
        table(rep, X, "root hash/" + name, where(bs[0]), rs, [Row("all", [], want)])

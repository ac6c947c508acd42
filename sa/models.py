"""Transfer functions for the standard-library operations the crate uses."""
import re
from terms import *
import terms as TM
import index as IX
from engine import implied, learn, assume, truth, State, head, unadv, Loop, Panic, Event

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


OV = ("Some", "None")
RV = ("Ok", "Err")


def pay(v, var):
    return Fld(As(v, var), "0")


# ---------------------------------------------------------------- identity-like
IDENT = [
    "std::clone::Clone::clone", "std::ops::Deref::deref", "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec",
    "std::slice::<impl [T]>::to_vec", "std::vec::Vec::<T, A>::as_slice", "std::option::Option::<T>::as_ref",
    "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied",
    "std::option::Option::<&mut T>::copied", "std::option::Option::<&mut T>::cloned",
    "std::option::Option::<T>::as_deref", "std::result::Result::<T, E>::as_ref",
    "std::hint::must_use", "anyhow::__private::must_use", "std::boxed::Box::<T>::new",
    "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new", "std::vec::Vec::<T, A>::into_boxed_slice",
    "std::array::<impl [T; N]>::as_slice", "std::slice::<impl [T]>::into_vec",
    "std::convert::identity", "std::hint::black_box",
    "std::slice::<impl [T]>::as_ref", "std::string::String::as_str", "std::string::String::as_bytes",
    "std::str::<impl str>::as_bytes",
]


@model(*IDENT)
def ident(c):
    return c.ret(c.val(0))


@model(*[l + "::" + n for l in ("parking_lot::lock_api::RwLock::<R, T>", "parking_lot::lock_api::Mutex::<R, T>")
         for n in ("read", "write", "lock", "get_mut", "into_inner", "new")])
def lock(c):
    """a lock is its content; a guard is a reference to it"""
    a = c.args[0]
    if c.f["name"] in ("new", "into_inner"):
        return c.ret(a)
    return c.ret(a if a.op == "ref" else T("ref", ("O", a), ()))


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut",
       "std::vec::Vec::<T, A>::as_mut_slice")
def deref_mut(c):
    a = c.args[0]
    if a.op == "ref":
        v = c.e.load(c.st, *a.a)
        if v.op == "ref":
            return c.ret(v)
        if v.op == "call" and "lock_api" in v.a[0] or v.op == "guard":
            return c.ret(T("ref", ("O", v), ()))
        return c.ret(a)
    return c.ret(a)


@model("std::convert::Into::into", "std::convert::From::from")
def into(c):
    f = c.f
    lb = c.e.local_body(c.fr, f)
    if lb:
        return None
    # Into::into resolves to the blanket impl: look for a local From impl by types
    a = c.args
    args = [c.e.subst(c.fr, x) for x in f["args"]]
    if f["path"].endswith("Into::into"):
        src, dst = args[0], args[1]
    else:
        dst, src = args[0], args[1]
    if src == dst:
        return c.ret(a[0])
    for im in c.e.p.impls:
        if im.get("trait", "") == "std::convert::From" and head(im["self"]) == head(dst) \
                and norm_ty(im["trait_ref"]).endswith("From<%s>>" % norm_ty(src)):
            for it in im["items"]:
                b = c.e.p.bodies.get(it)
                if b and b.get("name") == "from":
                    return c.e.call_body(c.st, c.fr, b, c.args, (), (c.sp, "from"))
    from engine import INTS
    if src in INTS and dst in INTS:
        return c.ret(a[0])
    if src == "bool" and dst in INTS:
        return c.ret(Int(int(a[0].a[0])) if a[0].op == "bool" else T("b2i", a[0]))
    if head(dst) == "std::vec::Vec" or head(src) in ("std::vec::Vec",) or head(dst) == "std::boxed::Box":
        return c.ret(c.val(0))
    return c.ret(Call("into<%s>" % head(dst), c.e.snap(c.st, c.val(0))))


def norm_ty(t):
    return re.sub(r"'\w+ ?", "", t).replace("<, ", "<")


# ---------------------------------------------------------------- booleans / comparison
@model("anyhow::__private::not", "std::ops::Not::not")
def not_(c):
    return c.ret(Not(c.val(0)))


@model("std::bool::<impl bool>::then_some")
def then_some(c):
    return [(s, Some(c.val(1)) if b else NONE) for s, b in c.e.branch(c.st, c.val(0))]


@model("std::bool::<impl bool>::then")
def then(c):
    out = []
    for s, b in c.e.branch(c.st, c.val(0)):
        if b:
            out += [(s2, Some(v)) for s2, v in c.inv(s, c.args[1], [])]
        else:
            out.append((s, NONE))
    return out


def canon(c, v, ty):
    h = head(ty)
    n = 0
    while h in TM.NEWTYPES and n < 4:
        f = TM.NEWTYPES[h]
        v = Fld(v, f)
        ad = c.e.p.adts.get(h)
        h = head(ad["variants"][0]["fields"][0]["ty"]) if ad else ""
        n += 1
    return v


def cmp_args(c):
    tys = c.argtys if c.argtys and c.argtys[0] else [c.selfty()] * 2
    a = canon(c, c.e.snap(c.st, c.val(0)), c.e.subst(c.fr, tys[0]))
    b = canon(c, c.e.snap(c.st, c.val(1)), c.e.subst(c.fr, tys[1]))
    return a, b


def tyargs(ty):
    """generic arguments of the outermost type"""
    ty = re.sub(r"&('\w+ |'\{erased\} )?(mut )?", "", ty.strip())
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        d += ch in "<([" and 1 or ch in ">)]" and -1 or 0
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def eq_fork(c, st, a, b, ty, depth=0):
    """-> [(state, term)]: equality with a constructed value, field by field"""
    ty = c.e.subst(c.fr, ty) if ty else ""
    if ty and depth:
        a, b = canon(c, a, ty), canon(c, b, ty)
    if a is b:
        return [(st, TRUE)]
    if b.op in ("agg", "tuple") and a.op not in ("agg", "tuple"):
        a, b = b, a
    if depth < 4 and a.op == "tuple" and (b.op != "tuple" or len(a.a[0]) == len(b.a[0])):
        return eq_fields(c, st, [(x, Fld(b, str(i)), "") for i, x in enumerate(a.a[0])], depth)
    if depth < 4 and a.op == "agg" and a.a[0] not in TM.NEWTYPES:
        if b.op == "agg" and b.a[1] != a.a[1]:
            return [(st, FALSE)]
        ad = c.e.p.adts.get(a.a[0])
        if a.a[1] in ("Some", "Ok", "Err") and len(a.a[3]) == 1:
            ta = tyargs(ty)
            ft = [ta[1 if a.a[1] == "Err" else 0]] if len(ta) > (a.a[1] == "Err") else [""]
            enum = True
        elif ad is not None and a.a[3]:
            var = [v for v in ad["variants"] if v["name"] == a.a[1]]
            ft = [f["ty"] for f in var[0]["fields"]] if var else []
            enum = len(ad["variants"]) > 1
        else:
            return [(st, Eq(a, b))]
        if len(ft) != len(a.a[3]) or enum and len(ft) == 0:
            return [(st, Eq(a, b))]
        if not enum or b.op == "agg":
            return eq_fields(c, st, [(x, Fld(b, n), t) for n, x, t in zip(a.a[2], a.a[3], ft)], depth)
        out = []
        for s, is_ in c.e.branch(st, Is(b, a.a[1])):
            if not is_:
                out.append((s, FALSE))
                continue
            w = As(b, a.a[1])
            out += eq_fields(c, s, [(x, Fld(w, n), t) for n, x, t in zip(a.a[2], a.a[3], ft)], depth)
        return out
    return [(st, Eq(a, b))]


def eq_fields(c, st, fields, depth):
    out, live = [], [(st, TRUE)]
    for i, (x, y, t) in enumerate(fields):
        nxt = []
        for s, _ in live:
            for s2, v in eq_fork(c, s, x, y, t, depth + 1):
                if v is FALSE:
                    out.append((s2, FALSE))
                elif i == len(fields) - 1:
                    out.append((s2, v))
                else:
                    for s3, t3 in c.e.branch(s2, v):
                        (nxt if t3 else out).append((s3, TRUE if t3 else FALSE))
        live = nxt
    return out if fields else [(st, TRUE)]


def eq_states(c):
    a, b = cmp_args(c)
    tys = c.argtys if c.argtys and c.argtys[0] else [c.selfty()] * 2
    return eq_fork(c, c.st, a, b, re.sub(r"&('\w+ |'\{erased\} )?(mut )?", "", c.e.subst(c.fr, tys[0]).strip()))


@model("std::cmp::PartialEq::eq")
def eq(c):
    return eq_states(c)


def eqv(c, a, b):
    # comparing against a constructor: test the tag
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[1] in ("Some", "Ok", "Err") and len(x.a[3]) == 1 and y.op != "agg":
            return T("bin", "Eq", *sorted((a, b)))
    return Eq(a, b)


@model("std::cmp::PartialEq::ne")
def ne(c):
    return [(s, Not(v)) for s, v in eq_states(c)]


@model("std::cmp::PartialOrd::lt")
def lt(c):
    a, b = cmp_args(c)
    return c.ret(Lt(a, b))


@model("std::cmp::PartialOrd::gt")
def gt(c):
    a, b = cmp_args(c)
    return c.ret(Lt(b, a))


@model("std::cmp::PartialOrd::le")
def le(c):
    a, b = cmp_args(c)
    return c.ret(Not(Lt(b, a)))


@model("std::cmp::PartialOrd::ge")
def ge(c):
    a, b = cmp_args(c)
    return c.ret(Not(Lt(a, b)))


@model("std::cmp::Ord::cmp")
def cmp(c):
    a, b = cmp_args(c)
    out = []
    for var, cond in (("Less", Lt(a, b)), ("Equal", Eq(a, b)), ("Greater", Lt(b, a))):
        s = c.st.clone()
        ok = assume(s.facts, cond, True)
        if ok and var != "Equal":
            ok = assume(s.facts, Eq(a, b), False)
        if ok and var == "Equal":
            ok = assume(s.facts, Lt(a, b), False) and assume(s.facts, Lt(b, a), False)
        if ok:
            out.append((s, Agg("std::cmp::Ordering", var, (), ())))
    return out


@model("std::cmp::PartialOrd::partial_cmp")
def pcmp(c):
    return [(s, Some(v)) for s, v in cmp(c)]


@model("std::cmp::min", "std::cmp::Ord::min")
def min_(c):
    a, b = c.val(0), c.val(1)
    if a.op == b.op == "int":
        return c.ret(Int(min(a.a[0], b.a[0])))
    return c.ret(T("min", *sorted((a, b))))


@model("std::cmp::max", "std::cmp::Ord::max")
def max_(c):
    a, b = c.val(0), c.val(1)
    if a.op == b.op == "int":
        return c.ret(Int(max(a.a[0], b.a[0])))
    return c.ret(T("max", *sorted((a, b))))


# ---------------------------------------------------------------- Option / Result
def on(c, v, var_names, handlers):
    """split v on its variant and run the handler of each"""
    out = []
    for s, var in c.e.cases(c.st, v, var_names):
        h = handlers[var]
        r = h(s, pay(v, var) if var not in ("None",) else None)
        out += r if isinstance(r, list) else [(s, r)]
    return out


@model("std::option::Option::<T>::map", "std::option::Option::<T>::and_then",
       "std::option::Option::<T>::is_some_and", "std::option::Option::<T>::is_none_or",
       "std::option::Option::<T>::inspect")
def omap(c):
    v = c.val(0)
    kind = c.f["name"]
    f = c.args[1]

    def some(s, x):
        if kind == "inspect":
            return [(s2, Some(x)) for s2, _ in c.inv(s, f, [x])]
        return [(s2, Some(y) if kind == "map" else y) for s2, y in c.inv(s, f, [x])]
    none = {"map": NONE, "and_then": NONE, "is_some_and": FALSE, "is_none_or": TRUE, "inspect": NONE}[kind]
    return on(c, v, OV, {"Some": some, "None": lambda s, x: none})


@model("std::option::Option::<T>::map_or", "std::option::Option::<T>::map_or_else")
def omap_or(c):
    v, d, f = c.val(0), c.args[1], c.args[2]
    lazy = c.f["name"] == "map_or_else"
    return on(c, v, OV, {"Some": lambda s, x: c.inv(s, f, [x]),
                         "None": lambda s, x: c.inv(s, d, []) if lazy else d})


@model("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else",
       "anyhow::Context::context", "anyhow::Context::with_context")
def ok_or(c):
    v = c.val(0)
    ty = c.selfty()
    if head(ty) == "std::result::Result":
        return on(c, v, RV, {"Ok": lambda s, x: Ok(x), "Err": lambda s, x: Err(T("err", "context"))})
    lazy = c.f["name"] == "ok_or_else"
    return on(c, v, OV, {"Some": lambda s, x: Ok(x),
                         "None": lambda s, x: Err(T("err", "none"))})


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect",
       "std::option::Option::<T>::unwrap_unchecked")
def unwrap(c):
    v = c.val(0)
    out = []
    for s, var in c.e.cases(c.st, v, OV):
        if var == "Some":
            out.append((s, pay(v, "Some")))
        else:
            c.panic(s, c.f["name"], [v])
    return out


@model("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def runwrap(c):
    v = c.val(0)
    out = []
    for s, var in c.e.cases(c.st, v, RV):
        if var == "Ok":
            out.append((s, pay(v, "Ok")))
        else:
            c.panic(s, c.f["name"], [v])
    return out


@model("std::option::Option::<T>::unwrap_or", "std::option::Option::<T>::unwrap_or_else",
       "std::option::Option::<T>::unwrap_or_default", "std::option::Option::<T>::or",
       "std::option::Option::<T>::or_else")
def unwrap_or(c):
    v = c.val(0)
    k = c.f["name"]

    def none(s, x):
        if k in ("unwrap_or", "or"):
            return c.args[1]
        if k == "unwrap_or_default":
            return default_of(c, c.e.subst(c.fr, c.f["args"][0]) if c.f["args"] else "")
        return c.inv(s, c.args[1], [])
    return on(c, v, OV, {"Some": lambda s, x: v if k in ("or", "or_else") and v.op != "agg" else (Some(x) if k in ("or", "or_else") else x),
                         "None": none})


@model("std::option::Option::<T>::is_some", "std::option::Option::<T>::is_none")
def is_some(c):
    v = c.val(0)
    b = var_is(v, "Some")
    return c.ret(b if c.f["name"] == "is_some" else Not(b))


def var_is(v, var):
    if v.op == "phi":
        rs = [Is(x, var) for x in v.a[0]]
        if all(r is rs[0] for r in rs):
            return rs[0]
    return Is(v, var)


@model("std::result::Result::<T, E>::is_ok", "std::result::Result::<T, E>::is_err")
def is_ok(c):
    v = c.val(0)
    out = []
    for s, var in c.e.cases(c.st, v, RV):
        out.append((s, Bool((var == "Ok") == (c.f["name"] == "is_ok"))))
    return out


@model("std::option::Option::<T>::filter")
def ofilter(c):
    v = c.val(0)

    def some(s, x):
        out = []
        for s2, b in c.inv(s, c.args[1], [x]):
            for s3, t in c.e.branch(s2, b):
                out.append((s3, Some(x) if t else NONE))
        return out
    return on(c, v, OV, {"Some": some, "None": lambda s, x: NONE})


@model("std::option::Option::<T>::zip")
def ozip(c):
    v, w = c.val(0), c.val(1)

    def some(s, x):
        out = []
        for s2, var in c.e.cases(s, w, OV):
            out.append((s2, Some(Tup(x, pay(w, "Some"))) if var == "Some" else NONE))
        return out
    return on(c, v, OV, {"Some": some, "None": lambda s, x: NONE})


@model("std::option::Option::<T>::take", "std::mem::take")
def otake(c):
    r = c.args[0]
    v = c.val(0)
    if r.op == "ref":
        nv = NONE if c.f["name"] == "take" and "Option" in c.f["path"] else default_of(c, c.e.subst(c.fr, c.f["args"][0]))
        c.e.store(c.st, r.a[0], r.a[1], nv)
    return c.ret(v)


@model("std::option::Option::<T>::replace", "std::mem::replace", "std::option::Option::<T>::insert")
def oreplace(c):
    r = c.args[0]
    v = c.val(0)
    nv = c.args[1]
    if "Option" in c.f["path"]:
        nv = Some(nv)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
        if c.f["name"] == "insert":
            return c.ret(T("ref", r.a[0], r.a[1] + (("v", "Some"), ("f", "0"))))
    return c.ret(v)


@model("std::mem::swap")
def swap(c):
    a, b = c.args
    va, vb = c.val(0), c.val(1)
    if a.op == "ref" and b.op == "ref":
        c.e.store(c.st, a.a[0], a.a[1], vb)
        c.e.store(c.st, b.a[0], b.a[1], va)
    return c.ret(UNIT)


@model("std::mem::drop")
def drop(c):
    return c.ret(UNIT)


@model("std::option::Option::<T>::as_mut")
def as_mut(c):
    r = c.args[0]
    v = c.val(0)
    if r.op != "ref":
        return c.ret(v)
    return on(c, v, OV, {"Some": lambda s, x: Some(T("ref", r.a[0], r.a[1] + (("v", "Some"), ("f", "0")))),
                         "None": lambda s, x: NONE})


@model("std::option::Option::<std::result::Result<T, E>>::transpose")
def otranspose(c):
    v = c.val(0)

    def some(s, x):
        out = []
        for s2, var in c.e.cases(s, x, RV):
            out.append((s2, Ok(Some(pay(x, "Ok"))) if var == "Ok" else Err(pay(x, "Err"))))
        return out
    return on(c, v, OV, {"Some": some, "None": lambda s, x: Ok(NONE)})


@model("std::option::Option::<std::option::Option<T>>::flatten")
def oflat(c):
    v = c.val(0)
    return on(c, v, OV, {"Some": lambda s, x: x, "None": lambda s, x: NONE})


@model("std::result::Result::<T, E>::map", "std::result::Result::<T, E>::and_then")
def rmap(c):
    v = c.val(0)
    k = c.f["name"]
    return on(c, v, RV, {"Ok": lambda s, x: [(s2, Ok(y) if k == "map" else y) for s2, y in c.inv(s, c.args[1], [x])],
                         "Err": lambda s, x: Err(x)})


@model("std::result::Result::<T, E>::map_err", "std::result::Result::<T, E>::or_else")
def rmap_err(c):
    v = c.val(0)
    k = c.f["name"]
    return on(c, v, RV, {"Ok": lambda s, x: Ok(x),
                         "Err": lambda s, x: [(s2, Err(y) if k == "map_err" else y) for s2, y in c.inv(s, c.args[1], [x])]})


@model("std::result::Result::<T, E>::or")
def r_or(c):
    return on(c, c.val(0), RV, {"Ok": lambda s, x: Ok(x), "Err": lambda s, x: c.val(1)})


@model("std::result::Result::<T, E>::ok", "std::result::Result::<T, E>::err")
def rok(c):
    v = c.val(0)
    k = c.f["name"]
    return on(c, v, RV, {"Ok": lambda s, x: Some(x) if k == "ok" else NONE,
                         "Err": lambda s, x: Some(x) if k == "err" else NONE})


@model("std::result::Result::<T, E>::unwrap_or", "std::result::Result::<T, E>::unwrap_or_else",
       "std::result::Result::<T, E>::unwrap_or_default")
def runwrap_or(c):
    v = c.val(0)
    k = c.f["name"]
    return on(c, v, RV, {"Ok": lambda s, x: x,
                         "Err": lambda s, x: c.args[1] if k == "unwrap_or" else (
                             default_of(c, c.e.subst(c.fr, c.f["args"][0])) if k.endswith("default")
                             else c.inv(s, c.args[1], [x]))})


CF = "std::ops::ControlFlow"


@model("std::ops::Try::branch")
def branch(c):
    v = c.val(0)
    h = head(c.selfty())
    if h == "std::option::Option":
        return on(c, v, OV, {"Some": lambda s, x: Agg(CF, "Continue", ("0",), (x,)),
                             "None": lambda s, x: Agg(CF, "Break", ("0",), (NONE,))})
    if h == "std::ops::ControlFlow":
        return c.ret(v)
    return on(c, v, RV, {"Ok": lambda s, x: Agg(CF, "Continue", ("0",), (x,)),
                         "Err": lambda s, x: Agg(CF, "Break", ("0",), (Err(x),))})


@model("std::ops::FromResidual::from_residual")
def from_residual(c):
    h = head(c.selfty())
    if h == "std::option::Option":
        return c.ret(NONE)
    v = c.val(0)
    if v.op == "agg" and v.a[1] == "None":
        return c.ret(NONE)
    return c.ret(Err(pay(v, "Err")))


@model("std::ops::Try::from_output")
def from_output(c):
    h = head(c.selfty())
    return c.ret(Some(c.args[0]) if h == "std::option::Option" else Ok(c.args[0]))


def default_of(c, ty):
    h = head(ty)
    from engine import INTS
    if h in INTS:
        return Int(0)
    if h == "bool":
        return FALSE
    if h == "std::option::Option":
        return NONE
    if h in CONTAINERS:
        return T("vec0") if h in VECS else T("map0", h)
    if h == "std::marker::PhantomData":
        return T("konst", "PhantomData")
    if h == "()":
        return UNIT
    m = re.match(r"^\[(.*); (\d+)\]$", ty)
    if m:
        return T("repeat", default_of(c, m.group(1)), int(m.group(2)))
    return Call("default<%s>" % h)


@model("std::default::Default::default")
def default(c):
    if c.e.local_body(c.fr, c.f):
        return None
    return c.ret(default_of(c, c.selfty()))


# ---------------------------------------------------------------- panics
@model("std::panicking::panic", "std::panicking::panic_fmt", "std::panicking::assert_failed",
       "std::panicking::unreachable_default_msg", "std::rt::begin_panic", "std::panicking::panic_display",
       "std::panicking::panic_explicit", "std::panicking::panic_const::panic_const_div_by_zero",
       "std::panicking::assert_failed_inner", "std::panicking::panic_nounwind",
       "std::rt::panic_fmt", "std::option::expect_failed", "std::option::unwrap_failed",
       "std::result::unwrap_failed", "std::panicking::panic_bounds_check")
def panic(c):
    c.panic(c.st, c.f["name"])
    return []


@model("mirai_annotations::mirai_assume", "mirai_annotations::mirai_precondition",
       "mirai_annotations::mirai_precondition_start", "mirai_annotations::mirai_verify")
def mirai(c):
    return c.ret(UNIT)


# ---------------------------------------------------------------- SimpleHasher
@model("SimpleHasher::new")
def h_new(c):
    return c.ret(T("hs", c.selfty(), ()))


def bytes_parts(t):
    """bytes put together from others, as the list of these"""
    if t.op == "vec0":
        return ()
    if t.op == "extended":
        b = t.a[1].a[0] if t.a[1].op == "iter" else t.a[1]
        return bytes_parts(t.a[0]) + bytes_parts(b)
    return (t,)


@model("std::slice::<impl [T]>::concat")
def concat(c):
    v = c.e.snap(c.st, c.val(0))
    if v.op != "array":
        return None
    t = T("vec0")
    for x in v.a[0]:
        t = T("extended", t, c.e.snap(c.st, x))
    return c.ret(t)


@model("SimpleHasher::update")
def h_update(c):
    r = c.args[0]
    v = c.val(0)
    d = c.e.snap(c.st, c.val(1))
    if v.op == "hs":
        nv = T("hs", v.a[0], v.a[1] + bytes_parts(d))
    else:
        nv = T("hsx", v, d)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
    return c.ret(UNIT)


@model("SimpleHasher::finalize")
def h_final(c):
    v = c.val(0)
    if v.op == "hs":
        return c.ret(T("hash", v.a[0], v.a[1]))
    return c.ret(T("hashx", v))


# ---------------------------------------------------------------- containers
VECS = {"std::vec::Vec", "std::collections::VecDeque"}
CONTAINERS = VECS | {"std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet",
                     "std::collections::BTreeSet", "std::string::String"}


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity_in",
       "std::collections::VecDeque::<T>::new")
def vec_new(c):
    return c.ret(T("vec0"))


@model("std::collections::HashMap::<K, V>::new", "std::collections::BTreeMap::<K, V>::new",
       "std::collections::HashSet::<T>::new", "std::collections::BTreeSet::<T>::new",
       "std::collections::HashMap::<K, V>::with_capacity")
def map_new(c):
    return c.ret(T("map0", head(c.selfty())))


@model("std::vec::Vec::<T, A>::push")
def vec_push(c):
    r = c.args[0]
    v = c.val(0)
    x = c.e.snap(c.st, c.args[1])
    c.e.events.append(Event(name="std::vec::Vec::push", args=(v, x), facts=dict(c.st.facts), did=c.st.did,
                            site=c.sp, stack=c.fr.stack(), res=UNIT, callee=c.f, pre=c.args, tys=c.argtys))
    nv = T("pushed", v, x)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
    else:
        c.st.env[("O", r)] = nv
    return c.ret(UNIT)


@model("std::vec::Vec::<T, A>::len", "std::slice::<impl [T]>::len", "std::iter::ExactSizeIterator::len",
       "std::collections::HashMap::<K, V, S, A>::len", "std::collections::BTreeMap::<K, V, A>::len",
       "std::collections::HashSet::<T, S, A>::len", "std::collections::BTreeSet::<T, A>::len",
       "std::str::<impl str>::len", "std::string::String::len")
def len_(c):
    return c.ret(Len(iterlen(c.e.snap(c.st, c.val(0)))))


def iterlen(v):
    while v.op in ("iter", "rev", "enum"):
        v = v.a[0]
    return v


@model("std::vec::Vec::<T, A>::is_empty", "std::slice::<impl [T]>::is_empty",
       "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::BTreeMap::<K, V, A>::is_empty",
       "std::collections::HashSet::<T, S, A>::is_empty", "std::collections::BTreeSet::<T, A>::is_empty",
       "std::str::<impl str>::is_empty", "std::string::String::is_empty", "std::iter::ExactSizeIterator::is_empty")
def is_empty(c):
    return c.ret(Eq(Len(iterlen(c.e.snap(c.st, c.val(0)))), Int(0)))


@model("std::vec::Vec::<T, A>::pop")
def vec_pop(c):
    r = c.args[0]
    v = c.val(0)
    if v.op == "pushed":
        if r.op == "ref":
            c.e.store(c.st, r.a[0], r.a[1], v.a[0])
        return c.ret(Some(v.a[1]))
    if v.op == "vec0":
        return c.ret(NONE)
    out = []
    for s, b in c.e.branch(c.st, Eq(Len(v), Int(0))):
        if b:
            out.append((s, NONE))
        else:
            if r.op == "ref":
                c.e.store(s, r.a[0], r.a[1], T("popped", v))
            else:
                s.env[("O", r)] = T("popped", v)
            out.append((s, Some(lastof(v))))
    return out


def lastof(v):
    n = Len(v)
    return Idx(v, Int(n.a[0] - 1)) if n.op == "int" and n.a[0] > 0 else T("lastof", v)


@model("std::slice::<impl [T]>::last", "std::slice::<impl [T]>::first")
def last(c):
    v = c.e.snap(c.st, c.val(0))
    if v.op == "pushed" and c.f["name"] == "last":
        return c.ret(Some(v.a[1]))
    if v.op == "vec0":
        return c.ret(NONE)
    out = []
    for s, b in c.e.branch(c.st, Eq(Len(v), Int(0))):
        out.append((s, NONE if b else Some(lastof(v) if c.f["name"] == "last" else T("firstof", v))))
    return out


def lastidx(v):
    return Sub(Len(v), Int(1)) if v.op in ("pushed", "array") or Len(v).op == "int" else T("lastidx", v)


@model("std::slice::<impl [T]>::last_mut", "std::slice::<impl [T]>::first_mut")
def last_mut(c):
    r = c.args[0]
    v = c.val(0)
    out = []
    for s, b in c.e.branch(c.st, Eq(Len(v), Int(0))):
        if b:
            out.append((s, NONE))
        elif r.op == "ref":
            out.append((s, Some(T("ref", r.a[0], r.a[1] + (("i", lastidx(v) if c.f["name"] == "last_mut" else Int(0)),)))))
        else:
            out.append((s, Some(lastof(v))))
    return out


def coll_kind(ty):
    h = head(ty)
    if h in VECS:
        return "vec"
    n = h.split("::")[-1]
    return "map" if n in ("HashMap", "BTreeMap") else "set" if n in ("HashSet", "BTreeSet") else None


@model("std::vec::Vec::<T, A>::append", "std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice",
       "std::vec::Vec::<T, A>::resize", "std::vec::Vec::<T, A>::truncate", "std::slice::<impl [T]>::reverse",
       "std::vec::Vec::<T, A>::clear", "std::vec::Vec::<T, A>::insert",
       "std::collections::BTreeMap::<K, V, A>::clear", "std::collections::HashMap::<K, V, S, A>::clear",
       "std::collections::BTreeSet::<T, A>::clear", "std::collections::HashSet::<T, S, A>::clear",
       "std::vec::Vec::<T, A>::reserve", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by_key",
       "std::slice::<impl [T]>::sort_unstable", "std::vec::Vec::<T, A>::dedup", "std::vec::Vec::<T, A>::dedup_by_key",
       "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort_by",
       "std::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::copy_from_slice",
       "std::slice::<impl [T]>::clone_from_slice")
def vec_mut(c):
    r = c.args[0]
    v = c.val(0)
    name = c.f["name"]
    if name in ("reserve",):
        return c.ret(UNIT)
    snaps = tuple(c.e.snap(c.st, a) for a in c.args)
    c.e.events.append(Event(name="Vec::" + name, args=snaps, facts=dict(c.st.facts), did=c.st.did,
                            site=c.sp, stack=c.fr.stack(), res=UNIT, callee=c.f, pre=c.args, tys=c.argtys))
    if name == "reverse":
        nv = v.a[0] if v.op == "reversed" else T("reversed", v)
    elif name == "clear":
        nv = T("vec0") if head(c.selfty()) in VECS else T("map0", head(c.selfty()))
    elif name == "extend" and snaps[1].op in LAZY and snaps[1].op not in ("zip", "enum") and coll_kind(c.selfty()):
        kind = coll_kind(c.selfty())
        fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
        acc = ("L", fid, "acc")

        def body(s, e):
            e = c.e.snap(s, e)
            if kind == "vec":
                s.env[acc] = T("pushed", s.env[acc], e)
            else:
                kv = (e, UNIT) if kind == "set" else (Fld(e, "0"), Fld(e, "1"))
                s.did = s.did | {T("did", kind.capitalize() + "::insert", *kv)}
                s.env[acc] = T("mapset", s.env[acc], *kv)
            return [(s, "cont", None)]
        exits, fid2, uid, _ = consume(c, snaps[1], body, {"acc": v}, kind="extend")
        res = []
        for s, p in exits:
            nv = s.env[acc]
            cleanup(s, fid2)
            if r.op == "ref":
                c.e.store(s, r.a[0], r.a[1], nv)
            else:
                s.env[("O", r)] = nv
            res.append((s, UNIT))
        return res
    elif name in ("append", "extend", "extend_from_slice"):
        nv = T("extended", v, snaps[1])
        if name == "append" and c.args[1].op == "ref":
            c.e.store(c.st, c.args[1].a[0], c.args[1].a[1], T("vec0"))
    elif name == "insert" and inserted(v, snaps[1], snaps[2]) is not None:
        nv = inserted(v, snaps[1], snaps[2])
    else:
        nv = T("vecop", name, snaps)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
    else:
        c.st.env[("O", r)] = nv
    return c.ret(UNIT)


def inserted(v, i, x):
    """an element inserted into an explicitly built sequence"""
    es, t = [], v
    while t.op == "pushed":
        es.append(t.a[1])
        t = t.a[0]
    if t.op == "array":
        es += list(t.a[0])[::-1]
    elif t.op != "vec0":
        return None
    es = es[::-1]
    if i.op != "int" or i.a[0] > len(es):
        return None
    es.insert(i.a[0], x)
    t = T("vec0")
    for e in es:
        t = T("pushed", t, e)
    return t


@model("std::ops::Index::index")
def index(c):
    v = c.e.snap(c.st, c.val(0))
    i = c.val(1)
    ity = c.argtys[1] if c.argtys and len(c.argtys) > 1 else ""
    if i.op == "agg" and i.a[0].startswith("std::ops::Range") or i.op == "call" and "RangeInclusive" in i.a[0]:
        slice_bound(c, v, i)
        return c.ret(slice_(v, i))
    if i.op == "konst" and "RangeFull" in str(i.a[0]):
        return c.ret(v)
    if "RangeFull" in ity:
        return c.ret(v)
    h = head(c.selfty())
    if h in ("std::collections::HashMap", "std::collections::BTreeMap"):
        g = map_lookup(c, v, c.e.snap(c.st, i))
        if g.op == "agg" and g.a[1] == "Some":
            return c.ret(g.a[3][0])
        out = []
        for s, var in c.e.cases(c.st, g, OV):
            if var == "Some":
                out.append((s, pay(g, "Some")))
            else:
                c.panic(s, "index", [v, i])
        return out
    bound(c, v, i)
    return c.ret(Idx(v, i))


def bound(c, v, i):
    ok = Lt(i, Len(v))
    if truth(c.st.facts, ok) is not True:
        c.panic(c.st, "bounds", [Len(v), i])
        assume(c.st.facts, ok, True)


def slice_bound(c, v, r):
    if r.op != "agg":
        return
    f = dict(zip(r.a[2], r.a[3]))
    a, b = f.get("start", Int(0)), f.get("end")
    for kind, x, y in [("slice", a, b if b is not None else Len(v))] + ([("slice", b, Len(v))] if b is not None else []):
        bad = Lt(y, x)
        t = truth(c.st.facts, bad)
        if t is not False:
            c.panic(c.st, kind, [y, x])
            assume(c.st.facts, bad, False)


def slice_(v, r):
    if r.op == "agg":
        n = r.a[0].rsplit("::", 1)[1]
        f = dict(zip(r.a[2], r.a[3]))
        if n == "RangeFull":
            return v
        if n in ("Range", "RangeFrom", "RangeTo"):
            return Slice(v, f.get("start", Int(0)), f.get("end", Len(v)))
        if n in ("RangeInclusive", "RangeToInclusive"):
            return Slice(v, f.get("start", Int(0)), Add(f["end"], Int(1)))
    return T("slicer", v, r)


@model("std::slice::<impl [T]>::split_at")
def split_at(c):
    v, i = c.e.snap(c.st, c.val(0)), c.val(1)
    rng = lambda n, f: Agg("std::ops::" + n, n, (f,), (i,))
    slice_bound(c, v, rng("RangeTo", "end"))
    return c.ret(Tup(slice_(v, rng("RangeTo", "end")), slice_(v, rng("RangeFrom", "start"))))


@model("std::ops::IndexMut::index_mut")
def index_mut(c):
    r = c.args[0]
    v = c.val(0)
    i = c.val(1)
    if r.op == "ref" and not (i.op == "agg" and "Range" in i.a[0]):
        bound(c, v, i)
        return c.ret(T("ref", r.a[0], r.a[1] + (("i", i),)))
    return None


@model("std::slice::<impl [T]>::get")
def slice_get(c):
    v = c.e.snap(c.st, c.val(0))
    i = c.val(1)
    if i.op == "agg" and "Range" in i.a[0]:
        return c.ret(Call("slice::get", v, i))
    return [(s, Some(Idx(v, i)) if b else NONE) for s, b in c.e.branch(c.st, Lt(i, Len(v)))]


MAPT = ("std::collections::HashMap::<K, V, S, A>", "std::collections::BTreeMap::<K, V, A>",
        "std::collections::HashSet::<T, S, A>", "std::collections::BTreeSet::<T, A>")


@model(*[m + "::" + n for m in MAPT for n in ("get", "contains_key", "contains")])
def map_get(c):
    m, k = c.e.snap(c.st, c.val(0)), c.e.snap(c.st, c.val(1))
    t = c.st
    g = map_lookup(c, m, k)
    if c.f["name"] == "get":
        return c.ret(g)
    return c.ret(Is(g, "Some"))


def map_lookup(c, m, k):
    if m.op == "map0":
        return NONE
    if m.op == "mapset":
        e = Eq(m.a[1], k)
        if m.a[1] is k:
            return Some(m.a[2])
        if e is FALSE or truth(c.st.facts, e) is False:
            return map_lookup(c, m.a[0], k)
    if m.op == "mapdel" and m.a[1] is k:
        return NONE
    return Call("get", m, k)


@model(*[m + "::insert" for m in MAPT])
def map_insert(c):
    r = c.args[0]
    m = c.val(0)
    k = c.e.snap(c.st, c.args[1])
    v = c.e.snap(c.st, c.args[2]) if len(c.args) > 2 else UNIT
    g = map_lookup(c, m, k)
    nm = ("Set::insert" if len(c.args) == 2 else "Map::insert")
    ev = Event(name=nm, args=(m, k, v), facts=dict(c.st.facts), did=c.st.did, site=c.sp,
               stack=c.fr.stack(), res=g, callee=c.f, pre=c.args, tys=c.argtys)
    c.e.events.append(ev)
    c.st.did = c.st.did | {T("did", nm, k, v)}
    nv = T("mapset", m, k, v)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
    else:
        c.st.env[("O", r)] = nv
    return c.ret(g if len(c.args) > 2 else Not(Is(g, "Some")))


@model(*[m + "::remove" for m in MAPT])
def map_remove(c):
    r = c.args[0]
    m = c.val(0)
    k = c.e.snap(c.st, c.args[1])
    g = map_lookup(c, m, k)
    c.e.events.append(Event(name="Map::remove", args=(m, k), facts=dict(c.st.facts), did=c.st.did, site=c.sp,
                            stack=c.fr.stack(), res=g, callee=c.f, pre=c.args, tys=c.argtys))
    nv = m.a[0] if m.op == "mapset" and m.a[1] is k and m.a[0].op == "map0" else T("mapdel", m, k)
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], nv)
    else:
        c.st.env[("O", r)] = nv
    is_set = "Set" in c.f["path"]
    return c.ret(Is(g, "Some") if is_set else g)


ENTRY = {"std::collections::HashMap::<K, V, S, A>": "std::collections::hash_map", "std::collections::BTreeMap::<K, V, A>": "std::collections::btree_map"}
ENT = [(h + "::" + e, e) for h, g in (("std::collections::hash_map", "<'a, K, V, A>"), ("std::collections::btree_map", "<'a, K, V, A>"))
       for e in ("VacantEntry::" + g, "OccupiedEntry::" + g, "Entry::" + g)]


@model(*[m + "::entry" for m in ENTRY])
def map_entry(c):
    r = c.args[0]
    m = c.e.snap(c.st, c.val(0))
    k = c.e.snap(c.st, c.args[1])
    home = "std::collections::hash_map::Entry" if "HashMap" in c.f["path"] else "std::collections::btree_map::Entry"
    ent = T("entryref", r, k)
    out = []
    for s, var in c.e.cases(c.st, map_lookup(c, m, k), OV):
        out.append((s, Agg(home, "Occupied" if var == "Some" else "Vacant", ("0",), (ent,))))
    return out


def entry_ref(c):
    x = c.val(0)
    if x.op != "entryref":
        x = c.e.snap(c.st, c.args[0])
    return x if x.op == "entryref" else None


@model(*[p + "::key" for p, _ in ENT])
def entry_key(c):
    x = entry_ref(c)
    if x is None:
        return None
    return c.ret(x.a[1])


@model(*[p + "::get" for p, e in ENT if e.startswith("Occ")])
def entry_get(c):
    x = entry_ref(c)
    if x is None:
        return None
    m = c.e.snap(c.st, c.e.deref(c.st, x.a[0]))
    return c.ret(pay(map_lookup(c, m, x.a[1]), "Some"))


def slot(r, k):
    return T("ref", r.a[0], r.a[1] + (("m", k),))


@model(*[p + "::" + n for p, e in ENT for n in ("get_mut", "into_mut") if e.startswith("Occ")])
def entry_mut(c):
    x = entry_ref(c)
    if x is None or x.a[0].op != "ref":
        return None
    return c.ret(slot(*x.a))


@model(*[p + "::" + n for p, e in ENT for n in ("or_insert", "or_default", "or_insert_with") if e.startswith("Entry")])
def entry_or(c):
    e = c.val(0)
    x = Fld(e, "0") if e.op == "agg" else e
    if x.op != "entryref" or x.a[0].op != "ref":
        return None
    r, k = x.a
    out = []
    if e.a[1] == "Occupied":
        return c.ret(slot(r, k))
    if c.f["name"] == "or_insert":
        vals = [(c.st, c.e.snap(c.st, c.args[1]))]
    elif c.f["name"] == "or_insert_with":
        vals = c.inv(c.st, c.args[1], [])
    else:
        return None
    for s, v in vals:
        m = c.e.snap(s, c.e.deref(s, r))
        s.did = s.did | {T("did", "Map::insert", k, v)}
        c.e.store(s, r.a[0], r.a[1], T("mapset", m, k, v))
        out.append((s, slot(r, k)))
    return out


@model(*[m + "::get_mut" for m in ENTRY])
def map_get_mut(c):
    r = c.args[0]
    m, k = c.e.snap(c.st, c.val(0)), c.e.snap(c.st, c.val(1))
    if r.op != "ref":
        r = T("ref", ("O", r), ())
    return [(s, Some(slot(r, k)) if var == "Some" else NONE) for s, var in c.e.cases(c.st, map_lookup(c, m, k), OV)]


@model(*[p + "::insert" for p, e in ENT if e[:3] in ("Occ", "Vac")])
def entry_insert(c):
    x = entry_ref(c)
    if x is None or x.a[0].op != "ref":
        return None
    r = x.a[0]
    m = c.e.snap(c.st, c.e.deref(c.st, r))
    v = c.e.snap(c.st, c.args[1])
    old = map_lookup(c, m, x.a[1])
    nv = T("mapset", m, x.a[1], v)
    c.st.did = c.st.did | {T("did", "Map::insert", x.a[1], v)}
    c.e.store(c.st, r.a[0], r.a[1], nv)
    return c.ret(pay(old, "Some") if "Occupied" in c.f["path"] else slot(r, x.a[1]))


@model(*[m + "::drain" for m in MAPT], "std::vec::Vec::<T, A>::drain")
def drain(c):
    r = c.args[0]
    v = c.val(0)
    snap = c.e.snap(c.st, v)
    full = len(c.args) == 1
    if not full and "RangeFull" in " ".join(str(x) for x in (c.argtys or ())[1:2]):
        if r.op == "ref":
            c.e.store(c.st, r.a[0], r.a[1], T("vec0"))
        return c.ret(T("iter", snap))
    if r.op == "ref":
        c.e.store(c.st, r.a[0], r.a[1], T("map0", "drained") if full else T("vecop", "drain", (snap, c.val(1))))
    if full:
        return c.ret(T("iter", snap))
    return c.ret(T("iter", T("drained", snap, c.val(1))))


@model("std::boxed::Box::<T>::new_uninit")
def box_uninit(c):
    b = T("boxobj", c.fr.fid, repr(c.sp))
    c.st.env[("O", b)] = T("uninit", ("B",))
    return c.ret(T("ref", ("O", b), ()))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(c):
    v = c.val(0)
    # MaybeUninit{value: ManuallyDrop{value: MaybeDangling(arr)}}
    n = 0
    while v.op == "upd" and n < 6:
        v = v.a[2]
        n += 1
    return c.ret(arr_to_vec(v))


def arr_to_vec(v):
    return v


# ---------------------------------------------------------------- Range / iterators
@model("std::ops::RangeInclusive::<Idx>::new")
def range_incl(c):
    return c.ret(Agg("std::ops::RangeInclusive", "RangeInclusive", ("start", "end"), (c.val(0), c.val(1))))


ITERS = ("iter", "rev", "zip", "enum", "map", "filter", "filter_map", "skip", "take", "takewhile", "chain",
         "peek", "itpos", "adv", "flatmap", "stepby")


def is_iter(v, ty=""):
    return v.op in ITERS or v.op == "agg" and v.a[0].startswith("std::ops::Range")


@model("std::slice::<impl [T]>::iter", "std::collections::BTreeMap::<K, V, A>::iter",
       "std::collections::HashMap::<K, V, S, A>::iter", "std::collections::BTreeSet::<T, A>::iter",
       "std::collections::HashSet::<T, S, A>::iter", "std::slice::<impl [T]>::iter_mut",
       "std::collections::BTreeMap::<K, V, A>::iter_mut", "std::collections::HashMap::<K, V, S, A>::iter_mut",
       "std::option::Option::<T>::iter", "std::collections::HashMap::<K, V, S, A>::into_iter")
def mk_iter(c):
    if c.f["name"] == "iter_mut" and c.args[0].op == "ref":
        return c.ret(T("itermut", c.args[0], c.val(0)))
    return c.ret(T("iter", c.e.snap(c.st, c.val(0))))


@model("std::collections::BTreeMap::<K, V, A>::values", "std::collections::HashMap::<K, V, S, A>::values",
       "std::collections::BTreeMap::<K, V, A>::keys", "std::collections::HashMap::<K, V, S, A>::keys",
       "std::collections::BTreeMap::<K, V, A>::into_values", "std::collections::BTreeMap::<K, V, A>::into_keys",
       "std::collections::HashMap::<K, V, S, A>::into_values", "std::collections::HashMap::<K, V, S, A>::into_keys")
def mk_iter_kv(c):
    which = "1" if "values" in c.f["name"] else "0"
    return c.ret(T("proj", T("iter", c.e.snap(c.st, c.val(0))), which))


@model("std::iter::IntoIterator::into_iter")
def into_iter(c):
    v = c.val(0)
    h = head(c.selfty())
    if is_iter(v) or v.op in ("itermut", "proj"):
        return c.ret(v)
    if c.args[0].op == "ref" and c.selfty().startswith("&mut"):
        if h in CONTAINERS or h.startswith("["):
            return c.ret(T("itermut", c.args[0], v))
    if h in CONTAINERS or h.startswith("[") or h == "std::option::Option" or v.op in ("array", "vec0", "pushed"):
        return c.ret(T("iter", c.e.snap(c.st, v)))
    return c.ret(c.args[0] if c.args[0].op == "ref" else v)


@model("std::iter::Iterator::rev", "std::iter::Iterator::enumerate", "std::iter::Iterator::peekable",
       "std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::by_ref",
       "std::iter::Iterator::fuse")
def adapt1(c):
    v = c.val(0)
    n = c.f["name"]
    if n in ("cloned", "copied", "peekable", "fuse"):
        return c.ret(v)
    if n == "by_ref":
        return c.ret(c.args[0])
    if n == "rev":
        if v.op == "rev":
            return c.ret(v.a[0])
        return c.ret(Rev(v))
    return c.ret(T("enum", v))


def Rev(v):
    if v.op == "rev":
        return v.a[0]
    if v.op == "map":
        return T("map", Rev(v.a[0]), v.a[1])
    if v.op == "take" and Len(v.a[0]).op == "int":
        # last n of a sequence of known length, reversed
        return T("skip", Rev(v.a[0]), Sub(Len(v.a[0]), v.a[1]))
    if v.op == "skip" and Len(v.a[0]).op == "int":
        return T("take", Rev(v.a[0]), Sub(Len(v.a[0]), v.a[1]))
    if v.op == "iter" and v.a[0].op == "slice" and v.a[0].a[0].op == "bits" and v.a[0].a[1] is Int(0):
        return Rev(T("take", T("iter", v.a[0].a[0]), v.a[0].a[2]))
    return T("rev", v)


# the crate's own bit view of a 32-byte value; its primitives are checked separately (rule BITS)
@model("bytes32ext::Bytes32Ext::iter_bits")
def iter_bits(c):
    return c.ret(T("iter", T("bits", c.val(0))))


@model("bytes32ext::Bytes32Ext::common_prefix_bits_len")
def cpl(c):
    t = T("cpl", *sorted((c.val(0), c.val(1))))
    c.st.facts.setdefault(("bnd", t), (0, 256))
    if implied(c.st.facts, Eq(*t.a)) is False:
        c.st.facts[("bnd", t)] = (0, 255)
    return c.ret(t)


def implied_le(facts, x, y):
    from engine import truth
    return truth(facts, Le(x, y)) is True


@model("std::iter::Iterator::zip", "itertools::zip_eq", "std::iter::zip", "std::iter::Iterator::chain",
       "itertools::Itertools::zip_eq")
def adapt2(c):
    a, b = c.val(0), c.val(1)
    a = mkit(c, a, 0)
    b = mkit(c, b, 1)
    n = c.f["name"]
    if n == "zip" and a.op == "agg" and a.a[0].startswith("std::ops::Range"):
        # numbered elements
        f = dict(zip(a.a[2], a.a[3]))
        k = IX.lengths(b)
        r = IX.rng(a)
        if f.get("start") is Int(0) and (r is None and "RangeFrom" in a.a[0] or r is not None and k and any(
                implied_le(c.st.facts, x, r[1]) for x in k)):
            return c.ret(T("enum", b))
    if n == "zip_eq":
        c.e.notes.append(("zip_eq", a, b))
        return c.ret(T("zip", a, b, "eq"))
    return c.ret(T("zip" if n == "zip" else "chain", a, b, ""))


def mkit(c, v, i=0):
    if is_iter(v) or v.op in ("itermut", "proj"):
        return v
    ty = c.e.subst(c.fr, c.argtys[i]) if c.argtys and i < len(c.argtys) else ""
    h = head(ty)
    if h in CONTAINERS or h.startswith("[") or h == "std::option::Option":
        return T("iter", c.e.snap(c.st, v))
    return v


@model("std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::step_by")
def adaptn(c):
    n = c.f["name"]
    v, k = c.val(0), c.val(1)
    if n == "skip" and k.op == "int" and k.a[0] == 0:
        return c.ret(v)
    return c.ret(T({"skip": "skip", "take": "take", "step_by": "stepby"}[n], v, k))


@model("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map",
       "std::iter::Iterator::take_while", "std::iter::Iterator::skip_while", "std::iter::Iterator::flat_map",
       "std::iter::Iterator::inspect", "std::iter::Iterator::map_while", "std::iter::Iterator::scan")
def adaptf(c):
    n = {"take_while": "takewhile", "skip_while": "skipwhile", "flat_map": "flatmap"}.get(c.f["name"], c.f["name"])
    if n == "scan":
        return None
    return c.ret(T(n, c.val(0), c.args[1]))


def elem(c, s, x, k, gen):
    """-> [(state, element term)] of iterator description x; k-th next call; gen: inside a loop"""
    o = x.op
    if o == "zip":
        out = []
        for s1, a in elem(c, s, x.a[0], k, gen):
            for s2, b in elem(c, s1, x.a[1], k, gen):
                out.append((s2, Tup(a, b)))
        return out
    if not gen:
        cs = const_seq(x)
        if cs is not None and k < cs[0]:
            return [(s, cs[1](k))]
        if o in ("filter", "filter_map", "skipwhile"):
            # the k-th element that passes, not the k-th of the underlying sequence
            gen = T("fgen", c.e.snap(s, x), k)
            k = 0
    if o == "enum":
        gf = gen is not False and gen is not True and gen.op == "fgen"
        pos = T("ipos", x.a[0], k, gen) if gf else T("ipos", x.a[0], k) if gen else Int(k)
        out = [(s1, Tup(pos, a)) for s1, a in elem(c, s, x.a[0], k, gen)]
        if gen and not gf:
            # a position there is an element at
            for s1, _ in out:
                if ("bnd", pos) not in s1.facts:
                    s1.facts[("bnd", pos)] = (0, None)
                for n in IX.lengths(x.a[0]) or ():
                    assume(s1.facts, Lt(Int(k), n), True)
                    assume(s1.facts, Lt(pos, n), True)
        return out
    if o == "proj":
        return [(s1, Fld(a, x.a[1])) for s1, a in elem(c, s, x.a[0], k, gen)]
    if o == "map":
        out = []
        for s1, a in elem(c, s, x.a[0], k, gen):
            out += c.inv(s1, x.a[1], [a])
        return out
    if o in ("filter", "takewhile"):
        out = []
        for s1, a in elem(c, s, x.a[0], k, gen):
            for s2, b in c.inv(s1, x.a[1], [a]):
                for s3, t in c.e.branch(s2, b):
                    if t:
                        out.append((s3, a))
                    else:
                        c.e.passed(gen, o, s3)
        return out
    if o in ("filter_map", "map_while"):
        out = []
        for s1, a in elem(c, s, x.a[0], k, gen):
            for s2, b in c.inv(s1, x.a[1], [a]):
                for s3, var in c.e.cases(s2, b, OV):
                    if var == "Some":
                        out.append((s3, pay(b, "Some")))
                    else:
                        c.e.passed(gen, o, s3)
        return out
    if o == "chain":
        out = []
        for y in (x.a[0], x.a[1]):
            out += elem(c, s.clone(), y, k, gen)
        return out
    if o == "itermut":
        return [(s, T("ref", x.a[0].a[0], x.a[0].a[1] + (("i", T("ielem", x.a[1], k)),)))]
    if o == "itpos" and gen and gen is not x.a[1]:
        # a later loop continues from where another one stopped: its elements are not the current one
        b, u = x.a
        if b.op == "zip":
            return elem(c, s, T("zip", T("itpos", b.a[0], u), T("itpos", b.a[1], u), *b.a[2:]), k, gen)
        if b.op in ("map", "filter", "filter_map", "takewhile", "map_while", "proj"):
            return elem(c, s, T(b.op, T("itpos", b.a[0], u), *b.a[1:]), k, gen)
    elif o == "itpos":
        return elem(c, s, x.a[0], k, x.a[1])
    if o == "take" or o == "skip" and gen:
        pass
    if o == "iter" and x.a[0].op == "array" and not gen and k < len(x.a[0].a[0]):
        return [(s, x.a[0].a[0][k])]
    if o in ("skip", "take") and x.a[0].op in ("zip", "enum", "map"):
        # push the slice below the structure-preserving adaptor
        inner = x.a[0]
        if inner.op == "zip":
            y = T("zip", T(o, inner.a[0], x.a[1]), T(o, inner.a[1], x.a[1]), "")
            return elem(c, s, y, k, gen)
        if inner.op == "map":
            return elem(c, s, T("map", T(o, inner.a[0], x.a[1]), inner.a[1]), k, gen)
    if o == "rev" and x.a[0].op == "map":
        return elem(c, s, T("map", T("rev", x.a[0].a[0]), x.a[0].a[1]), k, gen)
    e = T("elem", x, k, gen) if gen else T("nth", x, k)
    base = x
    while base.op in ("rev", "skip", "take", "stepby"):
        base = base.a[0]
    if base.op == "agg" and base.a[0].startswith("std::ops::Range"):
        f = dict(zip(base.a[2], base.a[3]))
        if "start" in f:
            assume(s.facts, Le(f["start"], e), True)
        if "end" in f:
            assume(s.facts, Lt(e, f["end"]) if base.a[0].endswith("::Range") else Le(e, f["end"]), True)
    return [(s, e)]


def const_seq(x):
    """(length, k -> element) of an iterator over a constant range or a literal array, else None"""
    o = x.op
    if o == "agg" and x.a[0] in ("std::ops::Range", "std::ops::RangeInclusive"):
        f = dict(zip(x.a[2], x.a[3]))
        a, b = f.get("start"), f.get("end")
        d = Sub(b, a) if a is not None and b is not None else None
        if d is None or d.op != "int" or d.a[0] > 64 and a.op != "int":
            return None
        n = max(0, d.a[0] + (1 if x.a[0].endswith("Inclusive") else 0))
        return n, lambda k: Add(a, Int(k))
    if o == "take" and x.a[0].op == "iter" and x.a[0].a[0].op == "forever" and x.a[1].op == "int" and x.a[1].a[0] <= 64:
        return x.a[1].a[0], lambda k: x.a[0].a[0].a[0]
    if o == "iter":
        y = x.a[0]
        if y.op == "array":
            return len(y.a[0]), lambda k: y.a[0][k]
        if y.op == "repeat" and isinstance(y.a[1], int) and y.a[1] <= 64:
            return y.a[1], lambda k: y.a[0]
        if y.op == "vec0":
            return 0, None
        if y.op == "bytes":
            bs = bytes.fromhex(y.a[0])
            return len(bs), lambda k: Int(bs[k])
        return None
    if o == "itermut" and x.a[0].op == "ref" and x.a[1].op in ("array", "repeat") and Len(x.a[1]).op == "int":
        root, proj = x.a[0].a
        return Len(x.a[1]).a[0], lambda k: T("ref", root, proj + (("i", Int(k)),))
    if o in ("rev", "skip", "take", "stepby", "enum", "proj"):
        r = const_seq(x.a[0])
        if r is None:
            return None
        n, g = r
        if o == "rev":
            return n, lambda k: g(n - 1 - k)
        if o == "enum":
            return n, lambda k: Tup(Int(k), g(k))
        if o == "proj":
            return n, lambda k: Fld(g(k), x.a[1])
        if x.a[1].op != "int":
            return None
        m = x.a[1].a[0]
        if o == "skip":
            return max(0, n - m), lambda k: g(k + m)
        if o == "take":
            return min(n, m), g
        return (n + m - 1) // m if m else 0, lambda k: g(k * m)
    if o == "zip":
        r, q = const_seq(x.a[0]), const_seq(x.a[1])
        if r is None or q is None:
            return None
        return min(r[0], q[0]), lambda k: Tup(r[1](k), q[1](k))
    return None


def const_base(x):
    while x.op in ("map", "filter", "inspect", "filter_map"):
        x = x.a[0]
    return const_seq(x)


SIEVES = ("filter", "filter_map")


def sieve(c, s, root, proj, w, x, k, cs):
    """next of filtering adaptors over a known sequence; the position counts the elements looked at"""
    out, todo = [], [(s, k)]
    while todo:
        s1, i = todo.pop()
        if i >= cs[0]:
            c.e.store(s1, root, proj, T("adv", i, w))
            out.append((s1, None, i))
            continue
        for s2, e in sift(c, s1, x, i):
            if e is None:
                todo.append((s2, i + 1))
            else:
                c.e.store(s2, root, proj, T("adv", i + 1, w))
                out.append((s2, e, i + 1))
    return out


def sift(c, s, x, i):
    """the i-th element of the base as it comes out of the adaptors, None where one of them drops it"""
    if x.op not in ("map", "filter", "inspect", "filter_map"):
        return [(s, const_seq(x)[1](i))]
    out = []
    for s1, a in sift(c, s, x.a[0], i):
        if a is None:
            out.append((s1, None))
            continue
        for s2, b in c.inv(s1, x.a[1], [a]):
            if x.op == "map":
                out.append((s2, b))
            elif x.op == "inspect":
                out.append((s2, a))
            elif x.op == "filter":
                out += [(s3, a if t else None) for s3, t in c.e.branch(s2, b)]
            else:
                out += [(s3, pay(b, "Some") if var == "Some" else None) for s3, var in c.e.cases(s2, b, OV)]
    return out


def do_next(c, s, root, proj):
    """advance the iterator stored at a location: [(state, element or None)]"""
    v = c.e.load(s, root, proj)
    while v.op == "ref":
        root, proj = v.a
        v = c.e.load(s, root, proj)
    w, k = unadv(v)
    gen = w.a[1] if w.op == "itpos" else False
    x = w.a[0] if gen else w
    base = c.e.snap(s, x)
    if not gen and x.op in SIEVES:
        cs = const_base(x)
        if cs is not None and cs[0] <= max(20, c.e.trips):
            return [(s1, e) for s1, e, _ in sieve(c, s, root, proj, w, x, k, cs)]
    atom = T("hasnext", base, k, gen)
    cs = None if gen else const_seq(x) or (const_base(x) if x.op == "map" else None)
    if cs is not None:
        atom = Bool(k < cs[0])
    if x.op == "iter" and x.a[0].op == "vec0":
        atom = FALSE
    out = []
    for s1, b in c.e.branch(s, atom):
        if not b:
            out.append((s1, None))
            continue
        c.e.store(s1, root, proj, T("adv", k + 1, w))
        out += elem(c, s1, x, k, gen)
    return out


def fixed_walk(it):
    """a walk over nibbles or bits between two known positions"""
    if it.op != "agg" or not it.a[0].endswith(("NibbleIterator", "BitIterator")):
        return False
    return any(v.op == "agg" and v.a[0].endswith("::Range") and all(x.op == "int" for x in v.a[3]) for v in it.a[3])


@model("std::iter::Iterator::next")
def it_next(c):
    r = c.args[0]
    if fixed_walk(c.val(0)) and c.e.local_body(c.fr, c.f):
        return None
    if r.op != "ref":
        r = T("ref", ("O", r), ())
    return [(s, NONE if e is None else Some(e)) for s, e in do_next(c, c.st, r.a[0], r.a[1])]


@model("std::iter::DoubleEndedIterator::next_back")
def it_next_back(c):
    r = c.args[0]
    if r.op != "ref":
        return None
    v = c.e.load(c.st, *r.a)
    if v.op == "revadv" or v.op == "rev":
        pass
    base = c.e.snap(c.st, v)
    out = []
    if base.op == "agg" and base.a[0] in ("std::ops::Range", "core::ops::Range") and len(base.a[3]) == 2:
        lo, hi = base.a[3]
        last = Sub(hi, Int(1))
        for s, b in c.e.branch(c.st, Bin("Lt", lo, hi)):
            if b:
                c.e.store(s, r.a[0], r.a[1], Agg(base.a[0], base.a[1], base.a[2], (lo, last)))
                out.append((s, Some(last)))
            else:
                out.append((s, NONE))
        return out
    for s, b in c.e.branch(c.st, T("hasback", base)):
        if b:
            c.e.store(s, r.a[0], r.a[1], T("backadv", v))
            out.append((s, Some(T("backelem", base))))
        else:
            out.append((s, NONE))
    return out


@model("std::iter::Peekable::<I>::peek", "types::nibble::nibble_path::Peekable::peek")
def it_peek(c):
    r = c.args[0]
    st = c.st
    if c.val(0).op == "agg" and c.e.local_body(c.fr, c.f):
        return None
    root, proj = r.a if r.op == "ref" else (("O", r), ())
    v = c.e.load(st, root, proj)
    out = []
    for s, e in do_next(c, st, root, proj):
        c.e.store(s, root, proj, v)
        out.append((s, NONE if e is None else Some(e)))
    return out


def consume(c, it, body, extra=None, kind="iter"):
    """Run `body(state, elem) -> [(state, 'cont'|'stop', payload)]` abstractly over all elements.
    -> [(state, payload)] with payload None for exhaustion."""
    fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
    root = ("L", fid, "it")
    st = c.st
    st.env[root] = it
    for k, v in (extra or {}).items():
        st.env[("L", fid, k)] = v

    def run(hd):
        backs, exits = [], []
        for s, e in do_next(c, hd, root, ()):
            if e is None:
                exits.append((s, None))
                continue
            for s2, how, p in body(s, e):
                if how == "cont":
                    backs.append(s2)
                else:
                    exits.append((s2, p))
        return backs, exits
    exits, uid, backs = c.e.loop_run(st, ("it", fid), run, site=c.sp, stack=c.fr.stack(), kind=kind)
    if uid is not None:
        c.e.loops[uid].exits = [("exit", [c.e.delta(c.st.facts, s.facts)]) for s, _ in exits]
    return exits, fid, uid, backs


def cleanup(s, fid):
    for r in [r for r in s.env if r[0] == "L" and r[1] == fid]:
        del s.env[r]


def arg_iter(c, i=0):
    v = c.args[i]
    if v.op == "ref":
        return v
    return mkit(c, v, i)


@model("std::iter::Iterator::fold")
def fold(c):
    f = c.args[2]
    fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
    acc = ("L", fid, "acc")

    def body(s, e):
        out = []
        for s2, v in c.inv(s, f, [s.env[acc], e]):
            s2.env[acc] = v
            out.append((s2, "cont", None))
        return out
    exits, fid, uid, _ = consume(c, arg_iter(c), body, {"acc": c.args[1]}, "fold")
    res = []
    for s, _ in exits:
        v = s.env[acc]
        cleanup(s, fid)
        res.append((s, v))
    return res


@model("std::iter::Iterator::try_fold")
def try_fold(c):
    f = c.args[2]
    fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
    acc = ("L", fid, "acc")

    def body(s, e):
        out = []
        for s2, v in c.inv(s, f, [s.env[acc], e]):
            names = RV if head(c.destty).endswith("Result") or "Result" in c.destty else OV
            for s3, var in c.e.cases(s2, v, names):
                if var in ("Ok", "Some"):
                    s3.env[acc] = pay(v, var)
                    out.append((s3, "cont", None))
                else:
                    out.append((s3, "stop", NONE if var == "None" else Err(pay(v, "Err"))))
        return out
    exits, fid, uid, _ = consume(c, arg_iter(c), body, {"acc": c.args[1]}, "fold")
    res = []
    isres = "Result" in c.destty
    for s, p in exits:
        v = s.env[acc]
        cleanup(s, fid)
        res.append((s, p if p is not None else (Ok(v) if isres else Some(v))))
    return res


@model("std::iter::Iterator::for_each")
def for_each(c):
    f = c.args[1]

    def body(s, e):
        return [(s2, "cont", None) for s2, _ in c.inv(s, f, [e])]
    exits, fid, uid, _ = consume(c, arg_iter(c), body)
    res = []
    for s, _ in exits:
        cleanup(s, fid)
        res.append((s, UNIT))
    return res


@model("std::iter::Iterator::try_for_each")
def try_for_each(c):
    f = c.args[1]

    def body(s, e):
        out = []
        for s2, v in c.inv(s, f, [e]):
            for s3, var in c.e.cases(s2, v, RV):
                out.append((s3, "cont", None) if var == "Ok" else (s3, "stop", Err(pay(v, "Err"))))
        return out
    exits, fid, uid, _ = consume(c, arg_iter(c), body)
    res = []
    for s, p in exits:
        cleanup(s, fid)
        res.append((s, p if p is not None else Ok(UNIT)))
    return res


@model("std::iter::Iterator::all", "std::iter::Iterator::any", "std::iter::Iterator::find",
       "std::iter::Iterator::position", "std::iter::Iterator::rposition", "std::iter::Iterator::find_map")
def search(c):
    f = c.args[1]
    n = c.f["name"]
    it = arg_iter(c)
    here = lambda s: c.e.snap(s, s.env[("L", c.e.fid((c.fr.fid, "consume"), repr(c.sp)), "it")])

    cs = None
    if n == "rposition":
        x = c.e.snap(c.st, it)
        cs = const_seq(x)
        if cs is not None:
            it = T("rev", x)

    def body(s, e):
        out = []
        for s2, b in c.inv(s, f, [e]):
            if n == "find_map":
                for s3, var in c.e.cases(s2, b, OV):
                    out.append((s3, "stop", Some(pay(b, "Some"))) if var == "Some" else (s3, "cont", None))
                continue
            for s3, t in c.e.branch(s2, b):
                if t == (n != "all"):
                    p = {"all": FALSE, "any": TRUE, "find": Some(e)}.get(n)
                    if p is None:
                        w, k = unadv(here(s3))
                        if cs is not None or n == "position" and w.op != "itpos" and const_seq(w) is not None:
                            p = Some(Int(cs[0] - k if cs else k - 1))
                        else:
                            p = Some(T(n, c.e.snap(s3, it), e))
                    out.append((s3, "stop", p))
                else:
                    out.append((s3, "cont", None))
        return out
    src = c.e.snap(c.st, it)
    exits, fid, uid, backs = consume(c, it, body, kind=n)
    k = cpn(*src.a[:2]) if n == "position" and src.op == "zip" and uid is not None else None
    if k is not None:
        # first place where two keys differ
        eq = Eq(T("elem", src.a[0], 0, uid), T("elem", src.a[1], 0, uid))
        if all(implied(b.facts, eq) is True for b in backs) and all(
                p is None or implied(s.facts, eq) is False for s, p in exits):
            for s, p in exits:
                if p is None:
                    s.facts[Eq(k, Len(src.a[0]))] = True
            exits = [(s, p if p is None else Some(k)) for s, p in exits]
    res = []
    dfl = {"all": TRUE, "any": FALSE}.get(n, NONE)
    for s, p in exits:
        cleanup(s, fid)
        if p is None and n == "all":
            # every element satisfied the predicate: record it as a quantified fact
            for b in backs:
                for k, v in c.e.delta(c.st.facts, b.facts).items():
                    if not isinstance(k, Term):
                        continue
                    s.facts[T("forall", uid, k)] = v
        res.append((s, p if p is not None else dfl))
    return res


@model("std::iter::Iterator::count", "std::iter::Iterator::sum", "std::iter::Iterator::max",
       "std::iter::Iterator::min", "std::iter::Iterator::last", "std::iter::Iterator::max_by_key",
       "std::iter::Iterator::min_by_key", "std::iter::Iterator::nth", "std::iter::Iterator::product")
def reduce_(c):
    n = c.f["name"]
    it = c.e.snap(c.st, arg_iter(c))
    if n == "count" and it.op == "takewhile" and it.a[0].op == "zip":
        z = it.a[0]
        k = cpn(z.a[0], z.a[1])
        want = Eq(T("elem", z.a[0], 0, True), T("elem", z.a[1], 0, True))
        if k is not None:
            got = {v for s, e in elem(c, c.st.clone(), z, 0, True) for _, v in c.inv(s, it.a[1], [e])}
            if got == {want}:
                return c.ret(k)
    if n == "count" and it.op == "iter" and it.a[0].op == "present" and c.args[0].op != "ref":
        return [(s, k if isinstance(k, Term) else Int(k)) for s, k in howmany(c, it)]
    if n == "count" and it.op == "iter" and c.args[0].op != "ref":
        return c.ret(Len(it.a[0]))
    if n == "last" and c.args[0].op != "ref":
        cs = const_base(it)
        if cs is not None and cs[0] <= 64:
            r = last_of(c, it, cs)
            if r is not None:
                return r
    if n in ACCS and c.args[0].op != "ref":
        fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
        acc = ("L", fid, "acc")

        def abody(s, e):
            e = c.e.snap(s, e)
            if n == "count":
                s.env[acc] = Add(s.env[acc], Int(1))
            elif n == "sum":
                s.env[acc] = Add(s.env[acc], c.e.deref(s, e))
            elif n.endswith("_by_key"):
                out = []
                for s2, k in c.inv(s, c.args[1], [e]):
                    s2.env[acc] = T("pushed", s2.env[acc], Tup(e, c.e.snap(s2, k)))
                    out.append((s2, "cont", None))
                return out
            else:
                s.env[acc] = T("pushed", s.env[acc], e)
            return [(s, "cont", None)]
        exits, fid2, uid, _ = consume(c, it, abody, {"acc": Int(0) if n in ("count", "sum") else T("vec0")}, kind=n)
        res = []
        for s, p in exits:
            v = s.env[acc]
            cleanup(s, fid2)
            res.append((s, v if n in ("count", "sum") else T("reduce", n, v)))
        return res
    if n == "nth":
        x = c.e.snap(c.st, it)
        ln = IX.lengths(x) if IX.plain(x) else None
        y = IX.at(x, c.val(1)) if ln is not None and len(ln) == 1 else None
        if y is not None:
            out = []
            for s, b in c.e.branch(c.st, Lt(c.val(1), ln[0])):
                if c.args[0].op == "ref":
                    c.e.store(s, c.args[0].a[0], c.args[0].a[1], T("skip", x, Add(c.val(1), Int(1)) if b else ln[0]))
                out.append((s, Some(y) if b else NONE))
            return out
    vals = comp(c, it)
    extra = ()
    if n == "nth":
        extra = (c.val(1),)
    if n.endswith("_by_key"):
        extra = tuple(sorted({v for s, e in elem(c, c.st.clone(), it, 0, True) for _, v in c.inv(s, c.args[1], [e])}))
    t = T("reduce", n, base_iter(it), vals, extra)
    if c.args[0].op == "ref":
        k = c.val(1).a[0] + 1 if n == "nth" and c.val(1).op == "int" else None
        c.e.store(c.st, c.args[0].a[0], c.args[0].a[1], T("adv", k, it) if k else T("used", n, it))
    return c.ret(t)


def last_of(c, it, cs):
    out, todo = [], [(c.st, cs[0] - 1)]
    while todo:
        s, i = todo.pop()
        if i < 0:
            out.append((s, NONE))
            continue
        for s2, e in sift(c, s, it, i):
            if e is None:
                todo.append((s2, i - 1))
            else:
                out.append((s2, Some(e)))
    return out


def base_iter(x):
    while x.op in ("map", "filter_map", "filter", "inspect"):
        x = x.a[0]
    return x


def comp(c, it):
    """element description of an iterator: tuple of terms (one per case)"""
    mark = len(c.e.events)
    vals = set()
    for s, e in elem(c, c.st.clone(), it, 0, True):
        vals.add(c.e.snap(s, e))
    return tuple(sorted(vals))


def pieces(it):
    """the plain sequences an iterator runs through one after the other; None if it is anything else"""
    if it.op == "chain":
        a, b = pieces(it.a[0]), pieces(it.a[1])
        return None if a is None or b is None else a + b
    if it.op == "take" and it.a[0].op == "iter" and it.a[0].a[0].op == "forever":
        return [T("vecop", "resize", (T("vec0"), it.a[1], it.a[0].a[0].a[0]))]
    return [it] if it.op == "iter" and it.a[0].op != "forever" else None


@model("std::iter::once")
def iter_once(c):
    return c.ret(T("iter", T("array", (c.e.snap(c.st, c.args[0]),))))


@model("std::iter::empty")
def iter_empty(c):
    return c.ret(T("iter", T("vec0")))


@model("std::iter::repeat")
def iter_repeat(c):
    return c.ret(T("iter", T("forever", c.e.snap(c.st, c.args[0]))))


@model("std::iter::repeat_n")
def iter_repeat_n(c):
    return c.ret(T("take", T("iter", T("forever", c.e.snap(c.st, c.args[0]))), c.val(1)))


@model("std::vec::from_elem")
def from_elem(c):
    x, n = c.e.snap(c.st, c.args[0]), c.val(1)
    return c.ret(T("repeat", x, n.a[0]) if n.op == "int" else T("vecop", "resize", (T("vec0"), n, x)))


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def collect(c):
    if c.f["name"] == "from_iter":
        lb = c.e.local_body(c.fr, c.f)
        if lb:
            return None
    it = c.e.snap(c.st, arg_iter(c))
    dest = c.e.subst(c.fr, c.destty) if c.destty else ""
    h = head(dest)
    if h.endswith("NibblePath") and it.op == "chain":
        p, e = whole_path(it.a[0]), it.a[1]
        if p is not None and e.op == "iter" and e.a[0].op == "array" and len(e.a[0].a[0]) == 1:
            return c.ret(T("ppush", p, e.a[0].a[0][0]))
    fid = c.e.fid((c.fr.fid, "collect"), repr(c.sp))
    if h in ("std::result::Result", "std::option::Option"):
        isr = h == "std::result::Result"
        vals = set()
        fallible = False

        def body(s, e):
            out = []
            for s2, var in c.e.cases(s, e, RV if isr else OV):
                if var in ("Ok", "Some"):
                    vals.add(c.e.snap(s2, pay(e, var)))
                    out.append((s2, "cont", None))
                else:
                    out.append((s2, "stop", Err(pay(e, "Err")) if isr else NONE))
            return out
        exits, fid2, uid, _ = consume(c, it, body, kind="collect")
        inner = re.match(r"^[\w:]+<(.*)$", dest)
        t = T("collected", head(inner.group(1)) if inner else "", base_iter(it), tuple(sorted(vals)))
        res = []
        for s, p in exits:
            cleanup(s, fid2)
            res.append((s, p if p is not None else (Ok(t) if isr else Some(t))))
        return res
    if h == "std::vec::Vec" and it.op == "rev" and it.a[0].op == "iter":
        v = it.a[0].a[0]
        return c.ret(v.a[0] if v.op == "reversed" else T("reversed", v))
    if h == "std::vec::Vec" and it.op == "iter" and it.a[0].op == "bits":
        return c.ret(it.a[0])
    if h == "std::vec::Vec" and it.op == "iter" and re.match(
            r"^std::iter::(Copied|Cloned)<std::slice::Iter<'?\w*,? ?[^<>]*>>$", c.e.subst(c.fr, c.argtys[0]) if c.argtys else ""):
        return c.ret(it.a[0])  # a copy of the sequence: what to_vec gives
    if h == "std::vec::Vec" and it.op == "take" and it.a[0].op == "iter" and it.a[0].a[0].op == "bits" and implied_le(
            c.st.facts, it.a[1], Int(256)):
        return c.ret(Slice(it.a[0].a[0], Int(0), it.a[1]))
    if h == "std::vec::Vec" and it.op == "iter" and it.a[0].op == "present":
        out = []
        for s, k in howmany(c, it):
            if k in (0, 1):
                out.append((s, T("array", (T("nth", it, 0),)) if k else T("vec0")))
            else:
                out.append((s, T("collected", h, it, comp(c, it))))
        return out
    if it.op in ("iter", "proj", "rev") and not (it.op == "rev" and LAZY & {it.a[0].op}):
        vals = comp(c, it)
        return c.ret(T("collected", h, base_iter(it), vals))
    if h == "std::vec::Vec" and it.op == "chain" and pieces(it) is not None:
        t = T("vec0")
        for p in pieces(it):
            t = T("extended", t, p)
        return c.ret(t)
    if h == "std::vec::Vec":
        it, flip = unrev(it)
        fid = c.e.fid((c.fr.fid, "consume"), repr(c.sp))
        acc = ("L", fid, "acc")

        def vbody(s, e):
            s.env[acc] = T("pushed", s.env[acc], c.e.snap(s, e))
            return [(s, "cont", None)]
        exits, fid2, uid, _ = consume(c, it, vbody, {"acc": T("vec0")}, kind="collect")
        res = []
        for s, p in exits:
            v = s.env[acc]
            cleanup(s, fid2)
            res.append((s, T("reversed", v) if flip else v))
        return res
    vals = set()

    def body(s, e):
        vals.add(c.e.snap(s, e))
        return [(s, "cont", None)]
    exits, fid2, uid, _ = consume(c, it, body, kind="collect")
    t = T("collected", h, base_iter(it), tuple(sorted(vals)))
    res = []
    for s, p in exits:
        cleanup(s, fid2)
        res.append((s, t))
    return res


def whole_path(it):
    """the path all of whose nibbles an iterator yields"""
    if it.op != "agg" or not it.a[0].endswith("NibbleIterator"):
        return None
    f = dict(zip(it.a[2], it.a[3]))
    p, r = f.get("nibble_path"), f.get("pos")
    if p is None or r is None or r.op != "agg" or not r.a[0].endswith("::Range"):
        return None
    r = dict(zip(r.a[2], r.a[3]))
    return p if r["start"] is Int(0) and r["end"] is Fld(p, "num_nibbles") else None


def howmany(c, it):
    """number of children a run over them meets, as far as code asks: none, one or more"""
    for s, b in c.e.branch(c.st, T("hasnext", it, 0, False)):
        if not b:
            yield s, 0
            continue
        for s2, b2 in c.e.branch(s, T("hasnext", it, 1, False)):
            yield s2, Add(Int(2), T("more", it)) if b2 else 1


def unrev(it):
    """a reversal of lazy iterators, under maps and filters, brought outside"""
    flip = False
    while it.op == "rev" and it.a[0].op in LAZY:
        it, flip = it.a[0], not flip
    if it.op in ("map", "filter", "filter_map", "inspect"):
        x, f = unrev(it.a[0])
        if f:
            return T(it.op, x, *it.a[1:]), not flip
    return it, flip


ACCS = {"count", "sum", "max", "min", "max_by_key", "min_by_key", "last"}
LAZY = {"map", "filter_map", "filter", "inspect", "zip", "enum"}


@model("std::iter::Iterator::size_hint")
def size_hint(c):
    v = c.val(0)
    if v.op == "agg" and v.a[0].endswith("::Range") and all(x.op == "int" for x in v.a[3]):
        n = Int(max(0, v.a[3][1].a[0] - v.a[3][0].a[0]))
        return c.ret(Tup(n, Some(n)))
    return None


# ---------------------------------------------------------------- formatting noise
@model("std::fmt::format", "alloc::fmt::format")
def fmt(c):
    return c.ret(T("fmt"))


@model("anyhow::__private::format_err", "anyhow::error::<impl anyhow::Error>::msg", "anyhow::kind::Trait::new",
       "anyhow::__private::BothDebug::__dispatch_ensure", "anyhow::error::<impl anyhow::Error>::context")
def mkerr(c):
    return c.ret(T("err", "msg"))


# ---------------------------------------------------------------- integers
def int2(c, name, fn=None):
    return None


NUM = re.compile(r"^std::num::<impl (\w+)>::(\w+)$")


def generic(c):
    p = c.f["path"]
    m = NUM.match(p)
    if m:
        return lambda c: num(c, m.group(1), m.group(2))
    if p.startswith(("std::fmt::", "std::fmt::", "tracing::", "hex::encode")):
        return noise
    if p.startswith("std::ops::") and p.rsplit("::", 1)[1] in OPS and not c.e.local_body(c.fr, c.f):
        return arith
    if p in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
        def callf(c):
            a = c.args[1]
            args = list(a.a[0]) if a.op == "tuple" else [Fld(a, "0")]
            return c.inv(c.st, c.args[0], args)
        return callf
    return None


OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd",
       "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}


def arith(c):
    return c.ret(Bin(OPS[c.f["name"]], c.val(0), c.val(1)))


def noise(c):
    return c.ret(T("noise"))


def num(c, ty, name):
    from terms import INTS
    a = [c.val(i) for i in range(len(c.args))]
    n = INTS.get(ty, 64)
    full = (1 << n) - 1
    if ty[0] == "u" and name.startswith(("checked_", "saturating_", "abs_")):
        for x in a:
            if x.op != "int":
                c.st.facts.setdefault(("uns", x), 0)
    if name in ("wrapping_add", "wrapping_sub", "wrapping_mul") and all(x.op == "int" for x in a):
        return c.ret(Int(Bin({"a": "Add", "s": "Sub", "m": "Mul"}[name[9]], *a).a[0] & full))
    if name in ("checked_add", "checked_sub", "checked_mul"):
        op = {"a": "Add", "s": "Sub", "m": "Mul"}[name[8]]
        r = Bin(op, a[0], a[1], ty)
        if op == "Sub":
            return [(s, Some(r) if b else NONE) for s, b in c.e.branch(c.st, Le(a[1], a[0]))]
        ov = T("bin", "Lt", Int(full), r)
        if r.op == "int":
            return c.ret(Some(r) if r.a[0] <= full else NONE)
        return [(s, NONE if b else Some(r)) for s, b in c.e.branch(c.st, ov)]
    if name == "saturating_sub":
        return [(s, Sub(a[0], a[1]) if b else Int(0)) for s, b in c.e.branch(c.st, Le(a[1], a[0]))]
    if name in ("count_ones", "trailing_zeros", "leading_zeros", "count_zeros") and a[0].op == "int":
        v = a[0].a[0]
        if name == "count_ones":
            return c.ret(Int(bin(v).count("1")))
        if name == "trailing_zeros":
            return c.ret(Int(n if v == 0 else (v & -v).bit_length() - 1))
        if name == "leading_zeros":
            return c.ret(Int(n - v.bit_length()))
    if name == "pow" and a[0].op == a[1].op == "int" and a[0].a[0] ** a[1].a[0] < 2 ** n:
        return c.ret(Int(a[0].a[0] ** a[1].a[0]))
    if name == "is_power_of_two" and a[0].op == "int":
        return c.ret(TRUE if bin(a[0].a[0]).count("1") == 1 else FALSE)
    if name == "is_power_of_two":
        return c.ret(Eq(T("num", "count_ones", ty, (a[0],)), Int(1)))
    if name == "div_ceil" and a[1].op == "int":
        return c.ret(Bin("Div", Add(a[0], Int(a[1].a[0] - 1)), a[1], ty))
    if name == "rem_euclid":
        return c.ret(Bin("Rem", a[0], a[1], ty))
    if name == "abs_diff":
        return c.ret(T("absdiff", *sorted(a)))
    return c.ret(T("num", name, ty, tuple(a)))

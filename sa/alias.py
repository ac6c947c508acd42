"""Names of private items: when a private function, type or field was renamed, its facts are given the name the rules know.

names.json (written by tools/names.py) lists the private functions (with signature), types (with fields) and fields of the tree the rules
were written for. An item that is missing now is matched with new items of the same place and the same signature; where there are as
many new as missing ones, in the order of their definitions, they are taken to be the same. Only names change: what an item does is read from
the current source in any case, so a wrong match cannot hide anything but the name."""
import json, os, re
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def own(path):
    return "tests" not in path and "{" not in path and "__" not in path


def types(f):
    out = types_(f)
    if out:
        rx = re.compile(r"(?<![\w:])(%s)(?!\w)" % "|".join(re.escape(p) for p in sorted(out, key=len, reverse=True)))
        for a in out.values():
            for v in a["variants"]:
                for x in v["fields"]:
                    x["hid"] = rx.sub("?", x["ty"])
    return out


def types_(f):
    return {a["path"]: a for a in f["adts"] if not a["exported"] and own(a["path"]) and not a["path"].startswith("<")}


def tsig(a):
    """what the type is made of, private types as ? (they may have been renamed as well)"""
    mod = a["path"].rsplit("::", 1)[0]
    return json.dumps([mod, a["enum"], [[v["name"] if a["enum"] else "", [[x["name"], x["hid"]] for x in v["fields"]]] for v in a["variants"]]])


def functions(f):
    return {b["path"]: b for b in f["bodies"] if b["kind"] == "fn" and not b.get("exported") and not b.get("impl_trait") and "inputs" in b and own(b["path"])}


def fsig(b):
    return json.dumps([b["path"].rsplit("::", 1)[0], b["inputs"], b["output"]])


def fields(f):
    return {a["path"]: [[[x["name"], x["ty"], x["pub"]] for x in v["fields"]] for v in a["variants"]] for a in f["adts"] if own(a["path"])}


def table(f):
    return {"types": [[p, tsig(a)] for p, a in sorted(types(f).items(), key=lambda x: x[1]["span"])],
            "functions": [[p, fsig(b)] for p, b in sorted(functions(f).items(), key=lambda x: x[1]["span"])],
            "params": {p: params(b) for p, b in sorted(functions(f).items())},
            "fields": fields(f)}


def params(b):
    """names and types of the parameters"""
    n = {}
    for name, pl in b["names"]:
        if isinstance(pl, dict) and not pl.get("p") and 1 <= pl.get("l", 0) <= b["argc"]:
            n.setdefault(pl["l"], name)
    return [[n.get(i, ""), t] for i, t in enumerate(b["inputs"], 1)]


def order(old, new):
    """for each old parameter the index of the new one, when they are the same in another order"""
    if len(old) != len(new) or sorted(t for _, t in old) != sorted(t for _, t in new) or old == new:
        return None
    left, out = list(range(len(new))), [None] * len(old)
    for exact in (True, False):
        for i, x in enumerate(old):
            if out[i] is None:
                c = [j for j in left if (new[j] == x if exact else new[j][1] == x[1])]
                if c:
                    out[i] = c[0]
                    left.remove(c[0])
    return None if out == sorted(out) else out


def match(old, now, sig):
    """{new path: old path}"""
    gone, fresh = {}, {}
    known = {p for p, _ in old}
    for p, s in old:
        if p not in now:
            gone.setdefault(s, []).append(p)
    for p, x in sorted(now.items(), key=lambda x: x[1]["span"]):
        if p not in known:
            fresh.setdefault(sig(x), []).append(p)
    return {n: o for s, os_ in gone.items() if len(os_) == len(fresh.get(s, ())) for n, o in zip(fresh[s], os_)}


def rewrite(txt, subs):
    """every name of subs replaced in every string of the text"""
    rx = re.compile(r"(?<![\w:])((?:jmt::)?)(%s)(?!\w)" % "|".join(re.escape(n) for n in sorted(subs, key=len, reverse=True)))
    short = tuple({n.rsplit("::", 1)[-1] for n in subs})
    seen = {}

    def one(m):
        x = m.group(0)
        if x not in seen:
            seen[x] = rx.sub(lambda k: k.group(1) + subs[k.group(2)], x) if any(n in x for n in short) else x
        return seen[x]
    return re.sub(r'"[^"\\]*(?:\\.[^"\\]*)*"', one, txt)


def renumber(b, o):
    """the parameters of the body in the order o"""
    new = {j + 1: i + 1 for i, j in enumerate(o)}
    b["inputs"] = [b["inputs"][j] for j in o]
    b["locals"][1:len(o) + 1] = [b["locals"][j + 1] for j in o]

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get("l"), int) and "p" in x:
                x["l"] = new.get(x["l"], x["l"])
            for y in x.values():
                if isinstance(y, (dict, list)):
                    go(y)
        else:
            if len(x) == 2 and x[0] == "index" and isinstance(x[1], int):
                x[1] = new.get(x[1], x[1])
            for y in x:
                if isinstance(y, (dict, list)):
                    go(y)
    go(b["blocks"])
    go(b["names"])


def apply(txt):
    f = json.loads(txt)
    if not os.path.exists(TABLE):
        return f
    t = json.load(open(TABLE))
    ty = match(t["types"], types(f), tsig)
    if ty:
        txt = rewrite(txt, ty)
        f = json.loads(txt)
    now = functions(f)
    fn = match(t["functions"], now, fsig)
    names = {o: o.rsplit("::", 1)[1] for o in fn.values()}
    if fn:
        subs = dict(fn)
        subs.update({now[n]["id"]: now[n]["id"].rsplit("::", 1)[0] + "::" + names[o] for n, o in fn.items()})
        f = json.loads(rewrite(txt, subs))
    fl = {}
    for p, vs in fields(f).items():
        old = t["fields"].get(p)
        if not old or len(old) != len(vs):
            continue
        for a, b in zip(old, vs):
            on, nn = {x[0] for x in a}, {x[0] for x in b}
            gone = [x for x in a if x[0] not in nn]
            fresh = [x for x in b if x[0] not in on and not x[2]]
            for y in fresh:
                c = [x for x in gone if x[1] == y[1]]
                d = [x for x in fresh if x[1] == y[1]]
                if len(c) == len(d):
                    fl[(p, y[0])] = c[d.index(y)][0]
    perm = {}
    for p, b in functions(f).items():
        o = order(t["params"][p], params(b)) if p in t["params"] else None
        if o:
            perm[p] = perm[b["id"]] = o
            renumber(b, o)
    if not (names or fl or perm):
        return f

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and perm and isinstance(x["f"].get("fn"), dict):
                o = perm.get(x["f"]["fn"].get("rid")) or perm.get(x["f"]["fn"].get("id"))
                if o and len(x["args"]) == len(o):
                    x["args"] = [x["args"][j] for j in o]
            if x.get("path") in names and "name" in x:
                x["name"] = names[x["path"]]
            if "adt" in x and isinstance(x.get("fields"), list):
                x["fields"] = [fl.get((x["adt"], y), y) if isinstance(y, str) else y for y in x["fields"]]
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
        else:
            if len(x) == 4 and x[0] == "field" and (x[3], x[2]) in fl:
                x[2] = fl[(x[3], x[2])]
            for y in x:
                if isinstance(y, (dict, list)):
                    walk(y)
    walk(f["bodies"])
    for a in f["adts"]:
        for v in a["variants"]:
            for x in v["fields"]:
                x["name"] = fl.get((a["path"], x["name"]), x["name"])
    return f

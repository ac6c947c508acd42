"""same.py [TRANSFORM...]: rewrite every place of jmt's source a transformation applies to, all at once, and run all checks.

Each transformation keeps the behaviour, so every check has to stay quiet. Scratch: $SAMEDIR (a copy of /repo, its build and evidence).
With --only FILE the rewriting is limited to one file, with --skip A:B to the sites numbered A..B-1 (to bisect)."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
D = os.environ.get("SAMEDIR", "/tmp/same")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHK = os.environ.get("CHK", V + "/sa/check.py")
FILES = ["src/bytes32ext.rs", "src/iterator.rs", "src/lib.rs", "src/mock.rs", "src/node_type.rs", "src/reader.rs", "src/restore.rs", "src/tree.rs",
         "src/tree/ics23_impl.rs", "src/tree_cache.rs", "src/types/nibble.rs", "src/types/nibble/nibble_path.rs", "src/types/proof.rs",
         "src/types/proof/definition.rs", "src/writer.rs"]
ID = r"[A-Za-z_][A-Za-z_0-9]*"
ATOM = r"(?:\*?%s(?:(?:\.|::)(?:%s|\d+)(?:\(\))?)*|\d+)" % (ID, ID)


def close(s, i):
    """index after the bracket that closes the one at i, comments and strings skipped"""
    o = {"(": ")", "{": "}", "[": "]"}
    st = []
    while i < len(s):
        c = s[i]
        if s.startswith("//", i):
            i = s.index("\n", i)
        elif c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and re.match(r"'(?:\\.|[^\\'])'", s[i:i + 4]):
            i += s[i + 1] == "\\" and 3 or 2
        elif c in o:
            st.append(o[c])
        elif st and c == st[-1]:
            st.pop()
            if not st:
                return i + 1
        i += 1
    raise ValueError


def split(s):
    """top-level comma-separated parts"""
    out, i, a = [], 0, 0
    while i < len(s):
        if s.startswith("//", i):
            i = s.find("\n", i) if "\n" in s[i:] else len(s)
            continue
        if s[i] == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        if s[i] in "([{":
            i = close(s, i)
            continue
        if s[i] == ",":
            out.append(s[a:i])
            a = i + 1
        i += 1
    if s[a:].strip():
        out.append(s[a:])
    return [x.strip() for x in out]


def macro(name, f):
    def go(s):
        for m in re.finditer(r"(?<![\w!:])(?:anyhow::)?%s!\(" % name, s):
            e = close(s, m.end() - 1)
            if s[e:e + 1] != ";":
                continue
            yield m.start(), e + 1, f(split(s[m.end():e - 1]))
    return go


def sub(pat, f):
    def go(s):
        for m in re.finditer(pat, s):
            r = f(m) if callable(f) else m.expand(f)
            if r is not None:
                yield m.start(), m.end(), r
    return go


def head_end(s, i):
    """index of the brace that opens the block of an if/for/while whose head starts at i"""
    while s[i] != "{":
        if s[i] in "([":
            i = close(s, i)
        elif s[i] in ";}":
            return None
        else:
            i += 1
    return i


def ifs(let):
    def go(s):
        for m in re.finditer(r"(?<!else )(?<![\w#])if (let )?", s):
            if bool(m.group(1)) != let:
                continue
            b = head_end(s, s.index(" = ", m.end()) if let else m.end())
            if b is None:
                continue
            e = close(s, b)
            k = re.match(r"\s*else\s*\{", s[e:])
            c = s[m.end():b].strip()
            if " let " in c or "=>" in c:
                continue
            if not let:
                if not k:
                    continue
                e2 = close(s, e + k.end() - 1)
                yield m.start(), e2, "if !(%s) %s else %s" % (c, s[e + k.end() - 1:e2], s[b:e])
            else:
                p, _, x = c.partition(" = ")
                if k:
                    e2 = close(s, e + k.end() - 1)
                    other = s[e + k.end() - 1:e2]
                elif re.match(r"\s*else", s[e:]):
                    continue
                else:
                    e2, other = e, "{}"
                yield m.start(), e2, "match %s { %s => %s _ => %s }" % (x, p, s[b:e], other)
    return go


def whiles(s):
    for m in re.finditer(r"(?<!\w: )\bwhile (let )?", s):
        b = head_end(s, s.index(" = ", m.end()) if m.group(1) else m.end())
        if b is None:
            continue
        c = s[m.end():b].strip()
        if m.group(1):
            p, _, x = c.partition(" = ")
            yield m.start(), b + 1, "loop { let %s = %s else { break };" % (p, x)
        else:
            yield m.start(), b + 1, "loop { if !(%s) { break; }" % c


def fors(s):
    n = 0
    for m in re.finditer(r"(?<![\w:] )(?<!impl<)\bfor (?!<)", s):
        b = head_end(s, m.end())
        if b is None:
            continue
        h = s[m.end():b]
        if " in " not in h or "impl" in s[s.rfind("\n", 0, m.start()):m.start()]:
            continue
        p, _, x = h.partition(" in ")
        n += 1
        e = close(s, b)
        yield m.start(), e, "match (%s).into_iter() { mut it_%d => while let Some(%s) = it_%d.next() %s }" % (x.strip(), n, p.strip(), n, s[b:e])


def tries(s):
    for m in re.finditer(r"let ((?:mut )?%s|\([\w, ]+\)) = " % ID, s):
        i = m.end()
        j = i
        while s[j] != ";":
            j = close(s, j) if s[j] in "([{" else j + 1
        x = s[i:j]
        if x.endswith("?") and not x.startswith(("if ", "match ")):
            yield m.start(), j + 1, "let %s = match %s { Ok(v) => v, Err(e) => return Err(e.into()) };" % (m.group(1), x[:-1])


def arms(s):
    for m in re.finditer(r"\bmatch ", s):
        b = head_end(s, m.end())
        if b is None:
            continue
        e = close(s, b)
        body = s[b + 1:e - 1]
        out, i, ok = [], 0, True
        while body[i:].strip():
            k = re.compile(r"\s*(?://[^\n]*\n\s*)*").match(body, i)
            i = k.end()
            if i >= len(body):
                break
            g = body.find("=>", i)
            if g < 0:
                ok = False
                break
            pat = body[i:g]
            j = g + 2
            j = re.compile(r"\s*").match(body, j).end()
            if body[j] == "{":
                j = close(body, j)
                if body[j:j + 1] == ",":
                    j += 1
                elif re.match(r"\s*[.?]", body[j:]):
                    ok = False
                    break
            else:
                while j < len(body) and body[j] != ",":
                    j = close(body, j) if body[j] in "([{" else j + 1
                j += 1
            t = body[i:j].strip()
            out.append((pat.strip(), t if t.endswith((",", "}")) else t + ","))
            i = j
        names = [re.match(r"[\w:]+", p) for p, _ in out]
        if ok and len(out) > 1 and all(names) and not any(p == "_" or " if " in p or re.match(r"[a-z]\w*$", p) for p, _ in out) and \
                len({n.group(0) for n in names}) == len(out):
            yield m.start(), e, s[m.start():b] + "{ " + "\n".join(t if t.endswith(",") else t + "," for _, t in reversed(out)) + " }"


def helpers(s):
    """every inherent or free function becomes a call of a helper with its body"""
    for m in re.finditer(r"(?m)^(    )?((?:pub(?:\(crate\))? )?)fn (%s)(<[^(]*>)?\(" % ID, s):
        e = close(s, m.end() - 1)
        b = head_end(s, e)
        if b is None:
            continue
        k = s.rfind("\nimpl", 0, m.start())
        if m.group(1) and k < 0:
            continue
        if m.group(1):
            h = s[k:s.index("{", k)]
            if " for " in h or s.rfind("\n}", 0, m.start()) > k or s.rfind("\npub trait", 0, m.start()) > k or s.rfind("\ntrait", 0, m.start()) > k or s.rfind("\nmod ", 0, m.start()) > k:
                continue
        ps = split(re.sub(r"//[^\n]*", "", s[m.end():e - 1]))
        names = []
        recv = None
        for p in ps:
            if re.match(r"^(&(?:'\w+ )?)?(mut )?self$", p):
                recv = p
            else:
                n = re.match(r"^(?:mut )?(%s):" % ID, p)
                if not n:
                    break
                names.append(n.group(1))
        else:
            f = m.group(3)
            end = close(s, b)
            gs = [re.match(r"(?:const )?(%s)" % ID, g).group(1) for g in split((m.group(4) or "<>")[1:-1]) if not g.startswith("'")]
            if ">" in (m.group(4) or "")[:-1]:
                continue
            call = ("self." if recv else "Self::" if m.group(1) else "") + "%s_rest%s(%s)" % (
                f, "::<%s>" % ", ".join(gs) if gs else "", ", ".join(names))
            sig = s[m.start():b]
            outer = re.sub(r"\bmut (\w+:)", r"\1", sig).replace("(mut self", "(self")
            inner = sig.replace("fn %s" % f, "fn %s_rest" % f, 1)
            inner = re.sub(r"pub(\(crate\))? fn", "fn", inner)
            yield m.start(), end, outer + "{ " + call + " }\n\n" + inner + s[b:end]


def tails(s):
    for m in re.finditer(r"(?m)^(\s+)(Ok|Some)\(", s):
        e = close(s, m.end() - 1)
        if re.match(r"\s*\n\s*\}", s[e:]) and s[:m.start()].rstrip()[-1:] in ";}{":
            x = s[m.end():e - 1]
            if x.strip() in ("()", ""):
                continue
            yield m.start(), e, "%slet value = %s;\n%s(value)" % (m.group(1), x.rstrip().rstrip(","), m.group(2))


def returns(s):
    """the value of a function is bound before it is returned"""
    for m in re.finditer(r"(?m)^(    )?(?:pub(?:\(crate\))? )?fn (%s)(<[^(]*>)?\(" % ID, s):
        e = close(s, m.end() - 1)
        b = head_end(s, e)
        if b is None or "->" not in s[e:b]:
            continue
        end = close(s, b)
        yield b, end, "{ let outcome = " + s[b:end] + ";\n outcome }"

FN = r"(?m)^( {4}| {8})?(?:pub(?:\(crate\))? )?fn (%s)(<[^(]*>)?\(" % ID


def bodies(s):
    """functions with a body: (parameter list, index of the opening brace, index after the closing one)"""
    for m in re.finditer(FN, s):
        e = close(s, m.end() - 1)
        b = head_end(s, e)
        if b is not None:
            yield split(re.sub(r"//[^\n]*", "", s[m.end():e - 1])), b, close(s, b)


def params(s):
    """every parameter is bound again"""
    for ps, b, _ in bodies(s):
        out = []
        for q in ps:
            n = re.match(r"^(mut )?(%s):" % ID, q)
            if n and n.group(2) != "self":
                out.append("let %s%s = %s;" % (n.group(1) or "", n.group(2), n.group(2)))
        if out:
            yield b, b + 1, "{ " + " ".join(out)


def conds(s):
    """a condition is computed first"""
    for m in re.finditer(r"(?<![\w#])if (?!let )", s):
        b = head_end(s, m.end())
        if b is None or "=>" in s[m.end():b] or " let " in s[m.end():b]:
            continue
        yield m.end(), b, "{ let cond = %s; cond } " % s[m.end():b].strip()


def structs(s):
    """the fields of a struct literal are computed first"""
    for m in re.finditer(r"(?<=[(=>,{;] |.[(]|\n\s|  )(Self|[A-Z]\w+(?:::[A-Z]\w*)*) \{", s):
        line = s[s.rfind("\n", 0, m.start()) + 1:m.start()]
        if re.search(r"\b(impl|struct|enum|for|trait|mod|where|match|if)\b|->|\blet (?![^=]*=)", line) or not line.strip() and s[:m.start()].rstrip()[-1:] == ")":
            continue
        top = s[s.rfind("\n}", 0, m.start()) + 1:m.start()]
        if re.search(r"(?m)^(pub(\(crate\))? )?enum ", top):
            continue
        e = close(s, m.end() - 1)
        if re.match(r"\s*(=>|=[^=]|\||if\b)", s[e:]):
            continue
        fs = split(re.sub(r"//[^\n]*", "", s[m.end():e - 1]))
        ok = [re.match(r"^(%s)(?:\s*:\s*(.+))?$" % ID, f, re.S) for f in fs]
        if not fs or not all(ok) or len(fs) < 2:
            continue
        yield m.start(), e, "{ %s %s { %s } }" % (" ".join("let f%d = %s;" % (i, k.group(2) or k.group(1)) for i, k in enumerate(ok)), m.group(1),
                                               ", ".join("%s: f%d" % (k.group(1), i) for i, k in reversed(list(enumerate(ok)))))


def closures(s):
    """the value of a closure is bound before it is returned"""
    for m in re.finditer(r"(?<=\()(?:move )?\|[^|\n]*\| (?!\{)", s):
        j = m.end()
        while s[j] not in ",)":
            j = close(s, j) if s[j] in "([{" else j + 1
        yield m.end(), j, "{ let out = %s; out }" % s[m.end():j].strip()


def andsplit(s):
    """if A && B without else becomes two ifs"""
    for m in re.finditer(r"(?<!else )(?<![\w#])if (?!let )", s):
        b = head_end(s, m.end())
        if b is None:
            continue
        c = s[m.end():b].strip()
        e = close(s, b)
        if "=>" in c or "||" in c or " && " not in c or re.match(r"\s*else", s[e:]) or re.search(r"\([^)]*&&", c):
            continue
        x, y = c.split(" && ", 1)
        yield m.start(), e, "if %s { if %s %s }" % (x, y, s[b:e])


def letif(s):
    """let x = if .. else ..; as assignments in the branches"""
    for m in re.finditer(r"let (%s) = if (?!let )" % ID, s):
        b = head_end(s, m.end())
        if b is None:
            continue
        e = close(s, b)
        k = re.match(r"\s*else\s*\{", s[e:])
        if not k:
            continue
        e2 = close(s, e + k.end() - 1)
        if s[e2:e2 + 1] != ";":
            continue
        x = m.group(1)
        yield m.start(), e2 + 1, "let %s; if %s { %s = %s; } else { %s = %s; }" % (x, s[m.end():b].strip(), x, s[b:e], x, s[e + k.end() - 1:e2])


def guards(s):
    """a function that ends in if/else returns from the first branch"""
    for ps, b, end in bodies(s):
        body = s[b + 1:end - 1]
        for m in re.finditer(r"(?<!else )(?<![\w#])if (?!let )", body):
            h = head_end(body, m.end())
            if h is None or (body[:m.start()].rstrip() or ";")[-1] not in ";}{":
                continue
            e = close(body, h)
            k = re.match(r"\s*else\s*\{", body[e:])
            if not k:
                continue
            e2 = close(body, e + k.end() - 1)
            if not body[e2:].strip() and body[:m.start()].count("{") == body[:m.start()].count("}"):
                yield b + 1 + m.start(), b + 1 + e2, "if %s { return %s; }\n%s" % (body[m.end():h].strip(), body[h:e], body[e + k.end() - 1:e2])
                break


def matchif(s):
    """a match on Some/None or Ok/Err as if let"""
    for m in re.finditer(r"\bmatch ", s):
        b = head_end(s, m.end())
        if b is None:
            continue
        e = close(s, b)
        k = re.match(r"\s*(Some\([^=]*?\)) => \{", s[b + 1:e])
        if not k:
            continue
        j = b + 1 + k.end() - 1
        e1 = close(s, j)
        k2 = re.match(r"\s*,?\s*(?:None|_) => ", s[e1:e])
        if not k2 or " if " in k.group(1):
            continue
        other = s[e1 + k2.end():e - 1].strip().rstrip(",")
        if other.startswith("{") and close(other, 0) == len(other):
            other = other[1:-1]
        yield m.start(), e, "if let %s = %s %s else { %s }" % (k.group(1), s[m.end():b].strip(), s[j:e1], other)


def matchesm(s):
    for m in re.finditer(r"(?<!\w)matches!\(", s):
        e = close(s, m.end() - 1)
        a = split(s[m.end():e - 1])
        if len(a) == 2:
            yield m.start(), e, "(match %s { %s => true, _ => false })" % (a[0], a[1])


def nops(s):
    """a statement that does nothing after every statement"""
    for ps, b, end in bodies(s):
        for m in re.finditer(r"(?m)^\s{8,}[^/\n]*;$", s[b:end]):
            if not re.search(r"\b(return|continue|break|bail!|unreachable!|panic!|use|type|const|fn)\b", m.group(0)) and m.group(0).count("(") == m.group(0).count(")"):
                yield b + m.end(), b + m.end(), " let _ = ();"


def names():
    """private functions of the crate whose name is defined once"""
    out = {}
    for f in FILES:
        s, _ = source(f)
        for m in re.finditer(r"(?m)^(?: {4}| {8})?((?:pub(?:\(crate\))? )?)(?:const )?fn (%s)" % ID, s):
            k = s.rfind("\nimpl", 0, m.start())
            t = k >= 0 and s.rfind("\n}", 0, m.start()) <= k and re.search(r" for ", s[k:s.index("{", k)])
            out.setdefault(m.group(2), []).append(m.group(1) if not t and s.rfind("\npub trait", 0, m.start()) <= k else "pub ")
    return {n for n, v in out.items() if v == [""]}


def rename(s):
    """private functions get another name"""
    for n in names():
        for m in re.finditer(r"(?<![\w\"])%s(?=\(|::<| *<|\))" % n, s):
            yield m.start(), m.end(), n + "_inner"


def argrev(s, ns=None):
    """private functions take their parameters the other way round"""
    ns = ns or {n for n in names() if len(n) > 3 and n not in ("push", "verify", "new_empty")}
    rx = re.compile(r"(?<!\w)(fn )?(%s)(<[^(;]*?>|::<[^(]*?>)?\(" % "|".join(sorted(ns, key=len, reverse=True)))
    i = 0
    while True:
        m = rx.search(s, i)
        if not m:
            return
        e = close(s, m.end() - 1)
        i = e
        a = split(re.sub(r"(?<!:)//[^\n]*", "", s[m.end():e - 1]))
        if m.group(1):
            b, a = a, []
            for x in b:
                y = a[-1].replace("->", "") if a else ""
                if y.count("<") > y.count(">"):
                    a[-1] += ", " + x
                else:
                    a.append(x)
            k = 1 if a and re.match(r"^(&(?:'\w+ )?)?(mut )?self$", a[0]) else 0
        else:
            k = 0
            for j, x in enumerate(a):
                for b, c, t in sorted(argrev(x, ns), reverse=True):
                    x = x[:b] + t + x[c:]
                a[j] = x
        yield m.end(), e - 1, ", ".join(a[:k] + a[k:][::-1])


T = {
    "argrev": argrev,
    "ensure": macro("ensure", lambda a: "if !(%s) { anyhow::bail!(%s); }" % (a[0], ", ".join(a[1:]) or '"failed"')),
    "assert": macro("assert", lambda a: "if !(%s) { panic!(%s); }" % (a[0], ", ".join(a[1:]) or '"failed"')),
    "plus": sub(r"(?m)^(\s*)(\*?[\w.]+) ([+-])= ([^;\n]+);", r"\1\2 = \2 \3 (\4);"),
    "eqswap": sub(r"(?<![-+*/%%&|^<>!] )(?<![\w.&*!])(%s) (==|!=) (%s)(?![\w.(\[:]| [-+*/%%&|^<] | as )" % (ATOM, ATOM), r"\3 \2 \1"),
    "ltswap": sub(r"(?<![-+*/%%&|^<>!] )(?<=[( ])(%s) (<|>|<=|>=) (%s)(?=[;,) ])(?! [-+*/%%&|^<.] | as )" % (ATOM, ATOM),
                  lambda m: "%s %s %s" % (m.group(3), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[m.group(2)], m.group(1))),
    "ifneg": ifs(False),
    "iflet": ifs(True),
    "while": whiles,
    "for": fors,
    "try": tries,
    "arms": arms,
    "helpers": helpers,
    "tails": tails,
    "returns": returns,
    "clone": sub(r"\.clone\(\)", ".to_owned()"),
    "empty": sub(r"!(?!self\.children)(?!children)(%s(?:\.%s)*)\.is_empty\(\)" % (ID, ID), r"(\1.len() != 0)"),
    "half": sub(r"(?<![*/%%] )(?<![\w.&*!])(%s) / 2\b(?!\d)" % ATOM, r"(\1 >> 1)"),
    "even": sub(r"(?<=[\w)]) % 2 == 0", r" % 2 != 1"),
    "some": sub(r"\.is_some\(\)", ".is_none() == false"),
    "none": sub(r"\.is_none\(\)", ".is_some() == false"),
    "vec": sub(r"\bvec!\[\]", "Vec::new()"),
    "self": sub(r"(?<=[ (])Self \{", None) if False else sub(r"\.to_vec\(\)", ".iter().copied().collect::<Vec<_>>()"),
    "dup": sub(r"(?m)^(\s+)let (%s) = ([^;{}|]+);$" % ID, r"\1let \2 = { let inner = \3; inner };"),
    "params": params,
    "conds": conds,
    "structs": structs,
    "closures": closures,
    "andsplit": andsplit,
    "letif": letif,
    "guards": guards,
    "matchif": matchif,
    "matches": matchesm,
    "nops": nops,
    "rename": rename,
    "fields": sub(r"(?<![\w\"])(parent_stack|children_bitmap|next_child_to_visit|hash_bytes|sorted_kvs|nibble_idx|partial_nodes|frozen_nodes|previous_leaf|"
                  r"num_keys_received|expected_root_hash|stale_node_index_cache|root_node_key|next_version|value_cache|num_new_leaves|frozen_cache|"
                  r"allow_overwrite|value_history|preimages|num_stale_leaves|node_cache)\b(?! ?\()", r"the_\1"),
    "types": sub(r"(?<![\w\"])(ChildInfo|InternalInfo|NodeVisitInfo|PutResult|Extreme|SearchResult|FrozenTreeCache|MockTreeStoreInner|NibbleRangeIterator)\b",
                 r"\1Inner"),
    "addswap": sub(r"(?<![-+*/%%&|^<>!.] )(?<![\w.&*!])(%s) \+ (\d+)(?![\w.])(?! as| \*)" % ATOM, r"\2 + \1"),
    "iszero": sub(r"(?<![!\w.])((?!node_batch)(?!self\.(?:node_batch|frozen))%s(?:\.%s)*)\.is_empty\(\)" % (ID, ID), r"(\1.len() == 0)"),
    "unreach": sub(r"(?<!\w)unreachable!\(", "panic!("),
    "hexlit": sub(r"(?<![\w.])16(?![\w.])", "0x10"),
}


def source(f):
    s = open("/repo/" + f).read()
    i = len(s)
    for m in re.finditer(r"#\[cfg\((?:test|any\(test\)|all\(test[^\n]*)\)\]\s*(?:pub )?mod \w+ \{", s):
        i = min(i, m.start())
    return re.sub(r"(?m)(^|\s)//(?![/!]).*$", r"\1", s[:i]), s[i:]


def apply(name, only=None, skip=None):
    r = D + "/r"
    n = 0
    for f in FILES:
        s, rest = source(f)
        if only is None or only == f:
            cuts, last = [], -1
            for a, b, t in sorted(T[name](s), key=lambda x: x[0]):
                if a < last or "//" in s[s.rfind("\n", 0, a) + 1:a] or "#[" in s[s.rfind("\n", 0, a) + 1:a]:
                    continue
                n += 1
                if skip and not skip[0] <= n - 1 < skip[1]:
                    continue
                cuts.append((a, b, t))
                last = b
            for a, b, t in reversed(cuts):
                s = s[:a] + t + s[b:]
        open(r + "/" + f, "w").write(s + rest)
    return n


def builds():
    p = subprocess.run("cargo check --offline --all-features --target-dir %s/t 2>&1" % D, shell=True, cwd=D + "/r", capture_output=True, text=True)
    return p.returncode == 0, p.stdout


def check(i):
    e = dict(os.environ, JMT_REPO=D + "/r", JMT_BUILD=D + "/b", JMT_EVIDENCE=D + "/ev")
    p = subprocess.run([sys.executable, CHK, i], env=e, capture_output=True, text=True)
    bad = [l.strip()[:150] for l in p.stdout.splitlines() if l.startswith("  ")][:4] if p.returncode == 1 else []
    und = re.search(r"(\d+) undetermined", p.stdout)
    return i, p.returncode, int(und.group(1)) if und else 0, bad


def main():
    a = sys.argv[1:]
    only = skip = None
    if "--only" in a:
        k = a.index("--only")
        only = a[k + 1]
        del a[k:k + 2]
    if "--skip" in a:
        k = a.index("--skip")
        skip = tuple(map(int, a[k + 1].split(":")))
        del a[k:k + 2]
    subprocess.run("mkdir -p %s && [ -d %s/r ] || git clone -q /repo %s/r" % (D, D, D), shell=True)
    ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for name in a or list(T):
        n = apply(name, only, skip)
        ok, log = builds()
        if not ok:
            # leave out the sites the compiler refuses, one file at a time
            print("%-8s %d sites: does not build\n%s" % (name, n, "\n".join(re.findall(r"(?m)^error.*\n +--> .*", log)[:6])), flush=True)
            continue
        check(ids[0])
        with ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
            rs = list(ex.map(check, ids))
        print("%-8s %d sites: %s" % (name, n, "; ".join(
            "%s rc=%d und=%d %s" % (i, rc, u, " / ".join(b)) for i, rc, u, b in rs if rc or u) or "quiet"), flush=True)


if __name__ == "__main__":
    main()

"""Node bookkeeping: children array, counts, constructors, keys."""
from rules import prop
from rules.domain import *
from rules.nodes import *
from spec import *
from terms import *


def final(root):
    return lambda s, v: s.env.get(("O", root), root)


class Slots(M):
    """the array with slot i replaced"""

    def __init__(self, arr, i, m):
        self.arr, self.i, self.mm = arr, i, m

    def m(self, X, st, v):
        if v.op != "store" or v.a[0] is not self.arr:
            return False, "is %s, expected one slot replaced" % short(v, 120)
        if v.a[1] is not self.i:
            return (False if known_space(v.a[1]) else None), "replaces slot %s, expected %s" % (short(v.a[1], 60), short(self.i, 60))
        return match(X, st, self.mm, v.a[2])


@prop("C10", floor=8)
def children(c, rep):
    n = NN(c)
    S = Par("self")
    arr, num = Fld(S, n.arr), Fld(S, n.num)
    i = Fld(Par("a1"), "0")
    slot = Idx(arr, i)
    put = lambda s, v: Tup(Fld(s.env.get(("O", S), S), n.num), s.env.get(("O", arr), Fld(s.env.get(("O", S), S), n.arr)))
    b = c.method("Children", "insert")
    X, rs = c.run(b)
    for k, d in (("Some", 0), ("None", 1)):
        table(rep, X, "insert over %s" % k, where(b), [r for r in rs], [
            Row("slot", [Is(slot, k)], Tu(Add(num, Int(d)), Slots(arr, i, Con("Some", Par("a2"))))),
            Row("other", [Is(slot, "None" if k == "Some" else "Some")], Any())], value=put)
    b = c.method("Children", "remove")
    X, rs = c.run(b)
    for k, d in (("Some", 1), ("None", 0)):
        table(rep, X, "remove %s" % k, where(b), rs, [
            Row("slot", [Is(slot, k)], Tu(Sub(num, Int(d)), OneOf(Slots(arr, i, Con("None")), *([arr] if k == "None" else [])))),
            Row("other", [Is(slot, "None" if k == "Some" else "Some")], Any())], value=put)
    for nm, want in (("get", slot), ("is_empty", Eq(num, Int(0))), ("num_children", num)):
        b = c.method("Children", nm)
        X, rs = c.run(b)
        bool_table(rep, X, nm, where(b), rs, want) if nm == "is_empty" else table(
            rep, X, nm, where(b), rs, [Row("all", [], want)])


def bool_table(rep, X, nm, site, rs, want):
    table(rep, X, nm, site, rs, [Row("yes", [want], OneOf(TRUE, want), optional=True),
                                 Row("no", [Not(want)], OneOf(FALSE, want), optional=True)])


@prop("C10", floor=8)
def counts(c, rep):
    n = NN(c)
    S = Par("self")
    b = c.method("InternalNode", "new")
    X, rs = c.run(b)
    ch = Par("a0")
    num = Fld(ch, n.num)
    table(rep, X, "InternalNode::new", where(b), rs, [Row("all", [], Fields(**{
        n.children: ch, n.count: OneOf(leafcount_fold(n, ch), Reduce(n, ch))}))])
    # a node without children, or with one leaf only, cannot be built
    empty = [(s, v) for s, v in rs if consistent(s.facts, [Eq(num, Int(0))]) is not None]
    und = [s for s, v in empty if alien_path(X, s) is not None]
    rep.put(True if not empty else (None if und else False), "InternalNode::new/no children", where(b),
            "a node without children can be built: %s" % (describe(empty[0][0].facts) if empty else ""))
    lone = []
    for s, v in rs:
        for w in worlds(s.facts):
            if consistent(w, [Eq(num, Int(1))]) is None:
                continue
            kinds = [t for t, x in w.items() if isinstance(t, Term) and t.op == "is" and t.a[1] in ("Leaf", "Internal")
                     and t.a[0].op == "fld" and t.a[0].a[1] == "node_type"]
            if not any((t.a[1] == "Internal") == w[t] for t in kinds):
                lone.append((w, s))
    und = [s for w, s in lone if alien_path(X, s) is not None or any(
        isinstance(t, Term) and t.op in ("forall", "apply") for t in w)]
    rep.put(True if not lone else (None if und else False), "InternalNode::new/lone leaf", where(b),
            "a node whose only child is a leaf can be built: %s" % (describe(lone[0][0]) if lone else ""))
    for ty, nm, rows in (
        ("Node", "leaf_count", [Row("null", [Is(S, "Null")], Int(0)), Row("leaf", [Is(S, "Leaf")], Int(1)),
                                Row("internal", [Is(S, "Internal")], Fld(Fld(As(S, "Internal"), "0"), n.count))]),
        ("Node", "node_type", [Row("leaf", [Is(S, "Leaf")], Con("Leaf")),
                               Row("internal", [Is(S, "Internal")], Con("Internal", Fld(Fld(As(S, "Internal"), "0"), n.count)))]),
        ("Child", "leaf_count", [Row("leaf", [Is(Fld(S, "node_type"), "Leaf")], Int(1)),
                                 Row("internal", [Is(Fld(S, "node_type"), "Internal")],
                                     Fld(As(Fld(S, "node_type"), "Internal"), "leaf_count"))]),
        ("InternalNode", "leaf_count", [Row("all", [], Fld(S, n.count))]),
        ("InternalNode", "node_type", [Row("all", [], Con("Internal", Fld(S, n.count)))]),
    ):
        b = c.method(ty, nm)
        X, rs = c.run(b)
        table(rep, X, "%s::%s" % (ty, nm), where(b), rs, rows)
    b = c.method("Child", "is_leaf")
    X, rs = c.run(b)
    bool_table(rep, X, "Child::is_leaf", where(b), rs, Is(Fld(S, "node_type"), "Leaf"))


class Reduce(M):
    """sum of the leaf counts as an iterator reduction"""

    def __init__(self, n, ch):
        self.n, self.ch = n, ch

    def m(self, X, st, v):
        if v.op == "reduce":
            return None, "reduction %s" % short(v, 90)
        return False, "is %s, expected the sum of the children's leaf counts" % short(v, 120)


@prop("C10", floor=6)
def keys(c, rep):
    n = NN(c)
    S = Par("self")
    I = Dom(c).path()
    key = lambda v, p: Fields(**{n.kver: v, n.kpath: p})
    for nm, w in (("gen_child_node_key", key(Par("a1"), T("ppush", Fld(S, n.kpath), Par("a2")))),
                  ("gen_parent_node_key", key(Fld(S, n.kver), T("ppop", Fld(S, n.kpath)))),
                  ("new", key(Par("a0"), Par("a1"))),
                  ("version", Fld(S, n.kver)), ("nibble_path", Fld(S, n.kpath))):
        b = c.method("NodeKey", nm)
        X, rs = c.run(b, intr=I)
        table(rep, X, "NodeKey::%s" % nm, where(b), rs, [Row("all", [], w)])
    b = c.method("NodeKey", "set_version")
    X, rs = c.run(b)
    table(rep, X, "NodeKey::set_version", where(b), rs, [Row("all", [], key(Par("a1"), Fld(S, n.kpath)))], value=final(S))
    b = c.method("NodeKey", "new_empty_path")
    X, rs = c.run(b)
    table(rep, X, "NodeKey::new_empty_path", where(b), rs, [Row("all", [], key(Par("a0"), Fields(
        **{c.field("NibblePath", "num_nibbles", 0): Int(0), c.field("NibblePath", "bytes", 1): SeqOf()})))])

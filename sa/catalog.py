"""The properties, and how each is claimed.  `python3 sa/catalog.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEF = "src/types/proof/definition.rs"
PRF = "src/types/proof.rs"
PROPS = []
NA = []
TABLE = "path-sensitive provenance dataflow over rustc MIR, every path compared with a decision table"
NOTE = ("Every MIR path of the named functions (helpers inlined, loops summarised) is compared with the property's "
        "decision table on the current tree. Trusted: rustc's MIR, the engine's models of std/anyhow/digest, the "
        "SimpleHasher contract. Where the engine cannot determine a value the obligation is reported as undetermined "
        "in the evidence and raises no alarm.")


def P(id, title, statement, over, qtext, why, files, mech, technique=TABLE, note=NOTE, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, **k))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech)
    NA.append((id, reason))


exec(open(os.path.join(VERIF, "sa", "catalog_items.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    na = {i for i, _ in NA}
    m = dict(version=1, setup_cmd="python3 sa/facts.py all", checks=[], not_applicable=[
        dict(property=i, reason=r) for i, r in NA])
    for p in PROPS:
        if p["id"] in na:
            continue
        m["checks"].append(dict(
            property=p["id"], quick_cmd="python3 sa/check.py %s" % p["id"],
            thorough_cmd="python3 sa/check.py %s --thorough" % p["id"],
            technique=p["technique"], level="other", level_note=p["note"]))
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()

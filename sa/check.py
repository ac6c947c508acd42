"""Run the static rules of one property on /repo's current source.

usage: check.py ID [--thorough] [--repo-config CONFIG...]
exit 0: every obligation holds (or is a listed known finding / undetermined)
exit 1: VIOLATION lines printed
exit 2: no answer (the tree does not build)
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts as F
from spec import Ctx, Report, Anchor, Undet
from engine import Unsupported, Budget
import rules

VERIF = F.VERIF
QUICK = ["all"]
THOROUGH = ["all", "all-rel", "default", "none", "nomig"]


def known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                pid, _, rest = line[len("finding: property="):].partition(" ")
                key, _, what = rest.partition(" | ")
                out.append((pid, key.strip(), what.strip()))
    return out


BASE = {"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C22"}
MORE = {"C14": {"C13"}, "C16": {"C13"}, "C30": {"C13", "C15", "C16"}, "C27": {"C04"}, "C20": {"C17", "C23"}, "C21": {"C23"}}
APART = {"C05", "C31", "C32", "C33", "C34"}    # properties of the whole crate, decided without abstractions of its functions
BITS = (("iter_bits", "HashValueBitIterator"), ("NibblePath::bits", "BitIterator"), ("NibblePath::nibbles", "NibbleIterator"),
        ("get_nibble_path", "NibbleIterator"), ("visited_nibbles", "NibbleIterator"), ("remaining_nibbles", "NibbleIterator"))


def relied(pid, c, facts, cfg):
    """[(function, owner, obligation, site, status, detail)]: the obligations about the functions whose abstraction the analysis of the
    property relies on, and those their own analysis relies on in turn"""
    if pid in APART:
        return []
    owners = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "owners.json")))
    may = BASE | MORE.get(pid, set())
    todo = sorted(set().union(*c.used.values())) if c.used else []
    done, ctx, out = set(), {}, []
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        for a, b in BITS:
            if f.endswith(a):
                todo += [x for x in owners if b in x and " as " in x and not x.endswith(("::clone", "::fmt", "::eq"))]
        qs = owners.get(f, ())
        if pid in qs:
            continue
        for q in qs:
            if q not in may:
                continue
            if q not in ctx:
                c2, rep = Ctx(facts, cfg), Report(q, cfg)
                for r in rules.RULES[q]:
                    try:
                        r(c2, rep)
                    except Exception:       # undecided there, and reported as such by its own check
                        pass
                kn = {k for p, k, _ in known() if p == q}
                ctx[q] = (c2, [o for o in rep.obs if "%s @ %s" % (o[0], o[1]) not in kn])
            c2, obs = ctx[q]
            out += [(f, q) + tuple(o) for o in obs if o[1].split(" (src/")[0] == f]
            todo += c2.used.get(f, ())
    return out


def run(pid, configs, dbg=False):
    obs, analysed, lost = {}, set(), []
    for cfg in configs:
        facts = F.facts(cfg)
        c = Ctx(facts, cfg)
        rep = Report(pid, cfg)
        for f in rules.RULES[pid]:
            try:
                f(c, rep)
            except Anchor as e:
                lost.append(str(e))
                rep.undet("anchor/%s" % f.__name__, pid, str(e))
            except (Unsupported, Budget, RecursionError, Undet) as e:
                rep.undet("engine/%s" % f.__name__, pid, "%s: %s" % (type(e).__name__, str(e)[:200]))
                if dbg:
                    traceback.print_exc()
            except Exception as e:      # a shape of code the rule does not expect: undecided, never an alarm
                rep.undet("rule/%s" % f.__name__, pid, "%s: %s" % (type(e).__name__, str(e)[:200]))
                if dbg:
                    traceback.print_exc()
        for name, site, status, detail in rep.obs:
            k = (name, site)
            old = obs.get(k)
            rank = {"ok": 0, "undetermined": 1, "violation": 2}
            if old is None or rank[status] > rank[old[0]]:
                obs[k] = (status, detail, cfg)
        analysed |= c.analysed
        for f, q, name, site, status, detail in relied(pid, c, facts, cfg):
            if status != "undetermined":
                k = ("relied on, %s: %s" % (q, name), site)
                if status == "violation" or k not in obs:
                    obs[k] = (status, detail, cfg)
    return obs, analysed, lost


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv
    dbg = "--debug" in sys.argv
    rules.load()
    t0 = time.time()
    configs = THOROUGH if thorough else QUICK
    ev = os.path.join(os.environ.get("JMT_EVIDENCE", os.path.join(VERIF, "evidence")), pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(
        os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    try:
        obs, analysed, lost = run(pid, configs, dbg)
    except F.BuildError as b:
        print("property %s: no answer: %s" % (pid, b))
        return 2
    kn = [(k, w) for p, k, w in known() if p == pid]
    viol, finds = [], []
    for (name, site), (st, detail, cfg) in sorted(obs.items()):
        if st == "violation":
            key = "%s @ %s" % (name, site)
            m = [w for k, w in kn if k == key]
            (finds if m else viol).append((key, detail, cfg, m))
    n_ok = sum(1 for v in obs.values() if v[0] == "ok")
    und = [(k, v) for k, v in sorted(obs.items()) if v[0] == "undetermined"]
    os.makedirs(os.path.join(F.BUILD, "replay"), exist_ok=True)
    for i, (key, detail, cfg, _) in enumerate(viol):
        rp = os.path.join(F.BUILD, "replay", "%s-%d.txt" % (pid, i))
        open(rp, "w").write("property %s\nconfig %s\nobligation %s\n%s\nreplay: python3 %s %s%s\n" % (
            pid, cfg, key, detail, os.path.abspath(__file__), pid, " --thorough" if thorough else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s\n  %s" % (key, detail[:700]))
    for key, detail, cfg, m in finds:
        print("KNOWN-FINDING: property=%s %s" % (pid, m[0] or key))
    ent = [x for x in manifest.get("checks", []) if x["property"] == pid]
    tech = ent[0]["technique"] if ent else ""
    cov = {"obligations": len(obs), "discharged": n_ok, "undetermined": len(und),
           "known_findings": len(finds), "configurations": configs,
           "functions_analysed": len(analysed), "functions": sorted(analysed)[:400],
           "explanation": "static analysis of the MIR of the current tree, nothing is run: " + tech,
           "obligation_list": ["%s @ %s: %s" % (k[0], k[1], v[0]) for k, v in sorted(obs.items(), key=lambda x: (x[0][0].startswith("relied on"), x[0]))][:400],
           "undetermined_list": ["%s @ %s: %s" % (k[0], k[1], v[1][:300]) for k, v in und][:60]}
    level = ent[0]["level"] if ent else "other"
    json.dump({"property": pid, "tier": "thorough" if thorough else "quick",
               "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
               "assumptions": ["the std/anyhow/borsh/serde/sha2 functions behave as modelled in sa/models.py",
                               "SimpleHasher implementations hash the concatenation of the updates (SimpleHasher contract)"],
               "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, open(ev, "w"), indent=1)
    if not viol and not lost and sum(not k[0].startswith("relied on") for k in obs) < rules.FLOOR.get(pid, 1):
        print("property %s: only %d obligations (normally at least %d)" % (pid, len(obs), rules.FLOOR[pid]))
    print("property %s: %d obligations, %d discharged, %d undetermined, %d known findings, %d violations [%s] %.1fs" % (
        pid, len(obs), n_ok, len(und), len(finds), len(viol), ",".join(configs), time.time() - t0))
    if dbg:
        for k, v in und:
            print("  UNDET", k[0], "@", k[1], v[1][:400])
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())

"""Build the rustc driver and extract resolved-program facts (MIR, types, impls) from /repo.

Every call re-reads /repo's current working tree: the facts file is keyed by a hash of every
source file and manifest; the compiler is re-run when the key differs.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys
import alias

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JMT_REPO", "/repo")
BUILD = os.environ.get("JMT_BUILD", os.path.join(VERIF, "build"))
CARGO_HOME_BIN = "/root/.cargo/bin"

CONFIGS = {
    # name: (cargo feature flags, debug assertions)
    "all": (["--all-features"], True),
    "all-rel": (["--all-features"], False),
    "default": ([], True),
    "none": (["--no-default-features"], True),
    "nomig": (["--features", "mocks,blake3_tests"], True),
}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = CARGO_HOME_BIN + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_TARGET", "JMT_FACTS_OUT", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def _run(cmd, env, what, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, r.returncode, r.stdout[-4000:]))
    return r.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], _env(), "rustc sysroot").strip()
    return _sysroot


def driver():
    src = hashlib.sha256()
    for p in ("driver/src/main.rs", "driver/Cargo.toml"):
        src.update(open(os.path.join(VERIF, p), "rb").read())
    key = src.hexdigest()
    out = os.path.join(BUILD, "driver/release/jmt-facts")
    stamp = os.path.join(BUILD, "driver.key")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    _run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path",
          os.path.join(VERIF, "driver/Cargo.toml"), "--target-dir", os.path.join(BUILD, "driver")],
         _env(), "driver build")
    open(stamp, "w").write(key)
    return out


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "proptest-regressions"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                out.append(os.path.join(root, f))
    return out


def repo_key():
    h = hashlib.sha256()
    for p in repo_files():
        h.update(p.encode())
        h.update(b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    for p in ("driver/src/main.rs",):
        h.update(open(os.path.join(VERIF, p), "rb").read())
    return h.hexdigest()


def facts(config="all"):
    """-> parsed facts dict for the configuration, from /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(VERIF, "Cargo.lock.jmt"), lock)
        key = repo_key()
        out = os.path.join(BUILD, "facts-%s.json" % config)
        stamp = out + ".key"
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
            for p in (out, stamp):
                if os.path.exists(p):
                    os.unlink(p)
            flags, dbg = CONFIGS[config]
            tgt = os.path.join(BUILD, "target")
            e = _env()
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
            e["CARGO_TARGET_DIR"] = tgt
            e["CARGO_INCREMENTAL"] = "0"
            e["JMT_FACTS_OUT"] = out
            e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Awarnings"
            if not dbg:
                e["RUSTFLAGS"] += " -Cdebug-assertions=off -Coverflow-checks=on"
            # one target dir per rustflags set: dependencies stay warm
            e["CARGO_TARGET_DIR"] = tgt + ("" if dbg else "-rel")
            # cargo's freshness cache would skip the wrapper: forget this crate's own units
            for sub in ("debug/.fingerprint", "debug/build", "debug/deps"):
                d0 = os.path.join(e["CARGO_TARGET_DIR"], sub)
                if os.path.isdir(d0):
                    for d in os.listdir(d0):
                        if d == "jmt" or d.startswith(("jmt-", "libjmt-")):
                            q = os.path.join(d0, d)
                            shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
            _run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path",
                  os.path.join(REPO, "Cargo.toml")] + flags, e, "fact extraction (%s)" % config)
            if not os.path.exists(out):
                raise BuildError("driver wrote no facts for %s" % config)
            open(stamp, "w").write(key)
        # one name per item: std re-exports and the core/alloc originals are the same thing
        txt = re.sub(r'(?<![\w:])(core|alloc)::', 'std::', open(out).read())
        txt = re.sub(r'(?<![\w:])hashbrown::(hash_map::|hash_set::)?(HashMap|HashSet)', r'std::collections::\2', txt)
        txt = re.sub(r'(?<![\w:])hashbrown::(hash_map|hash_set)::', r'std::collections::\1::', txt)
        txt = re.sub(r"(std::collections::hash_map::(?:Vacant|Occupied)?Entry::<'a, K, V), S, A>", r'\1, A>', txt)
        return alias.apply(txt)


if __name__ == "__main__":
    for c in sys.argv[1:] or CONFIGS:
        f = facts(c)
        print(c, len(f["bodies"]), "bodies")

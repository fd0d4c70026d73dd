"""Builds the MIR dumper and the type-level context, and dumps the MIR of the
two programs from /repo's current working tree."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
RUSTC = NIGHTLY + "/bin/rustc"


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def h(*paths):
    m = hashlib.sha256()
    for p in paths:
        m.update(open(p, "rb").read())
    return m.hexdigest()[:16]


def setup():
    """Idempotent; safe to run concurrently."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(CACHE, "mirdump-" + h(os.path.join(VERIF, "driver/main.rs")))
        if not os.path.exists(drv):
            rc, out = run([RUSTC, "--edition", "2021", "-C", "opt-level=1",
                           os.path.join(VERIF, "driver/main.rs"), "-o", drv + ".tmp"], cwd=CACHE)
            if rc:
                raise BuildError("mirdump does not build:\n" + out)
            os.rename(drv + ".tmp", drv)
        dh = h(os.path.join(VERIF, "stub/decimal/src/lib.rs"), os.path.join(VERIF, "stub/deps/Cargo.toml"),
               os.path.join(VERIF, "stub/deps/Cargo.lock"), os.path.join(HERE, "rustc-wrap.sh"))
        stamp = os.path.join(CACHE, "deps-" + dh)
        tgt = os.path.join(CACHE, "target")
        if not os.path.exists(stamp):
            env = {"RUSTC": os.path.join(HERE, "rustc-wrap.sh"), "VP_RUSTC": RUSTC,
                   "RUSTFLAGS": "--cap-lints=allow", "CARGO_TARGET_DIR": tgt}
            rc, out = run(["cargo", "+1.70.0", "check", "--offline", "--locked", "--manifest-path",
                           os.path.join(VERIF, "stub/deps/Cargo.toml")], env=env, cwd=CACHE)
            if rc:
                raise BuildError("type-level context does not build:\n" + out[-3000:])
            ext = {}
            for c in ("anchor_lang", "anchor_spl", "decimal"):
                f = sorted(glob.glob(os.path.join(tgt, "debug/deps/lib%s-*.rmeta" % c)), key=os.path.getmtime)
                ext[c] = f[-1]
            with open(stamp + ".tmp", "w") as f:
                json.dump(ext, f)
            os.rename(stamp + ".tmp", stamp)
        ext = json.load(open(stamp))
    return drv, tgt, ext


def tree_hash(src, extra):
    m = hashlib.sha256(extra.encode())
    for d, ds, fs in sorted(os.walk(src)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            m.update(os.path.relpath(p, src).encode())
            m.update(open(p, "rb").read())
    return m.hexdigest()[:20]


def dump(prog, features=(), repo=None):
    """MIR dump (dict) of programs/<prog> of the repository's working tree."""
    repo = repo or REPO
    drv, tgt, ext = setup()
    src = os.path.join(repo, "programs", prog, "src")
    root = os.path.join(src, "lib.rs")
    key = "%s-%s" % (prog, tree_hash(src, os.path.basename(drv) + ext["decimal"] + ",".join(features) + src))
    out = os.path.join(CACHE, key + ".json")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        odir = os.path.join(CACHE, "out-%d" % os.getpid())
        os.makedirs(odir, exist_ok=True)
        cmd = [drv, "--sysroot", NIGHTLY, "--crate-name", prog, "--edition=2021", root, "--crate-type", "lib",
               "--emit=metadata", "-C", "overflow-checks=on", "-C", "debug-assertions=off", "-Zmir-opt-level=0",
               "--cap-lints=allow", "-L", "dependency=" + os.path.join(tgt, "debug/deps"), "--out-dir", odir]
        for c, p in ext.items():
            cmd += ["--extern", "%s=%s" % (c, p)]
        for f in features:
            cmd += ["--cfg", 'feature="%s"' % f]
        rc, o = run(cmd, env={"LD_LIBRARY_PATH": NIGHTLY + "/lib", "MIRDUMP_OUT": tmp,
                              "CARGO_MANIFEST_DIR": os.path.join(repo, "programs", prog)})
        if rc or not os.path.exists(tmp):
            raise BuildError("programs/%s does not type-check:\n%s" % (prog, o[-4000:]))
        os.rename(tmp, out)
        try:
            os.rmdir(odir)
        except OSError:
            pass
    return json.load(open(out))


LEFT_OUT_MODELS = ["farmer", "tests"]
LEFT_OUT_ENDPOINTS = ["airdrop", "claim_eligible_harvest", "close_farmer", "compound_across_farms", "compound_same_farm",
                      "create_farmer", "start_farming", "stop_farming", "update_eligible_harvest"]

def dump_partial(features=()):
    """MIR dump of the farm side of programs/farming alone, for trees on which the
    farmer side does not type-check (the project's build here does not compile it)"""
    import re, shutil
    def drop_mods(t, names):
        alt = "|".join(names)
        return re.sub(r"^(#\[cfg\(test\)\]\n)?(pub )?(mod (%s)|use (%s)::\*);\n" % (alt, alt), "", t, flags=re.M)
    def drop_fns(t, pat):
        fn = re.compile(r"^((?:    ///[^\n]*\n)*    pub fn .*?^    \}\n)", re.M | re.S)
        return fn.sub(lambda m: "" if re.search(pat, m[1]) else m[1], t)
    filt = {"lib.rs": lambda t: drop_fns(t, r"endpoints::(%s)::" % "|".join(LEFT_OUT_ENDPOINTS)),
            "endpoints.rs": lambda t: drop_mods(t, LEFT_OUT_ENDPOINTS),
            "models.rs": lambda t: drop_mods(t, LEFT_OUT_MODELS),
            "prelude.rs": lambda t: drop_fns(re.sub(r"^pub use decimal::[^;]*;\n", "", t, flags=re.M), r"\bAvailableHarvest\b")}
    left = {"models/%s.rs" % m for m in LEFT_OUT_MODELS} | {"endpoints/%s.rs" % e for e in LEFT_OUT_ENDPOINTS}
    src = os.path.join(REPO, "programs/farming/src")
    tmp = os.path.join(CACHE, "partial-%d" % os.getpid())
    dst = os.path.join(tmp, "programs/farming/src")
    try:
        for top, _, files in os.walk(src):
            for n in files:
                p = os.path.join(top, n)
                rel = os.path.relpath(p, src)
                if rel in left or not n.endswith(".rs"): continue
                t = open(p, encoding="utf-8").read()
                os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
                with open(os.path.join(dst, rel), "w", encoding="utf-8") as f: f.write(filt.get(rel, lambda x: x)(t))
        return dump("farming", features, repo=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    setup()
    for p in ("farming", "amm"):
        d = dump(p)
        print(p, len(d["bodies"]), "bodies", "%.1fs" % (time.time() - t))

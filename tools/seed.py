"""Planted bugs: definitions in seeds_*.py, written to /verif/seeded/<id>/ by
   python3 tools/seed.py write [ids]
and verified (patch applies, builds, stable tests pass, demo 0/nonzero, check reports) by
   python3 tools/seed.py verify [ids]"""
import json, os, shutil, subprocess, sys, glob, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(ROOT, "tools/sim")
OUT = os.path.join(ROOT, "seeded")
SEEDS = {}

def seed(id, prop, prog, needs, breaks, edits, main):
    assert id not in SEEDS
    SEEDS[id] = dict(id=id, prop=prop, prog=prog, needs=needs, breaks=breaks, edits=edits, main=main)

def load():
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    sys.modules["seed"] = sys.modules[__name__]
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])

def write(s):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/rf/seed-%s" % s["id"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", w])
    for f, old, new in s["edits"]:
        p = os.path.join(w, "programs", s["prog"], "src", f)
        t = open(p).read()
        if t.count(old) != 1: raise SystemExit("%s: %d occurrences in %s of\n%s" % (s["id"], t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    for f in ("sim.rs", "decimal.rs", "Cargo.lock"): shutil.copy(os.path.join(SIM, f), d)
    shutil.copy(os.path.join(SIM, "demo.sh"), d)
    shutil.copy(os.path.join(SIM, "fx_%s.rs" % s["prog"]), d + "/fx.rs")
    open(d + "/program", "w").write(s["prog"] + "\n")
    open(d + "/demo.rs", "w").write("mod sim;\nmod fx;\n#[allow(unused_imports)]\nuse fx::*;\n" + s["main"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def sh(cmd, cwd=None, env=None, t=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout

def verify(s, full=True):
    """on a private copy of the repository; the official build and test scripts run on /repo, see vcheck"""
    d = os.path.join(OUT, s["id"])
    w = "/tmp/rf/v-%s" % s["id"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", w])
    # the demo lies elsewhere when it counts
    e = "/tmp/rf/d-%s" % s["id"]
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(d, e, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = {}
    r, o = sh(["bash", e + "/demo.sh"], cwd=w); res["clean"] = r
    if r: print(s["id"], "demo fails on clean tree\n", o[-3000:])
    r, o = sh(["git", "apply", d + "/patch.diff"], cwd=w); res["apply"] = r
    if r: print(o)
    r, o = sh(["bash", e + "/demo.sh"], cwd=w); res["patched"] = r; res["why"] = [l for l in o.splitlines() if l.strip()][-3:]
    if s["prog"] == "farming" or True:
        res["tests"] = tests(w)
    env = dict(os.environ, VP_REPO=w, VP_CACHE="/tmp/rf/cache-%s" % s["id"])
    r, o = sh(["python3", os.path.join(ROOT, "sa/check.py"), s["prop"]], cwd=ROOT, env=env, t=900)
    res["check"] = r; res["viol"] = [l for l in o.splitlines() if "VIOLATION" in l][:1]
    for x in (w, e, "/tmp/rf/cache-%s" % s["id"]): shutil.rmtree(x, ignore_errors=True)
    ok = res["clean"] == 0 and res["patched"] not in (0, 2) and res["tests"] == "ok" and r == 1
    print("%-4s %s %s" % ("OK" if ok else "BAD", s["id"], res), flush=True)
    return ok

def tests(w):
    """the stable tests, built as /opt/vp/partial does but away from it"""
    t = w + "-t"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    rc, o = sh(["bash", "-c", """set -e
. /opt/vp/env.sh
cp -a /opt/vp/partial/. %(t)s/
sed -i 's#/opt/vp/partial#%(t)s#g; s#/repo#%(w)s#g' %(t)s/mirror.py
export CARGO_TARGET_DIR=%(t)s/target
python3 %(t)s/mirror.py
cd %(t)s/farming
cargo test --locked --offline --no-fail-fast -- --test-threads 4 2>&1 | tail -60
cd %(w)s
for f in programs/*/src/lib.rs; do rustfmt --edition 2021 --emit stdout $f >/dev/null; done
""" % dict(t=t, w=w)])
    shutil.rmtree(t, ignore_errors=True)
    if rc: return "build " + o[-600:]
    fails = [l for l in o.splitlines() if l.startswith("test ") and "FAILED" in l]
    n = sum(1 for l in o.splitlines() if l.startswith("test ") and l.endswith("ok"))
    return "ok" if not fails and n >= 30 else "%d ok, fails %s" % (n, fails or o[-400:])

if __name__ == "__main__":
    load()
    os.makedirs("/tmp/rf", exist_ok=True)
    ids = sys.argv[2:] or list(SEEDS)
    if sys.argv[1] == "write":
        for i in ids: write(SEEDS[i])
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda i: verify(SEEDS[i]), ids))
        print(sum(rs), "of", len(rs))

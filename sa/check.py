"""Decides one property (or several) on /repo's current working tree.

usage: check.py PROPERTY [...] [--tier quick|thorough]

Each property is a set of rules over units; a unit is an instruction entry
point or a function, analysed on every path by the abstract interpreter."""
import argparse, signal, hashlib, json, os, re, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.json")

import build, names
from term import *
from interp import Program, Imprecise
import roots, fns, q as qmod
from q import Q, Missing, evs

class Unit:
    """what a rule looks at: an analysed instruction or function"""
    def __init__(self, prog, kind, name):
        self.prog, self.kind, self.name = prog, kind, name
        self.E = None
        self.states = []      # instructions: successful final states; functions: (state, value)
        self.file = self.func = None

class Ob:
    """obligations of one property on one unit"""
    def __init__(self, prop, unit):
        self.prop, self.u = prop, unit
        self.items = {}       # (rule, detail) -> [ok, bad, undecided, explanation]
        self.q = None

    def __call__(self, rule, cond, detail="", show_=None, where=None):
        k = (rule, detail, where or "%s:%s" % (self.u.file, self.u.func))
        r = self.items.setdefault(k, [0, 0, 0, None])
        if cond is True: r[0] += 1; return True
        if cond is None or (self.q is not None and tainted(self.q, self.u)): r[2] += 1
        else: r[1] += 1
        if r[3] is None:
            r[3] = explain(self.u, self.q, show_)
        return False

def tainted(q, u):
    """an unmodelled library function decides this state"""
    if not u.E or not u.E.unknown: return False
    names = set(u.E.unknown)
    for c in q.f.items:
        for x in subterms(c):
            if x.op in ("app", "eff") and x.args[0] in names: return True
    for k, v in q.st.mem.items():
        if k.op in ("data", "mem"):
            for x in subterms(v):
                if x.op in ("app", "eff") and x.args[0] in names: return True
    def ev(e):
        if isinstance(e, Term): return any(x.op in ("app", "eff") and x.args[0] in names for x in subterms(e))
        if isinstance(e, tuple): return any(ev(x) for x in e)
        return False
    return any(ev(e) for e in q.st.ev)

def explain(u, q, extra):
    out = []
    if extra is not None: out.append(extra if isinstance(extra, str) else show(extra)[:2000])
    if q is not None:
        nm = {a: n for a, n in (u.E.acct_names.items() if u.E else ())}
        if nm: out.append("accounts: " + ", ".join("%s=%s" % (show(a), n) for a, n in nm.items()))
        out.append("facts established on this path:")
        for c in q.f.items: out.append("  " + show(c)[:600])
        out.append("final contents:")
        for k, v in q.st.mem.items():
            if k.op == "data": out.append("  %s = %s" % (show(k), show(v)[:1500]))
        out.append("effects, in order:")
        def evt(e):
            if isinstance(e, Term): return show(e)[:500]
            if isinstance(e, tuple): return "(" + ", ".join(evt(x) for x in e) + ")"
            return str(e)
        for e in q.st.ev: out.append("  " + evt(e)[:1500])
    return "\n".join(out)

TIER = "quick"
# ---------------------------------------------------------------- registry
PROPS = {}

class Prop:
    def __init__(self, id): self.id, self.rules = id, []

def rule(prop, prog, kind, names):
    """names: list of instruction / function names, or '*'"""
    def deco(f):
        PROPS.setdefault(prop, Prop(prop)).rules.append((prog, kind, names, f))
        return f
    return deco

def load_rules():
    import rules_farm, rules_farmer, rules_amm, rules_code, rules_math

# ---------------------------------------------------------------- units
_progs = {}
class Prog:
    def __init__(self, name, features=()):
        self.name = name
        self.partial = None
        try:
            d = build.dump(name, features)
        except build.BuildError as e:
            if name != "farming": raise
            d = build.dump_partial(features)
            self.partial = str(e)
        self.p = Program(names.canonical(name, d))

def get_prog(name, features=()):
    k = (name, tuple(features))
    if k not in _progs: _progs[k] = Prog(name, features)
    return _progs[k]

def src_file(prog, mod):
    """repository file of a module path like farming::endpoints::swap"""
    parts = mod.split("::")
    if parts[0] == prog: parts = parts[1:]
    base = os.path.join("programs", prog, "src")
    while parts:
        for c in (os.path.join(base, *parts) + ".rs", os.path.join(base, *parts, "mod.rs")):
            if os.path.exists(os.path.join(build.REPO, c)): return c
        parts = parts[:-1]
    return base + "/lib.rs"

T_END = None
def late(*_): raise Imprecise("time limit")

def run_unit(args):
    try:
        if T_END is not None:
            # what is not finished by then is reported as undecided
            signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, max(5, T_END - time.time()), 5)
        return run_unit_(args)
    except Imprecise as e:
        prog, kind, name, features, rids = args
        return {"unit": "%s/%s/%s" % (prog, kind, name), "error": ("imprecise", str(e)), "unknown": {}, "states": 0, "fns": 0, "steps": 0, "wall": 0.0,
                "obs": [(p, [(("analysed", str(e), "%s:%s" % (prog, name)), [0, 0, 1, None])]) for p in rids]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def run_unit_(args):
    prog, kind, name, features, rids = args
    t = time.time()
    load_rules()
    P = get_prog(prog, features)
    u = Unit(P.p, kind, name)
    u.partial = P.partial
    res = {"unit": "%s/%s/%s%s" % (prog, kind, name, "+" + ",".join(features) if features else ""), "obs": [], "error": None, "unknown": {}, "states": 0, "fns": 0, "steps": 0}
    try:
        if kind == "ix":
            u.func = name
            u.file = "programs/%s/src/lib.rs" % prog
            r = roots.run_ix(P.p, name)
            u.E, u.states, u.refused, u.entered, u.rejected = r.E, r.states, r.refused, r.entered, r.rejected
            u.panics = r.panics
            s = getattr(r.E, "acct_struct", None)
            if s: u.file = src_file(prog, "::".join(s.split("::")[:-1]))
        elif kind == "fn":
            id = fns.find_fn(P.p, name)
            if id is None: raise Missing("function %s not found" % name)
            u.func = name
            u.file = src_file(prog, "::".join(x for x in id.split("::")[:-1] if not x.startswith("{")))
            u.id = id
            r = None
        elif kind == "pool":
            import bounded
            u.func = name.split(":")[0]
            u.file = "programs/%s/src/lib.rs" % prog
            r = bounded.run_pool(P.p, name)
            u.E, u.states, u.refused, u.entered, u.B = r.E, r.states, r.refused, r.entered, r.B
            u.panics = r.panics
            s = getattr(r.E, "acct_struct", None)
            if s: u.file = src_file(prog, "::".join(s.split("::")[:-1]))
        else:
            u.func, u.file = name, "programs/%s" % prog
        if u.E:
            res["unknown"] = dict(u.E.unknown); res["states"] = len(u.states)
            res["fns"] = len(u.E.analysed); res["steps"] = u.E.steps
            res["fnames"] = sorted(u.E.analysed)
    except Missing as e:
        res["error"] = ("missing", str(e))
    except Imprecise as e:
        res["error"] = ("imprecise", str(e))
    except RecursionError as e:
        res["error"] = ("imprecise", "recursion limit")
    except Exception as e:
        res["error"] = ("internal", traceback.format_exc()[-1500:])
    by = {}
    for pid in rids:
        for (pg, kd, names, f) in PROPS[pid].rules:
            if pg != prog or kd != kind: continue
            if not names_of(names, name): continue
            ob = by.setdefault(pid, Ob(pid, u))
            if res["error"]:
                continue
            try:
                if kind in ("ix", "pool") and not getattr(f, "whole", False):
                    for s in u.states:
                        ob.q = Q(P.p, u.E, s).normed()
                        if ob.q is not None and kind == "pool": ob.q = ob.q.settled()
                        if ob.q is None: continue
                        f(u, ob.q, ob)
                    ob.q = None
                else: f(u, ob)
            except Missing as e:
                ob.q = None
                ob("anchor", None, str(e))
            except Imprecise as e:
                ob.q = None
                ob("analysed", None, str(e))
            except Exception as e:
                ob.q = None
                ob("analysed", None, "internal error: " + traceback.format_exc()[-1500:])
    for pid, ob in by.items():
        if res["error"]:
            ob.items[("analysed", "%s: %s" % res["error"], "%s:%s" % (u.file or prog, u.func or name))] = [0, 0, 1, res["error"][1]]
        res["obs"].append((pid, [(k, v) for k, v in ob.items.items()]))
    if u.E is not None and not res.get("steps"):
        pass
    for k in ("unknown",):
        pass
    if getattr(u, "E", None) is not None:
        res["unknown"] = dict(u.E.unknown); res["fns"] = len(u.E.analysed); res["steps"] = u.E.steps
        res["fnames"] = sorted(u.E.analysed)
        res["states"] = len(u.states)
    res["wall"] = time.time() - t
    return res

def names_of(names, name):
    if names == "*": return True
    if callable(names): return name in names("thorough") or name in names("quick")
    return name in names

def units_for(pids, tier):
    need = {}
    for pid in pids:
        for (pg, kd, names, f) in PROPS[pid].rules:
            feats = [()]
            if tier == "thorough" and pg == "farming" and kd == "ix": feats = [(), ("dev",)]
            for ft in feats:
                if names == "*":
                    if kd == "ix": ns = roots.ix_names(get_prog(pg, ft).p)
                    else: ns = ["*"]
                elif callable(names): ns = names(tier)
                else: ns = list(names)
                for n in ns:
                    need.setdefault((pg, kd, n, ft), set()).add(pid)
    return need

def key_of(pid, k):
    rule_, detail, where = k
    return "%s|%s|%s|%s" % (pid, rule_, where, re.sub(r"\d{3,}", "#", detail))

def known_findings():
    try:
        with open(KNOWN) as f: return json.load(f)
    except FileNotFoundError: return {"known": [], "fixed": []}

ASSUME = [
    "Anchor 0.24.2, SPL token and the Solana runtime behave as modelled in sa/anchor.py (account validation code generated by Anchor's macros is itself analysed as compiled)",
    "the external decimal crate computes 18-digit fixed point numbers that truncate on multiplication and division and fail on overflow (type-level stub in stub/decimal, semantics in sa/anchor.py)",
    "two account slots of one instruction hold different accounts unless the code itself compares them",
    "the default feature set unless a unit names another; integer overflow traps (checked separately from the release profile)",
]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    global TIER, T_END
    TIER = a.tier
    T_END = t0 + float(os.environ.get("VP_LIMIT", 600 if TIER == "quick" else 780))
    load_rules()
    pids = sorted(PROPS) if a.props == ["all"] else a.props
    for p in pids:
        if p not in PROPS:
            print("no rules for", p); sys.exit(2)
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    try:
        need = units_for(pids, a.tier)
    except build.BuildError as e:
        # the tree does not type-check: nothing can be shown about it
        for pid in pids:
            rp = os.path.join(EVID, "%s-replay.txt" % pid)
            with open(rp, "w") as f: f.write(str(e))
            write_evidence(pid, a.tier, [], [], t0, [("build", str(e)[:300])], [], str(e)[:2000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        print(str(e)[-3000:])
        sys.exit(1)
    jobs = [(pg, kd, n, ft, tuple(sorted(ps))) for (pg, kd, n, ft), ps in need.items()]
    heavy = ("compound", "swap", "stop_f", "start_f", "update", "deposit")
    jobs.sort(key=lambda j: 0 if any(h in j[2] for h in heavy) else 1)
    if a.j == 1 or len(jobs) == 1:
        results = [run_unit(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(min(a.j, len(jobs)), mp_context=ctx) as ex:
            results = list(ex.map(run_unit, jobs))
    kf = known_findings()
    for pid in pids:
        obs = []
        for r in results:
            for p, items in r["obs"]:
                if p == pid: obs += [(r["unit"], k, v) for k, v in items]
        bad = {}
        und = []
        for unit, k, v in obs:
            if v[1]: bad.setdefault(key_of(pid, k), (unit, k, v))
            elif v[2]: und.append((unit, k, v))
        known = {e["key"]: e for e in kf.get("known", []) if e["property"] == pid}
        viol = []
        for key, (unit, k, v) in sorted(bad.items()):
            if key in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
            else: viol.append((key, unit, k, v))
        floor = FLOORS.get(pid, 1)
        total = sum(v[0] + v[1] + v[2] for _, _, v in obs)
        partial = [n for n, P in _progs.items() if P.partial]
        # what a rule is about may have been dissolved in other code: undecided, and reported as such
        gone = any(k[0] in ("analysed", "anchor") and (k[1].startswith("missing: ") or "not found" in k[1]) for _, k, _ in und)
        if total < floor and not partial and not gone:
            viol.append(("%s|floor" % pid, "", ("floor", "only %d obligations were found, expected at least %d" % (total, floor), "programs"), [0, 1, 0, None]))
        rs = [r for r in results if any(p == pid for p, _ in r["obs"])]
        write_evidence(pid, a.tier, rs, obs, t0, [(k, v[2]) for k, *v in viol], und, None)
        for unit, k, v in und[:20]:
            print("UNDECIDED property=%s rule=%s at %s: %s" % (pid, k[0], k[2], k[1][:300]))
        if viol:
            rc = 1
            for key, unit, k, v in viol[:50]:
                rp = os.path.join(EVID, "%s-%s.txt" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
                with open(rp, "w") as f:
                    f.write("property %s\nrule %s: %s\nat %s (unit %s)\nkey %s\npaths violating: %d, holding: %d\n\n%s\n" % (pid, k[0], k[1], k[2], unit, key, v[1], v[0], v[3] or ""))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  %s: rule %s: %s" % (k[2], k[0], k[1][:400]))
        else:
            print("OK property=%s obligations=%d undecided=%d units=%d (%.1fs)" % (pid, total, len(und), len(rs), time.time() - t0))
    if a.v:
        for r in results: print(r["unit"], "%.1fs" % r["wall"], r["states"], r["unknown"], r["error"])
    sys.exit(rc)

FLOORS = {}

def write_evidence(pid, tier, rs, obs, t0, viol, und, err):
    total = sum(v[0] + v[1] + v[2] for _, _, v in obs)
    ok = sum(v[0] for _, _, v in obs)
    fn = set()
    for r in rs: fn |= set(r.get("fnames", []))
    rules = {}
    for _, k, v in obs:
        e = rules.setdefault(k[0], {"checked": 0, "held": 0, "sites": set()})
        e["checked"] += v[0] + v[1] + v[2]; e["held"] += v[0]; e["sites"].add(k[2])
    for e in rules.values(): e["sites"] = sorted(e["sites"])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": "Path-partitioned dataflow analysis of the compiled program's MIR; every obligation below is a rule applied to one path class of one unit of the current tree." if not err else err,
              "obligations": total, "discharged": ok,
              "units": [{"unit": r["unit"], "path_classes": r["states"], "functions": r["fns"], "blocks_interpreted": r["steps"], "wall_s": round(r["wall"], 2), "unmodelled_calls": r["unknown"], "error": r["error"]} for r in rs],
              "functions_analysed": sorted(fn)[:400], "n_functions": len(fn),
              "rules": rules,
              "undecided": [{"unit": u, "rule": k[0], "detail": k[1][:300], "where": k[2]} for u, k, v in und][:50],
              "violated": [{"key": k, "where": str(w)} for k, w in viol][:50],
              "partial": {str(n): P.partial[:500] for n, P in _progs.items() if P.partial},
          },
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(EVID, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, pid + ".json"))

if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    try:
        main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

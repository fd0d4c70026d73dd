"""Rules name functions, types and fields of the programs. names.json holds the names and signatures they had when the
rules were written; here, things which are gone under their name but are there under another one are given the old name
again in a dump, so that a rename is no change for the rules.
   python3 sa/names.py   writes names.json from the current tree"""
import json, os, re, sys
from collections import Counter
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "names.json")

def type_s(d, i): return re.sub(r"^for<[^>]*> ", "", d["types"][i].get("s", "?")) if i is not None else "?"

def sig(d, b): return [type_s(d, l[0] if isinstance(l, (list, tuple)) else l) for l in b["locals"][1:b["args"] + 1]] + [type_s(d, b["locals"][0][0])]

def own_fn(id, b): return b["kind"] == "fn" and not b.get("derived") and not b.get("expn") and "{closure" not in id and "#promoted" not in id and "::__" not in id

def print_of(d, b):
    """what a body calls and how long it is: a fingerprint to tell functions of one signature apart"""
    c = Counter()
    for bl in b["blocks"]:
        if bl is None: continue
        t = bl[1]
        if t[0] == "call" and t[1] and t[1][0] == "k" and isinstance(t[1][1], dict):
            c[str(t[1][1].get("path") or t[1][1].get("id")).split("::")[-1]] += 1
    c["#blocks"] = len(b["blocks"])
    return c

def alike(a, b):
    u = sum((a | b).values())
    return sum((a & b).values()) / u if u else 1.0

def table(d):
    fns = {}
    for id, b in d["bodies"].items():
        if own_fn(id, b): fns[b["path"]] = {"id": id, "sig": sig(d, b), "print": dict(print_of(d, b))}
    adts = {}
    for p, a in d["adts"].items():
        if not a.get("local") or "::__" in p: continue
        adts[p] = [[v["name"], [[f[0], type_s(d, f[1])] for f in v["fields"]]] for v in a["variants"]]
    return {"fns": fns, "adts": adts}

def parent(p): return p.rsplit("::", 1)[0] if "::" in p else ""
def last(p): return p.rsplit("::", 1)[-1]

def sub_path(text, new, old):
    """old for new, wherever it stands as a whole path"""
    return re.sub(r"(?<!\w)" + re.escape(new) + r"(?!\w)", lambda m: old, text)

def pair(gone, new, cost):
    """one-to-one matches, best first; those that are not clearly best are left alone"""
    out = []
    while True:
        c = sorted(((cost(g, n), g, n) for g in gone for n in new if cost(g, n) is not None), key=lambda x: -x[0])
        if not c: return out
        s, g, n = c[0]
        if any(x[0] == s and (x[1] == g) != (x[2] == n) for x in c[1:]):
            # ambiguous: neither of the two
            gone = [x for x in gone if x != g]; continue
        out.append((g, n))
        gone = [x for x in gone if x != g]; new = [x for x in new if x != n]

def canonical(prog, d, base=None):
    base = base or load().get(prog)
    if not base: return d
    notes = []
    # types
    now = table(d)
    gone = [p for p in base["adts"] if p not in now["adts"]]
    new = [p for p in now["adts"] if p not in base["adts"]]
    if gone and new:
        def flat(p, vs): return json.dumps([[x if len(vs) > 1 else "", fs] for x, fs in vs]).replace(p, "Self")
        def cost(g, n):
            if flat(g, base["adts"][g]) != flat(n, now["adts"][n]) or not any(f for _, f in base["adts"][g]): return None
            return 2 if last(g) == last(n) else 1 if parent(g) == parent(n) else None
        m = pair(gone, new, cost)
        if m:
            t = json.dumps(d)
            for g, n in m:
                t = sub_path(t, n, g); notes.append("type %s is %s" % (g, n))
            d = json.loads(t)
            for g, n in m:
                if g in d["adts"] and len(d["adts"][g]["variants"]) == 1 and d["adts"][g]["kind"] == "struct": d["adts"][g]["variants"][0]["name"] = last(g)
            now = table(d)
    # fields and variants, by position
    for p, vs in base["adts"].items():
        cur = now["adts"].get(p)
        if cur is None or len(cur) != len(vs): continue
        for i, (v, fs) in enumerate(vs):
            cv, cf = cur[i]
            A = d["adts"][p]["variants"][i]
            if cv != v and v not in [x for x, _ in cur] and cv not in [x for x, _ in vs]:
                A["name"] = v; notes.append("variant %s::%s is %s" % (p, v, cv))
            if len(cf) != len(fs): continue
            names = {x for x, _ in fs}
            for j, (f, ty) in enumerate(fs):
                g, gy = cf[j]
                if g != f and gy == ty and f not in {x for x, _ in cf} and g not in names:
                    A["fields"][j][0] = f; notes.append("field %s.%s is %s" % (p, f, g))
    # functions
    gone = [p for p in base["fns"] if p not in now["fns"]]
    new = [p for p in now["fns"] if p not in base["fns"]]
    if gone and new:
        def cost(g, n):
            G, N = base["fns"][g], now["fns"][n]
            if G["sig"] != N["sig"]: return None
            a = alike(Counter(G["print"]), Counter(N["print"]))
            if last(g) == last(n): return 3 + a
            if parent(g) != parent(n): return None
            return 1 + a if a >= 0.4 else None
        m = pair(gone, new, cost)
        if m:
            t = json.dumps(d)
            for g, n in m:
                old, cur = base["fns"][g]["id"], now["fns"][n]["id"]
                if last(g) != last(n): old = parent(cur) + "::" + last(g)
                if old not in d["bodies"]: t = sub_path(t, cur, old)
                t = sub_path(t, n, g)
                notes.append("function %s is %s" % (g, n))
            d = json.loads(t)
    d["names"] = notes
    return d

_loaded = None
def load():
    global _loaded
    if _loaded is None:
        _loaded = json.load(open(FILE)) if os.path.exists(FILE) else {}
    return _loaded

if __name__ == "__main__":
    import build
    build.setup()
    out = {}
    for p in ("farming", "amm"): out[p] = table(build.dump(p))
    json.dump(out, open(FILE, "w"), indent=0, sort_keys=True)
    print({p: (len(out[p]["fns"]), len(out[p]["adts"])) for p in out})

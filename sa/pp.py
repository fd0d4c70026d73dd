import json, sys
from build import dump
def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        k = e[0]
        s = {"d": lambda: "(*%s)" % s, "f": lambda: "%s.%d" % (s, e[1]), "i": lambda: "%s[_%d]" % (s, e[1]),
             "c": lambda: "%s[%s%d]" % (s, "-" if e[3] else "", e[1]), "s": lambda: "%s[%d..%d %s]" % (s, e[1], e[2], e[3]),
             "v": lambda: "(%s as %s)" % (s, e[2]), "n": lambda: s}[k]()
    return s
def op(o, T):
    if o[0] == "k":
        c = o[1]
        if "fn" in c: return "fn:" + (c["rpath"] or c["fn"]) + ("<%s>" % ",".join(T[a]["s"] for a in c["args"]) if c["args"] else "")
        for k in ("int", "bytes", "val", "promoted", "opaque", "zst"):
            if k in c: return "const(%s=%s %s)" % (k, c[k], c.get("path", c.get("of", "")))
        return str(c)
    return place(o[1])
def rv(r, T):
    k = r[0]
    if k == "use": return op(r[1], T)
    if k == "ref": return "&%s%s" % ("mut " if r[1] else "", place(r[2]))
    if k == "bin": return "%s(%s, %s)" % (r[1], op(r[2], T), op(r[3], T))
    if k == "un": return "%s(%s)" % (r[1], op(r[2], T))
    if k == "cast": return "%s as %s [%s]" % (op(r[2], T), T[r[3]]["s"], r[1])
    if k == "discr": return "discr(%s)" % place(r[1])
    if k == "agg": return "%s{%s}" % (r[1], ", ".join(op(o, T) for o in r[2]))
    return str(r)
def show(d, id):
    T = d["types"]; b = d["bodies"][id]
    print("== %s  [%s] args=%d %s" % (id, b["kind"], b["args"], b["span"]))
    for i, l in enumerate(b["locals"]): print("   _%d: %s %s" % (i, T[l[0]]["s"], l[1] or ""))
    for i, bb in enumerate(b["blocks"]):
        if bb is None: continue
        print(" bb%d:" % i)
        for s in bb[0]: print("    %s = %s" % (place(s[0]), rv(s[1], T)))
        t = bb[1]
        if t[0] == "call": print("    %s = %s(%s) -> %s" % (place(t[3]), op(t[1], T), ", ".join(op(o, T) for o in t[2]), t[4]), bb[2].split("/")[-1])
        elif t[0] == "switch": print("    switch %s %s else %s" % (op(t[1], T), t[2], t[3]))
        elif t[0] == "assert": print("    assert %s==%s %s -> %s" % (op(t[1], T), t[2], t[3], t[4]))
        else: print("   ", t)
if __name__ == "__main__":
    d = dump(sys.argv[1])
    for id in d["bodies"]:
        if any(a in id for a in sys.argv[2:]): show(d, id)
    if len(sys.argv) == 2:
        for id in d["bodies"]: print(id, d["bodies"][id]["kind"], d["bodies"][id]["derived"])

"""Function summaries which are used in place of a body only after the body has been shown to satisfy them.

A summary of a function states what it does to every map of up to NHARV entries.  The body is analysed
on one map of every size; only if each analysis yields exactly what the summary states does a caller's
analysis use the summary, otherwise the caller's analysis goes through the body itself.
"""
from term import *
from interp import *
import anchor, models
from anchor import acct, droot, data0

NHARV = 10

def find(prog, name):
    import fns
    try: return fns.find_fn(prog, name)
    except Exception: return None

def field_index(E, path, name):
    ad = E.p.adts.get(path)
    if ad is None: return None
    for i, (n, t) in enumerate(ad["variants"][0]["fields"]):
        if n == name: return i, t
    return None

def set_harvests(prog):
    """Farmer::set_harvests(map): the entries of the map, then unused entries; returns (fn id, hook) or None"""
    c = getattr(prog, "_set_harvests", 0)
    if c != 0: return c
    prog._set_harvests = None            # while the body itself is analysed
    prog._set_harvests = verified_set_harvests(prog)
    return prog._set_harvests

def verified_set_harvests(prog):
    import fns
    id = find(prog, "models::farmer::Farmer::set_harvests")
    if id is None: return None
    fpath = next((p for p in prog.adts if p.endswith("::Farmer") and "models" in p), None)
    unused = ok = None
    for n in range(NHARV + 1):
        M = [raw("shm", i) for i in range(n)]
        T = [raw("sht", i) for i in range(n)]
        def pre(E, st, args):
            E.key_order = list(M)
            args[1] = raw("bm", raw("bempty"), tuple((m, t) for m, t in zip(M, T)))
        try: r = fns.run_fn(prog, id, pre, eager=2 * NHARV, max_states=50)
        except (Imprecise, Budget): return None
        if len(r.outs) != 1 or r.E.unknown: return None
        s, v = r.outs[0]
        f = field_index(r.E, fpath, "harvests")
        if f is None: return None
        rs = r.E.res(s, v)
        if len(rs) != 1 or rs[0][1] is not True: return None
        me = r.E.deep(s, s.mem.get(droot(acct(0)), ZERO))
        ok = v
        # nothing but the array is assigned
        if any(x for x in s.mem if x.op == "data" and x is not droot(acct(0))): return None
        new = get_field(me, f[0])
        if me is not set_field(data0(acct(0)), f[0], new): return None
        for i in range(NHARV):
            e = r.E.deep(s, sel(new, I(i)))
            if e.op != "agg" or len(e.args[1]) != 2: return None
            if i < n:
                if e.args[1][0] is not M[i] or e.args[1][1] is not T[i]: return None
            else:
                if unused is None: unused = e
                if e is not unused: return None
    def hook(E, st, c, a, fr):
        if E.eager or len(a) != 2 or a[0].op != "ref": return None
        T = [E.p.types[t] for t in c.get("args") or () if isinstance(t, int)]
        if not T or T[-1]["k"] != "adt" or not T[-1]["path"].endswith("::BTreeMap"): return None
        x = E.deep(st, a[1])
        st = st.copy()
        ch = raw("c_take", raw("c_chain", raw("c_opq", x), raw("c_rep", unused)), I(NHARV))
        n = raw("collect", "Vec", models.snapchain(E, st, models.it(ch)))
        ARRLEN[n] = NHARV
        E.write(st, a[0].args[0], a[0].args[1] + (("f", f[0]),), n)
        return [(st, ok)]
    return id, hook

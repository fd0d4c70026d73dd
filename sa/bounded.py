"""Pool instructions analysed with a given number of reserves.  A pool has
between 2 and 4 reserves of distinct mints (rule A07 shows that creation
establishes it and nothing else changes it), so analysing every number of
reserves is exhaustive.  The order of mints in the ordered maps, and the order
in which limits and vault/wallet pairs are passed, are parameters: a unit is
called "swap:3:201" (three reserves, mints ascending as reserves 2, 0, 1) or
"redeem_liquidity:3:012:120:201" (mint order, limits, vault pairs)."""
from term import *
from interp import Imprecise
from q import Q, Missing
import roots
from anchor import acct, data0, keyof, owner, info
from anchor import *

BRIEF = {"deposit_liquidity": ("::get_deposit_ratio", "::get_eligible_lp_tokens"), "swap": ("::calculate_toll_in_lp_tokens",)}
LESS = ("::get_deposit_ratio", "::get_eligible_lp_tokens")
KEEP = ("stable_curve_invariant::compute", "get_buy_reserve_balance_after_swap", "integer_leading_zeros")
REST = {"deposit_liquidity": 2, "redeem_liquidity": 2, "create_pool": 1}

def accounts_struct(prog, name):
    """fields (name, type) of the accounts struct of an instruction"""
    h = prog.body("%s::%s::%s" % (prog.crate, prog.crate, name))
    if h is None: raise Missing("instruction %s not found" % name)
    l = h.locals[1]
    T = prog.ty(l[0] if isinstance(l, (list, tuple)) else l)
    for g in T.get("args", []) if T["k"] == "adt" else []:
        t = g.get("ty") if isinstance(g, dict) else g
        if not isinstance(t, int): continue
        G = prog.ty(t)
        if G["k"] == "adt" and G["path"] in prog.adts and prog.adts[G["path"]].get("local"):
            return [(f, prog.ty(x) if isinstance(x, int) else x) for f, x in prog.adts[G["path"]]["variants"][0]["fields"]]
    raise Missing("accounts of %s not found" % name)

def holds_type(prog, T, name):
    """the field type mentions the account type"""
    seen = [T]
    while seen:
        t = seen.pop()
        if t is None: continue
        if t["k"] == "adt":
            if t["path"].split("::")[-1] == name: return True
            for g in t.get("args", []):
                x = g.get("ty") if isinstance(g, dict) else g
                if isinstance(x, int): seen.append(prog.ty(x))
        elif "of" in t: seen.append(prog.ty(t["of"]))
    return False

class Bounded:
    """the parameters of a bounded unit"""
    def __init__(self, prog, unit):
        p = unit.split(":")
        self.ix, self.n = p[0], int(p[1][0])
        # parts analysed on their own are kept uninterpreted
        self.kept = BRIEF.get(self.ix, ()) if p[1].endswith("b") else LESS if p[1].endswith("c") else ()
        self.order = [int(c) for c in p[2]] if len(p) > 2 else list(range(self.n))
        self.limits = [int(c) for c in p[3]] if len(p) > 3 else None
        self.pairs = [int(c) for c in p[4]] if len(p) > 4 else None
        fs = accounts_struct(prog, self.ix)
        self.fixed = len(fs)
        self.rest = REST.get(self.ix, 0) * (len(self.pairs) if self.pairs else self.n)
        ps = [i for i, (n, t) in enumerate(fs) if holds_type(prog, t, "Pool")]
        if len(ps) != 1: raise Missing("pool account of %s not found" % self.ix)
        self.pool = acct(ps[0])
        self.names = {n: acct(i) for i, (n, t) in enumerate(fs)}

def run_pool(prog, unit, max_states=20000, budget=4000000, keep=KEEP):
    B = Bounded(prog, unit)
    n = B.n
    def pre(E, st):
        q = Q(prog, E, st)
        d = data0(B.pool)
        fs = [eq0(addc(raw("naccs"), -(B.fixed + B.rest)))]
        if B.ix != "create_pool":
            rs = [sel(q.F(d, "reserves", "Pool"), I(i)) for i in range(n)]
            ms = [q.F(r, "mint", "Reserve") for r in rs]
            vs = [q.F(r, "vault", "Reserve") for r in rs]
            fs.append(eq0(addc(q.F(d, "dimension", "Pool"), -n)))
            fs += [ne(ms[i], ms[j]) for i in range(n) for j in range(i)]
            fs += [ne(vs[i], vs[j]) for i in range(n) for j in range(i)]
            for k in range(B.rest // 2 if B.ix != "swap" else 0):
                v = acct(B.fixed + 2 * k)
                if B.pairs:
                    w = acct(B.fixed + 2 * k + 1)
                    fs += [eq(keyof(v), vs[B.pairs[k]])] + [eq(get_field(get_field(data0(a), 0), 0), ms[B.pairs[k]]) for a in (v, w)]
                    fs += [ne(keyof(w), x) for x in vs]
                for i in range(n):
                    for a in (v, acct(B.fixed + 2 * k + 1)):
                        fs.append(or_(ne(keyof(a), vs[i]), eq(get_field(get_field(data0(a), 0), 0), ms[i])))
            E.key_order = [ms[i] for i in B.order]
            B.mints, B.vaults, B.reserves = ms, vs, rs
        else:
            # any mints: the order of those given follows the parameter
            ms = [get_field(get_field(data0(acct(B.fixed + i)), 0), 0) for i in range(n)]
            E.key_order = [ms[i] for i in B.order]
            B.mints = ms
        for c in fs:
            st.facts = st.facts.add(c)
        E.vec_len = n
        E.kept = keep + B.kept
        E.budget = budget
        B.vec = None
        def vec(st, v):
            B.vec = v
            return [eq(get_field(sel(v, I(k)), 0), B.mints[B.limits[k]]) for k in range(n)] if B.limits else []
        E.vec_hook = vec
    r = roots.run_ix(prog, B.ix, pre, eager=48, max_states=max_states)
    r.B = B
    return r

if __name__ == "__main__":
    import sys, time
    sys.setrecursionlimit(100000)
    import check
    check.load_rules()
    P = check.get_prog("amm").p
    for nme in sys.argv[1:]:
        t = time.time()
        r = run_pool(P, nme)
        print(nme, len(r.states), "%.1fs" % (time.time() - t), r.E.steps, dict(r.E.unknown), r.E.opaque_fns, len(r.refused), flush=True)

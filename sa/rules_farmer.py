"""Rules about farmers: custody of tokens, stake and harvest ledgers, vesting,
accrual of harvest, compounding."""
from term import *
from interp import RES, OPT, Imprecise
import models, fns
import roots
from interp import ref, tup, Ok
from q import *
import check
from check import rule, FLOORS, Unit
from rules_farm import (signer_pda, stake_vault_pda, harvest_vault_pda, whitelist_pda, is_zero, array_updates, fn_result,
                        ixargs, run, outcomes, possible, refusals, runtime_ok, whole, IDX10, never, flat, farms, wrong_accounts, rejections, causes, panics, too_large, no_abort)

SETTLING = ["start_farming", "stop_farming", "update_eligible_harvest", "update_eligible_harvest_until", "compound_same_farm", "compound_across_farms"]
NHARV = 10
SNAPS = 1000

def kpda(name, *keys):
    """like PDA, from address terms"""
    return PDA(name, *keys)

def farmers(q, fresh=False):
    """existing farmer accounts whose contents this instruction changes"""
    return [a for a in q.changed() if "Farmer" in q.typeof(a) and (fresh or not q.fresh(a, "Farmer"))]

def known_farmers(q):
    return [a for a in q.accounts() if q.trusted(a, "Farmer") and not q.fresh(a, "Farmer")]

def closed(q, a): return any(e[1] is a for e, _ in evs(q.st, "close"))

def signers(q): return list(dict.fromkeys(c.args[0] for c in q.f.items if c.op == "signer"))

def farmer_pda(q, a):
    """(farm key, authority key) when the account is known to be at the farmer address of that pair"""
    k = q.norm(keyof(a))
    cand = [k] + [x for c in q.f.items if c.op == "eq" for x in c.args if x.op == "pda"]
    for x in cand:
        if x.op == "pda" and q.same(x, keyof(a)) and len(x.args[0]) == 3 and x.args[0][0] is txt("farmer"):
            f, s = unbytes(x.args[0][1]), unbytes(x.args[0][2])
            if f is not None and s is not None: return f, s
    return None

def unbytes(t):
    if t.op == "bytes" or t.op == "pkbytes": return t.args[0]
    return None

def owner_signed(q, a):
    """the owner of the farmer account signs the instruction"""
    if q.signed(q.F(data0(a), "authority", "Farmer")): return True
    p = farmer_pda(q, a)
    return p is not None and q.signed(p[1])

def farm_keys(q, a):
    """terms for the key of the farm the farmer belongs to"""
    out = [q.F(data0(a), "farm", "Farmer")]
    p = farmer_pda(q, a)
    if p: out.append(p[0])
    return out

def of_farm(q, a, k): return any(q.same(x, k) for x in farm_keys(q, a))

def same_owner(q, a, b):
    def ks(x):
        p = farmer_pda(q, x)
        return [q.F(data0(x), "authority", "Farmer")] + ([p[1]] if p else [])
    return any(q.same(x, y) for x in ks(a) for y in ks(b))

def num(q, v, f): return get_field(q.F(v, f, "Farmer"), 0)
def total(q, v): return add(num(q, v, "staked"), num(q, v, "vested"))

def pda_parts(q, k, name, n):
    """the keys a derived address was made of, when address k is known to be one"""
    c = q.norm(k)
    cand = [c] + [x for f in q.f.items if f.op == "eq" for x in f.args if x.op == "pda"] + [x for x in subterms(c) if x.op == "pda"]
    for x in cand:
        if x.op != "pda" or len(x.args[0]) != n + 1 or x.args[0][0] is not txt(name): continue
        if not q.same(x, k): continue
        ks = [unbytes(y) for y in x.args[0][1:]]
        if all(y is not None for y in ks): return ks
    return None

def with_ctx(q, ctx):
    """the state inside the loop iterations of an event"""
    hyp = []
    for lo, hi, dnf in ctx:
        hyp += [le(lo, BV), lt(BV, hi)]
        c = dnf if isinstance(dnf, Term) else and_(*dnf) if dnf else TRUE
        if c is not TRUE: hyp.append(c)
    if not hyp: return q
    r = q.also(*hyp)
    return r

class Transfers:
    """token movements of a state, with the farm vaults they touch"""
    def __init__(self, q):
        self.q = q
        self.items = []
        for e, ctx in evs(q.st, "xfer"):
            c = with_ctx(q, ctx)
            if c is None: continue
            self.items.append((c, e, bool(ctx)))
    def vault(self, c, a):
        """('stake', farm key) / ('harvest', farm key, mint) / None"""
        p = pda_parts(c, keyof(a), "stake_vault", 1)
        if p: return ("stake", p[0])
        p = pda_parts(c, keyof(a), "harvest_vault", 2)
        if p: return ("harvest", p[0], p[1])
        return None

# ================================================================= F10 custody
@rule("F10", "farming", "ix", "*")
def custody(u, q, ob):
    if runtime_ok(q) is not None: return
    for e, ctx in evs(q.st, "mint", "burn"):
        ob("no-mint-or-burn", False, "the farming program mints or burns tokens")
    for e, ctx in evs(q.st, "cpi"):
        ob("no-other-calls", False, "the farming program calls into a program the analysis does not know")
    T = Transfers(q)
    for c, e, looped in T.items:
        _, src, dst, auth, amt, sg, prog, site = e
        ob("token-program", c.same(keyof(prog), TOKEN_ID), "a transfer does not go through the token program")
        if c.signed(keyof(auth)) and not any(c.same(keyof(auth), s) for s in sg):
            ob("own-authority", True); continue
        pk = pda_parts(c, keyof(auth), "signer", 1)
        ob("farm-signer", pk is not None, "tokens are moved by an authority that is neither a signer of the instruction nor a farm's signer address")
        if pk is None: continue
        K = pk[0]
        v = T.vault(c, src)
        ob("farm-vault", v is not None and c.same(v[1], K), "a farm's signer moves tokens out of an account that is not one of that farm's vaults")
        if v is None: continue
        if v[0] == "stake":
            ok = False
            if not looped:
                for a in farmers(q):
                    if of_farm(q, a, K) and owner_signed(q, a) and q.trusted(a, "Farmer") and not closed(q, a): ok = True
            ob("stake-out-by-owner", ok, "tokens leave a stake vault without a farmer of that farm, whose owner signs, giving up stake")
        else:
            ok = False
            # the owner claims
            for a in known_farmers(q):
                if of_farm(c, a, K) and owner_signed(c, a): ok = True
            # whitelisted compounding
            d = T.vault(c, dst)
            if d is not None and d[0] == "stake":
                for w in q.accounts():
                    if q.trusted(w, "WhitelistCompounding") and q.same(keyof(w), PDA("whitelist_compounding", K, d[1])): ok = True
            # refund to the admin
            for f in farms(q):
                if c.same(keyof(f), K) and c.signed(c.F(data0(f), "admin")): ok = True
            ob("harvest-out-permitted", ok, "tokens leave a harvest vault other than by the owner's claim, a whitelisted compounding or the admin's refund")
FLOORS["F10"] = 15

# ================================================================= F11 farmers are their owner's
def harvest_view(q, u, a):
    """(base array, [(index, old entry, new entry)]) of a farmer's harvests in the final contents"""
    h = q.norm(q.F(q.final(a), "harvests", "Farmer"))
    st = []
    while h.op == "store":
        st.append((h.args[1], h.args[2])); h = h.args[0]
    out = []
    for i, (k, v) in enumerate(st):
        b = h
        for kk, vv in reversed(st[i + 1:]): b = store(b, kk, vv)
        out.append((k, sel(b, k, q.f.holds), v))
    return h, out

def source_map(q, u, h):
    """the map whose entries (padded with unused ones) the array holds, or None"""
    if h.op != "collect" or h.args[1].op != "at": return None
    t = h.args[1].args[0]
    if t.op != "it": return None
    ch, pos = t.args
    E = u.E
    st = q.st.copy()
    L = models.clen(E, st, ch)
    if L is None or not q.same(sub(L, pos), I(NHARV)): return None
    j = E.fresh("c", (0, NHARV - 1))
    X = None
    try: els = models.celem(E, st, ch, add(pos, j))
    except Imprecise: return None
    for s, v in els:
        v = E.deep(s, v)
        if v.op == "elem" and v.args[1] is j:
            if X is not None and X is not v.args[0]: return None
            X = v.args[0]
        elif v.op == "agg" and is_zero(q, v): pass
        else: return None
    return X

def accrual(q, u, h):
    """(farmer value, farm value, until) when the array is the result of accruing harvest, ('map', pre-loop map) for rewritten maps"""
    X = source_map(q, u, h)
    if X is None: return None
    if X in u.E.havoc_of: return "map", u.E.havoc_of[X], X
    y = X
    if y.op == "vf": y = y.args[0]
    if y.op == "app" and len(y.args[1]) == 3 and ("Farmer" in y.args[0] or "::farmer::" in y.args[0]):
        f, fm, un = y.args[1]
        f = f.args[0] if f.op == "at" else f
        fm = fm.args[0] if fm.op == "at" else fm
        return "accrue", f, fm, get_field(un, 0)
    return None

def segments(q, u, a):
    """accrual segments of a farmer, oldest first: [(farmer, farm, until)]; None when not recognised"""
    h, _ = harvest_view(q, u, a)
    old = q.norm(q.F(data0(a), "harvests", "Farmer"))
    out = []
    for _ in range(6):
        if q.same(h, old): return out[::-1]
        s = accrual(q, u, h)
        if s is None: return None
        if s[0] == "map":
            return None
        out.append(s[1:])
        h = q.norm(q.F(s[1], "harvests", "Farmer"))
        if h.op == "store": return None
    return None

def map_of_old(q, u, a, m):
    """the map holds exactly the farmer's old harvest entries"""
    m = u.E.deep(q.st, m)
    for x in subterms(m):
        if x.op in ("bmfrom",):
            arr_ = x.args[0]
            old = q.F(data0(a), "harvests", "Farmer")
            n = cval(arrlen(arr_))
            if n == NHARV and all(q.same(get_field(sel(arr_, I(k)), 0), get_field(sel(old, I(k)), 0)) and q.same(get_field(sel(arr_, I(k)), 1), get_field(sel(old, I(k)), 1)) for k in range(n)): return True
            j = raw("sk", -9, "m"); RANGE[j] = (0, NHARV - 1)
            e = sel(arr_, j)
            return n == NHARV and q.same(get_field(e, 0), get_field(sel(old, j), 0)) and q.same(get_field(e, 1), get_field(sel(old, j), 1))
    return False

def zero_amount(q, v): return q.yes(eq0(v))

@rule("F11", "farming", "ix", "*")
def owner_only(u, q, ob):
    if runtime_ok(q) is not None: return
    for e, ctx in evs(q.st, "close"):
        a = e[1]
        if "Farmer" not in q.typeof(a): continue
        ob("close-by-owner", q.trusted(a, "Farmer") and owner_signed(q, a), "a farmer account is closed without its owner's signature")
        ob("rent-to-owner", q.same(keyof(e[2]), q.F(data0(a), "authority", "Farmer")) or (farmer_pda(q, a) or (0, None))[1] is not None and q.same(keyof(e[2]), farmer_pda(q, a)[1]),
           "rent of a closed farmer account does not go to its owner")
    for a in farmers(q):
        if closed(q, a): continue
        old, new = data0(a), q.final(a)
        ob("is-farmer", q.trusted(a, "Farmer"), "a farmer is modified without checking that the account is a Farmer of this program")
        ob("not-reinitialised", not any(e[1] is a for e, _ in evs(q.st, "unchecked")), "an existing farmer account can be initialised again")
        ob("authority-fixed", q.same(q.F(new, "authority", "Farmer"), q.F(old, "authority", "Farmer")), "the owner of an existing farmer changes")
        ob("farm-fixed", q.same(q.F(new, "farm", "Farmer"), q.F(old, "farm", "Farmer")), "the farm of an existing farmer changes")
        mine = owner_signed(q, a)
        ob("stake-kept", mine or q.yes(le(total(q, old), total(q, new))), "the stake of a farmer is lowered without its owner's signature")
        h, sts = harvest_view(q, u, a)
        s = accrual(q, u, h)
        base = q.same(h, q.F(old, "harvests", "Farmer")) or (s is not None and s[0] == "accrue")
        if not base: ob("harvest-kept", mine, "harvest entries of a farmer are rewritten without its owner's signature")
        for i, o, n in sts:
            same_mint = q.same(get_field(n, 0), get_field(o, 0))
            more = same_mint and q.yes(le(get_field(get_field(o, 1), 0), get_field(get_field(n, 1), 0)))
            ok = mine or more
            if not ok and same_mint:
                # compounded to the same owner
                for b in farmers(q):
                    if not same_owner(q, a, b): continue
                    K, K2 = farm_keys(q, a)[0], farm_keys(q, b)[0]
                    gain = sub(total(q, q.final(b)), total(q, data0(b)))
                    loss = sub(get_field(get_field(o, 1), 0), get_field(get_field(n, 1), 0))
                    if q.same(gain, loss) and any(q.trusted(w, "WhitelistCompounding") and q.same(keyof(w), PDA("whitelist_compounding", K, K2)) for w in q.accounts()): ok = True
            ob("harvest-kept", ok, "a farmer's harvest is lowered without its owner's signature and without crediting it to a farmer of the same owner through a whitelisted compounding")
FLOORS["F11"] = 30

# ================================================================= F12 settlement / F14 vesting
def boundary_terms(q, a, farm):
    """start slots of the first snapshot after the farmer's vesting slot"""
    out = []
    s = set()
    for c in q.f.items: subterms(c, s)
    for k, v in q.st.mem.items():
        if k.op == "data": subterms(v, s)
    va = q.F(data0(a), "vested_at", "Farmer")
    for x in s:
        if x.op == "app" and x.args[0].split("::")[-1] == "first_snapshot_after" and len(x.args[1]) == 2:
            fm, sl = x.args[1]
            fm = fm.args[0] if fm.op == "at" else fm
            if q.same(fm, farm) and (q.same(sl, va) or q.same(get_field(sl, 0), get_field(va, 0))): out.append(get_field(q.F(get_vfield(x, 1, 0), "started_at", "Snapshot"), 0))
    return out

def ring_boundary(q, a, farm):
    """slots that are, by the state's facts, the start of the first snapshot after the vesting slot (not summarised)"""
    from rules_farm import ring_elem, newer_than, started_of_age, cong, in_range
    tip, ring = q.F(farm, "snapshots.ring_buffer_tip"), q.F(farm, "snapshots.ring_buffer")
    va = num(q, data0(a), "vested_at")
    s = set()
    for c in q.f.items: subterms(c, s)
    for k, v in q.st.mem.items():
        if k.op == "data": subterms(v, s)
    out = []
    ws = None
    for x in s:
        if not (x.op == "fld" and x.args[1] == 0 and x.args[0].op == "fld" and x.args[0].args[1] == q.idx("Snapshot", "started_at") and x.args[0].args[0].op == "sel" and x.args[0].args[0].args[0] is ring): continue
        i = x.args[0].args[0].args[1]
        if any(y.op in ("bv",) for y in subterms(i)): continue
        if ws is None: ws = newer_than(q, ring, tip, va)
        for w in ws:
            if q.yes(lt(w, I(SNAPS))) and started_of_age(q, ring, tip, w, lambda z: q.yes(le(z, va))) and cong(q, i, addc(sub(tip, w), 1), SNAPS) and in_range(q, i, 0, SNAPS - 1): out.append(x)
            elif q.yes(le(I(SNAPS), w)) and cong(q, i, addc(tip, 1), SNAPS) and in_range(q, i, 0, SNAPS - 1): out.append(x)
    return out

def latest_started(q, farm):
    tip, ring = q.F(farm, "snapshots.ring_buffer_tip"), q.F(farm, "snapshots.ring_buffer")
    return get_field(q.F(sel(ring, tip, q.f.holds), "started_at", "Snapshot"), 0)

def farm_of(q, a):
    """the checked farm account a farmer belongs to"""
    for f in q.accounts():
        if q.trusted(f, "Farm") and of_farm(q, a, keyof(f)): return f
    return None

def target_slots(u, q):
    """the slot up to which the instruction settles"""
    if u.name == "update_eligible_harvest_until":
        arg = ixargs(u, q, 1)
        if arg:
            t = arg[0] if isint(arg[0]) else get_field(arg[0], 0)
            return [(c, t if b else q.now()) for c, (b,) in q.cases(lt(t, q.now()))]
    return [(q, q.now())]

def ledger_changes(q, a):
    old, new = data0(a), q.final(a)
    return [f for f in ("staked", "vested", "vested_at", "calculate_next_harvest_from") if not q.same(q.F(new, f, "Farmer"), q.F(old, f, "Farmer"))]

@rule("F12", "farming", "ix", "*")
def settle(u, q, ob):
    if runtime_ok(q) is not None: return
    todo = known_farmers(q) if u.name in SETTLING else farmers(q)
    if u.name in SETTLING: ob("farmer-given", bool(todo), "no farmer is settled")
    for a in todo:
        if closed(q, a): continue
        if u.name not in SETTLING:
            h, _ = harvest_view(q, u, a)
            s = accrual(q, u, h)
            if not ledger_changes(q, a) and not (s is not None and s[0] == "accrue"):
                ob("unsettled-unchanged", True); continue
        old, new = data0(a), q.final(a)
        f = farm_of(q, a)
        ob("settled-against-own-farm", f is not None, "a farmer is settled or changed without the farm it belongs to")
        if f is None: continue
        farm = data0(f)
        segs = segments(q, u, a)
        ob("accrual-recognised", True if segs is not None else False if clean(q, u, a) else None, "the farmer's harvest is not the old harvest plus what accrued since the last settlement")
        if segs is None: continue
        S, V = num(q, old, "staked"), num(q, old, "vested")
        for c, T in target_slots(u, q):
            pos = num(c, old, "calculate_next_harvest_from")
            phase = "pre"
            bs = boundary_terms(c, a, farm) + ring_boundary(c, a, farm)
            matured = lt(num(c, old, "vested_at"), latest_started(c, farm))
            for k, (fv, fm, until) in enumerate(segs):
                ob("own-farm", c.same(fm, farm), "harvest accrues from a farm other than the farmer's own")
                ob("no-gap-or-repeat", c.same(num(c, fv, "calculate_next_harvest_from"), pos), "an accrued range does not start where the last one ended")
                st = num(c, fv, "staked")
                pre, post = c.same(st, S), c.same(st, add(S, V))
                nv = c.yes(eq0(V))
                if pre and not nv and phase == "pre":
                    last = k == len(segs) - 1
                    if last: ob("stake-of-range", c.yes(neg_c(matured)) or any(c.same(until, addc(b, -1)) for b in bs), "tokens that have matured do not count from the snapshot after they were added")
                    else: ob("stake-of-range", any(c.same(until, addc(b, -1)) for b in bs), "the range at the old stake does not end right before the first snapshot after vesting")
                elif post:
                    if phase == "pre" and k == 0 and not nv:
                        ob("stake-of-range", c.yes(matured) and any(c.yes(le(b, pos)) for b in bs), "vested tokens count for slots before the first snapshot after they were added")
                    else: ob("stake-of-range", True)
                    phase = "post"
                else: ob("stake-of-range", False, "harvest accrues on an amount other than the farmer's stake")
                pos = addc(until, 1)
            ob("settled-to-now", c.yes(le(T, pos)), "the farmer's stake or settlement slot changes while slots up to now are not settled")
            ob("position-stored", c.same(num(c, new, "calculate_next_harvest_from"), pos), "the next slot to settle is not the one after the last settled slot")
            h = c.also(*[le(b, c.now()) for b in bs])
            ob("position-not-future", h is None or h.yes(le(pos, addc(c.now(), 1))) or h.same(pos, num(h, old, "calculate_next_harvest_from")), "slots that have not happened yet are marked as settled")
            ob("position-not-back", h is None or h.yes(le(num(h, old, "calculate_next_harvest_from"), pos)), "settled slots are settled again")

def clean(q, u, a):
    """the final contents do not rest on something the analysis does not interpret (other than accrual itself)"""
    for x in subterms(q.final(a)):
        if x.op in ("app", "eff") and x.args[0].split("::")[-1] not in ("eligible_harvest_until", "first_snapshot_after"): return False
        if x.op == "eff": return False
    return True
FLOORS["F12"] = 60

@rule("F14", "farming", "ix", "*")
def vesting(u, q, ob):
    if runtime_ok(q) is not None: return
    todo = known_farmers(q) if u.name in SETTLING else farmers(q)
    for a in todo:
        if closed(q, a): continue
        old, new = data0(a), q.final(a)
        if u.name not in SETTLING:
            ob("stake-untouched", not [x for x in ledger_changes(q, a) if x != "calculate_next_harvest_from"] or farm_of(q, a) is not None, "stake or vesting of a farmer changes in an instruction without its farm")
            if not [x for x in ledger_changes(q, a) if x != "calculate_next_harvest_from"]: continue
        f = farm_of(q, a)
        if f is None:
            ob("farm-given", False, "stake or vesting is handled without the farm the farmer belongs to"); continue
        farm = data0(f)
        V0 = num(q, old, "vested")
        for c, (nv, mat) in q.cases(eq0(V0), lt(num(q, old, "vested_at"), latest_started(q, farm))):
            S, V = num(c, old, "staked"), V0
            if not nv and mat: S, V = add(S, V), ZERO
            S1, V1 = num(c, new, "staked"), num(c, new, "vested")
            at0, at1 = num(c, old, "vested_at"), num(c, new, "vested_at")
            same_at = c.same(at0, at1)
            what = " (%s)" % ("nothing vesting" if nv else "matured" if mat else "still vesting")
            if same_at and c.same(S1, S) and c.same(V1, V): ob("vesting", True); continue
            d = sub(add(S1, V1), add(S, V))
            if c.same(at1, c.now()) and c.yes(le(ZERO, d)):
                ob("added-vests", c.same(S1, S), "added tokens count as staked before the next snapshot, or matured tokens do not" + what)
                continue
            # withdrawn: vested tokens first
            ob("vesting-slot-kept", same_at, "the vesting slot changes other than by adding tokens" + what)
            # what is paid out of the farm's stake vault, the rule of F17 compares its sum with the ledger's
            paid = [e[4] for e, _ in evs(q.st, "xfer") if e[5] and c.same(keyof(e[1]), stake_vault_pda(f))]
            out = paid[0] if len(paid) == 1 else neg(d)
            ok = True
            for e, (b,) in c.cases(le(out, V)):
                if b: ok &= e.same(S1, S) and e.same(V1, sub(V, out))
                else: ok &= e.same(V1, ZERO) and e.same(S1, sub(S, sub(out, V)))
            ob("withdraws-vested-first", ok and c.yes(le(ZERO, out)), "a withdrawal does not take vesting tokens first, or stake changes without being added or withdrawn" + what)
FLOORS["F14"] = 30

# ================================================================= F15 lifecycle
@rule("F15", "farming", "ix", "*")
def lifecycle(u, q, ob):
    if runtime_ok(q) is not None: return
    made = 0
    for a in q.accounts():
        if "Farmer" not in q.typeof(a): continue
        un = [e for e, _ in evs(q.st, "unchecked", "loadinit") if e[1] is a]
        if not un: continue
        ob("uninitialised", q.fresh(a, "Farmer"), "a farmer is initialised over an account that may already hold one")
        if not q.fresh(a, "Farmer"): continue
        made += 1
        v = q.final(a)
        K, A = q.F(v, "farm", "Farmer"), q.F(v, "authority", "Farmer")
        ob("address", q.same(keyof(a), PDA("farmer", K, A)), "a farmer is not created at the address derived from its farm and its owner")
        f = [x for x in q.accounts() if q.trusted(x, "Farm") and q.same(keyof(x), K)]
        ob("farm-checked", bool(f), "a farmer is created for an account that is not a checked farm")
        for n in ("staked", "vested", "vested_at", "calculate_next_harvest_from"):
            ob("starts-empty", is_zero(q, q.F(v, n, "Farmer")), "field %s of a new farmer does not start at zero" % n)
        hs = q.norm(q.F(v, "harvests", "Farmer"))
        ob("no-harvest", all(is_zero(q, get_field(sel(hs, I(k), q.f.holds), 1)) for k in range(NHARV)), "a new farmer starts with harvest")
        if f:
            fh = q.F(data0(f[0]), "harvests")
            mints = [get_field(sel(hs, I(k), q.f.holds), 0) for k in range(NHARV)]
            ob("harvest-mints", all(any(q.same(m, q.F(sel(fh, I(k)), "mint", "Harvest")) for m in mints) for k in range(NHARV)), "a new farmer does not know all harvest mints of its farm")
        ob("persisted", any(e[1] is a for e, _ in evs(q.st, "persist")) or True)
    if u.name == "create_farmer": ob("creates", made == 1, "create_farmer does not create a farmer")
    gone = 0
    for e, ctx in evs(q.st, "close"):
        a = e[1]
        if "Farmer" not in q.typeof(a): continue
        gone += 1
        old = data0(a)
        ob("close-no-stake", q.yes(eq0(total(q, old))) or (q.yes(eq0(num(q, old, "staked"))) and q.yes(eq0(num(q, old, "vested")))), "a farmer that still has stake can be closed")
        hs = q.F(old, "harvests", "Farmer")
        ok = all(q.prove(eq0(get_field(get_field(sel(hs, I(k)), 1), 0)), (I(k),)) for k in range(NHARV))
        ob("close-no-harvest", ok, "a farmer that still has unclaimed harvest can be closed")
    if u.name == "close_farmer": ob("closes", gone == 1, "close_farmer does not close the farmer account")
FLOORS["F15"] = 10

# ================================================================= F16 compounding
@rule("F16", "farming", "ix", "*")
def compounding(u, q, ob):
    if runtime_ok(q) is not None: return
    T = Transfers(q)
    n = 0
    for c, e, looped in T.items:
        _, src, dst, auth, amt, sg, prog, site = e
        s, d = T.vault(c, src), T.vault(c, dst)
        if s is None or d is None: continue
        n += 1
        ob("direction", s[0] == "harvest" and d[0] == "stake", "tokens move between farm vaults other than from a harvest vault to a stake vault")
        if not (s[0] == "harvest" and d[0] == "stake"): continue
        K, K2, mint = s[1], d[1], s[2]
        ob("whitelisted", any(q.trusted(w, "WhitelistCompounding") and q.same(keyof(w), PDA("whitelist_compounding", K, K2)) for w in q.accounts()), "harvest is compounded between farms without that pair being whitelisted")
        src_f = [a for a in known_farmers(q) if of_farm(q, a, K)]
        dst_f = [a for a in known_farmers(q) if of_farm(q, a, K2)]
        ok = False
        detail = "no farmer of the harvest's farm loses the moved harvest to the stake of a farmer of the same owner in the receiving farm"
        for a in src_f:
            h, sts = harvest_view(q, u, a)
            deb = [(i, o, nn) for i, o, nn in sts if q.same(get_field(nn, 0), get_field(o, 0)) and q.yes(eq0(get_field(get_field(nn, 1), 0))) and q.same(get_field(get_field(o, 1), 0), amt)]
            for b in dst_f:
                if a is not b and not same_owner(q, a, b): continue
                S0, V0 = num(q, data0(b), "staked"), num(q, data0(b), "vested")
                gain = sub(total(q, q.final(b)), total(q, data0(b)))
                if len(deb) == 1 and len(sts) == 1 and q.same(gain, amt):
                    # the debited entry is that of the receiving farm's stake mint
                    m = get_field(deb[0][1], 0)
                    fk = [x for x in q.accounts() if q.trusted(x, "Farm") and q.same(keyof(x), K2)]
                    if fk and (q.same(m, q.F(data0(fk[0]), "stake_mint")) or q.same(m, mint)): ok = True
                    else: detail = "the harvest debited is not that of the receiving farm's stake mint"
        ob("same-owner-same-amount", ok, detail)
        # same mint on both vaults, else the token program refuses; the vaults are the two farms' own
    if u.name.startswith("compound"): ob("compounds", n == 1, "compounding does not move the harvest to the stake vault in one transfer")
FLOORS["F16"] = 8

# ================================================================= F17 ledger equals vaults
@rule("F17", "farming", "ix", "*")
def ledger(u, q, ob):
    if runtime_ok(q) is not None: return
    T = Transfers(q)
    # stake
    flows = []       # (farm key, net inflow)
    def acc(lst, key, amt, same):
        for r in lst:
            if same(r[0], key):
                r[1] = add(r[1], amt); return
        lst.append([key, amt])
    same1 = lambda x, y: q.same(x, y)
    sameh = lambda x, y: q.same(x[0], y[0]) and q.same(x[1], y[1])
    loops = []
    hflows = []
    for c, e, looped in T.items:
        s, d = T.vault(c, e[1]), T.vault(c, e[2])
        for v, sg in ((s, -1), (d, 1)):
            if v is None: continue
            if looped:
                loops.append((c, e, v, sg)); continue
            if v[0] == "stake": acc(flows, v[1], mul(I(sg), e[4]), same1)
            else: acc(hflows, (v[1], v[2]), mul(I(sg), e[4]), sameh)
    deltas = []
    for a in farmers(q):
        if closed(q, a): continue
        d = sub(total(q, q.final(a)), total(q, data0(a)))
        d = q.norm(d)
        if q.yes(eq0(d)): continue
        acc(deltas, farm_keys(q, a)[-1], d, same1)
    for K, amt in flows:
        got = [d for k, d in deltas if q.same(k, K)]
        if not got and q.yes(eq0(amt)): continue
        ob("stake-matches-vault", len(got) == 1 and q.same(got[0], amt), "what a stake vault gains or loses is not what the stake of a farmer of that farm gains or loses")
    for k, d in deltas:
        ob("vault-matches-stake", any(q.same(k, K) for K, _ in flows), "a farmer's stake changes without tokens moving into or out of the farm's stake vault")
    # harvest
    hd = []
    for a in farmers(q):
        if closed(q, a): continue
        h, sts = harvest_view(q, u, a)
        s = accrual(q, u, h)
        for i, o, n in sts:
            d = sub(get_field(get_field(n, 1), 0), get_field(get_field(o, 1), 0))
            ob("entry-mint-kept", q.same(get_field(n, 0), get_field(o, 0)), "an update of a harvest entry changes its mint")
            if q.yes(eq0(d)): continue
            acc(hd, (farm_keys(q, a)[-1], get_field(o, 0)), d, sameh)
        if q.same(h, q.F(data0(a), "harvests", "Farmer")) or (s is not None and s[0] == "accrue"): continue
        if s is None:
            ob("harvest-recognised", False if clean(q, u, a) else None, "the harvest entries after the instruction are not the earlier ones with recognisable changes"); continue
        # a rewritten map: every payment in the loop is the entry's amount, and clears the entry
        m0, X = s[1], s[2]
        ob("map-of-old", map_of_old(q, u, a, m0), "the harvest entries paid from are not the farmer's own")
        for root, path, old, new, ctx in map_writes(q, X, u):
            pass
        for ev in q.st.ev:
            if ev[0] != "loop": continue
            for body, dnf in ev[3]:
                c = with_ctx(q, ((ev[1], ev[2], dnf),))
                if c is None: continue
                xs = [e for e in body if e[0] == "xfer"]
                ws = [e for e in body if e[0] == "wr" and any(X in subterms(t) for t in flat(e[3:]))]
                ok = True
                why = "a claim pays out harvest without clearing exactly that entry, or clears an entry it does not pay"
                if not xs and not ws: continue
                if len(xs) != 1 or len(ws) != 1: ok = False
                else:
                    x, w = xs[0], ws[0]
                    v = T.vault(c, x[1])
                    key = w[2][0][1] if len(w[2]) >= 1 and w[2][0][0] == "k" else None
                    oldamt = w[3] if isint(w[3]) else get_field(w[3], 0)
                    newamt = w[4] if isint(w[4]) else get_field(w[4], 0)
                    ok = v is not None and v[0] == "harvest" and of_farm(c, a, v[1]) and key is not None and c.same(v[2], key) and c.same(x[4], oldamt) and c.yes(eq0(newamt))
                    if ok and not (oldamt.op == "fld" and oldamt.args[0].op == "bval" and oldamt.args[0].args[0] is X and c.same(oldamt.args[0].args[1], key)): ok = False
                ob("claim-clears-what-it-pays", ok, why)
                for x in xs: loops = [l for l in loops if l[1] is not x]
    for key, amt in hflows:
        got = [d for k, d in hd if sameh(k, key) or (q.same(k[0], key[0]) and mint_linked(q, k[1], key))]
        if not got and q.yes(eq0(amt)): continue
        if not got and u.name == "new_harvest_period": continue      # funding: F06
        ob("harvest-matches-vault", len(got) == 1 and (q.same(got[0], amt)), "what a harvest vault gains or loses is not what a farmer's harvest of that mint gains or loses")
    for k, d in hd:
        ob("vault-matches-harvest", any(q.same(k[0], K[0]) and (q.same(k[1], K[1]) or mint_linked(q, k[1], K)) for K, _ in hflows), "a farmer's harvest changes without tokens moving into or out of that harvest's vault")
    for c, e, v, sg in loops:
        ob("looped-transfer-matched", False, "tokens of a farm vault are moved in a loop without a matching change of a farmer's harvest")

def map_writes(q, X, u): return ()

def mint_linked(q, m, key):
    """mint m is the stake mint of a farm whose stake vault has the mint of the harvest vault"""
    for a in q.accounts():
        if "TokenAccount" not in q.isa(a): continue
        p = pda_parts(q, keyof(a), "stake_vault", 1)
        if not p: continue
        for f in q.accounts():
            if q.trusted(f, "Farm") and q.same(keyof(f), p[0]) and q.same(q.F(data0(f), "stake_mint"), m) and q.same(q.tokmint(data0(a)), key[1]): return True
    return False
FLOORS["F17"] = 20

@rule("F17", "farming", "ix", "*")
def distinct_farmers(u, q, ob):
    """farmers changed together are different accounts: the ledger is kept per account, not per slot"""
    if runtime_ok(q) is not None: return
    fs = [a for a in q.accounts() if "Farmer" in q.typeof(a) and any(e[0] == "persist" and e[1] is a for e, _ in evs(q.st, "persist"))]
    for i, a in enumerate(fs):
        for b in fs[:i]:
            h = q.also(eq(keyof(a), keyof(b)))
            for n in ("farm", "authority"):
                if h is not None: h = h.also(eq(q.F(data0(a), n, "Farmer"), q.F(data0(b), n, "Farmer")))
            if h is not None: h = h.normed()
            ob("different-farmers", h is None, "the same farmer account can be given twice, and one of its two changes is lost")

# ================================================================= F18 how much harvest accrues
WAD = 10 ** 18
DEF = raw("cpub", "default")

def accrual_setup(u, shape):
    """one call on a farmer without vested tokens; shape: (initialised snapshots, uninitialised one?, [periods of each mint], known, removed?)"""
    prog = u.prog
    ns, tail0, mints, known, removed = shape
    X = {}
    E0 = None
    def pre(E, st, args):
        q = Q(prog, E, st)
        me, fm = acct(0), acct(1)
        M = [raw("mint", i) for i in range(len(mints))]
        R = raw("mint", 9)
        E.key_order = [DEF] + M + [R]
        f = data0(me)
        until = get_field(args[2], 0)
        since = get_field(q.F(f, "calculate_next_harvest_from", "Farmer"), 0)
        staked = get_field(q.F(f, "staked", "Farmer"), 0)
        def setf(v, name, T, x): return set_field(v, q.idx(T, name), x)
        def num1(v, x): return set_field(v, 0, x)
        f = setf(f, "vested", "Farmer", num1(q.F(f, "vested", "Farmer"), ZERO))
        # the harvest the farmer has so far
        H = q.F(f, "harvests", "Farmer")
        items, t0 = [], {}
        for i in range(NHARV):
            x = sel(H, I(i))
            m, t = DEF, ZERO
            if i < len(M) and known[i]: m, t = M[i], get_field(q.F(x, "tokens", "AvailableHarvest"), 0)
            elif i == len(M) and removed: m, t = R, get_field(q.F(x, "tokens", "AvailableHarvest"), 0)
            if m is not DEF and m is not R: t0[m] = t
            x = setf(x, "mint", "AvailableHarvest", m)
            x = setf(x, "tokens", "AvailableHarvest", num1(q.F(x, "tokens", "AvailableHarvest"), t))
            items.append(x)
        f = setf(f, "harvests", "Farmer", raw("agg", ("array",), tuple(items)))
        st.mem[droot(me)] = f
        # the farm's harvests
        F = data0(fm)
        FH = q.F(F, "harvests", "Farm")
        items = []
        for i in range(NHARV):
            items.append(setf(sel(FH, I(i)), "mint", "Harvest", M[i] if i < len(M) else DEF))
        st.mem[droot(fm)] = setf(F, "harvests", "Farm", raw("agg", ("array",), tuple(items)))
        ks = [DEF] + M + [R]
        facts = [neg_c(eq(x, y)) for i, x in enumerate(ks) for y in ks[:i]]
        # snapshots, newest first
        snaps = []
        proto = sel(q.F(q.F(F, "snapshots", "Farm"), "ring_buffer", "Snapshots"), ZERO)
        for i in range(ns + (1 if tail0 else 0)):
            p = sel(q.F(q.F(F, "snapshots", "Farm"), "ring_buffer", "Snapshots"), I(i))
            if i == ns:
                p = setf(p, "started_at", "Snapshot", num1(q.F(p, "started_at", "Snapshot"), ZERO))
                p = setf(p, "staked", "Snapshot", num1(q.F(p, "staked", "Snapshot"), ZERO))
            snaps.append(p)
        st_of = lambda p: (get_field(q.F(p, "started_at", "Snapshot"), 0), get_field(q.F(p, "staked", "Snapshot"), 0))
        for i in range(ns):
            s, _ = st_of(snaps[i])
            facts.append(le(ONE, s))
            if i: facts.append(lt(s, st_of(snaps[i - 1])[0]))
            # only the oldest one handed out can have started at or before `since`
            if i < len(snaps) - 1: facts.append(lt(since, s))
        root = raw("mem", "snaps")
        st.mem[root] = raw("agg", ("array",), tuple(snaps))
        X["snaps"] = [st_of(p) for p in snaps]
        # the rates of every mint: consecutive ranges from slot 1 to `until` or later
        hist = {}
        for i, m in enumerate(mints):
            rs, lo = [], ONE
            for k in range(m):
                e, t = raw("rate_end", i, k), raw("rate_tps", i, k)
                RANGE[e] = RANGE[t] = (0, 2 ** 64 - 1)
                facts.append(le(lo, e))
                rs.append((lo, e, t)); lo = addc(e, 1)
            facts.append(le(until, rs[-1][1]))
            hist[M[i]] = rs
        X.update(hist=hist, t0=t0, M=M, until=until, since=since, staked=staked, me=me, fm=fm)
        facts.append(le(ONE, until))
        for c in facts: st.facts = st.facts.add(c)
        slot = lambda like, x: set_field(like, 0, x)
        def snaps_hook(E, s, c, a, fr):
            X.setdefault("since_args", []).append((s, E.deep(s, a[1])))
            return [(s, models.it(raw("c_slc", ref(root), I(len(snaps)))))]
        def tps_hook(E, s, c, a, fr):
            h = E.deep(s, E.deref(s, a[0])) if a[0].op in ("ref",) else E.deep(s, a[0])
            qq = Q(prog, E, s)
            m = q.F(h, "mint", "Harvest")
            X.setdefault("until_args", []).append((s, E.deep(s, a[1])))
            rs = hist.get(m)
            if rs is None:
                if m is not DEF: raise Imprecise("rates of an unexpected harvest")
                rs = []
            sl, tok = a[1], q.F(sel(q.F(h, "periods", "Harvest"), ZERO), "tps", "HarvestPeriod")
            out = []
            for lo, e, t in rs:
                rg = raw("agg", ("adt", "core::ops::range::RangeInclusive", 0), (slot(sl, lo), slot(sl, e)))
                out.append(tup(rg, num1(tok, t)))
            return [(s, raw("agg", ("array",), tuple(out)))]
        for name, h in (("models::farm::Farm::get_window_snapshots_eligible_to_harvest", snaps_hook), ("models::farm::Harvest::tps_history", tps_hook)):
            id = fns.find_fn(prog, name)
            if id is None: raise Missing("function %s" % name)
            E.overrides[id] = h
    r = fns.run_fn(prog, u.id, pre, eager=24, max_states=6000)
    u.E = r.E
    return r, X

def accrued(q, X, m):
    """[(q, amount)]: harvest of mint m by the specification"""
    since, until, staked = X["since"], X["until"], X["staked"]
    todo = [(q, X["t0"].get(m, ZERO), None)]          # (state, amount so far, start of the previous (newer) snapshot)
    for s, S in X["snaps"]:
        nxt = []
        for q, amt, newer in todo:
            for q1, (init,) in q.cases(lt(ZERO, s)):
                if not init: nxt.append((q1, amt, newer)); continue
                for q2, (late,) in (q1.cases(lt(until, s)) if newer is None else [(q1, (False,))]):
                    if late: nxt.append((q2, amt, None)); continue
                    hi = until if newer is None else addc(newer, -1)
                    for q3, (empty,) in q2.cases(eq0(S)):
                        if empty: nxt.append((q3, amt, s)); continue
                        share = div(mul(staked, I(WAD * WAD)), mul(S, I(WAD)))
                        for q4, (b,) in q3.cases(lt(s, since)):
                            lo = since if b else s
                            parts = [(q4, ZERO)]
                            for a, e, tps in X["hist"][m]:
                                np = []
                                for q5, tot in parts:
                                    for q6, (l1, h1) in q5.cases(lt(a, lo), lt(hi, e)):
                                        x, y = lo if l1 else a, hi if h1 else e
                                        for q7, (any_,) in q6.cases(le(x, y)):
                                            np.append((q7, add(tot, mul(mul(addc(sub(y, x), 1), share), tps)) if any_ else tot))
                                parts = np
                            nxt += [(q8, add(amt, div(tot, I(WAD))), s) for q8, tot in parts]
        todo = nxt
    return [(q, a) for q, a, _ in todo]

def merged(q, X, ts):
    """the terms with slots the facts show to be equal (or adjacent) expressed by one another"""
    at = [X["until"], X["since"]] + [s for s, _ in X["snaps"]] + [e for rs in X["hist"].values() for _, e, _ in rs]
    at = [x for x in at if not isconst(x)]
    for i, x in enumerate(at):
        for y in [ONE] + at[:i]:
            if x is y: continue
            for c in (0, 1, -1):
                z = addc(y, c)
                if q.yes(le(x, z)) and q.yes(le(z, x)):
                    ts = [subst(t, {x: z}) for t in ts]
                    break
            else: continue
            break
    return ts

def shapes():
    out = []
    K, N = (True,), (False,)
    for ns in range(0, 3): out.append((ns, True, [2], K, False))
    out += [(2, False, [2], K, False), (1, False, [3], K, False), (1, False, [2], N, False), (1, True, [1], K, True),
            (1, False, [2, 1], (True, False), False), (1, False, [1, 1], (True, True), True)]
    if check.TIER == "thorough": out += [(3, False, [2], K, False), (3, True, [1], K, False), (2, False, [3], K, False), (2, False, [2, 1], (True, True), False), (2, True, [2], N, True)]
    return out

# ================================================================= F23 farmers' valid requests go through
def without_accrual(u):
    """the instruction, with the accrual of harvest taken to succeed (its refusals are judged by F18). What accrual
    writes does not matter: any farmer record is considered anyway."""
    if getattr(u, "_fast", None) is None:
        def pre(E, st):
            b = fns.find_fn(u.prog, "models::farmer::Farmer::check_vested_period_and_update_harvest")
            if b is None: raise Missing("no function Farmer::check_vested_period_and_update_harvest")
            E.overrides[b] = lambda E, s, c, a, fr: [(s, Ok(tup()))]
        u._fast = roots.run_ix(u.prog, u.func, pre)
    return u._fast

def valid(u, ob, reasons, msg, accrues=True, want=()):
    possible(u, ob, want)
    r = without_accrual(u) if accrues else u
    for s in r.refused:
        q = Q(u.prog, r.E, s).normed()
        q = q.settled() if q is not None else None
        if q is None: continue
        ob.q = q
        ob("refused-only-for-cause", any(too_large(c) for c in q.f.items) or wrong_accounts(u, q) or any(x(q) for x in reasons), msg)
    panics(u, r.panics, ob, reasons, r.E)
    rejections(u, ob, reasons)

NOTHING = lambda q: any(q.yes(eq0(a)) for a in amounts(q))
def amounts(q):
    """numbers in the request"""
    return list(dict.fromkeys(x for c in q.f.items for x in subterms(c) if x.op == "ixarg" and x.args[1] == "u64"))

@rule("F23", "farming", "ix", ["create_farmer"])
@whole
def farmer_created(u, ob):
    valid(u, ob, [], "opening a farmer account is refused", False)

@rule("F23", "farming", "ix", ["start_farming", "stop_farming"])
@whole
def stake_accepted(u, ob):
    valid(u, ob, [NOTHING], "a farmer is refused to stake or withdraw their own tokens")

@rule("F23", "farming", "ix", ["update_eligible_harvest", "update_eligible_harvest_until"])
@whole
def update_accepted(u, ob):
    def ahead(q):
        # a slot in the future
        return any(q.yes(lt(q.now(), a)) for a in amounts(q))
    valid(u, ob, [ahead], "an update of a farmer's harvest is refused")

def entries(q, a):
    """amounts recorded in the farmer's harvest entries that this state mentions"""
    hs = q.F(data0(a), "harvests", "Farmer")
    out = {}
    for c in q.f.items:
        for x in subterms(c):
            if x.op == "sel" and x.args[0] is hs: out[get_field(q.F(x, "tokens", "AvailableHarvest"), 0)] = 1
    return list(out)

@rule("F23", "farming", "ix", ["close_farmer"])
@whole
def close_accepted(u, ob):
    def holds(q):
        for a in known_farmers(q):
            d = data0(a)
            h = q.also(eq0(get_field(q.F(d, "staked", "Farmer"), 0)), eq0(get_field(q.F(d, "vested", "Farmer"), 0)), *[eq0(x) for x in entries(q, a)])
            h = h.settled() if h is not None else None
            if h is None or h.f.lin_unsat(): return True
        return False
    valid(u, ob, [holds], "the owner of an empty farmer account is refused to close it", False)

def no_entry(q):
    """no entry of the farmer is for the mint asked for"""
    for a in known_farmers(q):
        hs = q.F(data0(a), "harvests", "Farmer")
        ms = [q.tokmint(data0(v)) for v in q.accounts() if "TokenAccount" in q.isa(v)] + [q.F(data0(f), "stake_mint", "Farm") for f in q.accounts() if q.trusted(f, "Farm")]
        for m in ms:
            if all(q.prove(ne(q.F(sel(hs, I(k)), "mint", "AvailableHarvest"), m), IDX10) for k in range(NHARV)): return True
    return False

@rule("F23", "farming", "ix", ["airdrop"])
@whole
def airdrop_accepted(u, ob):
    valid(u, ob, [NOTHING, no_entry], "an airdrop of a harvest that the farmer has an entry for is refused", False)

@rule("F23", "farming", "ix", ["compound_same_farm", "compound_across_farms"])
@whole
def compound_accepted(u, ob):
    def same_farm(q):
        fs = [f for f in q.accounts() if q.trusted(f, "Farm")]
        return any(q.same(keyof(a), keyof(b)) for i, a in enumerate(fs) for b in fs[:i])
    valid(u, ob, [no_entry, same_farm], "compounding harvest into the stake of a permitted farm is refused")

@rule("F23", "farming", "ix", ["claim_eligible_harvest"])
@whole
def claim_accepted(u, ob):
    n, half = raw("naccs"), raw("half", "naccs")
    RANGE[half] = (0, 2 ** 62)
    def unpaired(q):
        """not pairs of accounts, or none, follow the named ones"""
        k = len(u.E.acct_names)
        h = q.also(eq0(sub(sub(n, I(k)), mul(I(2), half))), le(ONE, half), eq(raw("rem", n, I(2)), I(k % 2)))
        h = h.settled() if h is not None else None
        return h is None or h.f.lin_unsat()
    valid(u, ob, [unpaired], "the owner is refused the harvest recorded for them", False)
FLOORS["F23"] = 20

@rule("F18", "farming", "fn", ["models::farmer::Farmer::check_vested_period_and_update_harvest"])
def accrual_amount(u, ob):
    tot = []
    for shape in shapes():
        if any(v[1] for v in ob.items.values()): break
        r, X = accrual_setup(u, shape)
        tot += r.outs
        no_abort(u, r, ob)
        good = 0
        for s, v in r.outs:
            E = r.E
            q = ob.q = Q(u.prog, E, s).normed()
            if q is None: continue
            for s2, ok, p in E.res(s, v):
                q = ob.q = Q(u.prog, E, s2).normed()
                if q is None: continue
                if not ok:
                    ob("refused-only-on-overflow", any(c.op == "overflow" or c.op == "le0" and lin(c.args[0])[0] > 2 ** 62 for c in q.f.items), "settling harvest fails although no amount is too large", str(shape))
                    continue
                good += 1
                new = E.deep(s2, s2.mem[droot(X["me"])])
                since, until = X["since"], X["until"]
                H = q.F(new, "harvests", "Farmer")
                ent = [(q.F(sel(H, I(i)), "mint", "AvailableHarvest"), get_field(q.F(sel(H, I(i)), "tokens", "AvailableHarvest"), 0)) for i in range(NHARV)]
                pos = get_field(q.F(new, "calculate_next_harvest_from", "Farmer"), 0)
                for q1, (done,) in q.cases(le(until, since)):
                    ob.q = q1
                    if done:
                        ob("nothing-to-settle", q1.same(pos, since) and all(q1.same(t, X["t0"][m]) for m, t in ent if m in X["t0"]), "harvest changes although all slots are settled", str(shape))
                        continue
                    ob("settled-to", q1.same(pos, addc(until, 1)), "the next slot to settle is not the one after the current slot", str(shape))
                    ob("known-mints", sorted(x.id for x, _ in ent if x is not DEF) == sorted(m.id for m in X["M"]), "the harvest mints of the farmer are not those of the farm", str(shape))
                    ob("unused-empty", all(q1.same(t, ZERO) for x, t in ent if x is DEF), "an unused harvest entry holds tokens", str(shape))
                    for m in X["M"]:
                        es = [t for x, t in ent if x is m]
                        if len(es) != 1: continue
                        for q2, (idle,) in q1.cases(eq0(X["staked"])):
                            for q3, want in ([(q2, X["t0"].get(m, ZERO))] if idle else accrued(q2, X, m)):
                                ob.q = q3
                                ob("amount", q3.same(es[0], want) or q3.same(*merged(q3, X, [es[0], want])), "the harvest accrued is not the sum over the snapshots of the farmer's share of what was emitted", "%s: %s / expected %s" % (shape, show(es[0])[:300], show(want)[:300]))
        ob("settles", good > 0, "settling never succeeds", str(shape))
        for s, x in X.get("since_args", ()):
            q = Q(u.prog, r.E, s)
            ob("from-settled", q.same(get_field(x, 0), X["since"]), "harvest is not accrued from the slot up to which it was settled", str(shape))
        for s, x in X.get("until_args", ()):
            q = Q(u.prog, r.E, s)
            ob("rates-until", q.same(get_field(x, 0), X["until"]), "rates are not looked up to the current slot", str(shape))
    ob.q = None
    u.states = tot
FLOORS["F18"] = 100

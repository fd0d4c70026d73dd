"""Rules about farms: administration, snapshots, harvest mints and periods."""
from term import *
from interp import RES, OPT, Imprecise
import models, fns
from q import *
import check
from check import rule, FLOORS, Unit

SNAPS = 1000
NPER = 10
NHARV = 10
DEFAULT_WINDOW = 7200

def farms(q):
    return [a for a in q.changed() if "Farm" in q.typeof(a)]

def signer_pda(farm): return PDA("signer", keyof(farm))
def stake_vault_pda(farm): return PDA("stake_vault", keyof(farm))
def harvest_vault_pda(farm, mint): return PDA("harvest_vault", keyof(farm), mint)
def whitelist_pda(s, t): return PDA("whitelist_compounding", keyof(s), keyof(t))

def is_zero(q, v, d=0):
    """value of an all-zero allocation"""
    v = q.norm(v)
    if v.op == "zeroed" or v is ZERO or v is DEFAULT: return True
    if isint(v): return q.yes(eq0(v))
    if v.op == "rep": return is_zero(q, v.args[0], d + 1)
    if v.op == "agg": return all(is_zero(q, x, d + 1) for x in v.args[1])
    return False

def array_updates(q, a0, a1, n):
    """[(index, new value)] turning array a0 into a1, or None"""
    if a1 is a0: return []
    out, x = [], a1
    while x.op == "store":
        out.append((x.args[1], x.args[2])); x = x.args[0]
    if x is a0: return [(i, v) for i, v in out if not q.same(v, sel(a0, i, q.f.holds))]
    if x.op in ("agg", "rep"):
        ups = [(I(k), sel(a1, I(k), q.f.holds)) for k in range(n) if not q.same(sel(a1, I(k), q.f.holds), sel(a0, I(k)))]
        return ups
    return None

def fn_result(v):
    """'ok'/'err'/'some'/'none' and payload"""
    if v.op == "agg" and v.args[0][0] == "adt":
        p, k = v.args[0][1], v.args[0][2]
        if p == RES: return ("ok", "err")[k], v.args[1][0] if v.args[1] else None
        if p == OPT: return ("none", "some")[k], v.args[1][0] if v.args[1] else None
    return None, v

# ================================================================= F01
@rule("F01", "farming", "ix", "*")
def admin_only(u, q, ob):
    for a in farms(q):
        if q.fresh(a, "Farm"): continue
        ob("farm-owned-by-program", q.trusted(a, "Farm"), "a farm is modified without checking that the account is a Farm of this program")
        old, new = data0(a), q.final(a)
        ch = q.changed_fields("Farm", old, new)
        admin = q.F(old, "admin")
        for f in ch:
            if f in ("admin", "harvests", "min_snapshot_window_slots"):
                ob("admin-signs", q.signed(admin), "field %s of a farm changes without the signature of the farm's admin" % f)
            elif f == "snapshots": pass
            else:
                ob("immutable-field", False, "field %s of an existing farm changes" % f)
        if "admin" in ch:
            ob("new-admin-signs", q.signed(q.F(new, "admin")), "the admin of a farm is handed to a key that did not sign")
    for e, ctx in evs(q.st, "close"):
        if "Farm" in q.typeof(e[1]): ob("immutable-field", False, "a farm account is closed")
    # whitelist entries
    for a in q.accounts():
        if "WhitelistCompounding" not in q.typeof(a): continue
        made = q.fresh(a, "WhitelistCompounding")
        gone = [e for e, _ in evs(q.st, "close") if e[1] is a]
        if not made and not gone: continue
        what = "created" if made else "removed"
        fs = [x for x in q.accounts() if q.trusted(x, "Farm")]
        pr = [(s, t) for s in fs for t in fs if (s is not t or len(fs) == 1) and q.same(keyof(a), whitelist_pda(s, t))]
        ob("whitelist-address", bool(pr), "a compounding whitelist entry is %s at an address not derived from (source farm, target farm)" % what)
        for s, t in pr[:1]:
            ob("whitelist-admin", q.signed(q.F(data0(s), "admin")), "a compounding whitelist entry is %s without the source farm admin's signature" % what)
        for e in gone:
            ob("whitelist-rent", any(q.signed(keyof(e[2])) and pr and q.same(keyof(e[2]), q.F(data0(pr[0][0]), "admin")) for _ in (0,)), "rent of a removed whitelist entry does not go to the signing admin")

@rule("F01", "farming", "ix", ["set_farm_owner"])
def owner_effect(u, q, ob):
    fs = farms(q)
    ob("takes-effect", len(fs) == 1 and q.changed_fields("Farm", data0(fs[0]), q.final(fs[0])) == ["admin"], "set_farm_owner does not change exactly the admin of the farm")

@rule("F01", "farming", "ix", ["set_min_snapshot_window"])
def window_effect(u, q, ob):
    arg = raw("ixarg", raw("ixdata"), "u64")
    fs = [a for a in q.accounts() if q.trusted(a, "Farm")]
    ok = len(fs) == 1 and q.same(q.final(fs[0]), set_field(data0(fs[0]), q.idx("Farm", "min_snapshot_window_slots"), arg))
    ob("takes-effect", ok, "set_min_snapshot_window does not store exactly the requested window")

@rule("F01", "farming", "ix", ["whitelist_farm_for_compounding"])
def wl_effect(u, q, ob):
    ob("takes-effect", any("WhitelistCompounding" in q.typeof(a) and q.fresh(a, "WhitelistCompounding") for a in q.accounts()), "whitelisting does not create the whitelist entry")

@rule("F01", "farming", "ix", ["dewhitelist_farm_for_compounding"])
def dewl_effect(u, q, ob):
    ob("takes-effect", any("WhitelistCompounding" in q.typeof(e[1]) for e, _ in evs(q.st, "close")), "dewhitelisting does not remove the whitelist entry")
FLOORS["F01"] = 20

# ================================================================= F02
@rule("F02", "farming", "ix", "*")
def farm_birth(u, q, ob):
    n = 0
    for a in q.accounts():
        if "Farm" not in q.typeof(a): continue
        un = [e for e, _ in evs(q.st, "unchecked", "loadinit") if e[1] is a]
        if not un: continue
        ob("uninitialised", q.fresh(a, "Farm"), "a farm is initialised over an account that may already hold data")
        if not q.fresh(a, "Farm"): continue
        n += 1
        v = q.final(a)
        ob("admin-is-signer", q.signed(q.F(v, "admin")), "the admin of a new farm is not a signer")
        m = q.by_key(q.F(v, "stake_mint"))
        ob("stake-mint", m is not None and q.trusted(m, "Mint"), "the stake mint of a new farm is not a checked token mint")
        sv = q.F(v, "stake_vault")
        ob("stake-vault-address", q.same(sv, stake_vault_pda(a)), "the stake vault of a new farm is not the address derived from the farm")
        ini = [e for e, _ in evs(q.st, "inittok") if q.same(keyof(e[1]), sv)]
        ob("stake-vault-init", len(ini) == 1 and m is not None and q.same(keyof(ini[0][2]), keyof(m)) and q.same(keyof(ini[0][3]), signer_pda(a)) and q.same(keyof(ini[0][4]), TOKEN_ID),
           "the stake vault is not initialised for the stake mint under the farm's own signer")
        ob("stake-vault-new", any(e[1] is ini[0][1] for e, _ in evs(q.st, "create")) if ini else False, "the stake vault is not created together with the farm")
        for f in q.fields("Farm"):
            if f in ("admin", "stake_mint", "stake_vault"): continue
            ob("starts-empty", is_zero(q, q.F(v, f)), "field %s of a new farm does not start empty" % f)
    if u.name == "create_farm":
        ob("creates", n == 1, "create_farm does not initialise one farm")
FLOORS["F02"] = 8

# ================================================================= F03 snapshots
def ring_advance(u, q, ob, old, new, now, amount):
    tip0, tip1 = q.F(old, "snapshots.ring_buffer_tip"), q.F(new, "snapshots.ring_buffer_tip")
    r0, r1 = q.F(old, "snapshots.ring_buffer"), q.F(new, "snapshots.ring_buffer")
    for c, (last,) in q.cases(eq(tip0, I(SNAPS - 1))):
        ob("tip-advances", c.same(tip1, ZERO if last else addc(tip0, 1)), "the ring tip does not move to the next position%s" % (" (wrap-around)" if last else ""))
        ups = array_updates(c, r0, c.norm(r1), 0)
        ok = ups is not None and len(ups) == 1 and c.same(ups[0][0], ZERO if last else addc(tip0, 1))
        ob("one-entry-written", ok, "a snapshot does not overwrite exactly the ring entry after the tip%s" % (" (wrap-around)" if last else ""))
        if not ok: continue
        s = ups[0][1]
        ob("records-slot", c.same(c.F(s, "started_at.slot", "Snapshot"), now), "the snapshot does not record the current slot")
        ob("records-amount", amount is not None and c.same(c.F(s, "staked.amount", "Snapshot"), amount), "the snapshot does not record the stake vault's balance")
    w = q.F(old, "min_snapshot_window_slots")
    prev = get_field(q.F(sel(r0, tip0), "started_at", "Snapshot"), 0)
    for c, (z,) in q.cases(eq0(w)):
        ob("min-window", c.yes(le(add(prev, I(DEFAULT_WINDOW) if z else w), now)), "a snapshot can be taken before the %s minimum window since the last one has passed" % ("default" if z else "configured"))

@rule("F03", "farming", "ix", "*")
def snapshots_ix(u, q, ob):
    hit = 0
    for a in farms(q):
        if q.fresh(a, "Farm"): continue
        old, new = data0(a), q.final(a)
        ch = q.changed_fields("Farm", old, new)
        if "snapshots" not in ch: continue
        hit += 1
        v = q.by_key(q.F(old, "stake_vault"))
        ob("vault-is-farms", v is not None and q.trusted(v, "TokenAccount"), "the balance recorded is not read from the farm's own stake vault")
        ob("only-snapshots", ch == ["snapshots"], "taking a snapshot also changes %s" % [c for c in ch if c != "snapshots"])
        ring_advance(u, q, ob, old, new, q.now(), q.amount(data0(v)) if v is not None else None)
    if u.name == "take_snapshot": ob("records", hit == 1, "take_snapshot succeeds without recording a snapshot")

def farm_arg(r): return acct(0)

@rule("F03", "farming", "fn", ["models::farm::Farm::take_snapshot"])
def snapshots_fn(u, ob):
    r = run(u)
    slot, amt = get_field(r.args[1], 0), get_field(r.args[2], 0)
    for q, k, v in outcomes(u, r, ob):
        old, new = data0(acct(0)), q.final(acct(0))
        if k == "ok":
            ob("only-snapshots", q.changed_fields("Farm", old, new) == ["snapshots"], "taking a snapshot does not change exactly the snapshots")
            ring_advance(u, q, ob, old, new, slot, amt)
        else:
            w = q.F(old, "min_snapshot_window_slots")
            prev = get_field(q.F(sel(q.F(old, "snapshots.ring_buffer"), q.F(old, "snapshots.ring_buffer_tip")), "started_at", "Snapshot"), 0)
            for c, (z,) in q.cases(eq0(w)):
                ob("accepts-when-due", c.yes(lt(slot, add(prev, I(DEFAULT_WINDOW) if z else w))), "a snapshot is refused although the minimum window has passed")
FLOORS["F03"] = 20

def run(u, pre=None):
    r = fns.run_fn(u.prog, u.id, pre)
    u.E = r.E
    u.states = r.outs
    return r

def outcomes(u, r, ob):
    for s, v in r.outs:
        q = Q(u.prog, r.E, s).normed()
        if q is None: continue
        ob.q = q
        k, x = fn_result(r.E.deep(s, v))
        yield q, k, x if k else v
    ob.q = None

# ================================================================= F04 harvest mints
def harvest_change(q, a):
    """(index, old entry, new entry) of the single harvest entry that changes, None if not of that shape"""
    old, new = data0(a), q.final(a)
    h0, h1 = q.F(old, "harvests"), q.norm(q.F(new, "harvests"))
    ups = array_updates(q, h0, h1, NHARV)
    if ups is None or len(ups) != 1: return None
    i, e = ups[0]
    return i, sel(h0, i, q.f.holds), e

def harvest_kind(q, o, n):
    hf = {f: q.same(q.F(n, f, "Harvest"), q.F(o, f, "Harvest")) for f in q.fields("Harvest")}
    if hf["mint"] and hf["vault"]: return "period"
    if is_zero(q, q.F(n, "mint", "Harvest")): return "remove"
    return "register"

IDX10 = [I(k) for k in range(10)]

def registered(u, q, ob, h0, o, n, mint):
    ob("slot-free", q.same(q.F(o, "mint", "Harvest"), DEFAULT), "adding a harvest mint overwrites an entry that is in use")
    ob("mint-new", all(q.prove(ne(q.F(sel(h0, I(k)), "mint", "Harvest"), mint), IDX10) for k in range(NHARV)), "a harvest mint can be registered twice")
    ob("no-periods", is_zero(q, q.F(n, "periods", "Harvest")), "a new harvest starts with periods that are not empty")

@rule("F04", "farming", "ix", "*")
def harvest_ix(u, q, ob):
    kinds = []
    for a in farms(q):
        if q.fresh(a, "Farm"): continue
        old, new = data0(a), q.final(a)
        if "harvests" not in q.changed_fields("Farm", old, new): continue
        hc = harvest_change(q, a)
        ob("one-entry", hc is not None, "an instruction changes the harvest list other than by updating one entry")
        if hc is None: continue
        i, o, n = hc
        k = harvest_kind(q, o, n)
        kinds.append(k)
        if k == "register":
            mint = q.F(n, "mint", "Harvest")
            m = q.by_key(mint)
            ob("mint-checked", m is not None and q.trusted(m, "Mint"), "a harvest is registered for an account that is not a checked token mint")
            registered(u, q, ob, q.F(old, "harvests"), o, n, mint)
            vk = q.F(n, "vault", "Harvest")
            ob("vault-address", q.same(vk, harvest_vault_pda(a, mint)), "the vault of a new harvest is not derived from the farm and the mint")
            ini = [e for e, _ in evs(q.st, "inittok") if q.same(keyof(e[1]), vk)]
            ob("vault-init", len(ini) == 1 and q.same(keyof(ini[0][2]), mint) and q.same(keyof(ini[0][3]), signer_pda(a)) and q.same(keyof(ini[0][4]), TOKEN_ID),
               "the vault of a new harvest is not initialised for its mint under the farm's signer")
        elif k == "remove":
            mint = q.F(o, "mint", "Harvest")
            ob("entry-cleared", is_zero(q, n), "a removed harvest leaves data behind")
            v = [x for x in q.accounts() if q.same(keyof(x), harvest_vault_pda(a, mint)) and q.trusted(x, "TokenAccount")]
            ob("vault-empty", bool(v) and q.yes(eq0(q.amount(data0(v[0])))), "a harvest is removed while its vault may still hold tokens")
            cl = [e for e, _ in evs(q.st, "closetok") if v and e[1] is v[0]]
            ob("vault-closed", len(cl) == 1 and q.same(keyof(cl[0][3]), signer_pda(a)) and any(q.same(s, signer_pda(a)) for s in cl[0][4]), "the vault of a removed harvest is not closed by the farm's signer")
            ob("rent-to-admin", len(cl) == 1 and q.same(keyof(cl[0][2]), q.F(old, "admin")), "rent of a removed harvest vault does not go to the farm's admin")
    ob("vaults-closed-only-with-removal", len([1 for _ in evs(q.st, "closetok")]) == kinds.count("remove") or u.name == "close_farmer", "a token vault is closed without removing its harvest")
    if u.name == "add_harvest": ob("effect", kinds == ["register"], "add_harvest succeeds without registering a harvest")
    if u.name == "remove_harvest": ob("effect", kinds == ["remove"] , "remove_harvest succeeds without removing a harvest")

@rule("F04", "farming", "fn", ["models::farm::Farm::add_harvest"])
def add_harvest_fn(u, ob):
    r = run(u)
    for q, k, v in outcomes(u, r, ob):
        a = acct(0)
        old, new = data0(a), q.final(a)
        h0 = q.F(old, "harvests")
        if k == "ok":
            hc = harvest_change(q, a)
            ob("one-entry", hc is not None, "adding a harvest does not update exactly one entry")
            if hc is None: continue
            i, o, n = hc
            ob("mint-stored", q.same(q.F(n, "mint", "Harvest"), r.args[1]) and q.same(q.F(n, "vault", "Harvest"), r.args[2]), "the new harvest entry does not hold the given mint and vault")
            registered(u, q, ob, h0, o, n, r.args[1])
        else:
            nes = [ne(q.F(sel(h0, I(j)), "mint", "Harvest"), r.args[1]) for j in range(NHARV)]
            ok = True
            for c in range(NHARV):
                h = q.also(*nes, eq(q.F(sel(h0, I(c)), "mint", "Harvest"), DEFAULT))
                if h is not None and not h.prove(lambda z: False, IDX10): ok = False
            ob("accepts", ok, "a new harvest mint is refused although it is unknown and an entry is free")
FLOORS["F04"] = 25

# ================================================================= F05 / F06 harvest periods
def period(q, v): return tuple(get_field(q.F(v, f, "HarvestPeriod"), 0) for f in ("tps", "starts_at", "ends_at"))

def classify_period(q, o, n):
    """('overwrite'|'push', old list, new newest period)"""
    p0, p1 = q.F(o, "periods", "Harvest"), q.norm(q.F(n, "periods", "Harvest"))
    at = lambda x, k: sel(x, I(k), q.f.holds)
    if all(q.same(at(p1, k), at(p0, k)) for k in range(1, NPER)): return "overwrite", p0, at(p1, 0)
    if all(q.same(at(p1, k), at(p0, k - 1)) for k in range(1, NPER)): return "push", p0, at(p1, 0)
    return None, p0, None

def oldest_started(q, farm):
    """slot at which the oldest snapshot started, by case on the tip: [(Q, term)]"""
    tip, ring = q.F(farm, "snapshots.ring_buffer_tip"), q.F(farm, "snapshots.ring_buffer")
    return [(c, get_field(c.F(sel(ring, ZERO if last else addc(tip, 1)), "started_at", "Snapshot"), 0)) for c, (last,) in q.cases(eq(tip, I(SNAPS - 1)))]

def schedule(u, q, ob, farm, o, n, now):
    k, p0, nw = classify_period(q, o, n)
    ob("list-update", k is not None, "the period list changes other than by replacing or prepending the newest period")
    if k is None: return
    tps, s, e = period(q, nw)
    P = [period(q, sel(p0, I(j), q.f.holds)) for j in range(NPER)]
    ob("starts-before-end", q.yes(lt(s, e)), "a period whose end is not after its start is accepted")
    if k == "overwrite":
        ob("replaces-unstarted", q.prove(lt(now, P[0][1]), IDX10[:2]), "a period that has already started can be overwritten")
        h = q.also(lt(now, P[0][1]), *[le(P[j][1], now) for j in range(1, NPER)])
        ob("no-overlap", h is None or h.prove(lt(P[1][2], s), IDX10[:3]), "a replacement period may overlap the period before it")
    else:
        ob("keeps-scheduled", q.prove(le(P[0][1], now), IDX10[:2]), "a second period can be scheduled while one has not started yet")
        h = q.also(le(P[0][1], now))
        ob("no-overlap", h is None or h.prove(lt(P[0][2], s), IDX10[:3]), "a new period may overlap the period before it")
        for c, old_s in oldest_started(q, farm):
            ok = c.prove(lambda z: z.yes(eq0(P[9][2])) or z.yes(lt(P[9][2], old_s)), ()) or all(
                x.yes(lt(P[9][2], old_s)) for x, (zz,) in c.cases(eq0(P[9][2])) if not zz)
            ob("history-kept", ok, "a period can be dropped while the snapshot history still covers it")

@rule("F05", "farming", "ix", "*")
def schedule_ix(u, q, ob):
    hit = 0
    for a in farms(q):
        if q.fresh(a, "Farm"): continue
        if "harvests" not in q.changed_fields("Farm", data0(a), q.final(a)): continue
        hc = harvest_change(q, a)
        if hc is None:
            ob("one-entry", False, "harvest periods change other than by updating one harvest"); continue
        i, o, n = hc
        if harvest_kind(q, o, n) != "period": continue
        hit += 1
        schedule(u, q, ob, data0(a), o, n, q.now())
        k, p0, nw = classify_period(q, o, n)
        if nw is not None:
            ob("not-in-past", q.yes(le(q.now(), period(q, nw)[1])), "a period can start in the past")
            if u.name == "new_harvest_period":
                args = ixargs(u, q, 4)
                if args:
                    ob("requested-mint", q.same(q.F(o, "mint", "Harvest"), args[0]), "the period is added to a harvest other than the requested one")
                    st_, ln, tps = args[1], args[2], args[3]
                    st_ = st_ if isint(st_) else get_field(st_, 0)
                    tps = tps if isint(tps) else get_field(tps, 0)
                    for c, (z,) in q.cases(eq0(st_)):
                        ns = q.now() if z else st_
                        ob("requested-period", c.same(period(c, nw)[1], ns) and c.same(period(c, nw)[2], addc(add(ns, ln), -1)) and c.same(period(c, nw)[0], tps),
                           "the stored period is not the requested start, length and rate")
    if u.name == "new_harvest_period": ob("effect", hit == 1, "new_harvest_period succeeds without storing a period")

def ixargs(u, q, n):
    """instruction arguments in declaration order"""
    from roots import RootEngine
    seen = {}
    cur = raw("ixdata")
    out = []
    terms = set()
    for c in q.f.items: subterms(c, terms)
    for k, v in q.st.mem.items():
        if k.op in ("data", "mem"): subterms(v, terms)
    for e in q.st.ev:
        for x in flat(e): subterms(x, terms)
    by = {}
    for t in terms:
        if t.op == "ixarg": by.setdefault(t.args[0], set()).add(t)
        if t.op == "ixrest": by.setdefault(t.args[0], set()).add(raw("ixarg", t.args[0], t.args[1]))
    for _ in range(n):
        c = by.get(cur)
        if not c: return None
        t = sorted(c, key=lambda t: t.id)[0]
        out.append(t)
        cur = raw("ixrest", cur, t.args[1])
    return out

def flat(e):
    if isinstance(e, Term): yield e
    elif isinstance(e, tuple):
        for x in e: yield from flat(x)

@rule("F05", "farming", "fn", ["models::farm::Farm::new_harvest_period"])
def schedule_fn(u, ob):
    def pre(E, st, args): pass
    r = run(u, pre)
    a = acct(0)
    now, mint, per, tps = get_field(r.args[1], 0), r.args[2], r.args[3], r.args[4]
    s, e = get_field(get_field(per, 0), 0), get_field(get_field(per, 1), 0)
    for q, k, v in outcomes(u, r, ob):
        old = data0(a)
        h0 = q.F(old, "harvests")
        if k == "ok":
            hc = harvest_change(q, a)
            ob("one-entry", hc is not None, "adding a period does not update exactly one harvest")
            if hc is None: continue
            i, o, n = hc
            ob("requested-mint", q.same(q.F(o, "mint", "Harvest"), mint), "the period is added to a harvest other than the requested one")
            schedule(u, q, ob, old, o, n, now)
            kind, p0, nw = classify_period(q, o, n)
            if kind is None: continue
            ob("requested-period", period(q, nw)[1:] == (s, e) or (q.same(period(q, nw)[1], s) and q.same(period(q, nw)[2], e) and q.same(period(q, nw)[0], get_field(tps, 0))), "the stored period is not the requested one")
            tag, x = fn_result(v)
            want = "some" if kind == "overwrite" else "none"
            ob("reports-replaced", tag == want and (tag == "none" or q.same(x, sel(p0, ZERO))), "the replaced scheduled period is not reported to the caller")
        else:
            # a period that meets the conditions is accepted
            ok1 = ok2 = True
            for c in range(NHARV):
                hyp = [ne(q.F(sel(h0, I(j)), "mint", "Harvest"), mint) for j in range(c)] + [eq(q.F(sel(h0, I(c)), "mint", "Harvest"), mint), lt(s, e)]
                ps = q.F(sel(h0, I(c)), "periods", "Harvest")
                P = [period(q, sel(ps, I(j))) for j in range(NPER)]
                h = q.also(*hyp, le(P[0][1], now), lt(P[0][2], s), eq0(P[9][2]), eq0(P[9][1]))
                if h is not None and not h.prove(lambda z: False, IDX10): ok1 = False
                h = q.also(*hyp, lt(now, P[0][1]), le(P[1][1], now), lt(P[1][2], s))
                if h is not None and not h.prove(lambda z: False, IDX10): ok2 = False
            ob("accepts-next", ok1, "a valid next period is refused")
            ob("accepts-replacement", ok2, "a valid replacement of a scheduled period is refused")
FLOORS["F05"] = 20

# ================================================================= F06 funding
@rule("F06", "farming", "ix", "*")
def funding(u, q, ob):
    hit = 0
    for a in farms(q):
        if q.fresh(a, "Farm"): continue
        if "harvests" not in q.changed_fields("Farm", data0(a), q.final(a)): continue
        hc = harvest_change(q, a)
        if hc is None: continue
        i, o, n = hc
        if harvest_kind(q, o, n) != "period": continue
        k, p0, nw = classify_period(q, o, n)
        if k is None:
            ob("list-update", False, "the period list changes other than by replacing or prepending the newest period"); continue
        hit += 1
        t, s, e = period(q, nw)
        need = mul(t, addc(sub(e, s), 1))
        if k == "overwrite":
            t0, s0, e0 = period(q, sel(p0, ZERO, q.f.holds))
            need = sub(need, mul(t0, addc(sub(e0, s0), 1)))
        vk = harvest_vault_pda(a, q.F(o, "mint", "Harvest"))
        moved = ZERO
        ok = True
        for ev, ctx in evs(q.st, "xfer"):
            if ctx: ok = False
            into, out = q.same(keyof(ev[2]), vk), q.same(keyof(ev[1]), vk)
            if into and not out:
                moved = add(moved, ev[4])
                ob("paid-by-admin", q.same(keyof(ev[3]), q.F(data0(a), "admin")) and q.signed(keyof(ev[3])), "period funding is not moved with the admin's own authority")
            elif out and not into:
                moved = sub(moved, ev[4])
                ob("refund-by-farm", q.same(keyof(ev[3]), signer_pda(a)) and any(q.same(x, signer_pda(a)) for x in ev[5]), "a refund is not moved with the farm signer's authority")
            else: ob("right-vault", False, "period funding moves tokens between accounts other than the harvest's vault")
            ob("token-program", q.same(keyof(ev[6]), TOKEN_ID), "the transfer does not go through the token program")
        ob("funded-exactly", ok and q.same(moved, need), "the tokens moved into the harvest vault differ from what the new period emits beyond what the replaced one was funded with (%s)" % k)
    if u.name == "new_harvest_period": ob("effect", hit == 1, "new_harvest_period succeeds without storing a period")
FLOORS["F06"] = 20

def too_large(c):
    return c.op == "overflow" or c.op == "le0" and lin(c.args[0])[0] > 2 ** 62

def impossible(q, fs=()):
    """the ring's tip is an index of the ring (F03)"""
    hyp = [lt(q.F(data0(f), "snapshots.ring_buffer_tip", "Farm"), I(SNAPS)) for f in list(fs) or [a for a in q.accounts() if "Farm" in q.typeof(a)]]
    h = q.also(*hyp) if hyp else q
    return h is None or h.f.lin_unsat()

def no_abort(u, r, ob, fs=()):
    """the function aborts only for numbers that do not fit"""
    for s in r.panics:
        q = Q(u.prog, r.E, s).normed()
        if q is None: continue
        ob.q = q
        ob("no-abort", any(too_large(c) for c in q.f.items) or impossible(q, fs), "the function aborts")
    ob.q = None

# ================================================================= F07 history queries
def cong(q, a, b, n):
    """a = b modulo n, also using the equalities of the state"""
    def lift(p):
        c, m = lin(p)
        out = I(c)
        for k, v in m.items():
            if len(k) == 1 and k[0].op == "rem" and cval(k[0].args[1]) == n: out = add(out, mul(I(v), lift(k[0].args[0])))
            else: out = add(out, mkpoly(0, {k: v}))
        return out
    def zero(p):
        c, m = lin(p)
        return c % n == 0 and all(v % n == 0 for v in m.values())
    d = lift(sub(a, b))
    if zero(d) or zero(lift(q.f.canon(sub(a, b)))): return True
    for c in q.f.items:
        if c.op == "eq0":
            p = lift(c.args[0])
            if zero(add(d, p)) or zero(sub(d, p)): return True
    return False

def in_range(q, x, lo, hi): return q.yes(le(I(lo), x)) and q.yes(le(x, I(hi)))

def ring_elem(q, v, ring):
    """index of the ring entry a value is, or None"""
    v = q.norm(v)
    if v.op == "sel" and v.args[0] is ring: return v.args[1]
    if v.op == "agg" and v.args[1]:
        fs = [x for x in v.args[1]]
        # rebuilt entry
        b = None
        for i, x in enumerate(fs):
            y = x
            while y.op == "fld": y = y.args[0]
            if y.op != "sel" or y.args[0] is not ring or not q.same(x, get_field(y, i)): return None
            if b is not None and not q.same(b, y.args[1]): return None
            b = y.args[1]
        return b
    return None

def newer_than(q, ring, tip, slot):
    """witnesses w such that every entry of age < w started after slot: [(w, strict)]"""
    out = []
    for c in q.f.items:
        if c.op != "foralld" or c.args[0] is not ZERO: continue
        lo, hi, dnf = c.args
        good = bool(dnf)
        for d in dnf:
            z = q.also(*d, le(ZERO, BV), lt(BV, I(SNAPS)))
            if z is None: continue
            z = z
            i = rem(add(tip, mul(I(SNAPS - 1), BV)), I(SNAPS))
            at = get_field(q.F(sel(ring, i), "started_at", "Snapshot"), 0)
            if not (z.yes(lt(slot, at)) or any(age_is(z, x, ring, tip, BV) and z.yes(lt(slot, x)) for x in subslots(d))): good = False
        if good: out.append(hi)
    return out

def subslots(d):
    s = set()
    for c in d: subterms(c, s)
    return [x for x in s if x.op == "fld" and x.args[1] == 0 and x.args[0].op == "fld"]

def age_is(q, x, ring, tip, j):
    """x is the start slot of the entry of age j"""
    y = x.args[0].args[0]
    return y.op == "sel" and y.args[0] is ring and x.args[0].args[1] == q.idx("Snapshot", "started_at") and cong(q, y.args[1], sub(tip, j), SNAPS)

def started_of_age(q, ring, tip, w, pred):
    """the entry of age w satisfies pred(start slot): w is a witness of the facts"""
    s = set()
    for c in q.f.items:
        if c.op in ("le0", "not", "eq0"): subterms(c, s)
    for x in s:
        if x.op == "fld" and x.args[1] == 0 and x.args[0].op == "fld" and x.args[0].args[0].op == "sel" and x.args[0].args[0].args[0] is ring:
            if age_is(q, x, ring, tip, w) and pred(x): return True
    i = rem(add(tip, mul(I(SNAPS - 1), w)), I(SNAPS))
    return pred(get_field(q.F(sel(ring, i), "started_at", "Snapshot"), 0))

@rule("F07", "farming", "fn", ["models::farm::Farm::latest_snapshot", "models::farm::Farm::oldest_snapshot"])
def ends(u, ob):
    r = run(u)
    no_abort(u, r, ob, [acct(0)])
    for s, v in r.outs:
        q = ob.q = Q(u.prog, r.E, s).normed()
        if q is None: continue
        f = data0(acct(0))
        tip, ring = q.F(f, "snapshots.ring_buffer_tip"), q.F(f, "snapshots.ring_buffer")
        for c, (last,) in q.cases(eq(tip, I(SNAPS - 1))):
            if u.name.endswith("latest_snapshot"): ok = c.same(v, sel(ring, tip))
            else: ok = c.same(v, sel(ring, ZERO if last else addc(tip, 1)))
            ob(u.name.split("::")[-1], ok, "%s is not the ring entry %s the tip" % (u.name.split("::")[-1], "at" if "latest" in u.name else "after"))
    ob.q = None

@rule("F07", "farming", "fn", ["models::farm::Farm::first_snapshot_after"])
def first_after(u, ob):
    r = run(u)
    no_abort(u, r, ob, [acct(0)])
    f = data0(acct(0))
    slot = get_field(r.args[1], 0)
    for q, k, v in outcomes(u, r, ob):
        tip, ring = q.F(f, "snapshots.ring_buffer_tip"), q.F(f, "snapshots.ring_buffer")
        latest = get_field(q.F(sel(ring, tip), "started_at", "Snapshot"), 0)
        if k == "none":
            ok = q.yes(le(latest, slot))
            ob("none-only-if-none", ok, "no snapshot is returned although a later one exists")
            continue
        if k != "some":
            ob("returns", None, "result not recognised"); continue
        i = ring_elem(q, v, ring)
        ws = newer_than(q, ring, tip, slot)
        ok = False
        why = "the snapshot returned is not the first one taken after the slot"
        later = q.yes(lt(slot, latest))
        if i is not None:
            for w in ws:
                # the entry of age w started at or before slot, all newer ones after it
                if q.yes(lt(w, I(SNAPS))) and started_of_age(q, ring, tip, w, lambda x: q.yes(le(x, slot))) and cong(q, i, addc(sub(tip, w), 1), SNAPS) and in_range(q, i, 0, SNAPS - 1) and (later or q.yes(le(ONE, w))): ok = True
                # all entries started after slot: the oldest
                if q.yes(le(I(SNAPS), w)) and cong(q, i, addc(tip, 1), SNAPS) and in_range(q, i, 0, SNAPS - 1): ok = True
        ob("first-after", ok if i is not None or not tainted_value(u, v) else None, why, show(v)[:300])

def tainted_value(u, v): return any(x.op in ("app", "eff") for x in subterms(v))

@rule("F07", "farming", "fn", ["models::farm::Farm::get_window_snapshots_eligible_to_harvest"])
def window(u, ob):
    r = run(u)
    no_abort(u, r, ob, [acct(0)])
    f = data0(acct(0))
    slot = get_field(r.args[1], 0)
    E = r.E
    for s, v in r.outs:
        q = ob.q = Q(u.prog, E, s).normed()
        if q is None: continue
        tip, ring = q.F(f, "snapshots.ring_buffer_tip"), q.F(f, "snapshots.ring_buffer")
        t = models.as_it(E, s, v) if v.op != "it" else v
        if t is None or t.op != "it":
            ob("sequence", None, "iterator not recognised"); continue
        n = sub(models.clen(E, s, t.args[0]), t.args[1])
        j = raw("sk", -7, "age"); RANGE[j] = (0, SNAPS - 1)
        el = models.celem(E, s.copy(), t.args[0], add(t.args[1], j))
        if isinstance(el, list): el = el[0][1] if len(el) == 1 else None
        x = E.deep(s, el) if el is not None else None
        for _ in range(3):
            if x is not None and x.op in ("ref", "boxv"): x = E.deref(s, x)
        h = q.also(lt(j, n))
        if h is None: continue
        i = ring_elem(h, x, ring) if x is not None else None
        ob("newest-first", i is not None and cong(h, i, sub(tip, j), SNAPS), "the snapshots are not enumerated from the newest towards the oldest", show(x)[:300] if x is not None else None)
        ok = False
        for w in newer_than(q, ring, tip, slot):
            if q.yes(le(I(SNAPS), w)):
                if q.same(n, I(SNAPS)): ok = True
            elif started_of_age(q, ring, tip, w, lambda y: q.yes(le(y, slot))):
                if q.same(n, addc(w, 1)) or (cong(q, n, addc(w, 1), SNAPS) and in_range(q, n, 1, SNAPS) and in_range(q, w, 0, SNAPS - 1)): ok = True
        ob("window-complete", ok, "the snapshots returned are not exactly those down to the newest one taken at or before the given slot", show(n)[:300])
    ob.q = None
FLOORS["F07"] = 12

# ================================================================= F08 emission rates over time
def tps_history(u, n, gaps=None):
    """outcomes for a harvest with n scheduled periods"""
    pers = []
    facts = []
    prog = u.prog
    def pre(E, st, args):
        q = Q(prog, E, st)
        a = acct(0)
        H = E.p.adts[[k for k in E.p.adts if k.split("::")[-1] == "Harvest"][0]]
        old = data0(a)
        ps = q.F(old, "periods", "Harvest")
        items = []
        zero = lambda v: v
        for i in range(NPER):
            x = sel(ps, I(i))
            if i >= n:
                for f in ("tps", "starts_at", "ends_at"):
                    k = q.idx("HarvestPeriod", f)
                    x = set_field(x, k, set_field(get_field(x, k), 0, ZERO))
            items.append(x)
        for i in range(1, n):
            # adjoining periods: the later one starts right after the earlier one
            if gaps is not None and gaps[i - 1] is False:
                k = q.idx("HarvestPeriod", "starts_at")
                items[i - 1] = set_field(items[i - 1], k, set_field(get_field(items[i - 1], k), 0, addc(period(q, items[i])[2], 1)))
        arrv = raw("agg", ("array",), tuple(items))
        st.mem[droot(a)] = set_field(old, q.idx("Harvest", "periods"), arrv)
        cur = get_field(args[1], 0)
        fs = [le(ONE, cur)]
        for i in range(n):
            t, s, e = period(q, items[i])
            fs += [le(ONE, s), lt(s, e)]
            pers.append((t, s, e))
            if i:
                gap = True if gaps is None else gaps[i - 1]
                if gap is None: fs.append(lt(e, pers[i - 1][1]))
                elif gap and gaps is not None: fs.append(lt(addc(e, 1), pers[i - 1][1]))
                elif not gap: pass
                else: fs.append(lt(e, pers[i - 1][1]))
        for c in fs:
            st.facts = st.facts.add(c)
    r = fns.run_fn(prog, u.id, pre, eager=16, max_states=5000)
    u.E = r.E
    u.states = r.outs
    return r, pers, get_field(r.args[1], 0)

@rule("F08", "farming", "fn", ["models::farm::Harvest::tps_history"])
def tps_rule(u, ob):
    tot = []
    # every number of periods with every pattern of gaps up to a bound, and full
    # lists in which any two neighbouring gaps are arbitrary and the others alike
    todo = [(n, None) for n in range(0, (7 if check.TIER == "thorough" else 4))]
    for k in range(NPER - 1):
        for g in (True, False): todo.append((NPER, [None if j in (k, k + 1) else g for j in range(NPER - 1)]))
    for n, gaps in todo:
        if any(v[1] for v in ob.items.values()): break   # a shorter list already shows the violation
        r, pers, cur = tps_history(u, n, gaps)
        tot += r.outs
        no_abort(u, r, ob)
        for s, v in r.outs:
            q = ob.q = Q(u.prog, r.E, s)
            v = r.E.deep(s, v)
            if v.op != "agg" or v.args[0] != ("array",):
                ob("sequence", None, "the list of rates is not built from the periods in a recognised way"); continue
            ent = [(get_field(get_field(get_field(x, 0), 0), 0), get_field(get_field(get_field(x, 0), 1), 0), get_field(get_field(x, 1), 0)) for x in v.args[1]]
            ob("starts-first", bool(ent) and q.same(ent[0][0], ONE), "the rates do not reach back to the first slot", v)
            ok = all(q.same(ent[k + 1][0], addc(ent[k][1], 1)) for k in range(len(ent) - 1))
            ob("gap-free", ok, "consecutive ranges overlap, leave a gap or are out of order", v)
            ob("non-empty", all(q.yes(le(a, b)) for a, b, _ in ent), "a range is empty", v)
            used = set()
            ok = True
            for t, a, b in pers:
                m = [k for k, e in enumerate(ent) if q.same(e[0], a) and q.same(e[1], b) and q.same(e[2], t)]
                if len(m) != 1: ok = False
                used |= set(m)
            ob("periods", ok, "a scheduled period does not appear exactly once with its own range and rate", v)
            ob("zero-between", all(q.same(e[2], ZERO) for k, e in enumerate(ent) if k not in used), "slots outside all periods have a non-zero rate", v)
            last = ent[-1][1] if ent else ZERO
            if not pers: ok = q.same(last, cur)
            else: ok = all(q2.same(last, cur if b else pers[0][2]) for q2, (b,) in q.cases(lt(pers[0][2], cur)))
            ob("ends-last", ok, "the rates do not end at the current slot or, if later, the end of the newest period", v)
    ob.q = None
    u.states = tot
FLOORS["F08"] = 6

# ================================================================= F09 valid requests are accepted
def whole(f):
    f.whole = True
    return f

def runtime_ok(q):
    """every authority the runtime asks for is given: signers, or addresses signed for by this program"""
    def auth(a, signers): return q.signed(keyof(a)) or any(q.same(keyof(a), s) for s in signers)
    for e, ctx in evs(q.st):
        if e[0] == "create" and not auth(e[4], e[5]): return "the payer %s of a new account does not sign" % show(e[4])
        if e[0] == "xfer" and not auth(e[3], e[5]): return "the authority %s of a token transfer does not sign" % show(e[3])
        if e[0] in ("mint", "burn") and not auth(e[3], e[5]): return "the authority %s of a mint or burn does not sign" % show(e[3])
        if e[0] == "closetok" and not auth(e[3], e[4]): return "the authority %s for closing a token account does not sign" % show(e[3])
    return None

def written(q):
    """accounts whose data, lamports or token balance change"""
    out = dict.fromkeys(q.changed())
    for e, ctx in evs(q.st, "create", "xfer", "mint", "burn", "closetok", "close", "inittok"):
        k = e[0]
        for x in {"create": (1, 4), "xfer": (1, 2), "mint": (1, 2), "burn": (1, 2), "closetok": (1, 2), "close": (1, 2), "inittok": (1,)}[k]:
            if isinstance(e[x], Term) and e[x].op == "acct": out[e[x]] = None
    return list(out)

def writable(q, a):
    return any(c.op == "writable" and q.same(c.args[0], a) for c in q.f.items) or any(e[1] is a for e, _ in evs(q.st, "create"))

def possible(u, ob, want=()):
    """some execution succeeds and the runtime lets it; want: named predicates that must each occur"""
    good, why = [], "every path ends in an error or a panic"
    for s in u.states:
        q = Q(u.prog, u.E, s)
        for a in written(q):
            if a not in u.E.acct_names: continue     # not named by the instruction: passed by the client as it sees fit
            ob("writable", writable(q, a), "account %s is changed but not required to be writable, so generated clients pass it read-only" % u.E.acct_names.get(a, show(a)))
    for s in u.states:
        q = Q(u.prog, u.E, s).normed()
        if q is None: continue
        r = runtime_ok(q)
        if r is None: good.append(q)
        else: why = r
    ob("can-succeed", bool(good), "the instruction can never succeed: %s" % why)
    for name, pred in want:
        if good: ob("can-succeed", any(pred(q) for q in good), "the instruction can never succeed %s" % name)

def refusals(u, ob, reasons, msg):
    """every refusal of the handler has one of the reasons"""
    for s in u.refused:
        q = Q(u.prog, u.E, s).normed()
        if q is None: continue
        ob.q = q
        ob("refused-only-for-cause", any(r(q) for r in reasons), msg)
    panics(u, u.panics, ob, reasons)
    rejections(u, ob, reasons)

def panics(u, states, ob, reasons, E=None):
    """aborts are refusals: only where the request may be refused, or for numbers that do not fit"""
    for s in states:
        q = Q(u.prog, E or u.E, s).normed()
        if q is None: continue
        ob.q = q
        ob("aborts-only-for-cause", any(too_large(c) for c in q.f.items) or impossible(q) or wrong_accounts(u, q) or any(r(q) for r in reasons), "a valid request aborts the program")
    ob.q = None

def common(u):
    """facts known whenever the handler is entered"""
    if getattr(u, "_common", None) is None:
        c = None
        for s in u.entered: c = set(s.facts.items) if c is None else c & set(s.facts.items)
        u._common = c or set()
    return u._common

def causes(u, q):
    """what distinguishes this refusal from the requests that are accepted"""
    for c in q.f.items:
        if c in common(u): continue
        for x in (c.args[0] if c.op == "or" else [c] if c.op != "foralld" else [y for d in c.args[2] for y in (d if isinstance(d, tuple) else (d,))]): yield x

def key_kind(q, x):
    """what a public key is: an address, a field of one of the program's own accounts, a token mint"""
    if x.op in ("pda", "progdata"): return "pda"
    if x.op == "cpub": return "const"
    if x.op == "key": return "mint" if "Mint" in q.isa(x.args[0]) else "addr"
    y = x
    while y.op in ("fld", "sel", "vf", "at"): y = y.args[0]
    if y.op != "data0": return "ixarg" if y.op == "ixarg" else "other"
    T = q.typeof(y.args[0])
    if "TokenAccount" in T: return "mint" if x is q.tokmint(data0(y.args[0])) else "token"
    if "Mint" in T: return "token"
    return "field"

def lin_atoms(p): return {x for m in lin(p)[1] for x in m}

RELATED = {frozenset(p) for p in (("addr", "field"), ("mint", "field"), ("field",), ("mint",), ("addr", "const"), ("ixarg", "field"), ("ixarg", "mint"))}
def wrong_accounts(u, q):
    """the accounts passed are not the ones the request is about: of another kind, at another address, unrelated or
    without the access the instruction needs"""
    for c in causes(u, q):
        n = c.op == "not"
        d = c.args[0] if n else c
        if c.op == "fails": return True
        if n and d.op in ("writable", "signer", "exempt", "isa"): return True
        if c.op == "eq0" and raw("naccs") in lin_atoms(c.args[0]): return True     # too few accounts
        if any(x.op == "rawdata" for x in subterms(c)): return True                # not a blank account
        if n and d.op == "eq":
            a, b = (key_kind(q, q.norm(x)) for x in d.args)
            if "pda" in (a, b) or frozenset((a, b)) in RELATED: return True
        if d.op == "eq" and not n and all(x.op == "key" for x in d.args):
            # an account of the program cannot be closed into itself
            if any(q.signed(x) for x in d.args) and any(t in q.isa(x.args[0]) for x in d.args for t in ("Farm", "Farmer", "WhitelistCompounding")): return True
    return False

def rejections(u, ob, reasons, msg="a request with the right accounts is refused by a constraint on them"):
    """accounts are refused only for being the wrong ones, or for the reasons the request itself may be refused for"""
    for s in u.rejected:
        q = Q(u.prog, u.E, s).normed()
        if q is None: continue
        ob.q = q
        ob("accounts-refused-only-for-cause", wrong_accounts(u, q) or any(r(q) for r in reasons), msg)
    ob.q = None

def not_admin(q):
    """the caller is not the farm's admin"""
    fs = [a for a in q.accounts() if q.trusted(a, "Farm")]
    sg = list(dict.fromkeys(c.args[0] for c in q.f.items if c.op == "signer"))
    return any(q.ne(q.F(data0(f), "admin"), keyof(s)) for f in fs for s in sg)

@rule("F09", "farming", "ix", ["set_farm_owner", "set_min_snapshot_window", "whitelist_farm_for_compounding", "dewhitelist_farm_for_compounding"])
@whole
def admin_accepted(u, ob):
    possible(u, ob)
    refusals(u, ob, [not_admin], "a request signed by the farm's admin is refused")

@rule("F09", "farming", "ix", ["create_farm"])
@whole
def create_accepted(u, ob):
    possible(u, ob)
    refusals(u, ob, [], "creating a farm on a blank account is refused")

@rule("F09", "farming", "ix", ["take_snapshot"])
@whole
def snapshot_accepted(u, ob):
    possible(u, ob)
    def other_vault(q):
        fs = [a for a in q.accounts() if q.trusted(a, "Farm")]
        return any(q.ne(q.F(data0(f), "stake_vault"), keyof(a)) for f in fs for a in q.accounts() if "TokenAccount" in q.isa(a))
    def early(q):
        for f in q.accounts():
            if not q.trusted(f, "Farm"): continue
            d = data0(f)
            tip, ring, w = q.F(d, "snapshots.ring_buffer_tip"), q.F(d, "snapshots.ring_buffer"), q.F(d, "min_snapshot_window_slots")
            last = get_field(q.F(sel(ring, tip, q.f.holds), "started_at", "Snapshot"), 0)
            if all(c.yes(lt(q.now(), add(last, I(DEFAULT_WINDOW) if z else w))) for c, (z,) in q.cases(eq0(w))): return True
        return False
    refusals(u, ob, [other_vault, early], "a snapshot of the farm's own vault after the window is refused")

def never(q, hyps):
    """none of the hypotheses (lists of facts) is possible in this state"""
    for hyp in hyps:
        h = q.also(*hyp)
        if h is not None and not h.prove(lambda z: z.f.lin_unsat(), IDX10): return False
    return True

@rule("F09", "farming", "ix", ["add_harvest"])
@whole
def add_accepted(u, ob):
    possible(u, ob)
    def unknown_and_free(q):
        for f in q.accounts():
            if not q.trusted(f, "Farm"): continue
            hs = q.F(data0(f), "harvests")
            for m in q.accounts():
                if not q.trusted(m, "Mint"): continue
                k = keyof(m)
                hyps = [[ne(k, DEFAULT)] + [ne(q.F(sel(hs, I(j)), "mint", "Harvest"), k) for j in range(NHARV)] + [eq(q.F(sel(hs, I(c)), "mint", "Harvest"), DEFAULT)] for c in range(NHARV)]
                if never(q, hyps): return True
        return False
    refusals(u, ob, [not_admin, unknown_and_free], "the admin's request to add an unknown harvest mint while an entry is free is refused")

@rule("F09", "farming", "ix", ["remove_harvest"])
@whole
def remove_accepted(u, ob):
    possible(u, ob)
    mint = None
    for s in u.states:
        a = ixargs(u, Q(u.prog, u.E, s), 1)
        if a: mint = a[0]
    def unknown(q):
        if mint is None: return None
        for f in q.accounts():
            if not q.trusted(f, "Farm"): continue
            hs = q.F(data0(f), "harvests")
            if never(q, [[eq(q.F(sel(hs, I(c)), "mint", "Harvest"), mint)] + [ne(q.F(sel(hs, I(j)), "mint", "Harvest"), mint) for j in range(c)] for c in range(NHARV)]): return True
        return False
    def not_empty(q):
        return any(q.trusted(a, "TokenAccount") and q.yes(neg_c(eq0(q.amount(data0(a))))) for a in q.accounts())
    refusals(u, ob, [not_admin, unknown, not_empty], "the admin's request to remove a harvest with an empty vault is refused")

@rule("F09", "farming", "ix", ["new_harvest_period"])
@whole
def period_accepted(u, ob):
    args, wallet = None, None
    def net(q, into):
        for a in farms(q):
            hc = harvest_change(q, a)
            if hc is None: return False
            vk = harvest_vault_pda(a, q.F(hc[1], "mint", "Harvest"))
            return any(q.same(keyof(e[2 if into else 1]), vk) for e, _ in evs(q.st, "xfer"))
        return False
    def kind(q, want):
        for a in farms(q):
            hc = harvest_change(q, a)
            return hc is not None and classify_period(q, hc[1], hc[2])[0] == want
        return False
    possible(u, ob, [("taking more tokens from the admin", lambda q: net(q, True)), ("returning surplus tokens to the admin", lambda q: net(q, False)),
                     ("replacing a scheduled period", lambda q: kind(q, "overwrite")), ("adding a period", lambda q: kind(q, "push"))])
    for s in u.states:
        q = Q(u.prog, u.E, s)
        args = args or ixargs(u, q, 4)
        for e, _ in evs(s, "xfer"):
            if q.signed(keyof(e[3])): wallet = e[1]
    if not args or wallet is None:
        ob("arguments", None, "the arguments of new_harvest_period are not recognised"); return
    val = lambda t: t if isint(t) else get_field(t, 0)
    mint, start, ln, tps = args[0], val(args[1]), val(args[2]), val(args[3])
    U64 = I(2**64 - 1)
    total = mul(ln, tps)
    def invalid(q):
        now = q.now()
        for f in q.accounts():
            if not q.trusted(f, "Farm"): continue
            h0 = q.F(data0(f), "harvests")
            hyps = []
            for z in (True, False):
                s = now if z else start
                e = addc(add(s, ln), -1)
                base = [eq0(start) if z else le(now, start), le(I(2), ln), le(add(s, ln), U64), le(ZERO, total), le(total, U64), le(total, q.amount(data0(wallet)))]
                base.append(le(ZERO, now))
                if not z: base.append(neg_c(eq0(start)))
                b = q.also(*base)
                if b is None or b.normed() is None: continue
                for c in (range(NHARV) if check.TIER == "thorough" else (0, 1, NHARV - 1)):
                    hyp = base + [ne(q.F(sel(h0, I(j)), "mint", "Harvest"), mint) for j in range(c)] + [eq(q.F(sel(h0, I(c)), "mint", "Harvest"), mint)]
                    ps = q.F(sel(h0, I(c)), "periods", "Harvest")
                    P = [period(q, sel(ps, I(j))) for j in range(NPER)]
                    # nothing scheduled ahead, an entry never used
                    hyps.append(hyp + [le(P[0][1], now), lt(P[0][2], s), eq0(P[9][2]), eq0(P[9][1])])
                    # the newest period has not started
                    t0 = mul(P[0][0], addc(sub(P[0][2], P[0][1]), 1))
                    hyps.append(hyp + [lt(now, P[0][1]), lt(P[0][1], P[0][2]), lt(P[0][2], U64), le(ZERO, t0), le(t0, U64), le(P[1][1], now), lt(P[1][2], s)])
            if never(q, hyps): return True
        return False
    refusals(u, ob, [not_admin, invalid], "a valid, affordable request for an emission period is refused")
FLOORS["F09"] = 20

"""Rules about pools: custody, reserves, prices, fees, liquidity, toll, discounts."""
from itertools import permutations
from term import *
from interp import RES, OPT, Imprecise
import models, fns, bounded
from q import *
import check
from check import rule, FLOORS, Unit
from anchor import *
from rules_farm import rejections, causes, is_zero, written, writable, possible, refusals, runtime_ok, whole, never, fn_result, ixargs

E18 = 10 ** 18
U64 = 2 ** 64 - 1
ARG0 = raw("ixarg", raw("ixdata"), "u64")
ARG1 = raw("ixarg", raw("ixrest", raw("ixdata"), "u64"), "u64")
MAX_FEE = 10000
POOL_IX = ("swap", "deposit_liquidity", "redeem_liquidity", "create_pool")

def perms(n): return ["".join(map(str, p)) for p in permutations(range(n))]

def swaps(tier):
    if tier == "thorough": return ["swap:%dc:%s" % (n, p) for n in (2, 3, 4) for p in perms(n)]
    return ["swap:2c:01", "swap:2c:10", "swap:3c:012", "swap:3c:201", "swap:4c:3102"]

def deposits(tier):
    q = ["deposit_liquidity:2b", "deposit_liquidity:2:01:01:01", "deposit_liquidity:2b:10:01:10", "deposit_liquidity:3b:012:120:201",
         "deposit_liquidity:3b:210:012:012", "deposit_liquidity:2b:01:10:01", "deposit_liquidity:4b:3102:0123:2310"]
    if tier == "thorough":
        q += ["deposit_liquidity:2:10:01:10", "deposit_liquidity:2:01:10:10"] + ["deposit_liquidity:3b:%s:%s:%s" % (p, perms(3)[i % 6], perms(3)[(i * 5 + 2) % 6]) for i, p in enumerate(perms(3))] + \
            ["deposit_liquidity:4b:%s:%s:%s" % (p, perms(4)[(i * 7 + 1) % 24], perms(4)[(i * 11 + 5) % 24]) for i, p in enumerate(perms(4))]
    return list(dict.fromkeys(q))

def redeems(tier):
    q = ["redeem_liquidity:2", "redeem_liquidity:2:10", "redeem_liquidity:3:012:120:201", "redeem_liquidity:3:201:012:012", "redeem_liquidity:4:3102:0123:2310", "redeem_liquidity:4:0123:3210:0123"]
    if tier == "thorough":
        q += ["redeem_liquidity:3:%s:%s:%s" % (p, perms(3)[i % 6], perms(3)[(i * 5 + 2) % 6]) for i, p in enumerate(perms(3))] + \
            ["redeem_liquidity:4:%s:%s:%s" % (p, perms(4)[(i * 7 + 1) % 24], perms(4)[(i * 11 + 5) % 24]) for i, p in enumerate(perms(4))]
    return list(dict.fromkeys(q))

def creates(tier): return ["create_pool:2", "create_pool:3", "create_pool:4"]
def overlong(tier):
    """a vault passed more than once"""
    return ["deposit_liquidity:2b:01:01:010", "redeem_liquidity:2:01:01:011"]
def exchanges(tier): return swaps(tier) + deposits(tier) + redeems(tier)
def pools_all(tier): return exchanges(tier) + creates(tier)

# ---------------------------------------------------------------- reading a pool
class P:
    """the pool of a bounded unit in one state: before (0) and after (1)"""
    def __init__(self, u, q):
        B = u.B
        self.q, self.B, self.a, self.n = q, B, B.pool, B.n
        self.old, self.new = data0(B.pool), q.final(B.pool)
        F = lambda v, f: q.F(v, f, "Pool")
        R = lambda v: [q.get(F(v, "reserves"), i) for i in range(B.n)]
        self.r0, self.r1 = R(self.old), R(self.new)
        T = lambda r: get_field(q.F(r, "tokens", "Reserve"), 0)
        self.t0, self.t1 = [T(r) for r in self.r0], [T(r) for r in self.r1]
        self.mint = [q.F(r, "mint", "Reserve") for r in self.r0]
        self.vault = [q.F(r, "vault", "Reserve") for r in self.r0]
        self.lpkey = F(self.old, "mint")
        self.toll = F(self.old, "program_toll_wallet")
        self.fee = get_field(F(self.old, "swap_fee"), 0)
        self.c0, self.c1 = F(self.old, "curve"), F(self.new, "curve")
        self.signer = PDA("signer", keyof(B.pool))
        self.moves = []        # (event, reserve index of source, reserve index of destination)
        for e, ctx in evs(q.st, "xfer"):
            self.moves.append((e, self.at(e[1]), self.at(e[2])))
    def at(self, x):
        for i, v in enumerate(self.vault):
            if self.q.same(keyof(x), v): return i
        return None
    def net(self, i):
        s = ZERO
        for e, f, t in self.moves:
            if t == i: s = add(s, e[4])
            if f == i: s = sub(s, e[4])
        return s
    def ins(self): return [(t, e) for e, f, t in self.moves if t is not None]
    def outs(self): return [(f, e) for e, f, t in self.moves if f is not None]
    def lp(self):
        a = self.q.by_key(self.lpkey)
        return a if a is not None and self.q.trusted(a, "Mint") else None
    def supply(self):
        a = self.lp()
        return get_field(get_field(data0(a), 0), 1) if a is not None else None

def is_variant(q, v, k):
    """True/False/None: the curve (or result) is variant k"""
    if v.op == "agg" and v.args[0][0] == "adt": return v.args[0][2] == k
    if v.op == "with": return is_variant(q, v.args[0], k)
    h = q.f.holds(raw("is", v, k))
    return h

def pools(q, fresh=False):
    return [a for a in q.changed() if "Pool" in q.typeof(a) and (fresh or not q.fresh(a, "Pool"))]

# ================================================================= A01 reserves
@rule("A01", "amm", "pool", lambda tier: exchanges(tier) + overlong(tier))
def reserves_ledger(u, q, ob):
    p = P(u, q)
    ob("pool-owned-by-program", q.trusted(p.a, "Pool"), "a pool is used without checking that the account is a Pool of this program")
    for i in range(p.n):
        ob("reserve-follows-vault", q.same(sub(p.t1[i], p.t0[i]), p.net(i)), "the recorded balance of a reserve changes by another amount than its vault")
    ob("moves-tokens", bool(p.moves), "%s moves no tokens" % u.B.ix)

@rule("A01", "amm", "pool", creates)
def reserves_born(u, q, ob):
    p = P(u, q)
    for i in range(p.n):
        v = q.by_key(q.F(p.r1[i], "vault", "Reserve"))
        ok = v is not None and q.trusted(v, "TokenAccount")
        ob("reserve-vault", ok, "a reserve of a new pool is not backed by a checked token account")
        if not ok: continue
        ob("reserve-mint", q.same(q.F(p.r1[i], "mint", "Reserve"), q.tokmint(data0(v))), "a reserve of a new pool records another mint than its vault's")
        ob("reserve-starts-at-vault", q.same(p.t1[i], q.amount(data0(v))), "a reserve of a new pool does not record the balance of its vault")
    ob("no-transfers", not p.moves, "creating a pool moves tokens")

@rule("A01", "amm", "ix", "*")
def reserves_elsewhere(u, q, ob):
    if u.name in POOL_IX: return
    for a in pools(q, True):
        ob("reserve-untouched", q.same(q.F(data0(a), "reserves", "Pool"), q.F(q.final(a), "reserves", "Pool")), "reserves of a pool change in an instruction that moves none of their tokens")
FLOORS["A01"] = 100

# ================================================================= A02 limits of the user
@rule("A02", "amm", "pool", swaps)
def swap_limits(u, q, ob):
    p = P(u, q)
    ins, outs = p.ins(), p.outs()
    paid = [e for e, f, t in p.moves if f is None]
    ob("pays-once", len(paid) == 1 and len(ins) == 1 and ins[0][1] is paid[0], "a swap does not take exactly one payment from the user, into a reserve")
    ob("pays-exactly", len(paid) == 1 and q.same(paid[0][4], ARG0), "a swap takes another amount than the one to sell")
    ob("gets-at-least", len(outs) == 1 and q.yes(le(ARG1, outs[0][1][4])), "a swap pays out less than the requested minimum")
    ob("gets-other-token", len(outs) == 1 and len(ins) == 1 and outs[0][0] != ins[0][0], "a swap pays out of the reserve it was paid into")
    w = u.B.names.get("buy_wallet")
    if w is not None: ob("to-chosen-wallet", len(outs) == 1 and outs[0][1][2] is w, "the bought tokens do not go to the buy wallet")
    w = u.B.names.get("sell_wallet")
    if w is not None: ob("from-chosen-wallet", len(paid) == 1 and paid[0][1] is w, "the sold tokens are not taken from the sell wallet")

def limit(q, B, m):
    """the user's limit for a mint: the last entry naming it"""
    if B.vec is None: return None
    for k in reversed(range(B.n)):
        e = sel(B.vec, I(k), q.f.holds)
        if q.same(q.F(e, "mint", "TokenLimit"), m): return get_field(q.F(e, "tokens", "TokenLimit"), 0)
    return None

@rule("A02", "amm", "pool", lambda tier: deposits(tier) + overlong(tier)[:1])
def deposit_limits(u, q, ob):
    p = P(u, q)
    for i in range(p.n):
        es = [e for t, e in p.ins() if t == i]
        m = limit(q, u.B, p.mint[i])
        ob("limit-given", m is not None, "a deposit goes ahead although the user gave no maximum for a token")
        ob("at-most", m is not None and len(es) == 1 and q.yes(le(es[0][4], m)), "a deposit takes more of a token than the maximum the user gave")
    paid = [e for e, f, t in p.moves if f is None]
    ob("only-into-reserves", len(paid) == p.n == len(p.moves), "a deposit moves tokens other than once into each reserve")
    ob("lp-to-depositor", [e[2] for e, _ in evs(q.st, "mint")] == [u.B.names.get("lp_token_wallet")] if "lp_token_wallet" in u.B.names else None, "LP tokens of a deposit do not go to the depositor's LP wallet")
    for e in paid:
        ob("users-wallet", q.signed(get_field(get_field(data0(e[1]), 0), 1)), "a deposit is taken from a wallet its signer does not own")

@rule("A02", "amm", "pool", lambda tier: redeems(tier) + overlong(tier)[1:])
def redeem_limits(u, q, ob):
    p = P(u, q)
    for i in range(p.n):
        es = [e for t, e in p.outs() if t == i]
        m = limit(q, u.B, p.mint[i])
        ob("limit-given", m is not None, "a redemption goes ahead although the user gave no minimum for a token")
        ob("at-least", m is not None and len(es) == 1 and q.yes(le(m, es[0][4])), "a redemption pays out less of a token than the minimum the user gave")
    ob("only-out-of-reserves", len(p.outs()) == p.n == len(p.moves), "a redemption moves tokens other than once out of each reserve")
    for t, e in p.outs():
        ob("users-wallet", q.signed(get_field(get_field(data0(e[2]), 0), 1)), "redeemed tokens go to a wallet the redeeming user does not own")
    bs = [e for e, _ in evs(q.st, "burn")]
    ob("burns-exactly", len(bs) == 1 and q.same(bs[0][4], ARG0), "a redemption burns another amount of LP tokens than requested")
FLOORS["A02"] = 100

# ================================================================= A03 swap fee
@rule("A03", "amm", "ix", "*")
def fee_set(u, q, ob):
    n = 0
    for a in pools(q, True):
        old, new = data0(a), q.final(a)
        if q.fresh(a, "Pool"):
            ob("starts-without-fee", is_zero(q, q.F(new, "swap_fee", "Pool")), "a new pool starts with a swap fee")
            continue
        if q.same(q.F(old, "swap_fee", "Pool"), q.F(new, "swap_fee", "Pool")): continue
        n += 1
        ob("pool-owned-by-program", q.trusted(a, "Pool"), "the fee of an unchecked account is set")
        ob("admin-signs", q.signed(q.F(old, "admin", "Pool")), "the swap fee changes without the signature of the pool's admin")
        f = get_field(q.F(new, "swap_fee", "Pool"), 0)
        ob("fee-capped", q.yes(le(f, I(MAX_FEE))), "a swap fee above 1 % is accepted")
        ob("only-fee", q.changed_fields("Pool", old, new) == ["swap_fee"], "changing the fee also changes other parts of the pool")

@rule("A03", "amm", "ix", ["set_pool_swap_fee"])
def fee_effect(u, q, ob):
    ps = [a for a in q.accounts() if q.trusted(a, "Pool")]
    ob("takes-effect", len(ps) == 1 and q.same(get_field(q.F(q.final(ps[0]), "swap_fee", "Pool"), 0), ARG0), "set_pool_swap_fee does not store exactly the requested fee")
FLOORS["A03"] = 10

# ================================================================= A04 stable invariant
def invariant_terms(q, v):
    out = [x for x in subterms(v) if x.op == "app" and x.args[0].endswith("stable_curve_invariant::compute")]
    return list(dict.fromkeys(out))

@rule("A04", "amm", "pool", pools_all)
def curve_kept(u, q, ob):
    p = P(u, q)
    new = p.c1
    if u.B.ix == "create_pool":
        amp = ARG0
        k = is_variant(q, new, 1)
        ob("curve-kind", k is not None and q.yes(eq0(amp)) is (not k) and (not k or q.yes(lt(ZERO, amp))), "the amplifier does not decide the curve of a new pool (zero: constant product, otherwise stable)")
        if k: ob("amplifier", q.same(get_vfield(new, 1, 0), amp), "a stable pool does not record the requested amplifier")
    else:
        k = is_variant(q, p.c0, 1)
        if k is None and is_variant(q, p.c0, 0): k = False
        if k is None:
            # the code never looks at the kind of curve: it must then leave it alone
            ob("invariant-current", u.B.ix == "redeem_liquidity" and all(q.same(a, b) for a, b in zip(p.t0, p.t1)), "the stable invariant is not recomputed although reserves change")
            return
        if not k:
            ob("curve-kept", q.same(p.c0, new) or is_variant(q, new, 0) is True, "a constant product pool changes its curve")
            return
        amp = get_vfield(p.c0, 1, 0)
        ob("curve-kept", is_variant(q, new, 1) is True, "a stable pool changes its curve")
    if not k: return
    ok = q.same(get_vfield(new, 1, 0), amp)
    ob("amplifier-kept", ok, "the amplifier of a stable pool changes")
    inv = get_vfield(new, 1, 1)
    ts = invariant_terms(q, inv)
    zero = [i for i in range(p.n) if q.yes(eq0(p.t1[i]))]
    if not ts:
        # an empty reserve: no invariant
        z = zero_num(q, inv)
        ob("invariant-current", z and bool(zero), "the stable invariant is not recomputed from the final reserves")
        return
    ob("invariant-zero-when-empty", not zero, "the invariant of a pool with an empty reserve is not zero")
    t = ts[0]
    args = [unat(x) for x in t.args[1]]
    arrs = [x for x in args if q.isarr(x)]
    ams = [x for x in args if isint(x) or q.same(x, amp)]
    if len(ts) != 1 or len(arrs) != 1:
        ob("invariant-current", None, "the invariant is computed in an unexpected way"); return
    v = arrs[0]
    okn = cval(arrlen(v)) == p.n
    ob("invariant-current", okn and all(q.same(get_field(sel(v, I(i)), 0), p.t1[i]) for i in range(p.n)), "the stable invariant is computed from other balances than the final reserves")
    ob("invariant-amplifier", any(q.same(x, amp) for x in ams), "the stable invariant is computed with another amplifier than the pool's")
    ob("invariant-stored", direct(inv, t), "the computed invariant is not stored as it is")

def zero_num(q, v):
    while v.op == "agg" and len(v.args[1]) == 1: v = v.args[1][0]
    if v.op == "agg": return all(zero_num(q, x) for x in v.args[1])
    while v.op == "fld" and v is not ZERO: v = v.args[0]
    return v is ZERO or is_zero(q, v)

def unat(x): return x.args[0] if x.op == "at" else x

def direct(v, t):
    """v holds the payload of the successful call t and nothing else"""
    while v.op == "agg" and len(v.args[1]) == 1: v = v.args[1][0]
    if v.op == "agg":
        # the words of the number, in order
        return all(direct(x, t) for x in v.args[1])
    n = 0
    while v is not t:
        if v.op not in ("fld", "vf", "sel"): return False
        v = v.args[0]; n += 1
        if n > 8: return False
    return True
FLOORS["A04"] = 100

# ================================================================= A05 LP supply
@rule("A05", "amm", "pool", pools_all)
def lp_supply(u, q, ob):
    p = P(u, q)
    ms, bs = [e for e, _ in evs(q.st, "mint")], [e for e, _ in evs(q.st, "burn")]
    ix = u.B.ix
    ob("minted-where-due", len(ms) == 1 if ix == "deposit_liquidity" else len(ms) <= 1 if ix == "swap" else not ms, "%s mints LP tokens a wrong number of times" % ix)
    ob("burnt-where-due", len(bs) == 1 if ix == "redeem_liquidity" else not bs, "%s burns LP tokens a wrong number of times" % ix)
    for e in ms:
        ob("mint-is-pools", q.same(keyof(e[1]), p.lpkey), "tokens of another mint than the pool's LP mint are minted")
        ob("minted-by-pool", q.same(keyof(e[3]), p.signer) and len(e[5]) == 1 and q.same(e[5][0], p.signer), "LP tokens are minted by another authority than the pool's signer")
        ob("token-program", q.same(keyof(e[6]), TOKEN_ID), "LP tokens are minted through an unchecked program")
        if ix == "swap": ob("toll-to-toll-wallet", q.same(keyof(e[2]), p.toll), "LP tokens minted by a swap do not go to the pool's toll wallet")
        ob("mint-positive", q.yes(lt(ZERO, e[4])) or tokens_positive(q, e[4]), "LP tokens can be minted in an amount of zero")
    for e in bs:
        ob("mint-is-pools", q.same(keyof(e[1]), p.lpkey), "tokens of another mint than the pool's LP mint are burnt")
        ob("burnt-by-owner", q.signed(keyof(e[3])) and not e[5], "LP tokens are burnt without the signature of their owner")
        ob("token-program", q.same(keyof(e[6]), TOKEN_ID), "LP tokens are burnt through an unchecked program")

def tokens_positive(q, x):
    """amount of an Option<TokenAmount> of get_eligible_lp_tokens, which is None rather than zero (rule eligible-positive)"""
    while x.op in ("fld", "vf"): x = x.args[0]
    return x.op == "app" and x.args[0].endswith("::get_eligible_lp_tokens")

@rule("A05", "amm", "ix", "*")
def lp_elsewhere(u, q, ob):
    if u.name in POOL_IX: return
    ob("no-lp-elsewhere", not list(evs(q.st, "mint", "burn")), "%s mints or burns tokens" % u.name)
FLOORS["A05"] = 100

# ================================================================= A06 custody
@rule("A06", "amm", "pool", lambda tier: pools_all(tier) + overlong(tier))
def custody(u, q, ob):
    p = P(u, q)
    ix = u.B.ix
    for e, f, t in p.moves:
        ob("token-program", q.same(keyof(e[6]), TOKEN_ID), "tokens are moved through an unchecked program")
        if e[5]:
            ob("pool-pays-from-vault", ix in ("swap", "redeem_liquidity") and f is not None, "the pool's signer moves tokens out of an account that is no vault of the pool, or where no payment is due")
            ob("pool-signer", len(e[5]) == 1 and q.same(e[5][0], p.signer) and q.same(keyof(e[3]), p.signer), "tokens of a pool are moved by another signer than the pool's")
        else:
            ob("owner-signs", q.signed(keyof(e[3])), "tokens are moved without the signature of their owner")
            ob("user-pays-into-vault", t is not None, "a user's tokens go to an account that is no vault of the pool")
    paid = [f for e, f, _ in p.moves if e[5]]
    ob("paid-once", len(paid) <= 1 if ix == "swap" else len(set(paid)) == len(paid), "a vault of the pool pays more than once in one %s" % ix)
    known_calls(u, q, ob)

def known_calls(u, q, ob):
    made = [e[1] for e, _ in evs(q.st, "create", "alloc")]
    stored = [e[1] for e, _ in evs(q.st, "store")]
    for e, _ in evs(q.st, "cpi", "closetok", "inittok", "rawwrite", "lamports", "close"):
        if e[0] == "lamports" and e[2] in made and q.signed(keyof(e[1])): continue    # rent of an account created here
        if e[0] == "rawwrite" and e[1] in stored: continue                            # judged by rule A13
        ob("no-other-effects", False, "%s has an effect on accounts beyond its purpose: %s" % (u.B.ix if u.kind == "pool" else u.name, e[0]))
    ob("no-other-effects", True, "%s has an effect on accounts beyond its purpose" % (u.B.ix if u.kind == "pool" else u.name))

@rule("A06", "amm", "ix", "*")
def custody_elsewhere(u, q, ob):
    if u.name in POOL_IX: return
    ob("no-transfers", not list(evs(q.st, "xfer")), "%s moves tokens" % u.name)
    known_calls(u, q, ob)
FLOORS["A06"] = 100

# ================================================================= A07 new pools
@rule("A07", "amm", "pool", creates)
def pool_birth(u, q, ob):
    p = P(u, q)
    ob("uninitialised", q.fresh(p.a, "Pool"), "a pool is initialised over an account that may already hold data")
    F = lambda f: q.F(p.new, f, "Pool")
    ob("admin-is-signer", q.signed(F("admin")), "the admin of a new pool is not a signer")
    ob("signer-derived", q.same(F("signer"), p.signer), "the signer of a new pool is not the address derived from it")
    ob("dimension", q.same(F("dimension"), I(p.n)), "the dimension of a new pool is not the number of vaults given")
    m = q.by_key(F("mint"))
    okm = m is not None and q.trusted(m, "Mint")
    ob("lp-mint", okm, "the LP mint of a new pool is not a checked token mint")
    if okm:
        md = get_field(data0(m), 0)
        ob("lp-mint-authority", has_key(q, get_field(md, 0), p.signer), "LP tokens of a new pool can be minted by someone else than its signer")
        ob("lp-mint-unfreezable", no_option(q, get_field(md, 4)), "the LP mint of a new pool may have a freeze authority")
    t = q.by_key(F("program_toll_wallet"))
    okt = t is not None and q.trusted(t, "TokenAccount")
    ob("toll-wallet", okt and q.same(q.tokmint(data0(t)), F("mint")), "the toll wallet of a new pool does not hold its LP tokens")
    tolls = [x for x in q.accounts() if q.trusted(x, "ProgramToll") and q.same(keyof(x), PDA("toll"))]
    ob("toll-authority", okt and len(tolls) == 1 and q.same(get_field(get_field(data0(t), 0), 1), q.F(data0(tolls[0]), "authority", "ProgramToll")), "the toll wallet of a new pool is not owned by the program toll's authority")
    vs = []
    for i in range(p.n):
        v = q.by_key(q.F(p.r1[i], "vault", "Reserve"))
        if v is None or not q.trusted(v, "TokenAccount"):
            ob("vault-checked", False, "a vault of a new pool is not a checked token account"); continue
        vs.append(v)
        d = get_field(data0(v), 0)
        ob("vault-owner", q.same(get_field(d, 1), p.signer), "a vault of a new pool is not owned by the pool's signer")
        ob("vault-no-delegate", no_option(q, get_field(d, 3)), "a vault of a new pool may have a delegate")
        ob("vault-no-close-authority", no_option(q, get_field(d, 7)), "a vault of a new pool may have a close authority")
        ob("vault-not-frozen", q.yes(neg_c(raw("frozen", d))), "a vault of a new pool may be frozen")
        if okm:
            s = get_field(get_field(data0(m), 0), 1)
            for c, (z,) in q.cases(eq0(s)):
                b = q.amount(data0(v))
                ob("vault-matches-supply", c.yes(eq0(b)) if z else c.yes(lt(ZERO, b)), "a new pool can start with tokens but no LP supply, or with LP supply but an empty vault")
    for i in range(len(vs)):
        for j in range(i):
            ob("vaults-differ", vs[i] is not vs[j], "two reserves of a new pool share a vault")
            ob("mints-differ", q.ne(q.tokmint(data0(vs[i])), q.tokmint(data0(vs[j]))), "two reserves of a new pool may hold the same mint")
    for i in range(p.n, 4):
        ob("rest-empty", is_zero(q, q.get(F("reserves"), i)), "unused reserves of a new pool are not empty")

def has_key(q, o, k):
    for c in q.f.items:
        if c.op == "eq":
            for x, y in (c.args, c.args[::-1]):
                if q.same(y, k) and x.op in ("vf", "fld"):
                    b = x
                    while b.op in ("vf", "fld") and b is not o: b = b.args[0]
                    if b is o: return True
    return False

def no_option(q, o):
    """an SPL option is known to be none"""
    for c in q.f.items:
        if c.op == "eq" and any(x is o for x in c.args):
            y = c.args[1] if c.args[0] is o else c.args[0]
            if y.op == "agg" and not y.args[1] and y.args[0][2] == 0: return True
    return q.f.holds(raw("is", o, 1)) is False or q.f.holds(raw("is", o, 0)) is True

@rule("A07", "amm", "ix", ["create_pool"])
def pool_size(u, q, ob):
    n = q.F(q.final(bounded.Bounded(u.prog, "create_pool:2").pool), "dimension", "Pool")
    ob("two-to-four", q.yes(le(addc(raw("naccs"), -bounded.Bounded(u.prog, "create_pool:2").fixed), I(4))), "a pool with more than four reserves can be created")
    ob("two-to-four", q.yes(le(I(2), n)), "a pool with fewer than two reserves can be created")

@rule("A07", "amm", "pool", lambda tier: ["create_pool:0", "create_pool:1", "create_pool:5"])
@whole
def pool_size_exact(u, ob):
    ob("two-to-four", not u.states, "a pool with %d reserves can be created" % u.B.n)

@rule("A07", "amm", "ix", "*")
def pool_birth_only(u, q, ob):
    for a in q.accounts():
        if "Pool" in q.typeof(a) and q.fresh(a, "Pool"): ob("only-create-pool", u.name == "create_pool", "%s initialises a pool" % u.name)
FLOORS["A07"] = 50

# ================================================================= A08 / A09 price and fee of a swap
def prod(xs):
    r = I(1)
    for x in xs: r = mul(r, x)
    return r

def trunc(a, b): return div(a, b)

def discount_of(q):
    """the discount account of the swapping user"""
    for a in q.accounts():
        for c in q.f.items:
            if c.op == "signer" and q.same(keyof(a), PDA("discount", keyof(c.args[0]))): return a
    return None

def fees(q, p):
    """the two possible fees of a swap: [(discounted?, term)]"""
    up = lambda x: div(addc(x, E18 - 1), I(E18))
    share = mul(I(10 ** 12), p.fee)
    out = [(False, up(mul(ARG0, share)))]
    d = discount_of(q)
    if d is not None:
        amount = get_field(q.F(data0(d), "amount", "Discount"), 0)
        s = sub(share, div(mul(share, mul(I(10 ** 12), amount)), I(E18)))
        out.append((True, up(mul(ARG0, s))))
    return out

def output_terms(p, s, b, net):
    """amount bought under either curve, for the net amount sold"""
    q = p.q
    rest = [add(p.t0[i], net) if i == s else p.t0[i] for i in range(p.n) if i != b]
    others = mul(I(E18), prod(rest))
    k = mul(I(E18), prod(p.t0))
    return rest, div(sub(mul(I(E18), p.t0[b]), div(mul(k, I(E18)), others)), I(E18))

def stable_call(q, p, s, b, net, bought):
    """the bought amount is reserve less new balance, rounded down, the new balance computed for this net amount"""
    apps = [x for x in dict.fromkeys(subterms(bought)) if x.op == "app" and x.args[0].endswith("get_buy_reserve_balance_after_swap")]
    top = [x for x in apps if not any(y is not x and any(z is x for z in subterms(y)) for y in apps)]
    if len(top) != 1: return None
    t = top[0]
    args = [unat(x) for x in t.args[1]]
    res = next((x for x in dict.fromkeys(subterms(bought)) if x.op == "vf" and x.args[0] is t), None)
    if res is None or len(args) != 5: return None
    rest = [add(p.t0[i], net) if i == s else p.t0[i] for i in range(p.n) if i != b]
    amp, inv = get_vfield(p.c0, 1, 0), get_vfield(p.c0, 1, 1)
    total = ZERO
    for x in rest: total = add(total, x)
    want = [I(p.n), mul(I(E18), amp), None, mul(I(E18), total), mul(I(E18), prod(rest))]
    if not all(w is None or q.same(a, w) for a, w in zip(args, want)): return False
    if not direct_arg(args[2], inv): return False
    return q.same(bought, div(sub(mul(I(E18), p.t0[b]), res), I(E18)))

def direct_arg(v, src):
    """v is src, up to the wrapping of the number type"""
    while v.op == "agg" and len(v.args[1]) == 1: v = v.args[1][0]
    n = 0
    while v is not src:
        if v.op != "fld": return False
        v = v.args[0]; n += 1
        if n > 4: return False
    return True

def swap_parts(u, q):
    p = P(u, q)
    ins, outs = p.ins(), p.outs()
    if len(ins) != 1 or len(outs) != 1: return None
    return p, ins[0][0], outs[0][0], outs[0][1][4]

def charged(q, p, s, b, bought):
    """(fee charged, whether discounted, output formula holds)"""
    k = is_variant(q, p.c0, 1)
    if k is None and is_variant(q, p.c0, 0): k = False
    unknown = False
    for disc, fee in fees(q, p):
        net = sub(ARG0, fee)
        if k is False:
            if q.same(bought, output_terms(p, s, b, net)[1]): return disc, fee
        else:
            r = stable_call(q, p, s, b, net, bought)
            if r: return disc, fee
            unknown |= r is None
    return None if not unknown else "unknown"

@rule("A08", "amm", "pool", swaps)
def swap_price(u, q, ob):
    x = swap_parts(u, q)
    ob("one-exchange", x is not None, "a swap is not one payment in and one payment out")
    if x is None: return
    p, s, b, bought = x
    c = charged(q, p, s, b, bought)
    ob("price", None if c == "unknown" else c is not None, "the amount bought is not the one the pool's curve gives for the amount sold less the fee, rounded down")
    if c in (None, "unknown"): return
    net = sub(ARG0, c[1])
    for i in range(p.n): ob("no-empty-reserve", q.yes(lt(ZERO, p.t0[i])), "a swap is accepted while a reserve is empty")
    ob("below-reserve", q.yes(lt(net, p.t0[s])), "a swap of the whole sell reserve or more is accepted")
    ob("sold-positive", q.yes(lt(ZERO, ARG0)), "a swap of nothing is accepted")
FLOORS["A08"] = 100

@rule("A09", "amm", "pool", swaps)
def swap_fee(u, q, ob):
    x = swap_parts(u, q)
    if x is None: return
    p, s, b, bought = x
    c = charged(q, p, s, b, bought)
    ob("fee-charged", None if c == "unknown" else c is not None, "a swap deducts another fee than the pool's share of the amount sold, rounded up, less the user's discount")
    if c in (None, "unknown"): return
    disc, fee = c
    ob("fee-not-above-sold", q.yes(le(fee, ARG0)), "the fee may exceed the amount sold")
    d = discount_of(q)
    if d is None:
        ob("discount-account", False, "the discount account of the signing user is not identified"); return
    amount, until = (get_field(q.F(data0(d), f, "Discount"), 0) for f in ("amount", "valid_until"))
    if disc:
        ob("discount-genuine", q.trusted(d, "Discount"), "a fee is discounted without a discount account of this program for the signing user")
        ob("discount-valid", q.yes(le(q.now(), until)), "an expired discount is applied")
    elif not q.same(fees(q, p)[1][1], fee):
        h = q.also(eq(owner(d), PID))
        if h is not None: h = h.also(lt(ZERO, amount))
        if h is not None: h = h.also(le(q.now(), until))
        ob("discount-honoured", h is None, "a user with a valid discount is charged the full fee")
FLOORS["A09"] = 100

# ================================================================= A10 program toll
def toll_tokens(q, p, fee):
    """tokens of the sold reserve the toll is computed from"""
    dim = q.F(p.old, "dimension", "Pool")
    third = mul(mul(I(E18), fee), mul(I(10 ** 12), I(333333)))
    return div(addc(div(mul(div(third, I(E18)), I(E18)), mul(I(E18), dim)), E18 // 2), I(E18))

def eligible_call(q, x):
    """the call whose payload is x: (pool, deposits map, supply)"""
    y = x
    while y.op in ("fld", "vf"): y = y.args[0]
    if y.op != "app" or not y.args[0].endswith("::get_eligible_lp_tokens"): return None
    pool = m = s = None
    for a in map(unat, y.args[1]):
        if a.op == "bm": m = a
        elif a.op == "agg" and len(a.args[1]) == 1: s = a.args[1][0]
        elif isint(a): s = a
        else: pool = a
    if pool is None or m is None or s is None: return "unknown"
    return pool, m, s

def paid_of(q, m, mint):
    for k, v in m.args[1]:
        if v.op != "absent" and q.same(k, mint): return get_field(v, 0)
    return None

@rule("A10", "amm", "pool", swaps)
def toll(u, q, ob):
    x = swap_parts(u, q)
    if x is None: return
    p, s, b, bought = x
    c = charged(q, p, s, b, bought)
    if c in (None, "unknown"):
        ob("toll-due", None, "the fee of the swap is not identified"); return
    t = toll_tokens(q, p, c[1])
    ms = [e for e, _ in evs(q.st, "mint")]
    if not ms:
        # the toll is too small
        ob("toll-due", q.yes(eq0(t)) or toll_refused(q), "a swap whose toll is worth LP tokens pays none")
        return
    ob("toll-due", len(ms) == 1 and not q.yes(eq0(t)), "a swap pays a toll other than once")
    e = ms[0]
    ob("toll-wallet", q.same(keyof(e[2]), p.toll), "the toll does not go to the pool's toll wallet")
    k = eligible_call(q, e[4])
    if k is None:
        # LP tokens computed in place
        S = p.supply()
        ob("toll-amount", S is not None and lp_at_most(q, e[4], S, t, p.t1[s]), "the toll is worth more than its share of the swap fee")
        return
    if k == "unknown":
        ob("toll-amount", None, "the toll is computed in an unexpected way"); return
    pool, m, S = k
    R = [get_field(q.F(q.get(q.F(pool, "reserves", "Pool"), i), "tokens", "Reserve"), 0) for i in range(p.n)]
    ob("toll-on-final-reserves", all(q.same(R[i], p.t1[i]) for i in range(p.n)), "the toll is computed on other reserves than those after the swap")
    ob("toll-supply", p.supply() is not None and q.same(S, p.supply()), "the toll is computed with another LP supply than the mint's")
    d = paid_of(q, m, p.mint[s])
    ob("toll-amount", d is not None and q.yes(le(d, t)), "the toll is worth more than a third of the swap fee, divided by the number of reserves, in the sold token")

def toll_refused(q):
    """get_eligible_lp_tokens found nothing to mint"""
    for c in q.f.items:
        x = c
        if c.op == "not": x = c.args[0]
        if x.op != "is": continue
        y = x.args[0]
        while y.op in ("fld", "vf"): y = y.args[0]
        if y.op == "app" and y.args[0].endswith("::get_eligible_lp_tokens") and x.args[0].op in ("vf", "fld"):
            if (c.op == "is" and x.args[1] == 0) or (c.op == "not" and x.args[1] == 1): return True
        if y.op == "app" and y.args[0].endswith("::calculate_toll_in_lp_tokens"): return True
    # LP tokens computed in place: some of the candidates is zero
    return any(c.op == "eq0" and c.args[0].op == "div" for c in q.f.items)

def lp_forms(S, d, R):
    """floor of S*d/R in the orders of multiplication and division the helper may choose"""
    s, x, r = (mul(I(E18), y) for y in (S, d, R))
    return [div(div(mul(mul(S, x), I(E18)), r), I(E18)), div(div(mul(mul(s, x), I(1)), r), I(E18)),
            div(div(mul(div(mul(s, I(E18)), r), x), I(E18)), I(E18)), div(div(mul(div(mul(x, I(E18)), r), s), I(E18)), I(E18)), div(mul(S, d), R),
            div(mul(div(mul(s, I(E18)), r), d), I(E18)), div(mul(div(mul(x, I(E18)), r), S), I(E18))]

def lp_at_most(q, x, S, d, R):
    return any(q.yes(le(x, f)) for f in lp_forms(S, d, R))
FLOORS["A10"] = 100

# ================================================================= A11 deposits
@rule("A11", "amm", "pool", lambda tier: deposits(tier) + overlong(tier)[:1])
def deposit(u, q, ob):
    p = P(u, q)
    ms = [e for e, _ in evs(q.st, "mint")]
    paid = [next((e[4] for t, e in p.ins() if t == i), None) for i in range(p.n)]
    if len(ms) != 1 or None in paid or p.supply() is None:
        ob("deposit", False, "a deposit does not pay into each reserve once and mint LP tokens once"); return
    x, S = ms[0][4], p.supply()
    lim = [limit(q, u.B, m) for m in p.mint]
    for i in range(p.n):
        ob("limits-positive", lim[i] is not None and q.yes(lt(ZERO, lim[i])), "a deposit with a maximum of zero is accepted")
    if q.yes(eq0(S)):
        ob("first-deposit-paid", all(l is not None and q.same(d, l) for d, l in zip(paid, lim)), "the first deposit does not take exactly the amounts offered")
        ob("first-deposit-lp", any(q.same(x, d) for d in paid) and all(q.yes(le(x, d)) for d in paid), "the first deposit does not mint the smallest amount paid in")
        return
    ob("not-first", q.yes(lt(ZERO, S)), "a deposit does not tell the first one from later ones")
    k = eligible_call(q, x)
    if k is None:
        for i in range(p.n):
            ok = q.yes(eq0(p.t0[i])) or lp_at_most(q, x, S, paid[i], p.t0[i])
            ob("lp-covered", ok, "LP tokens minted for a deposit exceed the share of a reserve it pays in")
        ob("lp-full-share", any(q.same(x, f) for i in range(p.n) for f in lp_forms(S, paid[i], p.t0[i])), "a deposit mints fewer LP tokens than the share it pays in")
    elif k == "unknown": ob("lp-covered", None, "LP tokens are computed in an unexpected way")
    else:
        pool, m, S1 = k
        ob("lp-supply", q.same(S, S1), "LP tokens for a deposit are computed with another supply than the LP mint's")
        R = [get_field(q.F(q.get(q.F(pool, "reserves", "Pool"), i), "tokens", "Reserve"), 0) for i in range(p.n)]
        ob("lp-reserves", all(q.same(R[i], p.t0[i]) for i in range(p.n)), "LP tokens for a deposit are computed on other reserves than those before it")
        ob("lp-paid", all((d := paid_of(q, m, p.mint[i])) is not None and q.same(d, paid[i]) for i in range(p.n)), "LP tokens for a deposit are computed from other amounts than those paid")
    # proportional: each payment is the reserve times one common ratio, rounded up, capped by the limit
    rs = ratio_candidates(q, p, lim)
    ok, und = False, False
    for r in rs:
        if r == "unknown": und = True; continue
        if all(share_ok(q, paid[i], lim[i], amounts) for i, amounts in enumerate(r)): ok = True; break
    ob("proportional", True if ok else None if und else False, "a deposit does not take one common share of every reserve, rounded up, within the limits")

def share_ok(q, d, l, want):
    if any(q.same(d, w) for w in want): return True
    return l is not None and q.same(d, l) and any(q.yes(le(l, w)) for w in want)

def ratio_candidates(q, p, lim):
    """for each way to pick the common ratio: per reserve the amounts it asks for"""
    up = lambda x: div(addc(x, E18 - 1), I(E18))
    calls = []
    for c in q.f.items:
        for y in subterms(c):
            if y.op == "app" and y.args[0].endswith("::get_deposit_ratio"): calls.append(y)
    calls = list(dict.fromkeys(calls))
    out = []
    for y in calls:
        ms = [a for a in map(unat, y.args[1]) if a.op == "bm"]
        def same_map(m, vals): return all((v := paid_of(q, m, p.mint[i])) is not None and vals[i] is not None and q.same(v, vals[i]) for i in range(p.n))
        if len(ms) != 2: out.append("unknown"); continue
        if not (same_map(ms[0], p.t0) and same_map(ms[1], lim)): continue
        r = get_field(get_vfield(y, 0, 0), 0)
        out.append([[up(mul(p.t0[i], r)), up(div(mul(mul(I(E18), p.t0[i]), I(E18)), r))] for i in range(p.n)])
    if calls: return out
    for k in range(p.n):
        if lim[k] is None: continue
        r = div(mul(I(E18), lim[k]), p.t0[k])
        if all(q.same(lim[j], lim[k]) and j == k or q.yes(le(r, div(mul(I(E18), lim[j]), p.t0[j]))) for j in range(p.n)):
            out.append([[up(mul(p.t0[i], r))] for i in range(p.n)])
        v = div(mul(I(E18), p.t0[k]), lim[k])
        if all(j == k or q.yes(le(div(mul(I(E18), p.t0[j]), lim[j]), v)) for j in range(p.n)):
            out.append([[up(div(mul(mul(I(E18), p.t0[i]), I(E18)), v))] for i in range(p.n)])
    return out
def wrap_amount(prog, v):
    path = next((k for k in prog.adts if k.split("::")[-1] == "TokenAmount"), None)
    if path is None: raise Missing("type TokenAmount not found")
    return agg(("adt", path, 0), (v,))

def pool_fn(u, n, order, setup):
    """outcomes of a function over a pool of n reserves and ordered maps keyed by its mints"""
    prog = u.prog
    b = prog.body(u.id)
    what = []
    for i in range(1, b.args + 1):
        l = b.locals[i]
        T = prog.ty(l[0] if isinstance(l, (list, tuple)) else l)
        while T["k"] == "ref": T = prog.ty(T["of"])
        what.append(T["path"].split("::")[-1] if T["k"] == "adt" else T["k"])
    box = {}
    def pre(E, st, args):
        q = Q(prog, E, st)
        box["q"] = q
        if "Pool" in what:
            a = acct(what.index("Pool"))
            d = data0(a)
            rs = [sel(q.F(d, "reserves", "Pool"), I(i)) for i in range(n)]
            ms = [q.F(r, "mint", "Reserve") for r in rs]
            ts = [get_field(q.F(r, "tokens", "Reserve"), 0) for r in rs]
            fs = [eq0(addc(q.F(d, "dimension", "Pool"), -n))]
        else:
            ms = [raw("arg", "mint%d" % i) for i in range(n)]
            ts = [raw("arg", "reserve%d" % i) for i in range(n)]
            fs = []
        xs = [raw("arg", "paid%d" % i) for i in range(n)]
        for v in ts + xs: fs += [le(ZERO, v), le(v, I(U64))]
        fs += [ne(ms[i], ms[j]) for i in range(n) for j in range(i)]
        E.key_order = [ms[i] for i in order]
        maps = [acct(i) for i, w in enumerate(what) if w == "BTreeMap"]
        mk = lambda vals: raw("bm", raw("bempty"), tuple((ms[i], wrap_amount(prog, vals[i])) for i in order))
        given = [mk(ts), mk(xs)] if len(maps) == 2 else [mk(xs)]
        for m, v in zip(maps, given): st.mem[droot(m)] = v
        E.kept = bounded.KEEP
        E.budget = 2000000
        sup = None
        for i, w in enumerate(what):
            if w in ("TokenAmount", "u64"): sup = get_field(args[i], 0) if w == "TokenAmount" else args[i]
        if sup is not None: fs += [le(ZERO, sup), le(sup, I(U64))]
        box.update(ms=ms, ts=ts, xs=xs, sup=sup)
        for c in fs + setup(box): st.facts = st.facts.add(c)
    r = fns.run_fn(prog, u.id, pre, eager=16, max_states=8000)
    u.E, u.states = r.E, list(getattr(u, "states", None) or []) + r.outs
    return r, box

def results(u, r, ob):
    for s, v in r.outs:
        q = Q(u.prog, r.E, s).normed()
        q = q.settled() if q is not None else None
        if q is None: continue
        ob.q = q
        k, x = fn_result(r.E.deep(s, v))
        yield q, k, x
    ob.q = None

@rule("A11", "amm", "fn", ["models::pool::Pool::get_eligible_lp_tokens"])
@rule("A10", "amm", "fn", ["models::pool::Pool::get_eligible_lp_tokens"])
@rule("A05", "amm", "fn", ["models::pool::Pool::get_eligible_lp_tokens"])
def eligible(u, ob):
    u.states = []
    for n in (2, 3, 4) if check.TIER == "thorough" else (2, 3):
        for order in (list(range(n)), list(range(n))[::-1]):
            r, b = pool_fn(u, n, order, lambda b: [lt(ZERO, b["sup"])])
            some = False
            for q, k, x in results(u, r, ob):
                if k != "ok": continue
                o, v = fn_result(x)
                if o is None:
                    ob("eligible-known", None, "the LP tokens of a deposit are not computed in a recognised way"); continue
                forms = [lp_forms(b["sup"], d, t) for d, t in zip(b["xs"], b["ts"])]
                empty = [q.yes(eq0(t)) for t in b["ts"]]
                if o == "none":
                    ob("eligible-none", any(q.yes(eq0(f)) for e, fs in zip(empty, forms) if not e for f in fs), "a deposit with a share of every reserve is refused LP tokens")
                    continue
                some = True
                v = get_field(v, 0)
                ob("eligible-positive", q.yes(lt(ZERO, v)), "LP tokens can be granted in an amount of zero")
                for e, fs in zip(empty, forms):
                    ob("eligible-covered", e or any(q.yes(le(v, f)) for f in fs), "LP tokens exceed the share a deposit has of some reserve")
                ob("eligible-exact", any(q.same(v, f) for fs in forms for f in fs), "LP tokens are fewer than the smallest share a deposit has of the reserves")
            ob("eligible-granted", some, "no deposit is ever granted LP tokens")

def inverted_positive(q, b, v):
    """at least E18 * t / d for some reserve t above d / E18"""
    for t, d in zip(b["ts"], b["xs"]):
        if q.yes(le(div(mul(I(E18), t), d), v)) and q.yes(le(I(U64 // E18 + 1), t)): return True
    return False

def failures(u, r, ob):
    for q, k, x in results(u, r, ob):
        if k == "err": yield q, [c for c in q.f.items if c.op in ("overflow", "fails") or c.op == "le0" and lin(c.args[0])[0] == U64 + 1]

@rule("A15", "amm", "fn", ["models::pool::Pool::get_deposit_ratio", "models::pool::Pool::get_eligible_lp_tokens"])
def helper_succeeds(u, ob):
    u.states = []
    lp = u.name.endswith("get_eligible_lp_tokens")
    for n in (2, 3, 4) if check.TIER == "thorough" else (2, 3):
        for order in (list(range(n)), list(range(n))[::-1]):
            r, b = pool_fn(u, n, order, lambda b: [lt(ZERO, x) for x in b["xs"]] + ([lt(ZERO, b["sup"])] if lp else []))
            for q, cause in failures(u, r, ob):
                empty = [q.yes(eq0(t)) for t in b["ts"]]
                ob("helper-succeeds", bool(cause) or (all(empty) if lp else any(empty)), "the share of a deposit in a pool is not computed although nothing overflows")

@rule("A11", "amm", "fn", ["models::pool::Pool::get_deposit_ratio"])
def ratio(u, ob):
    u.states = []
    for n in (2, 3, 4) if check.TIER == "thorough" else (2, 3):
        for order in (list(range(n)), list(range(n))[::-1]):
            r, b = pool_fn(u, n, order, lambda b: [lt(ZERO, x) for x in b["xs"]])
            for q, k, x in results(u, r, ob):
                if k != "ok": continue
                v, inv = get_field(x, 0), get_field(x, 1)
                h = q.f.holds(inv)
                if h not in (True, False):
                    ob("ratio-known", None, "the ratio of a deposit is not computed in a recognised way"); continue
                if not h:
                    cs = [div(mul(I(E18), d), t) for d, t in zip(b["xs"], b["ts"])]
                    ob("ratio-smallest", all(q.yes(le(v, c)) for c in cs), "the ratio of a deposit exceeds what the limits allow of some reserve")
                else:
                    cs = [div(mul(I(E18), t), d) for d, t in zip(b["xs"], b["ts"])]
                    ob("ratio-smallest", all(q.yes(le(c, v)) for c in cs), "the inverted ratio of a deposit is below what the limits require of some reserve")
                    ob("ratio-inverted-positive", q.yes(lt(ZERO, v)) or inverted_positive(q, b, v), "the inverted ratio of a deposit can be zero, which nothing can be divided by")
                ob("ratio-exact", any(q.same(v, c) for c in cs), "the ratio of a deposit is smaller than the limits allow")
FLOORS["A11"] = 100

# ================================================================= A12 redemption
@rule("A12", "amm", "pool", lambda tier: redeems(tier) + overlong(tier)[1:])
def redeem(u, q, ob):
    p = P(u, q)
    S = p.supply()
    bs = [e for e, _ in evs(q.st, "burn")]
    if S is None or len(bs) != 1:
        ob("redemption", False, "a redemption does not burn tokens of the pool's LP mint once"); return
    x = bs[0][4]
    ob("supply-positive", q.yes(lt(ZERO, S)), "a redemption is accepted although no LP tokens exist")
    ob("within-supply", q.yes(le(x, S)), "more LP tokens than exist are redeemed")
    w = div(mul(mul(I(E18), x), I(E18)), mul(I(E18), S))
    for i in range(p.n):
        es = [e for t, e in p.outs() if t == i]
        want = div(div(mul(mul(I(E18), p.t0[i]), w), I(E18)), I(E18))
        ok = len(es) == 1 and (q.same(es[0][4], want) or q.same(es[0][4], div(mul(p.t0[i], w), I(E18))))
        ob("share-paid", ok, "a redemption does not pay out the burnt share of each reserve, rounded down")
FLOORS["A12"] = 50

# ================================================================= A13 discounts and toll settings
@rule("A13", "amm", "ix", "*")
def settings(u, q, ob):
    for T, seed in (("DiscountSettings", "discount_settings"), ("ProgramToll", "toll")):
        for a in q.accounts():
            if T not in q.typeof(a): continue
            made = q.fresh(a, T)
            touched = not q.same(data0(a), q.final(a))
            if not made:
                ob("settings-fixed", not touched, "%s changes after its creation" % T)
                continue
            ob("settings-singleton", q.same(keyof(a), PDA(seed)), "%s can be created at another address than the program's one" % T)
            ob("settings-by-upgrade-authority", owner_of_program(q, u), "%s can be created by someone else than the program's upgrade authority" % T)
    for a in q.accounts():
        touched = [e for e, _ in evs(q.st, "store", "rawwrite", "persist") if e[1] is a]
        if "Discount" in q.typeof(a) or any(e[0] == "store" and e[2] == "Discount" for e in touched):
            if not touched: continue
            ob("discount-only-by-put", u.name == "put_discount", "a discount is written by %s" % u.name)
    for e, _ in evs(q.st, "close"):
        ob("never-closed", not ({"Discount", "DiscountSettings", "ProgramToll", "Pool"} & q.typeof(e[1])), "an account of the program is closed")

def owner_of_program(q, u):
    """this program's metadata names one of the signers as upgrade authority"""
    for d in q.accounts():
        if "ProgramData" not in q.isa(d): continue
        genuine = any(c.op == "eq" and any(x.op == "progdata" and q.same(keyof(x.args[0]), PID) and q.same(y, keyof(d)) for x, y in (c.args, c.args[::-1])) for c in q.f.items)
        k = [c.args[0] for c in q.f.items if c.op == "signer"]
        names = any(c.op == "eq" and any(any(z is data0(d) for z in subterms(x)) and any(q.same(y, keyof(s)) for s in k) for x, y in (c.args, c.args[::-1])) for c in q.f.items)
        if genuine and names and not q.same(owner(d), PID): return True
    return False

@rule("A13", "amm", "ix", ["create_discount_settings", "create_program_toll"])
def settings_effect(u, q, ob):
    T = "DiscountSettings" if u.name == "create_discount_settings" else "ProgramToll"
    ms = [a for a in q.accounts() if T in q.typeof(a) and q.fresh(a, T)]
    ob("settings-created", len(ms) == 1, "%s does not create one %s" % (u.name, T))
    for a in ms:
        k = q.F(q.final(a), "authority", T)
        given = [b for b, nm in u.E.acct_names.items() if nm.endswith("_authority") and nm != "program_authority" and q.same(keyof(b), k)]
        ob("authority-given", len(given) == 1, "%s records another authority than the one given" % u.name)

@rule("A13", "amm", "ix", ["put_discount"])
def put_discount(u, q, ob):
    user = raw("ixarg", raw("ixdata"), "anchor_lang::prelude::Pubkey")
    args = ixargs_of(q)
    st = [e for e, _ in evs(q.st, "store")]
    ob("stores-once", len(st) == 1 and st[0][2] == "Discount", "put_discount does not write one discount")
    if len(st) != 1: return
    d = st[0][1]
    v = q.final(d)
    sets = [a for a in q.accounts() if q.trusted(a, "DiscountSettings") and q.same(keyof(a), PDA("discount_settings"))]
    ob("by-settings-authority", len(sets) == 1 and q.signed(q.F(data0(sets[0]), "authority", "DiscountSettings")), "a discount is set without the signature of the discount settings' authority")
    if args is None:
        ob("discount-address", None, "arguments of put_discount not identified"); return
    usr, amount, until = args
    ob("discount-address", q.same(keyof(d), PDA("discount", usr)), "a discount is not stored at the address derived from the user")
    ob("discount-stored", q.same(get_field(q.F(v, "amount", "Discount"), 0), amount) and q.same(get_field(q.F(v, "valid_until", "Discount"), 0), until), "put_discount does not store exactly the given discount")
    ob("discount-capped", q.yes(le(amount, I(10 ** 6))), "a discount above 100 % is accepted")
    ob("discount-in-future", q.yes(lt(q.now(), until)), "a discount that has already expired is accepted")
    new = any(e[1] is d for e, _ in evs(q.st, "create"))
    ob("discount-account", new or q.same(owner(d), PID) or not q.same(owner(d), SYSTEM_ID), "a discount is written to an account that is not the program's")

def ixargs_of(q):
    """user, amount, valid_until"""
    K = "anchor_lang::prelude::Pubkey"
    rest = raw("ixrest", raw("ixdata"), K)
    return raw("ixarg", raw("ixdata"), K), raw("ixarg", rest, "u64"), raw("ixarg", raw("ixrest", rest, "u64"), "u64")
FLOORS["A13"] = 10

# ================================================================= A14 constants of a pool
CONSTANT = ("admin", "signer", "mint", "program_toll_wallet", "dimension")

@rule("A14", "amm", "ix", "*")
def constants(u, q, ob):
    for a in pools(q):
        old, new = data0(a), q.final(a)
        ob("pool-owned-by-program", q.trusted(a, "Pool"), "an account that was not checked to be a pool is modified as one")
        for f in CONSTANT:
            ob("constant-" + f, q.same(q.F(old, f, "Pool"), q.F(new, f, "Pool")), "%s of a pool changes after its creation" % f)
    for e, _ in evs(q.st, "close"):
        ob("never-closed", "Pool" not in q.typeof(e[1]), "a pool is closed")

@rule("A14", "amm", "pool", exchanges)
def constants_exact(u, q, ob):
    p = P(u, q)
    for f in CONSTANT + ("swap_fee",):
        ob("constant-" + f, q.same(q.F(p.old, f, "Pool"), q.F(p.new, f, "Pool")), "%s of a pool changes after its creation" % f)
    for i in range(4):
        r0, r1 = q.get(q.F(p.old, "reserves", "Pool"), i), q.get(q.F(p.new, "reserves", "Pool"), i)
        ob("constant-mints", q.same(q.F(r0, "mint", "Reserve"), q.F(r1, "mint", "Reserve")), "the mint of a reserve changes")
        ob("constant-vaults", q.same(q.F(r0, "vault", "Reserve"), q.F(r1, "vault", "Reserve")), "the vault of a reserve changes")
        if i >= p.n: ob("unused-reserves", q.same(r0, r1), "an unused reserve of a pool changes")
FLOORS["A14"] = 100

# ================================================================= A15 valid requests go through
def refused_states(u):
    """refusals other than for numbers that do not fit the arithmetic and malformed accounts"""
    if getattr(u, "_refused", None) is None:
        u._refused = []
        for s in u.refused + u.panics:
            its = s.facts.items
            if any(c.op in ("overflow", "fails") or c.op == "le0" and lin(c.args[0])[0] == U64 + 1 for c in its): continue
            if any(failed_call(c) for c in its): continue     # judged on its own (rule helper-succeeds)
            q = Q(u.prog, u.E, s).normed()
            q = q.settled() if q is not None else None
            if q is not None: u._refused.append(q)
    return u._refused

def served_states(u):
    if getattr(u, "_served", None) is None:
        qs = [Q(u.prog, u.E, s).normed() for s in u.states]
        u._served = [z for z in (q.settled() for q in qs if q is not None) if z is not None]
    return u._served

def live(f):
    """the rule, unless no request gets past the constraints on the accounts"""
    def g(u, ob):
        if not u.states and not u.refused: ob("can-succeed", False, "no request of this shape satisfies the constraints on the accounts")
        else: f(u, ob)
    return whole(g)

class Req:
    """a request to a pool unit, as the client states it: what must hold for it to be served"""
    def __init__(self, u):
        B = self.B = u.B
        q = Q(u.prog, u.E, (u.states or u.refused)[0])
        self.q, self.n = q, B.n
        d = self.d = data0(B.pool)
        self.curve = q.F(d, "curve", "Pool")
        if B.ix != "create_pool":
            self.t = [get_field(q.F(r, "tokens", "Reserve"), 0) for r in B.reserves]
            self.lpkey = q.F(d, "mint", "Pool")
            self.fee = get_field(q.F(d, "swap_fee", "Pool"), 0)
    def bal(self, a): return get_field(get_field(data0(a), 0), 2)
    def mint_of(self, a): return get_field(get_field(data0(a), 0), 0)
    def owner_of(self, a): return get_field(get_field(data0(a), 0), 1)
    def supply(self, a): return get_field(get_field(data0(a), 0), 1)
    def pairs(self):
        B = self.B
        return [(acct(B.fixed + 2 * k), acct(B.fixed + 2 * k + 1)) for k in range(self.n)]
    def sane(self, most):
        """a pool with reserves in each vault, of sizes the arithmetic covers"""
        return [raw("is", self.curve, 0), le(self.fee, I(MAX_FEE))] + [c for x in self.t for c in (le(ONE, x), le(x, I(most)))]
    def served(self, u, ob, hyp, msg, other=lambda q: False):
        """no refusal while the hypotheses hold, and some success"""
        for q in refused_states(u):
            ob.q = q
            if other(q): continue
            h = q.also(*hyp)
            h = h.normed() if h is not None else None
            h = h.settled() if h is not None else None
            ob("refused-only-for-cause", h is None or h.f.lin_unsat(), msg)
        ob.q = None
        good, why = False, None
        for q in served_states(u):
            ob.q = q
            for a in written(q):
                if a not in u.E.acct_names: continue     # passed by the client
                ob("writable", writable(q, a), "account %s is changed but not required to be writable, so generated clients pass it read-only" % u.E.acct_names.get(a, show(a)))
            r = runtime_ok(q)
            if r is not None:
                why = r; continue
            h = q.also(*hyp)
            if h is not None and h.settled() is not None: good = True
        ob.q = None
        ob("can-succeed", good, "the instruction never succeeds for an ordinary request" + (": " + why if why else ""))

def failed_call(c):
    neg = c.op == "not"
    c = c.args[0] if neg else c
    if c.op in ("eq0", "le0") and not neg:
        # an inverted ratio is not zero (rule ratio-inverted-positive)
        y = c.args[0]
        while y.op in ("fld", "vf"): y = y.args[0]
        return y is not c.args[0] and y.op == "app" and y.args[0].endswith("::get_deposit_ratio")
    return c.op == "is" and c.args[0].op == "app" and c.args[0].args[0].endswith(bounded.LESS) and c.args[1] == (0 if neg else 1)

def plain(tier): return [x for x in redeems(tier) if x.count(":") == 4]
@rule("A15", "amm", "pool", plain)
@live
def redeem_served(u, ob):
    r = Req(u)
    x = ARG0
    lp, lpw = acct(3), acct(4)
    S = r.supply(lp)
    hyp = r.sane(U64) + [le(ONE, x), le(x, S), le(x, r.bal(lpw)), le(S, I(U64))]
    ps = r.pairs()
    hyp += [ne(keyof(a), keyof(b)) for i, (a, _) in enumerate(ps) for b, _ in ps[:i]]
    user = acct(0)
    w = div(mul(mul(I(E18), x), I(E18)), mul(I(E18), S))
    share = lambda i: div(div(mul(mul(I(E18), r.t[i]), w), I(E18)), I(E18))
    for i in range(r.n):
        # follows from x <= S: a share of at most all of the reserve
        for f in (share(i), div(mul(r.t[i], w), I(E18))): hyp += [le(f, r.t[i]), le(f, I(U64))]
    lim = u.B.vec
    for k in range(r.n): hyp += [le(get_field(get_field(sel(lim, I(k)), 1), 0), share(u.B.limits[k]))]
    for k, (v, wl) in enumerate(ps): hyp += [eq(r.owner_of(wl), keyof(user)), le(r.t[u.B.pairs[k]], r.bal(v))]
    r.served(u, ob, hyp, "the owner of LP tokens is refused their redemption from a pool that covers it")

@rule("A15", "amm", "pool", lambda tier: [x for x in swaps(tier) if tier == "thorough" or x[5] != "4"])
@live
def swap_served(u, ob):
    r = Req(u)
    B = u.B
    vs = [None, None]
    for s in u.states:
        q = Q(u.prog, u.E, s)
        p = P(u, q)
        i, o = p.ins(), p.outs()
        if len(i) == 1 and len(o) == 1: vs = [i[0][1], o[0][1]]; break
    if None in vs:
        ob("can-succeed", False, "a swap never succeeds"); return
    sw, bw = vs[0][1], vs[1][2]
    sv, bv = vs[0][2], vs[1][1]
    if not all(a.op == "acct" for a in (sw, bw, sv, bv)):
        ob("accounts", None, "the accounts of a swap are not recognised"); return
    sell, least = ARG0, ARG1
    for si in range(r.n):
        for bi in range(r.n):
            if si == bi or (check.TIER != "thorough" and r.n > 2 and (si, bi) not in ((0, 1), (2, 0))): continue
            hyp = r.sane(2 ** 62) + [le(ONE, sell), le(sell, I(2 ** 62)), le(sell, r.bal(sw)), le(r.bal(sw), I(U64)), eq(keyof(sv), q.F(B.reserves[si], "vault", "Reserve")), eq(keyof(bv), q.F(B.reserves[bi], "vault", "Reserve")),
                eq(r.mint_of(sv), B.mints[si]), eq(r.mint_of(bv), B.mints[bi]), eq(r.mint_of(sw), B.mints[si]), eq(r.mint_of(bw), B.mints[bi]),
                le(r.t[bi], r.bal(bv)), le(add(r.t[si], sell), I(U64)), le(add(r.t[si], sell), I(U64))]
            p = P(u, q)
            fs = [f for _, f in fees(q, p)]
            d = discount_of(q)
            if d is not None:
                share, amount = mul(I(10 ** 12), p.fee), get_field(q.F(data0(d), "amount", "Discount"), 0)
                off = div(mul(share, mul(I(10 ** 12), amount)), I(E18))
                # discounts are at most 100 % (rule discount-capped)
                hyp += [le(amount, I(10 ** 6)), le(off, share)]
            for f in fs:
                net = sub(sell, f)
                out = output_terms(p, si, bi, net)[1]
                rest = [add(p.t0[i], net) if i == si else p.t0[i] for i in range(p.n) if i != bi]
                k = div(mul(mul(I(E18), prod(p.t0)), I(E18)), mul(I(E18), prod(rest)))
                # the pool's product over the other reserves is at most the reserve bought from
                hyp += [le(ONE, prod(rest)), le(f, sell), le(ONE, net), lt(net, r.t[si]), le(k, mul(I(E18), r.t[bi])), le(least, out), le(ONE, out), le(out, r.t[bi]), le(out, I(U64))]
            r.served(u, ob, hyp, "a swap that the pool's curve and the seller's balance cover is refused")

def plain_deposits(tier): return [x for x in deposits(tier) if x.count(":") == 4 and "b" in x.split(":")[1]]
@rule("A15", "amm", "pool", plain_deposits)
@live
def deposit_served(u, ob):
    r = Req(u)
    lim = u.B.vec
    amount = {u.B.limits[k]: get_field(get_field(sel(lim, I(k)), 1), 0) for k in range(r.n)}
    S = r.supply(acct(3))
    wallets = {u.B.pairs[k]: w for k, (v, w) in enumerate(r.pairs())}
    own = [c for i in range(r.n) for c in (le(ONE, amount[i]), le(amount[i], I(2 ** 62)), eq(r.owner_of(wallets[i]), keyof(acct(0))), le(amount[i], r.bal(wallets[i])))]
    own += [raw("is", r.curve, 0), le(r.fee, I(MAX_FEE))]
    r.served(u, ob, own + [eq0(S)] + [eq0(t) for t in r.t], "the first deposit into a pool is refused")
    r.served(u, ob, own + [le(ONE, S), le(S, I(2 ** 62))] + [c for t in r.t for c in (le(ONE, t), le(t, I(2 ** 62)))], "a deposit that the depositor's balances cover is refused", lambda q: any(failed_call(c) or no_share(c) for c in q.f.items))

def no_share(c):
    """the deposit is too small for a single LP token (rule eligible-none)"""
    neg = c.op == "not"
    c = c.args[0] if neg else c
    if c.op != "is": return False
    y = c.args[0]
    while y.op in ("fld", "vf"): y = y.args[0]
    return y is not c.args[0] and y.op == "app" and y.args[0].endswith("::get_eligible_lp_tokens") and c.args[1] == (1 if neg else 0)

@rule("A15", "amm", "ix", ["set_pool_swap_fee"])
@whole
def fee_served(u, ob):
    possible(u, ob)
    def other(q):
        for a in q.accounts():
            if "Pool" in q.typeof(a):
                k = q.F(data0(a), "admin", "Pool")
                if any(c.op == "signer" and q.ne(keyof(c.args[0]), k) for c in q.f.items): return True
        return False
    refusals(u, ob, [other, lambda q: q.yes(lt(I(MAX_FEE), ARG0))], "the pool's admin is refused a fee of at most 1 %")

@rule("A15", "amm", "ix", ["create_discount_settings", "create_program_toll"])
@whole
def settings_served(u, ob):
    possible(u, ob)
    refusals(u, ob, [], "the program's upgrade authority is refused to create the settings")

@rule("A15", "amm", "ix", ["put_discount"])
@whole
def discount_served(u, ob):
    usr, amount, until = ixargs_of(None)
    possible(u, ob, [("for a user without a discount", lambda q: any(True for _ in evs(q.st, "create"))), ("for a user with a discount", lambda q: not any(True for _ in evs(q.st, "create")))])
    def foreign(q):
        # not the program's account for this user
        return any(q.ne(keyof(a), PDA("discount", usr)) for a in q.accounts()) and not any(q.same(keyof(a), PDA("discount", usr)) for a in q.accounts())
    def not_authority(q):
        return any(c.op == "signer" and q.ne(keyof(c.args[0]), q.F(data0(a), "authority", "DiscountSettings")) for c in q.f.items for a in q.accounts() if "DiscountSettings" in q.typeof(a) | set(q.isa(a)))
    fails = lambda q: any(c.op in ("fails", "overflow") for c in q.f.items)
    # the authority pays for a new discount account, so it is writable
    broke = lambda q: any(c.op == "not" and c.args[0].op == "writable" and q.signed(keyof(c.args[0].args[0])) for c in q.f.items)
    refusals(u, ob, [foreign, not_authority, fails, broke, lambda q: q.yes(lt(I(10 ** 6), amount)), lambda q: q.yes(le(until, q.now()))], "the discount authority is refused a valid discount")

@rule("A15", "amm", "pool", creates)
@live
def create_served(u, ob):
    amp = raw("ixarg", raw("ixdata"), "u64")
    r = Req(u)
    ms = u.B.mints
    S = r.supply(acct(5))
    hyp = [ne(ms[i], ms[j]) for i in range(r.n) for j in range(i)] + [eq0(S)]
    for k in range(r.n):
        v = acct(u.B.fixed + k)
        d = get_field(data0(v), 0)
        hyp += [eq0(r.bal(v)), neg_c(raw("is", get_field(d, 7), 1)), neg_c(raw("is", get_field(d, 3), 1)), neg_c(raw("frozen", d)), eq(r.owner_of(v), PDA("signer", keyof(u.B.pool)))]
    r.served(u, ob, hyp, "the creation of a pool of distinct mints is refused")
@rule("A15", "amm", "ix", ["swap", "deposit_liquidity", "redeem_liquidity", "create_pool"])
@whole
def accounts_accepted(u, ob):
    """constraints on the accounts refuse only wrong accounts, pools without liquidity and swaps of a mint for itself"""
    def dry(q):
        return u.func in ("swap", "redeem_liquidity") and any(q.yes(eq0(get_field(get_field(data0(a), 0), 1))) for a in q.accounts() if "Mint" in q.isa(a))
    def no_reserve(q):
        """a vault is not of a mint of the pool"""
        for p in q.accounts():
            if not q.trusted(p, "Pool"): continue
            n, rs = q.F(data0(p), "dimension", "Pool"), q.F(data0(p), "reserves", "Pool")
            for v in q.accounts():
                if "TokenAccount" not in q.isa(v): continue
                hs = [q.also(lt(I(i), n), eq(q.F(sel(rs, I(i)), "mint", "Reserve"), q.tokmint(data0(v)))) for i in range(4)]
                if all(h is None or h.prove(lambda z: z.f.lin_unsat(), [I(k) for k in range(4)]) for h in hs): return True
        return False
    def itself(q):
        ws = [a for a in q.accounts() if "TokenAccount" in q.isa(a)]
        return u.func == "swap" and any(q.same(q.tokmint(data0(a)), q.tokmint(data0(b))) and any(c.op == "eq" and set(c.args) == {q.tokmint(data0(a)), q.tokmint(data0(b))} for c in causes(u, q)) for i, a in enumerate(ws) for b in ws[:i])
    def toll_wallet(q):
        """the toll wallet of a new pool belongs to the program's authority, its LP mint to the pool alone"""
        for c in causes(u, q):
            d = c.args[0] if c.op == "not" else None
            if u.func != "create_pool" or d is None: continue
            if d.op == "is" and any(x.op == "data0" and "Mint" in q.isa(x.args[0]) for x in subterms(d)): return True
            if d.op == "eq":
                for x, y in (d.args, d.args[::-1]):
                    if x in [f for a in q.accounts() if "TokenAccount" in q.isa(a) for f in [get_field(get_field(data0(a), 0), 1)]] + [f for a in q.accounts() if "Mint" in q.isa(a) for f in subterms(x) if f.op == "data0" and f.args[0] is a]: return True
                    if any(f.op == "data0" and "Mint" in q.isa(f.args[0]) for f in subterms(x)): return True
        return False
    rejections(u, ob, [dry, no_reserve, itself, toll_wallet])
FLOORS["A15"] = 20

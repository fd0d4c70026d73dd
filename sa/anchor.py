"""Semantics of the Solana / Anchor / SPL surface: account validation, program
derived addresses, cross-program calls, sysvars, instruction data."""
from term import *
from interp import *
import models
from models import M, model, key, gty, selfty, peel, seq_of, pkbytes, default_of, tyidx, SCALARS

PID = raw("pid")
def acct(i): return raw("acct", I(i) if isinstance(i, int) else i)
def keyof(a): return raw("key", a)
def owner(a): return raw("owner", a)
def data0(a): return raw("data0", a)
def droot(a): return raw("data", a)
def mroot(a): return raw("mem", a)

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(s):
    n = 0
    for ch in s: n = n * 58 + B58.index(ch)
    return raw("cpub", "%064x" % n)
TOKEN_ID = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
SYSTEM_ID = raw("cpub", "default")
PROGRAM_IDS = {"Token": TOKEN_ID, "System": SYSTEM_ID, "AssociatedToken": b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")}
SCALARS.add("Decimal")

def info(E, st, v):
    """account term behind a value (reference, wrapper, AccountInfo)"""
    for _ in range(10):
        if v.op == "acct": return v
        if v.op == "wrap": v = v.args[1]
        elif v.op in ("ref", "boxv", "guard", "slice"): v = E.deref(st, v)
        else: break
    return v

def tname(T): return T["path"].split("::")[-1] if T["k"] == "adt" else T["s"]

def is_local(E, T):
    a = E.p.adts.get(T.get("path"))
    return bool(a and a.get("local"))

def owner_of(E, T):
    if is_local(E, T): return PID
    if tname(T) in ("TokenAccount", "Mint"): return TOKEN_ID
    if tname(T) == "ProgramData": return raw("cpub", "bpf-upgradeable")
    return raw("ownerprog", tname(T))

def tyargs(E, T): return [E.p.types[i] for i in (T.get("args") or []) if i is not None]

def typed_data(E, a, T, c=None):
    n = E.p.adts.get(T.get("path"))
    d = data0(a)
    if n and n["kind"] == "struct": FIELDS.setdefault(d, len(n["variants"][0]["fields"]))
    return d

def kind_of(T): return T["path"].split("::")[-1] if T["k"] == "adt" else T["s"]

def construct(E, st, a, T):
    """validated wrapper of type T over account a, or None when impossible"""
    k = kind_of(T)
    if k == "Box":
        v = construct(E, st, a, tyargs(E, T)[0])
        if v is None: return None
        r = raw("tmp", "box", next(E.uid))
        st.mem[r] = v
        return raw("boxv", ref(r))
    if k == "AccountInfo": return a
    if k == "UncheckedAccount": return raw("wrap", "Unchecked", a)
    if k == "Signer":
        return raw("wrap", "Signer", a) if E.assume(st, raw("signer", a)) else None
    if k == "Program":
        p = tyargs(E, T)[-1]
        id = PROGRAM_IDS.get(tname(p)) or (PID if is_local(E, p) else raw("progid", tname(p)))
        ok = E.assume(st, eq(keyof(a), id)) and E.assume(st, raw("executable", a))
        return raw("wrap", "Program", a, tname(p)) if ok else None
    if k == "Sysvar":
        p = tyargs(E, T)[-1]
        return raw("wrap", "Sysvar", a, tname(p)) if E.assume(st, eq(keyof(a), raw("sysvarid", tname(p)))) else None
    if k == "SystemAccount":
        return raw("wrap", "Unchecked", a) if E.assume(st, eq(owner(a), SYSTEM_ID)) else None
    if k in ("Account", "AccountLoader"):
        p = tyargs(E, T)[-1]
        typed_data(E, a, p)
        if not E.assume(st, eq(owner(a), owner_of(E, p))): return None
        if not E.assume(st, raw("isa", a, tname(p))): return None
        if k == "Account": st.mem[mroot(a)] = E.read(st, droot(a), ())
        return raw("wrap", "Account" if k == "Account" else "Loader", a, tname(p))
    return None

@model("Accounts::try_accounts")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    cur = E.deref(st, a[1])
    b, L = seq_of(E, st, cur)
    if not E.assume(st, lt(ZERO, L)): return []
    x = E.deref(st, E.ext(b, ("i", ZERO)))
    E.write(st, *E.ptr(a[1]), slc(E.ext(b, ("sub", ONE)), addc(L, -1)))
    v = construct(E, st, x, T)
    return [(st, Ok(v))] if v is not None else []

@model("Account::try_from", "AccountLoader::try_from", "Signer::try_from", "Program::try_from", "Account::try_from_unchecked", "AccountLoader::try_from_unchecked")
def _(E, st, c, a, fr):
    x = info(E, st, a[-1])
    un = c["name"].endswith("unchecked")
    T = gty(E, c, 0)
    w = (c.get("rpath") or c["fn"]).split("::<")[0].split("::")[-1]
    if T is None: return None
    if w in ("Account", "AccountLoader"):
        if x.op != "acct": return None
        typed_data(E, x, T)
        wrapv = raw("wrap", "Account" if w == "Account" else "Loader", x, tname(T))
        s = st.copy()
        ok = E.assume(s, eq(E.read(s, raw("deref", raw("ownerref", x)), ()), owner_of(E, T)))
        if ok and not un: ok = E.assume(s, raw("isa", x, tname(T)))
        out = []
        if ok:
            if w == "Account": s.mem[mroot(x)] = E.read(s, droot(x), ())
            if un: s.emit("unchecked", x, tname(T))
            out.append((s, Ok(wrapv)))
        if E.assume(st, raw("fails", "account", x, tname(T))): out.append((st, Err(raw("error"))))
        return out
    return None

@model("Key::key")
def _(E, st, c, a, fr):
    v = E.deep(st, a[0])
    x = info(E, st, v)
    return [(st, keyof(x) if x.op == "acct" else v)]

@model("ToAccountInfo::to_account_info")
def _(E, st, c, a, fr): return [(st, info(E, st, a[0]))]

@model("ToAccountInfos::to_account_infos")
def _(E, st, c, a, fr): return [(st, arr([info(E, st, a[0])]))]

@model("AccountLoader::load", "AccountLoader::load_mut", "AccountLoader::load_init")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    T = gty(E, c, 0)
    typed_data(E, x, T)
    n = c["name"]
    if n != "load" and not E.assume(st, raw("writable", x)): return []
    if n == "load_init":
        st.emit("loadinit", x, tname(T))
        z = raw("zeroed", data0(x))
        FIELDS.setdefault(z, FIELDS.get(data0(x), 0))
        st.mem[droot(x)] = z
    return [(st, Ok(raw("guard", ref(droot(x)))))]

@model("Account::reload")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    st.mem[mroot(x)] = E.read(st, droot(x), ())
    return [(st, Ok(UNIT))]

@model("Account::into_inner", "Account::set_inner")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    if c["name"] == "set_inner":
        st.mem[mroot(x)] = a[1]
        return [(st, UNIT)]
    return [(st, E.read(st, mroot(x), ()))]

@model("AccountsExit::exit")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    while kind_of(T) == "Box": T = tyargs(E, T)[0]
    x = info(E, st, a[0])
    if kind_of(T) == "Account" and x.op == "acct":
        p = tyargs(E, T)[-1]
        if is_local(E, p):
            closed = any(e[0] == "close" and e[1] is x for e in st.ev)
            if not closed:
                st.mem[droot(x)] = E.read(st, mroot(x), ())
                st.emit("persist", x, tname(p))
    return [(st, Ok(UNIT))]

@model("AccountsClose::close")
def _(E, st, c, a, fr):
    x, d = info(E, st, a[0]), info(E, st, a[1])
    st.emit("close", x, d)
    st.mem[droot(x)] = raw("closed")
    return [(st, Ok(UNIT))]

# ------------------------------------------------------------------ AccountInfo
@model("AccountInfo::lamports", "AccountInfo::data_len", "AccountInfo::try_data_len", "AccountInfo::try_lamports")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    n = c["name"].replace("try_", "")
    t = raw(n, x); RANGE.setdefault(t, (0, 2**64 - 1))
    if ("create", x) in [e[:2] for e in st.ev]: t = E.fresh(n, (0, 2**64 - 1))
    return [(st, Ok(t) if c["name"].startswith("try") else t)]

@model("AccountInfo::try_borrow_data", "AccountInfo::try_borrow_mut_data")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    if c["name"] == "try_borrow_mut_data":
        st.emit("rawwrite", x)
        return [(st, Ok(raw("guard", ref(raw("rawmut", x)))))]
    L = raw("data_len", x); RANGE.setdefault(L, (0, 2**64 - 1))
    return [(st, Ok(raw("guard", slc(cobj(raw("rawdata", x)), L))))]

@model("AccountSerialize::try_serialize")
def _(E, st, c, a, fr):
    # discriminator and contents written over the account's data
    d = a[1]
    for _ in range(4):
        if d.op == "ref" and d.args[0].op == "rawmut": break
        if d.op not in ("ref", "slice", "guard"): break
        n = E.deref(st, d)
        if n is d: break
        d = n
    if d.op != "ref" or d.args[0].op != "rawmut":
        d = E.deep(st, a[1])
    T = selfty(E, c)
    for x in [x for x in subterms(d) if x.op == "rawmut"][:1] or ([d.args[0]] if d.op == "ref" and d.args[0].op == "rawmut" else []):
        st.mem[droot(x.args[0])] = E.deep(st, a[0])
        st.emit("store", x.args[0], tname(T))
        s = st.copy()
        out = [(st, Ok(UNIT))]
        if E.assume(s, raw("fails", "store", x.args[0], tname(T))): out.append((s, Err(raw("error"))))
        return out
    return None

@model("num::from_le_bytes", "num::from_be_bytes")
def _(E, st, c, a, fr):
    v = E.snapshot(st, a[0])
    if all(True for _ in ()): pass
    t = raw("frombytes", c["name"], models.int_self(E, c), v)
    RANGE.setdefault(t, INT_TY.get(models.int_self(E, c), (0, 2**64 - 1)))
    return [(st, t)]

@model("Context::new")
def _(E, st, c, a, fr):
    n = E.p.adts.get("anchor_lang::context::Context")
    names = [f[0] for f in n["variants"][0]["fields"]] if n else ["program_id", "accounts", "remaining_accounts", "bumps"]
    by = dict(program_id=a[0], accounts=a[1], remaining_accounts=a[2], bumps=a[3])
    E.ctx_accounts(st, a[1], gty(E, c, 0))
    return [(st, agg(("adt", "anchor_lang::context::Context", 0), [by[x] for x in names]))]

# ------------------------------------------------------------------ addresses
def vals(E, st, p):
    """element values of a pointer to a sequence of known length"""
    b, L = seq_of(E, st, p)
    n = cval(L)
    if n is None or n > 32: return None
    r, pa = E.ptr(b)
    return [E.read(st, r, E.norm_path(pa + (("i", I(k)),))) for k in range(n)]

def content(E, st, p):
    """canonical content of a byte-sequence pointer"""
    b, L = seq_of(E, st, p) if p.op in ("ref", "slice", "guard", "boxv") else (None, None)
    v = E.deep(st, b if b is not None else p)
    n = cval(L) if L is not None else None
    if v.op == "subv":
        base, off = v.args
        if off is ZERO and n is not None and cval(arrlen(base)) == n: v = base
        elif off is ZERO and n is None: v = base
        else: return raw("sub", base, off, L)
    elif n is not None and cval(arrlen(v)) is not None and cval(arrlen(v)) != n:
        return raw("sub", v, ZERO, L)
    if v.op == "agg":
        if len(v.args[1]) == 1 and v.args[1][0].op in ("bump",): return v
        if v.args[1] and all(isconst(x) for x in v.args[1]): return raw("cbytes", "".join("%02x" % (cval(x) & 255) for x in v.args[1]))
    return v

def seeds_of(E, st, p):
    vs = vals(E, st, p)
    if vs is None: return None
    return tuple(content(E, st, x) for x in vs)

def pda(seeds, pid): return raw("pda", tuple(seeds), pid)

@model("Pubkey::find_program_address", "Pubkey::try_find_program_address")
def _(E, st, c, a, fr):
    s = seeds_of(E, st, a[0])
    pid = E.deep(st, a[1])
    if s is None: s = (E.fresh("seeds"),)
    s = tuple(st.facts.canon(x) for x in s)
    b = raw("bump", s, pid)
    RANGE.setdefault(b, (0, 255))
    t = tup(pda(s, pid), b)
    return [(st, t if c["name"].startswith("find") else Some(t))]

def seeds_addr(E, st, s, pid):
    """address derived from explicit seeds including the bump"""
    if s and s[-1].op == "agg" and len(s[-1].args[1]) == 1:
        x = s[-1].args[1][0]
        base = tuple(st.facts.canon(y) for y in s[:-1])
        x = st.facts.canon(x)
        if x.op == "bump" and same_seeds(st, x.args[0], base): return pda(x.args[0], pid)
    return raw("cpa", tuple(s), pid)

def same_seeds(st, a, b):
    return len(a) == len(b) and all(x is y or st.facts.holds(eq(x, y)) is True or st.facts.canon(x) is st.facts.canon(y) for x, y in zip(a, b))

@model("Pubkey::create_program_address")
def _(E, st, c, a, fr):
    s = seeds_of(E, st, a[0])
    pid = E.deep(st, a[1])
    k = seeds_addr(E, st, s, pid) if s is not None else E.fresh("cpa")
    return [(st.copy(), Ok(k)), (st, Err(raw("error")))]

# ------------------------------------------------------------------ CPIs
CPI_F = ("accounts", "remaining_accounts", "program", "signer_seeds")
def cpi_fields(E):
    n = E.p.adts.get("anchor_lang::context::CpiContext")
    return [f[0] for f in n["variants"][0]["fields"]] if n else list(CPI_F)

def mkcpi(E, **kw): return agg(("adt", "anchor_lang::context::CpiContext", 0), [kw[x] for x in cpi_fields(E)])

NOSEEDS = slc(cobj(arr(())), ZERO)
@model("CpiContext::new", "CpiContext::new_with_signer")
def _(E, st, c, a, fr):
    return [(st, mkcpi(E, accounts=a[1], remaining_accounts=arr(()), program=a[0], signer_seeds=a[2] if len(a) > 2 else NOSEEDS))]

@model("CpiContext::with_signer", "CpiContext::with_remaining_accounts")
def _(E, st, c, a, fr):
    i = cpi_fields(E).index("signer_seeds" if c["name"] == "with_signer" else "remaining_accounts")
    return [(st, set_field(a[0], i, a[1]))]

def cpi_get(E, v, n): return get_field(v, cpi_fields(E).index(n))

def signers(E, st, ctx):
    """addresses the program signs for in a CPI"""
    vs = vals(E, st, cpi_get(E, ctx, "signer_seeds"))
    if vs is None: return (raw("unknown_signer"),)
    out = []
    for p in vs:
        s = seeds_of(E, st, p)
        out.append(seeds_addr(E, st, s, PID) if s is not None else raw("unknown_signer"))
    return tuple(out)

def cpi_accts(E, st, c, ctx, path):
    v = cpi_get(E, ctx, "accounts")
    n = E.p.adts.get(path)
    if n is None: return {}
    return {f[0]: info(E, st, get_field(v, i)) for i, f in enumerate(n["variants"][0]["fields"])}

def ctx_path(E, c, a, default):
    v = a[0]
    try:
        x = get_field(v, cpi_fields(E).index("accounts"))
        if x.op == "agg" and x.args[0][0] == "adt": return x.args[0][1]
    except Exception: pass
    return default

def token_amount(E, st, a):
    v = E.read(st, droot(a), ())
    return E.getp(st, v, (("f", 0), ("f", 2)))

def add_amount(E, st, a, d):
    E.write(st, droot(a), (("f", 0), ("f", 2)), add(rng64(token_amount(E, st, a)), d))

def rng64(t):
    if t.op != "poly": RANGE.setdefault(t, (0, 2**64 - 1))
    return t

def site(E):
    return E.stack[-1] if E.stack else ""

@model("token::transfer", "token::mint_to", "token::burn", "token::close_account", "token::initialize_account", "token::approve",
       "token::set_authority", "token::freeze_account", "token::thaw_account", "token::initialize_mint")
def _(E, st, c, a, fr):
    n = c["name"]
    ac = cpi_accts(E, st, c, a[0], ctx_path(E, c, a, None))
    sg = signers(E, st, a[0])
    prog = info(E, st, cpi_get(E, a[0], "program"))
    g = lambda *ks: next((ac[k] for k in ks if k in ac), raw("noacct"))
    st.facts = st.facts.add(eq(keyof(prog), TOKEN_ID)) or st.facts if False else st.facts
    if n == "transfer":
        st.emit("xfer", g("from"), g("to"), g("authority"), a[1], sg, prog, site(E))
        if g("from") is not g("to"):
            add_amount(E, st, g("from"), neg(a[1])); add_amount(E, st, g("to"), a[1])
    elif n == "mint_to":
        st.emit("mint", g("mint"), g("to"), g("authority"), a[1], sg, prog, site(E))
        add_amount(E, st, g("to"), a[1])
    elif n == "burn":
        st.emit("burn", g("mint"), g("to", "from"), g("authority"), a[1], sg, prog, site(E))
        add_amount(E, st, g("to", "from"), neg(a[1]))
    elif n == "close_account":
        st.emit("closetok", g("account"), g("destination"), g("authority"), sg, prog, site(E))
        st.mem[droot(g("account"))] = raw("closed")
    elif n == "initialize_account":
        x = g("account")
        st.emit("inittok", x, g("mint"), g("authority"), prog, site(E))
        v = raw("inittok", x)
        E.write(st, droot(x), (), v)
        E.write(st, droot(x), (("f", 0), ("f", 0)), keyof(g("mint")))
        E.write(st, droot(x), (("f", 0), ("f", 1)), keyof(g("authority")))
        E.write(st, droot(x), (("f", 0), ("f", 2)), ZERO)
    else:
        st.emit("cpi", n, tuple(ac.values()), sg, prog, site(E))
    return [(st, Ok(UNIT))]

@model("system_program::create_account", "system_program::transfer", "system_program::allocate", "system_program::assign")
def _(E, st, c, a, fr):
    n = c["name"]
    ac = cpi_accts(E, st, c, a[0], ctx_path(E, c, a, None))
    sg = signers(E, st, a[0])
    g = lambda *ks: next((ac[k] for k in ks if k in ac), raw("noacct"))
    if n == "create_account":
        x = g("to")
        st.emit("create", x, a[2], E.deep(st, a[3]), g("from"), sg, site(E))
        fresh_account(E, st, x, E.deep(st, a[3]))
    elif n == "transfer": st.emit("lamports", g("from"), g("to"), a[1], sg, site(E))
    elif n == "allocate": st.emit("alloc", g("account_to_allocate", "account"), a[1], sg, site(E))
    elif n == "assign":
        x = g("account_to_assign", "account")
        o = E.deep(st, a[1])
        al = [e for e in st.ev if e[0] == "alloc" and e[1] is x]
        st.emit("create", x, al[-1][2] if al else raw("nospace"), o, raw("noacct"), sg, site(E))
        fresh_account(E, st, x, o)
    return [(st, Ok(UNIT))]

def fresh_account(E, st, x, o):
    z = raw("zeroed", data0(x))
    st.mem[droot(x)] = z
    st.mem[raw("deref", raw("ownerref", x))] = o

@model("program::invoke", "program::invoke_signed", "program::invoke_unchecked", "program::invoke_signed_unchecked")
def _(E, st, c, a, fr):
    st.emit("cpi", c["name"], tuple(E.snapshot(st, x) for x in a), (raw("unknown_signer"),), raw("noacct"), site(E))
    return [(st, Ok(UNIT))]

# ------------------------------------------------------------------ sysvars
@model("Sysvar::get")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    return [(st, Ok(raw("sysvar", tname(T))))]

@model("Rent::minimum_balance", "Rent::is_exempt")
def _(E, st, c, a, fr):
    if c["name"] == "is_exempt": return [(st, raw("exempt", a[1], a[2]))]
    t = raw("minbal", a[1]); RANGE.setdefault(t, (0, 2**64 - 1))
    return [(st, t)]

# ------------------------------------------------------------------ instruction data
@model("BorshDeserialize::deserialize")
def _(E, st, c, a, fr):
    cur = E.deref(st, a[0])
    if cur.op in ("slice",) and E.ptr(cur)[0].op == "IXDATA": cur = raw("ixdata")
    T = selfty(E, c)
    if T is None: return None
    v = raw("ixarg", cur, T["s"])
    E.typed(v, models.selfidx(c))
    if E.eager and E.vec_len is not None and tname(T) == "Vec":
        # a list argument of chosen length
        v = models.arr(tuple(E.typed(sel(v, I(k)), T["args"][0]) for k in range(E.vec_len)))
        if E.vec_hook is not None:
            for q in E.vec_hook(st, v):
                if not E.assume(st, q): return []
    E.write(st, *E.ptr(a[0]), raw("ixrest", cur, T["s"]))
    return [(st, Ok(v))]

@model("BorshSerialize::serialize", "Write::write_all", "BorshSerialize::try_to_vec")
def _(E, st, c, a, fr): return [(st, Ok(UNIT))]

@model("AccountDeserialize::try_deserialize", "AccountDeserialize::try_deserialize_unchecked")
def _(E, st, c, a, fr):
    cur = E.deep(st, a[0])
    T = selfty(E, c)
    if cur.op == "rawdata":
        x = cur.args[0]
        s = st.copy()
        out = []
        if E.assume(st, raw("fails", "data", x, tname(T)) if c["name"].endswith("unchecked") else neg_c(raw("isa", x, tname(T)))): out.append((st, Err(raw("error"))))
        if E.assume(s, raw("isa", x, tname(T))):
            typed_data(E, x, T)
            out.append((s, Ok(E.read(s, droot(x), ()))))
        return out
    return None

@model("COption::is_some", "COption::is_none")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    return [(st, E.is_variant(v, 1 if c["name"] == "is_some" else 0))]

@model("Account::is_frozen")
def _(E, st, c, a, fr): return [(st, raw("frozen", E.deref(st, a[0])))]

@model("Account::is_native")
def _(E, st, c, a, fr): return [(st, E.is_variant(get_field(E.deref(st, a[0]), 5), 1))]

@model("Program::programdata_address")
def _(E, st, c, a, fr):
    x = info(E, st, a[0])
    return [(st, Ok(Some(raw("progdata", x))))]

# ------------------------------------------------------------------ Decimal (18 digits)
WAD = I(10**18)
U192 = (0, 2**192 - 1)
def dec_(t):
    if t.op != "poly": RANGE.setdefault(t, U192)
    return t

def okerr(E, st, v, cond=None):
    out = []
    s = st.copy()
    if cond is None or E.assume(s, cond): out.append((s, Ok(v)))
    if cond is not None:
        # the operation is undefined for these operands
        s = st.copy()
        if E.assume(s, neg_c(cond)): out.append((s, Err(raw("error"))))
    # or its result does not fit
    if E.assume(st, raw("overflow", cond is not None)): out.append((st, Err(raw("error"))))
    return out

@model("Decimal::zero")
def _(E, st, c, a, fr): return [(st, ZERO)]
@model("Decimal::one")
def _(E, st, c, a, fr): return [(st, WAD)]
@model("Decimal::from_scaled_val")
def _(E, st, c, a, fr): return [(st, dec_(a[0]))]
@model("Decimal::from_percent")
def _(E, st, c, a, fr): return [(st, mul(a[0], I(10**16)))]
@model("Decimal::from_permillion")
def _(E, st, c, a, fr): return [(st, mul(a[0], I(10**12)))]
@model("Decimal::to_scaled_val")
def _(E, st, c, a, fr): return okerr(E, st, dec_(E.deep(st, a[0])))

def dargs(E, st, c, a):
    x = dec_(E.deep(st, a[0]))
    y = E.deep(st, a[1])
    T = gty(E, c, 1)
    if T is not None and T["s"] in INT_TY:
        rng64(y); return x, y, True
    return x, dec_(y), False

@model("TryAdd::try_add")
def _(E, st, c, a, fr):
    x, y, i = dargs(E, st, c, a); return okerr(E, st, add(x, mul(y, WAD) if i else y))
@model("TrySub::try_sub")
def _(E, st, c, a, fr):
    x, y, i = dargs(E, st, c, a)
    y = mul(y, WAD) if i else y
    return okerr(E, st, sub(x, y), le(y, x))
@model("TryMul::try_mul")
def _(E, st, c, a, fr):
    x, y, i = dargs(E, st, c, a); return okerr(E, st, mul(x, y) if i else div(mul(x, y), WAD))
@model("TryDiv::try_div")
def _(E, st, c, a, fr):
    x, y, i = dargs(E, st, c, a); return okerr(E, st, div(x, y) if i else div(mul(x, WAD), y), lt(ZERO, y))
@model("TryPow::try_pow")
def _(E, st, c, a, fr):
    n = cval(a[1])
    x = dec_(E.deep(st, a[0]))
    if n is not None and cval(x) is not None and cval(x) % 10**18 == 0:
        v = (cval(x) // 10**18) ** n * 10**18
        if v < 2**192: return [(st, Ok(I(v)))]
        return [(st, Err(raw("error")))] if E.assume(st, raw("overflow", False)) else []
    if n is not None and n <= 4:
        v = WAD
        for k in range(n): v = div(mul(v, x), WAD)
        return okerr(E, st, v)
    t = raw("dpow", x, a[1]); RANGE.setdefault(t, U192)
    return okerr(E, st, t)
@model("TrySqrt::try_sqrt")
def _(E, st, c, a, fr):
    t = raw("dsqrt", dec_(E.deep(st, a[0]))); RANGE.setdefault(t, U192)
    return okerr(E, st, t)
@model("TryRound::try_floor", "TryRound::try_ceil", "TryRound::try_round")
def _(E, st, c, a, fr):
    x = dec_(E.deep(st, a[0]))
    k = {"try_floor": 0, "try_ceil": 10**18 - 1, "try_round": 5 * 10**17}[c["name"]]
    v = div(addc(x, k), WAD)
    T = gty(E, c, 1)
    if v.op != "poly": RANGE[v] = (0, 2**192)
    return okerr(E, st, v, le(v, I(2**64 - 1)))

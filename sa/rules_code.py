"""Rules that hold for both programs alike."""
from term import *
from interp import Imprecise
from q import *
import check
from check import rule, FLOORS
import rules_amm

PRIM = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}

def full_len(p, t):
    """the most bytes a value of the type takes when serialised; None when unbounded or unknown"""
    T = p.ty(t) if isinstance(t, int) else t
    if T is None: return None
    if T["k"] == "prim": return PRIM.get(T["s"])
    if T["k"] == "array":
        n = full_len(p, T["of"])
        return None if n is None else n * T["len"]
    if T["k"] == "tuple":
        ns = [full_len(p, x) for x in T.get("of") or T.get("args") or ()]
        return None if None in ns else sum(ns)
    if T["k"] == "adt":
        if T["path"].endswith("::Pubkey"): return 32
        last = T["path"].split("::")[-1]
        if last == "Option":
            n = full_len(p, T["args"][0])
            return None if n is None else 1 + n
        a = p.adts.get(T["path"])
        if a is None: return None
        vs = []
        for v in a["variants"]:
            ns = [full_len(p, f[1]) for f in v["fields"]]
            if None in ns: return None
            vs.append(sum(ns))
        return (1 + max(vs)) if a.get("kind") == "enum" or len(vs) > 1 else vs[0] if vs else 0
    return None

def room(u, q, ob):
    """every account created by an instruction has room for all its type can hold"""
    for e, ctx in evs(q.st, "create"):
        a, space = e[1], e[2]
        ts = set(q.typeof(a)) | {x[2] for x, _ in evs(q.st, "store", "persist") if x[1] is a}
        n = cval(q.norm(space))
        if any(x[1] is a for x, _ in evs(q.st, "inittok")) or "TokenAccount" in ts:
            ob("token-account-size", n == 165, "a token account is created with %s bytes instead of 165" % show(space)); continue
        for T in ts:
            p = q.E.p
            path = [k for k in p.adts if k.split("::")[-1] == T and p.adts[k].get("local")]
            need = full_len(p, {"k": "adt", "path": path[0], "args": []}) if len(path) == 1 else None
            ob("room-for-contents", None if n is None or need is None else n >= 8 + need, "an account of type %s is created with %s bytes but its contents can take %s" % (T, show(space), need and 8 + need))
        if not ts: ob("room-for-contents", None, "an account of unknown type is created")

rule("C01", "farming", "ix", "*")(room)
rule("C01", "amm", "ix", ["create_program_toll", "create_discount_settings", "put_discount"])(room)
rule("C01", "amm", "pool", rules_amm.creates)(room)
FLOORS["C01"] = 6

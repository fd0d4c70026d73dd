"""Semantics of the library functions the programs use (core, alloc, anchor,
token program CPIs). Local functions are never modelled: they are analysed."""
import re
from term import *
from interp import *

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

_keycache = {}
def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<": d += 1
        elif ch == ">" and s[i - 1] != "-": d -= 1
        elif d == 0: out.append(ch)
        i += 1
    return "".join(out)

def key(c):
    k = (c["fn"], c.get("trait"), c.get("rpath"))
    r = _keycache.get(k)
    if r is None:
        if c.get("trait"):
            r = strip_generics(c["trait"]).split("::")[-1] + "::" + c["name"]
        else:
            p = c.get("rpath") or c["fn"]
            p = re.sub(r"<impl (?:[^<>]|<[^<>]*>)*>", "", p)
            p = strip_generics(p)
            p = re.sub(r":{3,}", "::", p)
            parts = [x for x in p.split("::") if x]
            r = "::".join(parts[-2:])
        _keycache[k] = r
    return r

STRUCTURAL = ("PartialEq::eq", "PartialEq::ne", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge",
              "PartialOrd::partial_cmp", "Ord::cmp", "Ord::min", "Ord::max", "Clone::clone")

def lookup(E, c):
    k = key(c)
    b = E.p.raw_bodies.get(c.get("rid")) if c.get("rid") else None
    if b is None and c.get("id") in E.p.raw_bodies and not c.get("trait"): b = E.p.raw_bodies[c["id"]]
    if b is not None:
        if k in STRUCTURAL and (b.get("derived")): return M.get(k)
        if k == "AccountSerialize::try_serialize" and b.get("expn"): return M.get(k)
        return None
    if k in STRUCTURAL and selfidx(c) is not None:
        # provided methods over a local, hand-written comparison
        u = user_cmp(E, c, k)
        if u: return u
    return M.get(k)

def user_cmp(E, c, k):
    T = selfty(E, c)
    d = 0
    while T["k"] == "ref" and d < 3: T = E.p.types[T["of"]]; d += 1
    if T["k"] != "adt": return None
    tr = {"PartialEq::ne": ("PartialEq", "eq"), "PartialEq::eq": ("PartialEq", "eq")}.get(k)
    if not tr: return None
    for id, b in E.p.raw_bodies.items():
        im = b.get("impl")
        if im and im[1] and im[1].split("<")[0].endswith(tr[0]) and id.endswith("::" + tr[1]) and not b.get("derived"):
            st = E.p.types[im[0]] if isinstance(im[0], int) else None
            if st and st.get("path") == T["path"]:
                body = E.p.body(id)
                def f(E, st_, c, args, fr, body=body, neg=(k == "PartialEq::ne")):
                    a = list(args)
                    for _ in range(d):
                        a = [E.deref(st_, x) for x in a]
                    return [(s, neg_c(v) if neg else v) for s, v in E.exec_body(st_, body, a, fr.depth + 1)]
                return f
    return None

def gty(E, c, i):
    a = c.get("args") or []
    return E.p.types[a[i]] if i < len(a) else None

def selfidx(c):
    if c.get("self") is not None: return c["self"]
    a = c.get("args") or []
    return a[0] if c.get("trait") and a else None

def selfty(E, c):
    i = selfidx(c)
    return E.p.types[i] if i is not None else None

def peel(E, T):
    while T and T["k"] == "ref": T = E.p.types[T["of"]]
    return T

# ------------------------------------------------------------------ Option / Result
def isopt(E, c):
    p = c.get("rpath") or c["fn"]
    return "option::Option" in p

@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    n = c["name"]
    x = E.is_variant(v, 1 if n in ("is_some", "is_err") else 0)
    return [(st, x)]

@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _(E, st, c, a, fr):
    i = 1 if isopt(E, c) else 0
    E.may_panic(st, E.is_variant(a[0], i), fr.body.id)
    if not E.assume(st, E.is_variant(a[0], i)): return []
    return [(st, get_vfield(a[0], i, 0))]

@model("Result::unwrap_err", "Result::expect_err")
def _(E, st, c, a, fr):
    if not E.assume(st, E.is_variant(a[0], 1)): return []
    return [(st, get_vfield(a[0], 1, 0))]

def _goodbad(E, st, c, v):
    """[(st, good, payload)]"""
    if isopt(E, c): return [(s, i == 1, get_vfield(v, 1, 0) if i == 1 else None) for s, i in E.variant(st, v, 2)]
    return [(s, i == 0, get_vfield(v, i, 0)) for s, i in E.variant(st, v, 2)]

@model("Option::unwrap_or", "Result::unwrap_or")
def _(E, st, c, a, fr):
    return [(s, p if g else a[1]) for s, g, p in _goodbad(E, st, c, a[0])]

@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out.append((s, p))
        else: out += E.call_value(s, a[1], [] if isopt(E, c) else [p], fr.depth)
    return out

@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out.append((s, p))
        else: out.append((s, default_of(E, gty(E, c, 0))))
    return out

@model("Option::map", "Result::map")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g:
            for s2, v in E.call_value(s, a[1], [p], fr.depth): out.append((s2, Some(v) if isopt(E, c) else Ok(v)))
        else: out.append((s, NONE if isopt(E, c) else Err(p)))
    return out

@model("Result::map_err")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out.append((s, Ok(p)))
        else: out.append((s, Err(raw("error"))))
    return out

@model("Option::map_or", "Result::map_or")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out += E.call_value(s, a[2], [p], fr.depth)
        else: out.append((s, a[1]))
    return out

@model("Option::map_or_else", "Result::map_or_else")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out += E.call_value(s, a[2], [p], fr.depth)
        else: out += E.call_value(s, a[1], [] if isopt(E, c) else [p], fr.depth)
    return out

@model("Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out += E.call_value(s, a[1], [p], fr.depth)
        else: out.append((s, TRUE if c["name"] == "is_none_or" else FALSE))
    return out

@model("Option::and_then", "Result::and_then")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out += E.call_value(s, a[1], [p], fr.depth)
        else: out.append((s, NONE if isopt(E, c) else Err(p)))
    return out

@model("Option::and", "Result::and")
def _(E, st, c, a, fr):
    return [(s, a[1] if g else (NONE if isopt(E, c) else Err(p))) for s, g, p in _goodbad(E, st, c, a[0])]

@model("Option::or", "Result::or")
def _(E, st, c, a, fr):
    return [(s, a[0] if g else a[1]) for s, g, p in _goodbad(E, st, c, a[0])]

@model("Option::or_else", "Result::or_else")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out.append((s, a[0]))
        else: out += E.call_value(s, a[1], [] if isopt(E, c) else [p], fr.depth)
    return out

@model("Option::ok_or", "Option::ok_or_else")
def _(E, st, c, a, fr):
    out = []
    for s, g, p in _goodbad(E, st, c, a[0]):
        if g: out.append((s, Ok(p)))
        else:
            v = a[1] if c["name"] == "ok_or" else None
            out.append((s, Err(raw("error"))))
    return out

@model("Result::ok", "Result::err")
def _(E, st, c, a, fr):
    want = c["name"] == "ok"
    return [(s, Some(p) if g == want else NONE) for s, g, p in _goodbad(E, st, c, a[0])]

@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    out = []
    for s, i in E.variant(st, v, 2):
        if isopt(E, c) and i == 0: out.append((s, NONE)); continue
        r, pa = E.ptr(a[0])
        p = ref(r, pa + (("vf", i, 0),))
        out.append((s, raw("agg", ("adt", OPT if isopt(E, c) else RES, i), (p,))))
    return out

@model("Option::copied", "Option::cloned")
def _(E, st, c, a, fr):
    return [(s, Some(E.typed(E.deref(s, p), tyidx(E, c, 0))) if p is not None else NONE) for s, p in E.opt(st, a[0])]

def tyidx(E, c, i):
    a = c.get("args") or []
    return a[i] if i < len(a) else None

@model("Option::filter")
def _(E, st, c, a, fr):
    out = []
    for s, p in E.opt(st, a[0]):
        if p is None: out.append((s, NONE)); continue
        for s2, v in E.call_value(s, a[1], [cobj(p)], fr.depth):
            for s3, t in E.branch(s2, v): out.append((s3, Some(p) if t else NONE))
    return out

@model("Option::take")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    E.write(st, *E.ptr(a[0]), NONE)
    return [(st, v)]

@model("Option::replace", "mem::replace")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    E.write(st, *E.ptr(a[0]), Some(a[1]) if c["name"] == "replace" and isopt(E, c) else a[1])
    return [(st, v)]

@model("Option::xor", "Option::zip", "Option::flatten", "Result::flatten", "Option::transpose")
def _(E, st, c, a, fr):
    if c["name"] == "flatten":
        return [(s, p if g else (NONE if isopt(E, c) else Err(p))) for s, g, p in _goodbad(E, st, c, a[0])]
    if c["name"] == "zip":
        out = []
        for s, p in E.opt(st, a[0]):
            if p is None: out.append((s, NONE)); continue
            for s2, q in E.opt(s, a[1]): out.append((s2, NONE if q is None else Some(tup(p, q))))
        return out
    if c["name"] == "transpose":
        out = []
        for s, p in E.opt(st, a[0]):
            if p is None: out.append((s, Ok(NONE))); continue
            for s2, g, q in E.res(s, p): out.append((s2, Ok(Some(q)) if g else Err(q)))
        return out
    return None

@model("Try::branch")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    v = a[0]
    if T and T.get("path") == OPT:
        return [(s, Cont(p) if p is not None else Break(NONE)) for s, p in E.opt(st, v)]
    if T and T.get("path") == RES:
        return [(s, Cont(p) if g else Break(Err(p))) for s, g, p in E.res(st, v)]
    if v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1] in (OPT, RES):
        i = v.args[0][2]
        if v.args[0][1] == OPT: return [(st, Cont(v.args[1][0]) if i else Break(NONE))]
        return [(st, Cont(v.args[1][0]) if i == 0 else Break(Err(v.args[1][0])))]
    return None

@model("Try::from_output")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    return [(st, Some(a[0]) if T and T.get("path") == OPT else Ok(a[0]))]

@model("FromResidual::from_residual")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    if T and T.get("path") == OPT: return [(st, NONE)]
    return [(st, Err(raw("error")))]

# ------------------------------------------------------------------ comparison
def eqv(E, st, a, b, T, d=0):
    while T and T["k"] == "ref":
        a, b = E.deref(st, a), E.deref(st, b)
        T = E.p.types[T["of"]]
    if T is None: return eq(a, b)
    if T["k"] == "prim":
        if T["s"] in INT_TY:
            for x in (a, b):
                if x.op != "poly": RANGE.setdefault(x, INT_TY[T["s"]])
            return eq0(sub(a, b))
        return eq(a, b)
    if T["k"] in ("slice",) or T["s"] == "str":
        return eq(E.snapshot(st, a), E.snapshot(st, b))
    if T["k"] == "array":
        for x in (a, b):
            if x.op not in ("agg", "rep", "store", "comp") and isinstance(T.get("len"), int): ARRLEN.setdefault(x, T["len"])
        return eq(a, b)
    if T["k"] == "tuple":
        return and_(*[eqv(E, st, fieldt(E, a, i, t), fieldt(E, b, i, t), E.p.types[t], d + 1) for i, t in enumerate(T["of"])])
    if T["k"] == "adt":
        if T["path"].endswith("::Pubkey"): return eq(a, b)
        if T["path"] == OPT and (a.op == "agg" or b.op == "agg"):
            if b.op != "agg": a, b = b, a
            if b.args[0][2] == 0: return E.is_variant(a, 0)
            inner = E.p.types[T["args"][0]] if T.get("args") else None
            return and_(E.is_variant(a, 1), eqv(E, st, get_vfield(a, 1, 0), get_vfield(b, 1, 0), inner, d + 1))
        ad = E.p.adts.get(T["path"])
        if ad and ad["kind"] == "struct" and d < 4 and all(t is not None for _, t in ad["variants"][0]["fields"]) and len(ad["variants"][0]["fields"]) <= 4:
            E_nf(a, ad); E_nf(b, ad)
            return and_(*[eqv(E, st, fieldt(E, a, i, t), fieldt(E, b, i, t), E.p.types[t], d + 1) for i, (_, t) in enumerate(ad["variants"][0]["fields"])])
        if ad and ad["kind"] == "enum" and all(not v["fields"] for v in ad["variants"]):
            for x, y in ((a, b), (b, a)):
                if y.op == "agg" and y.args[0][0] == "adt": return E.is_variant(x, y.args[0][2])
    return eq(a, b)

def E_nf(x, ad):
    FIELDS.setdefault(x, len(ad["variants"][0]["fields"]))

def fieldt(E, v, i, t):
    return E.typed(get_field(v, i), t)

def cmp_ints(E, st, a, b, T):
    """pairs of integers compared lexicographically, or None"""
    while T and T["k"] == "ref":
        a, b = E.deref(st, a), E.deref(st, b)
        T = E.p.types[T["of"]]
    if T is None: return None
    if T["k"] == "prim" and T["s"] in INT_TY:
        for x in (a, b):
            if x.op != "poly": RANGE.setdefault(x, INT_TY[T["s"]])
        return [(a, b)]
    if T["k"] == "prim" and T["s"] == "bool":
        return [(E_b2i(a), E_b2i(b))]
    if T["k"] == "adt":
        ad = E.p.adts.get(T["path"])
        if ad and ad["kind"] == "struct" and ad.get("local") and all(t is not None for _, t in ad["variants"][0]["fields"]):
            out = []
            for i, (_, t) in enumerate(ad["variants"][0]["fields"]):
                r = cmp_ints(E, st, fieldt(E, a, i, t), fieldt(E, b, i, t), E.p.types[t])
                if r is None: return None
                out += r
            return out
        if T["path"].split("::")[-1] in SCALARS:
            for x in (a, b):
                RANGE.setdefault(x, (0, 2**256)) if x.op != "poly" else None
            return [(a, b)]
    if T["k"] == "tuple":
        out = []
        for i, t in enumerate(T["of"]):
            r = cmp_ints(E, st, fieldt(E, a, i, t), fieldt(E, b, i, t), E.p.types[t])
            if r is None: return None
            out += r
        return out
    return None

SCALARS = set()

def E_b2i(a):
    if a is TRUE: return ONE
    if a is FALSE: return ZERO
    t = raw("b2i", a); RANGE.setdefault(t, (0, 1)); return t

def lexlt(ps, strict=True):
    if not ps: return FALSE if strict else TRUE
    (a, b), rest = ps[0], ps[1:]
    if not rest: return lt(a, b) if strict else le(a, b)
    return or_(lt(a, b), and_(eq0(sub(a, b)), lexlt(rest, strict)))

def cmpty(E, c):
    T = selfty(E, c)
    return T

@model("PartialEq::eq", "PartialEq::ne")
def _(E, st, c, a, fr):
    T = cmpty(E, c)
    T2 = gty(E, c, 1)
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    if T and T["k"] == "adt" and T["path"] == CF_DEC and False: pass
    if T2 is not None and T is not None and T["s"] != T2["s"] and T["k"] not in ("ref",):
        x, y = E.deep(st, x), E.deep(st, y)
        T = peel(E, T)
        r = eqv(E, st, x, y, T)
    else: r = eqv(E, st, x, y, T)
    return [(st, r if c["name"] == "eq" else neg_c(r))]
CF_DEC = None

@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(E, st, c, a, fr):
    T = cmpty(E, c)
    ps = cmp_ints(E, st, E.deref(st, a[0]), E.deref(st, a[1]), T)
    n = c["name"]
    if ps is None:
        x, y = E.snapshot(st, a[0]), E.snapshot(st, a[1])
        if n in ("gt", "ge"): x, y, n = y, x, {"gt": "lt", "ge": "le"}[n]
        if n == "lt": return [(st, raw("olt", x, y))]
        return [(st, neg_c(raw("olt", y, x)))]
    if n in ("gt", "ge"):
        ps = [(y, x) for x, y in ps]
        n = "lt" if n == "gt" else "le"
    return [(st, lexlt(ps, n == "lt"))]

def ordering(i): return raw("agg", ("adt", ORD, i), ())

@model("Ord::cmp", "PartialOrd::partial_cmp")
def _(E, st, c, a, fr):
    T = cmpty(E, c)
    ps = cmp_ints(E, st, E.deref(st, a[0]), E.deref(st, a[1]), T)
    w = (lambda v: v) if c["name"] == "cmp" else Some
    if ps is None:
        return [(st, w(raw("cmpo", E.snapshot(st, a[0]), E.snapshot(st, a[1]))))]
    if len(ps) == 1: return [(st, w(raw("ordcmp", *ps[0])))]
    out = []
    s = st.copy()
    if E.assume(s, lexlt(ps)): out.append((s, w(ordering(0))))
    s = st.copy()
    if E.assume(s, and_(*[eq0(sub(x, y)) for x, y in ps])): out.append((s, w(ordering(1))))
    s = st.copy()
    if E.assume(s, lexlt([(y, x) for x, y in ps])): out.append((s, w(ordering(2))))
    return out

@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _(E, st, c, a, fr):
    n = c["name"][3:]
    L, Q, G = (E.is_variant(a[0], i) for i in range(3))
    return [(st, {"lt": L, "le": neg_c(G), "gt": G, "ge": neg_c(L), "eq": Q, "ne": neg_c(Q)}[n])]

@model("Ordering::reverse")
def _(E, st, c, a, fr):
    if a[0].op == "ordcmp": return [(st, raw("ordcmp", a[0].args[1], a[0].args[0]))]
    return [(s, ordering(2 - i)) for s, i in E.variant(st, a[0], 3)]

@model("Ordering::then", "Ordering::then_with")
def _(E, st, c, a, fr):
    out = []
    for s, i in E.variant(st, a[0], 3):
        if i != 1: out.append((s, ordering(i)))
        elif c["name"] == "then": out.append((s, a[1]))
        else: out += E.call_value(s, a[1], [], fr.depth)
    return out

@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def _(E, st, c, a, fr):
    T = cmpty(E, c) if c.get("trait") else gty(E, c, 0)
    ps = cmp_ints(E, st, a[0], a[1], T)
    if ps is None: return None
    out = []
    mx = c["name"] == "max"
    for s, t in E.branch(st, lexlt(ps, False)):   # a <= b
        if len(ps) == 1 and T["k"] == "prim" or True:
            out.append((s, (a[1] if mx else a[0]) if t else (a[0] if mx else a[1])))
    return out

@model("Ord::clamp")
def _(E, st, c, a, fr):
    T = cmpty(E, c)
    ps = cmp_ints(E, st, a[0], a[1], T)
    qs = cmp_ints(E, st, a[0], a[2], T)
    if ps is None: return None
    out = []
    for s, t in E.branch(st, lexlt(ps, True)):
        if t: out.append((s, a[1])); continue
        for s2, u in E.branch(s, lexlt([(y, x) for x, y in qs], True)): out.append((s2, a[2] if u else a[0]))
    return out

# ------------------------------------------------------------------ integers
def int_self(E, c):
    m = re.search(r"<impl (\w+)>", c.get("rpath") or c["fn"])
    return m.group(1) if m else "u64"

def rng_of(E, c):
    return INT_TY.get(int_self(E, c), (0, 2**64 - 1))

def arith(name, a, b):
    return add(a, b) if name == "add" else sub(a, b) if name == "sub" else mul(a, b)

def within(name, v, rng):
    cs = []
    if name == "sub" or rng[0] < 0: cs.append(le(I(rng[0]), v))
    if name != "sub" or rng[0] < 0: cs.append(le(v, I(rng[1])))
    return and_(*cs)

@model("num::checked_add", "num::checked_sub", "num::checked_mul")
def _(E, st, c, a, fr):
    n = c["name"][8:]
    v = arith(n, a[0], a[1])
    return [(s, Some(v) if t else NONE) for s, t in E.branch(st, within(n, v, rng_of(E, c)))]

@model("num::checked_div", "num::checked_rem", "num::checked_div_euclid", "num::checked_rem_euclid")
def _(E, st, c, a, fr):
    out = []
    for s, t in E.branch(st, eq0(a[1])):
        if t: out.append((s, NONE))
        else: out.append((s, Some(div(a[0], a[1]) if "div" in c["name"] else rem(a[0], a[1]))))
    return out

@model("num::div_euclid")
def _(E, st, c, a, fr): return [(st, div(a[0], a[1]))]
@model("num::rem_euclid")
def _(E, st, c, a, fr): return [(st, rem(a[0], a[1]))]

@model("num::saturating_sub", "num::saturating_add", "num::saturating_mul")
def _(E, st, c, a, fr):
    n = c["name"][11:]
    rng = rng_of(E, c)
    v = arith(n, a[0], a[1])
    if rng[0] < 0:
        t = raw("sat", v); RANGE.setdefault(t, rng); return [(st, t)]
    out = []
    for s, t in E.branch(st, within(n, v, rng)):
        out.append((s, v if t else I(rng[0] if n == "sub" else rng[1])))
    return out

@model("num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul", "num::overflowing_add", "num::overflowing_sub", "num::overflowing_mul")
def _(E, st, c, a, fr):
    n = c["name"].split("_")[1]
    rng = rng_of(E, c)
    v = arith(n, a[0], a[1])
    h = st.facts.holds(within(n, v, rng))
    if h is True: r = v
    else:
        r = raw("wrap", v, int_self(E, c)); RANGE.setdefault(r, rng)
    if c["name"].startswith("over"): return [(st, tup(r, neg_c(within(n, v, rng))))]
    return [(st, r)]

@model("num::abs_diff")
def _(E, st, c, a, fr):
    return [(s, sub(a[1], a[0]) if t else sub(a[0], a[1])) for s, t in E.branch(st, le(a[0], a[1]))]

@model("num::pow", "num::checked_pow", "num::saturating_pow")
def _(E, st, c, a, fr):
    n = cval(a[1])
    if n is None or n > 8: return None
    v = ONE
    for _ in range(n): v = mul(v, a[0])
    if c["name"] == "pow": return [(st, v)]
    if c["name"] == "checked_pow":
        return [(s, Some(v) if t else NONE) for s, t in E.branch(st, le(v, I(rng_of(E, c)[1])))]
    return None

@model("num::div_ceil")
def _(E, st, c, a, fr): return [(st, div(addc(add(a[0], a[1]), -1), a[1]))]

def try_int(E, st, v, src, dst):
    a, b = INT_TY.get(src), INT_TY.get(dst)
    if a and b:
        if v.op != "poly": RANGE.setdefault(v, a)
        return [(s, Ok(v) if t else Err(raw("error"))) for s, t in E.branch(st, E.inrange(v, b) if not (b[0] <= a[0] and a[1] <= b[1]) else TRUE)]
    return None

def convert(E, st, v, S, D, trying, c, fr):
    if S is None or D is None: return None
    wrap = Ok if trying else (lambda x: x)
    if S["s"] == D["s"]: return [(st, wrap(v))]
    if D["k"] == "adt" and D["path"].split("::")[-1] == "Decimal" and S["k"] == "prim" and S["s"] in INT_TY:
        if v.op != "poly": RANGE.setdefault(v, INT_TY[S["s"]])
        return [(st, wrap(mul(v, I(10**18))))]
    if S["k"] == "prim" and D["k"] == "prim":
        if trying: return try_int(E, st, v, S["s"], D["s"])
        if S["s"] == "bool": return [(st, E_b2i(v))]
        return [(st, v)]
    if trying:
        if D["k"] == "array" and isinstance(D.get("len"), int):
            n = I(D["len"])
            x = E.deep(st, v) if S["k"] == "ref" else v
            L = v.args[1] if v.op == "slice" else arrlen(x)
            if S["k"] == "ref" and x.op == "subv" and v.op == "slice": pass
            out = []
            for s, t in E.branch(st, eq0(sub(L, n))):
                out.append((s, Ok(x) if t else Err(v)))
            return out
        if D["k"] == "ref" and S["k"] == "ref":
            inner = E.p.types[D["of"]]
            if inner["k"] == "array" and v.op == "slice":
                return [(s, Ok(v.args[0]) if t else Err(raw("error"))) for s, t in E.branch(st, eq0(sub(v.args[1], I(inner["len"]))))]
    # a local From impl
    for id, b in E.p.raw_bodies.items():
        im = b.get("impl")
        if im and im[1] and id.endswith("::try_from" if trying else "::from") and "From" in im[1]:
            body = E.p.body(id)
            at, rt = E.p.types[body.locals[1][0]], E.p.types[body.locals[0][0]]
            if at["s"] == S["s"] and (rt["s"] == D["s"] or trying and (rt.get("args") and E.p.types[rt["args"][0]]["s"] == D["s"])):
                return E.exec_body(st, body, [v], fr.depth + 1)
    if not trying and D["k"] == "adt" and D["path"] == OPT: return [(st, Some(v))]
    if not trying and D["s"].startswith(("std::vec::Vec", "std::boxed::Box<[", "alloc::vec")) and S["k"] in ("array",): return [(st, v)]
    return None

@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _(E, st, c, a, fr):
    n = c["name"]
    S, D = gty(E, c, 0), gty(E, c, 1)
    if n in ("from", "try_from"): S, D = D, S
    if D and D["k"] == "adt" and D["path"].split("::")[-1] in ("Error", "ErrorCode", "ProgramError"): return [(st, raw("error"))]
    r = convert(E, st, a[0], S, D, n.startswith("try"), c, fr)
    if r is not None: return r
    t = raw("conv", D["s"] if D else "?", E.snapshot(st, a[0]))
    return [(st, t)]

# ------------------------------------------------------------------ references, clones, defaults
@model("Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "BorrowMut::borrow_mut")
def _(E, st, c, a, fr):
    if c["name"].startswith("borrow"): return [(st, a[0])]
    v = E.deref(st, a[0])
    T = selfty(E, c)
    return [(st, E.typed(v, selfidx(c)))]

def default_of(E, T):
    if T is None: return raw("dflt", "?")
    if T["k"] == "prim":
        if T["s"] == "bool": return FALSE
        if T["s"] in INT_TY: return ZERO
    if T["k"] == "tuple": return tup(*[default_of(E, E.p.types[t]) for t in T["of"]])
    if T["k"] == "array" and isinstance(T.get("len"), int): return raw("rep", default_of(E, E.p.types[T["of"]]), I(T["len"]))
    if T["k"] == "adt":
        if T["path"].endswith("::Pubkey"): return raw("cpub", "default")
        if T["path"] == OPT: return NONE
        if T["path"].endswith("::Vec"): return arr(())
        if T["path"].endswith("BTreeMap"): return raw("bm", raw("bempty"), ())
        if T["path"].endswith("::PhantomData"): return UNIT
        ad = E.p.adts.get(T["path"])
        if ad and ad.get("local"):
            for id, b in E.p.raw_bodies.items():
                im = b.get("impl")
                if im and im[1] and im[1].endswith("Default") and id.endswith("::default"):
                    body = E.p.body(id)
                    if E.p.types[body.locals[0][0]]["s"] == T["s"]:
                        outs = E.exec_body(State(), body, [], 1)
                        if len(outs) == 1: return outs[0][1]
    return raw("dflt", T["s"])

@model("Default::default")
def _(E, st, c, a, fr):
    return [(st, default_of(E, selfty(E, c)))]

@model("Deref::deref", "DerefMut::deref_mut")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    v = E.deref(st, a[0])
    if v.op == "wrap":
        if v.args[0] == "Account": return [(st, ref(raw("mem", v.args[1])))]
        if v.args[0] == "Loader": return [(st, ref(raw("data", v.args[1])))]
        return [(st, cobj(v.args[1]))]
    if v.op in ("guard", "boxv"): return [(st, v.args[0])]
    p = T["path"].split("::")[-1] if T and T["k"] == "adt" else ""
    if p in ("TokenAccount", "Mint") or T and T["k"] == "adt" and T["path"].startswith("anchor_spl"):
        return [(st, E.ext(a[0], ("f", 0)))]
    if p in ("Vec",):
        r, pa = E.ptr(a[0])
        return [(st, slc(ref(r, pa), arrlen(v)))]
    if p in ("String",): return [(st, a[0])]
    if p in ("Ref", "RefMut", "Box", "Rc"):
        return [(st, v if v.op in ("ref", "slice") else v)]
    return None

@model("AsRef::as_ref", "AsMut::as_mut", "Pubkey::as_ref")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    v = E.deref(st, a[0])
    v2 = E.deep(st, v)
    T = peel(E, T)
    D = gty(E, c, 1)
    if T and T["k"] == "adt" and T["path"].endswith("::Pubkey"):
        return [(st, slc(cobj(pkbytes(v2)), I(32)))]
    if v2.op in ("acct", "wrap"):
        return [(st, cobj(v2.args[1] if v2.op == "wrap" else v2))]
    if T and T["k"] == "array" and D and D["k"] in ("slice",):
        return [(st, slc(a[0], arrlen(v2)))]
    if T and T["k"] in ("slice",) or T and T["s"] == "str": return [(st, a[0])]
    if T and T["k"] == "adt" and T["path"].endswith("Vec"): return [(st, slc(a[0], arrlen(v2)))]
    return None

def pkbytes(k):
    t = raw("bytes", k)
    ARRLEN[t] = 32
    return t

@model("Pubkey::to_bytes")
def _(E, st, c, a, fr): return [(st, pkbytes(E.deep(st, a[0])))]
@model("Pubkey::new_from_array", "Pubkey::new")
def _(E, st, c, a, fr):
    v = E.deep(st, a[0])
    if v.op == "bytes": return [(st, v.args[0])]
    if v.op == "rep" and v.args[0] is ZERO: return [(st, raw("cpub", "default"))]
    return [(st, raw("pkof", v))]
@model("Pubkey::default")
def _(E, st, c, a, fr): return [(st, raw("cpub", "default"))]

@model("num::to_le_bytes", "num::to_be_bytes", "num::to_ne_bytes")
def _(E, st, c, a, fr):
    t = raw("intbytes", c["name"], int_self(E, c), a[0])
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16}.get(int_self(E, c))
    if n == 1: return [(st, arr([a[0]]))]
    if n: ARRLEN[t] = n
    return [(st, t)]

def rng_bounds(E, st, v, L):
    """(from, to) of a range value used as an index"""
    tag = v.args[0] if v.op == "agg" else None
    n = tag[1].split("::")[-1] if tag and tag[0] == "adt" else None
    f = v.args[1] if v.op == "agg" else ()
    if n == "RangeFull": return ZERO, L
    if n == "RangeFrom": return f[0], L
    if n == "RangeTo": return ZERO, f[0]
    if n == "Range": return f[0], f[1]
    if n == "RangeInclusive": return f[0], addc(f[1], 1)
    if n == "RangeToInclusive": return ZERO, addc(f[0], 1)
    return None

def seq_of(E, st, p):
    """(ref to first element's array place, length) of a pointer to a sequence"""
    if p.op == "slice": return p.args[0], p.args[1]
    v = E.deref(st, p)
    if v.op in ("slice",): return v.args[0], v.args[1]
    if v.op in ("ref", "boxv", "guard"): return seq_of(E, st, v)
    if p.op != "ref":
        L = raw("len", raw("pt", p)); RANGE.setdefault(L, (0, 2**63))
        return p, L
    return p, arrlen(v)

@model("Index::index", "IndexMut::index_mut", "SliceIndex::index", "SliceIndex::index_mut")
def _(E, st, c, a, fr):
    base, L = seq_of(E, st, a[0])
    v = E.deref(st, a[0])
    if v.op in ("bm", "bretain") or "Map" in (selfty(E, c) or {}).get("path", ""):
        return bm_get_index(E, st, a[0], v, a[1])
    b = rng_bounds(E, st, a[1], L)
    if b is None:
        if a[1].op == "agg": return None
        if not E.assume(st, lt(a[1], L)): return []
        return [(st, E.ext(base, ("i", a[1])))]
    f, t = b
    if not E.assume(st, le(f, t)): return []
    if not E.assume(st, le(t, L)): return []
    return [(st, slc(E.ext(base, ("sub", f)) if f is not ZERO else base, sub(t, f)))]

# ------------------------------------------------------------------ slices, arrays, Vec
@model("slice::len", "Vec::len", "array::len", "str::len")
def _(E, st, c, a, fr): return [(st, seq_of(E, st, a[0])[1])]
@model("slice::is_empty", "Vec::is_empty", "str::is_empty")
def _(E, st, c, a, fr): return [(st, eq0(seq_of(E, st, a[0])[1]))]
@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    return [(st, it(raw("c_slc", b, L)))]
@model("array::as_slice", "Vec::as_slice", "array::as_mut_slice", "Vec::as_mut_slice", "array::each_ref")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    return [(st, slc(b, L))]

@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    out = []
    for s, t in E.branch(st, eq0(L)):
        if t: out.append((s, NONE))
        else: out.append((s, Some(E.ext(b, ("i", ZERO if c["name"].startswith("first") else addc(L, -1))))))
    return out

@model("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    r = rng_bounds(E, st, a[1], L)
    out = []
    if r is not None:
        f, t = r
        for s, ok in E.branch(st, and_(le(f, t), le(t, L))):
            out.append((s, Some(slc(E.ext(b, ("sub", f)) if f is not ZERO else b, sub(t, f))) if ok else NONE))
        return out
    for s, t in E.branch(st, lt(a[1], L)): out.append((s, Some(E.ext(b, ("i", a[1]))) if t else NONE))
    return out

def full_array(E, st, p):
    """explicit element list of a short array behind p, with its place"""
    b, L = seq_of(E, st, p)
    n = cval(L)
    if n is None or n > 64: return None
    r, pa = E.ptr(b)
    return r, pa, n

def elems(E, st, r, pa, n):
    return [E.read(st, r, E.norm_path(pa + (("i", I(k)),))) for k in range(n)]

def put_elems(E, st, r, pa, vals):
    if pa and pa[-1][0] == "sub":
        for k, v in enumerate(vals): E.write(st, r, E.norm_path(pa + (("i", I(k)),)), v)
    else:
        E.write(st, r, pa, norm_arr(E, st, E.read(st, r, pa), vals))

def norm_arr(E, st, old, vals):
    if all(v is sel(old, I(k)) for k, v in enumerate(vals)): return old
    return arr(vals)

@model("slice::rotate_right", "slice::rotate_left")
def _(E, st, c, a, fr):
    f = full_array(E, st, a[0])
    k = cval(a[1])
    if f is None or k is None:
        r, pa = E.ptr(a[0]); E.write(st, r, pa, E.fresh("rot")); return [(st, UNIT)]
    r, pa, n = f
    v = elems(E, st, r, pa, n)
    if n:
        k %= n
        v = v[-k:] + v[:-k] if c["name"].endswith("right") and k else v[k:] + v[:k]
    put_elems(E, st, r, pa, v)
    return [(st, UNIT)]

@model("slice::reverse")
def _(E, st, c, a, fr):
    f = full_array(E, st, a[0])
    if f is None: return None
    r, pa, n = f
    put_elems(E, st, r, pa, elems(E, st, r, pa, n)[::-1])
    return [(st, UNIT)]

@model("slice::swap")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    for i in a[1:3]:
        if not E.assume(st, lt(i, L)): return []
    p, q = E.ext(b, ("i", a[1])), E.ext(b, ("i", a[2]))
    x, y = E.deref(st, p), E.deref(st, q)
    E.write(st, *E.ptr(p), y); E.write(st, *E.ptr(q), x)
    return [(st, UNIT)]

@model("mem::swap")
def _(E, st, c, a, fr):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    E.write(st, *E.ptr(a[0]), y); E.write(st, *E.ptr(a[1]), x)
    return [(st, UNIT)]

@model("mem::take")
def _(E, st, c, a, fr):
    x = E.deref(st, a[0])
    E.write(st, *E.ptr(a[0]), default_of(E, gty(E, c, 0)))
    return [(st, x)]

@model("slice::copy_within")
def _(E, st, c, a, fr):
    f = full_array(E, st, a[0])
    if f is None: return None
    r, pa, n = f
    b = rng_bounds(E, st, a[1], I(n))
    if b is None or cval(b[0]) is None or cval(b[1]) is None or cval(a[2]) is None: return None
    v = elems(E, st, r, pa, n)
    x, y, d = cval(b[0]), cval(b[1]), cval(a[2])
    w = list(v)
    w[d:d + y - x] = v[x:y]
    if len(w) != n: return []
    put_elems(E, st, r, pa, w)
    return [(st, UNIT)]

@model("slice::copy_from_slice", "slice::clone_from_slice")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    b2, L2 = seq_of(E, st, a[1])
    if not E.assume(st, eq0(sub(L, L2))): return []
    r, pa = E.ptr(b)
    src = E.deref(st, b2)
    n = cval(L)
    if n is not None and n <= 64 and ((pa and pa[-1][0] == "sub") or src.op == "subv"):
        r2, pa2 = E.ptr(b2)
        put_elems(E, st, r, pa, elems(E, st, r2, pa2, n))
    elif pa and pa[-1][0] == "sub": E.write(st, r, pa[:-1], E.fresh("copied"))
    else: E.write(st, r, pa, src)
    return [(st, UNIT)]

@model("slice::fill")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    r, pa = E.ptr(b)
    if pa and pa[-1][0] == "sub":
        n = cval(L)
        if n is None or n > 64: E.write(st, r, pa[:-1], E.fresh("fill"))
        else: put_elems(E, st, r, pa, [a[1]] * n)
    else: E.write(st, r, pa, raw("rep", a[1], L))
    return [(st, UNIT)]

@model("slice::to_vec", "slice::into_vec", "slice::to_owned")
def _(E, st, c, a, fr):
    p = a[0]
    b, L = seq_of(E, st, p)
    v = E.deref(st, b)
    if v.op == "subv":
        n = cval(L)
        if n is not None and n <= 64:
            r, pa = E.ptr(b)
            return [(st, arr(elems(E, st, r, pa, n)))]
    return [(st, v)]

@model("slice::contains")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    T = gty(E, c, 0)
    x = E.deref(st, a[1])
    def f(s, e):
        return [("hit" if t else "cont", s2, None) for s2, t in E.branch(s, eqv(E, s, E.deref(s, e), x, T))]
    return [(s, TRUE if tag == "hit" else FALSE) for s, tag, _ in iter_loop(E, st, it(raw("c_slc", b, L)), f)]

@model("array::map")
def _(E, st, c, a, fr):
    v = a[0]
    n = cval(arrlen(v))
    if n is None: return None
    if n <= 12:
        states = [(st, [])]
        for k in range(n):
            nx = []
            for s, vs in states:
                for s2, r in E.call_value(s, a[1], [sel(v, I(k))], fr.depth): nx.append((s2, vs + [r]))
            states = nx
            if len(states) > 32: return [(st, E.fresh("amap"))]
        return [(s, arr(vs)) for s, vs in states]
    return [(st, E.fresh("amap"))]

@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity")
def _(E, st, c, a, fr): return [(st, arr(()))]

@model("Vec::push")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    if v.op == "agg": x = arr(v.args[1] + (a[1],))
    else: x = raw("append", v, a[1])
    E.write(st, *E.ptr(a[0]), x)
    return [(st, UNIT)]

@model("Extend::extend", "Vec::extend_from_slice", "Vec::append")
def _(E, st, c, a, fr):
    if not E.eager: return None
    out = []
    r, pa = E.ptr(a[0])
    for s0, t in as_it(E, st, a[1]):
        for s, vs in drain(E, s0, t):
            v = E.read(s, r, pa)
            if v.op != "agg": return None
            if c["name"] != "extend": vs = tuple(E.deref(s, x) if x.op == "ref" else x for x in vs)
            E.write(s, r, pa, arr(v.args[1] + vs))
            if c["name"] == "append": E.write(s, *E.ptr(a[1]), arr(()))
            out.append((s, UNIT))
    return out

@model("Vec::insert")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    k = cval(a[1])
    if v.op != "agg" or k is None or not 0 <= k <= len(v.args[1]): return None
    E.write(st, *E.ptr(a[0]), arr(v.args[1][:k] + (a[2],) + v.args[1][k:]))
    return [(st, UNIT)]

@model("Vec::pop")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    if v.op == "agg":
        if not v.args[1]: return [(st, NONE)]
        E.write(st, *E.ptr(a[0]), arr(v.args[1][:-1]))
        return [(st, Some(v.args[1][-1]))]
    if v.op == "append":
        E.write(st, *E.ptr(a[0]), v.args[0])
        return [(st, Some(v.args[1]))]
    return None

@model("Box::new", "Rc::new")
def _(E, st, c, a, fr):
    r = raw("tmp", "box", next(E.uid))
    st.mem[r] = a[0]
    return [(st, raw("boxv", ref(r)))]

@model("boxed::box_assume_init_into_vec_unsafe", "boxed::box_new")
def _(E, st, c, a, fr):
    v = E.deep(st, a[0])
    for _ in range(8):
        if v.op == "agg" and v.args[0][0] == "adt" and len(v.args[1]) == 1: v = v.args[1][0]
        elif v.op == "pundef" and len(v.args[0]) == 1: v = v.args[0][0][1]
        else: break
    return [(st, v)]

@model("Box::new_uninit")
def _(E, st, c, a, fr):
    r = raw("tmp", "box", next(E.uid))
    return [(st, raw("boxv", ref(r)))]

@model("mem::size_of")
def _(E, st, c, a, fr):
    T = gty(E, c, 0)
    n = E.p.sizes.get(T.get("path")) if T and T["k"] == "adt" else None
    if T and T["k"] == "adt" and T["path"].endswith("::Pubkey"): n = 32
    if T and T["k"] == "prim": n = {"u8": 1, "bool": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}.get(T["s"])
    if n is None: return None
    return [(st, I(n))]

@model("mem::drop", "mem::forget", "log::sol_log", "log::sol_log_compute_units", "Error::log")
def _(E, st, c, a, fr): return [(st, UNIT)]
@model("hint::must_use", "convert::identity", "hint::black_box")
def _(E, st, c, a, fr): return [(st, a[0])]

@model("fmt::format", "Arguments::new", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str", "Argument::new_display",
       "Argument::new_debug", "ToString::to_string", "Error::with_account_name", "Error::with_pubkeys", "Error::with_values",
       "Error::with_source")
def _(E, st, c, a, fr):
    if c["name"] == "to_string":
        v = E.deep(st, a[0])
        if v.op == "cbytes": return [(st, v)]
    if c["name"].startswith("with_"): return [(st, raw("error"))]
    return [(st, raw("text"))]

@model("panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display", "option::unwrap_failed",
       "result::unwrap_failed", "panicking::unreachable_display", "option::expect_failed")
def _(E, st, c, a, fr):
    E.may_panic(st, FALSE, fr.body.id)
    return []

@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(E, st, c, a, fr):
    args = list(a[1].args[1]) if a[1].op == "agg" else [a[1]]
    return E.call_value(st, a[0], args, fr.depth)

@model("bool::then", "bool::then_some")
def _(E, st, c, a, fr):
    out = []
    for s, t in E.branch(st, a[0]):
        if not t: out.append((s, NONE))
        elif c["name"] == "then_some": out.append((s, Some(a[1])))
        else: out += [(s2, Some(v)) for s2, v in E.call_value(s, a[1], [], fr.depth)]
    return out

# ------------------------------------------------------------------ BTreeMap
@model("BTreeMap::new", "HashMap::new")
def _(E, st, c, a, fr): return [(st, raw("bm", raw("bempty"), ()))]

def bkey(E, st, k): return E.deep(st, k)

def bm_find(E, st, v, k): return E.bm_find(st, v, k)

def bmv(v):
    """values that stand for maps/sets of unknown content are maps over themselves"""
    return v

@model("BTreeMap::insert", "HashMap::insert")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    known, old = E.bm_find(st, v, a[1])
    r, pa = E.ptr(a[0])
    E.write(st, r, pa + (("k", a[1]),), a[2])
    if known: return [(st, Some(old) if old is not None else NONE)]
    return [(st, raw("app", "BTreeMap::insert", (v, a[1])))]

def bm_branch(E, st, v, k):
    """[(state, present?)]"""
    known, x = E.bm_find(st, v, k)
    if known: return [(st, x is not None)]
    return E.branch(st, raw("bhas", v, k))

@model("BTreeMap::get", "HashMap::get", "BTreeMap::get_mut", "HashMap::get_mut")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    k = bkey(E, st, a[1])
    return [(s, Some(E.ext(a[0], ("k", k))) if t else NONE) for s, t in bm_branch(E, st, v, k)]

@model("BTreeMap::contains_key", "HashMap::contains_key", "BTreeSet::contains", "HashSet::contains")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0]); k = bkey(E, st, a[1])
    known, x = E.bm_find(st, v, k)
    if known: return [(st, mbool(x is not None))]
    return [(st, raw("bhas", v, k))]

@model("BTreeMap::entry", "HashMap::entry")
def _(E, st, c, a, fr): return [(st, raw("bentry", a[0], a[1]))]

@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")
def _(E, st, c, a, fr):
    if a[0].op != "bentry": return None
    p, k = a[0].args
    v = E.deref(st, p)
    out = []
    for s, t in bm_branch(E, st, v, k):
        q = E.ext(p, ("k", k))
        if t: out.append((s, q)); continue
        n = c["name"]
        if n == "or_insert": vs = [(s, a[1])]
        elif n == "or_insert_with": vs = E.call_value(s, a[1], [], fr.depth)
        else: vs = [(s, default_of(E, gty(E, c, len(c["args"]) - 1) if gty(E, c, len(c["args"]) - 1)["k"] != "?" else gty(E, c, 1)))]
        for s2, x in vs:
            E.write(s2, *E.ptr(q), x)
            out.append((s2, q))
    return out

@model("Entry::and_modify")
def _(E, st, c, a, fr):
    if a[0].op != "bentry": return None
    p, k = a[0].args
    out = []
    for s, t in bm_branch(E, st, E.deref(st, p), k):
        if not t: out.append((s, a[0])); continue
        out += [(s2, a[0]) for s2, _ in E.call_value(s, a[1], [E.ext(p, ("k", k))], fr.depth)]
    return out

@model("BTreeMap::retain", "HashMap::retain")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    E.write(st, *E.ptr(a[0]), raw("bretain", v, a[1]))
    return [(st, UNIT)]

@model("BTreeMap::remove", "HashMap::remove")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0]); k = bkey(E, st, a[1])
    out = []
    for s, t in bm_branch(E, st, v, k):
        x = E.bm_read(s, v, k)
        r, pa = E.ptr(a[0])
        E.write(s, r, pa + (("k", k),), raw("absent"))
        out.append((s, Some(x) if t else NONE))
    return out

def bm_seq(v):
    """the map's entries as an opaque ordered sequence"""
    return raw("bseq", v)

@model("BTreeMap::iter", "HashMap::iter", "BTreeMap::iter_mut", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::values_mut",
       "BTreeSet::iter", "BTreeMap::into_iter", "BTreeMap::into_keys", "BTreeMap::into_values", "HashMap::keys", "HashMap::values")
def _(E, st, c, a, fr):
    n = c["name"].replace("into_", "")
    p = a[0] if a[0].op == "ref" else cobj(a[0])
    kind = {"keys": "k", "values": "v", "iter": "kv", "values_mut": "v", "iter_mut": "kv"}[n]
    if "BTreeSet" in (c.get("rpath") or c["fn"]): kind = "k"
    return [(st, it(raw("c_bm", p, E.deref(st, p), kind, c["name"].startswith("into"))))]

@model("BTreeMap::len", "BTreeSet::len", "HashMap::len", "HashSet::len", "BTreeMap::is_empty", "BTreeSet::is_empty")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    L = bm_len(E, st, v)
    return [(st, L if c["name"] == "len" else eq0(L))]

def bm_len(E, st, v):
    if v.op == "bm" and v.args[0].op == "bempty" and not v.args[1]: return ZERO
    t = raw("len", v); RANGE.setdefault(t, (0, 2**62))
    return t

@model("BTreeSet::new", "HashSet::new")
def _(E, st, c, a, fr): return [(st, raw("bm", raw("bempty"), ()))]

@model("BTreeSet::insert", "HashSet::insert")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0])
    out = []
    for s, t in bm_branch(E, st, v, a[1]):
        if not t:
            r, pa = E.ptr(a[0])
            E.write(s, r, pa + (("k", a[1]),), UNIT)
        out.append((s, mbool(not t)))
    return out

def bm_get_index(E, st, p, v, k):
    k = bkey(E, st, k)
    known, x = E.bm_find(st, v, k)
    if known and x is None: return []
    if not known and not E.assume(st, raw("bhas", v, k)): return []
    return [(st, E.ext(p, ("k", k)))]

# ------------------------------------------------------------------ iterators
def it(ch, pos=ZERO): return raw("it", ch, pos)

def clen(E, st, ch):
    """length term, or None when endless"""
    op, a = ch.op, ch.args
    if op in ("c_slc", "c_val", "c_rng", "c_take"): return a[1]
    if op == "c_once": return ONE
    if op in ("c_rep", "c_repwith", "c_cyc"): return None
    if op in ("c_rev", "c_enum", "c_map", "c_copy", "c_inspect"): return clen(E, st, a[0])
    if op == "c_off":
        n = clen(E, st, a[0])
        return None if n is None else sub(n, a[1])
    if op == "c_chain":
        x, y = clen(E, st, a[0]), clen(E, st, a[1])
        return None if x is None or y is None else add(x, y)
    if op == "c_zip": return a[2] if a[2] is not None else None
    if op == "c_win": return addc(sub(a[1], a[2]), 1)
    if op == "c_step": return a[2]
    if op == "c_opq":
        t = raw("len", a[0]); RANGE.setdefault(t, (0, 2**63)); return t
    if op == "c_bm": return bm_len(E, st, a[1])
    if op == "c_chunks": return a[3]
    raise Imprecise("chain " + op)

def rev_index(L, j):
    if j.op == "rem" and j.args[1] is L and cval(L) is not None:
        return rem(addc(neg(j.args[0]), -1), L)
    return sub(addc(L, -1), j)

def celem(E, st, ch, j):
    """[(st, value)]"""
    op, a = ch.op, ch.args
    if op == "c_slc": return [(st, E.ext(a[0], ("i", j)))]
    if op == "c_val": return [(st, sel(a[0], j, E.dec(st)))]
    if op == "c_rng": return [(st, add(a[0], j))]
    if op in ("c_once", "c_rep"): return [(st, a[0])]
    if op == "c_repwith": return E.call_value(st, a[0], [])
    if op == "c_rev": return celem(E, st, a[0], rev_index(clen(E, st, a[0]), j))
    if op == "c_enum": return [(s, tup(j, v)) for s, v in celem(E, st, a[0], j)]
    if op == "c_map":
        out = []
        for s, v in celem(E, st, a[0], j): out += E.call_value(s, a[1], [v])
        return out
    if op == "c_inspect": return celem(E, st, a[0], j)
    if op == "c_copy": return [(s, E.deref(s, v)) for s, v in celem(E, st, a[0], j)]
    if op == "c_cyc":
        L = clen(E, st, a[0])
        return celem(E, st, a[0], rem(j, L))
    if op == "c_off": return celem(E, st, a[0], add(j, a[1]))
    if op == "c_take": return celem(E, st, a[0], j)
    if op == "c_chain":
        L = clen(E, st, a[0])
        out = []
        for s, t in E.branch(st, lt(j, L)):
            out += celem(E, s, a[0], j) if t else celem(E, s, a[1], sub(j, L))
        return out
    if op == "c_zip":
        out = []
        for s, x in celem(E, st, a[0], j):
            for s2, y in celem(E, s, a[1], j): out.append((s2, tup(x, y)))
        return out
    if op == "c_win": return [(st, slc(E.ext(a[0], ("sub", j)), a[2]))]
    if op == "c_step": return celem(E, st, a[0], mul(j, a[1]))
    if op == "c_opq": return [(st, raw("elem", a[0], j))]
    if op == "c_bm":
        if E.eager and a[1].op == "bm" and a[1].args[0].op == "bempty": return bm_elem(E, st, ch, j)
        p, v, kind, owned = a
        k = raw("bkey", v, j)
        if not E.assume(st, raw("bhas", v, k)) : return []
        kp = k if owned else cobj(k)
        vp = (E.bm_read(st, v, k) if owned else E.ext(p, ("k", k)))
        return [(st, kp if kind == "k" else vp if kind == "v" else tup(kp, vp))]
    if op == "c_chunks":
        b, L, n, cnt = a
        off = mul(j, n)
        rest = sub(L, off)
        return [(s, slc(E.ext(b, ("sub", off)), n if t else rest)) for s, t in E.branch(st, le(n, rest))]
    raise Imprecise("chain " + op)

def as_it(E, st, v):
    """[(st, iterator term)]"""
    if v.op in ("it", "itw"): return [(st, v)]
    if v.op == "agg" and v.args[0][0] == "adt":
        n = v.args[0][1].split("::")[-1]
        f = v.args[1]
        if n in ("Range", "RangeInclusive") and isint(f[0]):
            a, b = f[0], f[1] if n == "Range" else addc(f[1], 1)
            out = []
            for s, t in E.branch(st, le(a, b)): out.append((s, it(raw("c_rng", a, sub(b, a) if t else ZERO))))
            return out
        if n == "RangeFrom": return [(st, it(raw("c_off", raw("c_rng", ZERO, I(2**62)), f[0])))]
        if v.args[0][1] == OPT:
            return [(st, it(raw("c_once", f[0]) if v.args[0][2] else raw("c_val", arr(()), ZERO)))]
    if v.op in ("agg", "rep", "store", "comp", "mapped", "append") : return [(st, it(raw("c_val", v, arrlen(v))))]
    if v.op in ("bm", "bretain"): return [(st, it(raw("c_bm", cobj(v), v, "kv", True)))]
    if v.op in ("slice",): return [(st, it(raw("c_slc", v.args[0], v.args[1])))]
    if v.op == "ref":
        x = E.deref(st, v)
        if x.op in ("it", "itw"): return [(st, x)]
        if x.op in ("bm", "bretain"): return [(st, it(raw("c_bm", v, x, "kv", False)))]
        b, L = seq_of(E, st, v)
        return [(st, it(raw("c_slc", b, L)))]
    return [(st, it(raw("c_opq", v)))]

def inext(E, st, t):
    """[(st, new iterator, element | None | SKIP)]"""
    if t.op == "it":
        ch, pos = t.args
        L = clen(E, st, ch)
        out = []
        for s, more in E.branch(st, lt(pos, L) if L is not None else TRUE):
            if not more: out.append((s, t, None)); continue
            for s2, v in celem(E, s, ch, pos): out.append((s2, raw("it", ch, addc(pos, 1)), v))
        return out
    if t.op == "itw":
        kind, inner, x = t.args
        out = []
        for s, i2, v in inext(E, st, inner):
            w = raw("itw", kind, i2, x)
            if v is None or v is SKIP: out.append((s, w, v)); continue
            if kind == "map": out += [(s2, w, r) for s2, r in E.call_value(s, x, [v])]
            elif kind == "copied": out.append((s, w, E.deref(s, v)))
            elif kind == "filter":
                for s2, r in E.call_value(s, x, [cobj(v)]):
                    for s3, b in E.branch(s2, r): out.append((s3, w, v if b else SKIP))
            elif kind == "filter_map":
                for s2, r in E.call_value(s, x, [v]):
                    for s3, p in E.opt(s2, r): out.append((s3, w, p if p is not None else SKIP))
            elif kind == "take_while":
                for s2, r in E.call_value(s, x, [cobj(v)]):
                    for s3, b in E.branch(s2, r): out.append((s3, w, v) if b else (s3, it(raw("c_val", arr(()), ZERO)), None))
            elif kind == "map_while":
                for s2, r in E.call_value(s, x, [v]):
                    for s3, p in E.opt(s2, r): out.append((s3, w, p) if p is not None else (s3, it(raw("c_val", arr(()), ZERO)), None))
            elif kind == "skip_while":
                # x = (closure, done flag)
                clo, done = x.args[1]
                for s1, dn in E.branch(s, done):
                    if dn: out.append((s1, w, v)); continue
                    for s2, r in E.call_value(s1, clo, [cobj(v)]):
                        for s3, b in E.branch(s2, r):
                            if b: out.append((s3, w, SKIP))
                            else: out.append((s3, raw("itw", kind, i2, tup(clo, TRUE)), v))
            elif kind == "enumerate":
                out.append((s, raw("itw", kind, i2, addc(x, 1)), tup(x, v)))
            elif kind == "inspect": out.append((s, w, v))
            elif kind == "take":
                for s2, b in E.branch(s, lt(ZERO, x)):
                    out.append((s2, raw("itw", kind, i2, addc(x, -1)), v) if b else (s2, it(raw("c_val", arr(()), ZERO)), None))
            elif kind == "skip":
                for s2, b in E.branch(s, lt(ZERO, x)):
                    out.append((s2, raw("itw", kind, i2, addc(x, -1)), SKIP) if b else (s2, w, v))
            else: raise Imprecise("iterator " + kind)
        return out
    out = []
    # unknown iterator: some element or the end
    x = E.fresh("item")
    for s, b in E.branch(st, raw("more", E.fresh("it"))): out.append((s, t, x if b else None))
    return out

def indexable(t): return t.op == "it"

def inext_full(E, st, t):
    """inext without skipped elements, followed step by step"""
    out, work = [], [(st, t)]
    for _ in range(64):
        nxt = []
        for s, t in work:
            for s2, ni, v in inext(E, s, t):
                if v is SKIP: nxt.append((s2, ni))
                else: out.append((s2, ni, v))
        if not nxt: return out
        work = nxt
    raise Imprecise("iterator skips too far")

def drain(E, st, t):
    """[(state, elements)] of an iterator followed to its end"""
    out, work = [], [(st.copy(), t, ())]
    for _ in range(64):
        nxt = []
        for s, t, vs in work:
            for s2, ni, v in inext_full(E, s.copy(), t):
                if v is None: out.append((s2, vs))
                else: nxt.append((s2, ni, vs + (v,)))
        if not nxt: return out
        if len(nxt) + len(out) > E.max_states: raise Imprecise("too many cases")
        work = nxt
    raise Imprecise("iterator too long")

def ended(E, st, t):
    """iterators with the same elements, already computed"""
    return [(s, it(raw("c_val", arr(vs), I(len(vs))))) for s, vs in drain(E, st, t)]

def iter_loop(E, st, itv, fn, place=None):
    """run fn(st, elem) -> [("cont", st, _) | (tag, st, value)] over the iterator;
    returns [(st, "done"|tag, value)]"""
    root, path = place if place else (raw("tmp", "it", next(E.uid)), ())
    E.write(st, root, path, itv)
    def body(s):
        res = []
        cur = E.read(s, root, path)
        for s2, ni, v in inext(E, s, cur):
            E.write(s2, root, path, ni)
            if v is None: res.append(("exit", s2, ("done", None)))
            elif v is SKIP: res.append(("back", s2, None))
            else:
                for tag, s3, val in fn(s2, v):
                    if tag == "cont": res.append(("back", s3, None))
                    else: res.append(("exit", s3, (tag, val)))
        return res
    outs = E.loop(st, body)
    return [(s, t[0], t[1]) for s, t in outs]

@model("IntoIterator::into_iter")
def _(E, st, c, a, fr):
    T = selfty(E, c)
    v = a[0]
    if v.op not in ("it", "itw") and T and T["k"] == "adt" and T["path"].endswith(("Vec",)) and v.op not in ("ref",):
        return [(st, it(raw("c_val", v, arrlen(v))))]
    if v.op not in ("it", "itw") and T and T["k"] == "array":
        return [(st, it(raw("c_val", v, I(T["len"]))))]
    R = peel(E, T)
    if v.op not in ("it", "itw") and R and R["k"] == "adt" and R["path"].split("::")[-1] in ("BTreeMap", "BTreeSet", "HashMap"):
        kind = "k" if R["path"].endswith("Set") else "kv"
        owned = T["k"] != "ref"
        p = cobj(v) if owned else v
        return [(st, it(raw("c_bm", p, E.deref(st, p), kind, owned)))]
    return as_it(E, st, v)

@model("Iterator::by_ref")
def _(E, st, c, a, fr): return [(st, a[0])]

@model("Iterator::next")
def _(E, st, c, a, fr):
    r, pa = E.ptr(a[0])
    v = E.read(st, r, pa)
    out = []
    for s0, t in as_it(E, st, v):
        for s, ni, x in (inext_full if E.eager else inext)(E, s0, t):
            E.write(s, r, pa, ni)
            if x is SKIP: out.append((s, SKIP))
            else: out.append((s, Some(x) if x is not None else NONE))
    if any(x is SKIP for _, x in out) and not E.loop_stack:
        # outside any loop: advance to the first element that is not skipped
        s1 = st
        res = []
        def f(s, e): return [("hit", s, e)]
        for s, tag, val in iter_loop(E, s1, t, f, (r, pa)): res.append((s, Some(val) if tag == "hit" else NONE))
        return res
    return out

@model("DoubleEndedIterator::next_back")
def _(E, st, c, a, fr):
    r, pa = E.ptr(a[0])
    out = []
    its = as_it(E, st, E.read(st, r, pa))
    if E.eager: its = [x for s, t in its for x in ([(s, t)] if t.op == "it" else ended(E, s, t))]
    for s0, t in its:
        if t.op != "it" or clen(E, s0, t.args[0]) is None: return None
        ch, pos = t.args
        L = clen(E, s0, ch)
        for s, more in E.branch(s0, lt(pos, L)):
            if not more: out.append((s, NONE)); continue
            for s2, v in celem(E, s, ch, addc(L, -1)):
                E.write(s2, r, pa, it(raw("c_take", ch, addc(L, -1)), pos))
                out.append((s2, Some(v)))
    return out

def wrapit(kind):
    chain = {"map": "c_map", "enumerate": "c_enum", "rev": "c_rev", "copied": "c_copy", "cloned": "c_copy", "cycle": "c_cyc", "inspect": "c_inspect"}
    def f(E, st, c, a, fr):
        out = []
        its = as_it(E, st, a[0])
        if E.eager and kind in ("rev", "cycle", "enumerate"): its = [x for s, t in its for x in ([(s, t)] if t.op == "it" else ended(E, s, t))]
        for s, t in its:
            if t.op == "it":
                ch, pos = t.args
                base = ch if pos is ZERO else raw("c_off", ch, pos)
                if kind in ("map", "inspect"): r = it(raw(chain[kind], base, a[1]))
                elif kind in ("enumerate", "copied", "cloned", "cycle"): r = it(raw(chain[kind], base))
                elif kind == "rev":
                    if clen(E, s, base) is None: return None
                    r = it(raw("c_rev", base))
                else: raise Imprecise(kind)
            else:
                k = {"copied": "copied", "cloned": "copied"}.get(kind, kind)
                if k == "enumerate": r = raw("itw", k, t, ZERO)
                elif k in ("map", "inspect"): r = raw("itw", k, t, a[1])
                elif k == "copied": r = raw("itw", k, t, UNIT)
                elif k == "rev":
                    # reversing a wrapper reverses what it wraps
                    r = rev_wrap(E, s, t)
                    if r is None: r = E.fresh("iter")
                else: r = E.fresh("iter")
            out.append((s, r))
        return out
    return f

def rev_wrap(E, s, t):
    if t.op == "it":
        ch, pos = t.args
        base = ch if pos is ZERO else raw("c_off", ch, pos)
        return it(raw("c_rev", base)) if clen(E, s, base) is not None else None
    if t.op == "itw" and t.args[0] in ("map", "filter", "filter_map", "copied", "inspect"):
        r = rev_wrap(E, s, t.args[1])
        return raw("itw", t.args[0], r, t.args[2]) if r is not None else None
    return None

for k_ in ("map", "enumerate", "rev", "copied", "cloned", "cycle", "inspect"): M["Iterator::" + k_] = wrapit(k_)

def wrapf(kind):
    def f(E, st, c, a, fr):
        return [(s, raw("itw", kind, t, tup(a[1], FALSE) if kind == "skip_while" else a[1])) for s, t in as_it(E, st, a[0])]
    return f
for k_ in ("filter", "filter_map", "take_while", "map_while", "skip_while"): M["Iterator::" + k_] = wrapf(k_)

@model("Iterator::skip")
def _(E, st, c, a, fr):
    return [(s, raw("it", t.args[0], add(t.args[1], a[1])) if t.op == "it" else raw("itw", "skip", t, a[1])) for s, t in as_it(E, st, a[0])]

@model("Iterator::take")
def _(E, st, c, a, fr):
    out = []
    for s, t in as_it(E, st, a[0]):
        if t.op != "it": out.append((s, raw("itw", "take", t, a[1]))); continue
        ch, pos = t.args
        base = ch if pos is ZERO else raw("c_off", ch, pos)
        L = clen(E, s, base)
        if L is None: out.append((s, it(raw("c_take", base, a[1])))); continue
        for s2, b in E.branch(s, le(a[1], L)): out.append((s2, it(raw("c_take", base, a[1] if b else L))))
    return out

@model("Iterator::step_by")
def _(E, st, c, a, fr):
    out = []
    for s, t in as_it(E, st, a[0]):
        n = cval(a[1])
        if t.op != "it" or not n: return None
        base = t.args[0] if t.args[1] is ZERO else raw("c_off", t.args[0], t.args[1])
        L = clen(E, s, base)
        out.append((s, it(raw("c_step", base, a[1], div(addc(L, n - 1), a[1])))))
    return out

@model("Iterator::chain")
def _(E, st, c, a, fr):
    out = []
    ended_ = lambda l: [x for s, t in l for x in ([(s, t)] if t.op == "it" or not E.eager else ended(E, s, t))]
    for s, x in ended_(as_it(E, st, a[0])):
        for s2, y in ended_(as_it(E, s, a[1])):
            if x.op == "it" and y.op == "it" and clen(E, s2, x.args[0]) is not None:
                f = lambda t: t.args[0] if t.args[1] is ZERO else raw("c_off", t.args[0], t.args[1])
                out.append((s2, it(raw("c_chain", f(x), f(y)))))
            else: out.append((s2, E.fresh("iter")))
    return out

@model("Iterator::zip", "iter::zip")
def _(E, st, c, a, fr):
    out = []
    for s, x in as_it(E, st, a[0]):
        for s2, y in as_it(E, s, a[1]):
            if x.op == "it" and y.op == "it":
                f = lambda t: t.args[0] if t.args[1] is ZERO else raw("c_off", t.args[0], t.args[1])
                cx, cy = f(x), f(y)
                lx, ly = clen(E, s2, cx), clen(E, s2, cy)
                if lx is None or ly is None: out.append((s2, it(raw("c_zip", cx, cy, ly if lx is None else lx)))); continue
                for s3, b in E.branch(s2, le(lx, ly)): out.append((s3, it(raw("c_zip", cx, cy, lx if b else ly))))
            else: out.append((s2, E.fresh("iter")))
    return out

@model("slice::chunks", "slice::chunks_exact", "slice::chunks_mut", "slice::chunks_exact_mut")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    n = a[1]
    k = cval(n)
    if not k: return None
    if "exact" in c["name"]: cnt = div(L, n)
    else: cnt = div(addc(L, k - 1), n)
    # the quotient is bounded by its dividend
    if cnt.op == "div":
        RANGE[cnt] = (0, 2**62)
        X = cnt.args[0]
        E.assume(st, le(mul(cnt, n), X)); E.assume(st, le(X, addc(mul(cnt, n), k - 1)))
    return [(st, it(raw("c_chunks", b, L, n, cnt)))]

@model("slice::windows")
def _(E, st, c, a, fr):
    b, L = seq_of(E, st, a[0])
    return [(st, it(raw("c_win", b, L, a[1])))]

@model("once::once")
def _(E, st, c, a, fr): return [(st, it(raw("c_once", a[0])))]
@model("repeat::repeat")
def _(E, st, c, a, fr): return [(st, it(raw("c_rep", a[0])))]
@model("repeat_with::repeat_with")
def _(E, st, c, a, fr): return [(st, it(raw("c_repwith", a[0])))]
@model("repeat_n::repeat_n")
def _(E, st, c, a, fr): return [(st, it(raw("c_take", raw("c_rep", a[0]), a[1])))]
@model("empty::empty")
def _(E, st, c, a, fr): return [(st, it(raw("c_val", arr(()), ZERO)))]

def place_of_it(E, st, p):
    """iterator place behind a &mut iterator argument, normalised"""
    r, pa = E.ptr(p)
    v = E.read(st, r, pa)
    return r, pa, as_it(E, st, v)

def pred_loop(E, st, c, a, fr, on, byref=True):
    """on(st, elem, truth) -> (tag, value)"""
    r, pa, its = place_of_it(E, st, a[0])
    out = []
    for s0, t in its:
        def f(s, e):
            res = []
            for s2, v in E.call_value(s, a[1], [cobj(e) if byref else e], fr.depth):
                for s3, b in E.branch(s2, v): res.append(on(s3, e, b))
            return res
        out += iter_loop(E, s0, t, f, (r, pa))
    return out

@model("Iterator::any")
def _(E, st, c, a, fr):
    outs = pred_loop(E, st, c, a, fr, lambda s, e, b: ("hit", s, None) if b else ("cont", s, None), False)
    return [(s, TRUE if t == "hit" else FALSE) for s, t, _ in outs]
@model("Iterator::all")
def _(E, st, c, a, fr):
    outs = pred_loop(E, st, c, a, fr, lambda s, e, b: ("cont", s, None) if b else ("hit", s, None), False)
    return [(s, FALSE if t == "hit" else TRUE) for s, t, _ in outs]
@model("Iterator::find")
def _(E, st, c, a, fr):
    outs = pred_loop(E, st, c, a, fr, lambda s, e, b: ("hit", s, e) if b else ("cont", s, None), True)
    return [(s, Some(v) if t == "hit" else NONE) for s, t, v in outs]

@model("Iterator::find_map")
def _(E, st, c, a, fr):
    r, pa, its = place_of_it(E, st, a[0])
    out = []
    for s0, t in its:
        def f(s, e):
            res = []
            for s2, v in E.call_value(s, a[1], [e], fr.depth):
                for s3, p in E.opt(s2, v): res.append(("hit", s3, p) if p is not None else ("cont", s3, None))
            return res
        out += [(s, Some(v) if tg == "hit" else NONE) for s, tg, v in iter_loop(E, s0, t, f, (r, pa))]
    return out

def counted(E, st, c, a, fr, last=False):
    r, pa, its = place_of_it(E, st, a[0])
    out = []
    for s0, t in its:
        cnt = raw("tmp", "cnt", next(E.uid))
        s0.mem[cnt] = ZERO
        def f(s, e):
            res = []
            for s2, v in E.call_value(s, a[1], [e], fr.depth):
                for s3, b in E.branch(s2, v):
                    if b: res.append(("hit", s3, s3.mem[cnt]))
                    else:
                        s3.mem[cnt] = addc(s3.mem[cnt], 1)
                        res.append(("cont", s3, None))
            return res
        out += [(s, Some(v) if tg == "hit" else NONE) for s, tg, v in iter_loop(E, s0, t, f, (r, pa))]
    return out
M["Iterator::position"] = counted

@model("Iterator::for_each", "Iterator::try_for_each")
def _(E, st, c, a, fr):
    trying = c["name"] == "try_for_each"
    out = []
    its = place_of_it(E, st, a[0])[2] if trying else as_it(E, st, a[0])
    for s0, t in its:
        def f(s, e):
            res = []
            for s2, v in E.call_value(s, a[1], [e], fr.depth):
                if not trying: res.append(("cont", s2, None)); continue
                for s3, i in E.variant(s2, v, 2):
                    good = (i == 0) if not (v.op == "agg" and v.args[0][1] == OPT) else i == 1
                    res.append(("cont", s3, None) if good else ("hit", s3, v))
            return res
        for s, tg, v in iter_loop(E, s0, t, f): out.append((s, UNIT if not trying else Ok(UNIT) if tg == "done" else Err(raw("error"))))
    return out

def fold(E, st, c, a, fr):
    trying = c["name"] == "try_fold"
    out = []
    its = place_of_it(E, st, a[0])[2] if trying else as_it(E, st, a[0])
    for s0, t in its:
        acc = raw("tmp", "acc", next(E.uid))
        s0.mem[acc] = a[1]
        def f(s, e):
            res = []
            for s2, v in E.call_value(s, a[2], [s.mem[acc], e], fr.depth):
                if not trying:
                    s2.mem[acc] = v; res.append(("cont", s2, None)); continue
                opt_ = v.op == "agg" and v.args[0][1] == OPT
                for s3, i in E.variant(s2, v, 2):
                    if i == (1 if opt_ else 0):
                        s3.mem[acc] = get_vfield(v, i, 0); res.append(("cont", s3, None))
                    else: res.append(("hit", s3, NONE if opt_ else Err(raw("error"))))
            return res
        T = gty(E, c, len(c.get("args") or []) - 1)
        isop = T and T.get("path") == OPT
        for s, tg, v in iter_loop(E, s0, t, f):
            if not trying: out.append((s, s.mem[acc]))
            elif tg == "done": out.append((s, Some(s.mem[acc]) if isop else Ok(s.mem[acc])))
            else: out.append((s, v))
    return out
M["Iterator::fold"] = M["Iterator::try_fold"] = fold

@model("Iterator::count", "Iterator::sum", "Iterator::product", "Iterator::last", "Iterator::min", "Iterator::max",
       "Iterator::min_by_key", "Iterator::max_by_key", "Iterator::min_by", "Iterator::max_by", "ExactSizeIterator::len")
def _(E, st, c, a, fr):
    n = c["name"]
    out = []
    its = as_it(E, st, a[0]) if n != "len" else place_of_it(E, st, a[0])[2]
    for s0, t in its:
        if n in ("count", "len") and t.op == "it":
            L = clen(E, s0, t.args[0])
            if L is not None: out.append((s0, sub(L, t.args[1]))); continue
        if n == "last" and t.op == "it" and clen(E, s0, t.args[0]) is not None:
            L = clen(E, s0, t.args[0])
            for s, b in E.branch(s0, lt(t.args[1], L)):
                if not b: out.append((s, NONE))
                else: out += [(s2, Some(v)) for s2, v in celem(E, s, t.args[0], addc(L, -1))]
            continue
        r = E.fresh(n)
        if n in ("count", "len"): RANGE[r] = (0, 2**63)
        if n in ("sum", "product"): RANGE[r] = (0, 2**64 - 1)
        out.append((s0, r))
    return out

@model("Iterator::nth")
def _(E, st, c, a, fr):
    r, pa, its = place_of_it(E, st, a[0])
    out = []
    for s0, t in its:
        if t.op != "it": return None
        ch, pos = t.args
        p2 = add(pos, a[1])
        L = clen(E, s0, ch)
        for s, b in E.branch(s0, lt(p2, L) if L is not None else TRUE):
            if not b: out.append((s, NONE)); continue
            for s2, v in celem(E, s, ch, p2):
                E.write(s2, r, pa, raw("it", ch, addc(p2, 1)))
                out.append((s2, Some(v)))
    return out

def collect_seq(E, st, t):
    """array value of the remaining elements, or None"""
    if t.op != "it": return None
    ch, pos = t.args
    L = clen(E, st, ch)
    if L is None: return None
    n = sub(L, pos)
    k = cval(n)
    if k is not None and 0 <= k <= 16:
        vals = []
        ok = True
        s = st
        for q in range(k):
            o = celem(E, s.copy(), ch, addc(pos, q))
            if len(o) != 1 or o[0][0].mem != s.mem and not same_but_new(o[0][0].mem, s.mem): ok = False; break
            s = o[0][0]
            vals.append(o[0][1])
        if ok:
            st.facts = s.facts
            if vals and all(v is vals[0] for v in vals): return raw("rep", vals[0], n)
            return arr(vals)
    j = E.fresh("c", (0, 2**62))
    s = st.copy()
    s.facts = s.facts.add(lt(j, n)) or s.facts
    o = celem(E, s, ch, add(pos, j))
    if len(o) == 1 and same_but_new(o[0][0].mem, st.mem) and o[0][0].ev == st.ev:
        if any(x.op == "sk" and x.args[0] > j.args[0] for x in subterms(o[0][1])): return None
        r = raw("comp", n, subst(o[0][1], {j: CBV}))
        return r
    return None

def same_but_new(m2, m1):
    return all(m2.get(k) is v for k, v in m1.items())

def snapchain(E, st, t, d=0):
    """iterator with the memory it reads, for dependence tracking"""
    return raw("at", t, tuple(E.snapshot(st, x) for x in sorted(subterms(t), key=lambda x: x.id) if x.op in ("ref", "slice")))

@model("Iterator::collect", "FromIterator::from_iter")
def _(E, st, c, a, fr):
    a_ = c.get("args") or []
    D = E.p.types[a_[-1]] if a_ and c["name"] == "collect" else selfty(E, c)
    out = []
    last = lambda T: T["path"].split("::")[-1] if T and T["k"] == "adt" else ""
    res = last(D) in ("Result", "Option")
    inner = E.p.types[D["args"][0]] if res and D.get("args") else D
    its = as_it(E, st, a[0])
    if E.eager and not res and last(D) == "Vec": return [(s, arr(vs)) for s0, t in its for s, vs in drain(E, s0, t)]
    for s0, t in its:
        n = raw("collect", last(inner), snapchain(E, s0, t))
        L = clen(E, s0, t.args[0]) if t.op == "it" else None
        if L is not None:
            L = sub(L, t.args[1])
            if cval(L) is not None: ARRLEN[n] = cval(L)
            elif last(inner) in ("Vec", "Box"): s0.facts = s0.facts.add(eq0(sub(arrlen(n), L))) or s0.facts
        if not res:
            v = collect_seq(E, s0 if last(inner) in ("Vec", "Box") else s0.copy(), t) if last(inner) in ("Vec", "Box", "BTreeMap", "BTreeSet", "HashMap") else None
            if v is not None:
                out.append((s0, v if last(inner) in ("Vec", "Box") else raw("bm", raw("bmfrom" if "Map" in last(inner) else "bsfrom", v), ()))); continue
        elif t.op == "it":
            v = collect_res(E, s0, t, last(D))
            if v is not None:
                s1, val = v
                if last(inner) not in ("Vec", "Box"): val = raw("bm", raw("bmfrom" if "Map" in last(inner) else "bsfrom", val), ())
                out.append((s1, Ok(val) if last(D) == "Result" else Some(val)))
                out.append((s0.copy(), Err(raw("error")) if last(D) == "Result" else NONE))
                continue
        def f(s, e):
            if not res: return [("cont", s, None)]
            ok = 0 if last(D) == "Result" else 1
            return [("cont", s2, None) if i == ok else ("hit", s2, None) for s2, i in E.variant(s, e, 2)]
        for s, tg, v in iter_loop(E, s0, t, f):
            if res and last(D) == "Result": out.append((s, Ok(n) if tg == "done" else Err(raw("error"))))
            elif res: out.append((s, Some(n) if tg == "done" else NONE))
            else: out.append((s, n))
    return out

def collect_res(E, st, t, kind):
    """(state, sequence) of a fallible collection in which every element succeeded"""
    ch, pos = t.args
    L = clen(E, st, ch)
    if L is None: return None
    n = sub(L, pos)
    j = E.fresh("c", (0, 2**62))
    s = st.copy()
    f0 = s.facts.add(lt(j, n))
    if f0 is None: return st, arr(())
    s.facts = f0
    try: o = celem(E, s, ch, add(pos, j))
    except Imprecise: return None
    ok = 0 if kind == "Result" else 1
    good = []
    for s2, v in o:
        for s3, i in E.variant(s2, v, 2):
            if i == ok: good.append((s3, get_vfield(v, i, 0)))
    if len(good) != 1: return None
    g, v = good[0]
    if not same_but_new(g.mem, st.mem) or g.ev != st.ev: return None
    if any(x.op == "sk" and x.args[0] > j.args[0] for x in subterms(v)): return None
    fs = [q for q in g.facts.items if q not in f0.items]
    fs = [q for q in fs if not any(x.op == "sk" and x.args[0] > j.args[0] for x in subterms(q))]
    r = st.copy()
    if fs: r.facts = r.facts.add(raw("foralld", ZERO, n, (tuple(subst(q, {j: BV}) for q in fs),))) or r.facts
    return r, raw("comp", n, subst(v, {j: CBV}))

@model("Iterator::flatten", "Iterator::flat_map")
def _(E, st, c, a, fr):
    if E.eager:
        out = []
        for s0, t in as_it(E, st, a[0]):
            if len(a) > 1: t = raw("itw", "map", t, a[1])
            for s, vs in drain(E, s0, t):
                acc = [(s, ())]
                for v in vs:
                    acc = [(s3, xs + ys) for s1, xs in acc for s2, t2 in as_it(E, s1, v) for s3, ys in drain(E, s2, t2)]
                out += [(s1, it(raw("c_val", arr(xs), I(len(xs))))) for s1, xs in acc]
        return out
    return [(s, it(raw("c_opq", raw("flat", snapchain(E, s, t), *(a[1:]))))) for s, t in as_it(E, st, a[0])]

@model("Vec::pop")
def _(E, st, c, a, fr):
    r, pa = E.ptr(a[0])
    v = E.read(st, r, pa)
    L = arrlen(v)
    out = []
    for s, e in E.branch(st, eq0(L)):
        if e: out.append((s, NONE)); continue
        x = sel(v, addc(L, -1), E.dec(s))
        if v.op == "agg" and v.args[0] == ("array",):
            E.write(s, r, pa, arr(v.args[1][:-1]))
            out.append((s, Some(v.args[1][-1]))); continue
        E.write(s, r, pa, raw("vpop", v))
        nl = raw("len", raw("vpop", v)); RANGE.setdefault(nl, (0, 2**63))
        E.assume(s, eq0(add(sub(nl, L), ONE)))
        out.append((s, Some(x)))
    return out

@model("num::leading_zeros", "num::trailing_zeros", "num::count_ones")
def _(E, st, c, a, fr):
    t = raw(c["name"], a[0]); RANGE.setdefault(t, (0, 128))
    return [(st, t)]

# ------------------------------------------------------------------ ranges
@model("RangeInclusive::new")
def _(E, st, c, a, fr): return [(st, raw("agg", ("adt", "core::ops::range::RangeInclusive", 0), (a[0], a[1])))]
@model("RangeInclusive::start")
def _(E, st, c, a, fr): return [(st, cobj(get_field(E.deref(st, a[0]), 0)))]
@model("RangeInclusive::end")
def _(E, st, c, a, fr): return [(st, cobj(get_field(E.deref(st, a[0]), 1)))]
@model("RangeInclusive::into_inner")
def _(E, st, c, a, fr): return [(st, tup(get_field(a[0], 0), get_field(a[0], 1)))]

@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains", "RangeFrom::contains", "RangeTo::contains")
def _(E, st, c, a, fr):
    v = E.deref(st, a[0]); x = E.deref(st, a[1])
    if v.op != "agg": return None
    n = v.args[0][1].split("::")[-1]
    T = gty(E, c, 0)
    def c_(p, q, strict):
        ps = cmp_ints(E, st, p, q, T)
        return lexlt(ps, strict) if ps is not None else None
    if n == "RangeInclusive": cs = [c_(v.args[1][0], x, False), c_(x, v.args[1][1], False)]
    elif n == "Range": cs = [c_(v.args[1][0], x, False), c_(x, v.args[1][1], True)]
    elif n == "RangeFrom": cs = [c_(v.args[1][0], x, False)]
    else: return None
    if any(q is None for q in cs): return None
    return [(st, and_(*cs))]

@model("num::pow", "num::checked_pow")
def _(E, st, c, a, fr):
    x, n = cval(a[0]), cval(a[1])
    if x is not None and n is not None: v = I(x ** n)
    elif n is not None and n <= 4:
        v = ONE
        for _ in range(n): v = mul(v, a[0])
    else:
        v = raw("pow", a[0], a[1]); RANGE.setdefault(v, (0, 2**128))
    if c["name"] == "checked_pow":
        hi = INT_TY.get(models_int(E, c), (0, 2**64 - 1))[1]
        return [(s, Some(v) if t else NONE) for s, t in E.branch(st, le(v, I(hi)))]
    return [(st, v)]
def models_int(E, c): return int_self(E, c)

import eager

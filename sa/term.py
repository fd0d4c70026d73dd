"""Hash-consed value terms of the analysis: exact integer polynomials,
structured values with field overrides, arrays with stores."""
import itertools

class Term:
    __slots__ = ("op", "args", "id", "bit", "mask")
    def __init__(self, op, args, id):
        self.op, self.args, self.id = op, args, id
        self.bit = m = 1 << (id * 2654435761 >> 7) % 2039
        st = [args]
        while st:
            for e in st.pop():
                if e.__class__ is Term: m |= e.mask
                elif e.__class__ is tuple: st.append(e)
        self.mask = m    # superset of the subterms, to tell early that one does not occur
    def __repr__(self):
        return show(self)

_tab = {}
_ids = itertools.count()

def raw(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term(op, args, next(_ids))
        _tab[k] = t
    return t

TRUE, FALSE = raw("true"), raw("false")
UNIT = raw("agg", ("tuple",), ())
RANGE = {}     # integer atom -> (lo, hi) from its machine type
INT_TY = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
          "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1),
          "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1),
          "i128": (-2**127, 2**127 - 1)}

# ---------------------------------------------------------------- integers
def lin(t):
    """(const, {monomial: coeff}) of an integer term"""
    if t.op == "poly":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}

def mkpoly(c, m):
    m = {k: v for k, v in m.items() if v}
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1 and len(k) == 1:
            return k[0]
    return raw("poly", c, tuple(sorted(m.items(), key=lambda kv: tuple(x.id for x in kv[0]))))

def I(n):
    return raw("poly", n, ())

ZERO, ONE = I(0), I(1)

def isconst(t):
    return t.op == "poly" and not t.args[1]

def cval(t):
    return t.args[0] if t.op == "poly" and not t.args[1] else None

def add(a, b, k=1):
    ca, ma = lin(a)
    cb, mb = lin(b)
    for m, v in mb.items():
        ma[m] = ma.get(m, 0) + k * v
    return mkpoly(ca + k * cb, ma)

def sub(a, b):
    return add(a, b, -1)

def addc(a, n):
    c, m = lin(a)
    return mkpoly(c + n, m)

def neg(a):
    return sub(ZERO, a)

def mul(a, b):
    ca, ma = lin(a)
    cb, mb = lin(b)
    r = {}
    c = ca * cb
    for m, v in ma.items():
        if cb:
            r[m] = r.get(m, 0) + v * cb
    for m, v in mb.items():
        if ca:
            r[m] = r.get(m, 0) + v * ca
    for m, v in ma.items():
        for n, w in mb.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + v * w
    return mkpoly(c, r)

def isint(t):
    return t.op in ("poly", "rem", "div", "len", "imin", "imax") or t in RANGE

def rem(a, b):
    n = cval(b)
    if n is not None and n > 0:
        c, m = lin(a)
        m = {k: v % n for k, v in m.items()}
        c %= n
        p = mkpoly(c, m)
        if isconst(p):
            return I(cval(p) % n)
        if p.op == "rem" and p.args[1] is b:
            return p
        # flatten nested remainders by the same modulus
        c, m = lin(p)
        out = I(c)
        ch = False
        for k, v in m.items():
            if len(k) == 1 and k[0].op == "rem" and k[0].args[1] is b:
                out = add(out, k[0].args[0], v); ch = True
            else:
                out = add(out, mkpoly(0, {k: 1}), v)
        if ch:
            return rem(out, b)
        t = raw("rem", p, b)
        RANGE[t] = (0, n - 1)
        return t
    if a is b:
        return ZERO
    t = raw("rem", a, b)
    RANGE.setdefault(t, (0, 2**128))
    return t

def div(a, b):
    x, y = cval(a), cval(b)
    if y == 1:
        return a
    if x is not None and y:
        return I(x // y)
    if x == 0:
        return ZERO
    if y and y > 0:
        c, m = lin(a)
        if c % y == 0 and all(v % y == 0 for v in m.values()):
            return mkpoly(c // y, {k: v // y for k, v in m.items()})
    t = raw("div", a, b)
    if t not in RANGE: RANGE[t] = (0, upper(a) // max(y or 1, 1))
    return t

def upper(a):
    """a bound of a non-negative integer, from the machine types of its parts"""
    if a.op != "poly": return RANGE.get(a, (0, 2**256))[1]
    c, ms = lin(a)
    hi = c
    for m, k in ms.items():
        if k <= 0: continue
        p = k
        for x in m: p *= max(RANGE.get(x, (0, 2**256))[1], 0)
        hi += p
    return max(hi, 0)

# ---------------------------------------------------------------- booleans
def le0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return raw("le0", p)

def le(a, b):
    return le0(sub(a, b))

def lt(a, b):
    return le0(addc(sub(a, b), 1))

def eq0(p):
    c = cval(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    k, m = lin(p)
    first = min(m, key=lambda k: tuple(x.id for x in k))
    return raw("eq0", neg(p) if m[first] < 0 else p)

def neg_c(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.args[0]
    if c.op == "le0": return le0(addc(neg(c.args[0]), 1))
    if c.op == "and": return or_(*[neg_c(x) for x in c.args[0]])
    if c.op == "or": return and_(*[neg_c(x) for x in c.args[0]])
    return raw("not", c)

def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE: return FALSE
        if c is TRUE: continue
        for d in (c.args[0] if c.op == "and" else (c,)):
            if d not in out: out.append(d)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return raw("and", tuple(sorted(out, key=lambda t: t.id)))

def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE: return TRUE
        if c is FALSE: continue
        for d in (c.args[0] if c.op == "or" else (c,)):
            if d not in out: out.append(d)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return raw("or", tuple(sorted(out, key=lambda t: t.id)))

_CONSTOPS = ("cbytes", "cpub", "true", "false", "zero")

def is_literal(t):
    if t.op in ("cbytes", "cpub"): return True
    if isconst(t): return True
    if t.op == "agg": return all(is_literal(x) for x in t.args[1])
    return False

def eq(a, b):
    if a is b: return TRUE
    if isint(a) or isint(b): return eq0(sub(a, b))
    if a is TRUE or b is FALSE and a.op not in ("true", "false"):
        a, b = b, a
    if b is TRUE: return a if a.op in _BOOLOPS or True else raw("eq", a, b)
    if b is FALSE: return neg_c(a)
    if a.op == "agg" and b.op == "agg":
        ta, tb = a.args[0], b.args[0]
        if ta[0] in ("adt", "adt_e") and tb[0] == ta[0] and ta[:2] == tb[:2] and ta[2] != tb[2]: return FALSE
        if len(a.args[1]) == len(b.args[1]):
            return and_(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    if is_literal(a) and is_literal(b): return FALSE
    if a.op == "agg" and b.op != "agg": a, b = b, a
    if b.op == "agg" and b.args[0][0] in ("adt", "tuple") and b.args[1] and a.op != "agg":
        return and_(*[eq(get_field(a, i), x) for i, x in enumerate(b.args[1])])
    if a.id > b.id: a, b = b, a
    return raw("eq", a, b)

_BOOLOPS = ()

def ne(a, b):
    return neg_c(eq(a, b))

# ---------------------------------------------------------------- structures
def agg(tag, fields):
    fields = tuple(fields)
    # eta: a struct rebuilt from all the fields of one value is that value
    if fields and tag[0] in ("adt", "tuple") and fields[0].op == "fld" and fields[0].args[1] == 0 and tag not in NOETA:
        x = fields[0].args[0]
        if FIELDS.get(x) == len(fields) and all(f.op == "fld" and f.args[0] is x and f.args[1] == i for i, f in enumerate(fields)):
            return x
    return raw("agg", tag, fields)

NOETA = set()
FIELDS = {}   # opaque struct term -> number of fields of its type (for eta)

def set_nfields(x, n):
    FIELDS.setdefault(x, n)

def get_field(v, i):
    op = v.op
    if op == "agg":
        f = v.args[1]
        if i < len(f): return f[i]
        return raw("fld", v, i)
    if op == "with":
        for k, x in v.args[1]:
            if k == ("f", i): return x
        return get_field(v.args[0], i)
    if op == "boxv": return v
    if op == "acct": return acct_field(v, i)
    if op == "wrap":
        # Signer/Program/UncheckedAccount{info}, Account{account, info}, AccountLoader{acc_info, ..}
        return v.args[1]
    if op == "zeroed": return raw("zeroed", raw("fld", v.args[0], i))
    if op == "comp2": pass
    return raw("fld", v, i)

def acct_field(a, i):
    return {0: lambda: raw("keyref", a), 1: lambda: raw("signer", a), 2: lambda: raw("writable", a),
            5: lambda: raw("ownerref", a)}.get(i, lambda: raw("fld", a, i))()

def _with(base, key, val, base_get):
    if base.op == "with":
        b, d = base.args[0], dict(base.args[1])
    else:
        b, d = base, {}
    if val is base_get(b): d.pop(key, None)
    else: d[key] = val
    if not d: return b
    return raw("with", b, tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))

def set_field(v, i, x):
    if v.op == "agg":
        f = list(v.args[1])
        if i < len(f):
            f[i] = x
            return agg(v.args[0], f)
    if v.op == "undef" or v.op == "pundef":
        d = dict(v.args[0]) if v.op == "pundef" else {}
        d[i] = x
        return raw("pundef", tuple(sorted(d.items())))
    return _with(v, ("f", i), x, lambda b: get_field(b, i))

def get_vfield(v, var, i):
    if v.op == "agg": return v.args[1][i] if i < len(v.args[1]) else raw("vf", v, var, i)
    if v.op == "with":
        for k, x in v.args[1]:
            if k == ("v", var, i): return x
        return get_vfield(v.args[0], var, i)
    return raw("vf", v, var, i)

def set_vfield(v, var, i, x):
    if v.op == "agg":
        f = list(v.args[1]); f[i] = x
        return raw("agg", v.args[0], tuple(f))
    return _with(v, ("v", var, i), x, lambda b: get_vfield(b, var, i))

def arr(vals):
    return raw("agg", ("array",), tuple(vals))

ARRLEN = {}   # opaque array term -> constant length

def arrlen(v):
    if v.op == "agg": return I(len(v.args[1]))
    if v.op == "rep": return v.args[1]
    if v.op in ("store", "part", "mapped"): return arrlen(v.args[0])
    if v.op == "comp": return v.args[0]
    if v in ARRLEN: return I(ARRLEN[v])
    t = raw("len", v)
    RANGE.setdefault(t, (0, 2**63))
    return t

BV = raw("bv")
CBV = raw("cbv")
RANGE[BV] = (0, 2**62)
RANGE[CBV] = (0, 2**62)

def sel(a, i, dec=None):
    """element i of array a; dec(cond) -> True/False/None decides index equality"""
    n = cval(i)
    if a.op == "agg":
        if n is not None and 0 <= n < len(a.args[1]): return a.args[1][n]
        if a.args[1] and all(x is a.args[1][0] for x in a.args[1]): return a.args[1][0]
    elif a.op == "rep":
        return a.args[0]
    elif a.op == "store":
        c = eq0(sub(a.args[1], i))
        r = True if c is TRUE else False if c is FALSE else (dec(c) if dec else None)
        if r is True: return a.args[2]
        if r is False: return sel(a.args[0], i, dec)
    elif a.op == "comp":
        return subst(a.args[1], {CBV: i})
    elif a.op == "part":
        # a loop has updated a.args[0] at idx(j') for the iterations j' < j
        if a.args[1] is i: return sel(a.args[0], i, dec)
    elif a.op == "accs":
        return raw("acct", i)
    elif a.op == "zeroed":
        return raw("zeroed", raw("sel", a.args[0], i))
    return raw("sel", a, i)

def store(a, i, v, dec=None):
    n = cval(i)
    if a.op == "agg" and n is not None and 0 <= n < len(a.args[1]):
        f = list(a.args[1]); f[n] = v
        return arr(f)
    if a.op == "rep" and n is not None and cval(a.args[1]) is not None and cval(a.args[1]) <= 16 and n < cval(a.args[1]):
        f = [a.args[0]] * cval(a.args[1]); f[n] = v
        return arr(f)
    if sel(a, i, dec) is v: return a
    if a.op == "store":
        c = eq0(sub(a.args[1], i))
        r = True if c is TRUE else False if c is FALSE else (dec(c) if dec else None)
        if r is True: return store(a.args[0], i, v, dec)
        if r is False and n is not None and cval(a.args[1]) is not None and cval(a.args[1]) > n:
            return raw("store", store(a.args[0], i, v, dec), a.args[1], a.args[2])
    return raw("store", a, i, v)

# ---------------------------------------------------------------- rebuild
def rebuild(op, args):
    if op == "poly":
        r = I(args[0])
        for m, v in args[1]:
            p = ONE
            for x in m: p = mul(p, x)
            r = add(r, p, v)
        return r
    if op == "rem": return rem(*args)
    if op == "div": return div(*args)
    if op == "le0": return le0(args[0])
    if op == "eq0": return eq0(args[0])
    if op == "eq": return eq(*args)
    if op == "not": return neg_c(args[0])
    if op == "and": return and_(*args[0])
    if op == "or": return or_(*args[0])
    if op == "agg": return agg(*args)
    if op == "fld": return get_field(*args)
    if op == "vf": return get_vfield(*args)
    if op == "sel": return sel(*args)
    if op == "store": return store(*args)
    if op == "with":
        v = args[0]
        for k, x in args[1]:
            v = set_field(v, k[1], x) if k[0] == "f" else set_vfield(v, k[1], k[2], x)
        return v
    t = raw(op, *args)
    return t

def _tuple(x, f):
    out = []
    ch = False
    for e in x:
        if isinstance(e, Term): n = f(e)
        elif isinstance(e, tuple): n = _tuple(e, f)
        else: n = e
        if n is not e: ch = True
        out.append(n)
    return tuple(out) if ch else x

def transform(t, f, memo, keys=-1):
    """rebuild t bottom-up; f(term) -> replacement or None before descending;
    keys: bits of the terms f replaces"""
    if not t.mask & keys: return t
    r = memo.get(t)
    if r is not None: return r
    r = f(t)
    if r is None:
        args = _tuple(t.args, lambda e: transform(e, f, memo, keys))
        if args is t.args: r = t
        else:
            r = rebuild(t.op, args)
            if t in RANGE and r.op != "poly": RANGE.setdefault(r, RANGE[t])
            if t in ARRLEN: ARRLEN.setdefault(r, ARRLEN[t])
            if t in FIELDS: FIELDS.setdefault(r, FIELDS[t])
    memo[t] = r
    return r

def subst(t, m, memo=None):
    if not m: return t
    k = 0
    for x in m: k |= x.bit
    if not t.mask & k: return t
    return transform(t, lambda x: m.get(x), {} if memo is None else memo, k)

def occurs(x, t):
    return bool(t.mask & x.bit) and x in subterms(t)

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        st = list(x.args)
        while st:
            e = st.pop()
            if isinstance(e, Term): stack.append(e)
            elif isinstance(e, tuple): st.extend(e)
    return seen

# ---------------------------------------------------------------- display
def show(t, d=0):
    if d > 14: return "…"
    s = lambda x: show(x, d + 1) if isinstance(x, Term) else "(" + ",".join(map(s, x)) + ")" if isinstance(x, tuple) else str(x)
    op, a = t.op, t.args
    if op == "poly":
        parts = []
        for m, v in a[1]:
            body = "*".join(s(x) for x in m)
            parts.append(body if v == 1 else "-" + body if v == -1 else "%d*%s" % (v, body))
        if a[0] or not parts: parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if op == "fld": return "%s.%d" % (s(a[0]), a[1])
    if op == "vf": return "%s@%s.%d" % (s(a[0]), a[1], a[2])
    if op == "sel": return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "store": return "%s{[%s]:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "with": return "%s{%s}" % (s(a[0]), ", ".join("%s:=%s" % (".".join(map(str, k)), s(v)) for k, v in a[1]))
    if op == "agg":
        n = a[0][1].split("::")[-1] + ("#%d" % a[0][2] if a[0][2] else "") if a[0][0] == "adt" else a[0][0]
        return "%s{%s}" % (n, ", ".join(s(x) for x in a[1]))
    if op == "le0": return "%s<=0" % s(a[0])
    if op == "eq0": return "%s==0" % s(a[0])
    if op == "eq": return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "not": return "!(%s)" % s(a[0])
    if op == "acct": return "acct%s" % s(a[0])
    if op == "cbytes":
        try: return repr(bytes.fromhex(a[0]).decode("ascii"))
        except Exception: return "0x" + a[0][:16]
    return "%s(%s)" % (op, ",".join(s(x) for x in a)) if a else op

"""Maps and reductions followed element by element, for functions analysed with
concrete numbers of elements (Engine.eager > 0).  The order in which an ordered
map lists its keys is one of the engine's choices (Engine.key_order); callers
analyse every order."""
from term import *
from interp import RES, OPT, Imprecise
import models
from models import M, as_it, drain, it, clen, celem, selfty, gty, cmp_ints, lexlt, Some, NONE, Ok, Err, UNIT, mbool, cobj, tup, peel, default_of, arr

ISSET = raw("set-entry")

def conc(v): return v.op == "bm" and v.args[0].op == "bempty"

def items(E, st, v):
    es = [(k, x) for k, x in v.args[1] if x.op != "absent"]
    if len(es) < 2 or E.key_order is None: return es[::-1]
    def pos(k):
        for i, t in enumerate(E.key_order):
            if t is k or st.facts.holds(eq(t, k)) is True: return i
        raise Imprecise("order of a key is not known")
    return sorted(es, key=lambda e: pos(e[0]))

def keyed(E, st, v, k):
    """[(state, key as the map knows it, present?)]"""
    k = E.deep(st, k)
    out, work = [], [st]
    for kk, x in v.args[1]:
        nxt = []
        for s in work:
            for s2, t in E.branch(s, eq(kk, k) if kk is not k else TRUE):
                if t: out.append((s2, kk, x.op != "absent"))
                else: nxt.append(s2)
        work = nxt
    return out + [(s, k, False) for s in work]

def over(*names):
    def deco(f):
        for n in names:
            old = M.get(n)
            def g(E, st, c, a, fr, old=old):
                if E.eager:
                    r = f(E, st, c, a, fr)
                    if r is not None: return r
                return old(E, st, c, a, fr) if old else None
            M[n] = g
        return f
    return deco

def mapof(E, st, p):
    v = E.deref(st, p)
    return v if conc(v) else None

@over("BTreeMap::insert", "HashMap::insert", "BTreeSet::insert", "HashSet::insert")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    r, pa = E.ptr(a[0])
    isset = len(a) == 2
    out = []
    for s, k, has in keyed(E, st, v, a[1]):
        old = E.bm_read(s, v, k) if has else None
        if not (isset and has): E.write(s, r, pa + (("k", k),), UNIT if isset else a[2])
        out.append((s, mbool(not has) if isset else Some(old) if has else NONE))
    return out

@over("BTreeMap::get", "HashMap::get", "BTreeMap::get_mut", "HashMap::get_mut")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    return [(s, Some(E.ext(a[0], ("k", k))) if t else NONE) for s, k, t in keyed(E, st, v, a[1])]

@over("BTreeMap::contains_key", "HashMap::contains_key", "BTreeSet::contains", "HashSet::contains")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    return [(s, mbool(t)) for s, k, t in keyed(E, st, v, a[1])]

@over("BTreeMap::remove", "HashMap::remove", "BTreeSet::remove", "HashSet::remove")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    r, pa = E.ptr(a[0])
    isset = "Set" in (c.get("rpath") or c["fn"])
    out = []
    for s, k, t in keyed(E, st, v, a[1]):
        x = E.bm_read(s, v, k) if t else None
        if t: E.write(s, r, pa, raw("bm", raw("bempty"), tuple(e for e in v.args[1] if e[0] is not k)))
        out.append((s, mbool(t) if isset else Some(x) if t else NONE))
    return out

@over("BTreeMap::entry", "HashMap::entry")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    return [(s, raw("bentry", a[0], k)) for s, k, t in keyed(E, st, v, a[1])]

@over("BTreeMap::retain", "HashMap::retain", "BTreeSet::retain")
def _(E, st, c, a, fr):
    v = mapof(E, st, a[0])
    if v is None: return None
    r, pa = E.ptr(a[0])
    isset = "Set" in (c.get("rpath") or c["fn"])
    work = [(st.copy(), ())]
    for k, x in items(E, st, v):
        nxt = []
        for s, keep in work:
            args = [cobj(k)] if isset else [cobj(k), E.ext(a[0], ("k", k))]
            for s2, b in E.call_value(s, a[1], args, fr.depth):
                for s3, t in E.branch(s2, b): nxt.append((s3, keep + (k,) if t else keep))
        work = nxt
    out = []
    for s, keep in work:
        v2 = E.read(s, r, pa)
        E.write(s, r, pa, raw("bm", raw("bempty"), tuple(e for e in v2.args[1] if any(e[0] is k for k in keep))))
        out.append((s, UNIT))
    return out

_len, _elem = models.bm_len, models.celem
def bm_len(E, st, v):
    if E.eager and conc(v): return I(sum(1 for k, x in v.args[1] if x.op != "absent"))
    return _len(E, st, v)
models.bm_len = bm_len

def bm_elem(E, st, ch, j):
    p, v, kind, owned = ch.args
    n = cval(j)
    if n is None: raise Imprecise("position in a map is not known")
    k, x = items(E, st, v)[n]
    kp = k if owned else cobj(k)
    vp = x if owned else E.ext(p, ("k", k))
    return [(st, kp if kind == "k" else vp if kind == "v" else tup(kp, vp))]
models.bm_elem = bm_elem

def tomap(E, s, vs, isset):
    """[(state, map)] of a sequence of entries"""
    work = [(s, raw("bm", raw("bempty"), ()))]
    for v in vs:
        nxt = []
        for s1, m in work:
            k0, x = (v, UNIT) if isset else (get_field(v, 0), get_field(v, 1))
            if k0.op == "ref" and not isset: k0 = E.deep(s1, k0)
            for s2, k, has in keyed(E, s1.copy(), m, k0):
                nxt.append((s2, m if has and isset else raw("bm", m.args[0], ((k, x),) + tuple(e for e in m.args[1] if e[0] is not k))))
        work = nxt
    return work

@over("Iterator::collect", "FromIterator::from_iter")
def _(E, st, c, a, fr):
    a_ = c.get("args") or []
    D = E.p.types[a_[-1]] if a_ and c["name"] == "collect" else selfty(E, c)
    last = lambda T: T["path"].split("::")[-1] if T and T["k"] == "adt" else ""
    res = last(D) in ("Result", "Option")
    inner = E.p.types[D["args"][0]] if res and D.get("args") else D
    kind = last(inner)
    if kind not in ("BTreeMap", "HashMap", "BTreeSet", "HashSet") and not (res and kind in ("Vec", "Box")): return None
    out = []
    for s0, t in as_it(E, st, a[0]):
        for s, vs in drain(E, s0, t):
            good = [(s, ())]
            if res:
                good = []
                work = [(s, ())]
                for v in vs:
                    nxt = []
                    for s1, xs in work:
                        for s2, i in E.variant(s1, v, 2):
                            if i == (0 if last(D) == "Result" else 1): nxt.append((s2, xs + (get_vfield(v, i, 0),)))
                            else: out.append((s2, Err(raw("error")) if last(D) == "Result" else NONE))
                    work = nxt
                good = work
            else: good = [(s, vs)]
            for s1, xs in good:
                r = [(s1, arr(xs))] if kind in ("Vec", "Box") else tomap(E, s1, xs, "Set" in kind)
                for s2, m in r: out.append((s2, (Ok(m) if last(D) == "Result" else Some(m)) if res else m))
    return out

def itemcmp(E, st, x, y, T):
    ps = cmp_ints(E, st, x, y, T)
    if ps is None: raise Imprecise("comparison of elements")
    return lexlt(ps, False)

@over("Iterator::count", "Iterator::sum", "Iterator::product", "Iterator::last", "Iterator::min", "Iterator::max", "Iterator::min_by_key", "Iterator::max_by_key")
def _(E, st, c, a, fr):
    n = c["name"]
    out = []
    for s0, t in as_it(E, st, a[0]):
        if t.op == "it" and n == "last" : return None
        for s, vs in drain(E, s0, t):
            if n == "count": out.append((s, I(len(vs)))); continue
            if n == "last": out.append((s, Some(vs[-1]) if vs else NONE)); continue
            if n in ("sum", "product"):
                acc = ZERO if n == "sum" else ONE
                for v in vs:
                    v = E.deref(s, v) if v.op == "ref" else v
                    if not isint(v): return None
                    acc = add(acc, v) if n == "sum" else mul(acc, v)
                out.append((s, acc)); continue
            if not vs: out.append((s, NONE)); continue
            keys = [(s, ())]
            if n.endswith("_by_key"):
                for v in vs: keys = [(s3, ks + (k,)) for s2, ks in keys for s3, k in E.call_value(s2, a[1], [cobj(v)], fr.depth)]
            else: keys = [(s, tuple(vs))]
            for s1, ks in keys:
                work = [(s1, 0)]
                for i in range(1, len(vs)):
                    nxt = []
                    for s2, b in work:
                        le_ = key_le(E, s2, ks[b], ks[i]) if n.startswith("min") else key_le(E, s2, ks[i], ks[b])
                        if n.startswith("max"): le_ = neg_c(key_le(E, s2, ks[b], ks[i]))     # the last of equal maxima
                        for s3, t3 in E.branch(s2, le_): nxt.append((s3, b if t3 else i))
                    work = nxt
                out += [(s2, Some(vs[b])) for s2, b in work]
    return out

def key_le(E, st, x, y):
    def flat(v):
        v = E.deep(st, v)
        if isint(v): return [v]
        n = len(v.args[1]) if v.op == "agg" else FIELDS.get(v)
        if v.op == "with": n = max([k[1] for k, _ in v.args[1]] + [0]) + 1 if n is None else n
        if v.op == "agg" and v.args[0][0] == "array": raise Imprecise("comparison of arrays")
        if not n: raise Imprecise("comparison of elements")
        return [z for i in range(n) for z in flat(get_field(v, i))]
    return lexlt(list(zip(flat(x), flat(y))), False)

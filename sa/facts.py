"""Conjunctions of facts: congruence over value terms and integer linear
inequalities (difference bounds / small polyhedra, Fourier-Motzkin)."""
from term import *
from fractions import Fraction
from math import gcd

CONTRA = raw("contradiction")

def score(t):
    """representatives: literals first, then initial-state terms, then older"""
    if is_literal(t): return (0, t.id)
    if t.op in ("sk", "bump"): return (3, -t.id)
    return (1, t.id)

class Facts:
    __slots__ = ("items", "_sub", "_memo", "_lins", "_canon", "_keys")
    def __init__(self, items=()):
        self.items = items if isinstance(items, dict) else dict.fromkeys(items)
        self._sub = None; self._memo = None; self._lins = None; self._canon = None; self._keys = None

    def __iter__(self): return iter(self.items)

    # -------------------------------------------------- canonical forms
    def _build(self):
        if self._sub is not None: return
        m = {}
        pend = [c for c in self.items if c.op in ("eq", "eq0")]
        for rnd in range(4):
            ch = False
            for c in pend:
                if self._absorb(m, c): ch = True
            if not ch: break
        self._sub = m
        self._memo = {}

    def _absorb(self, m, c):
        d = subst(c, m, {}) if m else c
        if d.op == "eq":
            a, b = d.args
            if score(b) < score(a): a, b = b, a
            if occurs(a, b):
                a, b = b, a
                if occurs(a, b): return False
            # b -> a
            self._put(m, b, a); return True
        if d.op == "eq0":
            k, mm = lin(d.args[0])
            best = None
            for mono, v in mm.items():
                if len(mono) == 1 and abs(v) == 1:
                    x = mono[0]
                    if is_literal(x): continue
                    sc = score(x)
                    if best is not None and sc <= best[0]: continue
                    rest = add(d.args[0], x, -v)
                    if occurs(x, rest): continue
                    best = (sc, x, rest if v == -1 else neg(rest))
            if best:
                self._put(m, best[1], best[2]); return True
        return False

    def _put(self, m, x, r, depth=0):
        more = []
        for k in list(m):
            n = subst(m[k], {x: r}, {})
            m[k] = n
            if depth < 4 and x.op == "sk" and occurs(x, k):
                # the key itself changes its shape: congruence
                k2 = subst(k, {x: r}, {})
                if k2 is not k: more.append((k2, n))
        m[x] = r
        for k2, n in more:
            k3, n3 = subst(k2, m, {}), subst(n, m, {})
            if k3 is n3: continue
            c = eq(k3, n3)
            if c.op == "eq":
                a, b = c.args
                if score(b) < score(a): a, b = b, a
                if occurs(a, b): a, b = b, a
                if occurs(a, b) or is_literal(b): continue
                self._put(m, b, a, depth + 1)
            elif c.op == "eq0" and not is_literal(k3) and not isconst(k3) and k3.op != "poly" and not occurs(k3, n3):
                self._put(m, k3, n3, depth + 1)
            elif c.op == "eq0" and n3.op != "poly" and not isconst(n3) and not occurs(n3, k3):
                self._put(m, n3, k3, depth + 1)
            elif c is FALSE: m[CONTRA] = TRUE

    def canon(self, t):
        self._build()
        if not self._sub: return t
        if self._keys is None:
            k = 0
            for x in self._sub: k |= x.bit
            self._keys = k
        if not t.mask & self._keys: return t
        for _ in range(3):
            n = transform(t, lambda x: self._sub.get(x), self._memo, self._keys)
            if n is t: break
            t = n
        return t

    def canon_items(self):
        if self._canon is None:
            self._canon = {}
            for c in self.items:
                self._canon[self.canon(c) if c.op not in ("forall", "foralld") else c] = c
        return self._canon

    # -------------------------------------------------- queries
    def holds(self, c):
        """True / False / None (undecided)"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.items: return True
        n = neg_c(c)
        if n in self.items: return False
        k = self.canon(c)
        if k is TRUE: return True
        if k is FALSE: return False
        if k.op == "and":
            rs = [self.holds(x) for x in k.args[0]]
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
            return None
        if k.op == "or":
            rs = [self.holds(x) for x in k.args[0]]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
            if k in self.canon_items(): return True
            return None
        if k.op == "not" and k.args[0].op not in ("eq0", "is", "eq"):
            pass
        ci = self.canon_items()
        if k in ci: return True
        nk = neg_c(k)
        if nk in ci: return False
        neg = False
        b = k
        if k.op == "not": neg, b = True, k.args[0]
        if b.op == "is":
            r = None
            for f in ci:
                if f.op == "is" and f.args[0] is b.args[0]:
                    r = f.args[1] == b.args[1]
                    break
            if r is not None: return r != neg
        if b.op == "eq":
            if b.args[0].op == "agg" and b.args[1].op == "agg": pass
            return None
        if b.op == "le0":
            if self.lin_entails(b.args[0]): return not neg
            if self.lin_entails(addc(subt(b.args[0]), 1)): return neg
            return None
        if b.op == "eq0":
            p = b.args[0]
            lo, hi = self.lin_entails(p), self.lin_entails(subt(p))
            if lo and hi: return not neg
            if self.lin_entails(addc(p, 1)) or self.lin_entails(addc(subt(p), 1)): return neg
            return None
        return None

    def add(self, c):
        """facts with c, or None when contradictory"""
        h = self.holds(c)
        if h is False: return None
        if c.op == "and":
            r = self
            for x in c.args[0]:
                r = r.add(x)
                if r is None: return None
            return r
        if h is True and c.op not in ("forall", "foralld"): return self
        if c.op == "or":
            live = [x for x in c.args[0] if self.holds(x) is not False]
            if not live: return None
            if len(live) == 1: return self.add(live[0])
            c = or_(*live)
        r = self._extend(c)
        if c.op in ("eq", "eq0"):
            r._build()
            if CONTRA in r._sub: return None
            if r._recheck(): return None
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            for q in (p, subt(p)):
                if self.lin_entails(q): return r.add(le0(addc(q, 1)))
        if c.op == "le0":
            p = c.args[0]
            for f in list(self.items):
                if f.op == "not" and f.args[0].op == "eq0":
                    q = r.canon(f.args[0].args[0])
                    for z in (q, subt(q)):
                        if r.lin_entails(z):
                            r2 = r.add_raw(le0(addc(z, 1)))
                            if r2 is None: return None
                            r = r2
        # unit propagation over disjunctions
        for f in list(r.items):
            if f.op == "or" and f is not c:
                hs = [r.holds(x) for x in f.args[0]]
                if any(h is True for h in hs): continue
                live = [x for x, h in zip(f.args[0], hs) if h is not False]
                if not live: return None
                if len(live) == 1:
                    r = r.add(live[0])
                    if r is None: return None
        return r

    def assume(self, c):
        """records an entailed equality so that terms are rewritten with it"""
        r = self._extend(c)
        r._build()
        if CONTRA in r._sub or r._recheck(): return None
        return r

    def add_raw(self, c):
        if self.holds(c) is False: return None
        return self._extend(c)

    def _extend(self, c):
        self._build()
        d = dict(self.items)
        d[c] = None
        r = Facts(d)
        if c.op in ("eq", "eq0"):
            m = dict(self._sub)
            if not self._absorb(m, c):
                r._sub, r._memo = self._sub, self._memo
            else:
                for rnd in range(3):
                    # an equality may have become usable
                    if not any(self._absorb(m, x) for x in r.items if x.op in ("eq", "eq0") and x is not c): break
                r._sub, r._memo = m, {}
                return r
        else: r._sub, r._memo = self._sub, self._memo
        if self._canon is not None:
            r._canon = dict(self._canon)
            k = r.canon(c) if c.op not in ("forall", "foralld") else c
            r._canon[k] = c
            if self._lins is not None:
                r._lins = self._lins
                if k.op == "le0": r._lins = self._lins + [lin(k.args[0])]
                elif k.op == "eq0": r._lins = self._lins + [lin(k.args[0]), lin(subt(k.args[0]))]
        return r

    def _recheck(self):
        """True when an equality made the facts contradictory"""
        seen = {}
        for c in self.items:
            if c.op in ("forall", "foralld"): continue
            k = self.canon(c)
            if k is FALSE: return True
            if k.op in ("eq0",) and c is not k:
                pass
            seen[k] = 1
        for k in seen:
            if neg_c(k) in seen: return True
        iss = {}
        for k in seen:
            if k.op == "is":
                if iss.setdefault(k.args[0], k.args[1]) != k.args[1]: return True
        return False

    # -------------------------------------------------- linear arithmetic
    def lins(self):
        if self._lins is None:
            L = []
            for c in self.canon_items():
                if c.op == "le0": L.append(lin(c.args[0]))
                elif c.op == "eq0":
                    L.append(lin(c.args[0])); L.append(lin(subt(c.args[0])))
            self._lins = L
        return self._lins

    def lin_entails(self, p):
        """p <= 0 follows"""
        p = self.canon(p)
        c, m = lin(p)
        if not m: return c <= 0
        if bound_hi(c, m) is not None and bound_hi(c, m) <= 0: return True
        L = self.lins()
        rel = []
        seen = set(m)
        cand = list(L)
        for _ in range(4):
            nxt = []
            grew = False
            for q in cand:
                if any(k in seen for k in q[1]):
                    rel.append(q)
                    for k in q[1]:
                        if k not in seen: seen.add(k); grew = True
                else: nxt.append(q)
            cand = nxt
            if not grew or len(rel) > 40: break
        # negation: p >= 1
        sysm = [(1 - c, {k: -v for k, v in m.items()})] + rel[:60]
        for k in seen:
            lo, hi = mono_range(k)
            if lo is not None: sysm.append((lo, {k: -1}))
            if hi is not None and hi < 2**64 - 1: sysm.append((-hi, {k: 1}))
            # an uninterpreted remainder / quotient stays within its operands
        return fm_unsat(sysm)

    def lin_unsat(self):
        """the linear facts are contradictory"""
        comp = {}
        def find(k):
            while comp.setdefault(k, k) is not k: k = comp[k]
            return k
        L = self.lins()
        for c, m in L:
            ks = list(m)
            if not ks:
                if c > 0: return True
                continue
            r = find(ks[0])
            for k in ks[1:]:
                z = find(k)
                if z is not r: comp[z] = r
        groups = {}
        for c, m in L:
            if m: groups.setdefault(find(next(iter(m))), []).append((c, m))
        for g, cs in groups.items():
            ks = {k for _, m in cs for k in m}
            for k in ks:
                lo, hi = mono_range(k)
                if lo is not None: cs.append((lo, {k: -1}))
                if hi is not None and hi < 2**64 - 1: cs.append((-hi, {k: 1}))
            if fm_unsat(cs): return True
        return False

def subt(p): return neg(p)

def mono_range(k):
    lo, hi = 1, 1
    for x in k:
        r = RANGE.get(x)
        if r is None: return None, None
        if r[0] < 0: return (r if len(k) == 1 else (None, None))
        lo, hi = lo * r[0], hi * r[1]
    return lo, hi

def bound_hi(c, m):
    s = c
    for k, v in m.items():
        lo, hi = mono_range(k)
        b = hi if v > 0 else lo
        if b is None: return None
        s += v * b
    return s

def diff_unsat(cs):
    """negative cycle among the difference constraints; (unsat, all constraints were differences)"""
    edges = {}
    full = True
    for c, m in cs:
        if len(m) == 1:
            (k, v), = m.items()
            # v*k + c <= 0, divided and rounded
            c, e = -((-c) // abs(v)), ((None, k) if v > 0 else (k, None))
        elif len(m) == 2:
            (k1, v1), (k2, v2) = m.items()
            if v1 == 1 and v2 == -1: e = (k2, k1)
            elif v1 == -1 and v2 == 1: e = (k1, k2)
            else: full = False; continue
        elif not m:
            if c > 0: return True, True
            continue
        else: full = False; continue
        # x - y <= -c : edge y -> x of weight -c
        w = -c
        if edges.get(e, w) >= w: edges[e] = w
    E = [(a, b, w) for (a, b), w in edges.items()]
    if not E: return False, full
    d = {}
    for a, b, w in E: d[a] = 0; d[b] = 0
    for _ in range(len(d) + 1):
        ch = False
        for a, b, w in E:
            x = d[a] + w
            if x < d[b]: d[b] = x; ch = True
        if not ch: return False, full
    return True, full

def fm_unsat(cs, cap=250):
    u, full = diff_unsat(cs)
    if u or full: return u
    cs = [(c, dict(m)) for c, m in cs]
    while True:
        best = {}
        for c, m in cs:
            k = frozenset((a, b) for a, b in m.items() if b)
            o = best.get(k)
            if o is None or o[0] < c: best[k] = (c, m)
        cs = list(best.values())
        out = []
        vars_ = {}
        seen = set()
        for c, m in cs:
            m = {k: v for k, v in m.items() if v}
            if not m:
                if c > 0: return True
                continue
            g = 0
            for v in m.values(): g = gcd(g, abs(v))
            if g > 1:
                # integer tightening: sum <= -c  ->  divide and round
                m = {k: v // g for k, v in m.items()}
                c = -((-c) // g)
            key = (c, frozenset(m.items()))
            if key in seen: continue
            seen.add(key)
            out.append((c, m))
            for k, v in m.items():
                p, n = vars_.get(k, (0, 0))
                vars_[k] = (p + (v > 0), n + (v < 0))
        if not vars_: return False
        cs = out
        # drop variables bounded on one side only, then the cheapest
        k = min(vars_, key=lambda k: (vars_[k][0] * vars_[k][1] - vars_[k][0] - vars_[k][1]))
        pos = [x for x in cs if x[1].get(k, 0) > 0]
        ng = [x for x in cs if x[1].get(k, 0) < 0]
        rest = [x for x in cs if not x[1].get(k, 0)]
        if len(pos) * len(ng) + len(rest) > cap: return False
        for cp, mp in pos:
            for cn, mn in ng:
                a, b = -mn[k], mp[k]
                m = {}
                for x, v in mp.items(): m[x] = m.get(x, 0) + a * v
                for x, v in mn.items(): m[x] = m.get(x, 0) + b * v
                m.pop(k, None)
                rest.append((a * cp + b * cn, m))
        cs = rest

"""Queries over the abstract states: who signed, what an account held before
and holds after, what follows from the facts of a state (with case splits and
instantiation of the quantified loop facts)."""
from term import *
from facts import Facts
from interp import RES, OPT
import models, anchor
from anchor import acct, keyof, owner, data0, droot, mroot, pda, PID, TOKEN_ID, SYSTEM_ID

DEFAULT = raw("cpub", "default")
CLOCK = raw("sysvar", "Clock")

def txt(s): return raw("cbytes", s.encode().hex())
def kb(k): return models.pkbytes(k)
def PDA(name, *keys): return pda((txt(name),) + tuple(kb(k) for k in keys), PID)

class Q:
    def __init__(self, prog, E, st, facts=None):
        self.p, self.E, self.st = prog, E, st
        self.f = st.facts if facts is None else facts
        self._isa = None

    # ------------------------------------------------------------ reasoning
    def also(self, *cs):
        """the state under further hypotheses, None when they are contradictory"""
        f = self.f
        for c in cs:
            f = f.add(c)
            if f is None: return None
        return Q(self.p, self.E, self.st, f)

    def rem_of(self, x):
        n = cval(x.args[1])
        if not n: return None
        c, m = lin(self.f.canon(x.args[0]))
        m = {k: (v % n if v % n <= n // 2 else v % n - n) for k, v in m.items()}
        p = mkpoly(c % n, m)
        for k in (0, 1, -1, 2):
            q = addc(p, k * n)
            if self.f.lin_entails(neg(q)) and self.f.lin_entails(addc(q, 1 - n)): return q
        return None

    def norm(self, t):
        t = self.f.canon(t)
        for _ in range(3):
            if not any(x.op == "rem" for x in subterms(t)): return t
            def f(x):
                if x.op == "rem":
                    r = self.rem_of(x)
                    if r is not None: return r
                return None
            n = self.f.canon(transform(t, f, {}))
            if n is t: break
            t = n
        return t

    def normed(self):
        """facts with the remainders resolved where the facts bound them"""
        its = [c for c in self.f.items]
        if not any(x.op == "rem" for c in its for x in subterms(c)): return self
        out = []
        for c in its:
            out.append(c)
            if any(x.op == "rem" for x in subterms(c)):
                n = self.norm(c)
                if n is FALSE: return None
                if n is not c and n is not TRUE: out.append(n)
        return Q(self.p, self.E, self.st, Facts(dict.fromkeys(out)))

    def settled(self):
        """disjunctions with a single possible case resolved; None when none is possible"""
        q, done = self, set()
        for _ in range(6):
            new = []
            for c in q.f.items:
                if c.op != "or": continue
                alts = [x for x in c.args[0] if q.f.holds(x) is not False]
                if not alts: return None
                if len(alts) == 1 and alts[0] not in q.f.items and alts[0] not in done: new.append(alts[0])
            if not new: break
            for c in new:
                done.add(c)
                f = q.f.assume(c)
                if f is None: return None
                q = Q(q.p, q.E, q.st, f)
        for c in q.f.items:
            n = neg_c(c)
            if n.op == "eq" and q.f.canon(n.args[0]) is q.f.canon(n.args[1]): return None
        if q.f.lin_unsat(): return None
        return q

    def yes(self, c):
        return self.f.holds(c) is True or self.f.holds(self.norm(c)) is True

    def same(self, a, b):
        if a is b: return True
        x, y = self.norm(a), self.norm(b)
        if x is y: return True
        if self.f.holds(eq(x, y)) is True: return True
        n, m = cval(arrlen(x)) if self.isarr(x) else None, cval(arrlen(y)) if self.isarr(y) else None
        if n is not None and n == m and n <= 16:
            return all(self.same(sel(x, I(k), self.f.holds), sel(y, I(k), self.f.holds)) for k in range(n))
        if x.op in ("with", "agg") or y.op in ("with", "agg"):
            fx = self.nfields(x) or self.nfields(y)
            if fx:
                z = [(get_field(x, i), get_field(y, i)) for i in range(fx)]
                if all(u.op != "fld" or v.op != "fld" or u.args[0] is not x for u, v in z):
                    return all(self.same(u, v) for u, v in z)
        if x.op == "store" or y.op == "store":
            # same base with the same bindings in another order
            bx, sx = self.stores(x); by, sy = self.stores(y)
            if bx is by and len(sx) == len(sy):
                return all(any(self.same(i, j) and self.same(u, v) for j, v in sy) for i, u in sx)
        return False

    def stores(self, a):
        out = []
        while a.op == "store":
            out.append((a.args[1], a.args[2])); a = a.args[0]
        return a, out

    def isarr(self, v):
        return v.op in ("rep", "store", "comp") or (v.op == "agg" and v.args[0][0] == "array") or v in ARRLEN

    def nfields(self, v):
        if v.op == "agg" and v.args[0][0] in ("adt", "tuple"): return len(v.args[1])
        if v.op == "with":
            if any(k[0] != "f" for k, _ in v.args[1]): return None
            return self.nfields(v.args[0])
        return FIELDS.get(v)

    def ne(self, a, b): return self.yes(ne(a, b))

    def cases(self, *conds):
        """the consistent ways the conditions can turn out: [(Q, tuple of booleans)]"""
        out = [(self, ())]
        for c in conds:
            nxt = []
            for q, bs in out:
                h = q.f.holds(c)
                if h is None: h = q.f.holds(q.norm(c))
                if h is not None: nxt.append((q, bs + (h,))); continue
                for b in (True, False):
                    r = q.also(c if b else neg_c(c))
                    if r is not None:
                        r = r.normed()
                        if r is not None: nxt.append((r, bs + (b,)))
            out = nxt
        return out

    def inst(self, *idx):
        """instances of the quantified facts at the given indices"""
        f = self.f
        for c in list(f.items):
            if c.op != "foralld": continue
            lo, hi, dnf = c.args
            for k in idx:
                body = or_(*[and_(*[subst(x, {BV: k}) for x in d]) for d in dnf])
                f = f.add(or_(lt(k, lo), le(hi, k), body))
                if f is None: return None
        return Q(self.p, self.E, self.st, f)

    def bounds(self):
        return list(dict.fromkeys(c.args[1] for c in self.f.items if c.op == "foralld" and cval(c.args[1]) is None))

    def prove(self, goal, idx=(), depth=0):
        """goal (a condition or a predicate on Q) in every case of the loop exits at the given indices"""
        def leaf(q):
            if callable(goal): return goal(q)
            return q.yes(goal)
        if leaf(self): return True
        q = self.inst(*idx) if idx else self
        if q is None: return True
        q = q.normed()
        if q is None: return True
        if leaf(q): return True
        sp = []
        for h in q.bounds():
            for k in idx: sp.append(eq0(sub(h, k)))
        # positions picked by a loop or search
        for h in q.picked():
            if h in q.bounds(): continue
            for k in idx: sp.append(eq0(sub(h, k)))
        return q._split(sp, leaf)

    def picked(self):
        out = {}
        for c in self.f.items:
            if c.op in ("foralld", "forall"): continue
            for x in subterms(c):
                if x.op == "sel" and x.args[1].op == "sk": out[x.args[1]] = None
        return list(out)

    def _split(self, sp, leaf):
        if leaf(self): return True
        for i, c in enumerate(sp):
            h = self.f.holds(c)
            if h is False: continue
            if h is True:
                # known, but possibly not yet used to rewrite terms
                if c in self.f.items: continue
                f = self.f.assume(c)
                if f is None: return True
                return Q(self.p, self.E, self.st, f)._split(sp[i + 1:], leaf)
            for b in (c, neg_c(c)):
                q = self.also(b)
                if q is None: continue
                q = q.normed()
                if q is None: continue
                if not q._split(sp[i + 1:], leaf): return False
            return True
        # disjunctive facts
        return self._ors(leaf, 4)

    def _ors(self, leaf, depth):
        if depth == 0: return False
        for c in self.f.items:
            if c.op == "or" and not any(self.f.holds(x) is True for x in c.args[0]):
                for x in c.args[0]:
                    q = self.also(x)
                    if q is None: continue
                    if not leaf(q) and not q._ors(leaf, depth - 1): return False
                return True
        return False

    # ------------------------------------------------------------ accounts
    def accounts(self):
        out = {}
        for c in self.f.items:
            for x in subterms(c):
                if x.op == "acct": out[x] = None
        for k in self.st.mem:
            if k.op in ("data", "mem"): out[k.args[0]] = None
        return list(out)

    def isa(self, a):
        """types the account's data was checked to have"""
        if self._isa is None:
            d = {}
            for c in self.f.items:
                if c.op == "isa": d.setdefault(self.f.canon(c.args[0]), set()).add(c.args[1])
            self._isa = d
        return self._isa.get(self.f.canon(a), set()) | self._isa.get(a, set())

    def trusted(self, a, T):
        """data of the account is a T written by the program that owns that type"""
        if T not in self.isa(a): return False
        o = TOKEN_ID if T in ("TokenAccount", "Mint") else PID
        return self.same(owner(a), o)

    def fresh(self, a, T=None):
        """the account is created (or initialised from all-zero data) by this instruction"""
        for e in self.st.ev:
            if e[0] in ("create", "unchecked") and e[1] is a and (e[0] == "create" or T is None or e[2] == T):
                if e[0] == "create": return True
                # zero: owned by the program, discriminator still zero
                if self.same(owner(a), PID) and self.zero_disc(a): return True
        return False

    def zero_disc(self, a):
        for c in self.f.items:
            if c.op == "eq0" and c.args[0].op == "frombytes" and any(x.op == "rawdata" and x.args[0] is a for x in subterms(c)): return True
        return False

    def signed(self, k):
        for c in self.f.items:
            if c.op == "signer" and self.same(keyof(c.args[0]), k): return True
        return False

    def typeof(self, a):
        t = self.isa(a)
        for e in self.st.ev:
            if e[0] in ("unchecked",) and e[1] is a: t = t | {e[2]}
        return t

    def final(self, a): 
        v = self.st.mem.get(droot(a))
        return data0(a) if v is None else v

    def changed(self):
        out = []
        for k, v in self.st.mem.items():
            if k.op == "data" and self.norm(v) is not data0(k.args[0]): out.append(k.args[0])
        return out

    # ------------------------------------------------------------ fields by name
    def adt(self, T):
        for k, a in self.p.adts.items():
            if k.split("::")[-1] == T and a.get("local"): return a
        for k, a in self.p.adts.items():
            if k.split("::")[-1] == T: return a
        return None

    def idx(self, T, name):
        a = self.adt(T)
        if a is None: raise Missing("type %s not found" % T)
        for i, f in enumerate(a["variants"][0]["fields"]):
            if f[0] == name: return i
        raise Missing("field %s.%s not found" % (T, name))

    def fields(self, T): return [f[0] for f in self.adt(T)["variants"][0]["fields"]]

    def get(self, v, *path):
        """field by (type, name) pairs; integers index arrays"""
        i = 0
        for p in path:
            if isinstance(p, tuple): v = get_field(v, self.idx(*p))
            else: v = sel(v, p if isinstance(p, Term) else I(p), self.f.holds)
        return v

    def F(self, v, path, T="Farm"):
        """dotted access through the program's own types: F(farm, 'snapshots.ring_buffer_tip')"""
        for n in path.split("."):
            if n.isdigit(): v = sel(v, I(int(n)), self.f.holds); continue
            i = self.idx(T, n)
            ft = self.p.types[self.adt(T)["variants"][0]["fields"][i][1]] if isinstance(self.adt(T)["variants"][0]["fields"][i][1], int) else None
            v = get_field(v, i)
            while ft is not None and ft["k"] in ("array", "slice"): ft = self.p.types[ft["of"]]
            T = ft["path"].split("::")[-1] if ft is not None and ft["k"] == "adt" else None
        return v

    def changed_fields(self, T, old, new):
        return [n for i, n in enumerate(self.fields(T)) if not self.same(get_field(new, i), get_field(old, i))]

    # ------------------------------------------------------------ tokens
    def amount(self, v): return get_field(get_field(v, 0), 2)
    def tokmint(self, v): return get_field(get_field(v, 0), 0)

    def by_key(self, k):
        """the account whose address is k"""
        for a in self.accounts():
            if self.same(keyof(a), k): return a
        return None

    def now(self): return get_field(CLOCK, 0)

class Missing(Exception):
    pass

def evs(st, *kinds):
    """events of a state with the loops flattened: (event, quantifiers)"""
    def go(es, ctx):
        for e in es:
            if e[0] == "loop":
                for body, dnf in e[3]: yield from go(body, ctx + ((e[1], e[2], dnf),))
            elif not kinds or e[0] in kinds: yield e, ctx
    yield from go(st.ev, ())

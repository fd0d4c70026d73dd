"""The stable curve's arithmetic against the StableSwap equations.

With A the amplifier, n reserves x_i, S their sum, P their product and
a = A n^n, the invariant D is the root of
    D^(n+1) + (a - 1) n^n P D - a n^n S P = 0
and the balance y of one reserve, given the sum s and product p of the others,
the positive root of
    a y^2 + (a s - (a - 1) D) y = D^(n+1) / (n^n p).
The functions scale their arguments down by powers of 1000 and round every
operation; the rules compare the exact rational functions they compute, in
every path class, with these equations.  Whether the iteration converges is
not decided here (N01)."""
from term import *
from interp import Imprecise
from q import *
import fns, check
from check import rule, FLOORS
from anchor import acct, data0, droot, dec_
from rules_farm import fn_result
from rules_amm import wrap_amount
from ratfun import Reader, Unread, const, var

U64 = 2 ** 64 - 1
W = 10 ** 18
IMBALANCE = 1000000    # the least scaled product of the reserves, in units of 1e-18

def states(u, r, ob):
    """feasible outcomes; payloads of the kept functions count as one variable each"""
    for s, v in r.outs:
        q = Q(u.prog, r.E, s).normed()
        q = q.settled() if q is not None else None
        if q is None: continue
        ob.q = q
        k, x = fn_result(r.E.deep(s, v))
        yield q, k, x
    ob.q = None

def at_least(q, rd, bound, want, exps):
    """a fact t >= bound with t = want / 1000^e for one of the exponents"""
    for c in q.f.items:
        if c.op != "le0": continue
        k, ms = lin(c.args[0])
        if k < bound or any(v > 0 for v in ms.values()): continue
        try: t = rd.val(sub(I(k), c.args[0]))
        except (Unread, ZeroDivisionError): continue
        if any((t * 1000 ** e).same(want) for e in exps): return True
    return False

def at_most(q, rd, bound, want, exps):
    """a fact t < bound with t = want / 1000^e for one of the exponents"""
    for c in q.f.items:
        if c.op != "le0": continue
        k, ms = lin(c.args[0])
        if k > 0 or k <= -bound or any(v < 0 for v in ms.values()): continue
        try: t = rd.val(sub(c.args[0], I(k)))
        except (Unread, ZeroDivisionError): continue
        if any((t * 1000 ** e).same(want) for e in exps): return True
    return False

def negative(q, rd):
    """the root is less than what is taken off it (rounding only)"""
    for c in q.f.items:
        if c.op == "le0" and any(x.op == "dsqrt" for m in lin(c.args[0])[1] for x in m): return True
    return False

def swap_setup(u, n):
    """the balance function for n reserves: arguments recognised by type and order"""
    b = u.prog.body(u.id)
    tys = []
    for i in range(1, b.args + 1):
        l = b.locals[i]
        T = u.prog.ty(l[0] if isinstance(l, (list, tuple)) else l)
        r = T["k"] == "ref"
        while T["k"] == "ref": T = u.prog.ty(T["of"])
        tys.append((T["path"].split("::")[-1] if T["k"] == "adt" else T["s"], r))
    ints = [i for i, t in enumerate(tys) if t[0] in ("u64", "u32", "usize")]
    decs = [i for i, t in enumerate(tys) if t[0] == "Decimal"]
    if len(ints) != 1 or len(decs) != 4: raise Missing("arguments of the balance function not recognised")
    X = {}
    def pre(E, st, args):
        args[ints[0]] = I(n)
        for i, (name, lo, hi) in zip(decs, (("A", W, U64 * W), ("D", 0, 4 * U64 * W), ("s", 0, 4 * U64 * W), ("p", 0, 2 ** 192 - 1))):
            X[name] = t = raw("arg", "curve." + name)
            RANGE[t] = (lo, hi)
            if tys[i][1]: st.mem[droot(acct(i))] = t
            else: args[i] = t
        E.budget = 2000000
    r = fns.run_fn(u.prog, u.id, pre, eager=24, max_states=5000)
    u.E, u.states = r.E, list(getattr(u, "states", None) or []) + r.outs
    return r, X

@rule("A16", "amm", "fn", ["math::swap_equation::get_buy_reserve_balance_after_swap"])
def balance(u, ob):
    for n in (2, 3, 4):
        r, X = swap_setup(u, n)
        A, D, s, p = (var(k) for k in "ADsp")
        a = A * n ** n
        b = a * s - (a - 1) * D
        c = D ** (n + 1) / (p * n ** n)
        signs = set()
        for q, k, x in states(u, r, ob):
            rd = Reader({t: var(m) * W for m, t in X.items()})
            if k == "err":
                ob("balance-refused-only", any(c_.op == "overflow" for c_ in q.f.items) or at_most(q, rd, IMBALANCE, p, [j * (n - 1) for j in range(15)]) or negative(q, rd),
                   "a swap is refused that is neither imbalanced nor too large")
            if k != "ok": continue
            try: y = rd.val(x)
            except (Unread, ZeroDivisionError):
                ob("balance-solves-curve", None, "the returned balance is not an algebraic expression of the arguments"); continue
            rt = [z for z in y.vars() if z.startswith("root")]
            if len(rt) != 1:
                ob("balance-solves-curve", None if len(rt) > 1 else False, "the balance after a swap is not a root of the curve's quadratic"); continue
            ps = y.split(rt[0])
            if ps is None:
                ob("balance-solves-curve", None, "the balance after a swap is not linear in its root"); continue
            P, Q_ = ps
            # a y^2 + b y - c vanishes for both signs of the root
            ok = (a * P * 2 + b).zero() and (a * a * 4 * Q_ * Q_ * rd.roots[rt[0]]).same(b * b + a * c * 4)
            ob("balance-solves-curve", ok, "the balance after a swap is not a root of the curve's quadratic", "n=%d" % n)
            if ok: ob("balance-positive-root", (Q_ * A).positive(), "the balance after a swap is the negative root of the curve's quadratic")
            ob("imbalance-refused", at_least(q, rd, IMBALANCE, p, [j * (n - 1) for j in range(15)]), "a swap is priced on a pool whose scaled product may be below 1e-12")
            for c_ in q.f.items:
                # which of the two sides of the linear coefficient is the larger one
                if c_.op != "le0": continue
                try: t = rd.val(c_.args[0])
                except (Unread, ZeroDivisionError): continue
                for e in range(0, 8):
                    signs.update(w for w in (1, -1) if not (t * 1000 ** e * w - b).vars())
        ob("balance-defined", len(signs) == 2 if signs else None, "swaps are priced for one sign of the linear coefficient only")

def steppers(prog, u):
    """functions of the module over the iteration's state and one decimal"""
    out = []
    mod = [x for x in u.id.split("::")[:-1] if not x.startswith("{")]
    for b in prog.raw_bodies:
        if "{closure" in b or [x for x in b.split("::")[:-1] if not x.startswith("{")][:len(mod)] != mod or b == u.id: continue
        B = prog.body(b)
        if B.args != 2: continue
        l = B.locals[0]
        T = prog.ty(l[0] if isinstance(l, (list, tuple)) else l)
        if T["k"] != "adt" or not T.get("args") or "Decimal" not in str(T["args"][0] if not isinstance(T["args"][0], int) else prog.ty(T["args"][0])): continue
        ts = []
        for i in (1, 2):
            l = B.locals[i]
            T = prog.ty(l[0] if isinstance(l, (list, tuple)) else l)
            while T["k"] == "ref": T = prog.ty(T["of"])
            ts.append(T["path"] if T["k"] == "adt" else T["k"])
        if sorted(t.split("::")[-1] == "Decimal" for t in ts) == [False, True] and all(t in prog.adts or t.endswith("Decimal") for t in ts):
            out.append((b, [t.split("::")[-1] == "Decimal" for t in ts].index(True)))
    return out

def step_value(*a): return (o for o in step_outcomes(*a) if o[2] == "ok")
def step_refusals(*a): return (o for o in step_outcomes(*a) if o[2] == "err")
def step_outcomes(u, fn, at, S, X):
    """outcomes of one of these functions at a decimal X of the state S"""
    def pre(E, st, args):
        for i in (0, 1):
            v = X if i == at else S
            if args[i].op == "ref": st.mem[E.ptr(args[i])[0]] = v
            else: args[i] = v
        E.budget = 500000
    r = fns.run_fn(u.prog, fn, pre, eager=24, max_states=2000)
    u.states = u.states + r.outs
    for s, v in r.outs:
        q = Q(u.prog, r.E, s).normed()
        if q is None: continue
        k, x = fn_result(r.E.deep(s, v))
        yield q, x, k

@rule("A16", "amm", "fn", ["math::stable_curve_invariant::compute"])
def invariant(u, ob):
    steps = steppers(u.prog, u)
    u.states = []
    if not steps: raise Imprecise("no iteration step recognised")
    # only the functions whose results become the invariant stay uninterpreted; helpers are read
    main = one_size(u, ob, 2, steps, probe=True)
    steps = [x for x in steps if x[0] in main] or steps
    u.states = []
    for n in (2, 3, 4):
        one_size(u, ob, n, steps)

def one_size(u, ob, n, steps, probe=False):
    prog = u.prog
    xs = [raw("arg", "curve.x%d" % i) for i in range(n)]
    b = prog.body(u.id)
    box = {}
    def pre(E, st, args):
        for x in xs:
            RANGE[x] = (0, U64)
            for c in (le(ZERO, x), le(x, I(U64))): st.facts = st.facts.add(c)
        done = 0
        for i, a in enumerate(args):
            if a.op == "ref":
                st.mem[droot(acct(i))] = arr(tuple(wrap_amount(prog, x) for x in xs))
                args[i] = raw("slice", a, I(n)); done += 1
            else:
                RANGE[a] = (0, U64); box["A"] = a
        if done != 1 or "A" not in box: raise Missing("arguments of the invariant not recognised")
        E.kept = tuple(f for f, _ in steps)
        E.budget = 4000000
    r = fns.run_fn(prog, u.id, pre, eager=64, max_states=20000)
    u.E = r.E
    u.states = u.states + r.outs
    names = {x: var("x%d" % i) for i, x in enumerate(xs)}
    names[box["A"]] = A = var("A")
    S, P = const(0), const(1)
    for i in range(n): S, P = S + var("x%d" % i), P * var("x%d" % i)
    a = A * n ** n
    def poly(d): return d ** (n + 1) + (a - 1) * n ** n * P * d - a * n ** n * S * P
    def dpoly(d): return d ** n * (n + 1) + (a - 1) * n ** n * P
    idx = {}
    for f, at in steps: idx[f] = at
    full = {}
    def payload(t):
        """(function, state, decimal) of the result of a kept function"""
        if t.op == "vf" and t.args[0].op == "app" and t.args[1] == 0:
            f = next((f for f in idx if f.endswith(t.args[0].args[0].split("::", 1)[-1]) or f == t.args[0].args[0]), None)
            if f is None:
                m = [g for g in idx if same_fn(g, t.args[0].args[0])]
                f = m[0] if len(m) == 1 else None
            if f is not None:
                g = t.args[0].args[1]
                g = [v.args[0] if v.op == "at" else v for v in g]
                return f, g[1 - idx[f]], g[idx[f]]
        return None
    every = list(states(u, r, ob))
    good = [(q, x) for q, k, x in every if k == "ok"]
    # the function whose results become the invariant is the iteration's step
    stepf = {payload(t)[0] for q, x in good for t in subterms(x) if t.op == "vf" and payload(t) is not None}
    if probe: return stepf
    for q, k, x in every:
        if k != "err": continue
        ob.q = q
        f = list(q.f.items)
        why = any(c.op == "overflow" for c in f) or q.yes(eq(box["A"], ZERO)) or at_most(q, Reader(names), IMBALANCE, P, [n * j for j in range(15)])
        pays = {t: payload(t) for c in f for t in subterms(c) if t.op == "vf" and payload(t) is not None}
        for c in f:
            # a step that failed although the polynomial is known not to be negative there (step-total: it overflows)
            if c.op == "is" and c.args[0].op == "app" and c.args[1] == 1:
                pv = payload(raw("vf", c.args[0], 0, 0))
                if pv is not None and pv[0] in stepf:
                    at, st_ = pv[2], pv[1]
                    nm = {**names, **{t: var("t%d" % i) * W for i, t in enumerate(pays)}}
                    why = why or positive_there(q, Reader(nm), at, poly, n, S)
                elif pv is not None: why = True
        for t, pv in pays.items():
            # an iterate that rises, which real arithmetic rules out
            if not why and pv[0] in stepf: why = q.yes(lt(pv[2], t))
        ob("invariant-refused-only", why, "an invariant is refused for a pool that is neither imbalanced nor too large")
    for q, x in good:
        ob.q = q
        ob("amplifier-positive", q.yes(lt(ZERO, box["A"])), "an invariant is computed for amplifier zero")
        pays = {t: payload(t) for c in list(q.f.items) + [x] for t in subterms(c) if t.op == "vf"}
        pays = {t: v for t, v in pays.items() if v is not None}
        nm = dict(names)
        for i, t in enumerate(pays): nm[t] = var("t%d" % i) * W
        rd = Reader(nm)
        try: v = rd.val(x)
        except (Unread, ZeroDivisionError):
            ob("invariant-scaled-back", None, "the returned invariant is not an algebraic expression of the iteration"); continue
        ts = [t for i, t in enumerate(pays) if "t%d" % i in v.vars()]
        # the iterations, in order
        ord_ = [t for t in pays if pays[t][0] in stepf]
        chain = []
        cur = ts[0] if len(ts) == 1 else None
        if len(ts) > 1: ob("invariant-scaled-back", None, "the returned invariant mixes iterations"); continue
        while cur is not None:
            chain.append(cur)
            cur = pays[cur][2] if pays[cur][2] in pays else None
        chain.reverse()
        if chain: state, start = pays[chain[0]][1], pays[chain[0]][2]
        else:
            first = [t for t in ord_ if pays[t][2] not in pays]
            if not first and v.same(S) and any(sign_of(q, rd, S, const(1000 ** e), poly, n, 1) for e in range(8)): continue
            if not first:
                ob("invariant-iterated", False, "an invariant is returned without an iteration"); continue
            state, start = pays[first[0]][1], pays[first[0]][2]
        ob("one-state", all(pays[t][1] is state for t in pays), "the iteration changes its coefficients")
        try: x0 = rd.val(start)
        except (Unread, ZeroDivisionError): x0 = None
        K = S / x0 if x0 is not None and not x0.zero() else None
        okK = K is not None and not K.vars() and K.positive()
        ob("starts-at-sum", okK if x0 is not None else None, "the iteration does not start at the sum of the reserves", "n=%d" % n)
        if not okK: continue
        last = var("t%d" % list(pays).index(chain[-1])) if chain else x0
        ob("invariant-scaled-back", v.same(K * last), "the returned invariant is not the last iterate, scaled back", "n=%d" % n)
        for i, t in enumerate(chain):
            before = pays[t][2]
            ob("iterates-descend", q.yes(le(t, before)), "an iterate that does not descend is accepted")
        # stops when settled, after all rounds, or on an exact root
        prev = pays[chain[-1]][2] if chain else None
        settled_ = prev is not None and q.yes(le(sub(prev, chain[-1]), I(int(W // 2 // K.n[()]))))
        root = False
        lastt = chain[-1] if chain else start
        for g, (f, st_, at) in pays.items():
            if at is lastt and st_ is state and f not in stepf: root = root or q.yes(eq0(g))
        root = root or sign_of(q, rd, last * K, K, poly, n, 1)
        ob("stops-when-settled", settled_ or root or len(chain) >= 32, "an invariant is returned whose last step lowered it by more than half a unit")
        e = power(K)
        ob("imbalance-refused", None if e is None else at_least(q, Reader(nm), IMBALANCE, P, [e * n]), "an invariant is computed for a pool whose scaled product may be below 1e-12")
        full.setdefault((state, K.n.get((), 0)), (q, K, set()))[2].update(f for f, _, _ in pays.values())
    ob("invariant-defined", bool(good), "no invariant is ever computed for a pool of its size", "n=%d" % n)
    X = raw("arg", "curve.X"); dec_(X)
    for (state, _), (q0, K, fs) in full.items():
        d = var("X") * K
        for f in fs:
            got = 0
            for q, x, _ in step_refusals(u, f, idx[f], state, X) if f in stepf else ():
                ob.q = q
                rd = Reader({**names, X: var("X") * W})
                ob("step-total", any(c.op == "overflow" for c in q.f.items) or sign_of(q, rd, d, K, poly, n, 1, 1)
                   or stated(q, rd, (d - poly(d) / dpoly(d)) / K) or stated(q, rd, dpoly(d) / K ** n),
                   "an iteration step fails above the root without an overflow", "n=%d" % n)
            for q, x, _ in step_value(u, f, idx[f], state, X):
                ob.q = q
                rd = Reader({**names, X: var("X") * W})
                try: v = rd.val(x)
                except (Unread, ZeroDivisionError):
                    ob("newton-step", None, "the step is not an algebraic expression"); continue
                if f in stepf:
                    ob("newton-step", (v * K).same(d - poly(d) / dpoly(d)), "an iteration is not Newton's step on the invariant's polynomial", "n=%d" % n)
                else:
                    ob("root-test", (v * K ** (n + 1)).same(poly(d)), "the exact-root test does not evaluate the invariant's polynomial", "n=%d" % n)
                got += 1
            ob("step-defined", got > 0, "an iteration step can never be computed")
    ob.q = None

def sign_of(q, rd, d, K, poly, n, sign, strict=0):
    """a fact that the polynomial, as evaluated at d, is at most (sign 1) or at least (-1) zero"""
    want = poly(d) / K ** (n + 1) * sign
    for c in q.f.items:
        if c.op != "le0" or not 0 <= lin(c.args[0])[0] <= 1: continue
        try: t = rd.val(sub(c.args[0], I(lin(c.args[0])[0])))
        except (Unread, ZeroDivisionError): continue
        if t.same(want) and lin(c.args[0])[0] >= strict: return True
    return False

def stated(q, rd, want):
    """a fact that a positive quantity is not positive: only rounding gets there"""
    for c in q.f.items:
        if c.op != "le0" or not 0 <= lin(c.args[0])[0] <= 1: continue
        try: t = rd.val(sub(c.args[0], I(lin(c.args[0])[0])))
        except (Unread, ZeroDivisionError): continue
        if t.same(want): return True
    return False

def positive_there(q, rd, at, poly, n, S):
    """the polynomial is known not to be negative at this decimal"""
    try: d = rd.val(at)
    except (Unread, ZeroDivisionError): return False
    return any(sign_of(q, rd, d * 1000 ** e, const(1000 ** e), poly, n, -1) for e in range(8))

def same_fn(g, name):
    f = lambda s: [x for x in s.split("::") if not x.startswith("{")]
    a, b = f(g), f(name)
    return a[-1] == b[-1] and len(set(a) & set(b)) >= 2

def power(K):
    """e with K = 1000^e"""
    v, e = K.n.get((), 0), 0
    while v > 1: v, e = v / 1000, e + 1
    return e if v == 1 else None

FLOORS["A16"] = 20

"""Analyses every instruction entry point of a program."""
import sys, time
from term import *
from interp import *
import models, anchor, summaries
from anchor import *

class Ix:
    """summary of one instruction: the states of all successful executions"""
    def __init__(self, name, E, states):
        self.name, self.E, self.states = name, E, states
        self.names = E.acct_names
        self.refused = []     # states in which the handler, entered with validated accounts, returns an error
        self.entered = []     # states in which the handler is entered
        self.rejected = []    # states in which the accounts are refused before the handler is entered
    def nm(self, t):
        return self.names.get(t) or show(t)

class RootEngine(Engine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.acct_names = {}
        for f in (summaries.set_harvests,):
            h = f(self.p)
            if h: self.overrides.setdefault(*h)
    def ctx_accounts(self, st, p, T):
        v = self.deref(st, p)
        ad = self.p.adts.get(T.get("path")) if T else None
        self.acct_struct = T.get("path") if T else None
        if ad is None: return
        for i, (n, t) in enumerate(ad["variants"][0]["fields"]):
            x = info(self, st, get_field(v, i))
            if x.op == "acct": self.acct_names[x] = n

class Fns:
    lookup = staticmethod(models.lookup)

def ix_names(prog):
    pre = prog.crate + "::__private::__global::"
    return sorted(b[len(pre):] for b in prog.raw_bodies if b.startswith(pre) and "::" not in b[len(pre):])

def run_ix(prog, name, pre=None, eager=0, **kw):
    E = RootEngine(prog, Fns, **kw)
    E.eager = eager
    b = prog.body(prog.crate + "::__private::__global::" + name)
    st = State()
    n = raw("naccs"); RANGE[n] = (0, 255)
    dl = raw("ixlen"); RANGE[dl] = (0, 2**32)
    args = [cobj(PID), slc(ref(raw("ACCS")), n), slc(ref(raw("IXDATA")), dl)]
    h = prog.body(prog.crate + "::" + prog.crate + "::" + name)
    entered, hout, rejected = [], [], []
    if h is not None:
        def hook(E, s, c, a, fr):
            entered.append(s.copy())
            s.emit("handler", None)
            o = E.exec_body(s.copy(), h, a, fr.depth + 1)
            hout.extend((x.copy(), v) for x, v in o)
            return o
        E.overrides[h.id] = hook
    E.panics = []
    if pre: pre(E, st)
    outs = E.exec_body(st, b, args, 0)
    good = []
    for s, v in outs:
        for s2, ok, p in E.res(s, v):
            if ok: good.append(s2)
            elif h is not None and ("handler", None) not in s2.ev: rejected.append(s2)
    r = Ix(name, E, good)
    r.rejected = rejected
    r.panics = [s for s, w in E.panics if ("handler", None) in s.ev]
    r.entered = entered
    for s, v in hout:
        for s2, ok, _ in E.res(s, v):
            if not ok: r.refused.append(s2)
    return r

if __name__ == "__main__":
    import build
    p = Program(build.dump(sys.argv[1]))
    for n in sys.argv[2:] or ix_names(p):
        t = time.time()
        try:
            r = run_ix(p, n)
            print("%-40s %d states %.2fs steps=%d unknown=%s" % (n, len(r.states), time.time() - t, r.E.steps, dict(r.E.unknown)))
            if len(sys.argv) > 2:
                for s in r.states[:6]:
                    print("--- state")
                    for a, nm in r.names.items(): print("   ", a, nm)
                    for c in s.facts.items: print("   F", c)
                    for k, v in s.mem.items():
                        if k.op in ("data",): print("   M", k, "=", v)
                    for e in s.ev: print("   E", e)
        except Exception as ex:
            import traceback
            print("%-40s FAILED %s" % (n, ex))
            if len(sys.argv) > 2: traceback.print_exc()

"""Analyses single functions on arbitrary arguments."""
from term import *
from interp import *
import models, anchor
from anchor import acct, droot, data0
from roots import RootEngine, Fns

class Fn:
    """all outcomes (state, returned value) of one function"""
    def __init__(self, name, E, outs, args):
        self.name, self.E, self.outs, self.args = name, E, outs, args

def find_fn(prog, name):
    """id of a function named like models::farm::Farm::take_snapshot; impl blocks are matched by their self type"""
    parts = name.split("::")
    c = []
    for b in prog.raw_bodies:
        bp = b.split("::")
        if "{closure" in b or bp[-1] != parts[-1]: continue
        mod = [x for x in bp[1:-1] if not x.startswith("{")]
        if mod == parts[:-1]: c.append(b); continue
        if len(parts) > 1 and parts[-2][:1].isupper() and mod == parts[:-2]:
            # method: the self type names it
            if self_type(prog, b) == parts[-2]: c.append(b)
    if not c and len(parts) > 1:
        # moved to another module of the crate: unique name and self type
        c = [b for b in prog.raw_bodies if "{closure" not in b and b.split("::")[-1] == parts[-1] and self_type(prog, b) == parts[-2]]
    if not c and len(parts) > 1:
        # associated function without a receiver
        c = [b for b in prog.raw_bodies if "{closure" not in b and b.split("::")[-1] == parts[-1] and [x for x in b.split("::")[1:-1] if not x.startswith("{")] == parts[:-2]]
    if len(c) > 1 and sum("{" not in b for b in c) == 1: c = [b for b in c if "{" not in b]
    return c[0] if len(c) == 1 else None

def self_type(prog, b):
    B = prog.body(b)
    if not B.args: return None
    ti = B.locals[1][0] if isinstance(B.locals[1], (list, tuple)) else B.locals[1]
    T = prog.ty(ti)
    while T["k"] == "ref": T = prog.ty(T["of"])
    return T["path"].split("::")[-1] if T["k"] == "adt" else None

def run_fn(prog, id, pre=None, eager=0, **kw):
    E = RootEngine(prog, Fns, **kw)
    E.eager = eager
    b = prog.body(id)
    st = State()
    args = []
    for i in range(1, b.args + 1):
        ti = b.locals[i][0] if isinstance(b.locals[i], (list, tuple)) else b.locals[i]
        T = prog.ty(ti)
        if T["k"] == "ref":
            inner = T.get("of")
            x = acct(i - 1)
            I_ = prog.ty(inner)
            if I_ is not None and I_["k"] == "adt":
                anchor.typed_data(E, x, I_)
                E.typed(data0(x), inner)
            args.append(ref(droot(x)))
        else:
            v = raw("arg", i - 1)
            E.typed(v, ti)
            args.append(v)
    E.panics = []
    if pre: pre(E, st, args)
    r = Fn(id, E, E.exec_body(st, b, args, 0), args)
    r.panics = [s for s, w in E.panics]
    return r

if __name__ == "__main__":
    import sys, build
    p = Program(build.dump(sys.argv[1]))
    id = find_fn(p, sys.argv[2])
    r = run_fn(p, id)
    print(id, len(r.outs), dict(r.E.unknown), r.E.opaque_fns, r.E.steps)
    for s, v in r.outs:
        print("---", show(r.E.deep(s, v))[:600])
        for c in s.facts.items: print("  F", show(c)[:400])
        for k, x in s.mem.items():
            if k.op in ("data", "mem"): print("  M", k, "=", show(x)[:700])

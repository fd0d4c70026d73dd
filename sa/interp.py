"""Path-partitioned abstract interpreter over the dumped MIR.

Values are terms (term.py), states are memory + facts (facts.py) + effects.
Nothing is executed and no solver is used: branches are partitioned by the
facts they establish, loops are widened to a generic iteration whose facts are
then quantified over all iterations."""
import itertools, sys
from term import *
from facts import Facts

sys.setrecursionlimit(20000)

class Imprecise(Exception):
    pass

class Budget(Exception):
    def __init__(self, level): self.level = level

class State:
    __slots__ = ("mem", "facts", "ev")
    def __init__(self, mem=None, facts=None, ev=()):
        self.mem = {} if mem is None else mem
        self.facts = Facts() if facts is None else facts
        self.ev = ev
    def copy(self): return State(dict(self.mem), self.facts, self.ev)
    def emit(self, *e): self.ev = self.ev + (tuple(e),)

SKIP = raw("SKIP")
UNDEF = raw("undef")
OPT, RES, CF, ORD = ("core::option::Option", "core::result::Result",
                     "core::ops::control_flow::ControlFlow", "core::cmp::Ordering")
def Some(v): return raw("agg", ("adt", OPT, 1), (v,))
NONE = raw("agg", ("adt", OPT, 0), ())
def Ok(v): return raw("agg", ("adt", RES, 0), (v,))
def Err(v): return raw("agg", ("adt", RES, 1), (v,))
def Cont(v): return raw("agg", ("adt", CF, 0), (v,))
def Break(v): return raw("agg", ("adt", CF, 1), (v,))
def tup(*a): return agg(("tuple",), a)
def ref(root, path=()): return raw("ref", root, tuple(path))
def cobj(v): return ref(raw("cobj", v))
def slc(r, n): return raw("slice", r, n)
def mbool(b): return TRUE if b else FALSE

class Body:
    def __init__(self, prog, id, b):
        self.prog, self.id, self.b = prog, id, b
        self.blocks = b["blocks"]
        self.locals = b["locals"]
        self.args = b["args"]
        self._cfg = None

    def succ(self, n):
        t = self.blocks[n][1]
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        return []

    def nested(self):
        """contains a loop inside a loop"""
        loops, _ = self.cfg()
        return any(h != k and h in loops[k] for h in loops for k in loops)

    def cfg(self):
        if self._cfg: return self._cfg
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen and self.blocks[y] is not None:
                    seen.add(y); stack.append((y, iter(self.succ(y)))); break
            else:
                order.append(x); stack.pop()
        order.reverse()
        pos = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in self.succ(x):
                if y in pos: pred[y].append(x)
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for x in order[1:]: dom[x] = allb
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                s = None
                for p in pred[x]: s = set(dom[p]) if s is None else s & dom[p]
                s = (s or set()) | {x}
                if s != dom[x]: dom[x] = s; ch = True
        loops = {}
        for x in order:
            for y in self.succ(x):
                if y in pos and y in dom[x]:
                    bodyset = loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z not in bodyset:
                            bodyset.add(z); st.extend(pred[z])
        # liveness of locals at loop headers
        live = {}
        if loops:
            use, dfn, addr = {}, {}, set()
            for x in order:
                u, d = set(), set()
                def useop(o):
                    if o and o[0] in ("cp", "mv"): usepl(o[1])
                def usepl(p):
                    if p[0] not in d: u.add(p[0])
                    for e in p[1]:
                        if e[0] == "i" and e[1] not in d: u.add(e[1])
                def walk(r):
                    k = r[0]
                    if k in ("use",): useop(r[1])
                    elif k == "ref": usepl(r[2]); (addr.add(r[2][0]) if not any(e[0] == "d" for e in r[2][1]) else None)
                    elif k == "repeat": useop(r[1])
                    elif k == "cast": useop(r[2])
                    elif k == "bin": useop(r[2]); useop(r[3])
                    elif k == "un": useop(r[2])
                    elif k == "discr": usepl(r[1])
                    elif k == "agg":
                        for o in r[2]: useop(o)
                for s in self.blocks[x][0]:
                    if s[1] is not None: walk(s[1])
                    if s[0][1]: usepl(s[0])
                    else: d.add(s[0][0])
                t = self.blocks[x][1]
                if t[0] == "switch": useop(t[1])
                elif t[0] == "call":
                    useop(t[1])
                    for o in t[2]: useop(o)
                    if t[3][1]: usepl(t[3])
                    else: d.add(t[3][0])
                elif t[0] == "assert": useop(t[1])
                elif t[0] == "return": u.add(0) if 0 not in d else None
                use[x], dfn[x] = u, d
            lin_ = {x: set() for x in order}
            ch = True
            while ch:
                ch = False
                for x in reversed(order):
                    o = set()
                    for y in self.succ(x):
                        if y in lin_: o |= lin_[y]
                    i = use[x] | (o - dfn[x])
                    if i != lin_[x]: lin_[x] = i; ch = True
            for h in loops: live[h] = lin_[h] | addr
        self._cfg = (loops, live)
        return self._cfg

class Program:
    def __init__(self, dump):
        self.d = dump
        self.crate = dump["crate"]
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.raw_bodies = dump["bodies"]
        self._b = {}
        self._nest = {}
        self.sizes = dump["sizes"]

    def body(self, id):
        b = self._b.get(id)
        if b is None and id in self.raw_bodies:
            b = self._b[id] = Body(self, id, self.raw_bodies[id])
        return b

    def ty(self, i): return self.types[i] if i is not None else None

    def callees(self, b, blocks=None):
        out = []
        for n in (range(len(b.blocks)) if blocks is None else blocks):
            if b.blocks[n] is None: continue
            t = b.blocks[n][1]
            if t[0] == "call" and t[1] and t[1][0] == "k" and isinstance(t[1][1], dict):
                c = t[1][1]
                for i in (c.get("rid"), c.get("id")):
                    if i in self.raw_bodies: out.append(i); break
        return out

    def has_loop(self, b, seen=()):
        k = ("l", b.id)
        if k not in self._nest:
            self._nest[k] = False
            self._nest[k] = bool(b.cfg()[0]) or any(self.has_loop(self.body(i)) for i in self.callees(b))
        return self._nest[k]

    def nested(self, b):
        """a loop runs a loop, here or through local calls"""
        k = ("n", b.id)
        if k not in self._nest:
            self._nest[k] = b.nested() or any(self.has_loop(self.body(i)) for h, bs in b.cfg()[0].items() for i in self.callees(b, bs))
        return self._nest[k]

class Frame:
    __slots__ = ("body", "fid", "depth", "loops")
    def __init__(self, body, fid, depth):
        self.body, self.fid, self.depth = body, fid, depth

def real_effects(e):
    return any(x[0] == "loop" and real_effects(x) or x[0] not in ("wr", "loop") for b, _ in e[3] for x in b)

def prune_local(ev, fid):
    """events without the writes to a frame that has ended"""
    if not any(e[0] == "wr" and e[1].op == "loc" or e[0] == "loop" for e in ev): return ev
    out = []
    for e in ev:
        if e[0] == "wr" and e[1].op == "loc" and e[1].args[0] == fid: continue
        if e[0] == "loop":
            # an iteration with lasting effects keeps its local writes: they relate the effects
            if real_effects(e): out.append(e); continue
            alts = tuple((prune_local(b, fid), d) for b, d in e[3])
            if not any(b for b, _ in alts): continue
            if alts != e[3]: e = e[:3] + (alts,) + e[4:]
        out.append(e)
    return tuple(out) if len(out) != len(ev) or any(x is not y for x, y in zip(out, ev)) else ev

import os as _os
DBG = bool(_os.environ.get("VP_DBG"))
class Engine:
    def __init__(self, prog, models=None, max_states=4000, overrides=None):
        self.p = prog
        self.models = models
        self.uid = itertools.count()
        self.overrides = overrides or {}
        self.max_states = max_states
        self.notes = set()         # imprecision notes
        self.analysed = {}         # body id -> times entered
        self.calls = 0
        self.paths = 0
        self.unknown = {}
        self.stack = []
        self.loop_stack = []
        self.consts = {}
        self.budget = 400000
        self.steps = 0
        self.trace_calls = None
        self.limits = []           # step limits of the nested-loop functions being analysed
        self.havoc_of = {}         # unknown loop value -> its value before the loop
        self.opaque_fns = set()    # functions kept uninterpreted
        self.kept = ()             # functions kept uninterpreted on purpose
        self.vec_hook = None       # facts about list arguments
        self.vec_len = None        # length of list arguments
        self.key_order = None      # the keys of ordered maps, ascending
        self.eager = 0             # > 0: loops are followed iteration by iteration, at most this many

    def fresh(self, name="", rng=None):
        t = raw("sk", next(self.uid), name)
        if rng: RANGE[t] = rng
        return t

    # ------------------------------------------------------------ facts
    def assume(self, st, c):
        """st (mutated) with c, or None"""
        if c is TRUE: return st
        f = st.facts.add(c)
        if f is None: return None
        st.facts = f
        return st

    panics = None        # when a list: (state, what) for every panic that is not ruled out
    def may_panic(self, st, c, what):
        """execution panics here unless c holds"""
        if self.panics is None or c is TRUE: return
        if st.facts.holds(c) is True: return
        s = st.copy()
        if self.assume(s, neg_c(c)): self.panics.append((s, what))

    def branch(self, st, c):
        out = []
        h = st.facts.holds(c)
        if h is True: return [(st, True)]
        if h is False: return [(st, False)]
        a = st.copy()
        if self.assume(a, c): out.append((a, True))
        b = st.copy()
        if self.assume(b, neg_c(c)): out.append((b, False))
        return out

    def holds(self, st, c): return st.facts.holds(c) is True

    def dec(self, st):
        return lambda c: st.facts.holds(c)

    # ------------------------------------------------------------ memory
    def init_root(self, root):
        op = root.op
        if op == "cobj": return root.args[0]
        if op == "deref":
            t = root.args[0]
            if t.op == "keyref": return raw("key", t.args[0])
            if t.op == "ownerref": return raw("owner", t.args[0])
            return raw("pt", t)
        if op == "data": return raw("data0", root.args[0])
        if op == "ACCS": return raw("accs")
        if op == "mem": return raw("data0", root.args[0])
        if op in ("loc", "tmp"): return UNDEF
        return raw("init", root)

    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None: v = self.init_root(root)
        return self.getp(st, v, path)

    def getp(self, st, v, path):
        off = None
        for e in path:
            k = e[0]
            if off is not None and k != "i":
                if k == "sub":
                    off = add(off, e[1]); continue
                v = raw("subv", v, off); off = None
            if k == "f":
                v = get_field(v, e[1]) if v.op != "pundef" else dict(v.args[0]).get(e[1], UNDEF)
            elif k == "vf": v = get_vfield(v, e[1], e[2])
            elif k == "i":
                i = e[1] if off is None else add(off, e[1])
                off = None
                v = sel(v, i, self.dec(st))
            elif k == "k": v = self.bm_read(st, v, e[1])
            elif k == "sub":
                off = e[1]
        if off is not None:
            v = v if off is ZERO and False else raw("subv", v, off)
        return v

    def setp(self, st, v, path, x):
        if not path: return x
        e, rest = path[0], path[1:]
        if e[0] == "f":
            return set_field(v, e[1], self.setp(st, get_field(v, e[1]) if v.op not in ("undef", "pundef") else (dict(v.args[0]).get(e[1], UNDEF) if v.op == "pundef" else UNDEF), rest, x) if rest else x)
        if e[0] == "vf":
            return set_vfield(v, e[1], e[2], self.setp(st, get_vfield(v, e[1], e[2]), rest, x) if rest else x)
        if e[0] == "i":
            return store(v, e[1], self.setp(st, sel(v, e[1], self.dec(st)), rest, x) if rest else x, self.dec(st))
        if e[0] == "sub":
            if rest and rest[0][0] == "i":
                return self.setp(st, v, (("i", add(e[1], rest[0][1])),) + rest[1:], x)
            if rest and rest[0][0] == "sub":
                return self.setp(st, v, (("sub", add(e[1], rest[0][1])),) + rest[1:], x)
            return raw("subset", v, e[1], x)
        if e[0] == "k":
            y = self.setp(st, self.bm_read(st, v, e[1]), rest, x) if rest else x
            return self.bm_write(st, v, e[1], y)
        raise Imprecise("path %s" % (e,))

    # an ordered map is raw("bm", base, ((key, value), ...)): explicit bindings over a base
    def bm_find(self, st, v, k):
        """(known, value or None)"""
        if v.op != "bm": return False, None
        for kk, x in v.args[1]:
            if kk is k: return True, (x if x.op != "absent" else None)
            h = st.facts.holds(eq(kk, k))
            if h is True: return True, (x if x.op != "absent" else None)
            if h is None: return False, None
        if v.args[0].op == "bempty": return True, None
        return False, None

    def bm_read(self, st, v, k):
        known, x = self.bm_find(st, v, k)
        if known and x is not None: return x
        return raw("bval", v, k)

    def bm_write(self, st, v, k, x):
        base, ents = (v.args[0], v.args[1]) if v.op == "bm" else (v, ())
        if x.op == "bval" and x.args[1] is k and not any(e[0] is k for e in ents) and x.args[0] is (v if v.op == "bm" else base): return v
        ents = tuple(e for e in ents if e[0] is not k)
        return raw("bm", base, ((k, x),) + ents)

    def write(self, st, root, path, x):
        if not path:
            st.mem[root] = x
            return
        v = st.mem.get(root)
        if v is None: v = self.init_root(root)
        if any(e[0] == "k" or e[0] == "i" and not isconst(e[1]) for e in path) and (root.op in ("mem", "data") or self.loop_stack and any(e[0] == "k" for e in path)):
            st.emit("wr", root, path, self.getp(st, v, path), x)
        st.mem[root] = self.setp(st, v, path, x)

    def ptr(self, p):
        """(root, path) a pointer value designates"""
        while p.op in ("slice", "guard", "boxv", "unsz"): p = p.args[0]
        if p.op == "ref": return p.args[0], p.args[1]
        return raw("deref", p), ()

    def deref(self, st, p):
        r, pa = self.ptr(p)
        return self.read(st, r, pa)

    def deep(self, st, p):
        """strip references until a non-pointer value"""
        for _ in range(8):
            if p.op in ("ref", "slice", "boxv", "guard"): p = self.deref(st, p)
            else: break
        return p

    def ext(self, p, *steps):
        r, pa = self.ptr(p)
        return ref(r, self.norm_path(pa + steps))

    def norm_path(self, path):
        out = []
        for e in path:
            if out and out[-1][0] == "sub" and e[0] == "i":
                b = out.pop()
                out.append(("i", add(b[1], e[1])))
            elif out and out[-1][0] == "sub" and e[0] == "sub":
                b = out.pop()
                s = add(b[1], e[1])
                if s is not ZERO: out.append(("sub", s))
            elif e[0] == "sub" and e[1] is ZERO: pass
            else: out.append(e)
        return tuple(out)

    # ------------------------------------------------------------ types
    def typed(self, v, ty):
        if ty is None: return v
        t = self.p.types[ty]
        if t["k"] == "prim":
            r = INT_TY.get(t["s"])
            if v.op == "zeroed": return FALSE if t["s"] == "bool" else ZERO
            if r and v.op not in ("poly",): RANGE.setdefault(v, r)
        elif t["k"] == "array":
            if v.op not in ("agg", "rep", "store", "comp", "undef") and isinstance(t.get("len"), int): ARRLEN.setdefault(v, t["len"])
        elif t["k"] == "adt":
            if v.op == "zeroed" and t["path"].endswith("::Pubkey"): return raw("cpub", "default")
            a = self.p.adts.get(t["path"])
            if a and a["kind"] == "struct": FIELDS.setdefault(v, len(a["variants"][0]["fields"]))
        elif t["k"] == "tuple":
            FIELDS.setdefault(v, len(t["of"]))
        return v

    def place_ty(self, fr, pl):
        t = fr.body.locals[pl[0]][0]
        for e in pl[1]:
            if t is None: return None
            T = self.p.types[t]
            if e[0] == "d":
                t = T.get("of") if T["k"] in ("ref", "ptr") else (T["args"][0] if T["k"] == "adt" and T.get("args") else None)
            elif e[0] == "f": t = e[2]
            elif e[0] in ("i", "c"): t = T.get("of") if T["k"] in ("array", "slice") else None
            elif e[0] == "s": t = t
        return t

    # ------------------------------------------------------------ operands
    def place(self, st, fr, pl):
        root, path = raw("loc", fr.fid, pl[0]), ()
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.read(st, root, path)
                root, path = self.ptr(v)
            elif k == "f":
                path = path + ((("vf", var, e[1]) if var is not None else ("f", e[1])),)
                var = None
            elif k == "v": var = e[1]
            elif k == "i":
                i = self.read(st, raw("loc", fr.fid, e[1]), ())
                path = self.norm_path(path + (("i", i),))
            elif k == "c":
                if e[3]:
                    n = self.place_len(st, fr, root, path)
                    path = self.norm_path(path + (("i", addc(n, -e[1])),))
                else:
                    path = self.norm_path(path + (("i", I(e[1])),))
            elif k == "s":
                path = self.norm_path(path + (("sub", I(e[1])),))
        return root, path

    def place_len(self, st, fr, root, path):
        return arrlen(self.read(st, root, path))

    def use(self, st, fr, pl):
        root, path = self.place(st, fr, pl)
        v = self.read(st, root, path)
        return self.typed(v, self.place_ty(fr, pl))

    def const(self, c, fr=None):
        T = self.p.types[c["t"]] if c.get("t") is not None else {"k": "?", "s": "?"}
        if "fn" in c:
            key = "%s|%s" % (c.get("rid") or c["id"], ",".join(map(str, c.get("args") or ())))
            self.consts[key] = c
            return raw("fnitem", key)
        if "int" in c:
            if T["s"] == "bool": return mbool(c["int"])
            n = c["int"]
            if T["s"] in INT_TY and INT_TY[T["s"]][0] < 0 and n > INT_TY[T["s"]][1]:
                n -= 2 * INT_TY[T["s"]][1] + 2
            return I(n)
        if "promoted" in c:
            return self.promoted(c)
        if "bytes" in c:
            b = raw("cbytes", c["bytes"])
            ARRLEN[b] = len(c["bytes"]) // 2
            if T["k"] in ("ref", "ptr"):
                inner = self.p.types[T["of"]]
                r = cobj(b)
                if inner["k"] in ("slice",) or inner["s"] == "str": return slc(r, I(len(c["bytes"]) // 2))
                return r
            if T["s"] == "anchor_lang::prelude::Pubkey" or T.get("path", "").endswith("Pubkey"): return self.pubkey_const(c["bytes"], c)
            return b
        if "variant" in c and "fields" in c:
            return self.constval(c, c["t"], c)
        if "refval" in c:
            return cobj(self.const(c["refval"]))
        if "val" in c:
            return self.constval(c["val"], c["t"], c)
        if "zst" in c:
            if T["k"] == "closure": return raw("agg", ("closure", T["id"]), ())
            if T["k"] == "tuple": return UNIT
            if T["k"] == "adt":
                a = self.p.adts.get(T["path"])
                if a and a["kind"] == "struct":
                    return raw("agg", ("adt", T["path"], 0), ())
            return raw("zst", T["s"])
        return raw("kopaque", str(c.get("path") or c.get("opaque")), T["s"])

    def pubkey_const(self, hexs, c):
        if set(hexs) <= {"0"}: return raw("cpub", "default")
        if (c.get("path") or c.get("def") or "").split("::")[-1] == "ID" and (c.get("def") or c.get("path") or "").startswith((self.p.crate, "ID")):
            return raw("pid")
        return raw("cpub", hexs)

    def constval(self, v, ty, c):
        T = self.p.types[ty] if ty is not None else {"k": "?", "s": "?"}
        if isinstance(v, dict) and "variant" in v:
            fs = [self.const(f) for f in v["fields"]]
            if T["k"] == "adt":
                if T["path"].endswith("::Pubkey") and fs:
                    f = fs[0]
                    if f.op == "cbytes": return self.pubkey_const(f.args[0], c)
                    if f.op == "agg" and all(isconst(x) for x in f.args[1]): return self.pubkey_const("".join("%02x" % cval(x) for x in f.args[1]), c)
                return raw("agg", ("adt", T["path"], v["variant"] or 0), tuple(fs))
            if T["k"] == "array": return arr(fs)
            return tup(*fs)
        return raw("kopaque", str(v), T["s"])

    def promoted(self, c):
        id = "%s#promoted%d" % (c["of"], c["promoted"])
        key = ("prom", id)
        r = self.consts.get(key)
        if r is None:
            b = self.p.body(id)
            if b is None: r = raw("kopaque", id, "")
            else:
                st = State()
                try:
                    outs = self.exec_body(st, b, [], 0)
                    r = outs[0][1] if len(outs) == 1 else raw("kopaque", id, "")
                    r = self.freeze(outs[0][0], r)
                except Imprecise:
                    r = raw("kopaque", id, "")
            self.consts[key] = r
        return r

    def freeze(self, st, v):
        """replace references to a dead frame's memory by constant objects"""
        if v.op == "ref" and v.args[0].op in ("loc", "tmp"):
            x = self.freeze(st, self.read(st, v.args[0], v.args[1]))
            return cobj(x)
        if v.op == "slice": return slc(self.freeze(st, v.args[0]), v.args[1])
        if v.op == "agg": return raw("agg", v.args[0], tuple(self.freeze(st, x) for x in v.args[1]))
        return v

    def operand(self, st, fr, o):
        if o[0] == "k":
            c = o[1]
            if c.get("path") and not ("int" in c or "bytes" in c or "refval" in c or "val" in c or "fn" in c or "promoted" in c or "zst" in c):
                return self.named_const(c)
            return self.const(c, fr)
        return self.use(st, fr, o[1])

    def named_const(self, c):
        id = c.get("def") or c["path"]
        b = self.p.body(id)
        if b is not None and b.b["kind"] in ("const", "anonconst"):
            outs = self.exec_body(State(), b, [], 0)
            if len(outs) == 1: return self.freeze(outs[0][0], outs[0][1])
        return self.const(c)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.place(st, fr, r[2])
            ty = self.place_ty(fr, r[2])
            # reborrow of an unsized place keeps its length
            pl = r[2]
            if pl[1] and pl[1][-1][0] == "d":
                p = self.read(st, *self.place(st, fr, [pl[0], pl[1][:-1]]))
                if p.op in ("slice", "unsz"): return p
                if root.op == "deref" and not path: return root.args[0]
            if pl[1] and pl[1][-1][0] == "s":
                n = self.place_len_of(st, fr, [pl[0], pl[1][:-1]])
                e = pl[1][-1]
                ln = sub(addc(n, -e[2]), I(e[1])) if e[3] else I(e[2] - e[1])
                return slc(ref(root, path), ln)
            if ty is not None: self.typed(self.read(st, root, path), ty)
            return ref(root, path)
        if k == "cast": return self.cast(st, fr, r)
        if k == "bin": return self.binop(st, fr, r)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = self.optype(fr, r[2])
                if t and self.p.types[t]["s"] == "bool": return neg_c(a)
                return raw("bitnot", a)
            if r[1] == "Neg": return neg(a)
            if r[1] == "PtrMetadata":
                if a.op == "slice": return a.args[1]
                return arrlen(self.deref(st, a))
            return raw("un", r[1], a)
        if k == "discr":
            v = self.use(st, fr, r[1])
            return raw("discr", v, self.place_ty(fr, r[1]) or -1)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            tag = r[1]
            if tag[0] == "adt":
                a = self.p.adts.get(tag[1])
                if a and a["kind"] == "union": return raw("agg", ("adt", tag[1], 0), tuple(ops))
                if a and a["kind"] == "enum": return raw("agg", ("adt", tag[1], tag[2]), tuple(ops))
                return agg(("adt", tag[1], tag[2]), ops)
            if tag[0] == "tuple": return agg(("tuple",), ops)
            if tag[0] == "array": return arr(ops)
            if tag[0] == "closure": return raw("agg", ("closure", tag[1]), tuple(ops))
            return raw("agg", tuple(x if not isinstance(x, list) else tuple(x) for x in tag), tuple(ops))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, int): return raw("rep", v, I(n))
            T = self.p.types[dty] if dty is not None else {}
            return raw("rep", v, I(T["len"])) if isinstance(T.get("len"), int) else raw("rep", v, self.fresh("n", (0, 2**63)))
        if k == "len":
            return self.place_len_of(st, fr, r[1])
        return raw("opaque", next(self.uid))

    def place_len_of(self, st, fr, pl):
        if pl[1] and pl[1][-1][0] == "d":
            p = self.read(st, *self.place(st, fr, [pl[0], pl[1][:-1]]))
            if p.op == "slice": return p.args[1]
        return arrlen(self.use(st, fr, pl))

    def optype(self, fr, o):
        if o[0] == "k": return o[1].get("t")
        return self.place_ty(fr, o[1])

    def cast(self, st, fr, r):
        kind, v = r[1], self.operand(st, fr, r[2])
        src, dst = self.optype(fr, r[2]), r[3]
        S = self.p.types[src] if src is not None else {"k": "?", "s": "?"}
        D = self.p.types[dst]
        if "Unsize" in kind:
            if S["k"] in ("ref", "ptr"):
                inner = self.p.types[S["of"]]
                if inner["k"] == "array" and isinstance(inner.get("len"), int): return slc(v, I(inner["len"]))
            if S["k"] == "adt":
                return v
            return v
        if kind.startswith("IntToInt") or "IntToInt" in kind:
            if S["s"] == "bool":
                x = v
                if x is TRUE: return ONE
                if x is FALSE: return ZERO
                t = raw("b2i", x); RANGE.setdefault(t, (0, 1)); return t
            if v.op == "discr":
                return raw("discr_i", v)
            a, b = INT_TY.get(S["s"]), INT_TY.get(D["s"])
            if S["s"] == "char" or not a or not b:
                t = raw("castint", v, D["s"]); RANGE.setdefault(t, b or (0, 2**32)); return t
            if b[0] <= a[0] and a[1] <= b[1]: return v
            if isconst(v) and b[0] <= cval(v) <= b[1]: return v
            if st.facts.holds(le(v, I(b[1]))) is True and st.facts.holds(le(I(b[0]), v)) is True: return v
            t = raw("trunc", v, D["s"]); RANGE.setdefault(t, b)
            return t
        if "Transmute" in kind or "PtrToPtr" in kind or "PointerCoercion" in kind or "FnPtr" in kind:
            return v
        return raw("cast", v, D["s"])

    def binop(self, st, fr, r):
        op = r[1]
        a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
        ty = self.optype(fr, r[2])
        T = self.p.types[ty] if ty is not None else {"s": "?", "k": "?"}
        rng = INT_TY.get(T["s"])
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul") and rng:
            v = add(a, b) if base == "Add" else sub(a, b) if base == "Sub" else mul(a, b)
            if op.endswith("WithOverflow"):
                return tup(v, raw("ovf", base, v, rng))
            if op == base: # plain wrapping arithmetic
                if st.facts.holds(self.inrange(v, rng)) is True: return v
                t = raw("wrap", v, T["s"]); RANGE.setdefault(t, rng); return t
            return v
        if base == "Div" and rng: return div(a, b)
        if base == "Rem" and rng: return rem(a, b)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if T["s"] == "bool":
                if base == "Eq": return eq(a, b)
                if base == "Ne": return ne(a, b)
            if T["k"] == "ptr" or T["k"] == "ref":
                return raw("ptrcmp", base, a, b)
            if a.op == "discr" or b.op == "discr":
                return self.discr_cmp(base, a, b)
            if rng or T["s"] == "char":
                for x in (a, b):
                    if x.op != "poly": RANGE.setdefault(x, rng or (0, 2**32))
                return {"Eq": lambda: eq0(sub(a, b)), "Ne": lambda: neg_c(eq0(sub(a, b))), "Lt": lambda: lt(a, b),
                        "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[base]()
            return raw("cmpop", base, a, b)
        if T["s"] == "bool" and base in ("BitAnd", "BitOr", "BitXor"):
            if base == "BitAnd": return and_(a, b)
            if base == "BitOr": return or_(a, b)
            return neg_c(eq(a, b))
        if isconst(a) and isconst(b):
            x, y = cval(a), cval(b)
            if base == "Shl" and rng: return I((x << y) & rng[1])
            if base == "Shr": return I(x >> y)
            if base == "BitAnd": return I(x & y)
            if base == "BitOr": return I(x | y)
            if base == "BitXor": return I(x ^ y)
        if base == "Shl" and isconst(b) and rng:
            v = mul(a, I(1 << cval(b)))
            t = raw("wrap", v, T["s"]); RANGE.setdefault(t, rng); return t
        if base == "Shr" and isconst(b): return div(a, I(1 << cval(b)))
        if base == "Offset": return raw("offset", a, b)
        t = raw("bop", base, a, b)
        if rng: RANGE.setdefault(t, rng)
        return t

    def discr_cmp(self, base, a, b):
        if b.op == "discr" and a.op != "discr": a, b = b, a
        n = cval(b)
        if n is not None and base in ("Eq", "Ne"):
            c = self.is_discr(a, n)
            return c if base == "Eq" else neg_c(c)
        return raw("cmpop", base, a, b)

    def is_discr(self, d, n):
        v, ty = d.args
        idx = n
        a = self.adt_of(ty)
        if a:
            for i, x in enumerate(a["variants"]):
                if x["discr"] == n: idx = i
        return self.is_variant(v, idx)

    def adt_of(self, ty):
        if ty is None or ty < 0: return None
        T = self.p.types[ty]
        return self.p.adts.get(T.get("path")) if T["k"] == "adt" else None

    def is_variant(self, v, idx):
        if v.op == "agg" and v.args[0][0] == "adt": return mbool(v.args[0][2] == idx)
        if v.op == "with": return self.is_variant(v.args[0], idx)
        if v.op == "ordcmp":
            a, b = v.args
            return lt(a, b) if idx == 0 else eq0(sub(a, b)) if idx == 1 else lt(b, a)
        return raw("is", v, idx)

    def inrange(self, v, rng):
        return and_(le(I(rng[0]), v), le(v, I(rng[1])))

    def ovf_cond(self, c):
        """condition under which the checked operation does not overflow"""
        base, v, rng = c.args
        cs = []
        if base == "Sub" or rng[0] < 0: cs.append(le(I(rng[0]), v))
        if base != "Sub" or rng[0] < 0: cs.append(le(v, I(rng[1])))
        return and_(*cs)

    # ------------------------------------------------------------ variants
    def variant(self, st, v, n_or_adt):
        """partition st by the variant of enum value v: [(st, idx)]"""
        if v.op == "with": v0 = v.args[0]
        else: v0 = v
        if v0.op == "agg" and v0.args[0][0] == "adt": return [(st, v0.args[0][2])]
        n = n_or_adt if isinstance(n_or_adt, int) else len(self.p.adts[n_or_adt]["variants"])
        out = []
        cs = [self.is_variant(v, i) for i in range(n)]
        for i in range(n):
            h = st.facts.holds(cs[i])
            if h is True: return [(st, i)]
        for i in range(n):
            if st.facts.holds(cs[i]) is False: continue
            s = st.copy()
            if self.assume(s, cs[i]): out.append((s, i))
        return out

    def opt(self, st, v):
        """[(st, payload or None)] for an Option"""
        return [(s, get_vfield(v, 1, 0) if i == 1 else None) for s, i in self.variant(st, v, 2)]

    def res(self, st, v):
        """[(st, is_ok, payload)] for a Result"""
        return [(s, i == 0, get_vfield(v, i, 0)) for s, i in self.variant(st, v, 2)]

    # ------------------------------------------------------------ execution
    def exec_body(self, st, body, args, depth):
        if depth > 60: raise Imprecise("recursion in " + body.id)
        if body.id in self.stack and self.stack.count(body.id) > 2: raise Imprecise("recursion in " + body.id)
        self.analysed[body.id] = self.analysed.get(body.id, 0) + 1
        fr = Frame(body, next(self.uid), depth)
        for i, a in enumerate(args):
            st.mem[raw("loc", fr.fid, i + 1)] = self.typed(a, body.locals[i + 1][0]) if i + 1 < len(body.locals) else a
        self.stack.append(body.id)
        try:
            outs = self.run(st, fr, 0, frozenset(), None)
        finally:
            self.stack.pop()
        res = []
        for s, kind, b in outs:
            if kind != "ret": continue
            v = s.mem.get(raw("loc", fr.fid, 0), UNIT)
            if "#promoted" in body.id: v = self.freeze(s, v)
            for k in [k for k in s.mem if k.op == "loc" and k.args[0] == fr.fid]: del s.mem[k]
            s.ev = prune_local(s.ev, fr.fid)
            res.append((s, v))
        return self.merge(res)

    def merge(self, res):
        """drop duplicates; undo partitions on a condition that made no difference"""
        if len(res) < 2: return res
        ch = True
        while ch and len(res) > 1:
            ch = False
            groups = {}
            for s, v in res:
                groups.setdefault((v, s.ev, frozenset(s.mem.items())), []).append(s)
            out = []
            for (v, ev, _), ss in groups.items():
                ss = list(ss)
                i = 0
                while i < len(ss):
                    j = i + 1
                    while j < len(ss):
                        fi, fj = ss[i].facts.items, ss[j].facts.items
                        di = [c for c in fi if c not in fj]
                        dj = [c for c in fj if c not in fi]
                        if not di or not dj:
                            if not dj: pass
                            keep = [c for c in fi if c in fj]
                            ss[i].facts = Facts(keep) if di else ss[i].facts
                            ss.pop(j); ch = True
                        elif len(di) == 1 and len(dj) == 1 and neg_c(di[0]) is dj[0]:
                            ss[i].facts = Facts([c for c in fi if c in fj])
                            ss.pop(j); ch = True
                        else: j += 1
                    i += 1
                out += [(s, v) for s in ss]
            res = out
        return res

    def run(self, st, fr, start, stops, within):
        """explore from block start; [(state, kind, block)], kind in ret/stop/exit"""
        out = []
        work = [(st, start, True)]
        loops, live = fr.body.cfg()
        while work:
            st, bb, first = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget: raise Imprecise("budget exceeded in " + fr.body.id)
                for q, lim in enumerate(self.limits):
                    if self.steps > lim: raise Budget(q)
                if not first:
                    if bb in stops: out.append((st, "stop", bb)); break
                    if within is not None and bb not in within: out.append((st, "exit", bb)); break
                if bb in loops and not (first and within is not None and start == bb):
                    for s, b in self.mir_loop(st, fr, bb):
                        if b is None: out.append((s, "ret", None))
                        else: work.append((s, b, False))
                    break
                first = False
                nxt = self.step_block(st, fr, bb)
                if not nxt: break
                ret = [x for x in nxt if x[1] is None]
                for s, _ in ret: out.append((s, "ret", None))
                sk = [x for x in nxt if x[1] == "skip"]
                for s, _ in sk: out.append((s, "skip", None))
                nxt = [x for x in nxt if x[1] is not None and x[1] != "skip"]
                if not nxt: break
                for s, b in nxt[1:]: work.append((s, b, False))
                st, bb = nxt[0]
                if len(work) > self.max_states: raise Imprecise("too many partitions in " + fr.body.id)
        return out

    def step_block(self, st, fr, bb):
        stmts, term = fr.body.blocks[bb][0], fr.body.blocks[bb][1]
        for s in stmts:
            pl, rv = s[0], s[1]
            if rv is None or rv[0] == "nop": continue
            if rv[0] == "setdiscr":
                root, path = self.place(st, fr, pl)
                self.write(st, root, path, raw("agg", ("adt", "?", rv[1]), ()))
                continue
            dty = self.place_ty(fr, pl)
            v = self.rvalue(st, fr, rv, dty)
            root, path = self.place(st, fr, pl)
            self.write(st, root, path, self.typed(v, dty))
        k = term[0]
        if k == "goto": return [(st, term[1])]
        if k == "return": return [(st, None)]
        if k in ("unreachable", "diverge"): return []
        if k == "drop": return [(st, term[2])]
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if c.op == "ovf": c = self.ovf_cond(c) if not term[2] else neg_c(self.ovf_cond(c))
            elif not term[2]: c = neg_c(c)
            self.may_panic(st, c, fr.body.id)
            return [(st, term[4])] if self.assume(st, c) else []
        if k == "switch": return self.switch(st, fr, term)
        if k == "call":
            c = term[1]
            args = [self.operand(st, fr, o) for o in term[2]]
            if c[0] == "k" and "fn" in c[1]: outs = self.call_fn(st, fr, c[1], args, term)
            else:
                outs = self.call_value(st, self.operand(st, fr, c), args, fr.depth)
            res = []
            for s, v in outs:
                if v is SKIP:
                    res.append((s, "skip")); continue
                if term[4] is None: continue
                root, path = self.place(s, fr, term[3])
                self.write(s, root, path, self.typed(v, self.place_ty(fr, term[3])))
                res.append((s, term[4]))
            return res
        raise Imprecise("terminator %s" % k)

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        ty = self.optype(fr, term[1])
        T = self.p.types[ty] if ty is not None else {"s": "?"}
        out = []
        rest = []
        alive = True
        for n, b in term[2]:
            if v.op == "discr": c = self.is_discr(v, n)
            elif T["s"] == "bool":
                c = neg_c(v) if n == 0 else v
                if v.op == "ovf": c = self.ovf_cond(v) if n == 0 else neg_c(self.ovf_cond(v))
            else:
                rng = INT_TY.get(T["s"])
                if v.op != "poly": RANGE.setdefault(v, rng or (0, 2**64 - 1))
                if rng and rng[0] < 0 and n > rng[1]: n -= 2 * rng[1] + 2
                c = eq0(addc(v, -n))
            h = st.facts.holds(c)
            if h is False: continue
            if h is True:
                out.append((st, b)); alive = False
                break
            s = st.copy()
            if self.assume(s, c): out.append((s, b))
            if not self.assume(st, neg_c(c)):
                alive = False
                break
        if alive and term[3] is not None and fr.body.blocks[term[3]] is not None and fr.body.blocks[term[3]][1][0] != "unreachable":
            if v.op == "discr":
                # exhaustive enumeration leaves nothing for the default
                a = self.adt_of(v.args[1])
                if a:
                    left = [i for i, x in enumerate(a["variants"]) if st.facts.holds(self.is_variant(v.args[0], i)) is not False]
                    if not left: return out
                    if len(left) == 1:
                        if not self.assume(st, self.is_variant(v.args[0], left[0])): return out
            out.append((st, term[3]))
        return out

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fr, c, args, term=None):
        self.calls += 1
        rid = c.get("rid")
        if self.trace_calls is not None: self.trace_calls.append((c.get("rpath") or c["fn"], args))
        ov = self.overrides.get(rid) or self.overrides.get(c["id"])
        if ov:
            r = ov(self, st, c, args, fr)
            if r is not None: return r
        m = self.models.lookup(self, c) if self.models else None
        if m is not None:
            r = m(self, st, c, args, fr)
            if r is not None: return r
        b = self.p.body(rid) if rid else None
        if b is None: b = self.p.body(c["id"])
        if b is not None and b.b["kind"] in ("fn", "closure"):
            return self.call_local(st, b, c, args, fr, term)
        return self.opaque_call(st, c, args, fr, term)

    NEST_BUDGET = 2500
    def call_local(self, st, b, c, args, fr, term):
        if self.eager:
            if b.id in self.opaque_fns or any(b.id.endswith(x) for x in self.kept): return self.opaque_call(st, c, args, fr, term, b.id not in self.opaque_fns)
            depth, ls = len(self.stack), len(self.loop_stack)
            try: return self.exec_body(st.copy(), b, args, fr.depth + 1)
            except Imprecise as e:
                if not str(e).startswith("loop longer"): raise
                del self.stack[depth:]
                del self.loop_stack[ls:]
                self.opaque_fns.add(b.id)
                return self.opaque_call(st, c, args, fr, term)
        if b.id in self.opaque_fns: return self.opaque_call(st, c, args, fr, term)
        if not self.p.nested(b): return self.summarise(st, b, c, args, self.exec_body(st.copy(), b, args, fr.depth + 1))
        depth, ls = len(self.stack), len(self.loop_stack)
        self.limits.append(self.steps + self.NEST_BUDGET)
        lvl = len(self.limits) - 1
        try:
            return self.summarise(st, b, c, args, self.exec_body(st.copy(), b, args, fr.depth + 1))
        except (Budget, Imprecise) as e:
            if isinstance(e, Budget) and e.level != lvl: raise
            del self.stack[depth:]
            del self.loop_stack[ls:]
            self.opaque_fns.add(b.id)
            return self.opaque_call(st, c, args, fr, term)
        finally:
            del self.limits[lvl:]

    PURE_CAP = 4
    def summarise(self, st, b, c, args, outs):
        """an effect-free function with many outcomes is kept as one uninterpreted value"""
        if len(outs) <= self.PURE_CAP and (len(outs) <= 3 or not all(self.uninterpreted(st, s, v) for s, v in outs)): return outs
        for s, v in outs:
            if s.ev != st.ev or v.op in ("ref", "slice", "guard", "it", "itw"): return outs
            for k, m in s.mem.items():
                if k.op != "tmp" and st.mem.get(k) is not m:
                    if DBG: print("impure", b.id, show(k), show(m)[:200])
                    return outs
            if v.op == "agg" and any(x.op in ("ref", "slice", "guard", "it", "itw") for x in v.args[1]): return outs
        groups = {}
        for s, v in outs:
            isres = v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1] in (RES, OPT)
            groups.setdefault(v.args[0] if isres else None, []).append((s, v))
        if None in groups and len(groups) > 1: return outs
        app = raw("app", c.get("rpath") or c["fn"], tuple(self.snapshot(st, a) for a in args))
        res = []
        for tag, g in groups.items():
            if len(g) == 1: res.append(g[0]); continue
            vs = {v for _, v in g}
            if len(vs) == 1: v = g[0][1]
            elif tag is None:
                v = app
                if all(isint(x) for x in vs): RANGE.setdefault(v, (min(RANGE.get(x, (0, 0))[0] for x in vs), 2**192 - 1))
            else:
                n = len(g[0][1].args[1])
                fs = []
                for i in range(n):
                    col = {v.args[1][i] for _, v in g}
                    x = g[0][1].args[1][i] if len(col) == 1 else raw("vf", app, tag[2], i)
                    if len(col) > 1 and all(isint(y) for y in col):
                        RANGE.setdefault(x, (0, max(RANGE.get(y, (0, 2**192 - 1))[1] for y in col)))
                    fs.append(x)
                v = raw("agg", tag, tuple(fs))
            common = [q for q in g[0][0].facts.items if all(q in s.facts.items for s, _ in g)]
            r = st.copy()
            r.facts = Facts(common)
            res.append((r, v))
        self.notes.add("summarised " + b.id)
        return res

    def uninterpreted(self, st, s, v):
        """the outcome rests on a function that was kept uninterpreted"""
        def has(t): return any(x.op in ("app", "eff") and x.args[0] in self.unknown for x in subterms(t))
        return has(v) or any(has(q) for q in s.facts.items if q not in st.facts.items)

    def opaque_call(self, st, c, args, fr, term=None, meant=False):
        name = c.get("rpath") or c["fn"]
        if not meant: self.unknown[name] = self.unknown.get(name, 0) + 1
        b = None
        # effects: every location reachable through a mutable reference is lost
        vals = tuple(self.snapshot(st, a) for a in args)
        hav = False
        tys = []
        if term is not None: tys = [self.optype(fr, o) for o in term[2]]
        for i, (ty, a) in enumerate(zip(tys, args)):
            T = self.p.types[ty] if ty is not None else None
            if T and T["k"] == "ref" and T.get("mut") and a.op in ("ref", "slice", "guard", "boxv"):
                r, pa = self.ptr(a)
                old = self.read(st, r, pa)
                x = raw("eff", name, i, vals)
                if old in FIELDS: FIELDS.setdefault(x, FIELDS[old])
                if cval(arrlen(old)) is not None and (old in ARRLEN or old.op in ("agg", "rep", "store")): ARRLEN.setdefault(x, cval(arrlen(old)))
                if isint(old): RANGE.setdefault(x, RANGE.get(old, (0, 2**64 - 1)))
                self.write(st, r, pa, x)
        return [(st, raw("app", name, vals))]

    def snapshot(self, st, v, d=0):
        """value with references replaced by what they point at"""
        if d > 6: return v
        if v.op in ("ref", "slice", "guard", "boxv"):
            r, pa = self.ptr(v)
            x = self.read(st, r, pa)
            if x.op == "subv" and x.args[1] is ZERO: x = x.args[0]
            return raw("at", self.snapshot(st, x, d + 1))
        if v.op == "agg": return agg(v.args[0], [self.snapshot(st, x, d + 1) for x in v.args[1]])
        return v

    def call_value(self, st, f, args, depth=0):
        """call a function value (closure, fn item, reference to either)"""
        f0 = f
        v = f
        for _ in range(4):
            if v.op in ("ref", "boxv"): v = self.deref(st, v)
            else: break
        if v.op == "agg" and v.args[0][0] == "closure":
            b = self.p.body(v.args[0][1])
            if b is None: return [(st, self.fresh("closure"))]
            lt_ = self.p.types[b.locals[1][0]] if len(b.locals) > 1 else {"k": "?"}
            if lt_["k"] == "ref":
                self_arg = f0 if f0.op == "ref" and self.deref(st, f0) is v else cobj(v)
            else: self_arg = v
            n = b.args - 1
            a = list(args)
            if len(a) != n and len(a) == 1 and a[0].op == "agg" and a[0].args[0][0] == "tuple": a = list(a[0].args[1])
            if len(a) != n: raise Imprecise("closure arity %s" % b.id)
            return self.exec_body(st, b, [self_arg] + a, depth + 1)
        if v.op == "fnitem":
            c = self.consts[v.args[0]]
            fr = Frame(self.p.body(self.stack[-1]) if self.stack else None, -1, depth)
            ctor = self.ctor(c, args)
            if ctor is not None: return [(st, ctor)]
            return self.call_fn(st, fr, c, list(args), None)
        return [(st, raw("appv", v, tuple(self.snapshot(st, a) for a in args)))]

    def ctor(self, c, args):
        p = c["fn"]
        for q in (p, p.rsplit("::", 1)[0]):
            a = self.p.adts.get(q.replace("std::", "core::", 1)) or self.p.adts.get(q)
            if a:
                for i, vv in enumerate(a["variants"]):
                    if vv["name"] == p.split("::")[-1] and len(vv["fields"]) == len(args):
                        if a["kind"] == "enum": return raw("agg", ("adt", a["path"], i), tuple(args))
                        return agg(("adt", a["path"], 0), args)
        return None

    # ------------------------------------------------------------ loops
    def mir_loop(self, st, fr, h):
        loops, live = fr.body.cfg()
        bodyset = loops[h]
        lv = live[h]
        st = st.copy()
        for k in [k for k in st.mem if k.op == "loc" and k.args[0] == fr.fid and k.args[1] not in lv]: del st.mem[k]

        def body(s):
            outs = self.run(s, fr, h, frozenset([h]), bodyset)
            return [("back" if kind in ("stop", "skip") else "exit", s2, b) for s2, kind, b in outs]
        return [(s, b) for s, b in self.loop(st, body, lambda k: k.op == "loc" and k.args[0] == fr.fid and k.args[1] not in lv)]

    def loop(self, st0, body, dead=lambda k: False):
        """widen a loop. body(state) -> [("back"|"exit", state, tag)];
        returns [(exit state, tag)]"""
        if self.eager: return self.loop_eager(st0, body)
        cls = {}
        res = None
        lid = next(self.uid)
        np = len(self.panics or ())
        for attempt in range(24):
            if self.panics is not None: del self.panics[np:]
            res = self.loop_try(st0, body, cls, lid, dead)
            if res is not None: break
        else:
            raise Imprecise("loop does not stabilise")
        if DBG: print("LOOP", [(show(r), str(p)[:200], c[0], [str(x) for x in c[1:]]) for (r, p), c in cls.items()])
        if any(c[0] == "havoc" for c in cls.values()):
            mid = len(self.panics or ())
            u = self.unroll(st0, body)
            if u is not None:
                if self.panics is not None: del self.panics[np:mid]
                return u
            if self.panics is not None: del self.panics[mid:]
        return res

    def loop_eager(self, st0, body):
        out, work = [], [st0.copy()]
        for _ in range(self.eager):
            nxt = []
            for s in work:
                for k, s2, t in body(s):
                    if k == "exit": out.append((s2, t))
                    else: nxt.append(s2)
            if not nxt: return out
            if len(nxt) + len(out) > self.max_states: raise Imprecise("too many cases")
            work = nxt
        raise Imprecise("loop longer than %d iterations" % self.eager)

    def unroll(self, st0, body, cap=20):
        save = self.steps
        out = []
        cur = st0.copy()
        try:
            for i in range(cap):
                outs = body(cur.copy())
                backs = [o for o in outs if o[0] == "back"]
                out += [(s, t) for k, s, t in outs if k == "exit"]
                if not backs: return out
                if len(backs) > 1 or len(out) > 24: return None
                cur = backs[0][1]
                if len(out) > 2 and i > 2: return None
        except Imprecise:
            return None
        return None

    def loop_try(self, st0, body, cls, lid, dead):
        low = next(self.uid)
        restart = False
        roots = list(st0.mem)

        def header(base, src, j, isfirst):
            """header state: memory of src generalised at the classed locations"""
            s = State(dict(src.mem), src.facts, src.ev)
            for k in [k for k in s.mem if k not in st0.mem]:
                if k.op in ("loc", "tmp") : del s.mem[k]
            for (root, path), c in sorted(cls.items(), key=lambda kv: len(kv[0][1])):
                try:
                    v = s.mem.get(root)
                    if v is None: v = self.init_root(root)
                    v0 = st0.mem.get(root)
                    if v0 is None: v0 = self.init_root(root)
                    if c[0] == "ind": x = add(self.sub_get(v0, path), mul(I(c[1]), j))
                    elif c[0] == "havoc":
                        x = self.fresh("h%d" % lid)
                        o = self.sub_get(v0, path)
                        self.havoc_of[x] = o
                        if isint(o): RANGE[x] = RANGE.get(o, (0, 2**64 - 1))
                        if o in ARRLEN or o.op in ("agg", "rep") and o.args[0] == ("array",):
                            n = cval(arrlen(o))
                            if n is not None: ARRLEN[x] = n
                        if o in FIELDS: FIELDS[x] = FIELDS[o]
                    elif c[0] == "map":
                        x = raw("part", self.sub_get(v0, path), subst(c[1], {BV: j}), j)
                        a0 = x.args[0]
                        if cval(arrlen(a0)) is not None: ARRLEN[x] = cval(arrlen(a0))
                    else: continue
                    s.mem[root] = self.sub_set(v, path, x)
                except LookupError:
                    continue
            return s

        class Node: pass
        nodes = []
        def new_node(src, parent, key, prefix, lo):
            n = Node()
            n.j = self.fresh("j%d" % lid, (0, 2**62))
            n.hdr = header(st0, src, n.j, parent is None)
            n.hdr.facts = n.hdr.facts.add(le(lo, n.j)) or n.hdr.facts
            n.key, n.parent, n.prefix, n.lo = key, parent, prefix, lo
            n.self_edges, n.exits = [], []
            n.depth = 0 if parent is None else parent.depth + 1
            nodes.append(n)
            return n

        partlocs = lambda: sorted((k for k, c in cls.items() if c[0] == "part"), key=lambda k: (k[0].id, str(k[1])))
        def key_of(s):
            out = []
            for root, path in partlocs():
                v = s.mem.get(root) or self.init_root(root)
                try: x = self.sub_get(v, path)
                except LookupError: x = None
                out.append(self.discrete(x))
            return tuple(out)

        n0 = new_node(st0, None, key_of(st0), [], ZERO)
        i = 0
        while i < len(nodes):
            n = nodes[i]; i += 1
            if len(nodes) > 10:
                for k, c in list(cls.items()):
                    if c[0] == "part": cls[k] = ("havoc",)
                return None
            self.loop_stack.append(n)
            try: outs = body(n.hdr.copy())
            finally: self.loop_stack.pop()
            for kind, s, tag in outs:
                if kind == "exit":
                    n.exits.append((s, tag)); continue
                trans = False
                # what an iteration addresses by its own index is its own (accounts are distinct)
                for root in roots + [k for k in s.mem if k not in st0.mem and k.op not in ("loc", "tmp") and not any(x.op == "sk" and x.args[0] >= low for x in subterms(k))]:
                    if dead(root): continue
                    hv = n.hdr.mem.get(root)
                    if hv is None: hv = self.init_root(root)
                    bv = s.mem.get(root)
                    if bv is None: bv = self.init_root(root)
                    if hv is bv: continue
                    for path, a, b in self.diff(hv, bv):
                        loc = (root, path)
                        # class at this location or at an enclosing one
                        c = cls.get(loc)
                        if c is None:
                            for q in range(len(path)):
                                cc = cls.get((root, path[:q]))
                                if cc and cc[0] == "havoc": c = cc; break
                        if c is None:
                            cls[loc] = self.classify(a, b, n.j)
                            # finer classes below a coarser one are dropped
                            if cls[loc][0] == "havoc":
                                for k in list(cls):
                                    if k[0] is root and len(k[1]) > len(path) and k[1][:len(path)] == path: del cls[k]
                            restart = True
                        elif c[0] == "havoc": continue
                        elif c[0] == "ind":
                            if not (isint(a) and isint(b) and sub(b, a) is I(c[1])):
                                cls[loc] = ("havoc",); restart = True
                        elif c[0] == "part":
                            da, db = self.discrete(a), self.discrete(b)
                            if db is None or da is None: cls[loc] = ("havoc",); restart = True
                            elif da != db: trans = True
                        elif c[0] == "map":
                            if not self.is_mapstore(a, b, n.j, c[1]):
                                cls[loc] = ("havoc",); restart = True
                if restart: continue
                if not trans:
                    n.self_edges.append(s)
                else:
                    if n.depth >= 3:
                        for k, c in list(cls.items()):
                            if c[0] == "part": cls[k] = ("havoc",)
                        return None
                    for k, c in list(cls.items()):
                        if c[0] == "map": cls[k] = ("havoc",); restart = True
                    if restart: continue
                    kk = self.fresh("k%d" % lid, (0, 2**62))
                    s2 = self.rename(s, n.j, kk)
                    pre = n.prefix + [(n, n.lo, kk)]
                    nn = new_node(s2, n, key_of(s2), pre, addc(kk, 1))
                    nn.hdr.ev = s2.ev
            if restart: return None
        # exits
        res = []
        for n in nodes:
            for s, tag in n.exits:
                s = s.copy()
                ok = True
                segs = n.prefix + [(n, n.lo, n.j)]
                for (m, lo, hi) in segs:
                    if not m.self_edges:
                        if not self.assume(s, eq0(sub(hi, lo))): ok = False; break
                        continue
                    dnf = []
                    evs = []
                    for e in m.self_edges:
                        fs = [c for c in e.facts.items if c not in m.hdr.facts.items]
                        fs = [c for c in fs if not self.local_syms(c, low, m.j)]
                        dnf.append(tuple(subst(c, {m.j: BV}) for c in fs))
                        evs.append(e.ev[len(m.hdr.ev):])
                    # upper bounds that every completed iteration satisfied
                    for c in (m.self_edges[0].facts.items if m.self_edges else ()):
                        if c.op == "le0" and all(c in e.facts.items for e in m.self_edges) and c not in m.hdr.facts.items:
                            cc, mm = lin(c.args[0])
                            if mm.get((m.j,), 0) > 0 and not self.local_syms(c, low, m.j):
                                at = lambda x: le0(subst(c.args[0], {m.j: x}))
                                if st0.facts.holds(at(addc(lo, -1))) is True or self.holds(s, at(addc(lo, -1))):
                                    if not self.assume(s, at(addc(hi, -1))): ok = False; break
                    if not ok: break
                    if all(dnf):
                        s.facts = s.facts.add(raw("foralld", lo, hi, tuple(sorted(set(dnf), key=lambda d: [x.id for x in d])))) or s.facts
                    if any(evs):
                        new = ("loop", lo, hi, tuple((tuple(self.ev_subst(x, {m.j: BV}) for x in ev), d) for ev, d in zip(evs, dnf)))
                        pos = len(m.hdr.ev) if m is n else None
                        base = len(st0.ev)
                        s.ev = s.ev[:base] + (new,) + s.ev[base:]
                if not ok: continue
                # whole-array updates
                for (root, path), c in cls.items():
                    if c[0] == "map":
                        at_ = lambda mem: mem[root] if root in mem else self.init_root(root)
                        v = at_(s.mem)
                        hv = self.sub_get(at_(n.hdr.mem), path)
                        try: x = self.sub_get(v, path)
                        except LookupError: continue
                        alts = []
                        for e in n.self_edges:
                            b = self.sub_get(at_(e.mem), path)
                            nv = b.args[2] if b is not hv else raw("same")
                            alts.append((subst(nv, {n.j: BV}), tuple(subst(q, {n.j: BV}) for q in e.facts.items if q not in n.hdr.facts.items and not self.local_syms(q, low, n.j))))
                        mp = raw("mapped", hv.args[0], n.j, c[1], tuple(alts))
                        if cval(arrlen(hv.args[0])) is not None: ARRLEN[mp] = cval(arrlen(hv.args[0]))
                        s.mem[root] = self.sub_set(v, path, subst(x, {hv: mp}))
                res.append((s, tag))
        return res

    def ev_subst(self, e, m):
        if isinstance(e, Term): return subst(e, m)
        if isinstance(e, tuple): return tuple(self.ev_subst(x, m) for x in e)
        return e

    def local_syms(self, c, low, j):
        return any(x.op == "sk" and x.args[0] >= low and x is not j for x in subterms(c))

    def rename(self, s, a, b):
        memo = {}
        m = {a: b}
        f = lambda x: m.get(x)
        mem = {k: transform(v, f, memo) for k, v in s.mem.items()}
        items = dict.fromkeys(transform(c, f, memo) for c in s.facts.items)
        ev = tuple(self.ev_subst(e, m) for e in s.ev)
        return State(mem, Facts(items), ev)

    def discrete(self, x):
        if x is None: return None
        if x is TRUE: return True
        if x is FALSE: return False
        if x.op == "agg" and x.args[0][0] == "adt": return ("v", x.args[0][2])
        return None

    def classify(self, a, b, j):
        if isint(a) and isint(b):
            d = sub(b, a)
            if cval(d) is not None: return ("ind", cval(d))
            return ("havoc",)
        da, db = self.discrete(a), self.discrete(b)
        if da is not None and db is not None and da != db: return ("part",)
        # element-wise update at the loop's own index
        if b.op == "store" and b.args[0] is a:
            i = b.args[1]
            c, m = lin(i)
            if abs(m.get((j,), 0)) == 1 and not any(j in k and len(k) > 1 for k in m): return ("map", subst(i, {j: BV}))
        return ("havoc",)

    def is_mapstore(self, a, b, j, idx):
        return b is a or (b.op == "store" and b.args[0] is a and b.args[1] is subst(idx, {BV: j}))

    STRUCT = ("agg", "with")
    def diff(self, a, b, path=()):
        """minimal structural differences [(path, a, b)]"""
        if a is b: return []
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and a.args[0][0] != "closure?":
            out = []
            var = a.args[0][2] if a.args[0][0] == "adt" else 0
            for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                out += self.diff(x, y, path + (("a", i),))
            return out
        if a.op == "with" or b.op == "with":
            base_a = a.args[0] if a.op == "with" else a
            base_b = b.args[0] if b.op == "with" else b
            if base_a is base_b:
                keys = []
                for t in (a, b):
                    if t.op == "with": keys += [k for k, _ in t.args[1] if k not in keys]
                out = []
                for k in keys:
                    ga = get_field(a, k[1]) if k[0] == "f" else get_vfield(a, k[1], k[2])
                    gb = get_field(b, k[1]) if k[0] == "f" else get_vfield(b, k[1], k[2])
                    out += self.diff(ga, gb, path + (k,))
                return out
            if a.op == "agg" or b.op == "agg":
                n = len((a if a.op == "agg" else b).args[1])
                tg = (a if a.op == "agg" else b).args[0]
                if tg[0] == "tuple" or (tg[0] == "adt" and self.p.adts.get(tg[1], {}).get("kind") == "struct"):
                    out = []
                    for i in range(n):
                        out += self.diff(get_field(a, i), get_field(b, i), path + (("f", i),))
                    return out
        if a.op == b.op and a.op in ("it", "slice", "ref", "itw", "guard", "boxv") and len(a.args) == len(b.args):
            out = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if x is y: continue
                if isinstance(x, Term) and isinstance(y, Term): out += self.diff(x, y, path + (("t", i),))
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    for q, (u, v) in enumerate(zip(x, y)):
                        if u == v: continue
                        if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == 2 and len(v) == 2 and u[0] == v[0] == "i":
                            out += self.diff(u[1], v[1], path + (("ti", i, q),))
                        elif isinstance(u, Term) and isinstance(v, Term): out += self.diff(u, v, path + (("tt", i, q),))
                        else: return [(path, a, b)]
                else: return [(path, a, b)]
            return out
        return [(path, a, b)]

    def sub_get(self, v, path):
        for e in path:
            k = e[0]
            if k == "a":
                if v.op != "agg" or e[1] >= len(v.args[1]): raise LookupError
                v = v.args[1][e[1]]
            elif k == "f": v = get_field(v, e[1])
            elif k == "v": v = get_vfield(v, e[1], e[2])
            elif k == "t":
                if len(v.args) <= e[1] or not isinstance(v.args[e[1]], Term): raise LookupError
                v = v.args[e[1]]
            elif k == "ti":
                if v.op != "ref" or len(v.args[e[1]]) <= e[2]: raise LookupError
                v = v.args[e[1]][e[2]][1]
            elif k == "tt":
                v = v.args[e[1]][e[2]]
        return v

    def sub_set(self, v, path, x):
        if not path: return x
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "a":
            if v.op != "agg" or e[1] >= len(v.args[1]): raise LookupError
            f = list(v.args[1]); f[e[1]] = self.sub_set(f[e[1]], rest, x)
            return raw("agg", v.args[0], tuple(f))
        if k == "f": return set_field(v, e[1], self.sub_set(get_field(v, e[1]), rest, x))
        if k == "v": return set_vfield(v, e[1], e[2], self.sub_set(get_vfield(v, e[1], e[2]), rest, x))
        args = list(v.args)
        if len(args) <= e[1]: raise LookupError
        if k == "t": args[e[1]] = self.sub_set(args[e[1]], rest, x)
        elif k == "ti":
            p = list(args[e[1]])
            if len(p) <= e[2]: raise LookupError
            p[e[2]] = ("i", self.sub_set(p[e[2]][1], rest, x))
            args[e[1]] = tuple(p)
        elif k == "tt":
            p = list(args[e[1]]); p[e[2]] = self.sub_set(p[e[2]], rest, x); args[e[1]] = tuple(p)
        return raw(v.op, *args)

"""A23: on WebAssembly an operation reaches the innermost handler installed for its ability."""
import itertools
from . import a22
from .a20 import ability, nominal, strip, AB
from .a22 import Src, Tgt, World, stages, at_of, CLOSURE, fits, LOW, defs, NULL, kind_of, is_nil
from .a13 import struct
from .lowering import *
from engine.heap import *
from engine.irtrace import attr, ty, NAMED, Bad, Unclear, Need, Stop
from engine.rules import *
from engine.wasmfn import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("Functions that install handlers and perform operations are taken through the whole WebAssembly back end by the analysis; the "
               "functions of the encoded module are executed on an abstract stack machine with objects and compared, for every short history "
               "of installed handlers and every order of the abilities' identities, with what installing and performing mean.")
ASSUMPTIONS = ["two different inputs of the 32-bit hash that identifies an ability give different identities",
               "evidence code uses ability identities only to compare them, so that their order stands for all identities",
               "the encoder library encodes what it is told"]
I, ANYW = ty("core.i32"), ty("wasm.anyref")
MARKER = struct("_Marker", [("ability_id", I), ("prompt_tag", I), ("tr_dispatch_fn", ANYW), ("handler_dispatch", ANYW)])
LOOK = "__tribute_evidence_lookup"
NAMED["$marker"] = MARKER
NAMED["$ev"] = ("ty", S("core"), S("array"), ("seq", (MARKER,)), ("map", ()))
ABS = {"A": ability("State"), "B": ability("Console"), "C": ability("State", ty("core.i32")), "D": ability("State", ty("core.f64"))}
for _n, _t in ABS.items():
    NAMED["$ab" + _n] = _t
OPN = {"A": "get", "B": "get", "C": "put", "D": "get"}


def con(n):
    n &= 0xffffffff
    return ("I32Const", (C(n - (1 << 32) if n >> 31 else n),), ())


def isc(x):
    return x[0] == "I32Const" and x[1][0][0] == "c"


def below(x):
    """the term under conversions between numbers of the same bits"""
    while x is not None and x[0] == "t" and (x[1] == "cast" or str(x[1]).endswith(("_ne_bytes", "_le_bytes", "_be_bytes"))) and len(x) > 2:
        x = x[2]
    return x


class Trap(Exception):
    pass


def s32(n):
    n &= 0xffffffff
    return n - (1 << 32) if n >> 31 else n


def fold(name, a, b=None):
    """numeric instructions on 32-bit constants; None if not one of these"""
    u, v = a & 0xffffffff, (b or 0) & 0xffffffff
    a, b = s32(u), s32(v)
    if name in ("I32DivU", "I32RemU", "I32DivS", "I32RemS") and v == 0:
        raise Trap()
    if name == "I32DivS" and a == -(1 << 31) and b == -1:
        raise Trap()
    q = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
    f = {"I32Add": lambda: u + v, "I32Sub": lambda: u - v, "I32Mul": lambda: u * v, "I32DivU": lambda: u // v, "I32RemU": lambda: u % v,
         "I32DivS": lambda: q(a, b), "I32RemS": lambda: a - q(a, b) * b, "I32And": lambda: u & v, "I32Or": lambda: u | v,
         "I32Xor": lambda: u ^ v, "I32Shl": lambda: u << (v & 31), "I32ShrU": lambda: u >> (v & 31), "I32ShrS": lambda: a >> (v & 31),
         "I32Eq": lambda: a == b, "I32Ne": lambda: a != b, "I32LtS": lambda: a < b, "I32LeS": lambda: a <= b, "I32GtS": lambda: a > b,
         "I32GeS": lambda: a >= b, "I32LtU": lambda: u < v, "I32LeU": lambda: u <= v, "I32GtU": lambda: u > v, "I32GeU": lambda: u >= v,
         "I32Eqz": lambda: a == 0}.get(name)
    return None if f is None else con(int(f()))


class Conc(Tgt):
    """The machine with objects: those the module makes are known, those it is given are opaque."""
    maxsteps = 20000

    def __init__(self, w, idx, args, heap, oracle, top=None):
        super().__init__(w.im, idx, w.names, oracle)
        self.w, self.heap, self.idx = w, heap, idx
        if len(args) != len(w.im.sig(w.im.func_type(len(w.im.imports) + idx))[0]):
            raise Bad(f"{w.names[len(w.im.imports) + idx]} has {len(args)} arguments")
        self.locals[:len(args)] = list(args)
        for i, t in enumerate(w.im.code[idx][0]):
            self.locals[len(args) + i] = NULL if isinstance(t, tuple) else con(0) if t == "i32" else self.locals[len(args) + i]
        if top is not None:
            self.trace, self.top = top.trace, top
        else:
            self.top = self

    def tick(self):
        if self.top is not self:
            return self.top.tick()
        super().tick()

    def ev(self, *x):
        if self.top is not self:
            return self.top.ev(*x)
        return super().ev(*x)

    def obj(self, t, els):
        self.heap.append([t, list(els)])
        return ("obj", len(self.heap) - 1)

    def els(self, x, t=None):
        if x == NULL:
            raise Trap()
        if x[0] != "obj":
            raise Unclear(f"reads an object that is not known: {brief(x)}")
        if t is not None and self.heap[x[1]][0] != t:
            raise Bad(f"uses an object of type {self.heap[x[1]][0]} as one of type {t}")
        return self.heap[x[1]][1]

    def nat(self, x):
        if not isc(x):
            raise Unclear(f"an index is not known: {brief(x)}")
        return x[1][0][1] & 0xffffffff

    def apply(self, name, pay, xs):
        if name == "I32Const":
            if pay[0][0] == "c":
                return con(pay[0][1])
            b = below(pay[0])
            if b in self.w.ids:
                return con(self.w.ids[b])
            return ("I32Const", (b,), ())
        if numeric(name) and all(isc(x) for x in xs):
            r = fold(name, *(x[1][0][1] for x in xs))
            if r is not None:
                return r
        if name == "RefIsNull" and (xs[0] == NULL or xs[0][0] in ("obj", "clo")):
            return con(int(xs[0] == NULL))
        if name.startswith("RefTest") and xs[0][0] in ("obj", "null"):
            x = xs[0]
            if x == NULL:
                return con(int(name == "RefTestNullable"))
            t = self.heap[x[1]][0]
            return con(int(self.im.heap_sub(t, pay[0])))
        if name in CASTS:
            x = xs[0]
            if x == NULL:
                if name == "RefCastNonNull":
                    raise Trap()
                return x
            if x[0] == "obj":
                if not self.im.heap_sub(self.heap[x[1]][0], pay[0]):
                    raise Trap()
            elif x[0] == "clo":
                if not (pay[0] in ("any", "eq", "struct") or isinstance(pay[0], int) and fits(self.im, ("s", CLOSURE), pay[0])):
                    raise Trap()
            return x
        if name == "StructNew":
            return self.obj(pay[0], xs)
        if name == "StructGet":
            if xs[0][0] == "clo":
                if not fits(self.im, ("s", CLOSURE), pay[0]):
                    raise Bad(f"reads a field of type {pay[0]} of a closure")
                return (("slot", "env")[pay[1]], xs[0])
            return self.els(xs[0], pay[0])[pay[1]]
        if name == "StructSet":
            self.els(xs[0], pay[0])[pay[1]] = xs[1]
            return None
        if name == "ArrayNew":
            return self.obj(pay[0], [xs[0]] * self.nat(xs[1]))
        if name == "ArrayNewDefault":
            e = self.im.types[pay[0]][1][0]
            return self.obj(pay[0], [NULL if isinstance(e, tuple) else con(0)] * self.nat(xs[0]))
        if name == "ArrayNewFixed":
            raise Unclear(name)
        if name == "ArrayLen":
            return con(len(self.els(xs[0])))
        if name == "ArrayGet":
            e, i = self.els(xs[0], pay[0]), self.nat(xs[1])
            if i >= len(e):
                raise Trap()
            return e[i]
        if name == "ArraySet":
            e, i = self.els(xs[0], pay[0]), self.nat(xs[1])
            if i >= len(e):
                raise Trap()
            e[i] = xs[2]
            return None
        if name == "ArrayCopy":
            d, s = self.els(xs[0], pay[0]), self.els(xs[2], pay[1])
            i, j, n = self.nat(xs[1]), self.nat(xs[3]), self.nat(xs[4])
            if i + n > len(d) or j + n > len(s):
                raise Trap()
            d[i:i + n] = s[j:j + n]
            return None
        if name in ("GlobalGet", "GlobalSet"):
            raise Unclear(name)
        return super().apply(name, pay, xs)

    def step(self, node, st):
        i = node[0]
        if i.n in ("Call", "ReturnCall"):
            f = num(i.p[0])
            if self.names.get(f) not in self.w.fns and f >= len(self.im.imports):
                ps, rs = self.im.sig(self.im.func_type(f))
                xs = self.popn(st, len(ps))
                r = Conc(self.w, f - len(self.im.imports), xs, self.heap, self.oracle, self.top).result()
                if i.n == "ReturnCall":
                    self.ev("Return", tuple(r))
                    return ("ret",)
                st.extend(r)
                return None
        return super().step(node, st)

    def result(self):
        """runs a helper -> its results"""
        out, st = [], []

        def ev(*x):
            if x[0] == "Return":
                out.append(x[1])
            elif x[0] == "Unreachable":
                raise Trap()
            else:
                return self.top.ev(*x)
        self.ev = ev
        r = self.body(self.tree, st)
        if out:
            return list(out[-1])
        if r is not None and r[0] == "br":
            st = r[2]
        elif r is not None:
            raise Unclear("end of a helper")
        return st[len(st) - self.res:] if self.res else []

    def run(self):
        try:
            super().run()
        except Trap:
            self.ev("Unreachable", ())
        return self.trace


class Sem(Src):
    """What installing and performing mean: evidence is the history of the installed handlers."""
    maxsteps = 20000

    def __init__(self, v, f, w, oracle, args):
        super().__init__(v, f, w, oracle)
        self.args = args

    def run(self):
        v = self.v
        b = v.seq(v.field("Region", v.seq(v.field("Op", self.f, "regions"))[0], "blocks"))[0]
        env = dict(zip(v.bargs(b), self.args))
        try:
            self.body(b, env)
        except Stop:
            pass
        return self.trace

    def op(self, o, env):
        nm = self.v.opname(o)
        if nm == "func.call" and self.p(o, "callee") == LOOK:
            h, i = (env[x] for x in self.v.operands(o))
            m = next((m for m in reversed(h[1]) if m[0] == self.w.byid.get(i[1][0][1])), None)
            if m is None:
                self.ev("Unreachable", ())
                return ("ret",)
            env[self.v.results(o)[0]] = ("marker", m)
            return None
        if not nm.startswith("effect."):
            return super().op(o, env)
        xs = [env[x] for x in self.v.operands(o)]
        ab = self.a(o, "ability_ref")[3][0]
        if xs[0][0] != "hist":
            raise Unclear("evidence")
        if nm == "effect.extend":
            r = ("hist", xs[0][1] + ((ab, xs[1], xs[2], xs[3]),))
        else:
            m = next((m for m in reversed(xs[0][1]) if m[0] == ab), None)
            clo = m and (m[2] if nm == "effect.dispatch_tail" else m[3])
            if m is None or clo == NULL:
                self.ev("Unreachable", ())
                return ("ret",)
            op = ("I32Const", (self.w.opid(ab, self.p(o, "op_name")),), ())
            if nm == "effect.dispatch_tail":
                r = self.ev("CallIndirect", "tr", (("slot", clo), xs[0], ("env", clo), op, xs[1]))
            else:
                r = self.ev("CallIndirect", "handler", (("slot", clo), xs[0], ("env", clo), xs[1], m[1], op, xs[2]))
        env[self.v.results(o)[0]] = r
        return None


class Ev(World):
    """the module together with the identities of abilities"""

    def __init__(self, hold, im, order):
        v, after = hold["view"], hold["after"]
        ds = defs(after, hold["m"])
        imps = [o for k, o in ds if k == "import_func"]
        fs = [o for k, o in ds if k == "func"]
        names = {i: at_of(after, o, "sym_name")[1] for i, o in enumerate(imps + fs)}
        want = {n: o for n, o in hold["fns"].items() if n != LOOK and v.seq(v.field("Op", o, "regions"))}
        super().__init__(v, im, want, names, {})
        if len(im.funcs) != len(fs) or len(im.imports) != len(imps):
            raise Bad(f"{len(im.funcs)} functions are encoded instead of {len(fs)}")
        for n in want:
            if n not in self.idx:
                raise Bad(f"function {n} is missing")
        self.ids = {hold["ids"][n]: order[n] for n in ABS}
        self.byid = {order[n]: t for n, t in ABS.items()}
        self.ops, self.order = hold["ops"], order

    def opid(self, ab, n):
        return self.ops[(ab, n)]

    def index(self, n):
        return self.idx[n] - len(self.im.imports)

    def evidence_type(self):
        t = self.im.sig(self.im.func_type(self.idx["insA"]))[0][0]
        if not (isinstance(t, tuple) and isinstance(t[2], int) and self.im.types[t[2]][0] == "array"):
            raise Unclear(f"evidence has the type {tstr(t)}")
        return t[2]

    def marker(self, heap, x):
        """a marker object as (ability, tag, tr, handler)"""
        if x == NULL:
            raise Bad("the evidence holds null")
        t, e = heap[x[1]]
        i = e[0]
        if not isc(i):
            raise Unclear("identity in a marker")
        if i[1][0][1] not in self.byid:
            raise Bad(f"a marker has the identity {i[1][0][1]}, which no ability has")
        return (self.byid[i[1][0][1]],) + tuple(e[1:])

    def same(self, heap, a, b):
        """the value b of the machine is a value a of the meaning"""
        if a[0] == "hist":
            if b[0] != "obj":
                return f"evidence is {brief(b)}"
            try:
                ms = [self.marker(heap, x) for x in heap[b[1]][1]]
            except Bad as x:
                return str(x)
            inner = {m[0]: m for m in a[1]}
            for m in inner.values():
                if m not in ms:
                    return f"the evidence lacks the marker {brief(m[1:])}"
            for m in ms:
                if m not in a[1]:
                    return f"the evidence holds {brief(m)}, which was not installed"
            return None
        if a[0] == "marker":
            try:
                m = self.marker(heap, b) if b[0] == "obj" or b == NULL else b
            except Bad as x:
                return str(x)
            return None if m == a[1] else f"the marker {brief(m[1:])} instead of {brief(a[1][1:])}"
        return None if a == b else f"{brief(b)} instead of {brief(a)}"


def compare23(w, n, hist, build, more, budget=4):
    """the function n with evidence of this history: machine against meaning"""
    todo = [{}]
    while todo:
        fixed = todo.pop()

        def oracle(k, options):
            k = ("cond", k)
            if k in fixed:
                return fixed[k]
            raise Need(k, options)
        heap, ev = build()
        a = Sem(w.v, w.fns[n], w, oracle, [("hist", hist)] + list(more))
        try:
            a.run()
        except Need as x:
            if len(fixed) >= budget:
                raise Unclear("too many conditions")
            todo += [{**fixed, x.key: o} for o in x.options]
            continue
        b = Conc(w, w.index(n), [ev] + list(more), heap, oracle)
        try:
            b.run()
        except Need as x:
            return f"{n} branches on {brief(x.key)}, which the original does not"
        if b.steps > b.maxsteps:
            return f"{n} does not come to an end"
        for j in range(max(len(a.trace), len(b.trace))):
            if j >= len(a.trace):
                return f"{n} performs {brief(b.trace[j])} although the original is finished"
            if j >= len(b.trace):
                return f"{n} does not perform {brief(a.trace[j])}"
            t = same_event(w, heap, a.trace[j], b.trace[j])
            if t:
                return f"{n}: {t}"
    return None


def same_event(w, heap, s, e):
    if s[0] != e[0]:
        return f"performs {brief(e)} instead of {brief(s)}"
    if s[0] == "CallIndirect":
        sg, tb = e[1]
        if tb != 0:
            return "calls through another table"
        want = w.im.sig(w.im.func_type(w.idx["trfn" if s[1] == "tr" else "hfn"]))
        if sg != want:
            return f"calls the handler with the type {brief(sg)} instead of {brief(want)}"
        xs, ys = s[2], e[2]
    elif s[0] == "Call":
        if s[1] != e[1]:
            return f"calls {e[1]} instead of {s[1]}"
        xs, ys = s[2], e[2]
    else:
        xs, ys = s[1], e[1]
    if len(xs) != len(ys):
        return f"{s[0]} has {len(ys)} operands instead of {len(xs)}"
    for k, (x, y) in enumerate(zip(xs, ys)):
        t = w.same(heap, x, y)
        if t:
            return f"{s[0]}: operand {k} is wrong: {t}"
    return None


def clo(n):
    return ("clo", n)


def histories(tier):
    for n in range(0, 4):
        yield from itertools.product("ABCD", repeat=n)
    yield from itertools.product("ABC" if tier == "quick" else "ABCD", repeat=4)
    for p in ("ABCDABCD", "DCBADCBA", "ABABABAB", "AAAAAAAA", "DDCCBBAA", "ACBDDBCA"):
        yield tuple(p)


ORDERS = [dict(zip(p, v)) for p in ("ABCD", "BDAC", "DCBA") for v in ((-9, -2, 4, 11), (-(1 << 31), -1, 0, (1 << 31) - 1), (0, 1, 2, 3))]


def through(w, hist):
    """installs the handlers of a history with the functions of the module -> (heap, evidence, meaning) | raises"""
    heap = []
    ev = ("obj", 0)
    heap.append([w.evidence_type(), []])
    h = ()
    olds = []
    for k, n in enumerate(hist):
        tag, tr, hd = ("tag", k), clo(f"tr{k}"), clo(f"h{k}")
        m = Conc(w, w.index("ins" + n), [ev, tag, tr, hd], heap, no)
        m.run()
        if m.steps > m.maxsteps:
            raise Bad(f"installing {n} after {'-'.join(hist[:k]) or 'nothing'} does not come to an end")
        if len(m.trace) != 1 or m.trace[0][0] != "Return" or len(m.trace[0][1]) != 1:
            raise Bad(f"installing {n} after {'-'.join(hist[:k]) or 'nothing'} performs {brief(m.trace)}")
        olds.append((h, ev))
        ev = m.trace[0][1][0]
        h += ((ABS[n], tag, tr, hd),)
        for hh, e in olds + [(h, ev)]:
            t = w.same(heap, ("hist", hh), e)
            if t:
                raise Bad(f"after installing {'-'.join(hist[:k + 1])} the evidence of {'-'.join(hist[:len(hh)]) or 'nothing'} is wrong: {t}")
    return heap, ev, h


def no(k, options):
    raise Unclear("a condition that is not known: " + brief(k))


def copy_heap(heap):
    return [[t, list(e)] for t, e in heap]


TEXT = "".join(f"""
func.func {{sym_name=@ins{n}}}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref
  r:$ev = effect.extend ev tag tr h {{ability_ref=!$ab{n}}}
  func.return r
func.func {{sym_name=@tail{n}}}
  ^e ev:$ev p:wasm.anyref
  r:wasm.anyref = effect.dispatch_tail ev p {{ability_ref=!$ab{n},op_name=@{OPN[n]}}}
  func.return r
func.func {{sym_name=@cps{n}}}
  ^e ev:$ev k:wasm.anyref p:wasm.anyref
  r:wasm.anyref = effect.dispatch_cps ev k p {{ability_ref=!$ab{n},op_name=@{OPN[n]}}}
  func.return r
""" for n in ABS) + """
func.func {sym_name=@__tribute_evidence_lookup}
  ^e ev:$ev id:core.i32
  func.unreachable
func.func {sym_name=@look}
  ^e ev:$ev id:core.i32
  m:$marker = func.call ev id {callee=@__tribute_evidence_lookup}
  func.return m
func.func {sym_name=@trfn}
  ^e ev:$ev env:wasm.anyref op:core.i32 p:wasm.anyref
  func.return p
func.func {sym_name=@hfn}
  ^e ev:$ev env:wasm.anyref k:wasm.anyref tag:core.i32 op:core.i32 p:wasm.anyref
  func.return p
"""
SIGS = {**{f"ins{n}": "$ev" for n in ABS}, **{k + n: "wasm.anyref" for n in ABS for k in ("tail", "cps")}, "trfn": "wasm.anyref", "hfn": "wasm.anyref",
        "look": "$marker", LOOK: "$marker"}

BODIES = """
func.func {sym_name=@insA}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref
  r:$ev = effect.extend ev tag tr h {ability_ref=!$abA}
  func.return r
func.func {sym_name=@insB}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref
  r:$ev = effect.extend ev tag tr h {ability_ref=!$abB}
  func.return r
func.func {sym_name=@insC}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref
  r:$ev = effect.extend ev tag tr h {ability_ref=!$abC}
  func.return r
func.func {sym_name=@trfn}
  ^e ev:$ev env:wasm.anyref op:core.i32 p:wasm.anyref
  func.return p
func.func {sym_name=@hfn}
  ^e ev:$ev env:wasm.anyref k:wasm.anyref tag:core.i32 op:core.i32 p:wasm.anyref
  func.return p
func.func {sym_name=@ext}
  ^e ev:$ev p:wasm.anyref
  r:wasm.anyref = effect.dispatch_tail ev p {ability_ref=!$abA,op_name=@get}
  func.return r
func.func {sym_name=@inout}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref p:wasm.anyref
  e2:$ev = effect.extend ev tag tr h {ability_ref=!$abA}
  x:wasm.anyref = effect.dispatch_tail e2 p {ability_ref=!$abA,op_name=@get}
  y:wasm.anyref = effect.dispatch_tail ev x {ability_ref=!$abA,op_name=@get}
  z:wasm.anyref = effect.dispatch_cps e2 y x {ability_ref=!$abA,op_name=@get}
  func.return z
func.func {sym_name=@nest}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref p:wasm.anyref
  e2:$ev = effect.extend ev tag tr h {ability_ref=!$abA}
  e3:$ev = effect.extend e2 tag h tr {ability_ref=!$abB}
  e4:$ev = effect.extend e3 tag h h {ability_ref=!$abA}
  x:wasm.anyref = effect.dispatch_tail e4 p {ability_ref=!$abB,op_name=@get}
  y:wasm.anyref = effect.dispatch_tail e3 x {ability_ref=!$abA,op_name=@get}
  z:wasm.anyref = effect.dispatch_cps e4 p y {ability_ref=!$abA,op_name=@put}
  w:wasm.anyref = func.call e4 z {callee=@ext}
  u:wasm.anyref = func.call ev w {callee=@ext}
  func.return u
func.func {sym_name=@branch}
  ^e ev:$ev c:core.i1 tag:core.i32 tr:wasm.anyref h:wasm.anyref p:wasm.anyref
  x:wasm.anyref = scf.if c
    e2:$ev = effect.extend ev tag tr h {ability_ref=!$abA}
    a:wasm.anyref = effect.dispatch_tail e2 p {ability_ref=!$abA,op_name=@get}
    scf.yield a
  |
    b:wasm.anyref = effect.dispatch_cps ev h p {ability_ref=!$abB,op_name=@get}
    scf.yield b
  y:wasm.anyref = effect.dispatch_tail ev x {ability_ref=!$abA,op_name=@put}
  func.return y
func.func {sym_name=@tailpos}
  ^e ev:$ev tag:core.i32 tr:wasm.anyref h:wasm.anyref p:wasm.anyref
  e2:$ev = effect.extend ev tag tr h {ability_ref=!$abC}
  func.tail_call e2 p {callee=@ext}
"""
BSIGS = {**{f"ins{n}": "$ev" for n in "ABC"}, **{k: "wasm.anyref" for k in ("trfn", "hfn", "ext", "inout", "nest", "branch", "tailpos")}}
BARGS = {"ext": 1, "inout": 4, "nest": 4, "branch": 5, "tailpos": 4}


def prep(hold):
    def f(eng, st, h, lay, m):
        s2 = st.fork()
        hold["ids"], hold["ops"] = {}, {}
        for n, t in ABS.items():
            hold["ids"][n] = below(call1(eng, s2, AB + "compute_ability_id", [h.ref, t]))
            for o in ("get", "put"):
                hold["ops"][(t, o)] = below(call1(eng, s2, AB + "compute_op_idx", opargs(eng, s2, t, o)))
    return f


def opargs(eng, st, t, o):
    some = lambda n: ("adt", "core::option::Option", "Some", (S(n),), ("0",))
    return [some(dict(t[4][1])[S("name")][3][0][1]), some(o)]


def run(ctx, key, text, sigs, job):
    hold = {}
    rs, e = stages(ctx, text, hold, None, sigs, prep(hold), max_steps=4000000)
    w = ctx.where(LOW)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    if len(set(hold["ids"].values())) != len(ABS):
        ctx.bad(key, "two abilities have the same identity", AB + "compute_ability_id")
        return
    for r in rs:
        if r.end != "ret" or r.ret[0] != "adt" or r.ret[2] != "Ok":
            ctx.verdicts(key, [(r, ("bad", f"{key}: emission fails: {r.end} {brief(r.ret)}") if not r.conds else ("unk", str(r.end)))], w)
            return
    if len(rs) != 1:
        ctx.unk(key, f"{len(rs)} outcomes of emission")
        return
    im = Image(rs[0].events)
    try:
        validate(im)
    except Bad as b:
        ctx.bad(key, f"{key}: the module is not valid: {b}", w)
        return
    job(hold, im)


def decide(ctx, key, f):
    try:
        t = f()
    except Bad as b:
        t = str(b)
    except (Unclear, Need, Stop, KeyError, IndexError) as u:
        ctx.unk(key, f"{type(u).__name__}: {u}")
        return
    ctx.decide(key, t is None, t or "", ctx.where(LOW))


def performs(ctx):
    def job(hold, im):
        for k, order in enumerate(ORDERS):
            w = Ev(hold, im, order)
            hs = list(histories(ctx.tier))
            if k and ctx.tier == "quick":
                hs = [h for h in hs if len(h) <= 3 or len(h) > 4]
            for hist in hs:
                def one(w=w, hist=hist):
                    heap, ev, h = through(w, hist)
                    for n in ABS:
                        for f, more in (("tail" + n, [("p",)]), ("cps" + n, [("k",), ("p",)]), ("look", [con(w.order[n])])):
                            t = compare23(w, f, h, lambda: (copy_heap(heap), ev), more)
                            if t:
                                return f"after installing {'-'.join(hist) or 'nothing'} (identities {order}): {t}"
                    return None
                decide(ctx, f"history {'-'.join(hist) or 'empty'} order {k}", one)
    run(ctx, "installing and performing", TEXT, SIGS, job)


def bodies(ctx):
    def job(hold, im):
        for k, order in enumerate(ORDERS):
            w = Ev(hold, im, order)
            for hist in itertools.chain(*(itertools.product("ABC", repeat=n) for n in range(0, 4))):
                for n, na in BARGS.items():
                    def one(w=w, hist=hist, n=n, na=na):
                        heap, ev, h = through(w, hist)
                        more = [("p",)] if na == 1 else [("newtag",), clo("newtr"), clo("newh"), ("p",)]
                        if n == "branch":
                            more = [("cond?",)] + more
                        return compare23(w, n, h, lambda: (copy_heap(heap), ev), more)
                    decide(ctx, f"body {n} under {'-'.join(hist) or 'no handlers'} order {k}", one)
    run(ctx, "handlers inside functions", BODIES, BSIGS, job)


def check(ctx):
    ctx.rule("installing a handler gives new evidence that holds it and leaves the old evidence as it was; performing an operation calls the "
             "innermost handler of its ability with the evidence, the handler's environment, its prompt tag, the operation and the arguments, "
             "and traps if there is none")
    ctx.parallel([lambda: performs(ctx), lambda: bodies(ctx)])

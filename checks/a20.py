"""A20: an operation reaches the innermost handler installed for its ability (native run-time library and lowering)."""
import itertools
from .a11 import mod_of, put, reach_ops, functy
from .a13 import struct
from .lowering import *
from engine.heap import *
from engine.irtrace import *
from engine.clifmem import type_of
from engine.rules import *
from engine import absint
from engine.absint import State, Budget, T, C, S

LEVEL = "other"
EXPLANATION = ("The run-time evidence functions are analysed on every short history of installed handlers and every query, the identity of "
               "abilities on every pair of ability types, and the lowering of installing and performing on function shapes whose executions "
               "are compared with the originals.")
ASSUMPTIONS = ["two different inputs of the 32-bit hash that identifies an ability give different identities",
               "evidence code uses ability identities only to compare them, so that the order type of a history stands for all its identities"]
R = "tribute_runtime::__tribute_evidence_"
N = "tribute_passes::native::evidence::lower_evidence_to_native"
AB = "tribute_ir::dialect::ability::"
EXT, LOOK, LTR, LH, EMP = ("__tribute_evidence_" + x for x in ("extend", "lookup", "lookup_tr", "lookup_handler", "empty"))


def ability(n, *ps):
    return ("ty", S("core"), S("ability_ref"), ("seq", tuple(ps)), ("map", ((S("name"), attr("@" + n)),)))


def nominal(n):
    return ("ty", S("adt"), S("typeref"), ("seq", ()), ("map", ((S("name"), attr("@" + n)),)))


# ------------------------------------------------------------------ run time
def history(ctx, seqs, where):
    for seq in seqs:
        key = "history " + ",".join(map(str, seq))
        e = ctx.engine(max_depth=30)
        st = State()
        try:
            evs, want = [(ref(e, st, call1(e, st, R + "empty", [])), {})], {}
            for i, a in enumerate(seq):
                m = (T(f"tag{i}"), T(f"tr{i}"), T(f"handler{i}"))
                nev = ref(e, st, call1(e, st, R + "extend", [evs[-1][0], C(a), *m]))
                want = dict(want)
                want[a] = m
                evs.append((nev, want))
            wrong = None
            for k, (ev, w) in enumerate(evs):
                for a, m in w.items():
                    for f, x in zip(("lookup", "lookup_tr", "lookup_handler"), m):
                        got = call1(e, st, R + f, [ev, C(a)])
                        if got != x and wrong is None:
                            g = absint.show(got) if got is not None else "?"
                            wrong = (f"after installing {list(seq)}: {f} of {a} in the evidence after {k} of them gives {g} instead of {absint.show(x)}",
                                     known(got))
            if wrong is None:
                ctx.ok(key)
            elif wrong[1]:
                ctx.bad(key, wrong[0], where)
            else:
                ctx.unk(key, wrong[0])
        except absint.Definite as x:
            ctx.bad(key, f"after installing {list(seq)}: {x}", where)
        except (Budget, RecursionError) as x:
            ctx.unk(key, str(x)[:200])
        ctx.fns |= e.visited_fns


def known(x):
    if x is None:
        return False
    if x[0] == "t":
        return any(str(x[1]).startswith(p) for p in ("tag", "tr", "handler"))
    return x[0] == "c"


def histories(tier):
    ids = [-3, 0, 7, 2147483647]
    for n in range(1, 4):
        yield from itertools.product(ids, repeat=n)
    if tier != "quick":
        yield from itertools.product(ids, repeat=4)
    else:
        yield from itertools.product([-3, 0, 7], repeat=4)
    five = [-2147483648, -1, 0, 1, 2147483647]
    yield from itertools.permutations(five)
    more = list(range(10, 80, 10))
    for p in (more, more[::-1], [40, 10, 70, 20, 60, 30, 50], [10, 70, 20, 60, 30, 50, 40], [-5, 5, -4, 4, -3, 3, -2, 2, -1, 1]):
        yield tuple(p)
        for x in p:
            yield tuple(p) + (x,)


def tags(ctx):
    key = "fresh prompt tags"
    f = "tribute_runtime::__tribute_next_tag"
    if f not in ctx.P.fns:
        ctx.bad(key, "the function that makes prompt tags is missing", f)
        return
    e = ctx.engine(max_depth=30)
    slot = {"v": C(0)}

    def get(eng, st, fr, args, targs, path, t):
        return slot["v"]

    def put_(eng, st, fr, args, targs, path, t):
        slot["v"] = ref(eng, st, args[1])
        return C(0)

    def is_null(eng, st, fr, args, targs, path, t):
        p = eng.deref1(st, args[0]) if args[0][0] == "ref" and args[0][1][0] != "h" else args[0]
        return C(1) if p == C(0) else C(0)
    e.models["alloc::boxed::Box::into_raw"] = lambda eng, st, fr, args, targs, path, t: ref(eng, st, args[0])
    for nm in PT:
        e.models[nm.format("get")] = get
        e.models[nm.format("set")] = put_
    for nm in ("core::ptr::mut_ptr::is_null", "core::ptr::const_ptr::is_null"):
        e.models[nm] = is_null
    st = State()
    try:
        got = [call1(e, st, f, []) for _ in range(5)]
    except absint.Definite as x:
        ctx.bad(key, str(x), ctx.where(f))
        return
    except (Budget, RecursionError) as x:
        ctx.unk(key, str(x)[:200])
        return
    ctx.fns |= e.visited_fns
    if any(g is None or g[0] != "c" for g in got):
        ctx.unk(key, f"tags {[absint.show(g) for g in got]}")
    else:
        ctx.decide(key, len(set(got)) == len(got), f"five calls give the tags {[g[1] for g in got]}", ctx.where(f))


PT = ("pthread_{}specific", "tribute_runtime::tls::posix::pthread_{}specific")


def ref(e, st, v):
    return v if v[0] == "ref" else e.ref_to(st, v)


# ------------------------------------------------------------------ identity
def strip(x):
    """The value below widenings and narrowings."""
    while x is not None and x[0] == "t" and x[1] == "cast":
        x = x[2]
    return x


I32, F64 = ty("core.i32"), ty("core.f64")
ABILITIES = {
    "State": ability("State"), "Console": ability("Console"), "State(Int)": ability("State", I32), "State(Float)": ability("State", F64),
    "Console(Int)": ability("Console", I32), "State(Int, Int)": ability("State", I32, I32), "State(Int, Float)": ability("State", I32, F64),
    "State(Float, Int)": ability("State", F64, I32), "State(Foo)": ability("State", nominal("Foo")), "State(Bar)": ability("State", nominal("Bar")),
    "State(fn(Int) -> Float)": ability("State", functy([I32], F64)), "State(fn(Float) -> Int)": ability("State", functy([F64], I32)),
    "State(fn(Foo) -> Int)": ability("State", functy([nominal("Foo")], I32)), "State(fn(Bar) -> Int)": ability("State", functy([nominal("Bar")], I32)),
    "State(fn() -> Int)": ability("State", functy([], I32)), "State(fn(Int, Int) -> Int)": ability("State", functy([I32, I32], I32)),
}
OPS = [(a, o) for a in ("State", "Console", "get") for o in ("get", "set", "State")]


def ident(eng, st, h, t):
    return strip(call1(eng, st, AB + "compute_ability_id", [h.ref, t]))


def opidx(eng, st, a, o):
    some = lambda x: ("adt", "core::option::Option", "Some", (S(x),), ("0",))
    return strip(call1(eng, st, AB + "compute_op_idx", [some(a), some(o)]))


def identity(ctx):
    for f in ("compute_ability_id", "compute_op_idx"):
        if AB + f not in ctx.P.fns:
            ctx.unk(f, "not found")
            return
    got, err = {}, {}
    for n, t in ABILITIES.items():
        e = ctx.engine(max_depth=40, max_rec=8)
        st = State()
        h = Heap(e, st)
        try:
            got[n] = [ident(e, st, h, t), ident(e, st, h, t)]
        except absint.Definite as x:
            ctx.bad("identity of " + n, str(x), ctx.where(AB + "compute_ability_id"))
            return
        except (Budget, RecursionError) as x:
            err[n] = str(x)[:200]
        ctx.fns |= e.visited_fns
    for n in ABILITIES:
        if n in err:
            ctx.unk("identity of " + n, err[n])
            continue
        a, b = got[n]
        same = [m for m in got if m != n and got[m][0] == a]
        sure = a is not None and a[0] in ("t", "c")
        if same and sure:
            ctx.bad("identity of " + n, f"{n} and {same[0]} have the same identity, so that an operation of one reaches the handler of the other",
                    ctx.where(AB + "compute_ability_id"))
        elif a == b and sure:
            ctx.ok("identity of " + n)
        else:
            ctx.unk("identity of " + n, "not a function of the type")
    ids = {}
    for a, o in OPS:
        e = ctx.engine(max_depth=40)
        try:
            ids[a, o] = opidx(e, State(), a, o)
        except (Budget, RecursionError) as x:
            ctx.unk(f"index of {a}.{o}", str(x)[:200])
            return
        ctx.fns |= e.visited_fns
    for p, x in ids.items():
        same = [q for q in ids if q != p and ids[q] == x]
        ctx.decide(f"index of {p[0]}.{p[1]}", not same, f"the operations {p} and {same[:1]} have the same index", ctx.where(AB + "compute_op_idx"))


# ------------------------------------------------------------------ lowering
def val(a):
    return a[3][0] if a is not None and a[0] == "adt" else a


class Sem:
    """Executions with evidence as a value: lookups and extensions are what they give, calls are effects."""

    def __init__(self, side, idof, opof):
        self.side, self.idof, self.opof = side, idof, opof

    def bind1(self, m, o, env, x):
        for r in m.v.results(o):
            env[r] = x

    def icall(self, m, o, env, f, args):
        rs = m.v.results(o)
        me = len(m.trace)
        m.trace.append(("icall", (f,) + tuple(args), (), len(rs)))
        for i, r in enumerate(rs):
            env[r] = ("r", me, i)

    def const(self, m, o, a, env, regs):
        x = strip(val(m.attr(o, "value")))
        self.bind1(m, o, env, ("const", x))

    def cast(self, m, o, a, env, regs):
        self.bind1(m, o, env, a[0])

    def get(self, m, o, a, env, regs):
        i = val(m.attr(o, "field"))[1]
        x = a[0]
        if x[0] == "marker":
            self.bind1(m, o, env, (None, ("tag", x[1], x[2]), ("tr", x[1], x[2]), ("h", x[1], x[2]))[i])
        else:
            self.bind1(m, o, env, ("field", i, x))

    def new(self, m, o, a, env, regs):
        self.bind1(m, o, env, ("new",) + tuple(a))

    def call(self, m, o, a, env, regs):
        c = val(m.attr(o, "callee"))
        n = c[1] if c is not None and c[0] == "s" else None
        src = self.side == "src"
        if n == LOOK:
            x = ("marker", a[0], a[1]) if src else ("tag", a[0], a[1])
        elif n == EXT:
            if src:
                if a[1][0] != "new":
                    raise Unclear("marker")
                x = ("extended", a[0]) + a[1][1:]
            else:
                if len(a) != 5:
                    raise Bad(f"{len(a)} arguments for {EXT}")
                x = ("extended",) + tuple(a)
        elif n == LTR:
            x = ("tr", a[0], a[1])
        elif n == LH:
            x = ("h", a[0], a[1])
        elif n == EMP:
            x = ("empty",)
        else:
            return NotImplemented
        self.bind1(m, o, env, x)

    def calli(self, m, o, a, env, regs):
        self.icall(m, o, env, a[0], a[1:])

    def extend(self, m, o, a, env, regs):
        self.bind1(m, o, env, ("extended", a[0], ("const", self.idof(m.attr(o, "ability_ref")))) + tuple(a[1:]))

    def tail(self, m, o, a, env, regs):
        t = m.attr(o, "ability_ref")
        c = ("tr", a[0], ("const", self.idof(t)))
        self.icall(m, o, env, ("field", 0, c), [a[0], ("field", 1, c), ("const", self.opof(t, m.attr(o, "op_name"))), a[1]])

    def cps(self, m, o, a, env, regs):
        t = m.attr(o, "ability_ref")
        i = ("const", self.idof(t))
        c = ("h", a[0], i)
        self.icall(m, o, env, ("field", 0, c), [a[0], ("field", 1, c), a[1], ("tag", a[0], i), ("const", self.opof(t, m.attr(o, "op_name"))), a[2]])

    def nul(self, m, o, a, env, regs):
        t = type_of(m.v, m.v.results(o)[0])
        if self.side == "src" and t == NAMED["$ev"]:
            self.bind1(m, o, env, ("empty",))
            return
        return NotImplemented

    def map(self):
        d = {"arith.const": self.const, "core.unrealized_conversion_cast": self.cast, "adt.struct_get": self.get, "func.call": self.call,
             "func.call_indirect": self.calli, "adt.ref_null": self.nul, "adt.array_new": self.nul, "adt.struct_new": self.new}
        if self.side == "src":
            d.update({"effect.extend": self.extend, "effect.dispatch_tail": self.tail, "effect.dispatch_cps": self.cps})
        return d


HEAD = "func.func {sym_name=@f}\n  ^e ev:core.ptr tag:core.i32 tr:core.ptr h:core.ptr p:tribute_rt.anyref k:tribute_rt.anyref c:core.i1 id:core.i32\n"
L = {
    "install": "  e1:core.ptr = effect.extend ev tag tr h {ability_ref=!$State}\n  func.call e1 {callee=@body}",
    "perform with tail resumption": "  r:tribute_rt.anyref = effect.dispatch_tail ev p {ability_ref=!$State,op_name=@get}\n  func.call r {callee=@use}",
    "perform with a continuation": "  r:tribute_rt.anyref = effect.dispatch_cps ev k p {ability_ref=!$State,op_name=@get}\n  func.call r {callee=@use}",
    "two operations of an ability": "  r:tribute_rt.anyref = effect.dispatch_tail ev p {ability_ref=!$State,op_name=@get}\n  s:tribute_rt.anyref = effect.dispatch_tail ev r {ability_ref=!$State,op_name=@set}\n  t:tribute_rt.anyref = effect.dispatch_cps ev k s {ability_ref=!$State,op_name=@get}\n  u:tribute_rt.anyref = effect.dispatch_cps ev t r {ability_ref=!$State,op_name=@set}\n  func.call u {callee=@use}",
    "one operation name in two abilities": "  r:tribute_rt.anyref = effect.dispatch_tail ev p {ability_ref=!$State,op_name=@get}\n  s:tribute_rt.anyref = effect.dispatch_tail ev r {ability_ref=!$Con,op_name=@get}\n  func.call s {callee=@use}",
    "abilities with arguments": "  r:tribute_rt.anyref = effect.dispatch_cps ev k p {ability_ref=!$StateI,op_name=@get}\n  s:tribute_rt.anyref = effect.dispatch_cps ev k r {ability_ref=!$StateF,op_name=@get}\n  e1:core.ptr = effect.extend ev tag tr h {ability_ref=!$StateI}\n  t:tribute_rt.anyref = effect.dispatch_cps e1 k p {ability_ref=!$StateFoo,op_name=@get}\n  func.call r s t {callee=@use}",
    "nested handlers": "  e1:core.ptr = effect.extend ev tag tr h {ability_ref=!$State}\n  e2:core.ptr = effect.extend e1 tag h tr {ability_ref=!$Con}\n  e3:core.ptr = effect.extend e2 id tr tr {ability_ref=!$State}\n  r:tribute_rt.anyref = effect.dispatch_cps e3 k p {ability_ref=!$State,op_name=@get}\n  s:tribute_rt.anyref = effect.dispatch_tail e2 r {ability_ref=!$State,op_name=@get}\n  t:tribute_rt.anyref = effect.dispatch_cps ev s r {ability_ref=!$Con,op_name=@put}\n  func.call e1 e2 e3 t {callee=@use}",
    "in branches": "  e1:core.ptr = effect.extend ev tag tr h {ability_ref=!$State}\n  v:tribute_rt.anyref = scf.if c\n    r:tribute_rt.anyref = effect.dispatch_tail e1 p {ability_ref=!$State,op_name=@get}\n    scf.yield r\n  |\n    e2:core.ptr = effect.extend e1 id h tr {ability_ref=!$State}\n    s:tribute_rt.anyref = effect.dispatch_cps e2 k p {ability_ref=!$State,op_name=@get}\n    scf.yield s\n  func.call v {callee=@use}",
    "in a later block": "  cf.cond_br c -> ^a ^b\n  ^a\n  r:tribute_rt.anyref = effect.dispatch_tail ev p {ability_ref=!$State,op_name=@get}\n  cf.br r -> ^j\n  ^b\n  s:tribute_rt.anyref = effect.dispatch_cps ev k p {ability_ref=!$Con,op_name=@put}\n  cf.br s -> ^j\n  ^j x:tribute_rt.anyref\n  t:tribute_rt.anyref = effect.dispatch_tail ev x {ability_ref=!$Con,op_name=@put}\n  func.call t {callee=@use}",
    "typed dispatch values": "  r:core.nil = effect.dispatch_cps ev k p {ability_ref=!$State,op_name=@get}\n  func.call ev {callee=@use}",
    "no evidence": "  e0:$ev = adt.ref_null {type=!$ev}\n  e1:core.ptr = effect.extend e0 tag tr h {ability_ref=!$State}\n  func.call e0 e1 {callee=@use}",
    "empty evidence": "  z:core.i32 = arith.const {value=0}\n  e0:$ev = adt.array_new z {type=!$ev}\n  e1:core.ptr = effect.extend e0 tag tr h {ability_ref=!$State}\n  r:tribute_rt.anyref = effect.dispatch_tail e1 p {ability_ref=!$State,op_name=@get}\n  func.call e0 r {callee=@use}",
    "no evidence in a branch": "  scf.if c\n    e0:$ev = adt.ref_null {type=!$ev}\n    func.call e0 {callee=@use}\n    scf.yield\n  |\n    z:core.i32 = arith.const {value=0}\n    e1:$ev = adt.array_new z {type=!$ev}\n    func.call e1 {callee=@use}\n    scf.yield",
    "null of another type": "  e0:tribute_rt.anyref = adt.ref_null {type=!tribute_rt.anyref}\n  func.call e0 {callee=@use}",
    "marker fields": f"  m:$marker = func.call ev id {{callee=@{LOOK}}}\n  a:core.i32 = adt.struct_get m {{type=!$marker,field=1}}\n  b:core.ptr = adt.struct_get m {{type=!$marker,field=2}}\n  d:core.ptr = adt.struct_get m {{type=!$marker,field=3}}\n  func.call a b d {{callee=@use}}",
    "one marker field": f"  m:$marker = func.call ev id {{callee=@{LOOK}}}\n  d:core.ptr = adt.struct_get m {{type=!$marker,field=3}}\n  func.call d {{callee=@use}}",
    "two markers": f"  m:$marker = func.call ev id {{callee=@{LOOK}}}\n  n:$marker = func.call ev tag {{callee=@{LOOK}}}\n  a:core.i32 = adt.struct_get m {{type=!$marker,field=1}}\n  b:core.ptr = adt.struct_get n {{type=!$marker,field=2}}\n  d:core.i32 = adt.struct_get n {{type=!$marker,field=1}}\n  x:core.ptr = adt.struct_get m {{type=!$marker,field=3}}\n  func.call a b d x {{callee=@use}}",
    "marker installed": f"  m:$marker = adt.struct_new id tag tr h {{type=!$marker}}\n  e1:core.ptr = func.call ev m {{callee=@{EXT}}}\n  n:$marker = adt.struct_new tag id h tr {{type=!$marker}}\n  e2:core.ptr = func.call e1 n {{callee=@{EXT}}}\n  func.call e1 e2 {{callee=@use}}",
    "markers in branches": f"  scf.if c\n    m:$marker = func.call ev id {{callee=@{LOOK}}}\n    a:core.i32 = adt.struct_get m {{type=!$marker,field=1}}\n    func.call a {{callee=@use}}\n    scf.yield\n  |\n    n:$marker = adt.struct_new id tag tr h {{type=!$marker}}\n    e1:core.ptr = func.call ev n {{callee=@{EXT}}}\n    func.call e1 {{callee=@use}}\n    scf.yield",
    "another struct": "  o:tribute_rt.anyref = adt.struct_new p k {type=!$pair}\n  x:tribute_rt.anyref = adt.struct_get o {type=!$pair,field=1}\n  y:tribute_rt.anyref = adt.struct_get o {type=!$pair,field=0}\n  func.call x y {callee=@use}",
    "untouched": "  r:tribute_rt.anyref = func.call p k {callee=@g}\n  s:tribute_rt.anyref = func.call_indirect h r p\n  func.call s {callee=@use}",
}
REJECT = {
    "evidence with initial elements": "  z:core.i32 = arith.const {value=1}\n  e0:$ev = adt.array_new z p {type=!$ev}\n  func.call e0 {callee=@use}",
}


def lowering(ctx, key, text, reject):
    mod, mf = mod_of(ctx)
    hold = {}

    def setup(eng, st, a):
        h = Heap(eng, st)
        NAMED.update({"$" + n: t for n, t in (("State", ABILITIES["State"]), ("Con", ABILITIES["Console"]), ("StateI", ABILITIES["State(Int)"]),
                                              ("StateF", ABILITIES["State(Float)"]), ("StateFoo", ABILITIES["State(Foo)"]))})
        NAMED["$ev"] = call1(eng, st, AB + "evidence_adt_type_ref", [h.ref])
        NAMED["$marker"] = call1(eng, st, AB + "marker_adt_type_ref", [h.ref])
        NAMED["$pair"] = struct("Pair", [("a", ty("tribute_rt.anyref")), ("b", ty("tribute_rt.anyref"))])
        lay = Layout(h, HEAD + text + "\n  func.return p")
        f = lay.ops["func.func"]
        put(h, f, "type", ("adt", ATTR, "Type", (functy([ty("core.ptr")], ty("tribute_rt.anyref")),), ("0",)))
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        ids, ops = {}, {}
        for n in ("State", "Con", "StateI", "StateF", "StateFoo"):
            t = NAMED["$" + n]
            ids[t] = ident(eng, st, h, t)
            for o in ("get", "set", "put"):
                nm = val(dict(t[4][1])[S("name")])[1]
                ops[t, S(o)] = opidx(eng, st, nm, o)
        hold.update(h=h, v0=h.view(st.fork()), ids=ids, ops=ops)
        return [h.ref, ("adt", mod, "Module", (m,), mf)]
    rs, e = ctx.run(N, setup=setup, max_depth=60, max_rec=12, registry=True)
    if rs is None:
        if reject and isinstance(e.failed, Sure):
            ctx.ok(key)
        else:
            ctx.unk(key, e.failed)
        return
    out = []
    idof = lambda a: hold["ids"][val(a)]
    opof = lambda t, o: hold["ops"][val(t), val(o)]
    for r in rs:
        v = None
        try:
            if r.end != "ret":
                v = None if reject else ("bad", f"{key}: the lowering stops: {r.end}")
            elif reject:
                v = ("bad", f"{key}: accepted")
            else:
                w = hold["h"].view(r.st)
                for o in reach_ops(w, ("ent", "Op", "M")):
                    if (w.opname(o) or "").startswith("effect."):
                        raise Bad(f"{w.opname(o)} remains")
                bad, _ = invariants(w, set(o for o in w.all("Op") if o not in reach_ops(w, ("ent", "Op", "M"))))
                if bad:
                    raise Bad("; ".join(bad[:2]))
                fs = [o for o in reach_ops(w, ("ent", "Op", "M")) if w.opname(o) == "func.func" and val(Meaning(w).attr(o, "sym_name")) == S("f")]
                if len(fs) != 1:
                    raise Bad("the function disappears")
                d, k = compare(Meaning(hold["v0"], special=Sem("src", idof, opof).map()), ("ent", "Op", "func.func"),
                               Meaning(w, special=Sem("dst", idof, opof).map()), fs[0])
                if d:
                    raise Bad(d)
        except Bad as b:
            v = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop, KeyError) as u:
            v = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, v))
    ctx.verdicts(key, out, ctx.where(N))


def check(ctx):
    ctx.rule("after every history of installed handlers, a lookup gives what was installed last for that ability, and installing a handler "
             "changes no earlier evidence")
    ctx.rule("abilities with different names or arguments, and operations of different abilities or names, have different identities")
    ctx.rule("installing and performing are lowered to calls of the run-time functions with the values, identities and handlers of the original")
    for q in [R + x for x in ("empty", "extend", "lookup", "lookup_tr", "lookup_handler")] + [N]:
        if q not in ctx.P.fns:
            ctx.bad(q, "not found", q)
            return
    hs = sorted(set(histories(ctx.tier)), key=lambda x: (len(x), x))
    where = ctx.where(R + "extend")
    jobs = [lambda i=i: history(ctx, hs[i::8], where) for i in range(8)]
    jobs += [lambda: tags(ctx), lambda: identity(ctx)]
    jobs += [lambda k=k, t=t: lowering(ctx, k, t, False) for k, t in L.items()]
    jobs += [lambda k=k, t=t: lowering(ctx, k, t, True) for k, t in REJECT.items()]
    ctx.parallel(jobs)

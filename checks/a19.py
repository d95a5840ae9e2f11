"""A19: functions, calls, branches and memory accesses on the way to native code."""
from .a11 import mod_of, put, reach_ops, functy
from .a18 import tc, REFS
from .a13 import struct
from .lowering import *
from engine.heap import *
from engine.irtrace import *
from engine.clifmem import type_of
from engine.rules import *
from engine import absint

LEVEL = "other"
EXPLANATION = ("The lowering of functions, calls, branches and memory accesses to native operations is analysed as a whole on function shapes; the "
               "executions of the result are compared with those of the original, and every signature with the values that go through it.")
ASSUMPTIONS = ["executions are compared for all outcomes of the first seven conditions",
               "types of one representation (32-bit integers and booleans, doubles, references) convert into each other without code"]
PB = "trunk_ir_cranelift_backend::passes::"
PASSES = [PB + "func_to_clif::lower", PB + "cf_to_clif::lower", PB + "mem_to_clif::lower"]
CC = "tribute.calling_convention"
SIG = "func.indirect_call_signature"
REP = {"core.i32": 4, "core.i1": 4, "tribute_rt.int": 4, "tribute_rt.nat": 4, "tribute_rt.bool": 4, "core.f64": "f8", "tribute_rt.float": "f8",
       "core.i64": 8, "core.i8": 1, "core.i16": 2, "core.f32": "f4", "core.nil": 0}


def rep(t):
    if t is None or t[0] != "ty":
        raise Unclear("type")
    n = t[1][1] + "." + t[2][1]
    return REP.get(n, "ref")


def conv(t):
    """What the type is in native code."""
    r = rep(t)
    return {4: "core.i32", "f8": "core.f64"}.get(r)


def val(a):
    return a[3][0] if a is not None and a[0] == "adt" else a


def ev(m, o, env, name, *payload, end=None):
    rs = m.v.results(o)
    me = len(m.trace)
    m.trace.append((name, payload, (), len(rs)))
    for i, r in enumerate(rs):
        env[r] = ("r", me, i)
    return end


def sp(side):
    src = side == "src"
    F = "func." if src else "clif."

    def call(m, o, a, env, regs):
        return ev(m, o, env, "call", val(m.attr(o, "callee")), tuple(a), val(m.attr(o, CC)))

    def calli(m, o, a, env, regs):
        return ev(m, o, env, "call_indirect", tuple(a), val(m.attr(o, CC)))

    def tail(m, o, a, env, regs):
        return ev(m, o, env, "tail_call", val(m.attr(o, "callee")), tuple(a), val(m.attr(o, CC)), end=("end", []))

    def taili(m, o, a, env, regs):
        s = m.attr(o, SIG if src else "sig")
        return ev(m, o, env, "tail_call_indirect", tuple(a), val(m.attr(o, CC)), val(s), end=("end", []))

    def ret(m, o, a, env, regs):
        m.trace.append(("return", tuple(a)))
        return ("return", a)

    def trap(m, o, a, env, regs):
        m.trace.append(("trap", (), (), 0))
        return ("end", [])

    def const(m, o, a, env, regs):
        env[m.v.results(o)[0]] = ("addr", val(m.attr(o, "func_ref" if src else "sym")))

    def jump(m, o, a, env, regs):
        return ("goto", m.v.seq(m.v.field("Op", o, "successors"))[0], a)

    def brif(m, o, a, env, regs):
        s = m.v.seq(m.v.field("Op", o, "successors"))
        return ("goto", s[0] if m.truth(a[0]) else s[1], [])

    def load(m, o, a, env, regs):
        return ev(m, o, env, "load", a[0], val(m.attr(o, "offset")), rep(type_of(m.v, m.v.results(o)[0])))

    def store(m, o, a, env, regs):
        x, p = (1, 0) if src else (0, 1)
        return ev(m, o, env, "store", a[p], a[x], val(m.attr(o, "offset")), rep(type_of(m.v, m.v.operands(o)[x])))

    def cast(m, o, a, env, regs):
        f, t = type_of(m.v, m.v.operands(o)[0]), type_of(m.v, m.v.results(o)[0])
        if rep(f) != rep(t):
            raise Bad(f"a value of type {tn(f)} is converted to {tn(t)}, which has another representation")
        env[m.v.results(o)[0]] = a[0]

    def new(m, o, a, env, regs):
        return ev(m, o, env, "struct_new", tuple(a))

    def get(m, o, a, env, regs):
        return ev(m, o, env, "struct_get", tuple(a), val(m.attr(o, "field")))
    d = {F + "call": call, F + "call_indirect": calli, F + "return": ret, "core.unrealized_conversion_cast": cast,
         "adt.struct_new": new, "adt.struct_get": get}
    if src:
        d.update({"func.tail_call": tail, "func.tail_call_indirect": taili, "func.unreachable": trap, "func.constant": const,
                  "mem.load": load, "mem.store": store})
    else:
        d.update({"clif.return_call": tail, "clif.return_call_indirect": taili, "clif.trap": trap, "clif.symbol_addr": const,
                  "clif.load": load, "clif.store": store, "clif.jump": jump, "clif.brif": brif})
    return d


def tn(t):
    return f"{t[1][1]}.{t[2][1]}"


CLO = struct("_closure", [("func_ptr", ty("core.ptr")), ("env", ty("core.ptr"))])
CLO2 = struct("_closure", [("func_ptr", functy([ty("core.i32")], ty("core.i32"))), ("env", ty("tribute_rt.anyref"))])
NAMED.update({"$clo": CLO, "$clo2": CLO2, "$cps0": functy([], ty("core.nil")), "$cps2": functy([ty("core.i32"), ty("core.ptr")], ty("core.nil")),
              "$ret1": functy([ty("core.i32")], ty("core.i32"))})

# name: (text, {function: return type})
P = {}


def p(name, text, **ret):
    P[name] = (text, ret)


I, R, N_ = "core.i32", "tribute_rt.anyref", "core.nil"
KINDS = ["core.i32", "core.i1", "tribute_rt.int", "tribute_rt.nat", "tribute_rt.bool", "tribute_rt.float", "core.f64", "core.i64", "core.ptr",
         "tribute_rt.anyref"] + ["$" + k.replace(" ", "_") for k in REFS]
for k in KINDS:
    p(f"identity on {k}", f"func.func {{sym_name=@f}}\n  ^e x:{k}\n  func.return x", f=k)
    p(f"call with {k}", f"func.func {{sym_name=@f}}\n  ^e x:{k} y:{I}\n  r:{k} = func.call y x {{callee=@g}}\n  s:{k} = func.call y r {{callee=@h}}\n  func.return s", f=k)
    p(f"indirect call with {k}", f"func.func {{sym_name=@f}}\n  ^e c:core.ptr x:{k} y:{I}\n  r:{k} = func.call_indirect c x y\n  func.return r", f=k)
    p(f"branch argument of {k}", f"func.func {{sym_name=@f}}\n  ^e x:{k} y:{k} c:core.i1\n  cf.cond_br c -> ^a ^b\n  ^a\n  cf.br x y -> ^j\n  ^b\n  cf.br y x -> ^j\n  ^j u:{k} v:{k}\n  func.call u {{callee=@g}}\n  func.return v", f=k)
    p(f"memory of {k}", f"func.func {{sym_name=@f}}\n  ^e q:core.ptr x:{k}\n  mem.store q x {{offset=8}}\n  y:{k} = mem.load q {{offset=16}}\n  mem.store q y {{offset=24}}\n  func.return y", f=k)
p("no parameters", "func.func {sym_name=@f}\n  r:core.i32 = func.call {callee=@g}\n  func.return r")
p("nothing returned", "func.func {sym_name=@f}\n  ^e x:core.i32\n  func.call x {callee=@g}\n  func.return", f=N_)
p("unit returned", "func.func {sym_name=@f}\n  ^e x:core.i32\n  n:core.nil = func.call x {callee=@g}\n  func.return n", f=N_)
p("unreachable", "func.func {sym_name=@f}\n  ^e x:core.i1\n  cf.cond_br x -> ^a ^b\n  ^a\n  func.return x\n  ^b\n  func.call x {callee=@g}\n  func.unreachable", f="core.i1")
p("order of effects", "func.func {sym_name=@f}\n  ^e x:core.i32 q:core.ptr\n  a:core.i32 = func.call x {callee=@a}\n  mem.store q a {offset=0}\n  b:core.i32 = mem.load q {offset=0}\n  c:core.i32 = func.call b a x {callee=@c}\n  mem.store q c {offset=4}\n  d:core.i32 = func.call {callee=@d}\n  func.return d")
p("address of a function", "func.func {sym_name=@f}\n  ^e x:core.i32\n  g:core.ptr = func.constant {func_ref=@target}\n  h:core.ptr = func.constant {func_ref=@other}\n  r:core.i32 = func.call_indirect g x\n  s:core.i32 = func.call_indirect h r x\n  func.call g h {callee=@keep}\n  func.return s")
p("typed address of a function", "func.func {sym_name=@f}\n  ^e x:core.i32\n  g:$ret1 = func.constant {func_ref=@target}\n  r:core.i32 = func.call_indirect g x\n  func.return r")
p("tail call", "func.func {sym_name=@f}\n  ^e x:core.i32 y:core.ptr\n  func.tail_call y x {callee=@g}")
p("tail call to itself", "func.func {sym_name=@f}\n  ^e x:core.i32 y:core.i1\n  cf.cond_br y -> ^a ^b\n  ^a\n  func.tail_call x y {callee=@f}\n  ^b\n  func.return x")
p("tail call without arguments", "func.func {sym_name=@f}\n  func.tail_call {callee=@g}")
p("tail call with a converted argument", "func.func {sym_name=@f}\n  ^e x:tribute_rt.int y:tribute_rt.float\n  func.tail_call y x {callee=@g}")
for s, a in (("$cps0", ""), ("$cps2", " x y")):
    p(f"indirect tail call {s}", f"func.func {{sym_name=@f,{CC}=2}}\n  ^e c:core.ptr x:core.i32 y:core.ptr\n  func.tail_call_indirect c{a} {{{CC}=2,{SIG}=!{s}}}", f=N_)
p("indirect tail call in a branch", f"func.func {{sym_name=@f,{CC}=2}}\n  ^e c:core.ptr x:core.i32 y:core.ptr\n  cf.cond_br x -> ^a ^b\n  ^a\n  func.tail_call_indirect c x y {{{CC}=2,{SIG}=!$cps2}}\n  ^b\n  func.tail_call_indirect y {{{CC}=2,{SIG}=!$cps0}}", f=N_)
p("conventions on calls", f"func.func {{sym_name=@f,{CC}=2}}\n  ^e c:core.ptr x:core.i32\n  a:core.i32 = func.call x {{callee=@g,{CC}=2}}\n  b:core.i32 = func.call x {{callee=@h,{CC}=1}}\n  d:core.i32 = func.call_indirect c x {{{CC}=2}}\n  func.tail_call x {{callee=@k,{CC}=2}}", f=N_)
p("loop", "func.func {sym_name=@f}\n  ^e n:core.i32\n  cf.br n n -> ^h\n  ^h i:core.i32 acc:core.i32\n  c:core.i1 = t.test i\n  cf.cond_br c -> ^b ^x\n  ^b\n  j:core.i32 = func.call i {callee=@step}\n  cf.br j i -> ^h\n  ^x\n  func.return acc")
p("loop swapping its values", "func.func {sym_name=@f}\n  ^e a:tribute_rt.int b:tribute_rt.int\n  cf.br a b -> ^h\n  ^h x:tribute_rt.int y:tribute_rt.int\n  c:core.i1 = t.test x y\n  cf.cond_br c -> ^b ^e2\n  ^b\n  cf.br y x -> ^h\n  ^e2\n  func.return x", f="tribute_rt.int")
p("both edges to one block", "func.func {sym_name=@f}\n  ^e a:core.i1\n  cf.cond_br a -> ^j ^j\n  ^j\n  func.return a", f="core.i1")
p("dead block", "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\n  ^dead\n  func.unreachable")
p("three functions", "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\nfunc.func {sym_name=@g}\n  ^e2 b:core.ptr\n  func.unreachable\nfunc.func {sym_name=@h}\n  r:core.i32 = func.call {callee=@f}\n  func.return r")
p("declaration", "func.func {sym_name=@ext,abi=@C}\nfunc.func {sym_name=@f}\n  ^e a:core.i32\n  r:core.i32 = func.call a {callee=@ext}\n  func.return r", ext=I)
p("nested module", "core.module {sym_name=@inner}\n  func.func {sym_name=@f}\n    ^e a:core.i32\n    r:core.i32 = func.call a {callee=@g}\n    func.return r")
p("other attributes are kept", "func.func {sym_name=@f,abi=@C,tribute.x=3}\n  ^e a:core.i32\n  r:core.i32 = func.call a {callee=@g,tribute.y=4}\n  func.return r")
p("different offsets", "func.func {sym_name=@f}\n  ^e q:core.ptr r:core.ptr\n  a:core.i32 = mem.load q {offset=0}\n  b:core.i32 = mem.load r {offset=4}\n  mem.store r a {offset=2147483647}\n  mem.store q b {offset=12}\n  func.return a")
p("a stored address", "func.func {sym_name=@f}\n  ^e q:core.ptr r:core.ptr\n  mem.store q r {offset=8}\n  mem.store r q {offset=8}\n  x:core.ptr = mem.load q {offset=8}\n  func.return x", f="core.ptr")
for c in ("$clo", "$clo2"):
    p(f"closure object {c}", f"func.func {{sym_name=@f}}\n  ^e x:core.i32 env:core.ptr\n  g:core.ptr = func.constant {{func_ref=@target}}\n  o:{c} = adt.struct_new g env {{type=!{c}}}\n  func.call o {{callee=@keep}}\n"
      f"  q:core.ptr = adt.struct_get o {{type=!{c},field=0}}\n  e:core.ptr = adt.struct_get o {{type=!{c},field=1}}\n  r:core.i32 = func.call_indirect q e x\n  func.return r")
p("another struct", "func.func {sym_name=@f}\n  ^e x:core.i32\n  o:core.ptr = adt.struct_new x {type=!$a_struct}\n  y:core.i32 = adt.struct_get o {type=!$a_struct,field=0}\n  func.return y")

REJECT = {
    "indirect tail call of an unknown convention": f"func.func {{sym_name=@f}}\n  ^e c:core.ptr\n  func.tail_call_indirect c {{{SIG}=!$cps0}}",
    "indirect tail call without a signature": f"func.func {{sym_name=@f}}\n  ^e c:core.ptr\n  func.tail_call_indirect c {{{CC}=2}}",
    "indirect tail call that returns a value": f"func.func {{sym_name=@f}}\n  ^e c:core.ptr x:core.i32\n  func.tail_call_indirect c x {{{CC}=2,{SIG}=!$ret1}}",
    "offset beyond 31 bits": "func.func {sym_name=@f}\n  ^e q:core.ptr\n  a:core.i32 = mem.load q {offset=2147483648}\n  func.return a",
    "store offset beyond 31 bits": "func.func {sym_name=@f}\n  ^e q:core.ptr\n  mem.store q q {offset=4294967288}\n  func.return q",
}


def fname(v, o):
    n = val(Meaning(v).attr(o, "sym_name"))
    return n[1] if n is not None and n[0] == "s" else None


def all_funcs(v, kind):
    return {fname(v, o): o for o in reach_ops(v, ("ent", "Op", "M")) if v.opname(o) == kind}


def attrs(v, o):
    a = v.field("Op", o, "attributes")
    if a is None or a[0] != "map":
        raise Unclear("attributes")
    return {k[1]: x for k, x in a[1]}


def signature(v, o, what):
    t = val(Meaning(v).attr(o, what))
    if t is None or t[0] != "ty" or tn(t) != "core.func":
        raise Bad(f"{v.opname(o)} has no function type")
    ps = list(t[3][1])
    if not ps:
        raise Bad(f"{v.opname(o)} has an empty function type")
    return ps[0], ps[1:]


def native(t, what):
    c = conv(t)
    if c is not None and t != ty(c):
        raise Bad(f"{what} still has the type {tn(t)}")


def judge(v0, v, hold):
    bad, _ = invariants(v, set(o for o in v.all("Op") if o not in reach_ops(v, ("ent", "Op", "M"))))
    if bad:
        raise Bad("; ".join(bad[:2]))
    for o in reach_ops(v, ("ent", "Op", "M")):
        n = v.opname(o) or ""
        if n.split(".")[0] in ("func", "cf") or n in ("mem.load", "mem.store"):
            raise Bad(f"{n} remains")
    f0, f1 = all_funcs(v0, "func.func"), all_funcs(v, "clif.func")
    if set(f0) != set(f1):
        raise Bad(f"functions {sorted(f0)} become {sorted(f1)}")
    n = 0
    for name, a in f0.items():
        b = f1[name]
        x, y = attrs(v0, a), attrs(v, b)
        for k in set(x) | set(y):
            if k != "type" and x.get(k) != y.get(k):
                raise Bad(f"{name}: the attribute {k} changes")
        ret, ps = signature(v, b, "type")
        ret0, ps0 = signature(v0, a, "type")
        if [rep(t) for t in ps0] != [rep(t) for t in ps] or rep(ret0) != rep(ret):
            raise Bad(f"{name}: the signature {[tn(t) for t in ps0]} -> {tn(ret0)} becomes {[tn(t) for t in ps]} -> {tn(ret)}")
        for t in ps + [ret]:
            native(t, f"{name}: its signature")
        if not v0.seq(v0.field("Op", a, "regions")):
            if v.seq(v.field("Op", b, "regions")):
                raise Bad(f"{name}: the declaration becomes a definition")
            continue
        bs = v.seq(v.field("Region", v.seq(v.field("Op", b, "regions"))[0], "blocks"))
        got = [type_of(v, q) for q in v.bargs(bs[0])]
        if got != ps:
            raise Bad(f"{name}: its parameters are {[tn(t) for t in got]}, its type says {[tn(t) for t in ps]}")
        for bl in bs:
            for q in v.bargs(bl):
                native(type_of(v, q), f"{name}: a block argument")
            for o in v.ops(bl):
                if v.opname(o) == "clif.call_indirect":
                    r, qs = signature(v, o, "sig")
                    want = [type_of(v, z) for z in v.operands(o)[1:]]
                    if qs != want:
                        raise Bad(f"{name}: an indirect call passes {[tn(t) for t in want]}, its signature says {[tn(t) for t in qs]}")
                    if v.results(o) and rep(r) != rep(type_of(v, v.results(o)[0])):
                        raise Bad(f"{name}: an indirect call gives another type than its signature says")
                    native(r, f"{name}: an indirect call")
                if v.opname(o) in ("clif.call", "clif.return_call", "clif.call_indirect", "clif.return_call_indirect"):
                    for z in v.operands(o)[1 if "indirect" in v.opname(o) else 0:]:
                        native(type_of(v, z), f"{name}: an argument of a call")
                if v.opname(o) in ("adt.struct_new", "adt.struct_get"):
                    closure(v, o)
        d, k = compare(Meaning(v0, special=sp("src")), a, Meaning(v, special=sp("clif")), b)
        if d:
            raise Bad(f"in {name}: {d}")
        n += k
    hold["n"] = n


def closure(v, o):
    t = val(Meaning(v).attr(o, "type"))
    at = dict((k[1], x) for k, x in t[4][1]) if t is not None and t[0] == "ty" else {}
    nm = val(at.get("name"))
    if nm != S("_closure"):
        return
    fs = v.seq(val(at["fields"]))
    if fs is None:
        raise Unclear("fields")
    fs = [val(v.seq(val(f))[1]) for f in fs]
    if len(fs) != 2:
        raise Bad("a closure object has another number of fields")
    if v.opname(o) == "adt.struct_new":
        ws = [type_of(v, z) for z in v.operands(o)]
        if len(ws) != 2:
            raise Bad("a closure object is built from another number of values")
        return
    i = val(Meaning(v).attr(o, "field"))[1]
    r = type_of(v, v.results(o)[0])
    if r != fs[i] and rep(r) != rep(fs[i]):
        raise Bad(f"field {i} of a closure object has type {tn(fs[i])} and is read as {tn(r)}")


def case(ctx, key, text, rets, reject):
    mod, mf = mod_of(ctx)
    hold = {}

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        v = h.view(st)
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func":
                rs = v.seq(v.field("Op", o, "regions"))
                ps = []
                if rs:
                    bl = v.seq(v.field("Region", rs[0], "blocks"))
                    ps = [type_of(v, x) for x in v.bargs(bl[0])]
                elif key == "declaration":
                    ps = [ty("core.i32")]
                put(h, o, "type", ("adt", ATTR, "Type", (functy(ps, ty(rets.get(fname(v, o), I))),), ("0",)))
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        M = ("adt", mod, "Module", (m,), mf)
        hold.update(h=h, v0=h.view(st.fork()), err=None)
        for q in PASSES[:-1]:
            r = call1(eng, st, q, [h.ref, M, tc(eng, st, h)])
            if r[0] == "adt" and r[2] == "Err":
                hold["err"] = q
                raise Refused(q)
            if r[0] != "adt":
                raise Budget("result of " + q)
        return [h.ref, M, tc(eng, st, h)]
    try:
        rs, e = ctx.run(PASSES[-1], setup=setup, max_depth=60, max_rec=12)
    except Refused as x:
        ctx.decide(key, reject, f"{key}: a function without anything unusual is refused by {x}", ctx.where(PASSES[0]))
        return
    if rs is None:
        if hold.get("err"):
            ctx.decide(key, reject, f"{key}: refused by {hold['err']}", ctx.where(PASSES[0]))
        else:
            ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        v = None
        try:
            if r.end != "ret":
                v = ("bad", f"{key}: the lowering stops: {r.end}")
            elif r.ret is None or r.ret[0] != "adt":
                v = ("unk", "result")
            elif r.ret[2] == "Err":
                v = None if reject else ("bad", f"{key}: refused")
            elif reject:
                v = ("bad", f"{key}: accepted")
            else:
                judge(hold["v0"], hold["h"].view(r.st), hold)
        except Bad as b:
            v = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            v = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, v))
    ctx.verdicts(key, out, ctx.where(PASSES[0]))


class Refused(Exception):
    pass


def check(ctx):
    ctx.rule("every execution of the lowered function performs the calls, loads, stores, traps, tail calls and returns of the original, with the "
             "same values, in the same order")
    ctx.rule("the function type, the parameters, the values passed and the signatures of indirect calls agree and are native types")
    ctx.rule("what cannot be expressed natively is refused, never changed")
    for q in PASSES:
        if q not in ctx.P.fns:
            ctx.bad(q, "native lowering entry point not found", q)
            return
    jobs = [lambda k=k, t=t, r=r: case(ctx, k, t, r, False) for k, (t, r) in P.items()]
    jobs += [lambda k=k, t=t: case(ctx, k, t, {}, True) for k, t in REJECT.items()]
    ctx.parallel(jobs)

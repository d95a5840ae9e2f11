"""A18: boxed numbers and representation casts in native code."""
from .a11 import *
from .a11 import PLAIN, BP, TP
from .a13 import funcs, check_object, executions, struct, enumt
from engine.clifmem import *
from engine.irtrace import NAMED

LEVEL = "other"
EXPLANATION = ("The lowering of boxing, unboxing and representation casts is analysed as a whole on functions with every pairing of source and "
               "target type; the result is followed through a byte-accurate abstract memory together with the reference counting inserted "
               "around it.")
ASSUMPTIONS = ["references of every pointer type have the same representation in native code",
               "a box whose making cannot be seen where it is released is released without a size (the runtime then keeps it)"]
BOX = "tribute_passes::native::tribute_rt_to_clif::lower"
TCN = "tribute_passes::native::type_converter::native_type_converter"
CAST = "trunk_ir::conversion::resolve_unrealized_casts::resolve_unrealized_casts"
USER = 32
I32, I64, F64, PTR, ANY = "core.i32", "core.i64", "core.f64", "core.ptr", "tribute_rt.anyref"
PRIM = {"int": I32, "nat": I32, "bool": I32, "float": F64}


def bare(d, n, params=(), attrs=()):
    return ("ty", S(d), S(n), ("seq", tuple(params)), ("map", tuple(attrs)))


MARKER_FREE = bare("core", "array", [ty("core.i32")])
REFS = {"a struct": struct("Node", [("f", ty("core.i32"))]), "an enum": enumt("Opt", [("None", []), ("Some", [ty("core.ptr")])]),
        "a named type": bare("adt", "typeref"), "bytes": bare("core", "bytes"), "an array": MARKER_FREE,
        "a closure": bare("closure", "closure", [functy([ty("core.i32")], ty("core.i32"))]),
        "a function": functy([ty("core.i32")], ty("core.i32")), "an integer reference": bare("tribute_rt", "intref")}
for _k, _t in REFS.items():
    NAMED["$" + _k.replace(" ", "_")] = _t


def tc(eng, st, h):
    r = call1(eng, st, TCN, [h.ref])
    return r[1][0] if r[0] == "tup" else eng.project(st, r, ("f", 0, "0"))


def fn(text, params, ret=None):
    return "clif.func {sym_name=@f}\n  ^e " + " ".join(params) + "\n" + "\n".join("  " + l for l in text) + "\n"


def run(ctx, key, text, judge, rc=True):
    hold = {}
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        v = h.view(st)
        for t, o in lay.ops.items():
            if v.opname(o) == "clif.func":
                b = v.seq(v.field("Region", v.seq(v.field("Op", o, "regions"))[0], "blocks"))[0]
                put(h, o, "type", ("adt", ATTR, "Type", (functy([type_of(v, x) for x in v.bargs(b)], ty(I32)),), ("0",)))
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        M = ("adt", mod, "Module", (m,), mf)
        hold.update(h=h, m=m, v0=h.view(st.fork()))
        r = call1(eng, st, BOX, [h.ref, M, tc(eng, st, h)])
        if r[0] != "adt" or r[2] != "Ok":
            raise (Budget if st.conds else absint.Definite)("boxing is refused: " + brief(eng.freeze(st, r), 150))
        if rc:
            call1(eng, st, PLAIN, [h.ref, M, enum(BP, "Preserve"), enum(TP, "Preserve")])
        return [h.ref, M, eng.ref_to(st, tc(eng, st, h))]
    rs, e = ctx.run(CAST, setup=setup, max_depth=60, max_rec=12)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        v = None
        try:
            if r.end != "ret":
                v = ("bad", f"{key}: the lowering stops: {r.end}")
            else:
                vw = hold["h"].view(r.st)
                bad, unk = invariants(vw, set(o for o in vw.all("Op") if o not in reach_ops(vw, ("ent", "Op", "M"))))
                if bad:
                    raise Bad("; ".join(bad[:2]))
                judge(vw, funcs(vw, hold["m"]), r.ret)
        except Bad as b:
            v = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            v = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, v))
    ctx.verdicts(key, out, ctx.where(BOX))


def left(v, pred):
    return [o for o in reach_ops(v, ("ent", "Op", "M")) if pred(v.opname(o) or "")]


def release_hook(m, o, a, env):
    p = a[0]
    if p[0] == "int" and p[1] == 0:
        return None
    if p[0] != "ptr":
        m.trace.append(("release", p))
        return None
    ob = m.objs[p[1]]
    if not ob.live:
        raise Bad(f"{ob.name} is released after it was freed")
    if p[2] != 8:
        raise Bad(f"{ob.name} is released through the address {p[2]}")
    c = ob.cells.get(0)
    n = c[1][1] - 1
    ob.cells[0] = (4, ("int", n), c[2])
    if n == 0:
        sz = m.num(o, "alloc_size")
        if sz == 0:
            return None         # nothing is freed; `follow` asks for boxes that must be
        if sz != ob.size:
            raise Bad(f"{ob.name}, allocated with {ob.size} bytes, is freed with {sz}")
        ob.live = False
    return None


def retain_hook(m, o, a, env):
    p = a[0]
    env[m.v.results(o)[0]] = p
    if p[0] == "ptr":
        ob = m.objs[p[1]]
        if not ob.live:
            raise Bad(f"{ob.name} is retained after it was freed")
        c = ob.cells.get(0)
        ob.cells[0] = (4, ("int", c[1][1] + 1), c[2])
    else:
        m.trace.append(("retain", p))
    return None


HOOKS = {"tribute_rt.release": release_hook, "tribute_rt.retain": retain_hook}


def follow(v, fs, args, want, boxes=True, freed=None):
    f = fs.get("f")
    if f is None:
        raise Bad("the function is gone")
    n = 0
    for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS, casts=()), f, lambda m: args):
        n += 1
        if end[0] != "return":
            raise Bad(f"ends in {end[0]}")
        seen = [e[2] for e in m.trace if e[0] == "call" and e[1] == "seen"]
        if seen != [tuple(w) for w in want]:
            raise Bad(f"the values seen are {[show(s) for s in seen]} instead of {[show(s) for s in want]}")
        for ob in m.objs:
            if freed is not None and ob.live == freed:
                raise Bad(f"{ob.name} is " + ("never freed" if freed else "freed"))
            if freed is False:
                continue
        if boxes:
            for i, ob in enumerate(m.objs):
                c = ob.cells.get(4)
                if c is None or c[0] != 4 or c[1][0] != "int":
                    raise Bad(f"{ob.name} has no type index")
                if not 0 <= c[1][1] < USER:
                    raise Bad(f"the type index {c[1][1]} of a box belongs to the user's types")
                k = ob.cells.get(0)
                if k is None or k[0] != 4:
                    raise Bad(f"{ob.name} has no count")
    if not n:
        raise Unclear("not followed")


def show(s):
    return ", ".join(str(x[1]) if x[0] in ("sym", "int") else repr(x) for x in s)


def check(ctx):
    ctx.rule("boxing then unboxing gives the value, at its width, inside the allocation; the header counts one and names a built-in type")
    ctx.rule("released where it was made, a box is freed once with the size it was allocated with")
    ctx.rule("casts between references are the identity; casts between numbers and references box and unbox; others are reported and kept")
    for p in (BOX, TCN, PLAIN):
        if p not in ctx.P.fns:
            ctx.bad(p, "boxing entry point not found", p)
            return
    if CAST not in ctx.P.fns:
        ctx.bad(CAST, "cast resolution not found", CAST)
        return
    X = [("sym", "x")]
    jobs = []

    def job(key, text, judge, rc=True):
        jobs.append(lambda: run(ctx, key, text, judge, rc))

    def gone(v):
        l = left(v, lambda n: n == "core.unrealized_conversion_cast" or n.startswith("tribute_rt.") and not n.endswith((".retain", ".release")))
        if l:
            raise Bad(f"{v.opname(l[0])} remains")
    # ways to box / unbox: explicit op or cast
    boxers = {f"box_{k}": (t, lambda x, k=k: f"b:{ANY} = tribute_rt.box_{k} {x}") for k, t in PRIM.items()}
    for t in (I32, I64, F64):
        boxers[f"cast of {t}"] = (t, lambda x: f"b:{ANY} = core.unrealized_conversion_cast {x}")
    unboxers = {f"unbox_{k}": (t, lambda x, t=t, k=k: f"y:{t} = tribute_rt.unbox_{k} {x}") for k, t in PRIM.items()}
    for t in (I32, I64, F64, "tribute_rt.int", "tribute_rt.nat", "tribute_rt.bool", "tribute_rt.float"):
        unboxers[f"cast to {t}"] = ({"tribute_rt.float": F64}.get(t, I32 if t.startswith("tribute_rt") else t), lambda x, t=t: f"y:{t} = core.unrealized_conversion_cast {x}")
    for bn, (bt, bx) in boxers.items():
        for un, (ut, ux) in unboxers.items():
            if bt != ut or bn.startswith("box") and un.startswith("un") and bn[4:] != un[6:]:
                continue
            explicit = bn.startswith("box")

            def judge(v, fs, ret, explicit=explicit):
                gone(v)
                follow(v, fs, X, [X], freed=True if explicit else None)
            job(f"{bn}, {un}", fn([bx("x"), ux("b"), "clif.call y {callee=@seen}", "clif.return x"], [f"x:{bt}"]), judge)
            if explicit:
                job(f"{bn}, kept by a second holder, {un}", fn(
                    [bx("x"), f"r:{ANY} = tribute_rt.retain b", ux("b"), "clif.call y {callee=@seen}",
                     "tribute_rt.release b {alloc_size=%d}" % (16 if bt == F64 else 12),
                     "tribute_rt.release r {alloc_size=%d}" % (16 if bt == F64 else 12), "clif.return x"], [f"x:{bt}"]), judge, rc=False)
    # a box returned or passed on is not freed
    for bn, (bt, bx) in boxers.items():
        def judge(v, fs, ret):
            gone(v)
            f = fs.get("f")
            for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS, casts=()), f, lambda m: X):
                if end[0] != "return":
                    raise Bad(f"ends in {end[0]}")
                check_object(end[1][0], m, None, "the box")
                if not m.objs[end[1][0][1]].live:
                    raise Bad("the returned box is freed")
        job(f"{bn}, returned", fn([bx("x"), "clif.return b"], [f"x:{bt}"]), judge)
    # two boxes do not share
    for k in ("int", "float"):
        t = PRIM[k]

        def judge(v, fs, ret):
            gone(v)
            follow(v, fs, [("sym", "x"), ("sym", "y")], [[("sym", "x"), ("sym", "y")]], freed=True)
        job(f"two boxes of {k}", fn([f"a:{ANY} = tribute_rt.box_{k} x", f"b:{ANY} = tribute_rt.box_{k} y", f"p:{t} = tribute_rt.unbox_{k} a",
                                     f"q:{t} = tribute_rt.unbox_{k} b", "clif.call p q {callee=@seen}", "clif.return x"], [f"x:{t}", f"y:{t}"]), judge)
    # unboxing a raw value is the identity
    for k in ("int", "nat", "bool"):
        def judge(v, fs, ret):
            gone(v)
            follow(v, fs, X, [X])
        job(f"unbox_{k} of a raw number", fn([f"y:{PRIM[k]} = tribute_rt.unbox_{k} x", "clif.call y {callee=@seen}", "clif.return x"], [f"x:{I32}"]), judge)
    # boxes made and unboxed in branches
    for k in PRIM:
        t = PRIM[k]

        def judge(v, fs, ret):
            gone(v)
            f = fs.get("f")
            n = 0
            for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS, casts=()), f, lambda m: [("sym", "c"), ("sym", "x")]):
                n += 1
                seen = [e[2] for e in m.trace if e[0] == "call" and e[1] == "seen"]
                if seen != [(("sym", "x"),)]:
                    raise Bad(f"the values seen are {[show(s) for s in seen]}")
                if any(ob.live for ob in m.objs):
                    raise Bad("a box is never freed")
            if n < 2:
                raise Unclear("branches")
        job(f"{k} boxed in each branch", "clif.func {sym_name=@f}\n  ^e c:core.i32 x:%s\n  clif.brif c -> ^a ^b\n  ^a\n  p:%s = tribute_rt.box_%s x\n"
            "  y:%s = tribute_rt.unbox_%s p\n  clif.call y {callee=@seen}\n  clif.return c\n  ^b\n  q:%s = tribute_rt.box_%s x\n"
            "  z:%s = tribute_rt.unbox_%s q\n  clif.call z {callee=@seen}\n  clif.return c\n" % (t, ANY, k, t, k, ANY, k, t, k), judge)
    # identity casts
    refs = dict([(k, "$" + k.replace(" ", "_")) for k in REFS] + [("a pointer", PTR), ("any reference", ANY)])
    for a, ta in refs.items():
        for b, tb in refs.items():
            def judge(v, fs, ret):
                gone(v)
                follow(v, fs, X, [X], boxes=False)
                if left(v, lambda n: n in ("clif.load", "clif.store")):
                    raise Bad("memory is touched")
            job(f"cast of {a} to {b}", fn([f"y:{tb} = core.unrealized_conversion_cast x", "clif.call y {callee=@seen}", "clif.return x"],
                                         [f"x:{ta}"]), judge, rc=False)
    for a, b in (("tribute_rt.int", I32), ("tribute_rt.nat", I32), ("tribute_rt.bool", I32), ("core.i1", I32), ("tribute_rt.float", F64),
                 (I32, "tribute_rt.int"), (I32, "tribute_rt.nat"), (I32, "tribute_rt.bool"), (F64, "tribute_rt.float"), (I32, "core.i1"), (I32, I32)):
        def judge(v, fs, ret):
            gone(v)
            follow(v, fs, X, [X], boxes=False)
            if left(v, lambda n: n in ("clif.load", "clif.store")):
                raise Bad("memory is touched")
        job(f"cast of {a} to {b}", fn([f"y:{b} = core.unrealized_conversion_cast x", "clif.call y {callee=@seen}", "clif.return x"], [f"x:{a}"]), judge, rc=False)
    # nil
    for t in (PTR, ANY):
        def judge(v, fs, ret):
            gone(v)
            follow(v, fs, X, [[("int", 0)]], boxes=False)
        job(f"cast of nil to {t}", fn([f"y:{t} = core.unrealized_conversion_cast x", "clif.call y {callee=@seen}", "clif.return x"], ["x:core.nil"]), judge, rc=False)
    # casts that cannot be resolved are kept and reported, the others go
    def unresolved(n):
        def judge(v, fs, ret):
            l = left(v, lambda x: x == "core.unrealized_conversion_cast")
            if len(l) != n:
                raise Bad(f"{len(l)} casts remain instead of {n}")
            if ret is None or ret[0] != "adt":
                raise Unclear("result")
            d = dict(zip(ret[4], ret[3]))
            u = v.seq(d.get("unresolved")) if d.get("unresolved") is not None else None
            if u is None:
                raise Unclear("unresolved")
            if len(u) != n:
                raise Bad(f"{len(u)} casts are reported, {n} remain")
            froms = [dict(zip(x[4], x[3])) for x in u]
            for o, x in zip(l, froms):
                if x.get("from_type") != type_of(v, v.operands(o)[0]):
                    raise Bad("the report names another source type")
        return judge
    C = "core.unrealized_conversion_cast"
    S1 = [f"y:{F64} = {C} x", "clif.call y {callee=@seen}", "clif.return x"]
    job("number to another kind of number", fn(S1, [f"x:{I32}"]), unresolved(1), rc=False)
    job("resolvable after unresolvable", fn([f"y:{F64} = {C} x", f"z:tribute_rt.int = {C} x", "clif.call y z {callee=@seen}", "clif.return x"], [f"x:{I32}"]), unresolved(1), rc=False)
    job("unresolvable in a later block", "clif.func {sym_name=@f}\n  ^e x:core.i32\n  clif.jump -> ^n\n  ^n\n  y:core.f64 = %s x\n  clif.return x\n" % C, unresolved(1), rc=False)
    job("unresolvable in a nested region", "clif.func {sym_name=@f}\n  ^e x:core.i32\n  t.if x\n    y:core.f64 = %s x\n    t.if x\n      z:core.f64 = %s x\n      w:tribute_rt.int = %s x\n  clif.return x\n" % (C, C, C), unresolved(2), rc=False)
    job("nothing to resolve", fn(["clif.call x {callee=@seen}", "clif.return x"], [f"x:{I32}"]), unresolved(0), rc=False)

    def places(v, fs, ret):
        gone(v)
        us = left(v, lambda n: n == "t.use")
        if len(us) != 4:
            raise Bad(f"{len(us)} of 4 uses remain")
        for u in us:
            if [x[2] for x in v.operands(u)] != ["e.a0"] and len({x for w in us for x in v.operands(w)}) != 1:
                raise Bad("a use of a cast value reads something else")
    job("uses of a cast in nested regions, blocks and other casts", "clif.func {sym_name=@f}\n  ^e x:core.ptr\n  y:tribute_rt.anyref = %s x\n  t.use y\n  t.if x\n    t.use y\n    z:core.ptr = %s y\n    t.use z\n"
        "  clif.jump -> ^n\n  ^n\n  w:tribute_rt.intref = %s y\n  t.use w\n  clif.return x\n" % (C, C, C), places, rc=False)
    ctx.parallel(jobs)

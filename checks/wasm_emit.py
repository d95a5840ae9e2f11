"""Emission of wasm dialect ops as wasm instructions (shared by several properties)."""
from .lowering import *

INSTR = "wasm_encoder::core::code::Function::instruction"


def emitter(ctx):
    """The function that emits one op, found by what it does (emits I32Add under wasm.i32_add), not by name."""
    if "emitter" in ctx._cache:
        return ctx._cache["emitter"]
    cand = []
    for p, f in ctx.P.fns.items():
        if not p.startswith("trunk_ir_wasm_backend::") or "{closure" in p:
            continue
        tys = [f.local_ty(i + 1)["s"] for i in range(f.argc)]
        if any(t.endswith("refs::OpRef") for t in tys) and any(t.endswith("wasm_encoder::Function") or
                                                              t.endswith("code::Function") for t in tys):
            cand.append(p)
    best = None
    for p in sorted(cand):
        f = ctx.P.fns[p]
        oi = next(i for i in range(f.argc) if f.local_ty(i + 1)["s"].endswith("refs::OpRef"))

        def setup(eng, st, args):
            st.eqs[T("op.dialect", args[oi])] = ("=", S("wasm"))
            st.eqs[T("op.name", args[oi])] = ("=", S("i32_add"))
        rs, e = ctx.run(p, setup=setup, max_paths=400, max_steps=60000)
        if rs and any(("I32Add" == x[0]) for r in rs for x in instrs(r)):
            if best is None or len(f.bbs) > len(ctx.P.fns[best[0]].bbs):
                best = (p, oi)
    ctx._cache["emitter"] = best
    return best


def instrs(r):
    """[(instruction name, payload, event)] in emission order."""
    out = []
    for e in r.events:
        if e[0] == "call" and e[1] == INSTR:
            i = e[2][1]
            if i[0] == "adt":
                out.append((i[2], i[3], e))
            else:
                out.append(("?", (i,), e))
        elif e[0] == "loopback":
            out.append(("loopback", (), e))
    return out


def emit(ctx, name, extra=None, shape=(2, 1), dialect="wasm", tys=None, **kw):
    em = emitter(ctx)
    if em is None:
        return None, "no instruction emitter found"
    p, oi = em

    def setup(eng, st, args):
        op = args[oi]
        st.eqs[T("op.dialect", op)] = ("=", S(dialect))
        st.eqs[T("op.name", op)] = ("=", S(name))
        seed_shape(st, op, *shape, eng=eng)
        for i in range(shape[0]):
            seed_ty(st, T("value_ty", operand(op, i)), "i32")
        for i in range(shape[1]):
            seed_ty(st, result_ty(op, i), (tys or ["i32"])[i])
        if extra:
            extra(eng, st, args, op)
    rs, e = ctx.run(p, setup=setup, **kw)
    if rs is None:
        return None, e.failed
    return [r for r in rs if r.end == "ret" and r.ret[0] == "adt" and r.ret[2] == "Ok" and not fallback(r)], None


def fallback(r):
    """The path on which an operand has no local of its own (unreachable after local assignment)."""
    return any(c[0] == "is" and c[2] == "None" and c[1][0] == "t" and c[1][1] == "map_get" and
               mentions(c[1][3], lambda t: t[0] == "t" and t[1] == "op.operands") for c in r.conds)


def opnum(op_idx_value):
    """local of operand i -> ('x', i); of result i -> ('r', i)"""
    m = map_lookup_key(op_idx_value)
    if not m:
        return None
    k = m[1]
    if k[0] == "t" and k[1] == "index" and k[2][0] == "t" and k[2][1] == "op.operands" and k[3][0] == "c":
        return ("x", k[3][1])
    if k[0] == "res" and k[1][0] == "t":
        return ("r", k[2])
    return None


def abstract(r):
    """Instruction list with locals named by operand/result index."""
    out = []
    for n, pl, e in instrs(r):
        if n in ("LocalGet", "LocalSet", "LocalTee"):
            out.append((n, opnum(pl[0]) or ("?", strip(pl[0]))))
        elif n == "loopback":
            continue
        else:
            out.append((n,) + tuple(strip(x) for x in pl))
    return out


def expect_simple(ctx, key, name, want, nops, nres=1, extra=None, payload=None, tys=None, **kw):
    """Emission of `wasm.name` is exactly: operands in order, the instruction, the result's local."""
    ps, fail = emit(ctx, name, extra, (nops, nres), tys=tys, **kw)
    p = emitter(ctx)
    w = ctx.where(p[0]) if p else ""
    if ps is None:
        ctx.unk(key, fail)
        return
    if not ps:
        ctx.bad(key, f"wasm.{name} is never emitted successfully", w)
        return
    good = 0
    for r in ps:
        a = abstract(r)
        if any(x[0] == "?" for x in a) or any(len(x) > 1 and isinstance(x[1], tuple) and x[1]
                                                                   and x[1][0] == "?" for x in a):
            ctx.unk(key, "instruction or local of unknown origin: " + brief(str(a)))
            continue
        pre = [("LocalGet", ("x", i)) for i in range(nops)]
        post = [("LocalSet", ("r", 0))] if nres else []
        core = a[len(pre):len(a) - len(post)] if post else a[len(pre):]
        if a[:len(pre)] != pre or (post and a[-1:] != post):
            # an Ok path on which operands are not all loaded or the result is not kept
            ctx.bad(key, f"wasm.{name}: emitted {[x[:2] for x in a]}: operands must be pushed in order and the result "
                         f"stored in the result's local", w)
            continue
        if len(core) != 1 or core[0][0] != want:
            ctx.bad(key, f"wasm.{name} is emitted as {[x[0] for x in core]}, expected {want}", w)
            continue
        if payload is not None:
            v = payload(core[0][1:], r)
            if v is not True:
                ctx.decide(key, None if v is None else False, f"wasm.{name}: {v}", w)
                continue
        good += 1
        ctx.ok(key)


def camel(name):
    """i32_div_s -> I32DivS, i32_trunc_f64_s -> I32TruncF64S"""
    return "".join(x[:1].upper() + x[1:] for x in name.split("_"))

"""A01: arithmetic keeps its meaning on the native back end."""
from .lowering import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive value-provenance dataflow over the MIR of every rewrite pattern of the native back end "
               "and of the instruction translator, specialised on the opcode and on the operand/result type names.")
ASSUMPTIONS = ["Cranelift's InstBuilder methods mean what Cranelift documents",
               "the verifier's arity holds for the rewritten op"]

BIN = {"addi": "iadd", "subi": "isub", "muli": "imul", "divsi": "sdiv", "divui": "udiv", "remsi": "srem",
       "remui": "urem", "addf": "fadd", "subf": "fsub", "mulf": "fmul", "divf": "fdiv",
       "and": "band", "or": "bor", "xor": "bxor", "shl": "ishl", "shr": "sshr", "shru": "ushr"}
UN = {"negi": "ineg", "negf": "fneg"}
COMM = {"iadd", "imul", "fadd", "fmul", "band", "bor", "bxor"}
FCC = {"oeq": "eq", "une": "ne", "olt": "lt", "ole": "le", "ogt": "gt", "oge": "ge"}
# one's own swap: a<b  ==  b>a
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge",
        "ugt": "ult", "uge": "ule", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}


def norm_fn(name, args, attrs=()):
    if name in COMM:
        args = sorted(args, key=repr)
    if name in ("icmp", "fcmp"):
        c = dict(attrs)["cond"]
        if repr(args[0]) > repr(args[1]) and c in SWAP:
            return (name, (args[1], args[0]), SWAP[c])
        return (name, tuple(args), c)
    if name == "isub" and len(args) == 2 and args[0] == ("iconst", 0):
        return ("ineg", (args[1],))
    return (name, tuple(args))


def clif_name(op, args):
    if not isinstance(op[2], str) or not op[2].startswith("clif."):
        return ("leaf", strip(op))
    n = op[2][5:]
    at = dict(op[4])
    if n == "iconst":
        v = at.get("value")
        v = v[3][0] if v and v[0] == "adt" and v[3] else v
        return ("iconst", v[1] if v and v[0] == "c" else strip(v))
    attrs = ()
    if n in ("icmp", "fcmp"):
        c = at.get("cond")
        c = c[3][0] if c and c[0] == "adt" and c[3] else c
        attrs = (("cond", c[1] if c and c[0] == "s" else strip(c)),)
    f = norm_fn(n, args, attrs)
    if n in ("uextend", "sextend", "ireduce"):
        return f
    return f


def evaluate(r):
    v = replacement(r)
    if v is None:
        return None
    return dag(v, clif_name, leaf_operand())


def final_ty(r):
    v = replacement(r)
    if v and v[0] == "res" and v[1][0] == "op" and v[1][5]:
        return strip(v[1][5][0])
    return None


RES = (T("conv", result_ty(OP)), result_ty(OP))


def check(ctx):
    pats = ctx.patterns(r"trunk_ir_cranelift_backend::")
    X, Y = ("x", 0), ("x", 1)
    ctx.rule("arith op -> value DAG of machine ops: operation, signedness, operand order, result type")

    def expect(key, name, exp, extra=None, shape=(2, 1), must=True, rty=True, models_=None):
        ps, fails = lowering_paths(ctx, pats, "arith", name, extra, shape, models_=models_)
        if not ps:
            if fails:
                ctx.unk(key, fails[0][1])
            elif must:
                ctx.bad(key, f"no rewrite pattern lowers arith.{name} under these types", "trunk-ir-cranelift-backend")
            return
        for p, r in ps:
            got = evaluate(r)
            w = ctx.where(p)
            if got is None:
                ctx.bad(key, f"arith.{name}: rewritten without a replacement value", w)
                continue
            if got not in exp:
                if mentions(got, lambda t: t[0] == "leaf" and len(t) == 2):
                    ctx.unk(key, "value of unknown origin: " + brief(str(got)))
                    continue
                ctx.bad(key, f"arith.{name} lowers to {got}, expected {' or '.join(map(str, exp))}", w)
                continue
            ft = final_ty(r)
            if rty and ft is not None and ft not in RES and not (ft[0] == "ty"):
                ctx.bad(key + "/type", f"arith.{name}: result type {brief(ft)} is not the op's (converted) type", w)
                continue
            if undominated(r):
                ctx.bad(key + "/placed", f"arith.{name}: {undominated(r)[0][2]} is used but never inserted", w)
                continue
            ctx.ok(key)

    for n, f in BIN.items():
        expect(f"arith.{n}", n, [norm_fn(f, [X, Y])])
    for n, f in UN.items():
        expect(f"arith.{n}", n, [(f, (X,))], shape=(1, 1))
    i8 = ("ty", S("core"), S("i8"), ("seq", ()), ("map", ()))
    for pr in CMPI:
        def ex(eng, st, args, op):
            seed_attr(st, op, "predicate", "Symbol", S(pr))
        base = norm_fn("icmp", [X, Y], (("cond", pr),))
        pay = strip(attr_payload(OP, "predicate", "Symbol"))
        cmp_expect(ctx, pats, f"arith.cmpi[{pr}]", "cmpi", ex, "icmp", pr, pay, ident=True)
        cmp_width(ctx, pats, f"arith.cmpi[{pr}]", "cmpi", ex, "icmp")
    for pr in CMPF:
        def ex(eng, st, args, op):
            seed_attr(st, op, "predicate", "Symbol", S(pr))
        cmp_expect(ctx, pats, f"arith.cmpf[{pr}]", "cmpf", ex, "fcmp", FCC[pr],
                   strip(attr_payload(OP, "predicate", "Symbol")), ident=False)
        cmp_width(ctx, pats, f"arith.cmpf[{pr}]", "cmpf", ex, "fcmp")
    # conversions
    conv_native = {"int": "i32", "nat": "i32", "bool": "i32", "i1": "i32", "float": "f64"}
    names = list(INT_W) + list(FLT)
    for src in names:
        for raw in names:
            for mode in ("native", "identity"):
                dst = conv_native.get(raw, raw) if mode == "native" else raw
                if mode == "identity" and raw not in conv_native:
                    continue

                def ex(eng, st, args, op):
                    seed_ty(st, T("value_ty", operand(op, 0)), src, None)
                    seed_ty(st, result_ty(op), raw, None)
                    seed_ty(st, T("conv", result_ty(op)), dst, None)
                si, di = src in INT_W, dst in INT_W
                for n in ("cast", "trunc", "extend", "convert"):
                    exp, must = [], False
                    if si and di:
                        if n == "cast":
                            wider = INT_W[dst] > INT_W[src]
                            exp = [("sextend", (X,))] + ([("uextend", (X,))] if src in UNSIGNED | {"i1"} else []) if wider \
                                else [("ireduce", (X,))] + ([X] if INT_W[dst] == INT_W[src] else [])
                            must = True
                        elif n == "trunc":
                            exp, must = [("ireduce", (X,))], True
                            if INT_W[dst] >= INT_W[src]:
                                exp.append(X)
                        elif n == "extend":
                            exp = [("uextend" if src in UNSIGNED else "sextend", (X,))]
                            if src == "i1":
                                exp.append(("uextend", (X,)))
                            if INT_W[dst] <= INT_W[src]:
                                exp.append(X)
                            must = True
                    elif si and not di and n == "convert":
                        exp, must = [("fcvt_from_uint" if src in UNSIGNED else "fcvt_from_sint", (X,))], True
                        if src == "i1":
                            exp.append(("fcvt_from_uint", (X,)))
                    elif not si and di and n == "convert":
                        exp, must = [("fcvt_to_uint" if raw in UNSIGNED else "fcvt_to_sint", (X,))], True
                    elif not si and di and n == "trunc":
                        exp, must = [("fcvt_to_sint", (X,))], True
                        if raw in UNSIGNED:
                            exp.append(("fcvt_to_uint", (X,)))
                    elif not si and not di and src != dst:
                        if src == "f32" and n in ("extend", "convert"):
                            exp, must = [("fpromote", (X,))], True
                        elif src == "f64" and n in ("convert", "trunc"):
                            exp, must = [("fdemote", (X,))], n == "convert"
                    if not exp:
                        continue
                    expect(f"arith.{n}[{src}->{raw}/{mode}]", n, exp, ex, (1, 1), must=must)
    consts(ctx, pats)
    from . import clif_emit
    clif_emit.arith(ctx)


def cmp_width(ctx, pats, key, name, ex, instr):
    """Comparisons yield one byte; a wider result is its zero extension."""
    for w in ("i8", "i32", "i64"):
        t = ("ty", S("core"), S(w), ("seq", ()), ("map", ()))
        m = {k: (lambda eng, st, fr, args, targs, path, tt: absint.some(t)) for k in CONV_MODELS}
        ps, fails = lowering_paths(ctx, pats, "arith", name, ex, models_=m)
        k = f"{key} as {w}"
        if not ps:
            ctx.unk(k, fails[0][1] if fails else "no pattern")
            continue
        for p, r in ps:
            got, ft = evaluate(r), final_ty(r)
            if got is None or ft is None or ft[0] != "ty" or mentions(got, lambda x: x[0] == "leaf"):
                ctx.unk(k, "value of unknown origin")
            elif ft != t:
                ctx.bad(k, f"arith.{name}: the result has type {brief(ft)} where {w} is expected", ctx.where(p))
            elif got[0] == instr and w != "i8":
                ctx.bad(k, f"arith.{name}: {instr} yields one byte, not {w}", ctx.where(p))
            elif got[0] in ("uextend", "ireduce") and w == "i8":
                ctx.bad(k, f"arith.{name}: {got[0]} from one byte to one byte", ctx.where(p))
            else:
                ctx.ok(k)


def cmp_expect(ctx, pats, key, name, ex, instr, cc, payload, ident):
    ps, fails = lowering_paths(ctx, pats, "arith", name, ex)
    if not ps:
        ctx.unk(key, fails[0][1]) if fails else ctx.bad(key, f"no pattern lowers arith.{name}")
        return
    X, Y = ("x", 0), ("x", 1)
    for p, r in ps:
        got = evaluate(r)
        w = ctx.where(p)
        g, ext = got, None
        if g and g[0] in ("uextend", "sextend") and len(g[1]) == 1:
            ext, g = g[0], g[1][0]
        if ext == "sextend":
            ctx.bad(key, f"arith.{name}: a true comparison would become -1 (sign-extended)", w)
            continue
        if not g or g[0] != instr:
            if g and mentions(g, lambda t: t[0] == "leaf"):
                ctx.unk(key, "unknown value " + brief(str(got)))
            else:
                ctx.bad(key, f"arith.{name} lowers to {got}, expected {instr} {cc}", w)
            continue
        c = g[2]
        if c == payload:
            # the predicate symbol is forwarded unchanged
            ok = ident or FCC.get(cc, cc) == cc and not ident and key.split("[")[1][:-1] == cc
            args = (X, Y)
            if g[1] == (X, Y) and ok:
                ctx.ok(key)
            elif g[1] == (Y, X) and ok and SWAP[cc] == cc:
                ctx.ok(key)
            else:
                ctx.bad(key, f"arith.{name}: predicate {key} forwarded with operands {g[1]}", w)
            continue
        if not isinstance(c, str):
            ctx.unk(key, "condition of unknown origin " + brief(str(c)))
            continue
        ctx.decide(key, g == norm_fn(instr, [X, Y], (("cond", cc),)),
                   f"arith.{name} {key} lowers to {g}, expected {instr} {cc} of (lhs, rhs)", w)


def consts(ctx, pats):
    ctx.rule("arith.const: the emitted constant carries the op's value attribute, at the op's type")
    i64v = attr_payload(OP, "value", "Int")
    fb = attr_payload(OP, "value", "FloatBits")
    for tyname in list(INT_W) + list(FLT):
        for variant in ("Int", "Bool", "FloatBits"):
            if (tyname in FLT) != (variant == "FloatBits"):
                continue

            def ex(eng, st, args, op):
                seed_ty(st, result_ty(op), tyname, None)
                seed_ty(st, T("conv", result_ty(op)), tyname, None)
                seed_attr(st, op, "value", variant)
            key = f"arith.const[{tyname},{variant}]"
            ps, fails = lowering_paths(ctx, pats, "arith", "const", ex, (0, 1))
            if not ps:
                ctx.unk(key, fails[0][1]) if fails else ctx.bad(key, f"no pattern lowers a {variant} constant of type {tyname}")
                continue
            for p, r in ps:
                v = replacement(r)
                w = ctx.where(p)
                if v is None or v[0] != "res" or v[1][0] != "op" or not isinstance(v[1][2], str):
                    ctx.unk(key, "unknown replacement")
                    continue
                op = v[1]
                val = dict(op[4]).get("value")
                inner = val[3][0] if val and val[0] == "adt" and val[3] else val
                want = {"f32": "clif.f32const", "f64": "clif.f64const"}.get(tyname, "clif.iconst")
                if op[2] != want:
                    ctx.bad(key, f"{variant} constant of type {tyname} becomes {op[2]}, expected {want}", w)
                    continue
                if variant == "Int":
                    good = strip(inner) == i64v or (inner[0] == "t" and inner[1] == "cast" and inner[2] == i64v and
                                                    inner[4] in (S("i64"), S("i128")))
                    ctx.decide(key, good, f"integer constant carries {brief(inner)}", w)
                elif variant == "Bool":
                    b = attr_payload(OP, "value", "Bool")
                    fact = r.facts.get(b)
                    if fact is None:
                        ctx.decide(key, True if mentions(inner, lambda t: t == b) else None, brief(inner), w)
                    else:
                        ctx.decide(key, inner == C(1 if fact else 0),
                                   f"boolean constant {fact} becomes {brief(inner)}", w)
                else:
                    fs = [t for t in subterms(val)]
                    width = "f32" if tyname == "f32" else "f64"
                    good = any(t == fb for t in fs)
                    nm = [t[1] for t in fs if t[0] == "t" and t[1].endswith("from_bits")]
                    if nm and not any(n == f"core::{width}::from_bits" for n in nm):
                        ctx.bad(key, f"{tyname} constant reinterpreted through {nm[0]}", w)
                    else:
                        ctx.decide(key, good, f"float constant does not carry the op's bits: {brief(val)}", w)

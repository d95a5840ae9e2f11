"""A02: arithmetic keeps its meaning on the wasm back end."""
from .lowering import *
from . import wasm_emit as we

LEVEL = "other"
EXPLANATION = ("Path-sensitive value-provenance dataflow over the MIR of every rewrite pattern of the wasm back end and "
               "of the op emitter, specialised on the opcode and on the operand/result type names; lookup tables held "
               "in lazily initialised statics are evaluated from their initialiser's MIR.")
ASSUMPTIONS = ["wasm_encoder's Instruction variants encode the instruction they name",
               "the verifier's arity holds for the rewritten op"]

SUF = {"i32": "i32", "i1": "i32", "int": "i32", "nat": "i32", "bool": "i32", "i64": "i64", "f32": "f32", "f64": "f64"}
BINI = {"addi": "add", "subi": "sub", "muli": "mul", "divsi": "div_s", "divui": "div_u", "remsi": "rem_s",
        "remui": "rem_u", "and": "and", "or": "or", "xor": "xor", "shl": "shl", "shr": "shr_s", "shru": "shr_u"}
BINF = {"addf": "add", "subf": "sub", "mulf": "mul", "divf": "div"}
COMM = {"add", "mul", "and", "or", "xor", "eq", "ne"}
PRI = {"eq": "eq", "ne": "ne", "slt": "lt_s", "sle": "le_s", "sgt": "gt_s", "sge": "ge_s", "ult": "lt_u", "ule": "le_u",
       "ugt": "gt_u", "uge": "ge_u"}
PRF = {"oeq": "eq", "une": "ne", "olt": "lt", "ole": "le", "ogt": "gt", "oge": "ge"}
SWAP = {}
for a, b in (("lt", "gt"), ("le", "ge")):
    for s in ("", "_s", "_u"):
        SWAP[a + s], SWAP[b + s] = b + s, a + s

ALL = [f"i{w}_{o}" for w in (32, 64) for o in list(BINI.values()) + list(PRI.values())] + \
      [f"f{w}_{o}" for w in (32, 64) for o in list(BINF.values()) + list(PRF.values())]
UNARY = ["f32_neg", "f64_neg", "i32_wrap_i64", "i64_extend_i32_s", "i64_extend_i32_u"] + \
        [f"i{a}_trunc_f{b}_{s}" for a in (32, 64) for b in (32, 64) for s in "su"] + \
        [f"f{a}_convert_i{b}_{s}" for a in (32, 64) for b in (32, 64) for s in "su"] + \
        ["f32_demote_f64", "f64_promote_f32", "i32_reinterpret_f32", "i64_reinterpret_f64", "f32_reinterpret_i32",
         "f64_reinterpret_i64"]


def norm(n, args):
    suf, o = n.split("_", 1)
    if len(args) == 2 and repr(args[0]) > repr(args[1]):
        if o in COMM:
            args = args[::-1]
        elif o in SWAP:
            return (f"{suf}_{SWAP[o]}", tuple(args[::-1]))
    return (n, tuple(args))


def wname(op, args):
    if not isinstance(op[2], str) or not op[2].startswith("wasm."):
        return ("leaf", strip(op))
    n = op[2][5:]
    if n.endswith("_const"):
        v = dict(op[4]).get("value")
        return (n, unwrap(v))
    return norm(n, args)


def unwrap(v):
    v = strip(v) if v else v
    while v and v[0] == "adt" and v[3]:
        v = v[3][0]
    return v


def evaluate(r):
    v = replacement(r)
    return None if v is None else dag(v, wname, leaf_operand())


X, Y = ("x", 0), ("x", 1)


def check(ctx):
    pats = ctx.patterns(r"trunk_ir_wasm_backend::")
    ctx.rule("arith op on each type -> wasm op of that width: operation, signedness, operand order")

    def expect(key, name, exp, extra, shape=(2, 1), must=True):
        ps, fails = lowering_paths(ctx, pats, "arith", name, extra, shape)
        if not ps:
            if fails:
                ctx.unk(key, fails[0][1])
            elif must:
                ctx.bad(key, f"no rewrite pattern lowers arith.{name} here: the op would reach emission unlowered",
                        "trunk-ir-wasm-backend")
            return
        for p, r in ps:
            got = evaluate(r)
            w = ctx.where(p)
            if got is None:
                ctx.bad(key, f"arith.{name}: rewritten without a replacement value", w)
            elif got not in exp:
                if mentions(got, lambda t: t[0] == "leaf" and len(t) == 2):
                    ctx.unk(key, "value of unknown origin: " + brief(str(got)))
                else:
                    ctx.bad(key, f"arith.{name} lowers to {got}, expected {' or '.join(map(str, exp))}", w)
            elif undominated(r):
                ctx.bad(key, f"arith.{name}: {undominated(r)[0][2]} is used but never inserted", w)
            else:
                ctx.ok(key)

    def both(ty):
        def ex(eng, st, args, op):
            for i in range(2):
                seed_ty(st, T("value_ty", operand(op, i)), ty)
            seed_ty(st, result_ty(op), ty)
        return ex

    INTS, FLTS = ["i32", "i64", "int", "nat", "i1"], ["f32", "f64"]
    for n, o in BINI.items():
        for ty in INTS:
            expect(f"arith.{n}[{ty}]", n, [norm(f"{SUF[ty]}_{o}", [X, Y])], both(ty))
    for n, o in BINF.items():
        for ty in FLTS:
            expect(f"arith.{n}[{ty}]", n, [norm(f"{ty}_{o}", [X, Y])], both(ty))

    def cmpx(pr, ty):
        def ex(eng, st, args, op):
            seed_attr(st, op, "predicate", "Symbol", S(pr))
            for i in range(2):
                seed_ty(st, T("value_ty", operand(op, i)), ty)
            seed_ty(st, result_ty(op), "i1")
        return ex
    for pr, o in PRI.items():
        for ty in INTS:
            expect(f"arith.cmpi[{pr},{ty}]", "cmpi", [norm(f"{SUF[ty]}_{o}", [X, Y])], cmpx(pr, ty))
    for pr, o in PRF.items():
        for ty in FLTS:
            expect(f"arith.cmpf[{pr},{ty}]", "cmpf", [norm(f"{ty}_{o}", [X, Y])], cmpx(pr, ty))
    for ty in FLTS:
        expect(f"arith.negf[{ty}]", "negf", [(f"{ty}_neg", (X,))], both(ty), (1, 1))
    for ty in INTS:
        s = SUF[ty]
        expect(f"arith.negi[{ty}]", "negi", [(f"{s}_sub", ((f"{s}_const", C(0)), X))], both(ty), (1, 1))

    # conversions: what an (op, source, destination) triple means
    def conv(src, dst):
        def ex(eng, st, args, op):
            seed_ty(st, T("value_ty", operand(op, 0)), src)
            seed_ty(st, result_ty(op), dst)
        return ex
    CV = {("cast", "i64", "i32"): ["i32_wrap_i64"], ("cast", "i32", "i64"): ["i64_extend_i32_s"],
          ("trunc", "i64", "i32"): ["i32_wrap_i64"], ("extend", "i32", "i64"): ["i64_extend_i32_s"],
          ("extend", "f32", "f64"): ["f64_promote_f32"], ("convert", "f32", "f64"): ["f64_promote_f32"],
          ("convert", "f64", "f32"): ["f32_demote_f64"]}
    for i in ("i32", "i64"):
        for f in ("f32", "f64"):
            CV[("trunc", f, i)] = [f"{i}_trunc_{f}_s", f"{i}_trunc_sat_{f}_s"]
            CV[("convert", f, i)] = [f"{i}_trunc_{f}_s", f"{i}_trunc_sat_{f}_s"]
            CV[("convert", i, f)] = [f"{f}_convert_{i}_s"]
    for (n, s, d), exp in CV.items():
        expect(f"arith.{n}[{s}->{d}]", n, [(e, (X,)) for e in exp], conv(s, d), (1, 1))

    # constants
    def cst(ty, variant):
        def ex(eng, st, args, op):
            seed_attr(st, op, "value", variant)
            seed_ty(st, result_ty(op), ty)
        return ex
    for ty, var in (("i32", "Int"), ("i64", "Int"), ("int", "Int"), ("nat", "Int"), ("i1", "Bool"), ("f32", "FloatBits"),
                    ("f64", "FloatBits")):
        const(ctx, pats, ty, var, cst(ty, var))

    ctx.rule("wasm op -> instruction of the same name: operands pushed in operand order, result kept in its own local")
    em = we.emitter(ctx)
    if em is None:
        ctx.bad("emitter", "no function emits the instruction of a wasm op", "trunk-ir-wasm-backend")
        return
    for n in ALL:
        we.expect_simple(ctx, f"wasm.{n}", n, we.camel(n), 2)
    for n in UNARY:
        we.expect_simple(ctx, f"wasm.{n}", n, we.camel(n), 1)
    for ty, var in (("i32", "Int"), ("i64", "Int"), ("f32", "FloatBits"), ("f64", "FloatBits")):
        n = f"{ty}_const"

        def pay(p, r, var=var):
            src = attr_payload(T("arg:op"), "value", var)
            if p and mentions(p[0], lambda t: t == strip(src)):
                return True
            if p and p[0][0] == "c":
                return f"constant {p[0]} instead of the op's value attribute"
            return None
        we.expect_simple(ctx, f"wasm.{n}", n, we.camel(n), 0,
                         extra=lambda eng, st, args, op, var=var: seed_attr(st, op, "value", var), payload=pay)


def const(ctx, pats, ty, var, extra):
    key = f"arith.const[{ty},{var}]"
    ps, fails = lowering_paths(ctx, pats, "arith", "const", extra, (0, 1))
    if not ps:
        if fails:
            ctx.unk(key, fails[0][1])
        else:
            ctx.bad(key, "no rewrite pattern lowers this constant", "trunk-ir-wasm-backend")
        return
    src = attr_payload(OP, "value", var)
    for p, r in ps:
        got = evaluate(r)
        w = ctx.where(p)
        if got is None or got[0] == "leaf":
            ctx.unk(key, "replacement of unknown origin")
            continue
        if got[0] != SUF[ty] + "_const":
            ctx.bad(key, f"lowers to wasm.{got[0]}, expected {SUF[ty]}_const", w)
            continue
        v = got[1]
        if var == "Bool":
            # each path fixes the boolean
            known = [c[2] for c in r.conds if c[0] in ("b",) and c[1] == src]
            ctx.decide(key, True if mentions(v, lambda t: t == strip(src)) else
                       (v == C(1) if known[-1] else v == C(0)) if known and v[0] == "c" else None,
                       f"boolean constant lowers to {brief(v)}", w)
            continue
        ctx.decide(key, True if mentions(v, lambda t: t == strip(src)) else (False if v and v[0] == "c" else None),
                   f"constant lowers to {brief(v)} which is not the op's value", w)

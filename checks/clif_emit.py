"""Translation of clif ops to Cranelift instructions (shared by several properties)."""
from .lowering import *

BIN = ["iadd", "isub", "imul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv",
       "band", "bor", "bxor", "ishl", "sshr", "ushr"]
COMM = {"iadd", "imul", "fadd", "fmul", "band", "bor", "bxor"}
UN = ["ineg", "fneg"]
CONV = ["ireduce", "uextend", "sextend", "fpromote", "fdemote", "fcvt_to_sint", "fcvt_from_sint", "fcvt_to_uint",
        "fcvt_from_uint"]
SAT = {"fcvt_to_sint": "fcvt_to_sint_sat", "fcvt_to_uint": "fcvt_to_uint_sat"}
ICC = {"eq": "Equal", "ne": "NotEqual", "slt": "SignedLessThan", "sle": "SignedLessThanOrEqual",
       "sgt": "SignedGreaterThan", "sge": "SignedGreaterThanOrEqual", "ult": "UnsignedLessThan",
       "ule": "UnsignedLessThanOrEqual", "ugt": "UnsignedGreaterThan", "uge": "UnsignedGreaterThanOrEqual"}
FCCN = {"eq": "Equal", "ne": "NotEqual", "lt": "LessThan", "le": "LessThanOrEqual", "gt": "GreaterThan",
        "ge": "GreaterThanOrEqual"}
CCSWAP = {"Equal": "Equal", "NotEqual": "NotEqual"}
for a, b in (("LessThan", "GreaterThan"), ("LessThanOrEqual", "GreaterThanOrEqual")):
    for p in ("Signed", "Unsigned", ""):
        CCSWAP[p + a], CCSWAP[p + b] = p + b, p + a
# cranelift_codegen::ir::types constants (entity numbers of the pinned Cranelift)
CLTY = {"i1": 0x74, "i8": 0x74, "i16": 0x75, "i32": 0x76, "i64": 0x77, "f32": 0x7a, "f64": 0x7b}


def translator(ctx):
    """The method of the function translator that is applied to a single op: found by what it does (calls
    InstBuilder::iadd under clif.iadd), not by name."""
    if "translator" in ctx._cache:
        return ctx._cache["translator"]
    cand = []
    for p, f in ctx.P.fns.items():
        if not p.startswith("trunk_ir_cranelift_backend::") or "{closure" in p or f.argc != 2:
            continue
        t = f.local_ty(2)
        if t["s"].endswith("refs::OpRef") and f.local_ty(1).get("k") == "refmut":
            cand.append(p)
    best = None
    for p in sorted(cand):
        rs, e = ctx.run(p, setup=lambda eng, st, args: seed_op("clif", "iadd", opidx=1)(eng, st, args))
        if rs and any(calls(r, "InstBuilder::iadd") for r in rs):
            best = p if best is None or len(ctx.P.fns[p].bbs) > len(ctx.P.fns[best].bbs) else best
    ctx._cache["translator"] = best
    return best


def emit(ctx, name, extra=None, shape=(2, 1), **kw):
    """-> (ok paths, failure text)"""
    tr = translator(ctx)
    if tr is None:
        return None, "no instruction translator found"

    def setup(eng, st, args):
        op = args[1]
        st.eqs[T("op.dialect", op)] = ("=", S("clif"))
        st.eqs[T("op.name", op)] = ("=", S(name))
        seed_shape(st, op, *shape)
        if extra:
            extra(eng, st, args, op)
    rs, e = ctx.run(tr, setup=setup, **kw)
    if rs is None:
        return None, e.failed
    return [r for r in rs if r.end == "ret" and r.ret[0] == "adt" and r.ret[2] == "Ok"], None


def insts(r):
    return [(e[1].split("::")[-1], e[2][1:], e) for e in r.events
            if e[0] == "call" and "InstBuilder::" in e[1]]


def val_index(v):
    """Cranelift value looked up for operand i -> i"""
    m = map_lookup_key(v)
    if m and m[1][0] == "t" and m[1][1] == "index" and m[1][2][1] == "op.operands" and m[1][3][0] == "c":
        return m[1][3][1]
    return None


def bound_results(r):
    """[(ir result index, cranelift value)] recorded in the translator's value map."""
    out = []
    for e in r.events:
        if e[0] == "call" and e[1] == "map.insert" and e[2][1][0] == "res":
            out.append((e[2][1][2], e[2][2]))
    return out


def arith(ctx):
    ctx.rule("machine op -> exactly one Cranelift instruction of the same operation, operands in order, bound to the op's result")
    tr = translator(ctx)
    if tr is None:
        ctx.bad("translator", "no function of the native back end translates clif.iadd")
        return
    w = ctx.where(tr)

    def one(key, name, accept, extra=None, shape=(2, 1)):
        rs, why = emit(ctx, name, extra, shape)
        if rs is None:
            ctx.unk(key, why)
            return
        if not rs:
            ctx.bad(key, f"clif.{name} is never translated successfully", w)
            return
        for r in rs:
            ins = insts(r)
            if len(ins) != 1:
                if not ins:
                    ctx.bad(key, f"clif.{name}: a successful path emits no instruction", w)
                else:
                    ctx.unk(key, f"{len(ins)} instructions")
                continue
            nm, a, e = ins[0]
            v = accept(nm, a, r)
            if v is not True:
                ctx.decide(key, None if v is None else False,
                           f"clif.{name} is emitted as {nm}({', '.join(brief(x, 80) for x in a)})", w)
                continue
            b = bound_results(r)
            if not any(i == 0 and val[0] == "t" and val[1] == e[1] for i, val in b):
                ctx.bad(key + "/bind", f"clif.{name}: the emitted value is not bound to the op's result", w)
                continue
            ctx.ok(key)

    def known(a):
        return all(val_index(x) is not None for x in a)

    for n in BIN:
        def acc(nm, a, r, n=n):
            if nm != n:
                return False if nm in BIN + UN + CONV else None
            if not known(a):
                return None
            ix = [val_index(x) for x in a]
            return ix == [0, 1] or (n in COMM and ix == [1, 0])
        one(f"clif.{n}", n, acc)
    for n in UN:
        def acc(nm, a, r, n=n):
            if nm != n:
                return False if nm in BIN + UN + CONV else None
            return [val_index(x) for x in a] == [0] if known(a) else None
        one(f"clif.{n}", n, acc, shape=(1, 1))
    for n, tab, cl in (("icmp", ICC, "IntCC"), ("fcmp", FCCN, "FloatCC")):
        for cc, want in tab.items():
            def ex(eng, st, args, op):
                seed_attr(st, op, "cond", "Symbol", S(cc))

            def acc(nm, a, r, n=n, want=want):
                if nm != n:
                    return False if nm in ("icmp", "fcmp") else None
                if a[0][0] != "adt" or not known(a[1:]):
                    return None
                ix = [val_index(x) for x in a[1:]]
                return (a[0][2], ix) in ((want, [0, 1]), (CCSWAP[want], [1, 0]))
            one(f"clif.{n}[{cc}]", n, acc, ex)
    for n in CONV:
        for ty, code in CLTY.items():
            if (ty[0] == "f") != (n in ("fpromote", "fdemote", "fcvt_from_sint", "fcvt_from_uint")):
                continue

            def ex(eng, st, args, op):
                seed_ty(st, result_ty(op), ty)

            def acc(nm, a, r, n=n, code=code):
                if nm not in (n, SAT.get(n)):
                    return False if nm in BIN + UN + CONV else None
                if a[0][0] != "c" or not known(a[1:]):
                    return None
                return a[0] == C(code) and val_index(a[1]) == 0
            one(f"clif.{n}[{ty}]", n, acc, ex, (1, 1))
    for ty, code in CLTY.items():
        if ty[0] == "f":
            continue

        def ex(eng, st, args, op):
            seed_ty(st, result_ty(op), ty)
            seed_attr(st, op, "value", "Int")

        def acc(nm, a, r, code=code):
            if nm != "iconst":
                return None
            pay = attr_payload(OP, "value", "Int")
            if a[0][0] != "c":
                return None
            got = a[1]
            return a[0] == C(code) and mentions(got, lambda t: t == pay) and not mentions(
                got, lambda t: t[0] == "t" and t[1] in ("neg", "Not", "Add", "Sub", "Mul", "Shl", "Shr", "BitAnd", "BitXor")
                and False)
        one(f"clif.iconst[{ty}]", "iconst", acc, ex, (0, 1))
    for n in ("f32const", "f64const"):
        def ex(eng, st, args, op):
            seed_attr(st, op, "value", "FloatBits")

        def acc(nm, a, r, n=n):
            if nm != n:
                return False if nm in ("f32const", "f64const") else None
            pay = attr_payload(OP, "value", "FloatBits")
            if mentions(a[0], lambda t: t[0] == "t" and t[1] in ("neg",)):
                return False
            return mentions(a[0], lambda t: t == pay)
        one(f"clif.{n}", n, acc, ex, (0, 1))

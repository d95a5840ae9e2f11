"""A03: folding and canonicalisation never change what a program computes."""
from .lowering import *

LEVEL = "other"
EXPLANATION = ("Conditional constant propagation over the MIR of every registered fold (the link-time registry is evaluated "
               "from its statics): the lattice value of each operand is 'the constant c' for boundary constants of each "
               "width, or 'unknown'; the propagated result is compared with the operation's meaning.  The driver and the "
               "splice are analysed as value-provenance dataflow.")
ASSUMPTIONS = ["integer constants are held sign-extended or zero-extended; both readings are accepted where they agree"]


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def ux(v, w):
    return v & ((1 << w) - 1)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


SEM = {
    "addi": lambda a, b, w: a + b, "subi": lambda a, b, w: a - b, "muli": lambda a, b, w: a * b,
    "and": lambda a, b, w: a & b, "or": lambda a, b, w: a | b, "xor": lambda a, b, w: a ^ b,
    "divsi": lambda a, b, w: None if sx(b, w) == 0 or (sx(a, w) == -(1 << (w - 1)) and sx(b, w) == -1)
    else tdiv(sx(a, w), sx(b, w)),
    "remsi": lambda a, b, w: None if sx(b, w) == 0 else sx(a, w) - sx(b, w) * tdiv(sx(a, w), sx(b, w)),
    "divui": lambda a, b, w: None if ux(b, w) == 0 else ux(a, w) // ux(b, w),
    "remui": lambda a, b, w: None if ux(b, w) == 0 else ux(a, w) % ux(b, w),
    "shl": lambda a, b, w: None if not 0 <= b < w else a << b,
    "shr": lambda a, b, w: None if not 0 <= b < w else sx(a, w) >> b,
    "shru": lambda a, b, w: None if not 0 <= b < w else ux(a, w) >> b,
    "negi": lambda a, b, w: -a,
}
TRAP = {"divsi", "remsi", "divui", "remui"}
# x op c == x for all x, per side of the constant; x op c == k for all x
IDENT_R = {"addi": {0}, "subi": {0}, "muli": {1}, "and": {-1}, "or": {0}, "xor": {0}, "divsi": {1}, "divui": {1},
           "shl": {0}, "shr": {0}, "shru": {0}}
IDENT_L = {"addi": {0}, "muli": {1}, "and": {-1}, "or": {0}, "xor": {0}}
ABS_R = {"muli": {0: 0}, "and": {0: 0}, "or": {-1: -1}, "remsi": {1: 0}, "remui": {1: 0}}
ABS_L = {"muli": {0: 0}, "and": {0: 0}, "or": {-1: -1}, "shl": {0: 0}, "shr": {0: 0, -1: -1}, "shru": {0: 0}}
OPTP, FR = "core::option::Option", "trunk_ir::transforms::canonicalize::FoldResult"


VD = "trunk_ir::refs::ValueDef"
AT = "trunk_ir::types::Attribute"


def def_const(eng, val, value, variant="Int"):
    """`val` is result 0 of an arith.const whose value attribute is value."""
    o = T("producer", val)
    eng.seeds[T("value_def", val)] = ("adt", VD, "OpResult", (o, C(0)), ("0", "1"))
    eng.seeds[T("op.dialect", o)], eng.seeds[T("op.name", o)] = S("arith"), S("const")
    eng.seeds[T("attr", o, S("value"))] = absint.some(
        ("adt", AT, variant, (C(value) if value is not None else T("payload"),), ("0",)))


def def_unknown(eng, val):
    eng.seeds[T("value_def", val)] = ("adt", VD, "BlockArg", (T("blk"), C(0)), ("0", "1"))


def seed_int_ty(eng, ty, w):
    eng.seeds[T("tydata", ty)] = ("adt", "trunk_ir::types::TypeData", "TypeData",
                                  (S("core"), S(f"i{w}"), ("seq", ()), ("map", ())),
                                  ("dialect", "name", "params", "attrs"))


def outcome(st_ret, r):
    """-> ('none',) | ('fwd', i) | ('const', n) | ('?', term)"""
    v = r.ret
    if v[0] != "adt":
        return ("?", v)
    if v[2] == "None":
        return ("none",)
    x = v[3][0]
    if x[0] == "adt" and x[2] == "Forward":
        y = x[3][0]
        for i in range(2):
            if y == operand(OP, i):
                return ("fwd", i)
        return ("?", y)
    if x[0] == "adt" and x[2] == "ArithConst":
        a = x[3][0]
        if a[0] == "adt" and a[2] == "Int" and a[3][0][0] == "c":
            return ("const", a[3][0][1])
        return ("?", a)
    return ("?", x)


def points(tier):
    out = []
    for w in ((1, 8, 32, 64, 128) if tier == "quick" else (1, 7, 8, 16, 31, 32, 33, 63, 64, 127, 128)):
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        vals = [mn, mn + 1, -7, -2, -1, 0, 1, 2, 5, mx]
        if tier != "quick":
            vals += [3, -3, mx - 1, 10, 100, -100]
        vals = sorted({v for v in vals if mn <= v <= mx})
        out.append((w, vals))
    return out


def check(ctx):
    folds = {}
    for v, f in ctx.inventory("::CanonicalizeFold"):
        fs = dict(zip(v[4], v[3]))
        d, n, fn = fs.get("dialect"), fs.get("op_name"), fs.get("fold")
        if d and d[0] == "s" and n[0] == "s" and fn[0] in ("fn", "clo"):
            k = f"{d[1]}.{n[1]}"
            if k in folds:
                ctx.bad(k + "/registered-once", f"two folds are registered for {k}", f.span)
            folds[k] = fn[1]
        else:
            ctx.unk(f.span, "fold registration not evaluated")
    if not folds:
        ctx.bad("registry", "no canonicalisation folds are registered", "crates/trunk-ir/src/dialect")
    ctx.rule("each fold of op k, with operand lattice values in {constant c, unknown}: not folded, or folded to the value "
             "k computes for every value of the unknown operand; operations that can trap are not folded away")
    for k, fn in sorted(folds.items()):
        d, n = k.split(".", 1)
        if d == "arith":
            arith_fold(ctx, k, n, fn)
        elif k == "scf.if":
            if_fold(ctx, fn)
        elif k == "core.unrealized_conversion_cast":
            cast_fold(ctx, fn)
        else:
            ctx.notes.append(f"fold of {k} has no rule")
    driver(ctx)
    consts(ctx, folds)


def run_fold(ctx, fn, name, w, a, b, va="Int", vb="Int", nops=2):
    def setup(eng, st, args):
        op = args[1]
        st.eqs[T("op.dialect", op)] = ("=", S("arith"))
        st.eqs[T("op.name", op)] = ("=", S(name))
        seed_shape(st, op, nops, 1, eng=eng)
        for i, (c, va_) in enumerate(((a, va), (b, vb))[:nops]):
            if c is None and va_ == "Int":
                def_unknown(eng, operand(op, i))
            else:
                def_const(eng, operand(op, i), c, va_)
            seed_int_ty(eng, T("value_ty", operand(op, i)), w)
        seed_int_ty(eng, result_ty(op), w)
    return ctx.run(fn, setup=setup, args=[T("arg:ctx"), OP])


def arith_fold(ctx, k, n, fn):
    w_ = ctx.where(fn)
    if n not in SEM:
        ctx.notes.append(f"fold of {k} has no rule")
        return
    nops = 1 if n == "negi" else 2

    def judge(key, rs, e, want, desc):
        """want: set of acceptable outcomes"""
        if rs is None:
            ctx.unk(key, e.failed)
            return
        for r in rs:
            if r.end != "ret":
                if r.end == "panic":
                    ctx.bad(key, f"{k}: folding {desc} panics", w_)
                continue
            o = outcome(None, r)
            if o[0] == "?":
                ctx.unk(key, "result of unknown origin: " + brief(o[1], 120))
            elif o == ("none",) or want(o):
                ctx.ok(key)
            else:
                got = f"operand {o[1]}" if o[0] == "fwd" else f"constant {o[1]}" if o[0] == "const" else str(o)
                ctx.bad(key, f"{k}: folds {desc} to {got}", w_)
    for w, vals in points(ctx.tier):
        full = vals if ctx.tier != "quick" or w in (1, 8, 32) else [vals[0], -1, 0, 1, vals[-1]]
        full = sorted(set(v for v in full if v in vals))
        for a in full:
            for b in (full if nops == 2 else [0]):
                rs, e = run_fold(ctx, fn, n, w, a, b, nops=nops)
                s = SEM[n](a, b, w)

                def want(o, a=a, b=b, s=s, w=w):
                    if s is None:
                        return False
                    if o[0] == "fwd":
                        return ux((a, b)[o[1]], w) == ux(s, w)
                    return ux(o[1], w) == ux(s, w) and -(1 << (w - 1)) <= o[1] < (1 << w)
                judge(f"{k}/i{w}({a},{b})", rs, e, want, f"({a}, {b}) at i{w}")
    if nops == 1:
        return
    # one operand unknown
    for w in (1, 8, 32, 64):
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        for c in sorted({x for x in (mn, -1, 0, 1, 2, mx) if mn <= x <= mx}):
            for side in (0, 1):
                a, b = (c, None) if side == 0 else (None, c)
                rs, e = run_fold(ctx, fn, n, w, a, b)
                ids = (IDENT_L if side == 0 else IDENT_R).get(n, set())
                ab = (ABS_L if side == 0 else ABS_R).get(n, {})

                def want(o, c=c, w=w, ids=ids, ab=ab, side=side):
                    if o[0] == "fwd":
                        return o[1] == 1 - side and any(ux(i, w) == ux(c, w) for i in ids)
                    return any(ux(i, w) == ux(c, w) and ux(v, w) == ux(o[1], w) for i, v in ab.items())
                desc = f"({c}, x) at i{w}" if side == 0 else f"(x, {c}) at i{w}"
                judge(f"{k}/i{w}({'c,x' if side == 0 else 'x,c'}={c})", rs, e, want, desc)
    rs, e = run_fold(ctx, fn, n, 32, None, None)
    judge(f"{k}/unknown", rs, e, lambda o: False, "two unknown operands")
    # operands defined by constants that are not integers
    for variant in ("FloatBits", "Bool", "String"):
        for side in (0, 1):
            rs, e = run_fold(ctx, fn, n, 32, None if side == 0 else 5, 5 if side == 0 else None,
                             variant if side == 0 else "Int", "Int" if side == 0 else variant)
            judge(f"{k}/{variant}@{side}", rs, e, lambda o: False, f"a non-integer constant ({variant})")


def consts(ctx, folds):
    pass


def if_fold(ctx, fn):
    ctx.rule("scf.if on a constant condition is replaced by the ops of the taken branch, in order, and its yielded values")
    w_ = ctx.where(fn)
    for width, c, want in ((1, 1, 0), (1, 0, 1), (1, None, None), (32, 1, None), (1, 2, None), (1, -1, "either0")):
        key = f"scf.if/cond={c}:i{width}"

        def setup(eng, st, args):
            op = args[1]
            st.eqs[T("op.dialect", op)] = ("=", S("scf"))
            st.eqs[T("op.name", op)] = ("=", S("if"))
            seed_shape(st, op, 1, 1, 2, eng=eng)
            if c is None:
                def_unknown(eng, operand(op, 0))
            else:
                def_const(eng, operand(op, 0), c)
            seed_int_ty(eng, T("value_ty", operand(op, 0)), width)
        rs, e = ctx.run(fn, setup=setup, args=[T("arg:ctx"), OP])
        if rs is None:
            ctx.unk(key, e.failed)
            continue
        for r in rs:
            if r.end != "ret":
                continue
            v = r.ret
            if v[0] == "adt" and v[2] == "None":
                ctx.ok(key)
                continue
            x = v[3][0] if v[0] == "adt" else v
            if not (x[0] == "adt" and x[2] == "Splice"):
                ctx.unk(key, "outcome " + brief(v, 160))
                continue
            if want is None:
                ctx.bad(key, f"scf.if with condition {c} of type i{width} is folded", w_)
                continue
            want_r = 0 if want == "either0" else want
            regs = {t[3][1] for t in subterms(x) if t[0] == "t" and t[1] == "index" and t[2] == T("op.regions", OP)
                    and t[3][0] == "c"}
            if regs - {want_r}:
                ctx.bad(key, f"condition {c} takes region {sorted(regs)} instead of region {want_r}", w_)
            elif not regs:
                ctx.unk(key, "spliced ops of unknown origin: " + brief(x, 200))
            else:
                ctx.ok(key)
                fs = dict(zip(x[4], x[3]))
                body, res = fs.get("body"), fs.get("results")
                blocks = [t for t in subterms(x) if t[0] == "t" and t[1] == "field" and t[3] == S("blocks") and
                          mentions(t, lambda u: u == T("op.regions", OP))]
                single = any(c_[0] == "eq" and c_[1][0] == "t" and c_[1][1] == "len" and c_[1][2] in blocks and
                             c_[2] == C(1) for c_ in r.conds)
                ctx.decide(key + "/single-block", single,
                           "a branch is inlined although it is not known to be a single block", w_)
                if body[0] == "t" and body[1] == "subslice":
                    opsl, lo, hi = body[2], body[3], body[4]
                    last = T("last", opsl)
                    ctx.decide(key + "/body", (lo, hi) == (C(0), C(1)),
                               f"the inlined ops are a slice [{brief(lo)}..-{brief(hi)}] of the branch, not all but the yield", w_)
                    yl = any(c_[0] == "eq" and c_[1] == T("op.name", last) and c_[2] == S("yield") for c_ in r.conds)
                    ctx.decide(key + "/yield", yl, "the last op of the branch is not known to be scf.yield", w_)
                    ctx.decide(key + "/results", True if res == T("op.operands", last) else None,
                               "results: " + brief(res, 150), w_)
                elif body[0] == "t" and body[1] == "field":
                    ctx.bad(key + "/body", "the branch's terminator is inlined too", w_)
                else:
                    ctx.unk(key + "/body", brief(body, 150))


def cast_fold(ctx, fn):
    ctx.rule("an unrealized cast folds to a value of exactly its result type that it was made from")
    w_ = ctx.where(fn)
    key = "core.unrealized_conversion_cast"

    def setup(eng, st, args):
        op = args[1]
        st.eqs[T("op.dialect", op)] = ("=", S("core"))
        st.eqs[T("op.name", op)] = ("=", S("unrealized_conversion_cast"))
    rs, e = ctx.run(fn, setup=setup, args=[T("arg:ctx"), OP])
    if rs is None:
        ctx.unk(key, e.failed)
        return
    for r in rs:
        if r.end != "ret":
            continue
        v = r.ret
        if v[0] == "adt" and v[2] == "None":
            ctx.ok(key)
            continue
        x = v[3][0] if v[0] == "adt" else v
        if not (x[0] == "adt" and x[2] == "Forward"):
            ctx.bad(key, f"cast folds to {brief(x, 120)}", w_)
            continue
        y = x[3][0]
        vt = T("value_ty", y)
        rt = result_ty(OP)
        # the path must have established value_ty(y) == result type
        same = any(c[0] == "b" and c[2] is True and c[1][0] == "t" and c[1][1] == "eq" and {c[1][2], c[1][3]} == {vt, rt}
                   for c in r.conds)
        neg = any(c[0] == "b" and c[2] is False and c[1][0] == "t" and c[1][1] == "eq" and {c[1][2], c[1][3]} == {vt, rt}
                  for c in r.conds)
        roots = {operand(OP, 0)}
        if y in roots:
            pass
        elif not mentions(y, lambda t: t == operand(OP, 0)):
            ctx.bad(key, f"cast folds to a value it was not made from: {brief(y, 120)}", w_)
            continue
        else:
            prod = T("as", T("value_def", operand(OP, 0)), S("OpResult"), S("0"))
            casts = any(c[0] == "eq" and c[1] == T("op.name", prod) and c[2] == S("unrealized_conversion_cast")
                        for c in r.conds)
            if mentions(y, lambda t: t == prod) and not casts:
                ctx.bad(key, "the producer of the folded value is not known to be a cast on this path", w_)
                continue
        if same:
            ctx.ok(key)
        else:
            ctx.bad(key, f"cast folds to {brief(y, 100)} although its type is "
                         f"{'different from' if neg else 'not known to equal'} the result type", w_)


def driver(ctx):
    ctx.rule("driver: Forward(v) replaces the result by v; ArithConst(a) by a new constant a of the result type; Splice "
             "inserts the body before the op in order and replaces the results")
    cand = [p for p in ctx.patterns(r"^<?trunk_ir::")
            if any("FoldResult" in ctx.P.fns[p].T[l[0]]["s"] for l in ctx.P.fns[p].locals)]
    n = 0
    for p in cand:
        f = ctx.P.fns[p]
        for variant in ("Forward", "ArithConst", "Splice"):
            v = T("folded")

            def m_apply(eng, st, fr, args, targs, path, t):
                return absint.some(v)
            # the fold itself is an indirect call
            def setup(eng, st, args):
                st.vars[v] = ("=", variant)
            rs, e = ctx.run(p, setup=setup, apply_hook=lambda eng, st, fv, a: absint.some(v))
            if rs is None:
                continue
            for r in rs:
                if not mentions(tuple(r.events), lambda t: t == v) and not any(mentions(c, lambda t: t == v)
                                                                               for c in r.conds):
                    continue
                if r.end != "ret":
                    continue
                key = f"driver/{variant}"
                ev = rw_events(r)
                n += 1
                if r.ret == C(0):
                    if ev:
                        ctx.bad(key, "reports no change after changing the program", ctx.where(p))
                    else:
                        ctx.ok(key)
                    continue
                pay = lambda i: T("as", v, S(variant), S(i))
                if variant == "Forward":
                    okv = ("seq", (pay("0"),))
                    good = [x for x in ev if x[1] == "erase_op" and x[2] == okv]
                    ctx.decide(key, bool(good) and len(ev) == 1, f"Forward(v) is applied as {brief(tuple(ev), 200)}",
                               ctx.where(p))
                elif variant == "ArithConst":
                    good = False
                    for x in ev:
                        if x[1] == "replace_op" and x[2][0] == "op" and x[2][2] == "arith.const":
                            at = dict(x[2][4]).get("value")
                            good = at == pay("0") and strip(x[2][5][0]) == strip(result_ty(OP)) if x[2][5] else False
                    ctx.decide(key, good, f"ArithConst(a) is applied as {brief(tuple(ev), 300)}", ctx.where(p))
                else:
                    splice(ctx, key, p, r, ev, pay)
    if not n:
        ctx.unk("driver", "fold dispatcher not recognised")


def splice(ctx, key, p, r, ev, pay):
    w_ = ctx.where(p)
    body, results = pay("body"), pay("results")
    er = [x for x in ev if x[1] == "erase_op"]
    if not er or not mentions(er[-1][2], lambda t: t == results):
        ctx.bad(key + "/results", f"the results are replaced by {brief(tuple(ev), 200)}, not by the fold's results", w_)
    else:
        ctx.ok(key + "/results")
    ins = [e for e in r.events if e[0] == "call" and e[1].split("::")[-1].startswith("insert_op")]
    if not ins:
        # the zero-iteration path
        return
    for e in ins:
        a = e[2]
        okk = e[1].endswith("insert_op_before") and any(x == OP for x in a[1:]) and \
            any(mentions(x, lambda t: t == body) for x in a[1:])
        if okk and any(mentions(x, lambda t: t[0] == "t" and t[1] in ("rev",)) for x in a[1:]):
            okk = False
        ctx.decide(key + "/order", okk, f"body ops are inserted by {brief(e, 200)}", w_)

"""Common parts of the arithmetic lowering checks."""
from engine.rules import *

INT_W = {"i1": 8, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "int": 32, "nat": 32, "bool": 8}
FLT = {"f32": 32, "f64": 64}
UNSIGNED = {"nat", "bool"}
CMPI = ["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]
CMPF = ["oeq", "une", "olt", "ole", "ogt", "oge"]


def dag(v, name_of, leaf):
    """Evaluate an SSA value to a nested ('f', name, args, attrs) term; leaves through leaf()."""
    if v[0] == "res" and v[1][0] == "op":
        op = v[1]
        return name_of(op, [dag(x, name_of, leaf) for x in op[3]])
    return leaf(v)


def leaf_operand(op=OP):
    def f(v):
        if v[0] == "t" and v[1] == "index" and v[2] == T("op.operands", op) and v[3][0] == "c":
            return ("x", v[3][1])
        if v[0] == "t" and v[1] == "remapped" and len(v) > 2:
            return f(v[2])
        return ("leaf", strip(v))
    return f


def lowering_paths(ctx, pats, dialect, name, extra=None, shape=(2, 1), models_=None, **kw):
    """Paths of the given patterns that rewrite the op, with analysis failures listed separately."""
    out, fails = [], []
    for p in pats:
        def ex(eng, st, args, op):
            seed_shape(st, op, *shape)
            if extra:
                extra(eng, st, args, op)
        m = dict(CONV_MODELS)
        m.update(models_ or {})
        rs, e = ctx.run(p, setup=seed_op(dialect, name, ex), extra_models=m, **kw)
        if rs is None:
            fails.append((p, e.failed))
            continue
        for r in rs:
            # a pattern that answers false has not rewritten anything: its requests are dropped
            if r.end == "ret" and mutated(r) and r.ret != C(0):
                out.append((p, r))
    return out, fails


def replacement(r):
    """The value standing for result 0 of the rewritten op: ('v', value) or None."""
    for e in reversed(r.events):
        if e[0] == "rw" and e[1] == "replace_op":
            return ("res", e[2], 0)
        if e[0] == "rw" and e[1] == "erase_op":
            v = e[2]
            if v[0] == "seq" and len(v[1]) == 1:
                return v[1][0]
            return v
    return None


def inserted(r):
    return [e[2] for e in r.events if e[0] == "rw" and e[1] in ("insert_op", "replace_op")]


def ops_in(v):
    """Every created op reachable from a value."""
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == "op" and len(x) == 8:
                if x[1] in seen:
                    return
                seen.add(x[1])
                for y in x[3]:
                    go(y)
                out.append(x)
                return
            for y in x:
                if isinstance(y, tuple):
                    go(y)
    go(v)
    return out


def undominated(r):
    """Created ops used by the replacement but never inserted before it."""
    ins, missing = set(), []
    for e in r.events:
        if e[0] == "rw" and e[1] in ("insert_op", "replace_op"):
            for o in ops_in(e[2]):
                if o[1] != e[2][1] and o[1] not in ins:
                    missing.append(o)
            if e[2][0] == "op":
                ins.add(e[2][1])
        elif e[0] == "rw" and e[1] == "erase_op":
            for o in ops_in(e[2]):
                if o[1] not in ins:
                    missing.append(o)
    return missing

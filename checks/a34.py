"""A34: what an operation or type is built from is what its accessors, its name and the store give back."""
import re
from .lowering import *
from engine.heap import *
from engine import absint
from engine.irtrace import attr, ty, Unclear, Bad
from engine.rules import *
from engine.absint import T, C, S
from .a13 import at

LEVEL = "other"
EXPLANATION = ("Every constructor of an operation or a type of every dialect is analysed on distinguishable operands, types, attributes, regions and "
               "successors; the stored operation is compared with them, and so is what every accessor of the operation's wrapper gives.")
ASSUMPTIONS = ["operand, attribute and region names are those of the constructor's parameters"]
MODS = re.compile(r"(trunk_ir|tribute_ir)::dialect::(\w+)::((?:r#)?[a-z][a-z_0-9]*)$")
OPS, TYS = "trunk_ir::ops::DialectOp", "trunk_ir::ops::DialectType"
VR, TR, RR, BR = ("trunk_ir::refs::" + x for x in ("ValueRef", "TypeRef", "RegionRef", "BlockRef"))
RANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}

KNOWN = {VR, TR, RR, BR, "bool", "f32", "f64", "alloc::string::String", "trunk_ir::symbol::Symbol", "trunk_ir::types::Attribute"} | set(RANGE)


def plain(n):
    return n[2:] if n.startswith("r#") else n


def camel(n):
    return "".join(x[:1].upper() + x[1:] for x in plain(n).split("_"))


def constructors(P):
    for p, f in sorted(P.fns.items()):
        m = MODS.match(p)
        if not m or f.kind != "Fn" or not f.locals[0]:
            continue
        ps = [(n, f.T[t]["s"]) for t, n in f.locals[1:1 + f.argc]]
        if not ps or ps[0][1] != "&mut trunk_ir::context::IrContext":
            continue
        ret = f.T[f.locals[0][0]]["s"]
        base = p.rsplit("::", 1)[0]
        if not ret.startswith(base + "::") or "::" in ret[len(base) + 2:]:
            continue
        op = f"<{ret} as {OPS}>::from_op" in P.fns
        if not op and f"<{ret} as {TYS}>::from_type_ref" not in P.fns:
            continue
        if op and (len(ps) < 2 or ps[1][1] != "trunk_ir::types::Location"):
            continue
        if ret.rsplit("::", 1)[1].lower() != plain(m[3]).replace("_", "").lower():
            continue                                # a convenience function for another operation
        if any(t not in KNOWN and not t.startswith(("impl ", "core::option::Option<", "smallvec::SmallVec<[u8")) for _, t in ps[2 if op else 1:]):
            continue
        yield p, m[2], plain(m[3]), ret, ps[2 if op else 1:], op


def deref(eng, st, x):
    for _ in range(4):
        if x is not None and x[0] == "ref":
            x = eng.freeze(st, x) if hasattr(eng, "freeze") else x
            if x[0] == "ref":
                break
    return x


def arg(h, eng, st, n, t, i, var):
    """(the argument, how it is stored, what the accessor gives)"""
    if t == VR:
        x = h.ext(f"v.{n}")
        return "operand", x, (x,), x
    if t == TR:
        x = ty(f"core.t{i}")
        return "type", x, (x,), x
    if t.startswith("impl ") and "ValueRef" in t:
        xs = tuple(h.ext(f"v.{n}.{k}") for k in range((2, 3, 0, 1)[var]))
        return "operand", ("seq", xs), xs, ("seq", xs)
    if t.startswith("impl ") and "TypeRef" in t:
        xs = tuple(ty(f"core.t{i}_{k}") for k in range((2, 3, 0, 1)[var]))
        return "type", ("seq", xs), xs, ("seq", xs)
    if t == RR:
        x = h.region(f"r.{n}", []) if hasattr(h, "region") else None
        return "region", x, (x,), x
    if t == BR:
        x = h.block(f"b.{n}", []) if hasattr(h, "block") else None
        return "succ", x, (x,), x
    opt = t.startswith("core::option::Option<")
    t0 = t[len("core::option::Option<"):-1] if opt else t
    if opt and var == 2:
        return "attr", absint.NONE if hasattr(absint, "NONE") else NONE, None, NONE
    if t0 in RANGE:
        x = C((11 + i, RANGE[t0][1] - i, RANGE[t0][0] + i, 0)[var])
        a = at("Int", x)
    elif t0 == "bool":
        x = C((1, 0, 1, 0)[var])
        a = at("Bool", x)
    elif t0 == "trunk_ir::symbol::Symbol":
        x = S(f"name{i}")
        a = at("Symbol", x)
    elif t0 == "alloc::string::String":
        x = S("" if var == 3 else f"text{i}")
        a = at("String", x)
    elif t0 == "trunk_ir::types::Attribute":
        x = a = (at("Int", C(40 + i)), at("Symbol", S(f"a{i}")), at("Type", ty("core.i32")), at("Int", C(0)))[var]
    elif t0 in ("f32", "f64"):
        x = T("float", S(f"x{i}"))
        a = at("FloatBits", T("to_bits", x if t0 == "f64" else T("cast", x, S("f32"), S("f64"))))
    elif t0.startswith("smallvec::SmallVec<[u8"):
        x = ("seq", (C(1), C(i), C(3)) if var != 3 else ())
        a = at("Bytes", x)
    else:
        return None
    return "attr", some(x) if opt else x, a, some(x) if opt else x


def norm(x):
    """bits of a float and back, and a single as a double and back, is the float"""
    if isinstance(x, tuple):
        x = tuple(norm(y) for y in x)
        if x[:1] == ("t",) and str(x[1]).endswith(("::from_bits", "::to_bits")):
            x = ("t", x[1].rsplit("::", 1)[1]) + x[2:]
        if x[:2] == ("t", "from_bits") and len(x) == 3 and x[2][:2] == ("t", "to_bits"):
            return x[2][2]
        if x[:2] == ("t", "cast") and x[3:] == (S("f64"), S("f32")) and x[2][:2] == ("t", "cast") and x[2][3:] == (S("f32"), S("f64")):
            return x[2][2]
    return x


def same(x, y):
    x, y = norm(x), norm(y)
    if x == y:
        return True
    if x is None or y is None:
        return False
    if x[0] == y[0] == "c":
        return x[1] == y[1] or bool(x[1]) == bool(y[1]) and isinstance(x[1], bool) | isinstance(y[1], bool)
    if x[0] == y[0] == "adt":
        return x[2] == y[2] and len(x[3]) == len(y[3]) and all(same(a, b) for a, b in zip(x[3], y[3]))
    if x[0] == "seq" and y[0] == "seq":
        return len(x[1]) == len(y[1]) and all(same(a, b) for a, b in zip(x[1], y[1]))
    return False


def case(ctx, con, var):
    p, d, name, ret, ps, isop = con
    key = f"{d}.{name} ({var})"
    hold = {"bad": [], "unk": []}

    def expect(what, got, want):
        if want is None or same(got, want):
            return
        (hold["bad"] if sure(got) else hold["unk"]).append(f"{what} is {brief(got, 80)} instead of {brief(want, 80)}")

    def setup(eng, st, a):
        h = Heap(eng, st)
        xs, parts, attrs = [], {"operand": (), "type": (), "region": (), "succ": ()}, {}
        acc = []
        for i, (n, t) in enumerate(ps):
            r = arg(h, eng, st, n, t, i, var)
            if r is None or r[1] is None:
                raise absint.Budget(f"parameter {n}: {t}")
            kind, x, store, get = r
            xs.append(x)
            n = plain(n)
            # a type is a result type of an operation or an attribute of it
            if kind == "type" and isop and t == TR and not n.endswith("_ty"):
                kind, store = "attr", at("Type", x)
            if kind == "attr":
                attrs[n] = store
                acc.append((n, get))
            else:
                j = len(parts[kind])
                parts[kind] += store
                acc.append((n, get))
                if kind == "type" and isop:
                    acc.append((n[:-3] if n.endswith("_ty") else n, ("res", j) if t == TR else ("ress",)))
        loc = T("the location")
        first = [h.ref, loc] if isop else [h.ref]
        hold["args"] = first + xs
        w = call1(eng, st, p, first + xs)
        o = w[3][0]
        v = h.view(st)
        if isop:
            expect("the operation's name", S(v.opname(o)), S(f"{d}.{name}"))
            for k, f in (("operand", "operands"), ("type", "results"), ("region", "regions"), ("succ", "successors")):
                expect("what is stored as " + f, ("seq", tuple(v.seq(v.field("Op", o, f)) or ())), ("seq", parts[k]))
            expect("the location", v.field("Op", o, "location"), loc)
            am = dict((k[1], x) for k, x in v.field("Op", o, "attributes")[1])
            for i, x in enumerate(parts["operand"]):
                us = [u for u in v.seq(h.get("uses", x, st)) or () if u[3] == (o, C(i))]
                if len(us) != 1:
                    hold["bad"].append(f"operand {i} has {len(us)} uses")
            for x in parts["region"]:
                expect("the parent of a region", v.field("Region", x, "parent_op"), some(o))
            expect("the operation's block", v.field("Op", o, "parent_block"), NONE)
            res = tuple(v.results(o))
            if len(res) != len(parts["type"]):
                hold["bad"].append(f"{len(res)} results are made for {len(parts['type'])} types")
        else:
            if o[0] != "ty":
                raise absint.Budget("no type")
            expect("the type's name", S(f"{o[1][1]}.{o[2][1]}"), S(f"{d}.{name}"))
            expect("the type's parameters", o[3], ("seq", parts["type"]))
            am = dict((k[1], x) for k, x in o[4][1])
            res = ()
        for n, x in attrs.items():
            if x is None and any(nn == n and g == NONE for nn, g in acc):
                if n in am:
                    hold["bad"].append(f"attribute {n} is stored although it is not given")
            elif n not in am:
                hold["bad"].append(f"attribute {n} is not stored")
            else:
                expect(f"attribute {n}", am[n], x)
        for n in am:
            if n not in attrs:
                hold["bad"].append(f"attribute {n} is stored and was not given")
        wr = eng.ref_to(st, w)
        for n, g in acc:
            for q in (f"{ret}::{n}", f"{ret}::r#{n}"):
                if q in ctx.P.fns:
                    break
            else:
                if isop or len(ps):
                    hold["none"] = hold.get("none", 0) + 1
                continue
            if g[0] == "res":
                g = res[g[1]]
            elif g[0] == "ress":
                g = ("seq", res)
            r = deref(eng, st, call1(eng, st, q, [wr, h.ref]))
            hold["n"] = hold.get("n", 0) + 1
            expect(f"{n}()", r, g)
        tr = OPS if isop else TYS
        fr = "from_op" if isop else "from_type_ref"
        yes = "Ok" if isop else "Some"
        r = call1(eng, st, f"<{ret} as {tr}>::{fr}", [h.ref, o])
        expect(fr, r, ("adt", "", yes, (w,), ("0",)))
        for dd, nn in ((d, name + "x"), (d + "x", name), ("core", "i32") if isop else ("core", "other")):
            q = h.op(f"o.{dd}.{nn}", f"{dd}.{nn}", parts["operand"], parts["type"]) if isop else ty(f"{dd}.{nn}")
            r = call1(eng, st, f"<{ret} as {tr}>::{fr}", [h.ref, q])
            if r[0] == "adt" and r[2] == yes:
                hold["bad"].append(f"{fr} takes {dd}.{nn}")
            elif r[0] != "adt":
                hold["unk"].append(f"{fr} of {dd}.{nn}")
        return hold["args"]
    rs, e = ctx.run(p, setup=setup, max_depth=40, max_rec=8)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    x = ("bad", f"{key}: " + "; ".join(hold["bad"][:3])) if hold["bad"] else ("unk", "; ".join(hold["unk"][:2])) if hold["unk"] else None
    ctx.verdicts(key, [(r, x) for r in rs], ctx.where(p))


def sure(x):
    if x is None:
        return False
    if x[0] in ("c", "s", "ent", "ty"):
        return True
    if x[0] == "adt":
        return all(sure(y) for y in x[3])
    if x[0] == "seq":
        return all(sure(y) for y in x[1])
    return False


def check(ctx):
    ctx.rule("a constructed operation or type has its dialect's and its own name, its operands, results, regions and successors in the order of the "
             "parameters and each attribute under its parameter's name; each accessor gives the argument of its name; the wrapper is made of operations "
             "or types of its name only")
    cs = list(constructors(ctx.P))
    if len(cs) < 100:
        ctx.bad("dialects", f"only {len(cs)} constructors found", "trunk_ir::dialect")
        return
    ctx.notes.append(f"{len(cs)} constructors")
    jobs = []
    for c in cs:
        many = any("u32" in t or t in RANGE or "impl" in t or "Option" in t or "Attribute" in t or t == "bool" for _, t in c[4])
        for var in range(4 if many else 1):
            jobs.append(lambda c=c, var=var: case(ctx, c, var))
    ctx.parallel(jobs)

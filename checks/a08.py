"""A08: a conversion boundary never lets a forbidden operation through."""
import itertools
from .lowering import *
from engine.heap import *

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the legality rules: targets are built through the public rule-adding operations for every "
               "combination of rule tiers, and the verdict for an op must follow the documented precedence; verification and the "
               "conversion entry points are analysed on nested IR shapes and must report exactly the ops the verdict forbids.")
ASSUMPTIONS = ["dynamic rules are functions of the op; each of their three answers is considered"]
CT = "trunk_ir::rewrite::conversion_target::ConversionTarget::"
LD = "trunk_ir::rewrite::conversion_target::LegalityDecision"
LC = "trunk_ir::rewrite::conversion_target::LegalityCheck"
CM = "trunk_ir::rewrite::conversion_target::ConversionMode"


def enum(p, v):
    return ("adt", p, v, (), ())


def hook(answers):
    def f(eng, st, fv, args):
        if fv[0] == "t" and fv[1].startswith("rule:"):
            a = answers.get(fv[1][5:])
            if callable(a):
                a = a(args[-1])
            return enum(LD, a) if a else None
        return None
    return f


def target(eng, st, rules):
    """A target built by the public rule-adding operations: rules = [(method suffix, args...)]."""
    t = call1(eng, st, CT + "new", [])
    loc = eng.alloc(st, t)
    for m, *a in rules:
        call1(eng, st, CT + "add_" + m, [("ref", loc, ())] + [S(x) if isinstance(x, str) else x for x in a])
    return ("ref", loc, ())


def spec(od, os_, dd, ds, un):
    if od in ("Legal", "Illegal"):
        return od
    if os_:
        return os_
    if dd in ("Legal", "Illegal"):
        return dd
    if ds:
        return ds
    if un in ("Legal", "Illegal"):
        return un
    return "Unknown"


def check(ctx):
    need = [CT + x for x in ("new", "is_legal", "is_recursively_legal", "verify_mode", "add_legal_op", "add_illegal_op",
                             "add_dynamic_op", "add_legal_dialect", "add_illegal_dialect", "add_dynamic_dialect",
                             "add_dynamic_unknown", "add_recursive_legal_op", "add_recursive_dynamic_op", "has_constraints")]
    miss = [p for p in need if p not in ctx.P.fns]
    for p in miss:
        ctx.bad(p, "legality operation not found", p)
    if miss:
        return
    ctx.rule("the verdict for an op follows: op dynamic rule, op static rule, dialect dynamic rule, dialect static rule, fallback "
             "rule, unknown; rules about other ops and dialects do not matter")
    D3, S3 = (None, "Legal", "Illegal", "Defer"), (None, "Legal", "Illegal")
    for od, os_, dd, ds, un in itertools.product(D3, S3, D3, S3, D3):
        if ctx.tier == "quick" and sum(x == "Defer" for x in (od, dd, un)) == 2 and os_ == "Illegal":
            pass
        rules = []
        if od:
            rules.append(("dynamic_op", "d", "n", T("rule:od")))
        if os_:
            rules.append((os_.lower() + "_op", "d", "n"))
        if dd:
            rules.append(("dynamic_dialect", "d", T("rule:dd")))
        if ds:
            rules.append((ds.lower() + "_dialect", "d"))
        if un:
            rules.append(("dynamic_unknown", T("rule:un")))
        # rules about other things, saying the opposite
        rules += [("dynamic_op", "d", "m", T("rule:other")), ("illegal_op", "e", "n"), ("legal_op", "d", "o"),
                  ("illegal_dialect", "e"), ("legal_dialect", "f"), ("dynamic_dialect", "f", T("rule:other"))]
        want = spec(od, os_, dd, ds, un)
        key = f"op rule {od or '-'}/{os_ or '-'}, dialect rule {dd or '-'}/{ds or '-'}, fallback {un or '-'}"

        def setup(eng, st, a):
            h = Heap(eng, st)
            o = h.op("X", "d.n")
            return [target(eng, st, rules), h.ref, o]
        rs, e = ctx.run(CT + "is_legal", setup=setup, apply_hook=hook({"od": od, "dd": dd, "un": un, "other": "Illegal"}), max_depth=30)
        if rs is None:
            ctx.unk(key, e.failed)
            continue
        for r in rs:
            if r.ret is None or r.ret[0] != "adt":
                ctx.unk(key, f"{r.end} {brief(r.ret) if r.ret else ''}")
            else:
                ctx.decide(key, r.ret[2] == want, f"with {key} the op is judged {r.ret[2]}, the rules say {want}",
                           ctx.where(CT + "is_legal"))
    ctx.rule("an op makes its body legal only if it is marked so and is itself judged legal")
    for mark in (None, "recursive_legal_op", "recursive_dynamic_op"):
        for od, os_ in itertools.product(D3, S3):
            if mark == "recursive_legal_op" and os_ != "Legal" or mark == "recursive_dynamic_op" and not od:
                continue
            rules = ([("dynamic_op", "d", "n", T("rule:od"))] if od else []) + ([(os_.lower() + "_op", "d", "n")] if os_ else [])
            rules += [("legal_op", "d", "z"), ("recursive_legal_op", "d", "z"), ("legal_op", "z", "n"), ("recursive_legal_op", "z", "n")]
            if mark:
                rules.append((mark, "d", "n"))
            v = spec(od, os_, None, None, None)
            want = (mark == "recursive_legal_op" and v == "Legal") or (mark == "recursive_dynamic_op" and od == "Legal")
            key = f"body of op with {mark or 'no mark'}, rules {od or '-'}/{os_ or '-'}"

            def setup(eng, st, a):
                h = Heap(eng, st)
                return [target(eng, st, rules), h.ref, h.op("X", "d.n")]
            rs, e = ctx.run(CT + "is_recursively_legal", setup=setup, apply_hook=hook({"od": od}), max_depth=30)
            for r in rs or []:
                if r.ret is None or r.ret[0] != "c":
                    ctx.unk(key, brief(r.ret) if r.ret else r.end)
                else:
                    ctx.decide(key, bool(r.ret[1]) == want, f"{key}: body legality is {bool(r.ret[1])}, should be {want}",
                               ctx.where(CT + "is_recursively_legal"))
            if rs is None:
                ctx.unk(key, e.failed)
    constraints(ctx)
    verify(ctx)
    boundary(ctx)


def constraints(ctx):
    ctx.rule("a target with any rule is recognised as having rules")
    for name, rules in (("legal op", [("legal_op", "d", "n")]), ("illegal op", [("illegal_op", "d", "n")]),
                        ("legal dialect", [("legal_dialect", "d")]), ("illegal dialect", [("illegal_dialect", "d")]),
                        ("dynamic op", [("dynamic_op", "d", "n", T("rule:x"))]),
                        ("dynamic dialect", [("dynamic_dialect", "d", T("rule:x"))]),
                        ("fallback", [("dynamic_unknown", T("rule:x"))]), ("none", [])):
        def setup(eng, st, a):
            Heap(eng, st)
            return [target(eng, st, rules)]
        rs, e = ctx.run(CT + "has_constraints", setup=setup, max_depth=30)
        for r in rs or []:
            if r.ret is None or r.ret[0] != "c":
                ctx.unk("rules " + name, brief(r.ret) if r.ret else r.end)
            else:
                ctx.decide("rules " + name, bool(r.ret[1]) == bool(rules), f"a target with {name} rule is taken to have "
                           + ("rules" if r.ret[1] else "no rules"), ctx.where(CT + "has_constraints"))
        if rs is None:
            ctx.unk("rules " + name, e.failed)


# op kinds used in the verification shapes: k = illegal, g = legal, u = unknown, R = recursively legal, Q = recursive mark but illegal
RULES = [("illegal_op", "d", "k"), ("legal_op", "d", "g"), ("legal_op", "d", "R"), ("recursive_legal_op", "d", "R"),
         ("legal_op", "d", "Q"), ("recursive_legal_op", "d", "Q"), ("dynamic_op", "d", "Q", T("rule:Q")),
         ("dynamic_op", "d", "S", T("rule:S")), ("recursive_dynamic_op", "d", "S"),
         ("dynamic_op", "d", "V", T("rule:V")), ("recursive_dynamic_op", "d", "V")]
RULES += [("dynamic_op", "d", "W", T("rule:W")), ("recursive_dynamic_op", "d", "W"), ("dynamic_dialect", "w", T("rule:w"))]


def by_op(a):
    return {"+": "Legal", "-": "Illegal", "?": "Defer"}[a[2][-1]]


ANS = {"Q": "Illegal", "S": "Legal", "V": "Illegal", "W": by_op, "w": by_op}
VERDICT = {"k": "Illegal", "g": "Legal", "u": "Unknown", "R": "Legal", "Q": "Illegal", "S": "Legal", "V": "Illegal",
           "W+": "Legal", "W-": "Illegal", "W?": "Unknown", "w.x+": "Legal", "w.x-": "Illegal", "w.x?": "Unknown"}
RECUR = {"R", "S", "W+"}
# module shape: list of blocks; op = kind or (kind, [regions]) ; region = list of blocks
SHAPES = {
    "empty": [[]],
    "all legal": [["g", "g"]],
    "illegal first": [["k", "g"]],
    "illegal last": [["g", "g", "k"]],
    "illegal after unknown": [["u", "k"]],
    "unknown only": [["u"]],
    "unknown among legal": [["g", "u", "g"]],
    "illegal in second block": [["g"], ["k"]],
    "illegal nested": [[("g", [[["k"]]])]],
    "unknown nested": [[("g", [[["u"]]])]],
    "illegal in nested second block": [[("g", [[["g"], ["k"]]])]],
    "illegal in second region": [[("g", [[["g"]], [["k"]]])]],
    "illegal nested under unknown": [[("u", [[["k"]]])]],
    "illegal nested under illegal": [[("k", [[["k"]]])]],
    "illegal two levels down": [[("g", [[[("g", [[["k"]]])]]])]],
    "illegal after a nested op": [[("g", [[["g"]]]), "k"]],
    "illegal inside a recursively legal op": [[("R", [[["k", "u"]]])]],
    "illegal after a recursively legal op": [[("R", [[["k"]]]), "k"]],
    "illegal in a nested op after a recursively legal one": [[("g", [[[("R", [[["k"]]]), "k"]]])]],
    "body of an op marked recursive but illegal": [[("Q", [[["k", "g"]]])]],
    "body of a dynamically recursive op": [[("S", [[["k"]]]), "u"]],
    "body of a dynamically recursive op that is illegal": [[("V", [[["k"]]])]],
    "three illegal": [["k", "k"], ["k"]],
    "rule that depends on the op, legal first": [["W+", "W-"]],
    "rule that depends on the op, illegal first": [["W-", "W+"]],
    "rule that depends on the op, undecided first": [["W?", "W-", "W+", "W?"]],
    "dialect rule that depends on the op, legal first": [["w.x+", "w.x-"], ["w.x?"]],
    "dialect rule that depends on the op, illegal first": [["w.x-", "w.x+"]],
    "bodies of ops whose rule depends on the op": [[("W+", [[["k"]]]), ("W-", [[["k"]]])]],
    "bodies of ops whose rule depends on the op, illegal first": [[("W-", [[["k"]]]), ("W+", [[["k"]]]), ("W?", [[["k"]]])]],
}


def lay(h, blocks, tag):
    """-> (region, [(op, kind, covered)]) covered: under a recursively legal op"""
    n = [0]
    seen = []

    def region(bs, cov):
        out = []
        for b in bs:
            ops = []
            for o in b:
                k, rg = (o, []) if isinstance(o, str) else o
                n[0] += 1
                me = n[0]
                at = len(seen)
                seen.append(None)
                rs = [region(r, cov or k in RECUR) for r in rg]
                suf = k[-1] if k[-1] in "+-?" else ""
                nm = k.rstrip("+-?")
                op = h.op(f"{tag}{me}{suf}", nm if "." in nm else "d." + nm, regions=rs)
                seen[at] = (op, k, cov)
                ops.append(op)
            n[0] += 1
            out.append(h.block(f"{tag}b{n[0]}", ops))
        n[0] += 1
        return h.region(f"{tag}r{n[0]}", out)
    r = region(blocks, False)
    return r, seen


def expected(seen, full):
    return [(o, VERDICT[k]) for o, k, c in seen if not c and (VERDICT[k] == "Illegal" or full and VERDICT[k] == "Unknown")]


def failures(v):
    if v[0] != "seq" or any(x[0] != "adt" for x in v[1]):
        return None
    out = []
    for x in v[1]:
        d = dict(zip(x[4], x[3]))
        out.append((d["op"], d["legality"][2] if d["legality"][0] == "adt" else None))
    return out


def verify(ctx):
    ctx.rule("verification reports every op judged illegal (full: also unknown) outside recursively legal bodies, and no other")
    for name, sh_ in SHAPES.items():
        for mode, via in (("Partial", "verify_mode"), ("Full", "verify_mode"), ("Partial", "verify"), ("Full", "verify_full")):
            if CT + via not in ctx.P.fns:
                ctx.unk(via, "not found")
                continue
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                r, hold["seen"] = lay(h, sh_, "o")
                return [target(eng, st, RULES), h.ref, r] + ([enum(CM, mode)] if via == "verify_mode" else [])
            rs, e = ctx.run(CT + via, setup=setup, apply_hook=hook(ANS), max_depth=40, max_rec=6)
            key = f"{via} {mode.lower()}: {name}"
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            want = expected(hold["seen"], mode == "Full")
            for r in rs:
                got = failures(r.ret) if r.ret is not None else None
                if got is None:
                    ctx.unk(key, brief(r.ret) if r.ret else r.end)
                else:
                    ctx.decide(key, sorted(map(repr, got)) == sorted(map(repr, want)),
                               f"{key}: reports {len(got)} ops, {len(want)} are forbidden", ctx.where(CT + "verify_mode"))


def boundary(ctx):
    ctx.rule("a conversion succeeds only if verification of the whole scope in its own mode reports nothing")
    PA = "trunk_ir::rewrite::applicator::PatternApplicator::"
    MOD = next((p for p in ctx.P.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module")), None)
    for meth, full in (("apply_partial_conversion", False), ("apply_full_conversion", True)):
        if PA + meth not in ctx.P.fns or MOD is None:
            ctx.bad(meth, "conversion entry point not found", PA + meth)
            continue
        for name, sh_ in SHAPES.items():
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                r, hold["seen"] = lay(h, sh_, "o")
                m = h.op("M", "core.module", regions=[r])
                tc = call1(eng, st, "trunk_ir::rewrite::type_converter::TypeConverter::new", [])
                pa = call1(eng, st, PA + "new", [tc])
                t = eng.deref(st, target(eng, st, RULES))
                pa = call1(eng, st, PA + "with_target", [pa, t])
                return [eng.ref_to(st, pa), h.ref, ("adt", MOD, "Module", (m,), tuple(f[0] for f in ctx.P.adts[MOD]["vars"][0][2])),
                        S("boundary")]
            rs, e = ctx.run(PA + meth, setup=setup, apply_hook=hook(ANS), max_depth=40, max_rec=6,
                            tenv={g: MOD for g in ctx.P.fns[PA + meth].gen})
            key = f"{meth}: {name}"
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            want = expected(hold["seen"], full)
            for r in rs:
                if r.ret is None or r.ret[0] != "adt":
                    ctx.unk(key, brief(r.ret) if r.ret else r.end)
                    continue
                if (r.ret[2] == "Ok") != (not want):
                    ctx.bad(key, f"{key}: the conversion " + ("succeeds although forbidden ops remain" if r.ret[2] == "Ok" else
                            "fails although nothing forbidden remains"), ctx.where(PA + meth))
                    continue
                if r.ret[2] == "Err":
                    got = [x for x in subterms(r.ret) if x[0] == "adt" and x[1].endswith("::IllegalOp")]
                    got = {dict(zip(x[4], x[3]))["op"] for x in got}
                    ctx.decide(key, got == {o for o, _ in want}, f"{key}: the error names {len(got)} ops, {len(want)} are forbidden",
                               ctx.where(PA + meth))
                else:
                    ctx.ok(key)

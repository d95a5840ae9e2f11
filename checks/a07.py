"""A07: pattern rewriting replaces exactly what a pattern asked for, everywhere, and claims a fixpoint only when there is one."""
import re
from .lowering import *
from engine.heap import *
from engine.absint import TRUE, FALSE
from .a08 import target, hook

LEVEL = "other"
EXPLANATION = ("Shape analysis of the rewriting engine: the applicator's own code is analysed on an abstract IR (nested regions, several "
               "blocks, aliased uses) with patterns represented by the requests they record through the public rewriter; the final "
               "IR must be the one those requests describe, every op that has to be offered must be offered, and a claimed fixpoint "
               "must be one.")
ASSUMPTIONS = ["patterns follow the rewriter's contract: as many replacement results as the op has"]
RW = "trunk_ir::rewrite::rewriter::PatternRewriter"
PA = "trunk_ir::rewrite::applicator::PatternApplicator::"
TC = "trunk_ir::rewrite::type_converter::TypeConverter::"
HP = "trunk_ir::rewrite::helpers::"
MATCH = "trunk_ir::rewrite::pattern::RewritePattern::match_and_rewrite"


def ty(n):
    return ("ent", "Type", n)


def O(t):
    return ("ent", "Op", t)


def V(t):
    return ("ent", "Value", t)


def Bk(t):
    return ("ent", "Block", t)


def base(h):
    A = ty("A")
    FB0 = h.block("FB0", [], [A, ty("B")])
    FB1 = h.block("FB1", [], [A])
    p, q, s = h.arg(FB0, 0), h.arg(FB0, 1), h.arg(FB1)
    X = h.op("X", "t.x", [p, q], [A, ty("C")])
    Y = h.op("Y", "t.y", [h.res(X), h.res(X, 1), h.res(X)], [ty("D")])
    LB = h.block("LB", [], [A])
    N1 = h.op("N1", "t.n1", [h.res(X), h.arg(LB)], [A])
    N2 = h.op("N2", "t.n2", [h.res(N1), h.res(N1)], [])
    h.fill(LB, [N1, N2])
    LC = h.block("LC", [], [])
    h.fill(LC, [h.op("N3", "t.n3", [h.res(N1), h.res(X, 1)], [])])
    LD = h.block("LD", [h.op("N4", "t.n4", [h.res(Y)], [])], [])
    L = h.op("L", "t.l", [h.res(X, 1)], [A], regions=[h.region("LR", [LB, LC]), h.region("LS", [LD])])
    E = h.op("E", "t.e", [h.res(Y)], [], succs=[FB1])
    h.fill(FB0, [X, Y, L, E])
    Z = h.op("Z", "t.z", [h.res(X), h.res(L), s], [])
    h.fill(FB1, [Z])
    F = h.op("F", "func.func", [], [], regions=[h.region("FR", [FB0, FB1])], attrs={"sym_name": T("attr:f")})
    K = h.op("K", "t.k", [], [A])
    F2 = h.op("F2", "func.func", [], [], regions=[h.region("GR", [h.block("GB", [K])])], attrs={"sym_name": T("attr:g")})
    MB = h.block("MB", [F, F2])
    h.op("M", "core.module", [], [], regions=[h.region("MR", [MB])])
    # detached ops, material for patterns
    for t, n in (("R0", 0), ("R1", 1), ("R2", 2), ("P1", 1), ("P2", 0), ("P3", 0), ("MO1", 0), ("MO2", 0), ("C1", 2), ("C2", 2), ("C3", 2), ("C4", 2)):
        h.op(t, "t.new" + t.lower(), [p] if t[0] in "RP" else [], [A, ty("C")][:n])
    RG = h.region("RGN", [h.block("RGB", [h.op("RN", "t.rn", [p], [])])])
    h.op("RW", "t.rw", [q], [A, ty("C")], regions=[RG])


def meth(prog, ty_, name):
    """A method of a type with lifetime parameters."""
    pat = re.compile(re.escape(ty_) + r"(::<[^>]*>)?::" + name)
    return next((p for p in prog.fns if p.startswith(ty_) and pat.fullmatch(p)), None)


# a script: {pattern: {op tag: (actions, answer)}}; action = (rewriter method, arg)
def matcher(script):
    def model(eng, st, fr, args, targs, path, t):
        pat = eng.freeze(st, args[0])
        o = eng.freeze(st, args[2])
        name = next((x[1][4:] for x in subterms(pat) if x[0] == "t" and x[1].startswith("pat:")), None)
        if name is None or o[0] != "ent":
            return None
        st.event("offer", name, (o,), "")
        todo = script.get(name, {}).get(o[2])
        if todo is None:
            return FALSE
        acts, ans = todo
        if any(ev[0] == "did" and ev[1] == name and ev[2] == (o,) for ev in st.event_list()):
            return FALSE            # done in an earlier iteration
        if ans and acts:
            st.event("did", name, (o,), "")
        for m, x in acts:
            if m in ("insert_op", "replace_op", "add_module_op"):
                call1(eng, st, meth(eng.prog, RW, m), [args[3], O(x)])
            elif m == "erase_op":
                call1(eng, st, meth(eng.prog, RW, m), [args[3], ("seq", tuple(V(y) for y in x))])
            elif m == "replace_with_prefix":
                call1(eng, st, meth(eng.prog, RW, m), [args[3], ("seq", tuple(O(y) for y in x[0])), O(x[1])])
            elif m == "kill":
                call1(eng, st, HP + "erase_op", [args[1], O(x)])
        return B(ans)
    return {MATCH: model}


def B(b):
    return TRUE if b else FALSE


class Scene:
    def __init__(self, name, script, want=None, pats=("p0", "p1"), rules=(), scope="M", auto=False, conv=None, maxit=None, ans=None,
                 fix=True, iters=None, changes=None, offered=None, unoffered=(), offered_by=None):
        self.__dict__.update(locals())


def scenes():
    out = []

    def s(*a, **k):
        out.append(Scene(*a, **k))
    rep = lambda o, n, pre=(), mod=(): {"p0": {o: ([("insert_op", x) for x in pre] + [("replace_op", n)] + [("add_module_op", x) for x in mod], True)}}
    era = lambda o, vals, pre=(): {"p0": {o: ([("insert_op", x) for x in pre] + [("erase_op", vals)], True)}}
    for o, n in (("X", "R2"), ("Y", "R1"), ("L", "R1"), ("E", "R0"), ("Z", "R0"), ("N1", "R1"), ("N2", "R0"), ("N3", "R0"),
                 ("N4", "R0"), ("K", "R1"), ("F", "R0"), ("X", "RW")):
        for pre in ((), ("P1",), ("P1", "P2"), ("P2", "P1")):
            s(f"{o} replaced by {n}" + (f" after {'+'.join(pre)}" if pre else ""), rep(o, n, pre))
        s(f"{o} replaced by {n} with new module-level ops", rep(o, n, ("P1",), ("MO2", "MO1")))
    for o, vals in (("X", ["FB0.a0", "FB0.a1"]), ("X", ["FB0.a1", "FB0.a0"]), ("X", ["FB0.a1", "FB0.a1"]), ("Y", ["X.r0"]), ("Y", ["X.r1"]),
                    ("N1", ["LB.a0"]), ("N1", ["X.r0"]), ("L", ["X.r0"]), ("Z", []), ("E", []), ("N2", []), ("N3", []), ("F2", [])):
        s(f"{o} erased for {vals}", era(o, vals))
        s(f"{o} erased for {vals} after P1+P2", era(o, vals, ("P1", "P2")))
    s("X erased for results of a new op", era("X", ["P1.r0", "FB0.a1"], ("P1",)))
    for o in ("X", "Z", "N3"):
        s(f"insertion only, before {o}", {"p0": {o: ([("insert_op", "P2"), ("insert_op", "P1")], True)}})
    for o in ("X", "N4", "F2"):
        s(f"module-level ops only, from {o}", {"p0": {o: ([("add_module_op", "MO1"), ("add_module_op", "MO2")], True)}})
    for o, n in (("X", "R2"), ("N1", "R1"), ("Z", "R0")):
        for pre in ((), ("P1",), ("P1", "P2")):
            s(f"{o} replaced by {n} with the prefix {'+'.join(pre) or 'nothing'}", {"p0": {o: ([("replace_with_prefix", (pre, n))], True)}})
            s(f"{o} replaced by {n} with the prefix {'+'.join(pre) or 'nothing'} after an insertion",
              {"p0": {o: ([("insert_op", "P3"), ("replace_with_prefix", (pre, n))], True)}})
    s("function scope has no module block", rep("X", "R2", (), ("MO1",)), scope="F")
    s("function scope stays in the function", {"p0": {"K": ([("replace_op", "R1")], True)}}, scope="F", unoffered=("K", "F", "F2", "M"))
    s("requests of a pattern that declined are dropped",
      {"p0": {"X": ([("insert_op", "P1"), ("replace_op", "R2"), ("add_module_op", "MO1")], False)}})
    s("requests of a pattern that declined do not leak into the next pattern",
      {"p0": {"X": ([("insert_op", "P1"), ("add_module_op", "MO1")], False)}, "p1": {"X": ([("insert_op", "P2"), ("replace_op", "R2")], True)}})
    s("a match without requests lets the next pattern try", {"p0": {"X": ([], True)}, "p1": {"X": ([("replace_op", "R2")], True)}})
    s("a match without requests is no change", {"p0": {"X": ([], True)}})
    s("second pattern applies", {"p1": {"Y": ([("replace_op", "R1")], True)}})
    s("third pattern applies", {"p2": {"Y": ([("replace_op", "R1")], True)}}, pats=("p0", "p1", "p2"))
    s("the first matching pattern wins", {"p0": {"X": ([("replace_op", "R2")], True)}, "p1": {"X": ([("replace_op", "C1")], True)}})
    s("several ops in one go", {"p0": {"X": ([("replace_op", "R2")], True), "Y": ([("replace_op", "R1")], True), "N2": ([("erase_op", [])], True),
                                      "Z": ([("insert_op", "P1"), ("replace_op", "R0")], True)}})
    s("an op and its user both erased", {"p0": {"X": ([("erase_op", ["FB0.a0", "FB0.a1"])], True), "Y": ([("erase_op", ["FB0.a0"])], True),
                                               "N1": ([("erase_op", ["LB.a0"])], True)}})
    ch = {"X": ([("replace_op", "C1")], True), "C1": ([("replace_op", "C2")], True), "C2": ([("replace_op", "C3")], True),
          "C3": ([("replace_op", "C4")], True)}
    for n in (1, 2, 3):
        c = dict(list(ch.items())[:n + 1])
        s(f"chain of {n + 1} replacements", {"p0": c})
    s("chain across patterns", {"p0": {"C1": ch["C1"]}, "p1": {"X": ch["X"]}})
    s("chain stopped by the iteration limit", {"p0": ch}, maxit=2, fix=False)
    s("chain that just fits leaves the limit unconfirmed", {"p0": dict(list(ch.items())[:2])}, maxit=2, fix=False)
    s("chain that fits", {"p0": dict(list(ch.items())[:2])}, maxit=3, fix=True)
    s("no pattern matches", {}, fix=True)
    s("inserted ops are offered too", {"p0": {"X": ([("insert_op", "P1")], True), "P1": ([("erase_op", ["FB0.a0"])], True)}})
    s("module-level ops are offered too", {"p0": {"X": ([("add_module_op", "MO1")], True), "MO1": ([("erase_op", [])], True)}})
    s("body of a new op is offered too", {"p0": {"X": ([("replace_op", "RW")], True), "RN": ([("erase_op", [])], True)}})
    s("a sibling removed meanwhile is not offered", {"p0": {"Y": ([("kill", "N2"), ("replace_op", "R1")], True)}}, unoffered=("N2",))
    s("the next op removed meanwhile is not offered", {"p0": {"N1": ([("kill", "N2"), ("replace_op", "R1")], True)}}, unoffered=("N2",))
    s("legal ops are left alone", rep("X", "R2"), rules=[("legal_op", "t", "x")], unoffered=("X",))
    s("legal dialect is left alone", rep("X", "R2"), rules=[("legal_dialect", "t")], unoffered=("X", "Y", "L", "E", "Z", "N1", "N2", "N3", "N4", "K"))
    s("bodies of legal ops are rewritten", rep("N1", "R1"), rules=[("legal_op", "t", "l"), ("legal_op", "func", "func")], unoffered=("L", "F", "F2"))
    s("illegal ops are rewritten", rep("X", "R2"), rules=[("illegal_op", "t", "x"), ("legal_op", "t", "y")], unoffered=("Y",))
    s("ops without a verdict are rewritten", rep("X", "R2"), rules=[("legal_op", "t", "y")], unoffered=("Y",))
    s("recursively legal bodies are left alone", rep("N1", "R1"), rules=[("legal_op", "t", "l"), ("recursive_legal_op", "t", "l")],
      unoffered=("L", "N1", "N2", "N3", "N4"))
    s("ops after a recursively legal body are rewritten", rep("Z", "R0"), rules=[("legal_op", "t", "l"), ("recursive_legal_op", "t", "l")],
      unoffered=("L", "N1", "N2", "N3", "N4"))
    conv = {"B": "B2", "C": "C2", "D": "D"}
    s("types converted", {}, auto=True, conv=conv)
    s("types not converted unless asked", {}, auto=False, conv=conv)
    s("types converted and X replaced", rep("X", "R2"), auto=True, conv=conv)
    s("legal ops keep their operands", {}, auto=True, conv=conv, rules=[("legal_op", "t", "x"), ("legal_op", "t", "n3")], unoffered=("X", "N3"))
    s("all argument types converted", {}, auto=True, conv={"A": "A2"})
    s("no conversions registered", {}, auto=True, conv=None)
    return out


def expect(v0, sc, hops):
    """The IR the requests of the scenario describe, computed from the IR before."""
    blocks = {b: list(v0.ops(b)) for b in v0.all("Block")}
    opnds = {o: list(v0.operands(o)) for o in v0.all("Op")}
    res = {o: list(v0.results(o)) for o in v0.all("Op")}
    dead = []
    skip = set(O(x) for x in sc.unoffered)
    mb = Bk("MB") if sc.scope == "M" else None
    changes = 0

    def find(o):
        return next((b for b, os_ in blocks.items() if o in os_), None)

    def swap(olds, news):
        for xs in opnds.values():
            for i, x in enumerate(xs):
                if x in olds:
                    xs[i] = news[olds.index(x)]

    def kill(o):
        b = find(o)
        if b is not None:
            blocks[b].remove(o)
        opnds.pop(o)
        dead.append(o)
        for r in v0.seq(v0.field("Op", o, "regions")):
            for bb in v0.seq(v0.field("Region", r, "blocks")):
                for x in list(blocks.pop(bb, ())):
                    if x in opnds:
                        kill(x)

    def reach(root):
        todo, seen = [root], []
        while todo:
            o = todo.pop()
            if o in dead:
                continue
            seen.append(o)
            for r in v0.seq(v0.field("Op", o, "regions")):
                for bb in v0.seq(v0.field("Region", r, "blocks")):
                    todo += blocks[bb]
        return seen
    done = set()
    limit = sc.maxit if sc.maxit is not None else 10
    for it in range(limit):
        ch = 0
        live = [o for o in reach(O("M") if sc.scope == "M" else O("F")) if o not in (O("M"),) and not (sc.scope == "F" and o == O("F"))]
        # within one iteration each op present at its start is offered once; scenarios are order-independent
        order = sorted(live, key=lambda o: o[2])
        for o in order:
            if o in dead or o in skip:
                continue
            for p in sc.pats:
                todo = sc.script.get(p, {}).get(o[2])
                if todo is None or (p, o) in done or not todo[1] or not todo[0]:
                    continue
                b = find(o)
                for m, x in todo[0]:
                    if m == "kill":
                        kill(O(x))
                i = blocks[b].index(o)
                pre = [O(x) for m, x in todo[0] if m == "insert_op"] + [O(y) for m, x in todo[0] if m == "replace_with_prefix" for y in x[0]]
                blocks[b][i:i] = pre
                rp = [x for m, x in todo[0] if m == "replace_op"] + [x[1] for m, x in todo[0] if m == "replace_with_prefix"]
                er = [x for m, x in todo[0] if m == "erase_op"]
                if rp:
                    n = O(rp[0])
                    swap(res[o], res[n])
                    blocks[b][blocks[b].index(o)] = n
                    kill(o)
                elif er:
                    swap(res[o], [V(x) for x in er[0]])
                    kill(o)
                if mb:
                    blocks[mb] += [O(x) for m, x in todo[0] if m == "add_module_op"]
                done.add((p, o))
                ch += 1
                break
        changes += ch
        if ch == 0:
            return blocks, opnds, dead, changes, it + 1, True
    return blocks, opnds, dead, changes, limit, False


def module_adt(ctx):
    return next((p for p in ctx.P.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module")), None)


def check(ctx):
    ctx.rule("after rewriting, the IR is the one the recorded requests describe: insertions in order before the op, the replacement in its "
             "place, every use of each old result replaced by the corresponding value, the old op gone, module-level ops appended")
    ctx.rule("every op not judged legal is offered to every pattern, in registration order, until no iteration changes anything; a fixpoint "
             "is claimed only then")
    ctx.rule("with type conversion on, block arguments get the converted type and mismatched operands go through a cast of that type")
    need = [PA + "apply_partial", PA + "new", PA + "add_pattern_box", PA + "with_target", PA + "with_max_iterations",
            PA + "with_auto_type_conversion", TC + "new", TC + "add_conversion", HP + "erase_op"]
    miss = [p for p in need if p not in ctx.P.fns]
    miss += [f"{RW}::{m}" for m in ("insert_op", "replace_op", "erase_op", "add_module_op") if meth(ctx.P, RW, m) is None]
    for p in miss:
        ctx.bad(p, "rewriting operation not found", p)
    MOD = module_adt(ctx)
    if miss or MOD is None:
        return
    for sc in scenes():
        if meth(ctx.P, RW, "replace_with_prefix") is None and "replace_with_prefix" in str(sc.script):
            continue
        scene(ctx, sc, MOD)
    helpers(ctx)


def scene(ctx, sc, MOD):
    hold = {}
    F = "trunk_ir::dialect::func::Func"
    scope_ty = MOD if sc.scope == "M" else F

    def wrap(path, o):
        return ("adt", path, path.rsplit("::", 1)[-1], (o,), tuple(f[0] for f in ctx.P.adts[path]["vars"][0][2]))

    def setup(eng, st, a):
        h = Heap(eng, st)
        eng.heap = h
        base(h)
        tc = eng.alloc(st, call1(eng, st, TC + "new", []))
        if sc.conv is not None:
            call1(eng, st, TC + "add_conversion", [("ref", tc, ()), T("rule:conv0")])
            call1(eng, st, TC + "add_conversion", [("ref", tc, ()), T("rule:conv")])
            call1(eng, st, TC + "add_conversion", [("ref", tc, ()), T("rule:conv9")])
        pa = call1(eng, st, PA + "new", [eng.load(st, tc, ())])
        for p in sc.pats:
            pa = call1(eng, st, PA + "add_pattern_box", [pa, T("pat:" + p)])
        if sc.rules:
            pa = call1(eng, st, PA + "with_target", [pa, eng.deref(st, target(eng, st, list(sc.rules)))])
        if sc.auto:
            pa = call1(eng, st, PA + "with_auto_type_conversion", [pa, TRUE])
        if sc.maxit is not None:
            pa = call1(eng, st, PA + "with_max_iterations", [pa, C(sc.maxit)])
        hold["h"], hold["v0"] = h, h.view(st.fork())
        hold["n0"] = len(st.events) if hasattr(st, "events") else 0
        return [eng.ref_to(st, pa), h.ref, wrap(scope_ty, O("M" if sc.scope == "M" else "F"))]

    def ah(eng, st, fv, args):
        if fv[0] == "t" and fv[1].startswith("rule:conv"):
            t = args[-1]
            if fv[1] == "rule:conv0" or t[0] != "ent":
                return NONE
            to = sc.conv.get(t[2])
            if fv[1] == "rule:conv9":
                return some(ty("WRONG"))if to is not None else NONE
            return some(ty(to)) if to else NONE
        return hook(sc.ans or {})(eng, st, fv, args)
    rs, e = ctx.run(PA + "apply_partial", setup=setup, apply_hook=ah, max_depth=60, max_rec=8, extra_models=matcher(sc.script),
                    tenv={g: scope_ty for g in ctx.P.fns[PA + "apply_partial"].gen})
    where = ctx.where(PA + "apply_partial")
    key = sc.name
    if rs is None:
        ctx.unk(key, e.failed)
        return
    h, v0 = hold["h"], hold["v0"]
    blocks, opnds, dead, changes, iters, fix = expect(v0, sc, None)
    if len(rs) > 4:
        ctx.unk(key, f"{len(rs)} outcomes")
        return
    for r in rs:
        if r.end != "ret" or r.ret is None or r.ret[0] != "adt":
            ctx.unk(key, f"{r.end} {brief(r.ret) if r.ret else ''}")
            continue
        v = h.view(r.st)
        bad, unk = [], []
        iv, iu = invariants(v, set(dead))
        bad += iv
        unk += iu
        cast_of = {}
        if sc.auto and sc.conv:
            types(v, v0, sc, opnds, blocks, dead, bad, unk, cast_of)
        if not sc.auto:
            for b in blocks:
                t0, t1 = v0.field("Block", b, "args"), v.field("Block", b, "args")
                if t0 is not None and t1 is not None and t0 != t1:
                    ok = [dict(zip(x[4], x[3])).get("ty") for x in v0.seq(t0)], [dict(zip(x[4], x[3])).get("ty") for x in v.seq(t1)]
                    if ok[0] != ok[1]:
                        bad.append(f"the arguments of {b[2]} change their type although conversion was not asked for")
        for b, want in blocks.items():
            got = v.ops(b)
            if got is None:
                unk.append(f"ops of {b[2]}")
                continue
            got = [o for o in got if o not in cast_of]
            if got != want:
                bad.append(f"block {b[2]} holds {[sh(x) for x in got]}, the requests describe {[sh(x) for x in want]}")
        for o, want in opnds.items():
            got = v.operands(o)
            if got is None:
                unk.append(f"operands of {o[2]}")
                continue
            got = [cast_of.get(("val", x), x) for x in got]
            if got != want:
                bad.append(f"{o[2]} reads {[sh(x) for x in got]}, the requests describe {[sh(x) for x in want]}")
        d = dict(zip(r.ret[4], r.ret[3]))
        rf = d.get("reached_fixpoint")
        if rf is None or rf[0] != "c":
            unk.append("reached_fixpoint")
        elif not sc.auto and bool(rf[1]) != fix:
            bad.append(f"reports {'a' if rf[1] else 'no'} fixpoint although the last iteration changed " + ("nothing" if fix else "something"))
        elif sc.auto and not rf[1]:
            bad.append("type conversion never settles")
        offers = [(ev[1], ev[2][0]) for ev in r.events if ev[0] == "offer"]
        for x in sc.unoffered:
            if any(o == O(x) for _, o in offers):
                bad.append(f"{x} is offered to a pattern")
        if fix:
            root = [o for o in reachable(v, O("M" if sc.scope == "M" else "F"))][1:]
            for o in root:
                if o in cast_of or o[2] in sc.unoffered:
                    continue
                for p in sc.pats:
                    if (p, o) not in offers:
                        bad.append(f"{o[2]} is never offered to pattern {p}")
        if bad:
            ctx.bad(key, f"{key}: " + "; ".join(bad[:3]), where)
        elif unk:
            ctx.unk(key, "; ".join(unk[:3]))
        else:
            ctx.ok(key)


def reachable(v, root):
    todo, seen = [root], []
    while todo:
        o = todo.pop(0)
        seen.append(o)
        for r in v.seq(v.field("Op", o, "regions")) or []:
            for b in v.seq(v.field("Region", r, "blocks")) or []:
                todo += v.ops(b) or []
    return seen


def value_ty(v, x):
    d = v.field("Value", x, "def")
    if d is None or d[0] != "adt":
        return None
    if d[2] == "OpResult":
        return v.seq(v.field("Op", d[3][0], "results"))[d[3][1][1]]
    a = v.seq(v.field("Block", d[3][0], "args"))[d[3][1][1]]
    return dict(zip(a[4], a[3])).get("ty")


def types(v, v0, sc, opnds, blocks, dead, bad, unk, cast_of):
    conv = {ty(a): ty(b) for a, b in sc.conv.items() if a != b}
    scope = reachable(v, O("M"))
    for o in v.all("Op"):
        if o not in opnds and o not in dead and v0.data("Op", o) is None:
            if v.opname(o) != "core.unrealized_conversion_cast":
                bad.append(f"an unexpected {v.opname(o)} appears")
            xs, rs = v.operands(o), v.results(o)
            if xs is None or rs is None or len(xs) != 1 or len(rs) != 1:
                bad.append("a cast without exactly one operand and result")
                continue
            cast_of[o] = o
            cast_of[("val", rs[0])] = xs[0]
            a, b = value_ty(v, xs[0]), value_ty(v, rs[0])
            if conv.get(a) != b:
                bad.append(f"a cast from {sh_ty(a)} to {sh_ty(b)}, which is not the registered conversion")
    inscope = set(scope)
    for b in v.all("Block"):
        ops = v.ops(b) or []
        for i, a in enumerate(v.seq(v.field("Block", b, "args")) or []):
            t = dict(zip(a[4], a[3])).get("ty")
            if t in conv and any(o in inscope for o in ops):
                bad.append(f"argument {i} of {b[2]} keeps the unconverted type {sh_ty(t)}")
        for j, o in enumerate(ops):
            if o in cast_of:
                us = v.uses(v.results(o)[0]) or []
                for u in us:
                    d = dict(zip(u[4], u[3]))
                    if d["user"] in ops and ops.index(d["user"]) < j:
                        bad.append(f"a cast stands after its user {sh(d['user'])}")
                if not us:
                    bad.append("a cast nobody uses")
                continue
            if o not in inscope:
                continue
            for i, x in enumerate(v.operands(o) or []):
                t = value_ty(v, x)
                if t in conv and o[2] not in sc.unoffered:
                    bad.append(f"operand {i} of {o[2]} keeps the unconverted type {sh_ty(t)}")
                if o[2] in sc.unoffered and ("val", x) in cast_of:
                    bad.append(f"operand {i} of {o[2]}, which is legal, is cast")


def sh_ty(t):
    return t[2] if t is not None and t[0] == "ent" else "?"


def helpers(ctx):
    ctx.rule("splitting a block, moving blocks between regions, erasing an op and copying attributes do exactly that")
    h_ = {}

    def case(key, path, args, post, dead=(), tenv=None, ah=None):
        if path not in ctx.P.fns:
            ctx.bad(key, f"{path} not found", path)
            return

        def setup(eng, st, a):
            h = eng.heap = Heap(eng, st)
            base(h)
            r = args(h, eng, st)
            h_["h"], h_["v0"] = h, h.view(st.fork())
            return r
        rs, e = ctx.run(path, setup=setup, max_depth=40, max_rec=6, tenv=tenv or {}, apply_hook=ah)
        if rs is None:
            ctx.unk(key, e.failed)
            return
        for r in rs:
            if r.end != "ret":
                ctx.unk(key, r.end)
                continue
            v = h_["h"].view(r.st)
            bad, unk = invariants(v, set(dead))
            got = post(v, e.freeze(r.st, r.ret), h_["v0"], e, r.st)
            if got is None:
                unk = unk + ["result"]
            else:
                bad = bad + got
            if bad and not unk:
                ctx.bad(key, f"{key}: " + "; ".join(bad[:3]), ctx.where(path))
            elif unk:
                ctx.unk(key, "; ".join(unk[:3]))
            else:
                ctx.ok(key)

    def rest_same(v, v0, but=()):
        bad = []
        for b in v0.all("Block"):
            if b not in but and v.ops(b) != v0.ops(b):
                bad.append(f"block {b[2]} changes to {[sh(x) for x in v.ops(b) or []]}")
        for o in v0.all("Op"):
            if o not in but and v.data("Op", o) is not None and v.operands(o) != v0.operands(o):
                bad.append(f"operands of {o[2]} change")
        for r in v0.all("Region"):
            if r not in but and v.seq(v.field("Region", r, "blocks")) != v0.seq(v0.field("Region", r, "blocks")):
                bad.append(f"region {r[2]} changes")
        return bad
    for b, reg, ops in (("FB0", "FR", ["X", "Y", "L", "E"]), ("FB1", "FR", ["Z"]), ("LB", "LR", ["N1", "N2"]), ("LC", "LR", ["N3"])):
        for i, o in enumerate(ops):
            def post(v, ret, v0, e, st, b=b, reg=reg, ops=ops, i=i):
                if ret[0] != "ent":
                    return None
                bad = rest_same(v, v0, (Bk(b), ("ent", "Region", reg)))
                if v.ops(Bk(b)) != [O(x) for x in ops[:i]]:
                    bad.append(f"the block keeps {[sh(x) for x in v.ops(Bk(b)) or []]}")
                if v.ops(ret) != [O(x) for x in ops[i:]]:
                    bad.append(f"the new block gets {[sh(x) for x in v.ops(ret) or []]}")
                want = list(v0.seq(v0.field("Region", ("ent", "Region", reg), "blocks")))
                want.insert(want.index(Bk(b)) + 1, ret)
                if v.seq(v.field("Region", ("ent", "Region", reg), "blocks")) != want:
                    bad.append("the new block does not stand right after the old one")
                if v.bargs(ret):
                    bad.append("the new block has arguments")
                return bad
            case(f"split {b} before {o}", HP + "split_block", lambda h, e, st, b=b, o=o: [h.ref, Bk(b), O(o)], post)
    R = lambda t: ("ent", "Region", t)
    for src, dst, before in (("LR", "FR", None), ("LR", "FR", "FB0"), ("LR", "FR", "FB1"), ("LS", "GR", "GB"), ("LS", "GR", None), ("GR", "LR", "LC")):
        def post(v, ret, v0, e, st, src=src, dst=dst, before=before):
            mv = v0.seq(v0.field("Region", R(src), "blocks"))
            want = list(v0.seq(v0.field("Region", R(dst), "blocks")))
            i = want.index(Bk(before)) if before else len(want)
            want[i:i] = mv
            bad = rest_same(v, v0, (R(src), R(dst)))
            got = v.seq(v.field("Region", R(dst), "blocks"))
            if got != want:
                bad.append(f"the region holds {[sh(x) for x in got or []]}, not {[sh(x) for x in want]}")
            if v.seq(v.field("Region", R(src), "blocks")):
                bad.append("the source region keeps blocks")
            if v.seq(ret) != mv:
                bad.append("the result does not list the moved blocks")
            return bad
        case(f"move blocks of {src} to {dst} " + (f"before {before}" if before else "at the end"), HP + "inline_region_blocks",
             lambda h, e, st, src=src, dst=dst, before=before: [h.ref, R(src), R(dst), some(Bk(before)) if before else NONE], post)
    for o in ("Z", "N2", "E"):
        def post(v, ret, v0, e, st, o=o):
            b = next(x for x in v0.all("Block") if O(o) in v0.ops(x))
            bad = rest_same(v, v0, (b, O(o)))
            if v.ops(b) != [x for x in v0.ops(b) if x != O(o)]:
                bad.append(f"block {b[2]} becomes {[sh(x) for x in v.ops(b) or []]}")
            return bad
        case(f"erase {o}", HP + "erase_op", lambda h, e, st, o=o: [h.ref, O(o)], post, dead=[O(o)])
    for ex in ((), ("k1",), ("k2",), ("k1", "k3"), ("zz",), ("k3", "k2", "k1")):
        def post(v, ret, v0, e, st, ex=ex):
            xs = v.seq(ret)
            if xs is None or any(x[0] != "tup" for x in xs):
                return None
            want = [("tup", (S(k), T("attr:" + k))) for k in ("k1", "k2", "k3") if k not in ex]
            return [] if sorted(map(repr, xs)) == sorted(map(repr, want)) else [f"{[brief(x) for x in xs]} instead of all but {list(ex)}"]
        case(f"attributes except {list(ex)}", HP + "clone_attrs_except",
             lambda h, e, st, ex=ex: [h.ref, h.op("AT", "t.at", [], [], attrs={k: T("attr:" + k) for k in ("k1", "k2", "k3")}),
                                      ("seq", tuple(S(x) for x in ex))], post)
    ctx.rule("type conversion is the first registered rule that applies, and the type itself if none does")
    tys = {"c0": {"A": "A0"}, "c1": {"A": "A1", "B": "B1"}, "c2": {"A": "A2", "B": "B2", "C": "C2"}}

    def ah(eng, st, fv, args):
        if fv[0] == "t" and fv[1].startswith("rule:c"):
            to = tys[fv[1][5:]].get(args[-1][2])
            return some(ty(to)) if to else NONE
    want1 = {"A": "A0", "B": "B1", "C": "C2", "D": None}

    def conv(eng, st):
        tc = eng.alloc(st, call1(eng, st, TC + "new", []))
        for c in tys:
            call1(eng, st, TC + "add_conversion", [("ref", tc, ()), T("rule:" + c)])
        return ("ref", tc, ())
    for t, w in want1.items():
        case(f"convert type {t}", TC + "convert_type", lambda h, e, st, t=t: [conv(e, st), h.ref, ty(t)],
             lambda v, ret, v0, e, st, w=w: None if ret[0] != "adt" else [] if ret == (some(ty(w)) if w else NONE) else
             [f"gives {sh_opt(ret)}, not {w}"], ah=ah)
        case(f"convert type {t} or keep", TC + "convert_type_or_identity", lambda h, e, st, t=t: [conv(e, st), h.ref, ty(t)],
             lambda v, ret, v0, e, st, w=w, t=t: None if ret[0] != "ent" else [] if ret == ty(w or t) else [f"gives {ret[2]}"], ah=ah)
    rwty = lambda m: meth(ctx.P, RW, m) or RW + "::" + m

    def rw(eng, st):
        return eng.ref_to(st, call1(eng, st, rwty("new"), [conv(eng, st)]))
    for m, args, want in (("result_type", lambda: [O("X"), C(0)], some(ty("A0"))), ("result_type", lambda: [O("X"), C(1)], some(ty("C2"))),
                          ("result_type", lambda: [O("X"), C(2)], NONE), ("result_types", lambda: [O("X")], ("seq", (ty("A0"), ty("C2")))),
                          ("result_types", lambda: [O("Y")], ("seq", (ty("D"),))), ("get_value_type", lambda: [V("FB0.a1")], ty("B1")),
                          ("get_value_type", lambda: [V("X.r1")], ty("C2")), ("get_value_type", lambda: [V("Y.r0")], ty("D"))):
        case(f"{m} of {[sh(x) for x in args()]} seen by a pattern", rwty(m), lambda h, e, st, args=args: [rw(e, st), h.ref] + args(),
             lambda v, ret, v0, e, st, want=want: None if ret[0] == "t" else [] if ret == want else [f"gives {brief(ret)}"], ah=ah)


def sh_opt(r):
    return r[3][0][2] if r[2] == "Some" and r[3][0][0] == "ent" else r[2]

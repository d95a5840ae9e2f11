"""A06: the IR store keeps operands, use lists, definitions and parent links consistent."""
from .lowering import *
from engine.heap import *

LEVEL = "other"
EXPLANATION = ("Shape analysis of the IR store: each public mutating operation is analysed from its own code on an abstract heap "
               "that satisfies the structural invariants (entities named, types, attributes and locations unknown, operands "
               "aliased in the ways that matter); on every returning path the invariants and the operation's effect must hold, "
               "so they are preserved by every history of operations.")
ASSUMPTIONS = ["third-party entity maps and lists behave as documented", "direct edits through op_mut/block_mut/region_mut are "
               "outside the property, as their documentation says"]
M = CTXP + "::"


def base(h):
    """x,y results of P; Q uses (x,a,x,y); R uses x; W holds a region whose op uses x and the region's block argument."""
    e = h
    a, b = e.ext("a"), e.ext("b")
    P = e.op("P", "t.p", [a], [T("ty:x"), T("ty:y")])
    x, y = e.res(P, 0), e.res(P, 1)
    Q = e.op("Q", "t.q", [x, a, x, y], [T("ty:q")])
    R = e.op("R", "t.r", [x], [])
    IB = e.block("IB", [], [T("ty:ib0"), T("ty:ib1")])
    IC = e.block("IC", [], [T("ty:ic0")])
    N = e.op("N", "t.n", [e.arg(IB, 1), x, a], [T("ty:n")], attrs={"k1": T("attr1"), "k2": T("attr2")}, succs=[IC, IB])
    N2 = e.op("N2", "t.n2", [e.res(N), e.arg(IC), y, e.arg(IB, 0)], [])
    e.fill(IB, [N])
    e.fill(IC, [N2])
    G = e.region("G", [IB, IC])
    W = e.op("W", "t.w", [a, x], [T("ty:w")], regions=[G], attrs={"k": T("attrw")})
    B0 = e.block("B0", [P, Q, R, W], [T("ty:b0"), T("ty:b1")])
    B1 = e.block("B1", [], [])
    TOP = e.region("TOP", [B0, B1])
    D = e.op("D", "t.d", [a, x, a], [T("ty:d")])
    # a detached op owning a nested region (two levels)
    J = e.op("J", "t.j", [x, y], [])
    JB = e.block("JB", [J])
    JG = e.region("JG", [JB])
    K = e.op("K", "t.k", [x], [], regions=[JG])
    KB = e.block("KB", [K])
    KC = e.block("KC", [e.op("K2", "t.k", [y, a], [])])
    KG = e.region("KG", [KB, KC])
    KG2 = e.region("KG2", [e.block("KD", [e.op("K3", "t.k", [y], [])])])
    L = e.op("L", "t.l", [a], [T("ty:l")], regions=[KG, KG2])
    # a detached op whose result is still used
    U = e.op("U", "t.u", [], [T("ty:u0"), T("ty:u1")])
    V = e.op("V", "t.v", [e.res(U, 1)], [])
    e.fill(B1, [V])
    F = e.op("F", "t.f", [x, y, y, x, y, x], [])
    loose = e.region("LOOSE", [e.block("LB", [])])
    FB = e.block("FB", [], [])
    return locals()


def ent(kind, tag):
    return ("ent", kind, tag)


def O(t):
    return ent("Op", t)


def Vv(t):
    return ent("Value", t)


def Bk(t):
    return ent("Block", t)


X, Y, AA, BB_ = Vv("P.r0"), Vv("P.r1"), Vv("a"), Vv("b")


def newdata(h, operands, nres, regions=(), parent=None):
    return h.mk("trunk_ir::context::OperationData", location=T("nl"), dialect=S("n"), name=S("o"), operands=("seq", tuple(operands)),
                results=("seq", tuple(T(f"nt{i}") for i in range(nres))), attributes=T("nattrs"),
                regions=("seq", tuple(regions)), successors=("seq", ()), parent_block=some(parent) if parent else NONE)


def cases():
    """(name, method, args(h), post(v, ret, v0) -> [complaints], dead, panics)"""
    out = []

    def add(name, meth, args, post=None, dead=(), panics=False):
        out.append((name, meth, args, post, dead, panics))

    def ops_are(o, want):
        return lambda v, ret, v0: [] if v.operands(O(o)) is None or v.operands(O(o)) == want else \
            [f"operands of {o} become {[sh(x) for x in v.operands(O(o))]}, not {[sh(x) for x in want]}"]

    q = [X, AA, X, Y]
    for i in range(4):
        for nv in (BB_, AA, X):
            add(f"set operand {i} of four to {sh(nv)}", "set_op_operand", lambda h, i=i, nv=nv: [O("Q"), C(i), nv],
                ops_are("Q", q[:i] + [nv] + q[i + 1:]))
        add(f"remove operand {i} of four", "remove_op_operand", lambda h, i=i: [O("Q"), C(i)], ops_are("Q", q[:i] + q[i + 1:]))
    f = [X, Y, Y, X, Y, X]
    for i in range(6):
        add(f"remove operand {i} of six with repeats", "remove_op_operand", lambda h, i=i: [O("F"), C(i)], ops_are("F", f[:i] + f[i + 1:]))
        add(f"set operand {i} of six with repeats", "set_op_operand", lambda h, i=i: [O("F"), C(i), AA],
            ops_are("F", f[:i] + [AA] + f[i + 1:]))
    add("remove the only operand", "remove_op_operand", lambda h: [O("R"), C(0)], ops_are("R", []))
    add("remove one of two equal operands", "remove_op_operand", lambda h: [O("D"), C(0)], ops_are("D", [X, AA]))
    for nv in (BB_, X):
        add(f"append operand {sh(nv)}", "push_op_operand", lambda h, nv=nv: [O("Q"), nv], ops_are("Q", q + [nv]))
    add("append first operand", "push_op_operand", lambda h: [O("U"), BB_], ops_are("U", [BB_]))

    def rauw(old, new):
        def post(v, ret, v0):
            bad = []
            for o in v0.all("Op"):
                w = [new if x == old else x for x in v0.operands(o)]
                g = v.operands(o)
                if g is not None and g != w:
                    bad.append(f"operands of {o[2]} become {[sh(x) for x in g]}, not {[sh(x) for x in w]}")
            return bad
        return post
    for old, new in ((X, BB_), (X, AA), (X, X), (AA, X), (Y, BB_), (BB_, X)):
        add(f"replace all uses of {sh(old)} by {sh(new)}", "replace_all_uses", lambda h, o=old, n=new: [o, n], rauw(old, new))

    def created(operands, nres, regions):
        def post(v, ret, v0):
            if ret[0] != "ent":
                return None
            bad = ops_are(ret[2], operands)(v, ret, v0)
            if len(v.results(ret) or [0] * nres) != nres:
                bad.append(f"{nres} results expected")
            for r in regions:
                if v.field("Region", r, "parent_op") != some(ret):
                    bad.append(f"region {r[2]} is not linked to the op that owns it")
            if v.field("Op", ret, "parent_block") != NONE:
                bad.append("the new op is attached")
            return bad
        return post
    for ops, n in (([], 0), ([X], 1), ([X, AA, X], 2), ([Y, Y], 3)):
        add(f"create op with {len(ops)} operands and {n} results", "create_op", lambda h, o=ops, n=n: [newdata(h, o, n)],
            created(ops, n, []))
    LO = ent("Region", "LOOSE")
    add("create op owning a region", "create_op", lambda h: [newdata(h, [X], 1, [LO])], created([X], 1, [LO]))
    add("create op owning a region of another op", "create_op", lambda h: [newdata(h, [X], 1, [ent("Region", "G")])], panics=True)
    add("create op already marked attached", "create_op", lambda h: [newdata(h, [X], 1, (), Bk("B1"))], panics=True)

    def bdata(h, n):
        return h.mk("trunk_ir::context::BlockData", location=T("bl"), args=("seq", tuple(argd(h, i) for i in range(n))),
                    ops=("seq", ()), parent_region=NONE)

    def argd(h, i):
        return h.mk("trunk_ir::context::BlockArgData", ty=T(f"at{i}"), attrs=T(f"aa{i}"))
    for n in (0, 1, 3):
        add(f"create block with {n} arguments", "create_block", lambda h, n=n: [bdata(h, n)],
            lambda v, ret, v0, n=n: [] if ret[0] != "ent" or len(v.bargs(ret)) == n else [f"{len(v.bargs(ret))} argument values"])
    for b, n in (("B0", 2), ("FB", 0), ("IC", 1)):
        old = [Vv(f"{b}.a{i}") for i in range(n)]
        for m, at in (("add_block_arg", n), ("prepend_block_arg", 0)):
            def post(v, ret, v0, b=b, old=old, at=at):
                g = v.bargs(Bk(b))
                want = old[:at] + [ret] + old[at:]
                bad = []
                if g is not None and g != want:
                    bad.append(f"arguments of the block become {[sh(x) for x in g]}, expected the new one at {at}")
                ds, d0 = v.seq(v.field("Block", Bk(b), "args")), v0.seq(v0.field("Block", Bk(b), "args"))
                if ds is not None and [d for d in ds if d in d0] != d0 or ds is not None and len(ds) > at and \
                        ds[at] in d0 or ds is not None and len(ds) != len(d0) + 1:
                    bad.append("the argument records are not the old ones plus the new one in its place")
                return bad
            add(f"{m} on a block with {n}", m, lambda h, b=b: [Bk(b), argd(h, 9)], post)
    for i in (0, 1):
        add(f"set type of block argument {i}", "set_block_arg_type", lambda h, i=i: [Bk("B0"), C(i), T("newty")],
            lambda v, ret, v0, i=i: [] if [v.eng.project(v.st, d, ("f", 0, "ty")) for d in v.seq(v.field("Block", Bk("B0"), "args"))]
            == [T("newty") if j == i else T(f"ty:b{j}") for j in (0, 1)] else ["wrong argument retyped"])
        add(f"set type of result {i}", "set_op_result_type", lambda h, i=i: [O("P"), C(i), T("newty")],
            lambda v, ret, v0, i=i: [] if v.seq(v.field("Op", O("P"), "results")) ==
            [T("newty") if j == i else T("ty:" + "xy"[j]) for j in (0, 1)] else ["wrong result retyped"])

    def order(b, want, op=None):
        def post(v, ret, v0):
            g = v.ops(Bk(b))
            return [] if g is None or g == [O(w) for w in want] else \
                [f"block {b} holds {[sh(x) for x in g]}, not {want}"]
        return post
    add("append a detached op", "push_op", lambda h: [Bk("B0"), O("D")], order("B0", ["P", "Q", "R", "W", "D"]))
    add("append to an empty block", "push_op", lambda h: [Bk("FB"), O("D")], order("FB", ["D"]))
    add("append an attached op", "push_op", lambda h: [Bk("B1"), O("Q")], panics=True)
    add("append an op to its own block again", "push_op", lambda h: [Bk("B0"), O("Q")], panics=True)
    bl = ["P", "Q", "R", "W"]
    for i, w in enumerate(bl):
        add(f"insert before op {i} of four", "insert_op_before", lambda h, w=w: [Bk("B0"), O(w), O("D")],
            order("B0", bl[:i] + ["D"] + bl[i:]))
        add(f"take op {i} of four out of its block", "remove_op_from_block", lambda h, w=w: [Bk("B0"), O(w)],
            order("B0", bl[:i] + bl[i + 1:]))
        add(f"detach op {i} of four", "detach_op", lambda h, w=w: [O(w)], order("B0", bl[:i] + bl[i + 1:]))
    add("insert an attached op", "insert_op_before", lambda h: [Bk("B0"), O("Q"), O("V")], panics=True)
    add("insert before an op of another block", "insert_op_before", lambda h: [Bk("B1"), O("Q"), O("D")], panics=True)
    add("take an op out of a block it is not in", "remove_op_from_block", lambda h: [Bk("B1"), O("Q")], order("B0", bl))
    add("detach a detached op", "detach_op", lambda h: [O("D")], order("B0", bl))

    add("create region of two blocks", "create_region",
        lambda h: [h.mk("trunk_ir::context::RegionData", location=T("rl"), blocks=("seq", (Bk("FB"), h.block("FB2"))), parent_op=NONE)],
        lambda v, ret, v0: [f"block {b} is not linked to its region" for b in ("FB", "FB2")
                            if v.field("Block", Bk(b), "parent_region") != some(ret)])
    add("create region with a block of another region", "create_region",
        lambda h: [h.mk("trunk_ir::context::RegionData", location=T("rl"), blocks=("seq", (Bk("FB"), Bk("B0"))), parent_op=NONE)],
        panics=True)
    for g, o, rest in (("KG", "L", ["KG2"]), ("KG2", "L", ["KG"]), ("G", "W", [])):
        add(f"detach region {g}", "detach_region", lambda h, g=g: [ent("Region", g)],
            lambda v, ret, v0, g=g, o=o, rest=rest: ([] if v.seq(v.field("Op", O(o), "regions")) == [ent("Region", r) for r in rest]
                                                     else ["the region is still listed, or another one is gone"])
            + ([] if v.field("Region", ent("Region", g), "parent_op") == NONE else ["the region still has a parent"]))

    add("dispose of a detached op", "remove_op", lambda h: [O("D")], dead=[O("D")])
    add("dispose of a detached op with nested regions", "remove_op", lambda h: [O("L")],
        dead=[O(t) for t in ("L", "K", "J", "K2", "K3")])
    add("dispose of an attached op", "remove_op", lambda h: [O("R")], panics=True)
    add("dispose of an op whose second result is used", "remove_op", lambda h: [O("U")], panics=True)
    return out


def clones(ctx):
    """Deep copies: structure equal to the source with values and blocks renamed consistently, outside values kept."""
    for name, meth, args in (
            ("clone a flat op", "clone_op", lambda h: [O("Q")]),
            ("clone an op with two results", "clone_op", lambda h: [O("P")]),
            ("clone an op with a region", "clone_op", lambda h: [O("W")]),
            ("clone an op with nested regions", "clone_op", lambda h: [O("L")]),
            ("clone an op into a block", "clone_op_into_block", lambda h: [Bk("B1"), O("W")]),
            ("clone a region", "clone_region", lambda h: [ent("Region", "G")]),
            ("clone a nested region", "clone_region", lambda h: [ent("Region", "KG")])):
        for pre in (False, True):
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                base(h)
                hold["h"], hold["v0"] = h, h.view(st.fork())
                mp = h.mk("trunk_ir::ir_mapping::IrMapping", **{n: ("map", ()) for n, _, _ in eng.prog.adts["trunk_ir::ir_mapping::IrMapping"]["vars"][0][2]})
                loc = eng.alloc(st, mp)
                hold["m"] = loc
                hold["src"] = args(h)[-1]
                if pre:
                    # the caller asked for a to be replaced by b in the copy
                    outs = eng.invoke(st, absint.Frame(0, eng.prog.fns[M + meth], {}, 0), "trunk_ir::ir_mapping::IrMapping::map_value",
                                      [("ref", loc, ()), AA, BB_], (), None)
                    assert len(outs) == 1 and outs[0][0] is st
                return [h.ref] + args(h) + [("ref", loc, ())]
            label = name + (" with a value remapped" if pre else "")
            if M + meth not in ctx.P.fns:
                ctx.bad(meth, "operation not found", M + meth)
                continue
            rs, e = ctx.run(M + meth, setup=setup, max_rec=5, max_depth=30)
            if rs is None:
                ctx.unk(label, e.failed)
                continue
            good = [r for r in rs if r.end == "ret"]
            if not good:
                ctx.bad(label, f"{name}: no path completes", ctx.where(M + meth))
            for r in good:
                v, v0 = hold["h"].view(r.st), hold["v0"]
                inv, unk = invariants(v)
                bad = list(inv)
                mp = {AA: BB_} if pre else {}
                same_op(v, v0, hold["src"], r.ret, mp, bad, unk) if hold["src"][1] == "Op" else \
                    same_region(v, v0, hold["src"], r.ret, mp, bad, unk)
                fin_map(v, v0, hold, mp, bad, unk)
                report(ctx, label, name, bad, unk, M + meth)


def fin_map(v, v0, hold, mp, bad, unk):
    """Operands and successors of the copies are the images of the originals'."""
    for a, b in mp.get("#ops", []):
        xs, ys = v0.operands(a), v.operands(b)
        if xs is None or ys is None:
            unk.append("operands")
            continue
        w = [mp.get(x, x) for x in xs]
        if ys != w:
            bad.append(f"the copy of {a[2]} has operands {[sh(x) for x in ys]} instead of {[sh(x) for x in w]}")
        xs, ys = v0.seq(v0.field("Op", a, "successors")), v.seq(v.field("Op", b, "successors"))
        if xs is None or ys is None:
            unk.append("successors")
            continue
        w = [mp.get(x, x) for x in xs]
        if ys != w:
            bad.append(f"the copy of {a[2]} has successors {[sh(x) for x in ys]} instead of {[sh(x) for x in w]}")


def same_op(v, v0, a, b, mp, bad, unk):
    if b[0] != "ent":
        unk.append("copy of " + a[2])
        return
    if b == a or b in v0.all("Op"):
        bad.append(f"the copy of {a[2]} is not a new op")
        return
    mp.setdefault("#ops", []).append((a, b))
    for f in ("location", "dialect", "name", "results", "attributes"):
        p, q = v0.field("Op", a, f), v.field("Op", b, f)
        if f == "attributes":
            if p[0] == "map" and q[0] == "map":
                p, q = dict(p[1]), dict(q[1])
            elif p[0] == "t":
                if q != p and not mentions(q, lambda t: t == p):
                    bad.append(f"the copy of {a[2]} does not have its attributes")
                continue
        if p != q:
            bad.append(f"the copy of {a[2]} differs in {f}")
    ra, rb = v0.results(a), v.results(b)
    for x, y in zip(ra or [], rb or []):
        mp[x] = y
    ga, gb = v0.seq(v0.field("Op", a, "regions")), v.seq(v.field("Op", b, "regions"))
    if ga is None or gb is None:
        unk.append("regions of " + a[2])
        return
    if len(ga) != len(gb):
        bad.append(f"the copy of {a[2]} has {len(gb)} regions instead of {len(ga)}")
    for x, y in zip(ga, gb):
        same_region(v, v0, x, y, mp, bad, unk)


def same_region(v, v0, a, b, mp, bad, unk):
    if b[0] != "ent":
        unk.append("copy of " + a[2])
        return
    if b in v0.all("Region"):
        bad.append(f"the copy of region {a[2]} is not a new region")
        return
    if v.field("Region", b, "location") != v0.field("Region", a, "location"):
        bad.append(f"the copy of region {a[2]} differs in location")
    xs, ys = v0.seq(v0.field("Region", a, "blocks")), v.seq(v.field("Region", b, "blocks"))
    if xs is None or ys is None:
        unk.append("blocks of " + a[2])
        return
    if len(xs) != len(ys):
        bad.append(f"the copy of region {a[2]} has {len(ys)} blocks instead of {len(xs)}")
    for x, y in zip(xs, ys):
        if y in v0.all("Block"):
            bad.append(f"the copy of block {x[2]} is not a new block")
            continue
        mp[x] = y
        if v.field("Block", y, "location") != v0.field("Block", x, "location"):
            bad.append(f"the copy of block {x[2]} differs in location")
        if v.seq(v.field("Block", y, "args")) != v0.seq(v0.field("Block", x, "args")):
            bad.append(f"the copy of block {x[2]} has other argument types or attributes")
        for p, q in zip(v0.bargs(x), v.bargs(y) or []):
            mp[p] = q
        os_, ot = v0.ops(x), v.ops(y)
        if ot is None:
            unk.append("ops of copy of " + x[2])
            continue
        if len(os_) != len(ot):
            bad.append(f"the copy of block {x[2]} has {len(ot)} ops instead of {len(os_)}")
        for p, q in zip(os_, ot):
            same_op(v, v0, p, q, mp, bad, unk)


def report(ctx, label, name, bad, unk, path):
    for i, b in enumerate(sorted(set(bad))):
        ctx.bad(f"{label}: {b}", f"{name}: {b}", ctx.where(path))
    if not bad:
        if unk:
            ctx.unk(label, "not determined: " + ", ".join(unk[:4]))
        else:
            ctx.ok(label)


def check(ctx):
    ctx.rule("on every returning path of every mutating operation the use lists mirror the operands exactly, definition records "
             "match positions, and parent links mirror containment; and the operation has its effect and no other")
    for name, meth, args, post, dead, panics in cases():
        path = M + meth
        if path not in ctx.P.fns:
            ctx.bad(meth, "operation not found", path)
            continue
        hold = {}

        def setup(eng, st, a):
            h = Heap(eng, st)
            base(h)
            hold["h"] = h
            al = args(h)
            hold["v0"] = h.view(st.fork())
            return [h.ref] + al
        rs, e = ctx.run(path, setup=setup, max_rec=5, max_depth=30)
        if rs is None:
            ctx.unk(name, e.failed)
            continue
        good = [r for r in rs if r.end == "ret"]
        if panics:
            if not good:
                ctx.ok(name)
            elif any(c for r in good for c in r.conds):
                ctx.unk(name, "whether it is refused depends on " + show_cond(good[0].conds[0]))
            else:
                ctx.bad(name, f"{name}: not refused, so the IR is left inconsistent", ctx.where(path))
            continue
        if not good:
            ctx.bad(name, f"{name}: no path completes", ctx.where(path))
        for r in good:
            v = hold["h"].view(r.st)
            inv, unk = invariants(v, dead)
            ex = post(v, r.ret, hold["v0"]) if post else []
            if ex is None:
                ex, unk = [], unk + ["result"]
            # nothing else moved
            frame(v, hold["v0"], meth, ex, dead)
            report(ctx, name, name, inv + ex, unk, path)
    clones(ctx)
    ctx.rule("accessors report what the store holds")
    accessors(ctx)


KEEP = {"set_op_operand": {"Q", "F"}, "remove_op_operand": {"Q", "R", "D", "F"}, "push_op_operand": {"Q", "U"}}


def frame(v, v0, meth, ex, dead):
    """Parts no operation of this kind may touch."""
    for o in v0.all("Op"):
        if o in dead:
            continue
        if meth != "replace_all_uses" and o[2] not in KEEP.get(meth, ()):
            if v.operands(o) is not None and v.operands(o) != v0.operands(o):
                ex.append(f"operands of {o[2]} change")
        for f in ("dialect", "name", "attributes", "successors", "location"):
            if v.field("Op", o, f) != v0.field("Op", o, f):
                ex.append(f"{f} of {o[2]} changes")
        if meth != "set_op_result_type" and v.field("Op", o, "results") != v0.field("Op", o, "results"):
            ex.append(f"result types of {o[2]} change")
        if meth != "detach_region" and v.field("Op", o, "regions") != v0.field("Op", o, "regions"):
            ex.append(f"regions of {o[2]} change")
    if meth not in ("push_op", "insert_op_before", "remove_op_from_block", "detach_op"):
        for b in v0.all("Block"):
            if v.ops(b) is not None and v.ops(b) != v0.ops(b):
                ex.append(f"ops of block {b[2]} change")
    for r in v0.all("Region"):
        if v.field("Region", r, "blocks") != v0.field("Region", r, "blocks"):
            ex.append(f"blocks of region {r[2]} change")


def accessors(ctx):
    cs = [("op_result", lambda: [O("P"), C(0)], X), ("op_result", lambda: [O("P"), C(1)], Y),
          ("op_results", lambda: [O("P")], ("seq", (X, Y))),
          ("op_operands", lambda: [O("Q")], ("seq", (X, AA, X, Y))),
          ("op_result_types", lambda: [O("P")], ("seq", (T("ty:x"), T("ty:y")))),
          ("value_ty", lambda: [Y], T("ty:y")), ("value_ty", lambda: [X], T("ty:x")),
          ("value_ty", lambda: [Vv("B0.a1")], T("ty:b1")), ("value_ty", lambda: [Vv("B0.a0")], T("ty:b0")),
          ("value_def", lambda: [Y], ("adt", VD, "OpResult", (O("P"), C(1)), ("0", "1"))),
          ("value_def", lambda: [Vv("IB.a1")], ("adt", VD, "BlockArg", (Bk("IB"), C(1)), ("0", "1"))),
          ("block_arg", lambda: [Bk("B0"), C(1)], Vv("B0.a1")), ("block_args", lambda: [Bk("B0")], ("seq", (Vv("B0.a0"), Vv("B0.a1")))),
          ("has_uses", lambda: [X], C(1)), ("has_uses", lambda: [BB_], C(0)), ("has_uses", lambda: [Vv("U.r1")], C(1)),
          ("has_uses", lambda: [Vv("U.r0")], C(0))]
    for meth, args, want in cs:
        def setup(eng, st, a):
            h = Heap(eng, st)
            base(h)
            return [h.ref] + args()
        key = f"{meth}({', '.join(sh(x) for x in args())})"
        if M + meth not in ctx.P.fns:
            ctx.bad(meth, "accessor not found", M + meth)
            continue
        rs, e = ctx.run(M + meth, setup=setup, max_depth=30)
        if not rs:
            ctx.unk(key, e.failed if rs is None else "no path")
            continue
        for r in rs:
            if r.ret == want:
                ctx.ok(key)
            elif r.ret is None or (r.ret[0] == "t" and not r.ret[1].startswith("ty:")):
                ctx.unk(key, brief(r.ret) if r.ret else r.end)
            else:
                ctx.bad(key, f"{key} reports {brief(r.ret, 120)}, the store holds {brief(want, 120)}", ctx.where(M + meth))

"""A17: dominance and reachability answers are exact."""
import itertools
from .lowering import *
from engine.heap import *
from engine.irtrace import attr

LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the dominance analysis on every control-flow graph of up to three blocks (each block with up to two "
               "successors) and on larger graphs with joins, nested and irreducible loops, unreachable blocks and edges out of the region; every "
               "answer is compared with the definition: one block dominates another if every path from the entry to the other passes it.")
ASSUMPTIONS = ["graphs beyond three blocks are sampled by shape, not enumerated"]
DT = "trunk_ir::dominance::DominatorTree::"

BIG = {
    "diamond": [[1, 2], [3], [3], []],
    "diamond with a loop back": [[1, 2], [3], [3], [0]],
    "loop": [[1], [2, 3], [1], []],
    "nested loops": [[1], [2, 5], [3, 4], [2], [1], []],
    "irreducible": [[1, 2], [2], [1, 3], []],
    "unreachable predecessor": [[1], [2], [], [2]],
    "unreachable loop": [[1], [], [3], [2]],
    "two exits": [[1, 2], [], [3, 1], []],
    "blocks listed against control flow": [[3], [], [1], [2]],
    "join listed before its predecessors": [[2, 3], [], [1], [1]],
    "loop header listed after its body": [[2], [2, 3], [1, 3], []],
    "switch": [[1, 2, 3], [4], [4], [4, 2], []],
    "same successor twice": [[1, 1], [2], []],
    "self loop": [[0, 1], [1, 2], []],
    "chain of diamonds": [[1, 2], [3], [3], [4, 5], [6], [6], []],
    "edge out of the region": [[1, -1], [2], []],
    "edge out of an unreachable block": [[1], [], [-1]],
    "single block": [[]],
    "no block": [],
}


def graphs():
    for n in (1, 2, 3):
        outs = [()] + [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2))
        for g in itertools.product(outs, repeat=n):
            yield f"graph {'; '.join('%d>%s' % (i, ','.join(map(str, s)) or '-') for i, s in enumerate(g))}", [list(x) for x in g]


def reach(g, drop=None):
    if not g or drop == 0:
        return set()
    seen, w = set(), [0]
    while w:
        b = w.pop()
        if b in seen or b == drop:
            continue
        seen.add(b)
        w += [s for s in g[b] if s >= 0]
    return seen


def one(ctx, name, g):
    hold = {}

    def setup(eng, st, a):
        h = Heap(eng, st)
        bs = [h.block(f"b{i}") for i in range(len(g))]
        other = h.block("elsewhere")
        h.region("other", [other])
        for i, ss in enumerate(g):
            ops = [h.op(f"x{i}", "t.x", attrs={})]
            if ss or i % 2:
                ops.append(h.op(f"br{i}", "cf.br", succs=[bs[s] if s >= 0 else other for s in ss], attrs={}))
            h.fill(bs[i], ops)
        # a block the region does not list but that branches into it
        r = h.region("r", bs)
        hold.update(h=h, bs=bs, other=other, r=r)
        return [h.ref, r]
    rs, e = ctx.run(DT + "compute", setup=setup, max_depth=30, max_rec=4)
    if rs is None:
        return ctx.unk(name, e.failed)
    out = []
    for r in rs:
        if r.ret is None:
            out.append((r, ("bad", f"{name}: the analysis stops: {r.end}")))
            continue
        try:
            t = ask(hold, e, r, g)
            out.append((r, ("bad", f"{name}: {t}") if t else None))
        except (Budget, KeyError, IndexError, TypeError) as x:
            out.append((r, ("unk", f"{type(x).__name__} {x}")))
    ctx.verdicts(name, out, ctx.where(DT + "compute"))


def ask(hold, eng, r, g):
    st, bs, other = r.st.fork(), hold["bs"], hold["other"]
    tree = eng.ref_to(st, r.ret)
    n = len(g)

    def q(m, *a):
        v = eng.freeze(st, call1(eng, st, DT + m, [tree, *a]))
        return v

    def flag(m, *a):
        v = q(m, *a)
        if v[0] != "c":
            raise Budget(f"{m}: {brief(v)}")
        return bool(v[1])
    live = reach(g)
    pos = bs + [other]
    for i, b in enumerate(pos):
        if flag("is_reachable", b) != (i in live):
            return f"block {i} is " + ("called unreachable" if i in live else "called reachable")
    for i, a in enumerate(pos):
        for j, b in enumerate(pos):
            want = j in live and i < n and (i == j or j not in reach(g, i))
            if flag("dominates", a, b) != want:
                return f"block {i} " + ("dominates" if want else "does not dominate") + f" block {j}, the analysis says otherwise"
    for i in range(n):
        for m, want in (("successors", [s for s in g[i]]), ("predecessors", [p for p in range(n) for s in g[p] if s == i])):
            v = q(m, bs[i])
            if v[0] != "seq":
                raise Budget(f"{m}: {brief(v)}")
            got = sorted(x[2] for x in v[1])
            if set(got) != {pos[s][2] if s >= 0 else other[2] for s in want}:
                return f"{m} of block {i} are {got}"
    v = q("entry")
    if v[0] == "adt" and (v[2] == "Some") != bool(n) or n and v[0] == "adt" and v[3] and v[3][0] != bs[0]:
        return "wrong entry block"
    bad_edge = any(s < 0 for ss in g for s in ss)
    if flag("is_valid") == bad_edge:
        return "a branch out of the region is accepted" if bad_edge else "a closed region is called invalid"
    return None


def check(ctx):
    miss = [DT + m for m in ("compute", "dominates", "is_reachable", "predecessors", "successors", "is_valid", "entry") if DT + m not in ctx.P.fns]
    for p in miss:
        ctx.bad(p, "dominance operation not found", p)
    if miss:
        return
    ctx.rule("reachability, dominance, predecessors, successors and validity agree with the definition on each graph")
    allg = list(BIG.items()) + list(graphs())
    ctx.parallel([lambda n=n, g=g: one(ctx, n, g) for n, g in allg])

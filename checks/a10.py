"""A10: inlining keeps every execution."""
from .lowering import *
from engine.heap import *
from engine.irtrace import *
from .a09 import reach_ops

LEVEL = "other"
EXPLANATION = ("Shape analysis of the inliner and its call graph: the pass is analysed on abstract modules (call chains, recursion, "
               "tail calls, nested regions, repeated arguments); entering calls, every function must perform the same effects on the "
               "same values before and after, and functions outside the policy must be left as they are.")
ASSUMPTIONS = ["a function leaves from inside a structured operation only if that operation ends the function, as the IR verifier demands",
               "the direct entry point is asked only for callees that are not on a call cycle, as the pass does",
               "executions are compared for every outcome of the first six conditions and to a call depth of twelve"]
INL = "trunk_ir::transforms::inline::inline_functions_with_config"
ONE = "trunk_ir::transforms::inline::inline_single_call"
CFG = "trunk_ir::transforms::inline::InlineConfig"
BCG = "trunk_ir::transforms::call_graph::build_call_graph"
REC = "trunk_ir::transforms::call_graph::recursive_functions"

P = {}
P["one call"] = """
fn main a b
  x = func.call a b {callee=@g}
  t.use x
  func.return x
fn g p q
  y = t.add p q
  func.return y
"""
P["arguments swapped and repeated"] = """
fn main a b
  x = func.call b a {callee=@g}
  y = func.call a a {callee=@g}
  t.use x y
  func.return y x
fn g p q
  y = t.add p q
  z = t.sub q p
  func.return z
"""
P["callee returns a parameter"] = """
fn main a b
  x = func.call a b {callee=@g}
  t.use x
  func.return x
fn g p q
  func.return q
"""
P["callee returns one value twice removed"] = """
fn main a b
  x = func.call a b {callee=@g}
  t.use x
  func.return x
fn g p q
  u = t.u p
  v = t.v u q
  w = t.w v u
  func.return v
"""
P["two results"] = """
fn main a b
  x y = func.call a b {callee=@g}
  t.use y x
  func.return x
fn g p q
  u = t.u p
  func.return q u
"""
P["no result"] = """
fn main a
  func.call a {callee=@g}
  t.after a
  func.return
fn g p
  t.eff p
  func.return
"""
P["result unused"] = """
fn main a
  x = func.call a {callee=@g}
  t.after a
  func.return
fn g p
  y = t.eff p
  func.return y
"""
P["chain of calls"] = """
fn main a
  x = func.call a {callee=@g}
  y = func.call x {callee=@h}
  func.return y
fn g p
  t.g0 p
  y = func.call p {callee=@h}
  t.g1 y
  func.return y
fn h q
  z = t.h q
  func.return z
"""
P["chain of four"] = """
fn main a
  x = func.call a {callee=@f1}
  func.return x
fn f1 p
  x = func.call p {callee=@f2}
  y = t.one x
  func.return y
fn f2 p
  x = func.call p {callee=@f3}
  y = t.two x p
  func.return y
fn f3 p
  y = t.three p
  func.return y
"""
P["call inside a branch"] = """
fn main a c
  r = scf.if c
    x = func.call a {callee=@g}
    t.use x
    scf.yield x
  |
    scf.yield a
  t.use2 r
  func.return r
fn g p
  y = t.eff p
  func.return y
"""
P["callee with a branch"] = """
fn main a c
  x = func.call a c {callee=@g}
  y = func.call x c {callee=@g}
  t.use x y
  func.return y
fn g p d
  k = t.pre p
  r = scf.if d
    u = t.then k p
    scf.yield u
  |
    v = t.else p
    scf.yield v
  t.post r k
  func.return r
"""
P["callee with a loop"] = """
fn main a c
  x = func.call a c {callee=@g}
  t.use x
  func.return x
fn g p d
  r = scf.loop p
    ^h x
    c1 = t.cond x d
    scf.if c1
      n = t.next x p
      scf.continue n
    |
      scf.break x
  func.return r
"""
P["call in a loop in a branch"] = """
fn main a c
  r = scf.loop a
    ^h x
    n = func.call x a {callee=@g}
    c1 = t.cond n
    scf.if c1
      scf.continue n
    |
      m = func.call n x {callee=@g}
      scf.break m
  func.return r
fn g p q
  y = t.eff p q
  func.return y
"""
P["direct recursion"] = """
fn main a c
  x = func.call a c {callee=@g}
  func.return x
fn g p d
  y = t.eff p
  r = scf.if d
    e = t.nextcond y
    u = func.call y e {callee=@g}
    scf.yield u
  |
    scf.yield p
  func.return r
"""
P["mutual recursion"] = """
fn main a c
  x = func.call a c {callee=@g}
  func.return x
fn g p d
  y = t.g p
  r = scf.if d
    e = t.c1 y
    u = func.call y e {callee=@h}
    scf.yield u
  |
    scf.yield p
  func.return r
fn h p d
  y = t.h p
  r = scf.if d
    e = t.c2 y
    u = func.call y e {callee=@g}
    scf.yield u
  |
    scf.yield y
  func.return r
"""
P["recursion through three and a reference"] = """
fn main a c
  x = func.call a c {callee=@f1}
  func.return x
fn f1 p d
  r = scf.if d
    e = t.c1 p
    u = func.call p e {callee=@f2}
    scf.yield u
  |
    scf.yield p
  func.return r
fn f2 p d
  y = func.call p d {callee=@f3}
  func.return y
fn f3 p d
  t.f3 p
  y = func.call p d {callee=@f1}
  func.return y
"""
P["tail call"] = """
fn main a b
  t.pre a
  func.tail_call b a {callee=@g}
fn g p q
  y = t.eff p q
  func.return y
"""
P["tail call of a function without result"] = """
fn main a
  func.tail_call a {callee=@g}
fn g p
  t.eff p
  func.return
"""
P["tail calls in branches"] = """
fn main a c
  scf.if c
    t.x a
    func.tail_call a {callee=@g}
  |
    func.tail_call c {callee=@h}
  func.unreachable
fn g p
  y = t.eff p
  func.return y
fn h p
  func.return p
"""
P["callee ends in a tail call"] = """
fn main a
  x = func.call a {callee=@g}
  t.after x
  func.return x
fn g p
  t.g p
  func.tail_call p {callee=@h}
fn h q
  z = t.h q
  func.return z
"""
P["tail call of a function that ends in a tail call"] = """
fn main a
  func.tail_call a {callee=@g}
fn g p
  t.g p
  func.tail_call p {callee=@h}
fn h q
  z = t.h q
  func.return z
"""
P["callee leaves from both branches by tail calls"] = """
fn main a c
  x = func.call a c {callee=@g}
  t.after x
  func.return x
fn g p d
  n = scf.if d
    func.tail_call p {callee=@h}
  |
    func.tail_call p {callee=@k}
fn h q
  z = t.h q
  func.return z
fn k q
  z = t.k q
  func.return z
"""
P["callee with several blocks"] = """
fn main a c
  x = func.call a c {callee=@g}
  t.after x
  func.return x
fn g p d
  cf.cond_br d -> ^l ^m
  ^l
  t.l p
  func.return p
  ^m
  y = t.m p
  func.return y
"""
P["unreachable callee"] = """
fn main a c
  n = scf.if c
    func.tail_call a {callee=@g}
  |
    func.tail_call a {callee=@h}
fn g p
  t.abort p
  func.unreachable
fn h p
  t.h p
  func.return p
"""
P["call site count changes while inlining"] = """
fn main a
  x = func.call a {callee=@w}
  y = func.call x {callee=@w}
  func.return y
fn w p
  y = func.call p {callee=@big}
  func.return y
fn big p
  y = t.b0 p
  z = t.b1 y p
  w = t.b2 z y
  func.return w
"""
P["unknown callee"] = """
fn main a
  x = func.call a {callee=@elsewhere}
  t.use x
  func.return x
"""
P["escaping callee"] = """
fn main a
  k = func.constant {func_ref=@g}
  x = func.call a {callee=@g}
  t.use x k
  func.return x
fn g p
  y = t.eff p
  func.return y
"""
P["call of an inlined call's result"] = """
fn main a
  x = func.call a {callee=@g}
  y = func.call x {callee=@g}
  z = func.call y {callee=@g}
  t.use x y z
  func.return z
fn g p
  y = t.eff p p
  func.return y
"""
P["caller in a later block"] = """
fn main a c
  cf.cond_br c -> ^l ^m
  ^l
  x = func.call a {callee=@g}
  cf.br x -> ^n
  ^m
  y = func.call c {callee=@g}
  cf.br y -> ^n
  ^n z
  w = func.call z {callee=@g}
  func.return w
fn g p
  y = t.eff p
  func.return y
"""
P["function with a declared ABI"] = """
fn main a
  x = func.call a {callee=@g}
  func.return x
fn g p {abi=@C}
  y = t.eff p
  func.return y
"""


def build(h, text):
    """-> (module op, {name: func op})"""
    lines, names = [], []
    for l in text.strip("\n").splitlines():
        if l.startswith("fn "):
            m = re.match(r"fn (\w+)([^{]*)(?:\{(.*)\})?$", l)
            names.append(m[1])
            lines.append(f"func.func {{sym_name=@{m[1]}{', ' + m[3] if m[3] else ''}}}")
            lines.append("  ^" + m[1] + "_entry " + m[2].strip())
        else:
            lines.append(l)
    lay = Layout(h, "\n".join(lines))
    fs = {}
    for i, n in enumerate(names):
        fs[n] = lay.ops["func.func" if i == 0 else f"func.func.{i + 1}"]
    m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
    return m, fs


def cache_models():
    """The analysis cache, as a map from target to the call graph computed for it."""
    def get(eng, st, fr, args, targs, path, t):
        r = args[0]
        loc = eng.deref(st, r)
        tgt = eng.freeze(st, args[2])
        for ev in reversed(st.event_list()):
            if ev[0] == "cg" and ev[1] == tgt:
                if ev[2] is not None:
                    return ev[2]
                break
        a = "trunk_ir::rewrite::Module"
        mod = next(p for p in eng.prog.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module"))
        m = ("adt", mod, "Module", (tgt,), tuple(x[0] for x in eng.prog.adts[mod]["vars"][0][2]))
        g = eng.ref_to(st, call1(eng, st, BCG, [args[1], m]))
        st.event("cg", tgt, g, "")
        return g

    def inv(eng, st, fr, args, targs, path, t):
        st.event("cg", eng.freeze(st, args[1]), None, "")
        return ("tup", ())
    A = "trunk_ir::analysis::AnalysisCache::"
    return {A + "get": get, A + "invalidate": inv, A + "invalidate_all": inv}


def verdict(ctx, key, name, v0, v, fs, where):
    live = reach_ops(v, O_M)
    dead = set(o for o in v.all("Op") if o not in live)
    bad, unk = invariants(v, dead)
    bad = [b for b in bad if not any(d[2] in b for d in dead)]
    if bad:
        ctx.bad(key, f"{name}: " + "; ".join(bad[:2]), where)
        return
    n = 0
    for f, o in fs.items():
        if o not in live:
            ctx.bad(key, f"{name}: function {f} disappears", where)
            return
        try:
            d, k = compare(Meaning(v0, calls=fs, maxsteps=80), o, Meaning(v, calls=fs, maxsteps=80), o, 6)
        except Unclear as u:
            ctx.unk(key, str(u))
            return
        n += k
        if d is not None:
            ctx.bad(key, f"{name}: after inlining, {f} {d}", where)
            return
    ctx.ok(key)


O_M = ("ent", "Op", "M")
CONFIGS = {"default": None, "everything small": (100, True, True), "single call sites only": (0, True, False), "by size only": (100, False, False),
           "tiny": (2, False, True)}


POLICY = {"function with a declared ABI": "g", "direct recursion": "g", "mutual recursion": "g", "escaping callee": "g"}


def norm(v):
    """Maps and sets compare without order."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "map":
        return ("map", frozenset((norm(k), norm(x)) for k, x in v[1]))
    if v[0] == "seq":
        return ("set", frozenset(norm(x) for x in v[1]))
    if v[0] == "adt":
        return ("adt", v[1], v[2], tuple(norm(x) for x in v[3]))
    return v


def check(ctx):
    ctx.rule("with calls entered, every function performs the same effects on the same values before and after inlining")
    ctx.rule("calls of functions with a declared ABI, on a call cycle or used as a value are not expanded by default")
    ctx.rule("the call graph left in the analysis cache describes the final module")
    ctx.rule("functions on a call cycle are found, and only those")
    for p in (INL, ONE, BCG, REC):
        if p not in ctx.P.fns:
            ctx.bad(p, "inliner entry point not found", p)
            return
    mod = next(p for p in ctx.P.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module"))
    mf = tuple(x[0] for x in ctx.P.adts[mod]["vars"][0][2])
    for cname, cf in CONFIGS.items():
        for name, text in P.items():
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                m, fs = build(h, text)
                hold.update(h=h, v0=h.view(st.fork()), fs=fs, m=m)
                if cf is None:
                    c = call1(eng, st, next(p for p in ctx.P.fns if p.startswith(f"<{CFG} as ") and p.endswith("Default>::default")), [])
                else:
                    c = h.mk(CFG, size_threshold=C(cf[0]), always_inline_single_call_site=C(int(cf[1])), inline_across_func_constant=C(int(cf[2])))
                return [h.ref, ("adt", mod, "Module", (m,), mf), c, eng.ref_to(st, T("cache"))]
            rs, e = ctx.run(INL, setup=setup, max_depth=80, max_rec=12, extra_models=cache_models())
            key = f"{name}, {cname}"
            where = ctx.where(INL)
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            for r in rs:
                if r.end != "ret":
                    ctx.unk(key, r.end)
                    continue
                v = hold["h"].view(r.st)
                verdict(ctx, key, key, hold["v0"], v, hold["fs"], where)
                if cf is None and name in POLICY:
                    def calls(w):
                        return sorted(sh(o) for o in reach_ops(w, O_M) if w.opname(o) == "func.call" and callee_of(w, o) == POLICY[name])
                    c0, c1 = calls(hold["v0"]), calls(v)
                    if not c0:
                        ctx.unk(key + ": policy", "no call found in the original")
                    elif c0 != c1:
                        ctx.bad(key + ": policy", f"{name}: the call of {POLICY[name]} is expanded", where)
                    else:
                        ctx.ok(key + ": policy")
                stale(ctx, key, e, r, hold, mod, mf, where)
    single(ctx)
    cycles(ctx)


def stale(ctx, key, e, r, hold, mod, mf, where):
    last = [ev for ev in r.st.event_list() if ev[0] == "cg"]
    key += ": cached graph"
    if not last or last[-1][2] is None:
        ctx.ok(key)
        return
    st = r.st.fork()
    old = norm(e.freeze(st, e.deref(st, last[-1][2])))
    try:
        new = norm(e.freeze(st, call1(e, st, BCG, [hold["h"].ref, ("adt", mod, "Module", (hold["m"],), mf)])))
    except Exception as x:
        ctx.unk(key, repr(x)[:80])
        return
    if old != new:
        ctx.bad(key, f"{key}: the cached call graph no longer describes the module", where)
    else:
        ctx.ok(key)


def single(ctx):
    """The direct entry point, one call at a time."""
    where = ctx.where(ONE)
    for name, text in P.items():
        for which in range(3):
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                m, fs = build(h, text)
                v0 = h.view(st.fork())
                calls = []
                for f in fs.values():
                    for o in reach_ops(v0, f):
                        if v0.opname(o) in ("func.call", "func.tail_call"):
                            c = callee_of(v0, o)
                            if c in fs and "recursi" not in name:
                                calls.append((o, fs[c]))
                calls.sort(key=lambda x: sh(x[0]))
                hold.update(h=h, v0=v0, fs=fs, n=len(calls))
                if which >= len(calls):
                    return None
                return [h.ref, calls[which][0], calls[which][1]]
            rs, e = ctx.run(ONE, setup=lambda eng, st, a: setup(eng, st, a) or [T("none")] * 3, max_depth=60, max_rec=10)
            if which >= hold["n"]:
                break
            key = f"single: {name}, call {which + 1}"
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            for r in rs:
                if r.end != "ret":
                    ctx.unk(key, r.end)
                    continue
                verdict(ctx, key, key, hold["v0"], hold["h"].view(r.st), hold["fs"], where)


def callee_of(v, o):
    c = Meaning(v).attr(o, "callee")
    return c[3][0][1] if c is not None and c[0] == "adt" and c[3][0][0] == "s" else None


def cycles(ctx):
    """Every directed graph on three functions."""
    import itertools
    G = next(p for p in ctx.P.adts if p.endswith("call_graph::CallGraph"))
    where = ctx.where(REC)
    names = ["f", "g", "h"]
    pairs = [(a, b) for a in names for b in names]
    bad = n = 0
    unk = None
    for bits in range(1 << len(pairs)):
        ed = {a: [b for k, (x, b) in enumerate(pairs) if x == a and bits >> k & 1] for a in names}
        reach = {a: set(ed[a]) for a in names}
        for _ in names:
            for a in names:
                for b in list(reach[a]):
                    reach[a] |= reach[b]
        want = {a for a in names if a in reach[a]}

        def setup(eng, st, a):
            h = Heap(eng, st)
            g = h.mk(G, edges=("map", tuple((S(x), ("seq", tuple(S(y) for y in ys))) for x, ys in ed.items() if ys)),
                     func_ops=("map", tuple((S(x), h.op("F" + x, "func.func")) for x in names)),
                     has_constant_ref=("seq", ()), call_site_count=("map", ()))
            return [eng.ref_to(st, g)]
        rs, e = ctx.run(REC, setup=setup, max_depth=40, max_rec=8)
        key = f"cycles: {ed}"
        if rs is None or any(r.end != "ret" for r in rs):
            ctx.unk("cycles: " + str(bits), getattr(e, "failed", None) or "panics")
            continue
        for r in rs:
            v = e.freeze(r.st, r.ret)
            if v[0] != "seq" or not all(x[0] == "s" for x in v[1]):
                ctx.unk("cycles: " + str(bits), brief(v, 80))
                continue
            got = {x[1] for x in v[1]}
            txt = ", ".join(f"{a} calls {b}" for k, (a, b) in enumerate(pairs) if bits >> k & 1)
            if got != want:
                bad += 1
                if bad <= 5:
                    ctx.bad("cycles: " + txt, f"functions on a cycle are {sorted(want)}, found {sorted(got)}", where)
            else:
                ctx.ok("cycles: " + str(bits))

"""A12: removing reference-count pairs keeps the counts balanced and the objects alive."""
from .a11 import *
from .a11 import P as PROGRAMS, Q as CONTRACTED

LEVEL = "other"
EXPLANATION = ("Shape analysis of the pass that removes retain/release pairs, applied to abstract functions as the insertion pass leaves them and "
               "to hand-written placements of pairs around every kind of use; an ownership typestate is then tracked along every path of the "
               "result: still balanced, nothing used or given away after its last reference is gone.")
ASSUMPTIONS = ["objects loaded from a field live as long as the object they were loaded from (fields are not overwritten meanwhile)",
               "a callee leaves the counts of its arguments as it found them unless its contract says it consumes them",
               "paths are followed for every outcome of the first five branches"]
OPT = "tribute_passes::native::rc_optimization::eliminate_paired_rc"

# placements of pairs; "own" objects come from a call
W = {}
W["pair around reads"] = """
fn f p:R
  a:R = tribute_rt.retain p
  v:I = clif.load p {offset=0}
  tribute_rt.release p {alloc_size=0}
  clif.return v
"""
W["pair through the retained result"] = """
fn f p:R
  a:R = tribute_rt.retain p
  v:I = clif.load a {offset=0}
  tribute_rt.release a {alloc_size=0}
  clif.return v
"""
W["retained result used after the pair"] = """
fn f
  x:R = clif.call {callee=@make}
  a:R = tribute_rt.retain x
  tribute_rt.release x {alloc_size=0}
  v:I = clif.load a {offset=0}
  tribute_rt.release a {alloc_size=0}
  clif.return v
"""
W["pair on a field across its owner's release"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  a:R = tribute_rt.retain l
  tribute_rt.release x {alloc_size=0}
  v:I = clif.load l {offset=0}
  tribute_rt.release l {alloc_size=0}
  clif.return v
"""
W["pair on a cast field across its owner's release"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  c:R = core.unrealized_conversion_cast l
  a:R = tribute_rt.retain c
  tribute_rt.release x {alloc_size=0}
  v:I = clif.load c {offset=0}
  tribute_rt.release c {alloc_size=0}
  clif.return v
"""
W["pair around a store of the value"] = """
fn f p:R
  x:R = clif.call {callee=@make}
  a:R = tribute_rt.retain x
  clif.store x p {offset=0}
  tribute_rt.release x {alloc_size=0}
  clif.return
"""
W["pair around a store through the value"] = """
fn f p:R v:I
  a:R = tribute_rt.retain p
  clif.store v p {offset=0}
  tribute_rt.release p {alloc_size=0}
  clif.return v
"""
W["two pairs nested"] = """
fn f p:R
  a:R = tribute_rt.retain p
  b:R = tribute_rt.retain p
  v:I = clif.load b {offset=0}
  tribute_rt.release p {alloc_size=0}
  w:I = clif.load a {offset=0}
  tribute_rt.release p {alloc_size=0}
  clif.return v
"""
W["pairs on two values interleaved"] = """
fn f p:R q:R
  a:R = tribute_rt.retain p
  b:R = tribute_rt.retain q
  v:I = clif.load b {offset=0}
  tribute_rt.release p {alloc_size=0}
  w:I = clif.load a {offset=0}
  tribute_rt.release q {alloc_size=0}
  clif.return v
"""
W["retain in one block, release in the next"] = """
fn f p:R
  a:R = tribute_rt.retain p
  clif.jump -> ^n
  ^n
  v:I = clif.load p {offset=0}
  tribute_rt.release p {alloc_size=0}
  clif.return v
"""
W["retain before a branch, released in both arms"] = """
fn f p:R c:I
  a:R = tribute_rt.retain p
  clif.brif c -> ^x ^y
  ^x
  v:I = clif.load p {offset=0}
  tribute_rt.release p {alloc_size=0}
  clif.return v
  ^y
  tribute_rt.release p {alloc_size=0}
  clif.return c
"""
W["release before the retain"] = """
fn f
  x:R = clif.call {callee=@make}
  y:R = clif.call {callee=@make}
  clif.store y x {offset=0}
  l:R = clif.load x {offset=0}
  a:R = tribute_rt.retain l
  tribute_rt.release x {alloc_size=0}
  clif.return l
"""
W["value returned under its retained name"] = """
fn f p:R
  a:R = tribute_rt.retain p
  v:I = clif.load p {offset=0}
  clif.return a
"""
W["value passed along an edge between"] = """
fn f p:R
  a:R = tribute_rt.retain p
  b:R = tribute_rt.retain p
  tribute_rt.release p {alloc_size=0}
  clif.jump p -> ^j
  ^j r:R
  tribute_rt.release r {alloc_size=0}
  clif.return
"""
W["last own reference goes in between"] = """
fn f
  x:R = clif.call {callee=@make}
  a:R = tribute_rt.retain x
  v:I = clif.call x {callee=@use}
  tribute_rt.release x {alloc_size=0}
  w:I = clif.call x {callee=@use}
  tribute_rt.release x {alloc_size=0}
  clif.return w
"""
W["pair whose release is not the matching value"] = """
fn f
  x:R = clif.call {callee=@make}
  y:R = clif.call {callee=@make}
  a:R = tribute_rt.retain x
  tribute_rt.release y {alloc_size=0}
  v:I = clif.load x {offset=0}
  tribute_rt.release x {alloc_size=0}
  tribute_rt.release x {alloc_size=0}
  clif.return v
"""
W["pair on a field across a region that releases its owner"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  a:R = tribute_rt.retain l
  t.do
    tribute_rt.release x {alloc_size=0}
  v:I = clif.load l {offset=0}
  tribute_rt.release l {alloc_size=0}
  clif.return v
"""
W["pair across a region that gives the value away"] = """
fn f p:R
  x:R = clif.call {callee=@make}
  y:R = clif.call {callee=@make}
  a:R = tribute_rt.retain x
  t.do
    clif.store a y {offset=8}
    tribute_rt.release y {alloc_size=0}
  v:I = clif.load x {offset=0}
  tribute_rt.release x {alloc_size=0}
  clif.return v
"""
W["pair inside a region"] = """
fn f p:R
  t.do
    a:R = tribute_rt.retain p
    v:I = clif.load p {offset=0}
    tribute_rt.release p {alloc_size=0}
  clif.return v
"""
W["sized release"] = """
fn f v:I
  n:L = clif.iconst {value=12}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  z:P = clif.iconst {value=0}
  box:R = clif.iadd pay z
  a:R = tribute_rt.retain box
  w:I = clif.load box {offset=0}
  tribute_rt.release box {alloc_size=12}
  tribute_rt.release box {alloc_size=12}
  clif.return v
"""

# every choice of the name (original or retained) in a store of the value, a read, the pair's release and a later read
for _s in ("x", "a", ""):
    for _l in ("x", "a"):
        for _r in ("x", "a"):
            for _m in ("x", "a") if not _s else ("nothing",):
                W[f"pair: store {_s or 'nothing'}, read {_l}, release {_r}, read {_m}"] = f"""
fn f p:R
  x:R = clif.call {{callee=@make}}
  a:R = tribute_rt.retain x
  {f"clif.store {_s} p {{offset=8}}" if _s else ""}
  v:I = clif.load {_l} {{offset=0}}
  tribute_rt.release {_r} {{alloc_size=0}}
  {f"w:I = clif.load {_m} {{offset=0}}" if not _s else ""}
  {"tribute_rt.release x {alloc_size=0}" if not _s else ""}
  clif.return v
"""

# the value is stored into an object that goes away before the value is read again
for _s in ("x", "a"):
    for _l in ("x", "a"):
        for _r in ("x", "a"):
            W[f"pair: store {_s} into an object that is released, read {_l}, release {_r}"] = f"""
fn f
  x:R = clif.call {{callee=@make}}
  y:R = clif.call {{callee=@make}}
  a:R = tribute_rt.retain x
  clif.store {_s} y {{offset=8}}
  tribute_rt.release y {{alloc_size=0}}
  v:I = clif.load {_l} {{offset=0}}
  tribute_rt.release {_r} {{alloc_size=0}}
  clif.return v
"""


def one_opt(key, e, r, hold):
    if r.end != "ret":
        return "bad", f"{key}: the pass stops: {r.end}"
    v = hold["h"].view(r.st)
    gone = set(o for o in v.all("Op") if o not in reach_ops(v, ("ent", "Op", "M")))
    bad, unk = invariants(v, gone)
    if bad:
        return "bad", f"{key}: " + "; ".join(bad[:2])
    v0 = hold["v1"]
    for b in v0.all("Block"):
        o0, o1 = v0.ops(b), v.ops(b)
        rc = lambda o: v0.opname(o) in ("tribute_rt.retain", "tribute_rt.release")
        if [o for o in o0 if not rc(o)] != [o for o in o1 if not rc(o)]:
            return "bad", f"{key}: block {b[2]} changes from {[o[2] for o in o0]} to {[o[2] for o in o1]}"
        if [o for o in o0 if o in o1] != o1:
            return "bad", f"{key}: the order of {[o[2] for o in o1]} changes"
    for n, (o, modes, cps) in hold["fs"].items():
        try:
            d, k = paths(Rc(hold["v0"], v, hold.get("contracts", {})), o, modes)
        except Unclear as u:
            return "unk", str(u)
        if d:
            return "bad", f"{key}: in {n}, {d}"
    return None


def check(ctx):
    ctx.rule("after removing pairs: along every path, no reference is given away that is not held, nothing is used after its last reference, "
             "nothing is held at exit")
    ctx.rule("only retains and releases are removed, and nothing is reordered")
    for p in (PLAIN, TRUST, OPT):
        if p not in ctx.P.fns:
            ctx.bad(p, "reference counting entry point not found", p)
            return
    mod, mf = mod_of(ctx)

    def go(key, mk, models=None):
        hold = {}

        def after(eng, st, h, args, path):
            if path:
                call1(eng, st, path, args)
            hold["v1"] = h.view(st.fork())
            return args[:2]
        rs, e = ctx.run(OPT, setup=mk(hold, after), max_depth=60, max_rec=12, extra_models=models)
        if rs is None:
            ctx.unk(key, e.failed)
            return
        ctx.verdicts(key, [(r, one_opt(key, e, r, hold)) for r in rs], ctx.where(OPT))

    for name, text in W.items():
        def mk(hold, after):
            def setup(eng, st, a):
                h = Heap(eng, st)
                m, fs = build(h, text)
                hold.update(h=h, v0=h.view(st.fork()), fs=fs)
                return after(eng, st, h, [h.ref, ("adt", mod, "Module", (m,), mf)], None)
            return setup
        go(name, mk)
    for pol in ("Preserve", "ElideProvenFieldBorrows"):
        for name, text in PROGRAMS.items():
            go(f"{name}, fields {pol}", lambda hold, after: plain_setup(ctx, text, pol, hold, after))
        for name, text in CONTRACTED.items():
            go(f"{name}, contracts, fields {pol}", lambda hold, after: trust_setup(ctx, text, "ElideProvenBorrowed", pol, hold, after), IDENT)

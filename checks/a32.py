"""A32: only modules made of the target's operations and types reach code generation."""
from .a11 import put, functy
from .a13 import at, struct
from .a31 import module, CC, SIG, ALIAS
from .lowering import *
from engine.heap import *
from engine.irtrace import attr, ty, NAMED
from engine.rules import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The final verification of a module is analysed on abstract modules that differ from a legal one in one place: every type in every "
               "kind of place, every kind of operation, symbol and convention. Its answer is compared with the target's legal types and operations.")
ASSUMPTIONS = ["one illegal construct at a time"]
READY = "tribute_passes::backend_ready::verify_{}_backend_ready"
MOD = "trunk_ir::rewrite::Module"
PRIVATE = "__tribute_cps_control"
NIL, I = ty("core.nil"), ty("core.i32")

# ---- what is legal -------------------------------------------------------------------------------------------------------------
CORE_VALUES = {"native": "nil i1 i8 i16 i32 i64 f32 f64 ptr", "wasm": "nil i1 i32 i64 f32 f64 bytes ptr array func"}
CORE_META = "func nil i1 i8 i16 i32 i64 f32 f64 ptr bytes ref array"
REFS = "anyref i31ref structref arrayref funcref"


def dn(t):
    return t[1][1], t[2][1]


def is_adt(t):
    d, n = dn(t)
    return d == "adt" and (n in ("struct", "enum", "typeref", "variant_inst") or
                           any(k == S("is_variant") and x == at("Bool", C(1)) for k, x in t[4][1]))


def value(b, t):
    d, n = dn(t)
    if d == "core":
        return n in CORE_VALUES[b].split()
    return b == "wasm" and (is_adt(t) or (d == "wasm" and n in REFS.split()))


def meta(b, t):
    d, n = dn(t)
    if d == "core":
        return n in CORE_META.split()
    return is_adt(t) or (b == "wasm" and d == "wasm" and n in REFS.split())


def legal(b, t, where):
    """where: value, result, meta, sig"""
    d, n = dn(t)
    ps = t[3][1]
    fn = (d, n) == ("core", "func")
    own = {"value": value(b, t), "result": value(b, t), "meta": meta(b, t), "sig": fn}[where]
    if not own:
        return False
    if fn:
        if not ps:
            return False
        inner = legal(b, ps[0], "result") and all(legal(b, x, "value") for x in ps[1:])
    else:
        inner = all(legal(b, x, "meta") for x in ps)
    return inner and all(k != S(PRIVATE) and legal_attr(b, x) for k, x in t[4][1])


def legal_attr(b, a):
    if a[2] == "Type":
        return legal(b, a[3][0], "meta")
    if a[2] == "Symbol":
        return a[3][0] != S(PRIVATE)
    if a[2] == "List":
        return all(legal_attr(b, x) for x in a[3][0][1])
    return True


# ---- runs ----------------------------------------------------------------------------------------------------------------------
def ask(ctx, b, key, text, want, sigs=None, attrs=None, aliases=(), argattrs=None, mattrs=None, named=None):
    P = ctx.P
    path = READY.format(b)
    key = f"{b}: {key}"

    def setup(eng, st, a):
        NAMED.update(named or {})
        h = Heap(eng, st)
        m = module(eng, st, h, text.replace("X.", "clif." if b == "native" else "wasm."), sigs, attrs)
        v = h.view(st)
        for (blk, i), mp in (argattrs or {}).items():
            e = ("ent", "Block", blk)
            ad = list(v.seq(v.field("Block", e, "args")))
            ad[i] = h.mk("trunk_ir::context::BlockArgData", ty=eng.project(st, ad[i], ("f", 0, "ty")), attrs=("map", mp))
            h.set("Block", e, "args", ("seq", tuple(ad)))
        for k, x in (mattrs or {}).items():
            put(h, m, k, x)
        for n, t in aliases:
            call1(eng, st, ALIAS, [h.ref, S(n), t])
        M = ("adt", MOD, "Module", (m,), tuple(x[0] for x in P.adts[MOD]["vars"][0][2]))
        return [h.ref, M]
    rs, e = ctx.run(path, setup=setup, max_depth=60, max_rec=16, max_visits=400, max_steps=3000000, registry=True)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        if r.end != "ret":
            x = ("bad", f"{key}: stops: {r.end}") if not r.conds else ("unk", str(r.end))
        elif r.ret[0] != "adt" or r.ret[2] not in ("Ok", "Err"):
            x = ("unk", "result")
        elif (r.ret[2] == "Ok") != want:
            x = ("bad", f"{key}: the module is {'refused' if want else 'accepted'}")
        out.append((r, x))
    ctx.verdicts(key, out, path)


def check(ctx):
    from .a32_shapes import cases
    ctx.rule("accepted exactly if every operation is the target's and every type, attribute and symbol in it is legal there")
    ctx.parallel([lambda c=c: ask(ctx, *c[0], **c[1]) for c in cases()])

"""A04: dead-code elimination removes only effect-free operations whose results are unused."""
from .lowering import *

LEVEL = "other"
EXPLANATION = ("Path-sensitive dataflow over the dead-code eliminator: on every path that removes an op X the facts known about "
               "X are collected and must include 'X is effect-free' and 'no result of X has a use'.  The effect-free table "
               "is evaluated from its link-time registrations and compared with the op kinds that have effects.")
ASSUMPTIONS = ["the list of effectful operation kinds below is the specification; an op kind not listed is not judged"]

EFFECT = """
func.func func.call func.call_indirect func.tail_call func.tail_call_indirect func.return func.unreachable
adt.struct_set adt.array_set mem.store
cf.br cf.cond_br cf.switch
scf.if scf.switch scf.case scf.default scf.yield scf.loop scf.continue scf.break
core.module
ability.perform ability.legacy_perform ability.handle_dispatch ability.legacy_handle_dispatch ability.done ability.suspend
ability.yield ability.resume ability.call ability.legacy_call ability.handler_table ability.handler_entry
effect.fresh_prompt_tag effect.dispatch_tail effect.dispatch_cps
tribute_rt.retain tribute_rt.release
tribute_control.func tribute_control.call tribute_control.call_indirect tribute_control.return tribute_control.perform
tribute_control.handle tribute_control.handler tribute_control.resume tribute_control.yield
closure.call closure.legacy_call
clif.func clif.call clif.call_indirect clif.return clif.return_call clif.return_call_indirect clif.store clif.jump clif.brif
clif.br_table clif.trap
wasm.func wasm.call wasm.call_indirect wasm.call_ref wasm.return wasm.return_call wasm.return_call_indirect wasm.unreachable
wasm.br wasm.br_if wasm.if wasm.block wasm.loop wasm.yield wasm.drop wasm.local_set wasm.local_tee wasm.global_set
wasm.struct_set wasm.array_set wasm.array_copy wasm.i32_store wasm.i64_store wasm.f32_store wasm.f64_store wasm.i32_store8
wasm.i32_store16 wasm.i64_store8 wasm.i64_store16 wasm.i64_store32 wasm.memory_grow wasm.memory wasm.data wasm.table
wasm.elem wasm.global wasm.export_func wasm.export_memory wasm.import_func
""".split()
ROOT = "trunk_ir::transforms::dce::eliminate_dead_code"
REMOVERS = r"IrContext::(remove_op|remove_op_from_block|detach_op)$|::erase_op$"
REMOVE = re.compile(r"(remove_op|remove_op_from_block|detach_op|erase_op)$")


def removals(r):
    out = []
    for e in r.events:
        if e[0] == "call" and REMOVE.search(e[1]):
            out.append((e[1].split("::")[-1], e[2][-1], e))
    return out


def no_uses(r, v):
    """Does the path know that value v has no uses?  True / False (knows it has) / None."""
    for c in r.conds:
        if c[0] == "b" and c[1][0] == "t" and mentions(c[1], lambda t: t == v):
            x, pol = c[1], c[2]
            while x[0] == "t" and x[1] == "not":
                x, pol = x[2], not pol
            if x[1] == "is_empty" and mentions(x, lambda t: t == S("uses")):
                return pol
            if x[1] == "has_uses":
                return not pol
        if c[0] in ("eq", "ne") and c[1][0] == "t" and c[1][1] == "len" and mentions(c[1], lambda t: t == v) and \
                c[2] == C(0):
            return c[0] == "eq"
    return None


def check(ctx):
    ctx.rule("no op kind with effects is registered as effect-free")
    pure = {}
    for v, f in ctx.inventory("::PureOpRegistration"):
        d = dict(zip(v[4], v[3]))
        if d["dialect"][0] == "s" and d["op_name"][0] == "s":
            pure[f"{d['dialect'][1]}.{d['op_name'][1]}"] = f
    if len(pure) < 20:
        ctx.bad("registry", "the effect-free registrations were not found", "crates/trunk-ir/src/op_interface.rs")
    for k in EFFECT:
        if k in pure:
            ctx.bad(k, f"{k} has effects but is registered as effect-free, so it is deleted when its result is unused",
                    pure[k].span)
        else:
            ctx.ok(k)
    ctx.rule("every path that removes X knows X's kind to be registered effect-free and every result of X to have no uses")
    if ROOT not in ctx.P.fns:
        ctx.bad("root", "dead-code elimination entry point not found", ROOT)
        return
    rs, e = ctx.run(ROOT, opaque=[REMOVERS], registry=False)
    if rs is None:
        ctx.unk("root", e.failed)
        return
    xs = {x for r in rs for _, x, _ in removals(r)}
    if not xs:
        ctx.unk("root", "no removal found")
    for i, x in enumerate(sorted(xs, key=repr)):
        kinds = EFFECT if ctx.tier != "quick" else EFFECT[:60:3] + ["func.call", "adt.struct_set", "mem.store", "scf.if",
                                                                     "func.return", "tribute_rt.release"]
        for k in sorted(set(kinds)) + ["arith.no_such_op", "no_such_dialect.addi"]:
            for nres in (0, 1):
                def setup(eng, st, args):
                    d, n = k.split(".", 1)
                    eng.seeds[T("op.dialect", x)], eng.seeds[T("op.name", x)] = S(d), S(n)
                    eng.shapes[("results", x)] = nres
                rs, e = ctx.run(ROOT, setup=setup, opaque=[REMOVERS], registry=True)
                key = f"keeps {k}/{nres} results"
                if rs is None:
                    ctx.unk(key, e.failed)
                elif any(y == x for r in rs for _, y, _ in removals(r)):
                    ctx.bad(key, f"an op of kind {k}, which is not effect-free, can be removed by dead-code elimination",
                            ctx.where(ROOT))
                else:
                    ctx.ok(key)
        for nres in (1, 2, 3):
            def setup(eng, st, args):
                eng.seeds[T("op.dialect", x)], eng.seeds[T("op.name", x)] = S("arith"), S("addi")
                eng.shapes[("results", x)] = nres
            rs, e = ctx.run(ROOT, setup=setup, opaque=[REMOVERS], registry=True)
            key = f"unused results/{nres}"
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            for r in rs:
                for nm, y, ev in removals(r):
                    if y != x:
                        continue
                    for j in range(nres):
                        u = no_uses(r, ("res", x, j))
                        ctx.decide(key, u is True, f"an op is removed ({nm}) although result {j} of {nres} is "
                                   f"{'still used' if u is False else 'not known to be unused'}", ev[3] if len(ev) > 3 else "")

"""A05: removing unreachable functions never removes one that can be reached."""
from .lowering import *
from engine.irshape import *

LEVEL = "other"
EXPLANATION = ("Dataflow over the whole function-removal pass, specialised on the shape of a module (which functions and "
               "references exist); names are only ever compared for equality, so distinct placeholders stand for every "
               "choice of names.  No path may remove a function that an entry point reaches.")
ASSUMPTIONS = ["references are func.call / func.tail_call callees, func.constant function references and wasm.export_func "
               "exports, the reference forms present when the pass runs"]
ROOT = "trunk_ir::transforms::global_dce::eliminate_dead_functions_with_config"
REMOVE = re.compile(r"(remove_op|remove_op_from_block|detach_op|erase_op)$")
OPAQUE = [r"IrContext::(remove_op|remove_op_from_block|detach_op)$|::erase_op$"]
REFS = [("func.call", "callee"), ("func.tail_call", "callee"), ("func.constant", "func_ref")]


class B:
    """One module shape."""

    def __init__(self, eng):
        self.sh = Shape(eng)
        self.n = 0
        self.protect = []

    def sym(self, tag):
        return S(tag.lstrip("="))

    def ref(self, kind, attr, target):
        self.n += 1
        return self.sh.op(f"ref{self.n}", kind, attrs={attr: A("Symbol", self.sym(target) if isinstance(target, str) else target)},
                          results=None, operands=None)

    def wrap(self, ops):
        """an op of unknown kind with a region holding ops"""
        self.n += 1
        i = self.n
        r = self.sh.region(f"w{i}", [self.sh.block(f"w{i}", ops)])
        return self.sh.op(f"wrap{i}", "scf.if", regions=[r], results=None, operands=None)

    def func(self, tag, blocks, abi=False, keep=True):
        i = tag.lstrip("=")
        bl = [self.sh.block(f"{i}_{j}", ops) for j, ops in enumerate(blocks)]
        r = self.sh.region(i, bl)
        at = {"sym_name": A("Symbol", self.sym(tag))}
        if abi:
            at["abi"] = T("abi_attr")
        f = self.sh.op(i, "func.func", attrs=at, regions=[r], absent=() if abi else ("abi",), results=(), operands=())
        if keep:
            self.protect.append((f, i))
        return f


def scenarios():
    out = []

    def sc(name, rec=1, extra=()):
        def deco(f):
            out.append((name, rec, extra, f))
            return f
        return deco

    for root in ("=main", "=_start"):
        sc(f"entry {root[1:]}")(lambda b, root=root: [b.func(root, [[]])])
        sc(f"entry {root[1:]} in nested module")(lambda b, root=root: [b.sh.module("N", [b.func(root, [[]])], "inner")])
    sc("declared abi")(lambda b: [b.func("ext", [[]], abi=True)])
    sc("declared abi in nested module")(lambda b: [b.sh.module("N", [b.func("ext", [[]], abi=True)], "inner")])
    sc("extra entry point", extra=("ep",))(lambda b: [b.func("=ep", [[]])])
    sc("extra entry point, second of two", extra=("other", "ep"))(lambda b: [b.func("=ep", [[]])])
    sc("extra entry point by base name", extra=("ep",))(lambda b: [b.sh.module("N", [b.func("=ep", [[]])], "inner")])
    sc("extra entry point by base name, two levels", extra=("x", "ep"))(
        lambda b: [b.sh.module("N", [b.sh.module("O", [b.func("=ep", [[b.ref("func.call", "callee", "g")]])], "deep")], "inner"), b.func("g", [[]])])
    sc("extra entry point by qualified name", extra=("inner::ep",))(lambda b: [b.sh.module("N", [b.func("=ep", [[]])], "inner")])
    sc("exported to wasm")(lambda b: [b.func("g", [[]]), b.ref("wasm.export_func", "func", "g")])
    sc("exported to wasm before its definition")(lambda b: [b.ref("wasm.export_func", "func", "g"), b.func("g", [[]])])
    for k, a in REFS:
        sc(f"{k} from an entry point")(lambda b, k=k, a=a: [b.func("=main", [[b.ref(k, a, "g")]]), b.func("g", [[]])])
        sc(f"{k} to an earlier function")(lambda b, k=k, a=a: [b.func("g", [[]]), b.func("=main", [[b.ref(k, a, "g")]])])
        sc(f"{k} in a nested region")(lambda b, k=k, a=a: [b.func("=main", [[b.wrap([b.wrap([b.ref(k, a, "g")])])]]), b.func("g", [[]])])
        sc(f"{k} in a later block")(lambda b, k=k, a=a: [b.func("=main", [[], [b.ref(k, a, "g")]]), b.func("g", [[]])])
        sc(f"{k} after another reference")(lambda b, k=k, a=a: [b.func("=main", [[b.ref("func.call", "callee", "h"), b.ref(k, a, "g")]]),
                                                            b.func("g", [[]]), b.func("h", [[]])])
        sc(f"{k} through a chain")(lambda b, k=k, a=a: [b.func("h", [[]]), b.func("g", [[b.ref(k, a, "h")]]),
                                                       b.func("=main", [[b.ref(k, a, "g")]])])
        sc(f"{k} through a cycle")(lambda b, k=k, a=a: [b.func("g", [[b.ref(k, a, "h")]]), b.func("h", [[b.ref(k, a, "g"), b.ref(k, a, "i")]]),
                                                       b.func("i", [[]]), b.func("=main", [[b.ref(k, a, "h")]])])
        sc(f"{k} into a nested module")(lambda b, k=k, a=a: [b.sh.module("N", [b.func("=g", [[]])], "inner"),
                                                           b.func("=main", [[b.ref(k, a, "=inner::g")]])])
        sc(f"{k} from a nested entry point")(lambda b, k=k, a=a: [b.func("g", [[]]), b.sh.module("N", [b.func("=main", [[b.ref(k, a, "g")]])], "inner")])
        sc(f"{k} from a kept nested module", rec=0)(lambda b, k=k, a=a: [b.func("g", [[]]),
                                                                       b.sh.module("N", [b.func("f", [[b.ref(k, a, "g")]])], "inner")])
    sc("reachable from an exported function")(lambda b: [b.func("g", [[b.ref("func.call", "callee", "h")]]), b.func("h", [[]]),
                                                        b.ref("wasm.export_func", "func", "g")])
    sc("reachable from a declared-abi function")(lambda b: [b.func("e", [[b.ref("func.call", "callee", "h")]], abi=True), b.func("h", [[]])])
    sc("two nested levels")(lambda b: [b.sh.module("N", [b.sh.module("O", [b.func("=g", [[]])], "deep")], "inner"),
                                       b.func("=main", [[b.ref("func.call", "callee", "=inner::deep::g")]])])
    sc("unreached module-level op of unknown kind is kept", rec=1)(lambda b: [keep_op(b)])
    return out


def keep_op(b):
    o = b.sh.op("other", "wasm.memory", results=None, operands=None, regions=[])
    b.protect.append((o, "an op that is not a function"))
    return o


def check(ctx):
    ctx.rule("in each module shape, no path removes a function reachable from an entry point, an export, a declared ABI or a "
             "requested entry point, nor an op that is not a function")
    if ROOT not in ctx.P.fns:
        ctx.bad("root", "function-removal entry point not found", ROOT)
        return
    for name, rec, extra, build in scenarios():
        hold = {}

        def setup(eng, st, args):
            b = B(eng)
            m = b.sh.module("M", build(b))
            hold["p"] = b.protect
            eng.seeds[T("field", T("arg:module"), S("0"))] = m
            eng.seeds[T("field", T("arg:config"), S("recursive"))] = C(rec)
            eng.seeds[T("field", T("arg:config"), S("extra_entry_points"))] = ("seq", tuple(S(x) for x in extra))
        rs, e = ctx.run(ROOT, setup=setup, opaque=OPAQUE, max_rec=4, max_depth=24)
        if rs is None:
            ctx.unk(name, e.failed)
            continue
        if not rs:
            ctx.unk(name, "no path")
        for op, tag in hold["p"]:
            bad = None
            for r in rs:
                for ev in r.events:
                    if ev[0] == "call" and REMOVE.search(ev[1]) and op in ev[2]:
                        bad = (r, ev)
            if bad:
                ctx.bad(f"{name}: {tag}", f"a reachable function ({tag}) is removed: {name}; path: "
                        + "; ".join(brief(show_cond(c), 80) for c in bad[0].conds[:6]), bad[1][3] if len(bad[1]) > 3 else "")
            else:
                ctx.ok(f"{name}: {tag}")

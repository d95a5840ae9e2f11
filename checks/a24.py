"""A24: a pass manager runs the passes it is told to, in order, on the operations that are there."""
import itertools
from .a11 import functy
from .a13 import at
from .lowering import *
from engine.heap import *
from engine.irtrace import Layout, attr, ty
from engine.rules import *
from engine import absint
from engine.absint import T, C, S, UNIT, Budget
from engine.wasmfn import brief

LEVEL = "other"
EXPLANATION = ("The pass manager is analysed on trees of managers with passes, verifiers and observers whose behaviour is scripted, over modules "
               "with nested operations; the calls it makes and the result it gives are compared with what the manager promises.")
ASSUMPTIONS = ["passes act on the module only through the context they are given"]
PM = "trunk_ir::pass::PassManager::<Root>::"
MOD, FUNC, CONST = "trunk_ir::dialect::core::Module", "trunk_ir::dialect::func::Func", "trunk_ir::dialect::arith::Const"
NAME = {MOD: "core.module", FUNC: "func.func", CONST: "arith.const"}
CX = "trunk_ir::context::IrContext::"
OK = ("adt", "core::result::Result", "Ok", (UNIT,), ("0",))

TEXT = """
func.func {sym_name=@a}
  ^e
  c1:core.i32 = arith.const {value=1}
  func.return c1
func.func {sym_name=@b}
  ^e
  c2:core.i32 = arith.const {value=2}
  func.return c2
core.module {sym_name=@inner}
  ^e
  func.func {sym_name=@c}
    ^e
    c3:core.i32 = arith.const {value=3}
    func.return c3
func.func {sym_name=@d}
  ^e
  c4:core.i32 = arith.const {value=4}
  func.return c4
"""


class Mgr:
    """a manager: passes by name, hooks, nested managers"""

    def __init__(self, t, passes=(), ver=None, inst=None, nested=(), on="m"):
        self.on, self.t, self.passes, self.ver, self.inst, self.nested = on, t, passes, ver, inst, nested


class World:
    """the module as the meaning sees it: a tree of names"""

    def __init__(self):
        self.kids = {"m": ["a", "b", "inner", "d"], "inner": ["c"]}
        self.kind = {"m": MOD, "inner": MOD, "a": FUNC, "b": FUNC, "c": FUNC, "d": FUNC}
        for i, f in enumerate("abcd"):
            self.kids[f] = [f"c{i + 1}"]
            self.kind[f"c{i + 1}"] = CONST
        self.gone = set()

    def walk(self, r):
        yield r
        for k in list(self.kids.get(r, ())):
            yield from self.walk(k)

    def erase(self, x):
        for k in self.kids.values():
            if x in k:
                k.remove(x)
        self.gone.add(x)

    def add(self, x, parent):
        self.kids[parent].append(x)
        self.kids[x], self.kind[x] = [], FUNC


class Fail(Exception):
    pass


ISOLATED = (MOD, FUNC)


def meaning(m, script):
    w, ev = World(), []

    def run(m, x, ver, inst):
        for p in m.passes:
            ev.append(("run", p, x))
            act = script.get((p, x), ())
            for a in act:
                if a[0] == "fail":
                    raise Fail(p, "Execution")
                if a[0] == "erase":
                    w.erase(a[1])
                elif a[0] == "add":
                    w.add(a[1], a[2])
                elif a[0] == "retag":
                    w.kind[a[1]] = None
            if x in w.gone or w.kind[x] != m.t:
                return
            if inst:
                ev.append(("inst", inst, p, x))
            if ver:
                ev.append(("ver", ver, x))
                if ("ver", ver, p, x) in script:
                    raise Fail(p, "Verification")
        for n in m.nested:
            for y in [y for y in w.walk(x) if w.kind[y] == n.t]:
                if y in w.gone or w.kind[y] != n.t:
                    continue
                if n.t not in ISOLATED:
                    raise Fail(None, "Verification")
                run(n, y, n.ver or ver, n.inst or inst)
    try:
        run(m, m.on, m.ver, m.inst)
        return ev, None
    except Fail as f:
        return ev, f.args


def norm(ev, failed):
    """hooks of one pass come in either order; observers of a pass that a verifier rejects do not count"""
    out, cur = [], []
    for e in ev:
        if e[0] == "run":
            out += sorted(cur) + [e]
            cur = []
        else:
            cur.append(e)
    if failed and failed[1] == "Verification":
        cur = [e for e in cur if e[0] != "inst"]
    return out + sorted(cur)


def observe(ctx, key, m, script):
    hold = {}

    def opn(x):
        return hold["names"].get(x, str(x))

    def hook(eng, st, fv, a):
        if fv[0] == "ref":
            fv = eng.freeze(st, fv)
        while fv[0] == "adt" and fv[1].endswith("Box"):
            fv = fv[3][0]
        if fv[0] != "t" or fv[1] not in ("vp-pass", "vp-ver", "vp-inst"):
            return None
        n = fv[2][1]
        a = a[0][1] if len(a) == 1 and a[0][0] == "tup" else a
        h = hold["h"]
        op = a[-1]
        if op[0] == "adt":
            op = op[3][0]
        x = opn(op)
        if fv[1] == "vp-inst":
            st.event("pm", ("inst", n, a[1][1] if a[1][0] == "s" else str(a[1]), x))
            return UNIT
        if fv[1] == "vp-ver":
            st.event("pm", ("ver", n, x))
            last = next((e[1] for e in trace(st) if e[1][0] == "run"), None)
            if ("ver", n, last and last[1], x) in script:
                return ("adt", "core::result::Result", "Err", (("adt", "trunk_ir::pass::VerifyError", "VerifyError", (S("no"),), ("message",)),), ("0",))
            return OK
        st.event("pm", ("run", n, x))
        for act in script.get((n, x), ()):
            if act[0] == "fail":
                return ("adt", "core::result::Result", "Err", (T("vp-error"),), ("0",))
            if act[0] == "erase":
                o = hold["ops"][act[1]]
                call1(eng, st, CX + "detach_op", [h.ref, o])
                call1(eng, st, CX + "remove_op", [h.ref, o])
            elif act[0] == "retag":
                o = hold["ops"][act[1]]
                old, h.st = h.st, st
                h.set("Op", o, "name", S("other"))
                h.st = old
            elif act[0] == "add":
                call1(eng, st, CX + "push_op", [h.ref, hold["blocks"][act[2]], hold["ops"][act[1]]])
        return OK

    def trace(st):
        e = st.events
        while e:
            if e[0][0] == "pm":
                yield e[0]
            e = e[1]

    def manager(eng, st, m, r):
        """registers passes with the manager behind the reference r"""
        if m.ver:
            call1(eng, st, PM + "with_verifier", [r, T("vp-ver", S(m.ver))], (m.t, "F"))
        if m.inst:
            call1(eng, st, PM + "with_instrumentation", [r, T("vp-inst", S(m.inst))], (m.t, "F"))
        for p in m.passes:
            v = call1(eng, st, "trunk_ir::pass::pass_fn", [S(p), T("vp-pass", S(p))], (m.t, "F"))
            call1(eng, st, PM + "add_pass", [r, v], (m.t, f"trunk_ir::pass::FnPass<{m.t}, F>"))
        for n in m.nested:
            manager(eng, st, n, call1(eng, st, PM + "nest", [r], (m.t, n.t)))

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, TEXT)
        top = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        v = h.view(st)
        ops, blocks = {"m": top}, {}
        for t, o in lay.ops.items():
            at_ = dict(v.field("Op", o, "attributes")[1])
            if S("sym_name") in at_:
                ops[at_[S("sym_name")][3][0][1]] = o
            elif v.opname(o) == "arith.const":
                ops["c" + str(at_[S("value")][3][0][1])] = o
        for n in ("m", "inner"):
            blocks[n] = v.seq(v.field("Region", v.seq(v.field("Op", ops[n], "regions"))[0], "blocks"))[0]
        for n in ("new1", "new2"):
            ops[n] = h.op(n, "func.func", [], [], attrs={"sym_name": attr("@" + n)})
        hold.update(h=h, ops=ops, blocks=blocks, names={o: n for n, o in ops.items()})
        pm = call1(eng, st, PM + "new", [], (m.t,))
        r = eng.ref_to(st, pm)
        manager(eng, st, m, r)
        ad = eng.prog.adts[MOD]["vars"][0]
        return [r, h.ref, ("adt", MOD, ad[0], (ops[m.on],), tuple(f[0] for f in ad[2]))]
    rs, e = ctx.run(PM + "run", setup=setup, tenv={"Root": MOD}, max_depth=60, max_rec=12, max_visits=400, apply_hook=hook, registry=True)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    want, fail = meaning(m, script)
    out = []
    for r in rs:
        x = None
        if r.end != "ret":
            x = ("bad", f"{key}: the manager stops: {r.end}") if not r.conds else ("unk", str(r.end))
        else:
            got = norm([e[1] for e in r.events if e[0] == "pm"], fail)
            exp = norm(want, fail)
            if got != exp:
                k = next((i for i, (p, q) in enumerate(zip(got, exp)) if p != q), min(len(got), len(exp)))
                x = ("bad", f"{key}: after {k} calls does {say(got, k)} instead of {say(exp, k)}")
            else:
                x = result(key, r.ret, fail)
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(PM + "run"))


def say(l, k):
    return " ".join(map(str, l[k])) if k < len(l) else "nothing more"


def result(key, ret, fail):
    if ret[0] != "adt":
        return ("unk", "result " + brief(ret))
    if fail is None:
        return None if ret[2] == "Ok" else ("bad", f"{key}: gives an error although all passes succeed: {brief(ret)}")
    if ret[2] != "Err":
        return ("bad", f"{key}: succeeds although {fail[0] or 'a nested manager'} fails")
    er = ret[3][0]
    if er[0] != "adt":
        return ("unk", "error " + brief(er))
    name, kind = er[3][er[4].index("pass_name")], er[3][er[4].index("kind")]
    if fail[0] is not None and name != S(fail[0]):
        return ("bad", f"{key}: blames {brief(name)} instead of {fail[0]}") if name[0] == "s" else ("unk", "name " + brief(name))
    if kind[0] != "adt" or kind[2] != fail[1]:
        return ("bad", f"{key}: reports {brief(kind)} instead of {fail[1]}") if kind[0] == "adt" else ("unk", "kind " + brief(kind))
    return None


M1 = lambda **k: Mgr(MOD, ("p", "q"), **k)
F1 = lambda **k: Mgr(FUNC, ("x", "y"), **k)


def cases(tier):
    hooked = dict(ver="v", inst="i")
    yield "passes of one manager", M1(), {}
    yield "no passes", Mgr(MOD), {}
    yield "passes with hooks", M1(**hooked), {}
    for p in "pq":
        yield f"{p} fails", M1(nested=(F1(),), **hooked), {(p, "m"): [("fail",)]}
        yield f"the verifier rejects {p}", M1(nested=(F1(),), **hooked), {("ver", "v", p, "m"): 1}
    yield "functions", M1(nested=(F1(),)), {}
    yield "functions with inherited hooks", M1(nested=(F1(),), **hooked), {}
    yield "functions with their own verifier", M1(nested=(F1(ver="w"),), **hooked), {}
    yield "functions with their own observer", M1(nested=(F1(inst="j"),), **hooked), {}
    yield "functions with hooks below a manager without", M1(nested=(F1(ver="w", inst="j"),)), {}
    yield "siblings with and without hooks", M1(nested=(F1(ver="w"), Mgr(FUNC, ("z",)), Mgr(FUNC, ("u",), inst="j")), ver="v"), {}
    yield "two levels", Mgr(MOD, ("p",), nested=(Mgr(FUNC, ("x",), nested=(Mgr(CONST, ("k",)),)),)), {}
    for p in "xy":
        for f in "abcd":
            yield f"{p} fails on {f}", M1(nested=(F1(), Mgr(FUNC, ("z",))), **hooked), {(p, f): [("fail",)]}
            yield f"the verifier rejects {p} on {f}", M1(nested=(F1(),), **hooked), {("ver", "v", p, f): 1}
            yield f"the own verifier rejects {p} on {f}", M1(nested=(F1(ver="w"),), **hooked), {("ver", "w", p, f): 1, ("ver", "v", p, f): 1}
            for g in "abcd":
                yield f"{p} on {f} erases {g}", M1(nested=(F1(), Mgr(FUNC, ("z",))), **hooked), {(p, f): [("erase", g)]}
            yield f"{p} makes {f} something else", M1(nested=(F1(), Mgr(FUNC, ("z",))), **hooked), {(p, f): [("retag", f)]}
            yield f"{p} on {f} adds a function", M1(nested=(Mgr(FUNC, (p,)), Mgr(FUNC, ("z",))), **hooked), {(p, f): [("add", "new1", "m")]}
    for p in "pq":
        for g in "abcd":
            yield f"{p} erases {g}", M1(nested=(F1(),), **hooked), {(p, "m"): [("erase", g)]}
        yield f"{p} adds functions", M1(nested=(F1(),), **hooked), {(p, "m"): [("add", "new1", "m"), ("add", "new2", "inner")]}
    for p in "pq":
        for act in ("erase", "retag"):
            yield f"{p} does {act} on its own module", M1(nested=(F1(),), on="inner", **hooked), {(p, "inner"): [(act, "inner")]}
        yield f"{p} fails on an inner module", M1(nested=(F1(),), on="inner", **hooked), {(p, "inner"): [("fail",)]}
    yield "an inner module", M1(nested=(F1(), F1(ver="w")), on="inner", **hooked), {}
    yield "x erases all functions", M1(nested=(F1(), Mgr(FUNC, ("z",)))), {("x", "a"): [("erase", g) for g in "abcd"]}
    yield "erasing on the way", M1(nested=(F1(), Mgr(FUNC, ("z",)))), {("x", "a"): [("erase", "b")], ("y", "c"): [("erase", "c")], ("z", "a"): [("erase", "d")]}


def check(ctx):
    ctx.rule("passes run in the order of registration, own passes before nested managers, all passes of a nested manager on one operation after "
             "the other in program order; verifier and observer run after every pass, those of the nearest manager; the run stops at the first "
             "failure and names the pass; erased operations get no more passes")
    ctx.parallel([lambda c=c: observe(ctx, *c) for c in cases(ctx.tier)])

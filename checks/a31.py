"""A31: calling conventions reach the target unchanged, and the program starts in its main function."""
from .a11 import put, functy
from .a13 import at, struct
from .a21 import at_of
from .a27 import clo, CC, IDX, SIG
from .a29 import runtime, width
from .lowering import *
from engine.heap import *
from engine import irtrace, absint
from engine.irtrace import Layout, attr, ty, NAMED, Meaning, Stop, Unclear, Bad
from engine.rules import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The passes that fix the physical signatures of continuation-passing functions, build the bridge from the exported main function to "
               "its continuation-passing worker and generate the native entry point are analysed on abstract modules; every type, attribute and "
               "operation afterwards is compared with the expected one, the generated functions are executed abstractly, and modules whose "
               "conventions do not fit are checked to be refused unchanged.")
ASSUMPTIONS = ["the passes change operations in place; a replaced operation is reported as undecided"]
PHYS = "tribute_passes::target_abi::lower_cps_signatures_to_physical"
HAS = "tribute_passes::target_abi::has_root_entry_contract"
ROOT = "tribute_passes::target_abi::compose_root_entry_bridge"
ENTRY = "tribute_passes::native::entrypoint::generate_native_entrypoint"
EVT = "tribute_ir::dialect::ability::evidence_adt_type_ref"
MOD = "trunk_ir::rewrite::Module"
ALIAS, ALIAS_OF = "trunk_ir::context::IrContext::register_type_alias", "trunk_ir::context::IrContext::type_alias_by_name"
NEVER, NIL, ANY, I = ty("core.never"), ty("core.nil"), ty("tribute_rt.anyref"), ty("core.i32")
EXPORT, RESULT = "tribute.root_export_convention", "tribute.root_source_result"
DIRECT, EVIDENCE, CPS = 0, 1, 2


class Refused(Exception):
    pass


# ---- the physical form of types ------------------------------------------------------------------------------------------------
def dn(t):
    return (t[1][1], t[2][1]) if t[0] == "ty" else (None, None)


def tattr(t, k):
    for a, x in t[4][1]:
        if a == S(k):
            return x[3][0]
    return None


def pattr(a):
    if a[0] == "adt" and a[2] == "Type":
        return a[:3] + ((phys(a[3][0]),),) + a[4:]
    if a[0] == "adt" and a[2] == "List":
        return a[:3] + ((("seq", tuple(pattr(x) for x in a[3][0][1])),),) + a[4:]
    return a


def pmap(t, params):
    return t[:3] + (("seq", tuple(params)), ("map", tuple((k, pattr(x)) for k, x in t[4][1])))


def callable_(t, conv):
    ps = t[3][1]
    return pmap(t, ((NIL,) if conv == CPS else (phys(ps[0]),)) + tuple(phys(x) for x in ps[1:]))


def phys(t):
    if t[0] != "ty":
        return t
    if dn(t) == ("closure", "closure"):
        return pmap(t, (callable_(t[3][1][0], tattr(t, CC)[1]),))
    return pmap(t, tuple(phys(x) for x in t[3][1]))


# ---- modules as trees ----------------------------------------------------------------------------------------------------------
def amap(v, o):
    a = v.field("Op", o, "attributes")
    if a is None or a[0] != "map":
        raise Unclear("attributes")
    return {k[1]: x for k, x in a[1]}


def args_of(v, b):
    out = []
    for a in v.seq(v.field("Block", b, "args")):
        out.append((v.eng.project(v.st, a, ("f", 0, "ty")), v.eng.project(v.st, a, ("f", 0, "attrs"))))
    return tuple(out)


def tree(v, o):
    rs = []
    for r in v.seq(v.field("Op", o, "regions")):
        rs.append(tuple((b, args_of(v, b), tuple(tree(v, q) for q in v.ops(b))) for b in v.seq(v.field("Region", r, "blocks"))))
    return {"op": o, "name": v.opname(o), "operands": tuple(v.operands(o)), "types": tuple(v.seq(v.field("Op", o, "results"))),
            "attrs": amap(v, o), "regions": tuple(rs), "succ": tuple(v.seq(v.field("Op", o, "successors")) or ())}


def expected(t, syms=None, scope=None, convs=None):
    """what the signature pass makes of a tree"""
    a = dict(t["attrs"])
    c = a.get(CC)
    conv = c[3][0][1] if c is not None else None
    scope = t if t["name"] == "core.module" else scope
    new = {}
    for k, x in a.items():
        if k == "type" and t["name"] == "func.func" and conv is not None:
            new[k] = x[:3] + ((callable_(x[3][0], conv),),) + x[4:]
        elif k == SIG and conv is not None:
            new[k] = x[:3] + ((callable_(x[3][0], conv),),) + x[4:]
        else:
            new[k] = pattr(x)
    types = tuple(phys(x) for x in t["types"])
    if t["name"] == "func.constant" and scope is not None:
        for q in top(scope):
            if q["name"] == "func.func" and q["attrs"]["sym_name"] == a["func_ref"] and CC in q["attrs"]:
                types = (callable_(t["types"][0], q["attrs"][CC][3][0][1]),)
    if t["name"] == "func.func" and conv is not None and IDX not in a and t["regions"]:
        for i, (_, at_) in enumerate(t["regions"][0][0][1]):
            if at_[0] == "map" and (S("bind_name"), attr("@__env")) in at_[1]:
                new[IDX] = attr(i)
    rs = tuple(tuple((b, tuple((phys(x), y) for x, y in args), tuple(expected(q, syms, scope) for q in ops)) for b, args, ops in r) for r in t["regions"])
    return dict(t, attrs=new, types=types, regions=rs)


def top(m):
    """operations of a module that are not in nested modules"""
    out = []

    def walk(t):
        for r in t["regions"]:
            for _, _, ops in r:
                for q in ops:
                    out.append(q)
                    if q["name"] != "core.module":
                        walk(q)
    walk(m)
    return out


def where(t):
    n = t["attrs"].get("sym_name")
    return t["name"] + (f" {n[3][0][1]}" if n is not None else "")


def same(want, got, at_=""):
    """-> raises Bad at the first difference"""
    if want["op"] != got["op"]:
        raise Unclear("an operation is replaced")
    w = at_ + where(want)
    if want["name"] != got["name"] or want["operands"] != got["operands"] or want["succ"] != got["succ"]:
        raise Bad(f"{w}: the operation changes")
    if want["types"] != got["types"]:
        raise Bad(f"{w}: the result type is {', '.join(show(x) for x in got['types'])} instead of {', '.join(show(x) for x in want['types'])}")
    for k in sorted(set(want["attrs"]) | set(got["attrs"])):
        a, b = want["attrs"].get(k), got["attrs"].get(k)
        if a != b:
            raise Bad(f"{w}: {k} is {showa(b)} instead of {showa(a)}")
    if len(want["regions"]) != len(got["regions"]):
        raise Bad(f"{w}: regions")
    for r, s in zip(want["regions"], got["regions"]):
        if [x[0] for x in r] != [x[0] for x in s]:
            raise Bad(f"{w}: blocks")
        for (_, a1, o1), (_, a2, o2) in zip(r, s):
            for i, (x, y) in enumerate(zip(a1, a2)):
                if x[0] != y[0]:
                    raise Bad(f"{w}: argument {i} of a block has the type {show(y[0])} instead of {show(x[0])}")
            if len(a1) != len(a2):
                raise Bad(f"{w}: arguments of a block")
            if len(o1) != len(o2):
                raise Bad(f"{w}: {len(o2)} operations instead of {len(o1)}")
            for p, q in zip(o1, o2):
                same(p, q, w + " / ")


def show(t):
    if t is None or t[0] != "ty":
        return str(t)[:60]
    ps = ", ".join(show(x) for x in t[3][1])
    n = tattr(t, "name")
    c = tattr(t, CC)
    return f"{t[1][1]}.{t[2][1]}" + (f"({ps})" if ps else "") + (f"[{n[1]}]" if n is not None else "") + (f"[{c[1]}]" if c is not None and c[0] == "c" else "")


def showa(a):
    if a is None:
        return "absent"
    if a[0] == "adt" and a[2] == "Type":
        return show(a[3][0])
    return str(a[3][0][1] if a[0] == "adt" and a[3] and a[3][0][0] in ("s", "c") else a)[:160]


# ---- cases ---------------------------------------------------------------------------------------------------------------------
def module(eng, st, h, text, sigs, attrs):
    lay = Layout(h, text)
    v = h.view(st)
    names = {e: n for n, e in lay.env.items()}
    for tag in [e[2] for e in v.all("Block")]:
        b = ("ent", "Block", tag)
        ad = []
        for i, a in enumerate(v.seq(v.field("Block", b, "args"))):
            nm = names.get(("ent", "Value", f"{tag}.a{i}"), "")
            m = ((S("bind_name"), attr("@__env")),) if nm.startswith("__env") else ()
            ad.append(h.mk("trunk_ir::context::BlockArgData", ty=eng.project(st, a, ("f", 0, "ty")), attrs=("map", m)))
        h.set("Block", b, "args", ("seq", tuple(ad)))
    v = h.view(st)
    for t, o in lay.ops.items():
        if v.opname(o) == "func.func" and "type" not in amap(v, o):
            n = at_of(v, o, "sym_name")[1]
            s = (sigs or {}).get(t, (sigs or {}).get(n, "core.never"))
            s = s.split()
            ps = [ty(x) for x in s[1:]]
            rs = v.seq(v.field("Op", o, "regions"))
            if rs:
                ps = [x for x, _ in args_of(v, v.seq(v.field("Region", rs[0], "blocks"))[0])]
            put(h, o, "type", at("Type", functy(ps, ty(s[0]))))
        for kk, x in (attrs or {}).get(t, {}).items():
            put(h, o, kk, x)
    return h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})


def run(ctx, path, text, sigs, attrs, hold, extra=(), first=(), aliases=()):
    P = ctx.P

    def setup(eng, st, a):
        h = Heap(eng, st)
        ev = call1(eng, st, EVT, [h.ref])
        NAMED["EVI"] = ev
        m = module(eng, st, h, text() if callable(text) else text, sigs, attrs() if callable(attrs) else attrs)
        M = ("adt", MOD, "Module", (m,), tuple(x[0] for x in P.adts[MOD]["vars"][0][2]))
        hold.update(m=m, h=h, ev=ev)
        for n in aliases:
            call1(eng, st, ALIAS, [h.ref, S(n), NAMED[n]])
        for p in first:
            r = call1(eng, st, p, [h.ref, M])
            if r[0] == "adt" and r[2] == "Err":
                raise absint.Definite(f"{p.split('::')[-1]} refuses the module")
        hold["before"] = tree(h.view(st), m)
        return [h.ref, M] + list(extra)
    return ctx.run(path, setup=setup, max_depth=60, max_rec=16, max_visits=400, max_steps=4000000, registry=True)


def judge(ctx, key, path, rs, e, hold, ok, refuse):
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            after = View2(hold, r)
            if refuse == "panic":
                x = None if r.end != "ret" and ("panic" in str(r.end) or r.end == "diverge") else ("bad", f"{key}: accepted") if r.end == "ret" else ("unk", str(r.end))
            elif r.end != "ret":
                x = ("bad", f"{key}: stops: {r.end}") if not r.conds else ("unk", str(r.end))
            else:
                err = r.ret[0] == "adt" and r.ret[2] == "Err"
                if r.ret[0] != "adt" and path != ENTRY:
                    raise Unclear("result")
                if refuse and not err:
                    raise Bad(refuse if isinstance(refuse, str) else "the module is accepted")
                if not refuse and err:
                    raise Bad("the module is refused")
                if refuse:
                    same(hold["before"], tree(after, hold["m"]))
                    named(hold, after, lambda t: t)
                else:
                    ok(ctx, hold, after)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except Unclear as u:
            x = ("unk", str(u))
        out.append((r, x))
    ctx.verdicts(key, out, path)


def View2(hold, r):
    return hold["h"].view(r.st)


def case(ctx, key, path, text, ok=None, refuse=None, sigs=None, attrs=None, extra=(), first=(), aliases=()):
    hold = {"aliases": aliases}
    rs, e = run(ctx, path, text, sigs, attrs, hold, extra, first, aliases)
    judge(ctx, key, path, rs, e, hold, ok, refuse)


def named(hold, v, f):
    for n in hold["aliases"]:
        t = call1(v.eng, v.st, ALIAS_OF, [hold["h"].ref, S(n)])
        if t[0] != "adt":
            raise Unclear("the type of a name")
        if t[2] != "Some" or t[3][0] != f(NAMED[n]):
            raise Bad(f"the name {n} stands for {show(t[3][0]) if t[3] else 'nothing'} instead of {show(f(NAMED[n]))}")


def ok_phys(ctx, hold, v):
    same(expected(hold["before"]), tree(v, hold["m"]))
    named(hold, v, phys)


def ok_same(ctx, hold, v):
    same(hold["before"], tree(v, hold["m"]))


# ---- generated functions --------------------------------------------------------------------------------------------------------
def renamed(before, after, old, nested):
    """The functions there were are what they were, with references to `old` renamed. -> new name, new functions"""
    def body(t):
        (b, _, ops), = t["regions"][0]
        return {q["op"]: q for q in ops}
    bt, at_ = body(before), body(after)
    new = None
    for o, q in bt.items():
        if o not in at_:
            raise Unclear(f"{where(q)} is replaced")
        if q["name"] == "func.func" and q["attrs"]["sym_name"] == attr("@" + old):
            new = at_[o]["attrs"]["sym_name"][3][0][1]
    if new is None or new == old:
        raise Bad(f"{old} is not renamed")

    def sub(t, deep):
        a = dict(t["attrs"])
        for k in ("callee", "func_ref"):
            if a.get(k) == attr("@" + old):
                a[k] = attr("@" + new)
        rs = t["regions"]
        if deep and (t["name"] != "core.module" or nested):
            rs = tuple(tuple((b, x, tuple(sub(q, True) for q in ops)) for b, x, ops in r) for r in rs)
        return dict(t, attrs=a, regions=rs)
    for o, q in bt.items():
        w = sub(q, True)
        g = at_[o]
        if q["name"] == "func.func" and q["attrs"]["sym_name"] == attr("@" + old):
            drop = (EXPORT, RESULT)
            w = dict(w, attrs={k: x for k, x in w["attrs"].items() if k not in drop} | {"sym_name": attr("@" + new)})
        same(w, g)
    fresh = {}
    for o, q in at_.items():
        if o not in bt:
            if q["name"] != "func.func":
                raise Unclear(f"{q['name']} is added")
            n = q["attrs"]["sym_name"][3][0][1]
            if n in fresh:
                raise Bad(f"{n} is defined twice")
            fresh[n] = q
    for o, q in bt.items():
        n = at_[o]["attrs"].get("sym_name")
        if n is not None and n[3][0][1] in fresh:
            raise Bad(f"{n[3][0][1]} is defined twice")
    return new, fresh


def sig(t):
    x = t["attrs"]["type"][3][0]
    return x[3][1]


class Root(Meaning):
    """objects with fields; calls are events"""

    def __init__(self, v):
        super().__init__(v, maxsteps=200)
        X = Root
        self.special = {"adt.struct_new": X.snew, "adt.struct_set": X.sset, "adt.struct_get": X.sget, "adt.ref_cast": X.cast,
                        "core.unrealized_conversion_cast": X.keep, "func.constant": X.fn, "adt.array_new": X.array, "func.call": X.call,
                        "arith.const": X.const, "func.return": X.ret}

    def go(self, f, args):
        self.trace, self.steps, self.depth, self.objs = [], 0, 0, []
        self.oracle = self.no
        end = self.func(f, args)
        return end

    def no(self, k, o):
        raise Unclear("a branch")

    def vty(self, x):
        d = self.v.field("Value", x, "def")
        i = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[i]
        return args_of(self.v, d[3][0])[i][0]

    def out(self, o, env, x):
        rs = self.v.results(o)
        if rs:
            env[rs[0]] = ("nil",) if self.vty(rs[0]) == NIL else x

    def snew(self, o, a, env, regs):
        self.objs.append([at_of(self.v, o, "type"), list(a)])
        self.out(o, env, ("obj", len(self.objs) - 1))

    def ob(self, x, t):
        if x[0] != "obj":
            raise Bad(f"{x[0]} is used as an object")
        p = self.objs[x[1]]
        if p[0] != t:
            raise Bad(f"an object of type {show(p[0])} is used as {show(t)}")
        return p[1]

    def sset(self, o, a, env, regs):
        fs, i = self.ob(a[0], at_of(self.v, o, "type")), at_of(self.v, o, "field")[1]
        if fs[i] == ("nil",) != a[1]:
            raise Bad(f"{a[1][0]} is stored where nothing belongs")
        fs[i] = a[1]

    def sget(self, o, a, env, regs):
        self.out(o, env, self.ob(a[0], at_of(self.v, o, "type"))[at_of(self.v, o, "field")[1]])

    def cast(self, o, a, env, regs):
        self.ob(a[0], at_of(self.v, o, "type"))
        self.out(o, env, a[0])

    def keep(self, o, a, env, regs):
        self.out(o, env, a[0])

    def fn(self, o, a, env, regs):
        self.out(o, env, ("fn", at_of(self.v, o, "func_ref")[1], self.vty(self.v.results(o)[0])))

    def array(self, o, a, env, regs):
        self.out(o, env, ("array", tuple(a), at_of(self.v, o, "type")))

    def const(self, o, a, env, regs):
        x = self.attr(o, "value")
        self.out(o, env, ("const", x[3][0] if x is not None and x[0] == "adt" and x[3] else x))

    def call(self, o, a, env, regs):
        c = self.attr(o, CC)
        self.trace.append(("call", at_of(self.v, o, "callee")[1], tuple(a), None if c is None else c[3][0][1],
                           tuple(self.vty(x) for x in self.v.operands(o)), tuple(self.vty(x) for x in self.v.results(o))))
        self.out(o, env, ("r", len(self.trace) - 1))

    def ret(self, o, a, env, regs):
        return ("return", [("nil",) if self.vty(x) == NIL else y for x, y in zip(self.v.operands(o), a)])


def conv_of(t):
    c = t["attrs"].get(CC)
    return None if c is None else c[3][0][1]


def ok_root(export):
    def ok(ctx, hold, v):
        after = tree(v, hold["m"])
        new, fresh = renamed(hold["before"], after, "main", False)
        if "main" not in fresh:
            raise Bad("there is no function main")
        main = fresh["main"]
        ev = hold["ev"]
        want = (NIL,) + ((ev,) if export == EVIDENCE else ())
        if sig(main) != want:
            raise Bad(f"main has the type {show(main['attrs']['type'][3][0])}")
        if conv_of(main) != export:
            raise Bad(f"main has the convention {conv_of(main)} instead of {export}")
        m = Root(v)
        params = [("param", i) for i in range(len(want) - 1)]
        end = m.go(main["op"], params)
        if len(m.trace) != 1:
            raise Bad(f"main performs {len(m.trace)} calls: {[e[1] for e in m.trace]}")
        _, callee, a, conv, ts, rs = m.trace[0]
        if callee != new:
            raise Bad(f"main calls {callee}, not the worker {new}")
        if conv != CPS:
            raise Bad(f"the call of the worker has the convention {conv}")
        w = next(q for q in top(after) if q["name"] == "func.func" and q["attrs"]["sym_name"] == attr("@" + new))
        if tuple(sig(w)[1:]) != ts:
            raise Bad(f"the worker is called with {', '.join(show(x) for x in ts)}")
        if end[0] != "return" or end[1] not in ([("nil",)], []):
            raise Bad("main does not return the result")
        e0 = ("param", 0) if export == EVIDENCE else None
        if e0 is not None and a[0] != e0:
            raise Bad("main does not pass its evidence on")
        if e0 is None:
            if a[0][0] != "array" or a[0][2] != ev or len(a[0][1]) != 1 or a[0][1][0][:1] != ("const",):
                raise Bad("main does not pass empty evidence")
            if a[0][1][0][1] != C(0):
                raise Bad("main passes evidence that is not empty")
        d = a[1]
        if d[0] != "obj":
            raise Bad("the continuation is not a closure")
        t, fs = m.objs[d[1]]
        if tattr(t, "name") != S("_closure") or len(fs) != 2 or fs[0][0] != "fn":
            raise Bad(f"the continuation is a {show(t)}, not a closure")
        done = fresh.get(fs[0][1])
        if done is None:
            raise Bad(f"the continuation runs {fs[0][1]}, which is not defined")
        if sig(done) != (NIL, ANY, NIL):
            raise Bad(f"the continuation has the type {show(done['attrs']['type'][3][0])}")
        if fs[0][2] != functy([NIL], NIL):
            raise Bad(f"the continuation is referred to as {show(fs[0][2])}")
        if conv_of(done) != CPS:
            raise Bad(f"the continuation has the convention {conv_of(done)}")
        if done["attrs"].get(IDX) != attr(0):
            raise Bad("the continuation's environment is not its first parameter")
        k = len(m.trace)
        m.depth = 0
        end = m.func(done["op"], [fs[1], ("nil",)])
        if len(m.trace) != k:
            raise Bad(f"the continuation calls {m.trace[-1][1]}")
        if end[0] != "return" or end[1] not in ([("nil",)], []):
            raise Bad("the continuation does not return")
        if set(fresh) != {"main", fs[0][1]}:
            raise Bad(f"functions are added: {sorted(fresh)}")
    return ok


def ok_entry(conv, sanitize):
    def ok(ctx, hold, v):
        after = tree(v, hold["m"])
        new, fresh = renamed(hold["before"], after, "main", True)
        main = fresh.get("main")
        if main is None:
            raise Bad("there is no function main")
        if sig(main) != (I,):
            raise Bad(f"main has the type {show(main['attrs']['type'][3][0])}")
        if conv_of(main) not in (None, DIRECT):
            raise Bad(f"main has the convention {conv_of(main)}")
        if "abi" in main["attrs"]:
            raise Bad("main is marked as an imported function")
        m = Root(v)
        end = m.go(main["op"], [])
        want = (["__asan_init"] if sanitize else []) + ["__tribute_init"] + (["__tribute_evidence_empty"] if conv == EVIDENCE else []) + [new]
        got = [e[1] for e in m.trace]
        if got != want:
            raise Bad(f"main calls {', '.join(got)} instead of {', '.join(want)}")
        if end[0] != "return" or len(end[1]) != 1 or end[1][0] != ("const", C(0)):
            raise Bad(f"main returns {end[1]}, not 0")
        call = m.trace[-1]
        w = next(q for q in top(after) if q["name"] == "func.func" and q["attrs"]["sym_name"] == attr("@" + new))
        if call[4] != tuple(sig(w)[1:]) or call[5] != (sig(w)[0],):
            raise Bad("the program's main function is called with other types than its own")
        if conv == EVIDENCE and call[2] != (("r", len(got) - 2),):
            raise Bad("the program's main function does not get the empty evidence")
        if (call[3] or DIRECT) != conv:
            raise Bad(f"the program's main function is called with the convention {call[3]}")
        have = {}
        for q in top(after):
            if q["name"] == "func.func":
                n = q["attrs"]["sym_name"][3][0][1]
                if n in have:
                    raise Bad(f"{n} is declared twice")
                have[n] = q
        for n in got[:-1]:
            if n == "__tribute_evidence_empty":
                continue
            if n not in have:
                raise Bad(f"{n} is called but not declared")
            if n in fresh and "abi" not in fresh[n]["attrs"]:
                raise Bad(f"{n} is not marked as an imported function")
        for n, q in fresh.items():
            if n != "main" and n != "__asan_init":
                runtime(ctx, n, [width(x) for x in sig(q)], sig(q))
    return ok


def ok_has(want):
    def ok(ctx, hold, v):
        pass
    return ok


def contract(ctx, key, text, want, sigs=None, attrs=None):
    hold = {}
    rs, e = run(ctx, HAS, text, sigs, attrs, hold)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        if r.end != "ret" or r.ret[0] != "c":
            x = ("unk", str(r.end))
        elif bool(r.ret[1]) != want:
            x = ("bad", f"{key}: {'not ' if want else ''}found")
        out.append((r, x))
    ctx.verdicts(key, out, HAS)


CONV = "tribute_core::calling_convention::CallingConvention"


def join(ctx, a, b):
    """two requirements on one function: the stronger convention"""
    key = f"join of {a} and {b}"
    vs = [v[0] for v in ctx.P.adts[CONV]["vars"]]
    if vs[:3] != ["Direct", "EvidenceDirect", "Cps"] and set(vs) != {"Direct", "EvidenceDirect", "Cps"}:
        ctx.unk(key, "conventions")
        return
    q = CONV + "::join"
    if q not in ctx.P.fns:
        ctx.ok(key)
        return
    order = ["Direct", "EvidenceDirect", "Cps"]
    rs, e = ctx.run(q, setup=lambda eng, st, x: [("adt", CONV, a, (), ()), ("adt", CONV, b, (), ())])
    if rs is None:
        ctx.unk(key, e.failed)
        return
    want = order[max(order.index(a), order.index(b))]

    def which(x):
        if x is not None and x[0] == "t" and x[1] in ("max", "min") and len(x) == 4:
            y = [which(z) for z in x[2:]]
            return None if None in y else order[(max if x[1] == "max" else min)(map(vs.index, y))] if vs == order else None
        return x[2] if x is not None and x[0] == "adt" else None
    got = [(r, which(r.ret) if r.end == "ret" else None) for r in rs]
    ctx.verdicts(key, [(r, None if g == want else ("unk", str(r.end) + str(r.ret)[:100]) if g is None else ("bad", f"{key} is {g}")) for r, g in got], ctx.where(q))


def check(ctx):
    from .a31_shapes import CASES, CONTRACTS
    ctx.rule("types, attributes and operations after the passes are the expected ones; generated functions perform the expected calls; modules that do "
             "not fit are refused and left as they were")
    ctx.parallel([lambda c=c: case(ctx, *c[0], **c[1]) for c in CASES] + [lambda c=c: contract(ctx, *c[0], **c[1]) for c in CONTRACTS] +
                 [lambda a=a, b=b: join(ctx, a, b) for a in ("Direct", "EvidenceDirect", "Cps") for b in ("Direct", "EvidenceDirect", "Cps")])

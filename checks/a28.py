"""A28: an operation of an ability is dispatched with the evidence of the handlers that surround it."""
from .a11 import put, functy
from .a13 import at
from .a20 import ability
from .a21 import at_of
from .a27 import all_funcs, top, short
from .lowering import *
from engine.heap import *
from engine import irtrace, absint
from engine.irtrace import Layout, attr, ty, NAMED, Meaning, Stop, Unclear, Bad
from engine.rules import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The four passes that turn operations and handlers into the effect interface are analysed on abstract modules; executions of every "
               "function before and after are compared, with evidence as the handlers installed over what the function was given, and the "
               "completion of a handle as the three ways its body can end.")
ASSUMPTIONS = ["executions are compared for the first seven undetermined branches",
               "evidence looks up handlers by ability, so that handlers of different abilities may be installed in either order"]
P_ = "<tribute_passes::{} as trunk_ir::pass::Pass>::run"
PERF = P_.format("lower_ability_perform::LowerAbilityPerform")
TAIL = P_.format("tail_resumptive::ConvertTailResumptive")
RES = P_.format("resolve_evidence::ResolveEvidenceDispatch")
HD = P_.format("lower_handle_dispatch::LowerHandleDispatch")
MOD, FUNC = "trunk_ir::dialect::core::Module", "trunk_ir::dialect::func::Func"
AB = "tribute_ir::dialect::ability::"
ANY, I, NEVER, NIL = ty("tribute_rt.anyref"), ty("core.i32"), ty("core.never"), ty("core.nil")
NEXT, LOOK, EXT = "__tribute_next_tag", "__tribute_evidence_lookup", "__tribute_evidence_extend"
CC, SIG = "tribute.calling_convention", "func.indirect_call_signature"
NULL, EMPTY = ("null",), ("evidence", "empty", ())
T_ = {}                          # evidence, marker and carrier types of the program analysed


def over(ev, ab, h):
    """evidence `ev` with handler `h` installed for `ab`"""
    if ev[0] != "evidence":
        ev = ("evidence", ev, ())
    d = dict(ev[2])
    d[ab] = h
    return ("evidence", ev[1], tuple(sorted(d.items(), key=repr)))


class Tr(list):
    def __init__(self, m):
        self.m = m

    def append(self, e):
        def c(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "tag":
                    if x not in self.m.tags:
                        self.m.tags.append(x)
                    return ("tag", self.m.tags.index(x), "")
                if len(x) == 3 and x[0] == "evidence" and x[2] == () and x[1] != "empty":
                    return c(x[1])
                return tuple(c(y) for y in x)
            return x
        super().append(c(e))


class Eff(Meaning):
    leaving = Meaning.leaving + ("ability.perform", "ability.legacy_perform")

    def __init__(self, v, fns, src, ids):
        super().__init__(v, maxsteps=400)
        self.fns, self.src, self.ids = fns, src, ids
        E = Eff
        self.special = {"core.unrealized_conversion_cast": E.cast, "adt.ref_null": E.null, "adt.array_new": E.array, "arith.cmpi": E.cmpi,
                        "adt.variant_is": E.vis, "adt.variant_cast": E.cast, "adt.variant_get": E.vget, "func.call": E.call,
                        "func.tail_call": E.call, "func.call_indirect": E.indirect, "func.tail_call_indirect": E.indirect,
                        "func.return": E.ret, "func.constant": E.const, "adt.struct_new": E.snew}
        if src:
            self.special.update({"ability.call": E.perform, "ability.legacy_call": E.perform, "ability.perform": E.perform,
                                 "ability.legacy_perform": E.perform, "ability.handle_dispatch": E.handle,
                                 "ability.legacy_handle_dispatch": E.legacy, "ability.evidence_lookup": E.lookup,
                                 "effect.fresh_prompt_tag": E.fresh})
        else:
            self.special.update({"effect.extend": E.extend, "effect.dispatch_tail": E.dispatch, "effect.dispatch_cps": E.dispatch})

    def run(self, func, oracle):
        self.tags, self.ntags, self.deferred = [], 0, {}
        self.trace, self.steps, self.oracle, self.depth = Tr(self), 0, oracle, 0
        try:
            self.func(func, None)
        except Stop:
            pass
        return tuple(self.trace)

    def func(self, f, args):
        v = self.v
        self.rt = at_of(v, f, "type")[3][1][0]
        b = self.blocks(v.seq(v.field("Op", f, "regions"))[0])[0]
        ps = v.bargs(b)
        env = {p: ("param", i) for i, p in enumerate(ps)}
        evs = [p for p in ps if self.vty(p) == T_["EV"]]
        env["$ev"] = env[evs[0]] if evs else None
        return self.cfg(b, env)

    def vty(self, x):
        d = self.v.field("Value", x, "def")
        if d is None or d[0] != "adt":
            raise Unclear("type of a value")
        i = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[i]
        a = self.v.seq(self.v.field("Block", d[3][0], "args"))[i]
        return self.v.eng.project(self.v.st, a, ("f", 0, "ty"))

    def rd(self, env, x):
        if x not in env:
            raise Bad("a value is read that is not defined there")
        return env[x]

    def op(self, o, env):
        if not self.src and self.v.opname(o).startswith("ability."):
            raise Bad(f"{self.v.opname(o)} is left")
        return super().op(o, env)

    def decide(self, key, options):
        if key[0] == "vis" and key[2] == "Escape":
            return not self.oracle(("vis", key[1], "Normal"), options)
        if key[0] == "not":
            return not self.decide(key[1], options)
        return self.oracle(key, options)

    def set(self, env, o, x):
        rs = self.v.results(o)
        if rs:
            env[rs[0]] = x

    def event(self, o, env, e):
        me = len(self.trace)
        self.trace.append(e)
        for i, r in enumerate(self.v.results(o)):
            env[r] = ("r", me, i)
        return ("r", me, 0)

    def tail(self):
        if self.trace[-1] != "end":
            self.trace.append("end")
        return ("end", [])

    def ret(self, o, a, env, regs):
        if self.rt == NEVER:
            return self.tail()
        if self.rt == NIL:
            a = []
        self.trace.append(("return", tuple(a)))
        return ("return", a)

    # -- values
    def cast(self, o, a, env, regs):
        self.set(env, o, a[0])

    def null(self, o, a, env, regs):
        self.set(env, o, EMPTY if self.vty(self.v.results(o)[0]) == T_["EV"] else NULL)

    def array(self, o, a, env, regs):
        if self.vty(self.v.results(o)[0]) != T_["EV"]:
            return NotImplemented
        if len(a) != 1 or a[0] != ("const", at("Int", C(0))):
            raise Bad("new evidence is not empty")
        self.set(env, o, EMPTY)

    def snew(self, o, a, env, regs):
        t = self.attr(o, "type")[3][0]
        n = dict(t[4][1]).get(S("fields"))
        if n is None:
            return NotImplemented
        fs = []
        for f in n[3][0][1]:
            f = f[3][0][1]
            fs.append(f[1][3][0])
        if len(fs) != len(a):
            raise Bad(f"a structure of {len(fs)} fields is made of {len(a)} values")
        if [x for x in fs] != [self.vty(x) for x in self.v.operands(o)]:
            raise Bad("a field of the arguments' structure has not the type of its argument")
        self.set(env, o, ("struct", tuple(a)))

    def const(self, o, a, env, regs):
        self.set(env, o, ("fn", self.attr(o, "func_ref")))

    def cmpi(self, o, a, env, regs):
        p = self.attr(o, "predicate")
        p = p[3][0] if p[0] == "adt" else p
        if p not in (S("eq"), S("ne")):
            return NotImplemented
        x = ("eq",) + tuple(sorted(a, key=repr))
        self.set(env, o, x if p == S("eq") else ("not", x))

    def vis(self, o, a, env, regs):
        if self.attr(o, "type")[3][0] != T_["CTL"]:
            return NotImplemented
        self.set(env, o, ("vis", a[0], self.attr(o, "tag")[3][0][1]))

    def vget(self, o, a, env, regs):
        if self.attr(o, "type")[3][0] != T_["CTL"]:
            return NotImplemented
        self.set(env, o, ("vget", a[0], self.attr(o, "tag")[3][0][1], self.attr(o, "field")[3][0][1]))

    # -- calls
    def kept(self, o):
        return tuple((k[1], x) for k, x in self.v.field("Op", o, "attributes")[1] if k[1] in (CC, SIG, "note"))

    def call(self, o, a, env, regs):
        c = self.attr(o, "callee")[3][0][1]
        a = list(a)
        tail = self.v.opname(o) == "func.tail_call"
        if c == NEXT and not self.src:
            if a:
                raise Bad(f"{NEXT} takes no arguments")
            self.fresh(o, a, env, regs)
            return
        if c == LOOK and not self.src:
            self.set(env, o, ("marker", a[0], a[1]))
            return
        f = self.fns.get(c)
        if f is None:
            raise (Unclear if self.src else Bad)(f"calls {c}, which does not exist")
        ps = at_of(self.v, f, "type")[3][1][1:]
        if self.src and len(ps) == len(a) + 1 and ps[0] == T_["EV"]:
            a.insert(0, env["$ev"] or EMPTY)
        if len(ps) != len(a):
            raise Bad(f"passes {len(a)} arguments to the {len(ps)} parameters of {c}")
        self.event(o, env, ("call " + c, tail, tuple(a), self.kept(o)))
        return self.tail() if tail else None

    def indirect(self, o, a, env, regs):
        tail = self.v.opname(o) == "func.tail_call_indirect"
        if self.src and not tail:
            for u in self.v.all("Op"):
                if self.v.opname(u) == "ability.legacy_handle_dispatch" and self.v.operands(u)[0] == self.v.results(o)[0] and self.abilities(u):
                    self.deferred[u] = (o, a)
                    return None
        self.event(o, env, ("call value", tail, tuple(a), self.kept(o)))
        return self.tail() if tail else None

    # -- source: operations and handlers
    def fresh(self, o, a, env, regs):
        self.ntags += 1
        self.set(env, o, ("tag", self.ntags))

    def lookup(self, o, a, env, regs):
        self.set(env, o, ("marker", a[0], ("const", at("Int", self.ids[at_of(self.v, o, "ability_ref")]))))

    def perform(self, o, a, env, regs):
        nm = self.v.opname(o)
        cps, old = nm.endswith("perform"), "legacy" in nm
        if env["$ev"] is None:
            raise Unclear("no evidence")
        k, xs = (a[0], a[1:]) if cps else (None, a)
        pay = ("struct", tuple(xs)) if not old else xs[0] if xs else NULL
        r = self.event(o, env, ("dispatch", "cps" if cps else "tail", (env["$ev"], k or NULL, pay), at_of(self.v, o, "ability_ref"), at_of(self.v, o, "op_name")))
        if cps and env.get("$body") is None:
            if self.rt == NEVER:
                return self.tail()
            self.trace.append(("return", () if self.rt == NIL else (r,)))
            return ("return", [r])

    def sub(self, o, env):
        """a region inside the function"""
        return dict(env, **{"$body": o})

    def op_regions(self, o):
        return self.v.seq(self.v.field("Op", o, "regions"))

    def handle(self, o, a, env, regs):
        self.ntags += 1
        t, ev = ("tag", self.ntags), a[0]
        for i, ab in enumerate(at_of(self.v, o, "ability_refs")[1]):
            ev = over(ev, ab[3][0], (t, a[1 + 2 * i], a[2 + 2 * i]))
        b = self.blocks(regs[0])[0]
        env = dict(env)
        env[self.v.bargs(b)[0]] = env["$ev"] = ev
        return self.cfg(b, env)

    def abilities(self, o):
        out = []
        for q in self.v.ops(self.blocks(self.op_regions(o)[0])[0]):
            if self.v.opname(q) in ("ability.suspend", "ability.yield"):
                x = at_of(self.v, q, "ability_ref")
                if x not in out:
                    out.append(x)
        return out

    def inner(self, r, x, env):
        """the value of a completion region on x"""
        bs = self.v.seq(self.v.field("Region", r, "blocks"))
        if not bs:
            return x
        env = dict(env, **{"$body": True})
        ps = self.v.bargs(bs[0])
        if ps:
            env[ps[0]] = x
        end = self.cfg(bs[0], env)
        if end[0] != "yield":
            raise Unclear("end of a completion")
        return end[1][0] if end[1] else x

    def rd_late(self, env, x):
        return env[x]

    def legacy(self, o, a, env, regs):
        _, tag, h, tr = a[0] if a else None, a[1], a[2], a[3]
        ev = env["$ev"] or EMPTY
        for ab in self.abilities(o):
            ev = over(ev, ab, (tag, tr, h))
        if o in self.deferred:
            q, xs = self.deferred[o]
            xs = list(xs)
            xs[1] = ev
            y = self.event(q, env, ("call value", False, tuple(xs), self.kept(q)))
        else:
            y = a[0]
        if self.decide(("vis", y, "Normal"), (True, False)):
            done = [q for q in self.v.ops(self.blocks(regs[0])[0]) if self.v.opname(q) == "ability.done"]
            r = ("vget", y, "Normal", 0)
            if done:
                r = self.inner(self.op_regions(done[0])[0], r, env)
        elif self.decide(("eq",) + tuple(sorted((("vget", y, "Escape", 0), tag), key=repr)), (True, False)):
            r = self.inner(regs[1], ("vget", y, "Escape", 1), env)
        else:
            r = y
        self.set(env, o, r)

    # -- target
    def extend(self, o, a, env, regs):
        self.set(env, o, over(a[0], at_of(self.v, o, "ability_ref"), (a[1], a[2], a[3])))

    def dispatch(self, o, a, env, regs):
        cps = self.v.opname(o).endswith("cps")
        k, pay = (a[1], a[2]) if cps else (None, a[1])
        self.event(o, env, ("dispatch", "cps" if cps else "tail", (a[0], k or NULL, pay), at_of(self.v, o, "ability_ref"), at_of(self.v, o, "op_name")))


class Src(Eff):
    """operands that a deferred call defines are not there yet"""

    def rd(self, env, x):
        if x in env:
            return env[x]
        for o, (q, _) in self.deferred.items():
            if self.v.results(q)[0] == x:
                return ("late",)
        return super().rd(env, x)

    def op(self, o, env):
        nm = self.v.opname(o)
        if nm.startswith("scf.") and self.op_regions(o):
            old = env.get("$body")
            env["$body"] = True
            r = super().op(o, env)
            env["$body"] = old
            return r
        return super().op(o, env)


def case(ctx, key, text, sigs=None, attrs=None, refuse=None, decl=()):
    hold = {}
    mf = tuple(x[0] for x in ctx.P.adts[MOD]["vars"][0][2])
    ff = tuple(x[0] for x in ctx.P.adts[FUNC]["vars"][0][2])

    def setup(eng, st, a):
        h = Heap(eng, st)
        for n, p in (("EV", "evidence_adt_type_ref"), ("MK", "marker_adt_type_ref"), ("CTL", "cps_control_type_ref")):
            T_[n] = NAMED[n] = call1(eng, st, AB + p, [h.ref])
        lay = Layout(h, text)
        v = h.view(st)
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func":
                n = at_of(v, o, "sym_name")[1]
                rs = v.seq(v.field("Op", o, "regions"))
                s = (sigs or {}).get(n, "tribute_rt.anyref").split()
                ps = [ty(x) for x in s[1:]]
                if rs:
                    for x in v.seq(v.field("Block", v.seq(v.field("Region", rs[0], "blocks"))[0], "args")):
                        ps.append(eng.project(st, x, ("f", 0, "ty")))
                put(h, o, "type", at("Type", functy(ps, ty(s[0]))))
            if v.opname(o) == "ability.handle_dispatch":
                x = at_of(v, o, "ability_refs")
                if x is not None and x[0] == "s":
                    put(h, o, "ability_refs", at("List", ("seq", tuple(at("Type", NAMED[y]) if y in NAMED else at("Int", C(1)) for y in x[1].split("_") if y))))
            for kk, x in (attrs or {}).get(t, {}).items():
                put(h, o, kk, x)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        ids = {}
        for ab in ABS.values():
            ids[ab] = T("cast", call1(eng, st, AB + "compute_ability_id", [h.ref, ab]), S("u32"), S("i128"))
        hold.update(v=h.view(st.fork()), m=m, ids=ids)
        M = ("adt", MOD, "Module", (m,), mf)
        unit = eng.ref_to(st, ("adt", "unit", "unit", (), ()))
        err = []

        def go(p, x):
            r = call1(eng, st, p, [unit, h.ref, x])
            if r[0] != "adt":
                raise absint.Imprecise("result of a pass") if hasattr(absint, "Imprecise") else Exception("result of a pass")
            if r[2] != "Ok":
                err.append(p.split("::")[-4] if False else p[1:].split(" as")[0].split("::")[-1])
            return r[2] == "Ok"

        def each(p):
            return all([go(p, ("adt", FUNC, "Func", (o,), ff)) for _, o in all_funcs(h.view(st), m)])
        each(PERF) and each(TAIL) and go(RES, M) and each(HD)
        hold.update(after=h.view(st.fork()), err=err)
        return [unit, h.ref, ("adt", FUNC, "Func", (all_funcs(h.view(st), m)[0][1],), ff)]
    rs, e = ctx.run(TAIL, setup=setup, max_depth=60, max_rec=16, max_visits=200, registry=True)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("unk", str(r.end))
            else:
                judge(hold, refuse)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except (Unclear, irtrace.Need, Stop) as u:
            x = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(RES))


STUBS = {LOOK: ("MK", "EV", "core.i32"), EXT: ("EV", "EV", "MK"), NEXT: ("core.i32",)}


def judge(hold, refuse):
    v, w, m = hold["v"], hold["after"], hold["m"]
    if refuse:
        if not hold["err"]:
            raise Bad(f"accepted although {refuse}")
        return
    if hold["err"]:
        raise Bad(f"refused by {hold['err'][0]}")
    before, after = dict(all_funcs(v, m)), all_funcs(w, m)
    names = [n for n, _ in after]
    for n in set(names):
        if names.count(n) > 1:
            raise Bad(f"two functions are called {n}")
    after = dict(after)
    for n, s in STUBS.items():
        if n not in after:
            raise Bad(f"{n} is not declared")
        t = at_of(w, after[n], "type")
        if list(t[3][1]) != [ty(x) for x in s]:
            raise Bad(f"{n} has the type {short(t)}")
    if at_of(w, after[NEXT], "abi") is None and NEXT not in before:
        raise Bad(f"{NEXT} is not an external function")
    for n, o in before.items():
        if n not in after:
            raise Bad(f"function {n} is gone")
        if v.field("Op", o, "attributes") != w.field("Op", after[n], "attributes"):
            raise Bad(f"the attributes of {n} change")
        if not v.seq(v.field("Op", o, "regions")):
            continue
        r = irtrace.compare(Src(v, before, True, hold["ids"]), o, Eff(w, after, False, hold["ids"]), after[n])[0]
        if r:
            raise Bad(f"{n} {r}")


from .a28_shapes import CASES, ABS          # noqa: E402


def check(ctx):
    ctx.rule("every function performs what it performed before: an operation is dispatched with its arguments, its continuation and the evidence of the "
             "handlers around it; a handler's body runs with the evidence extended by one fresh tag and the dispatchers of each ability, its "
             "completion without; what is not well formed is refused")
    ctx.parallel([lambda c=c: case(ctx, *c[0], **c[1]) for c in CASES])

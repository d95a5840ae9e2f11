"""A27: calling a closure runs its body on the arguments with the values captured where it was made."""
from .a11 import mod_of, put, functy
from .a13 import at, struct
from .a21 import at_of
from .lowering import *
from engine.heap import *
from engine import irtrace
from engine.irtrace import Layout, attr, ty, NAMED, Meaning, Stop, Unclear, Bad
from engine.rules import *
from engine import absint
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("Closure conversion and closure lowering are analysed on abstract modules; the executions of every function before and after "
               "are compared, entering known closures, applying closures that leave the function to fresh arguments, and comparing calls of "
               "unknown closures with the calling rule of their type.")
ASSUMPTIONS = ["executions are compared for the first seven undetermined branches",
               "a lambda lists every value of its surroundings that it uses, apart from the evidence of the legacy convention"]
P_ = "<tribute_passes::{} as trunk_ir::pass::Pass>::run"
LAMBDA = P_.format("lower_closure_lambda::LowerClosureLambda")
PREP = P_.format("closure_lower::PrepareClosureLowering")
CALLS = P_.format("closure_lower::LowerClosuresInFunc")
MOD, FUNC = "trunk_ir::dialect::core::Module", "trunk_ir::dialect::func::Func"
EVT = "tribute_ir::dialect::ability::evidence_adt_type_ref"
CC, IDX, SIG = "tribute.calling_convention", "tribute.closure_environment_index", "func.indirect_call_signature"
ANY, I, NEVER = ty("tribute_rt.anyref"), ty("core.i32"), ty("core.never")
NULL = ("null",)
MAXAPPLY = 8


def clo(params, ret, conv=None, idx=None):
    m = ()
    if conv is not None:
        m = ((S(CC), at("Int", C(conv))),)
        if idx is not False:
            m += ((S(IDX), at("Int", C((1 if conv else 0) if idx is None else idx))),)
    return ("ty", S("closure"), S("closure"), ("seq", (functy(params, ret),)), ("map", m))


def name(t):
    return (t[1][1], t[2][1]) if t and t[0] == "ty" else (None, None)


def tattr(t, k):
    for a, x in t[4][1]:
        if a == S(k):
            x = x[3][0]
            return x[1] if x[0] in ("c", "s") else x
    return None


def is_pair(t):
    return name(t) == ("adt", "struct") and tattr(t, "name") == "_closure"


def norm(t):
    return "closure" if name(t) in (("closure", "closure"), ("core", "func")) or is_pair(t) else t


class Tr(list):
    def __init__(self, m):
        self.m = m

    def append(self, e):
        def c(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "obj":
                    return self.m.seen(x)
                return tuple(c(y) for y in x)
            return x
        super().append((c(e), self.m.types))


class Clo(Meaning):
    """executions of functions with closures; `users`: the struct types of the program"""

    def __init__(self, v, fns, users, ev, info=None):
        super().__init__(v, maxsteps=400)
        self.fns, self.users, self.ev, self.src = fns, users, ev, info is None
        self.info = {} if info is None else info
        self.special = {"func.call_indirect": Clo.indirect, "func.tail_call_indirect": Clo.indirect, "closure.lambda": Clo.lam,
                        "closure.new": Clo.new, "func.constant": Clo.const, "core.unrealized_conversion_cast": Clo.cast,
                        "adt.ref_null": Clo.null, "adt.struct_new": Clo.snew, "adt.struct_get": Clo.sget, "adt.ref_cast": Clo.scast,
                        "closure.func": Clo.part, "closure.env": Clo.part}

    # -- runs
    def run(self, func, oracle):
        self.trace, self.steps, self.oracle, self.depth = Tr(self), 0, oracle, 0
        self.objs, self.order, self.types = [], [], None
        if self.src:
            self.info.clear()
        try:
            self.func(func, None)
            k = 0
            while k < len(self.order) and k < MAXAPPLY:
                self.types = None
                self.trace.append(("apply", k))
                self.apply(k)
                k += 1
        except Stop:
            pass
        return tuple(self.trace)

    def seen(self, o):
        x = self.objs[o[1]]
        if x[0] == "struct":
            if not is_pair(x[1]):
                return ("env",)
        if o not in self.order:
            self.order.append(o)
        return ("closure", self.order.index(o))

    def vty(self, x):
        d = self.v.field("Value", x, "def")
        if d is None or d[0] != "adt":
            raise Unclear("type of a value")
        i = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[i]
        a = self.v.seq(self.v.field("Block", d[3][0], "args"))[i]
        return self.v.eng.project(self.v.st, a, ("f", 0, "ty"))

    def func(self, f, args):
        v = self.v
        rs = v.seq(v.field("Op", f, "regions"))
        if not rs:
            raise Unclear("function without a body")
        b = self.blocks(rs[0])[0]
        ps = v.bargs(b)
        vals = args if args is not None else [("param", i) for i in range(len(ps))]
        if len(vals) != len(ps):
            raise Bad(f"{len(vals)} arguments are passed to the {len(ps)} parameters of {at_of(v, f, 'sym_name')[1]}")
        env = {"$ev": ps[0] if ps and self.vty(ps[0]) == self.ev else None}
        env.update(zip(ps, vals))
        return self.cfg(b, env)

    def evidence(self, env):
        return env[env["$ev"]] if env["$ev"] is not None else NULL

    def op(self, o, env):
        self.types = tuple(norm(self.vty(x)) for x in self.v.operands(o))
        return super().op(o, env)

    def rd(self, env, x):
        if x not in env:
            raise Bad("a value is read that is not defined in the function")
        return env[x]

    def set(self, env, o, x):
        env[self.v.results(o)[0]] = x

    def sym(self, o, k):
        x = self.attr(o, k)
        if x is None:
            raise Unclear(f"{self.v.opname(o)} without {k}")
        return x[3][0][1] if x[3][0][0] in ("s", "c") else x[3][0]

    def conv(self, o):
        x = self.attr(o, CC)
        return None if x is None else x[3][0][1]

    # -- closures
    def obj(self, *x):
        self.objs.append(x)
        return ("obj", len(self.objs) - 1)

    def lam(self, o, a, env, regs):
        if not self.src:
            raise Bad("a lambda is left")
        cap = dict(zip(self.v.operands(o), a))
        lex = env["$ev"]
        self.set(env, o, self.obj("lambda", o, cap, lex, self.vty(self.v.results(o)[0])))

    def new(self, o, a, env, regs):
        if not self.src:
            raise Bad("closure.new is left")
        self.set(env, o, self.obj("new", self.sym(o, "func_ref"), a[0], self.vty(self.v.results(o)[0])))

    def rule_of(self, t, o):
        """(index of the environment, legacy) for a closure type and the operation that makes or calls the closure"""
        if name(t) == ("closure", "closure") and tattr(t, CC) is not None:
            return tattr(t, IDX), False
        c = self.conv(o) if o is not None else None
        if c is not None:
            return (1 if c else 0), False
        return 1, True

    def apply(self, k):
        x = self.objs[self.order[k][1]]
        if self.src:
            if x[0] == "lambda":
                ps = self.v.bargs(self.blocks(self.v.seq(self.v.field("Op", x[1], "regions"))[0])[0])
                self.info[k] = (self.rule_of(x[4], x[1]), len(ps), self.conv(x[1]))
                self.enter(x, [("arg", k, i) for i in range(len(ps))], ("ev", k))
                return
            n = len(x[3][3][1][0][3][1]) - 1
            self.info[k] = (self.rule_of(x[3], None), n, tattr(x[3], CC))
        if k not in self.info:
            raise Bad("a closure leaves the function although none does in the original")
        (idx, legacy), n, conv = self.info[k]
        args = [("arg", k, i) for i in range(n)]
        if self.src:
            self.enter(x, args, ("ev", k))
            return
        if legacy:
            args.insert(0, ("ev", k))
        args.insert(idx, x[2][1])
        f = x[2][0]
        if f[0] != "fn" or f[1] not in self.fns:
            raise Bad("the closure has no function")
        self.check_conv(f[1], conv)
        self.func(self.fns[f[1]], args)

    def check_conv(self, f, conv):
        if conv is not None and self.conv(self.fns[f]) != conv:
            raise Bad(f"the function of a closure of calling convention {conv} has the convention {self.conv(self.fns[f])}")

    def enter(self, x, args, ev):
        """source closures"""
        if x[0] == "lambda":
            _, o, cap, lex, t = x
            b = self.blocks(self.v.seq(self.v.field("Op", o, "regions"))[0])[0]
            ps = self.v.bargs(b)
            if len(ps) != len(args):
                raise Unclear("arity of the original")
            env = dict(cap)
            idx, legacy = self.rule_of(t, o)
            env.update(zip(ps, args))
            if legacy:
                key = lex if lex is not None and lex not in cap else ("own",)
                env["$ev"], env[key] = key, ev
            else:
                env["$ev"] = ps[0] if ps and self.vty(ps[0]) == self.ev and idx > 0 else None
            return self.cfg(b, env)
        _, f, e, t = x
        idx, legacy = self.rule_of(t, None)
        args = list(args)
        if legacy:
            args.insert(0, ev)
        args.insert(idx, e)
        return self.func(self.fns[f], args)

    def indirect(self, o, a, env, regs):
        v = self.v
        tail = v.opname(o) == "func.tail_call_indirect"
        callee, args = a[0], list(a[1:])
        ct = self.vty(v.operands(o)[0])
        if self.src:
            if callee[0] == "obj":
                return self.entered(o, env, tail, lambda: self.enter(self.objs[callee[1]], args, self.evidence(env)))
            if callee[0] == "fn":
                if callee[1] in self.fns and v.seq(v.field("Op", self.fns[callee[1]], "regions")):
                    return self.entered(o, env, tail, lambda: self.func(self.fns[callee[1]], args))
                return self.event(o, env, tail, ("call", callee, tuple(args), None))
            idx, legacy = self.rule_of(ct, o)
            if legacy:
                args.insert(0, self.evidence(env))
            sig = None
            if name(ct) == ("closure", "closure") and tattr(ct, CC) is not None:
                ft = ct[3][1][0][3][1]
                ps = list(ft[1:])
                ps.insert(idx, ANY)
                sig = (functy(ps, ft[0]), self.conv(o))
            return self.event(o, env, tail, ("call closure", callee, idx, tuple(args), sig))
        s = self.attr(o, SIG)
        if callee[0] == "fn":
            f = self.fns.get(callee[1])
            if f is None:
                raise Bad(f"calls {callee[1]}, which does not exist")
            if s is not None:
                self.check_conv(callee[1], self.conv(o))
                if sig_loose(s[3][0]) != sig_loose(self.ftype(f)):
                    raise Bad(f"a call says its function has the type {short(s[3][0])}, but it is {short(self.ftype(f))}")
            if v.seq(v.field("Op", f, "regions")):
                return self.entered(o, env, tail, lambda: self.func(f, args))
            return self.event(o, env, tail, ("call", callee, tuple(args), None))
        if callee[0] == "fld" and callee[2] == 0:
            e = ("fld", callee[1], 1)
            if args.count(e) != 1:
                raise Bad("a closure is called without its environment")
            i = args.index(e)
            del args[i]
            return self.event(o, env, tail, ("call closure", callee[1], i, tuple(args), None if s is None else (s[3][0], self.conv(o))))
        raise Bad(f"calls {callee[0]}, which is not a function")

    def ftype(self, f):
        return at_of(self.v, f, "type")

    def event(self, o, env, tail, e):
        me = len(self.trace)
        rs = self.v.results(o)
        self.types = "tail" if tail else "call"
        self.trace.append(e)
        if tail:
            return ("end", [])
        for i, r in enumerate(rs):
            env[r] = ("r", me, i)

    def entered(self, o, env, tail, go):
        if self.depth > 12:
            raise Stop()
        self.depth += 1
        end = go()
        self.depth -= 1
        if end[0] != "return":
            return end
        if tail:
            if self.depth == 0:
                self.types = "entered"
                self.trace.append(("return", tuple(end[1])))
            return end
        self.bind(env, o, end[1])

    # -- quiet operations
    def const(self, o, a, env, regs):
        self.set(env, o, ("fn", self.sym(o, "func_ref")))

    def cast(self, o, a, env, regs):
        self.set(env, o, a[0])

    def null(self, o, a, env, regs):
        self.set(env, o, NULL)

    def silent(self, o):
        t = self.attr(o, "type")[3][0]
        return t not in self.users

    def snew(self, o, a, env, regs):
        if not self.silent(o):
            return NotImplemented
        self.set(env, o, self.obj("struct", self.attr(o, "type")[3][0], list(a)))

    def sget(self, o, a, env, regs):
        if not self.silent(o):
            return NotImplemented
        t, i = self.attr(o, "type")[3][0], self.sym(o, "field")
        if a[0][0] == "obj":
            x = self.objs[a[0][1]]
            if x[0] != "struct" or x[1] != t and not (is_pair(x[1]) and is_pair(t)):
                raise Bad("a field is read of an object of another type")
            if i >= len(x[2]):
                raise Bad("a field is read that the object does not have")
            self.set(env, o, x[2][i])
        elif is_pair(t):
            self.set(env, o, ("fld", a[0], i))
        else:
            raise Bad("a field is read of something that is not an environment")

    def scast(self, o, a, env, regs):
        if not self.silent(o):
            return NotImplemented
        if a[0][0] != "obj" or self.objs[a[0][1]][0] != "struct" or self.objs[a[0][1]][1] != self.attr(o, "type")[3][0]:
            raise Bad("the environment is cast to a type that it does not have")
        self.set(env, o, a[0])

    def part(self, o, a, env, regs):
        raise (Unclear if self.src else Bad)("closure parts are left")


def short(t):
    return f"{t[1][1]}.{t[2][1]}" + (f"({', '.join(short(x) for x in t[3][1])})" if t[3][1] else "") if t[0] == "ty" else str(t)


def sig_loose(t):
    return tuple(norm(x) for x in t[3][1])


def compare(m1, f1, m2, f2):
    try:
        r, n = irtrace.compare(m1, f1, m2, f2)
    except TypeError:
        raise Unclear("comparison")
    return r


def top(v, m):
    return v.ops(v.seq(v.field("Region", v.seq(v.field("Op", m, "regions"))[0], "blocks"))[0])


def all_funcs(v, m):
    """[(name, op)] of a module, with those of nested modules and functions"""
    out = []

    def walk(o):
        if v.opname(o) == "func.func":
            out.append((at_of(v, o, "sym_name")[1], o))
        for r in v.seq(v.field("Op", o, "regions")) or []:
            for b in v.seq(v.field("Region", r, "blocks")):
                for q in v.ops(b):
                    walk(q)
    walk(m)
    return out


def user_types(v, m):
    out = set()

    def walk(o):
        for k, x in v.field("Op", o, "attributes")[1]:
            if k == S("type") and v.opname(o).startswith("adt."):
                out.add(x[3][0])
        for r in v.seq(v.field("Op", o, "regions")) or []:
            for b in v.seq(v.field("Region", r, "blocks")):
                for q in v.ops(b):
                    walk(q)
    walk(m)
    return out - {ANY, EV[0]}


EV = [None]


def case(ctx, key, text, sigs=None, attrs=None):
    hold = {}
    mod = MOD
    mf = tuple(x[0] for x in ctx.P.adts[MOD]["vars"][0][2])
    ff = tuple(x[0] for x in ctx.P.adts[FUNC]["vars"][0][2])

    def setup(eng, st, a):
        h = Heap(eng, st)
        EV[0] = NAMED["EV"] = call1(eng, st, EVT, [h.ref])
        evidence_types()
        lay = Layout(h, text)
        v = h.view(st)
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func":
                n = at_of(v, o, "sym_name")[1]
                rs = v.seq(v.field("Op", o, "regions"))
                ps = []
                if rs:
                    for x in v.seq(v.field("Block", v.seq(v.field("Region", rs[0], "blocks"))[0], "args")):
                        ps.append(eng.project(st, x, ("f", 0, "ty")))
                put(h, o, "type", at("Type", functy(ps, ty((sigs or {}).get(n, "core.i32")))))
            for kk, x in (attrs or {}).get(t, {}).items():
                put(h, o, kk, x)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        v0 = h.view(st.fork())
        hold.update(v=v0, m=m)
        M = ("adt", mod, "Module", (m,), mf)
        unit = eng.ref_to(st, ("adt", "unit", "unit", (), ()))

        def go(p, x):
            r = call1(eng, st, p, [unit, h.ref, x])
            if r[0] == "adt" and r[2] != "Ok":
                raise absint.Definite("the lowering is refused: " + str(r)[:200])
        go(LAMBDA, M)
        go(PREP, M)
        for n, o in all_funcs(h.view(st), m):
            go(CALLS, ("adt", FUNC, "Func", (o,), ff))
        hold["after"] = h.view(st.fork())
        return [unit, h.ref, M]
    # the last entry only ends the analysis: a second conversion finds nothing to do
    rs, e = ctx.run(LAMBDA, setup=setup, max_depth=60, max_rec=16, max_visits=200, registry=True)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("unk", str(r.end))
            else:
                judge(hold)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except (Unclear, irtrace.Need, Stop) as u:
            x = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(LAMBDA))


def judge(hold):
    v, w, m = hold["v"], hold["after"], hold["m"]
    users = user_types(v, m)
    before, after = dict(all_funcs(v, m)), all_funcs(w, m)
    names = [n for n, _ in after]
    for n in set(names):
        if names.count(n) > 1:
            raise Bad(f"two functions are called {n}")
    after = dict(after)
    for n, o in after.items():
        t = at_of(w, o, "type")
        rs = w.seq(w.field("Op", o, "regions"))
        if rs:
            b = w.seq(w.field("Region", rs[0], "blocks"))[0]
            ps = [w.eng.project(w.st, x, ("f", 0, "ty")) for x in w.seq(w.field("Block", b, "args"))]
            if list(t[3][1][1:]) != ps:
                raise Bad(f"the parameters of {n} do not have the types of its signature")
        if n in before:
            t0 = at_of(v, before[n], "type")
            if [norm(x) for x in t[3][1]] != [norm(x) for x in t0[3][1]]:
                raise Bad(f"the signature of {n} becomes {short(t)}")
            if any(name(x) == ("core", "func") for x in t[3][1][1:]):
                raise Bad(f"{n} still takes a bare function")
            for k, x in v.field("Op", before[n], "attributes")[1]:
                if k != S("type") and dict(w.field("Op", o, "attributes")[1]).get(k) != x:
                    raise Bad(f"{n} loses its attribute {k[1]}")
    for n, o in before.items():
        if n not in after:
            raise Bad(f"function {n} is gone")
        if not v.seq(v.field("Op", o, "regions")):
            continue
        m1 = Clo(v, before, users, EV[0])
        m2 = Clo(w, after, users, EV[0], m1.info)
        r = compare(m1, o, m2, after[n])
        if r:
            raise Bad(f"{n} {r}")


from .a27_shapes import CASES, evidence_types          # noqa: E402


def check(ctx):
    ctx.rule("every function performs what it performed before its closures were lowered; a closure that leaves it performs, on any arguments, "
             "what its body performs with the captured values; an unknown closure is called with its environment where its type says")
    ctx.parallel([lambda c=c: case(ctx, *c[0], **c[1]) for c in CASES])

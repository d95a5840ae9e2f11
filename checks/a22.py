"""A22: the WebAssembly code of a program does what the program does."""
import itertools
from .a11 import mod_of, put, functy
from .a13 import at, struct, enumt, lst
from .a21 import at_of
from .lowering import *
from engine.heap import *
from engine.irtrace import Layout, attr, ty, NAMED
from engine.rules import *
from engine import wasmfn
from engine.wasmfn import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The whole WebAssembly back end (every lowering pass, the resolution of conversion casts, the assignment of type indices and "
               "emission) is analysed on abstract functions that use every operation of the common program representation; the encoded module "
               "is read back, checked by the rules of WebAssembly validation, and the executions of its functions on an abstract stack machine "
               "are compared with those of the original functions.")
ASSUMPTIONS = ["executions are compared for the first seven undetermined branches",
               "the encoder library encodes what it is told; conversions of the numbers given to it do not change them",
               "arithmetic operators are compared by A03"]
LOW = "tribute_passes::wasm::lower::lower_to_wasm"
CONV = "tribute_passes::wasm::type_converter::wasm_type_converter"
CASTS_ = "trunk_ir::conversion::resolve_unrealized_casts::resolve_unrealized_casts"
FIN = "tribute_passes::wasm::lower::finalize_wasm_gc_types"
EMIT = "trunk_ir_wasm_backend::translate::emit_module_to_wasm"
I, J, F, D = ty("core.i32"), ty("core.i64"), ty("core.f32"), ty("core.f64")
ANY = ty("tribute_rt.anyref")
NULL = ("null",)
INTS = {("core", "i32"), ("core", "i1"), ("tribute_rt", "int"), ("tribute_rt", "nat"), ("tribute_rt", "bool")}
FLTS = {("core", "f64"), ("tribute_rt", "float")}
CLOSURE = struct("_closure", [("table_idx", I), ("env", ty("wasm.anyref"))])
BOXF = ("boxed f64",)


def tn(t):
    return (t[1][1], t[2][1]) if t and t[0] == "ty" else (None, None)


def is_nil(t):
    return tn(t) == ("core", "nil")


def fields_of(k):
    """field types of a key, or None"""
    if k == BOXF:
        return (D,)
    if k[0] == "v":
        for n, ts in variants(k[1]):
            if n == k[2]:
                return ts
        return None
    if k[0] == "s":
        fs = dict(k[1][4][1]).get(S("fields"))
        return tuple(x[3][0][1][1][3][0] for x in fs[3][0][1])
    return None


def variants(t):
    vs = dict(t[4][1])[S("variants")]
    out = []
    for x in vs[3][0][1]:
        n, ts = x[3][0][1]
        out.append((n[3][0][1], tuple(y[3][0] for y in ts[3][0][1])))
    return out


def kind_of(t):
    """how a value of this type is stored: i32, i64, f32, f64 or ref"""
    d = tn(t)
    if d in INTS:
        return "i32"
    if d in FLTS:
        return "f64"
    if d in (("core", "i64"), ("core", "f32")):
        return d[1]
    return "ref"


class Src(Run):
    """A function of the common representation; types by the index the module gives them."""

    def __init__(self, v, f, w, oracle):
        super().__init__(oracle)
        self.v, self.f, self.w = v, f, w
        self.facts = set()

    # ---- reading the representation
    def a(self, o, k, need=True):
        m = self.v.field("Op", o, "attributes")
        if m is None or m[0] != "map":
            raise Unclear("attributes")
        for kk, x in m[1]:
            if kk == S(k):
                return x
        if need:
            raise Unclear(f"{self.v.opname(o)} has no {k}")
        return None

    def p(self, o, k):
        x = self.a(o, k)[3][0]
        return x[1] if x[0] in ("c", "s") else x

    def vty(self, x):
        d = self.v.field("Value", x, "def")
        if d is None or d[0] != "adt":
            raise Unclear("type of a value")
        i = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[i]
        a = self.v.seq(self.v.field("Block", d[3][0], "args"))[i]
        return self.v.eng.project(self.v.st, a, ("f", 0, "ty"))

    def t(self, key):
        i = self.w.tmap.get(key)
        if i is None:
            raise Unclear(f"type {brief(key)}")
        return i

    def know(self, x, t):
        """the static type of a value"""
        d = tn(t)
        if d == ("adt", "struct"):
            if ("s", t) in self.w.tmap:
                self.facts.add((x, self.t(("s", t))))
            self.facts.add((x, "struct"))
        elif d in (("adt", "typeref"), ("adt", "enum"), ("core", "bytes")):
            self.facts.add((x, "struct"))
            if d[1] == "bytes":
                self.facts.add((x, 2))
        elif d == ("closure", "closure"):
            self.facts.add((x, "struct"))
            if ("s", CLOSURE) in self.w.tmap:
                self.facts.add((x, self.t(("s", CLOSURE))))
        elif d == ("tribute_rt", "intref"):
            self.facts.add((x, "i31"))
        elif d == ("core", "array"):
            self.facts.add((x, "array"))
            if ("a", t) in self.w.tmap:
                self.facts.add((x, self.t(("a", t))))

    def fact(self, x, i):
        self.facts.add((x, i))
        self.facts.add((x, self.w.im.types[i][0]))

    # ---- execution
    def run(self):
        v = self.v
        b = v.seq(v.field("Region", v.seq(v.field("Op", self.f, "regions"))[0], "blocks"))[0]
        env = {}
        n = 0
        for x in v.bargs(b):
            env[x] = ("param", n)
            n += 1
            self.know(env[x], self.vty(x))
        try:
            self.body(b, env)
        except Stop:
            pass
        return self.trace

    def region(self, o, k):
        return self.v.seq(self.v.field("Region", self.v.seq(self.v.field("Op", o, "regions"))[k], "blocks"))[0]

    def body(self, b, env):
        for o in self.v.ops(b):
            self.tick()
            r = self.op(o, env)
            if r is not None:
                return r
        return ("yield", ())

    def op(self, o, env):
        v = self.v
        nm = v.opname(o)
        d, n = nm.split(".", 1)
        xs = []
        for x in v.operands(o):
            if x not in env:
                raise Unclear(f"{nm} reads a value that is not defined")
            xs.append(env[x])
        rs = v.results(o)
        r = None
        if nm == "scf.if":
            e = self.body(self.region(o, 0 if self.truth(xs[0]) else 1), env)
            if e[0] != "yield":
                return e
            r = e[1][0] if e[1] else None
        elif nm == "scf.loop":
            b = self.region(o, 0)
            vals = xs
            while True:
                self.tick()
                for p, x in zip(v.bargs(b), vals):
                    env[p] = x
                    self.know(x, self.vty(p))
                e = self.body(b, env)
                if e[0] == "continue":
                    vals = e[1]
                    continue
                if e[0] == "break":
                    r = e[1][0] if e[1] else None
                    break
                if e[0] != "ret":
                    raise Unclear("end of a loop body")
                return e
        elif d == "scf":
            return (n, tuple(xs))
        elif nm == "func.return":
            self.ev("Return", tuple(x for x, y in zip(xs, v.operands(o)) if not is_nil(self.vty(y))))
            return ("ret",)
        elif nm == "func.unreachable":
            self.ev("Unreachable", ())
            return ("ret",)
        elif nm in ("func.call", "func.tail_call"):
            r = self.ev("Call" if n == "call" else "ReturnCall", self.p(o, "callee"), tuple(xs))
            if n != "call":
                return ("ret",)
        elif nm in ("func.call_indirect", "func.tail_call_indirect"):
            if n == "call_indirect":
                sg = functy([self.vty(x) for x in v.operands(o)[1:]], self.vty(rs[0]))
            else:
                sg = self.a(o, "func.indirect_call_signature")[3][0]
            r = self.ev("CallIndirect" if n == "call_indirect" else "ReturnCallIndirect", ("as", sg), tuple(xs))
            if n != "call_indirect":
                return ("ret",)
        elif nm == "func.constant":
            r = ("I32Const", (C(self.w.slot(self.p(o, "func_ref"))),), ())
        elif nm == "arith.const":
            k = kind_of(self.vty(rs[0]))
            r = (k.upper() + "Const", (bits(self.a(o, "value")[3][0]),), ())
        elif nm in ("arith.addi", "arith.subi", "arith.muli"):
            r = (kind_of(self.vty(rs[0])).upper() + camel1(n[:-1]), (), tuple(xs))
        elif nm == "core.unrealized_conversion_cast":
            r = self.convert(xs[0], self.vty(v.operands(o)[0]), self.vty(rs[0]))
        elif d == "tribute_rt":
            r = self.rt(n, xs)
        elif d == "adt":
            r = self.adt(o, n, xs, rs)
        else:
            raise Unclear("operation " + nm)
        if rs:
            env[rs[0]] = NULL if r is None or is_nil(self.vty(rs[0])) else r
            self.know(env[rs[0]], self.vty(rs[0]))
        return None

    def rt(self, n, xs):
        x = xs[0]
        if n in ("box_int", "box_nat", "box_bool"):
            r = ("RefI31", (), (x,))
            self.facts.add((r, "i31"))
            return r
        if n in ("unbox_int", "unbox_nat", "unbox_bool"):
            self.facts.add((x, "i31"))
            return self.ev("I31GetS" if n == "unbox_int" else "I31GetU", (), (x,))
        if n == "box_float":
            r = self.ev("StructNew", (self.t(BOXF),), (x,))
            self.fact(r, self.t(BOXF))
            return r
        if n == "unbox_float":
            self.fact(x, self.t(BOXF))
            return self.ev("StructGet", (self.t(BOXF), 0), (x,))
        raise Unclear("tribute_rt." + n)

    def convert(self, x, a, b):
        a_, b_ = tn(a), tn(b)
        ka, kb = kind_of(a), kind_of(b)
        if ka == kb or is_nil(a) and kb == "ref" or is_nil(b):
            self.know(x, b)
            return x
        if ka == "i32" and kb == "ref":
            return self.rt("box_int", [x])
        if ka == "i64" and kb == "ref":
            return self.rt("box_int", [("I32WrapI64", (), (x,))])
        if ka == "ref" and kb == "i32":
            return self.rt("unbox_int", [x])
        raise Unclear(f"conversion {a_} -> {b_}")

    def adt(self, o, n, xs, rs):
        key = lambda: ("v", self.a(o, "type")[3][0], self.p(o, "tag")) if n.startswith("variant") else ("s", self.a(o, "type")[3][0])
        if n in ("struct_new", "variant_new"):
            i = self.t(key())
            fs = fields_of(key()) or ()
            r = self.ev("StructNew", (i,), tuple(xs))
            self.fact(r, i)
            for x, t in zip(xs, fs):
                self.know(x, t)
            return r
        if n in ("struct_get", "variant_get"):
            i = self.t(key())
            self.fact(xs[0], i)
            r = self.ev("StructGet", (i, self.p(o, "field")), (xs[0],))
            fs = fields_of(key())
            if fs and self.p(o, "field") < len(fs):
                self.know(r, fs[self.p(o, "field")])
            return r
        if n == "struct_set":
            i = self.t(key())
            self.fact(xs[0], i)
            self.ev("StructSet", (i, self.p(o, "field")), tuple(xs))
            return None
        if n == "variant_is":
            return ("RefTest", (self.t(key()),), (xs[0],))
        if n == "variant_cast":
            self.fact(xs[0], self.t(key()))
            return xs[0]
        if n == "ref_null":
            return NULL
        if n == "ref_is_null":
            return ("RefIsNull", (), (xs[0],))
        if n == "ref_cast":
            self.know(xs[0], self.a(o, "type")[3][0])
            return xs[0]
        if n == "array_new":
            i = self.t(("a", self.a(o, "type")[3][0]))
            r = self.ev("ArrayNew", (i,), (xs[1], xs[0])) if len(xs) == 2 else self.ev("ArrayNewDefault", (i,), (xs[0],))
            self.fact(r, i)
            return r
        if n in ("array_get", "array_set"):
            i = self.t(("a", self.vty(self.v.operands(o)[0])))
            self.fact(xs[0], i)
            return self.ev("ArrayGet" if n == "array_get" else "ArraySet", (i,), tuple(xs))
        if n == "array_len":
            self.facts.add((xs[0], "array"))
            return self.ev("ArrayLen", (), (xs[0],))
        raise Unclear("adt." + n)


def camel1(n):
    return n[0].upper() + n[1:]


class Tgt(Machine):
    def apply(self, name, pay, xs):
        if name == "RefNull":
            return NULL
        if name.startswith("RefTest"):
            return ("RefTest", pay, tuple(xs))
        if name in CASTS:
            self.trace.append(("cast", name, pay[0], xs[0]))
            return xs[0]
        return super().apply(name, pay, xs)

    def __init__(self, *a):
        super().__init__(*a)
        self.locals = [NULL if x == NIL else x for x in self.locals]


def casts_ok(im, facts, b):
    for e in b.trace:
        if e[0] != "cast":
            continue
        _, name, to, x = e
        if x == NULL:
            if name == "RefCastNonNull":
                return "casts null to a type without null"
            continue
        if to == "any" or (x, to) in facts or x[0] == "RefI31" and to in ("i31", "eq"):
            continue
        if to == "eq" and any((x, k) in facts for k in ("i31", "struct", "array")):
            continue
        return f"casts {brief(x)} to {im.types[to] if isinstance(to, int) else to}, which the original does not know it to be"
    return None


class World:
    def __init__(self, v, im, fns, names, tmap):
        self.v, self.im, self.fns, self.names, self.tmap = v, im, fns, names, tmap
        self.idx = {n: i for i, n in names.items()}

    def slot(self, f):
        for e in self.im.elems:
            if e[0] == "active" and e[1] == 0 and self.idx.get(f) in e[3]:
                if e[2][0] != "i32_const":
                    raise Unclear("offset of an element segment")
                return e[2][1][1] + e[3].index(self.idx[f])
        raise Bad(f"{f} is not in the function table")

    def same_sig(self, want, got):
        """a call through the table as this source type: every function of that type has that signature"""
        for n, o in self.fns.items():
            if n in self.idx and loose(at_of(self.v, o, "type")) == loose(want):
                if self.im.sig(self.im.func_type(self.idx[n])) != got:
                    return f"calls through the table with the type {brief(got)}, but {n} has the type {brief(self.im.sig(self.im.func_type(self.idx[n])))}"
        return None


def loose(t):
    """source types up to what the representation makes of them"""
    return tuple("nil" if is_nil(x) else "any" if tn(x)[1] == "anyref" else kind_of(x) if kind_of(x) != "ref" else x for x in t[3][1])


def keys_of(v, ops):
    """the object types that the functions use: {key: needs}"""
    out = {}

    def walk(o):
        nm = v.opname(o)
        at_ = dict(v.field("Op", o, "attributes")[1])
        if nm.startswith("adt.variant"):
            out[("v", at_[S("type")][3][0], at_[S("tag")][3][0][1])] = 1
        elif nm in ("adt.struct_new", "adt.struct_get", "adt.struct_set"):
            out[("s", at_[S("type")][3][0])] = 1
        elif nm in ("adt.ref_cast", "adt.ref_null") and tn(at_[S("type")][3][0]) == ("adt", "struct"):
            out[("s", at_[S("type")][3][0])] = 1
        elif nm == "adt.array_new":
            out[("a", at_[S("type")][3][0])] = 1
        elif nm in ("tribute_rt.box_float", "tribute_rt.unbox_float"):
            out[BOXF] = 1
        for r in v.seq(v.field("Op", o, "regions")):
            for b in v.seq(v.field("Region", r, "blocks")):
                for q in v.ops(b):
                    walk(q)
    for o in ops:
        walk(o)
    return list(out)


def fits(im, key, i):
    t = im.types[i]
    if key[0] == "a":
        return t[0] == "array"
    fs = fields_of(key)
    if t[0] != "struct" or fs is None or len(fs) != len(t[1]):
        return False
    for f, (s, mut) in zip(fs, t[1]):
        k = kind_of(f)
        if (k == "ref") != isinstance(s, tuple) or (k != "ref" and s != k):
            return False
    return True


def used_types(im):
    out = set()
    for _, ins in im.code:
        for i in ins:
            if i.n in ("StructNew", "ArrayNew", "ArrayNewDefault", "ArrayGet", "ArraySet"):
                out.add(num(i.p[0]))
            elif i.n in ("StructGet", "StructSet"):
                out.add(num(i.g("struct_type_index")))
            elif i.n in CASTS or i.n.startswith("RefTest"):
                h = heap_type(i.p[0])
                if isinstance(h, int):
                    out.add(h)
    return out


def assignments(im, keys):
    """ways to match the object types of the program with those of the module"""
    used = sorted(used_types(im))
    cands = []
    for k in keys:
        c = [i for i in used if fits(im, k, i)]
        if not c:
            c = [i for i in range(len(im.types)) if fits(im, k, i)][:1]
        if not c:
            raise Bad(f"the module has no type for {brief(k)}")
        cands.append(c)
    n = 0
    for c in itertools.product(*cands):
        if len(set(c)) == len(c):
            n += 1
            if n > 400:
                raise Unclear("too many ways to match the types")
            yield dict(zip(keys, c))
    if not n:
        yield {}


def compare22(w, o, i, budget=7):
    todo, count = [{}], 0
    while todo:
        fixed = todo.pop()

        def oracle(k, options):
            if k in fixed:
                return fixed[k]
            raise Need(k, options)
        a = Src(w.v, o, w, oracle) if not callable(o) else o(oracle)
        full = True
        try:
            a.run()
        except Need as n:
            if len(fixed) < budget:
                todo += [{**fixed, n.key: x} for x in n.options]
                continue
            full = False
        b = Tgt(w.im, i, w.names, oracle)
        over = a.steps > a.maxsteps
        try:
            b.run()
        except Need as n:
            if full and not over:
                return f"branches on {brief(n.key)}, which the original does not"
        over = over or b.steps > b.maxsteps or not full
        count += 1
        x, y = [e for e in a.trace if e[0] != "cast"], [e for e in b.trace if e[0] != "cast"]
        if over:
            k = min(len(x), len(y))
            x, y = x[:k], y[:k]
        else:
            c = casts_ok(w.im, a.facts, b)
            if c:
                return c
        for j, e in enumerate(y):
            if j >= len(x):
                return f"performs {brief(e)} although the original is finished"
            s = x[j]
            if s == e:
                continue
            if s[0] == e[0] and s[0] in ("CallIndirect", "ReturnCallIndirect") and s[2] == e[2] and s[1][0] == "as":
                if e[1][1] != 0:
                    return "calls through another table"
                c = w.same_sig(s[1][1], e[1][0])
                if c:
                    return c
                continue
            return f"after {j} effects performs {brief(e)} instead of {brief(s)}"
        if len(y) < len(x):
            return f"does not perform {brief(x[len(y)])}"
    return None


class Fixed(Run):
    """an execution given as a function of the oracle"""
    def __init__(self, f, oracle):
        super().__init__(oracle)
        self.go, self.facts = f, set()

    def run(self):
        self.go(self)
        return self.trace


def stages(ctx, text, hold, attrs=None, sigs=None, prep=None, **kw):
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        v = h.view(st)
        fns = {}
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func":
                n = at_of(v, o, "sym_name")[1]
                rs = v.seq(v.field("Op", o, "regions"))
                ps = []
                if rs:
                    for x in v.seq(v.field("Block", v.seq(v.field("Region", rs[0], "blocks"))[0], "args")):
                        ps.append(eng.project(st, x, ("f", 0, "ty")))
                put(h, o, "type", at("Type", functy(ps, ty((sigs or {}).get(n, "core.i32")))))
                fns[n] = o
            for kk, x in (attrs or {}).get(t, {}).items():
                put(h, o, kk, x)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        if prep:
            prep(eng, st, h, lay, m)
        hold.update(h=h, m=m, lay=lay, fns=fns, view=h.view(st.fork()))
        M = ("adt", mod, "Module", (m,), mf)
        r = call1(eng, st, LOW, [h.ref, M])
        if r[0] == "adt" and r[2] != "Ok":
            raise absint.Definite("the lowering to WebAssembly is refused: " + brief(r))
        tc = call1(eng, st, CONV, [h.ref])
        r = call1(eng, st, CASTS_, [h.ref, M, eng.ref_to(st, tc)])
        un = eng.freeze(st, eng.project(st, r, ("f", 0, "unresolved")))
        if un[0] == "seq" and un[1]:
            raise absint.Definite("a conversion is left unresolved: " + brief(un))
        r = call1(eng, st, FIN, [h.ref, M])
        if r[0] == "adt" and r[2] != "Ok":
            raise absint.Definite("the assignment of type indices is refused: " + brief(r))
        hold["after"] = h.view(st.fork())
        return [h.ref, M]
    return ctx.run(EMIT, setup=setup, max_depth=80, max_rec=16, max_visits=400, ext_hook=wasmfn.hook, registry=True, **kw)


from engine import absint          # noqa: E402


def judge(ctx, key, rs, e, hold, start=None, extra=None):
    w = ctx.where(LOW)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("bad", f"{key}: emission stops: {r.end}") if not r.conds else ("unk", str(r.end))
            elif r.ret[0] != "adt" or r.ret[2] != "Ok":
                x = ("bad", f"{key}: emission is refused: {brief(r.ret)}") if r.ret[0] == "adt" else ("unk", "result")
            else:
                image(hold, Image(r.events), start, extra)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            x = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, x))
    ctx.verdicts(key, out, w)


def defs(v, m):
    out = []
    for o in v.ops(v.seq(v.field("Region", v.seq(v.field("Op", m, "regions"))[0], "blocks"))[0]):
        if v.opname(o) == "core.module":
            out += defs(v, o)
        else:
            out.append((v.opname(o).split(".")[1], o))
    return out


def image(hold, im, start, extra):
    v, after = hold["view"], hold["after"]
    ds = defs(after, hold["m"])
    imps = [o for k, o in ds if k == "import_func"]
    fs = [o for k, o in ds if k == "func"]
    names = {i: at_of(after, o, "sym_name")[1] for i, o in enumerate(imps + fs)}
    if len(im.funcs) != len(fs) or len(im.imports) != len(imps):
        raise Bad(f"{len(im.funcs)} functions are encoded instead of {len(fs)}")
    idx = {n: i for i, n in names.items()}
    want = {n: o for n, o in hold["fns"].items() if v.seq(v.field("Op", o, "regions"))}
    for n in want:
        if n not in idx:
            raise Bad(f"function {n} is missing")
    validate(im)
    for n, o in want.items():
        t = at_of(v, o, "type")
        ps, rs_ = im.sig(im.func_type(idx[n]))
        if len(ps) != len(t[3][1]) - 1 or len(rs_) != (0 if is_nil(t[3][1][0]) else 1):
            raise Bad(f"{n} has the type {brief((ps, rs_))}")
        for s, p in zip(list(ps) + list(rs_), list(t[3][1][1:]) + list(t[3][1][:1])):
            k = kind_of(p)
            if (k == "ref") != isinstance(s, tuple) or k != "ref" and s != k:
                raise Bad(f"{n} has the type {brief((ps, rs_))}")
    ks = keys_of(v, want.values())
    first = None
    for tm in assignments(im, ks):
        w = World(v, im, want, names, tm)
        bad = None
        for n, o in want.items():
            t = compare22(w, o, idx[n] - len(imps))
            if t:
                bad = f"{n} {t}"
                break
        if not bad:
            first = None
            break
        first = first or bad
    if first:
        raise Bad(first)
    if start:
        if "_start" not in idx:
            raise Bad("there is no _start function")
        w.idx = idx
        t = compare22(w, lambda orc: Fixed(start(w), orc), idx["_start"] - len(imps))
        if t:
            raise Bad("_start " + t)
        ex = {n: (k, i) for n, k, i in im.exports}
        for n in ("main", "_start"):
            if ex.get(n) != ("Func", idx[n]):
                raise Bad(f"{n} is exported as {ex.get(n)}")
    if extra:
        extra(w, im, names)


def case(ctx, key, text, sigs=None, attrs=None, start=None, extra=None, prep=None):
    hold = {}
    rs, e = stages(ctx, text, hold, attrs, sigs, prep)
    judge(ctx, key, rs, e, hold, start, extra)


from .a22_shapes import *          # noqa: E402


def check(ctx):
    ctx.rule("the WebAssembly module is valid, has every function with the arity and number types of the original, and each function "
             "performs what the original performs, on objects whose types are told apart where the original tells them apart")
    ctx.parallel([lambda c=c: case(ctx, *c[0], **c[1]) for c in CASES])

"""A21: the WebAssembly module says what the wasm-dialect module says."""
from .a11 import mod_of, put
from .a13 import at
from .lowering import *
from .wasm_emit import camel
from engine.heap import *
from engine.irtrace import Layout, attr, ty, NAMED
from engine.rules import *
from engine import absint, wasmfn
from engine.wasmfn import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The emission of a whole module is analysed on modules with functions of every control shape and every kind of definition; the "
               "encoded module is read back, checked by the rules of WebAssembly validation, its tables of contents are compared with the "
               "definitions, and the executions of its functions on an abstract stack machine with those of the wasm-dialect functions.")
ASSUMPTIONS = ["executions are compared for the first seven undetermined branches",
               "the encoder library encodes what it is told; conversions of the numbers given to it do not change them"]
EMIT = "trunk_ir_wasm_backend::translate::emit_module_to_wasm"
VT = {"i1": "i32", "i32": "i32", "i64": "i64", "f32": "f32", "f64": "f64", "ptr": "i32"}
WT = {"anyref": "any", "funcref": "func", "structref": "struct", "i31ref": "i31"}


def fty(spec):
    """'i32 i64 -> f64' -> core.func type"""
    ps, r = spec.split("->")
    return ("ty", S("core"), S("func"), ("seq", tuple(tyn(x) for x in [r.strip()] + ps.split())), ("map", ()))


def tyn(n):
    if n in VT or n == "nil" or n == "bytes":
        return ty("core." + n)
    if n in WT or n == "arrayref":
        return ty("wasm." + n)
    return ty(n)


def vt(t):
    d, n = t[1][1], t[2][1]
    if d == "core" and n in VT:
        return VT[n]
    if d == "core" and n == "bytes":
        return ("ref", False, 2)
    if d == "core" and n == "nil":
        return ("ref", True, "none")
    if d == "wasm" and n in WT:
        return ("ref", True, WT[n])
    raise Unclear("type of a signature")


def is_nil(t):
    return t is not None and t[0] == "ty" and t[1] == S("core") and t[2] == S("nil")


def sigs(t):
    ts = t[3][1]
    return tuple(vt(x) for x in ts[1:]), () if is_nil(ts[0]) else (vt(ts[0]),)


class Src(Run):
    """A function of the wasm dialect."""

    def __init__(self, v, f, oracle):
        super().__init__(oracle)
        self.v, self.f = v, f
        self.loc = {}

    def a(self, o, k, need=True):
        m = self.v.field("Op", o, "attributes")
        if m is None or m[0] != "map":
            raise Unclear("attributes")
        for kk, x in m[1]:
            if kk == S(k):
                return x
        if need:
            raise Unclear(f"{self.v.opname(o)} has no {k}")
        return None

    def i(self, o, k):
        return self.a(o, k)[3][0][1]

    def sym(self, o, k):
        return self.a(o, k)[3][0][1]

    def vty(self, x):
        d = self.v.field("Value", x, "def")
        if d is None or d[0] != "adt":
            raise Unclear("type of a value")
        i = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[i]
        a = self.v.seq(self.v.field("Block", d[3][0], "args"))[i]
        return self.v.eng.project(self.v.st, a, ("f", 0, "ty"))

    def run(self):
        v = self.v
        b = v.seq(v.field("Region", v.seq(v.field("Op", self.f, "regions"))[0], "blocks"))[0]
        env = {}
        for i, x in enumerate(v.bargs(b)):
            env[x] = ("param", i)
        try:
            r = self.body(b, env)
            if r[0] == "fall":
                if self.results():
                    raise Bad("a function ends without a value")
                self.ev("Return", ())
        except Stop:
            pass
        return self.trace

    def results(self):
        t = self.a(self.f, "type")[3][0]
        return 0 if is_nil(t[3][1][0]) else 1

    def body(self, b, env):
        """-> ('fall', value or None) | ('br', depth, value or None) | ('ret',)"""
        y = None
        last = None
        for o in self.v.ops(b):
            self.tick()
            nm = self.v.opname(o)
            if nm == "wasm.yield":
                y = env[self.v.operands(o)[0]]
                last = y
                continue
            r = self.op(o, env, y)
            y = None
            if r is not None:
                return r
            rs = self.v.results(o)
            last = env.get(rs[0]) if rs else None
        return ("fall", last)

    def region(self, o, k):
        return self.v.seq(self.v.field("Region", self.v.seq(self.v.field("Op", o, "regions"))[k], "blocks"))[0]

    def out(self, o, env, r):
        """an ended block op: bind its result or pass the branch on"""
        if r[0] == "br":
            if r[1] > 0:
                return ("br", r[1] - 1, r[2])
        elif r[0] == "ret":
            return r
        rs = self.v.results(o)
        if rs:
            if is_nil(self.vty(rs[0])):
                env[rs[0]] = NIL
            elif (r[1] if r[0] == "fall" else r[2]) is not None:
                env[rs[0]] = r[1] if r[0] == "fall" else r[2]
        return None

    def op(self, o, env, y):
        v = self.v
        nm = v.opname(o)
        n = nm.split(".", 1)[1]
        xs = []
        for x in v.operands(o):
            if x not in env:
                raise Bad(f"{nm} reads a value that is not defined")
            xs.append(env[x])
        rs = v.results(o)
        if n == "if":
            return self.out(o, env, self.body(self.region(o, 0 if self.truth(xs[0]) else 1), env))
        if n == "block":
            return self.out(o, env, self.body(self.region(o, 0), env))
        if n == "loop":
            b = self.region(o, 0)
            vals = xs
            while True:
                self.tick()
                for p, x in zip(v.bargs(b), vals):
                    env[p] = x
                r = self.body(b, env)
                if r[0] == "br" and r[1] == 0:
                    if len(vals) > 1:
                        raise Unclear("several loop values")
                    if vals:
                        vals = [r[2]] if r[2] is not None else vals
                    continue
                if r[0] == "br":
                    return ("br", r[1] - 1, r[2])
                return self.out(o, env, r)
        if n == "br":
            return ("br", self.i(o, "target"), y)
        if n == "br_if":
            if self.truth(xs[0]):
                return ("br", self.i(o, "target"), None)
            return None
        if n == "return":
            self.ev("Return", tuple(xs))
            return ("ret",)
        if n == "unreachable":
            self.ev("Unreachable", ())
            return ("ret",)
        if n in ("call", "return_call"):
            r = self.ev(camel(n), self.sym(o, "callee"), tuple(xs))
            if n == "return_call":
                return ("ret",)
        elif n == "call_indirect":
            sg = (tuple(vt(self.vty(x)) for x in v.operands(o)[1:]), () if is_nil(self.vty(rs[0])) else (vt(self.vty(rs[0])),))
            r = self.ev("CallIndirect", (sg, self.i(o, "table")), tuple(xs))
        elif n == "return_call_indirect":
            self.ev("ReturnCallIndirect", (sigs(self.a(o, SIGATTR)[3][0]), self.i(o, "table")), tuple(xs))
            return ("ret",)
        elif n == "drop":
            return None
        elif n == "nop":
            r = NIL if rs and is_nil(self.vty(rs[0])) else ("RefNull", (vt(self.vty(rs[0]))[2],), ())
        elif n == "bytes_from_data":
            k = lambda z: ("I32Const", (C(z),), ())
            ar = self.ev("ArrayNewData", (1, self.i(o, "data_idx")), (k(self.i(o, "offset")), k(self.i(o, "len"))))
            r = self.ev("StructNew", (2,), (ar, k(0), k(self.i(o, "len"))))
        elif n == "local_set":
            self.loc[self.i(o, "index")] = xs[0]
            return None
        elif n == "local_get":
            r = self.loc[self.i(o, "index")]
        elif n == "local_tee":
            self.loc[self.i(o, "index")] = r = xs[0]
        else:
            name, pay = camel(n), ()
            if n.endswith("_const"):
                pay = (bits(self.a(o, "value")[3][0]),)
            elif LOAD.match(name) or STORE.match(name):
                pay = (self.i(o, "offset"), self.i(o, "memory"))
            elif n in ("global_get", "global_set"):
                pay = (self.i(o, "index"),)
            elif n in ("memory_size", "memory_grow"):
                pay = (self.i(o, "memory"),)
            elif n == "ref_null":
                t = self.a(o, "type_idx", False)
                pay = (t[3][0][1] if t else HT[self.sym(o, "heap_type")],)
            elif n == "ref_func":
                pay = (self.sym(o, "func_name"),)
            elif n in ("ref_cast", "ref_test"):
                t = self.a(o, "type_idx", False)
                pay = (t[3][0][1] if t else HT[self.a(o, "target_type")[3][0][2][1]],)
                name = "RefTestNullable" if n == "ref_test" else "RefCastNonNull" if vt_or(self.vty(rs[0])) == ("ref", False, 2) else "RefCastNullable"
            elif n in ("struct_new", "array_new", "array_new_default", "array_get", "array_get_s", "array_get_u", "array_set"):
                pay = (self.i(o, "type_idx"),)
                if n == "array_new":
                    xs = xs[::-1]               # WebAssembly takes the value first, then the length
            elif n in ("struct_get", "struct_set"):
                pay = (self.i(o, "type_idx"), self.i(o, "field_idx"))
            elif n == "array_copy":
                pay = (self.i(o, "dst_type_idx"), self.i(o, "src_type_idx"))
            r = self.apply(name, pay, xs)
        if rs:
            env[rs[0]] = NIL if is_nil(self.vty(rs[0])) else r
        return None


def vt_or(t):
    try:
        return vt(t)
    except Unclear:
        return None


SIGATTR = "func.indirect_call_signature"
HT = {"any": "any", "anyref": "any", "func": "func", "funcref": "func", "extern": "extern", "externref": "extern", "none": "none", "struct": "struct",
      "structref": "struct", "array": "array", "arrayref": "array", "i31": "i31", "i31ref": "i31", "eq": "eq", "eqref": "eq"}


def emit(ctx, text, types, hold, attrs=None, entry=EMIT):
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        v0 = h.view(st)
        for tag, o in lay.ops.items():
            k = tag.rsplit(".", 1)[0] if tag.count(".") == 2 else tag
            if k in ("wasm.func", "wasm.import_func"):
                n = next(x[3][0][1] for kk, x in v0.field("Op", o, "attributes")[1] if kk == S("sym_name"))
                put(h, o, "type", at("Type", fty(types.get(n, types.get("*", "-> nil")))))
            for kk, x in (attrs or {}).get(tag, {}).items():
                put(h, o, kk, x)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        hold.update(h=h, m=m, lay=lay, view=h.view(st.fork()))
        return [h.ref, ("adt", mod, "Module", (m,), mf)]
    return ctx.run(entry, setup=setup, max_depth=60, max_rec=14, ext_hook=wasmfn.hook)


def defs(v, m):
    """definitions of a module in order: [(kind, op)]"""
    out = []
    for o in v.ops(v.seq(v.field("Region", v.seq(v.field("Op", m, "regions"))[0], "blocks"))[0]):
        if v.opname(o) == "core.module":
            out += defs(v, o)
        else:
            out.append((v.opname(o).split(".")[1], o))
    return out


def at_of(v, o, k):
    for kk, x in v.field("Op", o, "attributes")[1]:
        if kk == S(k):
            return x[3][0] if x[0] == "adt" else x
    return None


def judge(ctx, key, rs, e, hold, extra=None):
    w = ctx.where(EMIT)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("bad", f"{key}: emission stops: {r.end}") if not r.conds else ("unk", str(r.end))
            elif r.ret[0] != "adt" or r.ret[2] != "Ok":
                x = ("bad", f"{key}: emission is refused: {brief(r.ret)}") if r.ret[0] == "adt" else ("unk", "result")
            else:
                image(hold["view"], hold["m"], Image(r.events), extra)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            x = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, x))
    ctx.verdicts(key, out, w)


def image(v, m, im, extra):
    ds = defs(v, m)
    imps = [o for k, o in ds if k == "import_func"]
    fns = [o for k, o in ds if k == "func"]
    names = {i: at_of(v, o, "sym_name")[1] for i, o in enumerate(imps + fns)}
    if len(im.imports) != len(imps) or len(im.funcs) != len(fns):
        raise Bad(f"{len(im.imports)} imports and {len(im.funcs)} functions instead of {len(imps)} and {len(fns)}")
    for o, (mo, na, t) in zip(imps, im.imports):
        if (mo, na) != (at_of(v, o, "module")[1], at_of(v, o, "name")[1]):
            raise Bad(f"import {at_of(v, o, 'sym_name')[1]} is imported as {mo}.{na}")
    for i, o in enumerate(imps + fns):
        try:
            want = sigs(at_of(v, o, "type"))
        except Unclear:
            continue
        got = im.sig(im.func_type(i))
        if got != want:
            raise Bad(f"{names[i]} is declared with the type {brief(got)} instead of {brief(want)}")
    idx = {n: i for i, n in names.items()}
    exps = []
    for k, o in ds:
        if k == "export_func":
            exps.append((at_of(v, o, "name")[1], "Func", idx[at_of(v, o, "func")[1]]))
        elif k == "export_memory":
            exps.append((at_of(v, o, "name")[1], "Memory", at_of(v, o, "index")[1]))
    if not exps:
        exps = [(at_of(v, o, "sym_name")[1], "Func", idx[at_of(v, o, "sym_name")[1]]) for o in fns]
    if sorted(im.exports) != sorted(exps):
        raise Bad(f"the exports are {im.exports} instead of {exps}")
    if extra:
        extra(v, ds, im, idx)
    validate(im)
    for i, o in enumerate(fns):
        t, n = compare(lambda orc: Src(v, o, orc), lambda orc: Machine(im, i, names, orc))
        if t:
            raise Bad(f"{names[len(imps) + i]} {t}")


def case(ctx, key, text, types, attrs=None, extra=None):
    hold = {}
    rs, e = emit(ctx, text, types, hold, attrs)
    judge(ctx, key, rs, e, hold, extra)


def reject(ctx, key, text, types, attrs):
    hold = {}
    rs, e = emit(ctx, text, types, hold, attrs)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        if r.end == "ret" and r.ret[0] == "adt" and r.ret[2] == "Ok":
            x = ("bad", f"{key}: a module is emitted")
        elif r.end == "ret" and r.ret[0] != "adt":
            x = ("unk", "result")
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(EMIT))


from .a21_shapes import *          # noqa: E402


def check(ctx):
    ctx.rule("emission: the encoded module is valid, its imports, functions, exports, tables, memories, globals and data are those of the "
             "wasm-dialect module, and each function performs what its original performs")
    thunks = []
    for name, types, text in FUNCS:
        thunks.append(lambda name=name, types=types, text=text: case(ctx, "function: " + name, "wasm.func {sym_name=@f}\n" + text,
                                                                     {"f": types} if isinstance(types, str) else types))
    for name, types, text, attrs, extra in MODULES:
        thunks.append(lambda a=(name, types, text, attrs, extra): case(ctx, "module: " + a[0], a[2], a[1], a[3], a[4]))
    ctx.rule("emission is refused where a function, an operation or a parameter is missing")
    for name, types, text, attrs in REJECTS:
        thunks.append(lambda a=(name, types, text, attrs): reject(ctx, "refused: " + a[0], a[2], a[1], a[3]))
    ctx.parallel(thunks)

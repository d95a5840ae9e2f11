"""A33: a cast between representations is resolved to the conversion that keeps the value, or kept and reported."""
from .a11 import functy, put, mod_of
from .a13 import at, struct, enumt
from .lowering import *
from engine.heap import *
from engine import irtrace, absint
from engine.clifmem import type_of
from .a09 import reach_ops
from engine.irtrace import Layout, attr, ty, NAMED, Unclear, Bad
from engine.rules import *
from engine.absint import T, C, S, Budget

LEVEL = "other"
EXPLANATION = ("Cast resolution is analysed as a whole with the target-independent, the WebAssembly and the native type converter, on abstract functions that "
               "cast between every pair of types, alone, in chains, in branches and in nested regions; the operations that remain are evaluated "
               "on abstract values and compared with what the casts mean.")
ASSUMPTIONS = ["integers, naturals and booleans share the representation of 32-bit integers until they are boxed",
               "the sign of naturals of more than 30 bits is not tracked"]
CAST = "trunk_ir::conversion::resolve_unrealized_casts::resolve_unrealized_casts"
GEN, WASM = "tribute_passes::type_converter::generic_type_converter", "tribute_passes::wasm::type_converter::wasm_type_converter"
NAT = "tribute_passes::native::type_converter::native_type_converter"
UC = "core.unrealized_conversion_cast"


def bare(d, n, params=(), attrs=()):
    return ("ty", S(d), S(n), ("seq", tuple(params)), ("map", tuple(attrs)))


TY = {k: ty("core." + k) for k in ("i1", "i32", "i64", "f32", "f64", "nil", "ptr", "bytes")}
TY.update({k: ty("tribute_rt." + k) for k in ("int", "nat", "bool", "float", "anyref", "intref")})
TY.update({"w." + k: ty("wasm." + k) for k in ("anyref", "i31ref", "structref", "arrayref")})
TY["struct"] = struct("Node", [("f", TY["i32"])])
TY["struct2"] = struct("Other", [("f", TY["f64"]), ("g", TY["i32"])])
TY["typeref"] = bare("adt", "typeref")
TY["array"] = bare("core", "array", [TY["i32"]])
TY["func"] = functy([TY["i32"]], TY["i32"])
TY["closure"] = bare("closure", "closure", [functy([TY["i32"]], TY["i32"])])
for _k, _t in TY.items():
    NAMED["T33_" + _k.replace(".", "_")] = _t
INT, FLOAT = ("int", "nat", "i32"), ("float", "f64")
NUM = {"int": "i32", "nat": "i32", "bool": "i32", "i32": "i32", "i1": "i1", "i64": "i64", "float": "f64", "f64": "f64", "f32": "f32"}


def n33(k):
    return "T33_" + k.replace(".", "_")


# ---- what a cast means --------------------------------------------------------------------------------------------------------
def kind(k):
    return "int" if k in INT else "bool" if k in ("bool", "i1") else "float" if k in FLOAT else None


def generic(f, t, x):
    """the value of a cast of `x` from f to t, or None if it is not resolved; "?" if both are fine"""
    if TY[f] == TY[t]:
        return x
    if f in NUM and t in NUM:
        return x if f != "i1" and t != "i1" and NUM[f] == NUM[t] and (t not in NUM or f == NUM[t] or NUM[t] == t or NUM[f] == NUM[t]) else None
    if t == "anyref":
        return ("box", kind(f), x) if kind(f) else x if f in ("struct", "struct2", "typeref") else None
    if f == "anyref":
        k = {"bool": "int"}.get(t) or kind(t)          # booleans are integers once their type is converted
        return unbox(k, x, t) if kind(t) else x if t in ("struct", "struct2", "typeref") else None
    return None


def unbox(k, x, t=None):
    if x[0] == "box":
        if x[1] == k or {x[1], k} <= {"int", "bool"}:
            return x[2]
        raise Bad(f"a boxed {x[1]} is unboxed as {k}")
    return ("unbox", "int" if k == "bool" and t == "bool" else k, x)


SUB = {"w.anyref": 0, "w.structref": 1, "w.arrayref": 1, "w.i31ref": 1}
WT = {"int": "i32", "nat": "i32", "bool": "i32", "i1": "i32", "float": "f64", "intref": "w.i31ref", "anyref": "w.anyref", "typeref": "w.structref",
      "closure": "$closure", "array": "w.arrayref"}


def wrep(k):
    return WT.get(k, k)


def wasm(f, t, x):
    f0, f, t = f, wrep(f), wrep(t)
    if f == t:
        return x
    st = ("w.structref", "struct", "struct2", "$closure", "bytes")
    if t == "w.anyref":
        if f in ("i32", "i64"):
            if f0 in ("int", "nat", "bool", "i1"):          # boxed only once their type is converted
                return None
            return ("i31", x if f == "i32" else ("wrap", x))
        if f == "nil":
            return ("null",)
        return x if f in st + ("w.i31ref", "w.arrayref") and f0 not in ("array", "intref", "closure") else "?" if f in st + ("w.i31ref", "w.arrayref") else None
    if f == "w.anyref":
        if t == "i32":
            return get31(x)
        if t in ("ptr", "nil"):
            return x if t == "ptr" else "?"
        return ("down", t, x) if t in st + ("w.arrayref",) else None
    if t == "w.structref" and f in st:
        return x
    if f0 == "closure":
        return None
    if f in st and t in st:
        return ("down", t, x)
    return None


def get31(x):
    if x[0] == "i31":
        return x[1]
    if x[0] == "null":
        raise Bad("nothing is unboxed as a number")
    return ("get31", x)


PTR = ("anyref", "ptr", "intref", "struct", "struct2", "typeref", "array", "closure", "func", "bytes")
NT = {"int": "i32", "nat": "i32", "bool": "i32", "i1": "i32", "float": "f64"}
NT.update({k: "ptr" for k in PTR})
SIZE = {"i32": 4, "i64": 8, "f64": 8}


def native(f, t, x):
    if TY[f] == TY[t]:
        return x
    f0, f, t0, t = f, NT.get(f, f), t, NT.get(t, t)
    if f0 == t or f == t:
        return x
    if t == "ptr":
        if t0 not in ("anyref", "ptr", "intref"):
            return "?"
        if f in SIZE:
            return ("nbox", f, x) if f0 == f else None       # boxed only once their type is converted
        return ("int", 0) if f == "nil" else None
    if f == "ptr" and f0 in ("ptr", "anyref"):
        if t in SIZE:
            if x[0] == "nbox":
                if x[1] != t:
                    raise Bad(f"a boxed {x[1]} is read as {t}")
                return x[2]
            return ("load", t, x)
        return "?" if t == "nil" else None
    return None


# ---- evaluation of what is left ------------------------------------------------------------------------------------------------
TAGS = {}
for _k, _t in TY.items():
    TAGS.setdefault(_t, _k)


class Ev:
    def __init__(self, v, gen):
        self.v, self.mode = v, gen
        self.gen, self.nat = gen == GEN, gen == NAT
        self.mem, self.news = {}, {}

    def val(self, x, env):
        if x in env:
            return env[x]
        raise Bad("a value is read that is not defined there")

    def tag(self, t):
        k = TAGS.get(t)
        if k is None:
            n = [a for a in t[4][1] if a[0] == S("name")] if t[0] == "ty" else []
            return "$closure" if n and n[0][1][3][0] == S("_closure") else brief(t, 60)
        return k if self.gen else NT.get(k, k) if self.nat else wrep(k)

    def block(self, b, env):
        v = self.v
        for o in v.ops(b):
            n = v.opname(o)
            a = [self.val(x, env) for x in v.operands(o)]
            rs = v.results(o)
            if n not in ("clif.store", "clif.iadd", "clif.load"):
                a = [self.boxed(x) for x in a]
            if n == "clif.store" and self.nat and len(a) == 2 and a[1][0] == "addr":
                tx = NT.get(TAGS.get(type_of(v, v.operands(o)[0])), TAGS.get(type_of(v, v.operands(o)[0])))
                self.mem[a[1][1], a[1][2] + self.num(o, "offset")] = (tx, self.boxed(a[0]))
                continue
            if n in ("t.use", "func.return", "t.if", "t.loop"):
                self.seen.append((o[2], tuple(a)))
                for i, r in enumerate(rs):
                    env[r] = ("r", o[2], i)
                for r in v.seq(v.field("Op", o, "regions")):
                    for q in v.seq(v.field("Region", r, "blocks")):
                        e = dict(env)
                        e.update({x: ("arg", q[2], i) for i, x in enumerate(v.bargs(q))})
                        self.block(q, e)
                continue
            if len(rs) != 1:
                raise Bad(f"{n} is added")
            t = type_of(v, rs[0])
            env[rs[0]] = self.op(n, o, a, t)

    def num(self, o, k):
        for key, x in self.v.field("Op", o, "attributes")[1]:
            if key == S(k):
                x = x[3][0]
                if x[0] == "c":
                    return x[1]
        raise Unclear(f"{k} of {self.v.opname(o)}")

    def boxed(self, x):
        """the box an address is the payload of"""
        if x[0] != "addr":
            return x
        n, k = self.news[x[1]], x[1]
        cells = {off: c for (i, off), c in self.mem.items() if i == k}
        if x[2] != 8 or set(cells) != {0, 4, 8} or cells[0] != ("i32", ("int", 1)) or cells[4] != ("i32", ("int", 0)):
            raise Bad(f"a new object is used at {x[2]} with {sorted((o, show((c[1],))) for o, c in cells.items())} stored in it")
        t, y = cells[8]
        if SIZE.get(t, 99) + 8 > n:
            raise Bad(f"{n} bytes are allocated for a {t}")
        return ("nbox", t, y)

    def nop(self, n, o, a, t):
        v = self.v
        if n == "clif.iconst":
            return ("int", self.num(o, "value"))
        if n == "clif.call":
            c = dict((k, x) for k, x in v.field("Op", o, "attributes")[1]).get(S("callee"))
            if c is None or c[3][0] != S("__tribute_alloc") or len(a) != 1 or a[0][0] != "int":
                raise Unclear("a call")
            self.news[o] = a[0][1]
            return ("addr", o, 0)
        if n == "clif.iadd":
            d = [x for x in a if x[0] == "addr"]
            k = [x for x in a if x[0] == "int"]
            if len(d) == 1 and len(k) == 1:
                return ("addr", d[0][1], d[0][2] + k[0][1])
        if n == "clif.load":
            k = TAGS.get(t)
            k = NT.get(k, k)
            off = self.num(o, "offset")
            x = self.boxed(a[0])
            if off != 0:
                raise Bad(f"a box is read at {off}")
            if x[0] == "nbox":
                if x[1] != k:
                    raise Bad(f"a boxed {x[1]} is read as {k}")
                return x[2]
            return ("load", k, x)
        raise Bad(f"{n} is added")

    def op(self, n, o, a, t):
        v = self.v
        if n == UC:
            self.kept.append(o)
            return ("kept", self.tag(t), a[0])
        if self.nat:
            return self.nop(n, o, a, t)
        if self.gen and n.startswith("tribute_rt.box_"):
            if t != TY["anyref"]:
                raise Bad(f"a box has the type {brief(t, 60)}")
            k = n[len("tribute_rt.box_"):]
            return ("box", "int" if k == "nat" else k, a[0])
        if self.gen and n.startswith("tribute_rt.unbox_"):
            k = n[len("tribute_rt.unbox_"):]
            k = "int" if k == "nat" else k
            ok = {"int": ("i32", "int", "nat", "bool"), "bool": ("i1", "bool", "i32"), "float": ("f64", "float")}[k]
            if TAGS.get(t) not in ok:
                raise Bad(f"{n} gives {brief(t, 60)}")
            return unbox(k, a[0])
        if n == "wasm.ref_i31":
            return ("i31", a[0])
        if n == "wasm.i32_wrap_i64":
            return ("wrap", a[0])
        if n == "wasm.ref_null":
            return ("null",)
        if n in ("wasm.i31_get_s", "wasm.i31_get_u"):
            x = a[0]
            return get31(x[2] if x[0] == "down" and x[1] == "w.i31ref" else x if x[0] == "i31" else self.fail("a number is read from a reference that is no i31ref"))
        if n in ("wasm.ref_cast", "wasm_gc.ref_cast"):
            k = self.tag(t)
            tt = self.v.field("Op", o, "attributes")
            for key, x in tt[1]:
                if key == S("target_type") and x[2] == "Type" and x[3][0] != t:
                    raise Bad("a cast names another type than its result's")
            x = a[0]
            if k in ("w.anyref",):
                return x
            if x[0] == "i31":
                return x if k == "w.i31ref" else self.fail(f"a number is cast to {k}")
            if x[0] == "null":
                return x
            return ("down", k, x)
        raise Bad(f"{n} is added")

    def fail(self, m):
        raise Bad(m)

    def run(self, f):
        v = self.v
        self.seen, self.kept = [], []
        bs = v.seq(v.field("Region", v.seq(v.field("Op", f, "regions"))[0], "blocks"))
        env = {}
        for b in bs:
            env.update({x: ("p", b[2], i) for i, x in enumerate(v.bargs(b))})
        for b in bs:
            self.block(b, env)
        return self.seen


class Spec(Ev):
    """the same, with casts as they are meant"""
    def op(self, n, o, a, t):
        if n != UC:
            return super().op(n, o, a, t)
        v = self.v
        f, t2 = TAGS[type_of(v, v.operands(o)[0])], TAGS[t]
        # a cast of a value that keeps its type where it comes from
        src = v.operands(o)[0]
        f = self.now.get(src, f)
        r = (generic if self.gen else native if self.nat else wasm)(f, t2, a[0])
        if r is None or r == "?":
            self.now[v.results(o)[0]] = t2
            self.free |= r == "?"
            self.kept.append(o)
            return ("kept", self.tag(t), a[0])
        # the value may have the type it had or the one it is cast to
        same = r == a[0]
        self.now[v.results(o)[0]] = f if same else \
            {"i31": "w.anyref", "null": "w.anyref", "box": "anyref"}.get(r[0], (NUM.get(t2, t2) if self.gen else NT.get(t2, t2) if self.nat else wrep(t2)))
        if not same and r[0] == "down":
            self.now[v.results(o)[0]] = t2 if wrep(t2) in ("$closure",) else wrep(t2)
        return r

    def run(self, f):
        self.now, self.free = {}, False
        return super().run(f)


def strip(x):
    """casts to the same or to a wider type do not matter"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "down" and isinstance(x[2], tuple) and x[2][:2] == x[:2]:
            return strip(x[2])
        return tuple(strip(y) for y in x)
    return x


def conv1(eng, st, conv, h):
    r = call1(eng, st, conv, [h.ref])
    return r[1][0] if r[0] == "tup" else r


def case(ctx, key, conv, text):
    hold = {}
    mod, mf = mod_of(ctx)
    gen = conv

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        v = h.view(st)
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func":
                b = v.seq(v.field("Region", v.seq(v.field("Op", o, "regions"))[0], "blocks"))[0]
                put(h, o, "type", at("Type", functy([type_of(v, x) for x in v.bargs(b)], TY["nil"])))
                hold["f"] = o
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        hold.update(h=h, m=m, v0=h.view(st.fork()))
        s = Spec(hold["v0"], gen)
        hold["want"], hold["nkept"] = s.run(hold["f"]), len(s.kept)
        hold["free"], hold["all"] = s.free, len([o for o in reach_ops(hold["v0"], m) if hold["v0"].opname(o) == UC])
        return [h.ref, ("adt", mod, "Module", (m,), mf), eng.ref_to(st, conv1(eng, st, conv, h))]
    rs, e = ctx.run(CAST, setup=setup, max_depth=60, max_rec=12)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                raise Bad(f"the resolution stops: {r.end}")
            v = hold["h"].view(r.st)
            if not any(o == hold["f"] for o in reach_ops(v, hold["m"])):
                raise Bad("the function is gone")
            g = Ev(v, gen)
            got = g.run(hold["f"])
            bad, _ = invariants(v, set(o for o in v.all("Op") if o not in reach_ops(v, hold["m"])))
            if bad:
                raise Bad("; ".join(bad[:2]))
            if not hold["free"]:
                if len(got) != len(hold["want"]):
                    raise Bad(f"{len(got)} of {len(hold['want'])} operations remain")
                for (o1, a1), (o2, a2) in zip(got, hold["want"]):
                    if o1 != o2 or strip(a1) != strip(a2):
                        raise Bad(f"{o2} reads {show(a1)} instead of {show(a2)}")
            d = dict(zip(r.ret[4], r.ret[3])) if r.ret[0] == "adt" else {}
            u = v.seq(d.get("unresolved")) if d.get("unresolved") is not None else None
            if u is None:
                raise Unclear("unresolved")
            if len(u) != len(g.kept):
                raise Bad(f"{len(u)} casts are reported as unresolved, {len(g.kept)} remain")
            fr = []
            for c in u:
                cd = dict(zip(c[4], c[3])) if c[0] == "adt" else {}
                if cd.get("from_type") is None:
                    raise Unclear("from_type")
                fr.append(cd["from_type"])
            if sorted(map(repr, fr)) != sorted(repr(type_of(v, v.operands(o)[0])) for o in g.kept):
                raise Bad("the casts reported as unresolved are not those that remain")
            n = d.get("resolved_count")
            if n is not None and n[0] == "c" and n[1] + len(u) != hold["all"]:
                raise Bad(f"{n[1]} casts are reported as resolved, {hold['all'] - len(u)} were")
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except Unclear as b:
            x = ("unk", str(b))
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(conv))


def show(a):
    def s(x):
        if not isinstance(x, tuple):
            return str(x)
        if x[0] in ("p", "arg"):
            return f"{x[1]}.{x[2]}"
        if x[0] in ("box", "unbox", "down", "kept", "nbox", "load"):
            return f"{x[0]}[{x[1]}]({s(x[2])})"
        if x[0] in ("i31", "get31", "wrap"):
            return f"{x[0]}({s(x[1])})"
        return str(x[0])
    return ", ".join(s(x) for x in a)


def check(ctx):
    ctx.rule("a cast of a number to a reference boxes it by its kind, one of a reference to a number unboxes that kind, one between references changes "
             "nothing but the type, and every other cast is kept and reported")
    for p in (CAST, GEN, WASM, NAT):
        if p not in ctx.P.fns:
            ctx.bad(p, "entry point not found", p)
            return
    jobs = []

    def fn(lines, args):
        return "func.func {sym_name=@f}\n  ^e " + " ".join(args) + "\n" + "\n".join("  " + l for l in lines) + "\n  func.return\n"

    G = ["int", "nat", "bool", "float", "anyref", "i32", "i1", "i64", "f64", "f32", "struct", "struct2", "typeref", "nil", "ptr", "array", "closure", "bytes"]
    W = G + ["intref", "w.anyref", "w.i31ref", "w.structref", "w.arrayref"]
    for conv, ts, n in ((GEN, G, "generic"), (WASM, W, "wasm"), (NAT, G + ["intref", "func"], "native")):
        def job(key, text, conv=conv):
            jobs.append(lambda: case(ctx, key, conv, text))
        for f in ts:
            for t in ts:
                job(f"{n}: {f} to {t}", fn([f"y:{n33(t)} = {UC} x", "t.use y x"], [f"x:{n33(f)}"]))
        # there and back
        for f in ("int", "nat", "bool", "float", "i32", "f64", "struct", "typeref"):
            if n == "wasm" and f in ("float", "f64"):
                continue
            job(f"{n}: {f} to anyref and back", fn([f"y:{n33('anyref')} = {UC} x", f"z:{n33(f)} = {UC} y", "t.use y", "t.use z"], [f"x:{n33(f)}"]))
        A, I, F, B = n33("anyref"), n33("i32"), n33("f64"), n33("bool")
        P = n33("nat" if n == "generic" else "i32")
        job(f"{n}: two casts of one value", fn([f"y:{A} = {UC} x", f"z:{A} = {UC} x", f"w:{I} = {UC} z", "t.use y z w"], [f"x:{P}"]))
        job(f"{n}: casts of different values", fn([f"a:{A} = {UC} x", f"b:{A} = {UC} y", f"p:{I} = {UC} b", f"q:{I} = {UC} a", "t.use a b p q"],
                                                  [f"x:{P}", f"y:{n33('i32')}"]))
        job(f"{n}: casts in nested regions", fn([f"a:{A} = {UC} x", "t.if x", "  t.use a", f"  b:{I} = {UC} a", "  t.if b",
                                                 f"    c:{A} = {UC} b", "    t.use c b a", "|", f"  d:{I} = {UC} y", "  t.use d"],
                                                [f"x:{P}", f"y:{A}"]))
        job(f"{n}: the same cast in two regions", fn(["t.if x", f"  a:{A} = {UC} x", "  t.use a", "|", f"  b:{A} = {UC} x", "  t.use b", f"c:{A} = {UC} x",
                                                      "t.use c", "t.loop", "  ^l y:" + A, f"  d:{I} = {UC} y", "  t.use d"], [f"x:{P}"]))
        job(f"{n}: casts in later blocks", "func.func {sym_name=@f}\n  ^e x:%s y:%s\n  a:%s = %s x\n  t.use a\n  ^n z:%s\n  b:%s = %s z\n  c:%s = %s b\n"
            "  t.use a b c\n  func.return\n" % (P, A, A, UC, A, I, UC, A, UC))
        job(f"{n}: unresolvable among others", fn([f"a:{A} = {UC} x", f"b:{F} = {UC} x", f"c:{I} = {UC} a", "t.use a b c"], [f"x:{n33('i32')}"]))
        job(f"{n}: unresolvable twice and nested", fn([f"b:{F} = {UC} x", "t.if b", f"  c:{n33('i64')} = {UC} x", f"  d:{A} = {UC} x", "  t.use c d", "t.use b"],
                                                      [f"x:{n33('i32')}"]))
        job(f"{n}: cast of an unresolvable cast", fn([f"b:{F} = {UC} x", f"c:{F} = {UC} b", "t.use b c"], [f"x:{n33('i32')}"]))
        job(f"{n}: nothing to resolve", fn(["t.use x"], [f"x:{n33('i32')}"]))
        job(f"{n}: an unused cast", fn([f"a:{A} = {UC} x", "t.use x"], [f"x:{n33('i32')}"]))
    ctx.parallel(jobs)

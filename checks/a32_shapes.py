"""Modules for A32."""
from .a32 import *


def t0(n, ps=(), **attrs):
    d, m = n.split(".")
    return ("ty", S(d), S(m), ("seq", tuple(ps)), ("map", tuple((S(k), x) for k, x in attrs.items())))


def show(t):
    ps = ", ".join(show(x) for x in t[3][1])
    return f"{t[1][1]}.{t[2][1]}" + (f"({ps})" if ps else "") + ("".join(f" {k[1]}" for k, _ in t[4][1]))


PLAIN = [t0("core." + n) for n in "nil never unit i1 i8 i16 i32 i64 i128 f16 f32 f64 ptr bytes ref array func tuple string".split()]
ADT = [struct("St", [("a", I)]), t0("adt.struct"), t0("adt.enum"), t0("adt.typeref"), t0("adt.variant_inst"), t0("adt.other"),
       t0("adt.other", is_variant=at("Bool", C(1))), t0("adt.other", is_variant=at("Bool", C(0))), t0("my.other", is_variant=at("Bool", C(1)))]
WASM = [t0("wasm." + n) for n in "anyref i31ref structref arrayref funcref externref i32".split()]
OTHER = [t0(n) for n in ("closure.closure", "tribute_rt.anyref", "tribute_rt.int", "ability.evidence_ptr", "my.i32", "my.struct", "my.anyref", "clif.i32",
                         "adt.i32", "core.struct", "core.anyref")]
FN = [functy([], NIL), functy([I], I), functy([t0("core.i64")], t0("closure.closure")), functy([I, t0("tribute_rt.anyref")], NIL),
      functy([I], t0("core.never")), functy([functy([I], I)], NIL), functy([struct("St", [("a", I)])], NIL), functy([I], struct("St", [("a", I)])),
      functy([t0("wasm.anyref")], NIL), functy([], functy([], I))]
BADT = t0("tribute_rt.anyref")
NEST = [t0("core.array", [I]), t0("core.array", [BADT]), t0("core.array", [t0("core.array", [t0("core.never")])]), t0("core.ref", [t0("adt.struct")]),
        t0("core.ref", [t0("closure.closure")]), struct("St2", [("a", I), ("b", BADT)]), struct("St3", [("a", struct("St4", [("c", t0("core.never"))]))]),
        struct("St5", [("a", struct("St6", [("c", I)]))]), struct(PRIVATE, [("a", I)]), struct("St7", [(PRIVATE, I)]),
        t0("adt.enum", [], **{PRIVATE: at("Int", C(1))}), t0("adt.enum", [], name=at("Symbol", S("__tribute_cps_main"))),
        t0("core.ptr", [], x=at("List", ("seq", (at("List", ("seq", (at("Int", C(1)), at("Type", BADT)))),)))),
        t0("core.ptr", [], x=at("List", ("seq", (at("List", ("seq", (at("Int", C(1)), at("Type", I)))),)))),
        functy([t0("core.ptr", [BADT])], NIL), functy([I, t0("core.ptr", [I])], NIL)]
ALL = PLAIN + ADT + WASM + OTHER + FN + NEST
FEW = [t0("core.f64"), t0("core.never"), BADT, t0("closure.closure"), t0("core.bytes"), t0("adt.struct"), t0("wasm.anyref"), struct("St2", [("a", I), ("b", BADT)])]
FT = functy([I], I)

fun = """
X.func {sym_name=@f, type=!FT}
  ^e x:core.i32
  %s
  X.return x
X.func {sym_name=@g, type=!FT}
  ^e2 x:core.i32
  X.return x
"""
# place -> (kind of place, module)
PLACES = {
    "result": ("result", fun % "r:TT = X.make x"),
    "second result": ("result", fun % "r:core.i32 s:TT = X.make x"),
    "operand": ("result", fun % "r:TT = X.make x\n  X.use x r"),
    "argument of a function": ("value", "X.func {sym_name=@f, type=!FT}\n  ^e x:core.i32 y:TT\n  X.return x\n"),
    "argument of a later block": ("value", fun % "X.jump x -> ^b\n  ^b y:core.i32 z:TT\n  X.mark"),
    "argument in a nested region": ("value", fun % "X.loop\n    ^l y:TT\n    X.mark"),
    "argument in the second nested region": ("value", fun % "X.if x\n    X.mark\n  |\n    ^l y:TT\n    X.mark"),
    "result in a nested region": ("result", fun % "X.loop\n    X.block\n      r:TT = X.make"),
    "attribute": ("meta", fun % "X.make x {other=!TT}"),
    "attribute after others": ("meta", fun % "X.make x {a=3, b=@name, other=!TT, z=!core.i32}"),
    "attribute of a function": ("meta", "X.func {sym_name=@f, other=!TT, type=!FT}\n  ^e x:core.i32\n  X.return x\n"),
    "attribute in a nested region": ("meta", fun % "X.loop\n    X.block\n      X.make {other=!TT}"),
    "attribute named like a signature": ("meta", fun % "X.make x {type=!TT}"),
    "attribute sig of another operation": ("meta", fun % "X.call x {sig=!TT, callee=@g}"),
}
SIGS = {
    "signature of a function": "X.func {sym_name=@g, type=!FT}\n  ^e x:core.i32\n  X.return x\nX.func {sym_name=@f, type=!TT}\n  ^e2 x:core.i32\n  X.return x\n",
    "signature of an indirect call": fun % "X.call_indirect x {KEY=!TT}",
    "signature of an indirect call in a nested region": fun % "X.loop\n    X.call_indirect x {KEY=!TT}",
}


def cases():
    out = []

    def add(b, key, text, want, named=None, **kw):
        n = {"FT": FT} | (named or {})
        out.append(((b, key, text, want), dict(kw, named=n)))
    for b in ("native", "wasm"):
        key = "sig" if b == "native" else SIG
        add(b, "a legal module", fun % "y:core.i64 = X.make x\n  X.loop\n    X.block\n      X.mark y", True)
        main = {"result": ALL, "argument of a function": ALL, "attribute": ALL, "signature of a function": ALL}
        for place, (kind, text) in PLACES.items():
            for t in main.get(place, FEW):
                add(b, f"{show(t)} as {place}", text, legal(b, t, kind), {"TT": t})
        for place, text in SIGS.items():
            for t in main.get(place, FN + FEW[:4]):
                add(b, f"{show(t)} as {place}", text.replace("KEY", key), legal(b, t, "sig"), {"TT": t})
        for t in FN[:5]:
            if b == "native":
                add(b, f"{show(t)} as signature of an indirect tail call", fun % f"X.return_call_indirect x {{sig=!TT}}", legal(b, t, "sig"), {"TT": t})
        ft = functy([t0("core.i64"), t0("core.i32")], NIL)
        if b == "wasm":
            tc = fun % f"y:core.i64 = X.make\n  X.return_call_indirect %s {{{SIG}=!TT}}"
            for k, args, t, ok in (("a fitting indirect tail call", "x y x", ft, True), ("an indirect tail call with a result", "x y x", functy(ft[3][1][1:], I), False),
                                   ("an indirect tail call with fewer operands", "x y", ft, False), ("an indirect tail call with more operands", "x y x x", ft, False),
                                   ("an indirect tail call with swapped operands", "x x y", ft, False), ("an indirect tail call without a function", "", ft, False),
                                   ("an indirect tail call of another value", "y y x", ft, False), ("an indirect tail call of another type", "x y x", I, False)):
                add(b, k, tc % args, ok, {"TT": t})
            add(b, "an indirect tail call without a signature", fun % "X.return_call_indirect x", False)
        # first legal in one place, then illegal in another
        for t in (t0("core.bytes"), t0("adt.struct"), t0("core.i8"), t0("core.ref"), t0("core.func", [NIL, I])):
            add(b, f"{show(t)} as attribute, then as result", fun % "X.make {other=!TT}\n  r:TT = X.make", legal(b, t, "meta") and legal(b, t, "result"), {"TT": t})
            add(b, f"{show(t)} as attribute, then as argument", fun % "X.make {other=!TT}\n  X.loop\n    ^l y:TT\n    X.mark",
                legal(b, t, "meta") and legal(b, t, "value"), {"TT": t})
        # lists, names, arguments' attributes, the module's own attributes
        for t in FEW:
            li = at("List", ("seq", (at("Int", C(3)), at("List", ("seq", (at("Type", I), at("Type", t)))))))
            mk = "clif.make" if b == "native" else "wasm.make"
            add(b, f"{show(t)} in a list attribute", fun % "X.make x", legal(b, t, "meta"), attrs={mk: {"l": li}})
            add(b, f"{show(t)} as a named type", fun % "X.make x", legal(b, t, "meta"), aliases=(("Ok", I), ("Name", t)))
            add(b, f"{show(t)} as attribute of an argument", fun % "X.make x", legal(b, t, "meta"), argattrs={("e2", 0): ((S("k"), at("Int", C(1))), (S("t"), at("Type", t)))})
            add(b, f"{show(t)} as attribute of the module", fun % "X.make x", legal(b, t, "meta"), mattrs={"other": at("Type", t)})
        for nm in (PRIVATE, "__tribute_cps_main"):
            ok = nm != PRIVATE
            add(b, f"{nm} as attribute", fun % f"X.make x {{callee=@{nm}}}", ok)
            add(b, f"{nm} as attribute in a nested region", fun % f"X.loop\n    X.make {{callee=@{nm}}}", ok)
            add(b, f"{nm} as name of an attribute", fun % f"X.make x {{{nm}=3}}", ok)
            add(b, f"{nm} as name of a function", fun.replace("@f", "@" + nm) % "X.mark", ok)
            add(b, f"{nm} in a list", fun % "X.make x", ok, attrs={mk: {"l": at("List", ("seq", (at("Symbol", S("a")), at("List", ("seq", (at("Symbol", S(nm)),))))))}})
            add(b, f"{nm} as name of a type", fun % "X.make x", ok, aliases=(("Ok", I), (nm, I)))
            add(b, f"{nm} as name of an argument's attribute", fun % "X.make x", ok, argattrs={("e2", 0): ((S(nm), at("Int", C(1))),)})
            add(b, f"{nm} as name of an argument", fun % "X.make x", ok, argattrs={("e2", 0): ((S("bind_name"), at("Symbol", S(nm))),)})
            add(b, f"{nm} as name of the module", fun % "X.make x", ok, mattrs={"sym_name": at("Symbol", S(nm))})
        # operations
        for op in ("func.call", "arith.const", "core.unrealized_conversion_cast", "scf.if", "tribute_control.perform", "core.other", "my.func", "mem.load",
                   "wasm.add" if b == "native" else "clif.add"):
            add(b, f"{op} in a function", fun % f"{op} x", False)
            add(b, f"{op} in a nested region", fun % f"X.loop\n    X.block\n      {op} x", False)
            add(b, f"{op} in a later block", fun % f"X.jump x -> ^b\n  ^b\n  {op} x", False)
            add(b, f"{op} at the top", fun % "X.mark" + f"{op} {{sym_name=@h}}\n", False)
        add(b, "func.func at the top", fun % "X.mark" + "func.func {sym_name=@h, type=!FT}\n  ^e3 x:core.i32\n  X.return x\n", False)
        add(b, "a module in the module", fun % "X.mark" + "core.module {sym_name=@inner}\n  X.func {sym_name=@h, type=!FT}\n    ^e3 x:core.i32\n    X.return x\n", True)
        add(b, "an illegal operation in an inner module", fun % "X.mark" + "core.module {sym_name=@inner}\n  X.func {sym_name=@h, type=!FT}\n    ^e3 x:core.i32\n    func.return x\n", False)
        add(b, "an illegal type in an inner module", fun % "X.mark" + "core.module {sym_name=@inner}\n  X.func {sym_name=@h, type=!FT}\n    ^e3 x:tribute_rt.anyref\n    X.return x\n", False)
        # conventions
        cps = "X.func {sym_name=@f, type=!TT%s}\n  ^e x:core.i32\n  X.return x\n" + fun.replace("@f", "@h").replace("^e ", "^e4 ").replace("^e2", "^e5") % "X.mark"
        for c_, ok in ((0, True), (1, True), (2, True), (3, False), (255, False), (258, False), (-1, False)):
            add(b, f"convention {c_} of a function without result", cps % f", {CC}={c_}", ok, {"TT": functy([I], NIL)})
            add(b, f"convention {c_} of a function with a result", cps % f", {CC}={c_}", ok and c_ != 2, {"TT": functy([I], I)})
            add(b, f"convention {c_} of a call", fun % f"y:core.i32 = X.call x {{callee=@g, {CC}={c_}}}", ok)
        add(b, "a convention that is a symbol", fun % f"X.call x {{callee=@g, {CC}=@x}}", False)
        for n in ("return_call", "return_call_indirect"):
            extra = f", {SIG}=!TT" if b == "wasm" and n.endswith("indirect") else ", sig=!TT" if n.endswith("indirect") else ""
            args = "x y x" if extra else "x"
            for res, ok in (("", True), ("r:core.i32 = ", False), ("r:core.nil = ", False)):
                add(b, f"{n} with {'a' if res else 'no'} result {res[2:-3]}", fun % f"y:core.i64 = X.make\n  {res}X.{n} {args} {{callee=@g{extra}}}", ok, {"TT": ft})
                add(b, f"{n} with {'a' if res else 'no'} result {res[2:-3]} in a nested region", fun % f"y:core.i64 = X.make\n  X.block\n    {res}X.{n} {args} {{callee=@g{extra}}}", ok,
                    {"TT": ft})
    return out

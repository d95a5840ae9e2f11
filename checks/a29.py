"""A29: operators, lists, literals, bytes and I/O of the standard library mean the same in native code."""
import re
from .a11 import put, functy
from .a13 import at
from .a21 import at_of
from .a27 import all_funcs, short
from .lowering import *
from engine.heap import *
from engine import irtrace, absint
from engine.models import MODELS as MO
from engine.irtrace import Layout, attr, ty, NAMED, Meaning, Stop, Unclear, Bad
from engine.rules import *
from engine.absint import T, C, S

LEVEL = "other"
EXPLANATION = ("The passes that give the intrinsics of the standard library their native form are analysed one after another on abstract modules; "
               "executions of every function before (operators as arithmetic, lists as sequences, literals as their bytes, input as the run time's "
               "descriptor) and after (calls of the run time, memory, list nodes, rodata) are compared.  Functions the passes declare and call are "
               "compared with the signatures of the run time.")
ASSUMPTIONS = ["executions are compared for the first seven undetermined branches",
               "a byte sequence is shorter than 2^31 bytes where its index is a 32-bit integer"]
P_ = "<tribute_passes::{} as trunk_ir::pass::Pass>::run"
SHARED = [P_.format(x) for x in ("intrinsic_to_arith::LowerIntrinsicToArith", "list_intrinsics::LowerListIntrinsics", "io_lowering::LowerIoIntrinsics")]
NAT = "tribute_passes::native::"
ANALYZE, CONSTS, GET, IO, LIST = (NAT + x for x in ("const_to_native::analyze_consts", "const_to_native::lower", "intrinsic_to_native::lower",
                                                     "io::lower", "list::lower"))
FLAT = "trunk_ir::transforms::scf_to_cf::lower_scf_to_cf"
CMOD, MOD = "trunk_ir::dialect::core::Module", "trunk_ir::rewrite::Module"
PREPEND, GETB = "List::__tribute_list_prepend_intrinsic", "__bytes_get_or_panic"
WRITE, READ = "std::io::__tribute_io_write", "std::io::__tribute_io_read_line"
FREE = "__tribute_io_read_line_result_dealloc"
NIL, NEVER = ty("core.nil"), ty("core.never")
INT = {"+": "addi", "-": "subi", "*": "muli", "/": "divsi", "%": "remsi", "==": "eq", "!=": "ne", "<": "slt", "<=": "sle", ">": "sgt", ">=": "sge"}
UNS = dict(INT, **{"/": "divui", "%": "remui", "<": "ult", "<=": "ule", ">": "ugt", ">=": "uge"})
FLOAT = {"+": "addf", "-": "subf", "*": "mulf", "/": "divf", "==": "oeq", "!=": "une", "<": "olt", "<=": "ole", ">": "ogt", ">=": "oge"}
OPS = {f"{k}::{o}": (("arith.cmpf" if k == "Float" else "arith.cmpi", p) if o[0] in "=!<>" else ("arith." + p, None))
       for k, m in (("Int", INT), ("Nat", UNS), ("Float", FLOAT)) for o, p in m.items()}
FLIP = {"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule", "ogt": "olt", "oge": "ole"}
TAGS = ("ReadLine", "ReadEndOfFile", "ReadInvalidEncoding", "ReadSystem")
DESC = {"ReadLine": ("bytes",), "ReadEndOfFile": (), "ReadInvalidEncoding": (), "ReadSystem": ("code", "message")}


def content(x):
    """bytes of a literal"""
    if x[0] == "adt" and len(x[3]) == 1:
        x = x[3][0]
    if x[0] == "s":
        return x[1].encode()
    if x[0] == "seq" and all(y[0] == "c" for y in x[1]):
        return bytes(y[1] for y in x[1])
    raise Unclear("bytes of a literal")


def arith2(nm, pred, a):
    if pred is not None:
        if pred in FLIP:
            pred, a = FLIP[pred], a[::-1]
        if pred in ("eq", "ne", "oeq", "une"):
            a = sorted(a, key=repr)
        return ("cmp", nm, pred) + tuple(a)
    if nm[6:] in ("addi", "muli", "addf", "mulf", "and", "or", "xor"):
        a = sorted(a, key=repr)
    return ("q", nm, tuple(a))


class Tr(list):
    def __init__(self, m):
        self.m = m

    def append(self, e):
        super().append(self.m.canon(e))


def width(t):
    """size and class of a value in a register or field"""
    n = t[2][1] if t[0] == "ty" else None
    if n is None:
        return None
    d = t[1][1]
    if (d, n) in (("core", "i1"), ("core", "i32"), ("tribute_rt", "int"), ("tribute_rt", "nat"), ("tribute_rt", "bool")):
        return 4
    if n in ("f64", "float"):
        return "f"
    if n == "i8":
        return 1
    if n in ("i64", "ptr", "anyref", "bytes", "array", "closure", "struct", "enum", "typeref") or d in ("adt", "closure"):
        return 8
    if n == "nil":
        return 0
    return None


class Prim(Meaning):
    leaving = Meaning.leaving + ("list.head", "list.tail", "func.call")

    def __init__(self, v, fns, src, info):
        super().__init__(v, maxsteps=400)
        self.fns, self.src, self.info = fns, src, info
        X = Prim
        self.special = {"func.call": X.call, "func.unreachable": X.trap, "func.return": X.ret, "func.constant": X.const, "adt.variant_new": X.vnew,
                        "arith.cmpi": X.cmp, "arith.cmpf": X.cmp, "list.empty": X.lempty, "adt.ref_null": X.lempty, "adt.ref_is_null": X.isnull,
                        "core.unrealized_conversion_cast": X.cast}
        for n in ("addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "addf", "subf", "mulf", "divf", "and", "or", "xor", "shl", "shrsi", "shrui",
                  "extend", "trunc", "cast", "select", "convert"):
            self.special["arith." + n] = X.arith
        if src:
            self.special.update({"list.prepend": X.prepend, "list.is_empty": X.isnull, "list.head": X.observe, "list.tail": X.observe,
                                 "adt.string_const": X.literal, "adt.bytes_const": X.literal})
        else:
            self.special.update({"adt.struct_new": X.snew, "adt.struct_get": X.sget, "adt.ref_cast": X.cast, "mem.load": X.load, "clif.iconst": X.iconst,
                                 "clif.symbol_addr": X.rodata, "clif.call": X.ccall, "clif.store": X.store, "clif.iadd": X.iadd,
                                 "clif.load": X.load})

    def run(self, func, oracle):
        self.trace, self.steps, self.oracle, self.depth, self.objs, self.freed = Tr(self), 0, oracle, 0, [], set()
        try:
            self.func(func, None)
        except Stop:
            pass
        return tuple(self.trace)

    vty = None

    def rd(self, env, x):
        if x not in env:
            raise (Unclear if self.src else Bad)("a value is read that is not defined there")
        return env[x]

    def op(self, o, env):
        nm = self.v.opname(o)
        if not self.src and (nm.startswith(("list.", "tribute_io.")) or nm in ("adt.string_const", "adt.bytes_const")):
            raise Bad(f"{nm} is left")
        return super().op(o, env)

    def decide(self, key, options):
        if key[0] == "bool":
            return key[1]
        if key[0] == "not":
            return not self.decide(key[1], options)
        if key[0] == "is":
            return self.oracle(key[1], None) == key[2]
        return self.oracle(key, options)

    def truth(self, c):
        return self.decide(c, (True, False))

    def set(self, env, o, x):
        rs = self.v.results(o)
        if rs:
            env[rs[0]] = x

    def event(self, o, env, e):
        me = len(self.trace)
        self.trace.append(e)
        for i, r in enumerate(self.v.results(o)):
            env[r] = ("r", me, i)
        return ("r", me, 0)

    # -- values as they are seen from outside
    def canon(self, x):
        if not isinstance(x, tuple):
            return x
        if len(x) == 3 and x[0] == "obj":
            return self.bytes_of(x)
        return tuple(self.canon(y) for y in x)

    def bytes_of(self, x):
        o, off = self.objs[x[1]], x[2]
        m = o["mem"]
        if off != 8:
            return ("a pointer that is not to the payload", off)
        want = {0: (("int", 1), 4, "reference count"), 4: (("int", 0), 4, "type index")}
        for k, (val, w, what) in want.items():
            if m.get(k) != (val, w):
                return (f"an object whose {what} is {m.get(k)}",)
        p, n = m.get(8), m.get(16)
        if p is None or n is None or p[1] != 8 or n[1] != 8 or p[0][0] != "rodata" or n[0][0] != "int":
            return ("an object without pointer and length",)
        if n[0][1] != len(p[0][1]):
            return (f"a literal of {n[0][1]} bytes",)
        return ("bytes", p[0][1])

    # -- common
    def trap(self, o, a, env, regs):
        self.trace.append(("trap",))
        return ("end", [])

    def ret(self, o, a, env, regs):
        self.trace.append(("return", tuple(a)))
        return ("return", a)

    def const(self, o, a, env, regs):
        n = self.attr(o, "func_ref")[3][0][1]
        if n not in self.fns:
            raise (Unclear if self.src else Bad)(f"refers to {n}, which does not exist")
        self.set(env, o, ("fn", n))

    def cast(self, o, a, env, regs):
        self.set(env, o, a[0])

    def vnew(self, o, a, env, regs):
        self.set(env, o, ("variant", self.attr(o, "type")[3][0], self.attr(o, "tag")[3][0][1], tuple(a)))

    def cmp(self, o, a, env, regs):
        p = self.attr(o, "predicate")
        x = arith2(self.v.opname(o), (p[3][0] if p[0] == "adt" else p)[1], a)
        if x[2] == "eq" and any(y[0] == "const" for y in x[3:]) and any(y[0] == "fld" for y in x[3:]):
            c, f = sorted(x[3:], key=lambda y: y[0] != "const")
            x = ("is", f, c[1])
        if x[1] == "arith.cmpi" and x[2] in ("ult", "ule", "slt", "sle"):
            a, b = x[3:]
            if x[2] == "ult" and a[0] == "ext64" and b == ("blen",) + b[1:] and len(b) == 2:
                x = ("in", b[1], a[1])
            elif x[2] == "ule" and b[0] == "ext64" and a[0] == "blen":
                x = ("not", ("in", a[1], b[1]))
        self.set(env, o, x)

    def rty(self, o):
        return self.v.seq(self.v.field("Op", o, "results"))[0]

    def oty(self, o, i):
        x = self.v.operands(o)[i]
        d = self.v.field("Value", x, "def")
        if d is None or d[0] != "adt":
            raise Unclear("type of a value")
        j = d[3][1][1]
        if d[2] == "OpResult":
            return self.v.seq(self.v.field("Op", d[3][0], "results"))[j]
        return self.v.eng.project(self.v.st, self.v.seq(self.v.field("Block", d[3][0], "args"))[j], ("f", 0, "ty"))

    def arith(self, o, a, env, regs):
        n = self.v.opname(o)
        x = None
        if n == "arith.extend" and a[0][0] == "rawbyte":
            x = ("byte",) + a[0][1:] if self.oty(o, 0)[2][1] in ("nat", "bool") else ("sbyte",) + a[0][1:]
        elif n == "arith.extend" and width(self.rty(o)) == 8 and width(self.oty(o, 0)) == 4:
            x = ("ext64", a[0])
        elif n == "arith.and":
            k = [y for y in a if y == ("const", at("Int", C(255)))]
            b = [y for y in a if y[0] in ("sbyte", "byte")]
            if len(k) == 1 and len(b) == 1:
                x = ("byte",) + b[0][1:]
        elif n == "arith.addi":
            p = [y for y in a if y[0] == "bptr"]
            i = [y for y in a if y[0] == "ext64"]
            if len(p) == 1 and len(i) == 1:
                x = ("addr", p[0][1], i[0][1])
        self.set(env, o, x if x is not None else arith2(n, None, list(a)))

    # -- lists
    def lempty(self, o, a, env, regs):
        self.set(env, o, ("nil",))

    def isnull(self, o, a, env, regs):
        l = a[0]
        self.set(env, o, ("bool", True) if l == ("nil",) else ("bool", False) if l[0] == "cons" else ("nil?", l))

    def prepend(self, o, a, env, regs):
        self.set(env, o, ("cons", at_of(self.v, o, "element_type"), a[0], a[1]))

    def observe(self, o, a, env, regs):
        l = a[0]
        e, k = at_of(self.v, o, "element_type"), self.v.opname(o)[5:]
        if l == ("nil",) or l[0] != "cons" and self.decide(("nil?", l), (True, False)):
            return self.trap(o, a, env, regs)
        if l[0] == "cons":
            if l[1] != e:
                raise Unclear("a list of another element type")
            self.set(env, o, l[2] if k == "head" else l[3])
        else:
            self.set(env, o, (k, e, l))

    def node(self, o):
        t = self.attr(o, "type")[3][0]
        n = self.info["nodes"].get(t)
        if n is None and t[0] == "ty" and (t[1][1], t[2][1]) == ("adt", "struct") and len(struct_fields(t)) == 2:
            raise Bad("a list node is read by a type that no list has")
        return t, n

    def snew(self, o, a, env, regs):
        if self.info.get("learn") is not None:
            t = self.attr(o, "type")[3][0]
            if sorted(a) == [("param", 0), ("param", 1)]:
                self.info["learn"].append((t, a.index(("param", 0))))
            self.set(env, o, ("learnt",))
            return None
        t, n = self.node(o)
        if n is None:
            return NotImplemented
        e, i = n
        self.set(env, o, ("cons", e, a[i], a[1 - i]))

    def sget(self, o, a, env, regs):
        t, n = self.node(o)
        if n is None:
            return NotImplemented
        e, i = n
        f = self.attr(o, "field")[3][0][1]
        l = a[0]
        if l == ("nil",):
            raise Bad("a field of the empty list is read")
        if f not in (0, 1):
            raise Bad("a field is read that list nodes do not have")
        if l[0] == "cons":
            if l[1] != e:
                raise Bad("a list node of another element type is read")
            self.set(env, o, l[2] if f == i else l[3])
        else:
            if self.decide(("nil?", l), (True, False)):
                raise Bad("a field of the empty list is read")
            self.set(env, o, ("head" if f == i else "tail", e, l))

    # -- calls
    def call(self, o, a, env, regs):
        c = self.attr(o, "callee")[3][0][1]
        f = self.fns.get(c)
        own = f is not None and at_of(self.v, f, "abi") != S("intrinsic")
        if self.src and not own:
            if c in OPS:
                self.set(env, o, arith2(OPS[c][0], OPS[c][1], list(a)))
                return None
            if c.split("$")[0] == PREPEND:
                self.set(env, o, ("cons", self.oty(o, 0), a[0], a[1]))
                return None
            if c == WRITE:
                self.event(o, env, ("call __tribute_io_write", False, tuple(a)))
                self.set(env, o, ("unit",))
                return None
            if c == READ:
                r = self.event(o, env, ("call __tribute_io_read_line", False, ()))
                t = self.decide(("fld", r, "tag"), tuple(at("Int", C(i)) for i in range(4)))
                n = TAGS[t[3][0][1]]
                self.trace.append(("call " + FREE, False, (r,)))
                self.set(env, o, ("variant", NAMED["RLR"], n, tuple(("fld", r, x) for x in DESC[n])))
                return None
            if c == GETB:
                if not self.decide(("in", a[0], a[1]), (True, False)):
                    return self.trap(o, a, env, regs)
                self.set(env, o, ("byte", a[0], a[1]))
                return None
        if f is None:
            raise (Unclear if self.src else Bad)(f"calls {c}, which does not exist")
        ps = at_of(self.v, f, "type")[3][1][1:]
        if len(ps) != len(a):
            raise (Unclear if self.src else Bad)(f"passes {len(a)} arguments to the {len(ps)} parameters of {c}")
        if not self.src and c.startswith("__tribute_"):
            for i, p in enumerate(ps):
                if width(p) != width(self.oty(o, i)):
                    raise Bad(f"argument {i} of {c} has the type {short(self.oty(o, i))}")
            r = self.v.seq(self.v.field("Op", o, "results"))
            q = at_of(self.v, f, "type")[3][1][0]
            if r and width(q) and width(q) != width(r[0]):
                raise Bad(f"the result of {c} has the type {short(r[0])}")
        if c == FREE and not self.src:
            self.freed.add(a[0])
        r = self.event(o, env, ("call " + c, False, tuple(a)))
        if c == "__tribute_io_write":
            self.set(env, o, ("unit",))
        return None

    # -- memory
    def load(self, o, a, env, regs):
        off, t = self.attr(o, "offset")[3][0][1], self.rty(o)
        w, p = width(t), a[0]
        if p[0] == "addr" and w == 1 and off == 0:
            if not self.decide(("in", p[1], p[2]), (True, False)):
                raise Bad("a byte outside the byte sequence is read")
            self.set(env, o, ("rawbyte", p[1], p[2]))
        elif p[0] == "r" and self.trace[p[1]][0] == "call __tribute_io_read_line":
            if p in self.freed:
                raise Bad("the descriptor of an input line is read after it is released")
            for f, o2, w2 in self.info["desc"]:
                if o2 == off and w2 == w:
                    self.set(env, o, ("fld", p, f))
                    break
            else:
                raise Bad(f"{w} bytes are read at offset {off} of the descriptor of an input line")
        elif p[0] == "obj":
            raise Unclear("a load from an object")
        else:
            for f, o2, w2 in self.info["bytes"]:
                if o2 == off and w2 == w:
                    self.set(env, o, ("bptr" if f == "ptr" else "blen", p))
                    break
            else:
                raise Bad(f"{w} bytes are read at offset {off} of a byte sequence")

    def iconst(self, o, a, env, regs):
        x = self.attr(o, "value")[3][0]
        if x[0] != "c":
            raise Unclear("a constant")
        self.set(env, o, ("int", x[1]))

    def rodata(self, o, a, env, regs):
        n = [x for k, x in self.v.field("Op", o, "attributes")[1] if x[0] == "adt" and x[2] == "Symbol"]
        n = n[0][3][0][1]
        if n not in self.info["rodata"]:
            raise Bad(f"{n} is not in the data of the module")
        self.set(env, o, ("rodata", self.info["rodata"][n]))

    def ccall(self, o, a, env, regs):
        c = self.attr(o, "callee")[3][0][1]
        if c != "__tribute_alloc" or len(a) != 1 or a[0][0] != "int":
            return NotImplemented
        self.objs.append({"size": a[0][1], "mem": {}})
        self.set(env, o, ("obj", len(self.objs) - 1, 0))

    def store(self, o, a, env, regs):
        x, p = a
        if p[0] != "obj":
            return NotImplemented
        off = p[2] + self.attr(o, "offset")[3][0][1]
        w = width(self.oty(o, 0))
        ob = self.objs[p[1]]
        if w is None:
            raise Unclear("size of a store")
        if off < 0 or off + w > ob["size"]:
            raise Bad(f"{w} bytes are written at offset {off} of an object of {ob['size']} bytes")
        for k, (_, w2) in list(ob["mem"].items()):
            if k < off + w and off < k + w2:
                del ob["mem"][k]
        ob["mem"][off] = (x, w)

    def iadd(self, o, a, env, regs):
        p = [y for y in a if y[0] == "obj"]
        n = [y for y in a if y[0] == "int"]
        if len(p) != 1 or len(n) != 1:
            return NotImplemented
        self.set(env, o, ("obj", p[0][1], p[0][2] + n[0][1]))

    # -- literals
    def literal(self, o, a, env, regs):
        b = ("bytes", content(self.attr(o, "value")))
        if self.v.opname(o) == "adt.string_const":
            b = ("variant", NAMED["STR"], "Leaf", (b,))
        self.set(env, o, b)


def struct_fields(t):
    x = dict(t[4][1]).get(S("fields"))
    return [f[3][0][1] for f in x[3][0][1]] if x is not None else []


def crust(t):
    if t in ("bool", "u8", "i8"):
        return 4        # a register
    return 0 if t == "()" else 8 if t.startswith("*") or t in ("u64", "i64", "usize", "isize") else 4 if t in ("u32", "i32") else "f" if t == "f64" else None


def layout(P, n):
    """fields of a repr(C) struct"""
    off, out = 0, []
    for f, t, _ in P.adts[n]["vars"][0][2]:
        w = 1 if t in ("bool", "u8", "i8") else crust(t)
        if not w:
            return None
        w = 8 if w == "f" else w
        off = (off + w - 1) // w * w
        out.append((f, off, w))
        off += w
    return out


def enum_ty(name, variants):
    vs = ("seq", tuple(at("List", ("seq", (at("Symbol", S(n)), at("List", ("seq", tuple(at("Type", ty(t)) for t in ts)))))) for n, ts in variants))
    return ("ty", S("adt"), S("enum"), ("seq", ()), ("map", ((S("name"), at("Symbol", S(name))), (S("variants"), at("List", vs)))))


NAMED["RLR"] = enum_ty("std::io::ReadLineResult", [("ReadLine", ["core.bytes"]), ("ReadEndOfFile", []), ("ReadInvalidEncoding", []),
                                                    ("ReadSystem", ["core.i32", "core.bytes"])])
NAMED["STR"] = enum_ty("String", [("Leaf", ["core.bytes"]), ("Branch", ["tribute_rt.anyref", "tribute_rt.anyref", "core.i32"])])


def types_iter(eng, st, fr, args, targs, path, t):
    """types in use, in the order in which they came up"""
    out = []
    for x in (ty("core.i32"), enum_ty("Option", [("None", []), ("Some", ["tribute_rt.anyref"])]), NAMED["STR"], NAMED["RLR"], ty("core.nil")):
        d = ("adt", "trunk_ir::types::TypeData", "TypeData", x[1:], ("dialect", "name", "params", "attrs"))
        out.append(("tup", (x, eng.ref_to(st, d))))
    return ("iter", tuple(out), 0)


def same(eng, st, fr, args, targs, path, t):
    return args[0]


def to_bytes(eng, st, fr, args, targs, path, t):
    x = eng.freeze(st, args[0])
    return ("seq", tuple(C(b) for b in x[1].encode())) if x[0] == "s" else args[0]


def lay(h, eng, st, text, sigs, attrs):
    l = Layout(h, text)
    v = h.view(st)
    for t, o in l.ops.items():
        if v.opname(o) == "func.func":
            n = at_of(v, o, "sym_name")[1]
            rs = v.seq(v.field("Op", o, "regions"))
            s = (sigs or {}).get(n, "tribute_rt.anyref").split()
            ps = [ty(x) for x in s[1:]]
            if rs:
                for x in v.seq(v.field("Block", v.seq(v.field("Region", rs[0], "blocks"))[0], "args")):
                    ps.append(eng.project(st, x, ("f", 0, "ty")))
            put(h, o, "type", at("Type", functy(ps, ty(s[0]))))
            if at_of(v, o, "abi") is not None:
                put(h, o, "abi", at("String", at_of(v, o, "abi")))
        for kk, x in (attrs or {}).get(t, {}).items():
            put(h, o, kk, x)
    return h.op("M", "core.module", [], [], regions=[l.top], attrs={"sym_name": attr("@m"), "tribute.type.string": at("Type", NAMED["STR"])})


def case(ctx, key, text, sigs=None, attrs=None, passes="ALPCBIN"):
    hold = {}
    P = ctx.P

    def setup(eng, st, a):
        h = Heap(eng, st)
        m = lay(h, eng, st, text, sigs, attrs)
        hold.update(v=h.view(st.fork()), m=m)
        CM = ("adt", CMOD, "Module", (m,), tuple(x[0] for x in P.adts[CMOD]["vars"][0][2]))
        M = ("adt", MOD, "Module", (m,), tuple(x[0] for x in P.adts[MOD]["vars"][0][2]))
        unit = eng.ref_to(st, ("adt", "unit", "unit", (), ()))

        def go(p, args):
            r = call1(eng, st, p, args)
            if r[0] == "adt" and r[2] == "Err":
                raise absint.Definite(f"{p.split('::')[-2]} refuses the module")
            return r
        hold["analysis"] = None
        for c in passes:
            if c in "ALP":
                go(SHARED["ALP".index(c)], [unit, h.ref, CM])
            elif c == "C":
                hold["analysis"] = an = call1(eng, st, ANALYZE, [h.ref, M])
                go(CONSTS, [h.ref, M, eng.ref_to(st, an)])
            else:
                go({"B": GET, "I": IO, "N": LIST, "S": FLAT}[c], [h.ref, M])
        hold["after"] = h.view(st.fork())
        return [h.ref, M]
    rs, e = ctx.run(ANALYZE, setup=setup, max_depth=60, max_rec=16, max_visits=200, max_steps=4000000, registry=True, extra_models=MODELS)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("unk", str(r.end))
            else:
                judge(ctx, hold)
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except Unclear as u:
            x = ("unk", str(u))
        out.append((r, x))
    c = passes.strip("S")[-1]
    ctx.verdicts(key, out, SHARED["ALP".index(c)] if c in "ALP" else {"C": CONSTS, "B": GET, "I": IO, "N": LIST}[c])


def rodata_of(an):
    if an is None:
        return {}
    i = an[4].index("rodata")
    out = {}
    for x in an[3][i][1]:
        s, b = (x[3] if x[0] == "adt" else x[1])[:2]
        if s[1] in out:
            raise Bad(f"two literals share the name {s[1]}")
        out[s[1]] = content(b)
    return out


def judge(ctx, hold):
    v1, v2, m = hold["v"], hold["after"], hold["m"]
    f1, f2 = dict(all_funcs(v1, m)), {}
    for n, o in all_funcs(v2, m):
        if n in f2:
            raise Bad(f"{n} is defined twice")
        f2[n] = o
    info = {"desc": layout(ctx.P, "tribute_runtime::NativeReadLineResult"), "bytes": layout(ctx.P, "tribute_runtime::TributeBytes"),
            "rodata": rodata_of(hold["analysis"]), "nodes": {}}
    if info["desc"] is None or info["bytes"] is None:
        raise Unclear("layout of a structure of the run time")
    # list nodes: the type and order of fields that prepending makes
    for n, o in f1.items():
        if n.startswith("mk_"):
            info["learn"] = []
            Prim(v2, f2, False, info).run(f2[n], lambda k, o: o[0])
            if len(info["learn"]) != 1:
                raise Bad("prepending to a list does not make one node of the element and the list")
            t, i = info["learn"][0]
            e = at_of(v1, o, "type")[3][1][1]
            fs = struct_fields(t)
            if len(fs) != 2 or fs[i][1][3][0] != e:
                raise Bad(f"a list node for {short(e)} has the fields {[short(x[1][3][0]) for x in fs]}")
            if width(fs[1 - i][1][3][0]) != 8 or fs[1 - i][1][3][0][2][1] != "anyref":
                raise Bad("the tail of a list is not kept as a reference")
            info["nodes"][t] = (e, i)
            del info["learn"]
    for n, o in f1.items():
        body = v1.seq(v1.field("Op", o, "regions"))
        intr = at_of(v1, o, "abi") == S("intrinsic")
        if intr and n not in OPS:
            continue
        if n not in f2:
            raise Bad(f"{n} is gone")
        if at_of(v1, o, "type") != at_of(v2, f2[n], "type"):
            raise Bad(f"the type of {n} changes")
        if not body or n.startswith("mk_"):
            continue
        if not v2.seq(v2.field("Op", f2[n], "regions")):
            raise Bad(f"{n} has no body")
        m2 = Prim(v2, f2, False, info)
        if intr:
            if at_of(v2, f2[n], "abi") == S("intrinsic"):
                raise Bad(f"{n} is still an intrinsic")
            got = m2.run(f2[n], lambda k, o: o[0])
            want = (("return", (arith2(*OPS[n], [("param", 0), ("param", 1)]),)),)
            if got != want:
                raise Bad(f"the function {n} performs {irtrace.show(got[-1])}: {str(got)[:200]}")
            continue
        m1 = Prim(v1, f1, True, info)
        try:
            r, _ = irtrace.compare(m1, o, m2, f2[n])
        except TypeError:
            raise Unclear("comparison")
        if r:
            if "rawbyte" in r:
                raise Unclear(r)
            raise Bad(f"{n} {r}")
    # what the passes declare is what the run time has
    for n, o in f2.items():
        if n in f1 or not n.startswith("__"):
            continue
        runtime(ctx, n, [width(x) for x in at_of(v2, o, "type")[3][1]], at_of(v2, o, "type")[3][1])


def runtime(ctx, n, ws, ts):
    fn = ctx.P.fns.get("tribute_runtime::" + n) or ctx.P.fns.get("tribute_runtime::asan::" + n)
    if fn is None:
        raise Bad(f"{n} is declared, but the run time has no such function")
    sig = sig_of(fn)
    if len(sig) != len(ws):
        raise Bad(f"{n} is declared with {len(ws) - 1} parameters, the run time has {len(sig) - 1}")
    for i, (w, s) in enumerate(zip(ws, sig)):
        if w is None or s is None:
            raise Unclear(f"type {i} of {n}")
        if w != s:
            raise Bad(f"{'the result' if not i else f'parameter {i - 1}'} of {n} is declared {short(ts[i])}, which is not what the run time has")


def sig_of(fn):
    return [crust(fn.local_ty(i)["s"]) for i in range(fn.argc + 1)]


def externs(text):
    """(ABI, qualified name, parameter types, result type) of the external functions of a source file"""
    text = re.sub(r'//[^\n]*|b?"(?:\\.|[^"\\\n])*"', lambda m: m.group() if re.fullmatch(r'"\w+"', m.group()) else " ", text)
    out, stack = [], []
    for m in re.finditer(r'(?:pub\s+)?mod\s+([\w:]+)\s*\{|extern\s+"(\w+)"\s+fn\s+(\w+|\([^\s\w]+\))\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*->\s*([\w:]+(?:\([^()]*\))?)|[{}]', text):
        if m.group(1):
            stack.append(m.group(1))
        elif m.group(2):
            ps = [x.split(":", 1)[1].strip() for x in m.group(4).split(",") if ":" in x]
            out.append((m.group(2), "::".join([x for x in stack if x] + [m.group(3).strip("()")]), ps, m.group(5)))
        elif m.group() == "{":
            stack.append("")
        elif stack:
            stack.pop()
    return out


PRIM = {"Bytes": 8, "Nat": 4, "Int": 4, "Bool": 4, "Float": "f", "Nil": 0}


def prelude(ctx):
    ext = externs(open("/repo/lib/std/prelude.trb").read())
    for abi, n, ps, r in ext:
        if abi != "C":
            continue
        key = f"{n} is the function of the run time"
        fn = ctx.P.fns.get("tribute_runtime::" + n)
        where = "lib/std/prelude.trb"
        if fn is None:
            ctx.bad(key, f"the standard library declares {n}, which the run time does not have", where)
            continue
        sig, want = sig_of(fn), [PRIM.get(r)] + [PRIM.get(x) for x in ps]
        if len(sig) != len(want):
            ctx.bad(key, f"the standard library passes {len(ps)} arguments to {n}, which has {len(sig) - 1} parameters", where)
        elif None in sig or None in want:
            ctx.unk(key, "a type is not known")
        elif sig != want:
            i = [a == b for a, b in zip(sig, want)].index(False)
            ctx.bad(key, f"{'the result' if not i else f'parameter {i - 1}'} of {n} is a {[r] + ps[i - 1:i] if not i else ps[i - 1]} in the standard library "
                         f"and a {fn.local_ty(i)['s']} in the run time", where)
        else:
            ctx.ok(key)
    return {n for abi, n, _, _ in ext if abi == "intrinsic"}


def chars(eng, st, fr, args, targs, path, t):
    x = eng.freeze(st, args[0])
    if x[0] != "s":
        return MO["core::str::chars"](eng, st, fr, args, targs, path, t)
    return ("iter", tuple(C(ord(c)) for c in x[1]), 0)


def str_bytes(eng, st, fr, args, targs, path, t):
    x = eng.freeze(st, args[0])
    if x[0] != "s":
        return MO["core::str::bytes"](eng, st, fr, args, targs, path, t)
    return ("iter", tuple(C(c) for c in x[1].encode()), 0)


MODELS = {"core::str::chars": chars, "core::str::bytes": str_bytes, "trunk_ir::types::TypeInterner::iter": types_iter, "alloc::string::String::into_bytes": to_bytes, "core::str::as_bytes": to_bytes,
          "alloc::string::String::as_bytes": to_bytes}
MODELS.update({f"alloc::{m}{k.lower()}::{k}::new": same for k in ("Rc", "Arc") for m in ("", "sync::", "rcs::")})


def check(ctx):
    from .a29_shapes import CASES
    ctx.rule("executions before and after the passes for intrinsics agree, and what is declared of the run time agrees with the run time")
    have = prelude(ctx)
    jobs = []
    for (key, text), kw in CASES:
        # what the standard library does not call so any more is not a property of its functions
        gone = [n for n in list(OPS) + [PREPEND, GETB, WRITE, READ] if n not in have and f"@{n}" in text]
        if gone:
            ctx.unk(key, f"{gone[0]} is not in the standard library")
        else:
            jobs.append(lambda key=key, text=text, kw=kw: case(ctx, key, text, **kw))
    ctx.parallel(jobs)

"""The wasm_encoder interface as an effect signature: what a code generator asks to be encoded is recorded, read back as a module,
checked by the rules of WebAssembly validation (with garbage-collected types and tail calls), and executed on an abstract stack machine."""
import re
from .models import C, S, T, UNIT
from .absint import Engine
from .irtrace import Bad, Unclear, Need, Stop

HEAP = {"Any": "any", "Func": "func", "Extern": "extern", "None": "none", "Struct": "struct", "Array": "array", "I31": "i31", "Eq": "eq",
        "NoFunc": "nofunc", "NoExtern": "noextern"}


def hook(eng, st, fr, path, key, args, targs, t):
    """Engine hook for calls without a body. -> None | value"""
    if "wasm_encoder" not in key:
        return None
    last = key.split("::")[-1]
    owner = key.split("::")[-2] if "::" in key else ""
    a = tuple(eng.freeze(st, x) for x in args)
    if owner == "ConstExpr":
        return T("wconst", S(last), *a)
    if owner.startswith("Ieee") or last in ("into", "from"):
        return T("wbits", *a)
    n = sum(1 for _ in walk(st, "wa"))
    if last == "new" and (owner.endswith("Section") or owner in ("Function", "Module")):
        v = T("wobj", S(owner), C(n))
        st.event("wa", "new", v, a)
        return v
    if last == "ty" and owner == "TypeSection":
        return T("wty", a[0])
    st.event("wa", owner + "." + last, obj(a[0]) if a else None, a[1:])
    if owner == "Module" and last == "finish":
        return T("wbytes")
    return a[0] if a else UNIT


def walk(st, kind):
    e = st.events
    while e:
        if e[0][0] == kind:
            yield e[0]
        e = e[1]


def obj(v):
    while v[0] == "t" and v[1] != "wobj" and len(v) > 2:
        v = v[2]
    return v


def num(v):
    if v[0] != "c":
        raise Unclear(f"a number of the module is not known: {str(v)[:80]}")
    return v[1]


def seq(v):
    if v[0] == "seq":
        return v[1]
    if v[0] == "iter" and v[2] == 0 and isinstance(v[1], tuple):
        return v[1]
    if v[0] == "adt" and v[3] and v[2] in ("Owned", "Borrowed"):
        return seq(v[3][0])
    raise Unclear(f"a list of the module is not known: {str(v)[:80]}")


def text(v):
    if v[0] != "s":
        raise Unclear(f"a name of the module is not known: {str(v)[:80]}")
    return v[1]


def get(v, f):
    if v[0] == "adt" and f in v[4]:
        return v[3][v[4].index(f)]
    raise Unclear(f"no field {f}: {str(v)[:100]}")


def heap_type(v):
    if v[0] == "adt":
        if v[2] == "Concrete":
            return num(v[3][0])
        if v[2] == "Abstract":
            k = get(v, "ty")
            if k[0] == "adt":
                return HEAP[k[2]]
    if v[0] == "t" and v[1] == "field" and v[3] == S("heap_type"):
        return ref_type(v[2])[2]
    raise Unclear(f"heap type {str(v)[:100]}")


CONST_REF = {"FUNCREF": ("ref", True, "func"), "ANYREF": ("ref", True, "any"), "EXTERNREF": ("ref", True, "extern"),
             "EQREF": ("ref", True, "eq"), "I31REF": ("ref", True, "i31"), "STRUCTREF": ("ref", True, "struct"), "ARRAYREF": ("ref", True, "array"),
             "NULLREF": ("ref", True, "none")}


def _reftypes():
    """the library's constants for reference types"""
    p = "wasm_encoder::core::types::"
    inv = {v: k for k, v in HEAP.items()}
    return {p + "RefType::" + n: ("adt", p + "RefType", "RefType", (C(1), ("adt", p + "HeapType", "Abstract", (
        C(0), ("adt", p + "AbstractHeapType", inv[t[2]], (), ())), ("shared", "ty"))), ("nullable", "heap_type")) for n, t in CONST_REF.items()}


Engine.EXTERN_CONSTS.update(_reftypes())


def ref_type(v):
    if v[0] == "adt" and v[2] == "RefType":
        return ("ref", bool(num(get(v, "nullable"))), heap_type(get(v, "heap_type")))
    if v[0] in ("t", "k"):
        for k, x in CONST_REF.items():
            if k in str(v):
                return x
    raise Unclear(f"reference type {str(v)[:100]}")


def valtype(v):
    if v[0] == "adt":
        if v[2] in ("I32", "I64", "F32", "F64"):
            return v[2].lower()
        if v[2] == "Ref":
            return ref_type(v[3][0])
    raise Unclear(f"value type {str(v)[:100]}")


def storage(v):
    if v[0] == "adt":
        if v[2] in ("I8", "I16"):
            return v[2].lower()
        if v[2] == "Val":
            return valtype(v[3][0])
    raise Unclear("storage type")


def field(v):
    return storage(get(v, "element_type")), bool(num(get(v, "mutable")))


def opt(v):
    if v[0] == "adt" and v[2] == "None":
        return None
    if v[0] == "adt" and v[2] == "Some":
        return v[3][0]
    raise Unclear("option")


class Image:
    """A module as encoded."""

    def __init__(self, events):
        self.types, self.imports, self.funcs, self.tables, self.mems, self.globals = [], [], [], [], [], []
        self.exports, self.elems, self.datas, self.code, self.order = [], [], [], [], []
        self.group = []
        fns, self.finished, self.datacount = {}, False, None
        secs = {}
        for e in events:
            if e[0] != "wa":
                continue
            _, k, o, a = e
            if k == "new":
                if o[2] == S("Function"):
                    fns[o] = [seq(a[0]), []]
                continue
            secs.setdefault(o, []).append((k, a))
            if k == "Function.instruction":
                fns[o][1].append(a[0])
            elif k == "Module.section":
                if a[0][0] == "adt":
                    self.order.append(a[0][2])
                    if a[0][2] == "DataCountSection":
                        self.datacount = num(get(a[0], "count"))
                else:
                    self.order.append(obj(a[0])[2][1])
                    self.section(secs.get(obj(a[0]), []), fns)
            elif k == "Module.finish":
                self.finished = True

    def section(self, calls, fns):
        for k, a in calls:
            if k == "CoreTypeEncoder.rec":
                g = len(self.types)
                for s in seq(a[0]):
                    inner = get(get(s, "composite_type"), "inner")
                    if inner[2] == "Struct":
                        self.types.append(("struct", tuple(field(f) for f in seq(get(inner[3][0], "fields")))))
                    elif inner[2] == "Array":
                        self.types.append(("array", field(inner[3][0][3][0])))
                    else:
                        raise Unclear("kind of type")
                    self.group.append(g)
            elif k == "CoreTypeEncoder.function":
                self.types.append(("func", tuple(valtype(x) for x in seq(a[0])), tuple(valtype(x) for x in seq(a[1]))))
                self.group.append(len(self.types) - 1)
            elif k == "ImportSection.import":
                if a[2][0] != "adt" or a[2][2] != "Function":
                    raise Unclear("import of something else")
                self.imports.append((text(a[0]), text(a[1]), num(a[2][3][0])))
            elif k == "FunctionSection.function":
                self.funcs.append(num(a[0]))
            elif k == "TableSection.table":
                mx = opt(get(a[0], "maximum"))
                self.tables.append((ref_type(get(a[0], "element_type")), num(get(a[0], "minimum")), None if mx is None else num(mx)))
            elif k == "MemorySection.memory":
                mx = opt(get(a[0], "maximum"))
                self.mems.append((num(get(a[0], "minimum")), None if mx is None else num(mx), bool(num(get(a[0], "memory64"))), bool(num(get(a[0], "shared")))))
            elif k == "GlobalSection.global":
                self.globals.append((valtype(get(a[0], "val_type")), bool(num(get(a[0], "mutable"))), a[1]))
            elif k == "ExportSection.export":
                self.exports.append((text(a[0]), a[1][2], num(a[2])))
            elif k in ("ElementSection.active", "ElementSection.declared", "ElementSection.passive"):
                els = a[-1]
                if els[0] != "adt" or els[2] != "Functions":
                    raise Unclear("elements")
                fs = tuple(num(x) for x in seq(els[3][0]))
                if k.endswith("active"):
                    tb = opt(a[0])
                    self.elems.append(("active", 0 if tb is None else num(tb), const(a[1]), fs))
                else:
                    self.elems.append((k.split(".")[1], None, None, fs))
            elif k == "DataSection.active":
                self.datas.append((num(a[0]), const(a[1]), tuple(num(x) for x in seq(a[2]))))
            elif k == "DataSection.passive":
                self.datas.append((None, None, tuple(num(x) for x in seq(a[0]))))
            elif k == "CodeSection.function":
                if obj(a[0]) not in fns:
                    raise Unclear("a function body that is not known")
                ls, ins = fns[obj(a[0])]
                locs = []
                for x in ls:
                    locs += [valtype(x[1][1])] * num(x[1][0])
                self.code.append((locs, [Ins(i) for i in ins]))
            else:
                raise Unclear("call " + k)

    # ---- types
    def func_type(self, i):
        """type of the function with this index"""
        n = len(self.imports)
        ts = [x[2] for x in self.imports] + self.funcs
        if not 0 <= i < len(ts):
            raise Bad(f"function index {i} does not exist ({len(ts)} functions)")
        return ts[i]

    def sig(self, ti):
        if not 0 <= ti < len(self.types) or self.types[ti][0] != "func":
            raise Bad(f"type {ti} is not a function type")
        return self.types[ti][1:]

    def heap_sub(self, a, b):
        if a == b:
            return True
        up = {"none": ("struct", "array", "i31", "eq", "any"), "i31": ("eq", "any"), "struct": ("eq", "any"), "array": ("eq", "any"), "eq": ("any",),
              "nofunc": ("func",), "noextern": ("extern",)}
        if isinstance(a, int):
            if a >= len(self.types):
                raise Bad(f"type {a} does not exist")
            if isinstance(b, int):
                return b < len(self.types) and self.types[a] == self.types[b] and self.types[a][0] == "func"
            k = self.types[a][0]
            return b in {"struct": ("struct", "eq", "any"), "array": ("array", "eq", "any"), "func": ("func",)}[k]
        if isinstance(b, int):
            if b >= len(self.types):
                raise Bad(f"type {b} does not exist")
            return (a == "none" and self.types[b][0] != "func") or (a == "nofunc" and self.types[b][0] == "func")
        return b in up.get(a, ())

    def sub(self, a, b):
        if a == b or a == "bot":
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return (b[1] or not a[1]) and (a[2] == "bot" or self.heap_sub(a[2], b[2]))
        return False


def const(v):
    if v[0] == "t" and v[1] == "wconst":
        return (v[2][1],) + tuple(v[3:])
    raise Unclear("constant expression")


class Ins:
    def __init__(self, v):
        if v[0] != "adt":
            raise Unclear(f"an instruction is not known: {str(v)[:120]}")
        self.n, self.p, self.f = v[2], v[3], v[4]

    def g(self, name):
        if name in self.f:
            return self.p[self.f.index(name)]
        raise Unclear(f"{self.n} has no {name}")

    def __repr__(self):
        return self.n


# ---- instruction signatures -----------------------------------------------------------------------------------------------------
NUM = re.compile(r"^([IF])(32|64)(Add|Sub|Mul|Div|DivS|DivU|RemS|RemU|And|Or|Xor|Shl|ShrS|ShrU|Rotl|Rotr|Min|Max|Copysign)$")
CMP = re.compile(r"^([IF])(32|64)(Eq|Ne|Lt|Le|Gt|Ge|LtS|LtU|LeS|LeU|GtS|GtU|GeS|GeU)$")
UN = re.compile(r"^([IF])(32|64)(Neg|Abs|Sqrt|Ceil|Floor|Trunc|Nearest|Clz|Ctz|Popcnt|Extend8S|Extend16S|Extend32S)$")
CONV = re.compile(r"^([IF])(32|64)(Wrap|Extend|Trunc|TruncSat|Convert|Demote|Promote|Reinterpret)([IF])(32|64)([SU]?)$")
LOAD = re.compile(r"^([IF])(32|64)Load(8|16|32)?([SU])?$")
STORE = re.compile(r"^([IF])(32|64)Store(8|16|32)?$")
TRAPS = re.compile(r"(Div[SU]|Rem[SU])$|^I\d\dTruncF")


def ty_of(m, i=1):
    return m[i].lower() + m[i + 1]


def numeric(n):
    """-> (pops, pushes) of a numeric instruction or None"""
    m = NUM.match(n)
    if m:
        return [ty_of(m)] * 2, [ty_of(m)]
    m = CMP.match(n)
    if m:
        return [ty_of(m)] * 2, ["i32"]
    m = UN.match(n)
    if m:
        return [ty_of(m)], [ty_of(m)]
    m = CONV.match(n)
    if m:
        return [ty_of(m, 4)], [ty_of(m)]
    if n in ("I32Eqz", "I64Eqz"):
        return [n[:3].lower()], ["i32"]
    return None


def block_type(v):
    if v[0] == "adt" and v[2] == "Empty":
        return []
    if v[0] == "adt" and v[2] == "Result":
        return [valtype(v[3][0])]
    raise Unclear("block type")


class Validator:
    def __init__(self, im, idx):
        self.im = im
        ti = im.func_type(len(im.imports) + idx)
        self.params, self.results = im.sig(ti)
        locs, self.code = im.code[idx]
        self.locals = list(self.params) + locs
        self.init = set(range(len(self.params))) | {i for i, t in enumerate(self.locals) if not (isinstance(t, tuple) and not t[1])}
        self.st, self.ct = [], []

    def push(self, *ts):
        self.st.extend(ts)

    def pop(self, want=None):
        f = self.ct[-1]
        if len(self.st) == f[3]:
            if f[4]:
                return "bot"
            raise Bad(f"{self.at}: the stack is empty")
        t = self.st.pop()
        if want is not None and not self.im.sub(t, want):
            raise Bad(f"{self.at}: {tstr(want)} is expected and {tstr(t)} is on the stack")
        return t

    def pops(self, ts):
        for t in reversed(ts):
            self.pop(t)

    def pushc(self, op, end):
        self.ct.append([op, end, None, len(self.st), False, set(self.init)])

    def popc(self):
        f = self.ct[-1]
        self.pops(f[1])
        if len(self.st) != f[3]:
            raise Bad(f"{self.at}: {len(self.st) - f[3]} values are left on the stack")
        self.init = f[5]
        self.ct.pop()
        return f

    def dead(self):
        f = self.ct[-1]
        del self.st[f[3]:]
        f[4] = True

    def label(self, d):
        if d >= len(self.ct):
            raise Bad(f"{self.at}: branch depth {d} leaves the function")
        f = self.ct[-1 - d]
        return [] if f[0] == "Loop" else f[1]

    def local(self, i):
        if i >= len(self.locals):
            raise Bad(f"{self.at}: local {i} does not exist")
        return self.locals[i]

    def struct(self, i):
        if i >= len(self.im.types) or self.im.types[i][0] != "struct":
            raise Bad(f"{self.at}: type {i} is not a structure")
        return self.im.types[i][1]

    def array(self, i):
        if i >= len(self.im.types) or self.im.types[i][0] != "array":
            raise Bad(f"{self.at}: type {i} is not an array")
        return self.im.types[i][1]

    def run(self):
        self.at = "start"
        self.pushc("Func", list(self.results))
        for k, i in enumerate(self.code):
            self.at = f"instruction {k} ({i.n})"
            if not self.ct:
                raise Bad(f"{self.at} after the end of the function")
            self.ins(i)
        if self.ct:
            raise Bad("the function has no end")

    def ins(self, i):
        n, im = i.n, self.im
        s = numeric(n)
        if s:
            self.pops(s[0])
            self.push(*s[1])
            return
        m = LOAD.match(n)
        if m:
            self.mem(i, int(m[3] or m[2]))
            self.pop("i32")
            self.push(ty_of(m))
            return
        m = STORE.match(n)
        if m:
            self.mem(i, int(m[3] or m[2]))
            self.pop(ty_of(m))
            self.pop("i32")
            return
        h = getattr(self, "v_" + n, None)
        if h is None:
            raise Unclear("instruction " + n)
        h(i)

    def mem(self, i, bits):
        a = i.p[0]
        if num(get(a, "memory_index")) >= len(im_mems(self.im)):
            raise Bad(f"{self.at}: memory {num(get(a, 'memory_index'))} does not exist")
        if 1 << num(get(a, "align")) > bits // 8:
            raise Bad(f"{self.at}: alignment 2^{num(get(a, 'align'))} is larger than natural")

    def v_LocalGet(self, i):
        k = num(i.p[0])
        t = self.local(k)
        if k not in self.init:
            raise Bad(f"{self.at}: local {k} of type {tstr(t)} is read before it is set")
        self.push(t)

    def v_LocalSet(self, i):
        k = num(i.p[0])
        self.pop(self.local(k))
        self.init = self.init | {k}

    def v_LocalTee(self, i):
        self.v_LocalSet(i)
        self.push(self.local(num(i.p[0])))

    def glob(self, i):
        k = num(i.p[0])
        if k >= len(self.im.globals):
            raise Bad(f"{self.at}: global {k} does not exist")
        return self.im.globals[k]

    def v_GlobalGet(self, i):
        self.push(self.glob(i)[0])

    def v_GlobalSet(self, i):
        t, m, _ = self.glob(i)
        if not m:
            raise Bad(f"{self.at}: the global is immutable")
        self.pop(t)

    def v_I32Const(self, i):
        self.push("i32")

    def v_I64Const(self, i):
        self.push("i64")

    def v_F32Const(self, i):
        self.push("f32")

    def v_F64Const(self, i):
        self.push("f64")

    def v_Nop(self, i):
        pass

    def v_Drop(self, i):
        self.pop()

    def v_Unreachable(self, i):
        self.dead()

    def v_Return(self, i):
        self.pops(self.results)
        self.dead()

    def v_Br(self, i):
        self.pops(self.label(num(i.p[0])))
        self.dead()

    def v_BrIf(self, i):
        self.pop("i32")
        ts = self.label(num(i.p[0]))
        self.pops(ts)
        self.push(*ts)

    def v_Block(self, i):
        self.pushc("Block", block_type(i.p[0]))

    def v_Loop(self, i):
        self.pushc("Loop", block_type(i.p[0]))

    def v_If(self, i):
        self.pop("i32")
        self.pushc("If", block_type(i.p[0]))

    def v_Else(self, i):
        f = self.popc()
        if f[0] != "If":
            raise Bad(f"{self.at}: not in an if")
        self.pushc("Else", f[1])

    def v_End(self, i):
        f = self.popc()
        if f[0] == "If" and f[1]:
            raise Bad(f"{self.at}: an if with a result has no else")
        self.push(*f[1])

    def v_Call(self, i):
        ps, rs = self.im.sig(self.im.func_type(num(i.p[0])))
        self.pops(ps)
        self.push(*rs)

    def tail(self, rs):
        if len(rs) != len(self.results) or not all(self.im.sub(a, b) for a, b in zip(rs, self.results)):
            raise Bad(f"{self.at}: the callee returns something else than the function")
        self.dead()

    def v_ReturnCall(self, i):
        ps, rs = self.im.sig(self.im.func_type(num(i.p[0])))
        self.pops(ps)
        self.tail(rs)

    def table(self, i):
        k = num(i.g("table_index"))
        if k >= len(self.im.tables):
            raise Bad(f"{self.at}: table {k} does not exist")
        if self.im.tables[k][0][2] != "func":
            raise Bad(f"{self.at}: table {k} does not hold functions")

    def v_CallIndirect(self, i):
        self.table(i)
        ps, rs = self.im.sig(num(i.g("type_index")))
        self.pop("i32")
        self.pops(ps)
        self.push(*rs)

    def v_ReturnCallIndirect(self, i):
        self.table(i)
        ps, rs = self.im.sig(num(i.g("type_index")))
        self.pop("i32")
        self.pops(ps)
        self.tail(rs)

    def v_RefNull(self, i):
        h = heap_type(i.p[0])
        h2 = h if isinstance(h, int) else h
        self.push(("ref", True, h2))

    def v_RefFunc(self, i):
        k = num(i.p[0])
        t = self.im.func_type(k)
        if not any(k in e[3] for e in self.im.elems) and not any(x[1] == "Func" and x[2] == k for x in self.im.exports):
            raise Bad(f"{self.at}: function {k} is referenced but declared nowhere")
        self.push(("ref", False, t))

    def anyref(self):
        t = self.pop()
        if t != "bot" and not isinstance(t, tuple):
            raise Bad(f"{self.at}: {tstr(t)} is not a reference")
        return t

    def v_RefIsNull(self, i):
        self.anyref()
        self.push("i32")

    def top(self, h):
        if isinstance(h, int):
            if h >= len(self.im.types):
                raise Bad(f"{self.at}: type {h} does not exist")
            return "func" if self.im.types[h][0] == "func" else "any"
        return {"func": "func", "nofunc": "func", "extern": "extern", "noextern": "extern"}.get(h, "any")

    def cast(self, i, res):
        t = self.anyref()
        h = heap_type(i.p[0])
        if t != "bot" and self.top(t[2]) != self.top(h):
            raise Bad(f"{self.at}: a cast from {tstr(t)} to another hierarchy")
        self.top(h)
        self.push(res(h))

    def v_RefCastNullable(self, i):
        self.cast(i, lambda h: ("ref", True, h))

    def v_RefCastNonNull(self, i):
        self.cast(i, lambda h: ("ref", False, h))

    def v_RefTestNullable(self, i):
        self.cast(i, lambda h: "i32")

    v_RefTestNonNull = v_RefTestNullable

    def v_RefI31(self, i):
        self.pop("i32")
        self.push(("ref", False, "i31"))

    def v_I31GetS(self, i):
        self.pop(("ref", True, "i31"))
        self.push("i32")

    v_I31GetU = v_I31GetS

    def v_StructNew(self, i):
        k = num(i.p[0])
        self.pops([unpack(f[0]) for f in self.struct(k)])
        self.push(("ref", False, k))

    def fld(self, i):
        k, f = num(i.g("struct_type_index")), num(i.g("field_index"))
        fs = self.struct(k)
        if f >= len(fs):
            raise Bad(f"{self.at}: type {k} has {len(fs)} fields")
        return k, fs[f]

    def v_StructGet(self, i):
        k, f = self.fld(i)
        if f[0] in ("i8", "i16"):
            raise Bad(f"{self.at}: a packed field")
        self.pop(("ref", True, k))
        self.push(f[0])

    def v_StructSet(self, i):
        k, f = self.fld(i)
        if not f[1]:
            raise Bad(f"{self.at}: the field is immutable")
        self.pop(unpack(f[0]))
        self.pop(("ref", True, k))

    def v_ArrayNew(self, i):
        k = num(i.p[0])
        self.pop("i32")
        self.pop(unpack(self.array(k)[0]))
        self.push(("ref", False, k))

    def v_ArrayNewDefault(self, i):
        k = num(i.p[0])
        t = self.array(k)[0]
        if isinstance(t, tuple) and not t[1]:
            raise Bad(f"{self.at}: elements have no default")
        self.pop("i32")
        self.push(("ref", False, k))

    def v_ArrayNewData(self, i):
        k, d = num(i.g("array_type_index")), num(i.g("array_data_index"))
        if isinstance(self.array(k)[0], tuple):
            raise Bad(f"{self.at}: an array of references")
        if d >= len(self.im.datas):
            raise Bad(f"{self.at}: data segment {d} does not exist")
        if self.im.datacount is None:
            raise Bad(f"{self.at}: needs a data count section")
        self.pop("i32")
        self.pop("i32")
        self.push(("ref", False, k))

    def aget(self, i, packed):
        k = num(i.p[0])
        t = self.array(k)[0]
        if (t in ("i8", "i16")) != packed:
            raise Bad(f"{self.at}: reads elements of {tstr(t)}")
        self.pop("i32")
        self.pop(("ref", True, k))
        self.push(unpack(t))

    def v_ArrayGet(self, i):
        self.aget(i, False)

    def v_ArrayGetS(self, i):
        self.aget(i, True)

    v_ArrayGetU = v_ArrayGetS

    def v_ArraySet(self, i):
        k = num(i.p[0])
        t, m = self.array(k)
        if not m:
            raise Bad(f"{self.at}: the array is immutable")
        self.pop(unpack(t))
        self.pop("i32")
        self.pop(("ref", True, k))

    def v_ArrayLen(self, i):
        self.pop(("ref", True, "array"))
        self.push("i32")

    def v_ArrayCopy(self, i):
        d, s = num(i.g("array_type_index_dst")), num(i.g("array_type_index_src"))
        if not self.array(d)[1]:
            raise Bad(f"{self.at}: the array is immutable")
        a, b = self.array(s)[0], self.array(d)[0]
        if not self.im.sub(a, b):
            raise Bad(f"{self.at}: copies {tstr(a)} over {tstr(b)}")
        for t in ("i32", "i32", ("ref", True, s), "i32", ("ref", True, d)):
            self.pop(t)

    def v_MemorySize(self, i):
        if num(i.p[0]) >= len(self.im.mems):
            raise Bad(f"{self.at}: memory {num(i.p[0])} does not exist")
        self.push("i32")

    def v_MemoryGrow(self, i):
        self.v_MemorySize(i)
        self.pop()
        self.pop("i32")
        self.push("i32")


def im_mems(im):
    return im.mems


def unpack(t):
    return "i32" if t in ("i8", "i16") else t


def tstr(t):
    if isinstance(t, tuple):
        return f"(ref {'null ' if t[1] else ''}{t[2]})"
    return str(t)


ORDER = ["TypeSection", "ImportSection", "FunctionSection", "TableSection", "MemorySection", "GlobalSection", "ExportSection", "ElementSection",
         "DataCountSection", "CodeSection", "DataSection"]


def validate(im):
    """Raises Bad if the module is not valid WebAssembly."""
    if not im.finished:
        raise Bad("no module is encoded")
    pos = [ORDER.index(x) for x in im.order]
    if pos != sorted(set(pos)):
        raise Bad(f"the sections come in the order {im.order}")
    if len(im.code) != len(im.funcs):
        raise Bad(f"{len(im.funcs)} functions are declared and {len(im.code)} defined")
    if im.datacount is not None and im.datacount != len(im.datas):
        raise Bad(f"{im.datacount} data segments are announced and {len(im.datas)} are there")

    def okty(t):
        if isinstance(t, tuple) and isinstance(t[2], int) and t[2] >= len(im.types):
            raise Bad(f"type {t[2]} does not exist")
    for i, t in enumerate(im.types):
        for x in (t[1] + t[2] if t[0] == "func" else [f[0] for f in t[1]] if t[0] == "struct" else [t[1][0]]):
            okty(x)
            if isinstance(x, tuple) and isinstance(x[2], int) and x[2] > i and im.group[x[2]] != im.group[i]:
                raise Bad(f"type {i} refers to the later type {x[2]}")
    n = len(im.imports) + len(im.funcs)
    for i in range(n):
        im.sig(im.func_type(i))
    names = [x[0] for x in im.exports]
    if len(set(names)) != len(names):
        raise Bad(f"the exports are called {names}")
    for nm, k, i in im.exports:
        if i >= {"Func": n, "Memory": len(im.mems), "Table": len(im.tables), "Global": len(im.globals)}[k]:
            raise Bad(f"export {nm} has an index that does not exist")
    for k, tb, off, fs in im.elems:
        for f in fs:
            im.func_type(f)
        if k == "active" and tb >= len(im.tables):
            raise Bad(f"table {tb} does not exist")
    for mem, off, bs in im.datas:
        if mem is not None and mem >= len(im.mems):
            raise Bad("active data without a memory")
    for m in im.mems:
        if m[1] is not None and m[1] < m[0]:
            raise Bad("memory limits")
    for t, mut, init in im.globals:
        k = const(init)
        want = {"i32_const": "i32", "i64_const": "i64", "f32_const": "f32", "f64_const": "f64"}.get(k[0])
        if want is not None and want != t:
            raise Bad(f"a global of type {tstr(t)} is initialised with {want}")
        if k[0] == "ref_null" and not (isinstance(t, tuple) and t[1] and im.heap_sub(heap_type(k[1]), t[2])):
            raise Bad(f"a global of type {tstr(t)} is initialised with another null")
    for i in range(len(im.funcs)):
        try:
            Validator(im, i).run()
        except Bad as b:
            raise Bad(f"function {len(im.imports) + i}: {b}")


# ---- executions -----------------------------------------------------------------------------------------------------------------
def parse(code):
    """flat instructions -> nested lists"""
    pos = [0]

    def body(stop):
        out = []
        while pos[0] < len(code):
            i = code[pos[0]]
            pos[0] += 1
            if i.n in ("Block", "Loop"):
                out.append((i, body(("End",))[0]))
            elif i.n == "If":
                a, e = body(("Else", "End"))
                b = []
                if e == "Else":
                    b, _ = body(("End",))
                out.append((i, a, b))
            elif i.n in stop:
                return out, i.n
            else:
                out.append((i,))
        raise Bad("a block has no end")
    r, _ = body(("End",))
    if pos[0] != len(code):
        raise Bad("instructions after the end of the function")
    return r


def pure(n):
    return (numeric(n) is not None and not TRAPS.search(n)) or n in ("RefNull", "RefFunc", "RefI31", "RefIsNull", "RefTestNullable", "RefTestNonNull",
                                                                     "I32Const", "I64Const", "F32Const", "F64Const")


NIL = ("nil",)
CASTS = ("RefCastNullable", "RefCastNonNull")


class Run:
    """Shared by source and target: a trace of effects and an oracle for conditions."""
    maxsteps = 160

    def __init__(self, oracle):
        self.oracle, self.trace, self.steps, self.n = oracle, [], 0, 0

    def ev(self, *x):
        self.trace.append(x)
        if x[0] != "cast":
            self.n += 1
        return ("r", self.n - 1)

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stop()

    def truth(self, c):
        if c[0] == "I32Const" and c[1][0][0] == "c":
            return c[1][0][1] != 0
        if c[0] == "I32Eqz":
            return not self.truth(c[2][0])
        if c[0] in ("I32Eq", "I32Ne"):
            for a, b in (c[2], c[2][::-1]):
                if b[0] == "I32Const" and b[1][0] == C(0):
                    return self.truth(a) == (c[0] == "I32Ne")
        return self.oracle(c, (True, False))

    def apply(self, name, payload, xs):
        """One data instruction on values -> value or None"""
        if pure(name):
            if name == "RefNull" and payload == ("none",):
                return NIL
            return (name, payload, tuple(xs))
        if name in CASTS:
            self.ev("cast", name, payload, xs[0])
            return xs[0]
        return self.ev(name, payload, tuple(xs))


class Machine(Run):
    def __init__(self, im, idx, names, oracle):
        super().__init__(oracle)
        self.im, self.names = im, names
        ps, rs = im.sig(im.func_type(len(im.imports) + idx))
        locs, code = im.code[idx]
        self.res = len(rs)
        self.locals = [("param", i) for i in range(len(ps))] + [NIL if t == ("ref", True, "none") else ("unset", tstr(t)) for t in locs]
        self.tree = parse(code)

    def run(self):
        try:
            st = []
            r = self.body(self.tree, st)
            if r is None or (r[0] == "br" and r[1] == 0):
                vals = st[len(st) - self.res:] if r is None else r[2]
                self.ev("Return", tuple(vals[len(vals) - self.res:] if self.res else ()))
        except Stop:
            pass
        return self.trace

    def body(self, tree, st):
        for node in tree:
            self.tick()
            r = self.step(node, st)
            if r is not None:
                return r
        return None

    def pop(self, st):
        if not st:
            raise Bad("the stack is empty")
        return st.pop()

    def popn(self, st, n):
        xs = [self.pop(st) for _ in range(n)]
        return xs[::-1]

    def leave(self, r, st, base, bt):
        """a block ends with r; -> what the enclosing code sees"""
        if r is None:
            vals = st[len(st) - len(bt):] if bt else []
            if len(vals) != len(bt):
                raise Bad("a block leaves no value")
            del st[base:]
            st.extend(vals)
            return None
        if r[0] == "br":
            if r[1] == 0:
                vals = r[2][len(r[2]) - len(bt):] if bt else []
                if len(vals) != len(bt):
                    raise Bad("a branch carries no value")
                del st[base:]
                st.extend(vals)
                return None
            return ("br", r[1] - 1, r[2])
        return r

    def step(self, node, st):
        i = node[0]
        n = i.n
        if n == "Block":
            base = len(st)
            sub = []
            r = self.body(node[1], sub)
            return self.leave_sub(r, st, sub, block_type(i.p[0]))
        if n == "If":
            c = self.truth(self.pop(st))
            sub = []
            r = self.body(node[1] if c else node[2], sub)
            return self.leave_sub(r, st, sub, block_type(i.p[0]))
        if n == "Loop":
            while True:
                self.tick()
                sub = []
                r = self.body(node[1], sub)
                if r is not None and r[0] == "br" and r[1] == 0:
                    continue
                if r is not None and r[0] == "br":
                    return ("br", r[1] - 1, r[2])
                return self.leave_sub(r, st, sub, block_type(i.p[0]))
        if n == "Br":
            return ("br", num(i.p[0]), list(st))
        if n == "BrIf":
            if self.truth(self.pop(st)):
                return ("br", num(i.p[0]), list(st))
            return None
        if n == "Return":
            self.ev("Return", tuple(self.popn(st, self.res)))
            return ("ret",)
        if n == "Unreachable":
            self.ev("Unreachable", ())
            return ("ret",)
        if n in ("Call", "ReturnCall"):
            f = num(i.p[0])
            ps, rs = self.im.sig(self.im.func_type(f))
            xs = self.popn(st, len(ps))
            v = self.ev(n, self.names.get(f, f), tuple(xs))
            if n == "ReturnCall":
                return ("ret",)
            if rs:
                st.append(v)
            return None
        if n in ("CallIndirect", "ReturnCallIndirect"):
            sg = self.im.sig(num(i.g("type_index")))
            c = self.pop(st)
            xs = self.popn(st, len(sg[0]))
            v = self.ev(n, (sg, num(i.g("table_index"))), (c,) + tuple(xs))
            if n == "ReturnCallIndirect":
                return ("ret",)
            if sg[1]:
                st.append(v)
            return None
        if n == "LocalGet":
            st.append(self.rd(num(i.p[0])))
            return None
        if n == "LocalSet":
            self.locals[num(i.p[0])] = self.pop(st)
            return None
        if n == "LocalTee":
            self.locals[num(i.p[0])] = st[-1]
            return None
        if n == "Drop":
            self.pop(st)
            return None
        if n == "Nop":
            return None
        s = numeric(n)
        k = None
        pay = tuple(i.p)
        if s:
            k, out = len(s[0]), True
        elif LOAD.match(n):
            k, out, pay = 1, True, memarg(i.p[0])
        elif STORE.match(n):
            k, out, pay = 2, False, memarg(i.p[0])
        elif n in ("I32Const", "I64Const", "F32Const", "F64Const"):
            k, out, pay = 0, True, (bits(i.p[0]),)
        elif n == "RefNull":
            k, out, pay = 0, True, (heap_type(i.p[0]),)
        elif n == "RefFunc":
            k, out, pay = 0, True, (self.names.get(num(i.p[0]), num(i.p[0])),)
        elif n in CASTS or n.startswith("RefTest"):
            k, out, pay = 1, True, (heap_type(i.p[0]),)
        elif n in ("RefIsNull", "RefI31", "I31GetS", "I31GetU", "ArrayLen"):
            k, out = 1, True
        elif n == "StructNew":
            pay = (num(i.p[0]),)
            k, out = len(self.im.types[pay[0]][1]), True
        elif n == "StructGet":
            k, out, pay = 1, True, (num(i.g("struct_type_index")), num(i.g("field_index")))
        elif n == "StructSet":
            k, out, pay = 2, False, (num(i.g("struct_type_index")), num(i.g("field_index")))
        elif n == "ArrayNew":
            k, out, pay = 2, True, (num(i.p[0]),)
        elif n == "ArrayNewDefault":
            k, out, pay = 1, True, (num(i.p[0]),)
        elif n == "ArrayNewData":
            k, out, pay = 2, True, (num(i.g("array_type_index")), num(i.g("array_data_index")))
        elif n in ("ArrayGet", "ArrayGetS", "ArrayGetU"):
            k, out, pay = 2, True, (num(i.p[0]),)
        elif n == "ArraySet":
            k, out, pay = 3, False, (num(i.p[0]),)
        elif n == "ArrayCopy":
            k, out, pay = 5, False, (num(i.g("array_type_index_dst")), num(i.g("array_type_index_src")))
        elif n == "GlobalGet":
            k, out, pay = 0, True, (num(i.p[0]),)
        elif n == "GlobalSet":
            k, out, pay = 1, False, (num(i.p[0]),)
        elif n == "MemorySize":
            k, out, pay = 0, True, (num(i.p[0]),)
        elif n == "MemoryGrow":
            k, out, pay = 1, True, (num(i.p[0]),)
        else:
            raise Unclear("instruction " + n)
        v = self.apply(n, pay, self.popn(st, k))
        if out:
            st.append(v)
        return None

    def leave_sub(self, r, st, sub, bt):
        x = self.leave(r, sub, 0, bt)
        if x is None:
            st.extend(sub)
        return x

    def rd(self, k):
        v = self.locals[k]
        return v


def memarg(a):
    return (num(get(a, "offset")), num(get(a, "memory_index")))


def bits(v):
    """constants: numbers as numbers, floats by their bits"""
    while v[0] == "t" and v[1] in ("wbits", "cast", "from_bits", "to_bits") and len(v) >= 3:
        v = v[2]
    if v[0] == "adt" and v[2].startswith("Ieee"):
        return bits(v[3][0])
    return v


def agree(src, tgt):
    """Traces agree, the target may have casts of its own. -> None | text"""
    i = 0
    for e in tgt:
        if i < len(src) and e == src[i]:
            i += 1
        elif e[0] == "cast":
            continue
        else:
            want = next((x for x in src[i:]), None)
            return f"after {i} effects performs {brief(e)}" + (f" instead of {brief(want)}" if want else "")
    if i < len(src):
        return f"does not perform {brief(src[i])}"
    return None


def brief(e):
    return re.sub(r"\s+", " ", str(e))[:200]


def compare(mk_src, mk_tgt, budget=7):
    """Executions of source and target for all outcomes of the conditions. -> (None | text, number of executions)"""
    todo, count = [{}], 0
    while todo:
        fixed = todo.pop()

        def oracle(k, options):
            if k in fixed:
                return fixed[k]
            raise Need(k, options)
        a = mk_src(oracle)
        full = True
        try:
            a.run()
        except Need as n:
            if len(fixed) < budget:
                todo += [{**fixed, n.key: o} for o in n.options]
                continue
            full = False
        except Bad as b:
            raise Unclear("original: " + str(b))
        b = mk_tgt(oracle)
        over = a.steps > a.maxsteps
        try:
            b.run()
        except Need as n:
            if full and not over:
                return f"branches on {brief(n.key)}, which the original does not", count
        over = over or b.steps > b.maxsteps or not full
        count += 1
        if over:
            x, y = [e for e in a.trace if e[0] != "cast"], [e for e in b.trace if e[0] != "cast"]
            k = min(len(x), len(y))
            w = agree(x[:k], y[:k])
        else:
            w = agree(a.trace, b.trace)
        if w:
            return w, count
    return None, count

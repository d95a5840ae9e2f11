"""A30: bytes, literals and output of the standard library on WebAssembly."""
from .a22 import *
from .a29 import MODELS as LITERALS, externs
from .a21 import at_of
from engine.rules import *
from engine import absint

LEVEL = "other"
EXPLANATION = ("The WebAssembly back end is analysed on abstract functions that use byte sequences, literals and output; the encoded module is read back, "
               "validated, and its functions are interpreted abstractly: the bytes are unknown, lengths and offsets range over small and page-crossing "
               "values, and every outcome of comparing two bytes and of every request to the host is followed.")
ASSUMPTIONS = ["lengths up to four bytes and around the first two page boundaries; up to four requests to the host with undetermined outcome",
               "the encoder library encodes what it is told",
               "the host follows the interface of WASI preview 1 (it reports at most as many bytes as it was offered)"]
M32 = 1 << 32
PAGE = 65536


class Trap(Exception):
    pass


class World30:
    """What functions of one execution share: objects, memory, globals, the host."""

    def __init__(self, im, names, oracle, host=None, grow=True):
        self.im, self.names, self.oracle, self.host, self.grow = im, names, oracle, host, grow
        self.objs, self.mem = [], {}
        self.pages = im.mems[0][0] if im.mems else 0
        self.globals = {}
        self.steps, self.maxsteps = 0, 16000000

    def new(self, kind, ti, vals):
        self.objs.append([kind, ti, vals])
        return ("obj", len(self.objs) - 1)

    def bytes(self, name, off, n, total):
        """a byte sequence whose bytes are unknown"""
        a = self.new("array", self.types()[1], [("byte", name, k) for k in range(total)])
        return self.new("struct", self.types()[0], [a, ("i", off), ("i", n)])

    def types(self):
        """(structure, array) of byte sequences"""
        for i, t in enumerate(self.im.types):
            if t[0] == "struct" and len(t[1]) == 3 and t[1][1][0] == t[1][2][0] == "i32" and isinstance(t[1][0][0], tuple):
                j = t[1][0][0][2]
                if isinstance(j, int) and self.im.types[j][0] == "array" and self.im.types[j][1][0] == "i8":
                    return i, j
        raise Unclear("representation of byte sequences")

    def logical(self, v):
        """the bytes of a byte sequence"""
        if v[0] != "obj":
            raise Bad(f"gives {brief(v)}, not a byte sequence")
        k, t, vs = self.objs[v[1]]
        if t != self.types()[0]:
            raise Bad(f"gives an object of type {t}, not a byte sequence")
        a, off, n = vs
        if off[0] != "i" or n[0] != "i" or a[0] != "obj":
            raise Unclear("fields of a byte sequence")
        d = self.objs[a[1]][2]
        if off[1] + n[1] > len(d):
            raise Bad(f"gives a byte sequence of {n[1]} bytes at {off[1]} in an array of {len(d)}")
        return d[off[1]:off[1] + n[1]]


def sint(n):
    return n - M32 if n >= M32 // 2 else n


def i32(n):
    return ("i", n % M32)


CMPS = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "LtU": lambda a, b: a < b, "LeU": lambda a, b: a <= b, "GtU": lambda a, b: a > b,
        "GeU": lambda a, b: a >= b}
BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "And": lambda a, b: a & b, "Or": lambda a, b: a | b,
       "Xor": lambda a, b: a ^ b, "Shl": lambda a, b: a << (b % 32), "ShrU": lambda a, b: a >> (b % 32), "ShrS": lambda a, b: sint(a) >> (b % 32)}


class Con(Machine):
    def __init__(self, w, idx, args):
        super().__init__(w.im, idx, w.names, w.oracle)
        self.w = w
        ps, _ = w.im.sig(w.im.func_type(len(w.im.imports) + idx))
        if len(args) != len(ps):
            raise Unclear("number of arguments")
        for i, a in enumerate(args):
            self.locals[i] = a
        locs = w.im.code[idx][0]
        for i, t in enumerate(locs):
            self.locals[len(ps) + i] = ("i", 0) if t == "i32" else ("null",) if isinstance(t, tuple) else ("zero", t)

    def tick(self):
        self.w.steps += 1
        if self.w.steps > self.w.maxsteps:
            raise Unclear("too many steps")

    def go(self):
        st = []
        r = self.body(self.tree, st)
        if r is not None and r[0] == "result":
            return r[1]
        vals = st if r is None else r[2] if r[0] == "br" else None
        if vals is None:
            raise Unclear("end of a function")
        return vals[len(vals) - self.res:] if self.res else []

    def truth(self, c):
        if c[0] == "i":
            return c[1] != 0
        if c[0] == "same":
            return self.w.oracle(c, (True, False))
        if c[0] == "not":
            return not self.truth(c[1])
        raise Unclear(f"branches on {brief(c)}")

    def step(self, node, st):
        i = node[0]
        n = i.n
        if n == "Return":
            return ("result", self.popn(st, self.res))
        if n == "Unreachable":
            raise Trap("unreachable")
        if n in ("Call", "ReturnCall"):
            f = num(i.p[0])
            ps, rs = self.im.sig(self.im.func_type(f))
            xs = self.popn(st, len(ps))
            k = len(self.im.imports)
            if f < k:
                if self.w.host is None:
                    raise Unclear("call of an imported function")
                out = self.w.host(self.w, self.im.imports[f], xs)
            else:
                out = Con(self.w, f - k, xs).go()
            if n == "ReturnCall":
                return ("result", out)
            st.extend(out)
            return None
        if n in ("CallIndirect", "ReturnCallIndirect"):
            raise Unclear("call through the table")
        return super().step(node, st)

    # ---- one instruction on values
    def apply(self, n, pay, xs):
        w = self.w
        if n == "I32Const":
            return i32(pay[0][1]) if pay[0][0] == "c" else self.no(n)
        if n == "I32Eqz":
            return self.cmp("Eq", xs[0], ("i", 0))
        m = CMP.match(n)
        if m and m[1] + m[2] == "I32":
            return self.cmp(m[3], *xs)
        m = NUM.match(n)
        if m and m[1] + m[2] == "I32":
            return self.bin(m[3], *xs)
        if n == "RefNull":
            return ("null",)
        if n == "RefIsNull":
            return i32(xs[0] == ("null",)) if xs[0][0] in ("null", "obj") else self.no(n)
        if n in CASTS or n.startswith("RefTest"):
            return self.cast(n, pay[0], xs[0])
        if n == "StructNew":
            return w.new("struct", pay[0], list(xs))
        if n == "StructGet":
            return self.obj(xs[0], pay[0])[pay[1]]
        if n == "StructSet":
            self.obj(xs[0], pay[0])[pay[1]] = xs[1]
            return None
        if n == "ArrayNewDefault":
            z = ("null",) if isinstance(self.im.types[pay[0]][1][0], tuple) else ("i", 0)
            return w.new("array", pay[0], [z] * self.size(xs[0]))
        if n == "ArrayNew":
            return w.new("array", pay[0], [self.elem(xs[0])] * self.size(xs[1]))
        if n == "ArrayNewData":
            if pay[1] >= len(w.im.datas):
                raise Bad(f"data segment {pay[1]} does not exist")
            mem, off, bs = w.im.datas[pay[1]]
            if mem is not None:
                bs = ()
            o, k = self.int(xs[0]), self.int(xs[1])
            if o + k > len(bs):
                raise Trap(f"reads {k} bytes at {o} of a data segment of {len(bs)}")
            return w.new("array", pay[0], [("i", b) for b in bs[o:o + k]])
        if n == "ArrayLen":
            return i32(len(self.obj(xs[0], None)))
        if n in ("ArrayGet", "ArrayGetS", "ArrayGetU"):
            d, k = self.obj(xs[0], pay[0]), self.int(xs[1])
            if k >= len(d):
                raise Trap(f"element {k} of an array of {len(d)}")
            v = d[k]
            if n == "ArrayGetS":
                return i32(v[1] - 256 if v[1] > 127 else v[1]) if v[0] == "i" else ("signed", v)
            return v
        if n == "ArraySet":
            d, k = self.obj(xs[0], pay[0]), self.int(xs[1])
            if k >= len(d):
                raise Trap(f"element {k} of an array of {len(d)}")
            d[k] = self.elem(xs[2])
            return None
        if n == "ArrayCopy":
            d, do, s, so, k = self.obj(xs[0], pay[0]), self.int(xs[1]), self.obj(xs[2], pay[1]), self.int(xs[3]), self.int(xs[4])
            if do + k > len(d) or so + k > len(s):
                raise Trap(f"copies {k} elements from {so} of {len(s)} to {do} of {len(d)}")
            d[do:do + k] = s[so:so + k]
            return None
        m = LOAD.match(n)
        if m:
            return self.load(m, pay, xs)
        m = STORE.match(n)
        if m:
            if m[1] + m[2] != "I32":
                self.no(n)
            k = int(m[3] or 32) // 8
            a = self.addr(pay, xs[0], k)
            v = xs[1]
            if v[0] == "i":
                for j in range(k):
                    w.mem[a + j] = ("i", v[1] >> 8 * j & 255)
            elif k == 1 and v[0] in ("byte", "signed"):
                w.mem[a] = v if v[0] == "byte" else v[1]
            else:
                self.no(n)
            return None
        if n == "MemorySize":
            return i32(w.pages)
        if n == "MemoryGrow":
            k = self.int(xs[0])
            if not w.grow or w.pages + k > PAGE:
                return i32(-1)
            w.pages += k
            return i32(w.pages - k)
        if n == "GlobalGet":
            if pay[0] not in w.globals:
                c = const(self.im.globals[pay[0]][2])
                if c[0] != "i32_const":
                    self.no(n)
                w.globals[pay[0]] = i32(c[1][1])
            return w.globals[pay[0]]
        if n == "GlobalSet":
            w.globals[pay[0]] = xs[0]
            return None
        return self.no(n)

    def no(self, n):
        raise Unclear("instruction " + n)

    def int(self, v):
        if v[0] != "i":
            raise Unclear(f"a number is not known: {brief(v)}")
        return v[1]

    def size(self, v):
        k = self.int(v)
        if k > 1 << 24:
            raise Unclear("size of an array")
        return k

    def elem(self, v):
        return ("i", v[1] & 255) if v[0] == "i" else v[1] if v[0] == "signed" else v

    def obj(self, v, t):
        if v == ("null",):
            raise Trap("null reference")
        if v[0] != "obj":
            raise Unclear(f"object {brief(v)}")
        o = self.w.objs[v[1]]
        if t is not None and o[1] != t:
            raise Unclear("type of an object")
        return o[2]

    def cast(self, n, to, v):
        null = v == ("null",)
        if not null and v[0] != "obj":
            raise Unclear("cast of " + brief(v))
        ok = n.endswith("Nullable") if null else self.im.heap_sub(self.w.objs[v[1]][1], to)
        if n in CASTS:
            if not ok:
                raise Trap("cast")
            return v
        return i32(ok)

    def cmp(self, k, a, b):
        if a[0] == "i" and b[0] == "i":
            if k.endswith("S"):
                return i32(CMPS[k[:-1] + "U"](sint(a[1]), sint(b[1])))
            return i32(CMPS[k](a[1], b[1]))
        if b == ("i", 0) and a[0] in ("same", "not") and k in ("Eq", "Ne"):
            return a if k == "Ne" else a[1] if a[0] == "not" else ("not", a)
        if k in ("Eq", "Ne") and a[0] == b[0] and a[0] in ("byte", "signed"):
            a, b = (a[1], b[1]) if a[0] == "signed" else (a, b)
            c = i32(1) if a == b else ("same",) + tuple(sorted((a, b)))
            if a == b:
                return i32(k == "Eq")
            return c if k == "Eq" else ("not", c)
        raise Unclear(f"compares {brief(a)} and {brief(b)}")

    def bin(self, k, a, b):
        if a[0] == "i" and b[0] == "i":
            if k in ("DivU", "RemU", "DivS", "RemS"):
                if not b[1]:
                    raise Trap("division by zero")
                if k.endswith("U"):
                    return i32(a[1] // b[1] if k == "DivU" else a[1] % b[1])
                q = abs(sint(a[1])) // abs(sint(b[1])) * (1 if (sint(a[1]) < 0) == (sint(b[1]) < 0) else -1)
                return i32(q if k == "DivS" else sint(a[1]) - q * sint(b[1]))
            if k in BIN:
                return i32(BIN[k](a[1], b[1]))
        if k == "And":
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and y[1] & 255 == 255:
                    if x[0] == "byte" or x[0] == "signed" and y[1] == M32 - 1:
                        return x
                    if x[0] == "signed" and y[1] == 255:
                        return x[1]
        if k in ("Add", "Or", "Xor", "Sub") and b == ("i", 0):
            return a
        return self.no("I32" + k)

    def addr(self, pay, a, k):
        a = self.int(a) + pay[0]
        if a + k > self.w.pages * PAGE:
            raise Trap(f"address {a} is outside the memory")
        return a

    def load(self, m, pay, xs):
        if m[1] + m[2] != "I32":
            self.no("Load")
        k = int(m[3] or 32) // 8
        a = self.addr(pay, xs[0], k)
        bs = [self.w.mem.get(a + j, ("i", 0)) for j in range(k)]
        if k == 1 and bs[0][0] == "byte":
            return bs[0] if m[4] == "U" else ("signed", bs[0])
        n = 0
        for j, b in enumerate(bs):
            if b[0] != "i":
                raise Unclear("a number read from memory")
            n |= b[1] << 8 * j
        if k < 4 and m[4] == "S" and n >> (8 * k - 1):
            n -= 1 << 8 * k
        return i32(n)


def runs(mk, budget=12):
    """every execution: mk(oracle) -> None | text; the oracle asks for what is undetermined"""
    todo, n = [{}], 0
    while todo:
        fixed = todo.pop()

        def oracle(k, options):
            if k in fixed:
                return fixed[k]
            raise Need(k, options)
        try:
            mk(oracle, fixed)
        except Need as e:
            if len(fixed) >= budget:
                raise Unclear("too many undetermined outcomes")
            todo += [{**fixed, e.key: o} for o in e.options]
            continue
        n += 1
        if n > 3000:
            raise Unclear("too many executions")
    return n


class At:
    """The encoded module of a case."""

    def __init__(self, im, names):
        self.im, self.names = im, names
        self.idx = {n: i for i, n in names.items()}

    def call(self, w, f, args):
        return Con(w, self.idx[f] - len(self.im.imports), args).go()

    def one(self, w, f, args):
        """result or None if it traps"""
        try:
            r = self.call(w, f, args)
        except Trap as t:
            return None, str(t)
        if len(r) != 1:
            raise Bad(f"{f} gives {len(r)} values")
        return r[0], None


def case30(ctx, key, text, judge, sigs=None, attrs=None, refuse=None):
    hold = {}

    def prep(eng, st, h, lay, m):
        v = h.view(st)
        put(h, m, "tribute.type.string", at("Type", NAMED["STR"]))
        for t, o in lay.ops.items():
            if v.opname(o) == "func.func" and at_of(v, o, "abi") is not None:
                put(h, o, "abi", at("String", at_of(v, o, "abi")))
    rs, e = stages(ctx, text, hold, attrs, sigs, prep, extra_models=LITERALS, max_steps=6000000)
    if refuse:
        if rs is None and "refused" in str(e.failed):
            ctx.ok(key)
        elif rs is None:
            ctx.unk(key, e.failed)
        else:
            ctx.verdicts(key, [(r, ("bad", f"{key}: {refuse}")) for r in rs], ctx.where(LOW))
        return
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        x = None
        try:
            if r.end != "ret":
                x = ("bad", f"{key}: emission stops: {r.end}") if not r.conds else ("unk", str(r.end))
            elif r.ret[0] != "adt" or r.ret[2] != "Ok":
                x = ("bad", f"{key}: emission is refused: {brief(r.ret)}") if r.ret[0] == "adt" else ("unk", "result")
            else:
                im = Image(r.events)
                validate(im)
                after = hold["after"]
                ds = defs(after, hold["m"])
                imps = [o for k, o in ds if k == "import_func"]
                fs = [o for k, o in ds if k == "func"]
                if len(im.funcs) != len(fs) or len(im.imports) != len(imps):
                    raise Bad(f"{len(im.funcs)} functions are encoded instead of {len(fs)}")
                judge(At(im, {i: at_of(after, o, "sym_name")[1] for i, o in enumerate(imps + fs)}))
        except Bad as b:
            x = ("bad", f"{key}: {b}")
        except Trap as t:
            x = ("bad", f"{key}: traps: {t}")
        except (Unclear, Need, Stop) as u:
            x = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, x))
    ctx.verdicts(key, out, ctx.where(LOW))


from .a30_shapes import CASES, SIGS as NAMES          # noqa: E402


def check(ctx):
    ctx.rule("in every execution of the encoded functions the result, the bytes of it and what the host is asked to write are those of the operation")
    have = {n for _, n, _, _ in externs(open("/repo/lib/std/prelude.trb").read())}
    jobs = []
    for a, kw in CASES:
        gone = [n for n in NAMES if f"@{n}" in a[1] and n not in have]
        if gone:        # what the standard library does not call so any more is not a property of its functions
            ctx.unk(a[0], f"{gone[0]} is not in the standard library")
        else:
            jobs.append(lambda a=a, kw=kw: case30(ctx, *a, **kw))
    ctx.parallel(jobs)

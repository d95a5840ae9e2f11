"""What a lowered native function does: an abstract executor of clif functions.

Values are constants, opaque symbols, and pointers (object, offset) into objects made on the way; every load, store, allocation and
free is checked against the object it goes to, and everything visible outside is recorded.  Branches on opaque values are explored
both ways."""
from .irtrace import *

SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8, "ptr": 8, "i1": 4}
RTSIZE = {"int": 4, "nat": 4, "bool": 4, "float": 8, "rune": 4}


def size_of(t):
    """Bytes a value of this type takes once lowered (None: not a value with a size)."""
    if t is None or t[0] != "ty":
        return None
    d, n = t[1][1], t[2][1]
    if d == "core" and n in SIZE:
        return SIZE[n]
    if d == "core" and n == "nil":
        return 0
    if d == "tribute_rt" and n in RTSIZE:
        return RTSIZE[n]
    return 8


def klass(t):
    if t is None or t[0] != "ty":
        return None
    d, n = t[1][1], t[2][1]
    if (d, n) in (("core", "f32"), ("core", "f64"), ("tribute_rt", "float")):
        return "float"
    if d == "core" and n[0] == "i" and n[1:].isdigit():
        return "int"
    if d == "tribute_rt" and n in RTSIZE:
        return "int"
    return "ref"


def type_of(v, x):
    d = v.field("Value", x, "def")
    if d is None or d[0] != "adt":
        return None
    e, i = d[3][0], d[3][1]
    if i[0] != "c":
        return None
    i = i[1]
    if d[2] == "OpResult":
        ts = v.seq(v.field("Op", e, "results"))
        return ts[i] if ts is not None and i < len(ts) else None
    ts = v.seq(v.field("Block", e, "args"))
    if ts is None or i >= len(ts) or ts[i][0] != "adt":
        return None
    return ts[i][3][ts[i][4].index("ty")]


class Obj:
    def __init__(self, name, size, known):
        self.name, self.size, self.cells, self.live, self.known = name, size, {}, True, known


class Machine:
    """One execution under `choices` (list of bools for opaque branches, in order of first occurrence)."""

    def __init__(self, v, choices=(), maxsteps=400, rc=True, casts=("core.unrealized_conversion_cast",), hooks=None):
        self.v, self.choices, self.maxsteps, self.rc, self.casts, self.hooks = v, choices, maxsteps, rc, casts, hooks or {}
        self.objs, self.trace, self.used, self.facts, self.n, self.steps = [], [], 0, {}, 0, 0

    # -- values
    def sym(self, name):
        return ("sym", name)

    def new(self, name, size, known=True):
        self.objs.append(Obj(name, size, known))
        return ("ptr", len(self.objs) - 1, 0)

    def attr(self, o, k):
        a = self.v.field("Op", o, "attributes")
        if a is None or a[0] != "map":
            raise Unclear("attributes")
        for kk, x in a[1]:
            if kk == S(k):
                return x
        return None

    def num(self, o, k):
        a = self.attr(o, k)
        if a is None:
            return None
        if a[0] == "adt" and a[3] and a[3][0][0] == "c":
            return a[3][0][1]
        raise Unclear(f"attribute {k} of {self.v.opname(o)}")

    def name_attr(self, o, k):
        a = self.attr(o, k)
        if a is not None and a[0] == "adt" and a[3][0][0] == "s":
            return a[3][0][1]
        raise Unclear(f"attribute {k} of {self.v.opname(o)}")

    def choose(self, key):
        if key in self.facts:
            return self.facts[key]
        if self.used >= len(self.choices):
            raise Need(key, (True, False))
        c = self.choices[self.used]
        self.used += 1
        self.facts[key] = c
        return c

    def eq(self, a, b):
        if a[0] == "int" and b[0] == "int":
            return a[1] == b[1]
        if a == b:
            return True
        if a[0] == "ptr" and b[0] == "int" or a[0] == "int" and b[0] == "ptr":
            return False
        if a[0] == "ptr" and b[0] == "ptr":
            return False
        return self.choose(("eq",) + tuple(sorted((a, b), key=repr)))

    # -- memory
    def at(self, p, n, what, align=True):
        ob = self.objs[p[1]]
        if not ob.live:
            raise Bad(f"{what} goes to {ob.name} after it was freed")
        if ob.size is not None and not (0 <= p[2] and p[2] + n <= ob.size):
            raise Bad(f"{what} of {n} bytes at {p[2]} is outside {ob.name} ({ob.size} bytes)")
        if align and n and p[2] % n:
            raise Bad(f"{what} of {n} bytes at {p[2]} of {ob.name} is not aligned")
        return ob

    def load(self, p, off, n, k, what):
        if p[0] == "int" and p[1] == 0:
            raise Bad(f"{what} reads through null")
        if p[0] != "ptr":
            return ("mem", p, off, n)
        p = ("ptr", p[1], p[2] + off)
        ob = self.at(p, n, what)
        c = ob.cells.get(p[2])
        if c is not None and c[0] == n:
            if k is not None and c[2] is not None and c[2] != k:
                raise Bad(f"{what} reads a {c[2]} of {ob.name} at {p[2]} as {k}")
            return c[1]
        for o2, (n2, v2, k2) in ob.cells.items():
            if o2 < p[2] + n and p[2] < o2 + n2:
                raise Bad(f"{what} reads {n} bytes at {p[2]} of {ob.name}, where {n2} bytes were written at {o2}")
        if ob.known:
            raise Bad(f"{what} reads {n} bytes at {p[2]} of {ob.name} that were never written")
        val = ("mem", ("ptr", p[1], 0), p[2], n)
        ob.cells[p[2]] = (n, val, k)
        return val

    def store(self, p, off, n, val, k, what):
        if p[0] == "int":
            raise Bad(f"{what} writes through a constant")
        if p[0] != "ptr":
            self.trace.append(("store", p, off, n, val))
            return
        p = ("ptr", p[1], p[2] + off)
        ob = self.at(p, n, what)
        for o2 in [o2 for o2, (n2, _, _) in ob.cells.items() if o2 < p[2] + n and p[2] < o2 + n2]:
            if (o2, ob.cells[o2][0]) != (p[2], n):
                raise Bad(f"{what} writes {n} bytes at {p[2]} of {ob.name} over the {ob.cells[o2][0]} bytes at {o2}")
            del ob.cells[o2]
        ob.cells[p[2]] = (n, val, k)

    # -- control
    def run(self, func, args, results=None):
        v = self.v
        rs = v.seq(v.field("Op", func, "regions"))
        if not rs:
            raise Unclear("function without a body")
        bs = v.seq(v.field("Region", rs[0], "blocks"))
        if not bs:
            raise Unclear("blocks")
        b = bs[0]
        ps = v.bargs(b)
        if len(ps) != len(args):
            raise Bad(f"{len(args)} arguments for {len(ps)} parameters")
        env = dict(zip(ps, args))
        self.env = env
        while True:
            nxt = None
            ops = v.ops(b)
            if ops is None:
                raise Unclear("ops")
            for i, o in enumerate(ops):
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Stop()
                nxt = self.op(o, env)
                if nxt is not None:
                    if i != len(ops) - 1:
                        raise Bad(f"{v.opname(o)} is followed by other ops in its block")
                    break
            if nxt is None:
                raise Bad(f"block {b[2]} has no terminator")
            if nxt[0] != "goto":
                return nxt
            b, vals = nxt[1], nxt[2]
            if b not in bs:
                raise Bad(f"branch to block {b[2]}, which is not in the function")
            ps = v.bargs(b)
            if len(ps) != len(vals):
                raise Bad(f"branch passes {len(vals)} values to a block with {len(ps)} arguments")
            env.update(zip(ps, vals))

    def arith(self, nm, a):
        x, y = a
        if x[0] == "int" and y[0] == "int":
            return ("int", x[1] + y[1] if nm == "iadd" else x[1] - y[1])
        if nm == "iadd" and x[0] == "int":
            x, y = y, x
        if y[0] == "int":
            k = y[1] if nm == "iadd" else -y[1]
            if x[0] == "ptr":
                return ("ptr", x[1], x[2] + k)
            if k == 0:
                return x
            if x[0] == "off":
                return ("off", x[1], x[2] + k) if x[2] + k else x[1]
            return ("off", x, k)
        return ("op", nm, x, y)

    def op(self, o, env):
        v = self.v
        nm = v.opname(o)
        xs = v.operands(o)
        if nm is None or xs is None:
            raise Unclear("op")
        for x in xs:
            if x not in env:
                raise Bad(f"{nm} reads {x[2]} before it is defined")
        a = [env[x] for x in xs]
        rs = v.results(o)
        succ = v.seq(v.field("Op", o, "successors")) or []
        if nm in self.hooks:
            r = self.hooks[nm](self, o, a, env)
            if r is not NotImplemented:
                return r
        if nm in self.casts:
            env[rs[0]] = a[0]
            return None
        k = nm[5:] if nm.startswith("clif.") else nm
        if k == "iconst":
            env[rs[0]] = ("int", self.num(o, "value"))
        elif k in ("iadd", "isub"):
            env[rs[0]] = self.arith(k, a)
        elif k == "load":
            t = type_of(v, rs[0])
            n = size_of(t)
            if n is None:
                raise Unclear("load type")
            off = self.num(o, "offset") or 0
            p = a[0]
            if p[0] == "off":
                p, off = p[1], off + p[2]
            env[rs[0]] = self.load(p, off, n, klass(t), f"the load {o[2]}")
        elif k == "store":
            t = type_of(v, xs[0])
            n = size_of(t)
            if n is None:
                raise Unclear("store type")
            off = self.num(o, "offset") or 0
            p = a[1]
            if p[0] == "off":
                p, off = p[1], off + p[2]
            self.store(p, off, n, a[0], klass(t), f"the store {o[2]}")
        elif k == "icmp":
            c = self.name_attr(o, "cond")
            env[rs[0]] = ("cmp", c, a[0], a[1])
        elif k == "symbol_addr":
            env[rs[0]] = ("symbol", self.name_attr(o, "sym"))
        elif k == "call":
            return self.call(o, self.name_attr(o, "callee"), a, rs, env)
        elif k == "brif":
            c = self.truth(a[0])
            return ("goto", succ[0] if c else succ[1], [])
        elif k == "jump":
            return ("goto", succ[0], a)
        elif k == "return":
            self.trace.append(("return", tuple(a)))
            return ("return", a)
        elif k == "trap":
            self.trace.append(("trap",))
            return ("trap", [])
        else:
            self.trace.append((nm, self.plain_attrs(o), tuple(a)))
            for i, r in enumerate(rs):
                env[r] = ("res", len(self.trace) - 1, i)
            if k in ("return_call", "return_call_indirect"):
                return ("tail", a)
        return None

    def plain_attrs(self, o):
        a = self.v.field("Op", o, "attributes")
        if a is None or a[0] != "map":
            raise Unclear("attributes")
        return tuple(sorted((repr(k), x) for k, x in a[1]))

    def truth(self, c):
        if c[0] == "int":
            return c[1] != 0
        if c[0] == "ext":
            return self.truth(c[1])
        if c[0] == "cmp":
            if c[1] in ("eq", "ne"):
                return self.eq(c[2], c[3]) == (c[1] == "eq")
        return self.choose(("true", c))

    def call(self, o, callee, a, rs, env):
        if callee == "__tribute_alloc":
            if a[0][0] != "int":
                raise Unclear("allocation size")
            p = self.new("the new object" if not self.objs else f"object {len(self.objs)}", a[0][1])
            env[rs[0]] = p
            self.trace.append(("alloc", a[0][1]))
            return None
        if callee == "__tribute_dealloc":
            p = a[0]
            if p[0] == "off":
                self.trace.append(("dealloc", p[1], p[2], a[1]))
                return None
            if p[0] == "ptr":
                ob = self.objs[p[1]]
                if not ob.live:
                    raise Bad(f"{ob.name} is freed twice")
                if p[2] != 0:
                    raise Bad(f"{ob.name} is freed at offset {p[2]}")
                if a[1] != ("int", ob.size):
                    raise Bad(f"{ob.name} is freed with size {a[1][1]}, allocated with {ob.size}")
                ob.live = False
            self.trace.append(("dealloc", p, a[1]))
            for r in rs:
                env[r] = ("unit",)
            return None
        self.trace.append(("call", callee, tuple(a)))
        for i, r in enumerate(rs):
            env[r] = ("res", len(self.trace) - 1, i)
        return None


def executions(mk, func, args, budget=6):
    """All executions of `func` for every outcome of up to `budget` opaque branches: yields (machine, end). `mk(choices)` builds the
    machine and `args(machine)` its arguments."""
    stack = [()]
    while stack:
        ch = stack.pop()
        m = mk(ch)
        try:
            end = m.run(func, args(m))
        except Need:
            if len(ch) < budget:
                stack += [ch + (False,), ch + (True,)]
            continue
        except Stop:
            continue
        yield m, end

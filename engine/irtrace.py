"""What an IR shape means: its set of effect traces.

`parse` lays out a small textual IR in the abstract heap; `Meaning` follows the control flow of an IR view (structured or CFG,
calls entered or not) and lists the ops it performs with the values they read, for each way its conditions can come out.  Two
shapes mean the same if their traces agree for every outcome of the conditions, up to a bound on the number of conditions."""
import re
from .heap import *
from .absint import T, S, C

ATTR = "trunk_ir::types::Attribute"


NAMED = {}


def ty(n):
    if n in NAMED:
        return NAMED[n]
    if "." in n:
        d, n = n.split(".", 1)
        return ("ty", S(d), S(n), ("seq", ()), ("map", ()))
    return ("ent", "Type", n)


def attr(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, int):
        return ("adt", ATTR, "Int", (C(v),), ("0",))
    if v.startswith("@"):
        return ("adt", ATTR, "Symbol", (S(v[1:]),), ("0",))
    if v.startswith("!"):
        return ("adt", ATTR, "Type", (ty(v[1:]),), ("0",))
    return T("attr:" + v)


LINE = re.compile(r"^(?:(?P<res>[\w:.$ ]+?)\s*=\s*)?(?P<op>[\w]+\.[\w]+)(?P<args>[^{}>]*?)(?:\{(?P<attrs>[^}]*)\})?\s*(?:->\s*(?P<succ>.*))?$")


class Layout:
    def __init__(self, h, text, outer=None):
        self.h, self.env, self.ops, self.blocks, self.n = h, dict(outer or {}), {}, {}, {}
        lines = [(len(l) - len(l.lstrip()), l.strip()) for l in text.splitlines() if l.strip() and not l.strip().startswith("#")]
        self.lines, self.i = lines, 0
        self.fix = []
        self.top = self.region(lines[0][0], "top")
        for o, succ in self.fix:
            h.set("Op", o, "successors", ("seq", tuple(self.blocks[s] for s in succ)))

    def tag(self, base):
        k = self.n[base] = self.n.get(base, 0) + 1
        return base if k == 1 else f"{base}.{k}"

    def region(self, ind, base):
        """blocks at this indentation -> region entity"""
        h = self.h
        groups = []
        cur = None
        start = self.i
        blocks = []
        todo = []
        # headers first, so that forward references to block arguments and successors resolve
        j = start
        while j < len(self.lines) and self.lines[j][0] >= ind:
            d, l = self.lines[j]
            if d == ind and l.startswith("^"):
                nm, *args = l[1:].split()
                b = h.block(self.tag(nm), [], [ty((a.split(":") + ["A"])[1]) for a in args])
                self.blocks[nm] = b
                for k, a in enumerate(args):
                    self.env[a.split(":")[0]] = h.arg(b, k)
            j += 1
        while self.i < len(self.lines) and self.lines[self.i][0] >= ind:
            d, l = self.lines[self.i]
            if d == ind and l.startswith("^"):
                cur = self.blocks[l[1:].split()[0]]
                blocks.append(cur)
                self.i += 1
                continue
            if cur is None:
                cur = h.block(self.tag(base + "_b"), [])
                blocks.append(cur)
            o = self.op(ind)
            h.fill(cur, [o])
        if not blocks:
            pass
        return h.region(self.tag(base + "_r"), blocks)

    def op(self, ind):
        h = self.h
        d, l = self.lines[self.i]
        m = LINE.match(l)
        assert m, l
        self.i += 1
        name = m["op"]
        t = self.tag(name)
        args = [self.env[a] for a in m["args"].split()]
        res = (m["res"] or "").split()
        attrs = {}
        for kv in (m["attrs"] or "").split(","):
            if kv.strip():
                k, v = kv.strip().split("=", 1)
                attrs[k.strip()] = attr(int(v) if re.fullmatch(r"-?\d+", v) else v)
        # results may be used inside the regions only in odd shapes; regions come first in the heap
        regions = []
        if self.i < len(self.lines) and self.lines[self.i][0] > ind:
            while True:
                regions.append(self.region(self.lines[self.i][0], t))
                if self.i < len(self.lines) and self.lines[self.i] == (ind, "|"):
                    self.i += 1
                    continue
                break
        o = h.op(t, name, args, [ty((r.split(":") + ["A"])[1]) for r in res], attrs=attrs, regions=regions)
        for k, r in enumerate(res):
            self.env[r.split(":")[0]] = h.res(o, k)
        self.ops[t] = o
        if m["succ"]:
            self.fix.append((o, [s[1:] for s in m["succ"].split()]))
        return o


class Stop(Exception):
    pass


class Unclear(Exception):
    pass


class Bad(Exception):
    """The shape has no meaning: malformed control flow."""


class Meaning:
    leaving = ("scf.if", "scf.switch", "scf.loop")          # may leave the block before its last op

    """Traces of an IR view.  `calls`: {symbol: func op} to enter func.call; `quiet`: op kinds that leave no trace."""

    def __init__(self, v, calls=None, quiet=(), maxsteps=120, special=None):
        self.v, self.calls, self.quiet, self.maxsteps, self.special = v, calls or {}, set(quiet), maxsteps, special or {}

    # -- one execution under an oracle
    def run(self, func, oracle):
        self.trace, self.steps, self.oracle, self.depth = [], 0, oracle, 0
        try:
            self.func(func, None)
        except Stop:
            pass
        return tuple(self.trace)

    def func(self, f, args):
        v = self.v
        rs = v.seq(v.field("Op", f, "regions"))
        if not rs:
            raise Unclear("function without a body")
        bs = self.blocks(rs[0])
        params = v.bargs(bs[0])
        env = {}
        vals = args if args is not None else [("param", i) for i in range(len(params))]
        if len(vals) != len(params):
            raise Bad(f"{len(vals)} arguments for {len(params)} parameters of {f[2]}")
        for p, x in zip(params, vals):
            env[p] = x
        end = self.cfg(bs[0], env)
        return end

    def blocks(self, r):
        bs = self.v.seq(self.v.field("Region", r, "blocks"))
        if bs is None:
            raise Unclear("blocks unknown")
        if not bs:
            raise Bad("empty region entered")
        return bs

    def rd(self, env, x):
        if x in env:
            return env[x]
        if x[0] != "ent":
            raise Unclear("unknown operand")
        d = self.v.field("Value", x, "def")
        if d is not None and d[0] == "adt":
            raise Bad(f"{x[2]} is read before it is defined")
        return ("outer", x[2])

    def attrs(self, o):
        a = self.v.field("Op", o, "attributes")
        if a is None or a[0] != "map":
            return a
        return tuple(sorted((repr(k), x) for k, x in a[1]))

    def attr(self, o, k):
        a = self.v.field("Op", o, "attributes")
        if a is None or a[0] != "map":
            raise Unclear(f"attributes of {o[2]}")
        for kk, x in a[1]:
            if kk == S(k):
                return x
        return None

    def decide(self, key, options):
        return self.oracle(key, options)

    def cfg(self, b, env):
        """Execute blocks from b until a terminator that leaves the region; returns (kind, values)."""
        while True:
            nxt = None
            ops = self.v.ops(b)
            if ops is None:
                raise Unclear(f"ops of {b[2]}")
            for k, o in enumerate(ops):
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Stop()
                r = self.op(o, env)
                if r is None:
                    continue
                if k != len(ops) - 1 and self.v.opname(o) not in self.leaving:
                    raise Bad(f"{self.v.opname(o)} is followed by other ops in its block")
                nxt = r
                break
            if nxt is None:
                return ("fall", [])
            if nxt[0] != "goto":
                return nxt
            _, b2, vals = nxt
            ps = self.v.bargs(b2)
            if ps is None:
                raise Unclear(f"arguments of {b2[2]}")
            if len(ps) != len(vals):
                raise Bad(f"a branch passes {len(vals)} values to a block with {len(ps)} arguments")
            env = dict(env)
            for p, x in zip(ps, vals):
                env[p] = x
            b = b2

    def bind(self, env, o, vals):
        rs = self.v.results(o)
        if len(rs) > len(vals):
            if any(self.v.uses(r) for r in rs[len(vals):]):
                raise Bad(f"{self.v.opname(o)} gets {len(vals)} values for {len(rs)} results")
        for r, x in zip(rs, vals):
            env[r] = x

    def op(self, o, env):
        """None: carry on; otherwise a transfer of control."""
        v = self.v
        nm = v.opname(o)
        xs = v.operands(o)
        if nm is None or xs is None:
            raise Unclear(f"kind of {o[2]}")
        a = [self.rd(env, x) for x in xs]
        regs = v.seq(v.field("Op", o, "regions")) or []
        succ = v.seq(v.field("Op", o, "successors")) or []
        if nm in self.special:
            r = self.special[nm](self, o, a, env, regs)
            if r is not NotImplemented:
                return r
        if nm == "scf.if":
            c = self.decide(a[0], (True, False))
            end = self.cfg(self.blocks(regs[0] if c else regs[1])[0], env)
            return self.joined(o, end, env)
        if nm == "scf.switch":
            cases = []
            dflt = None
            for c in self.v.ops(self.blocks(regs[0])[0]):
                if v.opname(c) == "scf.case":
                    cases.append((self.attr(c, "value"), c))
                elif v.opname(c) == "scf.default":
                    dflt = c
            pick = self.decide(a[0], tuple(k for k, _ in cases) + (None,))
            tgt = next((c for k, c in cases if k == pick), dflt)
            if tgt is None:
                return None
            end = self.cfg(self.blocks(v.seq(v.field("Op", tgt, "regions"))[0])[0], env)
            return self.joined(o, end, env)
        if nm == "scf.loop":
            vals = a
            hd = self.blocks(regs[0])[0]
            while True:
                ps = v.bargs(hd)
                if len(ps) != len(vals):
                    raise Bad(f"loop body takes {len(ps)} values, {len(vals)} are passed")
                e2 = dict(env)
                for p, x in zip(ps, vals):
                    e2[p] = x
                end = self.cfg(hd, e2)
                if end[0] == "continue":
                    vals = end[1]
                    continue
                if end[0] == "break":
                    self.bind(env, o, end[1])
                    return None
                return end
        if nm == "scf.yield":
            return ("yield", a)
        if nm == "scf.continue":
            return ("continue", a)
        if nm == "scf.break":
            return ("break", a)
        if nm == "cf.br":
            return ("goto", succ[0], a)
        if nm == "cf.cond_br":
            return ("goto", succ[0] if self.truth(a[0]) else succ[1], [])
        if nm == "func.return":
            if self.depth == 0:
                self.trace.append(("return", tuple(a)))
            return ("return", a)
        if nm in ("func.call", "func.tail_call"):
            cal = self.attr(o, "callee")
            f = self.calls.get(cal[3][0][1]) if cal is not None and cal[0] == "adt" else None
            if f is not None:
                if self.depth > 12:
                    raise Stop()
                self.depth += 1
                end = self.func(f, a)
                self.depth -= 1
                if end[0] != "return":
                    return end
                if nm == "func.tail_call":
                    if self.depth == 0:
                        self.trace.append(("return", tuple(end[1])))
                    return ("return", end[1])
                self.bind(env, o, end[1])
                return None
        if nm == "arith.cmpi" and len(a) == 2 and a[1][0] == "const" and self.attr(o, "predicate") in (S("eq"), ("adt", ATTR, "Symbol", (S("eq"),), ("0",))):
            env[v.results(o)[0]] = ("is", a[0], a[1][1])
            return None
        if nm == "arith.const":
            env[v.results(o)[0]] = ("const", self.attr(o, "value"))
            return None
        rs = v.results(o)
        me = len(self.trace)
        if nm not in self.quiet:
            self.trace.append((nm, self.attrs(o), tuple(a), len(rs)))
        for i, r in enumerate(rs):
            env[r] = ("r", me, i) if nm not in self.quiet else ("q", nm, tuple(a), i)
        if nm in ("func.unreachable", "func.tail_call", "func.tail_call_indirect"):
            return ("end", [])
        for r in regs:                       # an op that owns a body of its own (closure, nested function): compare as part of it
            pass
        return None

    def truth(self, c):
        if c[0] == "is":
            return self.decide(c[1], None) == c[2]
        return self.decide(c, (True, False))

    def joined(self, o, end, env):
        if end[0] == "yield":
            self.bind(env, o, end[1])
            return None
        if end[0] == "fall":
            return None
        return end


class Need(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


def compare(m1, f1, m2, f2, budget=7):
    """(None, n) if the traces agree for all outcomes of at most `budget` conditions (n executions), else (text, n).
    Raises Unclear if a shape is not fully known."""
    count = 0
    stack = [{}]
    while stack:
        fixed = stack.pop()

        def oracle(k, options):
            if k in fixed:
                return fixed[k]
            raise Need(k, options)
        try:
            t1 = m1.run(f1, oracle)
            full = True
        except Need as n:
            if len(fixed) < budget:
                for opt in n.options:
                    stack.append({**fixed, n.key: opt})
                continue
            t1, full = tuple(m1.trace), False
        except Bad as b:
            raise Unclear("original: " + str(b))
        try:
            t2 = m2.run(f2, oracle)
            full2 = True
        except Need:
            t2, full2 = tuple(m2.trace), False
        except Bad as b:
            return f"{b}", count
        count += 1
        k = min(len(t1), len(t2))
        if t1[:k] != t2[:k]:
            i = next(i for i in range(k) if t1[i] != t2[i])
            return f"after {i} effects performs {show(t2[i])} instead of {show(t1[i])}", count
        if full and full2 and len(t1) != len(t2) and len(t1) < m1.maxsteps // 3 and m1.steps <= m1.maxsteps and m2.steps <= m2.maxsteps:
            return f"performs {len(t2)} effects instead of {len(t1)}", count
        if full and not full2:
            return "branches on a value the original does not branch on", count
        if full2 and not full and len(t2) < len(t1):
            return f"stops after {len(t2)} effects", count
    return None, count


def show(e):
    def sv(x):
        if not isinstance(x, tuple) or not x:
            return str(x)
        if x[0] == "param" and len(x) > 1:
            return f"param{x[1]}"
        if x[0] == "r" and len(x) > 2:
            return f"result {x[2]} of effect {x[1]}"
        return str(x[0])
    while isinstance(e[0], tuple) and e[0]:
        e = e[0]
    args = e[1] if e[0] == "return" else e[2] if len(e) > 2 else ()
    if not isinstance(args, tuple) or args and not isinstance(args[0], tuple):
        args = e[1:]
    return f"{e[0]}(" + ", ".join(sv(x) for x in args) + ")"

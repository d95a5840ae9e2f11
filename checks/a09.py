"""A09: lowering structured control flow to branches keeps every execution."""
from .lowering import *
from engine.heap import *
from engine.irtrace import *

LEVEL = "other"
EXPLANATION = ("Shape analysis of the structured-to-branch lowering: its code is analysed on abstract function bodies that nest "
               "conditionals, loops and switches in each other in the ways the language produces; the resulting control-flow graph "
               "must perform the same effects on the same values for every outcome of the conditions.")
ASSUMPTIONS = ["bodies are well formed: each branch ends in a yield, break, continue or a function-level terminator",
               "executions are compared for every outcome of the first seven conditions"]
LOWER = "trunk_ir::transforms::scf_to_cf::lower_scf_to_cf"

P = {}
P["plain"] = """
x = t.p a b
func.return x
"""
P["if with used result"] = """
x = t.p a
r = scf.if c
  y = t.q x
  scf.yield y
|
  z = t.r b
  scf.yield z
w = t.s r x
func.return w
"""
P["if with unused result"] = """
r = scf.if c
  y = t.q a
  scf.yield y
|
  scf.yield b
t.s a
func.return b
"""
P["if without result"] = """
scf.if c
  t.q a
  scf.yield
|
  scf.yield
t.s a
func.return b
"""
P["if result used twice and in a later nested body"] = """
r = scf.if c
  scf.yield a
|
  scf.yield b
u = scf.if d
  y = t.q r r
  scf.yield y
|
  scf.yield r
func.return u r
"""
P["if nested in then"] = """
r = scf.if c
  s = scf.if d
    x = t.p a
    scf.yield x
  |
    y = t.q b
    scf.yield y
  w = t.u s
  scf.yield w
|
  scf.yield b
func.return r
"""
P["if nested in else, yielded directly"] = """
r = scf.if c
  scf.yield a
|
  s = scf.if d
    scf.yield a
  |
    scf.yield b
  scf.yield s
t.u r
func.return r
"""
P["three in a row"] = """
r = scf.if c
  scf.yield a
|
  scf.yield b
s = scf.if d
  scf.yield r
|
  x = t.p r
  scf.yield x
u = scf.if e
  scf.yield s
|
  y = t.q s r
  scf.yield y
func.return u s r
"""
P["if whose branches return or are unreachable"] = """
r = scf.if c
  func.return a
|
  scf.yield b
t.u r
scf.if d
  func.unreachable
|
  scf.yield
func.return r
"""
P["if ending the block"] = """
t.p a
scf.if c
  func.return a
|
  func.return b
"""
P["loop with break value"] = """
r = scf.loop a b
  ^h x y
  c1 = t.cond x
  scf.if c1
    n = t.next x y
    scf.continue n x
  |
    v = t.done y
    scf.break v
t.u r
func.return r
"""
P["loop result unused"] = """
r = scf.loop a
  ^h x
  c1 = t.cond x
  scf.if c1
    scf.continue x
  |
    scf.break x
func.return a
"""
P["loop without carried values"] = """
r = scf.loop
  ^h
  c1 = t.cond a
  scf.if c1
    scf.continue
  |
    scf.break b
func.return r
"""
P["loop with swap of carried values"] = """
r = scf.loop a b
  ^h x y
  c1 = t.cond x
  scf.if c1
    scf.continue y x
  |
    scf.break y
func.return r
"""
P["loop with conditional value before continuing"] = """
r = scf.loop a
  ^h x
  c1 = t.cond x
  v = scf.if c1
    n = t.next x
    scf.yield n
  |
    scf.break x
  w = t.step v
  scf.continue w
func.return r
"""
P["break two ifs deep"] = """
r = scf.loop a
  ^h x
  c1 = t.cond x
  scf.if c1
    c2 = t.cond2 x
    scf.if c2
      scf.break x
    |
      t.log x
      scf.yield
    scf.yield
  |
    scf.yield
  n = t.next x
  scf.continue n
func.return r
"""
P["nested loops"] = """
r = scf.loop a
  ^h x
  i = scf.loop x b
    ^g y z
    c1 = t.cond y
    scf.if c1
      n = t.next y z
      scf.continue n z
    |
      scf.break y
  c2 = t.cond2 i x
  scf.if c2
    scf.continue i
  |
    scf.break i
func.return r
"""
P["loop directly followed by inner loop's break value"] = """
r = scf.loop a
  ^h x
  i = scf.loop x
    ^g y
    t.log y
    scf.break y
  scf.break i
func.return r
"""
P["loop in a branch"] = """
r = scf.if c
  l = scf.loop a
    ^h x
    c1 = t.cond x
    scf.if c1
      scf.continue x
    |
      scf.break x
  scf.yield l
|
  scf.yield b
func.return r
"""
for n in range(4):
    for dflt in (True, False):
        P[f"switch with {n} cases {'and default' if dflt else 'without default'}"] = "x = t.p a\nscf.switch x\n" + "".join(
            f"  scf.case {{value={10 + k}}}\n    t.case{k} b\n    scf.yield\n" for k in range(n)) + (
            "  scf.default\n    t.dflt x\n    scf.yield\n" if dflt else "") + ("" if n or dflt else "  t.nop\n") + "t.after x\nfunc.return x\n"
P["switch with default first"] = """
scf.switch a
  scf.default
    t.dflt a
    scf.yield
  scf.case {value=1}
    t.one b
    scf.yield
  scf.case {value=2}
    t.two b
    scf.yield
func.return a
"""
P["switch with returning cases"] = """
scf.switch a
  scf.case {value=1}
    x = t.one b
    func.return x
  scf.case {value=-1}
    func.return b
  scf.default
    scf.yield
func.return a
"""
P["switch in loop with break and continue in cases"] = """
r = scf.loop a
  ^h x
  s = t.sel x
  scf.switch s
    scf.case {value=0}
      scf.break x
    scf.case {value=1}
      n = t.next x
      scf.continue n
    scf.default
      t.log x
      scf.yield
  m = t.more x
  scf.continue m
func.return r
"""
P["if in case and switch in branch"] = """
scf.switch a
  scf.case {value=5}
    r = scf.if c
      scf.yield a
    |
      scf.yield b
    t.use r
    scf.yield
  scf.default
    scf.if c
      scf.switch b
        scf.case {value=5}
          t.inner b
          scf.yield
        scf.case {value=6}
          t.inner6 b
          scf.yield
      scf.yield
    |
      scf.yield
    scf.yield
t.after a
func.return b
"""
P["two switches on one value"] = """
scf.switch a
  scf.case {value=1}
    t.one a
    scf.yield
  scf.case {value=2}
    t.two a
    scf.yield
scf.switch a
  scf.case {value=2}
    t.two2 a
    scf.yield
  scf.case {value=1}
    t.one2 a
    scf.yield
func.return
"""
P["branch with its own blocks"] = """
r = scf.if c
  x = t.p a
  cf.cond_br d -> ^l ^m
  ^l
  scf.yield x
  ^m
  y = t.q x
  scf.yield y
|
  scf.yield b
func.return r
"""
P["structured op in a later block"] = """
^e0
t.p a
cf.cond_br d -> ^e1 ^e2
^e1
r = scf.if c
  scf.yield a
|
  scf.yield b
cf.br r -> ^e3
^e2
s = scf.loop a
  ^h x
  c1 = t.cond x
  scf.if c1
    scf.continue x
  |
    scf.break x
cf.br s -> ^e3
^e3 z
func.return z
"""
P["value of the loop body used after a nested if"] = """
r = scf.loop a
  ^h x
  k = t.k x
  v = scf.if c
    scf.yield k
  |
    scf.yield x
  c2 = t.cond v
  w = scf.if c2
    scf.yield v
  |
    scf.yield k
  c3 = t.cond w
  scf.if c3
    scf.continue w
  |
    scf.break v
func.return r
"""
P["break inside a branch of a branch with values"] = """
r = scf.loop a
  ^h x
  c1 = t.cond x
  v = scf.if c1
    c2 = t.cond2 x
    u = scf.if c2
      scf.break b
    |
      scf.yield x
    t.log u
    scf.yield u
  |
    scf.continue b
  scf.continue v
t.u r
func.return r
"""
# generated: every construct inside every position of every other
INNER = {
    "if": ["{o} = scf.if c", "  scf.yield {v}", "|", "  q{n} = t.e{n} {v}", "  scf.yield q{n}"],
    "loop": ["{o} = scf.loop {v}", "  ^g{n} y{n}", "  c{n} = t.cond{n} y{n}", "  scf.if c{n}", "    m{n} = t.nx{n} y{n}", "    scf.continue m{n}", "  |", "    scf.break y{n}"],
    "switch": ["scf.switch {v}", "  scf.case {{value=1}}", "    t.k{n} {v}", "    scf.yield", "  scf.case {{value=2}}", "    scf.yield", "{o} = t.o{n} {v}"],
    "op": ["{o} = t.w{n} {v}"],
}
OUTER = {
    "then": ["{o} = scf.if d", "@i {v}", "  scf.yield {i}", "|", "  scf.yield b"],
    "else": ["{o} = scf.if d", "  scf.yield b", "|", "@i {v}", "  scf.yield {i}"],
    "loop body": ["{o} = scf.loop {v}", "  ^h{n} x{n}", "@i x{n}", "  d{n} = t.cd{n} {i}", "  scf.if d{n}", "    scf.continue {i}", "  |", "    scf.break x{n}"],
    "before break": ["{o} = scf.loop {v}", "  ^h{n} x{n}", "  d{n} = t.cd{n} x{n}", "  scf.if d{n}", "    scf.continue x{n}", "  |", "@@i x{n}", "    scf.break {i}"],
    "before continue": ["{o} = scf.loop {v}", "  ^h{n} x{n}", "  d{n} = t.cd{n} x{n}", "  scf.if d{n}", "@@i x{n}", "    scf.continue {i}", "  |", "    scf.break x{n}"],
    "case": ["scf.switch {v}", "  scf.case {{value=1}}", "@@i {v}", "    t.in{n} {i}", "    scf.yield", "  scf.default", "    scf.yield", "{o} = t.fin{n} {v}"],
    "default": ["scf.switch {v}", "  scf.case {{value=1}}", "    scf.yield", "  scf.default", "@@i {v}", "    t.in{n} {i}", "    scf.yield", "{o} = t.fin{n} {v}"],
    "after": ["@- {v}", "{o} = scf.if d", "  scf.yield {i}", "|", "  scf.yield b"],
}


def gen(chain, depth=0, v="a"):
    """chain of outer constructs ending in an inner one -> (lines, output name)"""
    n = depth
    o = f"o{n}"
    if len(chain) == 1:
        return [l.format(o=o, v=v, n=n, i="") for l in INNER[chain[0]]], o
    lines = []
    for l in OUTER[chain[0]]:
        m = re.match(r"(@+)([-i]) (\S+)$", l)
        if m:
            sub, _ = gen(chain[1:], depth + 1, m[3].format(v=v, n=n))
            pad = "" if m[2] == "-" else "  " * len(m[1])
            lines += [pad + x for x in sub]
        else:
            lines.append(l.format(o=o, v=v, n=n, i=f"o{n + 1}"))
    return lines, o


def programs(ctx):
    out = dict(P)
    for a in OUTER:
        for z in INNER:
            if z != "op":
                ls, o = gen([a, z])
                out[f"{z} in {a}"] = "\n".join(ls + [f"t.end {o}", f"func.return {o}"])
    for a in OUTER:
        for b in OUTER:
            for z in (("loop", "if", "switch") if ctx.tier == "thorough" else ("loop",)):
                ls, o = gen([a, b, z])
                out[f"{z} in {b} in {a}"] = "\n".join(ls + [f"t.end {o}", f"func.return {o}"])
    return out


def build(h, text, module=True):
    """module { func f(a, b, c, d, e) { text } } -> (module op, func op)"""
    body = text.strip("\n")
    if not body.lstrip().startswith("^"):
        body = "^entry a b c d e\n" + body
    else:
        first, rest = body.split("\n", 1)
        body = first + " a b c d e\n" + rest
    lines = ["func.func {sym_name=@f}"] + ["  " + l for l in body.splitlines()]
    lay = Layout(h, "\n".join(lines))
    f = lay.ops["func.func"]
    m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
    return m, f, lay


def reach_ops(v, root):
    todo, out = [root], []
    while todo:
        o = todo.pop()
        out.append(o)
        for r in v.seq(v.field("Op", o, "regions")) or []:
            for b in v.seq(v.field("Region", r, "blocks")) or []:
                todo += v.ops(b) or []
    return out


def check(ctx):
    ctx.rule("the branches produced from structured control flow perform the same effects, on the same values, in the same order, and "
             "return the same values, for every outcome of the conditions; no structured construct is left behind")
    from .a07 import module_adt
    MOD = module_adt(ctx)
    entries = [(LOWER, MOD, "M"), (LOWER + "_func", "trunk_ir::dialect::func::Func", "f")]
    found = [e for e in entries if e[0] in ctx.P.fns and e[1] in ctx.P.adts]
    if not found:
        ctx.bad(LOWER, "structured control flow lowering not found", LOWER)
        return
    progs = programs(ctx)
    for path, adt, what in found:
        where = ctx.where(path)
        for name, text in progs.items():
            if what == "f" and name not in P:
                continue
            hold = {}

            def setup(eng, st, a):
                h = Heap(eng, st)
                m, f, lay = build(h, text)
                hold.update(h=h, v0=h.view(st.fork()), f=f, m=m)
                o = m if what == "M" else f
                return [h.ref, ("adt", adt, adt.rsplit("::", 1)[-1], (o,), tuple(x[0] for x in ctx.P.adts[adt]["vars"][0][2]))]
            rs, e = ctx.run(path, setup=setup, max_depth=80, max_rec=12)
            key = f"{name} ({'module' if what == 'M' else 'function'})"
            if rs is None:
                ctx.unk(key, e.failed)
                continue
            for r in rs:
                if r.end != "ret":
                    ctx.unk(key, r.end)
                    continue
                v = hold["h"].view(r.st)
                live = reach_ops(v, hold["m"])
                dead = set(o for o in v.all("Op") if o not in live)
                left = [v.opname(o) for o in live if (v.opname(o) or "").startswith("scf.")]
                if left:
                    ctx.bad(key, f"{name}: {left[0]} is left in the lowered function", where)
                    continue
                bad, unk = invariants(v, dead)
                bad = [b for b in bad if not any(d[2] in b for d in dead)]
                if bad:
                    ctx.bad(key, f"{name}: " + "; ".join(bad[:2]), where)
                    continue
                try:
                    diff, n = compare(Meaning(hold["v0"]), hold["f"], Meaning(v), hold["f"], 7 if ctx.tier == "quick" else 9)
                except Unclear as u:
                    ctx.unk(key, str(u))
                    continue
                ctx.decide(key, diff is None, f"{name}: the lowered function {diff}", where)

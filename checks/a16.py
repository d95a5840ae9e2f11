"""A16: the IR checker reports exactly the malformed modules."""
from .lowering import *
from engine.heap import *
from engine.irtrace import Layout, ty, attr, NAMED

LEVEL = "other"
EXPLANATION = ("Shape analysis of the module checker on abstract modules: every way an operand, a use record or a structured operation can be "
               "malformed is laid out at every nesting position, next to its well-formed counterpart; the errors the checker collects must name "
               "exactly the malformed places.")
ASSUMPTIONS = ["error texts are not compared, except the operand position and function they name"]
VAL = "trunk_ir::validation::"
NEVER = ty("core.never")


def functy(params, ret):
    return ("ty", S("core"), S("func"), ("seq", (ret,) + tuple(params)), ("map", ()))


NAMED.update({"fn_never_0": functy([], NEVER), "fn_never_1": functy([ty("core.i32")], NEVER), "fn_i32_1": functy([ty("core.i32")], ty("core.i32")),
              "fn_never_2": functy([ty("core.i32"), ty("core.ptr")], NEVER),
              "fn_empty": ("ty", S("core"), S("func"), ("seq", ()), ("map", ()))})
clo = lambda *p: ("ty", S("closure"), S("closure"), ("seq", p), ("map", ()))
NAMED.update({"clo_never_1": clo(NAMED["fn_never_1"]), "clo_i32_1": clo(NAMED["fn_i32_1"]), "clo_bad0": clo(),
              "clo_bad2": clo(NAMED["fn_never_1"], NAMED["fn_never_1"]), "clo_nofn": clo(ty("core.i32"))})

# ---- operands that do not name a visible value.  `!op i` lines after `--` list what has to be reported
SCOPE = {
    "empty function": "func.func {sym_name=@f}\n  func.return\n--",
    "own values": "func.func {sym_name=@f}\n  ^e a:core.i32\n  b = t.x a\n  t.y b a\n  func.return b\n--",
    "value of a later block": "func.func {sym_name=@f}\n  ^e a:core.i32\n  cf.br -> ^n\n  ^n c:core.i32\n  t.y a c\n  func.return c\n--",
    "outer value in a nested region": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    b = t.x a\n    t.if b\n      t.y a b\n    |\n      t.z b\n  |\n    t.w a\n  func.return\n--",
    "nested block argument": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.loop a\n    ^l i:core.i32\n    t.y i\n    t.if i\n      t.z i\n  func.return\n--",
    "value of another function": "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\nfunc.func {sym_name=@g}\n  t.y a\n  func.return\n--t.y 0",
    "result of another function": "func.func {sym_name=@f}\n  x = t.x\n  func.return x\nfunc.func {sym_name=@g}\n  ^e b:core.i32\n  t.y b x\n  func.return\n--t.y 1",
    "value of a nested region used outside": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    b = t.x a\n  t.y b\n  func.return\n--t.y 0",
    "nested block argument used outside": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.loop a\n    ^l i:core.i32\n    t.x i\n  t.y a i\n  func.return\n--t.y 1",
    "value of a sibling region": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    b = t.x a\n  |\n    t.y b\n  func.return\n--t.y 0",
    "value of a region two levels down used one level up": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    t.if a\n      b = t.x a\n    t.y a b\n  func.return\n--t.y 1",
    "value of an earlier nested region in a later one": "func.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    b = t.x a\n  t.if a\n    t.y b\n  func.return\n--t.y 0",
    "value outside any function": "x = t.x\nfunc.func {sym_name=@f}\n  t.y x\n  func.return\n--t.y 0",
    "value of the module in a nested region": "x = t.x\nfunc.func {sym_name=@f}\n  ^e a:core.i32\n  t.if a\n    t.y a x\n  func.return\n--t.y 1",
    "stale in a second block": "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\nfunc.func {sym_name=@g}\n  ^e2 b:core.i32\n  cf.br -> ^n2\n  ^n2\n  t.y b a\n  func.return\n--t.y 1",
    "two stale operands": "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\nfunc.func {sym_name=@g}\n  ^e2 b:core.i32\n  t.y a b a\n  t.z a\n  func.return\n--t.y 0,t.y 2,t.z 0",
    "stale in the first of two functions": "func.func {sym_name=@g}\n  ^e2 b:core.i32\n  t.y outer\n  func.return\nfunc.func {sym_name=@f}\n  ^e a:core.i32\n  func.return a\n--t.y 0",
    "stale operand of a terminator": "func.func {sym_name=@g}\n  ^e2 b:core.i32\n  func.return outer\n--func.return 0",
    "stale operand of an op with regions": "func.func {sym_name=@g}\n  ^e2 b:core.i32\n  t.if outer\n    t.y b\n  func.return\n--t.if 0",
    "stale in a wasm function": "wasm.func {sym_name=@g}\n  ^e2 b:core.i32\n  t.y b outer\n  func.return\n--t.y 1",
    "clean wasm function": "wasm.func {sym_name=@g}\n  ^e2 b:core.i32\n  t.y b\n  wasm.return\n--",
    "stale in a nested module": "core.module {sym_name=@m}\n  func.func {sym_name=@g}\n    ^e2 b:core.i32\n    t.y b outer\n    func.return\nfunc.func {sym_name=@h}\n  func.return\n--t.y 1",
    "clean nested module": "core.module {sym_name=@m}\n  func.func {sym_name=@g}\n    ^e2 b:core.i32\n    t.y b\n    func.return\nfunc.func {sym_name=@h}\n  func.return\n--",
    "stale in a module nested twice": "core.module {sym_name=@m}\n  core.module {sym_name=@n}\n    func.func {sym_name=@g}\n      t.y outer\n      func.return\n--t.y 0",
    "stale in a module after a clean function": "func.func {sym_name=@h}\n  func.return\ncore.module {sym_name=@m}\n  func.func {sym_name=@g}\n    t.y outer\n    func.return\n--t.y 0",
    "function in a function's region": "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.func {sym_name=@g}\n    ^e2 b:core.i32\n    t.y b\n    func.return\n  func.return a\n--",
    "function in a function's region using the outer's value": "func.func {sym_name=@f}\n  ^e a:core.i32\n  func.func {sym_name=@g}\n    ^e2 b:core.i32\n    t.y b a\n    func.return\n  func.return a\n--t.y 1",
}

# ---- use records.  (text, [(edit, value, op, index)], malformed?)
UC = "func.func {sym_name=@f}\n  ^e a:core.i32 z:core.i32\n  b = t.x a a\n  t.if b\n    c = t.y a b\n    t.w c\n    t.loop c\n      ^l i:core.i32 j:core.i32\n      t.v i c\n  |\n    t.u z\n  cf.br b -> ^n\n  ^n d:core.i32\n  u = t.s d b\n  func.return\nfunc.func {sym_name=@g}\n  ^e2 k:core.i32\n  t.r k k\n  func.return\nwasm.memory"
USES = {
    "clean": [],
    "operand without a record": [("drop", "a", "t.x", 0)],
    "second operand without a record": [("drop", "a", "t.x", 1)],
    "both operands without a record": [("drop", "a", "t.x", 0), ("drop", "a", "t.x", 1)],
    "nested operand without a record": [("drop", "a", "t.y", 0)],
    "nested second operand without a record": [("drop", "b", "t.y", 1)],
    "twice nested operand without a record": [("drop", "i", "t.v", 0)],
    "operand in the second region without a record": [("drop", "z", "t.u", 0)],
    "condition without a record": [("drop", "b", "t.if", 0)],
    "branch argument without a record": [("drop", "b", "cf.br", 0)],
    "operand in a later block without a record": [("drop", "d", "t.s", 0)],
    "operand in a second function without a record": [("drop", "k", "t.r", 1)],
    "record with the wrong position": [("drop", "d", "t.s", 0), ("add", "d", "t.s", 1)],
    "record with the wrong op": [("drop", "d", "t.s", 0), ("add", "d", "t.u", 0)],
    "extra record on a result": [("add", "b", "t.w", 0)],
    "extra record on an unused result": [("add", "u", "t.w", 0)],
    "extra record past the last operand": [("add", "a", "t.x", 2)],
    "extra record on a function argument": [("add", "z", "t.s", 1)],
    "extra record on a later block's argument": [("add", "d", "t.w", 0)],
    "extra record on a nested result": [("add", "c", "t.s", 0)],
    "extra record on a nested unused argument": [("add", "j", "t.v", 0)],
    "extra record on a used nested argument": [("add", "i", "t.u", 0)],
    "extra record in a second function": [("add", "k", "t.x", 0)],
    "record naming an op outside the module": [("add", "b", "GONE", 0)],
    "record naming an op outside the module on an unused argument": [("add", "j", "GONE", 0)],
}

# ---- structured operations: text, number of errors is zero iff fine
PRE = "func.func {sym_name=@f}\n  ^e a:core.i1 p:core.ptr n:core.i32 f0:fn_never_0 f1:fn_never_1 f2:fn_never_2 g1:fn_i32_1 c1:clo_never_1 c2:clo_i32_1 c3:clo_bad0 c4:clo_bad2 c5:clo_nofn fe:fn_empty\n"
Y = "\n    scf.yield"
OPS = {}
for p_ in ("oeq", "une", "olt", "ole", "ogt", "oge"):
    OPS[f"float comparison {p_}"] = (f"r:core.i1 = arith.cmpf a a {{predicate=@{p_}}}", True)
for p_ in ("ueq", "one", "eq", "slt", "ult", "uno", "ord", "OEQ", ""):
    OPS[f"float comparison {p_ or 'with an empty predicate'}"] = (f"r:core.i1 = arith.cmpf a a {{predicate=@{p_}}}", False)
OPS["float comparison without predicate"] = ("r:core.i1 = arith.cmpf a a", False)
OPS["float comparison with a number as predicate"] = ("r:core.i1 = arith.cmpf a a {predicate=3}", False)
OPS["integer comparison with any predicate"] = ("r:core.i1 = arith.cmpi a a {predicate=@slt}", True)
OPS["other comparison"] = ("r:core.i1 = t.cmpf a a", True)
OPS["conditional"] = ("scf.if a" + Y + "\n  |" + Y, True)
OPS["conditional with a result"] = ("r:core.i32 = scf.if a\n    scf.yield n\n  |\n    scf.yield n", True)
OPS["conditional with body"] = ("r:core.i32 = scf.if a\n    t.x\n    q = t.y\n    scf.yield q\n  |\n    t.x\n    scf.yield n", True)
OPS["conditional without condition"] = ("scf.if" + Y + "\n  |" + Y, False)
OPS["conditional with two conditions"] = ("scf.if a a" + Y + "\n  |" + Y, False)
OPS["conditional with one region"] = ("scf.if a" + Y, False)
OPS["conditional without regions"] = ("scf.if a", False)
OPS["conditional with three regions"] = ("scf.if a" + Y + "\n  |" + Y + "\n  |" + Y, False)
OPS["conditional with two blocks in the then region"] = ("scf.if a\n    ^x\n    scf.yield\n    ^y\n    scf.yield\n  |" + Y, False)
OPS["conditional with two blocks in the else region"] = ("scf.if a" + Y + "\n  |\n    ^x\n    scf.yield\n    ^y\n    scf.yield", False)
OPS["then region without yield"] = ("scf.if a\n    t.x\n  |" + Y, False)
OPS["else region without yield"] = ("scf.if a" + Y + "\n  |\n    t.x", False)
OPS["empty then block"] = ("scf.if a\n    ^x\n  |" + Y, False)
OPS["empty else block"] = ("scf.if a" + Y + "\n  |\n    ^x", False)
OPS["yield not last"] = ("scf.if a\n    scf.yield\n    t.x\n  |" + Y, False)
OPS["then yields too few"] = ("r:core.i32 = scf.if a" + Y + "\n  |\n    scf.yield n", False)
OPS["else yields too few"] = ("r:core.i32 = scf.if a\n    scf.yield n\n  |" + Y, False)
OPS["then yields too many"] = ("scf.if a\n    scf.yield n\n  |" + Y, False)
OPS["else yields too many"] = ("scf.if a" + Y + "\n  |\n    scf.yield n", False)
OPS["else yields two for one"] = ("r:core.i32 = scf.if a\n    scf.yield n\n  |\n    scf.yield n n", False)
OPS["another dialect's yield"] = ("scf.if a\n    t.yield\n  |" + Y, False)
OPS["returns instead of yielding"] = ("r:core.i32 = scf.if a\n    scf.yield n\n  |\n    func.return n", False)
TAILS = [("func.tail_call {callee=@f}", 1), ("func.tail_call_indirect f0", 1), ("func.unreachable", 1), ("ability.perform", 1), ("ability.handle_dispatch", 1),
         ("scf.switch a", 1), ("func.call {callee=@f}", 0), ("func.return", 0), ("t.tail_call", 0), ("cf.br", 0), ("ability.resume", 0), ("scf.loop", 0),
         ("wasm.unreachable", 0)]
for t_, good in TAILS:
    n_ = t_.split()[0]
    OPS[f"never-returning conditional ends in {n_}"] = (f"r:core.never = scf.if a\n    {t_}\n  |\n    {t_}", bool(good))
    OPS[f"never-returning conditional, else ends in {n_}"] = (f"r:core.never = scf.if a\n    func.unreachable\n  |\n    {t_}", bool(good))
    OPS[f"returning conditional ends in {n_}"] = (f"r:core.i32 = scf.if a\n    {t_}\n  |\n    scf.yield n", False)
    OPS[f"resultless conditional ends in {n_}"] = (f"scf.if a\n    {t_}\n  |\n    scf.yield", False)
OPS["never-returning conditional with a nested one"] = ("r:core.never = scf.if a\n    q:core.never = scf.if a\n      func.unreachable\n    |\n      func.unreachable\n  |\n    func.unreachable", True)
OPS["malformed conditional inside a fine one"] = ("scf.if a\n    scf.if a\n      scf.yield\n    scf.yield\n  |" + Y, False)
OPS["malformed conditional in the else of a fine one"] = ("scf.if a" + Y + "\n  |\n    q = scf.if a\n      scf.yield\n    |\n      scf.yield n\n    scf.yield", False)
OPS["loop without result"] = ("scf.loop a\n    ^l i:core.i1\n    scf.break", True)
OPS["loop with one result"] = ("r:core.i32 = scf.loop a\n    ^l i:core.i1\n    scf.break n", True)
OPS["loop with two results"] = ("r:core.i32 s:core.i32 = scf.loop a\n    ^l i:core.i1\n    scf.break n n", False)
OPS["switch without result"] = ("scf.switch a", True)
OPS["switch with a result"] = ("r:core.i32 = scf.switch a", False)
OPS["another dialect's switch with a result"] = ("r:core.i32 = t.switch a", True)
TCI = "func.tail_call_indirect "
for k_, t_, good in [("no argument", TCI + "f0", 1), ("one argument", TCI + "f1 n", 1), ("two arguments", TCI + "f2 n p", 1), ("closure", TCI + "c1 n", 1),
                     ("a result", "r:core.i32 = " + TCI + "f0", 0), ("no callee", "func.tail_call_indirect", 0), ("a callee that returns", TCI + "g1 n", 0),
                     ("a closure that returns", TCI + "c2 n", 0), ("a malformed closure type", TCI + "c3 n", 0), ("a closure of two functions", TCI + "c4 n", 0),
                     ("a closure of no function", TCI + "c5 n", 0), ("a callee that is no function", TCI + "p n", 0), ("an empty function type", TCI + "fe", 0),
                     ("too few arguments", TCI + "f1", 0), ("too many arguments", TCI + "f1 n n", 0), ("too many arguments for none", TCI + "f0 n", 0),
                     ("an argument of another type", TCI + "f1 p", 0), ("the second argument of another type", TCI + "f2 n n", 0),
                     ("the first argument of another type", TCI + "f2 p p", 0), ("swapped arguments", TCI + "f2 p n", 0), ("a closure argument of another type", TCI + "c1 p", 0)]:
    OPS["indirect tail call with " + k_] = (t_, bool(good))
OPS["tail call of another dialect"] = ("t.tail_call_indirect p n", True)

# ---- call arity: functions with k parameters, calls with m
ARITY = {}
for d_ in ("func", "wasm", "clif"):
    for k_ in (0, 1, 2):
        for m_ in (0, 1, 2):
            ARITY[f"{d_} function of {k_} called with {m_}"] = (d_, k_, "func.call", m_, "plain")
for k_, m_ in ((1, 2), (1, 1), (2, 0)):
    ARITY[f"tail call: {k_} parameters, {m_} arguments"] = ("func", k_, "func.tail_call", m_, "plain")
    for w_ in ("nested", "later block", "second function", "after a good call", "wasm caller", "before the callee"):
        ARITY[f"{w_}: {k_} parameters, {m_} arguments"] = ("func", k_, "func.call", m_, w_)
    ARITY[f"unknown callee, {m_} arguments"] = ("func", k_, "func.call", m_, "unknown")
    ARITY[f"other op with a callee: {k_} parameters, {m_} arguments"] = ("func", k_, "t.call", m_, "plain")


def module(h, top):
    return h.op("M", "core.module", [], [], regions=[top], attrs={"sym_name": attr("@m")})


def mod_adt(ctx, m):
    MOD = next((p for p in ctx.P.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module")), None)
    return ("adt", MOD, "Module", (m,), tuple(f[0] for f in ctx.P.adts[MOD]["vars"][0][2]))


def errors_of(r):
    """The error list of a checker result, or None."""
    if r.ret is None or r.ret[0] != "adt":
        return None
    d = dict(zip(r.ret[4], r.ret[3]))
    e = d.get("errors")
    return list(e[1]) if e and e[0] == "seq" and all(x[0] == "adt" for x in e[1]) else None


def stale(es):
    out = set()
    for e in es:
        d = dict(zip(e[4], e[3]))
        i = d.get("operand_index")
        c = [x[1] for x in subterms(d.get("consumer_op", ("t", ""))) if x[0] == "s" and isinstance(x[1], str)]
        if i is None or i[0] != "c":
            return None
        out.add(i[1])
    return out


def run_one(ctx, entry, setup):
    return ctx.run(VAL + entry, setup=setup, max_depth=40, max_rec=8)


def scope(ctx, name, text, entry):
    body, want = text.split("\n--")
    want = [w.split() for w in want.split(",") if w]
    key = f"{entry}: {name}"

    def setup(eng, st, a):
        h = Heap(eng, st)
        out = h.op("outside", "t.outside", results=[ty("core.i32")], attrs={})
        lay = Layout(h, body, outer={"outer": h.res(out)})
        return [h.ref, mod_adt(ctx, module(h, lay.top))]
    rs, e = run_one(ctx, entry, setup)
    if rs is None:
        return ctx.unk(key, e.failed)
    out = []
    for r in rs:
        es = errors_of(r)
        if es is None:
            out.append((r, ("unk", f"{r.end} {brief(r.ret) if r.ret else ''}")))
            continue
        got = stale(es)
        exp = {int(i) for _, i in want}
        if bool(es) != bool(want):
            out.append((r, ("bad", f"{name}: " + ("an operand that names no visible value is accepted" if want else "a well-formed module is reported"))))
        elif got is not None and got != exp:
            out.append((r, ("bad", f"{name}: the operand positions reported are {sorted(got)}, the stale ones {sorted(exp)}")))
        else:
            out.append((r, None))
    ctx.verdicts(key, out, ctx.where(VAL + "validate_value_integrity"))


def uses(ctx, name, edits, entry):
    key = f"{entry}: {name}"

    def setup(eng, st, a):
        h = Heap(eng, st)
        gone = h.op("GONE", "t.gone", attrs={})
        lay = Layout(h, UC)
        for how, v, o, i in edits:
            op = gone if o == "GONE" else lay.ops[o]
            val = lay.env[v]
            u = h.get("uses", val)
            rec = h.use(op, i)
            if how == "drop":
                assert rec in u[1], (v, o, i)
                h.put("uses", val, ("seq", tuple(x for x in u[1] if x != rec)))
            else:
                assert rec not in u[1]
                h.put("uses", val, ("seq", u[1] + (rec,)))
        return [h.ref, mod_adt(ctx, module(h, lay.top))]
    rs, e = run_one(ctx, entry, setup)
    if rs is None:
        return ctx.unk(key, e.failed)
    out = []
    for r in rs:
        es = errors_of(r)
        if es is None:
            out.append((r, ("unk", f"{r.end} {brief(r.ret) if r.ret else ''}")))
        elif bool(es) != bool(edits):
            out.append((r, ("bad", f"{name}: " + ("use records that do not match the operands are accepted" if edits else "a well-formed module is reported"))))
        else:
            out.append((r, None))
    ctx.verdicts(key, out, ctx.where(VAL + "validate_use_chains"))


def ops(ctx, name, text, good, entry, wrap):
    key = f"{entry}: {name}" + ("" if not wrap else " (nested)")
    ind = "\n".join("  " + l for l in text.splitlines())
    body = PRE + "\n".join("  " + l if i == 0 else l for i, l in enumerate(text.splitlines())) + "\n  func.return"
    if wrap:
        body = "core.module {sym_name=@x}\n" + "\n".join("  " + l for l in body.splitlines())

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, body)
        return [h.ref, mod_adt(ctx, module(h, lay.top))]
    rs, e = run_one(ctx, entry, setup)
    if rs is None:
        return ctx.unk(key, e.failed)
    out = []
    for r in rs:
        es = errors_of(r)
        if es is None:
            out.append((r, ("unk", f"{r.end} {brief(r.ret) if r.ret else ''}")))
        elif bool(es) == good:
            out.append((r, ("bad", f"{name}: " + ("a well-formed operation is reported" if good else "a malformed operation is accepted"))))
        else:
            out.append((r, None))
    ctx.verdicts(key, out, ctx.where(VAL + "validate_operation_verifiers"))


def arity(ctx, name, d, k, op, m, where):
    key = "arity: " + name
    hold = {}
    NAMED["callee_ty"] = functy([ty("core.i32")] * k, ty("core.i32"))
    NAMED["caller_ty"] = functy([ty("core.i32")], ty("core.i32"))
    callee = f"{d}.func {{sym_name=@callee,type=!callee_ty}}\n  x = t.body\n  func.return x"
    call = f"{op} {'v ' * m}{{callee=@{'nowhere' if where == 'unknown' else 'callee'}}}"
    pre = "  ^e v:core.i32\n"
    cd = "wasm" if where == "wasm caller" else "func"
    head = f"{cd}.func {{sym_name=@caller,type=!caller_ty}}\n"
    if where == "nested":
        body = head + pre + f"  scf.if v\n    scf.if v\n      {call}\n  func.return v"
    elif where == "later block":
        body = head + pre + f"  cf.br -> ^n\n  ^n\n  {call}\n  func.return v"
    elif where == "second function":
        body = "func.func {sym_name=@o,type=!caller_ty}\n  ^e0 w:core.i32\n  func.return w\n" + head + pre + f"  {call}\n  func.return v"
    elif where == "after a good call":
        body = head + pre + f"  func.call v {{callee=@caller}}\n  {call}\n  func.return v"
    else:
        body = head + pre + f"  {call}\n  func.return v"
    text = body + "\n" + callee if where == "before the callee" else callee + "\n" + body
    want = 1 if k != m and where != "unknown" and op.startswith("func.") else 0

    def setup(eng, st, a):
        h = Heap(eng, st)
        hold["h"] = h
        lay = Layout(h, text)
        return [h.ref, mod_adt(ctx, module(h, lay.top))]
    rs, e = run_one(ctx, "validate_call_arity", setup)
    if rs is None:
        return ctx.unk(key, e.failed)
    fi = next((n for n, t_, _ in ctx.P.adts[CTXP]["vars"][0][2] if "Diagnostic" in t_), None)
    out = []
    for r in rs:
        c = r.st.store.get(hold["h"].loc)
        v = hold["h"].eng.freeze(r.st, hold["h"].eng.project(r.st, c, ("f", 0, fi))) if fi else None
        if r.ret is None or v is None or v[0] != "seq":
            out.append((r, ("unk", f"{r.end} {brief(v) if v else ''}")))
        elif len(v[1]) != want:
            out.append((r, ("bad", f"{name}: " + ("a call with the wrong number of arguments is not reported" if want else "a correct call is reported"))))
        else:
            out.append((r, None))
    ctx.verdicts(key, out, ctx.where(VAL + "validate_call_arity"))


def check(ctx):
    need = [VAL + x for x in ("validate_value_integrity", "validate_use_chains", "validate_operation_verifiers", "validate_call_arity", "validate_all")]
    miss = [p for p in need if p not in ctx.P.fns]
    for p in miss:
        ctx.bad(p, "checker entry point not found", p)
    if miss:
        return
    ctx.rule("an operand is reported exactly if its value is defined neither in an enclosing region of the same function nor in its own")
    ctx.rule("use records are reported exactly if they differ from the operands of the module")
    ctx.rule("a structured operation is reported exactly if its operands, regions, terminators, results or types do not fit its definition")
    ctx.rule("a call is reported exactly if its argument count differs from the definition it names")
    jobs = []
    for n, t in SCOPE.items():
        for en in ("validate_value_integrity", "validate_all"):
            jobs.append(lambda n=n, t=t, en=en: scope(ctx, n, t, en))
    for n, ed in USES.items():
        for en in ("validate_use_chains", "validate_all"):
            jobs.append(lambda n=n, ed=ed, en=en: uses(ctx, n, ed, en))
    for n, (t, good) in OPS.items():
        for en in ("validate_operation_verifiers", "validate_all"):
            if en == "validate_all" and good is False and "ends in" in n:
                continue
            jobs.append(lambda n=n, t=t, g=good, en=en: ops(ctx, n, t, g, en, False))
        jobs.append(lambda n=n, t=t, g=good: ops(ctx, n, t, g, "validate_operation_verifiers", True))
    for n, (d, k, o, m, w) in ARITY.items():
        jobs.append(lambda n=n, a=(d, k, o, m, w): arity(ctx, n, *a))
    ctx.parallel(jobs)

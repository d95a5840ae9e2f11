"""A14: counting and destroying in native code - what retain and release become."""
from .a11 import mod_of, reach_ops
from .a13 import at, funcs
from . import a15
from .a15 import emit, names, fty, I, P, N, ONE
from engine.clifmem import *
from engine.rules import *
from engine import clfn
from engine.clfn import Src, Gen, runs, is_nil, type_of

LEVEL = "other"
EXPLANATION = ("The lowering of retain and release is analysed as a whole on functions with retains and releases in every position; each "
               "execution of the result must be the execution of the original in which a retain atomically adds one to the count in front "
               "of the object, a release atomically subtracts one and destroys the object exactly when it was the last, and both skip "
               "null. The destruction dispatcher and its table are analysed as built by the code generator.")
ASSUMPTIONS = ["executions are compared for the first eight undetermined branches", "64-bit pointers",
               "the count is decided by comparing its previous value with one"]
LOW = "tribute_passes::native::rc_lowering::lower_rc"
DEEP = "__tribute_deep_release"


class Spec(Src):
    def op(self, o, env):
        v = self.v
        nm = v.opname(o)
        if nm not in ("tribute_rt.retain", "tribute_rt.release"):
            return super().op(o, env)
        p = env[v.operands(o)[0]]
        null = self.choose(("cmp", "Equal", p, ("int", 0)))
        if nm.endswith("retain"):
            env[v.results(o)[0]] = p
            if not null:
                self.ev("rmw", "Add", 0x76, self.off(p, -8), ("int", 1))
            return None
        if not null:
            n = self.ev("rmw", "Sub", 0x76, self.off(p, -8), ("int", 1))
            if self.choose(("cmp", "Equal", ("read", n), ("int", 1))):
                self.ev("call", DEEP, (p, ("int", self.pay(o, "alloc_size"))))
        return None


class Low(Src):
    """The lowered function; counting by adding minus one is the same as subtracting one."""

    def op(self, o, env):
        if not self.v.opname(o).startswith("clif."):
            raise Bad(f"{self.v.opname(o)} is left in the function")
        r = super().op(o, env)
        if self.trace and self.trace[-1][0] == "rmw":
            e = self.trace[-1]
            if e[4] == ("int", -1) and e[1] in ("Add", "Sub"):
                self.trace[-1] = (e[0], {"Add": "Sub", "Sub": "Add"}[e[1]], e[2], e[3], ("int", 1))
        return r

    def choose(self, key):
        if key[0] == "cmp" and key[1] in ("Equal", "NotEqual"):
            a, b = key[2], key[3]
            if a[0] == "int":
                a, b = b, a
            if a[0] == "off" and b[0] == "int":
                key = ("cmp", key[1], a[1], ("int", b[1] - a[2]))
        elif key[0] == "cmp" and any(x[0] in ("read", "off") for x in key[2:]):
            raise Unclear("the count is compared in another way")
        return super().choose(key)


A = "  ^e p:core.ptr q:core.ptr i:core.i32\n"
SHAPES = [
    ("retain", "  r:core.ptr = tribute_rt.retain p\n  clif.store i r {offset=0}\n  clif.return r\n"),
    ("release", "  clif.store i p {offset=0}\n  tribute_rt.release p {alloc_size=24}\n  clif.store i q {offset=0}\n  clif.return q\n"),
    ("release then return", "  tribute_rt.release p {alloc_size=0}\n  clif.return q\n"),
    ("retain unused", "  r:core.ptr = tribute_rt.retain p\n  clif.return q\n"),
    ("retain twice", "  r:core.ptr = tribute_rt.retain p\n  s:core.ptr = tribute_rt.retain r\n  clif.store r s {offset=8}\n  clif.return s\n"),
    ("two releases", "  tribute_rt.release p {alloc_size=16}\n  tribute_rt.release q {alloc_size=32}\n  clif.return i\n"),
    ("release the same twice", "  tribute_rt.release p {alloc_size=16}\n  tribute_rt.release p {alloc_size=16}\n  clif.return i\n"),
    ("retain then release", "  r:core.ptr = tribute_rt.retain p\n  clif.call r q {callee=@use}\n  tribute_rt.release q {alloc_size=8}\n  clif.return r\n"),
    ("release then retain", "  tribute_rt.release q {alloc_size=8}\n  r:core.ptr = tribute_rt.retain p\n  clif.return r\n"),
    ("between other ops", "  x:core.i32 = clif.load p {offset=0}\n  r:core.ptr = tribute_rt.retain p\n  y:core.i32 = clif.load q {offset=4}\n"
     "  tribute_rt.release q {alloc_size=40}\n  z:core.i32 = clif.isub x y\n  clif.store z r {offset=4}\n  tribute_rt.release r {alloc_size=0}\n  clif.return z\n"),
    ("loaded field", "  f:core.ptr = clif.load p {offset=8}\n  r:core.ptr = tribute_rt.retain f\n  tribute_rt.release p {alloc_size=0}\n"
     "  x:core.i32 = clif.load r {offset=0}\n  tribute_rt.release r {alloc_size=0}\n  clif.return x\n"),
    ("constant null", "  n:core.ptr = clif.iconst {value=0}\n  r:core.ptr = tribute_rt.retain n\n  tribute_rt.release r {alloc_size=8}\n  clif.return i\n"),
    ("call result", "  c:core.ptr = clif.call p {callee=@make}\n  tribute_rt.release c {alloc_size=8}\n  clif.return i\n"),
    ("branches", "  clif.brif i -> ^l ^r\n  ^l\n  s:core.ptr = tribute_rt.retain p\n  clif.jump s q -> ^j\n  ^r\n  tribute_rt.release q {alloc_size=8}\n"
     "  clif.jump p p -> ^j\n  ^j a:core.ptr b:core.ptr\n  clif.store a b {offset=0}\n  tribute_rt.release a {alloc_size=8}\n  clif.return b\n"),
    ("before a branch", "  s:core.ptr = tribute_rt.retain p\n  c:core.i8 = clif.icmp s q {cond=@eq}\n  tribute_rt.release q {alloc_size=16}\n  clif.brif c -> ^l ^r\n"
     "  ^l\n  clif.return s\n  ^r\n  tribute_rt.release s {alloc_size=16}\n  clif.return q\n"),
    ("loop", "  clif.jump p -> ^h\n  ^h a:core.ptr\n  b:core.ptr = clif.load a {offset=8}\n  r:core.ptr = tribute_rt.retain b\n"
     "  tribute_rt.release a {alloc_size=24}\n  c:core.i32 = clif.load r {offset=0}\n  clif.brif c -> ^x ^y\n  ^y\n  clif.jump r -> ^h\n  ^x\n"
     "  tribute_rt.release r {alloc_size=24}\n  clif.return c\n"),
    ("value of another block", "  s:core.ptr = tribute_rt.retain p\n  clif.brif i -> ^l ^r\n  ^l\n  tribute_rt.release s {alloc_size=8}\n  clif.return s\n"
     "  ^r\n  clif.store s q {offset=0}\n  clif.return q\n"),
    ("tail call", "  s:core.ptr = tribute_rt.retain p\n  tribute_rt.release q {alloc_size=8}\n  clif.return_call s i {callee=@t}\n"),
    ("trap", "  tribute_rt.release q {alloc_size=8}\n  clif.trap\n"),
    ("four in a row", "  a:core.ptr = tribute_rt.retain p\n  b:core.ptr = tribute_rt.retain q\n  tribute_rt.release p {alloc_size=8}\n  tribute_rt.release q {alloc_size=8}\n"
     "  clif.call a b {callee=@use}\n  clif.return i\n"),
    ("large size", "  tribute_rt.release p {alloc_size=5000000000}\n  clif.return i\n"),
]


def low_case(ctx, key, text):
    """One function, before (executed by Spec) and after the lowering (executed by Low)."""
    mod, mf = mod_of(ctx)
    hold = {}

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, "clif.func {sym_name=@f}\n" + A + text)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        hold.update(h=h, m=m, f=lay.ops["clif.func"], before=h.view(st.fork()))
        return [h.ref, ("adt", mod, "Module", (m,), mf)]
    rs, e = ctx.run(LOW, setup=setup, max_depth=60, max_rec=12)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        w = None
        try:
            if r.end != "ret":
                w = ("unk", str(r.end)) if r.conds else ("bad", f"{key}: the pass stops: {r.end}")
            else:
                v = hold["h"].view(r.st)
                bad, unk = invariants(v, set(o for o in v.all("Op") if o not in reach_ops(v, hold["m"])))
                if bad:
                    raise Bad(f"the IR is inconsistent: {bad[0]}")
                fs = funcs(v, hold["m"])
                if set(fs) != {"f"}:
                    raise Bad("functions were added or lost")
                a15.compare("f", lambda ch: Spec(hold["before"], ch), lambda x: x.run(hold["f"]), lambda ch: Low(v, ch), lambda x: x.run(fs["f"]))
        except Bad as b:
            w = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            w = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, w))
    ctx.verdicts("lowering: " + key, out, ctx.where(LOW))


def linear(v):
    """Address -> ({term: factor}, constant) or None"""
    if v[0] == "int":
        return {}, v[1]
    if v[0] == "off":
        x = linear(v[1])
        return x and (x[0], x[1] + v[2])
    if v[0] in ("uextend", "sextend"):
        return linear(v[2])
    if v[0] in ("iadd", "isub"):
        a, b = linear(v[2]), linear(v[3])
        if not a or not b:
            return None
        s = 1 if v[0] == "iadd" else -1
        d = dict(a[0])
        for k, f in b[0].items():
            d[k] = d.get(k, 0) + s * f
        return d, a[1] + s * b[1]
    if v[0] in ("imul", "ishl"):
        a, b = linear(v[2]), linear(v[3])
        if not a or not b:
            return None
        if a[0] and b[0]:
            return None
        if a[0] == {} and v[0] == "imul":
            a, b = b, a
        if b[0]:
            return None
        f = b[1] if v[0] == "imul" else 1 << b[1]
        return {k: x * f for k, x in a[0].items()}, a[1] * f
    return {v: 1}, 0


def dispatch_case(ctx, idx):
    key = "destruction with release functions " + (", ".join(map(str, idx)) or "(none)")
    text = "clif.func {sym_name=@f}\n  ^e a:core.i32\n  clif.return a\n" + "".join(
        f"clif.func {{sym_name=@__tribute_release_{i}}}\n  ^r{i} p{i}:core.ptr\n  clif.return\n" for i in idx)
    types = {"f": ONE, **{f"__tribute_release_{i}": fty(N, P) for i in idx}}
    hold = {}
    rs, e = emit(ctx, text, types, hold)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        w = None
        try:
            if r.end != "ret" or r.ret[0] == "adt" and r.ret[2] == "Err":
                w = ("unk", str(r.end)) if r.conds else ("bad", f"{key}: code generation fails: {brief(r.ret, 120)}")
            else:
                dispatch(hold["h"].view(r.st), hold["m"], r.events, idx)
        except Bad as b:
            w = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            w = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, w))
    ctx.verdicts(key, out, ctx.where(a15.EMIT))


def dispatch(v, m, events, idx):
    fns, decl, data, desc, defd = clfn.read(events)
    nm = names(decl, list(a15.all_funcs(v, m)))
    dn = {d: x[0][1] for d, x in data.items() if x[0] is not None and x[0][0] == "s"}
    fs = [fns[f] for fid, f in defd if nm[fid] == DEEP]
    if len(fs) != 1:
        raise Bad(f"{DEEP} is defined {len(fs)} times")
    tables = {}
    for d, x in data.items():
        acts = desc.get(x[2]) or []
        if any(a[0] == "write_function_addr" for a in acts):
            tables[dn[d]] = acts
    xs = runs(lambda ch: Gen(fs[0], nm, dn, ch), lambda x: x.run())
    raw = ("off", ("arg", 0), -8)
    shallow = ("call", "__tribute_dealloc", (raw, ("arg", 1)))
    deep = 0
    for x in xs:
        t = list(x.trace)
        if t[-1] != ("return", ()):
            raise Bad(f"it ends with {t[-1]}")
        acts = [e for e in t[:-1] if e[0] != "load"]
        loads = [(i, e) for i, e in enumerate(t) if e[0] == "load"]
        if len(acts) != 1:
            raise Bad(f"it does {len(acts)} things to the object: {acts}")
        a = acts[0]
        for i, e in loads:
            if t.index(a) < i:
                raise Bad("it reads memory after the object is destroyed")
        if a[0] == "call":
            if a != shallow:
                raise Bad(f"it performs {a} instead of freeing the allocation with its size")
            # only when there is no release function for the type
            if idx and not any(tr and k[0] == "cmp" and ("int", 0) in k for k, tr in x.facts.items()):
                raise Bad("it frees an object without releasing its fields although its type has a release function")
            continue
        if a[0] != "call_indirect":
            raise Bad(f"it performs {a}")
        deep += 1
        if a[2] != ((0x77,), (), "default") or a[3] != (("arg", 0),):
            raise Bad(f"the release function is called as {a[2]} with {a[3]}")
        fn = a[1]
        if fn[0] != "read":
            raise Bad(f"the function called is {fn}")
        la = t[fn[1]]
        if la[2] != 0x77:
            raise Bad("the table entry is not read as a pointer")
        lin = linear(la[1])
        if lin is None:
            raise Unclear("table address")
        base = [k for k in lin[0] if k[0] == "addr"]
        ix = [k for k in lin[0] if k[0] == "read"]
        if len(base) != 1 or len(ix) != 1 or len(lin[0]) != 2:
            raise Unclear("table address")
        il = t[ix[0][1]]
        if (il[1], il[2]) != (("off", ("arg", 0), -4), 0x76):
            raise Bad(f"the type index is read from {il[1]} with type {il[2]:#x}")
        if base[0][1] not in tables:
            raise Bad(f"the function is looked up in {base[0][1]}, which holds no release functions")
        if lin[0][base[0]] != 1:
            raise Unclear("table address")
        step, off = lin[0][ix[0]], lin[1]
        got = {}
        for act in tables[base[0][1]]:
            if act[0] == "write_function_addr":
                if act[1][0] != "c" or act[2][0] != "t" or act[2][1] != "clfrd":
                    raise Unclear("table entry")
                got[act[1][1]] = nm.get(act[2][2])
        for i in idx:
            if got.get(i * step + off) != f"__tribute_release_{i}":
                raise Bad(f"the entry for type {i} (at {i * step + off}) is {got.get(i * step + off)}")
        for o, n in got.items():
            if n not in [f"__tribute_release_{i}" for i in idx]:
                raise Bad(f"the table also holds {n}")
        size = [act[1] for act in tables[base[0][1]] if act[0] == "define"]
        n = length(size[0]) if len(size) == 1 else None
        if n is None:
            raise Unclear(f"table size {brief(size, 300)}")
        top = max(list(range(32)) + list(idx))
        if n < top * step + off + 8:
            raise Bad(f"the table has {n} bytes, the entry of type {top} ends at {top * step + off + 8}")
        if any(o % 8 for o in got):
            raise Bad("a table entry is not aligned")
    if bool(deep) != bool(idx):
        raise Bad("no release function is ever called" if idx else "a release function is called although there is none")


def length(v):
    if v[0] == "seq":
        n = 0
        for x in v[1]:
            if x[0] == "spread" and x[1][0] == "t" and x[1][1].endswith("repeat") and x[1][-1][0] == "c":
                n += x[1][-1][1]
            elif x[0] == "each" and x[1][:2] == ("t", "range") and x[1][2][0] == x[1][3][0] == "c":
                n += x[1][3][1] - x[1][2][1]
            elif x[0] in ("each", "spread"):
                return None
            else:
                n += 1
        return n
    if v[0] == "t":
        cs = [x for x in v[2:] if x[0] == "c"]
        if v[1].endswith(("from_elem", "repeat")) and cs:
            return cs[-1][1]
    return None


def check(ctx):
    ctx.rule("a retain adds one to the count in front of the object, a release subtracts one, both atomically and only when the reference is not null")
    ctx.rule("the object is destroyed exactly when the count before a release was one; everything else happens as before, in the same order")
    ctx.rule("destruction calls the release function listed for the object's type, or frees the allocation when there is none")
    for p in (LOW, a15.EMIT):
        if p not in ctx.P.fns:
            ctx.bad(p, "pass not found", p)
            return
    jobs = [lambda a=a: low_case(ctx, *a) for a in SHAPES]
    for idx in ([], [32], [32, 33], [32, 33, 34, 40], [35], [1000]):
        jobs.append(lambda idx=idx: dispatch_case(ctx, idx))
    ctx.parallel(jobs)

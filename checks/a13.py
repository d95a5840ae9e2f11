"""A13: native heap objects - construction, access and destruction agree on one layout."""
import itertools
from .a11 import mod_of, put, enum as enumv
from engine.clifmem import *
from engine.rules import *
from engine.absint import Budget

LEVEL = "other"
EXPLANATION = ("The passes that lay out native objects (type information, object headers, field access) are analysed as a whole on abstract "
               "functions that build, read, write and test objects of every combination of field types; the resulting code is executed "
               "abstractly against a byte-accurate object model: every read must see what was written there, every access must stay "
               "inside the allocation, and the generated release functions must release every reference field once and free what was allocated.")
ASSUMPTIONS = ["structs are analysed for all single fields, all pairs and selected longer lists of field types, enums for selected variant "
               "lists; longer lists are argued by uniformity",
               "sizes: integers and floats have their width, booleans 4 bytes, references 8 bytes"]
TCN = "tribute_passes::native::type_converter::native_type_converter"
RTTI = "tribute_passes::native::rtti::generate_rtti"
HDR = "tribute_passes::native::adt_rc_header::lower"
ACC = "trunk_ir_cranelift_backend::passes::adt_to_clif::lower"
PRE = "__tribute_release_"


def at(k, *v):
    return ("adt", ATTR, k, tuple(v), tuple(str(i) for i in range(len(v))))


def lst(*xs):
    return at("List", ("seq", tuple(xs)))


def struct(name, fields):
    return ("ty", S("adt"), S("struct"), ("seq", ()),
            ("map", ((S("fields"), lst(*[lst(at("Symbol", S(n)), at("Type", t)) for n, t in fields])), (S("name"), at("Symbol", S(name))))))


def enumt(name, variants):
    return ("ty", S("adt"), S("enum"), ("seq", ()),
            ("map", ((S("name"), at("Symbol", S(name))),
                     (S("variants"), lst(*[lst(at("Symbol", S(n)), lst(*[at("Type", t) for t in ts])) for n, ts in variants])))))


K = {k: ty("core." + k) for k in ("i8", "i16", "i32", "i64", "f32", "f64", "ptr", "i1")}
K.update({k: ty("tribute_rt." + k) for k in ("int", "nat", "bool", "float", "intref", "anyref")})
K["bytes"] = ty("core.bytes")
K["struct"] = struct("Inner", [("x", K["i32"])])
K["enum"] = enumt("InnerE", [("A", []), ("B", [K["i32"]])])
K["closure"] = ("ty", S("closure"), S("closure"), ("seq", (T("sig"),)), ("map", ()))
K["array"] = ("ty", S("core"), S("array"), ("seq", (K["i32"],)), ("map", ()))
MANAGED = {"ptr", "intref", "bytes", "struct", "enum", "closure", "array", "anyref"}
CASTS = ("core.unrealized_conversion_cast",)


def lower(eng, st, h, m, mod, mf, hold):
    """Run the three passes; the last one is left to the caller."""
    M = ("adt", mod, "Module", (m,), mf)
    def tc():
        r = call1(eng, st, TCN, [h.ref])
        return r[1][0] if r[0] == "tup" else eng.project(st, r, ("f", 0, "0"))
    rm = call1(eng, st, RTTI, [h.ref, M, eng.ref_to(st, tc())])
    mp = eng.project(st, rm, ("f", 0, "type_to_idx"))
    hold["rtti"] = eng.freeze(st, mp)
    r = call1(eng, st, HDR, [h.ref, M, tc(), eng.ref_to(st, mp)])
    if r[0] != "adt" or r[2] != "Ok":
        raise (Budget if st.conds else absint.Definite)("construction is refused: " + brief(eng.freeze(st, r), 150))
    return [h.ref, M, tc()]


def funcs(v, m):
    """{name: op} of clif.func in the module"""
    out = {}
    for r in v.seq(v.field("Op", m, "regions")) or []:
        for b in v.seq(v.field("Region", r, "blocks")) or []:
            for o in v.ops(b) or []:
                if v.opname(o) == "clif.func":
                    n = Meaning(v).attr(o, "sym_name")
                    if n is not None and n[0] == "adt" and n[3][0][0] == "s":
                        if n[3][0][1] in out:
                            raise Bad(f"two functions called {n[3][0][1]}")
                        out[n[3][0][1]] = o
    return out


def struct_text(kinds, setf):
    n = len(kinds)
    ps = " ".join(f"p{i}:${k}" for i, k in enumerate(kinds))
    q = f" q:${kinds[setf]}" if setf is not None else ""
    t = ["clif.func {sym_name=@f}", f"  ^e {ps}{q}", "  o:core.ptr = adt.struct_new " + " ".join(f"p{i}" for i in range(n))]
    for i, k in enumerate(kinds):
        t.append(f"  g{i}:${k} = adt.struct_get o {{field={i}}}")
    if n:
        t.append("  clif.call " + " ".join(f"g{i}" for i in range(n)) + " {callee=@first}")
    if setf is not None:
        t.append(f"  adt.struct_set o q {{field={setf}}}")
        for i, k in enumerate(kinds):
            t.append(f"  h{i}:${k} = adt.struct_get o {{field={i}}}")
        t.append("  clif.call " + " ".join(f"h{i}" for i in range(n)) + " {callee=@second}")
    t.append("  clif.return o")
    return "\n".join(t)


def release_hook(m, o, a, env):
    m.trace.append(("release", a[0]))
    return None


HOOKS = {"tribute_rt.release": release_hook}


def check_object(p, m, size_hint, what):
    """The header of the object p points into. -> rtti index"""
    if p[0] != "ptr":
        raise Bad(f"{what} gives {p[0]} instead of the object")
    ob = m.objs[p[1]]
    if p[2] != 8:
        raise Bad(f"{what} gives the address {p[2]} bytes into the allocation instead of 8")
    c = ob.cells.get(0)
    if c is None or c[:2] != (4, ("int", 1)):
        raise Bad(f"{what}: the reference count starts as {c[1] if c else 'nothing'} instead of 1")
    c = ob.cells.get(4)
    if c is None or c[0] != 4 or c[1][0] != "int":
        raise Bad(f"{what}: no type index in the header")
    return c[1][1]


def check_release(v, fs, idx, make, want, known, what):
    """Destroy the object: every managed field that is not null is released once, then the allocation is freed once.
    `make(machine)` builds it and returns (payload pointer, [(offset, value)]): the managed fields."""
    f = fs.get(PRE + str(idx))
    if f is None:
        raise Bad(f"{what}: there is no {PRE}{idx}")
    n = 0
    lost = None

    def mk(ch):
        return Machine(v, ch, hooks=HOOKS)
    for m, end in executions(mk, f, lambda m: [make(m)], budget=len(want) + 2):
        n += 1
        rel = [e[1] for e in m.trace if e[0] == "release"]
        oth = [e for e in m.trace if e[0] not in ("release", "dealloc", "return")]
        if oth:
            raise Bad(f"{what}: the release function also performs {oth[0][0]}")
        if end[0] != "return":
            raise Bad(f"{what}: the release function ends in {end[0]}")
        if sum(1 for e in m.trace if e[0] == "dealloc") != 1:
            raise Bad(f"{what}: the release function frees the object {sum(1 for e in m.trace if e[0] == 'dealloc')} times")
        if m.trace.index(next(e for e in m.trace if e[0] == "dealloc")) < max([i for i, e in enumerate(m.trace) if e[0] == "release"], default=-1):
            raise Bad(f"{what}: a field is released after the object was freed")
        for x in rel:
            if x[0] == "int":
                raise Bad(f"{what}: the release function releases null")
            if x not in [w for w, _ in want]:
                raise Bad(f"{what}: the release function releases {x[1:]}, which is not a reference field")
            if rel.count(x) > 1:
                raise Bad(f"{what}: the release function releases {x[1]} twice")
        null = [k for k, t in m.facts.items() if t and k[0] == "eq" and ("int", 0) in k]
        for w, kd in want:
            isnull = any(w in k for k in null)
            if isnull and w in rel:
                raise Bad(f"{what}: {w[1]} is released although it is null")
            if not isnull and w not in rel:
                if kd in known:
                    lost = f"{what}: the {kd} field {w[1]} is never released"
                else:
                    raise Bad(f"{what}: the reference field {w[1]} is not released")
    if not n:
        raise Unclear("the release function was not followed")
    return lost


class Shape:
    def __init__(self, ctx):
        self.ctx, self.lost = ctx, {}
        self.mod, self.mf = mod_of(ctx)
        for k, t in K.items():
            NAMED["$" + k] = t

    def run(self, text, types):
        """types: {op tag: type attribute value} -> (paths, engine, hold)"""
        hold = {}

        def setup(eng, st, a):
            h = Heap(eng, st)
            lay = Layout(h, text)
            for tag, o in lay.ops.items():
                if tag.startswith("adt."):
                    put(h, o, "type", at("Type", types[tag] if isinstance(types, dict) else types))
            m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
            hold.update(h=h, m=m)
            return lower(eng, st, h, m, self.mod, self.mf, hold)
        rs, e = self.ctx.run(ACC, setup=setup, max_depth=60, max_rec=12)
        return rs, e, hold

    def decide(self, key, text, types, judge):
        ctx = self.ctx
        rs, e, hold = self.run(text, types)
        if rs is None:
            ctx.unk(key, e.failed)
            return
        out = []
        for r in rs:
            v = None
            try:
                if r.end != "ret":
                    v = ("bad", f"{key}: the lowering stops: {r.end}")
                else:
                    vw = hold["h"].view(r.st)
                    bad, unk = invariants(vw, set())
                    left = [o for o in vw.all("Op") if (vw.opname(o) or "").startswith("adt.") and vw.field("Op", o, "parent_block") != NONE]
                    if left:
                        v = ("bad", f"{key}: {vw.opname(left[0])} is not lowered")
                    else:
                        judge(vw, funcs(vw, hold["m"]), hold)
            except Bad as b:
                v = ("bad", f"{key}: {b}")
            except (Unclear, Need, Stop) as u:
                v = ("unk", f"{type(u).__name__}: {u}")
            out.append((r, v))
        ctx.verdicts(key, out, ctx.where(ACC))


def one(m):
    raise Unclear(m)


def struct_case(sh, kinds, setf, names=None):
    key = "struct " + (", ".join(kinds) or "without fields") + (f"; set {setf}" if setf is not None else "")
    names = names or [f"f{i}" for i in range(len(kinds))]
    if names[0:1] == ["func_ptr"] or "func_ptr" in names:
        key += " (code pointer)"
    t = struct("T", [(n, K[k]) for n, k in zip(names, kinds)])

    def judge(v, fs, hold):
        f = fs.get("f")
        if f is None:
            raise Bad("the function is gone")
        ps = [("sym", f"field {i}") for i in range(len(kinds))]
        q = [("sym", "new value")] if setf is not None else []
        seen = None
        for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS), f, lambda m: ps + q):
            calls = {e[1]: e[2] for e in m.trace if e[0] == "call"}
            if kinds and calls.get("first") != tuple(ps):
                raise Bad(f"reads {calls.get('first')} from an object built of {ps}")
            if setf is not None:
                w = tuple(q[0] if i == setf else p for i, p in enumerate(ps))
                if calls.get("second") != w:
                    raise Bad(f"after setting field {setf}, reads {calls.get('second')}")
            if end[0] != "return":
                raise Bad(f"ends in {end[0]}")
            idx = check_object(end[1][0], m, None, "construction")
            seen = (m, end[1][0], idx)
        if seen is None:
            raise Unclear("not followed")
        m0, p0, idx = seen
        ob0 = m0.objs[p0[1]]
        cells = dict(ob0.cells)
        mf = [(x, k) for (x, k, nme) in zip(ps, kinds, names) if k in MANAGED and nme != "func_ptr"]
        if setf is not None:
            mf = [(q[0] if x == ps[setf] else x, k) for x, k in mf]

        def make(m):
            p = m.new("the object", ob0.size)
            m.objs[p[1]].cells.update(cells)
            return ("ptr", p[1], 8)
        lost = check_release(v, fs, idx, make, mf, {"anyref"}, "destruction")
        if lost:
            sh.lost.setdefault("anyref fields of a struct are released", f"{key}: {lost}")
    sh.decide(key, struct_text(kinds, setf), t, judge)


def enum_text(variants, tag):
    kinds = dict(variants)[tag]
    t = ["clif.func {sym_name=@f}", "  ^e " + " ".join(f"p{i}:${k}" for i, k in enumerate(kinds)),
         "  o:core.ptr = adt.variant_new " + " ".join(f"p{i}" for i in range(len(kinds))) + f" {{tag=@{tag}}}"]
    for j, (n, _) in enumerate(variants):
        t.append(f"  is{j}:core.i1 = adt.variant_is o {{tag=@{n}}}")
    t.append("  clif.call " + " ".join(f"is{j}" for j in range(len(variants))) + " {callee=@tests}")
    t.append(f"  c:core.ptr = adt.variant_cast o {{tag=@{tag}}}")
    for i, k in enumerate(kinds):
        t.append(f"  g{i}:${k} = adt.variant_get c {{field={i},tag=@{tag}}}")
    if kinds:
        t.append("  clif.call " + " ".join(f"g{i}" for i in range(len(kinds))) + " {callee=@first}")
    t.append("  clif.return o")
    return "\n".join(t)


def enum_case(sh, variants, tag):
    key = "enum " + " | ".join(f"{n}({', '.join(ks)})" for n, ks in variants) + f"; as {tag}"
    t = enumt("T", [(n, [K[k] for k in ks]) for n, ks in variants])
    kinds = dict(variants)[tag]

    def judge(v, fs, hold):
        f = fs.get("f")
        if f is None:
            raise Bad("the function is gone")
        ps = [("sym", f"field {i}") for i in range(len(kinds))]
        seen = None
        for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS), f, lambda m: ps):
            calls = {e[1]: e[2] for e in m.trace if e[0] == "call"}
            if kinds and calls.get("first") != tuple(ps):
                raise Bad(f"reads {calls.get('first')} from a variant built of {ps}")
            for (n, _), c in zip(variants, calls.get("tests", ())):
                got = m.truth(c)
                if got != (n == tag):
                    raise Bad(f"the test for {n} gives {got}")
            idx = check_object(end[1][0], m, None, "construction")
            seen = (m, end[1][0], idx)
        if seen is None:
            raise Unclear("not followed")
        m0, p0, idx = seen
        ob0 = m0.objs[p0[1]]
        cells = dict(ob0.cells)
        mf = [(x, k) for x, k in zip(ps, kinds) if k in MANAGED]

        def make(m):
            p = m.new("the object", ob0.size)
            m.objs[p[1]].cells.update(cells)
            return ("ptr", p[1], 8)
        lost = check_release(v, fs, idx, make, mf, {"anyref"}, "destruction")
        if lost:
            sh.lost.setdefault("anyref fields of an enum are released", f"{key}: {lost}")
    sh.decide(key, enum_text(variants, tag), t, judge)


ENUMS = [
    [("A", [])],
    [("A", ["i32"])],
    [("A", []), ("B", [])],
    [("None", []), ("Some", ["ptr"])],
    [("Some", ["ptr"]), ("None", [])],
    [("A", ["i8", "i64"]), ("B", ["ptr", "i32"]), ("C", ["f64"])],
    [("A", ["ptr"]), ("B", ["i8"]), ("C", ["ptr", "ptr"])],
    [("A", ["int", "struct", "bool"]), ("B", ["bytes"]), ("C", [])],
    [("A", ["i8", "i8", "ptr"]), ("B", ["i8", "i16", "i32", "i64"]), ("C", ["i64", "i8"]), ("D", [])],
    [("Leaf", ["bytes"]), ("Branch", ["enum", "enum", "nat"])],
    [("A", ["closure", "i8"]), ("B", ["array", "float", "intref"])],
    [("A", ["i32", "ptr"]), ("B", ["ptr", "i32"]), ("C", ["i32", "i32"])],
    [("A", ["anyref"]), ("B", ["i32", "anyref"])],
]


def several(sh):
    """Several types in one module: each keeps its own index and release function."""
    a = struct("A", [("x", K["i32"]), ("y", K["ptr"])])
    b = struct("B", [("x", K["ptr"]), ("y", K["i8"]), ("z", K["ptr"])])
    e = enumt("E", [("N", []), ("S", [K["ptr"]])])
    text = """
clif.func {sym_name=@f}
  ^e i:$i32 p:$ptr q:$ptr c:$i8
  x:core.ptr = adt.struct_new i p
  y:core.ptr = adt.struct_new p c q
  clif.brif i -> ^l ^r
  ^l
  z:core.ptr = adt.variant_new q {tag=@S}
  clif.call x y z {callee=@made}
  clif.return x
  ^r
  x2:core.ptr = adt.struct_new i q
  clif.call x y x2 {callee=@made}
  clif.return x
"""
    types = {"adt.struct_new": a, "adt.struct_new.2": b, "adt.variant_new": e, "adt.struct_new.3": a}

    def judge(v, fs, hold):
        got = {}
        layouts = {}
        for m, end in executions(lambda ch: Machine(v, ch, hooks=HOOKS), fs["f"],
                                 lambda m: [("sym", "i"), ("sym", "p"), ("sym", "q"), ("sym", "c")]):
            made = [ev for ev in m.trace if ev[0] == "call" and ev[1] == "made"][0][2]
            third = "A2" if m.facts.get(("true", ("sym", "i"))) is False else "E"
            for n, p in zip(("A", "B", third), made):
                got.setdefault(n, set()).add(check_object(p, m, None, f"construction of {n}"))
                layouts[n] = (m.objs[p[1]].size, dict(m.objs[p[1]].cells))
        if set(got) != {"A", "B", "E", "A2"}:
            raise Unclear("not every construction was followed")
        if got["A"] != got["A2"] or any(len(x) != 1 for x in got.values()):
            raise Bad(f"objects of one type carry different type indices {got}")
        if len(set(next(iter(got[n])) for n in "ABE")) != 3:
            raise Bad(f"different types share a type index: {got}")
        mine = {next(iter(got[n])) for n in "ABE"}
        if any(i < 32 for i in mine):
            raise Bad(f"a type index below 32 collides with the built-in ones: {sorted(mine)}")
        want = {"A": [("sym", "p")], "B": [("sym", "p"), ("sym", "q")], "E": [("sym", "q")]}
        for n in "ABE":
            size, cells = layouts[n]

            def make(m):
                p = m.new("the object", size)
                m.objs[p[1]].cells.update(cells)
                return ("ptr", p[1], 8)
            check_release(v, fs, next(iter(got[n])), make, [(w, "ptr") for w in want[n]], (), f"destruction of {n}")
    sh.decide("several types in one module", text, types, judge)


def refs(sh):
    t = struct("A", [("x", K["i32"])])
    for kind in ("i1", "i8", "i32", "i64", "bool"):
        text = f"""
clif.func {{sym_name=@f}}
  ^e p:$ptr
  n:core.ptr = adt.ref_null
  a:${kind} = adt.ref_is_null p
  b:${kind} = adt.ref_is_null n
  c:core.ptr = adt.ref_cast p
  clif.call a b c n {{callee=@seen}}
  clif.return p
"""
        def judge(v, fs, hold):
            k = 0
            for m, end in executions(lambda ch: Machine(v, ch, hooks={**HOOKS, **EXT}), fs["f"], lambda m: [("sym", "p")]):
                seen = [e for e in m.trace if e[0] == "call"][0][2]
                k += 1
                if not m.truth(seen[1]):
                    raise Bad("null does not test as null")
                c = seen[0]
                while c[0] == "ext":
                    c = c[1]
                if c[0] != "cmp" or {c[2], c[3]} != {("sym", "p"), ("int", 0)} or c[1] != "eq":
                    raise Bad(f"the null test compares {c[1:]}")
                if seen[2] != ("sym", "p") or seen[3] != ("int", 0):
                    raise Bad("a cast or null is not what it was")
            if not k:
                raise Unclear("not followed")
        sh.decide(f"null test into {kind}", text, t, judge)


def ext_hook(m, o, a, env):
    env[m.v.results(o)[0]] = ("ext", a[0])
    return None


EXT = {"clif.uextend": ext_hook}


def check(ctx):
    ctx.rule("reading a field gives exactly what was stored in it, before and after other fields are written")
    ctx.rule("every access stays inside the allocation, is aligned, and no two fields overlap")
    ctx.rule("an object starts with one reference, its own type's index, and the address behind the header")
    ctx.rule("the release function of a type releases every non-null reference field once and then frees the allocation with its size")
    for p in (TCN, RTTI, HDR, ACC):
        if p not in ctx.P.fns:
            ctx.bad(p, "pass not found", p)
            return
    sh = Shape(ctx)
    jobs = []

    def run(f, *a):
        jobs.append(lambda: f(*a))
    run(struct_case, sh, [], None)
    for k in K:
        run(struct_case, sh, [k], 0)
    main = ["i8", "i16", "i32", "i64", "f64", "ptr", "int", "struct", "bool", "anyref"]
    for a, b in itertools.product(main, main):
        run(struct_case, sh, [a, b], 1 if (a, b) != (b, a) else 0)
    for c in itertools.product(["i8", "i32", "ptr"], repeat=3):
        run(struct_case, sh, list(c), 1)
    if ctx.tier == "thorough":
        for c in itertools.product(["i8", "i16", "i64", "ptr"], repeat=4):
            run(struct_case, sh, list(c), 2)
    for c in (["i8", "ptr", "i8", "ptr"], ["ptr", "i16", "i8", "f32", "ptr"], ["f32", "f64", "i1", "bytes", "i8", "closure"]):
        run(struct_case, sh, c, 1)
    run(struct_case, sh, ["ptr", "ptr"], 1, ["func_ptr", "env"])
    run(struct_case, sh, ["i32", "ptr", "struct"], 2, ["a", "func_ptr", "b"])
    for e in ENUMS:
        for n, _ in e:
            run(enum_case, sh, e, n)
    run(several, sh)
    run(refs, sh)
    ctx.parallel(jobs, share=[sh.lost])
    for k in ("anyref fields of a struct are released", "anyref fields of an enum are released"):
        if k in sh.lost:
            ctx.bad(k, sh.lost[k], ctx.where(RTTI))
        else:
            ctx.ok(k)

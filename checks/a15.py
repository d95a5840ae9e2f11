"""A15: the native code generator emits the function it was given."""
from .a11 import mod_of, put
from .a13 import at, funcs
from engine.clifmem import *
from engine.rules import *
from engine import clfn
from engine.clfn import *
from engine.models import ok

LEVEL = "other"
EXPLANATION = ("The code generator is analysed as a whole on lowered modules; everything it asks Cranelift to build is recorded as an "
               "effect and read back as functions. For every outcome of the conditions, the built function must perform the same loads, "
               "stores, atomic updates, calls, traps and returns on the same values as the function of the IR, with the signatures, "
               "calling conventions, linkage and data the IR asks for.")
ASSUMPTIONS = ["Cranelift itself, its verifier and the object writer are trusted",
               "64-bit pointers; executions are compared for the first six undetermined branches and up to 300 instructions"]
EMIT = "trunk_ir_cranelift_backend::translate::emit_module_to_native"


def fty(ret, *ps):
    return ("ty", S("core"), S("func"), ("seq", (ty(ret),) + tuple(ty(p) for p in ps)), ("map", ()))


def m_split(rev):
    def f(eng, st, fr, args, targs, path, t):
        a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
        if b[0] == "c":
            b = S(chr(b[1]))
        if a[0] == "s" and b[0] == "s" and b[1]:
            ps = a[1].split(b[1])
            return ("iter", tuple(S(x) for x in (ps[::-1] if rev else ps)), 0)
        return None
    return f


def m_hash(eng, st, fr, args, targs, path, t):
    r = models.chase(eng, st, args[1])
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], T("hashed", eng.freeze(st, eng.load(st, r[1], r[2])), eng.freeze(st, args[0])))
    return UNIT


EXTRA = {"core::str::rsplit": m_split(True), "core::str::split": m_split(False), "core::hash::Hash::hash": m_hash,
         "core::hash::Hasher::write": m_hash}
UNIT = ("tup", ())


def emit(ctx, text, types, hold, rodata=(), attrs=None, nest=False, entry=EMIT):
    """types: {function name: core.func type}; sig attributes come from `$S` entries of attrs: {op tag: {key: attribute}}"""
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        lay = Layout(h, text)
        for tag, o in lay.ops.items():
            if tag.split(".")[:2] == ["clif", "func"]:
                n = h_attr(h, o, "sym_name")
                if n in types:
                    put(h, o, "type", at("Type", types[n]))
            for k, v in (attrs or {}).get(tag, {}).items():
                put(h, o, k, v)
        m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
        hold.update(h=h, m=m, lay=lay)
        rd = ("seq", tuple(("adt", "trunk_ir_cranelift_backend::translate::RodataEntry", "RodataEntry",
                            (S(n), ("seq", tuple(C(b) for b in data))), ("symbol", "data")) for n, data in rodata))
        return [h.ref, ("adt", mod, "Module", (m,), mf), rd]
    return ctx.run(entry, setup=setup, max_depth=60, max_rec=12, ext_hook=clfn.hook,
                   extra_models={**EXTRA, **({ISA(ctx): lambda *a: ok(T("isa"))} if ISA(ctx) else {})})


def ISA(ctx):
    if "isa" not in ctx._cache:
        ctx._cache["isa"] = next((p for p, f in ctx.P.fns.items() if p.startswith("trunk_ir_cranelift_backend::") and f.argc == 0
                                  and "TargetIsa" in f.local_ty(0)["s"] and f.kind == "Fn"), None)
    return ctx._cache["isa"]


def h_attr(h, o, k):
    v = h.view(h.st)
    a = v.field("Op", o, "attributes")
    x = next((x for kk, x in a[1] if kk == S(k)), None)
    return x[3][0][1] if x is not None else None


def names(decl, syms):
    """fid -> symbol, from the names given to the linker"""
    out = {}
    for fid, (name, link, sig) in decl.items():
        if name[0] == "s":
            out[fid] = name[1]
        else:
            hit = [s for s in syms if mentions(name, lambda t: t[0] == "t" and t[1] == "hashed" and t[-1] == S(s))]
            if len(hit) != 1:
                raise Unclear("the linker name of a function")
            out[fid] = hit[0]
    return out


def all_funcs(v, m):
    out = {}
    def go(o):
        for r in v.seq(v.field("Op", o, "regions")) or []:
            for b in v.seq(v.field("Region", r, "blocks")) or []:
                for x in v.ops(b) or []:
                    if v.opname(x) == "clif.func":
                        out[Src(v, ()).pay(x, "sym_name")] = x
                    elif v.opname(x) == "core.module":
                        go(x)
    go(m)
    return out


RUNTIME = {"__tribute_alloc": ((0x77,), (0x77,), "default"), "__tribute_dealloc": ((0x77, 0x77), (), "default"),
           "__tribute_deep_release": ((0x77, 0x77), (), "default")}


def judge(v, m, events, rodata, skip=()):
    fns, decl, data, desc, defd = clfn.read(events)
    src = all_funcs(v, m)
    nm = names(decl, list(src))
    by = {}
    for fid, n in nm.items():
        if n in by:
            raise Bad(f"@{n} is declared twice")
        by[n] = fid
    dn = {}
    for d, (n, link, ds) in data.items():
        if n is None or n[0] != "s":
            raise Unclear("data name")
        dn[d] = n[1]
    body = {}
    for fid, f in defd:
        if nm.get(fid) in body:
            raise Bad(f"@{nm.get(fid)} is defined twice")
        body[nm.get(fid)] = fns[f]
    lins = [decl[f][0] for f in decl]
    if len(set(map(repr, lins))) != len(lins):
        raise Bad("two functions get the same linker name")
    for n, o in src.items():
        s = Src(v, ())
        imported = s.attr(o, "abi") is not None
        try:
            want = want_sig(s.pay(o, "type"), s.pay(o, "tribute.calling_convention") == 2)
        except Unclear:
            if imported:
                continue
            raise
        if n not in by:
            raise Bad(f"@{n} is not declared")
        got = got_sig(decl[by[n]][2])
        if got != want:
            raise Bad(f"@{n} is declared with the signature {got} instead of {want}")
        link = decl[by[n]][1]
        link = link[2] if link[0] == "adt" else None
        if link is None:
            raise Unclear("linkage")
        wl = "Export" if n == "main" else "Import" if imported else "Local"
        if link != wl:
            raise Bad(f"@{n} gets {link} linkage instead of {wl}")
        if imported:
            if n in body:
                raise Bad(f"the imported function @{n} is defined")
            continue
        if n not in body:
            raise Bad(f"@{n} is not defined")
        f = body[n]
        if got_sig(f.sig) != want:
            raise Bad(f"@{n} is built with the signature {got_sig(f.sig)} instead of {want}")
        if tuple(p[1] for p in f.params[f.blocks[0]]) != want[0]:
            raise Bad(f"the entry block of @{n} does not take the function's parameters")
        compare(n, lambda ch: Src(v, ch), lambda x: x.run(o), lambda ch: Gen(f, nm, dn, ch), lambda x: x.run())
        for b in f.blocks[1:]:
            pass
    for n, w in RUNTIME.items():
        if n not in src and n in by and got_sig(decl[by[n]][2]) != w:
            raise Bad(f"{n} is declared with the signature {got_sig(decl[by[n]][2])}")
    for n, bs in rodata:
        d = [k for k, x in dn.items() if x == n]
        if len(d) != 1:
            raise Bad(f"the data {n} is declared {len(d)} times")
        acts = desc.get(data[d[0]][2])
        df = [x for x in acts or [] if x[0] == "define"]
        if len(df) != 1 or df[0][1] != ("seq", tuple(C(b) for b in bs)):
            raise Bad(f"the data {n} is not defined with its bytes")


def compare(n, mk1, go1, mk2, go2):
    """Every execution of one side happens on the other, under the same outcomes."""
    a, b = runs(mk1, go1), runs(mk2, go2)
    if not a or not b:
        raise Unclear("no execution")
    for xs, ys, w in ((a, b, "is lost"), (b, a, "is new")):
        for x in xs:
            if getattr(x, "cut", False):
                continue
            ok_ = [y for y in ys if consistent(x.facts, y.facts)]
            if not ok_:
                raise Unclear("no matching execution")
            if not any(y.trace == x.trace for y in ok_ if not getattr(y, "cut", False)):
                y = next((y for y in ok_ if not getattr(y, "cut", False)), None)
                if y is None:
                    raise Unclear("only cut executions")
                i = next((i for i, (p, q) in enumerate(zip(x.trace, y.trace)) if p != q), min(len(x.trace), len(y.trace)))
                s, g = (x, y) if w == "is lost" else (y, x)
                raise Bad(f"@{n}: step {i} should be {s.trace[i:i + 1]} but is {g.trace[i:i + 1]}"[:400])


def consistent(f, g):
    return all(g.get(k, t) == t for k, t in f.items())


I, P, N = "core.i32", "core.ptr", "core.nil"
ONE = fty(I, I)
BASE = """
clif.func {sym_name=@g}
  ^e a:core.i32
  clif.return a
"""
SHAPES = [
    ("straight line", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr
  x:core.i32 = clif.load b {offset=4}
  y:core.i32 = clif.isub a x
  clif.store y b {offset=8}
  clif.return y
""", {"f": fty(I, I, P)}, {}),
    ("branches and edges with values", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr
  x:core.i32 = clif.load b {offset=4}
  c:core.i8 = clif.icmp a x {cond=@slt}
  clif.brif c -> ^l ^r
  ^l
  clif.jump x a -> ^j
  ^r
  y:core.i32 = clif.call a {callee=@g}
  clif.jump y x -> ^j
  ^j z:core.i32 w:core.i32
  d:core.i32 = clif.isub z w
  clif.store z b {offset=8}
  clif.return d
""" + BASE, {"f": fty(I, I, P), "g": ONE}, {}),
    ("loop", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr
  z:core.i32 = clif.iconst {value=0}
  clif.jump z a -> ^h
  ^h i:core.i32 s:core.i32
  c:core.i8 = clif.icmp i a {cond=@ult}
  clif.brif c -> ^b ^x
  ^b
  one:core.i32 = clif.iconst {value=1}
  i2:core.i32 = clif.iadd i one
  s2:core.i32 = clif.imul s i
  clif.store s2 b {offset=0}
  clif.jump i2 s2 -> ^h
  ^x
  clif.return s
""", {"f": fty(I, I, P)}, {}),
    ("swap on an edge", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.i32
  clif.jump a b -> ^h
  ^h x:core.i32 y:core.i32
  c:core.i8 = clif.icmp x y {cond=@eq}
  clif.brif c -> ^d ^h2
  ^h2
  clif.jump y x -> ^h
  ^d
  clif.return x
""", {"f": fty(I, I, I)}, {}),
    ("units are dropped", """
clif.func {sym_name=@f}
  ^e n:core.nil a:core.i32 m:core.nil b:core.i64
  u:core.nil = clif.iconst {value=0}
  x:core.i32 = clif.call a {callee=@g}
  clif.call n x u b {callee=@h}
  clif.jump u x n b -> ^j
  ^j p:core.nil q:core.i32 r:core.nil s:core.i64
  clif.call p q r s {callee=@h}
  clif.return q
clif.func {sym_name=@h}
  ^e n:core.nil a:core.i32 m:core.nil b:core.i64
  clif.return n
""" + BASE, {"f": fty(I, N, I, N, "core.i64"), "h": fty(N, N, I, N, "core.i64"), "g": ONE}, {}),
    ("unit memory", """
clif.func {sym_name=@f}
  ^e n:core.nil b:core.ptr
  clif.store n b {offset=0}
  u:core.nil = clif.load b {offset=8}
  a:core.i32 = clif.load b {offset=12}
  clif.call a u {callee=@h}
  clif.return u
clif.func {sym_name=@h}
  ^e a:core.i32 n:core.nil
  clif.return n
""", {"f": fty(N, N, P), "h": fty(N, I, N)}, {}),
    ("calls", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr c:core.i64
  x:core.i32 = clif.call a {callee=@g}
  y:core.i32 = clif.call c b a {callee=@k}
  clif.call x y {callee=@ext}
  z:core.i32 = clif.call c b y {callee=@k}
  clif.return z
clif.func {sym_name=@k}
  ^e c:core.i64 b:core.ptr a:core.i32
  clif.trap
clif.func {sym_name=@ext,abi=C}
  ^e a:core.i32 b:core.i32
  clif.return
""" + BASE, {"f": fty(I, I, P, "core.i64"), "g": ONE, "k": fty(I, "core.i64", P, I), "ext": fty(N, I, I)}, {}),
    ("indirect calls", """
clif.func {sym_name=@f}
  ^e p:core.ptr a:core.i32 n:core.nil c:core.i64
  x:core.i32 = clif.call_indirect p a n c
  y:core.nil = clif.call_indirect p a
  z:core.nil = clif.call_indirect p a x
  w:core.f64 = clif.call_indirect p
  clif.store w p {offset=0}
  clif.return x
""", {"f": fty(I, P, I, N, "core.i64")},
     {"clif.call_indirect": {"sig": at("Type", fty(I, I, N, "core.i64"))},
      "clif.call_indirect.2": {"sig": at("Type", fty(N, I)), "tribute.calling_convention": at("Int", C(2))},
      "clif.call_indirect.3": {"sig": at("Type", fty(N, I, I))},
      "clif.call_indirect.4": {"sig": at("Type", fty("core.f64")), "tribute.calling_convention": at("Int", C(2))}}),
    ("tail calls", """
clif.func {sym_name=@f}
  ^e a:core.i32 n:core.nil p:core.ptr
  c:core.i8 = clif.icmp a a {cond=@ne}
  clif.brif a -> ^l ^r
  ^l
  clif.return_call p n a {callee=@t}
  ^r
  clif.return_call_indirect p a n p
clif.func {sym_name=@t}
  ^e p:core.ptr n:core.nil a:core.i32
  clif.return_call a n p {callee=@f}
""", {"f": fty(N, I, N, P), "t": fty(N, P, N, I)},
     {"clif.func": {"tribute.calling_convention": at("Int", C(2))}, "clif.func.2": {"tribute.calling_convention": at("Int", C(2))},
      "clif.return_call_indirect": {"sig": at("Type", fty(N, I, N, P))}}),
    ("a convention without the empty result", """
clif.func {sym_name=@f}
  ^e a:core.i32
  clif.return a
clif.func {sym_name=@main}
  ^e a:core.i32
  x:core.i32 = clif.call a {callee=@f}
  clif.return x
clif.func {sym_name=@q}
  ^e a:core.i32
  clif.return
""", {"f": ONE, "main": ONE, "q": fty(N, I)},
     {"clif.func": {"tribute.calling_convention": at("Int", C(2))}, "clif.func.3": {"tribute.calling_convention": at("Int", C(1))}}),
    ("atomic updates", "clif.func {sym_name=@f}\n  ^e b:core.ptr a:core.i32\n" + "\n".join(
        f"  x{i}:core.i32 = clif.atomic_rmw b a {{op=@{k},offset={i * 4 - 8}}}" for i, k in enumerate(RMW)) +
     "\n  y:core.i64 = clif.atomic_rmw b x0 {op=@add,offset=0}\n  clif.store x1 b {offset=-4}\n  clif.store y b {offset=0}\n  clif.return x2\n",
     {"f": fty(I, P, I)}, {}),
    ("addresses", """
clif.func {sym_name=@f}
  ^e a:core.i32
  x:core.ptr = clif.symbol_addr {sym=@g}
  y:core.ptr = clif.symbol_addr {sym=@r1}
  z:core.ptr = clif.symbol_addr {sym=@r0}
  clif.store x y {offset=0}
  clif.store z y {offset=8}
  clif.return a
""" + BASE, {"f": ONE, "g": ONE}, {}),
    ("many blocks", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr
  clif.brif a -> ^p ^q
  ^q
  x:core.i32 = clif.load b {offset=0}
  clif.brif x -> ^r ^s
  ^p
  y:core.i32 = clif.load b {offset=4}
  clif.brif y -> ^s ^r
  ^r
  clif.trap
  ^s
  clif.brif a -> ^t ^u
  ^t
  clif.jump a -> ^v
  ^u
  z:core.i32 = clif.iconst {value=-7}
  clif.jump z -> ^v
  ^v k:core.i32
  clif.return k
""", {"f": fty(I, I, P)}, {}),
    ("the same constant in several blocks", """
clif.func {sym_name=@f}
  ^e a:core.i32 b:core.ptr
  clif.brif a -> ^p ^q
  ^p
  x:core.i32 = clif.iconst {value=7}
  s:core.ptr = clif.symbol_addr {sym=@r0}
  clif.store x b {offset=0}
  clif.store s b {offset=16}
  clif.jump -> ^j
  ^q
  y:core.i32 = clif.iconst {value=7}
  t:core.ptr = clif.symbol_addr {sym=@r0}
  clif.store y b {offset=24}
  clif.store t b {offset=40}
  clif.jump -> ^j
  ^j
  z:core.i32 = clif.iconst {value=7}
  w:core.i64 = clif.iconst {value=7}
  u:core.ptr = clif.symbol_addr {sym=@r0}
  clif.store w b {offset=48}
  clif.store u b {offset=56}
  clif.return z
""", {"f": fty(I, I, P)}, {}),
    ("every width", """
clif.func {sym_name=@f}
  ^e p:core.ptr
  a:core.i8 = clif.load p {offset=0}
  b:core.i16 = clif.load p {offset=2}
  c:core.i32 = clif.load p {offset=4}
  d:core.i64 = clif.load p {offset=8}
  e:core.f32 = clif.load p {offset=16}
  g:core.f64 = clif.load p {offset=24}
  h:core.ptr = clif.load p {offset=32}
  i:core.i1 = clif.load p {offset=-8}
  clif.store a h {offset=7}
  clif.store b h {offset=6}
  clif.store c h {offset=5}
  clif.store d h {offset=4}
  clif.store e h {offset=3}
  clif.store g h {offset=2}
  clif.store i h {offset=1}
  clif.jump i a b c d e g h -> ^j
  ^j i2:core.i1 a2:core.i8 b2:core.i16 c2:core.i32 d2:core.i64 e2:core.f32 g2:core.f64 h2:core.ptr
  clif.call i2 a2 b2 c2 d2 e2 g2 h2 {callee=@k}
  clif.return a
clif.func {sym_name=@k,abi=C}
  ^e i:core.i1 a:core.i8 b:core.i16 c:core.i32 d:core.i64 e:core.f32 g:core.f64 h:core.ptr
  clif.return
""", {"f": fty("core.i8", P), "k": fty(N, "core.i1", "core.i8", "core.i16", "core.i32", "core.i64", "core.f32", "core.f64", P)}, {}),
    ("nested modules and names that share an end", """
clif.func {sym_name=@a::x}
  ^e a:core.i32
  y:core.i32 = clif.call a {callee=@b::x}
  clif.return y
core.module {sym_name=@inner}
  clif.func {sym_name=@b::x}
    ^e1 a1:core.i32
    z:core.i32 = clif.isub a1 a1
    clif.return z
""", {"a::x": ONE, "b::x": ONE}, {}),
    ("an import that cannot be expressed", """
clif.func {sym_name=@f}
  ^e a:core.i32
  clif.return a
clif.func {sym_name=@ext,abi=C}
  ^e a:core.bytes
  clif.return
clif.func {sym_name=@ext2,abi=C}
  ^e a:core.i32
  clif.return
""", {"f": ONE, "ext": fty(N, "core.bytes"), "ext2": fty(N, I)}, {}),
]
for _n in sorted(BINS):
    _t = "core.f64" if _n[0] == "f" else "core.i64"
    SHAPES.append((f"{_n}", f"clif.func {{sym_name=@f}}\n  ^e a:{_t} b:{_t}\n  x:{_t} = clif.{_n} a b\n  y:{_t} = clif.{_n} x a\n  clif.return y\n",
                   {"f": fty(_t, _t, _t)}, {}))
for _n in sorted(ICC):
    SHAPES.append((f"icmp {_n}", "clif.func {sym_name=@f}\n  ^e a:core.i64 b:core.i64\n  x:core.i8 = clif.icmp a b {cond=@%s}\n  clif.brif x -> ^l ^r\n"
                   "  ^l\n  clif.return a\n  ^r\n  clif.return b\n" % _n, {"f": fty("core.i64", "core.i64", "core.i64")}, {}))
RODATA = [("r0", [1, 2, 255]), ("r1", [0]), ("r2", [])]


def decide(ctx, key, text, types, attrs):
    hold = {}
    rs, e = emit(ctx, text, types, hold, RODATA, attrs)
    if rs is None:
        ctx.unk(key, e.failed)
        return
    out = []
    for r in rs:
        v = None
        try:
            if r.end != "ret":
                v = ("unk", str(r.end)) if r.conds else ("bad", f"{key}: the code generator stops: {r.end}")
            elif r.ret[0] == "adt" and r.ret[2] == "Err":
                v = ("bad", f"{key}: refused with {brief(r.ret, 200)}")
            else:
                judge(hold["h"].view(r.st), hold["m"], r.events, RODATA)
        except Bad as b:
            v = ("bad", f"{key}: {b}")
        except (Unclear, Need, Stop) as u:
            v = ("unk", f"{type(u).__name__}: {u}")
        out.append((r, v))
    ctx.verdicts(key, out, ctx.where(EMIT))


def check(ctx):
    ctx.rule("every execution of a lowered function is an execution of the generated function and vice versa: same loads, stores, atomic "
             "updates, calls, traps and returns on the same values")
    ctx.rule("declared, built and called signatures are the translation of the function type; unit values take no place; the tail "
             "convention is used exactly for functions and calls in continuation-passing style without a result")
    ctx.rule("main is exported, functions with an ABI are imported and never defined, all others are local with distinct names; "
             "read-only data is defined once with its bytes")
    if EMIT not in ctx.P.fns:
        ctx.bad(EMIT, "code generator not found", EMIT)
        return
    ctx.parallel([lambda a=a: decide(ctx, *a) for a in SHAPES])

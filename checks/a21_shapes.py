"""Shapes of wasm-dialect functions and modules."""
from engine.absint import C, S
from engine.irtrace import NAMED
from engine.wasmfn import Bad
from .a13 import at

ST = lambda n: ("ty", S("adt"), S("struct"), ("seq", ()), ("map", ((S("name"), at("Symbol", S(n))),)))
NAMED.update({"W.P": ST("P"), "W.Q": ST("Q"), "W.closure": ST("_closure"), "W.step": ST("_Step"), "W.marker": ST("_Marker")})

FUNCS = [
    ("straight line", "i32 i32 -> i32", """  ^e a:core.i32 b:core.i32
  c:core.i32 = wasm.i32_sub a b
  d:core.i32 = wasm.i32_mul c a
  wasm.return d
"""),
    ("no result", "i32 -> nil", """  ^e a:core.i32
  b:core.i32 = wasm.i32_add a a
  wasm.return
"""),
    ("falls off the end", "i32 -> nil", """  ^e a:core.i32
  b:core.i32 = wasm.i32_div_s a a
"""),
    ("values of all types", "i64 i32 f32 f64 i64 -> f64", """  ^e a:core.i64 b:core.i32 c:core.f32 d:core.f64 x:core.i64
  e:core.i64 = wasm.i64_sub a x
  f:core.i32 = wasm.i32_wrap_i64 e
  g:core.i32 = wasm.i32_sub f b
  h:core.i64 = wasm.i64_extend_i32_u g
  i:core.i1 = wasm.i64_lt_s h a
  j:core.f32 = wasm.f32_convert_i32_s i
  k:core.f32 = wasm.f32_div j c
  l:core.f64 = wasm.f64_promote_f32 k
  m:core.f64 = wasm.f64_sub l d
  n:core.i64 = wasm.i64_reinterpret_f64 m
  o:core.i64 = wasm.i64_div_u n h
  p:core.f64 = wasm.f64_convert_i64_u o
  wasm.return p
"""),
    ("constants", "i32 -> i64", """  ^e a:core.i32
  b:core.i32 = wasm.i32_const {value=-7}
  c:core.i64 = wasm.i64_const {value=-9000000000}
  d:core.i64 = wasm.i64_extend_i32_s b
  e:core.i64 = wasm.i64_sub c d
  wasm.return e
"""),
    ("operands in another order", "i32 i32 i32 -> i32", """  ^e a:core.i32 b:core.i32 c:core.i32
  x:core.i32 = wasm.i32_sub c b
  y:core.i32 = wasm.i32_sub a x
  z:core.i32 = wasm.i32_shl y c
  w:core.i32 = wasm.i32_rem_u x z
  v:core.i32 = wasm.i32_ge_u w y
  wasm.return v
"""),
    ("if with result", "i32 i32 i32 -> i32", """  ^e a:core.i32 b:core.i32 c:core.i32
  r:core.i32 = wasm.if c
    x:core.i32 = wasm.i32_sub a b
    wasm.yield x
  |
    y:core.i32 = wasm.i32_add a b
    wasm.yield y
  wasm.return r
"""),
    ("if yields outer values", "i32 i32 i32 -> i32", """  ^e a:core.i32 b:core.i32 c:core.i32
  r:core.i32 = wasm.if c
    x:core.i32 = wasm.i32_div_s a b
    wasm.yield b
  |
    wasm.yield a
  wasm.return r
"""),
    ("if yields its last value", "i32 i32 i32 -> i32", """  ^e a:core.i32 b:core.i32 c:core.i32
  r:core.i32 = wasm.if c
    x:core.i32 = wasm.i32_sub a b
  |
    y:core.i32 = wasm.i32_sub b a
  wasm.return r
"""),
    ("if of another type", "i32 i64 f64 -> f64", """  ^e c:core.i32 a:core.i64 b:core.f64
  r:core.f64 = wasm.if c
    x:core.f64 = wasm.f64_convert_i64_s a
    wasm.yield x
  |
    y:core.i64 = wasm.i64_sub a a
    wasm.yield b
  wasm.return r
"""),
    ("if without result", "i32 i32 -> nil", """  ^e c:core.i32 a:core.i32
  r:core.nil = wasm.if c
    x:core.i32 = wasm.i32_div_u a a
  |
    y:core.i32 = wasm.i32_rem_u a a
  wasm.return
"""),
    ("if whose then branch returns", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.nil = wasm.if c
    wasm.return a
  |
    y:core.i32 = wasm.i32_rem_u a a
  s:core.i32 = wasm.i32_sub a c
  wasm.return s
"""),
    ("if with result whose else branch returns", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.i32 = wasm.if c
    y:core.i32 = wasm.i32_sub a c
    wasm.yield y
  |
    wasm.return a
  s:core.i32 = wasm.i32_sub r c
  wasm.return s
"""),
    ("if with result whose then branch returns", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.i32 = wasm.if c
    wasm.return a
  |
    y:core.i32 = wasm.i32_sub a c
    wasm.yield y
  s:core.i32 = wasm.i32_sub r c
  wasm.return s
"""),
    ("if with result whose then branch is unreachable", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.i32 = wasm.if c
    wasm.unreachable
  |
    y:core.i32 = wasm.i32_sub a c
    wasm.yield y
  wasm.return r
"""),
    ("nested ifs", "i32 i32 i32 -> i32", """  ^e c:core.i32 d:core.i32 a:core.i32
  r:core.i32 = wasm.if c
    p:core.i32 = wasm.if d
      x:core.i32 = wasm.i32_sub a c
      wasm.yield x
    |
      wasm.yield a
    q:core.i32 = wasm.i32_sub p a
    wasm.yield q
  |
    w:core.i32 = wasm.if d
      wasm.yield c
    |
      z:core.i32 = wasm.i32_sub d a
      wasm.yield z
    wasm.yield w
  s:core.i32 = wasm.i32_sub r d
  wasm.return s
"""),
    ("block with result", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.i32 = wasm.block
    x:core.i32 = wasm.i32_sub a c
    wasm.yield x
  s:core.i32 = wasm.i32_sub r c
  wasm.return s
"""),
    ("block left by a branch with a value", "i32 i32 -> i32", """  ^e c:core.i32 a:core.i32
  r:core.i32 = wasm.block
    q:core.nil = wasm.if c
      x:core.i32 = wasm.i32_sub a c
      wasm.yield x
      wasm.br {target=1}
    |
      z:core.i32 = wasm.i32_div_s a a
    y:core.i32 = wasm.i32_sub c a
    wasm.yield y
  s:core.i32 = wasm.i32_sub r c
  wasm.return s
"""),
    ("block left by a conditional branch", "i32 i32 -> nil", """  ^e c:core.i32 a:core.i32
  r:core.nil = wasm.block
    x:core.i32 = wasm.i32_div_s a c
    wasm.br_if x {target=0}
    y:core.i32 = wasm.i32_div_u a c
  s:core.i32 = wasm.i32_rem_s a c
  wasm.return
"""),
    ("branch out of two blocks", "i32 i32 -> nil", """  ^e c:core.i32 a:core.i32
  r:core.nil = wasm.block
    q:core.nil = wasm.block
      x:core.i32 = wasm.i32_div_s a c
      wasm.br_if c {target=1}
      wasm.br_if x {target=0}
      y:core.i32 = wasm.i32_div_u a c
    z:core.i32 = wasm.i32_div_u c a
  s:core.i32 = wasm.i32_rem_s a c
  wasm.return
"""),
    ("counting loop", "i32 i32 -> i32", """  ^e n:core.i32 k:core.i32
  r:core.i32 = wasm.block
    q:core.nil = wasm.loop n
      ^l i:core.i32
      d:core.i32 = wasm.i32_eq i k
      t:core.nil = wasm.if d
        wasm.yield i
        wasm.br {target=2}
      |
        j:core.i32 = wasm.i32_sub i k
        wasm.yield j
        wasm.br {target=1}
    wasm.unreachable
  s:core.i32 = wasm.i32_sub r k
  wasm.return s
"""),
    ("loop that calls and continues", "i32 i32 -> i32", """  ^e n:core.i32 k:core.i32
  r:core.i32 = wasm.block
    q:core.nil = wasm.loop n
      ^l i:core.i32
      d:core.i32 = wasm.i32_div_s i k
      t:core.nil = wasm.if d
        j:core.i32 = wasm.i32_rem_s i d
        wasm.yield j
        wasm.br {target=1}
      |
        wasm.yield k
        wasm.br {target=2}
    wasm.unreachable
  wasm.return r
"""),
    ("loop without a value", "i32 i32 -> nil", """  ^e n:core.i32 k:core.i32
  q:core.nil = wasm.loop
    d:core.i32 = wasm.i32_div_s n k
    wasm.br_if d {target=0}
    e:core.i32 = wasm.i32_rem_s n k
  wasm.return
"""),
    ("loop in a loop", "i32 i32 -> i32", """  ^e n:core.i32 k:core.i32
  r:core.i32 = wasm.block
    q:core.nil = wasm.loop n
      ^l i:core.i32
      v:core.i32 = wasm.block
        w:core.nil = wasm.loop i
          ^m x:core.i32
          d:core.i32 = wasm.i32_div_s x k
          t:core.nil = wasm.if d
            y:core.i32 = wasm.i32_sub x i
            wasm.yield y
            wasm.br {target=1}
          |
            wasm.yield x
            wasm.br {target=2}
        wasm.unreachable
      e:core.i32 = wasm.i32_rem_s v k
      u:core.nil = wasm.if e
        wasm.yield v
        wasm.br {target=1}
      |
        wasm.yield e
        wasm.br {target=2}
    wasm.unreachable
  wasm.return r
"""),
    ("loop of another type", "i64 i32 -> i64", """  ^e n:core.i64 k:core.i32
  r:core.i64 = wasm.block
    q:core.nil = wasm.loop n
      ^l i:core.i64
      f:core.f64 = wasm.f64_convert_i64_s i
      d:core.i32 = wasm.i64_eq i n
      t:core.nil = wasm.if d
        wasm.yield i
        wasm.br {target=2}
      |
        j:core.i64 = wasm.i64_trunc_f64_s f
        wasm.yield j
        wasm.br {target=1}
    wasm.unreachable
  wasm.return r
"""),
    ("unreachable end", "i32 -> i32", """  ^e a:core.i32
  b:core.i32 = wasm.i32_div_s a a
  wasm.unreachable
"""),
    ("nil value between operations", "i32 -> i32", """  ^e a:core.i32
  n:core.nil = wasm.nop
  b:core.i32 = wasm.i32_div_s a a
  wasm.return b
"""),
    ("nil value in a branch", "i32 -> i32", """  ^e a:core.i32
  r:core.nil = wasm.if a
    n:core.nil = wasm.nop
    wasm.yield n
  |
    m:core.nil = wasm.nop
    wasm.yield m
  b:core.i32 = wasm.i32_div_s a a
  wasm.return b
"""),
    ("null function", "i32 -> funcref", """  ^e a:core.i32
  n:wasm.funcref = wasm.nop
  wasm.return n
"""),
    ("null reference", "i32 -> anyref", """  ^e a:core.i32
  n:wasm.anyref = wasm.nop
  wasm.return n
"""),
    ("small integers", "i32 -> i32", """  ^e a:core.i32
  r:wasm.i31ref = wasm.ref_i31 a
  s:core.i32 = wasm.i31_get_s r
  u:core.i32 = wasm.i31_get_u r
  d:core.i32 = wasm.i32_sub s u
  wasm.return d
"""),
    ("references", "anyref -> i32", """  ^e a:wasm.anyref
  n:wasm.anyref = wasm.ref_null {heap_type=@any}
  z:core.i32 = wasm.ref_is_null a
  t:core.i32 = wasm.ref_test a {target_type=!wasm.structref}
  s:wasm.structref = wasm.ref_cast a {target_type=!wasm.structref}
  i:wasm.i31ref = wasm.ref_cast a {target_type=!wasm.i31ref}
  j:core.i32 = wasm.i31_get_s i
  c:core.i32 = wasm.i32_sub t z
  d:core.i32 = wasm.i32_sub c j
  wasm.return d
"""),
    ("structs of the program", "i32 i64 -> i64", """  ^e a:core.i32 b:core.i64
  s:W.P = wasm.struct_new a b {type_idx=9}
  q:W.Q = wasm.struct_new b a s {type_idx=10}
  x:core.i32 = wasm.struct_get s {type_idx=9, field_idx=0}
  y:core.i64 = wasm.struct_get q {type_idx=10, field_idx=0}
  z:core.i64 = wasm.i64_extend_i32_s x
  w:core.i64 = wasm.i64_sub y z
  wasm.struct_set s w {type_idx=9, field_idx=1}
  p:W.P = wasm.struct_get q {type_idx=10, field_idx=2}
  v:core.i64 = wasm.struct_get p {type_idx=9, field_idx=1}
  wasm.return v
"""),
    ("struct from a reference", "anyref -> i64", """  ^e a:wasm.anyref
  s:W.P = wasm.ref_cast a {type_idx=9, target_type=!W.P}
  t:core.i32 = wasm.ref_test a {type_idx=10, target_type=!W.Q}
  x:core.i64 = wasm.struct_get s {type_idx=9, field_idx=1}
  k:core.i32 = wasm.struct_get s {type_idx=9, field_idx=0}
  m:W.P = wasm.struct_new k x {type_idx=9}
  n:W.Q = wasm.struct_new t {type_idx=10}
  wasm.return x
"""),
    ("struct of references", "anyref i32 -> anyref", """  ^e a:wasm.anyref i:core.i32
  s:W.P = wasm.struct_new a i {type_idx=9}
  t:W.Q = wasm.struct_new s a {type_idx=10}
  u:wasm.anyref = wasm.struct_get s {type_idx=9, field_idx=0}
  v:W.P = wasm.struct_get t {type_idx=10, field_idx=0}
  w:wasm.anyref = wasm.struct_get t {type_idx=10, field_idx=1}
  wasm.return u
"""),
    ("struct null", "i32 -> i32", """  ^e i:core.i32
  s:W.P = wasm.struct_new i i {type_idx=9}
  n:W.P = wasm.ref_null {heap_type=@any, type_idx=9}
  z:core.i32 = wasm.ref_is_null n
  wasm.return z
"""),
    ("builtin structs", "i32 anyref -> anyref", """  ^e i:core.i32 a:wasm.anyref
  k:W.closure = wasm.struct_new i a {type_idx=4}
  f:core.i32 = wasm.struct_get k {type_idx=4, field_idx=0}
  e:wasm.anyref = wasm.struct_get k {type_idx=4, field_idx=1}
  m:W.marker = wasm.struct_new f i a e {type_idx=5}
  t:core.i32 = wasm.struct_get m {type_idx=5, field_idx=1}
  d:wasm.anyref = wasm.struct_get m {type_idx=5, field_idx=3}
  wasm.return d
"""),
    ("evidence arrays", "i32 i32 -> i32", """  ^e n:core.i32 i:core.i32
  a:wasm.arrayref = wasm.array_new_default n {type_idx=6}
  m:W.marker = wasm.array_get a i {type_idx=6}
  wasm.array_set a i m {type_idx=6}
  b:wasm.arrayref = wasm.array_new_default i {type_idx=6}
  wasm.array_copy a i b n i {dst_type_idx=6, src_type_idx=6}
  l:core.i32 = wasm.array_len a
  wasm.return l
"""),
    ("filled array", "i32 i64 -> i64", """  ^e n:core.i32 x:core.i64
  a:W.P = wasm.array_new n x {type_idx=9}
  wasm.array_set a n x {type_idx=9}
  y:core.i64 = wasm.array_get a n {type_idx=9}
  wasm.return y
"""),
    ("memory", "i32 i64 -> i64", None),
]

MEM = """wasm.memory {min=1, max=0}
wasm.func {sym_name=@f}
"""


def mem_text():
    out = ["  ^e p:core.i32 x:core.i64 y:core.f32 z:core.f64"]
    k = 0
    for n, t in [("i32_load", "i32"), ("i64_load", "i64"), ("f32_load", "f32"), ("f64_load", "f64"), ("i32_load8_s", "i32"), ("i32_load8_u", "i32"),
                 ("i32_load16_s", "i32"), ("i32_load16_u", "i32"), ("i64_load8_s", "i64"), ("i64_load8_u", "i64"), ("i64_load16_s", "i64"),
                 ("i64_load16_u", "i64"), ("i64_load32_s", "i64"), ("i64_load32_u", "i64")]:
        out.append(f"  l{k}:core.{t} = wasm.{n} p {{offset={4 + 8 * k}, align=0, memory=0}}")
        k += 1
    for n, v in [("i32_store", "p"), ("i64_store", "x"), ("f32_store", "y"), ("f64_store", "z"), ("i32_store8", "p"), ("i32_store16", "p"),
                 ("i64_store8", "x"), ("i64_store16", "x"), ("i64_store32", "x")]:
        out.append(f"  wasm.{n} p {v} {{offset={4 + 8 * k}, align=0, memory=0}}")
        k += 1
    out.append("  g:core.i32 = wasm.memory_grow p {memory=0}")
    out.append("  s:core.i32 = wasm.memory_size {memory=0}")
    out.append("  t:core.i32 = wasm.i32_sub s g")
    out.append("  wasm.return t")
    return "\n".join(out) + "\n"


FUNCS = [x for x in FUNCS if x[2]]
B = lambda x: at("Bool", C(x))
BYTES = lambda s: at("Bytes", ("seq", tuple(C(b) for b in s)))
MEMA = {"wasm.memory": {"shared": B(0), "memory64": B(0)}}


def mem_is(*want):
    def f(v, ds, im, idx):
        if im.mems != list(want):
            raise Bad(f"the memories are {im.mems} instead of {list(want)} (minimum, maximum, 64 bits, shared)")
    return f


def datas_are(*want):
    def f(v, ds, im, idx):
        got = [(m, None if o is None else o[1][1], b) for m, o, b in im.datas]
        if got != list(want):
            raise Bad(f"the data segments are {got} instead of {list(want)}")
    return f


def both(*fs):
    def g(*a):
        for f in fs:
            f(*a)
    return g


def table_is(tables, elems):
    def f(v, ds, im, idx):
        tb = [(t[0][2], t[1], t[2]) for t in im.tables]
        if tb != tables:
            raise Bad(f"the tables are {tb} instead of {tables}")
        got = {}
        for k, t, o, fs in im.elems:
            if k == "active":
                for j, x in enumerate(fs):
                    got[(t, o[1][1] + j)] = x
        want = {k: idx[x] for k, x in elems.items()}
        if got != want:
            raise Bad(f"the tables are filled with {got} instead of {want}")
    return f


def globals_are(*want):
    def f(v, ds, im, idx):
        from engine.wasmfn import const
        got = []
        for t, m, i in im.globals:
            k = const(i)
            got.append((t if isinstance(t, str) else t[2], m, k[0], k[1][1] if len(k) > 1 and k[1][0] == "c" else None))
        if [g[:3] for g in got] != [w[:3] for w in want] or any(w[3] is not None and g[3] is not None and g[3] != w[3] for g, w in zip(got, want)):
            raise Bad(f"the globals are {got} instead of {list(want)}")
    return f


LEAF = """wasm.func {sym_name=@%s}
  ^%s %s
  %s
"""

MODULES = [
    ("calls before and after", {"f": "i32 i32 -> i32", "g": "i32 i32 -> i32", "h": "i32 i32 -> i32"}, """wasm.func {sym_name=@g}
  ^g a:core.i32 b:core.i32
  r:core.i32 = wasm.call b a {callee=@h}
  wasm.return r
wasm.func {sym_name=@f}
  ^f a2:core.i32 b2:core.i32
  r2:core.i32 = wasm.call a2 b2 {callee=@g}
  s2:core.i32 = wasm.call r2 a2 {callee=@f}
  wasm.return s2
wasm.func {sym_name=@h}
  ^h a3:core.i32 b3:core.i32
  r3:core.i32 = wasm.i32_sub a3 b3
  wasm.return r3
""", None, None),
    ("imports after functions", {"f": "i32 i64 -> i32", "g": "i64 -> nil", "p": "i64 i32 -> i32", "q": "-> i64"}, """wasm.func {sym_name=@f}
  ^f a:core.i32 b:core.i64
  r:core.i32 = wasm.call b a {callee=@p}
  n:core.nil = wasm.call b {callee=@g}
  wasm.return r
wasm.import_func {sym_name=@p, module=@env, name=@pp}
wasm.func {sym_name=@g}
  ^g c:core.i64
  x:core.i64 = wasm.call {callee=@q}
  n2:core.nil = wasm.call x {callee=@g}
  wasm.return
wasm.import_func {sym_name=@q, module=@wasi, name=@q}
""", None, None),
    ("nested module", {"f": "i32 -> i32", "g": "i32 -> i32", "h": "i32 -> i32", "p": "i32 -> i32"}, """wasm.func {sym_name=@f}
  ^f a:core.i32
  r:core.i32 = wasm.call a {callee=@g}
  wasm.return r
core.module {sym_name=@inner}
  wasm.import_func {sym_name=@p, module=@env, name=@p}
  wasm.func {sym_name=@g}
    ^g b:core.i32
    s:core.i32 = wasm.call b {callee=@p}
    wasm.return s
wasm.func {sym_name=@h}
  ^h c:core.i32
  t:core.i32 = wasm.call c {callee=@g}
  wasm.return t
""", None, None),
    ("tail calls", {"f": "i32 i64 -> i64", "g": "i64 i32 -> i64", "p": "i32 -> i64"}, """wasm.import_func {sym_name=@p, module=@env, name=@p}
wasm.func {sym_name=@f}
  ^f a:core.i32 b:core.i64
  n:core.nil = wasm.if a
    wasm.return_call b a {callee=@g}
  |
    wasm.return_call a {callee=@p}
  wasm.unreachable
wasm.func {sym_name=@g}
  ^g c:core.i64 d:core.i32
  wasm.return_call d c {callee=@f}
""", None, None),
    ("exports", {"f": "i32 -> i32", "g": "i32 -> i32", "p": "i32 -> i32"}, """wasm.import_func {sym_name=@p, module=@env, name=@p}
wasm.func {sym_name=@f}
  ^f a:core.i32
  wasm.return a
wasm.func {sym_name=@g}
  ^g b:core.i32
  c:core.i32 = wasm.i32_sub b b
  wasm.return c
wasm.memory {min=2, max=5}
wasm.export_func {func=@g}
wasm.export_func {func=@f}
wasm.export_memory {index=0}
""", {**MEMA, "wasm.export_func": {"name": at("String", S("main"))}, "wasm.export_func.2": {"name": at("String", S("other"))},
      "wasm.export_memory": {"name": at("String", S("memory"))}}, mem_is((2, 5, False, False))),
    ("memory", {"f": "i32 i64 f32 f64 -> i32"}, MEM + mem_text(), MEMA, mem_is((1, None, False, False))),
    ("data segments", {"f": "-> bytes", "g": "-> bytes"}, """wasm.memory {min=1, max=0}
wasm.data {offset=0}
wasm.data {offset=16}
wasm.data {offset=0}
wasm.func {sym_name=@f}
  ^f
  b:core.bytes = wasm.bytes_from_data {data_idx=2, offset=1, len=2}
  wasm.return b
wasm.func {sym_name=@g}
  ^g
  c:core.bytes = wasm.bytes_from_data {data_idx=0, offset=0, len=3}
  wasm.return c
""", {**MEMA, "wasm.data": {"bytes": BYTES(b"abc"), "passive": B(1)}, "wasm.data.2": {"bytes": BYTES(b"de"), "passive": B(0)},
      "wasm.data.3": {"bytes": BYTES(b"fgh"), "passive": B(1)}}, datas_are((None, None, tuple(b"abc")), (0, 16, tuple(b"de")), (None, None, tuple(b"fgh")))),
    ("bytes", {"f": "-> i32"}, """wasm.data {offset=0}
wasm.func {sym_name=@f}
  ^f
  b:core.bytes = wasm.bytes_from_data {data_idx=0, offset=0, len=3}
  o:core.i32 = wasm.struct_get b {type_idx=2, field_idx=1}
  l:core.i32 = wasm.struct_get b {type_idx=2, field_idx=2}
  s:core.i32 = wasm.i32_sub l o
  wasm.return s
""", {"wasm.data": {"bytes": BYTES(b"abc"), "passive": B(1)}}, None),
    ("table", {"f": "i32 -> i32", "g": "i32 -> i32", "h": "i64 i32 -> i64", "p": "i32 -> i32"}, """wasm.table {reftype=@funcref, min=4, max=9}
wasm.elem {table=0, offset=1}
  x:wasm.funcref = wasm.ref_func {func_name=@g}
  y:wasm.funcref = wasm.ref_func {func_name=@p}
  z:wasm.funcref = wasm.ref_func {func_name=@f}
wasm.import_func {sym_name=@p, module=@env, name=@p}
wasm.func {sym_name=@f}
  ^f a:core.i32
  r:core.i32 = wasm.call_indirect a a {table=0, type_idx=@none}
  wasm.return r
wasm.func {sym_name=@g}
  ^g b:core.i32
  wasm.return b
wasm.func {sym_name=@h}
  ^h c:core.i64 d:core.i32
  i:core.i32 = wasm.i32_const {value=2}
  s:core.i64 = wasm.call_indirect d c i {table=0, type_idx=@none}
  u:core.i32 = wasm.call_indirect i d {table=0, type_idx=@none}
  e:core.i64 = wasm.if u
    v:core.i64 = wasm.call_indirect u s d {table=0, type_idx=@none}
    wasm.yield v
  |
    w:core.i64 = wasm.call_indirect u {table=0, type_idx=@none}
    wasm.yield w
  wasm.return e
""", None, table_is([("func", 4, 9)], {(0, 1): "g", (0, 2): "p", (0, 3): "f"})),
    ("table by default", {"f": "i32 anyref -> anyref"}, """wasm.func {sym_name=@f}
  ^f a:core.i32 x:wasm.anyref
  r:wasm.anyref = wasm.call_indirect a x a {table=0, type_idx=@none}
  s:core.f64 = wasm.call_indirect a r {table=0, type_idx=@none}
  t:core.nil = wasm.call_indirect a s r {table=0, type_idx=@none}
  wasm.return r
""", None, table_is([("func", 0, None)], {})),
    ("two tables", {"f": "i32 -> i32", "g": "i32 -> i32"}, """wasm.table {reftype=@funcref, min=2}
wasm.table {reftype=@funcref, min=3}
wasm.elem {table=1, offset=0}
  x:wasm.funcref = wasm.ref_func {func_name=@g}
wasm.elem {table=0, offset=1}
  y:wasm.funcref = wasm.ref_func {func_name=@f}
wasm.func {sym_name=@f}
  ^f a:core.i32
  r:core.i32 = wasm.call_indirect a a {table=1, type_idx=@none}
  wasm.return r
wasm.func {sym_name=@g}
  ^g b:core.i32
  s:core.i32 = wasm.call_indirect b b {table=0, type_idx=@none}
  wasm.return s
""", None, table_is([("func", 2, None), ("func", 3, None)], {(1, 0): "g", (0, 1): "f"})),
    ("function references", {"f": "i32 -> funcref", "g": "i32 -> i32", "p": "i32 -> i32"}, """wasm.import_func {sym_name=@p, module=@env, name=@p}
wasm.func {sym_name=@f}
  ^f a:core.i32
  r:wasm.funcref = wasm.if a
    x:wasm.funcref = wasm.ref_func {func_name=@g}
    wasm.yield x
  |
    y:wasm.funcref = wasm.ref_func {func_name=@p}
    wasm.yield y
  wasm.return r
wasm.func {sym_name=@g}
  ^g b:core.i32
  wasm.return b
""", None, None),
    ("declared references", {"f": "i32 -> i32", "g": "i32 -> i32", "p": "i32 -> i32", "h": "-> funcref"}, """wasm.import_func {sym_name=@p, module=@env, name=@p}
wasm.func {sym_name=@f}
  ^f a:core.i32
  r:core.i32 = wasm.if a
    x:wasm.funcref = wasm.ref_func {func_name=@g}
    z:core.i32 = wasm.ref_is_null x
    wasm.yield z
  |
    y:wasm.funcref = wasm.ref_func {func_name=@p}
    w:core.i32 = wasm.ref_is_null y
    wasm.yield w
  wasm.return r
wasm.func {sym_name=@g}
  ^g b:core.i32
  wasm.return b
wasm.func {sym_name=@h}
  ^h
  q:wasm.funcref = wasm.ref_func {func_name=@h}
  wasm.return q
wasm.export_func {func=@f}
""", {"wasm.export_func": {"name": at("String", S("main"))}}, None),
    ("globals", {"f": "i32 i64 -> i32"}, """wasm.global {valtype=@i32, init=7}
wasm.global {valtype=@i64, init=-3}
wasm.global {valtype=@f64, init=0}
wasm.global {valtype=@anyref, init=0}
wasm.func {sym_name=@f}
  ^f a:core.i32 b:core.i64
  x:core.i32 = wasm.global_get {index=0}
  wasm.global_set b {index=1}
  y:core.i64 = wasm.global_get {index=1}
  z:wasm.anyref = wasm.global_get {index=3}
  wasm.global_set z {index=3}
  w:core.i32 = wasm.i32_sub x a
  wasm.return w
""", {"wasm.global": {"mutable": B(0)}, "wasm.global.2": {"mutable": B(1)}, "wasm.global.3": {"mutable": B(0)}, "wasm.global.4": {"mutable": B(1)}},
     globals_are(("i32", False, "i32_const", 7), ("i64", True, "i64_const", -3), ("f64", False, "f64_const", None), ("any", True, "ref_null", None))),
]

ONE = """wasm.func {sym_name=@f}
  ^f a:core.i32
  %s
  wasm.return a
"""
# modules that mention something that is not there
REJECTS = [
    ("call of an unknown function", {"f": "i32 -> i32"}, ONE % "b:core.i32 = wasm.call a {callee=@q}", None),
    ("tail call of an unknown function", {"f": "i32 -> i32"}, ONE % "wasm.return_call a {callee=@q}", None),
    ("reference to an unknown function", {"f": "i32 -> i32"}, ONE % "b:wasm.funcref = wasm.ref_func {func_name=@q}", None),
    ("export of an unknown function", {"f": "i32 -> i32"}, ONE % "b:core.i32 = wasm.i32_sub a a" + "wasm.export_func {func=@q}\n",
     {"wasm.export_func": {"name": at("String", S("main"))}}),
    ("table entry of an unknown function", {"f": "i32 -> i32"}, ONE % "b:core.i32 = wasm.i32_sub a a" + """wasm.table {reftype=@funcref, min=4, max=9}
wasm.elem {table=0, offset=1}
  x:wasm.funcref = wasm.ref_func {func_name=@q}
  y:wasm.funcref = wasm.ref_func {func_name=@f}
""", None),
    ("parameters do not match", {"f": "i32 i32 -> i32"}, ONE % "b:core.i32 = wasm.i32_sub a a", None),
    ("operation of another dialect", {"f": "i32 -> i32"}, ONE % "b:core.i32 = arith.sub a a", None),
    ("operation of another dialect in a branch", {"f": "i32 -> i32"}, ONE % """n:core.nil = wasm.if a
    b:core.i32 = arith.sub a a
  |
    wasm.unreachable""", None),
    ("unknown operation", {"f": "i32 -> i32"}, ONE % "b:core.i32 = wasm.i32_mystery a a", None),
]

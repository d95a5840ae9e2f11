"""Programs for A22."""
import re
from .a22 import *

NAMED["P2"] = struct("P2", [("x", I), ("y", J)])
NAMED["Q2"] = struct("Q2", [("x", I), ("y", J)])
NAMED["R2"] = struct("R2", [("a", ANY), ("b", ANY)])
NAMED["E"] = enumt("E", [("A", []), ("B", [I]), ("Cc", [I]), ("Dd", [ANY, I])])
NAMED["CL"] = CLOSURE
CASES = []


def c(key, text, **kw):
    text = re.sub(r"\{([^}]*)\}", lambda m: "{" + ", ".join(m[1].replace(",", " ").split()) + "}", text)
    CASES.append(((key, text), kw))


c("calls", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  r:core.i32 = func.call x y {callee=@g}
  s:core.i32 = func.call r x {callee=@g}
  func.return s
func.func {sym_name=@g}
  ^e x:core.i32 y:core.i32
  func.return y
""")
c("struct", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i64
  p:P2 = adt.struct_new x y {type=!P2}
  a:core.i64 = adt.struct_get p {type=!P2 field=1}
  b:core.i32 = adt.struct_get p {type=!P2 field=0}
  adt.struct_set p b {type=!P2 field=0}
  func.return b
""")
c("variants", """
func.func {sym_name=@f}
  ^e e:E
  c:core.i1 = adt.variant_is e {type=!E tag=@B}
  r:core.i32 = scf.if c
    b:E = adt.variant_cast e {type=!E tag=@B}
    v:core.i32 = adt.variant_get b {type=!E tag=@B field=0}
    scf.yield v
  |
    b:E = adt.variant_cast e {type=!E tag=@Cc}
    v:core.i32 = adt.variant_get b {type=!E tag=@Cc field=0}
    scf.yield v
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  e:E = adt.variant_new x {type=!E tag=@B}
  e2:E = adt.variant_new x {type=!E tag=@Cc}
  r:core.i32 = func.call e {callee=@f}
  s:core.i32 = func.call e2 {callee=@f}
  func.return s
""")
NAMED["TR"] = ("ty", S("adt"), S("typeref"), ("seq", ()), ("map", ((S("name"), at("Symbol", S("E"))),)))
NAMED["S1"] = struct("S1", [("x", I)])
NAMED["S1b"] = struct("S1b", [("x", I)])
NAMED["SF"] = struct("SF", [("x", D), ("y", ty("tribute_rt.bool")), ("z", ty("tribute_rt.nat"))])
NAMED["SN"] = struct("SN", [("p", NAMED["S1"]), ("q", NAMED["TR"])])

c("four variants", """
func.func {sym_name=@f}
  ^e e:E z:core.i32
  a:core.i1 = adt.variant_is e {type=!E tag=@A}
  r:core.i32 = scf.if a
    scf.yield z
  |
    b:core.i1 = adt.variant_is e {type=!E tag=@B}
    s:core.i32 = scf.if b
      b1:E = adt.variant_cast e {type=!E tag=@B}
      v:core.i32 = adt.variant_get b1 {type=!E tag=@B field=0}
      scf.yield v
    |
      cc:core.i1 = adt.variant_is e {type=!E tag=@Cc}
      t:core.i32 = scf.if cc
        c1:E = adt.variant_cast e {type=!E tag=@Cc}
        v:core.i32 = adt.variant_get c1 {type=!E tag=@Cc field=0}
        w:core.i32 = func.call e v {callee=@f}
        scf.yield w
      |
        d1:E = adt.variant_cast e {type=!E tag=@Dd}
        v:core.i32 = adt.variant_get d1 {type=!E tag=@Dd field=1}
        u:tribute_rt.anyref = adt.variant_get d1 {type=!E tag=@Dd field=0}
        x:core.i32 = tribute_rt.unbox_int u
        scf.yield x
      scf.yield t
    scf.yield s
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  a:E = adt.variant_new {type=!E tag=@A}
  b:E = adt.variant_new x {type=!E tag=@B}
  cc:E = adt.variant_new x {type=!E tag=@Cc}
  y:tribute_rt.anyref = tribute_rt.box_int x
  d:E = adt.variant_new y x {type=!E tag=@Dd}
  r1:core.i32 = func.call a x {callee=@f}
  r2:core.i32 = func.call b r1 {callee=@f}
  r3:core.i32 = func.call cc r2 {callee=@f}
  r4:core.i32 = func.call d r3 {callee=@f}
  func.return r4
""")
c("variants behind a reference", """
func.func {sym_name=@f}
  ^e e:TR
  c:core.i1 = adt.variant_is e {type=!E tag=@Cc}
  r:core.i32 = scf.if c
    b:TR = adt.variant_cast e {type=!E tag=@Cc}
    v:core.i32 = adt.variant_get b {type=!E tag=@Cc field=0}
    scf.yield v
  |
    b:TR = adt.variant_cast e {type=!E tag=@B}
    v:core.i32 = adt.variant_get b {type=!E tag=@B field=0}
    scf.yield v
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  e:TR = adt.variant_new x {type=!E tag=@B}
  r:core.i32 = func.call e {callee=@f}
  k:TR = adt.variant_new x {type=!E tag=@Cc}
  s:core.i32 = func.call k {callee=@f}
  func.return s
""")
c("variants behind an erased reference", """
func.func {sym_name=@f}
  ^e a:tribute_rt.anyref
  e:TR = core.unrealized_conversion_cast a
  c:core.i1 = adt.variant_is e {type=!E tag=@B}
  r:core.i32 = scf.if c
    b:TR = adt.variant_cast e {type=!E tag=@B}
    v:core.i32 = adt.variant_get b {type=!E tag=@B field=0}
    scf.yield v
  |
    func.unreachable
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  e:TR = adt.variant_new x {type=!E tag=@B}
  a:tribute_rt.anyref = core.unrealized_conversion_cast e
  r:core.i32 = func.call a {callee=@f}
  k:TR = adt.variant_new x {type=!E tag=@Cc}
  a2:tribute_rt.anyref = core.unrealized_conversion_cast k
  s:core.i32 = func.call a2 {callee=@f}
  func.return s
""")
c("structs of the same shape", """
func.func {sym_name=@f}
  ^e x:core.i32 a:tribute_rt.anyref
  p:S1 = adt.struct_new x {type=!S1}
  q:S1b = adt.struct_new x {type=!S1b}
  u:core.i32 = adt.struct_get p {type=!S1 field=0}
  v:core.i32 = adt.struct_get q {type=!S1b field=0}
  w:S1b = core.unrealized_conversion_cast a
  z:core.i32 = adt.struct_get w {type=!S1b field=0}
  y:S1 = adt.ref_cast a {type=!S1}
  k:core.i32 = adt.struct_get y {type=!S1 field=0}
  func.return k
""")
c("fields of every kind", """
func.func {sym_name=@f}
  ^e x:core.f64 y:tribute_rt.bool z:tribute_rt.nat
  p:SF = adt.struct_new x y z {type=!SF}
  a:tribute_rt.nat = adt.struct_get p {type=!SF field=2}
  b:tribute_rt.bool = adt.struct_get p {type=!SF field=1}
  d:core.f64 = adt.struct_get p {type=!SF field=0}
  adt.struct_set p d {type=!SF field=0}
  adt.struct_set p b {type=!SF field=1}
  adt.struct_set p a {type=!SF field=2}
  func.return a
""", sigs={"f": "tribute_rt.nat"})
c("objects in objects", """
func.func {sym_name=@f}
  ^e x:core.i32 t:TR
  p:S1 = adt.struct_new x {type=!S1}
  n:SN = adt.struct_new p t {type=!SN}
  q:S1 = adt.struct_get n {type=!SN field=0}
  r:core.i32 = adt.struct_get q {type=!S1 field=0}
  u:TR = adt.struct_get n {type=!SN field=1}
  adt.struct_set n u {type=!SN field=1}
  adt.struct_set n q {type=!SN field=0}
  func.return r
""")
c("erased fields", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.f64
  a:tribute_rt.anyref = tribute_rt.box_int x
  b:tribute_rt.anyref = tribute_rt.box_float y
  p:R2 = adt.struct_new a b {type=!R2}
  u:tribute_rt.anyref = adt.struct_get p {type=!R2 field=0}
  v:tribute_rt.anyref = adt.struct_get p {type=!R2 field=1}
  k:core.i32 = tribute_rt.unbox_int u
  l:core.f64 = tribute_rt.unbox_float v
  adt.struct_set p v {type=!R2 field=0}
  func.return l
""", sigs={"f": "core.f64"})
for k, t in (("int", "tribute_rt.int"), ("nat", "tribute_rt.nat"), ("bool", "tribute_rt.bool"), ("float", "tribute_rt.float")):
    c("boxes of " + k, f"""
func.func {{sym_name=@f}}
  ^e x:{t}
  a:tribute_rt.anyref = tribute_rt.box_{k} x
  r:tribute_rt.anyref = func.call a {{callee=@id}}
  y:{t} = tribute_rt.unbox_{k} r
  func.return y
func.func {{sym_name=@id}}
  ^e x:tribute_rt.anyref
  func.return x
""", sigs={"f": t, "id": "tribute_rt.anyref"})
c("conversions of numbers", """
func.func {sym_name=@f}
  ^e x:tribute_rt.int y:core.i64
  a:tribute_rt.anyref = core.unrealized_conversion_cast x
  b:tribute_rt.anyref = core.unrealized_conversion_cast y
  r:tribute_rt.anyref = func.call a b {callee=@g}
  z:tribute_rt.int = core.unrealized_conversion_cast r
  w:core.i32 = core.unrealized_conversion_cast z
  func.return w
func.func {sym_name=@g}
  ^e x:tribute_rt.anyref y:tribute_rt.anyref
  func.return y
""", sigs={"g": "tribute_rt.anyref"})
c("conversions of references", """
func.func {sym_name=@f}
  ^e p:S1 a:tribute_rt.anyref i:tribute_rt.intref
  b:tribute_rt.anyref = core.unrealized_conversion_cast p
  q:S1 = core.unrealized_conversion_cast a
  j:tribute_rt.anyref = core.unrealized_conversion_cast i
  x:core.i32 = adt.struct_get q {type=!S1 field=0}
  r:tribute_rt.anyref = func.call b j {callee=@g}
  s:S1 = core.unrealized_conversion_cast r
  y:core.i32 = adt.struct_get s {type=!S1 field=0}
  func.return y
func.func {sym_name=@g}
  ^e x:tribute_rt.anyref y:tribute_rt.anyref
  func.return x
""", sigs={"g": "tribute_rt.anyref"})
c("conversions of nothing", """
func.func {sym_name=@f}
  ^e x:core.i32
  n:core.nil = func.call x {callee=@h}
  a:tribute_rt.anyref = core.unrealized_conversion_cast n
  r:tribute_rt.anyref = func.call a {callee=@g}
  k:core.nil = core.unrealized_conversion_cast r
  func.return k
func.func {sym_name=@g}
  ^e x:tribute_rt.anyref
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return
""", sigs={"f": "core.nil", "g": "tribute_rt.anyref", "h": "core.nil"})
c("null", """
func.func {sym_name=@f}
  ^e a:tribute_rt.anyref
  n:tribute_rt.anyref = adt.ref_null {type=!tribute_rt.anyref}
  c:core.i1 = adt.ref_is_null a
  r:tribute_rt.anyref = scf.if c
    scf.yield n
  |
    scf.yield a
  func.return r
""", sigs={"f": "tribute_rt.anyref"})
c("null struct", """
func.func {sym_name=@f}
  ^e a:S1 x:core.i32
  n:S1 = adt.ref_null {type=!S1}
  c:core.i1 = adt.ref_is_null a
  r:S1 = scf.if c
    scf.yield n
  |
    p:S1 = adt.struct_new x {type=!S1}
    scf.yield p
  func.return r
""", sigs={"f": "S1"})

# ---- functions as values
c("functions as values", """
func.func {sym_name=@zeta}
  ^e x:core.i32 y:core.i32
  func.return x
func.func {sym_name=@alpha}
  ^e x:core.i32 y:core.i32
  func.return y
func.func {sym_name=@f}
  ^e x:core.i32 c:core.i1
  a:core.i32 = func.constant {func_ref=@zeta}
  b:core.i32 = func.constant {func_ref=@alpha}
  a2:core.i32 = func.constant {func_ref=@zeta}
  k:core.i32 = scf.if c
    m:core.i32 = func.constant {func_ref=@mid}
    scf.yield m
  |
    scf.yield a2
  r:core.i32 = func.call_indirect k x x
  s:core.i32 = func.call_indirect a r x
  t:core.i32 = func.call_indirect b s r
  func.return t
func.func {sym_name=@mid}
  ^e x:core.i32 y:core.i32
  func.return y
""")
c("closures", """
func.func {sym_name=@lam}
  ^e env:tribute_rt.anyref x:tribute_rt.anyref
  p:S1 = core.unrealized_conversion_cast env
  k:core.i32 = adt.struct_get p {type=!S1 field=0}
  a:tribute_rt.anyref = tribute_rt.box_int k
  func.return a
func.func {sym_name=@other}
  ^e env:tribute_rt.anyref x:tribute_rt.anyref
  func.return x
func.func {sym_name=@app}
  ^e cl:CL x:tribute_rt.anyref
  t:core.i32 = adt.struct_get cl {type=!CL field=0}
  e:tribute_rt.anyref = adt.struct_get cl {type=!CL field=1}
  r:tribute_rt.anyref = func.call_indirect t e x
  func.return r
func.func {sym_name=@mk}
  ^e x:core.i32
  p:S1 = adt.struct_new x {type=!S1}
  e:tribute_rt.anyref = core.unrealized_conversion_cast p
  t:core.i32 = func.constant {func_ref=@lam}
  cl:CL = adt.struct_new t e {type=!CL}
  u:core.i32 = func.constant {func_ref=@other}
  cm:CL = adt.struct_new u e {type=!CL}
  r:tribute_rt.anyref = func.call cl e {callee=@app}
  s:tribute_rt.anyref = func.call cm r {callee=@app}
  func.return s
""", sigs={k: "tribute_rt.anyref" for k in ("lam", "other", "app", "mk")})
c("functions with numbers as values", """
func.func {sym_name=@fl}
  ^e x:tribute_rt.float y:core.i64
  func.return x
func.func {sym_name=@n}
  ^e x:tribute_rt.nat b:tribute_rt.bool
  func.return
func.func {sym_name=@f}
  ^e x:tribute_rt.float y:core.i64 z:tribute_rt.nat b:tribute_rt.bool
  a:core.i32 = func.constant {func_ref=@fl}
  k:core.i32 = func.constant {func_ref=@n}
  r:tribute_rt.float = func.call_indirect a x y
  s:core.nil = func.call_indirect k z b
  func.return r
""", sigs={"fl": "tribute_rt.float", "n": "core.nil", "f": "tribute_rt.float"})
c("tail calls", """
func.func {sym_name=@f}
  ^e x:core.i32 c:core.i1
  scf.if c
    func.tail_call x x {callee=@g}
  |
    func.tail_call x c {callee=@f}
  func.unreachable
func.func {sym_name=@g}
  ^e x:core.i32 y:core.i32
  t:core.i32 = func.constant {func_ref=@g}
  func.tail_call_indirect t y x {func.indirect_call_signature=!SG}
func.func {sym_name=@h}
  ^e x:core.i32 y:core.i64
  func.tail_call y x {callee=@k}
func.func {sym_name=@k}
  ^e x:core.i64 y:core.i32
  func.return y
""", sigs={"f": "core.nil", "g": "core.nil"})
NAMED["SG"] = functy([I, I], ty("core.nil"))
NAMED["SG2"] = functy([ty("core.f64"), I], ty("core.nil"))
c("tail calls through values", """
func.func {sym_name=@g}
  ^e x:core.f64 y:core.i32
  func.return
func.func {sym_name=@f}
  ^e cl:CL x:core.f64 y:core.i32
  t:core.i32 = adt.struct_get cl {type=!CL field=0}
  func.tail_call_indirect t x y {func.indirect_call_signature=!SG2}
func.func {sym_name=@h}
  ^e x:core.f64 y:core.i32
  func.tail_call x y {callee=@g}
func.func {sym_name=@m}
  ^e e:tribute_rt.anyref
  t:core.i32 = func.constant {func_ref=@g}
  cl:CL = adt.struct_new t e {type=!CL}
  func.return cl
""", sigs={"g": "core.nil", "f": "core.nil", "h": "core.nil", "m": "CL"})

# ---- control
c("if without a value", """
func.func {sym_name=@f}
  ^e x:core.i32 c:core.i1
  scf.if c
    n:core.nil = func.call x {callee=@h}
    scf.yield
  |
    scf.yield
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return
""", sigs={"h": "core.nil"})
c("both arms leave", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32 c:core.i1
  scf.if c
    func.return x
  |
    r:core.i32 = func.call y {callee=@g}
    func.return r
  func.unreachable
func.func {sym_name=@g}
  ^e y:core.i32
  func.return y
""")
c("one arm leaves", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32 c:core.i1
  r:core.i32 = scf.if c
    func.return x
  |
    scf.yield y
  s:core.i32 = func.call r {callee=@g}
  func.return s
func.func {sym_name=@g}
  ^e y:core.i32
  func.return y
""")
c("values over branches", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32 c:core.i1
  a:core.i32 = func.call x {callee=@g}
  r:core.i32 = scf.if c
    scf.yield a
  |
    b:core.i32 = func.call a {callee=@g}
    s:core.i32 = scf.if c
      scf.yield b
    |
      scf.yield y
    d:core.i32 = func.call s {callee=@g}
    scf.yield a
  t:core.i32 = func.call r {callee=@g}
  func.return a
func.func {sym_name=@g}
  ^e y:core.i32
  func.return y
""")
c("loop", """
func.func {sym_name=@f}
  ^e x:core.i32
  r:core.i32 = scf.loop x
    ^b i:core.i32
    c:core.i1 = func.call i {callee=@g}
    scf.if c
      scf.break i
    |
      j:core.i32 = func.call i {callee=@h}
      scf.continue j
    func.unreachable
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return x
""", sigs={"g": "core.i1"})
c("constants", """
func.func {sym_name=@f}
  ^e x:core.i32
  a:core.i32 = arith.const {value=7}
  b:core.i64 = arith.const {value=-9}
  d:tribute_rt.nat = arith.const {value=1}
  e:tribute_rt.bool = arith.const {value=0}
  s:core.i32 = arith.addi x a
  r:core.i32 = func.call s b d e {callee=@g}
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32 y:core.i64 z:tribute_rt.nat b:tribute_rt.bool
  func.return x
""")
c("loop in a loop", """
func.func {sym_name=@f}
  ^e x:core.i32
  r:core.i32 = scf.loop x
    ^b i:core.i32
    s:core.i32 = scf.loop i
      ^b2 j:core.i32
      c:core.i1 = func.call j {callee=@g}
      scf.if c
        scf.break j
      |
        k:core.i32 = func.call j {callee=@h}
        scf.continue k
      func.unreachable
    d:core.i1 = func.call s {callee=@g}
    scf.if d
      scf.break s
    |
      scf.continue s
    func.unreachable
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return x
""", sigs={"g": "core.i1"})
c("a field passed on", """
func.func {sym_name=@f}
  ^e n:SN
  u:TR = adt.struct_get n {type=!SN field=1}
  q:S1 = adt.struct_get n {type=!SN field=0}
  m:SN = adt.struct_new q u {type=!SN}
  func.return m
""", sigs={"f": "SN"})
c("references through calls", """
func.func {sym_name=@mk}
  ^e x:TR
  func.return x
func.func {sym_name=@f}
  ^e a:TR
  b:TR = func.call a {callee=@mk}
  d:TR = func.call b {callee=@mk}
  func.return d
func.func {sym_name=@g}
  ^e a:TR c:core.i1
  b:TR = scf.if c
    d:TR = func.call a {callee=@mk}
    scf.yield d
  |
    scf.yield a
  d:TR = func.call b {callee=@f}
  func.return d
""", sigs={"mk": "TR", "f": "TR", "g": "TR"})
c("a break at other depths", """
func.func {sym_name=@f}
  ^e x:core.i32
  r:core.i32 = scf.loop x
    ^b i:core.i32
    c:core.i1 = func.call i {callee=@g}
    scf.if c
      d:core.i1 = func.call x {callee=@g}
      scf.if d
        scf.break i
      |
        scf.continue x
      func.unreachable
    |
      j:core.i32 = func.call i {callee=@h}
      scf.continue j
    func.unreachable
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return x
""", sigs={"g": "core.i1"})
c("a loop that goes on at its end", """
func.func {sym_name=@f}
  ^e x:core.i32
  r:core.i32 = scf.loop x
    ^b i:core.i32
    c:core.i1 = func.call i {callee=@g}
    scf.if c
      scf.break i
    |
      j:core.i32 = func.call i {callee=@h}
      scf.yield
    scf.continue i
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  func.return x
func.func {sym_name=@h}
  ^e x:core.i32
  func.return x
""", sigs={"g": "core.i1"})


# ---- the entry point
def plain_start(w):
    def go(r):
        r.ev("Call", "main", ())
        r.ev("Return", ())
    return go


def evidence_start(w):
    ts = {num(i.p[0]) for i in w.im.code[w.idx["_start"] - len(w.im.imports)][1] if i.n in ("ArrayNewDefault", "ArrayNewFixed")}
    if len(ts) != 1:
        raise Unclear("how the empty evidence is made")
    t = ts.pop()
    el = w.im.types[t]
    if el[0] != "array":
        raise Bad("the evidence of main is not an array")

    def go(r):
        z = ("I32Const", (C(0),), ())
        e = r.ev("ArrayNewDefault", (t,), (z,))
        r.facts.add((e, "array"))
        r.facts.add((e, t))
        r.ev("Call", "main", (e,))
        r.ev("Return", ())
    return go


MAIN = """
func.func {sym_name=@main}
  ^e
  n:core.nil = func.call {callee=@g}
  func.return n
func.func {sym_name=@g}
  ^e
  func.return
"""
c("entry point", MAIN, sigs={"main": "core.nil", "g": "core.nil"}, start=plain_start)
c("entry point with a number", """
func.func {sym_name=@main}
  ^e
  n:core.i32 = func.call {callee=@g}
  func.return
func.func {sym_name=@g}
  ^e
  a:core.i32 = arith.const {value=3}
  func.return a
func.func {sym_name=@maintain}
  ^e a:core.i32
  func.return a
""", sigs={"main": "core.nil", "g": "core.i32"}, start=plain_start)
c("entry point with evidence", """
func.func {sym_name=@main tribute.calling_convention=1}
  ^e ev:core.array
  n:core.nil = func.call ev {callee=@g}
  func.return n
func.func {sym_name=@g}
  ^e ev:core.array
  func.return
""", sigs={"main": "core.nil", "g": "core.nil"}, start=evidence_start)


def step_start(w):
    def go(r):
        x = r.ev("Call", "main", ())
        r.facts.add((x, "struct"))
        r.facts.add((x, w.tmap[("s", STEP)]))
        t = r.ev("StructGet", (w.tmap[("s", STEP)], 0), (x,))
        if r.truth(("I32Eq", (), (t, ("I32Const", (C(0),), ())))):
            r.ev("Return", ())
        else:
            r.ev("Unreachable", ())
    return go


STEP = struct("_Step", [("tag", I), ("value", ty("wasm.anyref")), ("prompt", I), ("op_idx", I)])
NAMED["STEP"] = STEP
c("entry point that may leave an effect", """
func.func {sym_name=@main}
  ^e
  a:core.i32 = arith.const {value=1}
  b:core.i32 = arith.const {value=2}
  d:core.i32 = arith.const {value=3}
  e:wasm.anyref = func.call a {callee=@g}
  s:STEP = adt.struct_new a e b d {type=!STEP}
  func.return s
func.func {sym_name=@g}
  ^e a:core.i32
  s:wasm.anyref = adt.ref_null {type=!wasm.anyref}
  func.return s
""", sigs={"main": "STEP", "g": "wasm.anyref"}, start=step_start)

"""Programs for A27."""
import re
from . import a27
from engine.irtrace import NAMED, ty, attr
from .a13 import struct

I, J, F, ANY, NEVER = ty("core.i32"), ty("core.i64"), ty("core.f64"), ty("tribute_rt.anyref"), ty("core.never")
CASES = []


def c(key, text, **kw):
    text = re.sub(r"\{([^}]*)\}", lambda m: "{" + ", ".join(m[1].replace(",", " ").split()) + "}", text)
    CASES.append(((key, text), kw))


def cl(n, *a, **k):
    NAMED[n] = a27.clo(*a, **k)
    return NAMED[n]


cl("K1", [I], I)
c("no captures, called", """
func.func {sym_name=@f}
  ^e x:core.i32
  k:K1 = closure.lambda
    ^l p:core.i32
    q:core.i32 = func.call p {callee=@g}
    func.return q
  r:core.i32 = func.call_indirect k x
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  func.return x
""")
cl("K2", [I, J], I)
cl("KA", [ANY], ANY)
cl("K0", [], I)
cl("KK", [I], NAMED["K1"])
cl("KH", [NAMED["K1"], I], I)
cl("KAI", [ANY], I)
c("captures of several types, in order", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i64 z:core.f64
  k:K2 = closure.lambda z x y
    ^l p:core.i32 q:core.i64
    r:core.i32 = func.call x y z p q {callee=@g}
    func.return r
  r:core.i32 = func.call_indirect k x y
  s:core.i32 = func.call_indirect k r y
  func.return s
""")
c("a capture twice, captures not used, results captured", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32 z:core.i32
  a:core.i32 = t.make x
  b:core.i32 = t.make y
  k:K1 = closure.lambda y a b a x
    ^l p:core.i32
    r:core.i32 = t.use a p b
    t.show x
    func.return r
  t.between
  r:core.i32 = func.call_indirect k z
  func.return r
""")
c("a closure that leaves: returned", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:K1 = closure.lambda y x
    ^l p:core.i32
    r:core.i32 = t.use x y p
    func.return r
  func.return k
""", sigs={"f": "K1"})
c("closures that leave: two passed on, one called", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.first x p
    func.return r
  m:K1 = closure.lambda y
    ^l p:core.i32
    r:core.i32 = t.second y p
    func.return r
  n:K1 = closure.lambda x y
    ^l p:core.i32
    r:core.i32 = t.third p y x
    func.return r
  q:core.i32 = func.call m k x {callee=@g}
  w:core.i32 = func.call_indirect n q
  t.keep m
  func.return w
func.func {sym_name=@g}
  ^e a:K1 b:K1 x:core.i32
  r:core.i32 = func.call_indirect b x
  s:core.i32 = func.call_indirect a r
  func.return s
""")
c("currying: a lambda in a lambda", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:KK = closure.lambda x y
    ^l p:core.i32
    a:core.i32 = t.inner x p
    m:K1 = closure.lambda p y a
      ^l2 q:core.i32
      r:core.i32 = t.use p q a y
      func.return r
    func.return m
  m:K1 = func.call_indirect k x
  r:core.i32 = func.call_indirect m y
  func.return k
""", sigs={"f": "KK"})
c("three levels, captures passed through", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:KK = closure.lambda y x
    ^l p:core.i32
    m:K1 = closure.lambda x p y
      ^l2 q:core.i32
      n:K1 = closure.lambda q x
        ^l3 s:core.i32
        r:core.i32 = t.deep x q s
        func.return r
      u:core.i32 = func.call_indirect n y
      v:core.i32 = t.mid u p
      func.return v
    func.return m
  func.return k
""", sigs={"f": "KK"})
c("two lambdas in a lambda, one after another", """
func.func {sym_name=@f}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    a:K1 = closure.lambda p
      ^l2 q:core.i32
      r:core.i32 = t.a p q
      func.return r
    b:K1 = closure.lambda x a
      ^l3 q:core.i32
      t1:core.i32 = func.call_indirect a q
      r:core.i32 = t.b x t1
      func.return r
    r:core.i32 = func.call_indirect b p
    func.return r
  func.return k
""", sigs={"f": "K1"})
c("lambdas in several functions", """
func.func {sym_name=@f}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.in_f x p
    func.return r
  func.return k
func.func {sym_name=@g}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.in_g p x
    func.return r
  m:K1 = closure.lambda x
    ^l2 p:core.i32
    r:core.i32 = t.in_g2 p x
    func.return r
  r:core.i32 = func.call_indirect m x
  func.return k
func.func {sym_name=@h}
  ^e x:core.i32
  k:K1 = func.call x {callee=@f}
  m:K1 = func.call x {callee=@g}
  r:core.i32 = func.call_indirect k x
  s:core.i32 = func.call_indirect m r
  func.return s
""", sigs={"f": "K1", "g": "K1"})
c("a body of several blocks", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:K1 = closure.lambda y x
    ^l p:core.i32
    c:core.i1 = t.test p x
    cf.cond_br c -> ^a ^b
    ^a
    u:core.i32 = t.left x
    cf.br u p -> ^j
    ^b
    w:core.i32 = t.right y
    cf.br p w -> ^j
    ^j m:core.i32 n:core.i32
    r:core.i32 = t.join m n y
    func.return r
  r:core.i32 = func.call_indirect k x
  func.return k
""", sigs={"f": "K1"})
c("a body with structured control", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i32
  k:K1 = closure.lambda y x
    ^l p:core.i32
    c:core.i1 = t.test p x
    r:core.i32 = scf.if c
      u:core.i32 = t.left x p
      scf.yield u
    |
      m:K1 = closure.lambda y p
        ^l2 q:core.i32
        z:core.i32 = t.in y q p
        func.return z
      w:core.i32 = func.call_indirect m x
      scf.yield w
    func.return r
  func.return k
""", sigs={"f": "K1"})
c("lambdas in branches and loops", """
func.func {sym_name=@f}
  ^e c:core.i1 x:core.i32 y:core.i32
  k:K1 = scf.if c
    a:K1 = closure.lambda x
      ^l p:core.i32
      r:core.i32 = t.left x p
      func.return r
    scf.yield a
  |
    b:K1 = closure.lambda y
      ^l2 p:core.i32
      r:core.i32 = t.right y p
      func.return r
    scf.yield b
  w:core.i32 = scf.loop x y
    ^h i:core.i32 j:core.i32
    m:K1 = closure.lambda j k i
      ^l3 p:core.i32
      s:core.i32 = func.call_indirect k p
      r:core.i32 = t.looped i j s
      func.return r
    n:core.i32 = func.call_indirect m i
    d:core.i1 = t.done n
    scf.if d
      scf.break n
    |
      scf.continue n i
  t.after w
  func.return k
""", sigs={"f": "K1"})
c("a closure captures a closure and calls it", """
func.func {sym_name=@f}
  ^e g:K1 x:core.i32
  a:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.a x p
    func.return r
  b:K1 = closure.lambda a g x
    ^l2 p:core.i32
    u:core.i32 = func.call_indirect a p
    w:core.i32 = func.call_indirect g u
    r:core.i32 = t.b w x
    func.return r
  r:core.i32 = func.call_indirect b x
  func.return b
""", sigs={"f": "K1"})
NAMED["FN1"] = a27.functy([I], I)
NAMED["FN2"] = a27.functy([I, J], ANY)
c("function parameters become closures", """
func.func {sym_name=@app}
  ^e x:core.i32 f:FN1 y:core.i64 g:FN2
  r:core.i32 = func.call_indirect f x
  s:tribute_rt.anyref = func.call_indirect g r y
  t.show s
  q:core.i32 = func.call_indirect f r
  func.return q
func.func {sym_name=@use}
  ^e x:core.i32 y:core.i64
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.k x p
    func.return r
  m:K2 = closure.lambda
    ^l2 p:core.i32 q:core.i64
    r:core.i32 = t.m q p
    func.return r
  r:core.i32 = func.call x k y m {callee=@app}
  func.return r
func.func {sym_name=@plain}
  ^e x:core.i32
  func.return x
""")
c("function parameters with attributes", """
func.func {sym_name=@app abi=@C extra=7}
  ^e f:FN1 x:core.i32
  r:core.i32 = func.call_indirect f x
  func.return r
func.func {sym_name=@cps tribute.calling_convention=2}
  ^e f:FN1 x:core.i32
  r:core.i32 = func.call_indirect f x
  func.return r
""")
c("function values called directly stay so", """
func.func {sym_name=@f}
  ^e x:core.i32
  k:FN1 = func.constant {func_ref=@g}
  r:core.i32 = func.call_indirect k x
  func.return r
func.func {sym_name=@g}
  ^e x:core.i32
  r:core.i32 = t.g x
  func.return r
""")
c("the result of an unknown call is called", """
func.func {sym_name=@f}
  ^e x:core.i32 h:KK
  k:K1 = func.call x {callee=@g}
  r:core.i32 = func.call_indirect k x
  m:K1 = func.call_indirect h r
  s:core.i32 = func.call_indirect m r
  func.return s
func.func {sym_name=@g}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.return r
  func.return k
""", sigs={"g": "K1"})
c("a result of another type than the caller takes", """
func.func {sym_name=@f}
  ^e x:tribute_rt.anyref h:KA
  r:core.i32 = func.call_indirect h x
  t.show r
  k:KA = closure.lambda x
    ^l p:tribute_rt.anyref
    q:tribute_rt.anyref = t.k p x
    func.return q
  s:core.i32 = func.call_indirect k x
  t.show s
  func.return s
""")
c("closures as arguments of closures", """
func.func {sym_name=@f}
  ^e h:KH x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    q:core.i32 = t.k p x
    func.return q
  m:KH = closure.lambda x
    ^l2 g:K1 p:core.i32
    q:core.i32 = func.call_indirect g p
    r:core.i32 = t.m q x
    func.return r
  r:core.i32 = func.call_indirect m k x
  s:core.i32 = func.call_indirect h k r
  func.return s
""")
c("no parameters", """
func.func {sym_name=@f}
  ^e h:K0 x:core.i32
  k:K0 = closure.lambda x
    ^l
    q:core.i32 = t.k x
    func.return q
  r:core.i32 = func.call_indirect k
  s:core.i32 = func.call_indirect h
  func.return s
""")
c("the evidence of the caller", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 h:K1
  k:K1 = closure.lambda x
    ^l p:core.i32
    q:core.i32 = func.call ev p x {callee=@g}
    func.return q
  r:core.i32 = func.call_indirect k x
  s:core.i32 = func.call_indirect h r
  func.return k
func.func {sym_name=@g}
  ^e ev:EV x:core.i32 y:core.i32
  k:K1 = func.call ev x {callee=@f2}
  r:core.i32 = func.call_indirect k x
  func.return r
func.func {sym_name=@n}
  ^e x:core.i32 ev:EV h:K1
  k:K1 = closure.lambda x
    ^l2 p:core.i32
    q:core.i32 = func.call_indirect h p
    func.return q
  m:K1 = closure.lambda x h
    ^l3 p:core.i32
    q:core.i32 = func.call_indirect h p
    func.return q
  r:core.i32 = func.call_indirect m x
  s:core.i32 = func.call_indirect h r
  func.return m
""".replace("""  k:K1 = closure.lambda x
    ^l2 p:core.i32
    q:core.i32 = func.call_indirect h p
    func.return q
""", ""), sigs={"f": "K1", "n": "K1"})
c("evidence in nested lambdas", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 h:K1
  k:KK = closure.lambda x h
    ^l p:core.i32
    a:core.i32 = t.perform ev p
    m:K1 = closure.lambda h p
      ^l2 q:core.i32
      b:core.i32 = t.perform ev q
      s:core.i32 = func.call_indirect h b
      func.return s
    u:core.i32 = func.call_indirect m a
    func.return m
  n:K1 = func.call_indirect k x
  r:core.i32 = func.call_indirect n x
  func.return k
""", sigs={"f": "KK"})
c("evidence captured where the lambda is made", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 h:K1
  k:K1 = closure.lambda x ev h
    ^l p:core.i32
    a:core.i32 = t.perform ev p
    s:core.i32 = func.call_indirect h a
    func.return s
  r:core.i32 = func.call_indirect k x
  func.return k
""", sigs={"f": "K1"})
c("a closure from a function and an environment", """
func.func {sym_name=@lift}
  ^e ev:EV env:tribute_rt.anyref p:core.i32
  r:core.i32 = t.lifted ev env p
  func.return r
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 en:tribute_rt.anyref
  k:K1 = closure.new en {func_ref=@lift}
  r:core.i32 = func.call_indirect k x
  func.return k
func.func {sym_name=@g}
  ^e x:core.i32 en:tribute_rt.anyref
  k:K1 = closure.new en {func_ref=@lift}
  r:core.i32 = func.call_indirect k x
  func.return r
""", sigs={"f": "K1"})
# ---- tagged closures: the type says where the environment goes
cl("D1", [I], I, 0)
cl("D2", [I, J], I, 0)
c("direct convention", """
func.func {sym_name=@f}
  ^e h:D2 x:core.i32 y:core.i64
  k:D2 = closure.lambda y x {tribute.calling_convention=0}
    ^l p:core.i32 q:core.i64
    r:core.i32 = t.k p q x y
    func.return r
  r:core.i32 = func.call_indirect k x y {tribute.calling_convention=0}
  s:core.i32 = func.call_indirect h r y {tribute.calling_convention=0}
  func.return k
""", sigs={"f": "D2"})
c("direct convention without captures, nested", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i64
  k:D1 = closure.lambda {tribute.calling_convention=0}
    ^l p:core.i32
    m:D1 = closure.lambda p {tribute.calling_convention=0}
      ^l2 q:core.i32
      r:core.i32 = t.m q p
      func.return r
    s:core.i32 = func.call_indirect m p {tribute.calling_convention=0}
    func.return s
  r:core.i32 = func.call_indirect k x {tribute.calling_convention=0}
  func.return k
""", sigs={"f": "D1"})


def evidence_types():
    EV = NAMED["EV"]
    cl("E1", [EV, I], I, 1)
    cl("E0", [EV, I], I)
    cl("C1", [EV, ANY, I], NEVER, 2)
    cl("C0", [I], NEVER, 2, idx=0)
    cl("CF", [EV, NAMED["C0"], I], NEVER, 2, idx=1)
    cl("C2", [EV, ANY, I], NEVER, 2, idx=2)


c("evidence convention", """
func.func {sym_name=@f}
  ^e ev:EV h:E1 x:core.i32
  k:E1 = closure.lambda x {tribute.calling_convention=1}
    ^l e2:EV p:core.i32
    r:core.i32 = t.k e2 p x
    func.return r
  r:core.i32 = func.call_indirect k ev x {tribute.calling_convention=1}
  s:core.i32 = func.call_indirect h ev r {tribute.calling_convention=1}
  func.return k
""", sigs={"f": "E1"})
c("continuations: environment first", """
func.func {sym_name=@f tribute.calling_convention=2}
  ^e ev:EV d:C0 x:core.i32 c:core.i1
  k:C0 = closure.lambda d x {tribute.calling_convention=2}
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.tail_call_indirect d r {tribute.calling_convention=2}
  scf.if c
    func.tail_call_indirect k x {tribute.calling_convention=2}
  |
    func.tail_call ev k x {callee=@g}
func.func {sym_name=@g tribute.calling_convention=2}
  ^e ev:EV d:C0 x:core.i32
  func.tail_call_indirect d x {tribute.calling_convention=2}
""", sigs={"f": "core.never", "g": "core.never"})
c("continuations as arguments of control functions", """
func.func {sym_name=@f tribute.calling_convention=2}
  ^e ev:EV d:C0 x:core.i32 h:CF
  k:C0 = closure.lambda d x {tribute.calling_convention=2}
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.tail_call_indirect d r {tribute.calling_convention=2}
  func.tail_call_indirect h ev k x {tribute.calling_convention=2}
func.func {sym_name=@g tribute.calling_convention=2}
  ^e ev:EV d:C0 x:core.i32
  m:CF = closure.lambda x {tribute.calling_convention=2}
    ^l2 e2:EV d2:C0 p:core.i32
    r:core.i32 = t.m e2 p x
    func.tail_call_indirect d2 r {tribute.calling_convention=2}
  k:C0 = closure.lambda d x {tribute.calling_convention=2}
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.tail_call_indirect d r {tribute.calling_convention=2}
  func.tail_call_indirect m ev k x {tribute.calling_convention=2}
func.func {sym_name=@h tribute.calling_convention=2}
  ^e ev:EV a:tribute_rt.anyref x:core.i32 h:C1 j:C2 c:core.i1
  scf.if c
    func.tail_call_indirect h ev a x {tribute.calling_convention=2}
  |
    func.tail_call_indirect j ev a x {tribute.calling_convention=2}
""", sigs={"f": "core.never", "g": "core.never", "h": "core.never"})
c("an environment at the end", """
func.func {sym_name=@f tribute.calling_convention=2}
  ^e ev:EV a:tribute_rt.anyref x:core.i32
  k:C2 = closure.lambda x a {tribute.calling_convention=2}
    ^l e2:EV b:tribute_rt.anyref p:core.i32
    r:core.i32 = t.k e2 b p x a
    func.tail_call r {callee=@stop}
  func.tail_call_indirect k ev a x {tribute.calling_convention=2}
""", sigs={"f": "core.never"})
cl("U1", [I], I)


c("the convention is on the operations only", """
func.func {sym_name=@f}
  ^e x:core.i32 ev:EV h:K1
  k:K1 = closure.lambda x {tribute.calling_convention=0}
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.return r
  r:core.i32 = func.call_indirect k x {tribute.calling_convention=0}
  s:core.i32 = func.call_indirect h r {tribute.calling_convention=0}
  func.return k
func.func {sym_name=@g}
  ^e ev:EV x:core.i32 h:E0
  k:E0 = closure.lambda x {tribute.calling_convention=1}
    ^l2 e2:EV p:core.i32
    r:core.i32 = t.k p e2 x
    func.return r
  r:core.i32 = func.call_indirect k ev x {tribute.calling_convention=1}
  s:core.i32 = func.call_indirect h ev r {tribute.calling_convention=1}
  func.return k
""", sigs={"f": "K1", "g": "E0"})
NAMED["P2"] = struct("P2", [("x", I), ("y", J)])
c("structs of the program", """
func.func {sym_name=@f}
  ^e x:core.i32 y:core.i64
  p:P2 = adt.struct_new x y {type=!P2}
  k:K1 = closure.lambda p x
    ^l q:core.i32
    a:core.i32 = adt.struct_get p {type=!P2 field=0}
    r:core.i32 = t.k a q x
    func.return r
  r:core.i32 = func.call_indirect k x
  func.return k
""", sigs={"f": "K1"})
c("functions of nested modules", """
core.module {sym_name=@a}
  func.func {sym_name=@fa}
    ^e x:core.i32
    k:K1 = closure.lambda x
      ^l p:core.i32
      r:core.i32 = t.in_a x p
      func.return r
    r:core.i32 = func.call_indirect k x
    func.return r
func.func {sym_name=@f}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l2 p:core.i32
    r:core.i32 = t.in_f x p
    func.return r
  func.return k
""", sigs={"f": "K1"})
c("declarations with function parameters", """
func.func {sym_name=@ext abi=@C}
func.func {sym_name=@f}
  ^e x:core.i32
  k:K1 = closure.lambda x
    ^l p:core.i32
    r:core.i32 = t.k p x
    func.return r
  r:core.i32 = func.call k x {callee=@ext}
  func.return r
""", attrs={"func.func": {"type": a27.at("Type", a27.functy([NAMED["FN1"], I], I))}})

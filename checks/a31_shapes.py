"""Modules for A31."""
import re
from .a31 import *

CASES, CONTRACTS = [], []
F2, J = ty("core.f64"), ty("core.i64")


def t_(s):
    s = re.sub(r"\bCC=", CC + "=", s)
    s = re.sub(r"\bIDX=", IDX + "=", s)
    s = re.sub(r"\bSIG=", SIG + "=", s)
    s = re.sub(r"\bEXPORT=", EXPORT + "=", s)
    s = re.sub(r"\bRESULT=", RESULT + "=", s)
    return re.sub(r"\{([^}]*)\}", lambda m: "{" + ", ".join(m[1].replace(",", " ").split()) + "}", s)


def c(key, path, text, **kw):
    CASES.append(((key, path, t_(text)), kw))


def phys_(key, text, **kw):
    c(key, PHYS, text, ok=ok_phys, **kw)


def no(key, text, path=PHYS, **kw):
    c(key, path, text, refuse="the module is accepted", **kw)


def cl(n, *a, **k):
    NAMED[n] = clo(*a, **k)
    return NAMED[n]


def fn(n, ps, r):
    NAMED[n] = functy(ps, r)
    return NAMED[n]


K = cl("K", [I], NEVER, 2)                     # a continuation
KJ = cl("KJ", [J, K], NEVER, 2)                # one that takes another
D0 = cl("D0", [I], NEVER, 0)                   # direct: stays
E1 = cl("E1", [I, K], I, 1)                    # evidence direct with a continuation inside
DK = cl("DK", [K], NEVER, 0)
NAMED["BOX"] = struct("Box", [("k", K), ("n", I)])
NAMED["BOX2"] = struct("Box2", [("b", NAMED["BOX"]), ("d", D0), ("e", E1)])
fn("F_I", [I], I)
fn("F_IN", [I], NEVER)
fn("F_KN", [I, K], NEVER)
fn("F_AKN", [ANY, K], NEVER)
fn("F_AIN", [ANY, I], NEVER)
fn("F_EAN", [I, ANY, K], NEVER)
fn("F_KI", [K], I)
fn("F_KJ", [K, J], NAMED["BOX"])
fn("FD_N", [], NEVER)

# ---- signatures -----------------------------------------------------------------------------------------------------------------
phys_("functions of every convention", """
func.func {sym_name=@cps CC=2}
  ^e x:core.i32 k:K
  func.unreachable
func.func {sym_name=@direct CC=0}
  ^e x:core.i32 k:K
  func.unreachable
func.func {sym_name=@evidence CC=1}
  ^e x:core.i32 k:K
  func.unreachable
func.func {sym_name=@plain}
  ^e x:core.i32 k:K
  y:core.i32 = func.call x {callee=@other}
  func.return y
func.func {sym_name=@declared CC=2}
func.func {sym_name=@value CC=0}
  ^e k:KJ
  func.return k
""", sigs={"cps": "core.never", "direct": "core.never", "evidence": "core.never", "plain": "core.i32", "declared": "core.never core.i32 K",
           "value": "KJ"})
phys_("tail calls of a function and of a closure", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  func.tail_call x k {callee=@g CC=2}
func.func {sym_name=@g CC=2}
  ^e x:core.i32 k:K
  func.tail_call_indirect k x {SIG=!F_IN CC=2}
""")
phys_("transfers in branches", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 c:core.i1 k:K
  scf.if c
    func.tail_call x k {callee=@g CC=2}
  |
    scf.if c
      func.tail_call_indirect k x {SIG=!F_IN CC=2}
    |
      func.tail_call x k {callee=@g CC=2}
func.func {sym_name=@g CC=2}
  ^e x:core.i32 k:K
  func.unreachable
""")
phys_("calls of direct functions and closures", """
func.func {sym_name=@f CC=0}
  ^e x:core.i32 k:K e:E1 d:DK
  y:core.i32 = func.call x k {callee=@g CC=1}
  z:core.i32 = func.call_indirect e y {SIG=!F_I CC=1}
  n:core.never = func.call_indirect d k {SIG=!F_KNV CC=0}
  w:core.i32 = func.call_indirect e y k
  v:core.i32 = func.call y k {callee=@unknown}
  func.return z
func.func {sym_name=@g CC=1}
  ^e x:core.i32 k:K
  func.return x
""", sigs={"f": "core.i32", "g": "core.i32"})
fn("F_KNV", [K], NEVER)
phys_("references to functions", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  a:F_KN = func.constant {func_ref=@f}
  b:F_KE = func.constant {func_ref=@first}
  m:F_KE = func.constant {func_ref=@middle}
  d:FDK = func.constant {func_ref=@direct}
  u:F_KI = func.constant {func_ref=@unknown}
  t.use a b m d u
  func.unreachable
func.func {sym_name=@first CC=2}
  ^e __env1:tribute_rt.anyref x:core.i32 k:K
  func.unreachable
func.func {sym_name=@middle CC=2}
  ^e x:core.i32 __env2:tribute_rt.anyref k:K
  func.unreachable
func.func {sym_name=@direct CC=0}
  ^e __env3:tribute_rt.anyref k:K
  func.unreachable
func.func {sym_name=@declared CC=2 IDX=1}
  ^e x:core.i32 __env4:tribute_rt.anyref k:K
  func.unreachable
func.func {sym_name=@import CC=2 IDX=0}
""", sigs={"direct": "core.never", "import": "core.never tribute_rt.anyref K"})
fn("F_KE", [I, K], NEVER)
fn("FDK", [K], NEVER)
phys_("types in results, arguments and attributes", """
func.func {sym_name=@f CC=2}
  ^e b:BOX c:core.i1 k:K
  p:K = adt.struct_get b {type=!BOX field=0}
  q:BOX2 = t.make p {type=!BOX2 other=!D0}
  r:BOX t:KJ = t.two q {value=7 name=@x}
  s:BOX = scf.if c
    x:K = t.one
    t.inner x {type=!E1}
    scf.yield r
  |
    scf.yield b
  cf.br s -> ^next
  ^next y:BOX
  scf.loop
    ^l z:KJ w:core.i32
    t.body z {type=!BOX2}
    scf.continue z
  func.tail_call y c k {callee=@f CC=2}
func.func {sym_name=@untagged}
  ^e b:BOX k:KJ
  func.return b
func.func {sym_name=@extern abi=@C}
""", sigs={"untagged": "BOX", "extern": "BOX2 KJ"})
phys_("lists of types in attributes", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32
  t.list x
  func.unreachable
""", attrs=lambda: {"t.list": {"types": at("List", ("seq", (at("Type", K), at("Int", C(3)), at("List", ("seq", (at("Type", NAMED["BOX2"]), at("Type", I)))),
                                                            at("Type", D0))))}})
phys_("modules inside modules", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  func.tail_call x k {callee=@f CC=2}
core.module {sym_name=@inner}
  func.func {sym_name=@f CC=0}
    ^e x:core.i32
    y:core.i32 = func.call x {callee=@f CC=0}
    g:F_I = func.constant {func_ref=@f}
    func.return y
  func.func {sym_name=@other CC=2}
    ^e x:core.i32
    func.tail_call x {callee=@other CC=2}
func.func {sym_name=@other CC=2}
  ^e k:K
  func.tail_call k {callee=@other CC=2}
""", sigs={"f": "core.never", "func.func.2": "core.i32"})
phys_("named types", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  func.unreachable
""", aliases=("K", "BOX2", "D0", "F_I", "KJ"))
no("named types that do not fit", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  func.unreachable
""", aliases=("K", "FDK"))
phys_("a module without conventions", """
func.func {sym_name=@f}
  ^e x:core.i32 k:K
  y:core.i32 = func.call x k {callee=@f}
  func.return y
""", sigs={"f": "core.i32"})

two = """
func.func {sym_name=@f CC=%s}
  ^e x:core.i32 k:K
  %s
func.func {sym_name=@g CC=%s}
  ^e x:core.i32 k:K
  func.unreachable
"""


def pair(key, cf, line, cg, fret="core.never", gret="core.never", f=no, **kw):
    f(key, two % (cf, line, cg), sigs={"f": fret, "g": gret}, **kw)


pair("a Cps function with a result", 2, "func.return x", 2, fret="core.i32")
pair("a Cps function with a result, declared", 2, "func.unreachable", 2, gret="core.nil")
pair("a Cps function is called", 2, "y:core.never = func.call x k {callee=@g CC=2}", 2)
pair("a call with another convention", 0, "y:core.i32 = func.call x k {callee=@g CC=1}", 0, gret="core.i32")
pair("a tail call with another convention", 2, "func.tail_call x k {callee=@g CC=2}", 1)
pair("operands do not fit: one missing", 2, "func.tail_call x {callee=@g CC=2}", 2)
pair("operands do not fit: order", 2, "func.tail_call k x {callee=@g CC=2}", 2)
pair("operands do not fit: one too many", 2, "func.tail_call x k x {callee=@g CC=2}", 2)
pair("a result that does not fit", 0, "y:core.i64 = func.call x k {callee=@g CC=0}", 0, gret="core.i32")
pair("a direct function ends in a Cps tail call", 0, "func.tail_call x k {callee=@g CC=2}", 2, fret="core.never")
no("an untagged function ends in a Cps tail call", """
func.func {sym_name=@f}
  ^e x:core.i32 k:K
  func.tail_call x k {callee=@g CC=2}
func.func {sym_name=@g CC=2}
  ^e x:core.i32 k:K
  func.unreachable
""", sigs={"f": "core.i32"})
pair("a tail call of a direct function", 2, "func.tail_call x k {callee=@g CC=0}", 0)
pair("an unknown function", 2, "func.tail_call x k {callee=@h CC=2}", 2)
pair("a closure is called directly", 2, "y:core.never = func.call_indirect k x {SIG=!F_IN CC=2}", 2)
pair("an indirect transfer without convention", 2, "func.tail_call_indirect k x {SIG=!F_IN}", 2)
pair("an indirect transfer without signature", 2, "func.tail_call_indirect k x {CC=2}", 2)
pair("an indirect transfer with other operands", 2, "func.tail_call_indirect k k {SIG=!F_IN CC=2}", 2)
pair("an indirect transfer of another result", 2, "func.tail_call_indirect k x {SIG=!F_I CC=2}", 2)
pair("a direct function ends in an indirect transfer", 0, "func.tail_call_indirect k x {SIG=!F_IN CC=2}", 2, fret="core.never")
pair("an indirect tail call of a direct closure", 2, "func.tail_call_indirect k x {SIG=!F_IN CC=0}", 2)
pair("an indirect call with another result", 0, "y:core.i64 = func.call_indirect k x {SIG=!F_I CC=0}", 2, fret="core.i32")
pair("a reference of another type", 2, "y:F_I = func.constant {func_ref=@g}", 2)
pair("a reference that lacks a parameter", 2, "y:F_IN = func.constant {func_ref=@g}", 2)
pair("a malformed convention of a function", 2, "func.unreachable", 7)
pair("a malformed convention of a call", 2, "func.tail_call x k {callee=@g CC=3}", 2)
pair("a type that refers to continuations without a convention", 2, "y:FDK = t.make", 2)
pair("such a type in an attribute", 2, "t.use {type=!FDK}", 2)
cl("KU", [I], I)
pair("a closure without a convention", 2, "y:KU = t.make", 2)
NAMED["BOXU"] = struct("BoxU", [("k", NAMED["KU"])])
pair("a closure without a convention in a struct", 2, "t.use {type=!BOXU}", 2)
cl("KB", [I], I, 2)
pair("a Cps closure with a result", 2, "y:KB = t.make", 2)
env = """
func.func {sym_name=@f CC=2 %s}
  ^e %s
  func.unreachable
"""
no("an environment index that is too large", env % ("IDX=2", "x:core.i32 __env5:tribute_rt.anyref"))
no("an environment index of another parameter", env % ("IDX=0", "__env6:tribute_rt.anyref __env7:tribute_rt.anyref"))
no("an environment index that is not the environment", env % ("IDX=0", "y:tribute_rt.anyref __env8:tribute_rt.anyref"))
no("an environment that is not anyref", env % ("", "__env9:core.i32 x:core.i32"))
no("an environment index of a parameter that is not anyref", env % ("IDX=1", "__env10:tribute_rt.anyref x:core.i32"))
no("an environment index without an environment", env % ("IDX=0", "y:tribute_rt.anyref x:core.i32"))
no("two environments", env % ("", "__env11:tribute_rt.anyref x:core.i32 __env12:tribute_rt.anyref"))
no("a function twice", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32
  func.unreachable
func.func {sym_name=@f CC=2}
  ^e x:core.i32
  func.unreachable
""")
no("a function of another module", """
core.module {sym_name=@inner}
  func.func {sym_name=@g CC=2}
    ^e x:core.i32
    func.unreachable
func.func {sym_name=@f CC=2}
  ^e x:core.i32
  func.tail_call x {callee=@g CC=2}
""")
no("the last function does not fit", """
func.func {sym_name=@f CC=2}
  ^e x:core.i32 k:K
  func.tail_call x k {callee=@f CC=2}
func.func {sym_name=@g CC=2}
  ^e x:core.i32 k:K
  a:BOX = t.make
  b:FDK = t.bad
  func.unreachable
""")

# ---- the bridge -----------------------------------------------------------------------------------------------------------------
ROOTK = cl("DONE", [NIL], NEVER, 2)
cl("DONEP", [NIL], NIL, 2)
main = """
func.func {sym_name=@main CC=2 EXPORT=%s RESULT=!core.nil}
  ^e ev:EVI k:DONE
  n:core.nil = arith.const
  func.tail_call_indirect k n {SIG=!F_NN CC=2}
"""
fn("F_NN", [NIL], NEVER)
rest = """
func.func {sym_name=@f CC=2}
  ^e ev:EVI k:DONE c:core.i1
  a:F_MAIN = func.constant {func_ref=@main}
  scf.if c
    func.tail_call ev k {callee=@main CC=2}
  |
    b:F_MAIN = func.constant {func_ref=@main}
    t.use b {callee=@f}
    func.tail_call ev k {callee=@main CC=2}
core.module {sym_name=@inner}
  func.func {sym_name=@g}
    ^e x:core.i32
    y:core.i32 = func.call x {callee=@main}
    func.return y
  func.func {sym_name=@main}
    ^e x:core.i32
    func.return x
func.func {sym_name=@extern abi=@C}
"""


def with_main(f):
    """types that contain the evidence type are known only at run time"""
    def at_():
        NAMED["F_MAIN"] = functy([NAMED["EVI"], NAMED["DONE"]], NEVER)
        return f
    return at_


for ex, n in ((DIRECT, "direct"), (EVIDENCE, "evidence direct")):
    CASES.append((("a main function promoted from " + n, ROOT, t_(main % ex)), dict(ok=ok_root(ex), first=(PHYS,))))
    CASES.append((("a main function that is referred to, promoted from " + n, ROOT, (lambda ex=ex: with_main(t_(main % ex + rest))())),
                  dict(ok=ok_root(ex), first=(PHYS,), sigs={"g": "core.i32", "func.func.4": "core.i32", "extern": "core.i32"})))
    CASES.append((("the main function is the last, promoted from " + n, ROOT, (lambda ex=ex: with_main(t_(rest + main % ex))())),
                  dict(ok=ok_root(ex), first=(PHYS,), sigs={"g": "core.i32", "func.func.3": "core.i32", "extern": "core.i32"})))


def root(key, head, args="ev:EVI k:DONEP", ret="core.nil", tail="", path=ROOT, body=True, **kw):
    if "ok" not in kw:
        kw["refuse"] = "the module is accepted"
    c(key, path, "func.func {sym_name=@main %s}\n" % head + ("  ^e %s\n  func.unreachable\n" % args if body else "") + tail,
      sigs={"main": ret if body else "core.nil EVI DONEP", "o": "core.nil"}, **kw)


root("a main function without metadata", "CC=2", ok=ok_same)
c("no main function", ROOT, "func.func {sym_name=@f CC=2 EXPORT=0 RESULT=!core.nil}\n  ^e ev:EVI k:DONEP\n  func.unreachable\n", ok=ok_same, sigs={"f": "core.nil"})
c("a main function in another module", ROOT, """
core.module {sym_name=@inner}
  func.func {sym_name=@main CC=2 EXPORT=0 RESULT=!core.nil}
    ^e ev:EVI k:DONEP
    func.unreachable
""", ok=ok_same, sigs={"main": "core.nil"})
root("an export convention without a result", "CC=2 EXPORT=0")
root("a result without an export convention", "CC=2 RESULT=!core.nil")
root("a Cps export", "CC=2 EXPORT=2 RESULT=!core.nil")
root("a malformed export convention", "CC=2 EXPORT=5 RESULT=!core.nil")
root("a malformed export convention that is negative", "CC=2 EXPORT=-1 RESULT=!core.nil")
root("a malformed result", "CC=2 EXPORT=0 RESULT=3")
root("a worker that is not Cps", "CC=1 EXPORT=0 RESULT=!core.nil")
root("a worker without convention", "EXPORT=0 RESULT=!core.nil")
root("another result", "CC=2 EXPORT=0 RESULT=!core.i32")
root("a worker with a result", "CC=2 EXPORT=0 RESULT=!core.nil", ret="core.i32")
root("a worker that is still logical", "CC=2 EXPORT=0 RESULT=!core.nil", ret="core.never")
root("a worker with more parameters", "CC=2 EXPORT=0 RESULT=!core.nil", args="ev:EVI k:DONEP x:core.i32")
root("a worker without a continuation", "CC=2 EXPORT=0 RESULT=!core.nil", args="ev:EVI")
root("a worker without evidence", "CC=2 EXPORT=0 RESULT=!core.nil", args="k:DONEP ev:EVI")
root("a continuation that is not a closure", "CC=2 EXPORT=0 RESULT=!core.nil", args="ev:EVI k:tribute_rt.anyref")
cl("DONE_I", [I], NIL, 2)
cl("DONE_D", [NIL], NIL, 0)
cl("DONE_2", [NIL, NIL], NIL, 2)
cl("DONE_U", [NIL], NIL)
for n, w in (("DONE_I", "of another result"), ("DONE", "that is still logical"), ("DONE_D", "that is direct"), ("DONE_2", "of two results"),
             ("DONE_U", "without a convention")):
    root("a continuation " + w, "CC=2 EXPORT=0 RESULT=!core.nil", args="ev:EVI k:" + n)
other = "func.func {sym_name=@%s CC=2}\n  ^e x:core.i32\n  func.unreachable\n"
for n in ("__tribute_cps_main", "__tribute_root_done_k", "main"):
    root("another function " + n, "CC=2 EXPORT=0 RESULT=!core.nil", tail=other % n)
root("a main function without a body", "CC=2 EXPORT=0 RESULT=!core.nil", body=False)


def contract_(key, text, want, **kw):
    CONTRACTS.append(((key, t_(text), want), kw))


f1 = "func.func {sym_name=@%s CC=2 %s}\n  ^e x:core.i32\n  func.unreachable\n"
contract_("a contract: both parts", f1 % ("other", "") + f1 % ("main", "EXPORT=0 RESULT=!core.nil"), True)
contract_("a contract: the convention alone", f1 % ("main", "EXPORT=1"), True)
contract_("a contract: the result alone", f1 % ("main", "RESULT=!core.nil") + f1 % ("other", ""), True)
contract_("no contract: no metadata", f1 % ("main", ""), False)
contract_("no contract: another function", f1 % ("other", "EXPORT=0 RESULT=!core.nil") + f1 % ("main", ""), False)
contract_("no contract: another operation", "t.other {sym_name=@main EXPORT=0}\n" + f1 % ("main", ""), False)
contract_("no contract: another module", "core.module {sym_name=@inner}\n  func.func {sym_name=@main EXPORT=0}\n    ^e x:core.i32\n    func.unreachable\n" +
          f1 % ("main", ""), False)

# ---- the native entry point ------------------------------------------------------------------------------------------------------
uses = """
func.func {sym_name=@f}
  ^e c:core.i1
  a:F_0 = func.constant {func_ref=@main}
  r:core.nil = scf.if c
    x:core.nil = func.call {callee=@main}
    scf.yield x
  |
    scf.if c
      func.tail_call {callee=@main}
    |
      b:F_0 = func.constant {func_ref=@main}
      t.use b {callee=@f value=1}
      func.tail_call {callee=@f}
  y:core.nil = func.call {callee=@main_}
  func.return r
"""
fn("F_0", [], NIL)
dmain = "func.func {sym_name=@main %s}\n  ^e %s\n  n:%s = t.run\n  func.return n\n"
init = "func.func {sym_name=@__tribute_init abi=@C}\n"
ainit = "func.func {sym_name=@__asan_init abi=@C}\n"


def entry(key, text, conv, sanitize, ret="core.nil"):
    c(key + (", sanitized" if sanitize else ""), ENTRY, text, ok=ok_entry(conv, sanitize), extra=(C(sanitize),),
      sigs={"main": ret, "f": "core.nil", "__tribute_init": "core.nil", "__asan_init": "core.nil", "extern": "core.i32"})


for sz in (0, 1):
    entry("a main function without a convention", dmain % ("", "", "core.nil"), DIRECT, sz)
    entry("a direct main function", dmain % ("CC=0", "", "core.nil") + uses, DIRECT, sz)
    entry("a direct main function with a result", uses + dmain % ("CC=0", "", "core.i32"), DIRECT, sz, ret="core.i32")
    entry("an evidence direct main function", dmain % ("CC=1", "ev:EVI", "core.nil"), EVIDENCE, sz)
    entry("an evidence direct main function with a result", uses + dmain % ("CC=1", "ev:core.ptr", "core.i32") + "func.func {sym_name=@extern abi=@C}\n",
          EVIDENCE, sz, ret="core.i32")
    entry("the runtime's start is declared", init + dmain % ("CC=0", "", "core.nil"), DIRECT, sz)
    entry("both starts are declared", dmain % ("CC=0", "", "core.nil") + ainit + init, DIRECT, sz)
    c("no main function to enter" + (", sanitized" if sz else ""), ENTRY, "func.func {sym_name=@f CC=0}\n  ^e x:core.i32\n  func.return x\n", ok=ok_same,
      extra=(C(sz),), sigs={"f": "core.i32"})
for k, text, s in (("a Cps main function", dmain % ("CC=2", "ev:EVI", "core.nil"), {}),
                   ("a direct main function with a parameter", dmain % ("CC=0", "x:core.i32", "core.nil"), {}),
                   ("an evidence direct main function without evidence", dmain % ("CC=1", "", "core.nil"), {}),
                   ("an evidence direct main function with two parameters", dmain % ("CC=1", "ev:EVI x:core.i32", "core.nil"), {}),
                   ("a function with the name of the renamed main", dmain % ("CC=0", "", "core.nil") + "func.func {sym_name=@_tribute_main}\n  ^e\n  n:core.nil = t.x\n  func.return n\n",
                    {"_tribute_main": "core.nil"})):
    c(k + " is refused", ENTRY, text, refuse="panic", extra=(C(0),), sigs={"main": "core.nil"} | s)

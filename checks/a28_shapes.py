"""Programs for A28."""
import re
from engine.irtrace import NAMED, ty, attr
from engine.absint import C, S
from .a20 import ability
from .a13 import at

ABS = {"St": ability("State"), "Co": ability("Console"), "Si": ability("State", ty("core.i32")), "Sf": ability("State", ty("core.f64"))}
NAMED.update({"$" + k: t for k, t in ABS.items()})
NAMED.update({k: t for k, t in ABS.items()})
NAMED["any"] = ty("tribute_rt.anyref")
CASES = []


def c(key, text, **kw):
    text = re.sub(r"\{([^}]*)\}", lambda m: "{" + ", ".join(m[1].replace(",", " ").split()) + "}", text)
    CASES.append(((key, text), kw))


OP = "ability_ref=!St op_name=@get"
for form in ("", "legacy_"):
    for n in (0, 1, 2, 3):
        if form and n > 1:
            continue
        xs = " ".join("xyz"[:n])
        c(f"{form}call of {n} arguments", f"""
func.func {{sym_name=@f}}
  ^e ev:EV x:core.i32 y:core.f64 z:any
  a:any = ability.{form}call {xs} {{{OP}}}
  b:any = t.use a
  d:any = ability.{form}call {xs} {{ability_ref=!Si op_name=@put}}
  func.return b
""")
        c(f"{form}perform with {n} arguments", f"""
func.func {{sym_name=@f}}
  ^e ev:EV k:any x:core.i32 y:core.f64 z:any
  u:any = t.before x
  a:any = ability.{form}perform k {xs} {{{OP}}}
  func.return a
func.func {{sym_name=@g}}
  ^e ev:EV k:any x:core.i32 y:core.f64 z:any
  a:any = ability.{form}perform k {xs} {{{OP}}}
  b:core.i32 = t.dead a
  d:core.i32 = t.dead b
  func.return d
func.func {{sym_name=@h}}
  ^e ev:EV k:any x:core.i32 y:core.f64 z:any
  a:any = ability.{form}perform k {xs} {{{OP}}}
  func.return a
func.func {{sym_name=@n}}
  ^e ev:EV k:any x:core.i32 y:core.f64 z:any
  a:any = ability.{form}perform k {xs} {{{OP}}}
  func.unreachable
""", sigs={"g": "core.i32", "h": "core.nil", "n": "core.never"})
c("operations in several blocks and branches", """
func.func {sym_name=@f}
  ^e c:core.i1 ev:EV k:any x:core.i32
  cf.cond_br c -> ^p ^q
  ^p
  a:any = ability.call x {ability_ref=!St op_name=@get}
  r:any = scf.if c
    b:any = ability.call a x {ability_ref=!Co op_name=@print}
    scf.yield b
  |
    d:any = ability.perform k x {ability_ref=!Co op_name=@read}
    scf.yield d
  t.use r
  func.return r
  ^q
  e:any = ability.perform k x {ability_ref=!Si op_name=@get}
  func.return e
""")
c("calls keep the evidence of the function", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32
  a:any = func.call ev x {callee=@g}
  b:any = func.call x {callee=@p}
  d:any = func.call_indirect a ev b x
  e:any = func.call_indirect a
  r:any = scf.if x
    u:any = func.call ev x {callee=@g}
    scf.yield u
  |
    u2:any = func.call x {callee=@p}
    scf.yield u2
  func.tail_call ev x {callee=@g}
func.func {sym_name=@g}
  ^e ev:EV x:core.i32
  func.return x
func.func {sym_name=@p}
  ^e x:core.i32
  func.return x
""")
c("values that are called without evidence keep their arguments", """
func.func {sym_name=@f}
  ^e ev:EV fn:core.ptr env:any x:core.i32
  a:any = func.call_indirect fn env x
  b:any = func.call_indirect fn x
  d:any = func.call_indirect fn env ev x
  func.return d
""")
c("calls keep their attributes", """
func.func {sym_name=@f}
  ^e ev:EV t:any h:any fn:core.ptr env:any x:core.i32
  a:any = func.call_indirect fn ev env x {tribute.calling_convention=1 note=@a}
  ability.handle_dispatch ev t h {ability_refs=@St}
    ^b e2:EV
    b:any = func.call_indirect fn e2 env x {tribute.calling_convention=1 note=@b}
    d:any = func.call e2 x {callee=@g note=@c}
    func.tail_call_indirect fn e2 env d {tribute.calling_convention=2 note=@d}
func.func {sym_name=@g}
  ^e ev:EV x:core.i32
  func.return x
""", sigs={"f": "core.never"})
for abs_ in ("", "St", "St_Co", "Si_Co_Sf", "Co_Sf_Si_St"):
    n = len([x for x in abs_.split("_") if x])
    ds = " ".join(f"t{i} h{i}" for i in range(n))
    c(f"a handler of {n} abilities" + ("" if n != 3 else " of the same name"), f"""
func.func {{sym_name=@f}}
  ^e ev:EV x:core.i32 {" ".join(f"t{i}:any h{i}:any" for i in range(n))}
  p:any = func.call ev x {{callee=@g}}
  ability.handle_dispatch ev {ds} {{ability_refs=@{abs_}}}
    ^b e2:EV
    a:any = func.call e2 x {{callee=@g}}
    d:any = t.use e2 a
    func.tail_call e2 x {{callee=@g}}
func.func {{sym_name=@g}}
  ^e ev:EV x:core.i32
  func.return x
""", sigs={"f": "core.never"})
c("operations in the body of a handler", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 t:any h:any
  p:any = ability.call x {ability_ref=!St op_name=@get}
  ability.handle_dispatch ev t h {ability_refs=@St}
    ^b e2:EV
    a:any = ability.call x {ability_ref=!St op_name=@get}
    b:any = scf.if x
      u:any = ability.call a {ability_ref=!Co op_name=@print}
      scf.yield u
    |
      u2:any = ability.call a {ability_ref=!St op_name=@put}
      scf.yield u2
    func.tail_call_indirect b e2 x
""", sigs={"f": "core.never"})
c("handlers in handlers", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 t:any h:any u:any g:any
  ability.handle_dispatch ev t h {ability_refs=@St}
    ^b e2:EV
    a:any = func.call e2 x {callee=@g}
    ability.handle_dispatch e2 u g t h {ability_refs=@Co_St}
      ^b3 e3:EV
      b:any = func.call e3 x {callee=@g}
      ability.handle_dispatch e3 t g {ability_refs=@Co}
        ^b4 e4:EV
        func.tail_call e4 b {callee=@g}
func.func {sym_name=@g}
  ^e ev:EV x:any
  func.return x
""", sigs={"f": "core.never"})
c("handlers in branches", """
func.func {sym_name=@f}
  ^e ev:EV c:core.i1 x:core.i32 t:any h:any
  r:core.never = scf.if c
    ability.handle_dispatch ev t h {ability_refs=@St}
      ^b e2:EV
      r2:core.never = scf.if c
        func.tail_call e2 x {callee=@g}
      |
        func.tail_call_indirect t e2 x
  |
    ability.handle_dispatch ev h t {ability_refs=@Co}
      ^b3 e3:EV
      func.tail_call e3 x {callee=@g}
func.func {sym_name=@g}
  ^e ev:EV x:any
  func.return x
""", sigs={"f": "core.never"})
c("a handler that starts without evidence", """
func.func {sym_name=@f}
  ^e x:core.i32 t:any h:any
  ev:EV = adt.ref_null {type=!EV}
  p:any = func.call ev x {callee=@g}
  q:any = func.call x x {callee=@k}
  ability.handle_dispatch ev t h {ability_refs=@St}
    ^b e2:EV
    a:any = func.call e2 p {callee=@g}
    func.tail_call e2 a {callee=@g}
func.func {sym_name=@g}
  ^e ev:EV x:any
  func.return x
func.func {sym_name=@k}
  ^e y:any x:any
  func.return x
""", sigs={"f": "core.never"})
LEG = """
  tag:core.i32 = effect.fresh_prompt_tag
  r:any = ability.legacy_handle_dispatch y tag h t {tag=1 result_type=!any}
"""


def legacy(key, head, arms, done, escape, tail, **kw):
    dn = "" if done is None else "    ability.done\n      ^d v:any\n" + "".join("      " + l + "\n" for l in done)
    ar = "".join(f"    ability.{k}{i} {{ability_ref=!{a} op_name=@get}}\n      ^s{i} k{i}:any w{i}:any\n      scf.yield w{i}\n".replace(f"{k}{i}", k) for i, (k, a) in enumerate(arms))
    es = "    ^x w:any\n" + "".join("    " + l + "\n" for l in escape)
    c(key, head + LEG.strip("\n") + "\n" + (dn + ar or "    t.nothing\n") + "  |\n" + es + tail, **kw)


G = """func.func {sym_name=@g}
  ^e ev:EV x:any
  func.return x
"""
HEAD = """func.func {sym_name=@f}
  ^e ev:EV h:any t:any fn:core.ptr env:any x:core.i32
  y:any = func.call_indirect fn ev env x
"""
for key, arms in (("no operation", []), ("an operation", [("suspend", "St")]), ("operations of two abilities", [("suspend", "St"), ("yield", "Co"), ("suspend", "St")]),
                  ("abilities of one name", [("yield", "Si"), ("suspend", "Sf")])):
    legacy(f"a handle with {key}", HEAD, arms, ["scf.yield v"], ["scf.yield w"], "  t.use r\n  func.return r\n")
legacy("a handle without completion", HEAD, [("suspend", "St")], None, ["scf.yield w"], "  func.return r\n")
legacy("completions compute", HEAD, [("suspend", "St")],
       ["a:any = t.done v", "b:any = func.call ev a {callee=@g}", "d:any = func.call_indirect fn ev env b", "scf.yield d"],
       ["a:any = t.escaped w", "b:any = func.call ev a {callee=@g}", "d:any = func.call_indirect fn ev env b", "scf.yield d"], "  func.return r\n" + G)
legacy("completions perform operations", HEAD, [("suspend", "St")],
       ["a:any = ability.legacy_call v {ability_ref=!St op_name=@get}", "scf.yield a"],
       ["a:any = ability.legacy_call w {ability_ref=!St op_name=@get}", "scf.yield a"], "  func.return r\n")
legacy("a handle in a function without evidence", """func.func {sym_name=@f}
  ^e h:any t:any fn:core.ptr env:any x:core.i32
  n:EV = adt.ref_null {type=!EV}
  y:any = func.call_indirect fn n env x
""", [("suspend", "St")], ["scf.yield v"], ["scf.yield w"], "  func.return r\n")
legacy("calls beside a handle in a function without evidence", """func.func {sym_name=@f}
  ^e h:any t:any fn:core.ptr env:any x:any
  n:EV = adt.ref_null {type=!EV}
  p:any = func.call n x {callee=@g}
  q:any = func.call_indirect fn n env x
  q2:any = func.call_indirect fn env x
  y:any = func.call_indirect fn n env p
""", [("suspend", "St")], ["a:any = func.call n v {callee=@g}", "scf.yield a"], ["a:any = func.call n w {callee=@g}", "scf.yield a"],
       "  s:any = func.call n r {callee=@g}\n  func.return s\n" + G)
legacy("calls that have no evidence yet", """func.func {sym_name=@f}
  ^e h:any t:any fn:core.ptr env:any x:any
  n:EV = adt.ref_null {type=!EV}
  p:any = func.call x {callee=@g}
  y:any = func.call_indirect fn n env p
""", [("suspend", "St")], ["scf.yield v"], ["scf.yield w"], "  s:any = func.call r {callee=@g}\n  func.return s\n" + G)
c("two handles, one after another and in branches", """
func.func {sym_name=@f}
  ^e ev:EV h:any t:any fn:core.ptr env:any x:core.i1
  y:any = func.call_indirect fn ev env x
  tag:core.i32 = effect.fresh_prompt_tag
  r:any = ability.legacy_handle_dispatch y tag h t {tag=1 result_type=!any}
    ability.done
      ^d v:any
      scf.yield v
    ability.suspend {ability_ref=!St op_name=@get}
      ^s k:any w:any
      scf.yield w
  |
    ^x w2:any
    scf.yield w2
  y2:any = func.call_indirect fn ev env r
  tag2:core.i32 = effect.fresh_prompt_tag
  r2:any = ability.legacy_handle_dispatch y2 tag2 t h {tag=2 result_type=!any}
    ability.suspend {ability_ref=!Co op_name=@get}
      ^s2 k2:any w3:any
      scf.yield w3
    ability.done
      ^d2 v2:any
      q:any = t.done v2
      scf.yield q
  |
    ^x2 w4:any
    scf.yield w4
  z:any = scf.if x
    y3:any = func.call_indirect fn ev r r2
    tag3:core.i32 = effect.fresh_prompt_tag
    r3:any = ability.legacy_handle_dispatch y3 tag3 t h {tag=3 result_type=!any}
      ability.done
        ^d4 v4:any
        scf.yield v4
      ability.yield {ability_ref=!Si op_name=@get}
        ^s4 k4:any w5:any
        scf.yield w5
    |
      ^x4 w6:any
      scf.yield w6
    scf.yield r3
  |
    scf.yield r2
  func.return z
""")
c("completions of another type", """
func.func {sym_name=@f}
  ^e ev:EV h:any t:any fn:core.ptr env:any x:core.i1
  y:any = func.call_indirect fn ev env x
  tag:core.i32 = effect.fresh_prompt_tag
  r:core.i32 = ability.legacy_handle_dispatch y tag h t {tag=1 result_type=!core.i32}
    ability.done
      ^d v:any
      q:core.i32 = t.done v
      scf.yield q
    ability.suspend {ability_ref=!St op_name=@get}
      ^s k:any w:any
      scf.yield w
  |
    ^x w2:any
    q2:core.f64 = t.escaped w2
    scf.yield q2
  func.return r
""")
legacy("the call of the body keeps its attributes", HEAD.replace("fn ev env x", "fn ev env x {tribute.calling_convention=1 note=@a}"), [("suspend", "St")],
       ["scf.yield v"], ["scf.yield w"], "  func.return r\n")
c("an owner that is given", """
func.func {sym_name=@f}
  ^e ev:EV h:any t:any fn:core.ptr env:any own:core.i32 y2:any
  y:any = func.call_indirect fn ev env own
  r:any = ability.legacy_handle_dispatch y own h t {tag=1 result_type=!any}
    ability.suspend {ability_ref=!St op_name=@get}
      ^s k:any w:any
      scf.yield w
  |
    ^x w2:any
    scf.yield w2
  r2:any = ability.legacy_handle_dispatch y2 own h t {tag=2 result_type=!any}
    ability.suspend {ability_ref=!St op_name=@get}
      ^s5 k5:any w5:any
      scf.yield w5
  |
    ^x5 w6:any
    scf.yield w6
  func.return r2
""")
c("lookup of a handler in a body", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 t:any h:any
  ability.handle_dispatch ev t h {ability_refs=@Co}
    ^b e2:EV
    m:MK = ability.evidence_lookup e2 {ability_ref=!Co}
    a:any = t.use m
    func.tail_call_indirect t e2 a
""", sigs={"f": "core.never"})
c("lookup of a handler", """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32
  m:MK = ability.evidence_lookup ev {ability_ref=!St}
  n:MK = ability.evidence_lookup ev {ability_ref=!Si}
  a:any = t.use m n
  func.return a
""")
c("declarations and functions without effects", """
func.func {sym_name=@d abi=@C}
func.func {sym_name=@e}
func.func {sym_name=@f}
  ^e x:core.i32
  a:any = func.call x {callee=@d}
  func.return a
""", sigs={"d": "tribute_rt.anyref core.i32", "e": "core.i32 EV core.i32"})
c("the run time's functions are there already", """
func.func {sym_name=@__tribute_evidence_lookup abi=@C}
func.func {sym_name=@__tribute_next_tag abi=@C}
func.func {sym_name=@f}
  ^e ev:EV x:core.i32
  m:MK = ability.evidence_lookup ev {ability_ref=!St}
  a:any = t.use m
  func.return a
func.func {sym_name=@__tribute_evidence_extend abi=@C}
""", sigs={"__tribute_evidence_lookup": "MK EV core.i32", "__tribute_next_tag": "core.i32", "__tribute_evidence_extend": "EV EV MK"})

# -- not well formed
GOOD = """
func.func {sym_name=@f}
  ^e ev:EV x:core.i32 t:any h:any
  ability.handle_dispatch ev t h {ability_refs=@St}
    ^b e2:EV
    func.tail_call e2 x {callee=@g}
func.func {sym_name=@g}
  ^e ev:EV x:any
  func.return x
"""


def wrong(key, why, a, b, text=GOOD, **kw):
    assert a in text, key
    c(key, text.replace(a, b), refuse=why, sigs={"f": "core.never"}, **kw)


wrong("a dispatcher is missing", "the dispatchers are not pairs", "ev t h {", "ev t {")
wrong("an ability too many", "there are fewer dispatchers than abilities", "@St", "@St_Co")
wrong("an ability too few", "there are more dispatchers than abilities", "ev t h {", "ev t h t h {")
wrong("no evidence", "the handler has no evidence", "ev t h {ability_refs=@St}", "{ability_refs=@}")
wrong("an ability that is none", "an entry of the abilities is a number", "@St", "@1")
wrong("a type that is no ability", "an entry of the abilities is another type", "@St", "@any")
wrong("no abilities", "the abilities are not given", "{ability_refs=@St}", "")
wrong("no body argument", "the body does not take evidence", "^b e2:EV\n    func.tail_call e2", "^b\n    func.tail_call ev")
wrong("a body argument too many", "the body takes two arguments", "^b e2:EV", "^b e2:EV e3:EV")
wrong("a body argument of another type", "the body takes no evidence", "^b e2:EV\n    func.tail_call e2", "^b e2:any\n    func.tail_call ev")
wrong("evidence of another type", "the operand is no evidence", "dispatch ev t h", "dispatch x t h")
wrong("a body that returns", "the body ends in a return", "func.tail_call e2 x {callee=@g}", "func.return x")
wrong("a body without end", "the body has no terminator", "func.tail_call e2 x {callee=@g}", "a:any = t.use e2")
wrong("a body of two blocks", "the body has two blocks", "    func.tail_call e2 x {callee=@g}\n", "    func.tail_call e2 x {callee=@g}\n    ^b2\n    func.unreachable\n")
wrong("a handler with a result", "the handler has a result", "ability.handle_dispatch ev", "r:any = ability.handle_dispatch ev")
wrong("malformed inside another", "the inner handler has no pairs", "    func.tail_call e2 x {callee=@g}\n",
      "    ability.handle_dispatch e2 t {ability_refs=@St}\n      ^b3 e3:EV\n      func.tail_call e3 x {callee=@g}\n")
c("an operation without evidence", """
func.func {sym_name=@f}
  ^e x:core.i32
  a:any = ability.call x {ability_ref=!St op_name=@get}
  func.return a
""", refuse="there is no evidence for the operation")
c("an operation without evidence and continuation", """
func.func {sym_name=@f}
  ^e k:any x:core.i32
  a:any = ability.perform k x {ability_ref=!St op_name=@get}
  func.return a
""", refuse="there is no evidence for the operation")
for o in ("a:any = ability.resume x x", "ability.suspend {ability_ref=!St op_name=@get}\n    ^s k:any w:any\n    scf.yield w", "a:EV = ability.evidence_extend ev {ability_ref=!St}"):
    n = o.split("ability.")[1].split()[0]
    c(f"ability.{n} outside a handler", f"""
func.func {{sym_name=@f}}
  ^e ev:EV x:core.i32
  {o}
  func.return x
""", refuse=f"ability.{n} has no meaning there")

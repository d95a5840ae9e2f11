"""Modules for A29."""
from .a13 import at
from engine.absint import C, S
from .a29 import OPS, PREPEND, GETB, WRITE, READ

CASES = []


def add(key, text, **kw):
    CASES.append(((key, text), kw))


TY = {"Int": "core.i32", "Nat": "core.i32", "Float": "core.f64"}


for n in OPS:
    k = n.split("::")[0]
    t = TY[k]
    r = "core.i1" if n[len(k) + 2] in "=!<>" else t
    body = f"func.func {{sym_name=@f}}\n  ^e a:{t} b:{t} c:{t}\n  x:{r} = func.call a b {{callee=@{n}}}\n  y:{r} = func.call b a {{callee=@{n}}}\n  t.use x y\n"
    if r == t:
        body += f"  z:{r} = func.call x c {{callee=@{n}}}\n  t.use z x\n"
    body += "  func.return\n"
    fs = f"func.func {{sym_name=@values}}\n  ^v0\n  k:core.ptr = func.constant {{func_ref=@{n}}}\n  t.use k\n  func.return\n"
    decl = f"func.func {{sym_name=@{n},abi=@intrinsic}}\n  ^d l:{t} r:{t}\n  func.unreachable\n"
    add(f"operator {n}", body + fs + decl, sigs={n: r}, passes="A")

L = "tribute_rt.anyref"
MK = "".join(f"func.func {{sym_name=@mk_{i}}}\n  ^mb{i} me{i}:{t} ml{i}:{L}\n  mr{i}:{L} = list.prepend me{i} ml{i} {{element_type=!{t}}}\n  func.return mr{i}\n"
             for i, t in enumerate(("core.i32", "tribute_rt.anyref", "core.f64")))
MK0 = MK[:MK.index("func.func {sym_name=@mk_1")]


def lists(key, text, passes="LN", mk=MK0, **kw):
    add(key, text + mk, passes=passes, **kw)


lists("the empty list is empty", f"""func.func {{sym_name=@f}}
  ^e
  l:{L} = list.empty {{element_type=!core.i32}}
  b:core.i1 = list.is_empty l {{element_type=!core.i32}}
  t.use l b
  func.return l
""")
lists("a list of one element", f"""func.func {{sym_name=@f}}
  ^e x:core.i32
  l:{L} = list.empty {{element_type=!core.i32}}
  m:{L} = list.prepend x l {{element_type=!core.i32}}
  b:core.i1 = list.is_empty m {{element_type=!core.i32}}
  h:core.i32 = list.head m {{element_type=!core.i32}}
  t:{L} = list.tail m {{element_type=!core.i32}}
  c:core.i1 = list.is_empty t {{element_type=!core.i32}}
  t.use b h t c
  func.return h
""")
lists("an unknown list", f"""func.func {{sym_name=@f}}
  ^e l:{L}
  b:core.i1 = list.is_empty l {{element_type=!core.i32}}
  t.use b
  h:core.i32 = list.head l {{element_type=!core.i32}}
  t.use h
  t:{L} = list.tail l {{element_type=!core.i32}}
  t.use t
  h2:core.i32 = list.head t {{element_type=!core.i32}}
  t.use h2 h
  func.return h2
""")
lists("head only", f"""func.func {{sym_name=@f}}
  ^e l:{L}
  t.one
  h:core.i32 = list.head l {{element_type=!core.i32}}
  t.two h
  func.return h
""")
lists("tail only, result unused", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32
  t.one
  h:{L} = list.tail l {{element_type=!core.i32}}
  t.two x
  func.return x
""")
lists("lists of references and floats", f"""func.func {{sym_name=@f}}
  ^e l:{L} m:{L} x:{L}
  h:{L} = list.head l {{element_type=!{L}}}
  t:{L} = list.tail l {{element_type=!{L}}}
  g:core.f64 = list.head m {{element_type=!core.f64}}
  s:{L} = list.tail m {{element_type=!core.f64}}
  p:{L} = list.prepend g s {{element_type=!core.f64}}
  q:{L} = list.prepend m t {{element_type=!{L}}}
  t.use h g p q
  k:{L} = list.head q {{element_type=!{L}}}
  func.return k
""", mk=MK)
lists("lists in several blocks", f"""func.func {{sym_name=@f}}
  ^e c:core.i1 l:{L}
  cf.cond_br c -> ^a ^b
  ^a
  h:core.i32 = list.head l {{element_type=!core.i32}}
  t:{L} = list.tail l {{element_type=!core.i32}}
  t.use h
  cf.br h t -> ^j
  ^b
  n:{L} = list.empty {{element_type=!core.i32}}
  k:core.i32 = t.make
  cf.br k n -> ^j
  ^j y:core.i32 z:{L}
  w:{L} = list.prepend y z {{element_type=!core.i32}}
  v:core.i32 = list.head w {{element_type=!core.i32}}
  t.use v y
  func.return w
""")
lists("a loop over a list", f"""func.func {{sym_name=@f}}
  ^e l:{L}
  cf.br l -> ^h
  ^h x:{L}
  b:core.i1 = list.is_empty x {{element_type=!core.i32}}
  cf.cond_br b -> ^d ^n
  ^n
  v:core.i32 = list.head x {{element_type=!core.i32}}
  t.use v
  r:{L} = list.tail x {{element_type=!core.i32}}
  cf.br r -> ^h
  ^d
  func.return x
""")
lists("lists in a conditional", f"""func.func {{sym_name=@f}}
  ^e c:core.i1 l:{L}
  z:{L} = list.tail l {{element_type=!core.i32}}
  r:core.i32 = scf.if c
    ^p
    h:core.i32 = list.head z {{element_type=!core.i32}}
    t.a h
    scf.yield h
  |
    ^q
    k:{L} = list.tail z {{element_type=!core.i32}}
    g:core.i32 = list.head k {{element_type=!core.i32}}
    t.b g
    scf.yield g
  w:core.i32 = list.head z {{element_type=!core.i32}}
  t.use w r
  func.return r
""")
lists("lists in a conditional, flattened", CASES[-1][0][1][:CASES[-1][0][1].index("func.func {sym_name=@mk")], passes="LNS")
lists("a list observed before a conditional uses it", f"""func.func {{sym_name=@f}}
  ^e c:core.i1 l:{L}
  h:core.i32 = list.head l {{element_type=!core.i32}}
  r:core.i32 = scf.if c
    ^p
    t.a h
    scf.yield h
  |
    ^q
    k:{L} = list.prepend h l {{element_type=!core.i32}}
    t.b k
    scf.yield h
  t.use r
  func.return r
""", passes="LNS")
lists("list in a conditional in a conditional", f"""func.func {{sym_name=@f}}
  ^e c:core.i1 d:core.i1 l:{L}
  r:core.i32 = scf.if c
    ^p
    s:core.i32 = scf.if d
      ^pp
      h:core.i32 = list.head l {{element_type=!core.i32}}
      scf.yield h
    |
      ^pq
      i:core.i32 = t.make
      scf.yield i
    k:{L} = list.tail l {{element_type=!core.i32}}
    t.b k s
    scf.yield s
  |
    ^q
    j:core.i32 = t.other
    scf.yield j
  func.return r
""", passes="LNS")
DECL = "func.func {sym_name=@%s,abi=@intrinsic}\n  ^%s %s0:core.i32 %s1:tribute_rt.anyref\n  func.unreachable\n"
SP = {PREPEND: L, PREPEND + "$Int": L, PREPEND + "$Float": L, PREPEND + "x": L}
lists("prepend by the prelude", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32
  a:{L} = func.call x l {{callee=@{PREPEND}}}
  b:{L} = func.call x a {{callee=@{PREPEND}$Int}}
  h:core.i32 = list.head b {{element_type=!core.i32}}
  t:{L} = list.tail b {{element_type=!core.i32}}
  t.use a b h t
  func.return b
""" + DECL % (PREPEND, "d", "d", "d"), sigs=SP)
lists("prepend of floats", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.f64 y:{L}
  a:{L} = func.call x l {{callee=@{PREPEND}$Float}}
  b:{L} = func.call y a {{callee=@{PREPEND}$List}}
  t.use a b
  h:{L} = list.head b {{element_type=!{L}}}
  func.return h
""" + DECL % (PREPEND, "d", "d", "d"), sigs=SP, mk=MK)
lists("a function of the program that is named like a specialised prepend", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32
  a:{L} = func.call x l {{callee=@{PREPEND}$Int}}
  b:{L} = func.call x a {{callee=@{PREPEND}$Nat}}
  c:{L} = func.call x b {{callee=@{PREPEND}x}}
  t.use a b c
  func.return c
func.func {{sym_name=@{PREPEND}$Int}}
  ^g gx:core.i32 gl:{L}
  t.mine
  func.return gl
func.func {{sym_name=@{PREPEND}x}}
  ^k kx:core.i32 kl:{L}
  t.mine2
  func.return kl
""" + DECL % (PREPEND, "d", "d", "d"), sigs=SP)
lists("a program with its own prepend", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32
  a:{L} = func.call x l {{callee=@{PREPEND}}}
  t.use a
  func.return a
func.func {{sym_name=@{PREPEND}}}
  ^g gx:core.i32 gl:{L}
  t.mine
  func.return gl
""", sigs=SP)
lists("a specialised declaration", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32
  a:{L} = func.call x l {{callee=@{PREPEND}$Int}}
  t.use a
  func.return a
""" + DECL % (PREPEND + "$Int", "d", "d", "d"), sigs=SP)

# -- bytes
GD = f"func.func {{sym_name=@{GETB},abi=@intrinsic}}\n  ^d d0:core.bytes d1:core.i32\n  func.unreachable\n"
GS = {GETB: "core.i32"}
add("a byte", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes i:core.i32
  t.one
  x:core.i32 = func.call b i {{callee=@{GETB}}}
  t.use x
  func.return x
""" + GD, sigs=GS, passes="BS")
add("a byte, not flattened", CASES[-1][0][1], sigs=GS, passes="B")
add("two bytes", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes i:core.i32 c:core.bytes j:core.i32
  x:core.i32 = func.call b i {{callee=@{GETB}}}
  y:core.i32 = func.call c j {{callee=@{GETB}}}
  t.use x y
  func.return y
""" + GD, sigs=GS, passes="BS")
add("a byte of an optional", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes i:core.i32 c:core.i1
  r:core.i32 = scf.if c
    ^p
    x:core.i32 = func.call b i {{callee=@{GETB}}}
    t.a x
    scf.yield x
  |
    ^q
    y:core.i32 = func.call b i {{callee=@mine}}
    scf.yield y
  func.return r
func.func {{sym_name=@mine}}
  ^g gb:core.bytes gi:core.i32
  func.return gi
""" + GD, sigs=dict(GS, mine="core.i32"), passes="BS")

# -- input and output
WD = f"func.func {{sym_name=@{WRITE},abi=@intrinsic}}\n  ^wd w0:core.bytes w1:core.i1\n  func.unreachable\n"
RD = f"func.func {{sym_name=@{READ},abi=@intrinsic}}\n  ^rd\n  func.unreachable\n"
IS = {WRITE: "core.nil", READ: "RLR"}
add("write", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes n:core.i1 c:core.bytes
  t.one
  x:core.nil = func.call b n {{callee=@{WRITE}}}
  t.two
  y:core.nil = func.call c n {{callee=@{WRITE}}}
  func.return
""" + WD, sigs=IS, passes="PI")
add("write in a conditional", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes n:core.i1
  r:core.nil = scf.if n
    ^p
    x:core.nil = func.call b n {{callee=@{WRITE}}}
    scf.yield x
  |
    ^q
    y:core.nil = func.call b n {{callee=@mine}}
    scf.yield y
  func.return
func.func {{sym_name=@mine}}
  ^g gb:core.bytes gi:core.i1
  z:core.nil = func.call gb gi {{callee=@{WRITE}}}
  func.return z
""" + WD, sigs=dict(IS, mine="core.nil"), passes="PI")
add("read a line", f"""func.func {{sym_name=@f}}
  ^e
  t.one
  x:RLR = func.call {{callee=@{READ}}}
  t.use x
  func.return x
""" + RD + WD, sigs=IS, passes="PI")
add("read two lines and write", f"""func.func {{sym_name=@f}}
  ^e b:core.bytes n:core.i1
  x:RLR = func.call {{callee=@{READ}}}
  y:core.nil = func.call b n {{callee=@{WRITE}}}
  z:RLR = func.call {{callee=@{READ}}}
  t.use z x
  func.return x
""" + RD + WD, sigs=IS, passes="PIS")
add("read in a conditional", f"""func.func {{sym_name=@f}}
  ^e n:core.i1 d:RLR
  r:RLR = scf.if n
    ^p
    x:RLR = func.call {{callee=@{READ}}}
    scf.yield x
  |
    ^q
    scf.yield d
  t.use r
  func.return r
""" + RD, sigs=IS, passes="PIS")

# -- literals
STR = lambda s: {"value": at("String", S(s))}
BYT = lambda b: {"value": at("Bytes", ("seq", tuple(C(x) for x in b)))}


def lits(key, text, vals, passes="C", **kw):
    n = {}
    at_ = {}
    for k, v in vals:
        n[k] = n.get(k, 0) + 1
        t = f"adt.{k}_const"
        at_[t if n[k] == 1 else f"{t}.{n[k]}"] = STR(v) if k == "string" else BYT(v)
    add(key, text, attrs=at_, passes=passes, **kw)


ONE = """func.func {sym_name=@f}
  ^e
  s:STR = adt.string_const
  t.use s
  func.return s
"""
TWO = """func.func {sym_name=@f}
  ^e
  s:core.bytes = adt.bytes_const
  t.use s
  func.return s
"""
for v in ("hello", "", "\u00e9\u4e16", "a\0b", "x" * 40):
    lits(f"string {v[:8]!r} of {len(v)}", ONE, [("string", v)])
for b in (b"hello", b"", b"\x00\x80\xff", bytes(range(120, 140))):
    lits(f"bytes {b[:4]!r} of {len(b)}", TWO, [("bytes", b)])
lits("several strings", """func.func {sym_name=@f}
  ^e
  a:STR = adt.string_const
  b:STR = adt.string_const
  c:STR = adt.string_const
  t.use a b c
  func.return a
""", [("string", "ab"), ("string", "abc"), ("string", "ab")])
lits("strings and bytes", """func.func {sym_name=@f}
  ^e
  a:STR = adt.string_const
  d:core.bytes = adt.bytes_const
  e1:core.bytes = adt.bytes_const
  t.use d e1 a
  func.return d
""", [("string", "ab"), ("bytes", b"ab"), ("bytes", b"cd")])
lits("literals in two functions", """func.func {sym_name=@f}
  ^e
  a:STR = adt.string_const
  t.use a
  func.return a
func.func {sym_name=@g}
  ^g
  h:core.bytes = adt.bytes_const
  i:STR = adt.string_const
  t.use h i
  func.return i
""", [("string", "ab"), ("bytes", b""), ("string", "")])
lits("literals in regions and blocks", """func.func {sym_name=@f}
  ^e c:core.i1
  a:STR = adt.string_const
  r:STR = scf.if c
    ^p
    b:STR = adt.string_const
    scf.yield b
  |
    ^q
    x:core.bytes = adt.bytes_const
    t.use x
    scf.yield a
  cf.cond_br c -> ^k ^m
  ^k
  y:STR = adt.string_const
  t.use y r
  func.return y
  ^m
  func.return r
""", [("string", "one"), ("string", "two"), ("string", "three"), ("bytes", b"two")])
lits("bytes only, with a string type", """func.func {sym_name=@f}
  ^e
  a:core.bytes = adt.bytes_const
  func.return a
""", [("bytes", b"z")])

# -- all passes together
add("everything together", f"""func.func {{sym_name=@f}}
  ^e l:{L} x:core.i32 nl:core.i1
  a:{L} = func.call x l {{callee=@{PREPEND}$Int}}
  h:core.i32 = list.head l {{element_type=!core.i32}}
  s:core.i32 = func.call h x {{callee=@Int::+}}
  b:core.bytes = adt.bytes_const
  w:core.nil = func.call b nl {{callee=@{WRITE}}}
  t.use a s
  func.return s
""" + DECL % (PREPEND, "d", "d", "d") + WD + MK0, sigs=dict(SP, **IS), attrs={"adt.bytes_const": BYT(b"ok")}, passes="ALPCBIN")
add("passes run again", CASES[-1][0][1], sigs=dict(SP, **IS), attrs={"adt.bytes_const": BYT(b"ok")}, passes="AALLPPCBBIINN")
add("names of other modules", """func.func {sym_name=@f}
  ^e a:core.i32 b:core.i32
  x:core.i32 = func.call a b {callee=@My::+}
  y:core.i32 = func.call a b {callee=@Int::add}
  z:core.i32 = func.call a b {callee=@__tribute_io_write2}
  t.use x y z
  func.return x
func.func {sym_name=@My::+}
  ^g g0:core.i32 g1:core.i32
  t.mine
  func.return g1
func.func {sym_name=@Int::add}
  ^k k0:core.i32 k1:core.i32
  t.mine2
  func.return k0
func.func {sym_name=@__tribute_io_write2}
  ^m m0:core.i32 m1:core.i32
  t.mine3
  func.return m0
""", sigs={"My::+": "core.i32", "Int::add": "core.i32", "__tribute_io_write2": "core.i32"}, passes="ALPBIN")

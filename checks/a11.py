"""A11: reference counts balance on every path."""
import itertools
from .lowering import *
from engine.heap import *
from engine.irtrace import *
from engine.absint import Budget
from .a09 import reach_ops

LEVEL = "other"
EXPLANATION = ("Shape analysis of the pass that inserts reference counting: it is analysed on abstract functions (branches, joins, loops, "
               "values passed along edges, loads, stores, calls, tail transfers, each ownership setting); then an ownership typestate is "
               "tracked along every path of the resulting control-flow graph: no count is dropped that is not held, nothing is used after "
               "its last reference is gone, and nothing is still held when the function is left.")
ASSUMPTIONS = ["objects loaded from a field live as long as the object they were loaded from (fields are not overwritten meanwhile)",
               "a callee leaves the counts of its arguments as it found them unless its contract says it consumes them",
               "paths are followed for every outcome of the first five branches"]
N = "tribute_passes::native::rc_insertion::"
PLAIN = N + "insert_rc_with_policies"
TRUST = N + "insert_rc_with_policies_and_trusted_summaries"
OS = "tribute_passes::native::ownership_summary::"

P = {}
P["parameter read"] = """
fn f p:R
  v:I = clif.load p {offset=0}
  clif.return v
"""
P["parameter unused"] = """
fn f p:R q:I
  clif.return q
"""
P["parameter returned"] = """
fn f p:R
  clif.return p
"""
P["two parameters one returned"] = """
fn f p:R q:R
  v:I = clif.load q {offset=0}
  clif.return p
"""
P["parameter returned after use"] = """
fn f p:R
  v:I = clif.load p {offset=0}
  w:I = clif.call p v {callee=@ext}
  clif.return p
"""
P["several uses"] = """
fn f p:R
  a:I = clif.load p {offset=0}
  b:I = clif.load p {offset=4}
  c:I = clif.iadd a b
  clif.return c
"""
P["used twice by one call"] = """
fn f p:R
  a:I = clif.call p p {callee=@ext}
  clif.return a
"""
P["call result unused"] = """
fn f p:R
  x:R = clif.call p {callee=@make}
  a:I = clif.load p {offset=0}
  clif.return a
"""
P["call result used and dropped"] = """
fn f
  x:R = clif.call {callee=@make}
  a:I = clif.load x {offset=0}
  b:I = clif.call x {callee=@use}
  clif.return b
"""
P["call result passed on and returned"] = """
fn f
  x:R = clif.call {callee=@make}
  y:R = clif.call x {callee=@wrap}
  clif.return y
"""
P["box and return"] = """
fn f v:I
  n:L = clif.iconst {value=12}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  clif.store v pay {offset=0}
  z:P = clif.iconst {value=0}
  box:R = clif.iadd pay z
  clif.return box
"""
P["box used and dropped"] = """
fn f v:I
  n:L = clif.iconst {value=12}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  clif.store v pay {offset=0}
  z:P = clif.iconst {value=0}
  box:R = clif.iadd pay z
  r:I = clif.call box {callee=@use}
  clif.return r
"""
P["box unused"] = """
fn f v:I
  n:L = clif.iconst {value=12}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  z:P = clif.iconst {value=0}
  box:R = clif.iadd pay z
  clif.return v
"""
P["box across blocks"] = """
fn f v:I
  n:L = clif.iconst {value=12}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  z:P = clif.iconst {value=0}
  box:R = clif.iadd pay z
  clif.brif v -> ^a ^b
  ^a
  r:I = clif.call box {callee=@use}
  clif.return r
  ^b
  s:I = clif.load box {offset=0}
  clif.return s
"""
P["parameter stored in a new object"] = """
fn f p:R
  n:L = clif.iconst {value=16}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  clif.store p pay {offset=0}
  obj:R = core.unrealized_conversion_cast pay
  clif.return obj
"""
P["one value stored twice"] = """
fn f p:R
  n:L = clif.iconst {value=24}
  raw:P = clif.call n {callee=@__tribute_alloc}
  eight:L = clif.iconst {value=8}
  pay:P = clif.iadd raw eight
  clif.store p pay {offset=0}
  clif.store p pay {offset=8}
  obj:R = core.unrealized_conversion_cast pay
  clif.return obj
"""
P["call result stored"] = """
fn f p:R
  x:R = clif.call p {callee=@make}
  clif.store x p {offset=0}
  y:I = clif.load p {offset=8}
  clif.return y
"""
P["stored and used later"] = """
fn f p:R
  x:R = clif.call {callee=@make}
  clif.store x p {offset=0}
  y:I = clif.load x {offset=0}
  clif.return y
"""
P["field read and dropped"] = """
fn f p:R
  l:R = clif.load p {offset=8}
  v:I = clif.load l {offset=0}
  clif.return v
"""
P["field returned"] = """
fn f p:R
  l:R = clif.load p {offset=8}
  clif.return l
"""
P["field of a call result"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  v:I = clif.load l {offset=0}
  clif.return v
"""
P["field of a call result returned"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.return l
"""
P["field of a field"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  m:R = clif.load l {offset=8}
  n:R = clif.load m {offset=8}
  v:I = clif.load n {offset=0}
  w:I = clif.load m {offset=0}
  u:I = clif.iadd v w
  clif.return u
"""
P["field compared and written through"] = """
fn f v:I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  m:R = clif.load x {offset=16}
  e:I = clif.icmp l m {cond=@eq}
  clif.store v l {offset=0}
  clif.return e
"""
P["field passed to a call"] = """
fn f
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  v:I = clif.call l {callee=@use}
  clif.return v
"""
P["field stored elsewhere"] = """
fn f p:R
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.store l p {offset=0}
  v:I = clif.load l {offset=0}
  clif.return v
"""
P["field through a cast"] = """
fn f
  x:R = clif.call {callee=@make}
  c:P = core.unrealized_conversion_cast x
  l:R = clif.load c {offset=8}
  d:P = core.unrealized_conversion_cast l
  v:I = clif.load d {offset=0}
  clif.return v
"""
P["field used in a later block"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load l {offset=0}
  clif.return v
  ^b
  clif.return c
"""
P["field used in both branches"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load l {offset=0}
  clif.return v
  ^b
  w:I = clif.load l {offset=4}
  clif.return w
"""
P["field used after a join"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.brif c -> ^a ^b
  ^a
  clif.jump -> ^j
  ^b
  clif.jump -> ^j
  ^j
  v:I = clif.load l {offset=0}
  clif.return v
"""
P["field used in a loop"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  clif.jump -> ^h
  ^h
  v:I = clif.load l {offset=0}
  clif.brif v -> ^b ^e
  ^b
  clif.jump -> ^h
  ^e
  clif.return v
"""
P["used in one branch only"] = """
fn f p:R c:I
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load p {offset=0}
  clif.return v
  ^b
  clif.return c
"""
P["call result used in one branch only"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.call x {callee=@use}
  clif.return v
  ^b
  clif.return c
"""
P["returned from one branch"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  clif.return p
  ^b
  clif.return q
"""
P["used in one branch, then a join"] = """
fn f p:R c:I
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load p {offset=0}
  clif.jump v -> ^j
  ^b
  clif.jump c -> ^j
  ^j r:I
  clif.return r
"""
P["used after a join"] = """
fn f p:R c:I
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load p {offset=0}
  clif.jump v -> ^j
  ^b
  clif.jump c -> ^j
  ^j r:I
  w:I = clif.load p {offset=4}
  clif.return w
"""
P["passed along an edge"] = """
fn f p:R
  clif.jump p -> ^j
  ^j r:R
  w:I = clif.load r {offset=4}
  clif.return w
"""
P["chosen by a branch"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  clif.jump p -> ^j
  ^b
  clif.jump q -> ^j
  ^j r:R
  w:I = clif.load r {offset=4}
  clif.return w
"""
P["chosen by a branch and returned"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  x:R = clif.call p {callee=@make}
  clif.jump x -> ^j
  ^b
  clif.jump q -> ^j
  ^j r:R
  clif.return r
"""
P["passed along an edge and still used"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  clif.jump p -> ^j
  ^b
  clif.jump q -> ^j
  ^j r:R
  w:I = clif.call r p {callee=@use2}
  clif.return w
"""
P["passed twice along an edge"] = """
fn f p:R
  clif.jump p p -> ^j
  ^j r:R s:R
  w:I = clif.call r s {callee=@use2}
  clif.return w
"""
P["passed along an edge, target ignores it"] = """
fn f p:R c:I
  clif.jump p -> ^j
  ^j r:R
  clif.return c
"""
P["new value passed along an edge and still used"] = """
fn f c:I
  x:R = clif.call {callee=@make}
  clif.jump x -> ^j
  ^j r:R
  w:I = clif.call r x {callee=@use2}
  clif.return w
"""
P["loop-carried value"] = """
fn f p:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  y:R = clif.call x {callee=@next}
  clif.jump y -> ^h
  ^e
  v:I = clif.load x {offset=0}
  clif.return v
"""
P["loop-carried value returned"] = """
fn f p:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  y:R = clif.call x {callee=@next}
  clif.jump y -> ^h
  ^e
  clif.return x
"""
P["loop-invariant value"] = """
fn f p:R q:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x q {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  y:R = clif.call x q {callee=@next}
  clif.jump y -> ^h
  ^e
  clif.return x
"""
P["initial loop value still used in the loop"] = """
fn f p:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x p {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  y:R = clif.call x p {callee=@next}
  clif.jump y -> ^h
  ^e
  clif.return k
"""
P["loop that keeps its value"] = """
fn f p:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  clif.jump x -> ^h
  ^e
  v:I = clif.load x {offset=0}
  clif.return v
"""
P["value used only inside the loop"] = """
fn f q:R n:I
  clif.jump n -> ^h
  ^h i:I
  k:I = clif.icmp i n {cond=@eq}
  clif.brif k -> ^b ^e
  ^b
  j:I = clif.call q i {callee=@step}
  clif.jump j -> ^h
  ^e
  clif.return i
"""
P["dies on one of several edges into a block"] = """
fn f p:R c:I
  clif.brif c -> ^a ^e
  ^a
  k:I = clif.call p {callee=@use}
  clif.brif k -> ^b ^e
  ^b
  clif.jump -> ^e
  ^e
  clif.return c
"""
P["new value dies on one of several edges"] = """
fn f c:I
  clif.brif c -> ^a ^e
  ^a
  x:R = clif.call {callee=@make}
  clif.brif c -> ^b ^e
  ^b
  k:I = clif.call x {callee=@use}
  clif.jump -> ^e
  ^e
  clif.return c
"""
P["dies on both edges of one branch"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  k:I = clif.call p {callee=@use}
  clif.brif k -> ^b ^d
  ^b
  l:I = clif.call q {callee=@use}
  clif.return l
  ^d
  clif.return k
"""
P["loop that skips the use"] = """
fn f p:R q:R c:I
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call {callee=@more}
  clif.brif k -> ^b ^e
  ^b
  l:I = clif.call q {callee=@use}
  clif.brif l -> ^u ^s
  ^u
  m:R = clif.call x q {callee=@next}
  clif.jump m -> ^h
  ^s
  n:R = clif.call {callee=@make}
  clif.jump n -> ^h
  ^e
  clif.return k
"""
P["read by the outer of two nested loops"] = """
fn f p:R c:I
  clif.jump -> ^h
  ^h
  k:I = clif.load p {offset=0}
  clif.brif k -> ^i ^e
  ^i
  clif.brif c -> ^b ^h
  ^b
  clif.jump -> ^i
  ^e
  clif.return c
"""
P["read by the innermost of three nested loops"] = """
fn f p:R q:R c:I
  clif.jump -> ^h
  ^h
  k:I = clif.call {callee=@more}
  clif.brif k -> ^i ^e
  ^i
  l:I = clif.call q {callee=@more2}
  clif.brif l -> ^j ^h
  ^j
  m:I = clif.load p {offset=0}
  clif.brif m -> ^j ^i
  ^e
  clif.return c
"""
P["read by the outermost of three nested loops"] = """
fn f p:R c:I
  clif.jump -> ^h
  ^h
  k:I = clif.load p {offset=0}
  clif.brif k -> ^i ^e
  ^i
  l:I = clif.call {callee=@more2}
  clif.brif l -> ^j ^h
  ^j
  m:I = clif.call {callee=@more3}
  clif.brif m -> ^b ^i
  ^b
  clif.jump -> ^j
  ^e
  clif.return c
"""
P["inner loop carries a value the outer loop replaces"] = """
fn f p:R q:R
  clif.jump p -> ^h
  ^h x:R
  k:I = clif.call x {callee=@more}
  clif.brif k -> ^s ^e
  ^s
  clif.jump x -> ^i
  ^i y:R
  l:I = clif.call y q {callee=@more2}
  clif.brif l -> ^b ^d
  ^b
  z:R = clif.call y {callee=@next}
  clif.jump z -> ^i
  ^d
  clif.jump y -> ^h
  ^e
  clif.return x
"""
P["leaves both loops from the inner one"] = """
fn f p:R q:R c:I
  clif.jump -> ^h
  ^h
  x:R = clif.call {callee=@make}
  clif.jump -> ^i
  ^i
  l:I = clif.call q {callee=@more2}
  clif.brif l -> ^b ^e
  ^b
  m:I = clif.load x {offset=0}
  clif.brif m -> ^i ^h
  ^e
  clif.return p
"""
P["blocks listed out of order"] = """
fn f p:R q:R c:I
  clif.jump -> ^h
  ^e
  clif.return c
  ^b
  l:I = clif.call q {callee=@use}
  clif.jump -> ^h
  ^t
  m:I = clif.call p {callee=@use}
  clif.jump -> ^e
  ^h
  k:I = clif.call {callee=@more}
  clif.brif k -> ^b ^t
"""
P["two ways into a loop"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  k:I = clif.load p {offset=0}
  clif.brif k -> ^b ^e
  ^b
  l:I = clif.call q {callee=@more}
  clif.brif l -> ^a ^e
  ^e
  clif.return c
"""
P["nested branches"] = """
fn f p:R q:R c:I
  clif.brif c -> ^a ^b
  ^a
  d:I = clif.load p {offset=0}
  clif.brif d -> ^aa ^ab
  ^aa
  clif.jump p -> ^j
  ^ab
  x:R = clif.call q {callee=@make}
  clif.jump x -> ^j
  ^b
  clif.jump q -> ^j
  ^j r:R
  v:I = clif.call r {callee=@use}
  clif.return v
"""
P["branch that traps"] = """
fn f p:R c:I
  v:I = clif.load p {offset=0}
  clif.brif c -> ^a ^b
  ^a
  clif.trap {code=@user1}
  ^b
  clif.return p
"""
P["null passed along an edge"] = """
fn f p:R c:I
  clif.brif c -> ^a ^b
  ^a
  z:R = clif.iconst {value=0}
  clif.jump z -> ^j
  ^b
  clif.jump p -> ^j
  ^j r:R
  v:I = clif.call r {callee=@use}
  clif.return v
"""
P["cast keeps the value alive"] = """
fn f
  x:R = clif.call {callee=@make}
  c:P = core.unrealized_conversion_cast x
  v:I = clif.call c {callee=@use}
  clif.return v
"""
P["cast returned"] = """
fn f
  x:R = clif.call {callee=@make}
  c:P = core.unrealized_conversion_cast x
  v:I = clif.call c {callee=@use}
  clif.return c
"""
P["cast of a cast used in a later block"] = """
fn f k:I
  x:R = clif.call {callee=@make}
  c:P = core.unrealized_conversion_cast x
  d:Q = core.unrealized_conversion_cast c
  clif.jump -> ^j
  ^j
  v:I = clif.call d {callee=@use}
  clif.return v
"""
P["two functions"] = """
fn f p:R
  x:R = clif.call p {callee=@g}
  v:I = clif.load x {offset=0}
  clif.return v
fn g q:R
  w:I = clif.load q {offset=0}
  clif.return q
"""
P["indirect call"] = """
fn f p:R k:P
  x:R = clif.call_indirect k p {sig=!F}
  v:I = clif.load x {offset=0}
  clif.return v
"""

# with the ownership contracts the compiler derives itself
Q = {}
Q["tail transfer"] = """
fn f p:R cps
  clif.return_call p {callee=@g}
fn g q:R cps
  v:I = clif.load q {offset=0}
  clif.return
"""
Q["tail transfer after plain arguments"] = """
fn f i:I a:R j:I b:R -> I cps
  x:R = clif.call a {callee=@make}
  clif.return_call i x j b {callee=@t}
fn t i:I a:R j:I b:R -> I cps
  clif.return
"""
Q["indirect tail transfer after plain arguments"] = """
fn f i:I a:R k:P j:I -> I cps
  clif.return_call_indirect k i a j a
"""
Q["value dies on an edge to a bare exit"] = """
fn f a:R i:I -> I
  x:R = clif.call i {callee=@make}
  clif.brif i -> ^l ^r
  ^l
  v:I = clif.load x {offset=0}
  clif.return v
  ^r
  clif.return i
"""
Q["value dies on an edge to a bare jump"] = """
fn f a:R i:I -> I
  x:R = clif.call i {callee=@make}
  clif.brif i -> ^l ^r
  ^l
  v:I = clif.load x {offset=0}
  clif.jump v -> ^j
  ^r
  clif.jump i -> ^j
  ^j w:I
  clif.return w
"""
Q["tail transfer of one of two"] = """
fn f p:R r:R cps
  clif.return_call p {callee=@g}
fn g q:R cps
  v:I = clif.load q {offset=0}
  clif.return
"""
Q["tail transfer twice"] = """
fn f p:R cps
  clif.return_call p p {callee=@g}
fn g q:R s:R cps
  v:I = clif.load q {offset=0}
  clif.return
"""
Q["tail transfer of a new value"] = """
fn f p:R cps
  x:R = clif.call p {callee=@make}
  clif.return_call x p {callee=@g}
fn g q:R s:R cps
  clif.return
"""
Q["tail transfer of a field"] = """
fn f p:R cps
  l:R = clif.load p {offset=8}
  clif.return_call l {callee=@g}
fn g q:R cps
  clif.return
"""
Q["tail transfer of a field and its owner"] = """
fn f p:R cps
  l:R = clif.load p {offset=8}
  clif.return_call l p {callee=@g}
fn g q:R r:R cps
  clif.return
"""
Q["tail transfer of a field twice"] = """
fn f p:R cps
  l:R = clif.load p {offset=8}
  clif.return_call l l {callee=@g}
fn g q:R r:R cps
  clif.return
"""
Q["tail transfer in branches"] = """
fn f p:R r:R c:I cps
  clif.brif c -> ^a ^b
  ^a
  clif.return_call p {callee=@g}
  ^b
  clif.return_call r {callee=@g}
fn g q:R cps
  clif.return
"""
Q["consumed parameter dropped in one branch"] = """
fn f p:R c:I cps
  clif.brif c -> ^a ^b
  ^a
  clif.return_call p {callee=@g}
  ^b
  clif.return
fn g q:R cps
  clif.return
"""
Q["consumed parameter unused"] = """
fn f p:R c:I cps
  clif.return
"""
Q["ordinary call of a consuming function"] = """
fn f p:R -> I
  v:I = clif.call p {callee=@g}
  w:I = clif.load p {offset=0}
  clif.return w
fn g q:R cps
  clif.return
"""
Q["ordinary call consuming one value twice"] = """
fn f p:R -> I
  x:R = clif.call p {callee=@make}
  v:I = clif.call x x {callee=@g}
  clif.return v
fn g q:R r:R cps
  clif.return
"""
Q["borrowed parameter"] = """
fn f p:R -> I
  v:I = clif.load p {offset=0}
  clif.return v
"""
Q["borrowed parameter across blocks"] = """
fn f p:R c:I -> I
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.load p {offset=0}
  clif.return v
  ^b
  w:I = clif.load p {offset=4}
  clif.return w
"""
Q["borrowed through a call"] = """
fn f p:R -> I
  v:I = clif.call p {callee=@g}
  clif.return v
fn g q:R -> I
  w:I = clif.load q {offset=0}
  clif.return w
"""
Q["borrowed callee, temporary argument"] = """
fn f -> I
  x:R = clif.call {callee=@make}
  v:I = clif.call x {callee=@g}
  clif.return v
fn g q:R -> I
  w:I = clif.load q {offset=0}
  clif.return w
"""
Q["only read but returned"] = """
fn f p:R -> R
  clif.return p
"""
Q["only read but stored"] = """
fn f p:R q:R -> I
  clif.store p q {offset=0}
  v:I = clif.load q {offset=0}
  clif.return v
"""
Q["only read but passed along an edge"] = """
fn f p:R -> I
  clif.jump p -> ^j
  ^j r:R
  v:I = clif.load r {offset=0}
  clif.return v
"""
Q["only read but cast and returned"] = """
fn f p:R -> P
  c:P = core.unrealized_conversion_cast p
  clif.return c
"""
Q["only read but field returned"] = """
fn f p:R -> R
  l:R = clif.load p {offset=8}
  clif.return l
"""
Q["claimed borrowed, target of a tail call"] = """
fn f p:R cps
  clif.return_call p {callee=@g}
fn g q:R cps
  l:R = clif.load q {offset=8}
  v:I = clif.load l {offset=0}
  clif.return
"""
Q["indirect tail transfer"] = """
fn f p:R k:P cps
  x:R = clif.call {callee=@make}
  clif.return_call_indirect k x p {sig=!F}
"""
Q["indirect tail transfer of a borrowed temporary"] = """
fn f p:R k:P cps
  l:R = clif.load p {offset=8}
  clif.return_call_indirect k l {sig=!F}
"""

Q["address taken"] = """
fn f c:I -> I
  x:R = clif.call {callee=@make}
  k:P = clif.symbol_addr {sym=@g}
  v:I = clif.call_indirect k x {sig=!F}
  w:I = clif.call x {callee=@g}
  clif.return w
fn g q:R -> I
  v:I = clif.load q {offset=0}
  clif.return v
"""
Q["recursive reader"] = """
fn f p:R c:I -> I
  clif.brif c -> ^a ^b
  ^a
  v:I = clif.call p c {callee=@f}
  clif.return v
  ^b
  w:I = clif.load p {offset=0}
  clif.return w
"""
Q["borrow chain broken at the end"] = """
fn f p:R -> I
  v:I = clif.call p {callee=@g}
  clif.return v
fn g q:R -> I
  v:I = clif.call q {callee=@h}
  clif.return v
fn h r:R -> I
  x:R = clif.call {callee=@make}
  clif.store r x {offset=0}
  clif.return_call x {callee=@k}
fn k s:R cps
  v:I = clif.load s {offset=0}
  clif.return
"""
Q["borrow chain broken at the end"] = Q["borrow chain broken at the end"].replace("fn h r:R -> I", "fn h r:R cps")
Q["borrowed argument is a field"] = """
fn f -> I
  x:R = clif.call {callee=@make}
  l:R = clif.load x {offset=8}
  v:I = clif.call l {callee=@g}
  clif.return v
fn g q:R -> I
  w:I = clif.load q {offset=0}
  clif.return w
"""
Q["loop over a borrowed parameter"] = """
fn f p:R n:I -> I
  clif.jump n -> ^h
  ^h i:I
  k:I = clif.call p i {callee=@g}
  clif.brif k -> ^b ^e
  ^b
  clif.jump k -> ^h
  ^e
  clif.return i
fn g q:R i:I -> I
  w:I = clif.load q {offset=0}
  clif.return w
"""
Q["tail loop"] = """
fn f p:R q:R n:I cps
  c:I = clif.load p {offset=0}
  clif.brif c -> ^a ^b
  ^a
  x:R = clif.call p {callee=@next}
  clif.return_call x q n {callee=@f}
  ^b
  l:R = clif.load q {offset=8}
  clif.return_call l q n {callee=@f}
"""
Q["consumed parameter passed along an edge"] = """
fn f p:R c:I cps
  clif.jump p -> ^j
  ^j r:R
  v:I = clif.load r {offset=0}
  clif.return_call r {callee=@g}
fn g q:R cps
  clif.return
"""
Q["consumed parameter stored"] = """
fn f p:R c:I cps
  x:R = clif.call {callee=@make}
  clif.store p x {offset=8}
  clif.return_call x {callee=@g}
fn g q:R cps
  clif.return
"""
Q["consumed and also passed to an ordinary call"] = """
fn f p:R c:I cps
  v:I = clif.call p {callee=@h}
  clif.return_call p {callee=@g}
fn g q:R cps
  clif.return
fn h r:R -> I
  w:I = clif.load r {offset=0}
  clif.return w
"""

TY = {"R": "tribute_rt.anyref", "P": "core.ptr", "Q": "core.array", "I": "core.i32", "L": "core.i64"}
NIL = ("ty", S("core"), S("nil"), ("seq", ()), ("map", ()))


def functy(params, ret):
    # core.func keeps its return type first
    return ("ty", S("core"), S("func"), ("seq", (ret,) + tuple(params)), ("map", ()))


def build(h, text):
    """-> (module op, {name: (func op, [mode])})"""
    lines, heads = [], []
    sub = lambda l: re.sub(r":([RPQIL])(?=\s|$)", lambda m: ":" + TY[m[1]], l)
    for l in text.strip("\n").splitlines():
        if l.startswith("fn "):
            m = re.match(r"fn (\w+)([^>]*?)(?:-> (\w+))?( cps)?$", l)
            ps = m[2].split()
            modes = ["retained" if ":R" in p else "plain" for p in ps]
            heads.append((m[1], modes, [ty(TY[p.split(":")[1]]) for p in ps], NIL if m[4] else ty(TY[m[3] or "I"]), bool(m[4])))
            lines.append(f"clif.func {{sym_name=@{m[1]}}}")
            lines.append("  ^" + m[1] + "_entry " + sub(" ".join(ps)))
        else:
            lines.append(sub(l) if not l.lstrip().startswith("^") else sub(l))
    lay = Layout(h, "\n".join(["test.declaration {sym_name=@decl}"] + lines))
    fs = {}
    for i, (n, modes, pts, rt, cps) in enumerate(heads):
        o = lay.ops["clif.func" if i == 0 else f"clif.func.{i + 1}"]
        a = h.get("Op", o)
        at = a[3][a[4].index("attributes")]
        at = ("map", at[1] + ((S("type"), ("adt", ATTR, "Type", (functy(pts, rt),), ("0",))),))
        h.set("Op", o, "attributes", at)
        fs[n] = (o, modes, cps)
    v = h.view(h.st)
    for o in lay.ops.values():
        if "indirect" in (v.opname(o) or ""):
            sig = functy([h_ty(v, x) for x in v.operands(o)[1:]],
                         NIL if "return" in v.opname(o) else h_ty(v, v.results(o)[0]))
            put(h, o, "sig", ("adt", ATTR, "Type", (sig,), ("0",)))
    m = h.op("M", "core.module", [], [], regions=[lay.top], attrs={"sym_name": attr("@m")})
    return m, fs


class Leak(Exception):
    pass


class Rc:
    """Ownership typestate along one path."""

    def __init__(self, v0, v, contracts, maxsteps=160):
        self.v0, self.v, self.contracts, self.maxsteps = v0, v, contracts, maxsteps

    def ty0(self, x):
        """Type before the pass lowered it."""
        d = self.v0.field("Value", x, "def")
        if d is None:
            return None
        d0, i = d[3][0], d[3][1][1]
        if d[2] == "OpResult":
            return self.v0.seq(self.v0.field("Op", d0, "results"))[i]
        a = self.v0.seq(self.v0.field("Block", d0, "args"))[i]
        return a[3][a[4].index("ty")]

    def managed(self, x):
        t = self.ty0(x)
        return t is not None and t[0] == "ty" and t[1:3] == (S("tribute_rt"), S("anyref"))

    def alive(self, o):
        return self.cnt[o] > 0 or self.caller[o] or (self.parent[o] is not None and self.alive(self.parent[o])) or \
            any(self.alive(c) for c in self.inside[o] if c != o)

    def new(self, text, cnt, caller=False, parent=None, managed=True):
        o = len(self.cnt)
        self.cnt.append(cnt)
        self.caller.append(caller)
        self.parent.append(parent)
        self.inside.append([])
        self.names.append(text)
        self.mgd.append(managed)
        self.size.append(None)
        return ("obj", o)

    def name(self, o):
        return self.names[o]

    def touch(self, x, what):
        if x[0] == "obj" and self.mgd[x[1]] and not self.alive(x[1]):
            raise Bad(f"{what} uses {self.name(x[1])} after its last reference is gone")

    def drop(self, x, what):
        """Give one reference away."""
        if x[0] != "obj":
            return
        o = x[1]
        if self.cnt[o] <= 0:
            raise Bad(f"{what} gives away a reference to {self.name(o)} that the function does not hold")
        self.cnt[o] -= 1

    def done(self, what):
        for o, c in enumerate(self.cnt):
            if c > 0 and self.mgd[o]:
                raise Leak(f"{self.name(o)} is still held at {what}")

    def flat(self, b):
        """The ops of a block; `t.do` runs its region first."""
        for o in self.v.ops(b):
            if self.v.opname(o) == "t.do":
                for r in self.v.seq(self.v.field("Op", o, "regions")):
                    yield from self.flat(self.v.seq(self.v.field("Region", r, "blocks"))[0])
            yield o

    def path(self, func, modes, choices):
        """-> choices used; raises Bad on a violation."""
        v = self.v
        self.cnt, self.caller, self.parent, self.inside, self.names, self.mgd, self.size = [], [], [], [], [], [], []
        self.consts = {}
        bs = v.seq(v.field("Region", v.seq(v.field("Op", func, "regions"))[0], "blocks"))
        b = bs[0]
        env = {}
        for i, p in enumerate(v.bargs(b)):
            if self.managed(p):
                m = modes[i]
                env[p] = self.new(f"parameter {i}", 1 if m == "consumed" else 0, caller=m != "consumed")
            else:
                env[p] = ("plain", f"parameter {i}")
        used = 0
        steps = 0
        while True:
            for o in self.flat(b):
                steps += 1
                if steps > self.maxsteps:
                    return used
                nm = v.opname(o)
                xs = v.operands(o)
                if nm is None or xs is None:
                    raise Unclear("op")
                for x in xs:
                    if x not in env:
                        raise Bad(f"{nm} reads {x[2]} before it is defined")
                a = [env[x] for x in xs]
                rs = v.results(o)
                succ = v.seq(v.field("Op", o, "successors"))
                if nm == "tribute_rt.retain":
                    self.touch(a[0], nm)
                    if a[0][0] == "obj":
                        self.cnt[a[0][1]] += 1
                    env[rs[0]] = a[0]
                elif nm == "tribute_rt.release":
                    if a[0][0] == "obj":
                        ob = a[0][1]
                        if self.cnt[ob] <= 0:
                            raise Bad(f"{self.name(ob)} is released more often than it was acquired")
                        self.cnt[ob] -= 1
                        sz = Meaning(v).attr(o, "alloc_size")
                        n = sz[3][0] if sz is not None and sz[0] == "adt" else None
                        if n is None or n[0] != "c":
                            raise Unclear("release size")
                        if n[1] not in (0, self.size[ob]):
                            raise Bad(f"{self.name(ob)} is released with size {n[1]}, allocated with {self.size[ob]}")
                    elif a[0] not in (("null",), ("plain", "null")):
                        raise Bad(f"release of {a[0][1]}, which is not a counted object")
                elif nm == "clif.iconst":
                    k = Meaning(v).attr(o, "value")
                    k = k[3][0][1] if k is not None and k[0] == "adt" and k[3][0][0] == "c" else None
                    env[rs[0]] = ("null",) if k == 0 and self.managed(rs[0]) else ("const", k)
                elif nm in ("core.unrealized_conversion_cast", "clif.iadd"):
                    env[rs[0]] = a[0]
                    if a[0][0] == "obj" and self.managed(rs[0]):
                        self.mgd[a[0][1]] = True
                    if a[0][0] != "obj" and self.managed(rs[0]):
                        env[rs[0]] = self.new(rs[0][2], 0, caller=True)
                elif nm == "clif.load":
                    self.touch(a[0], nm)
                    if self.managed(rs[0]):
                        env[rs[0]] = self.new(f"the field read by {o[2]}", 0, parent=a[0][1] if a[0][0] == "obj" else None,
                                              caller=a[0][0] != "obj")
                    else:
                        env[rs[0]] = ("plain", o[2])
                elif nm == "clif.store":
                    self.touch(a[0], nm)
                    self.touch(a[1], nm)
                    if a[0][0] == "obj" and self.managed(xs[0]):
                        self.drop(a[0], nm)
                        if a[1][0] == "obj":
                            self.inside[a[0][1]].append(a[1][1])
                        else:
                            self.caller[a[0][1]] = True
                elif nm in ("clif.call", "clif.call_indirect", "clif.return_call", "clif.return_call_indirect"):
                    for x in a:
                        self.touch(x, nm)
                    args = a[1:] if "indirect" in nm else a
                    acts = self.contracts.get(o[2]) or []
                    for x, act in zip(args, acts):
                        if act in ("acquire", "transfer"):
                            self.drop(x, nm)
                    if "return" in nm:
                        self.done("the tail call")
                        return used
                    cal = Meaning(v).attr(o, "callee")
                    cal = cal[3][0][1] if cal is not None and cal[0] == "adt" else ""
                    for r in rs:
                        if cal == "__tribute_alloc":
                            env[r] = self.new("the new object", 1, managed=False)
                            self.size[env[r][1]] = a[0][1] if a[0][0] == "const" else None
                        elif self.managed(r):
                            env[r] = self.new(f"the result of {cal or o[2]}", 1)
                        else:
                            env[r] = ("plain", o[2])
                elif nm == "clif.return":
                    for x, xv in zip(a, xs):
                        if x[0] == "obj" and self.mgd[x[1]]:
                            self.touch(x, nm)
                            self.drop(x, nm)
                    self.done("return")
                    return used
                elif nm == "clif.trap":
                    return used
                elif nm == "clif.jump":
                    ps = v.bargs(succ[0])
                    if len(ps) != len(a):
                        raise Bad(f"jump passes {len(a)} values for {len(ps)}")
                    for p, x in zip(ps, a):
                        env[p] = x if x[0] != "const" else ("null",) if x[1] == 0 else x
                    b = succ[0]
                    break
                elif nm == "clif.brif":
                    if used >= len(choices):
                        raise Stop()
                    b = succ[0] if choices[used] else succ[1]
                    used += 1
                    break
                else:
                    for x in a:
                        self.touch(x, nm)
                    for r in rs:
                        env[r] = ("plain", o[2])
            else:
                raise Bad(f"block {b[2]} has no terminator")


def paths(rc, func, modes, budget=5):
    """All paths with up to `budget` branches. -> (None | text, number of paths)"""
    todo = [()]
    n = 0
    while todo:
        c = todo.pop()
        try:
            rc.path(func, modes, c)
            n += 1
        except Stop:
            if len(c) < budget:
                todo += [c + (False,), c + (True,)]
        except (Bad, Leak) as x:
            br = " when the branches go " + ", ".join("then" if k else "else" for k in c) if c else ""
            return str(x) + br, n
    return None, n


def same_ops(v0, v):
    """The other ops are as they were."""
    for b in v0.all("Block"):
        o0, o1 = v0.ops(b), v.ops(b)
        keep = [o for o in o1 if v.opname(o) not in ("tribute_rt.retain", "tribute_rt.release") or o in o0]
        if o0 != keep:
            return f"block {b[2]} has ops {[x[2] for x in keep]} instead of {[x[2] for x in o0]}"
        for o in o0:
            if v0.operands(o) != v.operands(o):
                return f"operands of {o[2]} change"
    return None


def mod_of(ctx):
    mod = next(p for p in ctx.P.adts if p.startswith("trunk_ir::rewrite") and p.endswith("::Module"))
    return mod, tuple(x[0] for x in ctx.P.adts[mod]["vars"][0][2])


def enum(path, var):
    return ("adt", path, var, (), ())


def judge(ctx, key, e, rs, hold, where):
    if rs is None:
        ctx.unk(key, e.failed)
        return
    ctx.verdicts(key, [(r, one(key, e, r, hold)) for r in rs], where)


def one(key, e, r, hold):
    if r.end != "ret":
        return "bad", f"{key}: the pass stops: {r.end}"
    rv = e.freeze(r.st, r.ret)
    if rv[0] == "adt" and rv[2] == "Err":
        return "bad", f"{key}: the pass refuses the module: {brief(rv, 100)}"
    v = hold["h"].view(r.st)
    bad, unk = invariants(v, set(o for o in v.all("Op") if o not in reach_ops(v, ("ent", "Op", "M"))))
    if bad:
        return "bad", f"{key}: " + "; ".join(bad[:2])
    d = same_ops(hold["v0"], v)
    if d:
        return "bad", f"{key}: {d}"
    for n, (o, modes, cps) in hold["fs"].items():
        try:
            d, k = paths(Rc(hold["v0"], v, hold.get("contracts", {})), o, modes)
        except Unclear as u:
            return "unk", str(u)
        if d:
            return "bad", f"{key}: in {n}, {d}"
    return None


BP, TP = N + "BorrowedParameterPolicy", N + "TemporaryBorrowPolicy"
CC = "tribute_core::calling_convention::"
UP = {"func": "func", "call": "call", "return_call": "tail_call", "call_indirect": "call_indirect", "return_call_indirect": "tail_call_indirect",
      "return": "return", "symbol_addr": "constant"}
IDENT = {"trunk_ir::rewrite::type_converter::TypeConverter::convert_type_or_identity": lambda eng, st, fr, args, targs, path, t: eng.freeze(st, args[2])}


def put(h, o, key, val):
    a = h.get("Op", o)
    at = a[3][a[4].index("attributes")]
    h.set("Op", o, "attributes", ("map", tuple((k, x) for k, x in at[1] if k != S(key)) + ((S(key), val),)))


def contracts(eng, st, h, m, mod, mf, fs):
    """Let the compiler derive its ownership contracts one level up, then bring the functions down. -> trusted summaries"""
    v = h.view(st)
    cps = enum(CC + "CallingConvention", "Cps")
    low = []
    for o in v.all("Op"):
        nm = v.opname(o)
        if nm is None or not nm.startswith("clif.") or nm[5:] not in UP:
            continue
        low.append((o, nm[5:]))
        if nm == "clif.symbol_addr":
            put(h, o, "func_ref", Meaning(v).attr(o, "sym"))
        if "indirect" in nm:
            sig = Meaning(v).attr(o, "sig")[3][0]
            call1(eng, st, CC + "set_indirect_call_signature", [h.ref, o, sig])
        if "return_call" in nm:
            call1(eng, st, CC + "set_calling_convention", [h.ref, o, cps])
        h.set("Op", o, "dialect", S("func"))
        h.set("Op", o, "name", S(UP[nm[5:]]))
    for n, (o, modes, c) in fs.items():
        if c:
            call1(eng, st, CC + "set_calling_convention", [h.ref, o, cps])
    r = call1(eng, st, OS + "compute_and_attach", [h.ref, ("adt", mod, "Module", (m,), mf), eng.ref_to(st, T("tc"))])
    r = eng.deref(st, r)
    if r[0] != "adt" or r[2] != "Ok":
        raise (Budget if st.conds else absint.Definite)("contracts not derived: " + brief(eng.freeze(st, r), 120))
    for o, nm in low:
        h.set("Op", o, "dialect", S("clif"))
        h.set("Op", o, "name", S(nm))
    return r[3][0]


def h_ty(v, x):
    d = v.field("Value", x, "def")
    d0, i = d[3][0], d[3][1][1]
    if d[2] == "OpResult":
        return v.seq(v.field("Op", d0, "results"))[i]
    a = v.seq(v.field("Block", d0, "args"))[i]
    return a[3][a[4].index("ty")]


def words(v, o, key):
    """A list attribute of symbols."""
    a = Meaning(v).attr(o, key)
    if a is None:
        return None
    if a[0] != "adt" or a[2] != "List":
        raise Unclear(key)
    return [x[3][0][1] for x in v.seq(a[3][0])]


def plain_setup(ctx, text, pol, hold, after=None):
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        m, fs = build(h, text)
        hold.update(h=h, v0=h.view(st.fork()), fs=fs, contracts={})
        args = [h.ref, ("adt", mod, "Module", (m,), mf), enum(BP, "Preserve"), enum(TP, pol)]
        return after(eng, st, h, args, PLAIN) if after else args
    return setup


def trust_setup(ctx, text, bp, pol, hold, after=None):
    mod, mf = mod_of(ctx)

    def setup(eng, st, a):
        h = Heap(eng, st)
        m, fs = build(h, text)
        t = contracts(eng, st, h, m, mod, mf, fs)
        v = h.view(st.fork())
        nf = {}
        for n, (o, modes, c) in fs.items():
            w = words(v, o, "tribute.rc.parameter_entry_ownership_v1")
            if w is None or len(w) != len(modes):
                raise (Budget if st.conds else absint.Definite)("no entry contract for " + n)
            nf[n] = (o, w, c)
        cc = {}
        for o in v.all("Op"):
            w = words(v, o, "tribute.rc.call_argument_ownership_v1")
            if w is not None:
                cc[o[2]] = w
        hold.update(h=h, v0=v, fs=nf, contracts=cc)
        hold["claims"] = claims(v, nf, cc)
        args = [h.ref, ("adt", mod, "Module", (m,), mf), enum(BP, bp), enum(TP, pol), eng.ref_to(st, t)]
        return after(eng, st, h, args, TRUST) if after else args
    return setup


def claims(v, fs, cc):
    """Caller and callee agree on who owns an argument."""
    for o in v.all("Op"):
        nm = v.opname(o)
        if nm not in ("clif.call", "clif.return_call", "clif.return_call_indirect"):
            continue
        cal = Meaning(v).attr(o, "callee")
        cal = cal[3][0][1] if cal is not None else None
        acts = cc.get(o[2])
        if cal in fs:
            want = fs[cal][1]
            given = acts or ["retained"] * len(want)
            for i, (w, g) in enumerate(zip(want, given)):
                if (w == "consumed") != (g in ("acquire", "transfer")):
                    return f"{cal} is told {g} for argument {i} while it treats it as {w}"
        if nm == "clif.return_call_indirect":
            for i, x in enumerate(v.operands(o)[1:]):
                if h_ty(v, x)[1:3] == (S("tribute_rt"), S("anyref")) and (acts is None or acts[i] != "transfer"):
                    return f"the indirect tail call does not hand over argument {i}"
    return None


def check(ctx):
    ctx.rule("along every path, no reference is given away that is not held, nothing is used after its last reference, nothing is held at exit")
    ctx.rule("releases state the allocated size or none; the other operations are unchanged")
    ctx.rule("caller and callee agree on who owns an argument")
    for p in (PLAIN, TRUST, BP, TP, OS + "compute_and_attach"):
        if p not in ctx.P.fns and p not in ctx.P.adts:
            ctx.bad(p, "reference counting entry point not found", p)
            return
    jobs = []
    for pol in ("Preserve", "ElideProvenFieldBorrows"):
        for name, text in P.items():
            jobs.append(lambda a=(name, text, pol): plain_case(ctx, *a))
        for bp in ("Preserve", "ElideProvenBorrowed"):
            for name, text in Q.items():
                jobs.append(lambda a=(name, text, bp, pol): trust_case(ctx, *a))
    ctx.parallel(jobs)


def plain_case(ctx, name, text, pol):
    hold = {}
    rs, e = ctx.run(PLAIN, setup=plain_setup(ctx, text, pol, hold), max_depth=60, max_rec=12)
    judge(ctx, f"{name}, fields {pol}", e, rs, hold, ctx.where(PLAIN))


def trust_case(ctx, name, text, bp, pol):
    key = f"{name}, parameters {bp}, fields {pol}"
    hold = {}
    rs, e = ctx.run(TRUST, setup=trust_setup(ctx, text, bp, pol, hold), max_depth=60, max_rec=12, extra_models=IDENT)
    if hold.get("claims"):
        ctx.bad(key, f"{key}: {hold['claims']}", ctx.where(OS + "compute_and_attach"))
        return
    judge(ctx, key, e, rs, hold, ctx.where(TRUST))

"""Programs and expectations for A30."""
from .a30 import *

CASES = []
EXT = {"len": "func.func {sym_name=@__tribute_bytes_len, abi=@C}\n  ^e a:core.bytes\n  func.unreachable\n",
       "get": "func.func {sym_name=@__bytes_get_or_panic, abi=@intrinsic}\n  ^e a:core.bytes i:tribute_rt.nat\n  func.unreachable\n",
       "cat": "func.func {sym_name=@__tribute_bytes_concat, abi=@C}\n  ^e a:core.bytes b:core.bytes\n  func.unreachable\n",
       "eq": "func.func {sym_name=@__tribute_bytes_range_equal, abi=@C}\n  ^e a:core.bytes i:tribute_rt.nat b:core.bytes j:tribute_rt.nat n:tribute_rt.nat\n"
             "  func.unreachable\n"}
SIGS = {"__tribute_bytes_len": "tribute_rt.nat", "__bytes_get_or_panic": "tribute_rt.nat", "__tribute_bytes_concat": "core.bytes",
        "__tribute_bytes_range_equal": "tribute_rt.bool"}


def c(key, text, judge, ext=(), sigs=None, **kw):
    CASES.append(((key, text + "".join(EXT[x] for x in ext), judge), dict(sigs={**SIGS, **(sigs or {})}, **kw)))


def want(f, got, exp):
    v, t = got
    if v is None:
        raise Bad(f"{f} traps ({t})")
    if v != exp:
        raise Bad(f"{f} gives {brief(v)} instead of {brief(exp)}")


def j_len(m):
    for off, n, tot in ((0, 0, 0), (0, 3, 3), (2, 3, 9), (1, 0, 4), (0, 200, 200)):
        def go(orc, _):
            w = World30(m.im, m.names, orc)
            want(f"the length of {n} bytes at {off}", m.one(w, "f", [w.bytes("a", off, n, tot)]), ("i", n))
        runs(go)


def j_get(m):
    for off, n, tot in ((0, 1, 1), (0, 3, 3), (2, 3, 9), (1, 2, 3)):
        for k in range(n):
            def go(orc, _):
                w = World30(m.im, m.names, orc)
                want(f"byte {k} of {n} at {off}", m.one(w, "f", [w.bytes("a", off, n, tot), ("i", k)]), ("byte", "a", off + k))
            runs(go)
    for n in (0, 1, 3):
        for k in (n, n + 1, M32 - 1, M32 // 2):
            def go(orc, _):
                w = World30(m.im, m.names, orc)
                v, t = m.one(w, "f", [w.bytes("a", 0, n, n), ("i", k)])
                if v is not None:
                    raise Bad(f"byte {k} of {n} bytes is {brief(v)}")
            runs(go)


def j_cat(f="f"):
    def go1(m):
        for (o1, n1, t1), (o2, n2, t2) in (((0, 0, 0), (0, 0, 0)), ((0, 2, 2), (0, 3, 3)), ((1, 2, 4), (0, 1, 1)), ((0, 1, 1), (2, 2, 5)), ((3, 0, 3), (1, 2, 3)),
                                           ((1, 3, 9), (4, 0, 4)), ((2, 1, 4), (3, 4, 8))):
            def go(orc, _):
                w = World30(m.im, m.names, orc)
                a, b = w.bytes("a", o1, n1, t1), w.bytes("b", o2, n2, t2)
                v, t = m.one(w, f, [a, b])
                at_ = f"{n1} bytes at {o1} and {n2} bytes at {o2}"
                if v is None:
                    raise Bad(f"joining {at_} traps ({t})")
                exp = [("byte", "a", o1 + k) for k in range(n1)] + [("byte", "b", o2 + k) for k in range(n2)]
                got = w.logical(v)
                if got != exp:
                    raise Bad(f"joining {at_} gives {brief(got)} instead of {brief(exp)}")
                for x, nm, o, n in ((a, "a", o1, n1), (b, "b", o2, n2)):
                    if w.logical(x) != [("byte", nm, o + k) for k in range(n)]:
                        raise Bad(f"joining {at_} changes its {'first' if nm == 'a' else 'second'} operand")
            runs(go)
    return go1


def j_catself(m):
    def go(orc, _):
        w = World30(m.im, m.names, orc)
        a = w.bytes("a", 1, 2, 4)
        v, t = m.one(w, "f", [a])
        if v is None:
            raise Bad(f"joining bytes with themselves traps ({t})")
        exp = [("byte", "a", 1), ("byte", "a", 2)]
        if w.logical(v) != exp * 2 or w.logical(a) != exp:
            raise Bad("joining bytes with themselves gives " + brief(w.logical(v)))
    runs(go)


def j_eq(m, f="f"):
    for (o1, n1, t1), (o2, n2, t2) in (((0, 3, 3), (0, 3, 3)), ((1, 3, 5), (2, 4, 7)), ((2, 4, 6), (0, 2, 3))):
        for i in range(n1 + 1):
            for j in range(n2 + 1):
                for n in range(min(n1 - i, n2 - j) + 1):
                    def go(orc, fixed):
                        w = World30(m.im, m.names, orc)
                        got = m.one(w, f, [w.bytes("a", o1, n1, t1), ("i", i), w.bytes("b", o2, n2, t2), ("i", j), ("i", n)])
                        pairs = [(("byte", "a", o1 + i + k), ("byte", "b", o2 + j + k)) for k in range(n)]
                        r = 1
                        for p in pairs:
                            if not orc(("same",) + p, (True, False)):
                                r = 0
                        for k in fixed:
                            if k[1:] not in pairs:
                                raise Bad(f"comparing {n} bytes at {i} and {j}: {brief(k[1])} is compared with {brief(k[2])}")
                        want(f"comparing {n} bytes at {i} (+{o1}) and {j} (+{o2})", got, ("i", r))
                    runs(go)


def j_eqself(m):
    for off, n in ((0, 3), (2, 2)):
        def go(orc, fixed):
            w = World30(m.im, m.names, orc)
            a = w.bytes("a", off, 4, off + 4)
            got = m.one(w, "f", [a, ("i", 0), ("i", 1), ("i", n)])
            r = 1
            for k in range(n):
                if not orc(("same", ("byte", "a", off + k), ("byte", "a", off + k + 1)), (True, False)):
                    r = 0
            want(f"comparing {n} bytes of one sequence with those that follow", got, ("i", r))
        runs(go)


c("length", """
func.func {sym_name=@f}
  ^e a:core.bytes
  r:tribute_rt.nat = func.call a {callee=@__tribute_bytes_len}
  func.return r
""", j_len, ("len",), {"f": "tribute_rt.nat"})
c("byte", """
func.func {sym_name=@f}
  ^e a:core.bytes i:tribute_rt.nat
  r:tribute_rt.nat = func.call a i {callee=@__bytes_get_or_panic}
  func.return r
""", j_get, ("get",), {"f": "tribute_rt.nat"})
c("join", """
func.func {sym_name=@f}
  ^e a:core.bytes b:core.bytes
  r:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
  func.return r
""", j_cat(), ("cat",), {"f": "core.bytes"})
c("join with itself", """
func.func {sym_name=@f}
  ^e a:core.bytes
  r:core.bytes = func.call a a {callee=@__tribute_bytes_concat}
  func.return r
""", j_catself, ("cat",), {"f": "core.bytes"})
c("compare", """
func.func {sym_name=@f}
  ^e a:core.bytes i:tribute_rt.nat b:core.bytes j:tribute_rt.nat n:tribute_rt.nat
  r:tribute_rt.bool = func.call a i b j n {callee=@__tribute_bytes_range_equal}
  func.return r
""", j_eq, ("eq",), {"f": "tribute_rt.bool"})
c("compare with itself", """
func.func {sym_name=@f}
  ^e a:core.bytes i:tribute_rt.nat j:tribute_rt.nat n:tribute_rt.nat
  r:tribute_rt.bool = func.call a i a j n {callee=@__tribute_bytes_range_equal}
  func.return r
""", j_eqself, ("eq",), {"f": "tribute_rt.bool"})


def j_mixed(m):
    """joined, then measured, compared and read"""
    for (o1, n1), (o2, n2) in (((0, 2), (1, 2)), ((1, 0), (0, 3)), ((2, 3), (0, 0))):
        for k in range(n1 + n2 + 1):
            def go(orc, fixed):
                w = World30(m.im, m.names, orc)
                a, b = w.bytes("a", o1, n1, o1 + n1), w.bytes("b", o2, n2, o2 + n2)
                v, t = m.one(w, "f", [a, b, ("i", k)])
                if k == n1 + n2:
                    if v is not None:
                        raise Bad("a byte behind the end of joined bytes is read")
                    return
                want(f"byte {k} of {n1} and {n2} joined bytes", (v, t), ("byte", "a", o1 + k) if k < n1 else ("byte", "b", o2 + k - n1))
            runs(go)
            def go(orc, fixed):
                w = World30(m.im, m.names, orc)
                a, b = w.bytes("a", o1, n1, o1 + n1), w.bytes("b", o2, n2, o2 + n2)
                want(f"the length of {n1} and {n2} joined bytes", m.one(w, "g", [a, b]), ("i", n1 + n2))
                want("comparing joined bytes with their second part", m.one(w, "h", [a, b]), ("i", 1))
            runs(go)


c("join, then read", """
func.func {sym_name=@f}
  ^e a:core.bytes b:core.bytes i:tribute_rt.nat
  s:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
  r:tribute_rt.nat = func.call s i {callee=@__bytes_get_or_panic}
  func.return r
func.func {sym_name=@g}
  ^e a:core.bytes b:core.bytes
  s:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
  r:tribute_rt.nat = func.call s {callee=@__tribute_bytes_len}
  func.return r
func.func {sym_name=@h}
  ^e a:core.bytes b:core.bytes
  s:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
  k:tribute_rt.nat = func.call a {callee=@__tribute_bytes_len}
  n:tribute_rt.nat = func.call b {callee=@__tribute_bytes_len}
  z:tribute_rt.nat = arith.const {value=0}
  r:tribute_rt.bool = func.call s k b z n {callee=@__tribute_bytes_range_equal}
  func.return r
""", j_mixed, ("cat", "get", "len", "eq"), {"f": "tribute_rt.nat", "g": "tribute_rt.nat", "h": "tribute_rt.bool"})


def j_nested(m):
    for t in (0, 1):
        for n in (0, 2):
            def go(orc, _):
                w = World30(m.im, m.names, orc)
                a, b = w.bytes("a", 1, n, n + 1), w.bytes("b", 0, 1, 1)
                v, e = m.one(w, "f", [("i", t), a, b])
                if v is None:
                    raise Bad(f"traps ({e})")
                A, B = [("byte", "a", 1 + k) for k in range(n)], [("byte", "b", 0)]
                x = A + B if t else B + A
                if w.logical(v) != x * 2:
                    raise Bad(f"gives {brief(w.logical(v))} instead of {brief(x * 2)}")
            runs(go)


c("join in branches", """
func.func {sym_name=@f}
  ^e t:core.i1 a:core.bytes b:core.bytes
  r:core.bytes = scf.if t
    x:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
    scf.yield x
  |
    y:core.bytes = func.call b a {callee=@__tribute_bytes_concat}
    scf.yield y
  z:core.bytes = func.call r r {callee=@__tribute_bytes_concat}
  func.return z
""", j_nested, ("cat",), {"f": "core.bytes"})

# ---- literals -------------------------------------------------------------------------------------------------------------------
B_ = lambda b: at("Bytes", ("seq", tuple(C(x) for x in b)))
S_ = lambda s: at("String", S(s))


def j_lits(exp):
    def go1(m):
        for f, (args, b) in exp.items():
            def go(orc, _):
                w = World30(m.im, m.names, orc)
                v, t = m.one(w, f.split("'")[0], [("i", x) for x in args])
                if v is None:
                    raise Bad(f"a literal with the bytes {b!r} traps ({t})")
                got = w.logical(v)
                if got != [("i", x) for x in b]:
                    raise Bad(f"a literal with the bytes {b!r} has the bytes {[x[1] for x in got]}")
            runs(go)
    return go1


def lits(key, items, **kw):
    """functions f0, f1, ... that give the bytes of a literal; strings through their leaf"""
    text, attrs, exp, n = "", {}, {}, {"string": 0, "bytes": 0}
    for i, x in enumerate(items):
        k = "string" if isinstance(x, str) else "bytes"
        n[k] += 1
        tag = f"adt.{k}_const" + (f".{n[k]}" if n[k] > 1 else "")
        attrs[tag] = {"value": S_(x) if k == "string" else B_(x)}
        text += f"func.func {{sym_name=@f{i}}}\n  ^e\n"
        if k == "string":
            text += ("  s:tribute_rt.anyref = adt.string_const\n  c:core.i1 = adt.variant_is s {type=!STR, tag=@Leaf}\n  r:core.bytes = scf.if c\n"
                     "    l:STR = adt.variant_cast s {type=!STR, tag=@Leaf}\n    b:core.bytes = adt.variant_get l {type=!STR, tag=@Leaf, field=0}\n"
                     "    scf.yield b\n  |\n    func.unreachable\n  func.return r\n")
        else:
            text += "  r:core.bytes = adt.bytes_const\n  func.return r\n"
        exp[f"f{i}"] = ((), x.encode() if k == "string" else x)
    c(key, text, j_lits(exp), sigs={f"f{i}": "core.bytes" for i in range(len(items))}, attrs=attrs, **kw)


lits("literals", [b"ab", b"a", b"", b"ab", b"b", b"\x00", b"\xff\x80\x00"])
lits("strings", ["ab", "", "a", "ab", "\u00e9", "a\n\"\\"])
lits("strings and bytes", ["ab", b"ab", b"\xc3\xa9", "\u00e9", b"", ""])
lits("similar literals", [b"aab", b"aa", b"ab", b"ba", b"aab\x00", b"\x00aab", "aab", "b"])
c("literals in branches", """
func.func {sym_name=@f}
  ^e t:core.i1
  r:core.bytes = scf.if t
    x:core.bytes = adt.bytes_const
    scf.yield x
  |
    u:core.bytes = scf.if t
      y:core.bytes = adt.bytes_const
      scf.yield y
    |
      z:core.bytes = adt.bytes_const
      scf.yield z
    scf.yield u
  w:core.bytes = adt.bytes_const
  s:core.bytes = func.call r w {callee=@__tribute_bytes_concat}
  func.return s
""", j_lits({"f'1": ((1,), b"yes!"), "f'0": ((0,), b"no!")}), ("cat",), {"f": "core.bytes"},
  attrs={"adt.bytes_const": {"value": B_(b"yes")}, "adt.bytes_const.2": {"value": B_(b"??")}, "adt.bytes_const.3": {"value": B_(b"no")},
         "adt.bytes_const.4": {"value": B_(b"!")}})


def j_frozen(m):
    """joining to a literal does not change it"""
    def go(orc, _):
        w = World30(m.im, m.names, orc)
        for k in range(2):
            v, t = m.one(w, "f", [w.bytes("a", 0, 1, 1)])
            if v is None:
                raise Bad(f"traps ({t})")
            exp = [("i", 120), ("byte", "a", 0), ("i", 120)]
            if w.logical(v) != exp:
                raise Bad(f"gives {brief(w.logical(v))} instead of {brief(exp)}")
    runs(go)


c("literal joined", """
func.func {sym_name=@f}
  ^e a:core.bytes
  x:core.bytes = adt.bytes_const
  s:core.bytes = func.call x a {callee=@__tribute_bytes_concat}
  r:core.bytes = func.call s x {callee=@__tribute_bytes_concat}
  func.return r
""", j_frozen, ("cat",), {"f": "core.bytes"}, attrs={"adt.bytes_const": {"value": B_(b"x")}})

# ---- output ---------------------------------------------------------------------------------------------------------------------
FD = ("wasi_snapshot_preview1", "fd_write")


class Host:
    """standard output; each request is answered by the oracle"""

    def __init__(self, message, free=4):
        self.left, self.calls, self.free, self.stopped, self.at = list(message), 0, free, None, None

    def __call__(self, w, imp, xs):
        if imp[:2] != FD:
            raise Unclear(f"imported function {imp[:2]}")
        if any(x[0] != "i" for x in xs) or len(xs) != 4:
            raise Unclear("arguments of fd_write")
        fd, iov, n, out = (x[1] for x in xs)
        if fd != 1:
            raise Bad(f"writes to descriptor {fd}")
        if self.stopped:
            raise Bad(f"writes again after {self.stopped}")
        lim = w.pages * PAGE

        def word(a):
            if a + 4 > lim:
                raise Bad("gives the host an address outside the memory")
            bs = [w.mem.get(a + k, ("i", 0)) for k in range(4)]
            if any(b[0] != "i" for b in bs):
                raise Bad("gives the host bytes of the message as a pointer or length")
            return sum(b[1] << 8 * k for k, b in enumerate(bs))
        if iov % 4 or out % 4:
            raise Bad("gives the host an address that is not aligned")
        offer = []
        for k in range(n):
            p, ln = word(iov + 8 * k), word(iov + 8 * k + 4)
            self.at = p if self.at is None else self.at
            if p + ln > lim:
                raise Bad(f"offers {ln} bytes at {p}, the memory ends at {lim}")
            offer += [w.mem.get(p + j, ("i", 0)) for j in range(ln)]
        word(out)
        if not offer and self.left:
            raise Bad("offers no bytes although there are some to write")
        if offer != self.left[:len(offer)]:
            raise Bad(f"request {self.calls + 1} offers {brief(offer)} where {brief(self.left[:len(offer) + 1])} is to be written")
        m = len(offer)
        k = self.calls
        self.calls += 1
        a = (0, m)
        if k < self.free:
            opts = [("ok", m), ("error", 27), ("error", 8), ("error", 29)]
            if m > 1:
                opts += [("ok", 1)]
            if m > 2:
                opts += [("ok", m - 1)]
            if m:
                opts += [("ok", 0)]
            r = w.oracle(("host", k), tuple(opts))
        else:
            r = ("ok", m)
        if r[0] == "ok":
            for j in range(4):
                w.mem[out + j] = ("i", r[1] >> 8 * j & 255)
            self.left = self.left[r[1]:]
            if m and not r[1]:
                self.stopped = "the host took nothing"
            return [("i", 0)]
        if r[1] != 27:
            self.stopped = f"the host reported error {r[1]}"
        return [("i", r[1])]


def module_ok(m):
    im = m.im
    fd = [x for x in im.imports if x[:2] == FD]
    if len(fd) != 1:
        raise Bad(f"{len(fd)} imports of fd_write")
    if im.sig(fd[0][2]) != (("i32",) * 4, ("i32",)):
        raise Bad(f"fd_write is imported with the type {im.sig(fd[0][2])}")
    if ("memory", "Memory", 0) not in im.exports:
        raise Bad("the memory is not exported as memory")
    if len(im.mems) != 1 or im.mems[0][1] is not None or im.mems[0][2] or im.mems[0][3]:
        if len(im.mems) != 1 or im.mems[0][2] or im.mems[0][3]:
            raise Bad(f"the memory is {im.mems}")


def put_one(m, off, n, tot, nl, free=4, grow=True, f="f", seen=None):
    def go(orc, fixed):
        msg = [("byte", "a", off + k) for k in range(n)] + ([("i", 10)] if nl else [])
        host = Host(msg, free)
        w = World30(m.im, m.names, orc, host, grow)
        try:
            r = m.call(w, f, [w.bytes("a", off, n, tot), ("i", nl)])
        except Trap as t:
            if grow or host.calls:
                raise Bad(f"writing {n} bytes {'and a new line ' if nl else ''}traps ({t})")
            if seen is not None:
                seen.append("trap")
            return
        if r:
            raise Bad("output gives a value")
        if seen is not None:
            seen.append(host.at)
        if host.left and not host.stopped:
            raise Bad(f"{len(host.left)} of {n + nl} bytes are not written, after {host.calls} requests: {brief(sorted(fixed.items()))}")
    return runs(go)


def j_out(m):
    module_ok(m)
    for off, n, tot in ((0, 0, 0), (0, 1, 1), (2, 3, 7), (0, 4, 4)):
        for nl in (0, 1):
            put_one(m, off, n, tot, nl)


def base(m, f="f"):
    s = []
    put_one(m, 0, 1, 1, 0, 0, f=f, seen=s)
    if not s or s[-1] is None:
        raise Bad("nothing is written")
    return s[-1]


def j_big(pages, extra, nl, grow=True):
    def go(m):
        b = base(m)
        n = pages * PAGE - b + extra - nl
        s = []
        put_one(m, 0, n, n, nl, 0, grow, seen=s)
    return go


def j_seq(m):
    """two messages after one another, and one from another function"""
    def go(orc, _):
        msg = [("byte", "a", k) for k in range(4)] + [("byte", "b", 1), ("i", 10), ("byte", "b", 1)]
        host = Host(msg, 2)
        seen = []

        def h(w, imp, xs):
            before = list(host.left)
            if host.stopped:
                raise Need("stop", ())
            r = host(w, imp, xs)
            return r
        w = World30(m.im, m.names, lambda k, o: ("ok", 1) if ("ok", 1) in o else o[0], h)
        m.call(w, "f", [w.bytes("a", 0, 4, 4), w.bytes("b", 1, 1, 2)])
        if host.left:
            raise Bad(f"{len(host.left)} bytes of three messages are not written")
    runs(go)


OUT = """
func.func {sym_name=@f}
  ^e a:core.bytes n:tribute_rt.bool
  w:core.nil = tribute_io.write a n
  func.return w
"""
SO = {"f": "core.nil", "g": "core.nil"}
c("output", OUT, j_out, sigs=SO)
for p_, x_, nl_ in ((1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0)):
    c(f"output of a message that ends {'at' if not x_ else 'behind'} page {p_}{' with its line end' if nl_ else ''}", OUT, j_big(p_, x_, nl_), sigs=SO)
c("output when memory cannot grow", OUT, j_big(1, 1, 0, False), sigs=SO)
c("output of several messages", """
func.func {sym_name=@f}
  ^e a:core.bytes b:core.bytes
  z:tribute_rt.bool = arith.const {value=0}
  o:tribute_rt.bool = arith.const {value=1}
  w:core.nil = tribute_io.write a z
  x:core.nil = func.call b o {callee=@g}
  y:core.nil = tribute_io.write b z
  func.return y
func.func {sym_name=@g}
  ^e a:core.bytes n:tribute_rt.bool
  w:core.nil = tribute_io.write a n
  func.return w
""", j_seq, sigs=SO)
c("output in branches", """
func.func {sym_name=@f}
  ^e a:core.bytes n:tribute_rt.bool
  t:core.i1 = arith.cmpi n n {predicate=@eq}
  w:core.nil = scf.if t
    v:core.nil = tribute_io.write a n
    scf.yield v
  |
    func.unreachable
  func.return w
""", j_out, sigs=SO)


def j_lit_out(m):
    module_ok(m)
    def go(orc, _):
        host = Host([("i", x) for x in b"hi\xc3\xa9"] + [("i", 10)], 3)
        w = World30(m.im, m.names, orc, host)
        m.call(w, "f", [])
        if host.left and not host.stopped:
            raise Bad(f"{len(host.left)} bytes of a literal are not written")
    runs(go)


c("output of a literal", """
func.func {sym_name=@f}
  ^e
  a:core.bytes = adt.bytes_const
  b:core.bytes = adt.bytes_const
  s:core.bytes = func.call a b {callee=@__tribute_bytes_concat}
  o:tribute_rt.bool = arith.const {value=1}
  w:core.nil = tribute_io.write s o
  func.return w
""", j_lit_out, ("cat",), SO, attrs={"adt.bytes_const": {"value": B_(b"hi")}, "adt.bytes_const.2": {"value": B_("\u00e9".encode())}})
c("input", """
func.func {sym_name=@f}
  ^e
  r:RLR = tribute_io.read_line
  func.return r
""", None, sigs={"f": "RLR"}, refuse="reading a line is accepted, although the back end has no input")

"""A25: bytes values and standard I/O of the native run time."""
import itertools
from .lowering import *
from engine.heap import *
from engine.rules import *
from engine import absint
from engine.absint import State, Budget, T, C, S, UNIT

LEVEL = "other"
EXPLANATION = ("The run-time functions on bytes values and on standard input and output are analysed over an abstract memory and scripted "
               "system calls: bytes read are symbolic, and every split into chunks, short write and interruption of a bounded length is "
               "followed; results are compared with the content the operation stands for.")
ASSUMPTIONS = ["the system's read, write, memcmp and memory allocation behave as POSIX and Rust specify",
               "itoa and zmij format numbers correctly"]
R = "tribute_runtime::"
TB = "tribute_runtime::TributeBytes"
RC = "tribute_rc::RcBox"
PAY = ("f", 2, "payload")
EINTR, EIO = 4, 5
NONE = ("adt", "core::option::Option", "None", (), ())


def sure(st, msg):
    """a fault on a path that some input takes"""
    dom, ok = domains(st.cond_list(), 8)
    raise (absint.Definite if ok and all(dom.values()) else Budget)(msg)


def ptr_of(v):
    """-> (pointer value without offset, offset)"""
    off = 0
    while v[0] == "t" and v[1] == "padd":
        if v[3][0] != "c":
            raise Budget("pointer at an unknown offset")
        off += v[3][1]
        v = v[2]
    return v, off


def content(e, st, v):
    x = e.deref(st, v) if v[0] == "ref" else v
    if x[0] == "s":
        x = ("seq", tuple(C(b) for b in x[1].encode()))
    if x[0] == "adt" and len(x[3]) == 1:
        x = content(e, st, x[3][0])
    if x[0] == "t" and x[1] == "mem" and x[3][0] == "c" and x[3][1] <= 4096:
        x = ("seq", (T("uninit"),) * x[3][1])
    if x[0] == "t" and x[1] == "repeat" and x[3][0] == "c":
        x = ("seq", (x[2],) * x[3][1])
    if x[0] != "seq" or any(p[0] in ("each", "spread") for p in x[1]):
        raise Budget("memory of unknown content: " + absint.show(x)[:100])
    return x[1]


def bytes_at(e, st, p, n):
    if n == 0:
        return ()
    v, off = ptr_of(p)
    if v == C(0):
        sure(st, "reads through a null pointer")
    c = content(e, st, v)
    if off < 0 or off + n > len(c):
        sure(st, f"reads bytes {off}..{off + n} of a buffer of {len(c)}")
    return c[off:off + n]


def put_at(e, st, p, bs):
    if not bs:
        return
    v, off = ptr_of(p)
    if v == C(0):
        sure(st, "writes through a null pointer")
    if v[0] != "ref":
        raise Budget("write through an unknown pointer")
    c = content(e, st, v)
    if off < 0 or off + len(bs) > len(c):
        sure(st, f"writes bytes {off}..{off + len(bs)} of a buffer of {len(c)}")
    e.store_to(st, v[1], v[2], ("seq", c[:off] + tuple(bs) + c[off + len(bs):]))


def num(e, st, v):
    v = e.freeze(st, v)
    if v[0] != "c":
        raise Budget("a length is not known: " + absint.show(v)[:100])
    return v[1]


def install(e, alloc=True):
    e.exact = True
    M = e.models
    slot = {}

    def model(*names):
        def f(g):
            for n in names:
                M[n] = g
            return g
        return f
    P = ("core::ptr::const_ptr::", "core::ptr::mut_ptr::")

    @model(*(p + n for p in P for n in ("add", "wrapping_add", "byte_add", "offset", "wrapping_offset")))
    def add(eng, st, fr, args, targs, path, t):
        n = num(eng, st, args[1])
        v, off = ptr_of(args[0])
        return v if off + n == 0 else ("t", "padd", v, C(off + n))

    @model(*(p + n for p in P for n in ("sub", "byte_sub", "wrapping_sub")))
    def sub(eng, st, fr, args, targs, path, t):
        n = num(eng, st, args[1])
        v, off = ptr_of(args[0])
        if v[0] == "ref" and off == 0 and v[2] and v[2][-1][0] == "f" and v[2][-1][2] == "payload" and n == 8:
            return ("ref", v[1], v[2][:-1])
        return v if off == n else ("t", "padd", v, C(off - n))

    @model(*(p + "is_null" for p in P))
    def is_null(eng, st, fr, args, targs, path, t):
        v, off = ptr_of(args[0])
        if v[0] == "ref" and v[1][0] != "h" and not v[2]:
            v = eng.deref1(st, v)
        if v == C(0):
            return C(1)
        return C(0) if v[0] in ("ref", "seq", "s", "adt") else None

    @model("core::ptr::null", "core::ptr::null_mut")
    def null(eng, st, fr, args, targs, path, t):
        return C(0)

    @model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy_nonoverlapping")
    def copy(eng, st, fr, args, targs, path, t):
        put_at(eng, st, args[1], bytes_at(eng, st, args[0], num(eng, st, args[2])))
        return UNIT

    @model(*(p + n for p in P for n in ("copy_to", "copy_to_nonoverlapping")))
    def copy_to(eng, st, fr, args, targs, path, t):
        return copy(eng, st, fr, args, targs, path, t)

    @model(*(p + n for p in P for n in ("copy_from", "copy_from_nonoverlapping")))
    def copy_from(eng, st, fr, args, targs, path, t):
        return copy(eng, st, fr, [args[1], args[0], args[2]], targs, path, t)

    @model("core::slice::raw::from_raw_parts", "core::slice::from_raw_parts")
    def parts(eng, st, fr, args, targs, path, t):
        return eng.ref_to(st, ("seq", bytes_at(eng, st, args[0], num(eng, st, args[1]))))

    @model("core::slice::raw::from_raw_parts_mut", "core::slice::from_raw_parts_mut")
    def parts_mut(eng, st, fr, args, targs, path, t):
        n = num(eng, st, args[1])
        bs = bytes_at(eng, st, args[0], n)
        v, off = ptr_of(args[0])
        if off or v[0] != "ref" or len(content(eng, st, v)) != n:
            raise Budget("a mutable view of a part of a buffer")
        eng.store_to(st, v[1], v[2], ("seq", bs))
        return v

    @model("core::ptr::write", *(p + n for p in P for n in ("write", "write_unaligned")))
    def write_(eng, st, fr, args, targs, path, t):
        v, off = ptr_of(args[0])
        if off or v[0] != "ref":
            if v[0] == "ref" and targs and targs[0] == "u8":
                put_at(eng, st, args[0], (eng.freeze(st, args[1]),))
                return UNIT
            raise Budget("a write through an unknown pointer")
        eng.store_to(st, v[1], v[2], args[1])
        return UNIT

    @model("core::intrinsics::offset_of")
    def offset_of(eng, st, fr, args, targs, path, t):
        if targs and targs[0].startswith(RC):
            ad = eng.prog.adts[RC]["vars"][0][2]
            o = 0
            for i, f in enumerate(ad):
                sz, al = (16, 8) if f[0] == "payload" and "TributeBytes" in str(fr.tenv.get("T", targs[0])) else (4, 4) if f[0] != "payload" else (0, 1)
                o = -(-o // al) * al
                if C(i) == args[1]:
                    return C(o)
                o += sz
        return None

    @model("core::mem::size_of")
    def size_of(eng, st, fr, args, targs, path, t):
        k = targs[0] if targs else ""
        if k == TB:
            return C(16)
        if k.startswith(RC):
            return C(24)
        if k == "tribute_runtime::NativeReadLineResult":
            return C(24)
        return None

    # atomics of the header hold their number
    for w in ("Atomic", "AtomicU32"):
        A = "core::sync::atomic::" + w + "::"
        M[A + "new"] = lambda eng, st, fr, args, targs, path, t: args[0]

        def fetch_add(eng, st, fr, args, targs, path, t):
            if args[0][0] != "ref":
                return None
            old = eng.deref1(st, args[0])
            if old[0] != "c" or args[1][0] != "c":
                return None
            d = -1 if path.endswith("sub") else 1
            eng.store_to(st, args[0][1], args[0][2], C(old[1] + d * args[1][1]))
            return old
        M[A + "fetch_add"] = M[A + "fetch_sub"] = fetch_add

        def store(eng, st, fr, args, targs, path, t):
            if args[0][0] != "ref":
                return None
            eng.store_to(st, args[0][1], args[0][2], args[1])
            return UNIT
        M[A + "store"] = store
        M[A + "load"] = lambda eng, st, fr, args, targs, path, t: eng.deref1(st, args[0]) if args[0][0] == "ref" and eng.deref1(st, args[0])[0] == "c" else None
    if alloc:
        @model(R + "__tribute_alloc")
        def alloc_(eng, st, fr, args, targs, path, t):
            n = num(eng, st, args[0])
            if n == 0:
                return C(0)
            return ("ref", eng.alloc(st, T("mem", C(eng.fresh()), C(n))), ())

    def memcmp(eng, st, fr, args, targs, path, t):
        n = num(eng, st, args[2])
        a, b = bytes_at(eng, st, args[0], n), bytes_at(eng, st, args[1], n)
        if a == b:
            return C(0)
        if all(x[0] == "c" for x in a + b):
            return C(1 if tuple(x[1] for x in a) > tuple(x[1] for x in b) else -1)
        return None
    # ---- the thread's state
    M["alloc::boxed::Box::into_raw"] = lambda eng, st, fr, args, targs, path, t: args[0] if args[0][0] == "ref" else eng.ref_to(st, args[0])

    def get(eng, st, fr, args, targs, path, t):
        return st.store.get(("tls",), C(0))

    def put(eng, st, fr, args, targs, path, t):
        st.store[("tls",)] = args[1] if args[1][0] == "ref" else eng.ref_to(st, args[1])
        return C(0)
    for nm in ("pthread_{}specific", R + "tls::posix::pthread_{}specific", "libc::pthread_{}specific", "libc::unix::pthread_{}specific"):
        M[nm.format("get")], M[nm.format("set")] = get, put
    # ---- system calls
    def errno(eng, st, fr, args, targs, path, t):
        return ("ref", ("errno",), ())

    def sys(eng, st, want):
        i = st.store.get(("script",), C(0))[1]
        sc = eng.script
        st.store[("script",)] = C(i + 1)
        st.store[("calls",)] = C(st.store.get(("calls",), C(0))[1] + 1)
        if st.store[("calls",)][1] > 60:
            sure(st, "the system call is repeated without end")
        return sc[i] if i < len(sc) else eng.script_end

    def fail(eng, st, code):
        st.store[("errno",)] = C(code)
        return C(-1)

    def wr(eng, st, fr, args, targs, path, t):
        fd = num(eng, st, args[0])
        n = num(eng, st, args[2])
        bs = bytes_at(eng, st, args[1], n)
        k, x = sys(eng, st, "write")
        if k == "err":
            return fail(eng, st, x)
        m = n if x is None else min(n, x)
        if fd != 1:
            sure(st, f"writes to descriptor {fd}")
        st.store[("out",)] = ("seq", st.store.get(("out",), ("seq", ()))[1] + bs[:m])
        return C(m)

    def rd(eng, st, fr, args, targs, path, t):
        fd = num(eng, st, args[0])
        n = num(eng, st, args[2])
        v, off = ptr_of(args[1])
        k, x = sys(eng, st, "read")
        if fd != 0:
            sure(st, f"reads from descriptor {fd}")
        if k == "err":
            return fail(eng, st, x)
        if k == "eof":
            return C(0)
        if len(x) > n:
            raise Budget("the buffer is smaller than the chunk")
        put_at(eng, st, args[1], tuple(x))
        return C(len(x))
    calls = {"write": wr, "read": rd, "memcmp": memcmp, "__errno_location": errno}

    def ext(eng, st, fr, path, key, args, targs, t):
        f = calls.get(path.rsplit("::", 1)[-1])
        if f is not None and path.startswith(("libc::", R)):
            return f(eng, st, fr, args, targs, path, t)
    e.ext_hook = ext

    @model("core::str::converts::from_utf8", "core::str::from_utf8", "alloc::string::String::from_utf8")
    def utf8(eng, st, fr, args, targs, path, t):
        c = content(eng, st, args[0])
        if all(b[0] == "c" for b in c):
            try:
                bytes(b[1] for b in c).decode()
                return absint.ok(("seq", c))
            except UnicodeDecodeError:
                return absint.err(T("utf8error"))
        return T("utf8", ("seq", c))

    @model("itoa::Buffer::format")
    def itoa(eng, st, fr, args, targs, path, t):
        n = num(eng, st, args[1])
        return S(str(eng.wrap(n, targs[0]) if targs else n))

    @model("zmij::Buffer::format", "ryu::Buffer::format", "zmij::Buffer::format_finite")
    def zmij(eng, st, fr, args, targs, path, t):
        v = eng.freeze(st, args[1])
        return ("seq", tuple(T("digit", v, C(i)) for i in range(3)))

    @model("core::str::as_bytes", "alloc::string::String::as_bytes")
    def as_bytes(eng, st, fr, args, targs, path, t):
        v = eng.deref(st, args[0])
        return ("seq", content(eng, st, v)) if v[0] == "s" else args[0]
    return e


def outs(e, st, path, args):
    """-> ([(state, value)], [state that aborted])"""
    fn = e.prog.fns.get(path)
    if fn is None:
        raise Budget("not found: " + path)
    e.dead = []
    return e.run_body(st, fn, list(args), {}, 1), [s for s, _ in e.dead]


def mk_bytes(e, st, data, ln=None, rc=1):
    """a bytes value; -> (pointer to its payload, location)"""
    if data:
        p = e.ref_to(st, ("seq", tuple(data)))
    else:
        p = C(0)
    if ln is not None:
        p = e.ref_to(st, T("huge"))
    pay = ("adt", TB, "TributeBytes", (p, C(len(data) if ln is None else ln)), ("ptr", "len"))
    loc = e.alloc(st, ("adt", RC, "RcBox", (C(rc), C(0), pay), ("refcount", "rtti_idx", "payload")))
    return ("ref", loc, (PAY,)), loc


def field(e, st, v, i, name):
    return e.project(st, v, ("f", i, name))


def read_bytes(e, st, p, given=()):
    """the content of a bytes value the code returned, or an explanation; checks the header.  given: operands as (pointer, references)"""
    if p[0] != "ref" or not p[2] or p[2][-1][2:] != ("payload",):
        if p == C(0):
            return None, "a null pointer is returned for a bytes value"
        raise Budget("the result is not the payload of a box: " + absint.show(e.freeze(st, p))[:120])
    box = e.load(st, p[1], p[2][:-1])
    rc, idx = field(e, st, box, 0, "refcount"), field(e, st, box, 1, "rtti_idx")
    pay = e.load(st, p[1], p[2])
    ptr, ln = field(e, st, pay, 0, "ptr"), field(e, st, pay, 1, "len")
    ln = num(e, st, ln)
    base = box
    while base[0] == "upd":
        base = base[1]
    if base[0] == "t" and base[1] == "mem" and base[3][1] < 24:
        return None, f"the bytes value is put into {base[3][1]} bytes of memory"
    for q, n in given:
        qrc = field(e, st, e.load(st, q[1], ()), 0, "refcount")
        if qrc[0] != "c":
            unknown(qrc)
        if qrc[1] < n:
            return None, f"an operand loses a reference: {qrc[1]} of {n}"
        if p == q:
            # the operand itself, with a reference for the result
            if qrc[1] < n + 1:
                return None, f"an operand is returned, whose reference count stays at {qrc[1]}"
            rc = C(1)
        elif ptr != C(0) and ptr_of(ptr)[0] == field(e, st, e.load(st, q[1], q[2]), 0, "ptr") and qrc[1] < n + 1:
            return None, f"the result shares the data of an operand, whose reference count stays at {qrc[1]}"
    if rc != C(1):
        return None, f"the new bytes value starts with reference count {absint.show(rc)}"
    if idx != C(0):
        return None, f"the new bytes value has run-time type {absint.show(idx)}"
    if ln and ptr == C(0):
        return None, f"the new bytes value of length {ln} has no data"
    return bytes_at(e, st, ptr, ln) if ln else (), None


def case(ctx, key, f, where):
    """run a scripted case: f() -> None or text of a definite violation"""
    try:
        w = f()
    except absint.Definite as x:
        ctx.bad(key, f"{key}: {x}", where)
    except (Budget, RecursionError) as x:
        ctx.unk(key, f"{key}: {x}"[:300])
    else:
        ctx.decide(key, w is None, f"{key}: {w}", where)


def one(o, dead, what):
    if len(o) == 1 and not dead:
        return o[0]
    if not o and len(dead) == 1 and not dead[0].conds:
        raise absint.Definite(what + " aborts")
    raise Budget(f"{what}: {len(o)} outcomes, {len(dead)} aborts")


def aborts(o, dead):
    if o and not dead and not any(s.conds for s, _ in o):
        return False
    if dead and not o:
        return True
    raise Budget(f"{len(o)} outcomes, {len(dead)} aborts")


def syms(n, k):
    return tuple(T(f"{n}{i}") for i in range(k))


def eng(ctx, **kw):
    e = ctx.engine(max_depth=30, max_visits=200)
    e.script, e.script_end = [], ("ok", None)
    install(e, **kw)
    return e


# ------------------------------------------------------------------ bytes
def bytes_ops(ctx):
    have = {n: R + "__tribute_bytes_" + n for n in ("len", "concat", "slice_or_panic", "range_equal")}
    for n, p in have.items():
        if p not in ctx.P.fns:
            ctx.bad("bytes " + n, "the run-time function is missing", p)
    e = eng(ctx)

    def length(n):
        def f():
            st = State()
            p, _ = mk_bytes(e, st, (), ln=n) if n > 6 else mk_bytes(e, st, syms("a", n))
            o, d = outs(e, st, have["len"], [p])
            s, v = one(o, d, "the length")
            v = e.freeze(s, v)
            return None if v == C(n) else f"gives {absint.show(v)}" if v[0] == "c" else unknown(v)
        return f

    def concat(a, b):
        def f():
            st = State()
            A, B = syms("a", a), syms("b", b)
            (p, pl), (q, ql) = mk_bytes(e, st, A), mk_bytes(e, st, B)
            before = e.freeze(st, p), e.freeze(st, q)
            o, d = outs(e, st, have["concat"], [p, q])
            s, v = one(o, d, "concatenation")
            got, why = read_bytes(e, s, v, [(p, 1), (q, 1)])
            if why:
                return why
            if got != A + B:
                return "gives " + shows(got)
            if (e.freeze(s, p), e.freeze(s, q)) != before:
                return "an operand is changed"
        return f

    def concat_self(a):
        def f():
            st = State()
            A = syms("a", a)
            p, _ = mk_bytes(e, st, A)
            o, d = outs(e, st, have["concat"], [p, p])
            s, v = one(o, d, "concatenation")
            got, why = read_bytes(e, s, v, [(p, 1)])
            return why or (None if got == A + A else "gives " + shows(got))
        return f

    def slice_(n, i, j):
        def f():
            st = State()
            A = syms("a", n)
            p, loc = mk_bytes(e, st, A, rc=3)
            before = e.freeze(st, e.load(st, p[1], p[2]))
            o, d = outs(e, st, have["slice_or_panic"], [p, C(i), C(j)])
            good = i <= j <= n
            if not good:
                return None if aborts(o, d) else "does not abort"
            s, v = one(o, d, "slicing within bounds")
            got, why = read_bytes(e, s, v, [(p, 3)])
            if why:
                return why
            if got != A[i:j]:
                return "gives " + shows(got)
            if e.freeze(s, e.load(s, p[1], p[2])) != before:
                return "the original is changed"
        return f

    def eq(l, r, i, j, n, big=None):
        def f():
            st = State()
            L, Rr = tuple(map(C, l)), tuple(map(C, r))
            (p, _), (q, _) = mk_bytes(e, st, L), mk_bytes(e, st, Rr)
            o, d = outs(e, st, have["range_equal"], [p, C(i), q, C(j), C(n)])
            s, v = one(o, d, "comparison")
            v = e.freeze(s, v)
            want = i + n <= len(l) and j + n <= len(r) and l[i:i + n] == r[j:j + n]
            if v == C(int(want)):
                return None
            return f"gives {absint.show(v)} instead of {int(want)}" if v[0] == "c" else unknown(v)
        return f
    W = {n: ctx.where(p) for n, p in have.items()}
    for n in (0, 1, 2, 5, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1):
        case(ctx, f"length of {n} bytes", length(n), W["len"])
    N = 4 if ctx.tier == "quick" else 6
    for a, b in itertools.product(range(N), repeat=2):
        case(ctx, f"concatenation of {a} and {b} bytes", concat(a, b), W["concat"])
    for a in range(N):
        case(ctx, f"concatenation of {a} bytes with themselves", concat_self(a), W["concat"])
    ends = list(range(N + 2)) + [2**31, 2**32 - 1]
    for n in range(N + 1):
        for i, j in itertools.product(ends, repeat=2):
            case(ctx, f"bytes {i}..{j} of {n}", slice_(n, i, j), W["slice_or_panic"])
    pairs = [(b"", b""), (b"", b"a"), (b"ab", b"ab"), (b"ab", b"ba"), (b"a\0b", b"a\0c"), (b"aab", b"aba"), (b"\x80\xff\x00", b"\xff\x80\xff\x00")]
    if ctx.tier != "quick":
        pairs += [(bytes(x), bytes(y)) for x in itertools.product(b"ab", repeat=3) for y in itertools.product(b"ab", repeat=2)]
    ix = [0, 1, 2, 3, 4, 2**32 - 1]
    for l, r in pairs:
        for i, j, n in itertools.product(ix, repeat=3):
            if i > len(l) + 1 and i < 100 or j > len(r) + 1 and j < 100:
                continue
            case(ctx, f"range comparison {l!r}[{i}..] with {r!r}[{j}..] over {n}", eq(l, r, i, j, n), W["range_equal"])
    ctx.fns |= e.visited_fns


def unknown(v):
    raise Budget("not decided: " + absint.show(v)[:200])


def shows(bs):
    return "[" + " ".join(absint.show(b) for b in bs) + "]"


# ------------------------------------------------------------------ output
def printing(ctx):
    names = {n: R + n for n in ("__tribute_bytes_print", "__tribute_io_write", "__tribute_print_bytes", "__tribute_print_newline",
                                "__tribute_print_int", "__tribute_print_nat", "__tribute_print_float")}
    for n, p in names.items():
        if p not in ctx.P.fns:
            ctx.bad("output " + n, "the run-time function is missing", p)
    e = eng(ctx)
    NL = C(10)

    def txt(s):
        return tuple(C(b) for b in s.encode())
    x = syms("x", 4)
    fl = T("value")
    digits = tuple(T("digit", fl, C(i)) for i in range(3))
    jobs = []
    for k in (0, 1, 2, 4):
        jobs.append(("__tribute_bytes_print", f"of {k} bytes", lambda st, k=k: [mk_bytes(e, st, x[:k])[0]], x[:k]))
        jobs.append(("__tribute_print_bytes", f"of {k} bytes", lambda st, k=k: [e.ref_to(st, ("seq", x[:k])) if k else C(0), C(k)], x[:k]))
        for nl in (0, 1):
            jobs.append(("__tribute_io_write", f"of {k} bytes" + " and a newline" * nl, lambda st, k=k, nl=nl: [mk_bytes(e, st, x[:k])[0], C(nl)], x[:k] + (NL,) * nl))
    jobs.append(("__tribute_print_newline", "", lambda st: [], (NL,)))
    for v in (0, 7, -12, 2**31 - 1, -2**31):
        jobs.append(("__tribute_print_int", f"of {v}", lambda st, v=v: [C(v)], txt(f"{v}\n")))
    for v in (0, 42, 2**31, 2**32 - 1):
        jobs.append(("__tribute_print_nat", f"of {v}", lambda st, v=v: [C(v)], txt(f"{v}\n")))
    jobs.append(("__tribute_print_float", "of a number", lambda st: [fl], digits + (NL,)))
    scripts = [("", [])]
    acts = [("interrupted", ("err", EINTR)), ("one byte", ("ok", 1)), ("two bytes", ("ok", 2))]
    for k in (1, 2, 3):
        for c in itertools.product(acts, repeat=k):
            scripts.append((", ".join(a for a, _ in c), [b for _, b in c]))

    def run(name, args, want, script):
        def f():
            st = State()
            e.script, e.script_end = script, ("ok", None)
            o, d = outs(e, st, names[name], args(st))
            s, _ = one(o, d, name)
            out = s.store.get(("out",), ("seq", ()))[1]
            return None if out == want else f"writes {shows(out)} instead of {shows(want)}"
        return f

    def failing(name, args, want, script, stop):
        """after an error, what was written so far is a beginning of the content"""
        def f():
            st = State()
            e.script, e.script_end = script, stop
            o, d = outs(e, st, names[name], args(st))
            s, _ = one(o, d, name)
            out = s.store.get(("out",), ("seq", ()))[1]
            return None if out == want[:len(out)] else f"writes {shows(out)}, which is no beginning of {shows(want)}"
        return f
    for name, what, args, want in jobs:
        for how, script in scripts:
            case(ctx, f"{name} {what}" + (f" with writes that are: {how}" if how else ""), run(name, args, want, script), ctx.where(names[name]))
        for how, stop in (("fail", ("err", EIO)), ("write nothing", ("ok", 0))):
            for k in ([], [("ok", 1)]):
                case(ctx, f"{name} {what} where writes {how}" + " after a byte" * len(k), failing(name, args, want, k, stop), ctx.where(names[name]))
    ctx.fns |= e.visited_fns


# ------------------------------------------------------------------ input
LINE, EOF, ENC, SYS = range(4)


def domains(conds, n):
    """the values each symbolic byte may have on a path; None where a condition is not understood"""
    dom = {T(f"x{i}"): set(range(256)) for i in range(n)}
    ok = True
    for c in conds:
        if c[0] in ("eq", "ne") and c[1] in dom and c[2][0] == "c":
            dom[c[1]] = {v for v in dom[c[1]] if (v == c[2][1]) == (c[0] == "eq")}
        elif c[0] == "b" and c[1][0] == "t" and len(c[1]) == 4 and c[1][1] in REL:
            a, b = c[1][2], c[1][3]
            if a in dom and b[0] == "c":
                dom[a] = {v for v in dom[a] if REL[c[1][1]](v, b[1]) == c[2]}
            elif b in dom and a[0] == "c":
                dom[b] = {v for v in dom[b] if REL[c[1][1]](a[1], v) == c[2]}
            else:
                ok = False
        elif c[0] == "is" and c[1][0] == "t" and c[1][1] == "utf8":
            pass
        elif c[0] == "b" and c[1][0] == "t" and len(c[1]) == 3 and c[1][2][0] == "t" and c[1][2][1] == "utf8":
            pass
        else:
            ok = False
    return dom, ok


REL = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def valid(conds, L):
    """what the path knows of the line being text: True, False or None"""
    for c in conds:
        if c[0] == "is" and c[1] == T("utf8", ("seq", L)):
            return c[2] == "Ok"
        if c[0] == "b" and c[1] in (T("is_err", T("utf8", ("seq", L))), T("is_ok", T("utf8", ("seq", L)))):
            return c[2] == (c[1][1] == "is_ok")
    return None


def meaning(events, cls):
    """events: bytes, 'eof' or ('err', code); -> results of successive reads (until the end)"""
    out, cur = [], []
    for ev in events:
        if ev == "eof":
            out.append((LINE, tuple(cur), 0) if cur else (EOF, (), 0))
            cur = []
        elif ev[0] == "err":
            out.append((SYS, (), ev[1]))
            cur = []
        else:
            c = cls.get(ev, ev)
            if c == C(10):
                if cur and cls.get(cur[-1], cur[-1]) == C(13):
                    cur.pop()
                out.append((LINE, tuple(cur), 0))
                cur = []
            else:
                cur.append(ev)
    return out


def one_read(e, st, v):
    """-> (tag, code, content or None, message present)"""
    r = e.deref(st, v)
    g = {n: field(e, st, r, i, n) for i, n in enumerate(("tag", "code", "bytes", "message"))}
    return g


def reading(ctx, scen, calls):
    """scen: list of chunks; a chunk is a number of bytes, 'intr', 'eof' or an error code as ('err', n)"""
    f = R + "__tribute_io_read_line"
    e = eng(ctx)
    script, events, k = [], [], 0
    for c in scen:
        if isinstance(c, int):
            bs = tuple(T(f"x{k + i}") for i in range(c))
            k += c
            script.append(("data", bs))
            events += list(bs)
        elif isinstance(c, tuple) and c[0] == "lit":
            bs = tuple(C(b) for b in c[1])
            script.append(("data", bs))
            events += list(bs)
        elif c == "intr":
            script.append(("err", EINTR))
        elif c == "eof":
            script.append(("eof", None))
            events.append("eof")
        else:
            script.append(c)
            events.append(c)
    script.append(("eof", None))
    events += ["eof"] * (calls + 1)
    e.script, e.script_end = script, ("eof", None)
    key = "lines of " + ", ".join(str(c) if not isinstance(c, int) else f"{c} bytes" for c in scen)
    where = ctx.where(f)
    try:
        st = State()
        st.store[("script",)] = C(0)
        paths = [(st, [])]
        for _ in range(calls):
            nxt = []
            for s, got in paths:
                o, d = outs(e, s, f, [])
                if d:
                    for x in d:
                        dom, ok = domains(x.cond_list(), k)
                        if ok and all(dom.values()):
                            raise absint.Definite("reading a line aborts")
                    raise Budget("reading a line may abort")
                for s2, v in o:
                    s2.store[("calls",)] = C(0)
                    nxt.append((s2, got + [one_read(e, s2, v)]))
            paths = nxt
        n = 0
        for s, got in paths:
            conds = s.cond_list()
            dom, ok = domains(conds, k)
            if not all(dom.values()):
                continue
            n += 1
            for pick in itertools.product(*[classes(dom[T(f"x{i}")]) for i in range(k)]):
                cls = {T(f"x{i}"): c for i, c in enumerate(pick) if c is not None}
                w = judge(e, s, got, meaning(events, cls), conds)
                if w:
                    if not ok:
                        raise Budget(w)
                    ex = ", ".join(f"{'other' if c is None else {10: 'LF', 13: 'CR'}[c[1]]}" for c in pick)
                    ctx.bad(key, key + (f" (the bytes being {ex})" if ex else "") + f": {w}", where)
                    return
        if not n:
            raise Budget("no path")
        ctx.ok(key)
    except absint.Definite as x:
        ctx.bad(key, f"{key}: {x}", where)
    except (Budget, RecursionError) as x:
        ctx.unk(key, f"{key}: {x}"[:300])
    finally:
        ctx.fns |= e.visited_fns


def classes(dom):
    out = []
    for c in (10, 13):
        if c in dom:
            out.append(C(c))
    if dom - {10, 13}:
        out.append(None)
    return out


def judge(e, st, got, want, conds):
    for i, (g, (tag, content_, code)) in enumerate(zip(got, want)):
        t, c = e.freeze(st, g["tag"]), e.freeze(st, g["code"])
        if t[0] != "c":
            unknown(t)
        nm = "read %d" % (i + 1)
        if tag == LINE:
            v = valid(conds, content_)
            lit = all(b[0] == "c" for b in content_)
            if lit:
                try:
                    bytes(b[1] for b in content_).decode()
                    v = True
                except UnicodeDecodeError:
                    v = False
            if v is None and content_:
                if t == C(LINE):
                    b, why = read_bytes(e, st, g["bytes"])
                    if why or b != content_:
                        return f"{nm} gives {why or shows(b)} instead of the line {shows(content_)}"
                    return f"{nm} gives a line without examining whether it is text"
                return f"{nm} gives result {t[1]} instead of the line {shows(content_)}"
            if v is False:
                if t != C(ENC):
                    return f"{nm} gives result {t[1]} for a line that is not text"
                continue
            if t != C(LINE):
                return f"{nm} gives result {t[1]} instead of the line {shows(content_)}"
            b, why = read_bytes(e, st, g["bytes"])
            if why:
                return f"{nm}: {why}"
            if b != content_:
                return f"{nm} gives the line {shows(b)} instead of {shows(content_)}"
        elif t != C(tag):
            return f"{nm} gives result {t[1]} instead of {tag}"
        if tag == SYS:
            if c != C(code):
                if c[0] != "c":
                    unknown(c)
                return f"{nm} reports code {c[1]} instead of {code}"
            b, why = read_bytes(e, st, g["message"])
            if why:
                return f"{nm}: the message: {why}"
    return None


def scenarios(tier):
    yield from ([n] for n in range(0, 4))
    yield from ([a, b] for a in (1, 2) for b in (1, 2))
    yield [1, 1, 1]
    yield [3, 1]
    yield ["intr", 2]
    yield [1, "intr", 1]
    yield [2, "intr", "intr", 1]
    yield [1, "eof", 1]
    yield [2, "eof", 2]
    yield ["eof", 1]
    yield [("err", EIO)]
    yield [("err", EIO), 2]
    yield [("err", 11), "eof", 1]
    yield [("lit", b"a\xff\n"), 1]
    yield [("lit", b"ab\ncd\r\n"), ("lit", b"e\n"), ("lit", b"fgh"), ("lit", b"i")]
    yield [("lit", b"\xed\x95"), ("lit", b"\x9c\n\x80\nok")]
    yield [("lit", b"abcdef\n"), ("lit", b"g"), ("lit", b"\n")]
    yield [("lit", b"\r\r\n\n\r\n\r"), ("lit", b"\n\r")]
    yield [("lit", b"a\0b\n\0\n")]
    if tier != "quick":
        yield [4]
        yield from ([a, b] for a in (1, 2, 3) for b in (1, 2, 3) if a + b > 4 or a == 3)
        yield [2, 1, 1]
        yield [1, 2, "intr", 1]


def check(ctx):
    ctx.rule("bytes operations give exactly the content they stand for, abort out of range, and own what they return; output reaches the "
             "descriptor completely, once and in order however writes are cut; input lines are the bytes read, in order, each once")
    if R + "__tribute_io_read_line" not in ctx.P.fns:
        ctx.bad("reading lines", "the run-time function is missing", R)
    jobs = [lambda: bytes_ops(ctx), lambda: printing(ctx)]
    for sc in scenarios(ctx.tier):
        n = sum(c if isinstance(c, int) else 1 for c in sc)
        lit = sum(c[1].count(b"\n") if isinstance(c, tuple) and c[0] == "lit" else 0 for c in sc)
        jobs.append(lambda sc=sc, n=n + lit: reading(ctx, sc, min(n, 5) + 1))
    ctx.parallel(jobs)

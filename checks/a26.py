"""A26: memory of the native run time: allocation, release, the sanitizer and one-time initialisation."""
import itertools
from .a25 import case, one, outs, aborts, num, ptr_of, unknown
from .lowering import *
from engine.rules import *
from engine import absint
from engine.absint import State, Budget, T, C, S, UNIT

LEVEL = "other"
EXPLANATION = ("The run time's allocation functions are analysed over an abstract memory of blocks with run-length content, on histories of "
               "allocating, writing and releasing, with and without the sanitizer, and its initialisation against every state another "
               "thread can have left the key in.")
ASSUMPTIONS = ["the system allocator and Layout behave as Rust specifies", "programs run on one thread once initialised"]
R = "tribute_runtime::"
ALLOC, FREE = R + "__tribute_alloc", R + "__tribute_dealloc"
RFREE = R + "__tribute_io_read_line_result_dealloc"
INIT = R + "asan::__asan_init"
MAXSIZE = 2**63 - 8
ZONE, QUAR = 32, 1 << 20


def blk(e, st, p):
    """-> (id, offset) of a pointer into a block, or None"""
    v, off = ptr_of(p)
    if v[0] == "ref" and v[1][0] == "h" and ("size", v[1]) in st.store:
        return v[1], off
    return None


def fill(e, st, p, n, val):
    b = blk(e, st, p)
    if b is None:
        raise Budget("memory is filled through an unknown pointer")
    loc, off = b
    size = st.store[("size", loc)][1]
    if n and (off < 0 or off + n > size):
        raise absint.Definite(f"writes bytes {off}..{off + n} of a block of {size}")
    if ("freed", loc) in st.store:
        raise absint.Definite("writes to a block given back to the system")
    if n:
        st.store[loc] = ("runs", st.store[loc][1] + ((off, off + n, val),))


def peek(e, st, p):
    b = blk(e, st, p)
    if b is None:
        raise Budget("memory is read through an unknown pointer")
    loc, off = b
    size = st.store[("size", loc)][1]
    if not 0 <= off < size:
        raise absint.Definite(f"reads byte {off} of a block of {size}")
    if ("freed", loc) in st.store:
        raise absint.Definite("reads a block given back to the system")
    for lo, hi, v in reversed(st.store[loc][1]):
        if lo <= off < hi:
            return v
    return T("uninit", C(off))


def eng(ctx):
    e = ctx.engine(max_depth=30, max_visits=400)
    e.exact = True
    e.null = False
    M = e.models
    init = {}

    def static(st, fr, nm):
        loc = ("static", nm)
        if loc not in st.store:
            b = e.prog.fns.get(nm)
            if b is None:
                return T("static", S(nm))
            o = e.run_body(State(), b, [], {}, 1)
            if len(o) != 1:
                raise Budget("the initial value of " + nm)
            st.store[loc] = e.freeze(o[0][0], o[0][1])
        return ("ref", loc, ())
    e.static_value = static

    def model(*names):
        def f(g):
            for n in names:
                M[n] = g
            return g
        return f
    P = ("core::ptr::const_ptr::", "core::ptr::mut_ptr::")

    def off_by(sign):
        def add(eng, st, fr, args, targs, path, t):
            n = num(eng, st, args[1]) * sign
            v, off = ptr_of(args[0])
            return v if off + n == 0 else ("t", "padd", v, C(off + n))
        return add
    for p in P:
        for w in ("", "byte_", "wrapping_"):
            M[p + w + "add"] = off_by(1)
            M[p + w + "sub"] = off_by(-1)
        M[p + "offset"] = off_by(1)

    @model(*(p + "is_null" for p in P))
    def is_null(eng, st, fr, args, targs, path, t):
        v, off = ptr_of(args[0])
        return C(1) if v == C(0) else C(0) if v[0] == "ref" else None
    M["core::ptr::null"] = M["core::ptr::null_mut"] = lambda *a: C(0)

    @model("core::ptr::write_bytes", "core::intrinsics::write_bytes", P[1] + "write_bytes")
    def write_bytes(eng, st, fr, args, targs, path, t):
        fill(eng, st, args[0], num(eng, st, args[2]), eng.freeze(st, args[1]))
        return UNIT

    @model("core::ptr::write", P[1] + "write")
    def write_(eng, st, fr, args, targs, path, t):
        if blk(eng, st, args[0]) is None:
            return None
        fill(eng, st, args[0], 1, eng.freeze(st, args[1]))
        return UNIT
    old_read = M.get("core::ptr::read")

    @model("core::ptr::read", *(p + "read" for p in P))
    def read_(eng, st, fr, args, targs, path, t):
        if blk(eng, st, args[0]) is None:
            return old_read(eng, st, fr, args, targs, path, t)
        return peek(eng, st, args[0])

    @model("core::alloc::layout::Layout::from_size_align", "core::alloc::Layout::from_size_align")
    def layout(eng, st, fr, args, targs, path, t):
        n, a = num(eng, st, args[0]), num(eng, st, args[1])
        if a < 1 or a & (a - 1) or n > 2**63 - a:
            return absint.err(T("layouterror"))
        return absint.ok(("adt", "Layout", "Layout", (C(n), C(a)), ("size", "align")))

    @model("core::alloc::layout::Layout::from_size_align_unchecked", "core::alloc::Layout::from_size_align_unchecked")
    def layout2(eng, st, fr, args, targs, path, t):
        r = layout(eng, st, fr, args, targs, path, t)
        if r[2] == "Err":
            raise absint.Definite("an invalid layout is made")
        return r[3][0]

    @model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
    def alloc(eng, st, fr, args, targs, path, t):
        l = eng.freeze(st, args[0])
        if l[0] != "adt" or l[1] != "Layout":
            return None
        if e.null:
            return C(0)
        if l[3][0] == C(0):
            raise absint.Definite("asks the system for no bytes")
        z = path.endswith("zeroed")
        loc = eng.alloc(st, ("runs", ((0, l[3][0][1], C(0)),) if z else ()))
        st.store[("size", loc)], st.store[("align", loc)] = l[3]
        st.store[("blocks",)] = ("seq", st.store.get(("blocks",), ("seq", ()))[1] + (loc,))
        return ("ref", loc, ())

    @model("alloc::alloc::dealloc")
    def dealloc(eng, st, fr, args, targs, path, t):
        l = eng.freeze(st, args[1])
        b = blk(eng, st, args[0])
        if l[0] != "adt" or l[1] != "Layout" or b is None:
            raise Budget("something unknown is given back")
        loc, off = b
        size, al = st.store[("size", loc)], st.store[("align", loc)]
        if off:
            raise absint.Definite(f"gives back a block at byte {off}")
        if l[3] != (size, al):
            raise absint.Definite(f"gives back a block of {size[1]} bytes aligned to {al[1]} as {l[3][0][1]} aligned to {l[3][1][1]}")
        if ("freed", loc) in st.store:
            raise absint.Definite("gives back a block twice")
        st.store[("freed", loc)] = C(1)
        return UNIT

    for w in ("Atomic", "AtomicUsize", "AtomicBool", "AtomicU32"):
        A = "core::sync::atomic::" + w + "::"
        M[A + "new"] = lambda eng, st, fr, args, targs, path, t: args[0]

        def rmw(eng, st, fr, args, targs, path, t):
            r = args[0]
            if r[0] != "ref":
                return None
            old, n = eng.deref1(st, r), eng.freeze(st, args[1])
            if old[0] != "c" or n[0] != "c":
                return None
            nm = path.rsplit("::", 1)[-1]
            new = {"fetch_add": old[1] + n[1], "fetch_sub": old[1] - n[1], "swap": n[1], "fetch_or": old[1] | n[1]}[nm] % 2**64
            eng.store_to(st, r[1], r[2], C(new))
            return old
        for nm in ("fetch_add", "fetch_sub", "swap", "fetch_or"):
            M[A + nm] = rmw

        def store(eng, st, fr, args, targs, path, t):
            if args[0][0] != "ref":
                return None
            eng.store_to(st, args[0][1], args[0][2], eng.freeze(st, args[1]))
            return UNIT
        M[A + "store"] = store

        def load(eng, st, fr, args, targs, path, t):
            if args[0][0] != "ref":
                return None
            other(eng, st, args[0])
            v = eng.deref1(st, args[0])
            return v if v[0] == "c" else None
        M[A + "load"] = load

        def cas(eng, st, fr, args, targs, path, t):
            r = args[0]
            if r[0] != "ref":
                return None
            v, a, b = eng.deref1(st, r), eng.freeze(st, args[1]), eng.freeze(st, args[2])
            if v[0] != "c" or a[0] != "c":
                return None
            if v == a:
                eng.store_to(st, r[1], r[2], b)
                return absint.ok(v)
            return absint.err(v)
        M[A + "compare_exchange"] = M[A + "compare_exchange_weak"] = cas

    @model("core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert_default")
    def insert_with(eng, st, fr, args, targs, path, t):
        r = args[0]
        if r[0] != "ref":
            return None
        v = eng.deref1(st, r)
        if v[0] != "adt" or v[2] not in ("None", "Some"):
            return None
        if v[2] == "None":
            x = ("seq", ()) if len(args) < 2 else None
            if x is None:
                o = eng.apply(st, fr, args[1], [])
                if len(o) != 1:
                    return None
                st2, x = o[0]
                if st2 is not st:
                    return None
            eng.store_to(st, r[1], r[2], absint.some(x))
        return ("ref", r[1], r[2] + (("d", "Some"), ("f", 0, "0")))

    def popper(end):
        def pop(eng, st, fr, args, targs, path, t):
            r = args[0]
            v = eng.deref1(st, r) if r[0] == "ref" else T("?")
            if v[0] != "seq" or any(x[0] in ("each", "spread") for x in v[1]):
                return None
            if not v[1]:
                return ("adt", "core::option::Option", "None", (), ())
            rest = v[1][1:] if end == 0 else v[1][:-1]
            eng.store_to(st, r[1], r[2], ("seq", rest))
            return absint.some(v[1][end])
        return pop
    M["alloc::collections::vec_deque::VecDeque::pop_front"] = popper(0)
    M["alloc::collections::vec_deque::VecDeque::pop_back"] = popper(-1)
    M["core::mem::size_of"] = lambda eng, st, fr, args, targs, path, t: C(24) if targs and targs[0] == R + "NativeReadLineResult" else None

    def other(eng, st, r):
        """another thread publishes the key after some loads"""
        n = st.store.get(("until",))
        if n is not None and eng.deref1(st, r) == st.store[("pending",)]:
            if n[1] == 0:
                eng.store_to(st, r[1], r[2], C(KEY))
            st.store[("until",)] = C(n[1] - 1)

    def ext(eng, st, fr, path, key, args, targs, t):
        nm = path.rsplit("::", 1)[-1]
        if nm == "write" and path.startswith(("libc::", R)):
            return C(1)
        if nm == "pthread_key_create":
            st.store[("created",)] = C(st.store.get(("created",), C(0))[1] + 1)
            if args[0][0] == "ref":
                eng.store_to(st, args[0][1], args[0][2], C(KEY))
            return C(0)
        if nm == "spin_loop":
            return UNIT
        if nm == "format_args" or "fmt::" in path:
            return T("formatted")
    e.ext_hook = ext
    return e


KEY = 9


def start(e, asan):
    st = State()
    if asan:
        o, d = outs(e, st, INIT, [])
        st, _ = one(o, d, "the sanitizer's initialisation")
    return st


def take(e, st, n):
    o, d = outs(e, st, ALLOC, [C(n)])
    return one(o, d, f"allocating {n} bytes")


def held(e, st, p, n):
    """the memory handed out is a proper piece of one block; -> violation or None"""
    if p == C(0):
        return "no memory is given"
    b = blk(e, st, p)
    if b is None:
        unknown(e.freeze(st, p))
    loc, off = b
    size, al = st.store[("size", loc)][1], st.store[("align", loc)][1]
    if off < 0 or off + n > size:
        return f"bytes {off}..{off + n} of a block of {size} are handed out"
    if al % 8 or off % 8:
        return f"memory aligned to {al} is handed out at {off}"
    if ("freed", loc) in st.store:
        return "memory given back to the system is handed out"


def plain(ctx, e, asan):
    tag = " with the sanitizer" if asan else ""
    W = ctx.where(ALLOC)
    top = MAXSIZE - 64 * asan
    sizes = [1, 2, 7, 8, 9, 16, 24, 31, 32, 33, 63, 64, 65, 255, 4096, 65537, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40, top]

    def alloc(n):
        def f():
            e.null = False
            s, p = take(e, start(e, asan), n)
            return held(e, s, p, n)
        return f

    def zero():
        e.null = False
        s, p = take(e, start(e, asan), 0)
        if ("blocks",) in s.store:
            return "a block is allocated for no bytes"
        return None if p == C(0) else "a pointer is given for no bytes"

    def refused(n, null=False):
        def f():
            st = start(e, asan)
            e.null = null
            o, d = outs(e, st, ALLOC, [C(n)])
            e.null = False
            return None if aborts(o, d) else "does not abort"
        return f

    def both(n, m):
        def f():
            st = start(e, asan)
            st, p = take(e, st, n)
            st, q = take(e, st, m)
            w = held(e, st, p, n) or held(e, st, q, m)
            if w is None and blk(e, st, p)[0] == blk(e, st, q)[0]:
                return "two allocations share a block"
            return w
        return f

    def give(n):
        def f():
            st, p = take(e, start(e, asan), n)
            fill(e, st, p, n, T("data"))
            o, d = outs(e, st, FREE, [p, C(n)])
            st, _ = one(o, d, "releasing a block within whose bounds the program wrote")
            if asan:
                return None
            loc = blk(e, st, p)[0]
            return None if ("freed", loc) in st.store else "the block is not given back"
        return f

    def null(n):
        def f():
            o, d = outs(e, start(e, asan), FREE, [C(0), C(n)])
            one(o, d, "releasing a null pointer")
        return f
    for n in sizes:
        case(ctx, f"allocating {n} bytes" + tag, alloc(n), W)
        case(ctx, f"allocating {n} bytes when memory is out" + tag, refused(n, True), W)
    for n in (top + 1, 2**63, 2**64 - 65, 2**64 - 64, 2**64 - 33, 2**64 - 32, 2**64 - 1):
        case(ctx, f"allocating {n} bytes, more than there can be" + tag, refused(n), W)
    case(ctx, "allocating no bytes" + tag, zero, W)
    for n, m in ((8, 8), (24, 100), (1, 1)):
        case(ctx, f"allocating {n} and {m} bytes" + tag, both(n, m), W)
    for n in sizes:
        case(ctx, f"allocating, filling and releasing {n} bytes" + tag, give(n), ctx.where(FREE))
    for n in (0, 1, 24, 2**64 - 1):
        case(ctx, f"releasing a null pointer of {n} bytes" + tag, null(n), ctx.where(FREE))

    def result():
        st, p = take(e, start(e, asan), 24)
        fill(e, st, p, 24, T("data"))
        o, d = outs(e, st, RFREE, [p])
        st, _ = one(o, d, "releasing the result of reading a line")
        if not asan and ("freed", blk(e, st, p)[0]) not in st.store:
            return "the result is not given back"

    def nores():
        o, d = outs(e, start(e, asan), RFREE, [C(0)])
        one(o, d, "releasing no result")
    case(ctx, "releasing the result of reading a line" + tag, result, ctx.where(RFREE))
    case(ctx, "releasing no result of reading a line" + tag, nores, ctx.where(RFREE))


def zones(ctx, e, n):
    """writes near the block are reported at its release, and only those"""
    W = ctx.where(FREE)

    def stray(d, how):
        def f():
            st, p = take(e, start(e, True), n)
            fill(e, st, p, n, T("data"))
            v, off = ptr_of(p)
            q = ("t", "padd", v, C(off + (n + d if d >= 0 else d)))
            cur = peek(e, st, q)
            if cur[0] != "c":
                if cur[1] == "uninit":
                    return f"the byte at distance {d} of the block is not watched"
                unknown(cur)
            fill(e, st, q, 1, C(cur[1] ^ how))
            o, dd = outs(e, st, FREE, [p, C(n)])
            return None if aborts(o, dd) else "the stray write is not reported"
        return f

    def within(val):
        def f():
            st, p = take(e, start(e, True), n)
            fill(e, st, p, n, C(val))
            o, d = outs(e, st, FREE, [p, C(n)])
            st, _ = one(o, d, "releasing a block within whose bounds the program wrote")
        return f

    def twice():
        st, p = take(e, start(e, True), n)
        fill(e, st, p, n, T("data"))
        o, d = outs(e, st, FREE, [p, C(n)])
        st, _ = one(o, d, "releasing a block")
        o, d = outs(e, st, FREE, [p, C(n)])
        return None if aborts(o, d) else "the second release is not reported"

    def poison():
        st, p = take(e, start(e, True), n)
        fill(e, st, p, n, T("data"))
        o, d = outs(e, st, FREE, [p, C(n)])
        st, _ = one(o, d, "releasing a block")
        v, off = ptr_of(p)
        if ("freed", blk(e, st, p)[0]) in st.store:
            return "the block is given back at once"
        got = {peek(e, st, ("t", "padd", v, C(off + i))) for i in {0, n // 2, n - 1}}
        return None if T("data") not in got else "released memory keeps its content"
    ds = list(range(ZONE)) + list(range(-ZONE, 0))
    if ctx.tier == "quick" and n != 24:
        ds = [0, 1, 7, 8, 15, 16, 30, 31, -32, -31, -16, -8, -1]
    for d in ds:
        for how in (1, 0xFF):
            case(ctx, f"a stray write at distance {d} of {n} bytes (difference {how})", stray(d, how), W)
    for val in (0, 0xCC, 0xFD, 0xFF, 0x42):
        case(ctx, f"filling {n} bytes with {val:#x}", within(val), W)
    case(ctx, f"releasing {n} bytes twice", twice, W)
    case(ctx, f"released memory of {n} bytes", poison, W)


def quarantine(ctx, e, sizes):
    """sizes: released in order; blocks leave the quarantine oldest first, once, and it stays bounded"""
    key = "releasing blocks of " + ", ".join(map(str, sizes))

    def f():
        st = start(e, True)
        ptrs = []
        for n in sizes:
            st, p = take(e, st, n)
            w = held(e, st, p, n)
            if w:
                return w
            ptrs.append((n, p))
        keep, keepn = None, 40
        st, keep = take(e, st, keepn)
        for i, (n, p) in enumerate(ptrs):
            o, d = outs(e, st, FREE, [p, C(n)])
            st, _ = one(o, d, f"releasing block {i + 1}")
            gone = [("freed", blk(e, st, q)[0]) in st.store for _, q in ptrs]
            if any(gone[i + 1:]) or ("freed", blk(e, st, keep)[0]) in st.store:
                return f"after releasing {i + 1} of them, one still in use is given back"
            k = sum(gone[:i + 1])
            if gone[:k] != [True] * k:
                return f"after releasing {i + 1} of them, a newer block is given back before an older one"
            total = sum(st.store[("size", blk(e, st, q)[0])][1] for (_, q), g in zip(ptrs[:i + 1], gone) if not g)
            if total > QUAR:
                return f"after releasing {i + 1} of them, {total} bytes are held back"
            if k and total + st.store[("size", blk(e, st, ptrs[k - 1][1])[0])][1] <= QUAR:
                return f"after releasing {i + 1} of them, a block is given back although there is room for it"
    case(ctx, key, f, ctx.where(FREE))


def starting(ctx, e):
    f = next((n for n in (R + "__tribute_init",) if n in ctx.P.fns), None)
    if f is None:
        ctx.bad("initialisation", "the function that initialises the run time is missing", R)
        return
    W = ctx.where(f)
    KS = [n for n in ctx.P.fns if n.startswith(R + "tls::") and n.endswith("_KEY")]

    def value(st):
        vs = [v for k, v in st.store.items() if isinstance(k, tuple) and k[0] == "static"]
        return vs[0] if len(vs) == 1 else None

    def first():
        o, d = outs(e, State(), f, [])
        st, _ = one(o, d, "initialisation")
        if st.store.get(("created",)) != C(1):
            return "no key is made"
        if value(st) is None:
            raise Budget("where the key is kept")
        if value(st) != C(KEY):
            return f"the key is kept as {absint.show(value(st))}"
        o, d = outs(e, st, f, [])
        st, _ = one(o, d, "initialising again")
        if st.store[("created",)] != C(1):
            return "another key is made when initialising again"
        return None if value(st) == C(KEY) else "initialising again changes the key"

    def waiting(k):
        def g():
            if len(KS) != 1:
                raise Budget("where the key is kept")
            # the state another thread leaves while it makes the key: found by stopping it there
            seen = {}

            def stop(eng, st, fr, path, key, args, targs, t):
                if path.endswith("pthread_key_create"):
                    seen["v"] = st.store.get(("static", KS[0]))
                    return C(0)
                return old(eng, st, fr, path, key, args, targs, t)
            old = e.ext_hook
            e.ext_hook = stop
            try:
                outs(e, State(), f, [])
            finally:
                e.ext_hook = old
            if seen.get("v") is None or seen["v"][0] != "c":
                raise Budget("what marks an initialisation under way")
            st = State()
            st.store[("static", KS[0])] = st.store[("pending",)] = seen["v"]
            st.store[("until",)] = C(k)
            o, d = outs(e, st, f, [])
            st, _ = one(o, d, "initialisation during another thread's")
            if ("created",) in st.store:
                return "a second key is made while another thread makes one"
            v = value(st)
            return None if v == C(KEY) else f"returns while the key is {absint.show(v)}"
        return g
    case(ctx, "initialising and initialising again", first, W)
    for k in (0, 1, 2, 5):
        case(ctx, f"initialising while another thread does, for {k} more looks", waiting(k), W)


def check(ctx):
    ctx.rule("memory handed out lies in a block of its own, of at least the size asked for and aligned; what is released goes back to the "
             "system whole, once and as it was asked for; the sanitizer reports writes within its red zones and double releases, and nothing "
             "else, and holds back at most its limit, oldest first")
    for f in (ALLOC, FREE, RFREE, INIT):
        if f not in ctx.P.fns:
            ctx.bad("memory " + f.rsplit("::", 1)[-1], "the run-time function is missing", f)

    def with_engine(g, *a):
        e = eng(ctx)
        g(ctx, e, *a)
        ctx.fns |= e.visited_fns
    jobs = [lambda: with_engine(plain, False), lambda: with_engine(plain, True), lambda: with_engine(starting)]
    for n in (1, 8, 24, 33) + ((2, 7, 16, 31, 32, 64, 100) if ctx.tier != "quick" else ()):
        jobs.append(lambda n=n: with_engine(zones, n))
    M = QUAR - 64
    seqs = [(16, 24, 8), (M,), (M + 1,), (2 * M,), (M, 1), (1, M), (M // 2, M // 2), (M // 2 - 32, M // 2 - 32), (M // 2 - 32, M // 2 - 32, 8),
            (M // 3,) * 5, (8, M, 8, M), (2 * M, 8, 8), (100000, 200000, 300000, 400000, 500000, 600000), (8, 8, 8, M)]
    for s in seqs:
        jobs.append(lambda s=s: with_engine(quarantine, s))
    ctx.parallel(jobs)

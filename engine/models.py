import re
"""Transfer functions for library code and for the IR construction primitives of trunk-ir.

A model is m(eng, st, fr, args, targs, path, t) -> None (not applicable: inline the MIR body or treat the
call as uninterpreted) | value | [(state, value)]."""

MODELS = {}
OPT = "core::option::Option"
RES = "core::result::Result"
UNIT = ("tup", ())
TRUE, FALSE = ("c", 1), ("c", 0)
NONE = ("adt", OPT, "None", (), ())


def some(v):
    return ("adt", OPT, "Some", (v,), ("0",))


def ok(v):
    return ("adt", RES, "Ok", (v,), ("0",))


def err(v):
    return ("adt", RES, "Err", (v,), ("0",))


def T(n, *a):
    return ("t", n) + a


def C(n):
    return ("c", n)


def S(x):
    return ("s", x)


def B(b):
    return TRUE if b else FALSE


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def plain(parts):
    return all(x[0] not in ("each", "spread") for x in parts)


# ---------------------------------------------------------------- identity-like conversions
@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
       "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "smallvec::SmallVec::as_slice",
       "smallvec::SmallVec::as_mut_slice", "alloc::string::String::as_str", "alloc::string::String::as_mut_str",
       "core::hint::must_use", "core::str::as_bytes", "core::iter::traits::collect::FromIterator::from_iter",
       "alloc::vec::Vec::into_boxed_slice", "alloc::boxed::Box::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new",
       "core::cell::RefCell::new", "core::cell::Cell::new", "core::cell::RefCell::borrow",
       "core::cell::RefCell::borrow_mut", "core::cell::UnsafeCell::new", "core::cell::UnsafeCell::get",
       "std::sync::once_lock::OnceLock::new", "smallvec::SmallVec::from_vec", "smallvec::SmallVec::into_vec",
       "core::ptr::mut_ptr::cast", "core::ptr::const_ptr::cast", "core::ptr::mut_ptr::cast_const",
       "core::ptr::const_ptr::cast_mut", "core::ptr::mut_ptr::cast_mut", "alloc::boxed::Box::into_raw",
       "alloc::boxed::Box::from_raw", "core::slice::as_ptr", "core::slice::as_mut_ptr", "core::str::as_ptr",
       "alloc::string::String::into_bytes", "core::mem::manually_drop::ManuallyDrop::new", "core::str::as_str",
       "core::pin::Pin::new", "core::hint::black_box")
def m_id(eng, st, fr, args, targs, path, t):
    return args[0] if args else UNIT


@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::to_vec",
       "core::borrow::ToOwned::to_owned", "smallvec::SmallVec::to_vec", "alloc::slice::into_vec",
       "core::ptr::read", "core::ptr::const_ptr::read", "core::ptr::mut_ptr::read", "alloc::str::to_owned",
       "alloc::string::String::into_boxed_str", "smallvec::SmallVec::from_slice", "smallvec::ToSmallVec::to_smallvec")
def m_clone(eng, st, fr, args, targs, path, t):
    return eng.deref1(st, args[0])


@model("core::convert::Into::into", "core::convert::From::from")
def m_into(eng, st, fr, args, targs, path, t):
    if path in eng.prog.fns and eng.should_inline(path):
        return None
    if "Into" in path and len(targs) > 1:
        p = f"<{targs[1]} as core::convert::From<{targs[0]}>>::from"
        if p in eng.prog.fns and eng.should_inline(p):
            return eng.run_body(st, eng.prog.fns[p], list(args), {}, getattr(fr, "depth", 0) + 1)
    a = eng.deref(st, args[0])
    if a[0] in ("s", "fl", "seq", "adt", "map", "op", "res", "ent"):
        if targs and len(targs) > 1 and targs[0] in (OPT,) :
            pass
        return a
    tgt = (targs[1] if "Into" in path and len(targs) > 1 else (targs[0] if targs else "")) or ""
    src = (targs[0] if "Into" in path else (targs[1] if len(targs) > 1 else "")) or ""
    num = eng.INT_BITS
    if tgt in num and (src in num or src in ("bool", "char")):
        return a
    if a[0] == "c":
        return a
    return a


def wider(a, b):
    """every value of the integer type b is one of a"""
    def lim(x):
        n = int(x[1:]) if x[1:].isdigit() else 64
        return (-(1 << n - 1), (1 << n - 1) - 1) if x[0] == "i" else (0, (1 << n) - 1)
    return lim(a)[0] <= lim(b)[0] and lim(b)[1] <= lim(a)[1]


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def m_try(eng, st, fr, args, targs, path, t):
    if path in eng.prog.fns:
        return None
    if "TryInto" in path and len(targs) > 1:
        p = f"<{targs[1]} as core::convert::TryFrom<{targs[0]}>>::try_from"
        if p in eng.prog.fns:
            return eng.run_body(st, eng.prog.fns[p], list(args), {}, getattr(fr, "depth", 0) + 1)
    a = eng.freeze(st, args[0])
    ty = (targs[0] if targs else "") if "TryFrom" in path else (targs[1] if len(targs) > 1 else "")
    if not ty:
        ty = path.split(" for ")[-1].split(">")[0] if " for " in path else path[1:].split(" as ")[0]
    if a[0] == "c" and ty in eng.INT_BITS:
        if eng.wrap(a[1], ty) == a[1]:
            return ok(a)
        return err(T("TryFromIntError"))
    if a[0] == "t" and a[1] == "cast" and len(a) > 4 and a[3][1] in eng.INT_BITS and a[4][1] in eng.INT_BITS and ty in eng.INT_BITS:
        if wider(ty, a[3][1]) and wider(a[4][1], a[3][1]):
            return ok(a)                # came from a type whose values all fit
    # in-range value keeps its origin; the failing side is a separate path
    s2 = st.fork()
    f = T("fits", a, S(str(ty)))
    out = []
    for s, b in eng.decide(st, f):
        out.append((s, ok(a) if b else err(T("TryFromIntError", a))))
    return out


@model("alloc::string::ToString::to_string")
def m_to_string(eng, st, fr, args, targs, path, t):
    a = eng.freeze(st, args[0])
    if a[0] in ("s",):
        return a
    ty = targs[0] if targs else ""
    if a[0] == "c" and ty in eng.INT_BITS:
        return S(str(a[1]))
    if any(x in str(ty) for x in ("Symbol", "str", "String", "Cow")):
        return a
    return T("to_string", a)


@model("core::default::Default::default")
def m_default(eng, st, fr, args, targs, path, t):
    ty = (targs[0] if targs else "") or ""
    if "trunk_ir::types::AttributeMap" in (ty, path[1:].split(" as ")[0]):
        return ("map", ())
    if path in eng.prog.fns:
        return None
    if path.startswith("<") and " as " in path:
        own = path[1:].split(" as ")[0]
        if "::" in own or own in eng.INT_BITS or own == "bool":
            ty = own
    if ty in eng.INT_BITS or ty == "bool":
        return C(0)
    if any(x in ty for x in ("Vec", "HashSet", "VecDeque", "BTreeSet", "IndexSet")):
        return ("seq", ())
    if any(x in ty for x in ("HashMap", "BTreeMap", "AttributeMap", "IndexMap")):
        return ("map", ())
    if ty == "alloc::string::String":
        return S("")
    if ty == OPT or ty.startswith(OPT + "<"):
        return NONE
    return T("default", S(ty))


# ---------------------------------------------------------------- panics
@model("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::assert_failed",
       "core::panicking::unreachable_display", "core::panicking::panic_display", "std::process::abort",
       "core::panicking::unreachable_default_msg", "std::process::exit", "core::option::expect_failed",
       "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic_nounwind",
       "std::rt::begin_panic", "alloc::alloc::handle_alloc_error", "core::panicking::panic_explicit",
       "core::hint::unreachable_unchecked")
def m_panic(eng, st, fr, args, targs, path, t):
    st.event("panic", path.split("::")[-1], tuple(eng.freeze(st, a) for a in args))
    return [(st, UNIT)]


# ---------------------------------------------------------------- Option / Result
def split_opt(eng, st, v, adt=OPT):
    """-> [(state, variant, payload)]"""
    v = eng.deref(st, v)
    if v[0] == "adt":
        return [(st, v[2], v[3][0] if v[3] else None)]
    if v[0] == "upd" and v[1][0] == "adt":
        return [(st, v[1][2], eng.project(st, v, ("f", 0, "0")))]
    f = eng.freeze(st, v)
    out = []
    for s, nm in eng.decide_variant(st, f, adt):
        out.append((s, nm, eng.mk_as(s, f, nm, "0")))
    return out


def optm(*names):
    def deco(f):
        for n in names:
            MODELS[OPT + "::" + n] = lambda eng, st, fr, args, targs, path, t, f=f: f(eng, st, fr, args, OPT)
            MODELS[RES + "::" + n] = lambda eng, st, fr, args, targs, path, t, f=f: f(eng, st, fr, args, RES)
        return f
    return deco


def good(nm):
    return nm in ("Some", "Ok")


def wrapv(nm, v):
    return {"Some": some, "Ok": ok, "Err": err}[nm](v) if nm != "None" else NONE


@model("core::ops::try_trait::Try::branch")
def m_branch(eng, st, fr, args, targs, path, t):
    CF = "core::ops::control_flow::ControlFlow"
    ad = targs[0] if targs else (RES if "Result" in path else OPT)
    v0 = eng.deref(st, args[0])
    if "control_flow" in path or "ControlFlow" in path or "ControlFlow" in ad or (v0[0] == "adt" and v0[1] == CF):
        out = []
        for s, nm, p in split_opt(eng, st, args[0], CF):
            out.append((s, ("adt", CF, nm, (p if nm == "Continue" else ("adt", CF, "Break", (p,), ("0",)),), ("0",))))
        return out
    if ad not in (OPT, RES):
        ad = RES if "result" in path else OPT
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, ("adt", CF, "Continue", (p,), ("0",))))
        else:
            r = NONE if nm == "None" else err(p)
            out.append((s, ("adt", CF, "Break", (r,), ("0",))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(eng, st, fr, args, targs, path, t):
    a = args[0]
    tgt = targs[0] if targs else ""
    if tgt == RES or a[0] == "adt":
        if a[0] == "adt" and a[2] == "Err":
            return err(a[3][0])
    return a


@optm("is_some", "is_ok")
def o_is_some(eng, st, fr, args, ad):
    v = eng.deref(st, args[0])
    if v[0] == "adt":
        return B(good(v[2]))
    return T("isvar", eng.freeze(st, v), S("Some" if ad == OPT else "Ok"), S(ad))


@optm("is_none", "is_err")
def o_is_none(eng, st, fr, args, ad):
    v = eng.deref(st, args[0])
    if v[0] == "adt":
        return B(not good(v[2]))
    return eng.mk_not(T("isvar", eng.freeze(st, v), S("Some" if ad == OPT else "Ok"), S(ad)))


@optm("unwrap", "expect", "unwrap_unchecked")
def o_unwrap(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, p))
        else:
            s.event("panic", "unwrap", (eng.freeze(s, args[0]),))
            eng.end(s, fr.fn, "panic", False)
    return out


@optm("unwrap_or")
def o_unwrap_or(eng, st, fr, args, ad):
    return [(s, p if good(nm) else args[1]) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("unwrap_or_default")
def o_unwrap_or_default(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, p))
        else:
            ft = fr.fn.local_ty(eng.cur_site[2][3][0]) if eng.cur_site else {"s": ""}
            ty = ft.get("p") or ft["s"]
            own = f"<{ty} as core::default::Default>::default"
            if own in eng.prog.fns:
                out.extend(eng.invoke(s, fr, own, [], [], None))
                continue
            out.append((s, m_default(eng, s, fr, [], (ty,), "core::default::Default::default", None)))
    return out


@optm("unwrap_or_else")
def o_unwrap_or_else(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, p))
        else:
            out.extend(eng.apply(s, fr, args[1], [p] if ad == RES else []))
    return out


@optm("map", "inspect_")
def o_map(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend((s2, wrapv(nm, v)) for s2, v in eng.apply(s, fr, args[1], [p]))
        else:
            out.append((s, wrapv(nm, p)))
    return out


@optm("map_err")
def o_map_err(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if nm == "Err":
            out.extend((s2, err(v)) for s2, v in eng.apply(s, fr, args[1], [p]))
        else:
            out.append((s, wrapv(nm, p)))
    return out


@optm("and_then")
def o_and_then(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend(eng.apply(s, fr, args[1], [p]))
        else:
            out.append((s, wrapv(nm, p)))
    return out


@optm("or_else")
def o_or_else(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, wrapv(nm, p)))
        else:
            out.extend(eng.apply(s, fr, args[1], [p] if ad == RES else []))
    return out


@optm("or")
def o_or(eng, st, fr, args, ad):
    return [(s, wrapv(nm, p) if good(nm) else args[1]) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("and")
def o_and(eng, st, fr, args, ad):
    return [(s, args[1] if good(nm) else wrapv(nm, p)) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("ok_or", "ok_or_else")
def o_ok_or(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.append((s, ok(p)))
        elif args[1][0] in ("clo", "fn"):
            out.extend((s2, err(v)) for s2, v in eng.apply(s, fr, args[1], []))
        else:
            out.append((s, err(args[1])))
    return out


@optm("ok")
def o_ok(eng, st, fr, args, ad):
    return [(s, some(p) if good(nm) else NONE) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("err")
def o_err(eng, st, fr, args, ad):
    return [(s, some(p) if not good(nm) else NONE) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("is_some_and", "is_ok_and")
def o_is_some_and(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend(eng.apply(s, fr, args[1], [p]))
        else:
            out.append((s, FALSE))
    return out


@optm("is_none_or")
def o_is_none_or(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend(eng.apply(s, fr, args[1], [p]))
        else:
            out.append((s, TRUE))
    return out


@optm("map_or")
def o_map_or(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend(eng.apply(s, fr, args[2], [p]))
        else:
            out.append((s, args[1]))
    return out


@optm("map_or_else")
def o_map_or_else(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if good(nm):
            out.extend(eng.apply(s, fr, args[2], [p]))
        else:
            out.extend(eng.apply(s, fr, args[1], [p] if ad == RES else []))
    return out


@optm("filter")
def o_filter(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if not good(nm):
            out.append((s, NONE))
            continue
        for s2, v in eng.apply(s, fr, args[1], [eng.ref_to(s, p)]):
            for s3, b in eng.decide(s2, v):
                out.append((s3, some(p) if b else NONE))
    return out


@optm("flatten")
def o_flatten(eng, st, fr, args, ad):
    return [(s, p if good(nm) else NONE) for s, nm, p in split_opt(eng, st, args[0], ad)]


@optm("transpose")
def o_transpose(eng, st, fr, args, ad):
    out = []
    opt_first = ad == OPT
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if opt_first:
            if not good(nm):
                out.append((s, ok(NONE)))
            else:
                out.extend((s2, ok(some(q)) if good(n2) else err(q)) for s2, n2, q in split_opt(eng, s, p, RES))
        elif not good(nm):
            out.append((s, some(err(p))))
        else:
            out.extend((s2, some(ok(q)) if good(n2) else NONE) for s2, n2, q in split_opt(eng, s, p, OPT))
    return out


@optm("copied", "cloned")
def o_copied(eng, st, fr, args, ad):
    v = args[0]
    if v[0] == "adt" and v[2] == "Some":
        return some(eng.deref1(st, v[3][0]))
    return v


@optm("as_ref", "as_deref", "as_deref_mut", "as_slice")
def o_as_ref(eng, st, fr, args, ad):
    r = args[0]
    v = eng.deref(st, r)
    if v[0] == "adt" and v[3]:
        if r[0] == "ref":
            return ("adt", v[1], v[2], (("ref", r[1], r[2] + (("d", v[2]), ("f", 0, "0"))),), v[4])
        return ("adt", v[1], v[2], (eng.ref_to(st, v[3][0]),), v[4])
    return v


@optm("as_mut")
def o_as_mut(eng, st, fr, args, ad):
    return o_as_ref(eng, st, fr, args, ad)


@optm("take")
def o_take(eng, st, fr, args, ad):
    r = args[0]
    v = eng.deref1(st, r)
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], NONE)
    return v


@optm("replace")
def o_replace(eng, st, fr, args, ad):
    r = args[0]
    v = eng.deref1(st, r)
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], some(args[1]))
    return v


@optm("insert")
def o_insert(eng, st, fr, args, ad):
    r = args[0]
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], some(args[1]))
        return ("ref", r[1], r[2] + (("d", "Some"), ("f", 0, "0")))
    return args[1]


@optm("zip")
def o_zip(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        if not good(nm):
            out.append((s, NONE))
            continue
        for s2, n2, q in split_opt(eng, s, args[1], ad):
            out.append((s2, some(("tup", (p, q))) if good(n2) else NONE))
    return out


@optm("iter", "into_iter")
def o_iter(eng, st, fr, args, ad):
    out = []
    for s, nm, p in split_opt(eng, st, args[0], ad):
        out.append((s, mk_iter(("seq", (p,) if good(nm) else ()))))
    return out


@model("core::bool::then", "core::bool::then_some")
def m_then(eng, st, fr, args, targs, path, t):
    out = []
    for s, b in eng.decide(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif path.endswith("then_some"):
            out.append((s, some(args[1])))
        else:
            out.extend((s2, some(v)) for s2, v in eng.apply(s, fr, args[1], []))
    return out


# ---------------------------------------------------------------- comparisons
def unordered(eng, path, targs, a, b):
    """Sets and maps compare by content."""
    if not any(x in path or any(x in str(t) for t in targs[:1]) for x in ("HashSet", "HashMap", "BTreeSet", "IndexSet", "IndexMap")):
        return None
    if a[0] == b[0] == "seq" and plain(a[1]) and plain(b[1]):
        xs, ys = list(a[1]), list(b[1])
        if sorted(map(repr, xs)) == sorted(map(repr, ys)):
            return True
        if all(decided(x) for x in xs + ys):
            return False
    if a[0] == b[0] == "map" and sorted(map(repr, a[1])) == sorted(map(repr, b[1])):
        return True
    return None


def decided(v):
    return v[0] in ("c", "s", "ent", "fl") or (v[0] in ("tup",) and all(decided(x) for x in v[1]))


@model("core::cmp::PartialEq::eq")
def m_eq(eng, st, fr, args, targs, path, t):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    u = unordered(eng, path, targs, a, b)
    return C(int(u)) if u is not None else eng.cmp("eq", a, b)


@model("core::cmp::PartialEq::ne")
def m_ne(eng, st, fr, args, targs, path, t):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    u = unordered(eng, path, targs, a, b)
    return C(int(not u)) if u is not None else eng.cmp("ne", a, b)


def is_tracing(path, targs):
    return "LevelFilter" in path or any("LevelFilter" in str(x) or "tracing_core" in str(x) for x in targs)


def ordm(name, op):
    def f(eng, st, fr, args, targs, path, t):
        if is_tracing(path, targs):
            return FALSE
        return eng.cmp(op, eng.freeze(st, args[0]), eng.freeze(st, args[1]))
    MODELS["core::cmp::PartialOrd::" + name] = f


for _n in ("lt", "le", "gt", "ge"):
    ordm(_n, _n)


@model("core::cmp::Ord::cmp")
def m_cmp(eng, st, fr, args, targs, path, t):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == b[0] and a[0] in ("c", "s"):
        return ("adt", "core::cmp::Ordering", "Less" if a[1] < b[1] else "Equal" if a[1] == b[1] else "Greater", (), ())
    return T("cmp", a, b)


@model("core::cmp::Ord::max", "core::cmp::max")
def m_max(eng, st, fr, args, targs, path, t):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == "c" and b[0] == "c":
        return C(max(a[1], b[1]))
    if a == b:
        return a
    return T("max", *sorted((a, b), key=repr))


@model("core::cmp::Ord::min", "core::cmp::min")
def m_min(eng, st, fr, args, targs, path, t):
    a, b = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if a[0] == "c" and b[0] == "c":
        return C(min(a[1], b[1]))
    if a == b:
        return a
    return T("min", *sorted((a, b), key=repr))


def intm(name, fn):
    def f(eng, st, fr, args, targs, path, t):
        xs = [eng.freeze(st, a) for a in args]
        ty = fr.fn.local_ty(t[3][0])["s"] if t is not None and not t[3][1] else ""
        if all(x[0] == "c" for x in xs):
            r = fn(eng, ty, *[x[1] for x in xs])
            if r is not None:
                return r
        return T("num." + name, *xs)
    MODELS["core::num::" + name] = f


def _ity(ty):
    m = re.search(r"\b([iu])(8|16|32|64|128|size)\b", ty)
    if not m:
        return None
    w = 64 if m.group(2) == "size" else int(m.group(2))
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1, w) if m.group(1) == "i" else (0, (1 << w) - 1, w)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def _trem(a, b):
    return a - b * _tdiv(a, b)


def _chk(ty, v):
    r = _ity(ty)
    if r is None:
        return None
    return some(C(v)) if r[0] <= v <= r[1] else NONE


def _sat(ty, v):
    r = _ity(ty)
    return None if r is None else C(min(max(v, r[0]), r[1]))


_AR = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
for _n, _f in _AR.items():
    intm("wrapping_" + _n, lambda e, ty, a, b, f=_f: C(e.wrap(f(a, b), ty)))
    intm("checked_" + _n, lambda e, ty, a, b, f=_f: _chk(ty, f(a, b)))
    intm("saturating_" + _n, lambda e, ty, a, b, f=_f: _sat(ty, f(a, b)))
for _n, _f in (("div", _tdiv), ("rem", _trem)):
    intm("wrapping_" + _n, lambda e, ty, a, b, f=_f: C(e.wrap(f(a, b), ty)) if b else None)
    intm("checked_" + _n, lambda e, ty, a, b, f=_f: _chk(ty, f(a, b)) if b else NONE)
intm("div_euclid", lambda e, ty, a, b: C((a - a % abs(b)) // b) if b else None)
intm("rem_euclid", lambda e, ty, a, b: C(a % abs(b)) if b else None)
intm("div_ceil", lambda e, ty, a, b: C(-(-a // b)) if b else None)
intm("next_multiple_of", lambda e, ty, a, b: C(-(-a // b) * b) if b else None)
intm("wrapping_neg", lambda e, ty, a: C(e.wrap(-a, ty)))
intm("checked_neg", lambda e, ty, a: _chk(ty, -a))
intm("wrapping_shl", lambda e, ty, a, b: C(e.wrap(a << (b % _ity(ty)[2]), ty)) if _ity(ty) else None)
intm("wrapping_shr", lambda e, ty, a, b: C(a >> (b % _ity(ty)[2])) if _ity(ty) else None)
intm("unsigned_abs", lambda e, ty, a: C(abs(a)))
intm("abs", lambda e, ty, a: C(e.wrap(abs(a), ty)))
intm("is_power_of_two", lambda e, ty, a: B(a > 0 and a & (a - 1) == 0))
intm("is_multiple_of", lambda e, ty, a, b: B(a == 0 if b == 0 else a % b == 0))
intm("is_negative", lambda e, ty, a: B(a < 0))
intm("is_positive", lambda e, ty, a: B(a > 0))
intm("pow", lambda e, ty, a, b: C(e.wrap(a ** b, ty)) if 0 <= b < 300 else None)
intm("signum", lambda e, ty, a: C((a > 0) - (a < 0)))
intm("abs_diff", lambda e, ty, a, b: C(abs(a - b)))
intm("ilog2", lambda e, ty, a: C(a.bit_length() - 1) if a > 0 else None)
intm("isqrt", lambda e, ty, a: C(__import__("math").isqrt(a)) if a >= 0 else None)
for _n, _f in _AR.items():
    intm("overflowing_" + _n, lambda e, ty, a, b, f=_f: None if _ity(ty) is None else
         ("tup", (C(e.wrap(f(a, b), re.search(r"\b[iu](8|16|32|64|128|size)\b", ty).group(0))), B(not _ity(ty)[0] <= f(a, b) <= _ity(ty)[1]))))


def bitm(name, fn):
    """Bit counts and rotations need the width of the argument's type."""
    def f(eng, st, fr, args, targs, path, t):
        xs = [eng.freeze(st, a) for a in args]
        ty = ""
        if t is not None and t[2]:
            o = t[2][0]
            pl = o.get("m") or o.get("c")
            if pl is not None and not pl[1]:
                ty = fr.fn.local_ty(pl[0])["s"]
        w = _ity(ty)
        if w is not None and all(x[0] == "c" for x in xs):
            m = (1 << w[2]) - 1
            r = fn(w[2], xs[0][1] & m, *[x[1] for x in xs[1:]])
            return C(eng.wrap(r, ty) if name.startswith(("rotate", "swap", "reverse")) else r)
        return T("num." + name, *xs)
    MODELS["core::num::" + name] = f


bitm("count_ones", lambda w, a: bin(a).count("1"))
bitm("count_zeros", lambda w, a: w - bin(a).count("1"))
bitm("trailing_zeros", lambda w, a: w if not a else (a & -a).bit_length() - 1)
bitm("leading_zeros", lambda w, a: w - a.bit_length())
bitm("trailing_ones", lambda w, a: ((~a & (a + 1)).bit_length() - 1) if a != (1 << w) - 1 else w)
bitm("leading_ones", lambda w, a: w - (a ^ ((1 << w) - 1)).bit_length())
bitm("rotate_left", lambda w, a, k: (a << (k % w) | a >> (w - k % w)) & ((1 << w) - 1))
bitm("rotate_right", lambda w, a, k: (a >> (k % w) | a << (w - k % w)) & ((1 << w) - 1))


@model("core::ops::range::RangeInclusive::new")
def m_rangeinc(eng, st, fr, args, targs, path, t):
    return ("adt", "core::ops::range::RangeInclusive", "RangeInclusive",
            (eng.freeze(st, args[0]), eng.freeze(st, args[1]), C(0)), ("start", "end", "exhausted"))


@model("core::ops::range::RangeInclusive::contains", "core::ops::range::Range::contains",
       "core::ops::range::RangeFrom::contains", "core::ops::range::RangeTo::contains")
def m_range_contains(eng, st, fr, args, targs, path, t):
    r = eng.freeze(st, eng.deref(st, args[0]))
    x = eng.freeze(st, eng.deref(st, args[1]))
    if r[0] == "adt":
        fs = dict(zip(r[4], r[3]))
        v = TRUE
        if "start" in fs:
            v = eng.cmp("le", fs["start"], x)
        if "end" in fs:
            v = eng.mk_and(v, eng.cmp("le" if "Inclusive" in r[1] else "lt", x, fs["end"]))
        return v
    return T("contains", r, x)


# ---------------------------------------------------------------- mem
@model("core::mem::replace")
def m_mreplace(eng, st, fr, args, targs, path, t):
    v = eng.deref1(st, args[0])
    if args[0][0] == "ref":
        eng.store_to(st, args[0][1], args[0][2], args[1])
    return v


@model("core::mem::take")
def m_mtake(eng, st, fr, args, targs, path, t):
    v = eng.deref1(st, args[0])
    if args[0][0] == "ref":
        ty = targs[0] if targs else ""
        eng.store_to(st, args[0][1], args[0][2], m_default(eng, st, fr, [], (ty,), "", None))
    return v


@model("core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place")
def m_drop(eng, st, fr, args, targs, path, t):
    return UNIT


# ---------------------------------------------------------------- closures
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_callfn(eng, st, fr, args, targs, path, t):
    f = args[0]
    a = args[1]
    if a[0] == "tup":
        return eng.apply(st, fr, f, list(a[1]))
    return None


# ---------------------------------------------------------------- sequences
VECS = ("alloc::vec::Vec", "smallvec::SmallVec", "alloc::collections::vec_deque::VecDeque")


def vecm(*names, ty=VECS):
    def deco(f):
        for n in names:
            for v in ty:
                MODELS[v + "::" + n] = f
        return f
    return deco


@vecm("new", "with_capacity", "new_const")
def v_new(eng, st, fr, args, targs, path, t):
    return ("seq", ())


@model("alloc::boxed::Box::new_uninit")
def m_box_uninit(eng, st, fr, args, targs, path, t):
    return ("ref", eng.alloc(st, ("uninit",)), ())


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    for _ in range(4):
        if v[0] == "upd":
            v = v[2][-1][1]
        elif v[0] == "adt" and v[3]:
            v = v[3][-1]
        v = eng.deref(st, v)
    return v


@model("alloc::vec::from_elem")
def m_from_elem(eng, st, fr, args, targs, path, t):
    if args[1][0] == "c" and args[1][1] <= 32:
        return ("seq", (args[0],) * args[1][1])
    n = eng.freeze(st, args[1])
    return ("seq", (("each", T("range", C(0), n), args[0]),))


def laid(eng, st, v):
    """A slice whose length is known is the sequence of its elements."""
    if v[0] == "t" and v[1].startswith("op."):
        f = eng.freeze(st, v)
        n = st.eqs.get(T("len", f))
        if n is not None and n[0] == "=" and n[1][0] == "c" and 0 <= n[1][1] <= 16:
            return ("seq", tuple(eng.index(st, f, C(i)) for i in range(n[1][1])))
    return v


def as_parts(v):
    if v[0] == "seq":
        return v[1]
    return (("spread", v),)


def mk_seq(parts):
    if len(parts) == 1 and parts[0][0] == "spread":
        return parts[0][1]
    return ("seq", tuple(parts))


def in_abstract(eng, st, r):
    """If the collection behind r existed before an enclosing abstract iteration: that iteration's source."""
    for lc in reversed(st.loopctx):
        snap = lc[3]
        if r[1] in snap:
            st2 = snap[r[1]]
            if st2 is not None and st2 != ("uninit",):
                v = st2
                try:
                    for p in r[2]:
                        v = _proj_snap(eng, snap, v, p)
                        if v is None:
                            break
                except Exception:
                    v = None
                if v is not None:
                    return lc[2]
    return None


def _proj_snap(eng, snap, v, p):
    n = 0
    while v[0] == "ref" and n < 10:
        w = snap.get(v[1], ("uninit",))
        for q in v[2]:
            w = _proj_snap(eng, snap, w, q)
            if w is None:
                return None
        v = w
        n += 1
    if p[0] == "d":
        return v
    if p[0] == "f":
        if v[0] == "adt" and p[2] in v[4]:
            return v[3][v[4].index(p[2])]
        if v[0] == "tup" and p[1] < len(v[1]):
            return v[1][p[1]]
        if v[0] == "clo" and p[1] < len(v[2]):
            return v[2][p[1]]
        if v[0] == "upd":
            for n, x in v[2]:
                if n == p[2]:
                    return x
            return v[1] if v[1][0] == "t" else None
        if v[0] == "t":
            return v
        return None
    return v if v[0] in ("t", "seq") else None


def chase(eng, st, r):
    """Follow refs-to-refs so that r names the cell that holds the collection itself."""
    n = 0
    while r[0] == "ref" and n < 12:
        v = eng.load(st, r[1], r[2])
        if v[0] != "ref":
            return r
        r = v
        n += 1
    return r


@vecm("push", "push_back")
def v_push(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        st.event("call", "vec.push", (eng.freeze(st, r), eng.freeze(st, args[1])), "")
        return UNIT
    v = eng.load(st, r[1], r[2])
    if v[0] in ("uninit",):
        v = ("seq", ())
    val = args[1]
    src = in_abstract(eng, st, r)
    if src is not None:
        val = ("each", src, val)
    if v[0] == "t" or v[0] == "upd":
        st.event("call", "vec.push", (eng.freeze(st, v), eng.freeze(st, args[1])), "")
    eng.store_to(st, r[1], r[2], ("seq", as_parts(v) + (val,)))
    return UNIT


@vecm("push_front")
def v_push_front(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return UNIT
    v = eng.load(st, r[1], r[2])
    eng.store_to(st, r[1], r[2], ("seq", (args[1],) + as_parts(v)))
    return UNIT


@vecm("insert")
def v_insert(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return UNIT
    v = eng.load(st, r[1], r[2])
    i = eng.freeze(st, args[1])
    parts = as_parts(v)
    if i[0] == "c" and plain(parts[:i[1]]) and i[1] <= len(parts):
        eng.store_to(st, r[1], r[2], ("seq", parts[:i[1]] + (args[2],) + parts[i[1]:]))
    elif i[0] == "t" and i[1] == "len" and len(parts) == 1 and parts[0] == ("spread", i[2]):
        eng.store_to(st, r[1], r[2], ("seq", parts + (args[2],)))
    else:
        eng.store_to(st, r[1], r[2], T("inserted", eng.freeze(st, v), i, eng.freeze(st, args[2])))
        st.event("call", "vec.insert", (eng.freeze(st, v), i, eng.freeze(st, args[2])), "")
    return UNIT


@vecm("extend_from_slice", "append", "extend", "insert_many_")
def v_extend_slice(eng, st, fr, args, targs, path, t):
    return m_extend(eng, st, fr, args, targs, path, t)


@model("core::iter::traits::collect::Extend::extend", "std::collections::hash::set::HashSet::extend")
def m_extend(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return UNIT
    out = []
    for s, parts in iter_parts(eng, st, fr, args[1]):
        v = eng.load(s, r[1], r[2])
        if v[0] == "map":
            pr = [p for p in parts if p[0] == "tup" and len(p[1]) == 2]
            v2 = ("map", v[1] + tuple((eng.freeze(s, p[1][0]), p[1][1]) for p in pr))
            if len(pr) != len(parts):
                v2 = T("map_ext", eng.freeze(s, v), eng.freeze(s, ("seq", tuple(parts))))
            eng.store_to(s, r[1], r[2], v2)
            out.append((s, UNIT))
            continue
        src = in_abstract(eng, s, r)
        ps = tuple(parts)
        if src is not None:
            ps = tuple(("each", src, p) for p in ps)
        if v[0] == "uninit":
            v = ("seq", ())
        if v[0] in ("t", "upd"):
            s.event("call", "vec.extend", (eng.freeze(s, v), eng.freeze(s, mk_seq(ps))), "")
        if v[0] == "s":
            eng.store_to(s, r[1], r[2], T("concat", v, eng.freeze(s, mk_seq(ps))))
            out.append((s, UNIT))
            continue
        eng.store_to(s, r[1], r[2], ("seq", as_parts(v) + ps))
        out.append((s, UNIT))
    return out


@vecm("pop", "pop_back")
def v_pop(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return None
    v = laid(eng, st, eng.load(st, r[1], r[2]))
    if v[0] == "seq" and not v[1]:
        eng.abstract_flag = False
        return NONE
    if v[0] == "seq" and v[1][-1][0] not in ("each", "spread"):
        eng.store_to(st, r[1], r[2], ("seq", v[1][:-1]))
        return some(v[1][-1])
    if v[0] == "seq" and v[1][-1][0] == "each":
        e = v[1][-1]
        eng.store_to(st, r[1], r[2], ("seq", v[1][:-1]))
        return some(e[2])
    f = eng.freeze(st, v)
    out = []
    for s, b in eng.decide(st, T("is_empty", f)):
        if b:
            out.append((s, NONE))
        else:
            eng.store_to(s, r[1], r[2], T("popped", f))
            out.append((s, some(T("last", f))))
    return out


@vecm("pop_front")
def v_pop_front(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return None
    v = eng.load(st, r[1], r[2])
    if v[0] == "seq" and not v[1]:
        return NONE
    if v[0] == "seq":
        p = v[1][0]
        eng.store_to(st, r[1], r[2], ("seq", v[1][1:]))
        if p[0] == "each":
            return some(p[2])
        if p[0] == "spread":
            return some(T("elem", eng.freeze(st, p[1])))
        return some(p)
    return None


@vecm("len")
@model("core::slice::len", "core::str::len", "alloc::string::String::len", "std::collections::hash::map::HashMap::len",
       "std::collections::hash::set::HashSet::len", "core::iter::traits::exact_size::ExactSizeIterator::len")
def v_len(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "map":
        ks = [eng.freeze(st, k) for k, _ in v[1]]
        if all(k[0] in ("c", "s", "ent") for k in ks) and len(set(ks)) == len(ks):
            return C(len(ks))
        return T("len", eng.freeze(st, v)) if v[1] else C(0)
    if v[0] == "iter":
        v = ("seq", v[1][v[2]:])
    return eng.seq_len(st, v)


@vecm("is_empty")
@model("core::slice::is_empty", "core::str::is_empty", "alloc::string::String::is_empty",
       "std::collections::hash::map::HashMap::is_empty", "std::collections::hash::set::HashSet::is_empty")
def v_is_empty(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "seq":
        if not v[1]:
            return TRUE
        if any(x[0] not in ("each", "spread") for x in v[1]):
            return FALSE
        if all(x[0] == "each" for x in v[1]):
            return T("is_empty", eng.freeze(st, v[1][0][1]))
    if v[0] == "map":
        return B(not v[1])
    if v[0] == "s":
        return B(not v[1])
    return T("is_empty", eng.freeze(st, v))


@vecm("clear", "truncate_")
@model("std::collections::hash::set::HashSet::clear", "std::collections::hash::map::HashMap::clear", "alloc::string::String::clear")
def v_clear(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], ("map", ()) if "Map" in path else (S("") if "String" in path else ("seq", ())))
    return UNIT


@model("core::slice::first")
def sl_first(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "seq" and v[1] and v[1][0][0] not in ("each", "spread"):
        return some(v[1][0])
    if v[0] == "seq" and not v[1]:
        return NONE
    if v[0] == "seq" and v[1][0][0] == "each":
        return sl_get_any(eng, st, v, v[1][0][2])
    return T("slice_get", eng.freeze(st, v), C(0))


def sl_get_any(eng, st, v, elem):
    out = []
    for s, b in eng.decide(st, T("is_empty", eng.freeze(st, v))):
        out.append((s, NONE if b else some(elem)))
    return out


@model("core::slice::last")
def sl_last(eng, st, fr, args, targs, path, t):
    v = laid(eng, st, eng.deref(st, args[0]))
    if v[0] == "seq" and v[1] and v[1][-1][0] not in ("each", "spread"):
        return some(v[1][-1])
    if v[0] == "seq" and not v[1]:
        return NONE
    return T("slice_last", eng.freeze(st, v))


@model("core::slice::get", "core::slice::get_mut")
def sl_get(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    i = eng.freeze(st, args[1])
    if v[0] == "seq" and i[0] == "c" and plain(v[1][:i[1] + 1]):
        if i[1] < len(v[1]):
            r = args[0]
            if path.endswith("get_mut") and r[0] == "ref":
                r = chase(eng, st, r)
                return some(("ref", r[1], r[2] + (("i", i),)))
            return some(v[1][i[1]])
        if plain(v[1]):
            return NONE
    if v[0] == "seq" and plain(v[1]) and i[0] == "adt" and "range" in i[1].lower():
        d = dict(zip(i[4], i[3]))
        lo, hi = d.get("start", C(0)), d.get("end", C(len(v[1])))
        if lo[0] == "c" and hi[0] == "c":
            h = hi[1] + ("Inclusive" in i[1] and "end" in d)
            return some(("seq", v[1][lo[1]:h])) if lo[1] <= h <= len(v[1]) else NONE
    return T("slice_get", eng.freeze(st, v), i)


@model("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def sl_get_un(eng, st, fr, args, targs, path, t):
    return eng.index(st, eng.freeze(st, args[0]), eng.freeze(st, args[1]))


@model("core::slice::split_first")
def sl_split_first(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "seq" and not v[1]:
        return NONE
    if v[0] == "seq" and v[1][0][0] not in ("each", "spread"):
        return some(("tup", (v[1][0], ("seq", v[1][1:]))))
    f = eng.freeze(st, v)
    out = []
    for s, b in eng.decide(st, T("is_empty", f)):
        out.append((s, NONE if b else some(("tup", (eng.index(s, f, C(0)), T("subslice", f, C(1), C(0), C(1)))))))
    return out


@model("core::slice::split_last")
def sl_split_last(eng, st, fr, args, targs, path, t):
    v = laid(eng, st, eng.deref(st, args[0]))
    if v[0] == "seq" and not v[1]:
        return NONE
    if v[0] == "seq" and v[1][-1][0] not in ("each", "spread"):
        return some(("tup", (v[1][-1], ("seq", v[1][:-1]))))
    f = eng.freeze(st, v)
    out = []
    for s, b in eng.decide(st, T("is_empty", f)):
        out.append((s, NONE if b else some(("tup", (T("last", f), T("subslice", f, C(0), C(1), C(1)))))))
    return out


@model("core::slice::contains")
def sl_contains(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    x = eng.freeze(st, args[1])
    return contains(eng, st, v, x)


def contains(eng, st, v, x):
    v = eng.freeze(st, v)
    if v[0] == "seq" and plain(v[1]):
        r = FALSE
        for y in v[1]:
            e = eng.cmp("eq", x, y)
            if e == TRUE:
                return TRUE
            if e != FALSE:
                r = e if r == FALSE else T("or", r, e)
        return r
    return T("contains", v, x)


@model("core::slice::reverse")
def sl_reverse(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] == "ref":
        v = eng.load(st, r[1], r[2])
        eng.store_to(st, r[1], r[2], rev_parts(v))
    return UNIT


def rev_parts(v):
    if v[0] == "seq":
        return ("seq", tuple(("each", T("rev", p[1]), p[2]) if p[0] == "each" else
                             (("spread", T("rev", p[1])) if p[0] == "spread" else p) for p in v[1][::-1]))
    return T("rev", v)


def sort_key(k):
    """A Python key with the order of a concrete value, or None."""
    if k[0] in ("c", "s"):
        return k[1]
    if k[0] == "ent":
        return 0        # handles are numbered in an order the analysis does not fix: the given order stands for any
    if k[0] == "tup":
        xs = tuple(sort_key(x) for x in k[1])
        return None if any(x is None for x in xs) else xs
    return None


def flat(c):
    return [y for x in c for y in flat(x)] if isinstance(c, tuple) else [c]


@model("alloc::slice::sort_by_key", "alloc::slice::sort", "alloc::slice::sort_by", "core::slice::sort_unstable",
       "core::slice::sort_unstable_by_key", "core::slice::sort_unstable_by")
def sl_sort(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] == "ref":
        v = eng.load(st, r[1], r[2])
        nm = path.rsplit("::", 1)[-1]
        if v[0] == "seq" and plain(v[1]) and len(v[1]) < 2:
            return UNIT
        if v[0] == "seq" and plain(v[1]) and len(v[1]) <= 24 and not nm.endswith("_by"):
            ks = [[]] if nm.endswith("_key") else None
            if ks is None:
                ks = [eng.freeze(st, x) for x in v[1]]
            else:
                ks = []
                for x in v[1]:
                    out = eng.apply(st, fr, args[1], [eng.ref_to(st, x)])
                    if len(out) != 1:
                        ks.append(T("?"))
                        break
                    st, kv = out[0]
                    ks.append(eng.freeze(st, kv))
            cs = [sort_key(k) for k in ks]
            if None not in cs and len({str([type(y) for y in flat(c)]) for c in cs}) == 1:
                order = sorted(range(len(cs)), key=lambda i: cs[i])
                eng.store_to(st, r[1], r[2], ("seq", tuple(v[1][i] for i in order)))
                return [(st, UNIT)]
        if v[0] == "seq" and plain(v[1]) and len(v[1]) <= 24 and nm.endswith("_by"):
            out, s = [], st
            for x in v[1]:                      # insertion keeps equal elements in order
                at = len(out)
                while at > 0:
                    rs = eng.apply(s, fr, args[1], [eng.ref_to(s, x), eng.ref_to(s, out[at - 1])])
                    o = _ordv(eng.freeze(rs[0][0], rs[0][1])) if len(rs) == 1 else None
                    if o is None:
                        out = None
                        break
                    s = rs[0][0]
                    if o >= 0:
                        break
                    at -= 1
                if out is None:
                    break
                out.insert(at, x)
            if out is not None:
                eng.store_to(s, r[1], r[2], ("seq", tuple(out)))
                return [(s, UNIT)]
        if True:
            eng.store_to(st, r[1], r[2], T("sorted", eng.freeze(st, v)))
    return [(st, UNIT)]


@vecm("truncate", "drain", "retain", "retain_mut", "remove", "swap_remove", "dedup", "split_off", "resize", "resize_with")
def v_opaque(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    nm = path.rsplit("::", 1)[-1]
    if r[0] != "ref":
        return None
    v = eng.load(st, r[1], r[2])
    f = eng.freeze(st, v)
    fa = [eng.freeze(st, a) for a in args[1:]]
    if nm == "remove" and fa and fa[0][0] == "c" and v[0] == "seq" and plain(v[1]) and fa[0][1] < len(v[1]):
        i = fa[0][1]
        eng.store_to(st, r[1], r[2], ("seq", v[1][:i] + v[1][i + 1:]))
        return v[1][i]
    if nm == "truncate" and fa[0] == C(0):
        eng.store_to(st, r[1], r[2], ("seq", ()))
        return UNIT
    if nm == "drain" and fa and fa[0][0] == "adt" and "range" in fa[0][1].lower() and "RangeFull" not in fa[0][1] and v[0] == "seq" and plain(v[1]):
        d = dict(zip(fa[0][4], fa[0][3]))
        lo = d.get("start", C(0))
        if lo[0] == "c" and ("end" not in d or d["end"][0] == "c"):
            hi = d["end"][1] + ("Inclusive" in fa[0][1]) if "end" in d else len(v[1])
            if lo[1] <= hi <= len(v[1]):
                eng.store_to(st, r[1], r[2], ("seq", v[1][:lo[1]] + v[1][hi:]))
                return ("iter", v[1][lo[1]:hi], 0)
    if nm == "drain":
        eng.store_to(st, r[1], r[2], ("seq", ()) if fa and "RangeFull" in repr(fa[0]) else T("drained", f, *fa))
        return mk_iter(v) if fa and "RangeFull" in repr(fa[0]) else mk_iter(T("drain", f, *fa))
    if v[0] in ("t", "upd"):
        st.event("call", "vec." + nm, (f,) + tuple(fa), "")
    if nm in ("retain", "retain_mut") and v[0] == "seq" and plain(v[1]) and len(v[1]) <= 48:
        live = [(st, ())]
        for i, x in enumerate(v[1]):
            nl = []
            for s, kept in live:
                loc = eng.alloc(s, x)
                for s2, b in eng.apply(s, fr, args[1], [("ref", loc, ())]):
                    for s3, keep in eng.decide(s2, b):
                        nl.append((s3, kept + ((s3.store[loc],) if keep else ())))
            live = nl
        out = []
        for s, kept in live:
            eng.store_to(s, r[1], r[2], ("seq", kept))
            out.append((s, UNIT))
        return out
    if nm in ("resize", "resize_with") and fa and fa[0][0] == "c" and v[0] == "seq" and plain(v[1]) and fa[0][1] <= 4096:
        if fa[0][1] <= len(v[1]):
            eng.store_to(st, r[1], r[2], ("seq", v[1][:fa[0][1]]))
            return UNIT
        if nm == "resize":
            eng.store_to(st, r[1], r[2], ("seq", v[1] + (args[2],) * (fa[0][1] - len(v[1]))))
            return UNIT
        live = [(st, v[1])]
        for _ in range(fa[0][1] - len(v[1])):
            live = [(s2, ps + (b,)) for s, ps in live for s2, b in eng.apply(s, fr, args[2], [])]
        for s, ps in live:
            eng.store_to(s, r[1], r[2], ("seq", ps))
        return [(s, UNIT) for s, _ in live]
    if nm == "swap_remove" and fa and fa[0][0] == "c" and v[0] == "seq" and plain(v[1]) and fa[0][1] < len(v[1]):
        i = fa[0][1]
        ps = list(v[1])
        x, last = ps[i], ps.pop()
        if i < len(ps):
            ps[i] = last
        eng.store_to(st, r[1], r[2], ("seq", tuple(ps)))
        return x
    if nm == "truncate" and fa[0][0] == "c" and v[0] == "seq" and plain(v[1]):
        eng.store_to(st, r[1], r[2], ("seq", v[1][:fa[0][1]]))
        return UNIT
    if nm == "split_off" and fa[0][0] == "c" and v[0] == "seq" and plain(v[1]):
        eng.store_to(st, r[1], r[2], ("seq", v[1][:fa[0][1]]))
        return ("seq", v[1][fa[0][1]:])
    if nm in ("retain", "retain_mut"):
        # one abstract element decides; keep the predicate's outcome as a fact
        nv = T("retained", f, *fa)
        eng.store_to(st, r[1], r[2], nv)
        return UNIT
    eng.store_to(st, r[1], r[2], T(nm + "d", f, *fa))
    return T(nm, f, *fa)


for _s in ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet", "indexmap::set::IndexSet"):
    MODELS[_s + "::retain"] = v_opaque


@model(*[m + "::retain" for m in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "indexmap::map::IndexMap")])
def mp_retain(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    v = eng.deref(st, r)
    if r[0] != "ref" or v[0] != "map" or len(v[1]) > 48:
        return None
    live = [(st, ())]
    for k, x in v[1]:
        nl = []
        for s, kept in live:
            kl, xl = eng.ref_to(s, k), x if x[0] == "ref" else eng.ref_to(s, x)
            for s2, b in eng.apply(s, fr, args[1], [kl, xl]):
                for s3, keep in eng.decide(s2, b):
                    nl.append((s3, kept + (((k, xl),) if keep else ())))
        live = nl
    out = []
    for s, kept in live:
        eng.store_to(s, r[1], r[2], ("map", kept))
        out.append((s, UNIT))
    return out


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(eng, st, fr, args, targs, path, t):
    if path in eng.prog.fns and eng.should_inline(path):
        return None
    r = chase(eng, st, args[0])
    i = eng.freeze(st, args[1])
    v = eng.deref(st, r)
    if i[0] == "adt" and "range" in i[1].lower():
        kind = i[1].rsplit("::", 1)[-1]
        d = dict(zip(i[4], i[3]))
        lo = d.get("start", C(0))
        mut = path.endswith("index_mut") and r[0] == "ref"
        if kind == "RangeFull":
            return r if mut else v
        if v[0] == "seq" and plain(v[1]) and lo[0] == "c" and ("end" not in d or d["end"][0] == "c"):
            hi = d["end"][1] + ("Inclusive" in kind) if "end" in d else len(v[1])
            if hi > len(v[1]) or lo[1] > hi:
                st.event("panic", "index", (C(hi), C(len(v[1]))))
                eng.end(st, fr.fn, "panic", False)
                return []
            if mut:
                return ("ref", r[1], r[2] + (("sub", lo[1], hi, False),))
            return ("seq", v[1][lo[1]:hi])
        if "end" not in d:
            return T("subslice", eng.freeze(st, v), lo, C(0), C(1))
        return T("slice", eng.freeze(st, v), lo, d["end"])
    if v[0] == "map":
        return map_get(eng, st, v, i, raw=True)
    if v[0] == "seq" and i[0] == "c" and type(i[1]) is int and plain(v[1]) and i[1] >= len(v[1]):
        st.event("panic", "index", (i, C(len(v[1]))))
        eng.end(st, fr.fn, "panic", False)
        return []
    if i[0] in ("c", "t") and r[0] == "ref" and v[0] == "seq":
        return ("ref", r[1], r[2] + (("i", i),))
    if i[0] == "s" or "HashMap" in path:
        return T("map_at", eng.freeze(st, v), i)
    return eng.index(st, eng.freeze(st, v), i)


# ---------------------------------------------------------------- iterators
def mk_iter(v):
    return ("iter", as_parts(v), 0)


def part_elem(eng, st, p):
    if p[0] == "each":
        return p[1], p[2]
    src = eng.freeze(st, p[1])
    if src[0] == "t" and src[1] == "enumerate":
        pass
    return src, elem_of(src)


def elem_of(src):
    if src[0] == "t" and src[1] == "rev":
        return elem_of(src[2])
    if src[0] == "t" and src[1] == "range":
        return T("idx", src)
    if src[0] == "t" and src[1] in ("sorted", "retained"):
        return elem_of(src[2])
    if src[0] == "seq" and len(src[1]) == 1 and src[1][0][0] == "each":
        return src[1][0][2]
    return T("elem", src)


def iter_parts(eng, st, fr, v):
    """-> [(state, parts)] of anything iterable"""
    v = laid(eng, st, eng.deref(st, v))
    if v[0] == "iter":
        return [(st, v[1][v[2]:])]
    if v[0] == "seq":
        return [(st, v[1])]
    if v[0] == "adt" and v[1] in (OPT,):
        return [(st, (v[3][0],) if v[2] == "Some" else ())]
    if v[0] == "adt" and v[1].rsplit("::", 1)[-1] in ("Range", "RangeInclusive"):
        d = dict(zip(v[4], v[3]))
        lo, hi = d.get("start"), d.get("end")
        if lo and hi:
            lo, hi = eng.freeze(st, lo), eng.freeze(st, hi)
            if lo[0] == "c" and hi[0] == "c" and hi[1] - lo[1] <= 64:
                e = hi[1] + (1 if v[1].endswith("Inclusive") else 0)
                return [(st, tuple(C(x) for x in range(lo[1], e)))]
            return [(st, (("spread", T("range", lo, hi)),))]
    if v[0] == "map":
        return [(st, tuple(("tup", (k, x)) for k, x in v[1]))]
    if v[0] == "t" and v[1].startswith("isvar"):
        return [(st, ())]
    return [(st, (("spread", eng.freeze(st, v)),))]


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::iter", "core::slice::iter_mut",
       "std::collections::hash::map::HashMap::iter", "std::collections::hash::set::HashSet::iter",
       "alloc::vec::Vec::into_iter", "alloc::collections::btree::map::BTreeMap::iter",
       "core::iter::traits::iterator::Iterator::by_ref", "std::collections::hash::map::HashMap::iter_mut",
       "alloc::collections::vec_deque::VecDeque::iter", "std::collections::hash::set::HashSet::drain",
       "std::collections::hash::map::HashMap::drain", "core::str::chars", "core::str::bytes",
       "core::iter::traits::iterator::Iterator::peekable", "core::iter::traits::iterator::Iterator::fuse")
def m_iter(eng, st, fr, args, targs, path, t):
    if path in eng.prog.fns and eng.should_inline(path):
        return None
    v = eng.deref(st, args[0])
    if v[0] == "iter":
        return args[0]
    if v[0] == "s":
        return None
    if eng.registry is not None and targs and "inventory" in path:
        vals = eng.registry(targs[0])
        if vals:
            return ("iter", tuple(vals), 0)
    if v[0] == "t" and ("Option" in (targs[0] if targs else "")):
        return o_iter(eng, st, fr, args, OPT)
    if v[0] == "seq" and plain(v[1]) and (path.endswith("iter_mut") or (targs and str(targs[0]).startswith("&mut"))
                                          or re.search(r"&('\w+ )?mut ", path)):
        r = chase(eng, st, args[0])
        if r[0] == "ref":
            return ("iter", tuple(("ref", r[1], r[2] + (("i", C(i)),)) for i in range(len(v[1]))), 0)
    out = []
    for s, parts in iter_parts(eng, st, fr, args[0]):
        out.append((s, ("iter", tuple(parts), 0)))
    return out


@model("std::collections::hash::map::HashMap::keys", "std::collections::hash::map::HashMap::into_keys",
       "alloc::collections::btree::map::BTreeMap::keys")
def m_keys(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "map":
        return mk_iter(("seq", tuple(k for k, _ in v[1])))
    return mk_iter(T("keys", eng.freeze(st, v)))


@model("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::into_values",
       "std::collections::hash::map::HashMap::values_mut", "alloc::collections::btree::map::BTreeMap::values")
def m_values(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "map":
        return mk_iter(("seq", tuple(k for _, k in v[1])))
    return mk_iter(T("values", eng.freeze(st, v)))


@model("core::iter::sources::empty::empty")
def m_empty(eng, st, fr, args, targs, path, t):
    return ("iter", (), 0)


@model("core::iter::sources::once::once")
def m_once(eng, st, fr, args, targs, path, t):
    return ("iter", (args[0],), 0)


@model("core::iter::sources::repeat_n::repeat_n")
def m_repeat_n(eng, st, fr, args, targs, path, t):
    n = eng.freeze(st, args[1])
    if n[0] == "c" and n[1] < 64:
        return ("iter", (args[0],) * n[1], 0)
    return ("iter", (("each", T("range", C(0), n), args[0]),), 0)


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def m_next(eng, st, fr, args, targs, path, t):
    if path in eng.prog.fns and eng.should_inline(path):
        return None
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        return None
    v = eng.load(st, r[1], r[2])
    if v[0] != "iter":
        ps = iter_parts(eng, st, fr, v)
        if v[0] in ("adt", "seq", "map") or (v[0] == "t"):
            v = ("iter", tuple(ps[0][1]), 0)
        else:
            return None
    parts, pos = v[1], v[2]
    if path.endswith("next_back"):
        if pos >= len(parts):
            return NONE
        p = parts[-1]
        eng.store_to(st, r[1], r[2], ("iter", parts[:-1], pos))
        if p[0] in ("each", "spread"):
            return some(part_elem(eng, st, p)[1])
        return some(p)
    if pos >= len(parts):
        eng.store_to(st, r[1], r[2], v)
        return NONE
    p = parts[pos]
    nv = ("iter", parts, pos + 1)
    if p[0] not in ("each", "spread"):
        eng.abstract_flag = False
        eng.store_to(st, r[1], r[2], nv)
        return some(p)
    src, el = part_elem(eng, st, p)
    il = fr.inloop().get(eng.cur_site[1]) if eng.cur_site and eng.cur_site[0] is fr else None
    out = []
    if eng.zero_iter or not il:
        e = T("is_empty", src)
        for s, b in eng.decide(st, e):
            s_it = ("iter", parts, pos + 1)
            eng.store_to(s, r[1], r[2], s_it)
            if b:
                if pos + 1 < len(parts):
                    out.extend(m_next(eng, s, fr, args, targs, path, t) if False else [(s, NONE)])
                else:
                    out.append((s, NONE))
            else:
                if il:
                    push_ctx(s, fr, il[0], src)
                out.append((s, some(el)))
        eng.abstract_flag = True
        return out
    eng.abstract_flag = True
    eng.store_to(st, r[1], r[2], nv)
    push_ctx(st, fr, il[0], src)
    return [(st, some(el))]


def push_ctx(st, fr, header, src):
    # a second element source in the same loop replaces the first
    lc = tuple(x for x in st.loopctx if not (x[0] == fr.id and x[1] == header))
    snap = dict(st.store)
    for x in st.loopctx:
        if x[0] == fr.id and x[1] == header:
            snap = x[3]
    st.loopctx = lc + ((fr.id, header, src, snap),)


@model("core::iter::adapters::peekable::Peekable::peek")
def m_peek(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    v = eng.deref(st, r)
    if v[0] == "iter":
        if v[2] >= len(v[1]):
            return NONE
        p = v[1][v[2]]
        if p[0] not in ("each", "spread"):
            return some(eng.ref_to(st, p))
        return sl_get_any(eng, st, p[1], part_elem(eng, st, p)[1])
    return None


def adapt(name):
    def deco(f):
        def g(eng, st, fr, args, targs, path, t):
            if path in eng.prog.fns and eng.should_inline(path):
                return None
            out = []
            a0 = args[0]
            v = eng.deref(st, a0)
            for s, parts in iter_parts(eng, st, fr, v):
                out.extend(f(eng, s, fr, tuple(parts), args, targs, t))
            if a0[0] == "ref" and v[0] == "iter":
                for x in out:
                    r = chase(eng, x[0], a0)
                    # a third component: what a search that stopped early left behind
                    eng.store_to(x[0], r[1], r[2], ("iter", tuple(x[2]) if len(x) > 2 else (), 0))
            return [x[:2] for x in out]
        MODELS[("core::iter::traits::iterator::Iterator::" if "::" not in name else "core::iter::traits::") + name] = g
        return f
    return deco


def with_each(eng, st, fr, p, f):
    """Run f on the abstract element of part p in an iteration context: f(state, elem) -> [(state, value)]."""
    src, el = part_elem(eng, st, p)
    key = ("it", eng.fresh())
    st.loopctx = st.loopctx + ((key, None, src, dict(st.store)),)
    out = []
    for s, v in f(st, el):
        s.loopctx = tuple(x for x in s.loopctx if x[0] != key)
        out.append((s, src, v))
    return out


def per_part(eng, st, fr, parts, f):
    """Apply f(state, elem)->[(state, list of parts)] to every element; concatenates."""
    work = [(st, ())]
    for p in parts:
        nw = []
        for s, acc in work:
            if p[0] in ("each", "spread"):
                for s2, src, vs in with_each(eng, s, fr, p, f):
                    nw.append((s2, acc + tuple(("each", src, x) if x[0] not in ("each", "spread") else x for x in vs)))
            else:
                for s2, vs in f(s, p):
                    nw.append((s2, acc + tuple(vs)))
        work = nw
        if len(work) > eng.max_paths:
            raise_budget()
    return work


def raise_budget():
    from .absint import Budget
    raise Budget("path budget exceeded in iterator adaptor")


@adapt("map")
def it_map(eng, st, fr, parts, args, targs, t):
    return [(s, ("iter", p, 0)) for s, p in
            per_part(eng, st, fr, parts, lambda s, x: [(s2, [v]) for s2, v in eng.apply(s, fr, args[1], [x])])]


@adapt("for_each")
def it_for_each(eng, st, fr, parts, args, targs, t):
    return [(s, UNIT) for s, p in
            per_part(eng, st, fr, parts, lambda s, x: [(s2, []) for s2, v in eng.apply(s, fr, args[1], [x])])]


@adapt("copied")
def it_copied(eng, st, fr, parts, args, targs, t):
    ps = tuple(p if p[0] in ("each", "spread") else eng.deref1(st, p) for p in parts)
    return [(st, ("iter", ps, 0))]


@adapt("cloned")
def it_cloned(eng, st, fr, parts, args, targs, t):
    return it_copied(eng, st, fr, parts, args, targs, t)


@adapt("rev")
def it_rev(eng, st, fr, parts, args, targs, t):
    return [(st, ("iter", rev_parts(("seq", parts))[1], 0))]


@adapt("enumerate")
def it_enum(eng, st, fr, parts, args, targs, t):
    out, i, exact = [], 0, True
    for p in parts:
        if p[0] in ("each", "spread"):
            src, el = part_elem(eng, st, p)
            idx = T("idx", src)
            if i:
                idx = T("Add", C(i), idx) if exact else T("idx?", src)
            out.append(("each", src, ("tup", (idx, el))))
            exact = False
        else:
            out.append(("tup", (C(i) if exact else T("idx?", C(i)), p)))
            i += 1
    return [(st, ("iter", tuple(out), 0))]


@adapt("zip")
def it_zip(eng, st, fr, parts, args, targs, t):
    out = []
    for s, q in iter_parts(eng, st, fr, args[1]):
        a, b = list(parts), list(q)
        res = []
        while a and b:
            if a[0][0] not in ("each", "spread") and b[0][0] not in ("each", "spread"):
                res.append(("tup", (a.pop(0), b.pop(0))))
            else:
                if a[0][0] in ("each", "spread") and b[0][0] in ("each", "spread"):
                    s1, e1 = part_elem(eng, s, a[0])
                    s2, e2 = part_elem(eng, s, b[0])
                    res.append(("each", s1 if s1 == s2 else T("zip", s1, s2), ("tup", (e1, e2))))
                    a.pop(0), b.pop(0)
                elif a[0][0] in ("each", "spread"):
                    s1, e1 = part_elem(eng, s, a[0])
                    n = 0
                    while b and b[0][0] not in ("each", "spread"):
                        x = eng.index(s, s1, C(n)) if a[0][0] == "spread" else e1
                        res.append(("tup", (x, b.pop(0))))
                        n += 1
                    break
                else:
                    s2, e2 = part_elem(eng, s, b[0])
                    n = 0
                    while a and a[0][0] not in ("each", "spread"):
                        x = eng.index(s, s2, C(n)) if b[0][0] == "spread" else e2
                        res.append(("tup", (a.pop(0), x)))
                        n += 1
                    break
        out.append((s, ("iter", tuple(res), 0)))
    return out


@adapt("chain")
def it_chain(eng, st, fr, parts, args, targs, t):
    return [(s, ("iter", parts + tuple(q), 0)) for s, q in iter_parts(eng, st, fr, args[1])]


@adapt("skip")
def it_skip(eng, st, fr, parts, args, targs, t):
    n = eng.freeze(st, args[1])
    if n[0] == "c":
        k = n[1]
        ps = list(parts)
        while k and ps and ps[0][0] not in ("each", "spread"):
            ps.pop(0)
            k -= 1
        if not k:
            return [(st, ("iter", tuple(ps), 0))]
        if ps and ps[0][0] == "spread":
            src = T("subslice", eng.freeze(st, ps[0][1]), C(k), C(0), C(1))
            return [(st, ("iter", (("spread", src),) + tuple(ps[1:]), 0))]
    return [(st, ("iter", (("spread", T("skip", eng.freeze(st, ("seq", parts)), n)),), 0))]


@adapt("take")
def it_take(eng, st, fr, parts, args, targs, t):
    n = eng.freeze(st, args[1])
    if n[0] == "c" and plain(parts[:n[1]]):
        return [(st, ("iter", parts[:n[1]], 0))]
    if len(parts) == 1 and parts[0][0] == "spread":
        return [(st, ("iter", (("spread", T("take", eng.freeze(st, parts[0][1]), n)),), 0))]
    return [(st, ("iter", (("spread", T("take", eng.freeze(st, ("seq", parts)), n)),), 0))]


@adapt("filter")
def it_filter(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        out = []
        for s2, v in eng.apply(s, fr, args[1], [eng.ref_to(s, x)]):
            for s3, b in eng.decide(s2, v):
                out.append((s3, [x] if b else []))
        return out
    return [(s, ("iter", p, 0)) for s, p in per_part(eng, st, fr, parts, f)]


@adapt("filter_map")
def it_filter_map(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        out = []
        for s2, v in eng.apply(s, fr, args[1], [x]):
            for s3, nm, p in split_opt(eng, s2, v, OPT):
                out.append((s3, [p] if nm == "Some" else []))
        return out
    return [(s, ("iter", p, 0)) for s, p in per_part(eng, st, fr, parts, f)]


@adapt("flat_map")
def it_flat_map(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        out = []
        for s2, v in eng.apply(s, fr, args[1], [x]):
            for s3, ps in iter_parts(eng, s2, fr, v):
                out.append((s3, list(ps)))
        return out
    return [(s, ("iter", p, 0)) for s, p in per_part(eng, st, fr, parts, f)]


@adapt("flatten")
def it_flatten(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        x = eng.deref(s, x)
        if x[0] == "adt" and x[1] == OPT:
            return [(s, list(x[3]))]
        return [(s3, list(ps)) for s3, ps in iter_parts(eng, s, fr, x)]
    return [(s, ("iter", p, 0)) for s, p in per_part(eng, st, fr, parts, f)]


def searchm(name):
    """any / all / find / position / find_map over the parts, first decisive element wins."""
    @adapt(name)
    def g(eng, st, fr, parts, args, targs, t, name=name):
        done, live = [], [(st, 0)]
        for k, p in enumerate(parts):
            nl = []
            left = parts[k + 1:]
            for s, n in live:
                if p[0] in ("each", "spread"):
                    src, el = part_elem(eng, s, p)
                    idx = T("idx", src)
                else:
                    el, idx = p, C(n)
                key = ("it", eng.fresh())
                if p[0] in ("each", "spread"):
                    s.loopctx = s.loopctx + ((key, None, src, dict(s.store)),)
                a = eng.ref_to(s, el) if name in ("find",) else el
                for s2, v in eng.apply(s, fr, args[1], [a]):
                    s2.loopctx = tuple(x for x in s2.loopctx if x[0] != key)
                    if name == "find_map":
                        for s3, nm, pl in split_opt(eng, s2, v, OPT):
                            (done if nm == "Some" else nl).append((s3, some(pl), left) if nm == "Some" else (s3, n + 1))
                        continue
                    for s3, b in eng.decide(s2, v):
                        if name == "all":
                            if b:
                                nl.append((s3, n + 1))
                            else:
                                done.append((s3, FALSE, left))
                        elif b:
                            done.append((s3, {"any": TRUE, "find": some(el), "position": some(idx)}[name], left))
                        else:
                            nl.append((s3, n + 1))
            live = nl
        fin = {"any": FALSE, "all": TRUE}.get(name, NONE)
        return done + [(s, fin) for s, _ in live]


for _n in ("any", "all", "find", "position", "find_map"):
    searchm(_n)


@adapt("count")
def it_count(eng, st, fr, parts, args, targs, t):
    return [(st, eng.seq_len(st, mk_seq(parts)))]


@adapt("last")
def it_last(eng, st, fr, parts, args, targs, t):
    if not parts:
        return [(st, NONE)]
    p = parts[-1]
    if p[0] in ("each", "spread"):
        return [(st, T("slice_last", eng.freeze(st, mk_seq(parts))))]
    return [(st, some(p))]


@adapt("nth")
def it_nth(eng, st, fr, parts, args, targs, t):
    n = eng.freeze(st, args[1])
    if n[0] == "c" and plain(parts[:n[1] + 1]):
        return [(st, some(parts[n[1]]) if n[1] < len(parts) else NONE, parts[n[1] + 1:])]
    return [(st, T("slice_get", eng.freeze(st, mk_seq(parts)), n))]


CFLOW = "core::ops::control_flow::ControlFlow"


def try_steps(eng, st, fr, parts, f, fin, ad, t):
    """f(state, acc, element) for every element until one of them breaks."""
    ad = ad if ad in (OPT, RES) else CFLOW
    live, done = [(st, fin)], []
    for k, p in enumerate(parts):
        nl = []
        for s, acc in live:
            if p[0] in ("each", "spread"):
                rs = [(s2, v) for s2, _, v in with_each(eng, s, fr, p, lambda s_, el: f(s_, acc, el))]
            else:
                rs = f(s, acc, p)
            for s2, v in rs:
                for s3, c in m_branch(eng, s2, fr, [v], (ad,), "", t):
                    if c[2] == "Continue":
                        nl.append((s3, c[3][0]))
                    else:
                        done.append((s3, c[3][0], parts[k + 1:]))
        live = nl
        if len(live) + len(done) > eng.max_paths:
            raise_budget()
    w = some if ad == OPT else ok if ad == RES else lambda x: ("adt", CFLOW, "Continue", (x,), ("0",))
    return done + [(s, w(acc), ()) for s, acc in live]


@adapt("try_for_each")
def it_try_for_each(eng, st, fr, parts, args, targs, t):
    return try_steps(eng, st, fr, parts, lambda s, a, x: eng.apply(s, fr, args[1], [x]), UNIT, targs[2] if len(targs) > 2 else "", t)


@adapt("try_fold")
def it_try_fold(eng, st, fr, parts, args, targs, t):
    return try_steps(eng, st, fr, parts, lambda s, a, x: eng.apply(s, fr, args[2], [a, x]), args[1], targs[3] if len(targs) > 3 else "", t)


@adapt("inspect")
def it_inspect(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        return [(s2, [x]) for s2, v in eng.apply(s, fr, args[1], [eng.ref_to(s, x)])]
    return [(s, ("iter", p, 0)) for s, p in per_part(eng, st, fr, parts, f)]


@adapt("partition")
def it_partition(eng, st, fr, parts, args, targs, t):
    def f(s, x):
        out = []
        for s2, v in eng.apply(s, fr, args[1], [eng.ref_to(s, x)]):
            for s3, b in eng.decide(s2, v):
                out.append((s3, [("tup", (B(b), x))]))
        return out
    out = []
    for s, ps in per_part(eng, st, fr, parts, f):
        side = ([], [])
        for p in ps:
            q = p[2] if p[0] == "each" else p
            x = q[1][1]
            side[0 if q[1][0] == TRUE else 1].append(("each", p[1], x) if p[0] == "each" else x)
        out.append((s, ("tup", (coll(tuple(side[0])), coll(tuple(side[1]))))))
    return out


def whilem(name):
    @adapt(name)
    def g(eng, st, fr, parts, args, targs, t, name=name):
        if not plain(parts):
            return [(st, ("iter", (("spread", T(name, eng.freeze(st, mk_seq(parts)), eng.freeze(st, args[1]))),), 0))]
        done, live = [], [(st, ())]
        for k, p in enumerate(parts):
            nl = []
            for s, acc in live:
                a = p if name == "map_while" else eng.ref_to(s, p)
                for s2, v in eng.apply(s, fr, args[1], [a]):
                    if name == "map_while":
                        for s3, nm, pl in split_opt(eng, s2, v, OPT):
                            if nm == "Some":
                                nl.append((s3, acc + (pl,)))
                            else:
                                done.append((s3, acc))
                        continue
                    for s3, b in eng.decide(s2, v):
                        if b:
                            nl.append((s3, acc + (p,) if name == "take_while" else ()))
                        else:
                            done.append((s3, acc if name == "take_while" else parts[k:]))
            live = nl
        return [(s, ("iter", tuple(a), 0)) for s, a in done + live]


for _n in ("take_while", "skip_while", "map_while"):
    whilem(_n)


@adapt("reduce")
def it_reduce(eng, st, fr, parts, args, targs, t):
    if not plain(parts):
        return [(st, T("reduce", eng.freeze(st, mk_seq(parts)), eng.freeze(st, args[1])))]
    if not parts:
        return [(st, NONE)]
    live = [(st, parts[0])]
    for p in parts[1:]:
        live = [x for s, acc in live for x in eng.apply(s, fr, args[1], [acc, p])]
    return [(s, some(v)) for s, v in live]


@adapt("step_by")
def it_step_by(eng, st, fr, parts, args, targs, t):
    n = eng.freeze(st, args[1])
    if n[0] == "c" and n[1] and plain(parts):
        return [(st, ("iter", tuple(parts)[::n[1]], 0))]
    return [(st, ("iter", (("spread", T("step_by", eng.freeze(st, mk_seq(parts)), n)),), 0))]


@adapt("min")
def it_min(eng, st, fr, parts, args, targs, t):
    fs = [eng.freeze(st, p) for p in parts]
    if fs and all(p[0] == "c" for p in fs):
        return [(st, some(C(min(p[1] for p in fs))))]
    return [(st, T("iter_min", *fs) if fs else NONE)]


def by_keym(name):
    @adapt(name)
    def g(eng, st, fr, parts, args, targs, t, name=name):
        if not parts:
            return [(st, NONE)]
        out = []
        for s, ks in per_part(eng, st, fr, parts, lambda s, x: eng_keys(eng, s, fr, args[1], x)):
            ks = [eng.freeze(s, k) for k in ks]
            if plain(parts) and all(k[0] == "c" for k in ks):
                ks = [k[1] for k in ks]
                i = ks.index(min(ks)) if name == "min_by_key" else len(ks) - 1 - ks[::-1].index(max(ks))
                out.append((s, some(parts[i])))
            else:
                out.append((s, T(name, eng.freeze(s, mk_seq(parts)), *ks)))
        return out


def eng_keys(eng, s, fr, f, x):
    return [(s2, [v]) for s2, v in eng.apply(s, fr, f, [eng.ref_to(s, x)])]


for _n in ("min_by_key", "max_by_key"):
    by_keym(_n)


def rsearchm(name):
    @adapt(name)
    def g(eng, st, fr, parts, args, targs, t, name=name):
        if not plain(parts):
            return [(st, T(name, eng.freeze(st, mk_seq(parts)), eng.freeze(st, args[1])))]
        done, live = [], [st]
        for k in range(len(parts) - 1, -1, -1):
            nl = []
            for s in live:
                a = parts[k] if name.endswith("rposition") else eng.ref_to(s, parts[k])
                for s2, v in eng.apply(s, fr, args[1], [a]):
                    for s3, b in eng.decide(s2, v):
                        if b:
                            done.append((s3, some(C(k) if name.endswith("rposition") else parts[k]), parts[:k]))
                        else:
                            nl.append(s3)
            live = nl
        return done + [(s, NONE, ()) for s in live]


rsearchm("rposition")
rsearchm("double_ended::DoubleEndedIterator::rfind")


@model("core::iter::sources::successors::successors")
def m_successors(eng, st, fr, args, targs, path, t):
    live, done = [(st, (), args[0])], []
    for _ in range(48):
        nl = []
        for s, acc, cur in live:
            for s2, nm, p in split_opt(eng, s, cur, OPT):
                if nm != "Some":
                    done.append((s2, ("iter", acc, 0)))
                    continue
                for s3, v in eng.apply(s2, fr, args[1], [eng.ref_to(s2, p)]):
                    nl.append((s3, acc + (p,), v))
        live = nl
        if not live:
            return done
        if len(live) > 64:
            break
    raise_budget()


@model("core::slice::windows")
def sl_windows(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    n = eng.freeze(st, args[1])
    if v[0] == "seq" and plain(v[1]) and n[0] == "c" and n[1] > 0:
        return ("iter", tuple(("seq", v[1][i:i + n[1]]) for i in range(len(v[1]) - n[1] + 1)), 0)
    return None


@model("core::slice::split_at")
def sl_split_at(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    n = eng.freeze(st, args[1])
    if v[0] == "seq" and plain(v[1]) and n[0] == "c" and 0 <= n[1] <= len(v[1]):
        return ("tup", (("seq", v[1][:n[1]]), ("seq", v[1][n[1]:])))
    return None


@model("core::slice::swap")
def sl_swap(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    i, j = eng.freeze(st, args[1]), eng.freeze(st, args[2])
    if r[0] != "ref" or i[0] != "c" or j[0] != "c":
        return None
    v = eng.load(st, r[1], r[2])
    if v[0] != "seq" or not plain(v[1]) or max(i[1], j[1]) >= len(v[1]):
        return None
    x = list(v[1])
    x[i[1]], x[j[1]] = x[j[1]], x[i[1]]
    eng.store_to(st, r[1], r[2], ("seq", tuple(x)))
    return UNIT


@model("core::slice::rotate_left", "core::slice::rotate_right")
def sl_rotate(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    n = eng.freeze(st, args[1])
    if r[0] != "ref" or n[0] != "c":
        return None
    v = eng.load(st, r[1], r[2])
    if v[0] != "seq" or not plain(v[1]) or n[1] > len(v[1]):
        return None
    k = n[1] if path.endswith("left") else len(v[1]) - n[1]
    eng.store_to(st, r[1], r[2], ("seq", v[1][k:] + v[1][:k]))
    return UNIT


@model("std::collections::hash::set::HashSet::intersection", "std::collections::hash::set::HashSet::difference",
       "std::collections::hash::set::HashSet::union", "alloc::collections::btree::set::BTreeSet::intersection",
       "alloc::collections::btree::set::BTreeSet::difference", "alloc::collections::btree::set::BTreeSet::union")
def m_setop(eng, st, fr, args, targs, path, t):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    nm = path.rsplit("::", 1)[-1]
    if any(x[0] != "seq" or not plain(x[1]) for x in (a, b)):
        return None
    fa, fb = [eng.freeze(st, x) for x in a[1]], [eng.freeze(st, x) for x in b[1]]
    if not all(x[0] in ("c", "s", "ent") for x in fa + fb):
        return None
    if nm == "union":
        r = list(a[1]) + [x for x, y in zip(b[1], fb) if y not in fa]
    else:
        r = [x for x, y in zip(a[1], fa) if (y in fb) == (nm == "intersection")]
    return ("iter", tuple(r), 0)


@model("core::mem::swap")
def m_mswap(eng, st, fr, args, targs, path, t):
    a, b = chase(eng, st, args[0]), chase(eng, st, args[1])
    if a[0] != "ref" or b[0] != "ref":
        return None
    x, y = eng.load(st, a[1], a[2]), eng.load(st, b[1], b[2])
    eng.store_to(st, a[1], a[2], y)
    eng.store_to(st, b[1], b[2], x)
    return UNIT


@model("alloc::vec::Vec::reserve", "smallvec::SmallVec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::vec::Vec::shrink_to_fit",
       "std::collections::hash::map::HashMap::reserve", "std::collections::hash::set::HashSet::reserve", "alloc::string::String::reserve")
def m_reserve(eng, st, fr, args, targs, path, t):
    return UNIT


@adapt("fold")
def it_fold(eng, st, fr, parts, args, targs, t):
    live = [(st, args[1])]
    for p in parts:
        nl = []
        for s, acc in live:
            if p[0] in ("each", "spread"):
                for s2, src, v in with_each(eng, s, fr, p, lambda s_, el: eng.apply(s_, fr, args[2], [acc, el])):
                    nl.append((s2, v))
            else:
                nl.extend(eng.apply(s, fr, args[2], [acc, p]))
        live = nl
    return live


@adapt("sum")
def it_sum(eng, st, fr, parts, args, targs, t):
    fs = [eng.freeze(st, p) for p in parts]
    if all(p[0] == "c" for p in fs):
        return [(st, C(sum(p[1] for p in fs)))]
    return [(st, T("sum", *fs))]


@adapt("max")
def it_max(eng, st, fr, parts, args, targs, t):
    fs = [eng.freeze(st, p) for p in parts]
    if fs and all(p[0] == "c" for p in fs):
        return [(st, some(C(max(p[1] for p in fs))))]
    return [(st, T("iter_max", *fs) if fs else NONE)]


@adapt("collect")
def it_collect(eng, st, fr, parts, args, targs, t):
    tgt = (targs[1] if len(targs) > 1 else "") or ""
    if tgt in (RES, OPT):
        live, done = [(st, ())], []
        for p in parts:
            nl = []
            for s, acc in live:
                if p[0] in ("each", "spread"):
                    src, el = part_elem(eng, s, p)
                else:
                    src, el = None, p
                for s2, nm, pl in split_opt(eng, s, el, tgt):
                    if good(nm):
                        nl.append((s2, acc + ((("each", src, pl) if src is not None else pl),)))
                    else:
                        done.append((s2, wrapv(nm, pl)))
            live = nl
        w = ok if tgt == RES else some
        return [(s, w(coll(acc))) for s, acc in live] + done
    if "Map" in tgt:
        fs = [p for p in parts]
        if all(p[0] == "tup" and len(p[1]) == 2 for p in fs):
            return [(st, ("map", tuple((eng.freeze(st, p[1][0]), p[1][1]) for p in fs)))]
        return [(st, T("collect_map", eng.freeze(st, ("seq", parts))))]
    if tgt.endswith("String"):
        return [(st, T("concat", eng.freeze(st, ("seq", parts))))]
    return [(st, coll(parts))]


def coll(parts):
    ps = []
    for p in parts:
        if p[0] == "each" and p[2] == elem_of(p[1]):
            p = ("spread", p[1])
        ps.append(p)
    return mk_seq(tuple(ps))


@adapt("unzip")
def it_unzip(eng, st, fr, parts, args, targs, t):
    a, b = [], []
    for p in parts:
        if p[0] == "tup":
            a.append(p[1][0]), b.append(p[1][1])
        elif p[0] == "each" and p[2][0] == "tup":
            a.append(("each", p[1], p[2][1][0])), b.append(("each", p[1], p[2][1][1]))
        else:
            return [(st, T("unzip", eng.freeze(st, ("seq", parts))))]
    return [(st, ("tup", (coll(tuple(a)), coll(tuple(b)))))]


# ---------------------------------------------------------------- maps and sets
MAPS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "trunk_ir::types::AttributeMap",
        "indexmap::map::IndexMap", "hashbrown::map::HashMap")
SETS = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet", "indexmap::set::IndexSet")


def mapm(*names, ty=MAPS):
    return vecm(*names, ty=ty)


@mapm("new", "with_capacity", "with_hasher", "with_capacity_and_hasher")
def mp_new(eng, st, fr, args, targs, path, t):
    return ("map", ())


@mapm("new", "with_capacity", "with_hasher", "with_capacity_and_hasher", ty=SETS)
def set_new(eng, st, fr, args, targs, path, t):
    return ("seq", ())


def known(eng, st, k):
    """Replace subterms whose value is fixed on this path."""
    if isinstance(k, tuple) and k:
        e = st.eqs.get(k)
        if e is not None and e[0] == "=":
            return e[1]
        if k[0] == "tup":
            return ("tup", tuple(known(eng, st, x) for x in k[1]))
    return k


def map_get(eng, st, v, k, raw=False):
    v = eng.deref(st, v)
    k = eng.freeze(st, k)
    if v[0] == "map":
        k = known(eng, st, k)
    if v[0] == "map":
        for kk, x in reversed(v[1]):
            e = eng.cmp("eq", eng.freeze(st, kk), k)
            if e == TRUE:
                return x if raw else some(x)
            if e != FALSE:
                return T("map_get", eng.freeze(st, v), k)
        return NONE if not raw else T("map_at", eng.freeze(st, v), k)
    if v[0] == "t" and v[1] == "attrs":
        return attr_get(eng, st, v[2], k)
    if raw:
        return T("map_at", eng.freeze(st, v), k)
    return T("map_get", eng.freeze(st, v), k)


def map_slot(eng, st, r, k, cur):
    """A location for the value of k, so that writes through it reach the map."""
    if cur[0] == "ref":
        return cur
    loc = eng.ref_to(st, cur)
    v = eng.deref(st, r)
    if r[0] == "ref" and v[0] == "map":
        eng.store_to(st, r[1], r[2], ("map", tuple((a, loc if eng.cmp("eq", eng.freeze(st, a), k) == TRUE else b) for a, b in v[1])))
    return loc


@mapm("get", "get_mut")
def mp_get(eng, st, fr, args, targs, path, t):
    if path.endswith("get_mut"):
        r = chase(eng, st, args[0])
        v = eng.deref(st, r)
        if r[0] == "ref" and v[0] == "map":
            k = eng.freeze(st, args[1])
            g = map_get(eng, st, v, k)
            if g[0] == "adt" and g[2] == "Some":
                return some(map_slot(eng, st, r, k, g[3][0]))
            return g
    return map_get(eng, st, args[0], args[1])


@mapm("contains_key")
def mp_contains(eng, st, fr, args, targs, path, t):
    g = map_get(eng, st, args[0], args[1])
    if g[0] == "adt":
        return B(g[2] == "Some")
    return T("isvar", g, S("Some"), S(OPT))


@mapm("insert")
def mp_insert(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] != "ref":
        st.event("call", "map.insert", (eng.freeze(st, r), eng.freeze(st, args[1]), eng.freeze(st, args[2])), "")
        return T("map_insert_old")
    v = eng.load(st, r[1], r[2])
    k = eng.freeze(st, args[1])
    old = map_get(eng, st, v, k)
    if v[0] == "map":
        eng.store_to(st, r[1], r[2], ("map", tuple((a, b) for a, b in v[1] if a != k) + ((k, args[2]),)))
    else:
        st.event("call", "map.insert", (eng.freeze(st, v), k, eng.freeze(st, args[2])), "")
        eng.store_to(st, r[1], r[2], T("map_ins", eng.freeze(st, v), k, eng.freeze(st, args[2])))
    return old


@mapm("remove")
def mp_remove(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    k = eng.freeze(st, args[1])
    v = eng.deref(st, r)
    old = map_get(eng, st, v, k)
    if r[0] == "ref":
        if v[0] == "map":
            eng.store_to(st, r[1], r[2], ("map", tuple((a, b) for a, b in v[1] if a != k)))
        else:
            st.event("call", "map.remove", (eng.freeze(st, v), k), "")
            eng.store_to(st, r[1], r[2], T("map_rem", eng.freeze(st, v), k))
    return old


@mapm("entry")
def mp_entry(eng, st, fr, args, targs, path, t):
    e = ("entry", chase(eng, st, args[0]), eng.freeze(st, args[1]))
    g = map_get(eng, st, eng.deref(st, e[1]), e[2])
    if g[0] != "adt":
        return e
    ep = ("alloc::collections::btree::map::entry::Entry" if "btree" in path else "indexmap::map::core::entry::Entry"
          if "indexmap" in path else "std::collections::hash::map::Entry")
    return ("adt", ep, "Occupied" if g[2] == "Some" else "Vacant", (e,), ("0",))


def entry_of(eng, st, v):
    v = eng.deref(st, v)
    if v[0] == "adt" and v[1].endswith("::Entry"):
        v = eng.deref(st, v[3][0])
    return v if v[0] == "entry" else None


ENTRIES = ("std::collections::hash::map::", "alloc::collections::btree::map::entry::", "indexmap::map::core::entry::")


@model(*[p + n for p in ENTRIES for n in ("VacantEntry::insert", "OccupiedEntry::insert")])
def m_entry_insert(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    old = mp_insert(eng, st, fr, [e[1], e[2], args[1]], targs, "insert", t)
    if "Occupied" in path:
        return old[3][0] if old[0] == "adt" and old[2] == "Some" else T("entry_old", eng.freeze(st, old))
    return eng.ref_to(st, args[1])


@model(*[p + n for p in ENTRIES for n in ("VacantEntry::key", "OccupiedEntry::key", "VacantEntry::into_key", "Entry::key")])
def m_entry_key(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    return None if e is None else e[2] if "into_key" in path else eng.ref_to(st, e[2])


@model(*[p + n for p in ENTRIES for n in ("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")])
def m_entry_get(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    g = map_get(eng, st, eng.deref(st, e[1]), e[2])
    if g[0] == "adt" and g[2] == "Some":
        return map_slot(eng, st, e[1], e[2], g[3][0])
    return None


@model(*[p + n for p in ENTRIES for n in ("OccupiedEntry::remove",)])
def m_entry_remove(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    g = mp_remove(eng, st, fr, [e[1], e[2]], targs, path, t)
    return g[3][0] if g[0] == "adt" and g[2] == "Some" else None


@model(*[p + n for p in ENTRIES for n in ("Entry::and_modify",)])
def m_and_modify(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    g = map_get(eng, st, eng.deref(st, e[1]), e[2])
    if g[0] != "adt":
        return None
    if g[2] == "Some":
        return [(s, args[0]) for s, _ in eng.apply(st, fr, args[1], [map_slot(eng, st, e[1], e[2], g[3][0])])]
    return [(st, args[0])]


@model(*[p + n for p in ENTRIES for n in ("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")])
def m_or_insert(eng, st, fr, args, targs, path, t):
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    r, k = e[1], e[2]
    v = eng.deref(st, r)
    g = map_get(eng, st, v, k)
    if g[0] == "adt" and g[2] == "Some":
        return map_slot(eng, st, r, k, g[3][0])
    if path.endswith("or_default"):
        ty = ""
        init = T("default", S(ty))
        ft = fr.fn.local_ty(t[3][0]) if t is not None else None
        if ft is not None and ft.get("k") == "refmut":
            it = fr.fn.T[ft["a"][0]]
            init = m_default(eng, st, fr, [], (it.get("p") or it["s"],), "", None)
    elif path.endswith("or_insert"):
        init = args[1]
    else:
        rs = eng.apply(st, fr, args[1], [])
        if len(rs) != 1:
            return None
        st, init = rs[0]
    if g[0] == "t":
        init = T("entry_or", g, eng.freeze(st, init))
    loc = eng.ref_to(st, init)
    if r[0] == "ref" and v[0] == "map":
        eng.store_to(st, r[1], r[2], ("map", v[1] + ((k, loc),)))
    else:
        st.event("call", "map.entry_or", (eng.freeze(st, v), k, eng.freeze(st, init)), "")
    return [(st, loc)]


@mapm("contains", ty=SETS)
def set_contains(eng, st, fr, args, targs, path, t):
    return contains(eng, st, eng.deref(st, args[0]), eng.freeze(st, args[1]))


@mapm("insert", ty=SETS)
def set_insert(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    x = eng.freeze(st, args[1])
    v = eng.deref(st, r)
    c = contains(eng, st, v, x)
    if r[0] == "ref":
        src = in_abstract(eng, st, r)
        if v[0] in ("t", "upd"):
            st.event("call", "set.insert", (eng.freeze(st, v), x), "")
        if c != TRUE:
            eng.store_to(st, r[1], r[2], ("seq", as_parts(v) + ((("each", src, x) if src is not None else x),)))
    else:
        st.event("call", "set.insert", (eng.freeze(st, r), x), "")
    return eng.mk_not(c)


@mapm("remove", ty=SETS)
def set_remove(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    x = eng.freeze(st, args[1])
    v = eng.deref(st, r)
    c = contains(eng, st, v, x)
    if r[0] == "ref":
        if v[0] == "seq" and plain(v[1]):
            eng.store_to(st, r[1], r[2], ("seq", tuple(y for y in v[1] if y != x)))
        else:
            st.event("call", "set.remove", (eng.freeze(st, v), x), "")
            eng.store_to(st, r[1], r[2], T("set_rem", eng.freeze(st, v), x))
    return c


# ---------------------------------------------------------------- strings and formatting
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
       "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex")
def m_fmtarg(eng, st, fr, args, targs, path, t):
    a = eng.freeze(st, args[0])
    if path.endswith("new_display"):
        return a
    return T("fmt." + path.rsplit("_", 1)[-1], a)


@model("core::fmt::Arguments::new", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_const")
def m_fmt_new(eng, st, fr, args, targs, path, t):
    tmpl = eng.freeze(st, args[0])
    fa = eng.freeze(st, args[1]) if len(args) > 1 else ("seq", ())
    fa = fa[1] if fa[0] in ("seq", "tup") else (fa,)
    return fmt_decode(eng, tmpl, fa)


def fmt_decode(eng, tmpl, fa):
    """Decode rustc's byte template: <0x80 literal of that length, 0x80 + u16 length, 0xC0.. placeholder."""
    if tmpl[0] == "seq" and all(x[0] == "c" for x in tmpl[1]):
        b = bytes(x[1] & 255 for x in tmpl[1])
    elif tmpl[0] == "s":
        return tmpl
    else:
        return T("format", tmpl, *fa)
    i, out, na = 0, [], 0
    try:
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                out.append(S(b[i:i + n].decode("utf-8", "replace")))
                i += n
            elif n == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                out.append(S(b[i:i + ln].decode("utf-8", "replace")))
                i += ln
            else:
                spec = []
                if n & 1:
                    spec.append(b[i:i + 4])
                    i += 4
                if n & 2:
                    spec.append(b[i:i + 2])
                    i += 2
                if n & 4:
                    spec.append(b[i:i + 2])
                    i += 2
                if n & 8:
                    na = b[i] | b[i + 1] << 8
                    i += 2
                v = fa[na] if na < len(fa) else T("fmtarg?")
                na += 1
                out.append(v if not spec else T("fmtspec", v, S(repr(spec))))
    except IndexError:
        return T("format", tmpl, *fa)
    return concat(out)


def concat(parts):
    out = []
    for p in parts:
        if p[0] == "t" and p[1] == "concat":
            ps = p[2:]
        else:
            ps = (p,)
        for q in ps:
            if q[0] == "c":
                q = S(str(q[1]))
            if q[0] == "s" and out and out[-1][0] == "s":
                out[-1] = S(out[-1][1] + q[1])
            elif q != S(""):
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return T("concat", *out)


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "alloc::fmt::format",
       "core::fmt::Arguments::as_str_")
def m_fmt_id(eng, st, fr, args, targs, path, t):
    return eng.freeze(st, args[0])


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def s_new(eng, st, fr, args, targs, path, t):
    return S("")


@model("alloc::string::String::push_str", "alloc::string::String::push")
def s_push(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    if r[0] == "ref":
        v = eng.load(st, r[1], r[2])
        a = eng.freeze(st, args[1])
        if path.endswith("::push"):
            a = S(chr(a[1])) if a[0] == "c" else a
        eng.store_to(st, r[1], r[2], concat([eng.freeze(st, v), a]))
    return UNIT


def strm(name, fn):
    def f(eng, st, fr, args, targs, path, t):
        xs = [eng.freeze(st, a) for a in args]
        if all(x[0] == "s" for x in xs):
            return fn(*[x[1] for x in xs])
        if len(xs) == 2 and xs[1][0] == "c" and xs[0][0] == "s":
            return fn(xs[0][1], chr(xs[1][1]))
        if name == "starts_with" and xs[0][0] == "t" and xs[0][1] == "concat" and xs[0][2][0] == "s" and xs[1][0] == "s":
            if xs[0][2][1].startswith(xs[1][1]):
                return TRUE
            if not xs[1][1].startswith(xs[0][2][1]):
                return FALSE
        return T("str." + name, *xs)
    MODELS["core::str::" + name] = f


strm("starts_with", lambda a, b: B(a.startswith(b)))
strm("ends_with", lambda a, b: B(a.endswith(b)))
strm("contains", lambda a, b: B(b in a))
strm("strip_prefix", lambda a, b: some(S(a[len(b):])) if a.startswith(b) else NONE)
strm("strip_suffix", lambda a, b: some(S(a[:-len(b)])) if a.endswith(b) else NONE)


# ---------------------------------------------------------------- statics
@model("std::sync::lazy_lock::LazyLock::new")
def m_lazy(eng, st, fr, args, targs, path, t):
    return eng.apply(st, fr, args[0], [])


# ---------------------------------------------------------------- tracing: logging has no effect on results
@model("tracing_core::metadata::LevelFilter::current")
def m_lvl(eng, st, fr, args, targs, path, t):
    return T("LevelFilter")


@model("tracing::__macro_support::__is_enabled", "tracing_core::subscriber::Interest::is_never_")
def m_trfalse(eng, st, fr, args, targs, path, t):
    return FALSE


@model("tracing::__macro_support::__disabled_span", "tracing::span::Span::new", "tracing::span::Span::entered",
       "tracing::span::Span::enter", "tracing::span::Span::none")
def m_span(eng, st, fr, args, targs, path, t):
    return T("span")


# ---------------------------------------------------------------- trunk-ir primitives
@model("trunk_ir::symbol::Symbol::new", "trunk_ir::symbol::Symbol::from_dynamic")
def sym_new(eng, st, fr, args, targs, path, t):
    return eng.freeze(st, args[0])


@model("trunk_ir::symbol::Symbol::lookup")
def sym_lookup(eng, st, fr, args, targs, path, t):
    return some(eng.freeze(st, args[0]))


@model("core::str::parse")
def str_parse(eng, st, fr, args, targs, path, t):
    v = eng.freeze(st, args[0])
    if v[0] == "s" and targs and targs[0] in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "i128", "u128", "isize"):
        x = v[1]
        signed = targs[0][0] == "i"
        if re.fullmatch(r"\+?[0-9]+" if not signed else r"[+-]?[0-9]+", x):
            n = int(x)
            w = {"size": 64}.get(targs[0][1:]) or int(targs[0][1:])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if lo <= n <= hi:
                return ok(C(n))
        return err(T("parse_error"))
    return T("str_parse", v, S(targs[0] if targs else ""))


@model("trunk_ir::symbol::Symbol::with_str")
def sym_with_str(eng, st, fr, args, targs, path, t):
    return eng.apply(st, fr, args[1], [eng.freeze(st, args[0])])


@model("trunk_ir::types::AttributeKey::lookup_symbol")
def key_lookup(eng, st, fr, args, targs, path, t):
    return some(eng.freeze(st, args[0]))


OPDATA = "trunk_ir::context::OperationData"


@model("trunk_ir::context::OperationDataBuilder::build")
def odb_build(eng, st, fr, args, targs, path, t):
    b = eng.deref(st, args[0])
    if b[0] == "adt":
        return ("adt", OPDATA, "OperationData", b[3], b[4])
    return None


@model("trunk_ir::context::IrContext::create_op")
def ctx_create_op(eng, st, fr, args, targs, path, t):
    b = eng.deref(st, args[1])
    if b[0] != "adt":
        r = T("created_op", eng.freeze(st, b), C(eng.fresh()))
        st.event("create", r)
        return r
    d = {n: eng.freeze(st, v) for n, v in zip(b[4], b[3])}

    def parts(v):
        return v[1] if v[0] == "seq" else (("spread", v),)
    at = d["attributes"]
    attrs = at[1] if at[0] == "map" else ((S("*"), at),)
    attrs = tuple(sorted(((k[1] if k[0] == "s" else k, v) for k, v in attrs), key=repr))
    nm = d["dialect"][1] + "." + d["name"][1] if d["dialect"][0] == "s" and d["name"][0] == "s" else \
        (T("opname", d["dialect"], d["name"]))
    op = ("op", eng.fresh(), nm, parts(d["operands"]), attrs, parts(d["results"]), parts(d["regions"]),
          parts(d["successors"]))
    st.event("create", op)
    return op


def opfield(eng, op, name):
    """A field of ctx.op(op)."""
    if op[0] == "op":
        if name in ("dialect", "name") and isinstance(op[2], str):
            d, n = op[2].split(".", 1)
            return S(d if name == "dialect" else n)
        if name == "operands":
            return mk_seq(op[3])
        if name == "results":
            return mk_seq(op[5])
        if name == "regions":
            return mk_seq(op[6])
        if name == "successors":
            return mk_seq(op[7])
        if name == "attributes":
            return ("map", tuple((S(k) if isinstance(k, str) else k, v) for k, v in op[4]))
    if name == "attributes":
        return T("attrs", op)
    n = eng.shapes.get((name, op))
    if n is not None:
        return ("seq", tuple(T("index", T("op." + name, op), C(i)) for i in range(n)))
    return eng.seed(T("op." + name, op))


def attr_get(eng, st, op, key):
    return eng.seed(T("attr", op, key))


@model("trunk_ir::context::IrContext::op")
def ctx_op(eng, st, fr, args, targs, path, t):
    return T("opdata", eng.freeze(st, args[1]))


@model("trunk_ir::context::IrContext::op_mut")
def ctx_op_mut(eng, st, fr, args, targs, path, t):
    return T("opdata", eng.freeze(st, args[1]))


@model("trunk_ir::context::IrContext::op_operands")
def ctx_operands(eng, st, fr, args, targs, path, t):
    return opfield(eng, eng.freeze(st, args[1]), "operands")


@model("trunk_ir::context::IrContext::op_result_types")
def ctx_result_types(eng, st, fr, args, targs, path, t):
    return opfield(eng, eng.freeze(st, args[1]), "results")


@model("trunk_ir::context::IrContext::op_results")
def ctx_results(eng, st, fr, args, targs, path, t):
    op = eng.freeze(st, args[1])
    if op[0] == "op" and plain(op[5]):
        return ("seq", tuple(("res", op, i) for i in range(len(op[5]))))
    n = eng.shapes.get(("results", op))
    if n is None:
        rs = eng.seeds.get(T("op.results", op))
        n = len(rs[1]) if rs is not None and rs[0] == "seq" else None
    if n is not None:
        return ("seq", tuple(("res", op, i) for i in range(n)))
    return T("op_results", op)


@model("trunk_ir::context::IrContext::op_result")
def ctx_result(eng, st, fr, args, targs, path, t):
    op, i = eng.freeze(st, args[1]), eng.freeze(st, args[2])
    if i[0] == "c":
        return ("res", op, i[1])
    return T("index", T("op_results", op), i)


@model("trunk_ir::context::IrContext::value_ty")
def ctx_value_ty(eng, st, fr, args, targs, path, t):
    v = eng.freeze(st, args[1])
    if v[0] == "res":
        op = v[1]
        if op[0] == "op" and plain(op[5]) and v[2] < len(op[5]):
            return op[5][v[2]]
        return eng.index(st, opfield(eng, op, "results"), C(v[2]))
    if v[0] == "barg" and v[1][0] == "blk" and plain(v[1][2]) and v[2] < len(v[1][2]):
        a = v[1][2][v[2]]
        return eng.project(st, a, ("f", 0, "ty")) if a[0] == "adt" else T("field", a, S("ty"))
    return eng.seed(T("value_ty", v))


@model("trunk_ir::context::IrContext::value_def")
def ctx_value_def(eng, st, fr, args, targs, path, t):
    v = eng.freeze(st, args[1])
    if v[0] == "res":
        return ("adt", "trunk_ir::context::ValueDef", "OpResult", (v[1], C(v[2])), ("0", "1"))
    if v[0] == "barg":
        return ("adt", "trunk_ir::context::ValueDef", "BlockArg", (v[1], C(v[2])), ("0", "1"))
    return eng.seed(T("value_def", v))


@model("trunk_ir::context::IrContext::create_block")
def ctx_create_block(eng, st, fr, args, targs, path, t):
    b = eng.freeze(st, args[1])
    if b[0] == "adt":
        d = dict(zip(b[4], b[3]))
        blk = ("blk", eng.fresh(), as_parts(d.get("args", T("?"))), as_parts(d.get("ops", ("seq", ()))))
    else:
        blk = ("blk", eng.fresh(), (("spread", b),), ())
    st.event("create_block", blk)
    return blk


@model("trunk_ir::context::IrContext::block_args")
def ctx_block_args(eng, st, fr, args, targs, path, t):
    b = eng.freeze(st, args[1])
    if b[0] == "blk" and plain(b[2]):
        return ("seq", tuple(("barg", b, i) for i in range(len(b[2]))))
    return eng.seed(T("block_args", b))


@model("trunk_ir::context::IrContext::block_arg")
def ctx_block_arg(eng, st, fr, args, targs, path, t):
    b, i = eng.freeze(st, args[1]), eng.freeze(st, args[2])
    if i[0] == "c":
        return ("barg", b, i[1])
    return T("index", T("block_args", b), i)


@model("trunk_ir::context::IrContext::create_region")
def ctx_create_region(eng, st, fr, args, targs, path, t):
    b = eng.freeze(st, args[1])
    if b[0] == "adt":
        d = dict(zip(b[4], b[3]))
        r = ("region", eng.fresh(), as_parts(d.get("blocks", T("?"))))
    else:
        r = ("region", eng.fresh(), (("spread", b),))
    st.event("create_region", r)
    return r


@model("trunk_ir::types::TypeInterner::intern")
def types_intern(eng, st, fr, args, targs, path, t):
    b = eng.freeze(st, args[1])
    if b[0] == "adt":
        d = dict(zip(b[4], b[3]))
        at = d["attrs"]
        return ("ty", d["dialect"], d["name"], d["params"], at)
    return T("interned", b)


@model("trunk_ir::types::TypeInterner::get")
def types_get(eng, st, fr, args, targs, path, t):
    ty = eng.freeze(st, args[1])
    if ty[0] == "ty":
        return ("adt", "trunk_ir::types::TypeData", "TypeData", ty[1:], ("dialect", "name", "params", "attrs"))
    return eng.seed(T("tydata", ty))


@model("trunk_ir::types::TypeInterner::is_dialect")
def types_is_dialect(eng, st, fr, args, targs, path, t):
    d = types_get(eng, st, fr, args, targs, path, t)
    a = eng.cmp("eq", eng.project(st, d, ("f", 0, "dialect")), eng.freeze(st, args[2]))
    b = eng.cmp("eq", eng.project(st, d, ("f", 1, "name")), eng.freeze(st, args[3]))
    return eng.mk_and(a, b)


# rewriter: every mutation is an event
for _n in ("insert_op", "replace_op", "erase_op", "add_module_op", "replace_with_prefix"):
    def _rw(eng, st, fr, args, targs, path, t, _n=_n):
        if _n == "replace_with_prefix":
            for s, parts in iter_parts(eng, st, fr, args[1]):
                for p in parts:
                    s.event("rw", "insert_op", eng.freeze(s, p))
            st.event("rw", "replace_op", eng.freeze(st, args[2]))
            return UNIT
        st.event("rw", _n, eng.freeze(st, args[1]))
        return UNIT
    MODELS["trunk_ir::rewrite::rewriter::PatternRewriter::" + _n] = _rw


@model("core::hash::Hash::hash")
def m_hash(eng, st, fr, args, targs, path, t):
    """The state of a hasher is what went into it (an Option brings its own discriminant)."""
    if len(args) > 1 and args[1][0] == "ref":
        h = eng.deref1(st, args[1])
        if h[0] == "ref":
            args = [args[0], h]
            h = eng.deref1(st, h)
        eng.store_to(st, args[1][1], args[1][2], T("hashed", h, eng.freeze(st, eng.deref(st, args[0]))))
    return UNIT


@model("trunk_ir::types::PathInterner::intern")
def paths_intern(eng, st, fr, args, targs, path, t):
    """One reference per distinct path."""
    return T("path", eng.freeze(st, args[1]))


@model("smallvec::SmallVec::inline_size")
def sv_inline(eng, st, fr, args, targs, path, t):
    """Only where the elements live depends on it."""
    return C(16)


# ---------------------------------------------------------------- searching sorted slices
def _ordv(x):
    """An Ordering value -> -1, 0, 1 or None."""
    if x[0] == "adt" and x[2] in ("Less", "Equal", "Greater"):
        return ("Less", "Equal", "Greater").index(x[2]) - 1
    return None


@model("core::slice::binary_search", "core::slice::binary_search_by", "core::slice::binary_search_by_key", "core::slice::partition_point")
def sl_bsearch(eng, st, fr, args, targs, path, t):
    """The library's algorithm, on slices whose elements compare decidably with the key."""
    v = eng.deref(st, args[0])
    nm = path.rsplit("::", 1)[-1]
    gen = T(nm, *(eng.freeze(st, a) for a in args))
    if v[0] != "seq" or not plain(v[1]) or len(v[1]) > 64:
        return gen
    xs = v[1]

    def probe(s, i):
        x = xs[i] if xs[i][0] == "ref" else eng.ref_to(s, xs[i])
        if nm == "binary_search":
            k = eng.freeze(s, eng.deref(s, x))
        else:
            out = eng.apply(s, fr, args[-1], [x])
            if len(out) != 1:
                raise Undecided()
            s, k = out[0]
            k = eng.freeze(s, k)
        if nm == "partition_point":
            if k[0] != "c":
                raise Undecided()
            return s, -1 if k[1] else 1
        if nm == "binary_search_by":
            o = _ordv(k)
            if o is None:
                raise Undecided()
            return s, o
        key = eng.freeze(s, eng.deref(s, args[1]))
        if key[0] == "c" and k[0] == "c":
            return s, (k[1] > key[1]) - (k[1] < key[1])
        raise Undecided()
    try:
        size, base = len(xs), 0
        if not size:
            return C(0) if nm == "partition_point" else err(C(0))
        while size > 1:
            half = size // 2
            st, o = probe(st, base + half)
            if o <= 0:
                base += half
            size -= half
        st, o = probe(st, base)
    except Undecided:
        return gen
    if nm == "partition_point":
        return [(st, C(base + (o < 0)))]
    return [(st, ok(C(base)) if o == 0 else err(C(base + (o < 0))))]


class Undecided(Exception):
    pass


@model("core::cell::Cell::get")
def cell_get(eng, st, fr, args, targs, path, t):
    return eng.deref(st, args[0])


@model("core::cell::Cell::set", "core::cell::Cell::replace")
def cell_set(eng, st, fr, args, targs, path, t):
    r = chase(eng, st, args[0])
    old = eng.deref(st, args[0])
    if r[0] == "ref":
        eng.store_to(st, r[1], r[2], args[1])
    return UNIT if path.endswith("set") else old


@model("core::slice::last_mut", "core::slice::first_mut")
def sl_last_mut(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "seq" and plain(v[1]):
        if not v[1]:
            return NONE
        r = chase(eng, st, args[0])
        if r[0] == "ref":
            return some(("ref", r[1], r[2] + (("i", C(len(v[1]) - 1 if path.endswith("last_mut") else 0)),)))
    return None


@model("core::any::Any::downcast_mut", "core::any::Any::downcast_ref", "(dyn core::any::Any + 'static)::downcast_mut",
       "(dyn core::any::Any + 'static)::downcast_ref")
def any_downcast(eng, st, fr, args, targs, path, t):
    v = eng.deref(st, args[0])
    if v[0] == "adt" and targs:
        return some(args[0]) if v[1] == targs[-1] else NONE
    return None


@model("core::str::rsplit", "core::str::split", "core::str::rsplit_once", "core::str::split_once")
def str_split(eng, st, fr, args, targs, path, t):
    v, p = eng.freeze(st, args[0]), eng.freeze(st, args[1])
    if v[0] != "s" or p[0] not in ("s", "c"):
        return None
    nm = path.rsplit("::", 1)[-1]
    x, y = v[1], p[1] if p[0] == "s" else chr(p[1])
    if not y:
        return None
    if nm in ("split", "rsplit"):
        ps = x.split(y)
        return ("iter", tuple(S(q) for q in (ps if nm == "split" else ps[::-1])), 0)
    if y not in x:
        return NONE
    i = x.index(y) if nm == "split_once" else x.rindex(y)
    return some(("tup", (S(x[:i]), S(x[i + len(y):]))))


@model("core::slice::chunks_exact", "core::slice::chunks")
def m_chunks(eng, st, fr, args, targs, path, t):
    """chunks of a list of known length"""
    v, n = eng.deref(st, args[0]), eng.deref(st, args[1])
    if v[0] != "seq" or not plain(v[1]) or n[0] != "c" or n[1] <= 0:
        return None
    xs = [("seq", v[1][i:i + n[1]]) for i in range(0, len(v[1]), n[1])]
    if path.endswith("exact"):
        xs = [x for x in xs if len(x[1]) == n[1]]
    return ("iter", tuple(xs), 0)

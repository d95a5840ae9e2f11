"""The Cranelift builder interface as an effect signature: what a code generator asks Cranelift to build is recorded and read back as
functions made of blocks and instructions."""
import re
from .models import C, S, T, UNIT, ok, chase, mk_seq
from . import models

PTR = C(0x77)
FB = re.compile(r"(?:^|::)FunctionBuilder(?:::<.*?>)?::(\w+)$")
IB = re.compile(r"(?:^|::)InstBuilder(?:::<.*?>)?::(\w+)$")
VALUELESS = {"jump", "brif", "return_", "trap", "store", "return_call", "return_call_indirect", "br_table"}


def fresh(st, kind):
    n = sum(1 for e in st.event_list() if e[0] == "cl") if False else 0
    e, n = st.events, 0
    while e:
        if e[0][0] == "cl":
            n = e[0][1] + 1
            break
        e = e[1]
    return n


def log(st, *x):
    n = fresh(st, None)
    st.event("cl", n, *x)
    return n


def of_fn(v):
    """The function a builder, instruction position or function reference belongs to."""
    while v[0] == "t" and v[1] != "clfn" and len(v) > 2:
        v = v[2]
    return v


def sig_of(v):
    """Signature value -> (params, returns, cc)"""
    if v[0] == "adt" and len(v[3]) == 3:
        return v[3]
    return None


def parts(v):
    return v[1] if v is not None and v[0] == "seq" else None


def cl_events(st):
    return [e for e in st.event_list() if e[0] == "cl"]


def fn_sig(st, f):
    for e in cl_events(st):
        if e[2] == "function" and e[3] == f:
            return e[5]


def fid_sig(st, fid):
    for e in cl_events(st):
        if e[2] == "declare" and e[3] == fid:
            return e[6]


def m_sig_new(eng, st, fr, args, targs, path, t):
    return ("adt", "cranelift::Signature", "Signature", (("seq", ()), ("seq", ()), eng.freeze(st, args[0])), ("params", "returns", "call_conv"))


def m_abi(eng, st, fr, args, targs, path, t):
    return ("adt", "cranelift::AbiParam", "AbiParam", (eng.freeze(st, args[0]),), ("value_type",))


def m_fn(eng, st, fr, args, targs, path, t):
    f = T("clfn", C(fresh(st, None)))
    log(st, "function", f, eng.freeze(st, args[0]), eng.freeze(st, args[1]))
    return f


def builder(eng, st, name, args):
    a = [eng.freeze(st, x) for x in args]
    if name == "new":
        return T("clbuilder", of_fn(a[0]))
    f = of_fn(a[0])
    if name == "create_block":
        b = T("clblock", f, C(fresh(st, None)))
        log(st, "block", f, b)
        return b
    if name == "append_block_params_for_function_params":
        s = sig_of(fn_sig(st, f) or ("", ))
        if s is None or parts(s[0]) is None:
            return None
        for p in parts(s[0]):
            log(st, "param", f, a[1], p[3][0] if p[0] == "adt" else p)
        return UNIT
    if name == "append_block_param":
        n = sum(1 for e in cl_events(st) if e[2] == "param" and e[4] == a[1])
        log(st, "param", f, a[1], a[2])
        return T("clparam", a[1], C(n))
    if name == "block_params":
        n = sum(1 for e in cl_events(st) if e[2] == "param" and e[4] == a[1])
        return ("seq", tuple(T("clparam", a[1], C(i)) for i in range(n)))
    if name in ("switch_to_block", "insert_block"):
        log(st, "switch", f, a[1])
        return UNIT
    if name == "ins":
        return T("clins", f)
    if name in ("seal_all_blocks", "finalize", "seal_block", "ensure_inserted_block"):
        log(st, name, f)
        return UNIT
    if name == "import_signature":
        return T("clsigref", a[1])
    if name == "inst_results":
        i = a[1]
        if i[0] == "t" and i[1] == "clinst":
            s = sig_of(i[3])
            if s is not None and parts(s[1]) is not None:
                return ("seq", tuple(T("clres", i[2], C(k)) for k in range(len(parts(s[1])))))
        return None
    if name == "current_block":
        return None
    return None


def inst(eng, st, name, args):
    a = tuple(eng.freeze(st, x) for x in args)
    f = of_fn(a[0])
    n = log(st, "inst", f, name, a[1:])
    if name in ("call", "return_call"):
        r = a[1]
        sig = fid_sig(st, r[2]) if r[0] == "t" and r[1] == "clfref" else None
        return T("clinst", C(n), sig or T("nosig"))
    if name in ("call_indirect", "return_call_indirect"):
        r = a[1]
        return T("clinst", C(n), r[2] if r[0] == "t" and r[1] == "clsigref" else T("nosig"))
    if name in VALUELESS:
        return T("clinst", C(n), T("nosig"))
    return T("clv", C(n))


MODULE = {}


def mod(name):
    def d(f):
        MODULE[name] = f
        return f
    return d


@mod("declare_function")
def _(eng, st, a):
    fid = T("clfid", C(fresh(st, None)))
    log(st, "declare", fid, a[1], a[2], a[3])
    return ok(fid)


@mod("declare_func_in_func")
def _(eng, st, a):
    return T("clfref", a[1])


@mod("declare_data")
def _(eng, st, a):
    d = T("cldid", C(fresh(st, None)))
    log(st, "data", d, a[1], a[2], a[3], a[4])
    return ok(d)


@mod("declare_data_in_func")
def _(eng, st, a):
    return T("clgv", a[1])


@mod("declare_func_in_data")
def _(eng, st, a):
    return T("clfrd", a[1])


@mod("define_data")
def _(eng, st, a):
    log(st, "define_data", a[1], a[2])
    return ok(UNIT)


@mod("define_function")
def _(eng, st, a):
    log(st, "define", a[1], a[2])
    return ok(UNIT)


@mod("target_config")
def _(eng, st, a):
    return T("cltarget")


@mod("finish")
def _(eng, st, a):
    return T("clproduct")


def hook(eng, st, fr, path, key, args, targs, t):
    """Engine hook for calls without a body. -> None | value"""
    m = FB.search(key)
    if m:
        return builder(eng, st, m[1], args)
    m = IB.search(key)
    if m:
        return inst(eng, st, m[1], args)
    if "cranelift" not in key and "target_lexicon" not in key:
        return None
    last = key.split("::")[-1]
    if key.endswith("Signature::new"):
        return m_sig_new(eng, st, fr, args, targs, path, t)
    if key.endswith("AbiParam::new"):
        return m_abi(eng, st, fr, args, targs, path, t)
    if last == "with_name_signature":
        return m_fn(eng, st, fr, args, targs, path, t)
    if last == "for_function":
        return T("clctx", eng.freeze(st, args[0]))
    if last in ("pointer_type",):
        return PTR
    if last == "bytes" and "Type" in key:
        v = eng.freeze(st, args[0])
        if v[0] == "c":
            return C({0x74: 1, 0x75: 2, 0x76: 4, 0x77: 8, 0x7a: 4, 0x7b: 8}.get(v[1], 0))
    if "DataDescription::" in key:
        a = [eng.freeze(st, x) for x in args]
        if last == "new":
            d = T("cldesc", C(fresh(st, None)))
            log(st, "desc", d)
            return d
        log(st, "desc." + last, *a)
        return UNIT
    if last in MODULE and ("Module" in key or "Object" in key):
        return MODULE[last](eng, st, [eng.freeze(st, x) for x in args])
    if last == "emit" and "Object" in key or key.endswith("ObjectProduct::emit"):
        return ok(T("clbytes"))
    if key.endswith("ObjectBuilder::new"):
        return ok(T("clobjbuilder"))
    if last == "default_call_conv":
        return T("clcc")
    return None


class Func:
    """One function as built: blocks in creation order, params, instructions per block."""

    def __init__(self, f, name, sig):
        self.f, self.name, self.sig, self.blocks, self.params, self.code, self.cur, self.fid, self.sealed = f, name, sig, [], {}, {}, None, None, False


def read(events):
    """events of a path -> (functions by clfn, declarations by fid, data)"""
    fns, decl, data, desc, defd = {}, {}, {}, {}, []
    for e in events:
        if e[0] != "cl":
            continue
        k = e[2]
        if k == "function":
            fns[e[3]] = Func(e[3], e[4], e[5])
        elif k == "declare":
            decl[e[3]] = (e[4], e[5], e[6])
        elif k == "data":
            data[e[3]] = [e[4], e[5], None]
        elif k == "desc":
            desc[e[3]] = []
        elif k.startswith("desc."):
            desc.setdefault(e[3], []).append((k[5:],) + tuple(e[4:]))
        elif k == "define_data":
            data.setdefault(e[3], [None, None, None])[2] = e[4]
        elif k == "define":
            c = e[4]
            f = of_fn(c)
            if f in fns:
                fns[f].fid = e[3]
            defd.append((e[3], f))
        else:
            f = fns.get(e[3])
            if f is None:
                continue
            if k == "block":
                f.blocks.append(e[4])
                f.params[e[4]] = []
                f.code[e[4]] = []
            elif k == "param":
                f.params[e[4]].append(e[5])
            elif k == "switch":
                f.cur = e[4]
            elif k == "inst":
                f.code.setdefault(f.cur, []).append((e[1], e[4], e[5]))
    return fns, decl, data, desc, defd


# ---- executions ------------------------------------------------------------------------------------------------------------------
from .irtrace import Bad, Unclear, Need, Stop          # noqa: E402
from .clifmem import type_of                           # noqa: E402

CODE = {"i1": 0x74, "i8": 0x74, "i16": 0x75, "i32": 0x76, "i64": 0x77, "f32": 0x7a, "f64": 0x7b, "ptr": 0x77}
ICC = {"eq": "Equal", "ne": "NotEqual", "slt": "SignedLessThan", "sle": "SignedLessThanOrEqual",
       "sgt": "SignedGreaterThan", "sge": "SignedGreaterThanOrEqual", "ult": "UnsignedLessThan",
       "ule": "UnsignedLessThanOrEqual", "ugt": "UnsignedGreaterThan", "uge": "UnsignedGreaterThanOrEqual"}
SWAP = {"Equal": "Equal", "NotEqual": "NotEqual"}
for _a, _b in (("LessThan", "GreaterThan"), ("LessThanOrEqual", "GreaterThanOrEqual")):
    for _p in ("Signed", "Unsigned"):
        SWAP[_p + _a], SWAP[_p + _b] = _p + _b, _p + _a
RMW = {k: k.capitalize() for k in ("add", "sub", "and", "or", "xor", "nand", "xchg", "umin", "umax", "smin", "smax")}
CONVS = {"ireduce", "uextend", "sextend", "fpromote", "fdemote", "fcvt_to_sint", "fcvt_from_sint", "fcvt_to_uint", "fcvt_from_uint"}
BINS = {"iadd", "isub", "imul", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv", "band", "bor", "bxor", "ishl", "sshr", "ushr"}
TRAPS = {"sdiv", "udiv", "srem", "urem", "fcvt_to_sint", "fcvt_to_uint"}
COMM = {"iadd", "imul", "fadd", "fmul", "band", "bor", "bxor"}


def is_nil(t):
    return t is not None and t[0] == "ty" and t[1] == S("core") and t[2] == S("nil")


def code(t):
    if t is not None and t[0] == "ty" and t[1] == S("core") and t[2][1] in CODE:
        return CODE[t[2][1]]
    raise Unclear("type")


def want_sig(ft, cps, tail=False):
    """core.func type -> (param codes, return codes, calling convention)"""
    ts = ft[3][1]
    ps = tuple(code(x) for x in ts[1:] if not is_nil(x))
    rs = () if is_nil(ts[0]) else (code(ts[0]),)
    return ps, rs, "Tail" if tail or (cps and is_nil(ts[0])) else "default"


def got_sig(s):
    s = sig_of(s)
    if s is None or parts(s[0]) is None or parts(s[1]) is None:
        raise Unclear("signature")

    def ts(x):
        out = []
        for p in parts(x):
            p = p[3][0] if p[0] == "adt" else p
            if p[0] != "c":
                raise Unclear("signature type")
            out.append(p[1])
        return tuple(out)
    cc = s[2]
    cc = "default" if cc == T("clcc") else cc[2] if cc[0] == "adt" else str(cc)
    return ts(s[0]), ts(s[1]), cc


class Exec:
    """Shared by both sides: constants are folded only for addresses; everything that can be observed goes into the trace."""

    def __init__(self, choices, maxsteps=300):
        self.choices, self.used, self.facts, self.trace, self.left = choices, 0, {}, [], maxsteps

    def choose(self, key):
        if key[0] == "int":
            return key[1] != 0
        neg = False
        while key[0] == "cmp" and key[3:] and key[1] in ("NotEqual", "Equal"):
            a, b = key[2], key[3]
            if a[0] == "int":
                a, b = b, a
            if a == b:
                return (key[1] == "Equal") != neg
            if a[0] == "int" and b[0] == "int":
                return ((a[1] == b[1]) == (key[1] == "Equal")) != neg
            if key[1] == "NotEqual":
                key, neg = ("cmp", "Equal", a, b), not neg
            else:
                key = ("cmp", "Equal") + tuple(sorted((a, b), key=repr))
                break
        if key not in self.facts:
            if self.used >= len(self.choices):
                raise Need(key, (True, False))
            self.facts[key] = self.choices[self.used]
            self.used += 1
        return self.facts[key] != neg

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Stop()

    def ev(self, *e):
        self.trace.append(e)
        return len(self.trace) - 1

    def pure(self, nm, a, ty=None):
        if nm in ("iadd", "isub") and a[1][0] == "int" and a[0][0] != "int":
            return self.off(a[0], a[1][1] if nm == "iadd" else -a[1][1])
        if nm == "iadd" and a[0][0] == "int" and a[1][0] != "int":
            return self.off(a[1], a[0][1])
        if nm in COMM:
            a = sorted(a, key=repr)
        v = (nm, ty) + tuple(a)
        if nm in TRAPS:
            self.ev("may trap", v)
        return v

    def off(self, x, k):
        if x[0] == "off":
            x, k = x[1], x[2] + k
        return ("off", x, k) if k else x


class Src(Exec):
    """A clif function of the IR."""

    def __init__(self, v, choices, sigs=None):
        super().__init__(choices)
        self.v, self.sigs = v, sigs or {}

    def attr(self, o, k):
        a = self.v.field("Op", o, "attributes")
        if a is None or a[0] != "map":
            raise Unclear("attributes")
        return next((x for kk, x in a[1] if kk == S(k)), None)

    def pay(self, o, k):
        a = self.attr(o, k)
        if a is None:
            return None
        return a[3][0][1] if a[3][0][0] in ("s", "c") else a[3][0]

    def run(self, func):
        v = self.v
        rs = v.seq(v.field("Op", func, "regions"))
        bs = v.seq(v.field("Region", rs[0], "blocks"))
        env, k = {}, 0
        for p in v.bargs(bs[0]):
            if is_nil(type_of(v, p)):
                env[p] = ("nil",)
            else:
                env[p] = ("arg", k)
                k += 1
        b = bs[0]
        while True:
            nxt = None
            for o in v.ops(b):
                self.tick()
                nxt = self.op(o, env)
                if nxt is not None:
                    break
            if nxt is None:
                raise Bad("the shape has an open block")
            if nxt[0] != "goto":
                return nxt
            b = nxt[1]
            env.update(zip(v.bargs(b), nxt[2]))

    def op(self, o, env):
        v = self.v
        nm = v.opname(o)[5:]
        xs = v.operands(o)
        a = [env[x] for x in xs]
        rs = v.results(o)
        rt = [type_of(v, r) for r in rs]
        succ = v.seq(v.field("Op", o, "successors")) or []
        run = tuple(x for x, y in zip(a, xs) if not is_nil(type_of(v, y)))
        val = None
        if nm == "iconst":
            val = ("int", self.pay(o, "value")) if not is_nil(rt[0]) else ("nil",)
        elif nm in BINS or nm in ("ineg", "fneg"):
            val = self.pure(nm, a)
        elif nm in CONVS:
            val = self.pure(nm, a, code(rt[0]))
        elif nm == "icmp":
            val = ("cmp", ICC[self.pay(o, "cond")], a[0], a[1])
        elif nm == "load":
            if is_nil(rt[0]):
                val = ("nil",)
            else:
                val = ("read", self.ev("load", self.off(a[0], self.pay(o, "offset")), code(rt[0])))
        elif nm == "store":
            if not is_nil(type_of(v, xs[0])):
                self.ev("store", a[0], self.off(a[1], self.pay(o, "offset")))
        elif nm == "atomic_rmw":
            val = ("read", self.ev("rmw", RMW[self.pay(o, "op")], code(rt[0]), self.off(a[0], self.pay(o, "offset")), a[1]))
        elif nm == "symbol_addr":
            val = ("addr", self.pay(o, "sym"))
        elif nm in ("call", "return_call"):
            n = self.ev(nm, self.pay(o, "callee"), run)
            val = ("res", n) if rs and not is_nil(rt[0]) else ("nil",)
            if nm == "return_call":
                return ("left",)
        elif nm in ("call_indirect", "return_call_indirect"):
            cps = self.pay(o, "tribute.calling_convention") == 2
            n = self.ev(nm, a[0], want_sig(self.pay(o, "sig"), cps, nm.startswith("return")), run[1:])
            val = ("res", n) if rs and not is_nil(rt[0]) else ("nil",)
            if nm.startswith("return"):
                return ("left",)
        elif nm == "jump":
            return ("goto", succ[0], a)
        elif nm == "brif":
            return ("goto", succ[0] if self.choose(a[0]) else succ[1], [])
        elif nm == "return":
            self.ev("return", run)
            return ("left",)
        elif nm == "trap":
            self.ev("trap")
            return ("left",)
        else:
            raise Unclear("clif." + nm)
        if rs:
            env[rs[0]] = val
        return None


class Gen(Exec):
    """A function handed to Cranelift."""

    def __init__(self, f, name_of_fid, name_of_did, choices):
        super().__init__(choices)
        self.f, self.fid, self.did = f, name_of_fid, name_of_did

    def run(self):
        f = self.f
        if not f.blocks:
            raise Bad("the generated function has no blocks")
        b = f.blocks[0]
        env = {T("clparam", b, C(i)): ("arg", i) for i in range(len(f.params[b]))}
        self.env = env
        while True:
            nxt = None
            for k, (n, nm, a) in enumerate(f.code.get(b) or ()):
                self.tick()
                nxt = self.inst(n, nm, a)
                if nxt is not None:
                    if k != len(f.code[b]) - 1:
                        raise Bad(f"{nm} is followed by {f.code[b][k + 1][1]} in its block")
                    break
            if nxt is None:
                raise Bad("a generated block has no terminator")
            if nxt[0] != "goto":
                return nxt
            b = nxt[1]
            if b not in f.code:
                raise Bad("a branch to a block of another function")
            ps = f.params[b]
            if len(ps) != len(nxt[2]):
                raise Bad(f"a branch passes {len(nxt[2])} values to a block with {len(ps)} parameters")
            for i, x in enumerate(nxt[2]):
                env[T("clparam", b, C(i))] = x

    def get(self, x):
        if x[0] == "t" and x[1].endswith("BlockArg::from") or x[0] == "t" and x[1].endswith("convert::From::from"):
            x = x[-1]
        if x[0] == "adt" and x[2] == "Value" and len(x[3]) == 1:
            x = x[3][0]
        if x in self.env:
            return self.env[x]
        if x[0] == "t" and x[1] in ("clv", "clres", "clparam"):
            raise Bad("a value is used where it is not defined")
        raise Unclear("value " + str(x)[:60])

    def many(self, s):
        if s[0] == "seq":
            return tuple(self.get(x) for x in s[1])
        raise Unclear("argument list")

    def imm(self, x):
        if x[0] == "adt" and len(x[3]) == 1:
            x = x[3][0]
        while x[0] == "t" and len(x) > 2 and re.search(r"(::(from|into|new)|cast\w*)$", x[1]):
            x = x[-1]
        if x[0] == "c":
            return x[1]
        raise Unclear("immediate " + str(x)[:60])

    def bind(self, n, v):
        self.env[T("clv", C(n))] = v

    def inst(self, n, nm, a):
        if nm == "iconst":
            self.bind(n, ("int", self.imm(a[1])))
        elif nm in BINS:
            self.bind(n, self.pure(nm, [self.get(a[0]), self.get(a[1])]))
        elif nm in ("ineg", "fneg"):
            self.bind(n, self.pure(nm, [self.get(a[0])]))
        elif nm.endswith("_imm") and nm[:-4] in BINS:
            self.bind(n, self.pure(nm[:-4], [self.get(a[0]), ("int", self.imm(a[1]))]))
        elif nm in CONVS:
            self.bind(n, self.pure(nm, [self.get(a[1])], self.imm(a[0])))
        elif nm == "icmp":
            if a[0][0] != "adt":
                raise Unclear("condition")
            self.bind(n, ("cmp", a[0][2], self.get(a[1]), self.get(a[2])))
        elif nm == "icmp_imm":
            self.bind(n, ("cmp", a[0][2], self.get(a[1]), ("int", self.imm(a[2]))))
        elif nm == "load":
            self.bind(n, ("read", self.ev("load", self.off(self.get(a[2]), self.imm(a[3])), self.imm(a[0]))))
        elif nm == "store":
            self.ev("store", self.get(a[1]), self.off(self.get(a[2]), self.imm(a[3])))
        elif nm == "atomic_rmw":
            self.bind(n, ("read", self.ev("rmw", a[2][2] if a[2][0] == "adt" else a[2], self.imm(a[0]), self.get(a[3]), self.get(a[4]))))
        elif nm == "func_addr":
            self.bind(n, ("addr", self.func(a[1])))
        elif nm in ("global_value", "symbol_value"):
            g = a[1]
            if g[0] == "t" and g[1] == "clgv" and g[2] in self.did:
                self.bind(n, ("addr", self.did[g[2]]))
            else:
                raise Unclear("data reference")
        elif nm in ("call", "return_call"):
            k = self.ev(nm, self.func(a[0]), self.many(a[1]))
            self.env[T("clres", C(n), C(0))] = ("res", k)
            if nm == "return_call":
                return ("left",)
        elif nm in ("call_indirect", "return_call_indirect"):
            if a[0][0] != "t" or a[0][1] != "clsigref":
                raise Unclear("call signature")
            k = self.ev(nm, self.get(a[1]), got_sig(a[0][2]), self.many(a[2]))
            self.env[T("clres", C(n), C(0))] = ("res", k)
            if nm.startswith("return"):
                return ("left",)
        elif nm == "jump":
            return ("goto", a[0], self.many(a[1]))
        elif nm == "brif":
            c = self.choose(self.get(a[0]))
            return ("goto", a[1], self.many(a[2])) if c else ("goto", a[3], self.many(a[4]))
        elif nm == "return_":
            self.ev("return", self.many(a[0]))
            return ("left",)
        elif nm == "trap":
            self.ev("trap")
            return ("left",)
        else:
            raise Unclear("instruction " + nm)
        return None

    def func(self, r):
        if r[0] == "t" and r[1] == "clfref" and r[2] in self.fid:
            return self.fid[r[2]]
        raise Unclear("function reference")


def runs(mk, go, budget=6):
    """[(exec, choices)] for every outcome of up to `budget` undetermined branches"""
    out, todo = [], [()]
    while todo:
        ch = todo.pop()
        x = mk(ch)
        try:
            go(x)
        except Need:
            if len(ch) < budget:
                todo += [ch + (False,), ch + (True,)]
            continue
        except Stop:
            x.trace = x.trace[:20]
            x.cut = True
        out.append(x)
    return out


def same(src, gen):
    """Do the two executions agree under the same outcomes? src: facts -> trace"""
    return src == gen

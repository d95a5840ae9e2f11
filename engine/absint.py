"""Path-partitioned abstract interpretation of MIR in a value-provenance domain.

Abstract values are hash-consed tuples that say where a value comes from:
  ('c',n) ('s',text) ('fl',text)  constants (Symbols and strings share 's')
  ('fn',path,targs) ('clo',path,upvals)      functions, closures
  ('adt',path,variant,vals,names) ('tup',vals) ('seq',parts)
  ('ref',loc,proj)                            reference to an abstract memory cell
  ('op',uid,name,operands,attrs,restys,regions,succs), ('blk',uid,argtys), ('region',uid,blocks)
  ('t',name,*args)                            an unknown value with its origin
Branch conditions on unknown values are recorded as facts and never solved: the only
reasoning is lookup of the same fact, equality with constants and enum variants.  Loops over unknown
collections are collapsed to one abstract iteration over ('t','elem',S)."""
import re
import sys
import time
from . import models

sys.setrecursionlimit(20000)

UNINIT = ("uninit",)
UNIT = ("tup", ())


class Budget(Exception):
    pass


class Definite(Budget):
    """Not a limit of the analysis: the code analysed fails here, on its only path."""


def C(n):
    return ("c", n)


def S(x):
    return ("s", x)


def T(name, *args):
    return ("t", name) + args


TRUE, FALSE = C(1), C(0)
NONE = ("adt", "core::option::Option", "None", (), ())


def some(v):
    return ("adt", "core::option::Option", "Some", (v,), ("0",))


def ok(v):
    return ("adt", "core::result::Result", "Ok", (v,), ("0",))


def err(v):
    return ("adt", "core::result::Result", "Err", (v,), ("0",))


def seq(*parts):
    return ("seq", tuple(parts))


def is_const(v):
    return v[0] in ("c", "s", "fl", "ent") or (v[0] == "adt" and all(is_const(x) for x in v[3])) or \
        (v[0] == "tup" and all(is_const(x) for x in v[1]))


_norm_cache = {}


def norm(path):
    """Canonical key of a callee path: generic arguments dropped, `<A as Tr>::m` -> `Tr::m`."""
    r = _norm_cache.get(path)
    if r is None:
        r = _norm_cache[path] = _norm(path)
    return r


def _match(s, i):
    d = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(s) - 1


def _split_top(s, sep):
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in "<([":
            d += 1
        elif (c == ">" and s[i - 1] != "-") or c in ")]":
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return s, None


def _norm(p):
    if p.startswith("<"):
        e = _match(p, 0)
        inner, rest = p[1:e], p[e + 1:]
        a, b = _split_top(inner, " as ")
        return _norm(b if b else a) + _norm_rest(rest)
    return _norm_rest(p)


def _norm_rest(p):
    out, i = "", 0
    while i < len(p):
        if p[i] == "<":
            e = _match(p, i)
            inner = p[i + 1:e]
            if inner.startswith("impl "):
                a, b = _split_top(inner[5:], " for ")
                if b is not None:
                    out = _norm(a)
                elif out.endswith("::"):
                    out = out[:-2]
            elif out.endswith("::"):
                out = out[:-2]
            i = e + 1
            continue
        out += p[i]
        i += 1
    return out.strip(":") if out.endswith("::") else out


class State:
    __slots__ = ("store", "facts", "eqs", "vars", "conds", "events", "loopctx", "tags")

    def __init__(self):
        self.store, self.facts, self.eqs, self.vars = {}, {}, {}, {}
        self.conds, self.events, self.loopctx = (), (), ()
        self.tags = ()

    def fork(self):
        s = State.__new__(State)
        s.store, s.facts, s.eqs, s.vars = dict(self.store), dict(self.facts), dict(self.eqs), dict(self.vars)
        s.conds, s.events, s.loopctx = self.conds, self.events, self.loopctx
        s.tags = self.tags
        return s

    def event(self, *e):
        self.events = (e, self.events)

    def cond(self, *c):
        self.conds = (c, self.conds)

    def event_list(self):
        r, e = [], self.events
        while e:
            r.append(e[0])
            e = e[1]
        return r[::-1]

    def cond_list(self):
        r, e = [], self.conds
        while e:
            r.append(e[0])
            e = e[1]
        return r[::-1]


class PathResult:
    __slots__ = ("ret", "conds", "events", "eqs", "vars", "facts", "st", "end")

    def __init__(self, eng, st, ret, end="ret"):
        self.end = end
        self.ret = eng.freeze(st, ret) if ret is not None else None
        self.conds, self.events = st.cond_list(), st.event_list()
        self.eqs, self.vars, self.facts, self.st = st.eqs, st.vars, st.facts, st

    def __repr__(self):
        return f"Path({self.end} ret={show(self.ret)}; conds={[show_cond(c) for c in self.conds]}; events={[show(e) for e in self.events]})"


def show(v, d=0):
    if v is None:
        return "None"
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    k = v[0]
    if k == "c":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "fl":
        return v[1] + "f"
    if k == "t":
        n = v[1].split("::")[-1] if "::" in v[1] else v[1]
        if len(v) == 2:
            return n
        return n + "(" + ", ".join(show(x, d + 1) for x in v[2:]) + ")"
    if k == "adt":
        return v[2] + ("(" + ", ".join(show(x, d + 1) for x in v[3]) + ")" if v[3] else "")
    if k == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in v[1]) + ")"
    if k == "seq":
        return "[" + ", ".join(show(x, d + 1) for x in v[1]) + "]"
    if k == "each":
        return "each<" + show(v[1]) + ">" + show(v[2])
    if k == "spread":
        return "*" + show(v[1])
    if k == "op":
        a = ",".join(f"{x}={show(y)}" for x, y in v[4])
        return f"{v[2]}#{v[1]}({','.join(show(x) for x in v[3])}){{{a}}}:{','.join(show(x) for x in v[5])}" + \
            (f" rg={show(('seq', v[6]))}" if v[6] else "") + (f" succ={show(('seq', v[7]))}" if v[7] else "")
    if k == "ent":
        return "%" + v[2]
    if k == "res":
        return show(v[1]) + f".r{v[2]}"
    return "<" + " ".join(show(x, d + 1) for x in v) + ">"


def show_cond(c):
    return f"{c[0]}:{show(c[1])}={c[2] if not isinstance(c[2], tuple) else show(c[2])}"


class Engine:
    def __init__(self, prog, inline=None, opaque=None, max_paths=4000, max_steps=400000, zero_iter=False,
                 max_depth=14, extra_models=None, apply_hook=None, max_rec=1, ext_hook=None, max_visits=70):
        self.ext_hook = ext_hook
        self.prog = prog
        self.opaque = [re.compile(x) for x in (opaque or [])]
        self.inline_only = [re.compile(x) for x in inline] if inline else None
        self.max_paths, self.max_steps, self.zero_iter, self.max_depth = max_paths, max_steps, zero_iter, max_depth
        self.steps = 0
        self.uid = 0
        self.frame_ctr = 0
        self.models = dict(models.MODELS)
        self.models.update(extra_models or {})
        self.visited_fns = set()
        self.uninterp = set()
        self._inl_cache = {}
        self.callstack = []
        self.shapes = {}
        self.apply_hook, self.max_rec, self.max_visits = apply_hook, max_rec, max_visits
        self.seeds = {}
        self.registry = None
        self.deadline = None

    def fresh(self):
        self.uid += 1
        return self.uid

    def seed(self, t):
        """The dataflow fact assumed for a source term (attribute, type data, definition), if any."""
        return self.seeds.get(t, t) if self.seeds else t

    # ---- memory ---------------------------------------------------------------------------
    def alloc(self, st, v):
        loc = ("h", self.fresh())
        st.store[loc] = v
        return loc

    def ref_to(self, st, v):
        return ("ref", self.alloc(st, v), ())

    def freeze(self, st, v, depth=0):
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k in ("c", "s", "fl", "fn", "uninit", "ent", "arena"):
            return v
        if depth > 60:
            return ("t", "deep")
        if k == "ref":
            return self.freeze(st, self.load(st, v[1], v[2]), depth + 1)
        if k == "t" and len(v) == 2:
            return v
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = self.freeze(st, x, depth + 1)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v

    def deref(self, st, v):
        """Value behind a (chain of) reference(s)."""
        while isinstance(v, tuple) and v and v[0] == "ref":
            v = self.load(st, v[1], v[2])
        return v

    def deref1(self, st, v):
        if v[0] == "ref":
            return self.load(st, v[1], v[2])
        return v

    def load(self, st, loc, proj):
        v = st.store.get(loc, UNINIT)
        for p in proj:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        while v[0] == "ref":          # transparent boxes / smart pointers
            v = self.load(st, v[1], v[2])
        k = p[0]
        if k == "d":
            if v[0] == "adt":
                return v
            if v[0] == "t" and v[1] == "as" and len(v) == 4:
                return v
            return T("as", v, S(p[1]))
        if k == "f":
            idx, name = p[1], p[2]
            if v[0] == "adt":
                if name in v[4]:
                    return v[3][v[4].index(name)]
                return T("field", v, S(name))
            if v[0] == "tup":
                if idx < len(v[1]):
                    return v[1][idx]
                return T("field", v, S(name))
            if v[0] == "clo":
                return v[2][idx] if idx < len(v[2]) else T("field", v, S(name))
            if v[0] == "upd":
                for n, x in v[2]:
                    if n == name:
                        return x
                return self.project(st, v[1], p)
            if v[0] == "t" and v[1] == "as" and len(v) == 4:
                return self.mk_as(st, v[2], v[3][1], name)
            if v[0] in ("op", "blk", "region", "seq", "s", "c", "map"):
                if name in ("0", "pointer"):
                    return v
                return T("field", v, S(name))
            if v[0] == "t" and v[1] == "opdata":
                return models.opfield(self, v[2], name)
            if v[0] == "ty":
                return v
            if name == "pointer":
                return v
            return self.seed(T("field", v, S(name)))
        if k in ("i", "ci"):
            i = p[1]
            if k == "ci":
                if v[0] == "seq" and all(x[0] not in ("each", "spread") for x in v[1]):
                    j = len(v[1]) - i if p[2] else i
                    if 0 <= j < len(v[1]):
                        return v[1][j]
                if p[2]:
                    return T("index_end", v, C(i))
                return self.index(st, v, C(i))
            return self.index(st, v, i)
        if k == "sub":
            if v[0] == "seq" and all(x[0] not in ("each", "spread") for x in v[1]):
                e = len(v[1]) - p[2] if p[3] else p[2]
                return ("seq", v[1][p[1]:e])
            if p[1] == 0 and p[2] == 0 and p[3]:
                return v
            return T("subslice", v, C(p[1]), C(p[2]), C(int(p[3])))
        return v

    def index(self, st, v, i):
        if v[0] == "seq" and i[0] == "c":
            n = 0
            for x in v[1]:
                if x[0] in ("each", "spread"):
                    break
                if n == i[1]:
                    return x
                n += 1
        if v[0] == "t" and v[1] == "subslice" and i[0] == "c" and v[3][0] == "c":
            return self.index(st, v[2], C(i[1] + v[3][1]))
        if v[0] == "t" and v[1] == "op_results" and i[0] == "c":
            return ("res", v[2], i[1])
        return T("index", v, i)

    def mk_as(self, st, x, variant, field):
        if x[0] == "adt" and x[2] == variant and field in x[4]:
            return x[3][x[4].index(field)]
        if x[0] == "t" and variant in ("Some", "Ok") and field == "0":
            if x[1] == "slice_first":
                return self.index(st, x[2], C(0))
            if x[1] == "slice_get":
                return self.index(st, x[2], x[3])
            if x[1] == "slice_last":
                return T("last", x[2])
        return T("as", x, S(variant), S(field))

    def store_to(self, st, loc, proj, val):
        if not proj:
            st.store[loc] = val
            return
        st.store[loc] = self.update(st, st.store.get(loc, UNINIT), proj, val)

    def update(self, st, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        if v[0] == "ref":
            self.store_to(st, v[1], v[2] + proj, val)
            return v
        if p[0] == "d":
            return self.update(st, v, proj[1:], val)
        if p[0] == "f":
            idx, name = p[1], p[2]
            if v[0] == "adt" and name in v[4]:
                i = v[4].index(name)
                vals = list(v[3])
                vals[i] = self.update(st, vals[i], proj[1:], val)
                return ("adt", v[1], v[2], tuple(vals), v[4])
            if v[0] == "tup" and idx < len(v[1]):
                vals = list(v[1])
                vals[idx] = self.update(st, vals[idx], proj[1:], val)
                return ("tup", tuple(vals))
            if v[0] == "clo" and idx < len(v[2]):
                vals = list(v[2])
                vals[idx] = self.update(st, vals[idx], proj[1:], val)
                return ("clo", v[1], tuple(vals))
            old = self.project(st, v, p)
            new = self.update(st, old, proj[1:], val)
            if v[0] == "upd":
                d = tuple((n, x) for n, x in v[2] if n != name) + ((name, new),)
                return ("upd", v[1], d)
            if v[0] == "t":
                st.event("write", self.freeze(st, v), S(name), self.freeze(st, new))
            return ("upd", v, ((name, new),))
        if p[0] in ("i", "ci"):
            i = C(p[1]) if p[0] == "ci" else p[1]
            if p[0] == "ci" and p[2]:
                if v[0] != "seq" or any(x[0] in ("each", "spread") for x in v[1]):
                    return T("upd?", v)
                i = C(len(v[1]) - p[1])
            if v[0] == "seq" and i[0] == "c" and i[1] < len(v[1]) and all(
                    x[0] not in ("each", "spread") for x in v[1][:i[1] + 1]):
                vals = list(v[1])
                vals[i[1]] = self.update(st, vals[i[1]], proj[1:], val)
                return ("seq", tuple(vals))
            old = self.index(st, v, i)
            new = self.update(st, old, proj[1:], val)
            st.event("write_idx", self.freeze(st, v), self.freeze(st, i), self.freeze(st, new))
            return T("upd_idx", self.freeze(st, v), self.freeze(st, i), self.freeze(st, new))
        if p[0] == "sub" and v[0] == "seq" and all(x[0] not in ("each", "spread") for x in v[1]):
            e = len(v[1]) - p[2] if p[3] else p[2]
            new = self.update(st, ("seq", v[1][p[1]:e]), proj[1:], val)
            if new[0] == "seq":
                return ("seq", v[1][:p[1]] + new[1] + v[1][e:])
        return T("upd?", v)

    # ---- places ---------------------------------------------------------------------------
    def addr(self, st, fr, place):
        """-> ('mem', loc, proj) or ('val', term, proj)"""
        base = ("mem", (fr.id, place[0]), ())
        for e in place[1]:
            if e == "*":
                v = self.read_addr(st, base)
                if v[0] == "ref":
                    base = ("mem", v[1], v[2])
                else:
                    base = ("val", v, ())
            elif e == "o":
                pass
            else:
                if e[0] == "f":
                    q = ("f", e[1], e[2])
                elif e[0] == "d":
                    q = ("d", e[2])
                elif e[0] == "i":
                    q = ("i", self.freeze(st, st.store.get((fr.id, e[1]), UNINIT)))
                elif e[0] == "ci":
                    q = ("ci", e[1], e[3])
                else:
                    q = ("sub", e[1], e[2], e[3])
                base = (base[0], base[1], base[2] + (q,))
        return base

    def read_addr(self, st, a):
        if a[0] == "mem":
            return self.load(st, a[1], a[2])
        v = a[1]
        for p in a[2]:
            v = self.project(st, v, p)
        return v

    def read_place(self, st, fr, place):
        return self.read_addr(st, self.addr(st, fr, place))

    def write_place(self, st, fr, place, val):
        a = self.addr(st, fr, place)
        if a[0] == "mem":
            self.store_to(st, a[1], a[2], val)
        else:
            # write through a pointer of unknown origin
            v = a[1]
            for p in a[2][:-1]:
                v = self.project(st, v, p)
            if a[2]:
                p = a[2][-1]
                nm = S(p[2]) if p[0] == "f" else (p[1] if p[0] == "i" else S(str(p)))
                st.event("write", self.freeze(st, v), self.freeze(st, nm), self.freeze(st, val))
            else:
                st.event("write", self.freeze(st, v), S("*"), self.freeze(st, val))

    # ---- operands / rvalues -----------------------------------------------------------------
    EXTERN_CONSTS = {}                  # constants of libraries: path -> value

    def const(self, st, fr, k):
        T_ = fr.fn.T
        if "str" in k:
            return S(k["str"])
        if "fnref" in k:
            f = k["fnref"]
            return ("fn", f.get("res") or f["fn"], self.targs(fr, f))
        if "flt" in k:
            return ("fl", k["flt"])
        ty = T_[k["ty"]] if "ty" in k else {"s": "", "k": ""}
        if "int" in k:
            if ty.get("k") == "adt":
                ad = self.prog.adts.get(ty.get("p"))
                if ad and ad["kind"] == "enum":
                    for nm, d, fs in ad["vars"]:
                        if d == k["int"] and not fs:
                            return ("adt", ty["p"], nm, (), ())
            return C(k["int"])
        if "promoted" in k:
            of = self.prog.fns.get(k["of"])
            if of is None or k["promoted"] >= len(of.promoted):
                of = fr.fn if fr.fn.promoted and k["promoted"] < len(fr.fn.promoted) else of
            if k["of"] == fr.fn.path and fr.fn.promoted:
                of = fr.fn
            if of is not None and k["promoted"] < len(of.promoted):
                v = self.eval_const_body(st, of.promoted[k["promoted"]], ("promoted", k["of"], k["promoted"]), fr)
                if v is not None:
                    return v
            return T("promoted", S(k["of"]), C(k["promoted"]))
        if "static" in k:
            return self.static_value(st, fr, k["static"])
        if "name" in k:
            nm = self.resolve_assoc_const(fr, k)
            b = self.prog.fns.get(nm)
            if b is not None:
                v = self.eval_const_body(st, b, ("const", nm), fr)
                if v is not None:
                    return v
            return self.EXTERN_CONSTS.get(nm) or T("const", S(nm))
        if "closure" in k:
            return ("clo", k["closure"], ())
        if "fnptr" in k:
            return ("fn", k["fnptr"], ())
        if "bytes" in k:
            return ("seq", tuple(C(b) for b in k["bytes"]))
        if ty["s"] == "()":
            return UNIT
        if k.get("tyconst", "").startswith('"'):
            import ast
            try:
                return S(ast.literal_eval(k["tyconst"]))
            except Exception:
                pass
        if "zst" in k:
            if ty.get("k") == "adt":
                ad = self.prog.adts.get(ty["p"])
                nm = ad["vars"][0][0] if ad and ad["vars"] else ty["p"]
                return ("adt", ty["p"], nm, (), ())
            return UNIT
        return T("const?", S(ty["s"]))

    def static_value(self, st, fr, nm):
        """Immutable lazily built tables are evaluated; anything with interior mutability stays opaque."""
        cache = self.prog.__dict__.setdefault("_statics" + ("R" if self.registry else ""), {})
        if nm not in cache:
            cache[nm] = None
            b = self.prog.fns.get(nm)
            if b is not None:
                ty = b.local_ty(0)["s"]
                if not re.search(r"Mutex|RwLock|Atomic|Cell<|Once", ty):
                    sub = Engine(self.prog, max_paths=4, max_steps=200000)
                    sub.registry = self.registry
                    try:
                        outs = sub.run_body(State(), b, [], {}, depth=1)
                        if len(outs) == 1:
                            v = sub.freeze(outs[0][0], outs[0][1])
                            if v[0] in ("map", "seq", "adt", "s", "c"):
                                cache[nm] = v
                    except (Budget, RecursionError):
                        pass
        v = cache[nm]
        return v if v is not None else T("static", S(nm))

    def resolve_assoc_const(self, fr, k):
        nm = k.get("res") or k["name"]
        if nm in self.prog.fns:
            return nm
        # <T as Trait>::CONST with T known in the type environment
        if k.get("ta"):
            t = self.subst_ty(fr, fr.fn.T[k["ta"][0]])
            it = self.prog.impls.get((k["name"], t))
            if it:
                return it
        return nm

    def eval_const_body(self, st, body, key, fr):
        sub = State()
        sub.store = st.store
        try:
            outs = self.run_body(sub, body, [], fr.tenv if fr else {}, depth=1)
        except RecursionError:
            return None
        if len(outs) != 1:
            return None
        s2, v = outs[0]
        st.store.update(s2.store)
        return v

    def subst_ty(self, fr, t):
        """Type -> identifying string, with generic parameters of the frame replaced."""
        if t.get("k") == "param" and fr is not None and t["s"] in fr.tenv:
            return fr.tenv[t["s"]]
        if t.get("k") in ("adt", "closure", "fndef"):
            return t["p"]
        if t.get("k") in ("ref", "refmut"):
            inner = fr.fn.T[t["a"][0]] if fr is not None else None
            if inner is not None and inner.get("k") == "param":
                return "&" + self.subst_ty(fr, inner)
        return t["s"]

    def targs(self, fr, f):
        ids = f.get("rta") if f.get("res") else f.get("ta")
        return tuple(self.subst_ty(fr, fr.fn.T[i]) for i in (ids or []))

    def operand(self, st, fr, o):
        if "c" in o:
            return self.read_place(st, fr, o["c"])
        if "m" in o:
            return self.read_place(st, fr, o["m"])
        k = o["k"]
        if "rtc" in k:
            return FALSE
        return self.const(st, fr, k)

    def rvalue(self, st, fr, r, dest=None):
        k = r[0]
        if k == "use":
            if "c" in r[1] and r[1]["c"][1] and dest is not None and not dest[1] \
                    and fr.fn.local_ty(dest[0]).get("p") == "alloc::boxed::Box":
                # a box is never copied: this is a step of reaching into it
                a = self.addr(st, fr, r[1]["c"])
                v = self.read_addr(st, a)
                return ("ref", a[1], a[2]) if a[0] == "mem" and v[0] == "adt" else v
            return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            a = self.addr(st, fr, r[2])
            if a[0] == "mem":
                return ("ref", a[1], a[2])
            v = a[1]
            for p in a[2]:
                v = self.project(st, v, p)
            return v
        if k == "agg":
            vals = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                return ("adt", a[1], a[2], vals, tuple(a[3]))
            if a[0] == "tuple":
                return ("tup", vals)
            if a[0] == "array":
                return ("seq", vals)
            if a[0] == "closure":
                if fr.tenv:
                    vals += (("tyenv", tuple(sorted(fr.tenv.items()))),)
                return ("clo", a[1], vals)
            if a[0] == "rawptr":
                return vals[0]
            return T("agg?", *vals)
        if k == "cast" and r[1] == "BoxDerefTransmute":
            pl = r[2].get("c") or r[2].get("m")
            if pl and pl[1] and pl[1][-1][0] == "f":
                # Box.0: the pointer inside the box stands for the box
                a = self.addr(st, fr, [pl[0], pl[1][:-1]])
                v = self.read_addr(st, a)
                return ("ref", a[1], a[2]) if a[0] == "mem" and v[0] == "adt" else v
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if "Unsize" in r[1] and v[0] == "adt" and "#ta" not in v[4]:
                # a boxed value becomes a trait object: its type arguments go with it
                ft = fr.fn.T[r[4]]
                for i in ft.get("a", ()):
                    it = fr.fn.T[i]
                    if it.get("k") == "adt" and it["p"] == v[1] and it.get("a"):
                        ta = tuple(self.subst_ty(fr, fr.fn.T[x]) for x in it["a"])
                        v = ("adt", v[1], v[2], v[3] + (("tyargs",) + ta,), v[4] + ("#ta",))
                        break
            return self.cast(st, fr, r[1], v, fr.fn.T[r[4]], fr.fn.T[r[3]])
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, fr.fn.T[r[4]])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                v, nt = self.freeze(st, v), fr.fn.T[r[3]]["s"]
                if nt != "bool":
                    return C(self.wrap(~v[1], nt)) if v[0] == "c" else T("bitnot", v)
                return self.mk_not(v)
            if r[1] == "PtrMetadata":
                return self.seq_len(st, self.deref(st, v))
            if r[1] == "Neg":
                v = self.freeze(st, v)
                if v[0] == "c":
                    return C(-v[1])
                return T("neg", v)
            return T(r[1], self.freeze(st, v))
        if k == "discr":
            v = self.deref(st, self.read_place(st, fr, r[1]))
            ty = fr.fn.T[r[2]]
            return self.discr(st, v, ty.get("p"))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return ("seq", tuple([v] * r[2]))
            return T("repeat", self.freeze(st, v), C(r[2] if r[2] is not None else -1))
        if k == "tls":
            return T("tls", S(r[1]))
        return T("rv?", S(str(r[0])))

    exact = False               # loops are unrolled to the visit bound, never summarised

    def seq_len(self, st, v):
        if v[0] == "seq" and all(x[0] not in ("each", "spread") for x in v[1]):
            return C(len(v[1]))
        if v[0] == "s":
            return C(len(v[1].encode()))
        if v[0] == "t" and v[1] == "subslice" and v[3][0] == "c" and v[4] == C(0) and v[5] == C(1):
            return T("Sub", T("len", self.freeze(st, v[2])), v[3]) if v[3][1] else T("len", self.freeze(st, v[2]))
        if v[0] == "t" and v[1] == "repeat" and v[3][0] == "c" and v[3][1] >= 0:
            return v[3]
        if v[0] == "t" and v[1] == "map" :
            return T("len", self.freeze(st, v[2]))
        return T("len", self.freeze(st, v))

    def discr(self, st, v, adtp):
        if v[0] == "adt":
            ad = self.prog.adts.get(v[1])
            if ad:
                for i, (nm, d, _) in enumerate(ad["vars"]):
                    if nm == v[2]:
                        return C(d if d is not None else i)
        if v[0] == "c":
            return v
        v = self.freeze(st, v)
        return T("discr", v, S(adtp or ""))

    INT_BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
                "usize": 64, "isize": 64, "u128": 128, "i128": 128}

    def wrap(self, n, ty):
        b = self.INT_BITS.get(ty)
        if b is None:
            return n
        n &= (1 << b) - 1
        if ty[0] == "i" and n >> (b - 1):
            n -= 1 << b
        return n

    def cast(self, st, fr, kind, v, frm, to):
        if kind.startswith(("IntToInt",)):
            v = self.freeze(st, v)
            if v[0] == "c":
                return C(self.wrap(v[1], to["s"]))
            if v[0] == "t" and v[1] == "discr":
                return v
            if frm["s"] == to["s"]:
                return v
            return T("cast", v, S(frm["s"]), S(to["s"]))
        if kind.startswith(("IntToFloat", "FloatToInt", "FloatToFloat")):
            return T("cast", self.freeze(st, v), S(frm["s"]), S(to["s"]))
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return v
        if kind.startswith(("PointerExposeProvenance", "PointerWithExposedProvenance")):
            return v
        return v        # unsizing, transmutes between wrappers, pointer casts: same origin

    CMP = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}

    def binop(self, st, op, a, b, ty):
        a, b = self.freeze(st, a), self.freeze(st, b)
        if op in self.CMP:
            return self.cmp(self.CMP[op], a, b)
        checked = op.endswith("WithOverflow")
        bop = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y if 0 <= y < 200 else None, "Shr": lambda: x >> y if 0 <= y < 200 else None,
                     "Div": lambda: models._tdiv(x, y) if y else None,
                     "Rem": lambda: models._trem(x, y) if y else None}.get(bop, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                r = C(self.wrap(r, ty["s"]))
        if r is None:
            if ty["s"] == "bool" and bop in ("BitAnd", "BitOr"):
                for p, q in ((a, b), (b, a)):
                    if p[0] == "c":
                        if bop == "BitAnd":
                            r = q if p[1] else FALSE
                        else:
                            r = TRUE if p[1] else q
            if r is None and bop in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr", "Offset") and b == C(0):
                r = a
            if r is None and bop in ("Add", "BitOr", "BitXor") and a == C(0):
                r = b
            if r is None:
                if bop in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and repr(a) > repr(b):
                    a, b = b, a
                r = T(bop, a, b, S(ty["s"])) if bop not in ("BitAnd", "BitOr", "BitXor", "Add", "Sub") else T(bop, a, b)
        if checked:
            return ("tup", (r, FALSE))
        return r

    def cmp(self, op, a, b):
        if op == "ne":
            return self.mk_not(self.cmp("eq", a, b))
        if op == "gt":
            return self.cmp("lt", b, a)
        if op == "ge":
            return self.mk_not(self.cmp("lt", a, b))
        if op == "le":
            return self.mk_not(self.cmp("lt", b, a))
        if op == "eq":
            if a == b:
                return TRUE
            if is_const(a) and is_const(b):
                return FALSE
            if is_const(a):
                a, b = b, a
            if b[0] == "c" and a[0] == "t" and a[1] == "len" and b[1] == 0:
                return T("is_empty", a[2])
            if a[0] in ("adt", "tup") and b[0] == a[0] and len(a[3 if a[0] == "adt" else 1]) == len(b[3 if a[0] == "adt" else 1]):
                if a[0] == "adt" and a[2] != b[2]:
                    return FALSE
                xs, ys = (a[3], b[3]) if a[0] == "adt" else (a[1], b[1])
                r = TRUE
                for x, y in zip(xs, ys):
                    r = self.mk_and(r, self.cmp("eq", x, y))
                return r
            if a[0] in ("adt",) and b[0] == "adt" and a[2] != b[2]:
                return FALSE
            if a[0] == "ty" and b[0] == "ty":
                # attributes rarely differ alone: decided only when equal
                r = self.mk_and(self.cmp("eq", a[1], b[1]), self.cmp("eq", a[2], b[2]))
                r = self.mk_and(r, self.cmp("eq", a[3], b[3]))
                if r == TRUE and a[4] != b[4] and self.settled(a[4]) and self.settled(b[4]):
                    return TRUE if self.canon(a[4]) == self.canon(b[4]) else FALSE
                return r if a[4] == b[4] else FALSE if r == FALSE else T("eq", *sorted((a, b), key=repr))
            if a[0] == "map" and b[0] == "map" and self.settled(a) and self.settled(b):
                return TRUE if self.canon(a) == self.canon(b) else FALSE
            if a[0] == "seq" and b[0] == "seq" and all(x[0] not in ("each", "spread") for x in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return FALSE
                r = TRUE
                for x, y in zip(a[1], b[1]):
                    r = self.mk_and(r, self.cmp("eq", x, y))
                return r
            if b[0] == "t" and a[0] != "t":
                a, b = b, a
            if b[0] == "adt" and a[0] == "t":
                r = T("isvar", a, S(b[2]), S(b[1]))
                for x, nm in zip(b[3], b[4]):
                    r = self.mk_and(r, self.cmp("eq", self.mk_as(None, a, b[2], nm), x))
                return r
            if not is_const(b) and repr(a) > repr(b):
                a, b = b, a
            return T("eq", a, b)
        if op == "lt":
            if a[0] == "c" and b[0] == "c":
                return C(int(a[1] < b[1]))
            if a == b:
                return FALSE
            if a[0] == b[0] == "adt" and a[1] == b[1] and not a[3] and not b[3] and a[1] in self.prog.adts and self.prog.derives("core::cmp::PartialOrd", a[1]):
                vs = {x[0]: int(x[1]) for x in self.prog.adts[a[1]]["vars"]}
                return C(int(vs[a[2]] < vs[b[2]]))
            if b[0] == "t" and b[1] == "len" and a == C(0):
                return self.mk_not(T("is_empty", b[2]))
            if a[0] == "t" and a[1] == "len" and b == C(1):
                return T("is_empty", a[2])
        return T(op, a, b)

    def settled(self, v):
        """Only constants inside: equality is identity of the canonical forms."""
        if v[0] in ("c", "s", "ent"):
            return True
        if v[0] == "map":
            return all(self.settled(k) and self.settled(x) for k, x in v[1])
        if v[0] in ("seq", "tup"):
            return all(self.settled(x) for x in v[1])
        if v[0] == "ty":
            return all(self.settled(x) for x in v[1:])
        if v[0] == "adt":
            return all(self.settled(x) for x in v[3])
        return False

    def canon(self, v):
        if v[0] == "map":
            return ("map", tuple(sorted(((self.canon(k), self.canon(x)) for k, x in v[1]), key=repr)))
        if v[0] in ("seq", "tup"):
            return (v[0], tuple(self.canon(x) for x in v[1]))
        if v[0] == "ty":
            return ("ty",) + tuple(self.canon(x) for x in v[1:])
        if v[0] == "adt":
            return v[:3] + (tuple(self.canon(x) for x in v[3]),) + v[4:]
        return v

    def mk_not(self, v):
        if v[0] == "c":
            return C(0 if v[1] else 1)
        if v[0] == "t" and v[1] == "not":
            return v[2]
        return T("not", v)

    def mk_and(self, a, b):
        if a[0] == "c":
            return b if a[1] else FALSE
        if b[0] == "c":
            return a if b[1] else FALSE
        return T("and", a, b)

    # ---- decisions ---------------------------------------------------------------------------
    def decide(self, st, v):
        """-> [(state, bool)]"""
        v = self.freeze(st, v)
        if v[0] == "c":
            return [(st, bool(v[1]))]
        if v[0] == "t":
            n = v[1]
            if n == "not":
                return [(s, not b) for s, b in self.decide(st, v[2])]
            if n == "and":
                out = []
                for s, b in self.decide(st, v[2]):
                    if b:
                        out.extend(self.decide(s, v[3]))
                    else:
                        out.append((s, False))
                return out
            if n == "or":
                out = []
                for s, b in self.decide(st, v[2]):
                    if not b:
                        out.extend(self.decide(s, v[3]))
                    else:
                        out.append((s, True))
                return out
            if n == "eq":
                a, b = v[2], v[3]
                if is_const(b):
                    return self.decide_eq(st, a, b)
            if n == "isvar":
                return [(s, nm == v[3][1]) for s, nm in self.decide_variant(st, v[2], v[4][1], only=v[3][1])]
        if v in st.facts:
            return [(st, st.facts[v])]
        s2 = st.fork()
        st.facts[v] = True
        st.cond("b", v, True)
        s2.facts[v] = False
        s2.cond("b", v, False)
        return [(st, True), (s2, False)]

    def decide_eq(self, st, a, c):
        a = self.freeze(st, a)
        if is_const(a):
            return [(st, a == c)]
        cur = st.eqs.get(a)
        if cur is not None:
            if cur[0] == "=":
                return [(st, cur[1] == c)]
            if c in cur[1]:
                return [(st, False)]
        s2 = st.fork()
        st.eqs[a] = ("=", c)
        st.cond("eq", a, c)
        ex = (cur[1] if cur else frozenset()) | {c}
        s2.eqs[a] = ("!", ex)
        s2.cond("ne", a, c)
        return [(st, True), (s2, False)]

    def variants_of(self, adtp):
        ad = self.prog.adts.get(adtp)
        return [x[0] for x in ad["vars"]] if ad else None

    def decide_variant(self, st, v, adtp, only=None):
        """-> [(state, variant name or None(other))].  With `only`, splits {only} / others."""
        v = self.freeze(st, v)
        if v[0] == "adt":
            return [(st, v[2])]
        cur = st.vars.get(v)
        allv = self.variants_of(adtp)
        if cur is not None and cur[0] == "=":
            return [(st, cur[1])]
        ex = cur[1] if cur else frozenset()
        if only is not None:
            if only in ex:
                return [(st, "?other")]
            if allv and set(allv) - set(ex) == {only}:
                return [(st, only)]
            s2 = st.fork()
            st.vars[v] = ("=", only)
            st.cond("is", v, only)
            rest = [x for x in (allv or []) if x not in ex and x != only]
            if len(rest) == 1:
                s2.vars[v] = ("=", rest[0])
                s2.cond("is", v, rest[0])
                return [(st, only), (s2, rest[0])]
            s2.vars[v] = ("!", ex | {only})
            s2.cond("isnot", v, only)
            return [(st, only), (s2, "?other")]
        out = []
        cand = [x for x in (allv or []) if x not in ex]
        for i, nm in enumerate(cand):
            s2 = st.fork() if i + 1 < len(cand) else st
            out.append((s2, nm))
        for s2, nm in out:
            s2.vars[v] = ("=", nm)
            s2.cond("is", v, nm)
        return out

    def switch(self, st, fr, v, targets, otherwise, ty):
        """-> [(state, block)]"""
        v = self.freeze(st, v)
        if v[0] == "c":
            n = v[1]
            for val, bb in targets:
                if val == n or (n < 0 and val == n + (1 << 128)) or (n < 0 and val == (n & ((1 << self.INT_BITS.get(ty["s"], 64)) - 1))):
                    return [(st, bb)]
            return [(st, otherwise)]
        if ty["s"] == "bool":
            out = []
            fb = tb = otherwise
            for val, bb in targets:
                if val == 0:
                    fb = bb
                else:
                    tb = bb
            for s, b in self.decide(st, v):
                out.append((s, tb if b else fb))
            return out
        if v[0] == "t" and v[1] == "discr":
            adtp = v[3][1]
            ad = self.prog.adts.get(adtp)
            x = v[2]
            if ad:
                names = {}
                for i, (nm, d, _) in enumerate(ad["vars"]):
                    names[d if d is not None else i] = nm
                cur = st.vars.get(x)
                if cur is not None and cur[0] == "=":
                    for val, bb in targets:
                        if self._dv(names, val) == cur[1]:
                            return [(st, bb)]
                    return [(st, otherwise)]
                out = []
                ex = set(cur[1]) if cur else set()
                covered = []
                for val, bb in targets:
                    nm = self._dv(names, val)
                    covered.append(nm)
                    if nm in ex:
                        continue
                    s2 = st.fork()
                    s2.vars[x] = ("=", nm)
                    s2.cond("is", x, nm)
                    out.append((s2, bb))
                rest = [n for n in names.values() if n not in covered and n not in ex]
                ob = fr.fn.bbs[otherwise]
                if rest and not (ob and ob["t"][0] == "unreach"):
                    if len(rest) == 1:
                        st.vars[x] = ("=", rest[0])
                        st.cond("is", x, rest[0])
                    else:
                        st.vars[x] = ("!", frozenset(ex | set(covered)))
                        for nm in covered:
                            st.cond("isnot", x, nm)
                    out.append((st, otherwise))
                return out
        out = []
        cur = st
        for val, bb in targets:
            c = C(self.wrap(val, ty["s"]) if ty["s"] in self.INT_BITS else val)
            nxt = None
            for s, b in self.decide_eq(cur, v, c):
                if b:
                    out.append((s, bb))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        ob = fr.fn.bbs[otherwise]
        if not (ob and ob["t"][0] == "unreach"):
            out.append((cur, otherwise))
        return out

    def _dv(self, names, val):
        if val in names:
            return names[val]
        for b in (8, 16, 32, 64, 128):
            if val - (1 << b) in names:
                return names[val - (1 << b)]
        return f"?{val}"

    # ---- execution -----------------------------------------------------------------------------
    def run(self, path, args=None, tenv=None, setup=None):
        """Analyse one function from symbolic arguments; returns [PathResult]."""
        fn = path if not isinstance(path, str) else self.prog.fns.get(path)
        if fn is None:
            raise KeyError(path)
        st = State()
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                nm = fn.local_name(i) or f"arg{i}"
                ty = fn.local_ty(i)
                args.append(self.sym_arg(st, fn, nm, ty))
        if setup:
            args = setup(self, st, args) or args
        self.steps = 0
        self.npaths = 0
        self.dead = []
        outs = self.run_body(st, fn, args, tenv or {}, 0, top=True)
        if not outs and not self.dead:
            raise Budget(f"no path of {fn.path} is followed to its end")
        return [PathResult(self, s, v, e) for s, v, e in
                ([(s, v, "ret") for s, v in outs] + [(s, None, e) for s, e in self.dead])]

    def sym_arg(self, st, fn, nm, ty):
        if ty.get("k") in ("ref", "refmut"):
            inner = fn.T[ty["a"][0]]
            loc = self.alloc(st, self.sym_arg(st, fn, nm, inner))
            return ("ref", loc, ())
        return T("arg:" + nm)

    def run_body(self, st, fn, args, tenv, depth, top=False):
        self.frame_ctr += 1
        fr = Frame(self.frame_ctr, fn, tenv, depth)
        self.visited_fns.add(fn.path)
        for i, a in enumerate(args):
            st.store[(fr.id, i + 1)] = a
        loops = fn.loops()[0]
        inloop = fr.inloop()
        outs = []
        work = [(st, 0, {}, {})]
        while work:
            st, bb, visits, absl = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget(f"step budget exceeded in {fn.path}")
                if self.steps & 63 == 0 and self.deadline and time.monotonic() > self.deadline:
                    raise Budget(f"time budget exceeded in {fn.path}")
                if bb in loops:
                    n = visits.get(bb, 0) + 1
                    visits = dict(visits)
                    visits[bb] = n
                    # entering anew from outside resets inner loops' counters
                    if n > self.max_visits or (n > 3 and absl.get(bb)):
                        break
                if st.loopctx:
                    lc = st.loopctx
                    while lc and lc[-1][0] == fr.id and lc[-1][1] is not None and bb not in loops.get(lc[-1][1], ()):
                        lc = lc[:-1]
                    st.loopctx = lc
                b = fn.bbs[bb]
                if b is None:
                    break
                for stm in b["s"]:
                    r = stm[1]
                    if r[0] == "intr":
                        continue
                    if r[0] == "setd":
                        v = self.read_place(st, fr, stm[0])
                        if v[0] == "adt":
                            self.write_place(st, fr, stm[0], ("adt", v[1], r[1], v[3], v[4]))
                        continue
                    self.write_place(st, fr, stm[0], self.rvalue(st, fr, r, stm[0]))
                t = b["t"]
                k = t[0]
                if k == "goto":
                    nb = t[1]
                    visits = self.edge(st, fr, bb, nb, visits)
                    bb = nb
                    continue
                if k == "drop":
                    bb2 = t[2]
                    self.on_drop(st, fr, t)
                    visits = self.edge(st, fr, bb, bb2, visits)
                    bb = bb2
                    continue
                if k == "assert":
                    v = self.freeze(st, self.operand(st, fr, t[1]))
                    if v[0] == "c" and bool(v[1]) != t[2]:
                        self.end(st, fn, "panic", top)
                        break
                    visits = self.edge(st, fr, bb, t[3], visits)
                    bb = t[3]
                    continue
                if k == "ret":
                    v = st.store.get((fr.id, 0), UNIT)
                    if v is UNINIT or v == UNINIT:
                        v = UNIT
                    st.loopctx = tuple(x for x in st.loopctx if x[0] != fr.id)
                    outs.append((st, v))
                    if len(outs) > self.max_paths:
                        raise Budget(f"path budget exceeded in {fn.path}")
                    break
                if k == "unreach":
                    break
                if k == "sw":
                    v = self.operand(st, fr, t[1])
                    fz = self.freeze(st, v)
                    lps = inloop.get(bb, ())
                    res = self.switch(st, fr, v, t[2], t[3], fn.T[t[4]])
                    concrete = fz[0] == "c"
                    if lps and not self.exact:
                        h = lps[0]
                        body = loops[h]
                        outside = [x for x in res if x[1] not in body]
                        insd = [x for x in res if x[1] in body]
                        has_out = any(s not in body for s in fn.succs(bb))
                        if has_out and concrete and absl.get(h) is None:
                            absl = dict(absl)
                            absl[h] = False
                        if outside and insd and not concrete and visits.get(h, 0) >= 2 and absl.get(h) is not False:
                            res = outside
                        elif not concrete and visits.get(h, 0) >= 2 and absl.get(h) is None:
                            absl = dict(absl)
                            absl[h] = True
                    if not res:
                        break
                    for s2, nb in res[1:]:
                        v2 = self.edge(s2, fr, bb, nb, visits)
                        work.append((s2, nb, v2, absl))
                    st, nb = res[0]
                    visits = self.edge(st, fr, bb, nb, visits)
                    bb = nb
                    continue
                if k == "call":
                    res, abstract = self.call(st, fr, t, bb)
                    if abstract is not None and inloop.get(bb):
                        h = inloop[bb][0]
                        absl = dict(absl)
                        absl[h] = abstract
                    if t[4] is None or not res:
                        for s2, _ in res:
                            self.end(s2, fn, "diverge", top, t)
                        break
                    for s2, v in res[1:]:
                        self.write_place(s2, fr, t[3], v)
                        v2 = self.edge(s2, fr, bb, t[4], visits)
                        work.append((s2, t[4], v2, absl))
                    st, v = res[0]
                    self.write_place(st, fr, t[3], v)
                    visits = self.edge(st, fr, bb, t[4], visits)
                    bb = t[4]
                    continue
                break
        return outs

    def end(self, st, fn, why, top, t=None):
        self.dead.append((st, why)) if hasattr(self, "dead") else None

    def on_drop(self, st, fr, t):
        pass

    def edge(self, st, fr, a, b, visits):
        loops = fr.fn.loops()[0]
        if b in loops:
            if a in loops[b]:
                st.event("loopback", fr.fn.path, b)
            elif visits.get(b):
                visits = dict(visits)
                visits[b] = 0
        return visits

    # ---- calls -----------------------------------------------------------------------------------
    def call(self, st, fr, t, bb):
        """-> ([(state, value)], abstract-iteration flag or None)"""
        f = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        self.abstract_flag = None
        self.cur_site = (fr, bb, t)
        if "op" in f:
            fv = self.deref(st, self.operand(st, fr, f["op"]))
            r = self.apply(st, fr, fv, args)
            return r, self.abstract_flag
        path = f.get("res") or f["fn"]
        targs = self.targs(fr, f)
        # trait method on a generic parameter known in this frame
        if not f.get("res") and f.get("tr") and targs:
            it = self.prog.impls.get((f["fn"], targs[0]))
            if it:
                path = it
                targs = ()
        # trait object: the receiver's own type decides
        if not f.get("res") and f.get("tr") and path == f["fn"] and args:
            rv = self.deref(st, args[0])
            if rv[0] == "adt":
                it = self.prog.impls.get((f["fn"], rv[1]))
                if it in self.prog.fns:
                    path, targs = it, ()
                    if "#ta" in rv[4]:
                        targs = rv[3][rv[4].index("#ta")][1:]
                elif it is None:
                    # implemented for every type
                    it = self.prog.blanket.get(f["fn"])
                    if it in self.prog.fns:
                        path, targs = it, (rv[1],)
        r = self.invoke(st, fr, path, args, targs, t)
        return r, self.abstract_flag

    def apply(self, st, fr, fv, args):
        """Call a function value with an argument list."""
        fv = self.deref(st, fv)
        if fv[0] == "clo":
            fn = self.prog.fns.get(fv[1])
            if fn is not None and (fr is None or fr.depth < self.max_depth * 2):
                # does the closure body take self by reference?
                ty = fn.local_ty(1)
                selfv = fv
                loc = None
                if ty.get("k") in ("ref", "refmut"):
                    loc = self.alloc(st, fv)
                    selfv = ("ref", loc, ())
                tenv = dict(fr.tenv) if fr else {}
                if fv[2] and fv[2][-1][0] == "tyenv":
                    tenv.update(fv[2][-1][1])
                return self.run_body(st, fn, [selfv] + list(args), tenv, (fr.depth if fr else 0) + 1)
        if fv[0] == "fn":
            return self.invoke(st, fr, fv[1], list(args), fv[2] if len(fv) > 2 else (), None)
        if fv[0] == "adt" and fv[2] == "ctor":
            pass
        a = tuple(self.freeze(st, x) for x in args)
        if self.apply_hook is not None:
            v = self.apply_hook(self, st, fv, a)
            if v is not None:
                return [(st, v)]
        self.murk(st, args, "?indirect")
        st.event("call", "?indirect", (self.freeze(st, fv),) + a, "")
        return [(st, T("apply", self.freeze(st, fv), *a))]

    def should_inline(self, path):
        r = self._inl_cache.get(path)
        if r is None:
            r = path in self.prog.fns and not any(x.search(path) for x in self.opaque)
            if r and self.inline_only is not None:
                r = any(x.search(path) for x in self.inline_only)
            self._inl_cache[path] = r
        return r

    def invoke(self, st, fr, path, args, targs, t):
        key = norm(path)
        m = self.models.get(path) or self.models.get(key)
        if m is not None:
            r = m(self, st, fr, args, targs, path, t)
            if r is not None:
                if isinstance(r, list):
                    return r
                return [(st, r)]
        fn = self.prog.fns.get(path)
        if fn is None and self.ext_hook is not None:
            r = self.ext_hook(self, st, fr, path, key, args, targs, t)
            if r is not None:
                return [(st, r)]
        if fn is None and path.split("::")[-1][:1].isupper():
            c = self.ctor(path, args)
            if c is not None:
                return [(st, c)]
        if fn is not None and fr.depth < self.max_depth and self.should_inline(path) and self.callstack.count(path) < self.max_rec \
                and fn.kind in ("Fn", "AssocFn", "Closure"):
            tenv = {}
            for g, x in zip(fn.gen, targs):
                tenv[g] = x
            if fn.kind == "Closure" and len(args) == 2 and t is not None and t[1].get("tr", t[1].get("fn", "")) is not None:
                # rust-call ABI: the arguments arrive as one tuple
                tup = self.deref(st, args[1])
                if tup[0] == "tup" and len(tup[1]) == fn.argc - 1:
                    args = [args[0]] + list(tup[1])
            self.callstack.append(path)
            try:
                return self.run_body(st, fn, args, tenv, fr.depth + 1)
            finally:
                self.callstack.pop()
        return self.uninterpreted(st, fr, path, key, args, targs, t)

    def ctor(self, path, args):
        """Tuple-struct / enum-variant constructor used as a function."""
        base, _, last = norm(path).rpartition("::")
        ad = self.prog.adts.get(norm(path))
        if ad and ad["kind"] == "struct":
            return ("adt", norm(path), ad["vars"][0][0], tuple(args), tuple(f[0] for f in ad["vars"][0][2]))
        ad = self.prog.adts.get(base)
        if ad and ad["kind"] == "enum":
            for nm, d, fs in ad["vars"]:
                if nm == last:
                    return ("adt", base, nm, tuple(args), tuple(f[0] for f in fs))
        return None

    NOHAVOC = re.compile(r"IrContext|PatternRewriter|FunctionBuilder|Formatter|cranelift|wasm_encoder|TypeInterner|PathInterner")

    def murk(self, st, args, key, muts=None):
        """Code the analysis does not follow may have changed what it was given: nothing definite rests on this path."""
        for k, a in enumerate(args):
            if a[0] == "clo" and any(x[0] == "ref" for x in a[2]):
                self.murked = True
                st.event("murky", key)
                return
            if a[0] == "ref":
                v = self.deref(st, a)
                if (v[0] == "adt" and self.MURK.search(v[1]) and (muts is None or k >= len(muts) or muts[k])) or (v[0] == "clo" and any(x[0] == "ref" for x in v[2])):
                    self.murked = True
                    st.event("murky", key)
                    return

    MURK = re.compile(r"IrContext$|PatternRewriter$")

    def uninterpreted(self, st, fr, path, key, args, targs, t):
        fz = tuple(self.freeze(st, a) for a in args)
        span = t[5] if t is not None and len(t) > 5 else ""
        st.event("call", key, fz, span)
        self.uninterp.add(key)
        muts = None
        if t is not None and fr is not None:
            muts = []
            for o in t[2]:
                pl = o.get("m") or o.get("c")
                muts.append(pl is None or bool(pl[1]) or fr.fn.local_ty(pl[0]).get("k") == "refmut")
        self.murk(st, args, key, muts)
        if t is not None:
            for i, (o, a) in enumerate(zip(t[2], args)):
                pl = o.get("m") or o.get("c")
                if pl is None or pl[1] or a[0] != "ref":
                    continue
                ty = fr.fn.local_ty(pl[0])
                if ty.get("k") == "refmut" and not self.NOHAVOC.search(ty["s"]):
                    self.store_to(st, a[1], a[2], T("mut", S(key), self.freeze(st, a), *[x for j, x in enumerate(fz) if j != i][:3]))
        return [(st, T(key, *fz))]


class Frame:
    __slots__ = ("id", "fn", "tenv", "depth", "_il")

    def __init__(self, id, fn, tenv, depth):
        self.id, self.fn, self.tenv, self.depth = id, fn, tenv, depth
        self._il = None

    def inloop(self):
        """block -> loop headers, innermost first"""
        if self._il is None:
            d = {}
            for h, body in self.fn.loops()[0].items():
                for b in body:
                    d.setdefault(b, []).append((len(body), h))
            self._il = {b: [h for _, h in sorted(x)] for b, x in d.items()}
        return self._il

"""Abstract heap for the IR arena: the IR context as a set of named cells, one per entity of an assumed IR shape.
Methods of the context are analysed from their own MIR (none of the context models apply); only the third-party arena
containers (entity maps and lists) are modelled.  Everything the shape does not state is an unknown term."""
from .absint import T, C, S, some, NONE, Engine, ok
from . import models
from .models import chase, as_parts, plain, mk_seq, m_iter, iter_parts, UNIT

CTXP = "trunk_ir::context::IrContext"
DROP = [k for k in models.MODELS if k.startswith("trunk_ir::context::")] + \
       [k for k in models.MODELS if k.startswith("trunk_ir::rewrite::rewriter::")]
VD = "trunk_ir::refs::ValueDef"
ATTR = "trunk_ir::types::Attribute"
HEAP = {}


def hm(*names):
    def deco(f):
        for n in names:
            HEAP[n] = f
        return f
    return deco


PM, SM, EL = "cranelift_entity::primary::PrimaryMap", "cranelift_entity::map::SecondaryMap", "cranelift_entity::list::EntityList"
LP = "cranelift_entity::list::ListPool"


def cell(field, ent):
    return ("E", field, ent[2])


@hm(PM + "::new", PM + "::with_capacity", SM + "::new", SM + "::with_capacity", LP + "::new")
def h_new(eng, st, fr, args, targs, path, t):
    return T("empty_arena")


@hm(PM + "::push")
def pm_push(eng, st, fr, args, targs, path, t):
    a = eng.deref(st, args[0])
    if a[0] != "arena":
        return None
    e = ("ent", a[2], f"new{eng.fresh()}")
    st.store[cell(a[1], e)] = args[1]
    st.event("alloc", e)
    return e


def arena_ref(eng, st, a, k):
    if k[0] == "ent" and k[1] == a[2]:
        c = cell(a[1], k)
        if c not in st.store:
            if a[3]:
                st.store[c] = ("seq", ())
            else:
                return None
        return ("ref", c, ())
    return None


@hm("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def h_index(eng, st, fr, args, targs, path, t):
    a = eng.deref(st, args[0])
    if a[0] == "arena":
        k = eng.freeze(st, args[1])
        r = arena_ref(eng, st, a, k)
        if r is not None:
            return r
        return T("arena_at", S(a[1]), k)
    return models.m_index(eng, st, fr, args, targs, path, t)


@hm(PM + "::get", PM + "::get_mut", SM + "::get", SM + "::get_mut")
def h_get(eng, st, fr, args, targs, path, t):
    a = eng.deref(st, args[0])
    if a[0] == "arena":
        r = arena_ref(eng, st, a, eng.freeze(st, args[1]))
        if r is not None:
            return some(r)
    return None


@hm(EL + "::new")
def el_new(eng, st, fr, args, targs, path, t):
    return ("seq", ())


@hm(EL + "::as_slice", EL + "::as_mut_slice")
def el_slice(eng, st, fr, args, targs, path, t):
    return args[0]


@hm(EL + "::push")
def el_push(eng, st, fr, args, targs, path, t):
    v = chase(eng, st, args[0])
    n = eng.seq_len(st, eng.deref(st, v))
    models.v_push(eng, st, fr, [args[0], args[1]], targs, path, t)
    return n


@hm(EL + "::len")
def el_len(eng, st, fr, args, targs, path, t):
    return eng.seq_len(st, eng.deref(st, args[0]))


@hm(EL + "::is_empty")
def el_empty(eng, st, fr, args, targs, path, t):
    return eng.cmp("eq", eng.seq_len(st, eng.deref(st, args[0])), C(0))


@hm(EL + "::get")
def el_get(eng, st, fr, args, targs, path, t):
    return models.sl_get(eng, st, fr, args[:2], targs, path, t)


@hm(EL + "::first")
def el_first(eng, st, fr, args, targs, path, t):
    return models.sl_get(eng, st, fr, [args[0], C(0)], targs, path, t)


@hm(EL + "::from_slice", EL + "::from_iter")
def el_from(eng, st, fr, args, targs, path, t):
    ps = iter_parts(eng, st, fr, args[0])
    return [(s, mk_seq(tuple(eng.deref(s, p) if p[0] == "ref" else p for p in parts))) for s, parts in ps]


@hm(EL + "::extend")
def el_extend(eng, st, fr, args, targs, path, t):
    return models.m_extend(eng, st, fr, args[:2], targs, path, t)


@hm(EL + "::clear")
def el_clear(eng, st, fr, args, targs, path, t):
    return models.v_clear(eng, st, fr, args[:1], targs, path, t)


@hm(EL + "::remove", EL + "::insert")
def el_remove(eng, st, fr, args, targs, path, t):
    if path.endswith("insert"):
        return models.v_insert(eng, st, fr, args[:3], targs, path, t)
    return models.v_opaque(eng, st, fr, args[:2], targs, path, t)


@hm(EL + "::deep_clone", EL + "::clone")
def el_clone(eng, st, fr, args, targs, path, t):
    return eng.deref(st, args[0])


def by_type(prog):
    """Field names of the context's arenas, found by the entity types they hold."""
    fs = prog.adts[CTXP]["vars"][0][2]
    out = {}
    for n, ty, _ in fs:
        if ty.startswith(PM):
            for k in ("Op", "Value", "Block", "Region"):
                if f"<trunk_ir::refs::{k}Ref," in ty:
                    out[k] = n
        elif ty.startswith(SM):
            if "::Use" in ty:
                out["uses"] = n
            elif "<trunk_ir::refs::OpRef," in ty:
                out["results"] = n
            elif "<trunk_ir::refs::BlockRef," in ty:
                out["bargs"] = n
    return out


def call1(eng, st, path, args, targs=()):
    from .absint import Frame, Budget, Definite
    fn = eng.prog.fns.get(path)
    if fn is None:
        raise Budget("not found: " + path)
    if not hasattr(eng, "npaths"):
        eng.dead = []
    sure = not st.conds
    outs = eng.run_body(st, fn, list(args), dict(zip(fn.gen, targs)), 1)
    if not outs and sure and eng.dead and not any(s.conds for s, _ in eng.dead):
        raise Definite(f"{path} panics")
    if len(outs) != 1:
        from .rules import brief
        why = {brief(c, 200) for o in outs for c in list(o[0].conds)[-3:]}
        raise Budget(f"{path}: {len(outs)} outcomes: " + "; ".join(sorted(why))[:400])
    s2, v = outs[0]
    if s2 is not st:
        for k in st.__slots__:
            setattr(st, k, getattr(s2, k))
    return v


class Heap:
    """An assumed IR shape, laid out in the abstract store."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        eng.models.update(HEAP)
        for k in DROP:
            eng.models.pop(k, None)
        self.f = by_type(eng.prog)
        ad = eng.prog.adts[CTXP]["vars"][0]
        vals = []
        inv = {v: k for k, v in self.f.items()}
        kind = {"Op": "Op", "Value": "Value", "Block": "Block", "Region": "Region", "uses": "Value", "results": "Op",
                "bargs": "Block"}
        for n, ty, _ in ad[2]:
            if n in inv:
                vals.append(("arena", n, kind[inv[n]], inv[n] in ("uses", "results", "bargs")))
            elif ty.startswith("alloc::vec::Vec") or "RefCell<alloc::vec::Vec" in ty:
                vals.append(("seq", ()))
            elif "HashMap<" in ty:
                vals.append(("map", ()))
            else:
                vals.append(T("ctx." + n))
        self.ctx = ("adt", CTXP, "IrContext", tuple(vals), tuple(x[0] for x in ad[2]))
        self.loc = eng.alloc(st, self.ctx)
        self.ref = ("ref", self.loc, ())
        self.n = 0

    def put(self, kind, ent, v):
        self.st.store[cell(self.f[kind], ent)] = v

    def get(self, kind, ent, st=None):
        return (st or self.st).store.get(cell(self.f[kind], ent))

    def mk(self, path, **kw):
        fs = self.eng.prog.adts[path]["vars"][0][2]
        return ("adt", path, path.rsplit("::", 1)[-1], tuple(kw.get(n, T("?" + n)) for n, _, _ in fs), tuple(n for n, _, _ in fs))

    def value(self, tag, d):
        v = ("ent", "Value", tag)
        self.put("Value", v, self.mk("trunk_ir::context::ValueData", **{"def": d}))
        self.put("uses", v, ("seq", ()))
        return v

    def ext(self, tag):
        """A value defined outside the shape."""
        return self.value(tag, T("def:" + tag))

    def use(self, op, i):
        return ("adt", "trunk_ir::context::Use", "Use", (op, C(i)), ("user", "operand_index"))

    def op(self, tag, full=None, operands=(), results=(), attrs=None, regions=(), succs=()):
        o = ("ent", "Op", tag)
        d, n = full.split(".", 1) if full else (None, None)
        self.put("Op", o, self.mk("trunk_ir::context::OperationData", location=T("loc:" + tag),
                                  dialect=S(d) if full else T("dialect:" + tag), name=S(n) if full else T("name:" + tag),
                                  operands=("seq", tuple(operands)), results=("seq", tuple(results)),
                                  attributes=("map", tuple((S(k), v) for k, v in attrs.items())) if attrs is not None else T("attrs", T("op:" + tag)),
                                  regions=("seq", tuple(regions)), successors=("seq", tuple(succs)), parent_block=NONE))
        for i, v in enumerate(operands):
            if v[0] == "ent":
                u = self.get("uses", v)
                self.put("uses", v, ("seq", u[1] + (self.use(o, i),)))
        rs = tuple(self.value(f"{tag}.r{i}", ("adt", VD, "OpResult", (o, C(i)), ("0", "1"))) for i in range(len(results)))
        self.put("results", o, ("seq", rs))
        for r in regions:
            self.set("Region", r, "parent_op", some(o))
        return o

    def set(self, kind, ent, field, v):
        a = self.get(kind, ent)
        i = a[4].index(field)
        self.put(kind, ent, a[:3] + (a[3][:i] + (v,) + a[3][i + 1:],) + a[4:])

    def res(self, op, i=0):
        return ("ent", "Value", f"{op[2]}.r{i}")

    def block(self, tag, ops=(), args=()):
        b = ("ent", "Block", tag)
        ad = tuple(self.mk("trunk_ir::context::BlockArgData", ty=t, attrs=T(f"argattrs:{tag}.{i}")) for i, t in enumerate(args))
        self.put("Block", b, self.mk("trunk_ir::context::BlockData", location=T("loc:" + tag), args=("seq", ad),
                                     ops=("seq", ()), parent_region=NONE))
        self.put("bargs", b, ("seq", tuple(self.value(f"{tag}.a{i}", ("adt", VD, "BlockArg", (b, C(i)), ("0", "1")))
                                           for i in range(len(args)))))
        if ops:
            self.fill(b, ops)
        return b

    def arg(self, b, i=0):
        return ("ent", "Value", f"{b[2]}.a{i}")

    def fill(self, b, ops):
        a = self.get("Block", b)
        self.set("Block", b, "ops", ("seq", a[3][a[4].index("ops")][1] + tuple(ops)))
        for o in ops:
            self.set("Op", o, "parent_block", some(b))

    def region(self, tag, blocks):
        r = ("ent", "Region", tag)
        self.put("Region", r, self.mk("trunk_ir::context::RegionData", location=T("loc:" + tag), blocks=("seq", tuple(blocks)),
                                      parent_op=NONE))
        for b in blocks:
            self.set("Block", b, "parent_region", some(r))
        return r

    def view(self, st):
        return View(self, st)

    def call(self, path, args, targs=(), st=None):
        """Analyse a call that must have exactly one outcome; returns its value (state updated in place)."""
        return call1(self.eng, st or self.st, path, args, targs)


class View:
    """The IR found in a final abstract state."""

    def __init__(self, h, st):
        self.h, self.st, self.eng = h, st, h.eng
        self.ents = {}
        for loc in st.store:
            if loc[0] == "E":
                self.ents.setdefault(loc[1], []).append(loc[2])

    def all(self, kind):
        k = kind
        return [("ent", k, n) for n in self.ents.get(self.h.f[kind], [])]

    def data(self, kind, e):
        v = self.st.store.get(cell(self.h.f[kind], e))
        return self.eng.freeze(self.st, v) if v is not None else None

    def field(self, kind, e, name):
        d = self.data(kind, e)
        if d is None:
            return None
        return self.eng.project(self.st, d, ("f", 0, name))

    def opname(self, o):
        d, n = self.field("Op", o, "dialect"), self.field("Op", o, "name")
        return f"{d[1]}.{n[1]}" if d[0] == "s" and n[0] == "s" else None

    def seq(self, v):
        return list(v[1]) if v is not None and v[0] == "seq" and plain(v[1]) else None

    def operands(self, o):
        return self.seq(self.field("Op", o, "operands"))

    def uses(self, v):
        d = self.data("uses", v)
        return [] if d is None else self.seq(d)

    def results(self, o):
        d = self.data("results", o)
        return [] if d is None else self.seq(d)

    def bargs(self, b):
        d = self.data("bargs", b)
        return [] if d is None else self.seq(d)

    def ops(self, b):
        return self.seq(self.field("Block", b, "ops"))


def invariants(v, dead=()):
    """Violated structural invariants of the IR in view v: [text].  Unknown parts are skipped."""
    out, unk = [], []
    ops = [o for o in v.all("Op") if o not in dead]
    want = {}
    for o in ops:
        xs = v.operands(o)
        if xs is None:
            unk.append(f"operands of {o[2]}")
            continue
        for i, x in enumerate(xs):
            want.setdefault(x, []).append((o, i))
    for x in v.all("Value"):
        us = v.uses(x)
        if us is None:
            unk.append(f"uses of {x[2]}")
            continue
        got = []
        for u in us:
            if u[0] != "adt":
                unk.append(f"use entry of {x[2]}")
                continue
            op, i = u[3][u[4].index("user")], u[3][u[4].index("operand_index")]
            if op[0] != "ent" or i[0] != "c":
                unk.append(f"use entry of {x[2]}")
                continue
            got.append((op, i[1]))
        got = [g for g in got]
        w = want.get(x, [])
        for g in sorted(set(got)):
            if got.count(g) > 1:
                out.append(f"the use list of {x[2]} names operand {g[1]} of {g[0][2]} {got.count(g)} times")
            if g not in w:
                out.append(f"the use list of {x[2]} names operand {g[1]} of {g[0][2]}, which is not that value")
        if not any(u.endswith(" " + x[2]) for u in unk):
            for g in w:
                if g not in got:
                    out.append(f"operand {g[1]} of {g[0][2]} is {x[2]}, but the use list of {x[2]} does not say so")
    for o in ops:
        rs, ts = v.results(o), v.seq(v.field("Op", o, "results"))
        if rs is None or ts is None:
            unk.append(f"results of {o[2]}")
            continue
        if len(rs) != len(ts):
            out.append(f"{o[2]} has {len(ts)} result types but {len(rs)} result values")
        if len(set(rs)) != len(rs):
            out.append(f"two results of {o[2]} are the same value")
        for i, r in enumerate(rs):
            d = v.field("Value", r, "def") if r[0] == "ent" else None
            if d is None or d[0] != "adt":
                unk.append(f"result {i} of {o[2]}")
            elif d[2] != "OpResult" or d[3][0] != o or d[3][1] != C(i):
                out.append(f"result {i} of {o[2]} is recorded as defined by {sh(d)}")
    for b in v.all("Block"):
        rs, ts = v.bargs(b), v.seq(v.field("Block", b, "args"))
        if rs is None or ts is None:
            unk.append(f"args of {b[2]}")
            continue
        if len(rs) != len(ts):
            out.append(f"block {b[2]} has {len(ts)} argument records but {len(rs)} argument values")
        if len(set(rs)) != len(rs):
            out.append(f"two arguments of {b[2]} are the same value")
        for i, r in enumerate(rs):
            d = v.field("Value", r, "def") if r[0] == "ent" else None
            if d is None or d[0] != "adt":
                unk.append(f"argument {i} of {b[2]}")
            elif d[2] != "BlockArg" or d[3][0] != b or d[3][1] != C(i):
                out.append(f"argument {i} of block {b[2]} is recorded as defined by {sh(d)}")
        os_ = v.ops(b)
        if os_ is None:
            unk.append(f"ops of {b[2]}")
            continue
        for o in os_:
            if o[0] != "ent":
                unk.append(f"an op of {b[2]}")
                continue
            if os_.count(o) > 1:
                out.append(f"{o[2]} is listed {os_.count(o)} times in block {b[2]}")
            p = v.field("Op", o, "parent_block")
            if p is not None and p[0] == "adt" and p != some(b):
                out.append(f"{o[2]} is in block {b[2]} but its parent link is {sh(p)}")
    for o in ops:
        p = v.field("Op", o, "parent_block")
        if p is not None and p[0] == "adt" and p[2] == "Some" and p[3][0][0] == "ent":
            os_ = v.ops(p[3][0])
            if os_ is not None and o not in os_:
                out.append(f"{o[2]} has block {p[3][0][2]} as parent but the block does not list it")
        rs = v.seq(v.field("Op", o, "regions"))
        for r in rs or []:
            q = v.field("Region", r, "parent_op") if r[0] == "ent" else None
            if q is not None and q[0] == "adt" and q != some(o):
                out.append(f"region {r[2]} belongs to {o[2]} but its parent link is {sh(q)}")
    for r in v.all("Region"):
        q = v.field("Region", r, "parent_op")
        if q is not None and q[0] == "adt" and q[2] == "Some" and q[3][0][0] == "ent" and q[3][0] not in dead:
            rs = v.seq(v.field("Op", q[3][0], "regions"))
            if rs is not None and r not in rs:
                out.append(f"region {r[2]} has {q[3][0][2]} as parent but is not one of its regions")
        bs = v.seq(v.field("Region", r, "blocks"))
        for b in bs or []:
            q = v.field("Block", b, "parent_region") if b[0] == "ent" else None
            if q is not None and q[0] == "adt" and q != some(r):
                out.append(f"block {b[2]} is in region {r[2]} but its parent link is {sh(q)}")
    return sorted(set(out)), sorted(set(unk))


def sh(d):
    def g(x):
        if x[0] == "ent":
            return x[2]
        if x[0] == "adt":
            return x[2] + ("(" + ", ".join(g(y) for y in x[3]) + ")" if x[3] else "")
        if x[0] == "c":
            return str(x[1])
        return "?"
    return g(d)

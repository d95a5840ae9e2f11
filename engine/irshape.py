"""Facts about a small piece of IR (which ops a block holds, their names, attributes, results), assumed as dataflow
seeds when a pass is analysed.  Anything not stated stays unknown."""
from .absint import T, C, S, some

ATTR = "trunk_ir::types::Attribute"
VD = "trunk_ir::refs::ValueDef"
NONE = ("adt", "core::option::Option", "None", (), ())
CTX = T("arg:ctx")


def A(variant, payload):
    return ("adt", ATTR, variant, (payload,), ("0",))


class Shape:
    def __init__(self, eng, ctx=CTX):
        self.eng, self.ctx = eng, ctx

    def op(self, tag, full, operands=(), results=(), attrs=None, regions=(), succs=(), absent=()):
        o = T("op:" + tag)
        s = self.eng.seeds
        if full is not None:
            d, n = full.split(".", 1)
            s[T("op.dialect", o)], s[T("op.name", o)] = S(d), S(n)
        for k, v in (("operands", operands), ("results", results), ("regions", regions), ("successors", succs)):
            if v is not None:
                s[T("op." + k, o)] = ("seq", tuple(v))
        for k, v in (attrs or {}).items():
            s[T("attr", o, S(k))] = some(v)
        for k in absent:
            s[T("attr", o, S(k))] = NONE
        for r in regions or ():
            s[T("field", T("index", T("field", self.ctx, S("regions")), r), S("parent_op"))] = some(o)
        return o

    def block(self, tag, ops=None, nargs=0):
        b = T("block:" + tag)
        s = self.eng.seeds
        bd = T("index", T("field", self.ctx, S("blocks")), b)
        if ops is not None:
            s[T("field", bd, S("ops"))] = ("seq", tuple(ops))
            for o in ops:
                s[T("op.parent_block", o)] = some(b)
        s[T("block_args", b)] = ("seq", tuple(("barg", b, i) for i in range(nargs)))
        return b

    def region(self, tag, blocks):
        r = T("region:" + tag)
        s = self.eng.seeds
        rd = T("index", T("field", self.ctx, S("regions")), r)
        s[T("field", rd, S("blocks"))] = ("seq", tuple(blocks))
        for b in blocks:
            s[T("field", T("index", T("field", self.ctx, S("blocks")), b), S("parent_region"))] = some(r)
        return r

    def module(self, tag, ops, name="m", **kw):
        r = self.region(tag, [self.block(tag, ops)])
        return self.op(tag, "core.module", regions=[r], attrs={"sym_name": A("Symbol", S(name))}, **kw)

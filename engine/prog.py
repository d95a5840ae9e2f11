"""Loads the MIR dump: functions, ADTs, impls, with CFG helpers."""
import glob, json, os, re


class Fn:
    __slots__ = ("j", "T", "crate", "path", "span", "kind", "argc", "locals", "bbs", "_loops", "promoted",
                 "gen", "_preds")

    def __init__(self, j, T, crate):
        self.j, self.T, self.crate = j, T, crate
        self.path, self.span, self.kind = j.get("path", ""), j.get("span", ""), j.get("kind", "")
        self.argc, self.locals, self.bbs = j["argc"], j["locals"], j["bbs"]
        self.gen = j.get("gen", [])
        self._loops = None
        self._preds = None
        self.promoted = [Fn(p, T, crate) for p in j.get("promoted", [])]

    def ty(self, i):
        return self.T[i]

    def local_ty(self, l):
        return self.T[self.locals[l][0]]

    def local_name(self, l):
        return self.locals[l][1]

    def succs(self, b):
        bb = self.bbs[b]
        if not bb:
            return []
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []

    def calls(self):
        for i, bb in enumerate(self.bbs):
            if bb and bb["t"][0] == "call":
                yield i, bb["t"]

    def callee(self, t):
        f = t[1]
        return f.get("res") or f.get("fn")

    # natural loops: header -> set of blocks
    def loops(self):
        if self._loops is None:
            n = len(self.bbs)
            order, seen = [], set()
            st = [(0, iter(self.succs(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen and self.bbs[s]:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            rpo = order[::-1]
            idx = {b: i for i, b in enumerate(rpo)}
            preds = {b: [] for b in rpo}
            for b in rpo:
                for s in self.succs(b):
                    if s in preds:
                        preds[s].append(b)
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in preds[b] if p in idom]
                    if not ps:
                        continue
                    x = ps[0]
                    for p in ps[1:]:
                        y = p
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                    if idom.get(b) != x:
                        idom[b] = x
                        ch = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = idom[b]
            loops = {}
            for b in rpo:
                for s in self.succs(b):
                    if s in idom and dom(s, b):
                        body = loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x in body:
                                continue
                            body.add(x)
                            w.extend(preds[x])
            self._loops = (loops, idom, preds, rpo)
        return self._loops

    def dominates(self, a, b):
        _, idom, _, _ = self.loops()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]


class Program:
    def derives(self, trait, adt):
        return (trait, adt) in self.derived

    def __init__(self, d):
        self.fns, self.adts, self.impls, self.foreign = {}, {}, {}, {}
        self.impl_list = []
        self.blanket = {}
        self.derived = set()
        self.dups = {}
        self.nfiles = 0
        for f in sorted(glob.glob(os.path.join(d, "*.jsonl"))):
            T, crate = None, None
            self.nfiles += 1
            for line in open(f, encoding="utf-8"):
                j = json.loads(line)
                if "types" in j:
                    T, crate = j["types"], j["crate"]
                elif "adt" in j:
                    if j["adt"] not in self.adts or j.get("local"):
                        self.adts[j["adt"]] = j
                elif "impl" in j:
                    ft = T[j["for"]]
                    self.impl_list.append((j["impl"], ft, j, crate))
                    if j.get("derived"):
                        self.derived.add((j["impl"], ft.get("p")))
                    for tr, it in j["items"]:
                        self.impls[(tr, ft.get("p") or ft["s"])] = it
                        if ft.get("k") == "param":
                            self.blanket[tr] = it
                elif "foreign" in j:
                    j["T"] = T
                    self.foreign[j["foreign"]] = j
                elif "bbs" in j:
                    fn = Fn(j, T, crate)
                    if fn.path in self.fns:
                        self.dups.setdefault(fn.path, []).append(fn)
                    else:
                        self.fns[fn.path] = fn

    def find(self, regex):
        r = re.compile(regex)
        return [f for p, f in self.fns.items() if r.search(p)]

    def get(self, path):
        return self.fns.get(path)


_prog = None


def load():
    global _prog
    if _prog is None:
        from . import build
        d, info = build.dump()
        import pickle
        pk = os.path.join(d, "prog.pickle")
        _prog = Program(d)
        _prog.info = info
    return _prog

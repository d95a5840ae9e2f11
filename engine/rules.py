"""Shared vocabulary of the property checks: seeded pattern analysis, canonical terms, reporting."""
import json, os, pickle, re, select, signal, sys, time, hashlib, traceback
from . import prog as progmod, absint, models
from .absint import T, C, S, show, show_cond, Budget, Engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sure(str):
    """A failure of the code, not of the analysis."""
    where = ""


def out_of_time(sig, frame):
    raise Budget("out of time")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.limit = time.monotonic() + (500 if tier == "quick" else 5000)
        self.P = progmod.load()
        self.ob, self.violations, self.undecided = [], {}, []
        self.rules, self.fns, self.notes = [], set(), []
        self.nok = 0
        self.murk = None
        self._cache = {}

    def rule(self, text):
        self.rules.append(text)

    def ok(self, key):
        self.ob.append(key)
        self.nok += 1

    def bad(self, key, msg, where=""):
        """A definite violation. `key` identifies the construct without line numbers."""
        self.ob.append(key)
        if self.murk:
            self.undecided.append(f"{key}: rests on {self.murk}, which is not followed: {msg[:160]}")
            return
        if key not in self.violations:
            self.violations[key] = {"key": key, "message": msg, "where": where}

    def unk(self, key, why):
        if isinstance(why, Sure):
            return self.bad(key, f"{key}: {why}", why.where)
        self.ob.append(key)
        self.undecided.append(f"{key}: {why}")

    def verdicts(self, key, paths, where=""):
        """One obligation decided by all its paths: [(path result, None | ("bad"|"unk", text))]. A path that rests on a choice the
        analysis could not make is only evidence when every path agrees."""
        bad = [(r, t) for r, v in paths if v and v[0] == "bad" for t in [v[1]]]
        unk = [v[1] for r, v in paths if v and v[0] == "unk"]
        sure = [t for r, t in bad if not r.conds]
        if sure or (bad and len(bad) == len(paths)):
            self.bad(key, (sure or [t for _, t in bad])[0], where)
        elif bad or unk or not paths:
            self.unk(key, unk[0] if unk else "rests on an undecided choice: " + bad[0][1][:160] if bad else "no path")
        else:
            self.ok(key)

    def decide(self, key, verdict, msg="", where=""):
        if verdict is None:
            self.unk(key, msg)
        elif verdict:
            self.ok(key)
        else:
            self.bad(key, msg, where)

    def where(self, path):
        f = self.P.fns.get(path)
        return f.span if f else path

    def parallel(self, jobs, share=()):
        """Run independent obligations (thunks reporting into this context) on all cores; the reports are merged in job order.
        `share`: dictionaries the thunks fill in."""
        n = min(len(jobs), int(os.environ.get("VERIF_JOBS", 0)) or min(os.cpu_count() or 1, 8))
        if n < 2:
            for j in jobs:
                j()
            return
        base = (self.ob, self.violations, self.undecided, self.nok, self.notes)

        def one(j):
            self.ob, self.violations, self.undecided, self.nok, self.notes = [], {}, [], 0, []
            for d in share:
                d.clear()
            try:
                j()
            except Exception as x:
                self.unk("analysis", f"{type(x).__name__}: {x}")
                self.notes.append("".join(traceback.format_exc())[-1500:])
            return self.ob, self.violations, self.undecided, self.nok, self.notes, [dict(d) for d in share]
        keep = [dict(d) for d in share]
        kids = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                code = 1
                try:
                    with os.fdopen(wr, "wb") as f:
                        for i in range(w, len(jobs), n):
                            b = pickle.dumps((i, one(jobs[i]), self.fns))
                            f.write(len(b).to_bytes(8, "big") + b)
                            f.flush()
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        got = {}
        bufs = [b""] * n
        sel = {r: k for k, (_, r) in enumerate(kids)}
        late = False
        while sel:
            left = self.limit + 60 - time.monotonic()
            if left < 0:
                late = True
                for pid, _ in kids:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                left = 5
            ready = select.select(list(sel), [], [], min(left, 30))[0]
            if late and not ready:
                break
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    bufs[sel[r]] += b
                else:
                    os.close(r)
                    del sel[r]
        for (pid, _), b in zip(kids, bufs):
            os.waitpid(pid, 0)
            while len(b) >= 8:
                k = int.from_bytes(b[:8], "big")
                if len(b) < 8 + k:
                    break
                i, out, fns = pickle.loads(b[8:8 + k])
                got[i] = out
                self.fns |= fns
                b = b[8 + k:]
        for i, j in enumerate(jobs):
            if i not in got:
                got[i] = ([f"obligation {i}"], {}, [f"obligation {i}: the time is up"], 0, [], []) if late else one(j)
        self.ob, self.violations, self.undecided, self.nok, self.notes = base
        for d, k in zip(share, keep):
            d.clear()
            d.update(k)
        for i in range(len(jobs)):
            ob, vi, un, nok, notes, sh = got[i]
            self.ob += ob
            self.undecided += un
            self.nok += nok
            self.notes += notes
            for k, v in vi.items():
                self.violations.setdefault(k, v)
            for d, x in zip(share, sh):
                for k, v in x.items():
                    d.setdefault(k, v)

    # ---- engine -------------------------------------------------------------------------
    def engine(self, **kw):
        return Engine(self.P, **kw)

    def run(self, path, setup=None, args=None, **kw):
        """-> ([PathResult], engine) or (None, engine) when the budget is exceeded."""
        reg, tenv = kw.pop("registry", False), kw.pop("tenv", None)
        e = self.engine(**kw)
        e.deadline = min(time.monotonic() + (40 if self.tier == "quick" else 120), self.limit)
        if reg:
            e.registry = lambda ty: self.registered(ty)
        # the deadline the engine polls, and one for the steps between two polls
        signal.signal(signal.SIGALRM, out_of_time)
        signal.setitimer(signal.ITIMER_REAL, max(e.deadline - time.monotonic(), 0) + 10)
        try:
            try:
                rs = e.run(path, args=args, setup=setup, tenv=tenv)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except (Budget, RecursionError, MemoryError) as x:
            self.fns |= e.visited_fns
            self.murk = None
            sure = isinstance(x, absint.Definite) and not getattr(e, "murked", False)
            e.failed = Sure(x) if sure else str(x)
            if sure:
                e.failed.where = self.where(path)
            return None, e
        self.fns |= e.visited_fns
        self.murk = next((ev[1] for r in rs for ev in r.events if ev[0] == "murky"), None)
        return rs, e

    def patterns(self, module_re):
        """RewritePattern impls whose match_and_rewrite lives under module_re."""
        r = re.compile(module_re)
        out = []
        for tr, ft, j, crate in self.P.impl_list:
            if not tr.endswith("RewritePattern"):
                continue
            for t, it in j["items"]:
                if t.endswith("::match_and_rewrite") and r.search(it) and it in self.P.fns:
                    out.append(it)
        return sorted(out)

    def registered(self, ty):
        k = ("inv", ty)
        if k not in self._cache:
            self._cache[k] = [v for v, _ in self.inventory("::" + ty.split("::")[-1])]
        return self._cache[k]

    def callees(self, path):
        """Resolved callees of a function, closures it builds included."""
        k = ("cg", path)
        if k not in self._cache:
            out = set()
            f = self.P.fns.get(path)
            if f is not None:
                for bb in f.bbs:
                    if not bb:
                        continue
                    t = bb[-1] if isinstance(bb, list) else bb.get("t")
                    out |= _called(t)
                    for x in _consts(bb):
                        out.add(x)
                out |= {p for p in self._closures().get(path, ())}
            self._cache[k] = {p for p in out if p in self.P.fns and p != path}
        return self._cache[k]

    def _closures(self):
        if "clo" not in self._cache:
            d = {}
            for p in self.P.fns:
                if p.endswith("}") and "::{closure" in p:
                    d.setdefault(p.rsplit("::{closure", 1)[0], []).append(p)
            self._cache["clo"] = d
        return self._cache["clo"]

    def reach(self, root, stop=None):
        """Functions reachable from root in the resolved call graph."""
        seen, w = set(), [root]
        while w:
            p = w.pop()
            if p in seen or p not in self.P.fns or (stop and re.search(stop, p)):
                continue
            seen.add(p)
            w.extend(self.callees(p))
        return seen

    def inventory(self, suffix):
        """Values submitted to the link-time registry (inventory), as frozen struct terms of that type."""
        out = []
        for p, f in list(self.P.fns.items()) + [(p, g) for p, l in self.P.dups.items() for g in l]:
            if not p.endswith("::__INVENTORY"):
                continue
            e = self.engine()
            try:
                for st, v in e.run_body(absint.State(), f, [], {}, depth=1):
                    v = e.freeze(st, v)
                    for x in subterms(v):
                        if x[0] == "adt" and x[1].endswith(suffix):
                            out.append((x, f))
                            break
            except (Budget, RecursionError):
                self.notes.append("inventory entry not evaluated: " + f.span)
        return out


def _called(t):
    out = set()
    if isinstance(t, list) and t and isinstance(t[0], str) and len(t) > 1 and isinstance(t[1], dict):
        f = t[1]
        for k in ("res", "fn"):
            if f.get(k):
                out.add(f[k])
    return out


def _consts(x):
    """Function items mentioned as values."""
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], str):
            yield x.get("res") or x["fn"]
        for v in x.values():
            yield from _consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from _consts(v)


def seed_op(dialect, name, extra=None, opidx=None):
    """Setup hook: the op argument has this dialect and name."""
    def setup(eng, st, args):
        op = args[opidx] if opidx is not None else next(a for a in args if a == T("arg:op"))
        st.eqs[T("op.dialect", op)] = ("=", S(dialect))
        st.eqs[T("op.name", op)] = ("=", S(name))
        if extra:
            extra(eng, st, args, op)
    return setup


def operand(op, i):
    return T("index", T("op.operands", op), C(i))


def result_ty(op, i=0):
    return T("index", T("op.results", op), C(i))


OP = T("arg:op")


def strip(v, memo=None):
    """Canonical form of a term: uids removed so that structurally equal DAGs compare equal."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ("op", "blk", "region") and len(v) > 2:
        return (v[0], 0) + tuple(strip(x) for x in v[2:])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in v)


def events(r, *kinds):
    return [e for e in r.events if e[0] in kinds]


def rw_events(r, kind=None):
    return [e for e in r.events if e[0] == "rw" and (kind is None or e[1] == kind)]


def mutated(r):
    return bool(rw_events(r))


def is_true(v):
    return v == C(1)


def subterms(v):
    if isinstance(v, tuple):
        if v:
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(v, pred):
    return any(pred(x) for x in subterms(v))


# ---- abbreviations used in reports and debugging ------------------------------------------------
def brief(v, n=300):
    s = show(v) if not isinstance(v, str) else v
    s = re.sub(r"as\(map_get\(field\(arg:self, '(\w+)'\), (.*?)\), 'Some', '0'\)", r"\1[\2]", s)
    s = re.sub(r"index\(op\.operands\(arg:op\), (\d+)\)", r"$\1", s)
    s = re.sub(r"index\(op\.results\(arg:op\), (\d+)\)", r"ty\1", s)
    s = re.sub(r"as\(as\(attr\(arg:op, '(\w+)'\), 'Some', '0'\), '(\w+)', '0'\)", r"@\1:\2", s)
    s = re.sub(r"as\((\w+), 'Some', '0'\)", r"\1!", s)
    return s[:n]


# ---- the specification of "convert_type": either the converted type or unchanged --------------
def m_convert_type(eng, st, fr, args, targs, path, t):
    ty = eng.freeze(st, args[2])
    return absint.some(T("conv", ty))


CONV_MODELS = {"trunk_ir::rewrite::type_converter::TypeConverter::convert_type": m_convert_type}


def m_opt_ok(path_suffix):
    pass


def seed_present(st, term, adt_variant="Some"):
    st.vars[term] = ("=", adt_variant)


def seed_shape(st, op, nops=2, nres=1, nregions=0, nsucc=0, eng=None):
    """The op has these many operands/results (the verifier's arity, stated by the dialect definition)."""
    if eng is not None:
        eng.shapes.update({("operands", op): nops, ("results", op): nres, ("regions", op): nregions,
                           ("successors", op): nsucc})
    for kind, n in (("operands", nops), ("results", nres), ("regions", nregions), ("successors", nsucc)):
        s = T("op." + kind, op)
        for i in range(n):
            st.vars[T("slice_get", s, C(i))] = ("=", "Some")
        if n:
            st.vars[T("slice_first", s)] = ("=", "Some")
            st.vars[T("slice_last", s)] = ("=", "Some")
            st.facts[T("is_empty", s)] = False
        st.eqs[T("len", s)] = ("=", C(n))


def seed_ty(st, ty, name, dialect="core"):
    st.eqs[T("field", T("tydata", ty), S("name"))] = ("=", S(name))
    if dialect is not None:
        st.eqs[T("field", T("tydata", ty), S("dialect"))] = ("=", S(dialect))


def seed_attr(st, op, key, variant, value=None):
    a = T("attr", op, S(key))
    st.vars[a] = ("=", "Some")
    v = T("as", a, S("Some"), S("0"))
    st.vars[v] = ("=", variant)
    if value is not None:
        st.eqs[T("as", v, S(variant), S("0"))] = ("=", value)


def attr_payload(op, key, variant):
    return T("as", T("as", T("attr", op, S(key)), S("Some"), S("0")), S(variant), S("0"))


def map_lookup_key(v):
    """as(map_get(M, K), Some, 0) -> (M, K)"""
    if v[0] == "t" and v[1] == "as" and len(v) == 5 and v[3] == S("Some") and v[2][0] == "t" and v[2][1] == "map_get":
        return v[2][2], v[2][3]
    return None


def calls(r, suffix):
    return [e for e in r.events if e[0] == "call" and e[1].endswith(suffix)]

"""Contracts on the real functions and the obligations they generate."""
from __future__ import annotations

import itertools
import os
import time
import traceback

REG = {}      # qualified name of the real function -> Contract
LEMMAS = {}   # name -> Lemma


class Contract:
    """ensures:  result == spec(args)  (same value, same exception), and no
    argument or object outside ``mutates`` is written.

    qual     real function (module.func or module.Class.method)
    params   name -> Decl (the requires clause: types, ranges)
    pre      further precondition, a boolean function in the spec language
    spec     the postcondition's right-hand side, a spec-language function
    result   how callers see a call: 'inline' (spec text), 'ew' (uninterpreted,
             element-wise over ``ew`` parameters), 'opaque' (uninterpreted array
             of shape ``shape``)
    """

    def __init__(self, qual, params, spec, pre=None, result="inline", ew=(), shape=None, sign=None, mutates=(),
                 rtol=1e-8, atol=0.0, n=60, notes="", state=None, samples=None, self_=None, writes=None, view=None,
                 kindres="f", scale=None, outs=None, paths=400, budget=20.0,
                 cls=None, wrap=None, runs=None, partial=False, rank=None, pre_opaque=False,
                 modular=False, concrete=False, nonneg=()):
        # nonneg: the (element-wise) result is not negative where these arguments are not
        self.nonneg = tuple(nonneg)
        # concrete: only run (a search for failing inputs), nothing is claimed proved of it
        self.concrete = concrete
        # rank: an opaque result is an array of that rank with uninterpreted lengths
        # pre_opaque: elsewhere the precondition is an uninterpreted predicate of its arguments
        # modular: callees are only seen through the modular view of their contracts
        self.rank, self.pre_opaque, self.modular = rank, pre_opaque, modular
        # partial: covers the inputs for which every step of the specified evaluation is inside the domain of its parts
        self.partial = partial
        # runs: which inputs the concrete run keeps (where rounding cannot decide a length)
        self.wrap, self.runs = wrap, runs
        self.qual, self.params, self.spec, self.pre = qual, dict(params), spec, pre
        self.result, self.ew, self.shape, self.sign = result, ew, shape, sign
        self.mutates, self.rtol, self.atol, self.n, self.notes = set(mutates), rtol, atol, n, notes
        self.view, self.kindres, self.outs = view, kindres, outs
        self.paths, self.budget = paths, budget
        self.writes, self.cls = writes, cls
        self.samples = samples
        REG[qual] = self

    # -- callers' view -------------------------------------------------------
    def check_pre(self, it, bound):
        from .val import BV
        from . import term as T
        if self.pre is None or it.mode != "code" and not it.ctx.domain:
            return
        mode = it.mode
        it.mode = "spec"
        try:
            from .decl import resolve
            f = resolve(it, self.pre)
            b = it.call(f, [], {k: v for k, v in bound.items() if k in _argnames(f)})
        finally:
            it.mode = mode
        b = it.truth(b)
        it.ctx.oblige("precondition", f"precondition of {self.qual} at a call", b)

    def check_types(self, it, bound):
        """Sign / range clauses of the parameter declarations."""
        for k, d in self.params.items():
            if k in bound:
                self.check_type(it, k, d, bound[k])

    def check_type(self, it, k, d, v):
        from . import term as T
        from .decl import Real, Int, Arr as DArr, Build, OneOf
        from .val import Arr, Obj, isnum, num
        if isinstance(d, OneOf):
            ds = [x for x in d.alts if isinstance(x, (Real, DArr, Build))]
            if len(ds) == 1 and (isnum(v) if isinstance(ds[0], Real) else isinstance(v, (Arr, Obj))):
                self.check_type(it, k, ds[0], v)
            return
        if isinstance(d, Build):
            if isinstance(v, Obj):
                for nm, part in d.parts.items():
                    if nm in v.attrs or "_" + nm in v.attrs:
                        self.check_type(it, f"{k}.{nm}", part, v.attrs.get(nm, v.attrs.get("_" + nm)))
            elif isinstance(v, Arr) and len(v.shape) == 2:
                at = v.at
                for j, (nm, part) in enumerate(d.parts.items()):
                    col = Arr([v.shape[0]], lambda i, j=j: at(i, T.const(j)), v.kind)
                    col.incr = False
                    self.check_type(it, f"{k}.{nm}", part, col)
            return
        el = d.elem if isinstance(d, DArr) else d
        if isinstance(d, DArr) and isinstance(v, Arr) and len(v.shape) == len(d.dims):
            if d.incr and not v.incr:
                at = v.at
                it.ctx.oblige("precondition", f"{k} of {self.qual} increases at a call",
                              T.ball(v.shape[0] - T.ONE, lambda i: T.blt0(num(at(i)).t - num(at(i + T.ONE)).t)))
            if d.minlen > 1:
                for n in v.shape:
                    it.ctx.oblige("precondition", f"{k} of {self.qual} has at least {d.minlen} elements at a call",
                                  T.ble0(T.const(d.minlen) - n))
        sign = el.sign if isinstance(el, Real) else None
        lo, hi = (el.lo, el.hi) if isinstance(el, (Real, Int)) else (None, None)
        if not isinstance(el, (Real, Int)):
            return

        def cond(x):
            b = T.TRUE
            if sign == "+":
                b = T.band(b, T.blt0(-x.t))
            elif sign == "0+":
                b = T.band(b, T.ble0(-x.t))
            if lo is not None:
                b = T.band(b, T.ble0(T.const(lo) - x.t))
            if hi is not None:
                b = T.band(b, T.ble0(x.t - T.const(hi)))
            return b
        if isnum(v):
            it.ctx.oblige("precondition", f"{k} of {self.qual} in range at a call", cond(num(v)))
        elif isinstance(v, Arr) and (sign or lo is not None or hi is not None):
            fv = [T.fresh("k", "0+") for _ in v.shape]
            vs = [T.pa(x) for x in fv]
            c = cond(num(v.at(*vs)))
            if c is not T.TRUE:
                rng = [T.band(T.ble0(-x), T.blt0(x - s)) for x, s in zip(vs, v.shape)]
                it.ctx.oblige("precondition", f"elements of {k} of {self.qual} in range at a call",
                              T.bor(c, *[T.bnot(r) for r in rng]), T.forall(fv, v.shape, c))

    def apply(self, it, bound, f):
        it.ctx.calls.add(self.qual)
        self.check_types(it, bound)
        self.check_pre(it, bound)
        mode, dep = it.mode, it.depth
        it.mode = "spec"
        try:
            from .decl import resolve
            if self.result != "inline" and not it.transparent:
                return self.wrapped(it, bound)
            g = resolve(it, self.spec)
            it.depth += 1
            r = it.run(g, it.bind(g, [], {k: v for k, v in bound.items() if k in _argnames(g)}))
            if self.cls is not None and isinstance(r, dict):
                from .val import Obj
                top, parts = self.cls if isinstance(self.cls, tuple) else (self.cls, {})
                r = Obj(resolve(it, top), {k: Obj(resolve(it, parts[k]), dict(v)) if k in parts and isinstance(v, dict) else v
                                           for k, v in r.items()})
            return r
        finally:
            it.mode, it.depth = mode, dep

    def predicate(self, it, bound):
        """The precondition as an uninterpreted predicate."""
        from . import npmodel as M, term as T
        from .val import BV
        a = T.mk("app", "holds:" + self.pre, tuple((k, M.key(it, bound[k])) for k in sorted(bound)))
        return BV(T.blt0(-T.pa(a)))

    def apply_spec(self, it, bound, f):
        if it.ctx.domain:
            self.check_types(it, bound)
            self.check_pre(it, bound)
        if self.result != "inline" and not it.transparent:
            return self.wrapped(it, bound)
        return it.run(f, bound)

    def wrapped(self, it, bound):
        """Uninterpreted result, in the form the contract ensures (``wrap``)."""
        r = self.opaque(it, bound)
        if self.wrap is None:
            return r
        from .decl import resolve
        return it.call(resolve(it, self.wrap), [r])

    def opaque(self, it, bound):
        from . import npmodel as M, term as T
        from .val import num, Arr
        name = self.spec
        names = [k for k in self.params if k in bound]
        if self.result == "ew":
            ews = [k for k in names if k in self.ew]
            rest = tuple((k, M.key(it, bound[k])) for k in names if k not in self.ew)
            def one(*xs):
                xs = [num(x) for x in xs]
                sign = self.sign
                if self.nonneg and all(T.psign(x.t) in ("+", "0+", "0") for k, x in zip(ews, xs) if k in self.nonneg):
                    sign = "0+"
                r = M._opq(name, xs, sign)
                from .val import Num
                a = T.mk("app", name, tuple(x.t for x in xs) + rest, info=sign)
                return Num(T.pa(a), "f", r.und, r.pois)
            return M.ew(it, one, [bound[k] for k in ews], "f")
        ks = tuple((k, M.key(it, bound[k])) for k in names)
        if self.rank is not None:
            dims = [T.pa(T.intsym(T.mk("app", f"{name}.dim{j}", ks, info="+"))) for j in range(self.rank)]
            return M.opaque_arr(name, ks, dims, self.kindres, self.sign)
        if self.shape is None:
            return M.opaque_num(name, ks, self.kindres, self.sign)
        from .decl import resolve
        shp = it.call(resolve(it, self.shape), [], {k: bound[k] for k in names if k in _argnames(resolve(it, self.shape))})
        if not isinstance(shp, tuple):
            shp = (shp,)
        shp = [num(s).t for s in shp]
        if not shp:
            return M.opaque_num(name, ks, self.kindres, self.sign)
        return M.opaque_arr(name, ks, shp, self.kindres, self.sign)


class Lemma:
    """A statement over the contracts: spec-language function returning a
    boolean that is true for every value of the parameters."""

    def __init__(self, name, params, fn, pre=None, lean=None, n=60, budget=20.0, transparent=True):
        self.name, self.params, self.fn, self.pre, self.lean, self.n = name, dict(params), fn, pre, lean, n
        self.budget, self.transparent = budget, transparent
        LEMMAS[name] = self


def _argnames(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


# --------------------------------------------------------------------------
class Obligation:
    __slots__ = ("name", "kind", "pc", "goal", "status", "how", "secs", "detail", "func")

    def __init__(self, func, name, kind, pc, goal):
        self.func, self.name, self.kind, self.pc, self.goal = func, name, kind, pc, goal
        self.status, self.how, self.secs, self.detail = "open", "", 0.0, ""


def spec_map():
    return {c.spec: c for c in REG.values()}


def pred_map():
    return {c.pre: c for c in REG.values() if c.pre_opaque}


def cases_of(params):
    keys = list(params)
    for combo in itertools.product(*[params[k].cases() for k in keys]):
        nm = ",".join(f"{k}={n}" for k, (n, d) in zip(keys, combo) if n)
        yield nm, {k: d for k, (n, d) in zip(keys, combo)}


def build_args(it, decls):
    dims = {}
    return {k: d.sym(it, k, dims) for k, d in decls.items()}


class FnReport:
    def __init__(self, qual):
        self.qual = qual
        self.obls = []
        self.paths = 0
        self.calls = set()
        self.errors = []
        self.secs = 0.0
        self.modes = set()
        self.vacuous = []


def explore(world, solver, runner, maxpaths=400):
    """Run ``runner(ctx)`` on every feasible decision sequence."""
    from .interp import Ctx
    saved = solver.pending
    solver.pending = [[]]
    out = []
    try:
        while solver.pending:
            dec = solver.pending.pop()
            if len(out) >= maxpaths:
                raise RuntimeError("too many paths")
            ctx = Ctx(solver, dec)
            runner(ctx)
            out.append(ctx)
    finally:
        solver.pending = saved
    return out


def verify(world, c, solver, transparent=None, deadline=None, case=None):
    """Generate and discharge the obligations of contract c (modular view of
    the callees first, their specification text as fall-back)."""
    if transparent is not None:
        return verify1(world, c, solver, transparent, deadline, case)
    r = verify1(world, c, solver, False, deadline, case)
    if bad(r) and not c.modular:
        r2 = verify1(world, c, solver, True, deadline, case)
        r.secs = r2.secs = r.secs + r2.secs
        if bad(r2) < bad(r):
            return r2
    return r


def bad(rep):
    return sum(o.status != "discharged" for o in rep.obls)


def verify1(world, c, solver, transparent=False, deadline=None, case=None):
    """case: number of the one alternative of the parameters to verify (all if None)."""
    from .interp import Interp
    from .smt import Prover, check_sat
    from .val import SymRaise, Unsupported
    from . import term as T
    from .decl import resolve
    rep = FnReport(c.qual)
    t0 = time.time()
    sm = spec_map()
    rep.modes.add("transparent" if transparent else "modular")
    for num_, (cname, decls) in enumerate(cases_of(c.params)):
        if case is not None and num_ != case:
            continue
        tag = c.qual + (f"[{cname}]" if cname else "")
        checked_vac = []

        def alive(ctx):
            if "live" not in checked_vac:
                r, _ = check_sat(ctx.pc, 1500)
                if r != "unsat":
                    checked_vac.append("live")

        def runner(ctx):
            it = Interp(world, ctx, REG, c.qual, sm)
            it.transparent = transparent
            a_code = build_args(it, decls)
            n_pc = len(ctx.pc)
            it.target = c.qual
            a_spec = build_args(it, decls)
            del ctx.pc[n_pc:]
            if c.pre is not None:
                it.mode = "spec"
                f = resolve(it, c.pre)
                ctx.domain = c.partial
                try:
                    b = it.call(f, [], {k: v for k, v in a_spec.items() if k in _argnames(f)})
                except SymRaise:
                    return          # no meaning there: outside the precondition
                b = it.truth(b)
                ctx.domain = False
                if b is T.FALSE:
                    return
                ctx.pc.append(b)
            if not c.partial:
                alive(ctx)
            it.target = c.qual
            rv = sv = None
            re_ = se = None
            g = resolve(it, c.spec)

            def run_spec():
                it.mode = "spec"
                ctx.rand = []
                it.depth += 1
                try:
                    return it.run(g, it.bind(g, [], {k: v for k, v in a_spec.items() if k in _argnames(g)})), None
                except SymRaise as e:
                    return None, e
                finally:
                    it.depth -= 1
            if c.partial:
                ctx.domain = True
                sv, se = run_spec()
                ctx.domain = False
                alive(ctx)
            it.mode = "code"
            ctx.rand = []
            f = resolve(it, c.qual)
            ctx.mut = set()
            try:
                rv = call_target(it, f, a_code)
            except SymRaise as e:
                re_ = e
            mut = set(ctx.mut)
            frame = frame_of(a_code, mut)
            rep.calls |= ctx.calls
            if "def" not in checked_vac:
                checked_vac.append("def")
                compare_defaults(it, f, g)
            if not c.partial:
                sv, se = run_spec()
            it.mode = "spec"
            compare_outcome(it, c, rv, re_, sv, se)
            if c.wrap and re_ is None and se is None:
                compare(it, sv, it.call(resolve(it, c.wrap), [sv]), "form of the result", c)
            if c.sign and re_ is None and se is None:
                sign_clause(it, c, sv)
            if c.nonneg and re_ is None and se is None:
                sign_clause(it, c, sv, [a_spec[k] for k in c.nonneg])
            if re_ is None and se is None:
                for path in c.outs or ():
                    compare(it, follow(it, a_code, path, "code"), follow(it, a_spec, path, "spec"), f"{path} afterwards", c)
            for m in sorted(frame):
                if c.outs and m.rsplit(".", 1)[-1].startswith("_"):
                    continue        # private state: seen through the public attributes in outs
                if not any(m == x or m.startswith(x + ".") or m.startswith(x + "[") for x in c.mutates):
                    ctx.obl.append(("frame", f"{m} is not modified", tuple(ctx.pc), T.FALSE))
            ctx.obl.append(("frame", "only the arguments listed in the frame are written", tuple(ctx.pc), T.TRUE))
        try:
            ctxs = explore(world, solver, runner, c.paths)
        except Exception as e:  # noqa: BLE001
            o = Obligation(c.qual, f"{tag}: contract is expressible for the current code", "engine", (), None)
            o.status, o.detail = "undischarged", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
            rep.obls.append(o)
            rep.errors.append(f"{tag}: {type(e).__name__}: {e}")
            continue
        rep.paths += len(ctxs)
        if "live" not in checked_vac:
            rep.vacuous.append(tag)
        for i, ctx in enumerate(ctxs):
            for kind, what, pc, goal in ctx.obl:
                nm = f"{tag}: {kind}: {what}" + (f" (path {i})" if len(ctxs) > 1 else "")
                rep.obls.append(Obligation(c.qual, nm, kind, pc, goal))
    discharge(rep, solver, c.budget, deadline)
    rep.secs = time.time() - t0
    return rep


def follow(it, args, path, mode):
    ks = path.split(".")
    v = args[ks[0]]
    old = it.mode
    it.mode = mode
    try:
        for k in ks[1:]:
            v = it.getattr(v, k)
    finally:
        it.mode = old
    return v


def defaults_of(it, f):
    """Default argument values of a function (or of a class's constructor)."""
    from .interp import ClassVal, Func
    if isinstance(f, ClassVal):
        f = f.members.get("__init__")
    if not isinstance(f, Func):
        return {}
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: v for x, v in zip(pos[len(pos) - len(f.defaults):], f.defaults)}
    out.update({x.arg: v for x, v in zip(a.kwonlyargs, f.kwdefaults) if v is not None})
    return out


def compare_defaults(it, f, g):
    from . import term as T
    df, dg = defaults_of(it, f), defaults_of(it, g)
    for k, y in dg.items():
        if k not in df:
            it.ctx.obl.append(("default", f"{k} has a default value", (), T.FALSE))
        else:
            compare(it, df[k], y, f"default of {k}", None, ())


def call_target(it, f, args):
    from .interp import ClassVal, Func
    from .val import Obj
    if isinstance(f, ClassVal):
        return it.call(f, [], args)
    if isinstance(f, Func):
        kw = dict(args)
        return it.run(f, it.bind(f, [], kw))
    return it.call(f, [], args)


def frame_of(args, mut):
    from .val import Obj
    out = set(mut)

    def walk(v, nm, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Obj):
            for k in v.written:
                out.add(f"{v.owner or nm}.{k}")
            for k, x in v.attrs.items():
                walk(x, f"{nm}.{k}", seen)
    for k, v in args.items():
        walk(v, k, set())
    return out


def discharge(rep, solver, budget, deadline=None):
    from . import smt
    discharge1(rep, solver, budget, deadline)
    again = [o for o in rep.obls if o.status != "discharged" and o.goal is not None]
    if 0 < len(again) <= 8:
        # a loaded machine: once more with longer solver limits
        for o in again:
            o.status = "open"
        smt.SCALE[0] = 4.0
        try:
            solver.cache.clear()
            lim = time.time() + 45.0
            discharge1(rep, solver, 2 * budget, lim if deadline is None else min(deadline, lim))
        finally:
            smt.SCALE[0] = 1.0


def discharge1(rep, solver, budget, deadline=None):
    from .smt import Prover
    for o in rep.obls:
        if o.status != "open":
            continue
        t = time.time()
        if deadline is not None and t > deadline:
            o.status, o.detail = "undischarged", "time budget of the check exhausted"
            continue
        pr = Prover(solver, budget if deadline is None else max(0.5, min(budget, deadline - t)))
        try:
            from .smt import prove_goal
            ok = prove_goal(pr, o.pc, o.goal)
        except Exception as e:  # noqa: BLE001
            ok = False
            o.detail = f"{type(e).__name__}: {e}"
        o.secs = time.time() - t
        o.how = "+".join(sorted(pr.how)) or "syntactic"
        o.status = "discharged" if ok else "undischarged"
        if not ok and not o.detail:
            o.detail = describe(o)


def describe(o):
    s = "hypotheses:\n" + "\n".join("  " + str(x)[:400] for x in o.pc[:20])
    if isinstance(o.goal, tuple):
        s += f"\nleft : {str(o.goal[1])[:1500]}\nright: {str(o.goal[2])[:1500]}"
    else:
        s += f"\ngoal : {str(o.goal)[:2000]}"
    return s


# --------------------------------------------------------------------------
def compare_outcome(it, c, rv, re_, sv, se):
    from . import term as T
    ctx = it.ctx
    if re_ is not None or se is not None:
        a = re_.etype if re_ is not None else "returns normally"
        b = se.etype if se is not None else "returns normally"
        ok = re_ is not None and se is not None and (a == b or b == "Exception")
        ctx.obl.append(("outcome", f"code: {a}; contract: {b}", tuple(ctx.pc), T.TRUE if ok else T.FALSE))
        return
    if c.view is not None:
        from .decl import resolve
        # abstraction function applied to the real result
        it.mode = "build"
        rv = it.call(resolve(it, c.view), [rv])
        it.mode = "spec"
    n0 = len(ctx.obl)
    compare(it, rv, sv, "result", c)
    if len(ctx.obl) == n0:
        ctx.obl.append(("result", "result is the specified constant", tuple(ctx.pc), T.TRUE))


def sign_clause(it, c, sv, given=()):
    """The sign callers assume of an uninterpreted result."""
    from . import term as T
    from .val import Arr, isnum, num
    pc = tuple(it.ctx.pc)
    if isinstance(sv, Arr):
        vs = [T.pa(T.fresh(f"i{j}", "0+")) for j in range(len(sv.shape))]
        pc += tuple(T.blt0(v - n) for v, n in zip(vs, sv.shape))
        sv = sv.at(*vs)
        given = [g.at(*vs[len(vs) - len(g.shape):]) if isinstance(g, Arr) else g for g in given]
    pc += tuple(T.ble0(-num(g).t) for g in given)
    x = num(sv)
    it.ctx.obl.append(("result", "the result is " + ("positive" if c.sign == "+" else "not negative"),
                       pc + ((T.bnot(x.und),) if x.und is not T.FALSE else ()),
                       T.blt0(-x.t) if c.sign == "+" else T.ble0(-x.t)))


def compare(it, r, s, nm, c, pc=None):
    from . import npmodel as M, term as T
    from .val import Arr, BV, Num, Obj, SymSeq, SymStr, isnum, num
    ctx = it.ctx
    pc = tuple(ctx.pc) if pc is None else pc

    def ob(kind, what, goal, hyp=()):
        ctx.obl.append((kind, what, pc + tuple(hyp), goal))
    if isinstance(s, SymSeq) or isinstance(r, SymSeq):
        s = M.np_array(it, s) if isinstance(s, (SymSeq, list, tuple)) else s
        r = M.np_array(it, r) if isinstance(r, (SymSeq, list, tuple)) else r
    if isinstance(s, Arr) and isinstance(r, (list, tuple)):
        r = M.np_array(it, r)
    if isinstance(r, Arr) and isinstance(s, (list, tuple)):
        s = M.np_array(it, s)
    if isinstance(s, Arr) and not s.shape:
        s = s.at()
    if isinstance(r, Arr) and not r.shape:
        r = r.at()
    if isinstance(r, (bool, BV)) and isinstance(s, (bool, BV)):
        x, y = it.truth(r), it.truth(s)
        ob("result", f"{nm} equals the specified truth value", T.band(T.bor(x, T.bnot(y)), T.bor(y, T.bnot(x))))
        return
    if isinstance(s, (Num, int, float)) and isnum(r) or isnum(s) and isinstance(r, BV):
        compare_num(ob, num(r), num(s), nm, c)
        return
    if isnum(r) and isinstance(s, Arr) and all(d is T.ONE for d in s.shape):
        s = s.at(*[T.ZERO] * len(s.shape))      # one-element array = scalar
        compare_num(ob, num(r), num(s), nm, c)
        return
    if isnum(s) and isinstance(r, Arr) and all(d is T.ONE for d in r.shape):
        r = r.at(*[T.ZERO] * len(r.shape))
        compare_num(ob, num(r), num(s), nm, c)
        return
    if isinstance(s, Arr) and isinstance(r, Arr):
        if len(s.shape) != len(r.shape):
            ob("result", f"{nm} has rank {len(s.shape)} (got {len(r.shape)})", T.FALSE)
            return
        for i, (p, q) in enumerate(zip(r.shape, s.shape)):
            ob("result", f"{nm} has the specified length along axis {i}", ("eq", p, q))
        if getattr(s, "dtype", None) in ("uint8", "uint16"):
            ob("result", f"{nm} has elements of type {s.dtype}", T.TRUE if getattr(r, "dtype", None) == s.dtype else T.FALSE)
        vs = [T.pa(T.fresh(f"i{j}", "0+")) for j in range(len(s.shape))]
        rng = [T.blt0(v - n) for v, n in zip(vs, s.shape)]
        if c is not None and getattr(c, "_peel", False):
            pass
        n0 = len(ctx.pc)
        ctx.pc.extend(rng)
        try:
            x, y = r.at(*vs), s.at(*vs)
        finally:
            del ctx.pc[n0:]
        pc = pc + tuple(rng)
        if isinstance(x, BV) and isinstance(y, BV):
            compare(it, x, y, nm + "[i]", c, pc)
            return
        compare_num(ob2(ctx, pc), num(x), num(y), nm + "[" + ",".join("i" * len(vs)) + "]", c)
        return
    if isinstance(s, dict) and isinstance(r, Obj):
        for k, y in s.items():
            from .val import SymRaise
            try:
                x = it.getattr(r, k)
            except SymRaise as e:
                ob("result", f"{nm} has attribute {k}", T.FALSE)
                continue
            compare(it, x, y, f"{nm}.{k}", c)
        return
    if isinstance(s, dict) and isinstance(r, dict):
        if list(sorted(s)) != list(sorted(r)):
            ob("result", f"{nm} has keys {sorted(s)}", T.FALSE)
            return
        for k in s:
            compare(it, r[k], s[k], f"{nm}[{k!r}]", c)
        return
    if isinstance(s, (tuple, list)) and isinstance(r, (tuple, list)):
        if len(s) != len(r):
            ob("result", f"{nm} has {len(s)} components (got {len(r)})", T.FALSE)
            return
        for i, (x, y) in enumerate(zip(r, s)):
            compare(it, x, y, f"{nm}[{i}]", c)
        return
    if isinstance(s, Obj) and isinstance(r, Obj):
        if getattr(s.cls, "name", s.cls) != getattr(r.cls, "name", r.cls):
            ob("result", f"{nm} is of class {s.cls}", T.FALSE)
            return
        for k in s.attrs:
            compare(it, it.getattr(r, k), s.attrs[k], f"{nm}.{k}", c)
        return
    if isinstance(s, SymStr) or isinstance(r, SymStr):
        ob("result", f"{nm} is the specified string",
           T.TRUE if isinstance(s, SymStr) and isinstance(r, SymStr) and s.parts == r.parts else T.FALSE)
        return
    ok = (r is s) or (type(r) is type(s) and isinstance(r, (str, bool)) and r == s)
    ob("result", f"{nm} is {s!r}"[:80], T.TRUE if ok else T.FALSE)


def ob2(ctx, pc):
    def ob(kind, what, goal, hyp=()):
        ctx.obl.append((kind, what, pc + tuple(hyp), goal))
    return ob


def compare_num(ob, r, s, nm, c=None):
    from . import term as T
    # NaN: the contract says exactly when; where it says NaN nothing else is asked
    ok = T.bor(T.bnot(s.pois), s.und)
    nn = [] if s.und is T.FALSE else [T.bnot(s.und)]
    if s.pois is not T.FALSE and not getattr(c, "partial", False):
        ob("spec", f"{nm}: the contract's right-hand side is defined", T.bnot(s.pois), nn)
    if r.und is not T.FALSE or s.und is not T.FALSE:
        ob("defined", f"{nm}: NaN exactly when specified",
           T.band(T.bor(r.und, T.bnot(s.und)), T.bor(s.und, T.bnot(r.und))), [] if s.pois is T.FALSE else [ok])
    hyp = nn + ([] if s.pois is T.FALSE else [T.bnot(s.pois)])
    if r.pois is not T.FALSE:
        ob("defined", f"{nm}: no division by zero or domain error", T.bnot(r.pois), hyp)
    h2 = hyp
    ob("result", f"{nm} equals the contract", ("eq", r.t, s.t), h2)
    if r.im is not None or s.im is not None:
        ob("result", f"imaginary part of {nm} equals the contract",
           ("eq", r.im if r.im is not None else T.ZERO, s.im if s.im is not None else T.ZERO), h2)


# --------------------------------------------------------------------------
def verify_lemma(world, l, solver, deadline=None):
    from .interp import Interp
    from .val import SymRaise
    from . import term as T
    from .decl import resolve
    from .smt import check_sat
    rep = FnReport("lemma " + l.name)
    t0 = time.time()
    sm = spec_map()
    for cname, decls in cases_of(l.params):
        tag = "lemma " + l.name + (f"[{cname}]" if cname else "")
        vac = []

        def runner(ctx):
            it = Interp(world, ctx, REG, None, sm)
            it.transparent = l.transparent
            it.mode = "spec"
            args = build_args(it, decls)
            it.mode = "spec"
            if l.pre:
                f = resolve(it, l.pre)
                ctx.pc.append(it.truth(it.call(f, [], {k: v for k, v in args.items() if k in _argnames(f)})))
            if not vac:
                r, _ = check_sat(ctx.pc, 1500)
                vac.append(r)
                if r == "unsat":
                    rep.vacuous.append(tag)
            f = resolve(it, l.fn)
            try:
                r = it.call(f, [], args)
            except SymRaise as e:
                ctx.obl.append(("lemma", f"raises {e.etype}", tuple(ctx.pc), T.FALSE))
                return
            rs = r if isinstance(r, (tuple, list)) else [r]
            for i, x in enumerate(rs):
                from .val import BV
                if isinstance(x, BV) and x.pois is not T.FALSE:
                    ctx.obl.append(("lemma", "statement is defined", tuple(ctx.pc), T.bnot(x.pois)))
                ctx.obl.append(("lemma", f"clause {i + 1}", tuple(ctx.pc), it.truth(x)))
        try:
            ctxs = explore(world, solver, runner)
        except Exception as e:  # noqa: BLE001
            o = Obligation(rep.qual, f"{tag}: lemma is expressible", "engine", (), None)
            o.status, o.detail = "undischarged", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
            rep.obls.append(o)
            rep.errors.append(f"{tag}: {type(e).__name__}: {e}")
            continue
        rep.paths += len(ctxs)
        for i, ctx in enumerate(ctxs):
            for kind, what, pc, goal in ctx.obl:
                rep.obls.append(Obligation(rep.qual, f"{tag}: {what}" + (f" (path {i})" if len(ctxs) > 1 else ""),
                                           kind, pc, goal))
    discharge(rep, solver, l.budget, deadline)
    rep.secs = time.time() - t0
    return rep

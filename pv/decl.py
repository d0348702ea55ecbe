"""Parameter declarations of contracts.

Each declaration gives the symbolic inputs of the proof (``sym``, every value
of the type) and a random generator for the CPython replay (``sample``)."""
from __future__ import annotations

import math


class Decl:
    note = ""

    def cases(self):
        return [("", self)]


class Real(Decl):
    """Real number.  sign: '+', '0+', None; lo/hi bounds (inclusive)."""

    def __init__(self, sign=None, lo=None, hi=None, smp=None):
        self.sign, self.lo, self.hi, self.smp = sign, lo, hi, smp
        if sign is None and lo is not None and lo >= 0:
            self.sign = "+" if lo > 0 else "0+"

    def sym(self, it, name, dims):
        from . import term as T
        from .val import Num
        a = T.mk("sym", name, info=self.sign)
        t = T.pa(a)
        self.bounds(it, t)
        return Num(t, "f")

    def bounds(self, it, t):
        from . import term as T
        if self.lo is not None and not (self.lo == 0 and self.sign in ("0+", "+")):
            it.ctx.pc.append(T.ble0(T.const(self.lo) - t))
        if self.hi is not None:
            it.ctx.pc.append(T.ble0(t - T.const(self.hi)))

    def draw(self, S):
        rng = S.rng
        if S.pool and rng.random() < S.ppool:
            v = rng.choice(S.pool) * rng.choice((1.0, 1.0, 1.0, 1 + 1e-6, 1 - 1e-6))
            if self.ok(v) and self.usual(v, 10.0):
                return v
        if S.drawn and rng.random() < 0.03:
            v = rng.choice(S.drawn)
            if self.ok(v) and self.usual(v, 2.0):
                return v
        v = self.draw0(rng)
        S.drawn.append(v)
        return v

    def usual(self, v, k):
        """Within the sampled range, or a factor k of it."""
        if self.smp is None or callable(self.smp):
            return True
        lo, hi = min(self.smp), max(self.smp)
        return min(lo * k, lo / k) <= v <= max(hi * k, hi / k)

    def ok(self, v):
        if self.sign == "+" and v <= 0 or self.sign == "0+" and v < 0:
            return False
        return (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)

    def draw0(self, rng):
        if self.smp is not None:
            s = self.smp
            if callable(s):
                return s(rng)
            if isinstance(s, list):
                return rng.choice(s)
            lo, hi = s
        else:
            lo = self.lo if self.lo is not None else (0.02 if self.sign in ("+", "0+") else -3.0)
            hi = self.hi if self.hi is not None else max(3.0, lo * 4 + 3.0)
        if self.sign in ("0+", None) and lo <= 0 <= hi and rng.random() < 0.06:
            return 0.0
        if self.sign == "+" or lo > 0:
            lo = max(lo, 1e-12)
            if hi / lo > 20:
                return math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return rng.uniform(lo, hi)

    def sample(self, S, name):
        v = S.hint(name)
        if v is not None and self.ok(v):
            return float(v)
        return float(self.draw(S))


class Int(Decl):
    def __init__(self, lo=0, hi=None, smp=None):
        self.lo, self.hi, self.smp = lo, hi, smp

    def sym(self, it, name, dims):
        from . import term as T
        from .val import Num
        a = T.intsym(T.mk("sym", name, "int", info="+" if self.lo >= 1 else ("0+" if self.lo >= 0 else None)))
        t = T.pa(a)
        if self.lo not in (0, 1):
            it.ctx.pc.append(T.ble0(T.const(self.lo) - t))
        if self.hi is not None:
            it.ctx.pc.append(T.ble0(t - T.const(self.hi)))
        return Num(t, "i")

    def ok(self, v):
        return v >= self.lo and (self.hi is None or v <= self.hi) and v == int(v)

    def sample(self, S, name):
        v = S.hint(name)
        if v is not None and self.ok(v) and abs(v) < 1e6:
            return int(v)
        if S.pool and S.rng.random() < S.ppool:
            v = S.rng.choice(S.pool)
            if self.ok(v) and abs(v) < 1e6:
                return int(v)
        rng = S.rng
        if self.smp:
            return rng.choice(self.smp) if isinstance(self.smp, list) else rng.randint(*self.smp)
        return rng.randint(self.lo, self.hi if self.hi is not None else self.lo + 8)


class Const(Decl):
    """A fixed value."""

    def __init__(self, v):
        self.v = v

    def sym(self, it, name, dims):
        return self.v

    def sample(self, S, name):
        return self.v


class OneOf(Decl):
    """Finite alternatives, each verified separately."""

    def __init__(self, *alts):
        self.alts = [a if isinstance(a, Decl) else Const(a) for a in alts]

    def cases(self):
        out = []
        for i, a in enumerate(self.alts):
            for nm, d in a.cases():
                out.append(((repr(a.v) if isinstance(a, Const) else f"alt{i}") + nm, d))
        return out


class Arr(Decl):
    """Array of symbolic shape.  dims: names or ints."""

    def __init__(self, *dims, sign=None, lo=None, hi=None, incr=False, smp=None, kind="f", minlen=1, aslist=False,
                 elem=None, size=None, dtype=None):
        self.dtype = dtype      # machine type of the elements in the concrete run
        self.size = size        # range of the lengths drawn for the concrete run
        self.dims, self.elem = dims, elem or Real(sign, lo, hi, smp)
        self.incr, self.kind, self.minlen, self.aslist = incr, kind, minlen, aslist

    def sym(self, it, name, dims):
        from . import term as T
        from .val import Arr as VArr, Num
        shape = [dim_sym(it, d, dims, self.minlen) for d in self.dims]
        el = self.elem
        sign = el.sign if isinstance(el, Real) else ("+" if el.lo >= 1 else "0+" if el.lo >= 0 else None)
        kind = self.kind

        def fn(*i):
            a = T.mk("elem", name if kind == "f" else name + "%" + kind, *i, info=sign)
            if kind == "i":
                T.intsym(a)
            return Num(T.pa(a), kind)
        r = VArr(shape, fn, kind)
        r.owner = name
        r.dtype = None
        r.incr = bool(self.incr)
        lo, hi = el.lo, el.hi
        if isinstance(el, Real) and (lo is not None and not (lo == 0 and sign) or hi is not None):
            def body(*ks):
                t = fn(*ks).t
                b = T.TRUE
                if lo is not None:
                    b = T.band(b, T.ble0(T.const(lo) - t))
                if hi is not None:
                    b = T.band(b, T.ble0(t - T.const(hi)))
                return b
            it.ctx.pc.append(forall(shape, body))
        if self.incr and len(shape) == 1:
            it.ctx.pc.append(T.ball(shape[0] - T.ONE, lambda k: T.blt0(fn(k).t - fn(k + T.ONE).t)))
        return r

    def sample(self, S, name):
        import numpy as np
        shape = [S.dim(d, self.minlen, self.size) for d in self.dims]
        n = 1
        for x in shape:
            n *= x
        if self.kind == "i":
            v = [self.elem.sample(S, name + "[]") for _ in range(n)]
        elif S.rng.random() < 0.04 and not self.incr:
            v = [float(self.elem.draw(S))] * n
        else:
            v = [float(self.elem.draw(S)) for _ in range(n)]
        if self.incr:
            v = sorted(set(v))
            while len(v) < n:
                v = sorted(set(v + [self.elem.draw(S) for _ in range(n)]))[:n]
        a = np.array(v, dtype=self.dtype or (float if self.kind == "f" else int)).reshape(shape)
        for ix, x in S.elem_hints(name):
            if ix is None or len(ix) != len(shape) or any(not 0 <= i < q for i, q in zip(ix, shape)):
                ix = tuple(S.rng.randrange(q) for q in shape)
            if self.elem.ok(x):
                a[ix] = x
        if self.incr:
            a = np.sort(a)
            if n > 1 and not np.all(np.diff(a) > 0):
                a = np.array(sorted(v)).reshape(shape)
        return a.tolist() if self.aslist else a


def forall(shape, body):
    from . import term as T
    if len(shape) == 1:
        return T.ball(shape[0], body)
    return T.ball(shape[0], lambda k: forall(shape[1:], lambda *r: body(k, *r)))


def dim_sym(it, d, dims, minlen):
    from . import term as T
    if isinstance(d, int):
        return T.const(d)
    if d not in dims:
        a = T.intsym(T.mk("sym", f"#{d}", info="+"))
        dims[d] = T.pa(a)
        if minlen > 1:
            it.ctx.pc.append(T.ble0(T.const(minlen) - dims[d]))
    return dims[d]


class Sampler:
    """State of one concrete sample."""

    def __init__(self, rng, hints=None, pool=(), ppool=0.1):
        self.rng, self.hints, self.pool, self.ppool = rng, hints or {}, list(pool), ppool
        self.dims, self.drawn = {}, []

    def hint(self, name):
        return self.hints.get(name)

    def elem_hints(self, name):
        return self.hints.get("@" + name, ())

    def dim(self, d, minlen, size=None):
        if isinstance(d, int):
            return d
        if d not in self.dims and size is not None:
            v = self.hints.get("#" + d)
            self.dims[d] = int(v) if v is not None and minlen <= v <= 400 else self.rng.randint(*size)
        if d not in self.dims:
            v = self.hints.get("#" + d)
            if v is not None and minlen <= v <= 400:
                self.dims[d] = int(v)
            else:
                ints = [x for x in self.pool if x == int(x) and minlen <= x <= 130]
                if ints and self.rng.random() < 0.03:
                    self.dims[d] = int(self.rng.choice(ints)) + self.rng.choice((0, 0, 1))
                else:
                    self.dims[d] = self.rng.randint(minlen, minlen + 5)
        return self.dims[d]


class Rec:
    """Deferred construction of a composite value (kept for the replay file)."""

    def __init__(self, make, parts):
        self.make, self.parts = make, parts


class Fn(Decl):
    """Arbitrary pure function argument.

    shape: function of the argument values giving the result shape source
    ('arg0' copies the broadcast shape of the arguments; a tuple of dimension
    names makes an array of that shape).  impl: concrete stand-in maker."""

    def __init__(self, shape, impl=None, sign=None):
        self.shape, self.impl, self.sign = shape, impl, sign

    def sym(self, it, name, dims):
        from .interp import OpaqueFn
        sh = self.shape
        if isinstance(sh, tuple):
            shp = tuple(dim_sym(it, d, dims, 1) for d in sh)
            return OpaqueFn(name, lambda args: shp, self.sign)
        return OpaqueFn(name, None, self.sign)

    def sample(self, S, name):
        if isinstance(self.shape, tuple):
            sh = tuple(S.dim(d, 1) for d in self.shape)
            return Rec("pv.concrete.array_fn", dict(shape=list(sh), a=S.rng.uniform(0.1, 2), b=S.rng.uniform(0.1, 2)))
        return Rec("pv.concrete.scalar_fn", dict(a=S.rng.uniform(0.1, 2), b=S.rng.uniform(0.1, 2), impl=self.impl or ""))


class Build(Decl):
    """Composite input: made by running a builder written in the spec language.

    ``parts``: sub-declarations; ``make``: dotted spec function building the
    value from the parts (run symbolically and concretely)."""

    def __init__(self, make, **parts):
        self.make, self.parts = make, parts

    def cases(self):
        out = [("", {})]
        for k, d in self.parts.items():
            out = [(nm + ("," if nm and cn else "") + (f"{k}={cn}" if cn else ""), {**m, k: dd})
                   for nm, m in out for cn, dd in d.cases()]
        if len(out) == 1:
            return [("", self)]
        return [("{" + nm + "}", Build(self.make, **m)) for nm, m in out]

    def sym(self, it, name, dims):
        args = {k: d.sym(it, f"{name}.{k}", dims) for k, d in self.parts.items()}
        mode = it.mode
        it.mode = "build"
        try:
            f = resolve(it, self.make)
            v = it.call(f, [], args)
        finally:
            it.mode = mode
        mark(v, name)
        return v

    def sample(self, S, name):
        return Rec(self.make, {k: d.sample(S, f"{name}.{k}") for k, d in self.parts.items()})


def mark(v, name):
    from .val import Arr as VArr, Obj
    if isinstance(v, Obj):
        if v.owner is None:
            v.owner = name
            v.written = set()
            for k, x in v.attrs.items():
                mark(x, f"{name}.{k}")
    elif isinstance(v, VArr):
        v.root().owner = name
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            mark(x, f"{name}[{i}]")


def resolve(it, dotted):
    m, f = dotted.rsplit(".", 1)
    if it.world.path_of(m):
        return it.module(m).get(f)
    m2, c = m.rsplit(".", 1)
    return it.getattr(it.module(m2).get(c), f)

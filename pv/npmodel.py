"""Models of the numpy / scipy / OpenCV / stdlib operations the code uses.

Elementwise operations, reductions, slicing, masking and in-place stores are
given their exact mathematical meaning.  Library kernels (FFT, resize,
filter2D, griddata, interp2d, Bessel functions, percentile, random draws, file
reads) are uninterpreted functions of their arguments: equal arguments give
equal results, nothing else is assumed."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import term as T
from . import val as V
from .interp import (AppendRec, Bound, Builtin, ClassVal, ExcVal, Ext, Func, Interp, Module, OpaqueFn, Undefined, vsub)
from .term import FALSE, HALF, ONE, TRUE, ZERO, A, P, band, bnot, bor, const, ind, ite, pa
from .val import (Arr, BV, Num, Obj, Slice, SymRaise, SymSeq, SymStr, Unsupported, b_ite, isnum, jk, mkstr, n_ite, num)

ALL = Slice(None, None, None)


# ---- shapes ---------------------------------------------------------------
def dim_eq(it, a, b):
    if a is b:
        return True
    ca, cb = T.cval(a), T.cval(b)
    if ca is not None and cb is not None:
        return ca == cb
    return it.ctx.entails(T.beq0(a - b))


def bshape(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = ONE
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is cur or T.cval(x) == 1:
                continue
            if T.cval(cur) == 1:
                cur = x
                continue
            if dim_eq(it, cur, x):
                continue
            ca, cb = T.cval(cur), T.cval(x)
            if ca is not None and cb is not None:
                raise SymRaise("ValueError", ("operands could not be broadcast",))
            # shapes must agree for the operation to be defined
            if it.ctx.nofork and (cur.fv or x.fv):
                raise Unsupported("broadcast of index-dependent shapes")
            if not it.ctx.branch(T.beq0(cur - x), "equal shapes"):
                # a dimension of one would broadcast: leave to the caller's precondition
                raise SymRaise("ValueError", ("operands could not be broadcast",))
        out.append(cur)
    return out


def bfn(a, nd):
    """Element accessor of a broadcast operand."""
    if isinstance(a, Arr):
        f = a.snap()
        k = len(a.shape)
        ones = [T.cval(s) == 1 for s in a.shape]

        def g(*idx):
            idx = idx[nd - k:]
            return f(*[ZERO if o else i for o, i in zip(ones, idx)])
        return g
    return lambda *idx: a


def toval(it, v):
    if isinstance(v, (list, tuple, SymSeq)):
        return np_array(it, v)
    if isinstance(v, bool):
        return BV(TRUE if v else FALSE)
    if isinstance(v, BV) or isinstance(v, Arr):
        return v
    if isnum(v):
        return num(v)
    if v is None or isinstance(v, str):
        raise SymRaise("TypeError", ())
    if isinstance(v, Undefined):
        raise Unsupported(v.why)
    raise Unsupported(f"array operation on {type(v).__name__}")


def asnum(x):
    return num(x)


def ew(it, f, vals, kind=None):
    vals = [toval(it, v) for v in vals]
    if not any(isinstance(v, Arr) for v in vals):
        return f(*[v for v in vals])
    shape = bshape(it, [v.shape if isinstance(v, Arr) else [] for v in vals])
    nd = len(shape)
    fs = [bfn(v, nd) for v in vals]
    if kind is None:
        kind = "f"
        try:
            kinds = [v.kind if not isinstance(v, BV) else "b" for v in vals]
            r = "b"
            for k in kinds:
                r = jk(r, k)
            kind = r if r != "b" else "i"
        except Exception:
            pass
    return Arr(shape, lambda *idx: f(*[g(*idx) for g in fs]), kind)


def ew1(it, f, v, kind=None):
    r = ew(it, lambda x: f(asnum(x)), [v], kind)
    return r


def ew2(it, f, a, b, kind=None):
    r = ew(it, lambda x, y: f(asnum(x), asnum(y)), [a, b], kind)
    if isinstance(r, Arr) and kind is None:
        # kind of the result: probe lazily
        r.kind = _probe_kind(r)
    return r


def ew2b(it, f, a, b):
    return ew(it, f, [a, b], "b")


def _probe_kind(r):
    try:
        e = r.at(*[pa(T.fresh("i", "0+")) for _ in r.shape]) if r.shape else r.at()
        return e.kind if isinstance(e, Num) else "b"
    except Unsupported:
        return r.kind


def ewf(f, kind="f"):
    def g(it, x, *a, **k):
        if a or k:
            k.pop("dtype", None)
            if a or k:
                raise Unsupported("extra arguments of an elementwise function")
        r = ew1(it, f, x)
        if isinstance(r, Arr):
            r.kind = _probe_kind(r)
        return r
    return g


def broadcast_to(it, a, shape):
    if not isinstance(a, Arr):
        v = num(a)
        return Arr(shape, lambda *i: v, v.kind)
    s2 = bshape(it, [a.shape, list(shape)])
    return Arr(s2, bfn(a, len(s2)), a.kind)


# ---- construction ---------------------------------------------------------
def tbl(consts, k):
    """Element k of a constant table."""
    c = T.cval(k)
    n = len(consts)
    if c is not None:
        c = int(c)
        return const(consts[c]) if 0 <= c < n else ZERO
    if n >= 2:
        d = consts[1] - consts[0]
        if all(consts[i + 1] - consts[i] == d for i in range(n - 1)):
            return const(consts[0]) + const(d) * k
    if n == 1:
        return const(consts[0])
    return pa(T.mk("app", "tbl", tuple(consts), k, info="+" if all(c > 0 for c in consts) else (
        "0+" if all(c >= 0 for c in consts) else None)))


def grid_arr(consts, kind="f"):
    consts = tuple(consts)
    a = Arr([const(len(consts))], lambda k: Num(tbl(consts, k), kind), kind)
    a.grid = consts
    a.incr = all(consts[i] < consts[i + 1] for i in range(len(consts) - 1))
    return a


def np_array(it, v, dtype=None, **kw):
    kw.pop("copy", None)
    if kw:
        raise Unsupported("np.array options")
    if isinstance(v, Arr):
        return astype(it, v.copy(), dtype) if dtype is not None else v.copy()
    if isnum(v) or isinstance(v, (BV, bool)):
        x = toval(it, v)
        return Arr([], lambda: x, x.kind if isinstance(x, Num) else "b")
    if isinstance(v, SymSeq) and v.arr is not None:
        return v.arr.copy()
    if isinstance(v, SymSeq):
        e = v.fn(pa(T.fresh("k", "0+")))
        if isinstance(e, Num):
            return Arr([v.n], lambda k: num(v.fn(k)), e.kind)
        if isinstance(e, BV):
            return Arr([v.n], lambda k: v.fn(k), "b")
        if isinstance(e, Arr):
            return Arr([v.n] + list(e.shape), lambda k, *i: v.fn(k).at(*i), e.kind)
        raise Unsupported("array from a symbolic sequence")
    v = list(v)
    if not v:
        return grid_arr(())
    xs = [toval(it, x) for x in v]
    if all(isinstance(x, Num) for x in xs):
        kind = "i"
        for x in xs:
            kind = jk(kind, x.kind)
        if all(T.cval(x.t) is not None and x.im is None and x.und is FALSE and x.pois is FALSE for x in xs):
            r = grid_arr([T.cval(x.t) for x in xs], kind)
        else:
            r = Arr([const(len(xs))], lambda k: pick(xs, k), kind)
        if dtype is not None:
            r = astype(it, r, dtype)
        return r
    if all(isinstance(x, BV) for x in xs):
        def fb(k):
            c = T.cval(k)
            if c is not None:
                return xs[int(c)]
            r = xs[-1]
            for i in range(len(xs) - 2, -1, -1):
                r = b_ite(T.beq0(k - const(i)), xs[i], r)
            return r
        return Arr([const(len(xs))], fb, "b")
    if all(isinstance(x, (Arr, Num)) for x in xs):
        shp = bshape(it, [x.shape if isinstance(x, Arr) else [] for x in xs])
        for x in xs:
            if len(x.shape if isinstance(x, Arr) else []) != len(shp):
                raise SymRaise("ValueError", ("inhomogeneous",))
        fs = [bfn(x, len(shp)) for x in xs]
        kind = "i"
        for x in xs:
            kind = jk(kind, x.kind)
        return Arr([const(len(xs))] + shp, lambda k, *i: pickf(fs, k, i), kind)
    raise Unsupported("np.array of mixed values")


def pick(xs, k):
    c = T.cval(k)
    if c is not None:
        return xs[int(c)] if 0 <= c < len(xs) else num(0)
    if len(xs) > 40:
        raise Unsupported("symbolic index into a long literal array")
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
        r = n_ite(T.beq0(k - const(i)), xs[i], r)
    return r


def pickf(fs, k, i):
    c = T.cval(k)
    if c is not None:
        return fs[int(c)](*i)
    r = fs[-1](*i)
    for j in range(len(fs) - 2, -1, -1):
        r = n_ite(T.beq0(k - const(j)), fs[j](*i), r)
    return r


def shape_arg(it, s):
    if isnum(s):
        return [num(s).t]
    if isinstance(s, (tuple, list)):
        return [num(x).t for x in s]
    if isinstance(s, Arr):
        n, item = it.iterate(s)
        return [num(item(const(i))).t for i in range(int(T.cval(n)))]
    raise Unsupported("shape argument")


def filled(c):
    def f(it, shape, dtype=None, **kw):
        if kw:
            raise Unsupported("options")
        sh = shape_arg(it, shape)
        k = dtype_kind(dtype) if dtype is not None else "f"
        v = Num(const(c), k)
        return Arr(sh, lambda *i: v, k)
    return f


def filled_like(c):
    def f(it, a, dtype=None, **kw):
        if kw:
            raise Unsupported("options")
        a = toval(it, a)
        sh = a.shape if isinstance(a, Arr) else []
        k = dtype_kind(dtype) if dtype is not None else a.kind
        v = Num(const(c), k)
        return Arr(sh, lambda *i: v, k)
    return f


def np_full(it, shape, fill, dtype=None):
    sh = shape_arg(it, shape)
    v = num(fill)
    r = Arr(sh, lambda *i: v, v.kind)
    return astype(it, r, dtype) if dtype is not None else r


def np_full_like(it, a, fill, dtype=None):
    v = num(fill)
    return Arr(a.shape, lambda *i: v, a.kind if dtype is None else dtype_kind(dtype))


def dtype_kind(d):
    n = d.name if isinstance(d, (Ext, Builtin, ClassVal)) else d
    n = str(n).split(".")[-1]
    if n in ("float", "float64", "double", "f8", "float32", "f4", "single", "float_", "d", "f"):
        return "f"
    if n in ("int", "int64", "int32", "intp", "int_", "i8", "uint8", "u1", "int16", "uint16"):
        return "i"
    if n in ("bool", "bool_"):
        return "b"
    if n in ("complex", "complex128"):
        return "c"
    raise Unsupported(f"dtype {n}")


def dtype_name(d):
    n = d.name if isinstance(d, (Ext, Builtin, ClassVal)) else d
    n = str(n).split(".")[-1]
    return {"float": "float64", "double": "float64", "int": "int64", "f8": "float64", "f4": "float32"}.get(n, n)


def np_arange(it, *a, **kw):
    kw.pop("dtype", None)
    if kw:
        raise Unsupported("arange options")
    a = [num(x) for x in a]
    if len(a) == 1:
        a = [num(0), a[0], num(1)]
    elif len(a) == 2:
        a = a + [num(1)]
    s, e, st = a
    kind = jk(jk(s.kind, e.kind), st.kind)
    pois = bor(s.pois, e.pois, st.pois)
    if pois is not FALSE or s.und is not FALSE or e.und is not FALSE:
        it.ctx.oblige("defined", "arange bounds are defined", bnot(bor(pois, s.und, e.und, st.und)))
    n = T.pceil((e.t - s.t) / st.t)
    c = T.cval(n)
    if c is not None:
        c = max(0, int(c))
        cs, cst = T.cval(s.t), T.cval(st.t)
        if cs is not None and cst is not None and c <= 4096:
            return grid_arr([cs + i * cst for i in range(c)], kind)
        n = const(c)
    else:
        n = nonneg(it, n)
    r = Arr([n], lambda k: Num(s.t + k * st.t, kind), kind)
    r.incr = T.psign(st.t) == "+"
    return r


def nonneg(it, n):
    """max(0, n) for a length."""
    if T.psign(n) in ("+", "0+"):
        return n
    if it.ctx.entails(T.ble0(-n)):
        return n
    return T.pmax([ZERO, n])


def np_linspace(it, a, b, n=None, endpoint=True, num_=None, **kw):
    if "num" in kw:
        n = kw.pop("num")
    kw.pop("dtype", None)
    if kw:
        raise Unsupported("linspace options")
    if n is None:
        n = num(50)
    a, b, n = num(a), num(b), num(n)
    if endpoint is True or endpoint is None:
        den = n.t - ONE
    else:
        den = n.t
    st = (b.t - a.t) / den if T.cval(den) != 0 else ZERO
    u, p = bor(a.und, b.und), bor(a.pois, b.pois)
    cn = T.cval(n.t)
    if cn is not None and T.cval(a.t) is not None and T.cval(st) is not None and cn <= 4096 and u is FALSE and p is FALSE:
        return grid_arr([T.cval(a.t) + i * T.cval(st) for i in range(int(cn))])
    r = Arr([n.t], lambda k: Num(a.t + k * st, "f", u, p), "f")
    r.incr = T.psign(st) == "+"
    return r


# ---- indexing -------------------------------------------------------------
def norm_index(it, i, n, check=True):
    """Python index -> 0-based; forks IndexError."""
    i = num(i)
    if i.kind == "f":
        raise SymRaise("IndexError", ())
    c = T.cval(i.t)
    cn = T.cval(n)
    if i.pois is not FALSE:
        it.ctx.oblige("defined", "index is defined", bnot(i.pois))
    if c is not None and cn is not None:
        if not (-cn <= c < cn):
            raise SymRaise("IndexError", ())
        return const(c if c >= 0 else cn + c)
    if c is not None:
        if c >= 0:
            inb = T.blt0(const(c) - n)
            r = const(c)
        else:
            inb = T.ble0(const(-c) - n)
            r = n + const(c)
        if check and not decide(it, inb):
            raise SymRaise("IndexError", ())
        return r
    if not check:
        return i.t
    if T.psign(i.t) in ("+", "0+") or decide_quiet(it, T.ble0(-i.t)):
        if not decide(it, T.blt0(i.t - n)):
            raise SymRaise("IndexError", ())
        return i.t
    if decide_quiet(it, T.blt0(i.t)):
        if not decide(it, T.ble0(-i.t - n)):
            raise SymRaise("IndexError", ())
        return n + i.t
    if it.ctx.nofork and i.t.fv:
        raise Unsupported("index of unknown sign")
    if it.ctx.branch(T.ble0(-i.t)):
        return norm_index(it, i, n)
    return norm_index(it, i, n)


def dict_key(it, o, k):
    """The key of o that equals k, as a 1-tuple."""
    kk = T.cval(k.t) if isinstance(k, Num) else k
    if isinstance(k, BV) and k.b in (TRUE, FALSE):
        kk = k.b is TRUE
    if not isinstance(kk, BV) and kk is not None or k is None:
        return (kk,) if kk in o else None
    if isinstance(k, Num) and (k.im is not None or k.und is not FALSE):
        raise Unsupported("key of a dictionary")
    for q in o:
        if isinstance(q, (bool, int, Fr)):
            if isinstance(k, BV):
                c = k.b if q == 1 else (bnot(k.b) if q == 0 else FALSE)
            else:
                c = T.beq0(k.t - const(Fr(q)))
            if decide(it, c):
                return (q,)
        elif not isinstance(q, (str, type(None), tuple)):
            raise Unsupported("key of a dictionary")
    return None


def b_sorted(it, x, key=None, reverse=False):
    n, at = it.iterate(x)
    c = T.cval(n)
    if c is None or c > 6:
        if isinstance(x, SymSeq) and x.arr is not None:
            x = x.arr
        if isinstance(x, Arr) and x.incr and key is None and reverse is False:
            return SymSeq(x.shape[0], x.snap(), x.copy())
        raise Unsupported("sorting")
    xs = [at(const(i)) for i in range(int(c))]
    if all(isinstance(v, str) for v in xs) and key is None:
        return sorted(xs, reverse=bool(reverse))
    if key is None and all(isnum(v) for v in xs):
        xs = [num(v) for v in xs]
        if any(v.im is not None or v.und is not FALSE for v in xs):
            raise Unsupported("sorting partial numbers")
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                a, b = xs[j], xs[j + 1]
                po = bor(a.pois, b.pois)
                kd = a.kind if a.kind == b.kind else "f"
                xs[j], xs[j + 1] = Num(T.pmin([a.t, b.t]), kd, FALSE, po), Num(T.pmax([a.t, b.t]), kd, FALSE, po)
        k = it.ctx.known(it.truth(reverse)) if reverse is not False else False
        if k is None:
            raise Unsupported("sorting")
        return xs[::-1] if k else xs
    if reverse is not False:
        raise Unsupported("sorting")
    out = []
    ks = []
    for v in xs:        # insertion; equal keys keep their order
        q = num(v if key is None else it.call(key, [v], {}))
        i = len(out)
        while i and decide(it, T.blt0(q.t - ks[i - 1].t)):
            i -= 1
        out.insert(i, v)
        ks.insert(i, q)
    return out


def np_sort(it, a, axis=-1):
    a = toval(it, a)
    if len(a.shape) != 1:
        raise Unsupported("sorting")
    if a.incr:
        return a.copy()
    r = b_sorted(it, a)
    return np_array(it, r)


def np_unique(it, a, **kw):
    a = toval(it, a)
    if kw or len(a.shape) != 1 or not a.incr:
        raise Unsupported("unique")
    return a.copy()


def decide_quiet(it, b):
    return it.ctx.entails(b)


def decide(it, b):
    k = it.ctx.known(b)
    if k is not None:
        return k
    if it.ctx.nofork and b.fv:
        if it.ctx.solver.entails(it.ctx.pc, b):
            return True
        # become an obligation instead of a fork
        it.ctx.oblige("bounds", f"index in bounds: {b}", b)
        return True
    return it.ctx.branch(b, "index in bounds")


def slice_bounds(it, s, n):
    """(lo, len, step) with 0 <= lo, step +-1 or positive constant."""
    step = 1 if s.step is None else T.cval(num(s.step).t)
    if step is None or step.denominator != 1 or step == 0:
        raise Unsupported("slice step")
    step = int(step)
    if step == -1 and s.lo is None and s.hi is None:
        return n - ONE, n, -1
    if step < 0:
        raise Unsupported("negative slice step with bounds")

    def clip(x, default):
        if x is None:
            return default
        x = num(x)
        if x.kind == "f" :
            raise SymRaise("TypeError", ("slice indices must be integers",))
        c = T.cval(x.t)
        cn = T.cval(n)
        if c is not None and cn is not None:
            c = c + cn if c < 0 else c
            return const(min(max(c, 0), cn))
        neg = (T.psign(x.t) in ("-",)) or (c is not None and c < 0)
        if neg or (T.psign(x.t) is None and it.ctx.entails(T.blt0(x.t))):
            v = x.t + n
            if it.ctx.entails(T.ble0(-v)):
                return v
            return T.pmax([ZERO, v])
        if T.psign(x.t) in ("+", "0+", "0") or it.ctx.entails(T.ble0(-x.t)):
            if it.ctx.entails(T.ble0(x.t - n)):
                return x.t
            return T.pmin([n, x.t])
        a = T.pmax([ZERO, x.t + n])
        b = T.pmin([n, x.t])
        return ite(T.blt0(x.t), a, b)
    lo = clip(s.lo, ZERO)
    hi = clip(s.hi, n)
    ln = nonneg(it, hi - lo)
    if step > 1:
        ln = T.pceil(ln / const(step))
    return lo, ln, step


def getitem(it, o, k, check=True):
    if isinstance(o, (list, tuple)):
        if isinstance(k, Slice):
            g = lambda x: None if x is None else int(_cint(x))
            return o[slice(g(k.lo), g(k.hi), g(k.step))]
        if isinstance(k, Arr):
            raise SymRaise("TypeError", ())
        c = T.cval(num(k).t)
        if c is None:
            n, item = it.iterate(o)
            i = norm_index(it, k, n)
            return item(i)
        if not -len(o) <= c < len(o):
            raise SymRaise("IndexError", ())
        return o[int(c)]
    if isinstance(o, dict):
        kk = dict_key(it, o, k)
        if kk is None:
            raise SymRaise("KeyError", ())
        return o[kk[0]]
    if isinstance(o, SymSeq):
        if isinstance(k, Slice):
            lo, ln, st = slice_bounds(it, k, o.n)
            return SymSeq(ln, lambda j: o.fn(lo + j * const(st)))
        return o.fn(norm_index(it, k, o.n, check))
    if isinstance(o, str):
        c = T.cval(num(k).t)
        return o[int(c)]
    if not isinstance(o, Arr):
        if isinstance(o, Obj) and isinstance(o.cls, ClassVal) and "__getitem__" in o.cls.members:
            return it.call_func(o.cls.members["__getitem__"], [k], {}, o)
        if isinstance(o, Num):
            raise SymRaise("IndexError", ())
        raise Unsupported(f"indexing {type(o).__name__}")
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [np_array(it, x) if isinstance(x, list) else x for x in ks]
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        ks = ks[:i] + [ALL] * (len(o.shape) - (len([x for x in ks if x is not None]) - 1)) + ks[i + 1:]
    if any(isinstance(x, Arr) and x.kind == "b" for x in ks) or any(isinstance(x, BV) for x in ks):
        return mask_get(it, o, ks)
    if any(isinstance(x, Arr) for x in ks):
        return fancy_get(it, o, ks)
    nreal = len([x for x in ks if x is not None])
    if nreal > len(o.shape):
        raise SymRaise("IndexError", ("too many indices",))
    ks = ks + [ALL] * (len(o.shape) - nreal)
    # basic indexing: a view
    shape, maps = [], []
    d = 0
    invspec = []
    for x in ks:
        if x is None:
            shape.append(ONE)
            maps.append(("new",))
            continue
        n = o.shape[d]
        if isinstance(x, Slice):
            lo, ln, st = slice_bounds(it, x, n)
            shape.append(ln)
            maps.append(("s", lo, st))
        elif isnum(x):
            maps.append(("i", norm_index(it, x, n, check)))
        elif isinstance(x, bool):
            raise Unsupported("boolean index")
        else:
            raise Unsupported(f"index {type(x).__name__}")
        d += 1
    if not shape:
        return o.at(*[m[1] for m in maps])

    def imap(*idx):
        out, j = [], 0
        for m in maps:
            if m[0] == "new":
                j += 1
            elif m[0] == "i":
                out.append(m[1])
            else:
                out.append(m[1] + idx[j] * const(m[2]) if m[2] != 1 or m[1] is not ZERO else idx[j])
                j += 1
        return tuple(out)
    r = Arr(shape, None, o.kind, base=o, imap=imap)
    r.viewmaps = maps
    r.dtype = o.dtype
    if len(o.shape) == 1 and len(maps) == 1 and maps[0][0] == "s" and maps[0][2] > 0:
        r.incr = o.incr
        if o.grid is not None and T.cval(shape[0]) is not None and T.cval(maps[0][1]) is not None:
            lo = int(T.cval(maps[0][1]))
            g = tuple(o.grid[lo + i * maps[0][2]] for i in range(int(T.cval(shape[0]))))
            r.grid = g
    if len(o.shape) == 1 and len(maps) == 1 and maps[0][0] == "s" and maps[0][2] == -1 and o.grid is not None:
        r.grid = tuple(reversed(o.grid))
    if len(o.shape) == 2 and maps[0] == ("s", ZERO, 1) and maps[1][0] == "i" and getattr(o, "incr0", None) is not None:
        r.incr = T.cval(maps[1][1]) == o.incr0
    return r


def _cint(x):
    c = T.cval(num(x).t)
    if c is None:
        raise Unsupported("symbolic index into a Python sequence")
    return c


def nth(n, l, j):
    return pa(T.intsym(T.mk("nth", n, l, j, info="0+")))


def mask_get(it, o, ks):
    if len(ks) == 1 and isinstance(ks[0], Arr) and len(ks[0].shape) == len(o.shape) and len(o.shape) > 1:
        m = ks[0]
        for p, q in zip(m.shape, o.shape):
            if not dim_eq(it, p, q):
                raise SymRaise("IndexError", ())
        if len(o.shape) != 2:
            raise Unsupported("mask of rank > 2")
        # flatten row-major
        n = o.shape[0] * o.shape[1]
        w = o.shape[1]
        v = T.fresh("k", "0+")
        q = T.pfloor(pa(v) / w)
        l = T.mklam(m.at(q, pa(v) - w * q).b, v)
        cnt = T.sum_close(n, ind(m.at(q, pa(v) - w * q).b), v)
        f = o.snap()

        def fn(j):
            x = nth(n, l, j)
            qq = T.pfloor(x / w)
            return f(qq, x - w * qq)
        return Arr([cnt], fn, o.kind)
    pos = [i for i, x in enumerate(ks) if isinstance(x, Arr) and x.kind == "b"]
    if len(pos) != 1 or any(not isinstance(x, Slice) for i, x in enumerate(ks) if i not in pos):
        if len(pos) == 1 and all(isinstance(x, Slice) or isnum(x) for i, x in enumerate(ks) if i not in pos):
            # mask first, then the rest
            p = pos[0]
            r = mask_get(it, o, [x if i == p else ALL for i, x in enumerate(ks)] + [ALL] * 0)
            return getitem(it, r, tuple(ALL if i == p else x for i, x in enumerate(ks)))
        raise Unsupported("mask indexing form")
    p = pos[0]
    m = ks[p]
    if len(m.shape) != 1:
        raise Unsupported("mask indexing form")
    n = o.shape[p]
    if not dim_eq(it, m.shape[0], n):
        raise SymRaise("IndexError", ("boolean index did not match",))
    v = T.fresh("k", "0+")
    e = m.at(pa(v))
    if e.pois is not FALSE:
        it.ctx.oblige("defined", "mask is defined", T.all_close(n, bnot(e.pois), v))
    body = e.b
    f = o.snap()
    rest = [x for i, x in enumerate(ks) if i != p]
    if body is TRUE:
        r = Arr(o.shape, f, o.kind)
        _copyinfo(o, r, p)
        return _rest_slices(it, r, ks, p)
    cn = T.cval(n)
    # fully decided masks on concrete lengths
    if cn is not None and cn <= 512:
        bs = [T.subst(body, {v: const(i)}) for i in range(int(cn))]
        if all(b is TRUE or b is FALSE for b in bs):
            keep = [i for i, b in enumerate(bs) if b is TRUE]
            if o.grid is not None:
                return grid_arr([o.grid[i] for i in keep], o.kind)
            r = Arr([const(len(keep)) if i == p else s for i, s in enumerate(o.shape)],
                    lambda *i: f(*[tbl(tuple(Fr(q) for q in keep), x) if j == p else x for j, x in enumerate(i)]), o.kind)
            return _rest_slices(it, r, ks, p)
    # singleton: distinct[k] == distinct[i]
    s = singleton_index(it, m, body, v, n)
    if s is not None:
        r = Arr([ONE if i == p else d for i, d in enumerate(o.shape)],
                lambda *i: f(*[s if j == p else x for j, x in enumerate(i)]), o.kind)
        return _rest_slices(it, r, ks, p)
    # prefix / suffix of the array, for a condition comparing a sorted constant grid
    core = body.args[0] if body.op == "not" else body
    if core.op == "le":
        on = [(mm, c) for mm, c in core.args[0].d.items() if any(v in x.fv for x, _ in mm)]
        if len(on) == 1 and on[0][0] in (((x, Fr(1)),) for x in ascending_atoms(on[0][0], v, cn)):
            cnt = T.sum_close(n, ind(body), v)
            up = (on[0][1] > 0) == (body.op == "le")   # true for small elements
            edge = T.subst(body, {v: ZERO if up else n - ONE})
            if not it.ctx.nofork and it.ctx.entails(edge) and T.blt0(-cnt) not in it.ctx.pc:
                it.ctx.pc.append(T.blt0(-cnt))     # at least one element passes
            at = (lambda x: x) if up else (lambda x: n - cnt + x)
            r = Arr([cnt if i == p else d for i, d in enumerate(o.shape)],
                    lambda *i: f(*[at(x) if j == p else x for j, x in enumerate(i)]), o.kind)
            if len(o.shape) == 1:
                r.incr = o.incr
            return _rest_slices(it, r, ks, p)
    base_n, base_body, srcf = n, body, f
    if o.filt is not None and o.filt[3] == p:
        # compose filters
        n0, l0, f0, _ = o.filt
        j = T.fresh("k", "0+")
        at = T._single_atom(nth(n0, l0, pa(v)))
        b2 = T.subst(body, {at: pa(j)})
        if v not in b2.fv:
            base_n = n0
            base_body = band(T.lam_apply(l0, pa(j)), b2)
            v = j
            srcf = f0
    l = T.mklam(base_body, v)
    cnt = T.sum_close(base_n, ind(base_body), v)
    r = Arr([cnt if i == p else d for i, d in enumerate(o.shape)],
            lambda *i: srcf(*[nth(base_n, l, x) if j == p else x for j, x in enumerate(i)]), o.kind)
    r.filt = (base_n, l, srcf, p)
    if len(o.shape) == 1:
        r.incr = o.incr
    if getattr(o, "incr0", None) is not None and p == 0:
        r.incr0 = o.incr0
    return _rest_slices(it, r, ks, p)


def ascending_atoms(mono, v, n):
    """The atoms of the monomial that ascend strictly with the index v < n."""
    for a, k in mono:
        if a is v:
            yield a
        elif a.op == "app" and a.args[0] == "tbl" and len(a.args) == 3 and a.args[2] == pa(v):
            g = a.args[1]
            if n is not None and len(g) >= n and all(x < y for x, y in zip(g, g[1:])):
                yield a


def np_flatnonzero(it, m):
    m = toval(it, m)
    if len(m.shape) != 1:
        raise Unsupported("nonzero of an array that is not 1-D")
    if m.kind != "b":
        m = ew1(it, lambda x: BV(bnot(T.beq0(num(x).t)), num(x).pois), m)
        m.kind = "b"
    r = mask_get(it, Arr([m.shape[0]], lambda k: Num(k, "i"), "i"), [m])
    r.kind = "i"
    return r


def np_argm(first):
    def g(it, a, axis=None, **kw):
        a = toval(it, a)
        if len(a.shape) != 1 or kw or (axis is not None and _cint(axis) not in (0, -1)):
            raise Unsupported("argmax/argmin of this form")
        if a.kind != "b":
            raise Unsupported("argmax/argmin of numbers")
        if not first:
            a = ew1(it, lambda x: BV(bnot(tob(x).b), tob(x).pois), a)
            a.kind = "b"
        r = np_flatnonzero(it, a)
        if not decide(it, T.blt0(-r.shape[0])):
            return Num(ZERO, "i")
        return r.at(ZERO)
    return g


def _copyinfo(o, r, p):
    r.filt, r.incr = o.filt, o.incr
    if getattr(o, "incr0", None) is not None:
        r.incr0 = o.incr0
    r.grid = o.grid


def _rest_slices(it, r, ks, p):
    if all(x is ALL or (isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None)
           for i, x in enumerate(ks) if i != p):
        return r
    return getitem(it, r, tuple(ALL if i == p else x for i, x in enumerate(ks)))


def singleton_index(it, m, body, v, n):
    """mask  X[k] == X[i]  with X strictly monotone: the only true index is i."""
    eqsrc = getattr(m, "eqsrc", None)
    if eqsrc is None:
        return None
    x, y = eqsrc
    for arr, val in ((x, y), (y, x)):
        if isinstance(arr, Arr) and arr.incr and len(arr.shape) == 1 and not isinstance(val, Arr):
            # find i with arr[i] == val
            pat = arr.at(pa(v)).t
            val = num(val).t
            i = match_index(pat, v, val)
            if i is not None and it.ctx.entails(band(T.ble0(-i), T.blt0(i - n))):
                return i
    return None


def match_index(pat, v, val):
    """i with pat[v:=i] is val, or None."""
    cands = set()

    def walk(x, y):
        if isinstance(x, P) and isinstance(y, P):
            if v not in x.fv:
                return
            a = T._single_atom(x)
            if a is v:
                cands.add(y)
                return
            if len(x.d) == len(y.d) and len(x.d) <= 3:
                for mx in x.d:
                    for my in y.d:
                        if len(mx) == len(my):
                            for (ax, ex), (ay, ey) in zip(mx, my):
                                if ex == ey:
                                    walk(ax, ay)
            # index of the form v + c
            d = x - pa(v)
            if v not in d.fv:
                cands.add(y - d)
        elif isinstance(x, A) and isinstance(y, A) and x.op == y.op and len(x.args) == len(y.args):
            if x is v:
                cands.add(pa(y))
                return
            for p, q in zip(x.args, y.args):
                walk(p, q)
    walk(pat, val)
    for c in list(cands)[:8]:
        if T.subst(pat, {v: c}) is val:
            return c
    return None


def fancy_get(it, o, ks):
    pos = [i for i, x in enumerate(ks) if isinstance(x, Arr)]
    if len(pos) == 1 and all(isinstance(x, Slice) for i, x in enumerate(ks) if i not in pos):
        p = pos[0]
        ia = ks[p]
        if ia.kind == "f":
            raise SymRaise("IndexError", ())
        n = o.shape[p]
        f, g = o.snap(), ia.snap()
        k = len(ia.shape)
        v = [pa(T.fresh("k", "0+")) for _ in ia.shape]
        e = g(*v).t
        if T.psign(e) not in ("+", "0+", "0"):
            if not it.ctx.entails(T.ble0(-e)):
                raise Unsupported("fancy index of unknown sign")
        ks2 = ks + [ALL] * (len(o.shape) - len(ks))
        shape = list(o.shape[:p]) + list(ia.shape) + list(o.shape[p + 1:])
        r = Arr(shape, lambda *i: f(*i[:p], g(*i[p:p + k]).t, *i[p + k:]), o.kind)
        if any(not (isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None)
               for i, x in enumerate(ks2) if i != p):
            raise Unsupported("fancy indexing form")
        return r
    if len(pos) == len(ks) == len(o.shape):
        shp = bshape(it, [x.shape for x in ks])
        gs = [bfn(x, len(shp)) for x in ks]
        f = o.snap()
        return Arr(shp, lambda *i: f(*[g(*i).t for g in gs]), o.kind)
    raise Unsupported("fancy indexing form")


def setitem(it, o, k, v):
    if isinstance(o, list):
        if not it.ctx.mine(o):
            raise Unsupported("list store in a summarised loop")
        o[int(_cint(k))] = v
        return
    if isinstance(o, dict):
        if not it.ctx.mine(o):
            raise Unsupported("dictionary store in a summarised loop")
        o[T.cval(k.t) if isinstance(k, Num) else k] = v
        return
    if not isinstance(o, Arr):
        raise SymRaise("TypeError", ())
    if o.owner == "readonly":
        raise SymRaise("ValueError", ())
    if o.base is not None:
        # write through a view made of slices / ints
        maps = getattr(o, "viewmaps", None)
        if maps is None:
            raise Unsupported("store through a view")
        ks = list(k) if isinstance(k, tuple) else [k]
        if any(isinstance(x, (Arr, list)) for x in ks):
            if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].kind == "b" and all(m[0] == "i" or (m[0] == "s" and m[1] is ZERO and m[2] == 1) for m in maps):
                # mask on a full-slice view: lift to the base
                mk_ = ks[0].snap()
                val = toval(it, v)
                if isinstance(val, Arr):
                    raise Unsupported("masked array store through a view")

                def lifted(*idx):
                    c = TRUE
                    sub = []
                    for m, i in zip(maps, idx):
                        if m[0] == "i":
                            c = band(c, T.beq0(i - m[1]))
                        else:
                            sub.append(i)
                    b = mk_(*sub)
                    return BV(band(c, b.b), b.pois)
                setitem(it, o.base, Arr(o.base.shape, lifted, "b"), v)
                return
            raise Unsupported("store through a view")
        ks = ks + [ALL] * (len(o.shape) - len(ks))
        nk, j = [], 0
        for m in maps:
            if m[0] == "i":
                nk.append(Num(m[1], "i"))
            elif m[0] == "s" and m[2] == 1:
                x = ks[j]
                n = o.shape[j]
                j += 1
                if isinstance(x, Slice):
                    lo, ln, st = slice_bounds(it, x, n)
                    if st != 1:
                        raise Unsupported("strided store")
                    nk.append(Slice(Num(m[1] + lo, "i"), Num(m[1] + lo + ln, "i"), None))
                else:
                    nk.append(Num(m[1] + norm_index(it, x, n), "i"))
            else:
                raise Unsupported("store through a view")
        setitem(it, o.base, tuple(nk), v)
        return
    it.note_mut(o)
    val = toval(it, v)
    if o.kind == "i" and (val.kind if not isinstance(val, BV) else "i") in ("f", "c"):
        val = ew1(it, V.n_trunc, val)
    old = o._fn
    oldmemo = o.memo

    def oldf(*i):
        r = oldmemo.get(i)
        if r is None:
            r = old(*i)
            oldmemo[i] = r
        return r
    mg = b_ite if o.kind == "b" else n_ite
    cv = (lambda x: x) if o.kind == "b" else (lambda x: _cast(num(x), o.kind))
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks):
        ks = [ALL] * len(o.shape) if len(ks) == 1 else ks
    if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].kind == "b" and len(ks[0].shape) == len(o.shape):
        m = ks[0].snap()
        for p, q in zip(ks[0].shape, o.shape):
            if not dim_eq(it, p, q):
                raise SymRaise("IndexError", ())
        if isinstance(val, Arr) and val.shape and not all(T.cval(s) == 1 for s in val.shape):
            src = getattr(val, "maskof", None)
            raise Unsupported("masked store of an array")
        x = val.at(*[ZERO] * len(val.shape)) if isinstance(val, Arr) else val

        def fn(*i):
            b = m(*i)
            r = mg(b.b, cv(x), oldf(*i))
            if b.pois is not FALSE:
                r = Num(r.t, r.kind, r.und, bor(r.pois, b.pois), r.im)
            return r
        o.setfn(fn)
        it.ctx.wlog.append((o, old, None, None, TRUE))
        return
    if any(isinstance(x, Arr) for x in ks):
        raise Unsupported("store index form")
    if len(ks) > len(o.shape):
        raise SymRaise("IndexError", ())
    ks = ks + [ALL] * (len(o.shape) - len(ks))
    spec, dims = [], []
    for x, n in zip(ks, o.shape):
        if isinstance(x, Slice):
            lo, ln, st = slice_bounds(it, x, n)
            if st == -1 and x.lo is None and x.hi is None:
                spec.append(("s", ZERO, n, -1))
                dims.append(n)
                continue
            if st != 1:
                raise Unsupported("strided store")
            spec.append(("s", lo, lo + ln, 1))
            dims.append(ln)
        else:
            spec.append(("i", norm_index(it, x, n)))
    if isinstance(val, Arr):
        vb = broadcast_to(it, val, dims)
        if len(vb.shape) != len(dims):
            # leading ones are allowed
            extra = len(vb.shape) - len(dims)
            if all(T.cval(s) == 1 for s in vb.shape[:extra]):
                g0 = vb.snap()
                vb = Arr(vb.shape[extra:], lambda *i: g0(*([ZERO] * extra), *i), vb.kind)
            else:
                raise SymRaise("ValueError", ())
        for p, q in zip(vb.shape, dims):
            if not dim_eq(it, p, q):
                raise SymRaise("ValueError", ())
        vf = vb.snap()
    else:
        vf = lambda *i: val

    def value(*idx):
        sub = []
        for s, i in zip(spec, idx):
            if s[0] == "s":
                sub.append((s[2] - ONE - i) if s[3] == -1 else (i - s[1]))
        return cv(vf(*sub))
    full = all(s[0] == "s" and s[1] is ZERO and s[2] is n for s, n in zip(spec, o.shape))

    def fn(*idx):
        if full:
            return value(*idx)
        c = TRUE
        for s, i, n in zip(spec, idx, o.shape):
            if s[0] == "i":
                c = band(c, T.beq0(i - s[1]))
            else:
                if s[1] is not ZERO:
                    c = band(c, T.ble0(s[1] - i))
                if s[2] is not n:
                    c = band(c, T.blt0(i - s[2]))
        if c is FALSE:
            return oldf(*idx)
        return mg(c, value(*idx), oldf(*idx))
    o.setfn(fn)
    it.ctx.wlog.append((o, old, spec, value, TRUE))


def _cast(n, kind):
    if n.kind == kind or kind == "c":
        return n
    if kind == "f":
        return Num(n.t, "f", n.und, n.pois, n.im)
    return Num(n.t, kind, n.und, n.pois, n.im)


# ---- reductions -----------------------------------------------------------
def axes_of(it, a, axis):
    nd = len(a.shape)
    if axis is None:
        return list(range(nd))
    if isinstance(axis, tuple):
        return sorted(int(_cint(x)) % nd for x in axis)
    c = int(_cint(axis))
    if not -nd <= c < nd:
        raise SymRaise("AxisError", ())
    return [c % nd]


def reduce(it, a, axis, close, keepdims=False):
    """close(n, elemfn over one index) folded over the axes, innermost last."""
    if isinstance(a, (Num, BV)):
        return close(ONE, lambda k: a)
    ax = axes_of(it, a, axis)
    f = a.snap()
    rest = [i for i in range(len(a.shape)) if i not in ax]

    def at(*idx):
        def rec(d, cur):
            if d == len(ax):
                full = [None] * len(a.shape)
                for i, x in zip(rest, idx):
                    full[i] = x
                for i, x in zip(ax, cur):
                    full[i] = x
                return f(*full)
            return close(a.shape[ax[d]], lambda k: rec(d + 1, cur + [k]))
        return rec(0, [])
    if keepdims is True:
        shape = [ONE if i in ax else s for i, s in enumerate(a.shape)]
        return Arr(shape, lambda *i: at(*[x for j, x in enumerate(i) if j not in ax]), a.kind)
    if not rest:
        return at()
    return Arr([a.shape[i] for i in rest], at, a.kind)


def c_sum(n, f):
    v = T.fresh("k", "0+")
    e = num(f(pa(v)))
    return Num(T.sum_close(n, e.t, v), e.kind if e.kind != "b" else "i", exist(n, e.und, v), exist(n, e.pois, v),
               None if e.im is None else T.sum_close(n, e.im, v))


def exist(n, b, v):
    if b is FALSE:
        return FALSE
    return bnot(T.all_close(n, bnot(b), v))


def c_prod(n, f):
    v = T.fresh("k", "0+")
    e = num(f(pa(v)))
    if e.im is not None:
        raise Unsupported("product of complex")
    return Num(T.prod_close(n, e.t, v), e.kind, exist(n, e.und, v), exist(n, e.pois, v))


def c_mm(op):
    def g(n, f):
        v = T.fresh("k", "0+")
        e = num(f(pa(v)))
        if e.im is not None:
            raise Unsupported("max of complex")
        return Num(T.reduce_mm(op, n, e.t, v), e.kind, exist(n, e.und, v), exist(n, e.pois, v))
    return g


def c_all(n, f):
    v = T.fresh("k", "0+")
    e = tob(f(pa(v)))
    return BV(T.all_close(n, e.b, v), exist(n, e.pois, v))


def c_any(n, f):
    v = T.fresh("k", "0+")
    e = tob(f(pa(v)))
    return BV(bnot(T.all_close(n, bnot(e.b), v)), exist(n, e.pois, v))


def tob(x):
    if isinstance(x, BV):
        return x
    if isinstance(x, bool):
        return BV(TRUE if x else FALSE)
    x = num(x)
    return BV(bor(x.und, bnot(T.beq0(x.t))), x.pois)


def red(close, need_nonempty=False, op=None):
    def g(it, a, axis=None, keepdims=False, dtype=None, out=None, **kw):
        if kw or out is not None:
            raise Unsupported("reduction options")
        a = toval(it, a)
        if need_nonempty and isinstance(a, Arr):
            for d in axes_of(it, a, axis):
                if not decide(it, T.blt0(-a.shape[d])):
                    raise SymRaise("ValueError", ("zero-size array",))
            if op and len(a.shape) == 1 and a.incr and not keepdims:
                return a.at(a.shape[0] - ONE if op == "rmax" else ZERO)
        return reduce(it, a, axis, close, keepdims)
    return g


np_sum, np_prod = red(c_sum), red(c_prod)
np_max, np_min = red(c_mm("rmax"), True, "rmax"), red(c_mm("rmin"), True, "rmin")
np_all, np_any = red(c_all), red(c_any)


def np_mean(it, a, axis=None, **kw):
    if kw:
        raise Unsupported("options")
    a = toval(it, a)
    s = np_sum(it, a, axis)
    n = ONE
    if isinstance(a, Arr):
        for d in axes_of(it, a, axis):
            n = n * a.shape[d]
    return ew2(it, V.n_div, s, Num(n, "i"))


def np_trapz(it, y, x=None, dx=None, axis=None):
    y = toval(it, y)
    if isinstance(y, Num):
        raise SymRaise("ValueError", ())
    if axis is not None and int(_cint(axis)) % len(y.shape) != len(y.shape) - 1:
        raise Unsupported("trapz axis")
    n = y.shape[-1]
    if x is None:
        d = num(1) if dx is None else num(dx)
        xa = Arr([n], lambda k: Num(k * d.t, "f", d.und, d.pois))
    else:
        xa = toval(it, x)
    if len(xa.shape) != 1:
        raise Unsupported("trapz with 2-D x")
    nx = xa.shape[0]
    if not dim_eq(it, n, nx):
        if T.cval(n) == 1:
            # numpy: y of length one broadcasts: sum of d*(y[1:]+y[:-1])/2 over an empty slice
            e = y.at(*[ZERO] * len(y.shape)) if len(y.shape) == 1 else None
            if e is None:
                raise Unsupported("trapz broadcast")
            raise SymRaise("ValueError", ())
        if it.ctx.branch(T.beq0(n - nx), "trapz lengths"):
            pass
        else:
            raise SymRaise("ValueError", ())
    fx, fy = xa.snap(), y.snap()

    def close(*idx):
        v = T.fresh("k", "0+")
        ey, ex = num(fy(*idx, pa(v))), num(fx(pa(v)))
        if ey.im is not None or ex.im is not None:
            raise Unsupported("trapz of complex")
        return Num(T.trapz_close(n, ey.t, ex.t, v), "f", exist(n, bor(ey.und, ex.und), v),
                   exist(n, bor(ey.pois, ex.pois), v))
    if len(y.shape) == 1:
        return close()
    return Arr(y.shape[:-1], close, "f")


def np_cumsum(it, a, axis=None, **kw):
    if kw:
        raise Unsupported("options")
    a = toval(it, a)
    if len(a.shape) != 1:
        raise Unsupported("cumsum")
    f = a.snap()
    return Arr(a.shape, lambda k: c_sum(k + ONE, f), a.kind)


def np_diff(it, a, n=1, axis=-1):
    a = toval(it, a)
    if len(a.shape) != 1:
        raise Unsupported("diff")
    f = a.snap()
    return Arr([a.shape[0] - ONE], lambda k: V.n_add(num(f(k + ONE)), num(f(k)), True), a.kind)


# ---- misc numpy -----------------------------------------------------------
def np_where(it, c, a=None, b=None):
    if a is None:
        return (np_flatnonzero(it, c),)
    return ew(it, lambda x, y, z: _ite3(tob(x), y, z), [c, a, b])


def _ite3(c, y, z):
    r = n_ite(c.b, num(y), num(z))
    return Num(r.t, r.kind, r.und, bor(r.pois, c.pois), r.im)


def n_nan_to_num(x, nan):
    if x.im is not None:
        return Num(ite(x.und, nan, x.t), x.kind, FALSE, x.pois, ite(x.und, ZERO, x.im))
    return Num(ite(x.und, nan, x.t), x.kind, FALSE, x.pois)


def np_nan_to_num(it, a, copy=True, nan=None, posinf=None, neginf=None):
    nv = ZERO if nan is None else num(nan).t
    r = ew1(it, lambda x: n_nan_to_num(x, nv), a)
    if copy is not True and isinstance(a, Arr):
        k = it.ctx.known(it.truth(copy))
        if k is False:
            return into(it, a, r)
        if k is not True:
            raise Unsupported("nan_to_num in place or not")
    return r


def into(it, out, r):
    """The out= argument of a numpy function."""
    if isinstance(out, tuple):
        (out,) = out
    if out is None:
        return r
    it.write_all(out, r)
    return out


def _fmm(f):
    """fmax / fmin: a NaN gives way to a number."""
    g = _mm2(f)

    def h(x, y):
        r = g(x, y)
        r = n_ite(y.und, x, n_ite(x.und, y, Num(r.t, r.kind, FALSE, r.pois)))
        return r
    return h


def np_norm(it, a, ord=None, axis=None, keepdims=False):
    if ord is not None and not (isinstance(ord, Num) and T.cval(ord.t) == 2 and (axis is not None or len(toval(it, a).shape) == 1)):
        raise Unsupported("norm order")
    sq = ew1(it, lambda x: V.n_mul(V.n_abs(x), V.n_abs(x)), a)
    return ew1(it, V.n_sqrt, np_sum(it, sq, axis, keepdims))


def np_isclose(it, a, b, rtol=None, atol=None):
    rt = num(Fr(1, 10 ** 5)) if rtol is None else rtol
    at = num(Fr(1, 10 ** 8)) if atol is None else atol
    d = ew1(it, V.n_abs, it.binop("Sub", a, b))
    return it.compare("LtE", d, it.binop("Add", at, it.binop("Mult", rt, ew1(it, V.n_abs, b))))


def np_vectorize(it, f):
    def g(it2, *xs):
        xs = [toval(it2, x) for x in xs]
        sh = bshape(it2, [x.shape if isinstance(x, Arr) else [] for x in xs])
        fs = [bfn(x, len(sh)) for x in xs]
        return Arr(sh, lambda *i: num(it2.call(f, [q(*i) for q in fs], {})), "f")
    return Bound(lambda it2, s, *xs: g(it2, *xs), f)


def np_fft_all(f):
    def g(it, a, s=None, axes=None, norm=None):
        if len(toval(it, a).shape) != 2:
            raise Unsupported("transform of other than two dimensions")
        return f(it, a, s, axes, norm)
    return g


def np_isnan(it, a):
    return ew(it, lambda x: BV(num(x).und, num(x).pois), [a], "b")


def np_isfinite(it, a):
    return ew(it, lambda x: BV(bnot(num(x).und), num(x).pois), [a], "b")


def np_clip(it, a, lo=None, hi=None, **kw):
    lo = kw.pop("a_min", lo)
    hi = kw.pop("a_max", hi)
    out = kw.pop("out", None)
    if kw:
        raise Unsupported("clip options")
    r = a
    if lo is not None:
        r = np_maximum(it, r, lo)
    if hi is not None:
        r = np_minimum(it, r, hi)
    return r if out is None else into(it, out, r)


def _mm2(f):
    def g(x, y):
        if x.im is not None or y.im is not None:
            raise Unsupported("max of complex")
        return Num(f([x.t, y.t]), jk(x.kind, y.kind), bor(x.und, y.und), bor(x.pois, y.pois))
    return g


def np_maximum(it, a, b):
    return ew2(it, _mm2(T.pmax), a, b)


def np_minimum(it, a, b):
    return ew2(it, _mm2(T.pmin), a, b)


def np_meshgrid(it, x, y, indexing="xy", **kw):
    if kw:
        raise Unsupported("meshgrid options")
    x, y = toval(it, x), toval(it, y)
    f, g = x.snap(), y.snap()
    if indexing == "ij":
        return [Arr([x.shape[0], y.shape[0]], lambda i, j: f(i), x.kind),
                Arr([x.shape[0], y.shape[0]], lambda i, j: g(j), y.kind)]
    sh = [y.shape[0], x.shape[0]]
    return [Arr(sh, lambda i, j: f(j), x.kind), Arr(sh, lambda i, j: g(i), y.kind)]


def np_append(it, a, b, axis=None):
    return np_concatenate(it, [ravel(it, toval(it, a)), ravel(it, toval(it, b))])


def np_concatenate(it, seq, axis=None):
    xs = [toval(it, x) for x in seq]
    xs = [x if isinstance(x, Arr) else Arr([ONE], lambda k, x=x: x, x.kind) for x in xs]
    ax = 0 if axis is None else int(_cint(axis)) % len(xs[0].shape)
    if all(x.grid is not None for x in xs) and len(xs[0].shape) == 1:
        kind = "i"
        for x in xs:
            kind = jk(kind, x.kind)
        return grid_arr([c for x in xs for c in x.grid], kind)
    nd = len(xs[0].shape)
    if any(len(x.shape) != nd for x in xs):
        raise SymRaise("ValueError", ())
    for d in range(nd):
        if d != ax:
            for x in xs[1:]:
                if not dim_eq(it, x.shape[d], xs[0].shape[d]):
                    raise SymRaise("ValueError", ())
    offs, tot = [], ZERO
    for x in xs:
        offs.append(tot)
        tot = tot + x.shape[ax]
    fs = [x.snap() for x in xs]
    kind = "i"
    for x in xs:
        kind = jk(kind, x.kind)

    def fn(*idx):
        k = idx[ax]
        c = T.cval(k)
        r = None
        for f, o, x in reversed(list(zip(fs, offs, xs))):
            sub = list(idx)
            sub[ax] = k - o
            inside = T.blt0(k - o - x.shape[ax])
            if r is None:
                if c is not None and T.cval(o) is not None and c < T.cval(o):
                    continue
                r = num(f(*sub))
            else:
                if inside is FALSE:
                    continue
                if inside is TRUE and c is not None and T.cval(o) is not None and c < T.cval(o):
                    continue
                if inside is TRUE:
                    r = num(f(*sub))
                else:
                    r = n_ite(inside, num(f(*sub)), r)
        return r
    shape = list(xs[0].shape)
    shape[ax] = tot
    return Arr(shape, fn, kind)


def np_stack(it, seq, axis=0):
    xs = [toval(it, x) for x in seq]
    ax = int(_cint(axis))
    xs2 = []
    for x in xs:
        xs2.append(np_expand_dims(it, x, num(ax)))
    return np_concatenate(it, xs2, num(ax))


def np_vstack(it, seq):
    xs = [toval(it, x) for x in seq]
    xs = [np_expand_dims(it, x, num(0)) if len(x.shape) == 1 else x for x in xs]
    return np_concatenate(it, xs, num(0))


def np_hstack(it, seq):
    xs = [toval(it, x) for x in seq]
    return np_concatenate(it, xs, num(0 if len(xs[0].shape) == 1 else 1))


def np_column_stack(it, seq):
    xs = [toval(it, x) for x in seq]
    xs = [np_expand_dims(it, x, num(1)) if len(x.shape) == 1 else x for x in xs]
    return np_concatenate(it, xs, num(1))


def np_expand_dims(it, a, axis):
    a = toval(it, a)
    ax = int(_cint(axis))
    if ax < 0:
        ax += len(a.shape) + 1
    sh = list(a.shape)
    sh.insert(ax, ONE)
    f = a.snap()
    return Arr(sh, lambda *i: f(*[x for j, x in enumerate(i) if j != ax]), a.kind)


def np_squeeze(it, a, axis=None):
    keep = [i for i, s in enumerate(a.shape) if T.cval(s) != 1]
    f = a.snap()

    def fn(*i):
        full = [ZERO] * len(a.shape)
        for k, x in zip(keep, i):
            full[k] = x
        return f(*full)
    return Arr([a.shape[i] for i in keep], fn, a.kind)


def ravel(it, a):
    if not isinstance(a, Arr):
        return Arr([ONE], lambda k: a, a.kind)
    if len(a.shape) == 1:
        r = Arr(a.shape, a.snap(), a.kind)
        r.incr, r.grid, r.filt = a.incr, a.grid, a.filt
        return r
    if len(a.shape) == 0:
        return Arr([ONE], lambda k: a.at(), a.kind)
    return reshape(it, a, [None])


def reshape(it, a, shape, order="C"):
    f = a.snap()
    sh = [num(x).t if x is not None else const(-1) for x in shape]
    tot = ONE
    for s in a.shape:
        tot = tot * s
    neg = [i for i, s in enumerate(sh) if T.cval(s) == -1]
    if neg:
        o = ONE
        for i, s in enumerate(sh):
            if i not in neg:
                o = o * s
        q = tot / o
        sh[neg[0]] = q if T.isint(q) else T.pfloor(q)
    else:
        o = ONE
        for s in sh:
            o = o * s
        if not decide(it, T.beq0(o - tot)):
            raise SymRaise("ValueError", ("reshape",))

    def lin(idx, shp, order):
        r = ZERO
        rng = range(len(shp)) if order == "C" else reversed(range(len(shp)))
        for j in rng:
            r = r * shp[j] + idx[j]
        return r

    def unlin(k, shp, order):
        if len(shp) == 1:
            return (k,)
        out = [None] * len(shp)
        js = list(reversed(range(len(shp)))) if order == "C" else list(range(len(shp)))
        for j in js[:-1]:
            q = T.pfloor(k / shp[j])
            out[j] = k - q * shp[j]
            k = q
        out[js[-1]] = k
        return tuple(out)

    def fn(*idx):
        if len(idx) == len(a.shape) and all(p is q for p, q in zip(sh, a.shape)):
            return f(*idx)
        return f(*unlin(lin(idx, sh, order), a.shape, order))
    r = Arr(sh, fn, a.kind)
    r.dtype = a.dtype
    return r


def transpose(it, a):
    f = a.snap()
    return Arr(list(reversed(a.shape)), lambda *i: f(*reversed(i)), a.kind)


def astype(it, a, dtype):
    k = dtype_kind(dtype)
    nm = dtype_name(dtype)
    a = toval(it, a)
    if nm in ("uint8", "int16", "uint16", "int32"):
        r = ew1(it, lambda x: _castint(x, nm), a)
    elif k == "i":
        r = ew1(it, V.n_trunc, a)
    elif k == "f":
        r = ew1(it, lambda x: _realpart(x), a)
    elif k == "b":
        r = ew(it, tob, [a], "b")
    else:
        r = a.copy()
    if isinstance(r, Arr):
        r.kind = k
        r.dtype = nm
    return r


def _realpart(x):
    return Num(x.t, "f", x.und, x.pois)


def _castint(x, nm):
    t = T.ptrunc(x.t)
    if nm == "uint8":
        # defined (no wrap-around) only inside 0..255
        return Num(t, "i", FALSE, bor(x.pois, x.und, T.blt0(t), T.blt0(const(255) - t)))
    return Num(t, "i", FALSE, bor(x.pois, x.und))


def matmul(it, a, b):
    a, b = toval(it, a), toval(it, b)
    if isinstance(a, Num) or isinstance(b, Num):
        return ew2(it, V.n_mul, a, b)
    f, g = a.snap(), b.snap()
    if len(a.shape) == 1 and len(b.shape) == 1:
        if not dim_eq(it, a.shape[0], b.shape[0]):
            raise SymRaise("ValueError", ())
        return c_sum(a.shape[0], lambda k: V.n_mul(num(f(k)), num(g(k))))
    if len(a.shape) == 2 and len(b.shape) == 1:
        return Arr([a.shape[0]], lambda i: c_sum(b.shape[0], lambda k: V.n_mul(num(f(i, k)), num(g(k)))))
    if len(a.shape) == 1 and len(b.shape) == 2:
        return Arr([b.shape[1]], lambda j: c_sum(a.shape[0], lambda k: V.n_mul(num(f(k)), num(g(k, j)))))
    if len(a.shape) == 2 and len(b.shape) == 2:
        return Arr([a.shape[0], b.shape[1]], lambda i, j: c_sum(a.shape[1], lambda k: V.n_mul(num(f(i, k)), num(g(k, j)))))
    raise Unsupported("matmul")


def np_outer(it, a, b):
    a, b = ravel(it, toval(it, a)), ravel(it, toval(it, b))
    f, g = a.snap(), b.snap()
    return Arr([a.shape[0], b.shape[0]], lambda i, j: V.n_mul(num(f(i)), num(g(j))))


def np_diag(it, a, k=None):
    a = toval(it, a)
    f = a.snap()
    if len(a.shape) == 2:
        n = a.shape[0] if a.shape[0] is a.shape[1] or it.ctx.entails(T.beq0(a.shape[0] - a.shape[1])) else T.pmin(a.shape)
        return Arr([n], lambda i: f(i, i), a.kind)
    raise Unsupported("diag")


def np_flip(it, a, axis=None):
    ax = axes_of(it, a, axis)
    f = a.snap()
    return Arr(a.shape, lambda *i: f(*[(a.shape[j] - ONE - x) if j in ax else x for j, x in enumerate(i)]), a.kind)


def np_shape(it, a):
    return tuple(Num(s, "i") for s in a.shape)


def np_round(it, a, decimals=None, **kw):
    if kw:
        raise Unsupported("options")
    if decimals is not None and T.cval(num(decimals).t) != 0:
        raise Unsupported("round decimals")
    return ew1(it, V.n_round, a)


def np_hypot(it, a, b):
    return ew2(it, lambda x, y: V.n_sqrt(V.n_add(V.n_mul(x, x), V.n_mul(y, y))), a, b)


def np_array_equal(it, a, b):
    a, b = toval(it, a), toval(it, b)
    if len(a.shape) != len(b.shape):
        return False
    r = TRUE
    for p, q in zip(a.shape, b.shape):
        r = band(r, T.beq0(p - q))
    e = reduce(it, ew2(it, lambda x, y: V.n_cmp("==", x, y), a, b, "b"), None, c_all)
    return BV(band(r, e.b), e.pois)


def n_real(x):
    return Num(x.t, "f", x.und, x.pois)


def n_imag(x):
    return Num(x.im if x.im is not None else ZERO, "f", x.und, x.pois)


def n_conj(x):
    return x if x.im is None else Num(x.t, "c", x.und, x.pois, T.pneg(x.im))


# ---- opaque library kernels ----------------------------------------------
def key(it, v):
    """Canonical structural key of a value (argument of an uninterpreted function)."""
    if isinstance(v, Num):
        r = (v.t,)
        if v.im is not None:
            r += ("im", v.im)
        if v.und is not FALSE:
            r += ("und", v.und)
        if v.pois is not FALSE:
            it.ctx.oblige("defined", "argument of a library or contracted call is defined", bnot(v.pois))
        return r if len(r) > 1 else v.t
    if isinstance(v, (int, float, Fr)) and not isinstance(v, bool):
        return const(v) if not isinstance(v, float) else num(v).t
    if isinstance(v, BV):
        return v.b
    if isinstance(v, (str, bool)) or v is None:
        return ("lit", repr(v))
    if isinstance(v, SymStr):
        return ("str",) + v.parts
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), lamkey(it, v))
    if isinstance(v, (tuple, list)):
        return ("seq",) + tuple(key(it, x) for x in v)
    if isinstance(v, SymSeq):
        return key(it, np_array(it, v))
    if isinstance(v, Obj):
        nm = getattr(v.cls, "name", v.cls)
        return ("obj", str(nm)) + tuple((k, key(it, v.attrs[k])) for k in sorted(v.attrs))
    if isinstance(v, (Func, Bound, OpaqueFn, Builtin, Ext)):
        w = T.fresh("w", "+", integer=False)
        it.ctx.nofork += 1
        try:
            r = it.call(v, [Num(pa(w), "f")])
        finally:
            it.ctx.nofork -= 1
        if isinstance(r, (Num, Arr)):
            return ("fn", T.mklam(flat(key(it, r)), w))
        raise Unsupported("function-valued argument")
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, key(it, x)) for k, x in sorted(v.items()))
    raise Unsupported(f"argument of type {type(v).__name__} in an uninterpreted call")


def flat(k):
    return k if isinstance(k, tuple) else (k,)


def lamkey(it, a):
    f = a.snap()
    vs = [T.fresh("k", "0+") for _ in a.shape]
    e = f(*[pa(v) for v in vs])
    if isinstance(e, Num) and e.pois is not FALSE:
        c = bnot(e.pois)
        rng = [band(T.ble0(-pa(v)), T.blt0(pa(v) - s)) for v, s in zip(vs, a.shape)]
        it.ctx.oblige("defined", "array passed to a library or contracted call is defined", bor(c, *[bnot(r) for r in rng]),
                      T.forall(vs, a.shape, c))
        e = Num(e.t, e.kind, e.und, FALSE, e.im)
    k = flat(key(it, e))
    for v in reversed(vs):
        k = T.mklam(k, v)
    return k


def opaque_arr(name, args, shape, kind="f", sign=None, cplx=False):
    if cplx:
        return Arr(shape, lambda *i: Num(pa(T.mk("app", name + ".re", args, *i)), "c",
                                         im=pa(T.mk("app", name + ".im", args, *i))), "c")
    return Arr(shape, lambda *i: Num(pa(_maybe_int(T.mk("app", name, args, *i, info=sign), kind)), kind), kind)


def _maybe_int(a, kind):
    if kind == "i":
        T.intsym(a)
    return a


def opaque_num(name, args, kind="f", sign=None):
    return Num(pa(_maybe_int(T.mk("app", name, args, info=sign), kind)), kind)


def ew_opaque(name, sign=None):
    def g(it, *vals):
        return ew(it, lambda *xs: _opq(name, [num(x) for x in xs], sign), list(vals), "f")
    return g


def _opq(name, xs, sign):
    u, p = FALSE, FALSE
    for x in xs:
        u, p = bor(u, x.und), bor(p, x.pois)
        if x.im is not None:
            raise Unsupported("complex argument")
    return Num(pa(T.mk("app", name, tuple(x.t for x in xs), info=sign)), "f", u, p)


def pwl(it, x, xp, fp, left, right, extrap=False, sort=False):
    """Piecewise-linear interpolation of the table (xp, fp) at x."""
    xp, fp = toval(it, xp), toval(it, fp)
    if not sort and not xp.incr:
        pass
    kx = (tuple(xp.shape), lamkey(it, xp), lamkey(it, fp))
    mode = ("extrap",) if extrap else ("lr", left, right)
    ok = not extrap and xp.incr and len(fp.shape) == 1
    if ok:              # between the values of the table
        y = num(fp.at(pa(T.fresh("k", "0+"))))
        ok = y.im is None and all(z == "clamp" or T.psign(z if isinstance(z, T.P) else const(z)) in ("+", "0+", "0") for z in (left, right)) \
            and T.psign(y.t) in ("+", "0+", "0")
    info = "0+" if ok else None
    two = extrap and T.cval(xp.shape[0]) == 2 and T.cval(fp.shape[0]) == 2

    def f(v):
        v = num(v)
        if two:         # the straight line through the two points
            x0, x1, y0, y1 = (num(a.at(k)) for a in (xp, fp) for k in (ZERO, ONE))
            return V.n_add(y0, V.n_mul(V.n_div(V.n_add(y1, V.n_neg(y0)), V.n_add(x1, V.n_neg(x0))), V.n_add(v, V.n_neg(x0))))
        return Num(pa(T.mk("app", "pwl", ("sorted" if sort else "plain",) + mode, kx, v.t, info=info)), "f", v.und, v.pois)
    return ew(it, f, [x], "f")


def np_interp(it, x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = toval(it, xp), toval(it, fp)
    lk = "clamp" if left is None else num(left).t
    rk = "clamp" if right is None else num(right).t
    if not dim_eq(it, xp.shape[0], fp.shape[0]):
        if not it.ctx.branch(T.beq0(xp.shape[0] - fp.shape[0]), "interp lengths"):
            raise SymRaise("ValueError", ())
    return pwl(it, x, xp, fp, lk, rk)


def interp1d(it, x, y, kind="linear", axis=None, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
    if kind != "linear" or axis is not None:
        raise Unsupported("interp1d options")
    srt = it.ctx.known(it.truth(assume_sorted)) is not True
    x, y = toval(it, x), toval(it, y)
    x, y = x.copy(), y.copy()
    if isinstance(fill_value, str):
        if fill_value != "extrapolate":
            raise SymRaise("ValueError", ())
        ex = True
        lk = rk = None
    elif fill_value is None:
        ex, lk, rk = False, "error", "error"
    elif isinstance(fill_value, tuple):
        ex, lk, rk = False, num(fill_value[0]).t, num(fill_value[1]).t
    else:
        ex, lk, rk = False, num(fill_value).t, num(fill_value).t
    if not ex and lk != "error":
        if bounds_error is not False:
            raise Unsupported("interp1d bounds_error with fill_value")
    if srt and x.incr:
        srt = False

    def call(it2, v):
        if lk == "error":       # ValueError outside the table, the table's own values inside it
            if not within(it2, toval(it2, v), x):
                raise SymRaise("ValueError", ())
            return call2(it2, pwl(it2, v, x, y, "clamp", "clamp", ex, srt))
        return call2(it2, pwl(it2, v, x, y, lk, rk, ex, srt))

    def call2(it2, r):
        if not isinstance(r, Arr):
            return Arr([], lambda: r, "f")
        return r
    return Builtin("interp1d()", call)


def within(it, v, xp):
    """Every value lies inside the (increasing) table."""
    if not xp.incr:
        raise Unsupported("interp1d bounds of an unsorted table")
    lo, hi = num(xp.at(ZERO)).t, num(xp.at(xp.shape[0] - ONE)).t

    def inside(x):
        x = num(x).t
        return T.band(T.ble0(lo - x), T.ble0(x - hi))
    if not isinstance(v, Arr):
        return it.ctx.branch(inside(v), "interp1d range")
    if not v.shape:
        return it.ctx.branch(inside(v.at()), "interp1d range")
    from .decl import forall
    return it.ctx.branch(forall(v.shape, lambda *k: inside(v.at(*k))), "interp1d range")


def interp2d(it, x, y, z, kind="linear", **kw):
    if kind != "linear" or kw:
        raise Unsupported("interp2d options")
    x, y, z = toval(it, x).copy(), toval(it, y).copy(), toval(it, z).copy()
    kz = (key(it, x), key(it, y), key(it, z))

    def call(it2, a, b):
        a, b = toval(it2, a), toval(it2, b)
        a = a if isinstance(a, Arr) else Arr([ONE], lambda k, a=a: a)
        b = b if isinstance(b, Arr) else Arr([ONE], lambda k, b=b: b)
        # interp2d sorts its evaluation coordinates; the value at sorted position
        fa, fb = sorted_(it2, a), sorted_(it2, b)
        if b.shape[0] is ONE:      # one row comes back as a vector
            return Arr([a.shape[0]], lambda i: Num(pa(T.mk("app", "interp2d", kz, fa(i).t, fb(ZERO).t))), "f")
        if T.cval(b.shape[0]) is None:
            raise Unsupported("interp2d on a symbolic number of rows")
        return Arr([b.shape[0], a.shape[0]], lambda j, i: Num(pa(T.mk("app", "interp2d", kz, fa(i).t, fb(j).t))), "f")
    return Builtin("interp2d()", call)


def sorted_(it, a):
    """Element function of the sorted array (ascending)."""
    f = a.snap()
    v = pa(T.fresh("k", "0+"))
    d = T.subst(f(v).t, {T._single_atom(v): v + ONE}) - f(v).t
    n = a.shape[0]
    if T.psign(d) in ("+", "0+", "0") or it.ctx.entails(T.ble0(-d)):
        return f
    if T.psign(d) in ("-", "0-") or it.ctx.entails(T.ble0(d)):
        return lambda k: f(n - ONE - k)
    # unknown order: uninterpreted permutation
    lk = lamkey(it, a)
    return lambda k: Num(pa(T.mk("app", "sorted", lk, n, k)))


def griddata(it, points, values, xi, method="linear", fill_value=None, rescale=False):
    def cols(p):        # (..., 2) coordinates are the pair of their columns
        if isinstance(p, Arr) and len(p.shape) >= 2 and T.cval(p.shape[-1]) == 2:
            f = p.snap()
            return tuple(Arr(p.shape[:-1], lambda *i, j=j: f(*i, const(j)), p.kind) for j in (0, 1))
        return p
    points, xi = cols(points), cols(xi)
    if not isinstance(xi, tuple) or len(xi) != 2:
        raise Unsupported("scattered data of this form")
    kz = (key(it, points), key(it, values), key(it, method), key(it, fill_value), key(it, rescale))
    x, y = xi
    return ew(it, lambda a, b: _gd(kz, num(a), num(b)), [x, y], "f")


def _gd(kz, a, b):
    return Num(pa(T.mk("app", "griddata", kz, a.t, b.t)), "f", bor(a.und, b.und), bor(a.pois, b.pois))


def fft2(name):
    def g(it, a, s=None, axes=None, norm=None):
        if axes is not None or norm is not None:
            raise Unsupported("fft options")
        a = toval(it, a)
        shape = a.shape if s is None else shape_arg(it, s)
        return opaque_arr(name, (key(it, a), tuple(shape)), shape, cplx=True)
    return g


def fftshift(inv):
    def g(it, a, axes=None):
        if axes is not None:
            raise Unsupported("fftshift axes")
        a = toval(it, a)
        f = a.snap()

        def mp(i, n):
            h = T.pfloor(n / const(2))
            sh = h if not inv else n - h     # fftshift: out[i] = in[(i - n//2) mod n]
            c = T.cval(n)
            ci = T.cval(i)
            if c is not None and ci is not None:
                return const((ci - T.cval(sh)) % c)
            return ite(T.blt0(i - sh), i - sh + n, i - sh)
        return Arr(a.shape, lambda *i: f(*[mp(x, n) for x, n in zip(i, a.shape)]), a.kind)
    return g


def cv_resize(it, img, dsize, *a, **kw):
    if a:
        raise Unsupported("resize options")
    img = toval(it, img)
    w, h = [num(x).t for x in dsize]
    return opaque_arr("cv2.resize", (key(it, img), w, h, key(it, kw)), [h, w])


def cv_filter2D(it, img, depth, k, *a, **kw):
    if a:
        raise Unsupported("filter2D options")
    img = toval(it, img)
    return opaque_arr("cv2.filter2D", (key(it, img), key(it, depth), key(it, k), key(it, kw)), img.shape)


def percentile(it, a, q, **kw):
    if kw:
        raise Unsupported("percentile options")
    a = toval(it, a)
    if len(a.shape) > 1:
        a = ravel(it, a)
    if isinstance(q, (list, tuple, Arr)):
        n, item = it.iterate(q)
        xs = [percentile(it, a, item(const(i))) for i in range(int(T.cval(n)))]
        return np_array(it, xs)
    return opaque_num("percentile", (key(it, a), num(q).t))


def median(it, a, **kw):
    a = toval(it, a)
    if a.grid is not None:
        g = sorted(a.grid)
        n = len(g)
        return Num(const(g[n // 2] if n % 2 else (g[n // 2 - 1] + g[n // 2]) / 2), "f")
    if T.cval(a.shape[0]) == 2 and len(a.shape) == 1:
        return V.n_div(V.n_add(num(a.at(ZERO)), num(a.at(ONE))), num(2))
    if T.cval(a.shape[0]) == 1 and len(a.shape) == 1:
        return a.at(ZERO)
    return opaque_num("median", key(it, a))


def rand_draw(name):
    def g(it, *args, **kw):
        # argument names normalised
        names = {"random.poisson": ["lam", "size"], "random.normal": ["loc", "scale", "size"]}[name]
        d = dict(zip(names, args))
        d.update(kw)
        size = d.get("size")
        if size is not None:
            size = [num(x).t for x in (size if isinstance(size, (tuple, list)) else [size])]
        vals = [d.get(n, num(1.0 if n in ("lam", "scale") else 0.0)) for n in names if n != "size"]
        it.ctx.rand.append(name)
        k = len(it.ctx.rand)
        vals = [toval(it, v) for v in vals]
        shp = bshape(it, [v.shape if isinstance(v, Arr) else [] for v in vals])
        if size is not None:
            if shp and not (len(shp) == len(size) and all(dim_eq(it, a, b) for a, b in zip(shp, size))):
                raise Unsupported("random size other than the arguments' shape")
            shp = size
        if "normal" in name:        # location + scale * standard draw
            z = opaque_num(name, (const(k),)) if not shp else opaque_arr(name, (const(k),), shp)
            return ew(it, lambda a, b, c: V.n_add(a, V.n_mul(b, c)), [vals[0], vals[1], z], "f")
        kz = (const(k),) + tuple(key(it, v) for v in vals)
        if not shp:
            return opaque_num(name, kz, "i" if "poisson" in name else "f")
        return opaque_arr(name, kz, shp, "i" if "poisson" in name else "f", "0+" if "poisson" in name else None)
    return g


def genfromtxt(it, path, **kw):
    k = ("genfromtxt", key(it, path), key(it, {a: b for a, b in kw.items()}))
    n = pa(T.intsym(T.mk("app", "rows", k, info="0+")))
    return opaque_arr("genfromtxt", k, [n, const(4)])


def fromfile(it, path, dtype=None, count=None, **kw):
    if kw:
        raise Unsupported("fromfile options")
    k = ("fromfile", key(it, path), dtype_name(dtype) if dtype is not None else "float64")
    n = pa(T.intsym(T.mk("app", "filelen", k, info="0+")))
    return opaque_arr("fromfile", k, [n])


def searchsorted(it, a, v, side="left", sorter=None):
    a = toval(it, a)
    if not a.incr:
        raise Unsupported("searchsorted on an unordered array")
    f = a.snap()

    def one(x):
        x = num(x)
        w = T.fresh("k", "0+")
        e = num(f(pa(w)))
        b = T.ble0(e.t - x.t) if side == "right" else T.blt0(e.t - x.t)
        n = a.shape[0]
        cnt = T.sum_close(n, ind(b), w)
        if a.grid is not None and not it.ctx.nofork and not T._bsof(x.t) and T.cval(cnt) is None:
            for fact in [T.ble0(-cnt), T.ble0(cnt - n)] + \
                    ([T.blt0(-cnt)] if it.ctx.entails(T.subst(b, {w: ZERO})) else []) + \
                    ([T.blt0(cnt - n)] if it.ctx.entails(bnot(T.subst(b, {w: n - ONE}))) else []):
                if fact not in it.ctx.pc:
                    it.ctx.pc.append(fact)
        return Num(cnt, "i", FALSE, bor(x.pois, x.und))
    return ew(it, one, [v], "i")


# ---- attributes and methods of values -------------------------------------
def method(f):
    f._pv = True
    return f


def value_attr(it, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(Num(s, "i") for s in o.shape)
        if name == "size":
            r = ONE
            for s in o.shape:
                r = r * s
            return Num(r, "i")
        if name == "ndim":
            return num(len(o.shape))
        if name == "T":
            return transpose(it, o)
        if name == "real":
            return ew1(it, n_real, o, "f")
        if name == "imag":
            return ew1(it, n_imag, o, "f")
        if name == "dtype":
            return Ext("np." + {"f": "float64", "i": "int64", "b": "bool_", "c": "complex128"}[o.kind])
        if name == "flat":
            return ravel(it, o)
        m = ARR_METHODS.get(name)
        if m is not None:
            return Bound(lambda it2, self_, *a, **k: m(it2, self_, *a, **k), o)
        raise Unsupported(f"array attribute {name}")
    if isnum(o):
        o = num(o)
        if name == "shape":
            return ()
        if name == "size":
            return num(1)
        if name == "ndim":
            return num(0)
        if name == "real":
            return n_real(o)
        if name == "imag":
            return n_imag(o)
        m = NUM_METHODS.get(name)
        if m is not None:
            return Bound(lambda it2, self_, *a, **k: m(it2, self_, *a, **k), o)
        raise SymRaise("AttributeError", (name,))
    if isinstance(o, AppendRec):
        if name == "append":
            return Bound(lambda it2, self_, v: self_.items.append(v), o)
        raise Unsupported("use of a list while it is being built in a summarised loop")
    if isinstance(o, list):
        m = {
            "append": lambda it2, s, v: _lmut(it2, s) or s.append(v),
            "extend": lambda it2, s, v: _lmut(it2, s) or s.extend(v),
            "insert": lambda it2, s, i, v: _lmut(it2, s) or s.insert(int(_cint(i)), v),
            "reverse": lambda it2, s: _lmut(it2, s) or s.reverse(),
            "copy": lambda it2, s: list(s),
        }.get(name)
        if m:
            return Bound(m, o)
    if isinstance(o, (tuple, list)) and name == "index":
        raise Unsupported("index()")
    if isinstance(o, dict):
        m = {
            "items": lambda it2, s: [(k if not isinstance(k, Fr) else num(k), v) for k, v in s.items()],
            "keys": lambda it2, s: list(s), "values": lambda it2, s: list(s.values()),
            "get": lambda it2, s, k, d=None: (lambda kk: d if kk is None else s[kk[0]])(dict_key(it2, s, k)),
            "update": lambda it2, s, d=None, **kw: _lmut(it2, s) or s.update(d or kw),
        }.get(name)
        if m:
            return Bound(m, o)
    if isinstance(o, (str, SymStr)):
        if name == "format":
            return Bound(lambda it2, s, *a, **k: _fmt(it2, s, a, k), o)
        if name == "join":
            return Bound(lambda it2, s, xs: mkstr([p for i, x in enumerate(xs) for p in (([s] if i else []) + it2.tostr(x))]), o)
        if name in ("strip", "lower", "upper") and isinstance(o, str):
            return Bound(lambda it2, s: getattr(s, name)(), o)
        if name in ("endswith", "startswith") and isinstance(o, str):
            return Bound(lambda it2, s, x: getattr(s, name)(x), o)
    if isinstance(o, ExcVal):
        if name == "args":
            return tuple(o.args)
    if isinstance(o, (Func, Builtin)) and name == "__name__":
        return o.name
    if isinstance(o, SymSeq) and name == "append":
        raise Unsupported("append to a symbolic sequence")
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def _fmt(it, s, a, k):
    if not isinstance(s, str):
        raise Unsupported("format of a symbolic string")
    parts, i, auto = [], 0, 0
    import string
    for lit, fld, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if fld is not None:
            if spec or conv:
                parts.append("<fmt>")
                continue
            if fld == "":
                v = a[auto]
                auto += 1
            elif fld.isdigit():
                v = a[int(fld)]
            else:
                v = k[fld]
            parts += it.tostr(v)
    return mkstr(parts)


def _lmut(it, s):
    if not it.ctx.mine(s):
        raise Unsupported("list mutated in a summarised loop")
    return None


def _reshape_m(it, a, *sh, order="C"):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = sh[0]
    return reshape(it, a, list(sh), order)


ARR_METHODS = {
    "argmax": np_argm(True), "argmin": np_argm(False), "nonzero": lambda it, a: (np_flatnonzero(it, a),),
    "sum": np_sum, "prod": np_prod, "max": np_max, "min": np_min, "all": np_all, "any": np_any, "mean": np_mean,
    "ravel": lambda it, a, order="C": ravel(it, a), "flatten": lambda it, a, order="C": ravel(it, a).copy(),
    "reshape": _reshape_m, "astype": lambda it, a, d, copy=True: astype(it, a, d),
    "copy": lambda it, a, order=None: a.copy(), "conj": lambda it, a: ew1(it, n_conj, a),
    "conjugate": lambda it, a: ew1(it, n_conj, a),
    "transpose": lambda it, a: transpose(it, a), "dot": matmul,
    "clip": np_clip, "round": np_round, "cumsum": np_cumsum, "squeeze": np_squeeze,
    "item": lambda it, a, *i: a.at(*[ZERO] * len(a.shape)),
    "fill": lambda it, a, v: setitem(it, a, tuple([ALL] * len(a.shape)), v),
    "tolist": lambda it, a: _tolist(it, a),
    "searchsorted": searchsorted,
}
NUM_METHODS = {
    "sum": lambda it, a, **k: a, "max": lambda it, a: a, "min": lambda it, a: a, "item": lambda it, a: a,
    "astype": lambda it, a, d: astype(it, a, d), "copy": lambda it, a: a, "conj": lambda it, a: n_conj(a),
    "conjugate": lambda it, a: n_conj(a), "ravel": lambda it, a: ravel(it, a),
}


def _tolist(it, a):
    c = T.cval(a.shape[0]) if len(a.shape) == 1 else None
    if c is not None and c <= 512:
        return [a.at(const(i)) for i in range(int(c))]
    if len(a.shape) == 1:
        return SymSeq(a.shape[0], a.snap(), a.copy())
    raise Unsupported("tolist")


# ---- builtins -------------------------------------------------------------
def b_len(it, x):
    if isinstance(x, Arr):
        return Num(x.shape[0], "i")
    if isinstance(x, SymSeq):
        return Num(x.n, "i")
    if isinstance(x, (list, tuple, dict, str)):
        return num(len(x))
    raise SymRaise("TypeError", ())


def b_range(it, *a):
    a = [num(x) for x in a]
    for x in a:
        if x.kind != "i":
            raise SymRaise("TypeError", ("range of a float",))
    if len(a) == 1:
        s, e, st = num(0), a[0], num(1)
    elif len(a) == 2:
        s, e, st = a[0], a[1], num(1)
    else:
        s, e, st = a
    n = T.pceil((e.t - s.t) / st.t)
    c = T.cval(n)
    n = const(max(0, int(c))) if c is not None else nonneg(it, n)
    return SymSeq(n, lambda k: Num(s.t + k * st.t, "i"))


def b_enumerate(it, x, start=None):
    n, item = it.iterate(x)
    s = ZERO if start is None else num(start).t
    return SymSeq(n, lambda k: (Num(s + k, "i"), item(k)))


def b_zip(it, *xs):
    its = [it.iterate(x) for x in xs]
    n = its[0][0]
    for m, _ in its[1:]:
        if m is not n and not dim_eq(it, m, n):
            if T.cval(m) is not None and T.cval(n) is not None:
                n = const(min(T.cval(m), T.cval(n)))
            else:
                n = T.pmin([n, m])
    return SymSeq(n, lambda k: tuple(f(k) for _, f in its))


def b_reversed(it, x):
    n, item = it.iterate(x)
    return SymSeq(n, lambda k: item(n - ONE - k))


def b_sum(it, x, start=None):
    n, item = it.iterate(x)
    c = T.cval(n)
    if c is not None and c <= 12:
        r = num(0) if start is None else start
        for i in range(int(c)):
            r = it.binop("Add", r, item(const(i)))
        return r
    v = T.fresh("k", "0+")
    e = item(pa(v))
    if isinstance(e, (Num, BV)) or isnum(e):
        r = c_sum(n, lambda k: num(item(k)))
    elif isinstance(e, Arr):
        r = Arr(e.shape, lambda *i: c_sum(n, lambda k: num(item(k).at(*i))), e.kind)
    else:
        raise Unsupported("sum()")
    if start is not None:
        r = it.binop("Add", start, r)
    return r


def b_minmax(op):
    def g(it, *a, key=None, default=None):
        if key is not None:
            raise Unsupported("min/max key")
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymSeq) and x.arr is not None:
                x = x.arr
            if isinstance(x, Arr):
                if len(x.shape) != 1:
                    raise Unsupported("builtin min/max of a 2-D array")
                return (np_max if op == "max" else np_min)(it, x)
            if isinstance(x, SymSeq) and T.cval(x.n) is None:
                if not decide(it, T.blt0(-x.n)):
                    raise SymRaise("ValueError", ())
                return c_mm("r" + op)(x.n, lambda k: num(x.fn(k)))
            n, item = it.iterate(x)
            a = [item(const(i)) for i in range(int(T.cval(n)))]
            if not a:
                raise SymRaise("ValueError", ())
        f = _mm2(T.pmax if op == "max" else T.pmin)
        xs = [num(v.at() if isinstance(v, Arr) and not v.shape else v) for v in a]
        r = xs[0]
        for y in xs[1:]:
            r = f(r, y)
        return r
    return g


def b_abs(it, x):
    return ew1(it, V.n_abs, x)


def b_int(it, x=0, *a):
    if isinstance(x, (BV, bool)):
        return num(x)
    if isinstance(x, str):
        return num(int(x))
    if isinstance(x, Arr) and all(T.cval(s) == 1 for s in x.shape):
        x = x.at(*[ZERO] * len(x.shape))
    x = num(x)
    if x.und is not FALSE:
        it.ctx.oblige("defined", "int() of a defined number", bnot(x.und))
    return Num(T.ptrunc(x.t), "i", FALSE, x.pois)


def b_float(it, x=0):
    if isinstance(x, str):
        return num(float(x))
    if isinstance(x, Arr) and all(T.cval(s) == 1 for s in x.shape):
        x = x.at(*[ZERO] * len(x.shape))
    x = num(x)
    return Num(x.t, "f", x.und, x.pois)


def b_bool(it, x):
    return BV(it.truth(x))


def b_str(it, x=""):
    return mkstr(it.tostr(x))


def b_round(it, x, n=None):
    if n is not None:
        raise Unsupported("round digits")
    r = V.n_round(num(x))
    return Num(r.t, "i", r.und, r.pois)


def b_list(it, x=()):
    if isinstance(x, (list, tuple)):
        return list(x)
    n, item = it.iterate(x)
    c = T.cval(n)
    if c is not None and c <= 512:
        return [item(const(i)) for i in range(int(c))]
    return SymSeq(n, item)


def b_tuple(it, x=()):
    r = b_list(it, x)
    return tuple(r) if isinstance(r, list) else r


def b_map(it, f, *xs):
    z = b_zip(it, *xs)
    return SymSeq(z.n, lambda k: it.call(f, list(z.fn(k))))


def b_isinstance(it, x, t):
    if isinstance(t, tuple):
        rs = [b_isinstance(it, x, y) for y in t]
        return any(rs)
    if isinstance(t, ClassVal):
        return isinstance(x, Obj) and x.cls is t
    n = (t.name if isinstance(t, (Ext, Builtin)) else str(t)).split(".")[-1]
    if n == "ndarray":
        return isinstance(x, Arr)
    if n in ("int", "integer"):
        return isinstance(x, Num) and x.kind == "i"
    if n in ("float", "floating", "float64"):
        return isinstance(x, Num) and x.kind == "f"
    if n == "Number" or n == "Real":
        return isnum(x)
    if n == "str":
        return isinstance(x, (str, SymStr))
    if n == "list":
        return isinstance(x, list)
    if n == "tuple":
        return isinstance(x, tuple)
    if n == "dict":
        return isinstance(x, dict)
    raise Unsupported(f"isinstance {n}")


def b_all(it, x):
    if isinstance(x, (list, tuple)):
        bs = [tob(toval(it, y)) for y in x]
        return BV(band(*[b.b for b in bs]) if bs else TRUE, bor(*[b.pois for b in bs]) if bs else FALSE)
    n, item = it.iterate(x)
    return c_all(n, lambda k: tob(item(k)) if not isinstance(item(k), (BV,)) else item(k))


def b_any(it, x):
    if isinstance(x, (list, tuple)):
        bs = [tob(toval(it, y)) for y in x]
        return BV(bor(*[b.b for b in bs]) if bs else FALSE, bor(*[b.pois for b in bs]) if bs else FALSE)
    n, item = it.iterate(x)
    return c_any(n, lambda k: tob(item(k)))


def b_getattr(it, o, n, *d):
    try:
        return it.getattr(o, n)
    except SymRaise as e:
        if d and e.etype == "AttributeError":
            return d[0]
        raise


def b_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except SymRaise:
        return False


def b_setattr(it, o, n, v):
    it.setattr(o, n, v)


def b_pow(it, a, b):
    return it.binop("Pow", a, b)


def b_divmod(it, a, b):
    return (it.binop("FloorDiv", a, b), it.binop("Mod", a, b))


def b_slice(it, *a):
    a = list(a)
    if len(a) == 1:
        a = [None] + a
    return Slice(*(a + [None])[:3])


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "sum": b_sum, "max": b_minmax("max"),
    "min": b_minmax("min"), "abs": b_abs, "int": b_int, "float": b_float, "bool": b_bool, "str": b_str,
    "round": b_round, "list": b_list, "tuple": b_tuple, "map": b_map, "isinstance": b_isinstance, "all": b_all,
    "any": b_any, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "reversed": b_reversed, "sorted": b_sorted,
    "pow": b_pow, "divmod": b_divmod, "slice": b_slice, "print": lambda it, *a, **k: None,
    "dict": lambda it, *a, **k: dict(a[0] if a else {}, **k), "callable": lambda it, x: isinstance(x, (Func, Bound, OpaqueFn, Builtin, Ext, ClassVal)),
    "Ellipsis": Ellipsis, "complex": lambda it, a, b=0: Num(num(a).t, "c", im=num(b).t),
    "id": lambda it, x: num(id(x)),
}

EXC = {"ValueError", "TypeError", "IndexError", "KeyError", "ImportError", "RuntimeError", "Exception",
       "AttributeError", "NotImplementedError", "FileNotFoundError", "OSError", "IOError", "ArithmeticError",
       "ZeroDivisionError", "LookupError", "AssertionError", "UserWarning", "DeprecationWarning", "Warning",
       "RuntimeWarning", "BaseException", "StopIteration", "OverflowError", "NameError", "FloatingPointError"}


def exc_match(e, n):
    import builtins
    if n in ("Exception", "BaseException"):
        return True
    a, b = getattr(builtins, e, None), getattr(builtins, n, None)
    try:
        return issubclass(a, b)
    except TypeError:
        return e == n


# ---- external names -------------------------------------------------------
def _null(it, *a, **k):
    return None


def _copy_copy(it, x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, Obj):
        return Obj(x.cls, dict(x.attrs))
    if isinstance(x, (list, tuple, dict)):
        return type(x)(x)
    return x


def _deepcopy(it, x, memo=None):
    if isinstance(x, Obj):
        return Obj(x.cls, {k: _deepcopy(it, v) for k, v in x.attrs.items()})
    if isinstance(x, (list, tuple)):
        return type(x)(_deepcopy(it, v) for v in x)
    if isinstance(x, dict):
        return {k: _deepcopy(it, v) for k, v in x.items()}
    return _copy_copy(it, x)


def _path_join(it, *a):
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append("/")
        parts += it.tostr(x)
    return mkstr(parts)


def _isfile(it, p):
    return BV(T.bapp("isfile", key(it, p)))


def _dirname(it, p):
    import os
    if isinstance(p, str):
        return os.path.dirname(p)
    raise Unsupported("dirname")


def _partial(it, f, *a, **k):
    return Builtin("partial", lambda it2, *b, **kk: it2.call(f, list(a) + list(b), {**k, **kk}))


def _fold(it, f, seq, *init):
    n, item = it.iterate(seq)
    c = T.cval(n)
    if c is None:
        raise Unsupported("functools.reduce over a symbolic range")
    xs = [item(const(i)) for i in range(int(c))]
    if init:
        xs = [init[0]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = it.call(f, [r, x])
    return r


def _ufunc_reduce(f):
    def g(it, xs):
        n, item = it.iterate(xs)
        c = T.cval(n)
        if c is None:
            raise Unsupported("ufunc.reduce over a symbolic range")
        r = item(ZERO)
        for i in range(1, int(c)):
            r = f(it, r, item(const(i)))
        return r
    return g


def np_empty(it, shape, dtype=None, **kw):
    if kw:
        raise Unsupported("options")
    sh = shape_arg(it, shape)
    k = dtype_kind(dtype) if dtype is not None else "f"
    v = Num(ZERO, k, FALSE, TRUE)
    return Arr(sh, lambda *i: v, k)


def np_isclose(it, *a, **k):
    raise Unsupported("isclose")


def ext_add(it, a, b):
    return it.binop("Add", a, b)


def _polyval(it, p, x):
    n, item = it.iterate(p)
    c = T.cval(n)
    if c is None:
        raise Unsupported("polyval")
    r = num(0)
    for i in range(int(c)):
        r = it.binop("Add", it.binop("Mult", r, x), item(const(i)))
    return r


def _rad(it, x):
    return ew1(it, lambda a: Num(a.t * pa(T.PI) / const(180), "f", a.und, a.pois), x)


def _deg(it, x):
    return ew1(it, lambda a: Num(a.t * const(180) / pa(T.PI), "f", a.und, a.pois), x)


def np_pad(it, a, pw, mode="constant", **kw):
    if kw:
        raise Unsupported("pad options")
    a = toval(it, a)
    nd = len(a.shape)
    if isnum(pw):
        pw = [(pw, pw)] * nd
    elif all(isnum(x) for x in pw):
        pw = [tuple(pw)] * nd
    f = a.snap()
    lo = [num(p[0]).t for p in pw]
    hi = [num(p[1]).t for p in pw]
    shape = [l + s + h for l, s, h in zip(lo, a.shape, hi)]

    def fn(*i):
        idx, outside = [], FALSE
        for x, l, s in zip(i, lo, a.shape):
            k = x - l
            if mode == "wrap":
                k = ite(T.blt0(k), k + s, ite(T.ble0(s - k), k - s, k))
            elif mode == "constant":
                outside = bor(outside, T.blt0(k), T.ble0(s - k))
            elif mode == "edge":
                k = T.pmax([ZERO, T.pmin([k, s - ONE])])
            else:
                raise Unsupported(f"pad mode {mode}")
            idx.append(k)
        e = num(f(*idx))
        return n_ite(outside, Num(ZERO, e.kind), e)
    return Arr(shape, fn, a.kind)


EXT = {
    "np.sqrt": ewf(V.n_sqrt), "np.exp": ewf(V.n_exp), "np.sin": ewf(V.n_sin), "np.cos": ewf(V.n_cos),
    "np.tan": ewf(V.n_tan), "np.arctan": ewf(V.n_arctan), "np.arccos": ewf(V.n_arccos), "np.arcsin": ewf(V.n_arcsin),
    "np.sinc": ewf(V.n_sinc), "np.log": ewf(V.n_ln), "np.log10": ewf(V.n_log10), "np.log2": ewf(V.n_log2),
    "np.abs": ewf(V.n_abs), "np.absolute": ewf(V.n_abs), "np.fabs": ewf(V.n_abs), "np.floor": ewf(V.n_floor),
    "np.ceil": ewf(V.n_ceil), "np.rint": ewf(V.n_round), "np.trunc": ewf(V.n_trunc),
    "np.square": ewf(lambda a: V.n_mul(a, a)), "np.cbrt": ewf(V.un(lambda p: T.ppow(p, Fr(1, 3)))),
    "np.negative": ewf(V.n_neg), "np.reciprocal": ewf(lambda a: V.n_div(num(1), a)),
    "np.expm1": ewf(lambda a: V.n_add(V.n_exp(a), num(1), True)),
    "np.log1p": ewf(lambda a: V.n_ln(V.n_add(num(1), a))),
    "np.real": ewf(n_real), "np.imag": ewf(n_imag), "np.conj": ewf(n_conj), "np.conjugate": ewf(n_conj),
    "np.radians": _rad, "np.deg2rad": _rad, "np.degrees": _deg, "np.rad2deg": _deg,
    "np.power": lambda it, a, b: it.binop("Pow", a, b), "np.float_power": lambda it, a, b: it.binop("Pow", a, b),
    "np.multiply": lambda it, a, b: it.binop("Mult", a, b), "np.add": lambda it, a, b: it.binop("Add", a, b),
    "np.subtract": lambda it, a, b: it.binop("Sub", a, b), "np.divide": lambda it, a, b: it.binop("Div", a, b),
    "np.true_divide": lambda it, a, b: it.binop("Div", a, b), "np.mod": lambda it, a, b: it.binop("Mod", a, b),
    "np.remainder": lambda it, a, b: it.binop("Mod", a, b), "np.hypot": np_hypot,
    "np.floor_divide": lambda it, a, b: it.binop("FloorDiv", a, b),
    "np.maximum": np_maximum, "np.minimum": np_minimum, "np.fmax": lambda it, a, b: ew2(it, _fmm(T.pmax), a, b),
    "np.fmin": lambda it, a, b: ew2(it, _fmm(T.pmin), a, b), "np.linalg.norm": np_norm, "np.isclose": np_isclose,
    "np.allclose": lambda it, a, b, rtol=None, atol=None: np_all(it, np_isclose(it, a, b, rtol, atol)),
    "np.take": lambda it, a, k: getitem(it, toval(it, a), k), "np.compress": lambda it, c, a: getitem(it, toval(it, a), c),
    "np.extract": lambda it, c, a: getitem(it, toval(it, a), c), "np.vectorize": np_vectorize,
    "np.sort": np_sort, "np.unique": np_unique, "np.argmax": np_argm(True), "np.argmin": np_argm(False), "np.flatnonzero": np_flatnonzero,
    "np.nonzero": lambda it, a: (np_flatnonzero(it, a),),
    "np.count_nonzero": lambda it, a: np_sum(it, ew(it, lambda x: Num(ind(tob(x).b), "i", FALSE, tob(x).pois), [a], "i")),
    "np.ptp": lambda it, a: it.binop("Sub", np_max(it, a), np_min(it, a)),
    "np.logical_xor": lambda it, a, b: it.compare("NotEq", ew(it, lambda x: tob(x), [a], "b"), ew(it, lambda x: tob(x), [b], "b")),
    "np.swapaxes": lambda it, a, i, j: transpose(it, a), "np.fft.fftn": np_fft_all(fft2("fft2")), "np.fft.ifftn": np_fft_all(fft2("ifft2")),
    "math.radians": _rad, "math.degrees": _deg, "scipy.special.j0": lambda it, x: ew_opaque("jn")(it, num(0), x),
    "scipy.special.j1": lambda it, x: ew_opaque("jn")(it, num(1), x), "math.isnan": np_isnan, "math.isfinite": np_isfinite,
    "np.greater": lambda it, a, b: it.compare("Gt", a, b), "np.less": lambda it, a, b: it.compare("Lt", a, b),
    "np.greater_equal": lambda it, a, b: it.compare("GtE", a, b),
    "np.less_equal": lambda it, a, b: it.compare("LtE", a, b),
    "np.equal": lambda it, a, b: it.compare("Eq", a, b), "np.not_equal": lambda it, a, b: it.compare("NotEq", a, b),
    "np.logical_and": lambda it, a, b: ew(it, lambda x, y: BV(band(tob(x).b, tob(y).b), bor(tob(x).pois, tob(y).pois)), [a, b], "b"),
    "np.logical_or": lambda it, a, b: ew(it, lambda x, y: BV(bor(tob(x).b, tob(y).b), bor(tob(x).pois, tob(y).pois)), [a, b], "b"),
    "np.logical_not": lambda it, a: ew(it, lambda x: BV(bnot(tob(x).b), tob(x).pois), [a], "b"),
    "np.sum": np_sum, "np.prod": np_prod, "np.max": np_max, "np.min": np_min, "np.amax": np_max, "np.amin": np_min,
    "np.all": np_all, "np.any": np_any, "np.mean": np_mean, "np.average": np_mean, "np.nanmax": None,
    "np.trapz": np_trapz, "np.trapezoid": np_trapz, "scipy.integrate.trapezoid": np_trapz, "np.cumsum": np_cumsum, "np.diff": np_diff,
    "np.where": np_where, "np.nan_to_num": np_nan_to_num, "np.isnan": np_isnan, "np.isfinite": np_isfinite,
    "np.clip": np_clip, "np.meshgrid": np_meshgrid, "np.append": np_append, "np.concatenate": np_concatenate,
    "np.stack": np_stack, "np.vstack": np_vstack, "np.hstack": np_hstack, "np.column_stack": np_column_stack,
    "np.expand_dims": np_expand_dims, "np.squeeze": np_squeeze, "np.ravel": lambda it, a: ravel(it, toval(it, a)),
    "np.reshape": lambda it, a, s, order="C": _reshape_m(it, a, s, order=order),
    "np.transpose": lambda it, a: transpose(it, a), "np.dot": matmul, "np.matmul": matmul, "np.inner": matmul,
    "np.outer": np_outer, "np.diag": np_diag, "np.diagonal": np_diag, "np.flip": np_flip, "np.flipud": lambda it, a: np_flip(it, a, num(0)),
    "np.fliplr": lambda it, a: np_flip(it, a, num(1)), "np.shape": np_shape, "np.round": np_round, "np.around": np_round,
    "np.size": lambda it, a: value_attr(it, toval(it, a), "size"), "np.ndim": lambda it, a: num(len(a.shape)),
    "np.array_equal": np_array_equal, "np.array": np_array, "np.asarray": lambda it, a, dtype=None: a if isinstance(a, Arr) and dtype is None else np_array(it, a, dtype),
    "np.atleast_1d": lambda it, a: a if isinstance(a, Arr) and a.shape else np_array(it, [a]),
    "np.asfarray": lambda it, a: astype(it, a, "float64"), "np.copy": lambda it, a: toval(it, a).copy(),
    "np.zeros": filled(0), "np.ones": filled(1), "np.zeros_like": filled_like(0), "np.ones_like": filled_like(1),
    "np.full": np_full, "np.full_like": np_full_like, "np.arange": np_arange, "np.linspace": np_linspace,
    "np.empty": np_empty, "np.empty_like": lambda it, a, dtype=None: np_empty(it, tuple(Num(s, "i") for s in a.shape)),
    "np.interp": np_interp, "np.percentile": percentile, "np.median": median, "np.pad": np_pad,
    "np.quantile": lambda it, a, q: percentile(it, a, ew2(it, V.n_mul, q, num(100))),
    "np.genfromtxt": genfromtxt, "np.fromfile": fromfile, "np.searchsorted": searchsorted,
    "np.fft.fft2": fft2("fft2"), "np.fft.ifft2": fft2("ifft2"), "np.fft.fftshift": fftshift(False),
    "np.fft.ifftshift": fftshift(True), "np.random.poisson": rand_draw("random.poisson"),
    "np.random.normal": rand_draw("random.normal"), "np.polyval": _polyval,
    "np.float64": b_float, "np.float32": b_float, "np.int64": b_int, "np.int32": b_int, "np.float_": b_float, "np.double": b_float, "np.intp": b_int,
    "np.errstate": lambda it, *a, **k: Obj("nullctx"), "np.seterr": _null,
    "np.broadcast_to": lambda it, a, s: broadcast_to(it, a, shape_arg(it, s)),
    "np.multiply.reduce": _ufunc_reduce(lambda it, a, b: it.binop("Mult", a, b)),
    "np.add.reduce": _ufunc_reduce(ext_add),
    "scipy.interpolate.interp1d": interp1d, "scipy.interpolate.interp2d": interp2d, "scipy.interpolate.griddata": griddata,
    "scipy.special.jn": ew_opaque("jn"), "scipy.special.jv": ew_opaque("jn"),
    "cv2.resize": cv_resize, "cv2.filter2D": cv_filter2D,
    "math.sqrt": ewf(V.n_sqrt), "math.exp": ewf(V.n_exp), "math.sin": ewf(V.n_sin), "math.cos": ewf(V.n_cos),
    "math.tan": ewf(V.n_tan), "math.atan": ewf(V.n_arctan), "math.acos": ewf(V.n_arccos), "math.log": ewf(V.n_ln),
    "math.log10": ewf(V.n_log10), "math.floor": lambda it, x: b_int(it, V.n_floor(num(x))),
    "math.ceil": lambda it, x: b_int(it, V.n_ceil(num(x))), "math.pow": lambda it, a, b: it.binop("Pow", a, b),
    "math.hypot": np_hypot, "math.fabs": ewf(V.n_abs),
    "os.path.join": _path_join, "os.path.isfile": _isfile, "os.path.exists": _isfile, "os.path.dirname": _dirname,
    "os.path.abspath": lambda it, p: p, "os.path.realpath": lambda it, p: p,
    "warnings.warn": _null, "warnings.filterwarnings": _null, "warnings.catch_warnings": lambda it, *a, **k: Obj("nullctx"),
    "warnings.simplefilter": _null,
    "logging.info": _null, "logging.warn": _null, "logging.warning": _null, "logging.debug": _null, "logging.error": _null,
    "copy.copy": _copy_copy, "copy.deepcopy": _deepcopy, "functools.partial": _partial, "functools.reduce": _fold,
}
CONSTS = {"np.pi": lambda: Num(pa(T.PI)), "math.pi": lambda: Num(pa(T.PI)), "scipy.constants.pi": lambda: Num(pa(T.PI)),
          "np.newaxis": lambda: None, "np.e": lambda: Num(T.pexp(ONE)), "math.e": lambda: Num(T.pexp(ONE)),
          "np.nan": lambda: Num(ZERO, "f", und=TRUE), "np.inf": lambda: Num(ZERO, "f", pois=TRUE)}


UFUNCS = {"np." + n for n in """sqrt exp sin cos tan arctan arccos arcsin sinc log log10 log2 abs absolute fabs floor ceil rint
trunc square cbrt negative reciprocal expm1 log1p conj conjugate radians deg2rad degrees rad2deg power float_power multiply
add subtract divide true_divide mod remainder hypot floor_divide maximum minimum fmax fmin""".split()} - {"np.sinc"}


def ext_attr(it, name):
    c = CONSTS.get(name)
    if c is not None:
        return c()
    return Ext(name)


_kwc = {}


def _kwnames(f):
    r = _kwc.get(f)
    if r is None:
        import inspect
        ps = inspect.signature(f).parameters.values()
        r = {p.name for p in ps if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}
        if any(p.kind == p.VAR_KEYWORD for p in ps):
            r = _All()   # checks its own options
        _kwc[f] = r
    return r


class _All:
    def __contains__(self, k):
        return True



def call_ext(it, name, args, kwargs):
    if name.startswith("exc."):
        return ExcVal(name[4:], tuple(args))
    f = EXT.get(name)
    if f is None:
        if name.startswith("plt.") or name.startswith("logging.getLogger"):
            it.ctx.logged.append((name, tuple(args), tuple(sorted(kwargs))))
            return Obj("plt")
        raise Unsupported(f"external function {name}")
    if kwargs and name in UFUNCS and ("out" in kwargs or "where" in kwargs):
        kwargs = dict(kwargs)
        out, mask = kwargs.pop("out", None), kwargs.pop("where", True)
        if isinstance(out, tuple):
            (out,) = out
        r = call_ext(it, name, args, kwargs)
        if mask is not True:
            r = np_where(it, mask, r, Num(ZERO, "f", FALSE, TRUE) if out is None else out.copy())
        return into(it, out, r)
    if kwargs and f is not _null:
        known = _kwnames(f)
        for k in kwargs:
            if k not in known and not (k == "dtype" and kwargs[k] is None):
                raise Unsupported(f"keyword {k} of {name}")
    try:
        return f(it, *args, **kwargs)
    except TypeError as e:
        raise Unsupported(f"call of {name}: {e}")

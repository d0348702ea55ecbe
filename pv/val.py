"""Symbolic values: numbers with definedness, arrays, strings, objects."""
from __future__ import annotations

from fractions import Fraction as Fr

from . import term as T
from .term import FALSE, ONE, TRUE, ZERO, B, P, band, bnot, bor, const, ind, ite, pa


class Unsupported(Exception):
    """The construct is outside the verifier's reach."""


class SymRaise(Exception):
    """The program raises (type name, arguments)."""

    def __init__(self, etype, args=()):
        super().__init__(etype)
        self.etype = etype
        self.eargs = args


class Num:
    """Number: value t (+ i*im), NaN-condition und, unmodelled-value condition pois."""

    __slots__ = ("t", "im", "und", "pois", "kind")

    def __init__(self, t, kind="f", und=FALSE, pois=FALSE, im=None):
        self.t = t if isinstance(t, P) else T.lift(t)
        self.kind, self.und, self.pois, self.im = kind, und, pois, im

    def __repr__(self):
        s = f"Num({self.t}"
        if self.im is not None:
            s += f" + i*({self.im})"
        if self.und is not FALSE:
            s += f" nan-if {self.und}"
        if self.pois is not FALSE:
            s += f" undef-if {self.pois}"
        return s + ")"


class BV:
    """Boolean value with unmodelled-value condition."""

    __slots__ = ("b", "pois")

    def __init__(self, b, pois=FALSE):
        self.b, self.pois = b, pois

    def __repr__(self):
        return f"BV({self.b})"


class SymStr:
    """String with symbolic integer parts."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"SymStr{self.parts}"


def mkstr(parts):
    s = SymStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class Arr:
    """n-dimensional array: symbolic shape and element function."""

    def __init__(self, shape, fn, kind="f", base=None, imap=None, inv=None, owner=None):
        self.shape = [s if isinstance(s, P) else T.lift(s) for s in shape]
        self.kind = kind
        self.base, self.imap, self.inv = base, imap, inv
        self._fn = fn
        self.owner = owner
        self.memo = {}
        T._cnt[0] += 1
        self.serial = T._cnt[0]
        self.ver = 0
        self.incr = False      # strictly increasing along axis 0 (1-D)
        self.filt = None       # (n, lam, srcfn) when produced by a mask
        self.grid = None       # tuple of exact constants, for concrete 1-D arrays
        self.dtype = None

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def at(self, *idx):
        if self.base is not None:
            return self.base.at(*self.imap(*idx))
        r = self.memo.get(idx)
        if r is None:
            r = self._fn(*idx)
            self.memo[idx] = r
        return r

    def snap(self):
        """Element function of the present contents."""
        if self.base is not None:
            f = self.base.snap()
            m = self.imap
            return lambda *i: f(*m(*i))
        f, memo = self._fn, self.memo

        def g(*i):
            r = memo.get(i)
            if r is None:
                r = f(*i)
                memo[i] = r
            return r
        return g

    def setfn(self, fn):
        assert self.base is None
        self._fn = fn
        self.memo = {}
        self.ver += 1
        self.grid = None
        self.incr = False
        self.filt = None

    @property
    def ndim(self):
        return len(self.shape)

    def copy(self):
        r = Arr(self.shape, self.snap(), self.kind)
        r.incr, r.filt, r.grid = self.incr, self.filt, self.grid
        r.dtype = self.dtype
        return r

    def __repr__(self):
        return f"Arr{self.shape}"


class SymSeq:
    """Sequence of symbolic length."""

    def __init__(self, n, fn, arr=None):
        self.n, self.fn = n, fn
        self.arr = arr      # 1-D array with the same elements, where there is one


class Obj:
    def __init__(self, cls, attrs=None, owner=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.owner = owner
        self.written = set()

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)} {sorted(self.attrs)}>"


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def num(x, kind=None):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(const(int(x)), kind or "i")
    if isinstance(x, int):
        return Num(const(x), kind or "i")
    if isinstance(x, float):
        if x != x:
            return Num(ZERO, "f", und=TRUE)
        if x in (float("inf"), float("-inf")):
            return Num(ZERO, "f", pois=TRUE)
        return Num(const(x), kind or "f")
    if isinstance(x, Fr):
        return Num(const(x), kind or "f")
    if isinstance(x, complex):
        return Num(const(x.real), "c", im=const(x.imag))
    if isinstance(x, BV):
        return Num(ind(x.b), "i", pois=x.pois)
    if isinstance(x, P):
        return Num(x, kind or ("i" if T.isint(x) else "f"))
    raise Unsupported(f"not a number: {type(x).__name__}")


def isnum(x):
    return isinstance(x, (Num, int, float, Fr, complex)) and not isinstance(x, bool)


_KO = {"b": 0, "i": 1, "f": 2, "c": 3}


def jk(a, b):
    return a if _KO[a] >= _KO[b] else b


# ---- arithmetic on Num ----------------------------------------------------
def n_add(a, b, sub=False):
    k = jk(a.kind, b.kind)
    bt = T.pneg(b.t) if sub else b.t
    im = None
    if a.im is not None or b.im is not None:
        bi = b.im if b.im is not None else ZERO
        im = (a.im if a.im is not None else ZERO) + (T.pneg(bi) if sub else bi)
    return Num(a.t + bt, k, bor(a.und, b.und), bor(a.pois, b.pois), im)


def n_mul(a, b):
    k = jk(a.kind, b.kind)
    u, p = bor(a.und, b.und), bor(a.pois, b.pois)
    if a.im is None and b.im is None:
        return Num(a.t * b.t, k, u, p)
    ai = a.im if a.im is not None else ZERO
    bi = b.im if b.im is not None else ZERO
    return Num(a.t * b.t - ai * bi, k, u, p, a.t * bi + ai * b.t)


def n_div(a, b):
    u, p = bor(a.und, b.und), bor(a.pois, b.pois)
    if b.im is not None:
        m2 = b.t * b.t + b.im * b.im
        ai = a.im if a.im is not None else ZERO
        return Num((a.t * b.t + ai * b.im) / m2, "c", u, bor(p, T.beq0(m2)), (ai * b.t - a.t * b.im) / m2)
    p = bor(p, T.beq0(b.t))
    if b.t is ZERO:
        return Num(ZERO, jk("f", a.kind), u, TRUE, a.im and ZERO)
    im = None if a.im is None else a.im / b.t
    return Num(a.t / b.t, jk("f", jk(a.kind, b.kind)), u, p, im)


def n_neg(a):
    return Num(T.pneg(a.t), a.kind, a.und, a.pois, None if a.im is None else T.pneg(a.im))


def n_pow(a, b):
    u, p = bor(a.und, b.und), bor(a.pois, b.pois)
    e = T.cval(b.t)
    if a.im is not None or b.im is not None:
        if e is not None and e.denominator == 1 and 0 <= e <= 8 and b.im is None:
            r = num(1)
            for _ in range(int(e)):
                r = n_mul(r, a)
            return r
        raise Unsupported("complex power")
    k = jk(a.kind, b.kind)
    if e is not None:
        if e.denominator != 1:
            u = bor(u, T.blt0(a.t))
        if e < 0:
            p = bor(p, T.beq0(a.t))
            k = "f"
        if a.t is ZERO and e < 0:
            return Num(ZERO, k, u, TRUE)
        return Num(T.ppow(a.t, e), k, u, p)
    if not (T.psign(a.t) == "+"):
        u = bor(u, T.blt0(a.t))
        p = bor(p, T.beq0(a.t))
    return Num(T.ppowsym(a.t, b.t), k, u, p)


def n_cmp(op, a, b):
    if a.im is not None or b.im is not None:
        raise Unsupported("comparison of complex numbers")
    d = a.t - b.t
    if op == "<":
        r = T.blt0(d)
    elif op == "<=":
        r = T.ble0(d)
    elif op == ">":
        r = T.blt0(T.pneg(d))
    elif op == ">=":
        r = T.ble0(T.pneg(d))
    elif op == "==":
        r = T.beq0(d)
    else:
        r = bnot(T.beq0(d))
    u = bor(a.und, b.und)
    if op == "!=":
        r = bor(r, u)
    else:
        r = band(r, bnot(u))
    return BV(r, bor(a.pois, b.pois))


def n_mod(a, b):
    q = n_div(a, b)
    return Num(a.t - b.t * T.pfloor(q.t), jk(a.kind, b.kind), q.und, q.pois)


def n_fdiv(a, b):
    q = n_div(a, b)
    return Num(T.pfloor(q.t), jk(a.kind, b.kind), q.und, q.pois)


def n_ite(c, a, b):
    """c: B."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    im = None
    if a.im is not None or b.im is not None:
        im = ite(c, a.im or ZERO, b.im or ZERO)
    return Num(ite(c, a.t, b.t), jk(a.kind, b.kind),
               bor(band(c, a.und), band(bnot(c), b.und)), bor(band(c, a.pois), band(bnot(c), b.pois)), im)


def b_ite(c, a, b):
    return BV(bor(band(c, a.b), band(bnot(c), b.b)), bor(band(c, a.pois), band(bnot(c), b.pois)))


def un(f, dom=None, und=None, kind="f"):
    """Lift a unary P->P; und: P -> B (NaN condition), dom: P -> B (unmodelled)."""
    def g(a):
        if a.im is not None:
            raise Unsupported("complex argument")
        u, p = a.und, a.pois
        if und is not None:
            u = bor(u, und(a.t))
        if dom is not None:
            p = bor(p, dom(a.t))
        return Num(f(a.t), a.kind if kind is None else kind, u, p)
    return g


def n_exp(a):
    if a.im is not None:
        m = T.pexp(a.t)
        return Num(m * T.pcos(a.im), "c", a.und, a.pois, m * T.psin(a.im))
    return Num(T.pexp(a.t), "f", a.und, a.pois)


def n_abs(a):
    if a.im is not None:
        return Num(T.ppow(a.t * a.t + a.im * a.im, T.HALF), "f", a.und, a.pois)
    return Num(T.pabs(a.t), a.kind, a.und, a.pois)


n_sqrt = un(lambda p: T.ppow(p, T.HALF), und=T.blt0)
n_sin, n_cos, n_tan = un(T.psin), un(T.pcos), un(T.ptan)
n_arctan = un(T.parctan)
_out1 = lambda p: bor(T.blt0(ONE - p), T.blt0(ONE + p))
n_arccos = un(T.parccos, und=_out1)
n_arcsin = un(T.parcsin, und=_out1)
n_sinc = un(T.psinc)
n_ln = un(T.pln, dom=lambda p: T.ble0(p))
_ln10 = lambda: T.pln(const(10))
n_log10 = un(lambda p: T.pln(p) / _ln10(), dom=lambda p: T.ble0(p))
n_log2 = un(lambda p: T.pln(p) / T.pln(const(2)), dom=lambda p: T.ble0(p))
n_floor = un(T.pfloor)
n_ceil = un(T.pceil)
n_round = un(T.print_)
n_trunc = un(T.ptrunc, kind="i")

"""Hash-consed term language of the verifier.

Real-valued terms are kept in a normal form: generalised polynomials
(rational coefficients, monomials over atoms with rational exponents).
Booleans are and/or/not trees over the atoms  P <= 0,  P == 0  and opaque
predicates.  All arithmetic here is exact (mathematical reals); literals are
read as the decimal numbers written in the source.
"""
from __future__ import annotations

from fractions import Fraction as Fr
from math import gcd

F0, F1 = Fr(0), Fr(1)
HALF = Fr(1, 2)


class TermError(Exception):
    """A construct outside the term language."""


# --------------------------------------------------------------------------
# atoms
_atoms: dict = {}
_cnt = [0]


BINDERS = {"sum": 1, "trapz": 2, "rmax": 1, "rmin": 1, "prod": 1, "lam": 1}      # number of bodies


class A:
    # h: levels of binders inside; fv: free variables; bs: bound variables whose binder is outside
    __slots__ = ("op", "args", "id", "h", "info", "fv", "bs")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _hof(x):
    if isinstance(x, (A, P, B)):
        return x.h
    if isinstance(x, (tuple, frozenset)):
        return max([_hof(y) for y in x], default=0)
    return 0


_EMPTY = frozenset()


def _fvof(x):
    if isinstance(x, (A, P, B)):
        return x.fv
    if isinstance(x, (tuple, frozenset)):
        r = _EMPTY
        for y in x:
            r = r | _fvof(y)
        return r
    return _EMPTY


def _bsof(x):
    if isinstance(x, (A, P, B)):
        return x.bs
    if isinstance(x, (tuple, frozenset)):
        r = _EMPTY
        for y in x:
            r = r | _bsof(y)
        return r
    return _EMPTY


def mk(op, *args, info=None):
    """Make (or find) an atom."""
    k = (op, args, info) if op in ("sym", "elem", "app") else (op, args)
    a = _atoms.get(k)
    if a is None:
        a = A()
        a.op, a.args, a.info = op, args, info
        _cnt[0] += 1
        a.id = _cnt[0]
        a.h = _hof(args)
        a.fv = _fvof(args)
        a.bs = _bsof(args)
        if op == "fv":
            a.fv = frozenset([a])
        elif op == "bv":
            a.bs = frozenset([a])
        elif op in BINDERS:
            a.h = max(a.h, args[-1].args[0] + 1)
            a.bs = a.bs - {args[-1]}
        _atoms[k] = a
    return a


# --------------------------------------------------------------------------
# polynomials
_polys: dict = {}


class P:
    """Polynomial: frozen dict mono -> coeff; mono: tuple of (atom, exp)."""

    __slots__ = ("d", "id", "h", "fv", "bs", "_hash", "_sign")

    def __repr__(self):
        return show(self)

    # arithmetic sugar
    def __add__(self, o):
        return padd(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pneg(lift(o)))

    def __rsub__(self, o):
        return padd(lift(o), pneg(self))

    def __mul__(self, o):
        return pmul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return pneg(self)

    def __truediv__(self, o):
        return pmul(self, ppow(lift(o), Fr(-1)))

    def __rtruediv__(self, o):
        return pmul(lift(o), ppow(self, Fr(-1)))

    def __pow__(self, e):
        return ppow(self, Fr(e))


def _mk(d):
    k = frozenset(d.items())
    p = _polys.get(k)
    if p is None:
        p = P()
        p.d = d
        _cnt[0] += 1
        p.id = _cnt[0]
        p.h = max([a.h for m in d for a, _ in m], default=0)
        fv = bs = _EMPTY
        for m in d:
            for a, _ in m:
                if a.fv:
                    fv = fv | a.fv
                if a.bs:
                    bs = bs | a.bs
        p.fv, p.bs = fv, bs
        p._sign = 0
        _polys[k] = p
    return p


def const(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise TermError("non-finite constant")
        x = Fr(repr(x))
    x = Fr(x)
    return _mk({(): x} if x else {})


ZERO = const(0)
ONE = const(1)


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, A):
        return pa(x)
    return const(x)


def pa(a, e=F1):
    """Polynomial consisting of one atom."""
    return _norm_mono({a: Fr(e)}, F1)


def cval(p):
    """Constant value, or None."""
    if not p.d:
        return F0
    if len(p.d) == 1 and () in p.d:
        return p.d[()]
    return None


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        n = d.get(m, F0) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return _mk(d)


def pscale(a, c):
    if not c:
        return ZERO
    if c == 1:
        return a
    return _mk({m: v * c for m, v in a.d.items()})


def pneg(a):
    return pscale(a, Fr(-1))


def _split_rat_pow(c, e):
    """c**e for positive rational c: (rational, {prime atom: frac exp})."""
    out = F1
    ats = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor(n).items():
            x = Fr(k) * e * s
            ip = x.numerator // x.denominator
            fr = x - ip
            out *= Fr(p) ** ip
            if fr:
                a = mk("prime", p)
                ats[a] = ats.get(a, F0) + fr
    return out, ats


_fac = {}


def factor(n):
    if n in _fac:
        return _fac[n]
    n0, r, p = n, {}, 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        r[n] = r.get(n, 0) + 1
    _fac[n0] = r
    return r


MAXMONO = 6000


def _norm_mono(d, c):
    """Normalise product c * prod(a**e); returns P.  d may hold atoms needing rewriting."""
    extra = []
    ex = None
    out = {}
    work = list(d.items())
    for a, e in work:
        if not e:
            continue
        op = a.op
        if op == "exp":
            t = pscale(a.args[0], e)
            ex = t if ex is None else padd(ex, t)
            continue
        if op == "ind":
            if e <= 0:
                out[a] = e
            else:
                out[a] = F1
            continue
        if op == "prime":
            ip = e.numerator // e.denominator
            fr = e - ip
            c *= Fr(a.args[0]) ** ip
            if fr:
                out[a] = fr
            continue
        if op == "grp":
            if e.denominator == 1 and e > 0:
                g = a.args[0]
                if e == 1 or len(g.d) ** int(e) <= 64:
                    extra.append(_intpow(g, int(e)))
                    continue
        if op == "abs" and e.denominator == 1 and e % 2 == 0:
            extra.append(ppow(a.args[0], e))
            continue
        out[a] = e
    if ex is not None and ex.d:
        # split exp(k*ln x) -> x**k, numeric constant multiples of ln(atom)
        rest = {}
        for m, k in ex.d.items():
            if len(m) == 1 and m[0][0].op == "ln" and m[0][1] == 1:
                extra.append(ppow(m[0][0].args[0], k))
            else:
                rest[m] = k
        rp = _mk(rest)
        if rp.d:
            a = mk("exp", rp)
            out[a] = F1
    m = tuple(sorted(out.items(), key=lambda t: t[0].id))
    p = _mk({m: c}) if c else ZERO
    for x in extra:
        p = pmul(p, x)
    return p


def _needs_norm(a):
    return a.op in ("exp", "ind", "prime", "grp", "abs")


def _mul_mono(m1, m2):
    """Returns dict of exponents, plus flag whether special handling is required."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    special = False
    seen_exp = any(a.op == "exp" for a, _ in m1)
    for a, e in m2:
        if a.op == "exp" and seen_exp:
            special = True
        if a in d:
            n = d[a] + e
            if n:
                d[a] = n
            else:
                del d[a]
            if _needs_norm(a):
                special = True
        else:
            d[a] = e
    return d, special


def primitive(p, roots=False):
    """(coef, mono, prim): p == coef*mono*prim, with mono the common factors.

    With roots=True only factors known to be non-negative are extracted, and
    the coefficient is positive."""
    if not p.d:
        return F1, (), p
    num, den = 0, 1
    for c in p.d.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    coef = Fr(num, den)
    monos = list(p.d)
    common = dict(monos[0])
    for m in monos[1:]:
        md = dict(m)
        for a in list(common):
            if a in md:
                common[a] = min(common[a], md[a])
            else:
                common[a] = min(common[a], F0)
        for a, e in md.items():
            if e < 0 and a not in common:
                common[a] = e
        # atoms absent from earlier monos but negative here
    if len(monos) > 1:
        # exponent 0 where absent in some monomial and positive elsewhere
        for a in list(common):
            lo = min(dict(m).get(a, F0) for m in monos)
            common[a] = lo
    for a in list(common):
        if a.op in ("exp", "ind") or not common[a]:
            common.pop(a)
        elif roots and asign(a) not in ("+", "0+"):
            common.pop(a)
        elif a.op == "prime":
            common.pop(a)
    # a common exp factor
    if all(any(a.op == "exp" for a, _ in m) for m in monos):
        exps = [[a for a, _ in m if a.op == "exp"][0] for m in monos]
        if all(x is exps[0] for x in exps):
            common[exps[0]] = F1
    mono = tuple(sorted(common.items(), key=lambda t: t[0].id))
    if not roots:
        lead = max(p.d, key=lambda m: tuple((a.id, e) for a, e in m))
        if p.d[lead] < 0:
            coef = -coef
    if mono:
        inv = {}
        for a, e in mono:
            if a.op == "exp":
                inv[mk("exp", pneg(a.args[0]))] = F1
            else:
                inv[a] = -e
        q = pmul_mono(p, inv, 1 / coef)
    else:
        q = pscale(p, 1 / coef)
    return coef, mono, q


def pmul_mono(p, d, c):
    r = ZERO
    acc = {}
    m2 = tuple(sorted(d.items(), key=lambda t: t[0].id))
    for m, k in p.d.items():
        nd, special = _mul_mono(m, m2)
        if special:
            r = padd(r, _norm_mono(nd if isinstance(nd, dict) else dict(nd), k * c))
        else:
            mm = nd if isinstance(nd, tuple) else tuple(sorted(nd.items(), key=lambda t: t[0].id))
            n = acc.get(mm, F0) + k * c
            if n:
                acc[mm] = n
            else:
                acc.pop(mm, None)
    return padd(r, _mk(acc)) if acc else r


_mulc = {}


def pmul(a, b):
    if not a.d or not b.d:
        return ZERO
    ca = cval(a)
    if ca is not None:
        return pscale(b, ca)
    cb = cval(b)
    if cb is not None:
        return pscale(a, cb)
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulc.get(k)
    if r is not None:
        return r
    if len(a.d) > len(b.d):
        a, b = b, a
    # absorb (sum) * grp(sum)**e
    r = None
    if len(a.d) == 1 and len(b.d) > 1:
        (m, c), = a.d.items()
        gs = [(x, e) for x, e in m if x.op == "grp"]
        if gs:
            co, mo, pr = primitive(b)
            for x, e in gs:
                if x.args[0] is pr or x.args[0] is pneg(pr):
                    sg = 1 if x.args[0] is pr else -1
                    d = dict(m)
                    d[x] = e + 1
                    if not d[x]:
                        del d[x]
                    r = pmul(_norm_mono(d, c * co * sg), _norm_mono(dict(mo), F1))
                    break
    if r is None:
        if len(a.d) * len(b.d) > MAXMONO:
            raise TermError("polynomial too large")
        r = ZERO
        for m, c in a.d.items():
            r = padd(r, pmul_mono(b, dict(m), c))
    _mulc[k] = r
    return r


def _intpow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def ppow(p, e):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.d:
        if e > 0:
            return ZERO
        return pa(mk("grp", ZERO), e)
    if e.denominator == 1 and e > 0 and (len(p.d) == 1 or len(p.d) ** int(e) <= 64):
        if len(p.d) == 1:
            (m, c), = p.d.items()
            return _norm_mono({a: x * e for a, x in m}, c ** int(e))
        return _intpow(p, int(e))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if e.denominator == 1:
            return _norm_mono({a: x * e for a, x in m}, c ** int(e))
        out, rest = {}, {}
        for a, x in m:
            s = asign(a)
            if s in ("+", "0+"):
                out[a] = x * e
            elif x.denominator == 1 and x % 2 == 0:
                ab = pabs(pa(a))
                (mm, cc), = ab.d.items()
                for a2, x2 in mm:
                    out[a2] = out.get(a2, F0) + x2 * x * e
            else:
                rest[a] = x
        if not rest and c > 0:
            r, pr = _split_rat_pow(c, e)
            for a, x in pr.items():
                out[a] = out.get(a, F0) + x
            return _norm_mono(out, r)
        r, pr = _split_rat_pow(abs(c), e)
        for a, x in pr.items():
            out[a] = out.get(a, F0) + x
        g = _norm_mono(rest, F1 if c > 0 else Fr(-1))
        ga = mk("grp", g)
        out[ga] = e
        return _norm_mono(out, r)
    if e.denominator == 1:
        co, mo, pr = primitive(p)
        if len(pr.d) == 1 and not (mo == () and co == 1):
            pass
        ga = mk("grp", pr)
        d = {a: x * e for a, x in mo}
        d[ga] = d.get(ga, F0) + e
        return _norm_mono(d, co ** int(e))
    co, mo, pr = primitive(p, roots=True)
    r, prm = _split_rat_pow(co, e)
    d = {a: x * e for a, x in mo}
    for a, x in prm.items():
        d[a] = d.get(a, F0) + x
    # perfect power of a sum?
    sq = _sqrt_poly(pr) if e.denominator == 2 else None
    if sq is not None:
        out = pmul(_norm_mono(d, r), ppow(pabs(sq), e * 2))
        return out
    ga = mk("grp", pr)
    d[ga] = d.get(ga, F0) + e
    return _norm_mono(d, r)


def _sqrt_poly(p):
    """Recognise a**2 + 2ab + b**2 (three monomials)."""
    if len(p.d) != 3:
        return None
    sqs = []
    for m, c in p.d.items():
        if c > 0 and all((e / 2).denominator == 1 for _, e in m):
            n, d = _isqrt(c.numerator), _isqrt(c.denominator)
            if n is not None and d is not None:
                sqs.append(_mk({tuple((a, e / 2) for a, e in m): Fr(n, d)}))
    if len(sqs) != 2:
        return None
    for s in (1, -1):
        q = padd(sqs[0], pscale(sqs[1], Fr(s)))
        if pmul(q, q) is p:
            return q
    return None


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


# --------------------------------------------------------------------------
# signs


def asign(a):
    op = a.op
    if op in ("pi", "prime", "exp"):
        return "+"
    if op in ("sym", "elem", "fv", "app"):
        return a.info
    if op in ("abs", "ind"):
        return "0+"
    if op == "arccos":
        return "0+"
    if op == "ln":
        c = cval(a.args[0])
        if c is not None:
            return "+" if c > 1 else "-"
        return None
    if op == "grp":
        return psign(a.args[0])
    if op in ("nth", "first"):
        return "0+"
    if op in ("sum", "trapz", "rmax", "rmin", "max", "min", "floor", "prod"):
        return _compound_sign(a)
    return None


def _compound_sign(a):
    if a.op in ("max",):
        s = [psign(x) for x in a.args[0]]
        if "+" in s:
            return "+"
        if "0+" in s or "0" in s:
            return "0+"
        return None
    if a.op == "min":
        s = [psign(x) for x in a.args[0]]
        if all(x == "+" for x in s):
            return "+"
        if all(x in ("+", "0+", "0") for x in s):
            return "0+"
        return None
    if a.op == "sum":
        s = psign(a.args[1])
        if s == "+" and psign(a.args[0]) == "+":
            return "+"
        if s in ("+", "0+"):
            return "0+"
        return None
    if a.op in ("rmax", "rmin"):
        s = psign(a.args[1])
        if s in ("+", "0+"):
            return s
    if a.op == "prod":
        s = psign(a.args[1])
        if s in ("+", "0+"):
            return s
    if a.op == "floor":
        s = psign(a.args[0])
        if s in ("+", "0+"):
            return "0+"
    return None


def mono_sign(m, c):
    s = 1 if c > 0 else -1
    strict = True
    for a, e in m:
        g = asign(a)
        if e.denominator != 1 or e % 2 == 0:
            # fractional powers are of non-negative bases (definedness tracked apart)
            if g not in ("+", "-"):
                strict = False
            if e.denominator != 1 and e.denominator % 2 == 1 and g not in ("+", "0+"):
                pass
            continue
        if g == "+":
            continue
        if g == "0+":
            strict = False
            continue
        if g == "-":
            s = -s
            continue
        if g == "0-":
            s = -s
            strict = False
            continue
        return None
    if strict:
        return "+" if s > 0 else "-"
    return "0+" if s > 0 else "0-"


def psign(p):
    """'+', '-', '0+', '0-', '0' or None."""
    if p._sign != 0:
        return p._sign
    if not p.d:
        r = "0"
    else:
        pos = neg = strict = False
        r = 1
        for m, c in p.d.items():
            s = mono_sign(m, c)
            if s is None:
                r = None
                break
            if s in ("+", "0+"):
                pos = True
            else:
                neg = True
            if s in ("+", "-"):
                strict = True
        if r == 1:
            if pos and neg:
                r = None
            elif pos:
                r = "+" if strict else "0+"
            else:
                r = "-" if strict else "0-"
        if r is None:
            lo, hi = bounds(p)
            if lo is not None and lo >= 0:
                r = "+" if lo > 0 else "0+"
            elif hi is not None and hi <= 0:
                r = "-" if hi < 0 else "0-"
    p._sign = r
    return r


def bounds(p):
    """Constant bounds of p from clamps in it (None where unknown)."""
    c = cval(p)
    if c is not None:
        return c, c
    if len(p.d) > 4:
        return None, None
    lo = hi = F0
    for m, c in p.d.items():
        if not m:
            a, b = F1, F1
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("min", "max"):
            a, b = _clamp(m[0][0])
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and _is_ind(m[0][0].args[1]):
            a, b = F0, bounds(m[0][0].args[0])[1]       # a count of some of n
        else:
            s = mono_sign(m, F1)
            a, b = (F0 if s in ("+", "0+") else None), (F0 if s in ("-", "0-") else None)
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


def _is_ind(p):
    if len(p.d) != 1:
        return False
    (m, c), = p.d.items()
    return c == 1 and all(a.op == "ind" for a, _ in m)


def _clamp(a):
    bs = [bounds(x) for x in a.args[0]]
    los, his = [b[0] for b in bs], [b[1] for b in bs]
    if a.op == "max":
        return (max((x for x in los if x is not None), default=None),
                None if None in his else max(his))
    return (None if None in los else min(los)), min((x for x in his if x is not None), default=None)


# --------------------------------------------------------------------------
# functions with simplification
def pabs(p):
    s = psign(p)
    if s in ("+", "0+", "0"):
        return p
    if s in ("-", "0-"):
        return pneg(p)
    co, mo, pr = primitive(p)
    out = const(abs(co))
    for a, e in mo:
        if asign(a) in ("+", "0+") or (e.denominator == 1 and e % 2 == 0) or e.denominator != 1:
            out = pmul(out, _norm_mono({a: e}, F1))
        else:
            out = pmul(out, pa(mk("abs", pa(a)), e) if not (len(pa(a).d) == 1 and a.op == "abs") else pa(a, e))
    if cval(pr) is None:
        if len(pr.d) == 1:
            (m, c), = pr.d.items()
            for a, e in m:
                if asign(a) in ("+", "0+") or a.op == "ind":
                    out = pmul(out, pa(a, e))
                else:
                    out = pmul(out, pa(mk("abs", pa(a)), e))
            out = pscale(out, abs(c))
        else:
            out = pmul(out, pa(mk("abs", pr)))
    else:
        out = pscale(out, abs(cval(pr)))
    return out


def _canon_sign(p):
    """(s, q) with p == s*q, q having a positive leading coefficient."""
    if not p.d:
        return 1, p
    lead = max(p.d, key=lambda m: tuple((a.id, e) for a, e in m))
    if p.d[lead] < 0:
        return -1, pneg(p)
    return 1, p


def pexp(p):
    if not p.d:
        return ONE
    return _norm_mono({mk("exp", p): F1}, F1)


def _pi_multiple(p):
    """p == q*pi with rational q -> q, else None."""
    if not p.d:
        return F0
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if m == ((PI, F1),):
            return c
    return None


def _single_atom(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def psin(p):
    q = _pi_multiple(p)
    if q is not None:
        q = q % 2
        t = {F0: 0, Fr(1, 6): HALF, HALF: 1, Fr(5, 6): HALF, F1: 0, Fr(7, 6): -HALF, Fr(3, 2): -1, Fr(11, 6): -HALF}
        if q in t:
            return const(t[q])
    a = _single_atom(p)
    if a is not None and a.op == "arccos":
        x = a.args[0]
        return ppow(ONE - x * x, HALF)
    if a is not None and a.op == "arcsin":
        return a.args[0]
    s, q = _canon_sign(p)
    return pscale(pa(mk("sin", q)), Fr(s))


def pcos(p):
    q = _pi_multiple(p)
    if q is not None:
        return psin(pscale(pa(PI), q + HALF))
    a = _single_atom(p)
    if a is not None and a.op == "arccos":
        return a.args[0]
    s, q = _canon_sign(p)
    if PI in [x for m in p.d for x, _ in m] and len(p.d) > 1:
        # cos(x + k*pi/2)
        c = p.d.get(((PI, F1),))
        if c is not None and (c * 2).denominator == 1:
            rest = p - pscale(pa(PI), c)
            k = int(c * 2) % 4
            return [lambda: pcos(rest), lambda: pneg(psin(rest)), lambda: pneg(pcos(rest)), lambda: psin(rest)][k]()
    return pa(mk("cos", q))


def ptan(p):
    s, q = _canon_sign(p)
    if not p.d:
        return ZERO
    return pscale(pa(mk("tan", q)), Fr(s))


def parctan(p):
    if not p.d:
        return ZERO
    c = cval(p)
    if c == 1:
        return pscale(pa(PI), Fr(1, 4))
    s, q = _canon_sign(p)
    return pscale(pa(mk("arctan", q)), Fr(s))


def parccos(p):
    c = cval(p)
    if c is not None:
        t = {F0: HALF, F1: F0, Fr(-1): F1, HALF: Fr(1, 3), -HALF: Fr(2, 3)}
        if c in t:
            return pscale(pa(PI), t[c])
    return pa(mk("arccos", p))


def parcsin(p):
    return pscale(pa(PI), HALF) - parccos(p)


def psinc(p):
    if not p.d:
        return ONE
    s, q = _canon_sign(p)
    return pa(mk("sinc", q))


def pln(p):
    c = cval(p)
    if c is not None and c > 0:
        out = ZERO
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(n).items():
                out = out + pscale(pa(mk("ln", const(pr))), Fr(k * s))
        return out
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0 and all(asign(a) == "+" for a, _ in m):
            out = pln(const(c)) if c != 1 else ZERO
            for a, e in m:
                if a.op == "exp":
                    out = out + pscale(a.args[0], e)
                elif a.op == "prime":
                    out = out + pscale(pa(mk("ln", const(a.args[0]))), e)
                else:
                    out = out + pscale(pa(mk("ln", pa(a))), e)
            return out
    elif len(p.d) > 1:
        co, mo, pr = primitive(p, roots=True)
        mo2 = [(a, e) for a, e in mo if asign(a) == "+"]
        if (mo2 and len(mo2) == len(mo) or co != 1) and len(mo2) == len(mo):
            return pln(const(co)) + (pln(_norm_mono(dict(mo), F1)) if mo else ZERO) + pa(mk("ln", pr))
    return pa(mk("ln", p))


def ppowsym(b, e):
    c = cval(e)
    if c is not None:
        return ppow(b, c)
    if psign(b) == "+":
        return pexp(e * pln(b))
    return pa(mk("pow", b, e))


def isint(p):
    """Syntactically integer valued."""
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not aint(a):
                return False
    return True


_int_syms = set()


def aint(a):
    if a in _int_syms:
        return True
    if a.op in ("floor", "nth", "first", "bv", "argmin", "ind", "trunc", "rint"):
        return True
    if a.op in ("sum", "rmax", "rmin", "prod"):
        return isint(a.args[1])
    if a.op in ("max", "min"):
        return all(isint(x) for x in a.args[0])
    if a.op == "abs":
        return isint(a.args[0])
    return False


def intsym(a):
    _int_syms.add(a)
    return a


def pfloor(p):
    if isint(p):
        return p
    c = cval(p)
    if c is not None:
        return const(c.numerator // c.denominator)
    # pull integer part out
    ip, rest = {}, {}
    for m, k in p.d.items():
        if k.denominator == 1 and all(aint(a) and e.denominator == 1 and e > 0 for a, e in m):
            ip[m] = k
        elif m == () and k.denominator != 1:
            w = k.numerator // k.denominator
            if w:
                ip[m] = Fr(w)
            rest[m] = k - w
        else:
            rest[m] = k
    return _mk(ip) + pa(mk("floor", _mk(rest)))


def pceil(p):
    return pneg(pfloor(pneg(p)))


def ptrunc(p):
    if isint(p):
        return p
    s = psign(p)
    if s in ("+", "0+"):
        return pfloor(p)
    if s in ("-", "0-"):
        return pceil(p)
    c = cval(p)
    if c is not None:
        return const(int(c))
    return pa(mk("trunc", p))


def print_(p):
    """np.round: half to even."""
    c = cval(p)
    if c is not None:
        return const(round(c))
    if isint(p):
        return p
    return pa(mk("rint", p))


def pmax(items):
    return _mm("max", items)


def pmin(items):
    return _mm("min", items)


def _mm(op, items):
    s = set()
    for x in items:
        a = _single_atom(x)
        if a is not None and a.op == op:
            s |= set(a.args[0])
        else:
            s.add(x)
    # drop dominated
    lst = list(s)
    keep = []
    for x in lst:
        dom = False
        for y in lst:
            if y is x:
                continue
            sg = psign(y - x) if op == "max" else psign(x - y)
            if sg in ("+",) or (sg in ("0+", "0") and y.id < x.id) or (sg == "0+" and psign(x - y) is None):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    # common positive factor
    commons = None
    for x in keep:
        if not x.d:
            commons = None
            break
        co, mo, _ = primitive(x, roots=True)
        d = {a: e for a, e in mo if asign(a) == "+"}
        commons = d if commons is None else {a: min(e, d[a]) for a, e in commons.items() if a in d}
        if not commons:
            break
    if commons:
        inv = {a: -e for a, e in commons.items()}
        ks = [pmul_mono(x, inv, F1) for x in keep]
        return pmul(pa(mk(op, frozenset(ks))), _norm_mono(dict(commons), F1))
    return pa(mk(op, frozenset(keep)))


# --------------------------------------------------------------------------
# booleans
_bools: dict = {}


class B:
    __slots__ = ("op", "args", "id", "h", "fv", "bs")

    def __repr__(self):
        return showb(self)

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)


def _mb(op, *args):
    k = (op, args)
    b = _bools.get(k)
    if b is None:
        b = B()
        b.op, b.args = op, args
        _cnt[0] += 1
        b.id = _cnt[0]
        b.h = _hof(args)
        b.fv = _fvof(args)
        b.bs = _bsof(args)
        if op == "all":
            b.h = max(b.h, args[-1].args[0] + 1)
            b.bs = b.bs - {args[-1]}
        _bools[k] = b
    return b


TRUE = _mb("true")
FALSE = _mb("false")


def blift(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "and":
        return bor(*[bnot(x) for x in b.args[0]])
    if b.op == "or":
        return band(*[bnot(x) for x in b.args[0]])
    return _mb("not", b)


def band(*bs):
    s = set()
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.op == "and":
            s |= b.args[0]
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return FALSE
    # absorption
    s = {b for b in s if not (b.op == "or" and any(x in s for x in b.args[0]))}
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mb("and", frozenset(s))


def bor(*bs):
    s = set()
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.op == "or":
            s |= b.args[0]
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return TRUE
    s = {b for b in s if not (b.op == "and" and any(x in s for x in b.args[0]))}
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mb("or", frozenset(s))


def _cmp_norm(p):
    """Divide by a positive factor, keeping the set {p <= 0}."""
    co, mo, pr = primitive(p, roots=True)
    d = {a: e for a, e in mo if asign(a) == "+"}
    q = pscale(p, 1 / co)
    if d:
        q = pmul_mono(q, {(a if a.op != "exp" else mk("exp", pneg(a.args[0]))): (-e if a.op != "exp" else F1) for a, e in d.items()}, F1)
    return q


def ble0(p):
    s = psign(p)
    if s in ("0", "-", "0-"):
        return TRUE
    if s == "+":
        return FALSE
    if s == "0+":
        return beq0(p)
    q = _cmp_norm(p)
    if isint(q):
        # p <= 0 over the integers: divide by gcd of non-constant coefficients
        g = 0
        for m, c in q.d.items():
            if m != ():
                g = gcd(g, abs(c.numerator))
        if g > 1:
            k = q.d.get((), F0)
            k2 = -((-k / g).numerator // (-k / g).denominator)
            d = {m: c / g for m, c in q.d.items() if m != ()}
            if k2:
                d[()] = Fr(k2)
            q = _mk(d)
        # canonical orientation for the pair  q<=0 / -q+1<=0
        n = ONE - q
        s2, _ = _canon_sign(q)
        if s2 < 0:
            return bnot(_mb("le", n))
    else:
        s2, r = _canon_sign(q)
    return _mb("le", q)


def blt0(p):
    s = psign(p)
    if s in ("0", "+", "0+"):
        return FALSE
    if s == "-":
        return TRUE
    q = _cmp_norm(p)
    if isint(q):
        return ble0(q + ONE)
    return bnot(ble0(pneg(p)))


def beq0(p):
    s = psign(p)
    if s == "0":
        return TRUE
    if s in ("+", "-"):
        return FALSE
    co, mo, pr = primitive(p)
    alts = []
    for a, e in mo:
        if e > 0 and asign(a) not in ("+", "-"):
            alts.append(_eqatom(pa(a)))
    c = cval(pr)
    if c is None:
        alts.append(_eqatom(pr))
    return bor(*alts) if alts else FALSE


def _eqatom(p):
    a = _single_atom(p)
    if a is not None:
        if a.op == "grp":
            return beq0(a.args[0])
        if a.op == "ind":
            return bnot(a.args[0])
        if a.op == "abs":
            return beq0(a.args[0])
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] != 1:
            return beq0(pa(m[0][0]))
    # sum of non-negative terms is zero iff every term is
    if len(p.d) > 1:
        sg = [mono_sign(m, c) for m, c in p.d.items()]
        if all(s in ("0+",) for s in sg) or all(s in ("0-",) for s in sg):
            return band(*[beq0(_mk({m: c})) for m, c in p.d.items()])
    s, q = _canon_sign(p)
    return _mb("eq", q)


def bapp(name, *args):
    return _mb("app", name, *args)


def ind(b):
    """Indicator polynomial of a boolean."""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == "not":
        return ONE - ind(b.args[0])
    if b.op == "and":
        r = ONE
        for x in b.args[0]:
            r = r * ind(x)
        return r
    if b.op == "or":
        r = ONE
        for x in b.args[0]:
            r = r * (ONE - ind(x))
        return ONE - r
    return pa(mk("ind", b))


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    i = ind(c)
    return i * a + (ONE - i) * b


PI = mk("pi")

# --------------------------------------------------------------------------
# binding
def fresh(name="k", sign=None, integer=True):
    _cnt[0] += 1
    a = mk("fv", f"{name}_{_cnt[0]}", info=sign)
    if integer:
        intsym(a)
    return a


def subst(x, m, memo=None):
    """Substitute atoms -> P (m: dict)."""
    if memo is None:
        memo = {}
    if _RENAME not in memo:
        memo[_RENAME] = _renames(x, m)
    return _sub(x, m, memo)


_RENAME = "#rename"


def _renames(x, m):
    """m only renames one variable to another that does not occur in x."""
    if len(m) != 1:
        return False
    (a, t), = m.items()
    if a.op not in ("fv", "bv") or not isinstance(t, P) or len(t.d) != 1:
        return False
    (mono, c), = t.d.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return False
    w = mono[0][0]
    if w.info != a.info or (w in _int_syms) != (a in _int_syms):
        return False
    if w.op == "fv":
        return w not in _fvof(x)
    if w.op == "bv":
        return w not in _bsof(x) and w.args[0] >= _hof(x)
    return False


def _untouched(x, m, memo):
    r = memo.get("#allfv")
    if r is None:
        r = all(isinstance(k, A) and k.op in ("fv", "bv") for k in m)
        memo["#allfv"] = r
    return r and x.fv.isdisjoint(m) and x.bs.isdisjoint(m)


def _sub(x, m, memo):
    if isinstance(x, P):
        if _untouched(x, m, memo):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = ZERO
        same = {}
        for mono, c in x.d.items():
            chg = False
            fac = []
            for a, e in mono:
                na = _suba(a, m, memo)
                if na is not a:
                    chg = True
                fac.append((na, e))
            if not chg:
                same[mono] = c
            else:
                t = const(c)
                for na, e in fac:
                    if isinstance(na, A):
                        t = pmul(t, _norm_mono({na: e}, F1))
                    else:
                        t = pmul(t, ppow(na, e))
                r = padd(r, t)
        if same:
            r = padd(r, _mk(same)) if len(same) != len(x.d) else x
        memo[x] = r
        return r
    if isinstance(x, A):
        return _suba(x, m, memo)
    if isinstance(x, B):
        r = memo.get(x)
        if r is not None:
            return r
        if _untouched(x, m, memo):
            return x
        op = x.op
        if op in ("true", "false"):
            r = x
        elif op == "not":
            r = bnot(_sub(x.args[0], m, memo))
        elif op == "and":
            r = band(*[_sub(y, m, memo) for y in x.args[0]])
        elif op == "or":
            r = bor(*[_sub(y, m, memo) for y in x.args[0]])
        elif op == "all":
            bv = x.args[2]
            if memo.get(_RENAME):
                r = _mb("all", _sub(x.args[0], m, memo), _sub(x.args[1], m, memo), bv)
                memo[x] = r
                return r
            v = fresh("k", "0+")
            body = subst(x.args[1], {bv: pa(v)})
            nb = _sub(body, m, memo)
            nn = _sub(x.args[0], m, memo)
            r = x if nb is body and nn is x.args[0] else all_close(nn, nb, v)
        elif op == "le":
            q = _sub(x.args[0], m, memo)
            r = x if q is x.args[0] else ble0(q)
        elif op == "eq":
            q = _sub(x.args[0], m, memo)
            r = x if q is x.args[0] else beq0(q)
        else:
            r = _mb(op, *[_sub(y, m, memo) for y in x.args])
        if x in m:
            r = m[x]
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_sub(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_sub(y, m, memo) for y in x)
    return x


def _suba(a, m, memo):
    if a in m:
        return m[a]
    if not a.args or a.op in ("fv", "bv", "sym", "prime", "pi"):
        return a
    r = memo.get(a)
    if r is not None:
        return r
    if _untouched(a, m, memo):
        return a
    if a.op in BINDERS:
        if memo.get(_RENAME):
            r = mk(a.op, *[_sub(y, m, memo) for y in a.args[:-1]], a.args[-1])
        else:
            r = _sub_binder(a, m, memo)
        memo[a] = r
        return r
    na = tuple(_sub(y, m, memo) for y in a.args)
    if all(p is q for p, q in zip(na, a.args)):
        r = a
    else:
        r = rebuild(a.op, na, a.info)
    memo[a] = r
    return r




def _sub_binder(a, m, memo):
    nb = BINDERS[a.op]
    bv = a.args[-1]
    bodies = a.args[-1 - nb:-1]
    heads = a.args[:-1 - nb]
    v = fresh("k", "0+")
    opened = tuple(subst(b, {bv: pa(v)}) for b in bodies)
    nbod = tuple(_sub(b, m, memo) for b in opened)
    nheads = tuple(_sub(h, m, memo) for h in heads)
    if all(p is q for p, q in zip(opened, nbod)) and all(p is q for p, q in zip(heads, nheads)):
        return a
    return _closers[a.op](*nheads, *nbod, v)


_rebuilders = {}


def rebuild(op, args, info=None):
    """Atom constructor with simplification; may return a P."""
    f = _rebuilders.get(op)
    if f is not None:
        return f(*args)
    if op == "app" and args[0] == "tbl":
        c = cval(args[2])
        if c is not None and c.denominator == 1 and 0 <= c < len(args[1]):
            return const(args[1][int(c)])
    return mk(op, *args, info=info)


_rebuilders.update(
    exp=lambda p: pexp(p), sin=psin, cos=pcos, tan=ptan, arctan=parctan, arccos=parccos,
    sinc=psinc, ln=pln, abs=pabs, floor=pfloor, trunc=ptrunc, rint=print_,
    max=pmax, min=pmin, pow=ppowsym, ind=ind, grp=lambda p: p,
)


class Grp(Exception):
    pass


def _rb_grp(p):
    return p


_rebuilders["grp"] = _rb_grp


def lam(f, name="k", sign="0+"):
    """Canonical one-variable abstraction: returns body over bv."""
    v = fresh(name, sign)
    body = f(pa(v))
    return close(body, v)


def binder_var(body):
    """Bound variable of a binder around body: numbered by the levels inside."""
    h = max([_hof(body)] + [b.args[0] + 1 for b in _bsof(body)])
    return intsym(mk("bv", h, info="0+"))


def close(body, v):
    b = binder_var(body)
    return subst(body, {v: pa(b)}), b


def open_(body, bv, val):
    return subst(body, {bv: val})


def depends(x, a):
    if a.op == "fv":
        return a in _fvof(x)
    return _dep(x, a, {})


def _dep(x, a, memo):
    if x is a:
        return True
    if isinstance(x, P):
        return any(_dep(y, a, memo) for m in x.d for y, _ in m)
    if isinstance(x, (A, B)):
        r = memo.get(x)
        if r is None:
            r = any(_dep(y, a, memo) for y in x.args)
            memo[x] = r
        return r
    if isinstance(x, (tuple, frozenset)):
        return any(_dep(y, a, memo) for y in x)
    return False


def atoms_of(x, acc=None):
    """All atoms and boolean leaves anywhere inside x (including under binders)."""
    if acc is None:
        acc = {}
    if isinstance(x, P):
        if x in acc:
            return acc
        acc[x] = 1
        for m in x.d:
            for a, _ in m:
                atoms_of(a, acc)
    elif isinstance(x, (A, B)):
        if x in acc:
            return acc
        acc[x] = 1
        for y in x.args:
            atoms_of(y, acc)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            atoms_of(y, acc)
    return acc


# --------------------------------------------------------------------------
# reductions over an index 0..n-1 ; the bound variable of the body is a bv
def _bvar_info(b):
    return b


def psum(n, f):
    """Sum_{k<n} f(k)."""
    v = fresh("k", "0+")
    return sum_close(n, f(pa(v)), v)


def inrange(n, x, v):
    """Decide the comparisons of x that follow from 0 <= v < n."""
    if v not in x.fv:
        return x
    m = {}
    for a in atoms_of(x):
        if not (isinstance(a, B) and a.op == "le" and v in a.fv):
            continue
        p = a.args[0]
        k = ((v, F1),)
        c = p.d.get(k)
        if c is None:
            continue
        rest = _mk({mm: cc for mm, cc in p.d.items() if mm != k})
        if v in rest.fv:
            continue
        end = (n - ONE) * const(c) + rest
        hi, lo = (end, rest) if c > 0 else (rest, end)
        h, l = cval(hi), cval(lo)
        if h is not None and h <= 0:
            m[a] = TRUE
        elif l is not None and l > 0:
            m[a] = FALSE
    if not m:
        return x
    m.update({mk("ind", a): (ONE if t is TRUE else ZERO) for a, t in list(m.items())})
    return subst(x, m)


def sum_close(n, body, v):
    c = cval(n)
    if c is None or c > 12:
        body = inrange(n, body, v)
    if c is not None and c <= 12:
        r = ZERO
        for i in range(int(c)):
            r = r + subst(body, {v: const(i)})
        return r
    two = _rows(n, body, v)
    if two is not None:
        return two
    r = ZERO
    groups = {}
    for m, k in body.d.items():
        out, inn = {}, {}
        for a, e in m:
            if v in a.fv:
                if a.op == "exp":
                    # split exp(a+b): independent part goes out
                    dep = {mm: kk for mm, kk in a.args[0].d.items() if any(v in x.fv for x, _ in mm)}
                    ind_ = {mm: kk for mm, kk in a.args[0].d.items() if mm not in dep}
                    if ind_:
                        out[mk("exp", _mk(ind_))] = F1
                        inn[mk("exp", _mk(dep))] = F1
                        continue
                inn[a] = e
            else:
                out[a] = e
        key = tuple(sorted(inn.items(), key=lambda t: t[0].id))
        groups[key] = groups.get(key, ZERO) + _norm_mono(out, k)
    for key, co in groups.items():
        if not key:
            r = r + co * n
            continue
        r = r + co * _sum_atom(n, _norm_mono(dict(key), F1), v)
    return r


def _rows(n, body, v):
    """A sum over a flattened a x b array, as the sum over its rows and columns."""
    if c_mono(n) is None or v not in fv_of(body):
        return None
    pv_ = pa(v)
    for x in atoms_of(body):
        if isinstance(x, A) and x.op == "floor" and v in x.fv:
            q = x.args[0]
            if len(q.d) != 1:
                return None
            (m, c), = q.d.items()
            if c != 1 or (v, F1) not in m:
                return None
            b = ONE / _mk({tuple((a, e) for a, e in m if a is not v): F1})      # floor(k / b)
            a = n / b
            if not (isint(b) and isint(a)) or psign(b) != "+":
                return None
            i, j = fresh("r", "0+"), fresh("c", "0+")
            out = subst(body, {x: pa(i)})
            out = subst(out, {v: b * pa(i) + pa(j)})
            out = inrange(b, out, j)
            if x in set(atoms_of(out)):
                return None
            return sum_close(a, sum_close(b, out, j), i)
    return None


def c_mono(n):
    if len(n.d) != 1:
        return None
    (m, c), = n.d.items()
    return m if c == 1 and len(m) >= 2 else None


def fv_of(p):
    return {v for m in p.d for a, _ in m for v in a.fv}


def _sum_atom(n, body, v):
    # linear in k exactly
    if len(body.d) == 1 and _single_atom(body) is v:
        return n * (n - ONE) * const(HALF)
    # Kronecker delta: sum ind(k==t)*g(k) when 0<=t<n is left to the prover
    b2, bv = close(body, v)
    return pa(mk("sum", n, b2, bv))


def ptrapz(n, fy, fx):
    v = fresh("k", "0+")
    return trapz_close(n, fy(pa(v)), fx(pa(v)), v)


def trapz_close(n, y, x, v):
    y, x = inrange(n, y, v), inrange(n, x, v)
    r = ZERO
    groups = {}
    for m, k in y.d.items():
        out, inn = {}, {}
        for a, e in m:
            (inn if v in a.fv else out)[a] = e
        key = tuple(sorted(inn.items(), key=lambda t: t[0].id))
        groups[key] = groups.get(key, ZERO) + _norm_mono(out, k)
    # scale of x (independent positive factors)
    co, mo, pr = primitive(x) if x.d else (F1, (), x)
    xo, xi = {}, {}
    for a, e in mo:
        (xi if v in a.fv else xo)[a] = e
    xs = _norm_mono(xo, co)
    xr = pmul(pr, _norm_mono(xi, F1))
    # constants shift of x is irrelevant
    xr = _mk({m: c for m, c in xr.d.items() if any(v in a.fv for a, _ in m)})
    for key, c in groups.items():
        if not key:
            first = subst(xr, {v: ZERO})
            last = subst(xr, {v: n - ONE})
            r = r + c * xs * (last - first)
            continue
        yb = _norm_mono(dict(key), F1)
        b = binder_var((yb, xr))
        yb2, xb2 = subst(yb, {v: pa(b)}), subst(xr, {v: pa(b)})
        r = r + c * xs * pa(mk("trapz", n, yb2, xb2, b))
    return r


def reduce_mm(op, n, body, v):
    """rmax / rmin over k<n."""
    c = cval(n)
    if c is not None and c <= 12:
        its = [subst(body, {v: const(i)}) for i in range(int(c))]
        return pmax(its) if op == "rmax" else pmin(its)
    if c is not None and c <= 2000 and v in body.fv and len(body.fv) == 1:
        its = [cval(subst(body, {v: const(i)})) for i in range(int(c))]
        if all(x is not None for x in its):
            return const(max(its) if op == "rmax" else min(its))
    body = inrange(n, body, v)
    if v not in body.fv:
        return body
    co, mo, pr = primitive(body, roots=True)
    out = {a: e for a, e in mo if v not in a.fv and asign(a) == "+"}
    if out or co != 1:
        inner = pmul_mono(body, {a: -e for a, e in out.items()}, 1 / co) if out else pscale(body, 1 / co)
        b2, bv = close(inner, v)
        return pmul(_norm_mono(out, co), pa(mk(op, n, b2, bv)))
    b2, bv = close(body, v)
    return pa(mk(op, n, b2, bv))




def prod_close(n, body, v):
    c = cval(n)
    if c is not None and c <= 12:
        r = ONE
        for i in range(int(c)):
            r = r * subst(body, {v: const(i)})
        return r
    body = inrange(n, body, v)
    if v not in body.fv:
        return ppowsym(body, n)
    b2, bv = close(body, v)
    return pa(mk("prod", n, b2, bv))


def ball(n, f):
    """Forall k<n."""
    v = fresh("k", "0+")
    body = f(pa(v))
    return all_close(n, body, v)


def all_close(n, body, v):
    c = cval(n)
    if body is TRUE:
        return TRUE
    if c is not None and c <= 12:
        return band(*[subst(body, {v: const(i)}) for i in range(int(c))])
    body = inrange(n, body, v)
    if body is TRUE:
        return TRUE
    if v not in body.fv:
        return bor(body, ble0(n))
    b2, bv = close(body, v)
    return _mb("all", n, b2, bv)


def forall(vs, ns, body):
    """Forall v<n, ..., nested."""
    for v, n in zip(reversed(list(vs)), reversed(list(ns))):
        body = all_close(n, body, v)
    return body


def mklam(body, v):
    """Abstraction atom  \\v. body  (body: P, B or tuple)."""
    b2, bv = close(body, v)
    return mk("lam", b2, bv)


def lamf(f):
    v = fresh("k", "0+")
    return mklam(f(pa(v)), v)


def lam_apply(l, x):
    return subst(l.args[0], {l.args[1]: x})


_closers = {
    "sum": sum_close, "trapz": trapz_close, "prod": prod_close, "lam": mklam,
    "rmax": lambda n, b, v: reduce_mm("rmax", n, b, v),
    "rmin": lambda n, b, v: reduce_mm("rmin", n, b, v),
}


def show_atom(a):
    if a.op == "pi":
        return "pi"
    if a.op in ("sym", "fv"):
        return str(a.args[0])
    if a.op == "bv":
        return f"#{a.args[0]}"
    if a.op == "elem":
        return f"{a.args[0]}[{','.join(map(str, a.args[1:]))}]"
    if a.op == "prime":
        return str(a.args[0])
    if a.op == "grp":
        return f"({a.args[0]})"
    if a.op == "app":
        return f"{a.args[0]}({', '.join(_sh(x) for x in a.args[1:])})"
    return f"{a.op}({', '.join(_sh(x) for x in a.args)})"


def _sh(x):
    if isinstance(x, frozenset):
        return "{" + ", ".join(sorted(map(_sh, x))) + "}"
    if isinstance(x, tuple):
        return "<" + ", ".join(map(_sh, x)) + ">"
    return str(x)


def show(p):
    if not p.d:
        return "0"
    out = []
    for m, c in p.d.items():
        fs = []
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else f"{s}^{e}" if e.denominator == 1 and e > 0 else f"{s}^({e})")
        t = "*".join(fs)
        if not t:
            t = str(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = f"{c}*{t}"
        out.append(t)
    return " + ".join(out)


def showb(b):
    if b.op in ("true", "false"):
        return b.op
    if b.op == "not":
        x = b.args[0]
        if x.op == "le":
            return f"{x.args[0]} > 0"
        if x.op == "eq":
            return f"{x.args[0]} != 0"
        return f"not({x})"
    if b.op in ("and", "or"):
        return "(" + f" {b.op} ".join(sorted(map(showb, b.args[0]))) + ")"
    if b.op == "le":
        return f"{b.args[0]} <= 0"
    if b.op == "eq":
        return f"{b.args[0]} == 0"
    return f"{b.op}({', '.join(_sh(x) for x in b.args)})"

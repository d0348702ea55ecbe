"""Back end: z3 translation of the term language and the proof strategies."""
from __future__ import annotations

import time
from fractions import Fraction as Fr

import z3

from . import term as T
from .term import FALSE, ONE, TRUE, ZERO, A, B, P, band, bnot, bor, const, pa

STATS = {"z3_calls": 0, "z3_time": 0.0, "z3_unsat": 0, "normal_form": 0, "syntactic": 0, "split": 0,
         "congruence": 0, "cvc5": 0}

SCALE = [1.0]

MONO = {"exp", "ln", "arctan"}


class Tr:
    """Translation of one query."""

    def __init__(self):
        self.v = {}
        self.b = {}
        self.roots = {}
        self.invs = {}
        self.facts = []
        self.byop = {}
        self.n = 0
        self.pend = []

    def name(self, s):
        self.n += 1
        return f"{s}!{self.n}"

    def const(self, c):
        return z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) if c.denominator != 1 else z3.RealVal(str(c.numerator))

    def q(self, c):
        return z3.Q(c.numerator, c.denominator)

    def poly(self, p):
        ts = []
        for m, c in p.d.items():
            fs = []
            if c != 1 or not m:
                fs.append(self.q(c))
            for a, e in m:
                fs.append(self.power(a, e))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def power(self, a, e):
        b = self.atom(a)
        if e.denominator != 1:
            b = self.root(a, b, e.denominator)
            e = Fr(e.numerator)
        n = int(e)
        if n < 0:
            b = self.inv(b)
            n = -n
        r = b
        for _ in range(n - 1):
            r = r * b
        return r

    def root(self, a, b, q):
        k = (a, q)
        if k not in self.roots:
            r = z3.Real(self.name("root"))
            self.roots[k] = r
            t = r
            for _ in range(q - 1):
                t = t * r
            self.facts.append(z3.Implies(b >= 0, z3.And(r >= 0, t == b)))
            self.facts.append(z3.Implies(b > 0, r > 0))
        return self.roots[k]

    def inv(self, b):
        k = b.get_id()
        if k not in self.invs:
            r = z3.Real(self.name("inv"))
            self.invs[k] = (r, b)
            self.facts.append(z3.Implies(b != 0, r * b == 1))
            self.facts.append(z3.Implies(b > 0, r > 0))
            self.facts.append(z3.Implies(b < 0, r < 0))
        return self.invs[k][0]

    def atom(self, a):
        r = self.v.get(a)
        if r is None:
            r = self._atom(a)
            self.v[a] = r
        return r

    def _atom(self, a):
        op = a.op
        F = self.facts
        if op == "grp":
            return self.poly(a.args[0])
        if op == "prime":
            return self.q(Fr(a.args[0]))
        if op == "ind":
            return z3.If(self.bool(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        if op == "abs":
            x = self.poly(a.args[0])
            return z3.If(x >= 0, x, -x)
        if op in ("max", "min"):
            xs = [self.poly(x) for x in a.args[0]]
            r = xs[0]
            for x in xs[1:]:
                r = z3.If(x > r, x, r) if op == "max" else z3.If(x < r, x, r)
            return r
        if op == "pi":
            r = z3.Real("pi")
            F += [r > z3.Q(314159265358979, 10**14), r < z3.Q(314159265358980, 10**14)]
            return r
        if T.aint(a):
            iv = z3.Int(self.name(op))
            r = z3.ToReal(iv)
        else:
            r = z3.Real(self.name(op))
        self.v[a] = r
        self.byop.setdefault(op, []).append((a, r))
        s = T.asign(a)
        if s == "+":
            F.append(r > 0)
        elif s == "0+":
            F.append(r >= 0)
        elif s == "-":
            F.append(r < 0)
        elif s == "0-":
            F.append(r <= 0)
        if op == "floor":
            x = self.poly(a.args[0])
            F += [r <= x, x < r + 1]
        elif op == "trunc":
            x = self.poly(a.args[0])
            F += [z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)), z3.Implies(x <= 0, z3.And(r >= x, x > r - 1))]
        elif op == "rint":
            x = self.poly(a.args[0])
            F += [r <= x + z3.Q(1, 2), x <= r + z3.Q(1, 2)]
        elif op == "exp":
            x = self.poly(a.args[0])
            F += [z3.Implies(x >= 0, r >= 1), z3.Implies(x <= 0, r <= 1), r >= 1 + x, z3.Implies(x > 0, r > 1),
                  z3.Implies(x < 0, r < 1)]
        elif op == "ln":
            x = self.poly(a.args[0])
            F += [z3.Implies(x >= 1, r >= 0), z3.Implies(z3.And(x > 0, x <= 1), r <= 0), z3.Implies(x > 0, r <= x - 1),
                  z3.Implies(x > 1, r > 0)]
        elif op in ("sin", "cos"):
            F += [r <= 1, r >= -1]
            x, pi = self.poly(a.args[0]), self.atom(T.PI)
            if op == "sin":
                F += [z3.Implies(z3.And(x > 0, x < pi), r > 0), z3.Implies(z3.And(x >= 0, x <= pi), r >= 0)]
            else:
                F += [z3.Implies(z3.And(2 * x < pi, 2 * x > -pi), r > 0)]
            oth = [o for o in self.v if isinstance(o, A) and o.op == ("cos" if op == "sin" else "sin")
                   and o.args[0] is a.args[0]]
            if oth:
                F.append(r * r + self.v[oth[0]] * self.v[oth[0]] == 1)
        elif op == "arccos":
            F += [r >= 0, r <= self.atom(T.PI)]
            x = self.poly(a.args[0])
            F += [z3.Implies(z3.And(x >= 0, x <= 1), r * 2 <= self.atom(T.PI))]
        elif op == "arctan":
            F += [r * 2 < self.atom(T.PI), r * 2 > -self.atom(T.PI)]
            x = self.poly(a.args[0])
            F += [z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.Implies(x > 0, r > 0)]
        elif op == "sinc":
            F += [r <= 1, r >= -1]
        elif op == "nth":
            n, l, j = a.args
            self.pend.append(("nth", a, r))
            # the j-th selected index: facts valid when it exists
            cnt = T.sum_close(n, T.ind(_lam_open(l)[0]), _lam_open(l)[1])
            ok = z3.And(self.poly(j) >= 0, self.poly(j) < self.poly(cnt))
            body = T.lam_apply(l, pa(a))
            F.append(z3.Implies(ok, z3.And(r >= 0, r < self.poly(n), r >= self.poly(j), self.bool(body))))
        elif op == "first":
            n, l = a.args
            F.append(z3.Implies(self.poly(n) >= 0, r <= self.poly(n)))
            F.append(z3.Implies(r < self.poly(n), self.bool(T.lam_apply(l, pa(a)))))
        elif op == "sum":
            n, b, bv = a.args
            # count of an indicator
            if self._is_ind(b):
                F += [r >= 0, z3.Implies(self.poly(n) >= 0, r <= self.poly(n))]
        elif op in ("rmax", "rmin"):
            pass
        return r

    def _is_ind(self, b):
        if len(b.d) != 1:
            return False
        (m, c), = b.d.items()
        return c == 1 and all(x.op == "ind" for x, _ in m)

    def bool(self, b):
        r = self.b.get(b)
        if r is None:
            op = b.op
            if op == "true":
                r = z3.BoolVal(True)
            elif op == "false":
                r = z3.BoolVal(False)
            elif op == "le":
                r = self.poly(b.args[0]) <= 0
            elif op == "eq":
                r = self.poly(b.args[0]) == 0
            elif op == "not":
                r = z3.Not(self.bool(b.args[0]))
            elif op == "and":
                r = z3.And([self.bool(x) for x in b.args[0]])
            elif op == "or":
                r = z3.Or([self.bool(x) for x in b.args[0]])
            else:
                r = z3.Bool(self.name(op))
                self.byop.setdefault("B" + op, []).append((b, r))
            self.b[b] = r
        return r

    def congruence(self):
        """Ackermann constraints and monotonicity for pairs of like atoms."""
        done = set()
        for rnd in range(2):
            for op, lst in list(self.byop.items()):
                if op in ("sym", "fv", "bv", "prod", "pi", "floor") or len(lst) > 8:
                    continue
                for i in range(len(lst)):
                    for j in range(i):
                        (x, rx), (y, ry) = lst[i], lst[j]
                        if (x, y) in done:
                            continue
                        done.add((x, y))
                        eqs = self._argeq(x.args, y.args)
                        if eqs is not None:
                            self.facts.append(z3.Implies(z3.And(eqs) if eqs else z3.BoolVal(True), rx == ry))
                        if op in MONO:
                            p, q = self.poly(x.args[0]), self.poly(y.args[0])
                            ok = z3.And(p > 0, q > 0) if op == "ln" else z3.BoolVal(True)
                            self.facts.append(z3.Implies(z3.And(ok, p <= q), rx <= ry))
                            self.facts.append(z3.Implies(z3.And(ok, q <= p), ry <= rx))

    def _argeq(self, xs, ys):
        if len(xs) != len(ys):
            return None
        out = []
        for p, q in zip(xs, ys):
            if p is q:
                continue
            if isinstance(p, P) and isinstance(q, P):
                if any(a.op == "bv" for m in p.d for a, _ in m) or any(a.op == "bv" for m in q.d for a, _ in m):
                    return None
                out.append(self.poly(p) == self.poly(q))
            elif isinstance(p, B) and isinstance(q, B):
                out.append(self.bool(p) == self.bool(q))
            elif isinstance(p, tuple) and isinstance(q, tuple):
                r = self._argeq(p, q)
                if r is None:
                    return None
                out += r
            elif p == q and not isinstance(p, (A, frozenset)):
                continue
            else:
                return None
        return out


def _lam_open(l):
    v = T.fresh("k", "0+")
    return T.subst(l.args[0], {l.args[1]: pa(v)}), v


def check_sat(bs, timeout=1500, want_model=False):
    """z3 on a conjunction: 'unsat' | 'sat' | 'unknown' (and a valuation of the symbols)."""
    t0 = time.time()
    tr = Tr()
    try:
        zs = [tr.bool(b) for b in bs]
        tr.congruence()
    except RecursionError:
        return ("unknown", None)
    s = z3.Solver()
    s.set("timeout", int(timeout * SCALE[0]))
    s.add(zs)
    s.add(tr.facts)
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        STATS["z3_unsat"] += 1
        return ("unsat", None)
    if r == z3.sat and want_model:
        m = s.model()
        val = {}
        for a, v in tr.v.items():
            if a.op in ("sym", "elem", "fv", "app"):
                try:
                    x = m.eval(v, model_completion=True)
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    val[a] = float(Fr(x.numerator_as_long(), x.denominator_as_long()))
                except Exception:
                    pass
        return ("sat", val)
    return ("sat" if r == z3.sat else "unknown", None)


# --------------------------------------------------------------------------
class Solver:
    def __init__(self, quick_ms=400):
        self.cache = {}
        self.pending = []
        self.quick_ms = quick_ms
        self.total = 0.0

    def entails(self, pc, b, ms=None):
        if b is TRUE:
            return True
        if b is FALSE and not pc:
            return False
        rel = relevant(pc, b)
        k = (frozenset(rel), b, ms or 0)
        r = self.cache.get(k)
        if r is None:
            r = self._entails(rel, b, ms or self.quick_ms)
            self.cache[k] = r
        return r

    def _entails(self, pc, b, ms):
        if quick(pc, b):
            STATS["syntactic"] += 1
            return True
        if b.op == "and":
            return all(self.entails(pc, x, ms) for x in b.args[0])
        r, _ = check_sat(list(pc) + [bnot(b)], ms)
        return r == "unsat"


def quick(pc, b):
    s = set()
    for x in pc:
        if x.op == "and":
            s |= x.args[0]
        s.add(x)
    if b in s or FALSE in s:
        return True
    if b.op == "and":
        return all(quick(pc, x) for x in b.args[0])
    if b.op == "or":
        if any(x in s for x in b.args[0]):
            return True
    return False


def relevant(pc, b):
    """Hypotheses sharing atoms with the goal (transitively)."""
    if len(pc) <= 3:
        return tuple(pc)
    need = set(_leaf(b))
    rest = [(x, _leaf(x)) for x in dict.fromkeys(pc)]
    out = []
    chg = True
    while chg:
        chg = False
        for it in list(rest):
            x, lv = it
            if not lv or not need.isdisjoint(lv):
                out.append(x)
                rest.remove(it)
                if not lv <= need:
                    need |= lv
                    chg = True
    return tuple(out)


_lc = {}


def prove_goal(pr, pc, goal):
    """Discharge one obligation; a change of variables first where one applies."""
    isq = isinstance(goal, tuple)
    parts = [goal[1], goal[2]] if isq else [goal]
    leaf = _leaf(parts[0]) | (_leaf(parts[1]) if isq else frozenset())
    pcs = list(pc)
    try:
        new, extra, chg = reduce_vars(list(relevant(pcs, band(*[T.beq0(x) if isinstance(x, P) else x for x in parts]))) + parts)
    except (RecursionError, T.TermError):
        chg = False
    if chg:
        n = len(parts)
        hyp = extra + new[:-n]
        ok = pr.prove_eq(hyp, new[-2], new[-1]) if isq else pr.prove_b(hyp, new[-1])
        if ok:
            pr.how.add("change-of-variables")
            return True
    if isq:
        return pr.prove_eq(pcs, goal[1], goal[2])
    m = None if not any(isinstance(a, A) and a.op == "sum" for a in T.atoms_of(goal)) else trapz_sums(
        [a for g in [goal] + pcs for a in T.atoms_of(g) if isinstance(a, A) and a.op in ("trapz", "sum") and not free_bv(pa(a))])
    if m and pr.prove_b([T.subst(x, m) for x in pcs], T.subst(goal, m)):
        pr.how.add("trapezoid sums")
        return True
    return pr.prove_b(pcs, goal)


def _leaf(x):
    r = _lc.get(x)
    if r is None:
        r = frozenset(a for a in T.atoms_of(x) if isinstance(a, A) and a.op in ("sym", "fv", "elem", "app")
                      or isinstance(a, B) and a.op == "app")
        _lc[x] = r
    return r


# --------------------------------------------------------------------------
# change of variables
def _leaves(items):
    out = set()
    for x in items:
        for a in T.atoms_of(x):
            if isinstance(a, A) and a.op in ("sym", "elem", "fv"):
                out.add(a)
    return out


def _even_only(items, a):
    for x in items:
        for p in T.atoms_of(x):
            if isinstance(p, P):
                for m in p.d:
                    for b, e in m:
                        if b is a and (e.denominator != 1 or e.numerator % 2):
                            return False
            elif isinstance(p, A) and p.op == "elem" and p is not a and a in p.args:
                return False
    return True


def reduce_vars(items):
    """Polar and scaling substitutions.  (u, v) entering only through u^2+v^2
    is replaced by r = sqrt(u^2+v^2); r entering only through r*M (M > 0) by
    x = r*M.  Returns (items', extra hypotheses)."""
    extra = []
    fresh = []
    for _ in range(3):
        done = True
        gs = {}
        for x in items:
            for p in T.atoms_of(x):
                if isinstance(p, P):
                    for m in p.d:
                        for b, e in m:
                            if b.op == "grp" and e.denominator == 2 and not free_bv(b):
                                gs[b] = 1
        for g in sorted(gs, key=lambda b: b.id):
            q = g.args[0]
            if T.psign(q) not in ("+", "0+"):
                continue
            for m, c in q.d.items():
                if len(m) == 1 and m[0][1] == 2 and c > 0 and m[0][0].op in ("sym", "elem"):
                    a = m[0][0]
                    rest = T._mk({mm: cc for mm, cc in q.d.items() if mm != m})
                    if T.depends(rest, a) or not _even_only(items, a):
                        continue
                    r = T.fresh("r", "0+", integer=False)
                    a2 = (pa(r, Fr(2)) - rest) * const(1 / c)
                    new = [T.subst(x, {a: T.ppow(a2, Fr(1, 2))}) for x in items]
                    if any(T.depends(x, a) for x in new) or len(_leaves(new)) > len(_leaves(items)):
                        continue
                    items = new
                    extra = [T.ble0(-a2)] + extra
                    fresh.append(r)
                    done = False
                    break
            if not done:
                break
        if done:
            break
    for r in fresh:
        best = (len(_leaves(items)), None, None)
        cand = {}
        for x in items:
            for p in T.atoms_of(x):
                if isinstance(p, P):
                    for m in p.d:
                        d = dict(m)
                        e = d.pop(r, None)
                        if e and d and all(T.asign(b) == "+" and b.op in ("sym", "elem") for b in d):
                            cand[tuple((b, k / e) for b, k in sorted(d.items(), key=lambda t: t[0].id))] = 1
        for m in list(cand)[:12]:
            if any(k.denominator != 1 for _, k in m):
                continue
            x = T.fresh("x", "0+", integer=False)
            t = pa(x)
            for b, k in m:
                t = t * pa(b, -k)
            new = [T.subst(y, {r: t}) for y in items]
            n = len(_leaves(new))
            if n < best[0]:
                best = (n, new, {r: t})
        if best[1] is not None:
            items = best[1]
            extra = [T.subst(y, best[2]) for y in extra]
    return items, extra, bool(fresh)


# --------------------------------------------------------------------------
# equality prover
class Prover:
    def __init__(self, solver, budget=20.0):
        self.s = solver
        self.budget = budget
        self.t0 = time.time()
        self.how = set()

    def out_of_time(self):
        return time.time() - self.t0 > self.budget

    def prove_b(self, pc, b, depth=0):
        if b is TRUE:
            return True
        if quick(pc, b):
            self.how.add("syntactic")
            return True
        if self.out_of_time() or depth > 10:
            return False
        if b.op == "and":
            return all(self.prove_b(pc, x, depth + 1) for x in b.args[0])
        if b.op == "all":
            n, body, bv = b.args
            v = T.fresh("k", "0+")
            k = pa(v)
            g = T.subst(body, {bv: k})
            return self.prove_b(list(pc) + [T.ble0(-k), T.blt0(k - n)], g, depth + 1)
        if b.op == "eq" and depth < 6:
            if self.prove_eq(pc, b.args[0], ZERO, depth + 1):
                return True
        if b.op == "not" and b.args[0].op == "all":
            pass
        ms = 800 if depth < 2 else 400
        rel = relevant(pc, b)
        r, _ = check_sat(list(rel) + [bnot(b)], ms)
        if r == "unsat":
            self.how.add("z3")
            return True
        # all-hypotheses instantiation
        inst = self.inst(pc, b)
        if inst:
            r, _ = check_sat(list(rel) + inst + [bnot(b)], 1500)
            if r == "unsat":
                self.how.add("z3")
                return True
        if depth < 5:
            fs = self.bind_facts(pc, b, depth)
            if fs:
                r, _ = check_sat(list(rel) + inst + fs + [bnot(b)] + list(relevant(pc, band(*fs))), 2500)
                if r == "unsat":
                    self.how.add("z3")
                    return True
        if b.op == "or" and depth < 5:
            # prove one disjunct under the negation of the others
            ds = sorted(b.args[0], key=lambda x: x.id)
            for x in ds:
                oth = [bnot(y) for y in ds if y is not x]
                if x.op in ("eq", "all", "and") and self.prove_b(list(pc) + oth, x, depth + 1):
                    return True
        # split on indicator conditions
        cs = self.conds(b)
        if cs and depth < 6:
            c = cs[0]
            return (self.prove_b(list(pc) + [c], setcond(b, c, True), depth + 1)
                    and self.prove_b(list(pc) + [bnot(c)], setcond(b, c, False), depth + 1))
        b2 = self.rewrite(pc, b)
        if b2 is not b:
            return self.prove_b(pc, b2, depth + 1)
        r, _ = check_sat(list(rel) + [bnot(b)], 5000)
        if r == "unsat":
            self.how.add("z3")
            return True
        return False

    def inst(self, pc, goal):
        """Instances of universally quantified hypotheses at terms of the goal."""
        out = []
        tables = {}
        for x in [goal] + [y for y in pc if y.op in ("le", "not")]:
            for a in T.atoms_of(x):
                if isinstance(a, A) and a.op == "app" and a.args[0] == "tbl" and not free_bv(pa(a)):
                    tables.setdefault(a.args[1], {})[a] = a.args[2]
        for g, ts in tables.items():
            if 2 <= len(ts) <= 6 and all(p < q for p, q in zip(g, g[1:])):
                n = const(len(g))
                for a, i in ts.items():
                    for b, j in ts.items():
                        if a is not b:          # a strictly increasing table orders its entries as their indices
                            out.append(bor(T.ble0(j - i), T.blt0(i), T.ble0(n - j), T.blt0(pa(a) - pa(b))))
        alls = [h for x in pc for h in (x.args[0] if x.op == "and" else [x]) if h.op == "all"]
        if not alls:
            return out
        terms = set()
        for a in T.atoms_of(goal):
            if isinstance(a, A) and (a.op in ("fv", "nth", "first") or a.op == "sym" and T.aint(a)):
                terms.add(pa(a))
            if isinstance(a, A) and a.op in ("min", "max") and T.aint(a) and any(
                    isinstance(z, A) and z.op == "first" for z in T.atoms_of(pa(a))) and not _free_bv(a):
                terms.add(pa(a))
            if isinstance(a, A) and a.op == "elem":
                for x in a.args:
                    if isinstance(x, P):
                        terms.add(x)
        terms = sorted((t for t in terms if not free_bv(t)), key=lambda t: t.h)
        for h in alls:
            n, body, bv = h.args
            ts = terms[:10] + [t - ONE for t in terms[:4]]
            for t in dict.fromkeys(ts):
                out.append(bor(T.subst(body, {bv: t}), T.blt0(t), T.ble0(n - t)))
        return out

    def bind_facts(self, pc, x, depth):
        """Bounds of sums, trapezoid sums and extrema from bounds of their terms."""
        out = []
        ats = [a for a in T.atoms_of(x) if isinstance(a, A) and a.op in ("sum", "trapz", "rmax", "rmin")]
        for a in ats[:6]:
            if any(isinstance(y, A) and y.op == "bv" and y is not a.args[-1] for y in _free_bv(a)):
                continue
            n = a.args[0]
            k = pa(T.fresh("k", "0+"))
            inr = list(pc) + [T.blt0(k - n)]
            at = lambda b, i: T.subst(b, {a.args[-1]: i})
            pos = T.blt0(-n)
            if a.op in ("rmax", "rmin"):
                b = a.args[1]
                for i in (ZERO, n - ONE):
                    d = pa(a) - at(b, i)
                    out.append(bor(bnot(pos), T.ble0(-d) if a.op == "rmax" else T.ble0(d)))
                for f in (lambda t: T.blt0(-t), lambda t: T.ble0(-t)):
                    if self.prove_b(inr, f(at(b, k)), depth + 3):
                        out.append(bor(bnot(pos), f(pa(a))))
                        break
            elif a.op == "sum":
                b = a.args[1]
                if self.prove_b(inr, T.ble0(-at(b, k)), depth + 3):
                    out.append(T.ble0(-pa(a)))
                    for i in (ZERO, n - ONE):
                        out.append(bor(bnot(pos), T.ble0(at(b, i) - pa(a))))
            else:
                y, xx = a.args[1], a.args[2]
                ge = T.blt0(k - n + ONE)
                hyp = list(pc) + [ge]
                inst = [bnot(z) for z in ()]
                if self.prove_b(inr, T.ble0(-at(y, k)), depth + 3) and self.prove_b(
                        hyp, T.ble0(at(xx, k) - at(xx, k + ONE)), depth + 3):
                    two = T.ble0(const(2) - n)
                    out.append(T.ble0(-pa(a)))
                    for i in (ZERO, n - const(2)):
                        j = i + ONE
                        out.append(bor(bnot(two), T.ble0((at(xx, j) - at(xx, i)) * (at(y, i) + at(y, j)) * const(T.HALF) - pa(a))))
        # linear interpolation over increasing abscissae stays within the table's sign
        for a in [a for a in T.atoms_of(x) if isinstance(a, A) and a.op == "app" and a.args[0] == "pwl"][:4]:
            mode, kx = a.args[1], a.args[2]
            if mode[1:] != ("lr", "clamp", "clamp") or _free_bv(a):
                continue
            n = kx[0][0]
            k = pa(T.fresh("k", "0+"))
            at = lambda l, i: T.lam_apply(l, i)[0] if isinstance(T.lam_apply(l, i), tuple) else T.lam_apply(l, i)
            try:
                fx, fy = at(kx[1], k), at(kx[2], k)
                up = T.blt0(at(kx[1], k) - at(kx[1], k + ONE))
            except Exception:  # noqa: BLE001
                continue
            hyps = list(pc)
            if self.prove_b(hyps + [T.blt0(k - n)], T.ble0(-fy), depth + 3) and self.prove_b(
                    hyps + [T.blt0(k - n + ONE)], up, depth + 3):
                out.append(T.ble0(-pa(a)))
        # instances of hypotheses at the end points
        if out:
            for h in [h for z in pc for h in (z.args[0] if z.op == "and" else [z]) if h.op == "all"]:
                n, body, bv = h.args
                for i in (ZERO, n - ONE, n - const(2)):
                    out.append(bor(T.subst(body, {bv: i}), T.blt0(i), T.ble0(n - i)))
        return out

    def conds(self, x):
        """Atomic conditions of indicators in x that are not under a binder."""
        out = {}
        _conds(x, out, set())
        return sorted(out, key=lambda b: (b.h, b.id))

    def rewrite(self, pc, x):
        """Use equality hypotheses  a == t."""
        m = eq_rewrites(pc)
        return T.subst(x, m) if m else x

    def decide_inds(self, pc, d):
        chg = True
        while chg and not self.out_of_time():
            chg = False
            for c in self.conds(d):
                if self.s.entails(pc, c):
                    d = setcond(d, c, True)
                    chg = True
                    break
                if self.s.entails(pc, bnot(c)):
                    d = setcond(d, c, False)
                    chg = True
                    break
        return d

    def prove_eq(self, pc, x, y, depth=0):
        d = x - y
        if d is ZERO:
            self.how.add("normal-form")
            return True
        if T.cval(d) is not None:
            return self.s.entails(pc, FALSE, 1000) if pc else False
        if self.out_of_time() or depth > 9:
            return False
        d = self.decide_inds(pc, d)
        if d is ZERO:
            self.how.add("z3")
            return True
        d2 = self.rewrite(pc, d)
        if d2 is not d:
            d = d2
            if d is ZERO:
                self.how.add("rewrite")
                return True
        d2 = self.clear(pc, d)
        if d2 is ZERO:
            self.how.add("field")
            return True
        # common congruence before splitting
        d3 = self.congr(pc, d2, depth)
        if d3 is ZERO:
            self.how.add("congruence")
            return True
        d4 = self.clear(pc, d3)
        if d4 is ZERO:
            self.how.add("congruence")
            return True
        d5 = untrapz(d4)
        if d5 is not d4:
            d5 = self.clear(pc, d5)
            if d5 is ZERO or self.clear(pc, self.congr(pc, d5, depth)) is ZERO:
                self.how.add("congruence")
                return True
        cs = self.conds(d4)
        if cs:
            c = cs[0]
            STATS["split"] += 1
            ok = True
            for val in (True, False):
                h = c if val else bnot(c)
                pc2 = list(pc) + [h]
                if self.s.entails(pc2, FALSE, 300):
                    continue
                if not self.prove_eq(pc2, setcond(d4, c, val), ZERO, depth + 1):
                    ok = False
                    break
            if ok:
                self.how.add("case-split")
                return True
            return False
        g = T.beq0(d4)
        rel = relevant(pc, g)
        inst = self.inst(pc, g)
        r, _ = check_sat(list(rel) + inst + [bnot(g)], 1500 if depth else 5000)
        if r == "unsat":
            self.how.add("z3")
            return True
        return False

    def clear(self, pc, d):
        """Multiply by non-zero denominators and expand groups."""
        for _ in range(6):
            best = {}
            for m in d.d:
                for a, e in m:
                    if e.denominator == 1 or a.op == "grp":
                        if e < best.get(a, 0):
                            best[a] = e
            grps = {a for m in d.d for a, e in m if a.op == "grp" and e >= 1}
            todo = {a: e for a, e in best.items()}
            if not todo and not grps:
                return d
            for a in list(todo):
                if a.op == "grp" and T.psign(a.args[0]) not in ("+", "-"):
                    if not self.s.entails(pc, bnot(T.beq0(a.args[0]))):
                        todo.pop(a)
                elif a.op != "grp" and T.asign(a) not in ("+", "-"):
                    if not self.s.entails(pc, bnot(T.beq0(pa(a)))):
                        todo.pop(a)
            r = ZERO
            try:
                for m, c in d.d.items():
                    t = const(c)
                    mm = dict(m)
                    for a, e in todo.items():
                        mm[a] = mm.get(a, Fr(0)) - e
                    for a, e in mm.items():
                        if not e:
                            continue
                        if a.op == "grp" and e >= 1:
                            k = e.numerator // e.denominator
                            t = t * T.ppow(a.args[0], k)
                            if e - k:
                                t = t * pa(a, e - k)
                        elif a.op == "exp" and e.denominator == 1:
                            t = t * T.pexp(a.args[0] * const(e))
                        else:
                            t = t * pa(a, e)
                    r = r + t
            except T.TermError:
                return d
            if r is d:
                return d
            d = r
            if d is ZERO:
                return d
        return d

    def congr(self, pc, d, depth):
        """Merge opaque atoms whose arguments are provably equal."""
        if depth > 5:
            return d
        ats = top_atoms(d)
        by = {}
        for a in ats:
            if a.op in ("sum", "trapz", "rmax", "rmin", "prod", "app", "exp", "sin", "cos", "tan", "arctan", "arccos",
                        "ln", "abs", "floor", "rint", "trunc", "elem", "nth", "first", "grp", "sinc", "max", "min", "pow",
                        "argmin", "ind"):
                k = (a.op, len(a.args))
                if a.op == "app":
                    k += (a.args[0],)
                if a.op == "elem":
                    k += (a.args[0],)
                by.setdefault(k, []).append(a)
        m = {}
        for k, lst in by.items():
            lst = [a for a in lst if not free_bv(a)]
            if len(lst) < 2 or len(lst) > 8:
                continue
            lst.sort(key=lambda a: a.id)
            if k[0] == "sum":
                r = self.align(pc, d, lst, depth)
                if r is not None:
                    return r
            reps = []
            for a in lst:
                for r in reps:
                    if self.out_of_time():
                        break
                    if self.args_eq(pc, a, r, depth + 1):
                        m[a] = pa(r)
                        STATS["congruence"] += 1
                        break
                else:
                    reps.append(a)
        return subst_top(d, m) if m else d

    def align(self, pc, d, lst, depth):
        """sum(n+c, f) against sum(n, g): peel c terms off either end."""
        for x in lst:
            for y in lst:
                c = T.cval(x.args[0] - y.args[0])
                if c is None or not 0 < c <= 3 or c.denominator != 1:
                    continue
                n = y.args[0]
                if not self.s.entails(pc, T.ble0(-n)):
                    continue
                at = lambda b, i: T.subst(b.args[1], {b.args[-1]: i})
                v = T.fresh("k", "0+")
                k = pa(v)
                pk = list(pc) + [T.blt0(k - n)]
                if self.prove_eq(pk, at(x, k + const(c)), at(y, k), depth + 2):
                    r = pa(y)
                    for i in range(int(c)):
                        r = r + at(x, const(i))
                    return T.subst(d, {x: r})
                if self.prove_eq(pk, at(x, k), at(y, k), depth + 2):
                    r = pa(y)
                    for i in range(int(c)):
                        r = r + at(x, n + const(i))
                    return T.subst(d, {x: r})
        return None

    def args_eq(self, pc, a, b, depth):
        if depth > 7:
            return False
        if a.op in T.BINDERS:
            nb = T.BINDERS[a.op]
            for p, q in zip(a.args[:-1 - nb], b.args[:-1 - nb]):
                if not self.same(pc, p, q, depth):
                    return False
            v = T.fresh("k", "0+")
            k = pa(v)
            pc2 = list(pc)
            if a.op != "lam":
                pc2 += [T.blt0(k - a.args[0])]
            for p, q in zip(a.args[-1 - nb:-1], b.args[-1 - nb:-1]):
                if not self.same(pc2, T.subst(p, {a.args[-1]: k}), T.subst(q, {b.args[-1]: k}), depth):
                    return False
            return True
        if a.op in ("max", "min"):
            if len(a.args[0]) != len(b.args[0]):
                return False
            rest = list(b.args[0])
            for x in a.args[0]:
                for y in rest:
                    if self.same(pc, x, y, depth):
                        rest.remove(y)
                        break
                else:
                    return False
            return True
        return all(self.same(pc, p, q, depth) for p, q in zip(a.args, b.args))

    def same(self, pc, p, q, depth):
        if p is q:
            return True
        if isinstance(p, P) and isinstance(q, P):
            return self.prove_eq(pc, p, q, depth)
        if isinstance(p, B) and isinstance(q, B):
            return self.prove_b(list(pc) + [p], q, depth) and self.prove_b(list(pc) + [q], p, depth)
        if isinstance(p, A) and isinstance(q, A):
            if p.op == q.op and len(p.args) == len(q.args):
                return self.args_eq(pc, p, q, depth)
            return False
        if isinstance(p, tuple) and isinstance(q, tuple):
            if len(p) == 3 and len(q) == 3 and p[0] == q[0] == "arr":
                if not self.same(pc, p[1], q[1], depth):
                    return False
                return self.arr_same(list(pc), p[1], p[2], q[2], depth)
            return len(p) == len(q) and all(self.same(pc, x, y, depth) for x, y in zip(p, q))
        return p == q

    def arr_same(self, pc, shape, p, q, depth):
        """Element functions (nested abstractions) equal inside the index range."""
        if p is q:
            return True
        for s in shape:
            while isinstance(p, tuple) and len(p) == 1:
                p = p[0]
            while isinstance(q, tuple) and len(q) == 1:
                q = q[0]
            if not (isinstance(p, A) and isinstance(q, A) and p.op == q.op == "lam"):
                return False
            k = pa(T.fresh("k", "0+"))
            p, q = T.lam_apply(p, k), T.lam_apply(q, k)
            pc = pc + [T.blt0(k - s)]
            if p is q:
                return True
        return self.same(pc, p, q, depth)


_fb = {}


free_bv = T._bsof


def _free_bv(a):
    return list(free_bv(a))


def untrapz(d):
    """Where one side spells its sum out, trapezoid integrals are sums, too."""
    m = trapz_sums(top_atoms(d))
    return T.subst(d, m) if m else d


def trapz_sums(atoms):
    ops = {}
    for a in atoms:
        ops.setdefault(a.op, []).append(a)
    if "trapz" not in ops or "sum" not in ops:
        return None
    m = {}
    lens = {a.args[0] for a in ops["sum"]}
    for a in ops["trapz"]:
        if a.args[0] - ONE not in lens:
            continue
        n, y, x, b = a.args
        v = T.fresh("k", "0+")
        k = pa(v)
        at = lambda p, i: T.subst(p, {b: i})
        body = (at(y, k + ONE) + at(y, k)) * (at(x, k + ONE) - at(x, k)) * const(Fr(1, 2))
        m[a] = T.sum_close(n - ONE, body, v)
    return m


def top_atoms(d):
    """Atoms reachable without crossing a binder, innermost not required."""
    out = {}
    seen = set()

    def walk(x):
        if isinstance(x, P):
            if x in seen:
                return
            seen.add(x)
            for m in x.d:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, A):
            if x in out:
                return
            out[x] = 1
            if x.op in T.BINDERS:
                for y in x.args[:-1 - T.BINDERS[x.op]]:
                    walk(y)
            else:
                for y in x.args:
                    walk(y)
        elif isinstance(x, B):
            if x.op != "all":
                for y in x.args:
                    walk(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                walk(y)
    walk(d)
    return list(out)


def subst_top(d, m):
    return T.subst(d, m)


def _conds(x, out, seen):
    if x in seen:
        return
    seen.add(x)
    if isinstance(x, P):
        for m in x.d:
            for a, _ in m:
                _conds(a, out, seen)
    elif isinstance(x, A):
        if x.op == "ind":
            if not free_bv(x):
                out[x.args[0]] = 1
            _conds(x.args[0], out, seen)
            return
        if x.op in T.BINDERS:
            for y in x.args[:-1 - T.BINDERS[x.op]]:
                _conds(y, out, seen)
            # conditions inside the body that do not involve the bound variable are still splittable
            for y in T.atoms_of(x):
                if isinstance(y, A) and y.op == "ind" and not free_bv(y):
                    out[y.args[0]] = 1
            return
        for y in x.args:
            _conds(y, out, seen)
    elif isinstance(x, B):
        if x.op in ("le", "eq", "not", "and", "or", "app"):
            for y in x.args:
                _conds(y, out, seen)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _conds(y, out, seen)


def setcond(x, c, val):
    """Replace condition c by its truth value everywhere in x."""
    if c.op == "not":
        return setcond(x, c.args[0], not val)
    m = {T.mk("ind", c): ONE if val else ZERO, c: TRUE if val else FALSE}
    if c.op == "eq" and val:
        r = eq_rewrites([c])
        x = T.subst(x, m)
        return T.subst(x, r) if r else x
    return T.subst(x, m)


def eq_rewrites(pc):
    m = {}
    for x in pc:
        for h in (x.args[0] if x.op == "and" else [x]):
            if h.op != "eq":
                continue
            p = T.subst(h.args[0], m) if m else h.args[0]
            best = None
            for mono, c in p.d.items():
                if len(mono) == 1 and mono[0][1] == 1:
                    a = mono[0][0]
                    if a.op in ("sym", "fv", "elem", "nth", "first", "floor", "app", "sum", "ind") and a not in m:
                        rest = T._mk({k: v for k, v in p.d.items() if k != mono})
                        if T.depends(rest, a):
                            continue
                        if T.aint(a) and not T.isint(rest * const(-1 / c)):
                            continue
                        if best is None or a.id > best[0].id:
                            best = (a, rest * const(-1 / c))
            if best:
                a, t = best
                m = {k: T.subst(v, {a: t}) for k, v in m.items()}
                m[a] = t
    return m

"""Symbolic executor for the Python subset pyBSM is written in.

It walks the AST of the file in /repo as it stands; loops over symbolic
ranges are summarised (accumulator / map / counter / first-match recurrences
are solved in closed form), calls to functions under contract are replaced by
their contract, everything else is executed."""
from __future__ import annotations

import ast
import os
from fractions import Fraction as Fr

from . import term as T
from .term import FALSE, ONE, TRUE, ZERO, A, B, P, band, bnot, bor, const, ind, ite, pa
from .val import *  # noqa: F403
from .val import (Arr, BV, Num, Obj, Slice, SymRaise, SymSeq, SymStr, Unsupported, b_ite, isnum, jk, mkstr, n_add,
                  n_cmp, n_div, n_fdiv, n_ite, n_mod, n_mul, n_neg, n_pow, num)

UNROLL = 12


# --------------------------------------------------------------------------
class Func:
    def __init__(self, node, module, env, qual, defaults, kwdefaults):
        self.node, self.module, self.env, self.qual = node, module, env, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = getattr(node, "name", "<lambda>")
        self.kind = None  # property / staticmethod / ...


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Ext:
    """Dotted name of an external library object."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class OpaqueFn:
    """Arbitrary pure callable parameter."""

    def __init__(self, name, shape_of, sign=None):
        self.name, self.shape_of, self.sign = name, shape_of, sign

    def apply(self, it, args, kwargs):
        from . import npmodel
        if kwargs:
            raise Unsupported("keyword call of a function parameter")
        if self.shape_of is None:
            return npmodel.ew(it, lambda *xs: npmodel._opq(self.name, [num(x) for x in xs], self.sign), list(args), "f")
        ks = tuple(npmodel.key(it, a) for a in args)
        return npmodel.opaque_arr(self.name, ks, list(self.shape_of(args)), "f", self.sign)


class ClassVal:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = f"{module.name}.{node.name}"
        self.members = {}


class ExcVal:
    def __init__(self, etype, args=()):
        self.etype, self.args = etype, args


class AppendRec:
    """Stand-in for a list appended to inside a summarised loop."""

    def __init__(self):
        self.items = []


class Undefined:
    """A name left undefined / unmodelled; using it is unsupported."""

    def __init__(self, why):
        self.why = why


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    def __init__(self, module, parent=None):
        self.vars, self.module, self.parent = {}, module, parent
        self.globals_decl = set()
        self.nonlocals = set()
        self.rebind = frozenset()     # accumulators of the loop being summarised

    def chain(self):
        """Variables of the enclosing functions."""
        e, out = self.parent, []
        while e is not None:
            out.append((e, dict(e.vars)))
            e = e.parent
        return out

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return self.module.get(name)

    def set(self, name, v):
        if name in self.globals_decl:
            raise Unsupported(f"assignment to global {name}")
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


# --------------------------------------------------------------------------
class World:
    """Parsed modules of the code under verification and of the specifications."""

    def __init__(self, roots):
        self.roots = roots            # package name -> directory
        self.mods = {}
        self.asts = {}

    def path_of(self, name):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        p = os.path.join(self.roots[top], *name.split(".")[1:])
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        return None

    def parse(self, name):
        if name not in self.asts:
            p = self.path_of(name)
            if p is None:
                return None
            src = open(p, encoding="utf-8").read()
            self.asts[name] = (ast.parse(src), p, src)
        return self.asts[name]


class Module:
    """Lazily evaluated module namespace (one per execution)."""

    def __init__(self, it, name):
        self.it, self.name = it, name
        tree, self.path, self.src = it.world.parse(name)
        self.ispkg = self.path.endswith("__init__.py")
        self.binds = {}
        self.stars = []
        self.vals = {}
        self.busy = set()
        self.env = Env(self)
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.binds[al.asname] = ("mod", al.name)
                    else:
                        self.binds[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._base(st)
                for al in st.names:
                    if al.name == "*":
                        self.stars.append(base)
                    else:
                        self.binds[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.binds[st.name] = ("def", st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.binds[n.id] = ("expr", st, t)
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None and isinstance(st.target, ast.Name):
                    self.binds[st.target.id] = ("expr", st, st.target)
            elif isinstance(st, ast.AugAssign):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self.binds[n.id] = ("bad", f"module-level augmented assignment to {n.id}")
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, (ast.For, ast.While, ast.If, ast.With)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.binds[n.id] = ("bad", f"{n.id} bound by a module-level compound statement")
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self.binds[n.name] = ("bad", f"{n.name} bound by a module-level compound statement")

    def _base(self, st):
        if not st.level:
            return st.module
        parts = self.name.split(".")
        if not self.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def has(self, name):
        if name in self.binds:
            return True
        return any(self.it.world.path_of(s) and self.it.module(s).has(name) for s in self.stars)

    def get(self, name):
        if name in self.vals:
            return self.vals[name]
        if name in ("__file__",):
            return "<SRC>/" + os.path.relpath(self.path, os.path.dirname(self.it.world.roots[self.name.split(".")[0]]))
        if name == "__name__":
            return self.name
        b = self.binds.get(name)
        if b is None:
            for s in reversed(self.stars):
                if self.it.world.path_of(s):
                    m = self.it.module(s)
                    if m.has(name) and not name.startswith("_"):
                        return m.get(name)
            if self.ispkg and self.it.world.path_of(self.name + "." + name):
                return self.it.module(self.name + "." + name)
            return self.it.builtin(name)
        if name in self.busy:
            raise Unsupported(f"cyclic module-level definition of {name}")
        self.busy.add(name)
        try:
            v = self._eval(name, b)
        finally:
            self.busy.discard(name)
        self.vals[name] = v
        return v

    def _eval(self, name, b):
        it = self.it
        if b[0] == "mod":
            return it.import_mod(b[1])
        if b[0] == "from":
            if it.world.path_of(b[1]):
                sub = it.world.path_of(b[1] + "." + b[2])
                m = it.module(b[1])
                if m.has(b[2]):
                    return m.get(b[2])
                if sub:
                    return it.module(b[1] + "." + b[2])
                raise Unsupported(f"cannot import {b[2]} from {b[1]}")
            return Ext(canon(b[1] + "." + b[2]))
        if b[0] == "def":
            return it.make_def(b[1], self, self.env, f"{self.name}.{b[1].name}")
        if b[0] == "bad":
            raise Unsupported(b[1])
        st, tgt = b[1], b[2]
        if name == "dir_path" or _mentions_stack(st.value):
            return os.path.dirname(self.get("__file__"))
        v = it.eval(st.value, self.env)
        if isinstance(tgt, ast.Name):
            return v
        tmp = Env(self)
        it.assign(tgt, v, tmp)
        return tmp.vars[name]


def _mentions_stack(n):
    s = ast.dump(n)
    return "attr='stack'" in s and "attr='dirname'" in s


_CANON = {"numpy": "np", "scipy.interpolate": "interpolate", "matplotlib.pyplot": "plt"}


def canon(name):
    for k, v in (("numpy", "np"), ("matplotlib.pyplot", "plt")):
        if name == k or name.startswith(k + "."):
            return v + name[len(k):]
    return name


# --------------------------------------------------------------------------
class Ctx:
    """One path of one symbolic execution."""

    def __init__(self, solver, decisions=(), pc=()):
        self.solver = solver
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = list(pc)
        self.obl = []
        self.nofork = 0
        self.born = []      # (object, depth): lists, dicts and objects made inside summarised loops
        self.calls = set()
        self.wlog = []
        self.mut = set()
        self.logged = []
        self.rand = []
        self.steps = 0
        self.domain = False

    def note_born(self, o):
        if self.nofork:
            self.born.append((o, self.nofork))
        return o

    def mine(self, o):
        """May o be written here: no loop being summarised lies between its creation and now."""
        return not self.nofork or any(x is o and d == self.nofork for x, d in self.born)

    def known(self, b):
        """True / False / None from syntactic knowledge."""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self._pcset():
            return True
        if bnot(b) in self._pcset():
            return False
        if b.op == "and":
            ks = [self.known(x) for x in b.args[0]]
            if all(k is True for k in ks):
                return True
            if any(k is False for k in ks):
                return False
        if b.op == "or":
            ks = [self.known(x) for x in b.args[0]]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        return None

    def _pcset(self):
        s = set()
        for x in self.pc:
            if x.op == "and":
                s |= x.args[0]
            s.add(x)
        return s

    def entails(self, b):
        k = self.known(b)
        if k is not None:
            return k
        return self.solver.entails(self.pc, b)

    def branch(self, b, why=""):
        k = self.known(b)
        if k is not None:
            return k
        if self.nofork and b.fv:
            if self.solver.entails(self.pc, b):
                return True
            if self.solver.entails(self.pc, bnot(b)):
                return False
            raise Unsupported(f"data-dependent branch inside a summarised loop ({why})")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(b if d else bnot(b))
            return d
        if self.solver.entails(self.pc, b):
            d = True
            forced = True
        elif self.solver.entails(self.pc, bnot(b)):
            d = False
            forced = True
        else:
            d, forced = True, False
        self.decisions.append(d)
        self.pos += 1
        if not forced:
            self.solver.pending.append(self.decisions[:-1] + [False])
        self.pc.append(b if d else bnot(b))
        return d

    def oblige(self, kind, what, formula, closed=None):
        """closed: the formula with its fresh element variables quantified."""
        closed = formula if closed is None else closed
        if formula is TRUE:
            return
        if self.domain:
            # the contract's own evaluation: its domain of definition is the precondition
            if not self.nofork and not self.known_true(closed):
                self.pc.append(closed)
            return
        if self.known_true(closed):
            formula = TRUE
        self.obl.append((kind, what, tuple(self.pc), formula))

    def known_true(self, b):
        parts = b.args[0] if b.op == "and" else (b,)
        s = self._pcset()
        return b in s or all(x in s for x in parts)


# --------------------------------------------------------------------------
def vsub(v, m):
    """Substitute fv atoms inside a value."""
    if isinstance(v, Num):
        return Num(T.subst(v.t, m), v.kind, T.subst(v.und, m), T.subst(v.pois, m),
                   None if v.im is None else T.subst(v.im, m))
    if isinstance(v, BV):
        return BV(T.subst(v.b, m), T.subst(v.pois, m))
    if isinstance(v, Arr):
        f = v.snap()
        keys = list(m)

        def g(*i):
            # rename keys occurring in the index terms out of the way
            return vsub(f(*i), m)
        r = Arr([T.subst(s, m) for s in v.shape], g, v.kind)
        r.dtype = v.dtype
        return r
    if isinstance(v, tuple):
        return tuple(vsub(x, m) for x in v)
    if isinstance(v, list):
        return [vsub(x, m) for x in v]
    if isinstance(v, SymStr):
        return mkstr([p if isinstance(p, str) else T.subst(p, m) for p in v.parts])
    if isinstance(v, SymSeq):
        return SymSeq(T.subst(v.n, m), lambda k: vsub(v.fn(k), m))
    return v


def vmerge(c, a, b):
    """ite on values."""
    if a is b:
        return a
    if isinstance(a, (int, float, Fr)) and not isinstance(a, bool):
        a = num(a)
    if isinstance(b, (int, float, Fr)) and not isinstance(b, bool):
        b = num(b)
    if isinstance(a, bool):
        a = BV(TRUE if a else FALSE)
    if isinstance(b, bool):
        b = BV(TRUE if b else FALSE)
    if isinstance(a, Num) and isinstance(b, Num):
        return n_ite(c, a, b)
    if isinstance(a, BV) and isinstance(b, BV):
        return b_ite(c, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Num):
            x = a
            a = Arr(b.shape, lambda *i: x, x.kind)
        if isinstance(b, Num):
            y = b
            b = Arr(a.shape, lambda *i: y, y.kind)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(
                p is q for p, q in zip(a.shape, b.shape)):
            f, g = a.snap(), b.snap()
            if a.kind == "b":
                return Arr(a.shape, lambda *i: b_ite(c, f(*i), g(*i)), "b")
            return Arr(a.shape, lambda *i: n_ite(c, f(*i), g(*i)), jk(a.kind, b.kind))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    return Undefined("value differs between the branches of a merged conditional")


_PH = [0]


class Interp:
    def __init__(self, world, ctx, contracts=None, target=None, specmap=None):
        self.world, self.ctx = world, ctx
        self.mods = {}
        self.contracts = contracts or {}
        self.target = target
        self.specmap = specmap or {}
        self.depth = 0
        self.bcache = {}
        self.mode = "code"
        self.transparent = False
        from .contract import pred_map
        self.predmap = pred_map()

    # ---- modules ---------------------------------------------------------
    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(self, name)
        return self.mods[name]

    def import_mod(self, name):
        if self.world.path_of(name):
            return self.module(name)
        return Ext(canon(name))

    def builtin(self, name):
        from . import npmodel
        f = npmodel.BUILTINS.get(name)
        if f is not None:
            return f if not callable(f) else Builtin(name, f)
        if name in npmodel.EXC:
            return Ext("exc." + name)
        raise SymRaise("NameError", (name,)) if name not in dir(__builtins__) else Unsupported(f"builtin {name}")

    def make_def(self, st, module, env, qual):
        if isinstance(st, ast.ClassDef):
            c = ClassVal(st, module)
            if st.decorator_list or any(not (isinstance(b, ast.Name) and b.id == "object") for b in st.bases):
                raise Unsupported(f"class {st.name}: bases or decorators")
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    f = Func(s, module, None, f"{c.qual}.{s.name}", None, None)
                    f.env = env
                    f.defaults, f.kwdefaults = self._defaults(s.args, env)
                    kinds = [ast.unparse(d) for d in s.decorator_list]
                    f.kind = kinds[0] if kinds else None
                    if len(kinds) > 1:
                        raise Unsupported("stacked decorators")
                    if f.kind and f.kind.endswith(".setter"):
                        c.members[s.name + "#set"] = f
                    elif f.kind and f.kind.endswith(".deleter"):
                        c.members[s.name + "#del"] = f
                    else:
                        c.members[s.name] = f
                elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    c.members[s.targets[0].id] = ("const", s.value)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    c.members[s.target.id] = ("const", s.value)
            return c
        if st.decorator_list:
            names = [ast.unparse(d) for d in st.decorator_list]
            if any(n.split(".")[-1] not in ("opaque", "ghost", "transparent") for n in names):
                raise Unsupported(f"decorated function {st.name}")
        d, kd = self._defaults(st.args, env)
        return Func(st, module, env, qual, d, kd)

    def _defaults(self, args, env):
        d = [self.eval(x, env) for x in args.defaults]
        kd = {a.arg: self.eval(x, env) for a, x in zip(args.kwonlyargs, args.kw_defaults) if x is not None}
        return d, kd

    # ---- calls -----------------------------------------------------------
    def bind(self, f, args, kwargs, self_=None):
        a = f.node.args
        if self_ is not None:
            args = [self_] + list(args)
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise SymRaise("TypeError", (f"too many arguments for {f.name}",))
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in out:
                raise SymRaise("TypeError", (f"multiple values for {k}",))
            if k in names or k in kwn:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise SymRaise("TypeError", (f"unexpected keyword {k} for {f.name}",))
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    raise SymRaise("TypeError", (f"missing argument {n} of {f.name}",))
                out[n] = f.defaults[j]
        for n in kwn:
            if n not in out:
                if n not in f.kwdefaults:
                    raise SymRaise("TypeError", (f"missing argument {n}",))
                out[n] = f.kwdefaults[n]
        return out

    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, args, kwargs, f.self_)
            return f.func(self, f.self_, *args, **kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, ClassVal):
            o = self.ctx.note_born(Obj(f))
            init = f.members.get("__init__")
            if init is not None:
                self.call_func(init, args, kwargs, o)
            elif args or kwargs:
                raise SymRaise("TypeError", ())
            return o
        if isinstance(f, Ext):
            from . import npmodel
            return npmodel.call_ext(self, f.name, args, kwargs)
        if isinstance(f, OpaqueFn):
            return f.apply(self, args, kwargs)
        if callable(f) and getattr(f, "_pv", False):
            return f(self, *args, **kwargs)
        if isinstance(f, Obj):
            m = f.cls.members.get("__call__") if isinstance(f.cls, ClassVal) else None
            if m is not None:
                return self.call_func(m, args, kwargs, f)
        raise Unsupported(f"call of {type(f).__name__}")

    def call_func(self, f, args, kwargs, self_=None):
        if self.mode == "spec" and f.module.name.split(".")[0] == "pybsm":
            # a closure of the code handed to a contract: its own calls are the code's calls
            self.mode = "code"
            try:
                return self.call_func(f, args, kwargs, self_)
            finally:
                self.mode = "spec"
        ctr = self.contracts.get(f.qual)
        if ctr is not None and not (f.qual == self.target and self.depth == 0) and self.mode == "code":
            self.ctx.calls.add(f.qual)
            b = self.bind(f, args, kwargs, self_)
            return ctr.apply(self, b, f)
        if self.mode == "spec" and f.qual in self.specmap and not (f.qual == self.target):
            b = self.bind(f, args, kwargs, self_)
            return self.specmap[f.qual].apply_spec(self, b, f)
        b = self.bind(f, args, kwargs, self_)
        if self.mode == "spec" and not self.transparent and f.module.name.startswith("pv."):
            c = self.predmap.get(f.qual)
            if c is not None and c.qual != self.target:
                return c.predicate(self, b)
        return self.run(f, b)

    def run(self, f, bound):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        env = Env(f.module, f.env)
        env.vars.update(bound)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator")
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ---- statements ------------------------------------------------------
    def block(self, body, env):
        for i, st in enumerate(body):
            self.ctx.steps += 1
            if self.ctx.steps > 200000:
                raise Unsupported("too many steps")
            m = getattr(self, "s_" + type(st).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(st).__name__}")
            m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = env.lookup(t.id)
            new = self.binop(type(st.op).__name__, old, self.eval(st.value, env))
            if isinstance(old, Arr) and t.id not in env.rebind:
                self.write_all(old, new)
            else:
                env.set(t.id, new)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            new = self.binop(type(st.op).__name__, old, self.eval(st.value, env))
            if isinstance(old, Arr):
                self.write_all(old, new)
                self.setattr(o, t.attr, old)
            else:
                self.setattr(o, t.attr, new)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            new = self.binop(type(st.op).__name__, old, self.eval(st.value, env))
            self.setitem(o, k, new)
            return
        raise Unsupported("augmented assignment target")

    def write_all(self, arr, new):
        if not isinstance(new, Arr):
            v = num(new)
            new = Arr(arr.shape, lambda *i: v, v.kind)
        if len(new.shape) != len(arr.shape):
            from . import npmodel
            new = npmodel.broadcast_to(self, new, arr.shape)
        if arr.kind == "i" and new.kind != "i":
            raise Unsupported("in-place float update of an integer array")
        f = new.snap()
        sl = [Slice(None, None, None)] * len(arr.shape)
        self.setitem(arr, tuple(sl), Arr(arr.shape, f, new.kind))

    def s_Return(self, st, env):
        raise _Return(None if st.value is None else self.eval(st.value, env))

    def s_FunctionDef(self, st, env):
        env.set(st.name, self.make_def(st, env.module, env, f"<local>.{st.name}"))

    def s_Import(self, st, env):
        for al in st.names:
            env.set(al.asname or al.name.split(".")[0],
                    self.import_mod(al.name if al.asname else al.name.split(".")[0]))

    def s_ImportFrom(self, st, env):
        base = env.module._base(st)
        for al in st.names:
            if self.world.path_of(base):
                m = self.module(base)
                v = m.get(al.name) if m.has(al.name) else self.module(base + "." + al.name)
            else:
                v = Ext(canon(base + "." + al.name))
            env.set(al.asname or al.name, v)

    def s_Global(self, st, env):
        env.globals_decl |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not self.ctx.branch(c, "assert"):
            raise SymRaise("AssertionError", ())

    def s_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported("re-raise")
        e = self.eval(st.exc, env)
        if isinstance(e, Ext) and e.name.startswith("exc."):
            raise SymRaise(e.name[4:], ())
        if isinstance(e, ExcVal):
            raise SymRaise(e.etype, e.args)
        raise Unsupported("raise of a non-exception")

    def s_Try(self, st, env):
        from .npmodel import exc_match
        if st.finalbody and self.ctx.nofork:
            raise Unsupported("try/finally in a summarised loop")
        try:
            try:
                self.block(st.body, env)
            except SymRaise as e:
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        t = self.eval(h.type, env)
                        for x in (t if isinstance(t, tuple) else (t,)):
                            names.append(x.name.split(".")[-1] if isinstance(x, Ext) else "?")
                    if any(exc_match(e.etype, n) for n in names):
                        if h.name:
                            env.set(h.name, ExcVal(e.etype, e.eargs))
                        self.block(h.body, env)
                        return
                raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def s_With(self, st, env):
        for item in st.items:
            v = self.eval(item.context_expr, env)
            if not (isinstance(v, Obj) and v.cls == "nullctx"):
                raise Unsupported("with statement")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.block(st.body, env)

    def s_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        k = self.ctx.known(c)
        if k is None and self.ctx.nofork and c.fv:
            if self.ctx.solver.entails(self.ctx.pc, c):
                k = True
            elif self.ctx.solver.entails(self.ctx.pc, bnot(c)):
                k = False
            else:
                self.merge_if(c, st, env)
                return
        if k is None:
            k = self.ctx.branch(c, ast.unparse(st.test))
        self.block(st.body if k else st.orelse, env)

    def merge_if(self, c, st, env):
        pc = self.ctx.pc
        snap = dict(env.vars)
        outs = []
        for cond, body in ((c, st.body), (bnot(c), st.orelse)):
            env.vars = dict(snap)
            mark = len(self.ctx.wlog)
            pc.append(cond)
            npc = len(pc)
            try:
                self.block(body, env)
            except (_Return, _Break, _Continue, SymRaise) as e:
                raise Unsupported(f"{type(e).__name__} in a merged conditional")
            finally:
                del pc[npc - 1:]
            writes = self.ctx.wlog[mark:]
            post = {}
            for w in writes:
                post[w[0]] = w[0]._fn
            # roll back
            for w in reversed(writes):
                w[0].setfn(w[1])
            del self.ctx.wlog[mark:]
            outs.append((env.vars, writes, post))
        (v1, w1, p1), (v2, w2, p2) = outs
        for w, cond in [(w, c) for w in w1] + [(w, bnot(c)) for w in w2]:
            pass
        for a in set(p1) | set(p2):
            old = a._fn
            f1, f2 = p1.get(a, old), p2.get(a, old)
            mg = b_ite if a.kind == "b" else n_ite
            a.setfn(lambda *i, f1=f1, f2=f2, mg=mg: mg(c, f1(*i), f2(*i)))
            ws = [x for x in w1 if x[0] is a] + [x for x in w2 if x[0] is a]
            if len(ws) == 1:
                w = ws[0]
                cc = c if w in w1 else bnot(c)
                self.ctx.wlog.append((a, old, w[2], w[3], band(cc, w[4])))
            else:
                self.ctx.wlog.append((a, old, None, None, TRUE))
        new = {}
        for n in set(v1) | set(v2):
            x = v1.get(n, Undefined(f"{n} unbound on a branch"))
            y = v2.get(n, Undefined(f"{n} unbound on a branch"))
            new[n] = vmerge(c, x, y)
        env.vars = new

    def truth(self, v):
        if isinstance(v, BV):
            self.ctx.oblige("defined", "branch condition is defined", bnot(v.pois))
            return v.b
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isnum(v):
            n = num(v)
            if n.im is not None:
                raise Unsupported("truth of complex")
            self.ctx.oblige("defined", "branch condition is defined", bnot(n.pois))
            return bor(n.und, bnot(T.beq0(n.t)))
        if isinstance(v, (str, tuple, list, dict)):
            return TRUE if v else FALSE
        if isinstance(v, SymStr):
            return TRUE
        if isinstance(v, Arr):
            if all(T.cval(s) == 1 for s in v.shape):
                return self.truth(v.at(*[ZERO] * len(v.shape)))
            raise Unsupported("truth value of an array")
        if isinstance(v, (Func, Obj, ClassVal, Ext, Builtin)):
            return TRUE
        raise Unsupported(f"truth of {type(v).__name__}")

    # ---- loops -----------------------------------------------------------
    def s_For(self, st, env):
        seq = self.eval(st.iter, env)
        n, item = self.iterate(seq)
        c = T.cval(n)
        body = _lower_continue(st.body)
        if c is not None and (c <= UNROLL or (c <= 64 and not self.ctx.nofork and _has_break(body))):
            broke = False
            for i in range(max(0, int(c))):
                self.assign(st.target, item(const(i)), env)
                try:
                    self.block(st.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(st.orelse, env)
            return
        if st.orelse:
            raise Unsupported("for-else over a symbolic range")
        if not _has_break(body) and any(nm in env.vars and env.vars[nm] is None for nm in _assigned(body)) \
                and not self.ctx.nofork:
            # a variable that is set on the first pass only: that pass apart, then the rest
            if not self.ctx.branch(T.blt0(-n), "loop entry"):
                return
            self.assign(st.target, item(ZERO), env)
            self.block(body, env)
            n, item = n - ONE, (lambda k, item=item: item(k + ONE))
        self.sym_loop(n, item, st.target, body, env)

    def s_While(self, st, env):
        # while <test>: body   with a solvable counter
        body = _lower_continue(st.body)
        names = sorted(_assigned(body))
        # try concrete unrolling first
        for _ in range(64):
            c = self.truth(self.eval(st.test, env))
            k = self.ctx.known(c)
            if k is None:
                if self.ctx.solver.entails(self.ctx.pc, c):
                    k = True
                elif self.ctx.solver.entails(self.ctx.pc, bnot(c)):
                    k = False
            if k is None:
                break
            if not k:
                self.block(st.orelse, env)
                return
            if _has_break(body):
                break
            try:
                self.block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        if st.orelse:
            raise Unsupported("while-else")
        self.sym_while(st.test, body, env)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def iterate(self, seq):
        """(length P, item(P)->value)."""
        if isinstance(seq, Arr):
            if not seq.shape:
                raise SymRaise("TypeError", ("iteration over a 0-d array",))
            return seq.shape[0], lambda k: self.getitem(seq, Num(k, "i"), check=False)
        if isinstance(seq, (list, tuple)):
            xs = list(seq)
            if all(isnum(x) for x in xs):
                def it(k):
                    c = T.cval(k)
                    if c is not None:
                        return xs[int(c)]
                    r = num(xs[-1])
                    for i in range(len(xs) - 2, -1, -1):
                        r = n_ite(T.beq0(k - const(i)), num(xs[i]), r)
                    return r
                return const(len(xs)), it

            def it2(k):
                c = T.cval(k)
                if c is None and xs and all(isinstance(x, (BV, bool)) for x in xs):
                    bs = [x if isinstance(x, BV) else BV(TRUE if x else FALSE) for x in xs]
                    r = bs[-1]
                    for i in range(len(bs) - 2, -1, -1):
                        r = b_ite(T.beq0(k - const(i)), bs[i], r)
                    return r
                if c is None:
                    raise Unsupported("symbolic index into a heterogeneous sequence")
                return xs[int(c)]
            return const(len(xs)), it2
        if isinstance(seq, SymSeq):
            return seq.n, seq.fn
        if isinstance(seq, dict):
            return self.iterate(list(seq))
        if isinstance(seq, str):
            return self.iterate(list(seq))
        raise Unsupported(f"iteration over {type(seq).__name__}")

    def placeholder(self, like, tag):
        _PH[0] += 1
        v = T.fresh(f"ph{_PH[0]}_{tag}", None, integer=False)
        if isinstance(like, Num):
            if like.kind == "i":
                T.intsym(v)
            if like.im is not None:
                w = T.fresh(f"phi{_PH[0]}_{tag}", None, integer=False)
                return Num(pa(v), "c", im=pa(w)), (v, w)
            return Num(pa(v), like.kind), (v,)
        if isinstance(like, Arr):
            if like.kind == "b":
                raise Unsupported("boolean array carried by a loop")
            if like.kind == "c":
                w = T.fresh(f"phi{_PH[0]}_{tag}", None, integer=False)
                a = Arr(like.shape, lambda *i: Num(pa(T.mk("app", "ph", v, *i)), "c", im=pa(T.mk("app", "ph", w, *i))), "c")
                return a, (v, w)
            a = Arr(like.shape, lambda *i: Num(pa(T.mk("app", "ph", v, *i)), like.kind), like.kind)
            a.dtype = like.dtype
            return a, (v,)
        raise Unsupported("loop-carried value")

    def sym_loop(self, n, item, target, body, env, kmap=None):
        ctx = self.ctx
        body, brk = _split_break(body)
        names = _assigned(body) | ({x for x in _assigned(brk[2])} | _assigned(brk[1]) if brk else set())
        tn = _target_names(target) if target is not None else set()
        names -= set()
        K = T.fresh("k", "0+")
        kt = pa(K)
        pre = {}
        for nm in names - tn:
            try:
                v = env.vars[nm]
            except KeyError:
                continue
            pre[nm] = v
        snapvars = dict(env.vars)
        outer = env.chain()
        # accumulators updated by augmented assignments only: summarised as values, and written back at the end
        aug = _accumulators(body + (brk[1] + brk[2] if brk else []))
        inplace = {nm for nm in aug if isinstance(pre.get(nm), Arr)}
        for nm in inplace:
            if brk is not None or pre[nm].base is not None or any(x is pre[nm] for q, x in snapvars.items() if q != nm):
                raise Unsupported("in-place accumulation into an array with other names in a summarised loop")
        solved = {}          # name -> (fn(k)->value, final value)
        if brk is None:
            for nm, c in _counters(body).items():
                v0 = num(pre[nm]) if nm in pre and isnum(pre[nm]) else None
                if v0 is not None and v0.im is None and v0.und is FALSE and v0.pois is FALSE and T.isint(v0.t):
                    solved[nm] = ((lambda k, v0=v0, c=c: Num(v0.t + k * const(c), v0.kind)), "lin")
        shapes = {}
        arrs_closed = {}
        serial0 = T._cnt[0]
        appends = {nm for st in body + (brk[1] + brk[2] if brk else []) for x in ast.walk(st)
                   if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append"
                   and isinstance(x.func.value, ast.Name) for nm in [x.func.value.id]
                   if isinstance(env.vars.get(nm), list)}
        nobl0 = len(ctx.obl)
        for rnd in range(8):
            del ctx.obl[nobl0:]
            env.vars = dict(snapvars)
            mark = len(ctx.wlog)
            phs = {}
            held = []
            for nm, v in pre.items():
                if nm in solved:
                    env.vars[nm] = solved[nm][0](kt)
                    if solved[nm][1] != "inv":
                        held.append(env.vars[nm])
                    continue
                like = shapes.get(nm)
                if like is None:
                    like = num(v) if isnum(v) else v
                if isinstance(like, (Num, Arr)):
                    env.vars[nm], phs[nm] = self.placeholder(like, nm)
                    held.append(env.vars[nm])
                else:
                    phs[nm] = None
            recs = {}
            for nm in appends:
                recs[nm] = env.vars[nm] = AppendRec()
            # contents of arrays written in the loop
            aph = {}
            for a, (mode, _) in arrs_closed.items():
                if mode == "ph":
                    p, vs = self.placeholder(a, "arr")
                    aph[a] = (a._fn, vs)
                    a._fn = p._fn
                    a.memo = {}
            npc = len(ctx.pc)
            ctx.pc.append(T.blt0(kt - n))
            ctx.nofork += 1
            brkc = None
            nobl = len(ctx.obl)
            rebind0, env.rebind = env.rebind, env.rebind | aug
            try:
                if target is not None:
                    self.assign(target, item(kt), env)
                if brk is None:
                    self.block(body, env)
                else:
                    self.block(body, env)
                    brkc = self.truth(self.eval(brk[0], env))
                    envb = dict(env.vars)
                    if brk[2]:
                        self.block(brk[2], env)
                    enva = env.vars
                    env.vars = envb
                    ret = None
                    mk2 = len(ctx.wlog)
                    try:
                        self.block(brk[1], env)
                    except _Break:
                        pass
                    except _Return as r:
                        ret = (r.v,)
                    if len(ctx.wlog) != mk2:
                        raise Unsupported("array write next to a break")
                    envb = env.vars
                    env.vars = enva
            except _Break:
                raise Unsupported("break in an unsupported position")
            except _Return:
                raise Unsupported("return in an unsupported position")
            finally:
                ctx.nofork -= 1
                del ctx.pc[npc:]
                env.rebind = rebind0
            # close obligations raised inside the body over k
            for i in range(nobl, len(ctx.obl)):
                kd, wh, pcx, fo = ctx.obl[i]
                ctx.obl[i] = (kd, wh, pcx, fo)
            writes = ctx.wlog[mark:]
            for w in reversed(writes):
                w[0].setfn(w[1])
            del ctx.wlog[mark:]
            for a, (f, _) in aph.items():
                a._fn = f
                a.memo = {}
            newvars = env.vars
            env.vars = dict(snapvars)
            for e, vs in outer:
                if any(e.vars.get(q) is not x for q, x in vs.items()):
                    e.vars.clear()
                    e.vars.update(vs)
                    raise Unsupported("variable of an enclosing function changed in a summarised loop")
            if any(newvars.get(q) is not x for q, x in snapvars.items() if q not in names and q not in tn and q not in appends):
                raise Unsupported("variable changed by a call in a summarised loop")
            # arrays written
            wa = {}
            for w in writes:
                if any(w[0] is h for h in held):
                    raise Unsupported("in-place update of a loop-carried array")
                if w[0].serial > serial0:
                    continue
                wa.setdefault(w[0], []).append(w)
            unseen = [a for a in wa if a not in arrs_closed]
            allph = set()
            for p in phs.values():
                if p:
                    allph |= set(p)
            for _, vs in aph.values():
                allph |= set(vs)
            again = False
            for a in unseen:
                arrs_closed[a] = ("ph", None)
                again = True
            for nm in list(pre):
                if nm in solved:
                    continue
                new = newvars.get(nm)
                if new is pre[nm] and phs.get(nm) is None:
                    solved[nm] = ((lambda k, v=new: v), "inv")
                    continue
                if phs.get(nm) is None:
                    raise Unsupported(f"loop-carried non-numeric variable {nm}")
                if isinstance(new, Undefined):
                    raise Unsupported(new.why)
                if isnum(new):
                    new = num(new)
                ph = phs[nm]
                old = shapes.get(nm)
                if old is None:
                    old = num(pre[nm]) if isnum(pre[nm]) else pre[nm]
                if isinstance(old, Num) and isinstance(new, Num) and new.im is not None and old.im is None:
                    shapes[nm] = Num(ZERO, "c", im=ZERO)
                    again = True
                    continue
                if isinstance(new, Arr) and (isinstance(old, Num) or (isinstance(old, Arr) and (
                        old.kind != new.kind or len(old.shape) != len(new.shape)
                        or any(p is not q for p, q in zip(old.shape, new.shape))))):
                    if nm in shapes and isinstance(shapes[nm], Arr) and len(shapes[nm].shape) == len(new.shape) and all(
                            p is q for p, q in zip(shapes[nm].shape, new.shape)) and shapes[nm].kind == new.kind:
                        raise Unsupported(f"unstable shape of {nm}")
                    shapes[nm] = Arr(new.shape, new._fn, new.kind)
                    again = True
                    continue
                sol = self.solve(nm, pre[nm], old, new, ph, allph, K, n)
                if sol is not None:
                    solved[nm] = sol
                    if sol[1] != "lastval":
                        again = True
            if not again:
                break
        else:
            raise Unsupported("loop recurrence could not be solved")
        bad = [nm for nm in pre if nm not in solved]
        if bad:
            raise Unsupported(f"loop recurrence of {', '.join(bad)} could not be solved")
        # final state
        if brk is None:
            cnt = n
            last = n - ONE
        else:
            if any(T.depends(brkc, p) for p in allph):
                raise Unsupported("break condition depends on an unsolved recurrence")
            first = pa(T.intsym(T.mk("first", n, T.mklam(brkc, K), info="0+")))
            nobrk = T.all_close(n, bnot(brkc), K)
            cnt = None
        final = dict(snapvars)
        for nm, rec in recs.items():
            if brk is not None or len(rec.items) != 1 or snapvars[nm]:
                raise Unsupported("list append pattern in a summarised loop")
            if _vdep(rec.items[0], allph):
                raise Unsupported("appended value depends on an unsolved recurrence")
            av = num(rec.items[0]) if isnum(rec.items[0]) else rec.items[0]
            newvars[nm] = snapvars[nm]
            final[nm] = SymSeq(n, lambda j, av=av: vsub(av, {K: j}))
        for nm, v in newvars.items():
            if nm in pre or nm in recs:
                continue
            if nm in snapvars and snapvars[nm] is v:
                continue
            final[nm] = ("temp", v)
        if brk is None:
            for nm, v in list(final.items()):
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "temp":
                    final[nm] = self.lastval(v[1], K, n, allph)
            for nm in pre:
                f, kind = solved[nm]
                if kind == "inv":
                    final[nm] = pre[nm]
                elif nm in inplace:
                    r = f(n)
                    if not isinstance(r, Arr) or len(r.shape) != len(pre[nm].shape) or any(
                            p is not q for p, q in zip(r.shape, pre[nm].shape)):
                        raise Unsupported("in-place accumulation changes the shape")
                    self.write_all(pre[nm], r)
                    final[nm] = pre[nm]
                else:
                    final[nm] = f(n)
            for a, ws in wa.items():
                self.close_writes(a, ws, K, n, aph.get(a), allph)
        else:
            if wa:
                raise Unsupported("array write in a loop with break")
            found = bnot(nobrk)
            if ret is not None:
                if self.ctx.branch(found, "loop exit"):
                    raise _Return(vsub(ret[0], {K: first}))
                kl = n - ONE
                src = newvars
            else:
                kl = None
            for nm in set(newvars) | set(envb):
                if nm in pre and solved[nm][1] == "inv":
                    final[nm] = pre[nm]
                    continue
                va, vb = newvars.get(nm), envb.get(nm)
                if nm in snapvars and snapvars[nm] is va and va is vb:
                    continue
                if nm in pre and solved[nm][1] not in ("lastval",):
                    raise Unsupported("recurrence in a loop with break")
                if ret is not None:
                    v = self.lastval(va, K, n, allph, init=pre.get(nm))
                else:
                    same = _vsame(va, vb)
                    if same:
                        stop = T.pmin([first, n - ONE])
                        v = vsub(va, {K: stop})
                        v = _pois(v, T.ble0(n)) if pre.get(nm) is None else vmerge(T.ble0(n), pre[nm], v)
                    else:
                        v1 = vsub(vb, {K: first})
                        v2 = self.lastval(va, K, n, allph, init=pre.get(nm))
                        v = vmerge(found, v1, v2)
                final[nm] = v
        env.vars = final

    def lastval(self, v, K, n, allph, init=None):
        if isnum(v):
            v = num(v)
        if _vdep(v, allph):
            return Undefined("loop temporary depending on an unsolved recurrence")
        c = self.ctx.entails(T.blt0(-n))
        try:
            r = vsub(v, {K: n - ONE})
        except Unsupported:
            return Undefined("loop temporary")
        if isinstance(r, (Func, Obj, Undefined)) or r is None:
            if not isinstance(v, Undefined) and isinstance(v, (Func,)):
                return Undefined("closure created in a loop")
            return r
        if not c:
            if init is not None:
                return vmerge(T.ble0(n), init, r)
            r = _pois(r, T.ble0(n))
        return r

    def solve(self, nm, init, old, new, ph, allph, K, n):
        """Solve the recurrence of one variable; returns (k -> value, kind) or None."""
        if isinstance(new, Num) and isinstance(old, Num):
            r = self.solve1(num(init), new, [pa(v) for v in ph], allph, K)
            if r is None:
                return None
            f, kind = r
            return f, kind
        if isinstance(new, Arr) and isinstance(old, Arr):
            if isinstance(init, Arr):
                from . import npmodel
                fi = npmodel.broadcast_to(self, init, new.shape).snap()
            else:
                iv = num(init)
                fi = lambda *i: iv
            idx = tuple(ZERO if q is ONE else pa(T.fresh("i", "0+")) for q in new.shape)
            ist = [T._single_atom(i) if i is not ZERO else None for i in idx]
            e = new.at(*idx)
            r = self.solve1(fi(*idx), e, [pa(T.mk("app", "ph", v, *idx)) for v in ph], allph, K)
            if r is None:
                return None
            f, kind = r
            if kind == "inv":
                return (lambda k: init), "inv"

            def g(k):
                return Arr(new.shape, lambda *j: vsub(f(k), {q: x for q, x in zip(ist, j) if q is not None}), new.kind)
            return g, kind
        if isinstance(new, BV):
            if not _vdep(new, allph):
                return (lambda k: vmerge(T.ble0(k), init, vsub(new, {K: k - ONE}))), "lastval"
        return None

    def solve1(self, init, new, phs, allph, K):
        pt = phs[0]
        ep = lambda b, k: bnot(T.all_close(k, bnot(b), K)) if b is not FALSE else FALSE
        if any(T.depends(new.und, p) or T.depends(new.pois, p) for p in allph):
            return None
        mku = lambda k: (bor(init.und, ep(new.und, k)), bor(init.pois, ep(new.pois, k)))
        if new.t is pt and (new.im is None or (len(phs) > 1 and new.im is phs[1])):
            return (lambda k: init), "inv"
        d = new.t - pt
        di = None
        if new.im is not None:
            di = new.im - phs[1]
        dep = lambda x: any(T.depends(x, p) for p in allph)
        if not dep(d) and (di is None or not dep(di)):
            kd = jk(init.kind, new.kind)

            def f(k):
                u, p = mku(k)
                im = None
                if di is not None:
                    im = (init.im if init.im is not None else ZERO) + T.sum_close(k, di, K)
                return Num(init.t + T.sum_close(k, d, K), kd, u, p, im)
            return f, "sum"
        if not dep(new.t) and (new.im is None or not dep(new.im)):
            def f2(k):
                r = vsub(new, {K: k - ONE})
                c = self.ctx.entails(T.blt0(-k))
                return r if c else n_ite(T.ble0(k), init, r)
            return f2, "lastval"
        if new.im is None:
            q = new.t / pt
            if not dep(q):
                return (lambda k: Num(init.t * T.prod_close(k, q, K), jk(init.kind, new.kind), *mku(k))), "prod"
            a = T._single_atom(new.t)
            if a is not None and a.op in ("max", "min") and pt in a.args[0]:
                rest = [x for x in a.args[0] if x is not pt]
                if not any(dep(x) for x in rest):
                    g = T.pmax(rest) if a.op == "max" else T.pmin(rest)
                    mm = T.pmax if a.op == "max" else T.pmin
                    return (lambda k: Num(mm([init.t, T.reduce_mm("r" + a.op, k, g, K)]), new.kind, *mku(k))), "mm"
            # if x > best: best = x
            for g, op in _ite_minmax(new.t, pt):
                if not dep(g):
                    mm = T.pmax if op == "max" else T.pmin
                    return (lambda k, g=g, op=op, mm=mm: Num(mm([init.t, T.reduce_mm("r" + op, k, g, K)]), new.kind, *mku(k))), "mm"
        return None

    def close_writes(self, a, ws, K, n, aph, allph):
        """Array written at an index affine in the loop counter."""
        if len(ws) != 1:
            raise Unsupported("several writes to one array in a summarised loop")
        _, _, spec, val, cond = ws[0]
        if spec is None:
            raise Unsupported("unstructured array write in a summarised loop")
        kt = pa(K)
        dim = None
        for j, s in enumerate(spec):
            if s[0] == "i":
                if T.depends(s[1], K):
                    off = s[1] - kt
                    if T.depends(off, K) or dim is not None:
                        raise Unsupported("array index is not counter + constant")
                    dim, c = j, off
            elif s[0] == "mask" or T.depends(s[1], K) or T.depends(s[2], K):
                raise Unsupported("array write pattern in a summarised loop")
        if dim is None:
            raise Unsupported("array write independent of the loop counter")
        oldfn = a._fn
        shape, kind = a.shape, a.kind
        myph = set(aph[1]) if aph else set()
        others = [p for p in allph if p not in myph]

        def fn(*idx):
            kk = idx[dim] - c
            inr = band(T.ble0(-kk), T.blt0(kk - n))
            for j, s in enumerate(spec):
                if s[0] == "i" and j != dim:
                    inr = band(inr, T.beq0(idx[j] - s[1]))
                elif s[0] == "s":
                    inr = band(inr, T.ble0(s[1] - idx[j]), T.blt0(idx[j] - s[2]))
            ov = oldfn(*idx)
            v = val(*idx)
            v = vsub(v, {K: kk})
            cc = T.subst(cond, {K: kk})
            if myph:
                m = {}
                for at in list(T.atoms_of(_vterms(v))) + list(T.atoms_of(cc)):
                    if isinstance(at, A) and at.op == "app" and at.args[0] == "ph" and at.args[1] in myph:
                        if all(p is q for p, q in zip(at.args[2:], idx)):
                            if ov.und is not FALSE or ov.pois is not FALSE or ov.im is not None:
                                raise Unsupported("partial element in an in-place loop update")
                            m[at] = ov.t
                        else:
                            raise Unsupported("loop reads elements it has written")
                if m:
                    v = vsub(v, m)
                    cc = T.subst(cc, m)
            if any(T.depends(x, p) for x in _vterms(v) for p in others):
                raise Unsupported("array element depends on an unsolved recurrence")
            mg = b_ite if kind == "b" else n_ite
            return mg(band(inr, cc), v, ov)
        # evaluate once for errors
        a.setfn(fn)
        a.at(*[pa(T.fresh("i", "0+")) for _ in shape])
        self.ctx.wlog.append((a, oldfn, None, None, TRUE))
        self.note_mut(a)

    def sym_while(self, test, body, env):
        """while i < N: ...; i += c  -- iteration count derived from the test."""
        names = _assigned(body)
        K = T.fresh("k", "0+")
        snapvars = dict(env.vars)
        count = {nm: c for nm, c in _counters(body).items() if isnum(snapvars.get(nm))
                 and num(snapvars[nm]).im is None and num(snapvars[nm]).und is FALSE and T.isint(num(snapvars[nm]).t)}
        if count and not _split_break(body)[1] and not {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} & (names - set(count)) \
                and not any(isinstance(x, ast.Call) and getattr(x.func, "id", "") not in ("len", "int", "float", "range") for x in ast.walk(test)):
            # the test looks at the counters only
            env.vars = dict(snapvars)
            for nm, c in count.items():
                env.vars[nm] = Num(num(snapvars[nm]).t + pa(K) * const(c), num(snapvars[nm]).kind)
            self.ctx.nofork += 1
            try:
                t2 = self.truth(self.eval(test, env))
            finally:
                self.ctx.nofork -= 1
                env.vars = dict(snapvars)
            return self.while_count(t2, K, body, env)
        # discover counters: run body once with placeholders
        cands = {}
        env.vars = dict(snapvars)
        phs = {}
        for nm in names:
            if nm in snapvars and isnum(snapvars[nm]):
                v, p = self.placeholder(num(snapvars[nm]), nm)
                env.vars[nm] = v
                phs[nm] = p[0]
        b2, brk = _split_break(body)
        self.ctx.nofork += 1
        mark = len(self.ctx.wlog)
        try:
            tst = self.truth(self.eval(test, env))
            try:
                self.block(b2 + (brk[2] if brk else []), env)
            except (_Break, _Return):
                raise Unsupported("break in a while loop")
        finally:
            self.ctx.nofork -= 1
            for w in reversed(self.ctx.wlog[mark:]):
                w[0].setfn(w[1])
            del self.ctx.wlog[mark:]
        new = env.vars
        env.vars = dict(snapvars)
        sub = {}
        for nm, p in phs.items():
            if isnum(new.get(nm)):
                d = num(new[nm]).t - pa(p)
                c = T.cval(d)
                if c is not None and c != 0:
                    cands[nm] = c
                    sub[p] = num(snapvars[nm]).t + pa(K) * const(c)
                elif c == 0:
                    sub[p] = num(snapvars[nm]).t
        t2 = T.subst(tst, sub)
        if any(T.depends(t2, p) for p in phs.values()):
            raise Unsupported("while condition is not driven by a counter")
        self.while_count(t2, K, body, env)

    def while_count(self, t2, K, body, env):
        # test must be monotone in k:  a*k + b < 0 / <= 0
        neg = False
        q = t2
        if q.op == "not":
            neg, q = True, q.args[0]
        if q.op != "le":
            raise Unsupported("while condition form")
        p = q.args[0]
        co = T.subst(p, {K: ONE}) - T.subst(p, {K: ZERO})
        if T.depends(co, K) or not (p - co * pa(K) - T.subst(p, {K: ZERO})) is ZERO:
            raise Unsupported("while condition is not linear")
        b0 = T.subst(p, {K: ZERO})
        if not neg:
            # p<=0 while  co*k + b0 <= 0 ; co>0: k <= -b0/co -> count floor(-b0/co)+1
            if T.psign(co) != "+":
                raise Unsupported("while loop may not terminate")
            n = T.pfloor(-b0 / co) + ONE
        else:
            # p>0 while; co<0
            if T.psign(co) != "-":
                raise Unsupported("while loop may not terminate")
            # count = ceil(b0/(-co))
            n = T.pceil(b0 / (-co))
        if T.psign(n) not in ("+", "0+"):
            if not self.ctx.entails(T.ble0(-n)):
                n = ite(T.ble0(-n), n, ZERO)
        self.sym_loop(n, None, None, body, env)

    # ---- assignment ------------------------------------------------------
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, SymSeq) and T.cval(v.n) is not None:
                v = [v.fn(const(i)) for i in range(int(T.cval(v.n)))]
            if isinstance(v, Arr):
                n, it = self.iterate(v)
                c = T.cval(n)
                if c is None:
                    raise Unsupported("unpacking an array of symbolic length")
                v = [it(const(i)) for i in range(int(c))]
            if not isinstance(v, (tuple, list)):
                raise Unsupported("unpacking")
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                v = list(v)
                vals = v[:i] + [v[i:len(v) - k]] + v[len(v) - k:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(v) != len(t.elts):
                raise SymRaise("ValueError", ("unpack",))
            for e, x in zip(t.elts, v):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def note_mut(self, arr):
        r = arr.root()
        if r.owner is not None:
            self.ctx.mut.add(r.owner)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if not self.ctx.mine(o):
                raise Unsupported("object mutated in a summarised loop")
            if isinstance(o.cls, ClassVal):
                f = o.cls.members.get(name + "#set")
                if f is not None:
                    self.call_func(f, [v], {}, o)
                    return
                g = o.cls.members.get(name)
                if isinstance(g, Func) and g.kind == "property":
                    raise SymRaise("AttributeError", (name,))
            o.attrs[name] = v
            o.written.add(name)
            return
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def getattr(self, o, name):
        from . import npmodel
        if isinstance(o, Obj):
            if name in o.attrs:
                if not (isinstance(o.cls, ClassVal) and isinstance(o.cls.members.get(name), Func)
                        and o.cls.members[name].kind == "property"):
                    return o.attrs[name]
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name == "__class__":
                return o.cls
            if isinstance(o.cls, ClassVal):
                m = o.cls.members.get(name)
                if isinstance(m, Func):
                    if m.kind == "property":
                        return self.call_func(m, [], {}, o)
                    if m.kind == "staticmethod":
                        return m
                    if m.kind == "classmethod":
                        return Bound(m, o.cls)
                    return Bound(m, o)
                if isinstance(m, tuple):
                    return self.eval(m[1], Env(o.cls.module))
            raise SymRaise("AttributeError", (name,))
        if isinstance(o, Module):
            return o.get(name)
        if isinstance(o, Ext):
            return npmodel.ext_attr(self, o.name + "." + name)
        if isinstance(o, ClassVal):
            m = o.members.get(name)
            if isinstance(m, Func):
                return m if m.kind != "classmethod" else Bound(m, o)
            if isinstance(m, tuple):
                return self.eval(m[1], Env(o.module))
            if name == "__name__":
                return o.name
        return npmodel.value_attr(self, o, name)

    # ---- expressions -----------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return num(v)
        if isinstance(v, complex):
            return num(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return num(v)
        return v

    def e_Name(self, e, env):
        v = env.lookup(e.id)
        if isinstance(v, Undefined):
            raise Unsupported(f"{e.id}: {v.why}")
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return self.ctx.note_born(list(self._elts(e.elts, env)))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                n, it = self.iterate(v)
                c = T.cval(n)
                if c is None:
                    raise Unsupported("star of symbolic length")
                out += [it(const(i)) for i in range(int(c))]
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.ctx.note_born({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                kk = self.eval(k, env)
                if isinstance(kk, Num):
                    kk = T.cval(kk.t)
                d[kk] = self.eval(v, env)
        return d

    def e_Lambda(self, e, env):
        d, kd = self._defaults(e.args, env)
        return Func(e, env.module, env, "<lambda>", d, kd)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    parts.append("<fmt>")
                    continue
                parts += self.tostr(self.eval(v.value, env))
        return mkstr(parts)

    def tostr(self, v):
        if isinstance(v, str):
            return [v]
        if isinstance(v, SymStr):
            return list(v.parts)
        if isinstance(v, Num):
            c = T.cval(v.t)
            if v.kind == "i":
                return [str(int(c))] if c is not None else [v.t]
            return [T.mk("strf", v.t)]
        if v is None or isinstance(v, bool):
            return [str(v)]
        return ["<?>"]

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        k = self.ctx.known(c)
        if k is None and self.ctx.nofork and c.fv:
            if self.ctx.solver.entails(self.ctx.pc, c):
                k = True
            elif self.ctx.solver.entails(self.ctx.pc, bnot(c)):
                k = False
            else:
                pc = self.ctx.pc
                pc.append(c)
                a = self.eval(e.body, env)
                pc[-1] = bnot(c)
                b = self.eval(e.orelse, env)
                pc.pop()
                return vmerge(c, a, b)
        if k is None:
            k = self.ctx.branch(c, ast.unparse(e.test))
        return self.eval(e.body if k else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        pushed = 0
        try:
            for i, x in enumerate(e.values):
                try:
                    v = self.eval(x, env)
                except SymRaise:
                    if acc is None:
                        raise
                    # decide the left side by forking
                    l = self.ctx.pc
                    del l[len(l) - pushed:]
                    pushed = 0
                    if self.ctx.branch(acc, "boolean operator") != isand:
                        return BV(FALSE if isand else TRUE)
                    v = self.eval(x, env)
                    acc = None
                last = i == len(e.values) - 1
                if not isinstance(v, (BV, bool)):
                    # value semantics
                    c = self.truth(v)
                    k = self.ctx.known(c)
                    if k is None:
                        if acc is not None or self.ctx.nofork:
                            if acc is None and last:
                                return v
                            b = c
                        else:
                            k = self.ctx.branch(c)
                    if k is not None:
                        if acc is None:
                            if last or k != isand:
                                return v
                            continue
                        b = TRUE if k else FALSE
                else:
                    b = self.truth(v)
                    if acc is None and self.ctx.known(b) is not None:
                        k = self.ctx.known(b)
                        if k != isand:
                            return k
                        if last:
                            return k
                        continue
                acc = b if acc is None else (band(acc, b) if isand else bor(acc, b))
                self.ctx.pc.append(b if isand else bnot(b))
                pushed += 1
            return BV(acc) if acc is not None else isand
        finally:
            if pushed:
                del self.ctx.pc[len(self.ctx.pc) - pushed:]

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return BV(bnot(self.truth(v)))
        from . import npmodel
        if op == "USub":
            return npmodel.ew1(self, n_neg, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, BV):
                return BV(bnot(v.b), v.pois)
            if isinstance(v, Arr) and v.kind == "b":
                f = v.snap()
                return Arr(v.shape, lambda *i: BV(bnot(f(*i).b), f(*i).pois), "b")
        raise Unsupported(f"unary {op}")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import npmodel
        if op == "Add":
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return mkstr(self.tostr(a) + self.tostr(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return a + b
        if op == "Mult" and isinstance(a, (list, tuple, str)) and isnum(b):
            c = T.cval(num(b).t)
            if c is None:
                raise Unsupported("sequence repetition")
            return a * int(c)
        if op == "Mult" and isinstance(b, (list, tuple, str)) and isnum(a):
            return self.binop(op, b, a)
        if op in ("BitAnd", "BitOr"):
            f = (lambda x, y: BV(band(x.b, y.b), bor(x.pois, y.pois))) if op == "BitAnd" else (
                lambda x, y: BV(bor(x.b, y.b), bor(x.pois, y.pois)))
            return npmodel.ew2b(self, f, a, b)
        if op == "MatMult":
            return npmodel.matmul(self, a, b)
        f = _OPS.get(op)
        if f is None:
            raise Unsupported(f"operator {op}")
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)) or a is None or b is None:
            if op == "Mod" and isinstance(a, str):
                return mkstr(["<fmt>"])
            raise SymRaise("TypeError", ())
        return npmodel.ew2(self, f, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                res = BV(band(self.truth(res), self.truth(v)))
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        if op in ("Is", "IsNot"):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, BV) or isinstance(b, BV):
                    raise Unsupported("identity of a symbolic boolean")
                r = (a is b)
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            if isinstance(b, (list, tuple)):
                r = FALSE
                for x in b:
                    r = bor(r, self.truth(self.compare("Eq", a, x)))
            elif isinstance(b, dict):
                r = TRUE if a in b else FALSE
            elif isinstance(b, str) and isinstance(a, str):
                r = TRUE if a in b else FALSE
            else:
                raise Unsupported("membership test")
            return BV(r if op == "In" else bnot(r))
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if isinstance(a, str) and isinstance(b, str):
                r = {"Eq": a == b, "NotEq": a != b}.get(op)
                if r is None:
                    raise Unsupported("string comparison")
                return r
            if type(a) is not type(b) and not (isinstance(a, SymStr) or isinstance(b, SymStr)):
                return op == "NotEq"
            raise Unsupported("comparison of symbolic strings")
        if a is None or b is None:
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            raise SymRaise("TypeError", ())
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and op in ("Eq", "NotEq"):
            r = TRUE if len(a) == len(b) else FALSE
            if r is TRUE:
                for x, y in zip(a, b):
                    r = band(r, self.truth(self.compare("Eq", x, y)))
            return BV(r if op == "Eq" else bnot(r))
        if isinstance(a, (Ext, ClassVal)) or isinstance(b, (Ext, ClassVal)):
            r = (a.name == b.name) if type(a) is type(b) else False
            return r if op == "Eq" else not r
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[op]
        if isinstance(a, (BV, bool)) and isinstance(b, (BV, bool)):
            x, y = self.truth(a), self.truth(b)
            eq = bor(band(x, y), band(bnot(x), bnot(y)))
            if sym == "==":
                return BV(eq)
            if sym == "!=":
                return BV(bnot(eq))
        r = npmodel.ew2(self, lambda x, y: n_cmp(sym, x, y), a, b, "b")
        if sym == "==" and isinstance(r, Arr):
            r.eqsrc = (a, b)
        return r

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.eval(x, env)
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def getitem(self, o, k, check=True):
        from . import npmodel
        return npmodel.getitem(self, o, k, check)

    def setitem(self, o, k, v):
        from . import npmodel
        npmodel.setitem(self, o, k, v)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = self._elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** of a non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, e)

    def comp(self, e, env, elt):
        if len(e.generators) != 1:
            return self.comp_nested(e, env, elt)
        g = e.generators[0]
        seq = self.eval(g.iter, env)
        n, item = self.iterate(seq)
        c = T.cval(n)
        src = seq.arr if isinstance(seq, SymSeq) else seq
        if (g.ifs and isinstance(src, Arr) and len(src.shape) == 1 and src.grid is not None and src.incr and c > 4
                and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
            r = self.selection(src, g, env)
            if r is not None:
                return r
        if c is not None and c <= 200 and not (c > UNROLL and not g.ifs and _cheap(seq)):
            out = []
            for i in range(int(c)):
                en = Env(env.module, env)
                self.assign(g.target, item(const(i)), en)
                ok = True
                for t in g.ifs:
                    if not self.ctx.branch(self.truth(self.eval(t, en))):
                        ok = False
                        break
                if ok:
                    out.append(elt(en))
            return out
        if g.ifs:
            # filtered comprehension over a symbolic range
            K = T.fresh("k", "0+")
            en = Env(env.module, env)
            self.ctx.pc.append(T.blt0(pa(K) - n))
            self.ctx.nofork += 1
            try:
                self.assign(g.target, item(pa(K)), en)
                m = TRUE
                for t in g.ifs:
                    m = band(m, self.truth(self.eval(t, en)))
                v = elt(en)
            finally:
                self.ctx.nofork -= 1
                self.ctx.pc.pop()
            if isnum(v):
                v = num(v)
            l = T.mklam(m, K)
            cnt = T.sum_close(n, ind(m), K)
            return SymSeq(cnt, lambda j: vsub(v, {K: pa(T.intsym(T.mk("nth", n, l, j, info="0+")))}))

        K = T.fresh("k", "0+")
        en = Env(env.module, env)
        self.ctx.pc.append(T.blt0(pa(K) - n))
        self.ctx.nofork += 1
        try:
            self.assign(g.target, item(pa(K)), en)
            v = elt(en)
        finally:
            self.ctx.nofork -= 1
            self.ctx.pc.pop()
        if isnum(v):
            v = num(v)
        return SymSeq(n, lambda j: vsub(v, {K: j}))

    def selection(self, src, g, env):
        """[x for x in src if cond(x)] for a constant ascending src, as the array src[cond(src)]."""
        from . import npmodel
        K = T.fresh("k", "0+")
        en = Env(env.module, env)
        self.ctx.pc.append(T.blt0(pa(K) - src.shape[0]))
        self.ctx.nofork += 1
        try:
            self.assign(g.target, self.getitem(src, Num(pa(K), "i"), check=False), en)
            m = TRUE
            for t in g.ifs:
                m = band(m, self.truth(self.eval(t, en)))
        except Unsupported:
            return None
        finally:
            self.ctx.nofork -= 1
            self.ctx.pc.pop()
        mask = Arr([src.shape[0]], lambda j: BV(T.subst(m, {K: j})), "b")
        r = npmodel.mask_get(self, src, [mask])
        return SymSeq(r.shape[0], r.snap(), r)

    def comp_nested(self, e, env, elt):
        out = []

        def rec(i, en):
            if i == len(e.generators):
                out.append(elt(en))
                return
            g = e.generators[i]
            n, item = self.iterate(self.eval(g.iter, en))
            c = T.cval(n)
            if c is None or c > 64:
                raise Unsupported("nested comprehension over a symbolic range")
            for k in range(int(c)):
                e2 = Env(env.module, en)
                self.assign(g.target, item(const(k)), e2)
                if all(self.ctx.branch(self.truth(self.eval(t, e2))) for t in g.ifs):
                    rec(i + 1, e2)
        rec(0, Env(env.module, env))
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")


_OPS = {
    "Add": lambda a, b: n_add(a, b), "Sub": lambda a, b: n_add(a, b, True), "Mult": n_mul, "Div": n_div,
    "Pow": n_pow, "Mod": n_mod, "FloorDiv": n_fdiv,
}


def _cheap(seq):
    return True


def _assigned(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


def _counters(body):
    """Names whose only binding in the body is one unconditional step by an integer constant."""
    out, n = {}, {}
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                n[x.id] = n.get(x.id, 0) + 1
            elif isinstance(x, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)):
                return {}
        t = c = None
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)):
            t, c = st.target.id, st.value
            s = 1 if isinstance(st.op, ast.Add) else -1
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)) \
                and isinstance(st.value.left, ast.Name) and st.value.left.id == st.targets[0].id:
            t, c = st.targets[0].id, st.value.right
            s = 1 if isinstance(st.value.op, ast.Add) else -1
        if isinstance(c, ast.Constant) and type(c.value) is int and c.value:
            out[t] = s * c.value
    return {t: c for t, c in out.items() if n.get(t) == 1}


def _accumulators(body):
    """Names stored only by augmented assignment whose array is not given a second name in the body."""
    aug, out = set(), set()
    plain = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.add(n.target.id)
                continue
            if isinstance(n, ast.AugAssign):
                plain |= _target_names(n.target)
            vals = []
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                vals = [n.value]
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    plain |= _target_names(t)
            elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):
                vals = n.elts
            elif isinstance(n, ast.Dict):
                vals = n.values
            elif isinstance(n, ast.Call):
                vals = n.args + [k.value for k in n.keywords] if not (
                    isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np") else []
            elif isinstance(n, (ast.For, ast.FunctionDef, ast.Lambda, ast.With, ast.Return, ast.Yield)):
                plain |= _target_names(n)
            for v in vals:
                while isinstance(v, (ast.Subscript, ast.Attribute, ast.Starred, ast.IfExp)):
                    v = v.value if not isinstance(v, ast.IfExp) else v.body
                if isinstance(v, ast.Name):
                    plain.add(v.id)
    return frozenset(aug - plain)


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _has_break(body):
    for st in body:
        if isinstance(st, (ast.Break, ast.Return)):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if any(isinstance(x, ast.Return) for x in ast.walk(st)):
                return True
            continue
        if isinstance(st, ast.If) and (_has_break(st.body) or _has_break(st.orelse)):
            return True
    return False


def _ends_continue(b):
    return bool(b) and isinstance(b[-1], ast.Continue)


def _lower_continue(body):
    """if c: A; continue; rest  ==>  if c: A else: rest."""
    out = []
    for i, st in enumerate(body):
        if isinstance(st, ast.Continue):
            return out
        if isinstance(st, ast.If) and (_ends_continue(st.body) or _ends_continue(st.orelse)):
            rest = list(body[i + 1:])
            if _ends_continue(st.body):
                b, o = st.body[:-1] or [ast.Pass()], list(st.orelse) + rest
            else:
                b, o = list(st.body) + rest, st.orelse[:-1] or [ast.Pass()]
            n = ast.If(test=st.test, body=_lower_continue(b), orelse=_lower_continue(o))
            ast.copy_location(n, st)
            ast.fix_missing_locations(n)
            return out + [n]
        out.append(st)
    return out


def _split_break(body):
    """body -> (S1, (cond, S3 ending in break/return, S2)) or (body, None)."""
    for i, st in enumerate(body):
        if isinstance(st, ast.If) and not _has_break(st.orelse) and st.body and isinstance(
                st.body[-1], (ast.Break, ast.Return)) and not _has_break(st.body[:-1]):
            rest = list(st.orelse) + list(body[i + 1:])
            if _has_break(rest):
                raise Unsupported("several exits in one loop")
            b3 = list(st.body)
            return list(body[:i]), (st.test, b3, rest)
        if isinstance(st, ast.If) and st.orelse and not _has_break(st.body) and isinstance(
                st.orelse[-1], (ast.Break, ast.Return)) and not _has_break(st.orelse[:-1]):
            rest = list(st.body) + list(body[i + 1:])
            if _has_break(rest):
                raise Unsupported("several exits in one loop")
            t = ast.UnaryOp(op=ast.Not(), operand=st.test)
            ast.copy_location(t, st.test)
            return list(body[:i]), (t, list(st.orelse), rest)
    if _has_break(body):
        raise Unsupported("loop exit in an unsupported position")
    return body, None


def _vterms(v):
    if isinstance(v, Num):
        r = [v.t, v.und, v.pois]
        if v.im is not None:
            r.append(v.im)
        return tuple(r)
    if isinstance(v, BV):
        return (v.b, v.pois)
    return ()


def _vdep(v, atoms):
    if isinstance(v, (Num, BV)):
        return any(T.depends(x, p) for x in _vterms(v) for p in atoms)
    if isinstance(v, Arr):
        idx = [pa(T.fresh("i", "0+")) for _ in v.shape]
        return any(T.depends(s, p) for s in v.shape for p in atoms) or _vdep(v.at(*idx), atoms)
    if isinstance(v, (tuple, list)):
        return any(_vdep(x, atoms) for x in v)
    return False


def _vsame(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return _vterms(a) == _vterms(b)
    return False


def _pois(v, c):
    if isinstance(v, Num):
        return Num(v.t, v.kind, v.und, bor(v.pois, c), v.im)
    if isinstance(v, BV):
        return BV(v.b, bor(v.pois, c))
    if isinstance(v, Arr):
        f = v.snap()
        return Arr(v.shape, lambda *i: _pois(f(*i), c), v.kind)
    if isinstance(v, (tuple, list)):
        return type(v)(_pois(x, c) for x in v)
    return v


def _ite_minmax(t, ph):
    """Recognise ite(ph < g, g, ph) and variants; yields (g, 'max'|'min')."""
    for m in t.d:
        for a, _ in m:
            if a.op == "ind" and a.args[0].op == "le":
                q = a.args[0].args[0]
                one = T.subst(t, {a: ONE})
                zero = T.subst(t, {a: ZERO})
                # ind: q <= 0
                for g, whenq in ((one, True), (zero, False)):
                    other = zero if whenq else one
                    if other is not ph:
                        continue
                    # value g taken when (q<=0)==whenq ; q ~ c*(g-ph) or c*(ph-g)
                    for s, d in ((1, g - ph), (-1, ph - g)):
                        if T._cmp_norm(d) is q:
                            # q<=0  <=> d<=0
                            le = (s == 1)      # g <= ph when q<=0
                            takes_small = (le == whenq)
                            yield g, ("min" if takes_small else "max")

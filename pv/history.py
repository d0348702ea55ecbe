"""Properties of every history of an object: an inductive invariant over its
states, found from the code and discharged operation by operation.

A state is a valuation of the object's attributes (private ones included)
together with ghost variables holding what the caller last set.  Starting from
the constructor, every operation is run symbolically on every state found so
far; each read must return the contract's value for the ghost variables, and
each resulting state must be an instance of a state already found (its symbols
instantiated) or becomes a new one.  When no new state appears, the union of
the states is closed under all operations: the reads are right after every
history, of any length."""
from __future__ import annotations

import time
import traceback

HIST = {}


class History:
    """cls: class; params: constructor parameters (Decl); settings: parameters
    that are attributes, with the Decl of the values they may be set to;
    reads: attribute -> spec function of the settings giving its value."""

    def __init__(self, name, cls, params, settings, reads, limit=16):
        self.name, self.cls, self.params, self.settings, self.reads, self.limit = name, cls, params, settings, reads, limit
        HIST[name] = self


class State:
    def __init__(self, attrs, ghost, pc, how):
        self.attrs, self.ghost, self.pc, self.how = attrs, ghost, tuple(pc), how


def value(it, v):
    """Comparable form of an attribute's value."""
    from . import npmodel as M
    from .val import Num, Arr, BV, Obj
    if isinstance(v, (Num, Arr, BV, str, bool, int, float)) or v is None:
        return M.key(it, v)
    if isinstance(v, (tuple, list)):
        return ("seq",) + tuple(value(it, x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((value(it, k), value(it, x)) for k, x in sorted(v.items(), key=lambda z: repr(z[0])))
    return ("id", getattr(v, "qual", None) or getattr(v, "name", None) or id(v))


def symbol(x):
    """The symbol x consists of, or None."""
    from . import term as T
    if isinstance(x, T.P) and len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym":
            return m[0][0]
    return None


def use_equations(state, pc):
    """The state with symbols replaced by what the path says they equal."""
    from . import term as T
    from .interp import vsub
    conds = []
    for c in pc:
        conds += list(c.args[0]) if c.op == "and" else [c]
    todo = list(conds)
    while todo:
        c = todo.pop(0)
        if c.op != "eq":
            continue
        p = c.args[0]
        for m, k in p.d.items():
            if abs(k) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and "'" in m[0][0].args[0]:
                a = m[0][0]
                t = T.pscale(T.padd(T.pscale(T.pa(a), -k), p), -1 / k)
                if T.depends(t, a):
                    continue
                sub = {a: t}
                state = tuple({n: vsub(v, sub) for n, v in part.items()} for part in state)
                todo = [T.subst(d, sub) for d in todo]
                break
    return state


def instance(it, solver, t, s):
    """s is t with its symbols instantiated."""
    from . import term as T
    from .smt import Prover, prove_goal
    if sorted(t.attrs) != sorted(s.attrs):
        return False
    m = {}
    rest = []
    pairs = [(value(it, t.attrs[k]), value(it, s.attrs[k])) for k in sorted(t.attrs)]
    pairs += [(value(it, t.ghost[k]), value(it, s.ghost[k])) for k in sorted(t.ghost)]
    flatp = []

    def flat(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("seq",) and b[:1] == ("seq",) and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                flat(x, y)
        else:
            flatp.append((a, b))
    for a, b in pairs:
        flat(a, b)
    for a, b in flatp:
        y = symbol(a)
        if y is not None and y not in m:
            if not isinstance(b, T.P):
                return False
            m[y] = b
        else:
            rest.append((a, b))
    for a, b in rest:
        a = T.subst(a, m) if isinstance(a, (T.P, T.A, T.B, tuple)) else a
        if a is b or a == b:
            continue
        return False
    for c in t.pc:
        g = T.subst(c, m)
        if g in s.pc or g is T.TRUE:
            continue
        if not prove_goal(Prover(solver, 5.0), s.pc, g):
            return False
    return True


def verify_history(world, h, solver, deadline=None):
    from .interp import Interp
    from .contract import REG, FnReport, Obligation, build_args, cases_of, compare, discharge, explore, spec_map
    from .decl import resolve
    from .val import Obj, SymRaise
    from . import term as T
    rep = FnReport("history " + h.name)
    t0 = time.time()
    sm = spec_map()
    rep.modes.add("modular")

    def bad(tag, what, detail=""):
        o = Obligation(rep.qual, f"{tag}: {what}", "engine", (), None)
        o.status, o.detail = "undischarged", detail
        rep.obls.append(o)

    for cname, decls in cases_of(h.params):
        tag = f"history {h.name}" + (f"[{cname}]" if cname else "")
        states = []
        todo = []

        def add(it, attrs, ghost, pc, how):
            attrs, ghost = use_equations((attrs, ghost), pc)
            s = State(attrs, ghost, pc, how)
            for t in states:
                if instance(it, solver, t, s):
                    return
            # as general as possible: without the path that led here
            s.pc = ()
            if len(states) >= h.limit:
                raise RuntimeError(f"no closed set of {h.limit} states found")
            states.append(s)
            todo.append(s)

        def step(runner, label):
            for i, ctx in enumerate(explore(world, solver, runner, 60)):
                rep.paths += 1
                rep.calls |= ctx.calls
                for kind, what, pc, goal in ctx.obl:
                    rep.obls.append(Obligation(rep.qual, f"{tag}: {label}: {what}", kind, pc, goal))

        def start(ctx):
            it = Interp(world, ctx, REG, None, sm)
            args = build_args(it, decls)
            it.mode = "code"
            o = it.call(resolve(it, h.cls), [], dict(args))
            add(it, dict(o.attrs), {k: v for k, v in args.items() if k != "name"}, ctx.pc, "constructed")

        def op(s, n, name, kind):
            def run(ctx):
                it = Interp(world, ctx, REG, None, sm)
                ctx.pc.extend(s.pc)
                o = Obj(resolve(it, h.cls), dict(s.attrs))
                ghost = dict(s.ghost)
                it.mode = "code"
                try:
                    if kind == "set":
                        v = h.settings[name].sym(it, f"{name}'{n}", {})
                        it.setattr(o, name, v)
                        ghost[name] = v
                        ctx.obl.append(("result", f"setting {name} returns normally", tuple(ctx.pc), T.TRUE))
                    else:
                        r = it.getattr(o, name)
                        it.mode = "spec"
                        if name in h.reads:
                            f = resolve(it, h.reads[name])
                            w = it.call(f, [], {a.arg: ghost[a.arg] for a in f.node.args.args})
                        else:
                            w = ghost[name]
                        compare(it, r, w, f"{name}", None)
                        it.mode = "code"
                except SymRaise as e:
                    ctx.obl.append(("outcome", f"{kind} {name} raises {e.etype}", tuple(ctx.pc), T.FALSE))
                    return
                add(it, dict(o.attrs), ghost, ctx.pc, s.how + [f"{kind} {name}"] if isinstance(s.how, list) else [f"{kind} {name}"])
            return run
        try:
            step(start, "constructor")
            n = 0
            while todo:
                s = todo.pop(0)
                n += 1
                after = "after " + ", ".join(s.how) if isinstance(s.how, list) else "new object"
                for name in h.settings:
                    step(op(s, n, name, "set"), f"{after}: set {name}")
                for name in list(h.settings) + list(h.reads):
                    step(op(s, n, name, "read"), f"{after}: read {name}")
                if deadline is not None and time.time() > deadline:
                    raise RuntimeError("time budget of the check exhausted")
            rep.obls.append(Obligation(rep.qual, f"{tag}: the {len(states)} states found are closed under every operation",
                                       "invariant", (), T.TRUE))
        except Exception as e:  # noqa: BLE001
            bad(tag, "an inductive invariant is found for the current code",
                f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
    discharge(rep, solver, 20.0, deadline)
    rep.secs = time.time() - t0
    return rep

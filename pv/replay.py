"""Counterexample search and replay under CPython, against the real code.

Run by the interpreter pyBSM is installed for, with a scratch copy of the
package (made from /repo's working tree) first on the path.  The contracts are
executed as they are: inputs are drawn from the parameter declarations, the
real function and its specification are run, results and frames compared."""
from __future__ import annotations

import argparse
import ast
import copy
import importlib
import inspect
import json
import math
import os
import random
import sys
import time
import traceback
import warnings


def enc(v):
    import numpy as np
    from pv.decl import Rec
    if isinstance(v, Rec):
        return {"__make__": v.make, "parts": {k: enc(x) for k, x in v.parts.items()}}
    if isinstance(v, np.ndarray):
        return {"__array__": enc(v.tolist()), "dtype": str(v.dtype), "shape": list(v.shape)}
    if isinstance(v, np.generic):
        return enc(v.item())
    if isinstance(v, complex):
        return {"__complex__": [v.real, v.imag]}
    if isinstance(v, float) and not math.isfinite(v):
        return {"__float__": repr(v)}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if hasattr(v, "__dict__"):
        return {"__object__": type(v).__name__, **{k: enc(x) for k, x in vars(v).items()}}
    return repr(v)


def dec(j):
    import numpy as np
    from pv.decl import Rec
    if isinstance(j, dict):
        if "__make__" in j:
            return Rec(j["__make__"], {k: dec(x) for k, x in j["parts"].items()})
        if "__array__" in j:
            return np.array(dec(j["__array__"]), dtype=j["dtype"]).reshape(j["shape"])
        if "__float__" in j:
            return float(j["__float__"])
        if "__complex__" in j:
            return complex(*j["__complex__"])
        return {k: dec(x) for k, x in j.items()}
    if isinstance(j, list):
        return [dec(x) for x in j]
    return j


def find(dotted):
    m, f = dotted.rsplit(".", 1)
    try:
        return getattr(importlib.import_module(m), f)
    except ModuleNotFoundError:
        m2, c = m.rsplit(".", 1)
        return getattr(getattr(importlib.import_module(m2), c), f)


def realize(v):
    from pv.decl import Rec
    if isinstance(v, Rec):
        return find(v.make)(**{k: realize(x) for k, x in v.parts.items()})
    if isinstance(v, list):
        return [realize(x) for x in v]
    return copy.deepcopy(v)


def snap(v, seen=None):
    import numpy as np
    seen = {} if seen is None else seen
    if isinstance(v, np.ndarray):
        return ("nd", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snap(x, seen) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple(sorted((str(k), snap(x, seen)) for k, x in v.items())))
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, np.generic)):
        return repr(v)
    if callable(v):
        return "fn"
    if id(v) in seen:
        return ("ref", seen[id(v)])
    seen[id(v)] = len(seen)
    return (type(v).__name__, tuple(sorted((k, snap(x, seen)) for k, x in vars(v).items())))


def snapdiff(a, b, nm):
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] and a[0] not in ("list", "tuple") \
            and isinstance(a[1], tuple):
        da, db = dict(a[1]), dict(b[1])
        out = []
        for k in sorted(set(da) | set(db)):
            out += snapdiff(da.get(k), db.get(k), f"{nm}.{k}")
        return out or [nm]
    return [nm]


def diff(r, s, c, nm="result"):
    """None, or a description of the first difference."""
    import numpy as np
    if isinstance(s, dict) and not isinstance(r, dict):
        for k, y in s.items():
            if not hasattr(r, k):
                return f"{nm} has no attribute {k}"
            d = diff(getattr(r, k), y, c, f"{nm}.{k}")
            if d:
                return d
        return None
    if isinstance(s, dict):
        if sorted(s) != sorted(r):
            return f"{nm} has keys {sorted(r)}, specified {sorted(s)}"
        for k in s:
            d = diff(r[k], s[k], c, f"{nm}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(s, (tuple, list)) and isinstance(r, (tuple, list)) and not _numeric(s):
        if len(r) != len(s):
            return f"{nm} has {len(r)} components, specified {len(s)}"
        for i, (x, y) in enumerate(zip(r, s)):
            d = diff(x, y, c, f"{nm}[{i}]")
            if d:
                return d
        return None
    if s is None or isinstance(s, str) or r is None or isinstance(r, str):
        return None if type(r) is type(s) and r == s else f"{nm} is {r!r}, specified {s!r}"
    if hasattr(s, "__dict__") and not isinstance(s, np.ndarray) and not np.isscalar(s):
        if type(s).__name__ != type(r).__name__:
            return f"{nm} is a {type(r).__name__}, specified {type(s).__name__}"
        for k, y in vars(s).items():
            if not hasattr(r, k):
                return f"{nm} has no attribute {k}"
            d = diff(getattr(r, k), y, c, f"{nm}.{k}")
            if d:
                return d
        return None
    try:
        x, y = np.asarray(r), np.asarray(s)
    except Exception:
        return f"{nm} is not numeric: {r!r}"
    if x.dtype == object or y.dtype == object or x.dtype.kind in "US":
        return None if x.shape == y.shape and bool(np.all(x == y)) else f"{nm} is {r!r}, specified {s!r}"
    if x.shape != y.shape:
        if x.size == 1 and y.size == 1:
            x, y = x.reshape(()), y.reshape(())
        else:
            return f"{nm} has shape {x.shape}, specified {y.shape}"
    if y.dtype.kind == "u" and x.dtype != y.dtype:
        return f"{nm} has elements of type {x.dtype}, specified {y.dtype}"
    if x.size == 0:
        return None
    if x.dtype == bool:
        x = x.astype(int)
    if y.dtype == bool:
        y = y.astype(int)
    fin = np.isfinite(y)
    scale = float(np.max(np.abs(y[fin]))) if np.any(fin) else 0.0
    with np.errstate(all="ignore"):
        ok = (np.abs(x - y) <= c.atol + c.rtol * np.abs(y) + 1e-10 * scale) | (x == y) | (np.isnan(x) & np.isnan(y))
    if np.all(ok):
        return None
    i = tuple(int(q) for q in np.argwhere(~np.atleast_1d(ok))[0])
    xx, yy = np.atleast_1d(x)[i], np.atleast_1d(y)[i]
    return f"{nm}{list(i) if x.shape else ''} is {xx!r}, specified {yy!r}"


def _numeric(s):
    import numpy as np
    try:
        a = np.asarray(s)
    except Exception:
        return False
    return a.dtype.kind in "fiub" and a.ndim == 1 and all(np.ndim(x) == 0 for x in s)


def leaves(v):
    """Numeric arrays of a result, in a fixed order."""
    import numpy as np
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in leaves(v[k])]
    if isinstance(v, (tuple, list)) and not _numeric(v):
        return [x for y in v for x in leaves(y)]
    if v is None or isinstance(v, str):
        return []
    if hasattr(v, "__dict__") and not isinstance(v, np.ndarray) and not np.isscalar(v):
        return [x for k in sorted(vars(v)) for x in leaves(vars(v)[k])]
    a = np.asarray(v)
    return [] if a.dtype.kind not in "fciub" else [a.astype(complex).reshape(-1)]


def pick(r, s):
    """The components of r that s specifies."""
    import numpy as np
    if isinstance(s, dict) and not isinstance(r, dict):
        return {k: pick(getattr(r, k), y) for k, y in s.items()}
    if isinstance(s, dict):
        return {k: pick(r[k], y) for k, y in s.items()}
    if isinstance(s, (tuple, list)) and isinstance(r, (tuple, list)) and not _numeric(s):
        return [pick(x, y) for x, y in zip(r, s)]
    return r


def nudge(v, rng, eps):
    import numpy as np
    from pv.decl import Rec
    if isinstance(v, Rec):
        return Rec(v.make, {k: nudge(x, rng, eps) for k, x in v.parts.items()})
    if isinstance(v, float):
        return v * (1 + eps * rng.uniform(-1, 1))
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        return v * (1 + eps * np.array([rng.uniform(-1, 1) for _ in range(v.size)]).reshape(v.shape))
    if isinstance(v, list):
        return [nudge(x, rng, eps) for x in v]
    return v


def rounding(c, recs, r, s, seed):
    """The contract's own value moves as far when the inputs move by rounding
    errors: the difference says nothing about the code."""
    import numpy as np
    rng = random.Random(seed)
    spec = find(c.spec)
    names = argnames(spec)
    try:
        ls, lr = leaves(s), leaves(pick(r, s))
        if len(ls) != len(lr):
            return False
        devs = []
        for eps in (4e-15, 4e-13):
            dev = [np.zeros(a.shape) for a in ls]
            for _ in range(5):
                p, e = run(spec, {k: realize(nudge(v, rng, eps)) for k, v in recs.items() if k in names}, seed)
                lp = leaves(p) if e is None else []
                if [a.shape for a in lp] != [a.shape for a in ls]:
                    return [a.shape for a in lp] == [a.shape for a in lr]      # a length decided by rounding
                for i, (a, b) in enumerate(zip(lp, ls)):
                    with np.errstate(all="ignore"):
                        dev[i] = np.maximum(dev[i], np.nan_to_num(np.abs(a - b)))
            devs.append(dev)
        for a, b, d0, d1 in zip(lr, ls, *devs):
            if a.shape != b.shape:
                if a.size == 1 and b.size == 1:
                    a, b = a.reshape(-1), b.reshape(-1)
                else:
                    return False
            y = np.abs(b)
            scale = float(np.max(y[np.isfinite(y)])) if np.any(np.isfinite(y)) else 0.0
            with np.errstate(all="ignore"):
                tol = c.atol + c.rtol * y + 1e-10 * scale + np.where(d1 > 10 * d0, 100 * d0 + d1, 0.0)
                if not np.all((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))):
                    return False
        return True
    except Exception:  # noqa: BLE001
        return False


def wide(v):
    """The same value in extended precision."""
    import numpy as np
    from pv.decl import Rec
    if isinstance(v, Rec):
        return Rec(v.make, {k: wide(x) for k, x in v.parts.items()})
    if isinstance(v, float):
        return np.longdouble(v)
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        return v.astype(np.longdouble)
    if isinstance(v, list):
        return [wide(x) for x in v]
    return v


def shrunk(c, r0, s0, r, s):
    """Every difference between code and contract got smaller by about as much as the unit of rounding did."""
    import numpy as np
    a0, b0, a1, b1 = leaves(pick(r0, s0)), leaves(s0), leaves(pick(r, s)), leaves(s)
    if not len(a0) == len(b0) == len(a1) == len(b1):
        return False
    for w, x, y, z in zip(a0, b0, a1, b1):
        if not w.shape == x.shape == y.shape == z.shape:
            return False
        with np.errstate(all="ignore"):
            m = np.abs(x)
            scale = float(np.max(m[np.isfinite(m)])) if np.any(np.isfinite(m)) else 0.0
            ok = ((np.abs(y - z) <= np.maximum(c.atol + c.rtol * m + 1e-10 * scale, np.abs(w - x) / 256)) | (y == z)
                  | (np.isnan(y) & np.isnan(z)))
        if not np.all(ok):
            return False
    return True


def narrow(c, recs, seed, r0, s0):
    """Code and contract agree, or nearly so, when both are computed in extended
    precision: what differs in double precision is a rounding error."""
    import numpy as np
    interp = np.interp
    np.interp = lambda *a, **k: interp(*[np.asarray(x, dtype=float) for x in a[:3]], *a[3:], **k).astype(np.longdouble)
    try:
        names = argnames(find(c.spec))
        s, se = run(find(c.spec), {k: realize(wide(v)) for k, v in recs.items() if k in names}, seed)
        r, re_ = run(find(c.qual), {k: realize(wide(v)) for k, v in recs.items()}, seed)
        if se is not None or re_ is not None:
            return False
        r = find(c.view)(r) if c.view else r
        return diff(r, s, c) is None or shrunk(c, r0, s0, r, s)
    except Exception:  # noqa: BLE001
        return False
    finally:
        np.interp = interp


def argnames(f):
    return set(inspect.signature(f).parameters)


def run(f, args, seed):
    import numpy as np
    np.random.seed(seed)
    random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                return f(**args), None
            except Exception as e:  # noqa: BLE001
                return None, e


def pre_ok(c, recs):
    for p in (c.pre, c.runs):
        if p is not None:
            f = find(p)
            a = {k: realize(v) for k, v in recs.items() if k in argnames(f)}
            r, e = run(f, a, 0)
            if e is not None or not bool(r):
                return False
    return True


def one(c, recs, seed=7):
    """Run code and contract on one input; description of the mismatch or None."""
    import numpy as np
    real = find(c.qual)
    spec = find(c.spec)
    sa = {k: realize(v) for k, v in recs.items() if k in argnames(spec)}
    s, se = run(spec, sa, seed)
    ra = {k: realize(v) for k, v in recs.items()}
    before = {k: snap(v) for k, v in ra.items()}
    r, re_ = run(real, ra, seed)
    if re_ is None and se is None and c.view:
        try:
            r = find(c.view)(r)
        except Exception as e:  # noqa: BLE001
            return f"result cannot be read: {type(e).__name__}: {e}", r, s
    if isinstance(se, MemoryError) or isinstance(re_, MemoryError):
        return None         # larger than a check may allocate: nothing is said
    if se is not None or re_ is not None:
        a = type(re_).__name__ if re_ is not None else "returns normally"
        b = type(se).__name__ if se is not None else "returns normally"
        okx = re_ is not None and se is not None and (isinstance(re_, type(se)) or isinstance(se, type(re_)))
        if not okx:
            return f"code: {a} ({re_}); contract: {b} ({se})", r, s
    else:
        d = diff(r, s, c)
        if d:
            return None if rounding(c, recs, r, s, seed) or narrow(c, recs, seed, r, s) else (d, r, s)
    if re_ is None and se is None:
        for path in c.outs or ():
            d = diff(follow(ra, path), follow(sa, path), c, f"{path} afterwards")
            if d:
                return d, r, s
    for k, v in ra.items():
        for nm in snapdiff(before[k], snap(v), k):
            if c.outs and nm.rsplit(".", 1)[-1].startswith("_"):
                continue
            if not any(nm == x or nm.startswith(x + ".") for x in c.mutates):
                return f"argument {nm} is modified", r, s
    return None


def follow(args, path):
    ks = path.split(".")
    v = args[ks[0]]
    for k in ks[1:]:
        v = getattr(v, k)
    return v


def literals(qual, src):
    """Numeric literals in the module of the function (branch points of planted conditions)."""
    out = set()
    parts = qual.split(".")
    for i in range(len(parts) - 1, 0, -1):
        p = os.path.join(src, *parts[:i]) + ".py"
        if os.path.isfile(p):
            break
    else:
        return []
    tree = ast.parse(open(p).read())
    names = set(parts[i:])
    scope = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in names]
    for s in scope or [tree]:
        for n in ast.walk(s):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.add(float(n.value))
    return sorted(out)


def search(c, src, seed, budget, nmax, hints=()):
    from pv.contract import cases_of
    from pv.decl import Sampler
    rng = random.Random(f"{seed}:{c.qual}")
    pool = literals(c.qual, src)
    cases = list(cases_of(c.params))
    t0 = time.time()
    ran = rejected = 0
    bad = None
    distinct = set()
    hs = list(hints)
    i = 0
    # on a loaded machine the budget may pass before one input has run: at least one runs, within 30 s more
    while ran < nmax and time.time() - t0 < (budget if ran else budget + 30):
        nm, decls = cases[i % len(cases)]
        h = None
        if hs and i < 6 * len(hs) * len(cases) + 40:
            h = dict(rng.choice(hs))
            for k in list(h):
                if rng.random() < (0.0 if i < len(hs) * len(cases) else 0.35):
                    h.pop(k)
        i += 1
        if i > 60 * nmax + 400:
            break
        S = Sampler(rng, h, pool, 0.0 if i % 3 == 0 else (0.3 if h is not None or i % 7 == 0 else 0.1))
        try:
            recs = {k: d.sample(S, k) for k, d in decls.items()}
            if c.samples:
                find(c.samples)(recs, rng)
        except Exception:
            if h is None:
                raise
            continue
        if not pre_ok(c, recs):
            rejected += 1
            continue
        ran += 1
        distinct.add(json.dumps(enc(recs))[:4000])
        sd = rng.randrange(10 ** 6)
        m = one(c, recs, seed=sd)
        if m:
            bad = {"qual": c.qual, "seed": sd, "case": nm, "what": m[0], "args": enc(recs), "got": enc(m[1]), "expected": enc(m[2])}
            break
    return {"qual": c.qual, "ran": ran, "distinct": len(distinct), "rejected": rejected, "secs": round(time.time() - t0, 2), "bad": bad}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--src", required=True)
    ap.add_argument("--quals", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=2.0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--hints", default="")
    ap.add_argument("--out", default="")
    ap.add_argument("--file", default="")
    a = ap.parse_args()
    sys.path.insert(0, a.src)
    import logging
    logging.disable(logging.CRITICAL)
    import pv.contracts as pc
    pc.load()
    from pv.contract import REG
    import pybsm
    where = os.path.dirname(os.path.abspath(pybsm.__file__))
    if os.path.realpath(where) != os.path.realpath(os.path.join(a.src, "pybsm")):
        print(f"wrong package: {where}", file=sys.stderr)
        return 3
    if a.file:
        j = json.load(open(a.file))
        if not j.get("args"):
            print(j.get("what", "") + "\n" + j.get("detail", ""))
            return 1
        m = one(REG[j["qual"]], dec(j["args"]), j.get("seed", 7))
        print("reproduced: " + m[0] if m else "not reproduced")
        return 1 if m else 0
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 * 1024 ** 3, 3 * 1024 ** 3))
    hints = json.load(open(a.hints)) if a.hints else {}
    res = []
    for q in a.quals.split(","):
        c = REG[q]
        try:
            res.append(search(c, a.src, a.seed, a.budget, max(1, int(c.n * a.scale)), hints.get(q, ())))
        except Exception as e:  # noqa: BLE001
            res.append({"qual": q, "ran": 0, "distinct": 0, "rejected": 0, "secs": 0, "bad": None,
                        "error": f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]})
        json.dump(res, open(a.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())

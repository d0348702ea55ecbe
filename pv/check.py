"""python3-vt -m pv.check P03 [--tier thorough]"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pybsm")
PY = os.environ.get("PV_PYTHON", "/opt/venv/bin/python")
KNOWN = os.path.join(ROOT, "known-findings.json")

_W = {}


def worker_init():
    sys.setrecursionlimit(20000)
    import resource
    lim = 6 * 1024 ** 3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def world():
    if "w" not in _W:
        from pv import interp
        import pv.contracts
        pv.contracts.load()
        _W["w"] = interp.World({"pybsm": SRC, "pv": os.path.join(ROOT, "pv")})
    return _W["w"]


def verify_task(kind, name, deadline, case=None):
    """One function (or lemma, or one case of a function): every obligation, discharged or not."""
    from pv import contract, smt
    w = world()
    t0 = time.time()
    s = smt.Solver()
    for k in smt.STATS:
        smt.STATS[k] = 0
    try:
        if kind == "history":
            from pv import history
            rep = history.verify_history(w, history.HIST[name], s, deadline)
        elif kind == "lemma":
            rep = contract.verify_lemma(w, contract.LEMMAS[name], s, deadline)
        else:
            rep = contract.verify(w, contract.REG[name], s, deadline=deadline, case=case)
    except (Exception, RecursionError) as e:  # noqa: BLE001
        import traceback
        return dict(kind=kind, name=name, obls=[dict(name=f"{name}: verification runs", status="undischarged", how="", secs=0.0,
                                                     detail=f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:])],
                    calls=[], secs=time.time() - t0, paths=0, modes=[], vacuous=[], stats=dict(smt.STATS), hints=[])
    hints = []
    for o in rep.obls:
        if o.status != "discharged" and len(hints) < 12:
            hints += model_hints(o)
    return dict(kind=kind, name=name,
                obls=[dict(name=o.name, status=o.status, how=o.how, secs=round(o.secs, 3), detail=o.detail) for o in rep.obls],
                calls=sorted(rep.calls), secs=time.time() - t0, paths=rep.paths, modes=sorted(rep.modes), vacuous=rep.vacuous,
                stats=dict(smt.STATS), hints=hints)


def model_hints(o):
    """Valuations of the inputs from the negated obligation (and from its path alone)."""
    from pv import smt, term as T
    out = []
    if o.goal is None:
        return out
    goal = T.beq0(o.goal[1] - o.goal[2]) if isinstance(o.goal, tuple) else o.goal
    for q in ([T.bnot(goal)], []):
        try:
            r, m = smt.check_sat(list(o.pc) + q, 1500, want_model=True)
        except Exception:  # noqa: BLE001
            continue
        if r != "sat" or not m:
            continue
        h = {}
        for a, v in m.items():
            if a.op == "sym":
                h[a.args[0]] = v
        for a, v in m.items():
            if a.op == "elem":
                ix = []
                for p in a.args[1:]:
                    x = 0.0
                    try:
                        for mono, c in p.d.items():
                            t = float(c)
                            for b, e in mono:
                                t *= m[b] ** float(e)
                            x += t
                        ix.append(int(round(x)))
                    except (KeyError, AttributeError, ZeroDivisionError, OverflowError):
                        ix = None
                        break
                h.setdefault("@" + a.args[0].split("%")[0], []).append((ix, v))
        if h:
            out.append(h)
    return out


# --------------------------------------------------------------------------
def scratch_copy(need_atm):
    d = tempfile.mkdtemp(prefix="pv-replay-")
    dst = os.path.join(d, "pybsm")
    for root, dirs, files in os.walk(SRC):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "atms")]
        rel = os.path.relpath(root, SRC)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            shutil.copy(os.path.join(root, f), os.path.join(dst, rel, f))
    os.makedirs(os.path.join(dst, "atms"), exist_ok=True)
    for f in ("fileDecoder.csv",):
        p = os.path.join(SRC, "atms", f)
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(dst, "atms", f))
    if need_atm:
        subprocess.run([PY, os.path.join(ROOT, "pv", "mkatm.py"), os.path.join(dst, "atms")], check=True)
    return d


def start_replay(d, quals, seed, budget, scale, hints=None, tag="r"):
    out = os.path.join(d, f"{tag}.json")
    cmd = [PY, "-m", "pv.replay", "--src", d, "--quals", ",".join(quals), "--seed", str(seed), "--budget", str(budget),
           "--scale", str(scale), "--out", out]
    if hints:
        hp = os.path.join(d, f"{tag}-hints.json")
        json.dump(hints, open(hp, "w"))
        cmd += ["--hints", hp]
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + ROOT, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=d)
    p = subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p, out, quals


def finish_replay(h, timeout):
    p, out, quals = h
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        err = "replay timed out\n" + (err or "")
    res = []
    if os.path.isfile(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = []
    done = {r["qual"] for r in res}
    for q in quals:
        if q not in done:
            res.append({"qual": q, "ran": 0, "distinct": 0, "rejected": 0, "secs": 0, "bad": None, "error": (err or "")[-1500:]})
    return res


def chunks(xs, n):
    out = [[] for _ in range(max(1, min(n, len(xs))))]
    for i, x in enumerate(xs):
        out[i % len(out)].append(x)
    return [c for c in out if c]


def known_findings(pid):
    if not os.path.isfile(KNOWN):
        return []
    return [f for f in json.load(open(KNOWN))["findings"] if f["property"] == pid and f["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from pv.props import PROPS
    P = PROPS[a.pid]
    quick = a.tier == "quick"
    import pv.contracts
    pv.contracts.load()
    from pv.contract import REG
    evd = os.environ.get("PV_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    deadline = t0 + (240 if quick else 600)
    d = scratch_copy(P.get("atm", False))
    try:
        return run_check(a, P, REG, seed, quick, evd, deadline, d, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unfinished(k, why):
    return dict(kind=k[0], name=k[1], obls=[dict(name=f"{k[1]}: verification finishes", status="undischarged", how="", secs=0.0, detail=why)],
                calls=[], secs=0.0, paths=0, modes=[], vacuous=[], stats={}, hints=[])


def run_check(a, P, REG, seed, quick, evd, deadline, d, t0):
    pid = a.pid
    import pv.contract as pcn
    reports = {}
    scale, bud = (1.0, 4.0) if quick else (20.0, 60.0)
    known = known_findings(pid)
    # the property's own contracts run on the real code while the proofs are made
    first = sorted(set(P["contracts"]) | set(P.get("searches", ())))
    early = [start_replay(d, c, seed, bud, scale, None, f"e{i}") for i, c in enumerate(chunks(first, 3))]
    res, ran = [], set()
    ctx = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(7, mp_context=ctx, initializer=worker_init)
    try:
        fut = {}

        def submit(kind, name):
            n = len(list(pcn.cases_of(REG[name].params))) if kind == "fn" and REG[name].partial else 1
            for i in range(n):
                k = (kind, name, i if n > 1 else None)
                if k not in fut and k not in reports:
                    fut[k] = ex.submit(verify_task, kind, name, deadline, k[2])
        for q in P["contracts"]:
            submit("fn", q)
        for q in P.get("lemmas", ()):
            submit("lemma", q)
        for q in P.get("histories", ()):
            submit("history", q)
        stop = deadline + 45
        while fut:
            done, _ = cf.wait(list(fut.values()), timeout=0.5 if early else 2.0, return_when=cf.FIRST_COMPLETED)
            for k in [k for k, f in fut.items() if f in done]:
                f = fut.pop(k)
                try:
                    r = f.result()
                except BaseException as e:  # noqa: BLE001
                    r = unfinished(k, f"{type(e).__name__}: {e}")
                reports[k] = r
                for q in r["calls"]:
                    if q in REG:
                        submit("fn", q)
            for h in [h for h in early if h[0].poll() is not None]:
                early.remove(h)
                out = finish_replay(h, 5)
                res += out
                ran |= set(h[2])
                if any(r["bad"] and not matches(known, r["bad"]["qual"], r["bad"]["what"]) for r in out):
                    stop = min(stop, time.time() + 10)      # a failing input: the remaining proofs cannot change the answer
            if time.time() > stop:
                why = "stopped: " + ("a failing input was found" if any(r["bad"] for r in res) else "out of time")
                for k in fut:
                    reports[k] = unfinished(k, why)
                for p in list((ex._processes or {}).values()):
                    p.kill()
                break
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    for h in early:
        res += finish_replay(h, 150 if quick else 600)
        ran |= set(h[2])
    reports = merge(reports)
    quals = sorted([k[1] for k in reports if k[0] == "fn"] + list(P.get("searches", ())))
    failing = sorted({k[1] for k, r in reports.items() if k[0] == "fn"
                      and (any(o["status"] != "discharged" for o in r["obls"]) or r["vacuous"] or not r["obls"])})
    # concrete run of every contract (assertion check), and search where a proof failed
    hints = {r["name"]: r["hints"] for r in reports.values() if r["hints"]}
    found = any(r["bad"] and not matches(known, r["bad"]["qual"], r["bad"]["what"]) for r in res)
    todo = [] if found else [q for q in quals if q not in ran]
    hs = [start_replay(d, c, seed, bud, scale, hints, f"r{i}") for i, c in enumerate(chunks(todo, 7)) if c]
    for h in hs:
        res += finish_replay(h, 150 if quick else 700)
    if found:
        quals = sorted(ran)
    stuck = failing or any(o["status"] != "discharged" for r in reports.values() for o in r["obls"])
    if stuck and not any(r["bad"] and not matches(known, r["bad"]["qual"], r["bad"]["what"]) for r in res):
        stuck = [o for r in reports.values() for o in r["obls"] if o["status"] != "discharged"]
    else:
        stuck = []
    if stuck and not (known and explained(known, reports, res)):
        targets = list(P.get("searches", ())) + failing + [q for q in P["contracts"] if q not in failing]
        for rnd in range(2):
            hs = [start_replay(d, targets, seed * 1000 + 17 * rnd + i, 25.0 / max(1, len(targets)) + 4, 50.0, hints, f"s{rnd}{i}")
                  for i in range(7)]
            more = []
            for h in hs:
                more += finish_replay(h, 90)
            res += [m for m in more if m["bad"]]
            if any(m["bad"] for m in more):
                break
    return report(a, P, seed, evd, reports, res, quals, t0)


def matches(known, name, what):
    """The known finding this failing input is, if any."""
    for f in known:
        m = f.get("match", {})
        if m.get("function") == name and m.get("text", "\0") in what:
            return f
    return None


def explained(known, reports, res):
    """Every undischarged obligation belongs to a known finding whose failing input failed again."""
    again = {r["qual"] for r in res if r["bad"] and matches(known, r["bad"]["qual"], r["bad"]["what"])}
    return all(r["name"] in again for r in reports.values() for o in r["obls"] if o["status"] != "discharged")


def merge(reports):
    """The cases of one function as one report."""
    out = {}
    for k, r in sorted(reports.items(), key=lambda x: (x[0][:2], x[0][2] or 0)):
        o = out.get(k[:2])
        if o is None:
            out[k[:2]] = r
            continue
        o["obls"] += r["obls"]
        o["calls"] = sorted(set(o["calls"]) | set(r["calls"]))
        o["secs"] += r["secs"]
        o["paths"] += r["paths"]
        o["modes"] = sorted(set(o["modes"]) | set(r["modes"]))
        o["vacuous"] += r["vacuous"]
        o["hints"] += r["hints"]
        for s, v in r["stats"].items():
            o["stats"][s] = o["stats"].get(s, 0) + v
    return out


def report(a, P, seed, evd, reports, res, quals, t0):
    pid = a.pid
    obls = [(k, o) for k, r in reports.items() for o in r["obls"]]
    n, ok = len(obls), sum(o["status"] == "discharged" for _, o in obls)
    known = known_findings(pid)
    violations = []

    seen_known = []      # findings whose failing input failed again, as recorded
    bads = [r["bad"] for r in res if r["bad"]]
    for b in bads:
        f = matches(known, b["qual"], b["what"])
        if f:
            seen_known.append(f)
            continue
        violations.append(dict(function=b["qual"], what=b["what"], replay=b, found=True))
    for (kind, name), r in reports.items():
        for o in r["obls"]:
            if o["status"] != "discharged":
                if any(f["match"]["function"] == name for f in seen_known):
                    continue        # the obligation that fails because of the finding
                violations.append(dict(function=name, what=o["name"], obligation=o, found=False))
        if r["vacuous"] or not r["obls"]:
            violations.append(dict(function=name, what="precondition is unsatisfiable or no obligation was generated: "
                                   + ", ".join(r["vacuous"]), obligation=None, found=False))
    for r in res:
        if r.get("error") or (not r["ran"] and not r["bad"]):
            violations.append(dict(function=r["qual"], what="the contract could not be exercised on the real code",
                                   obligation=dict(name="replay", detail=r.get("error", "no sample satisfied the precondition")),
                                   found=False))
    by = {}
    for _, o in obls:
        if o["status"] == "discharged":
            by[o["how"] or "syntactic"] = by.get(o["how"] or "syntactic", 0) + 1
    stats = {}
    for r in reports.values():
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 2)
    trusted = json.load(open(os.path.join(ROOT, "pv", "trusted.json")))
    ev = dict(
        property=pid, tier=a.tier, seed=seed, level="proof",
        coverage=dict(
            obligations=n, discharged=ok,
            checker_cmd=f"python3-vt -m pv.check {pid} --tier {a.tier}",
            trusted_base=trusted["trusted_base"],
            functions_under_contract=[dict(function=k[1], obligations=len(r["obls"]),
                                           discharged=sum(o["status"] == "discharged" for o in r["obls"]), paths=r["paths"],
                                           view=r["modes"], seconds=round(r["secs"], 2))
                                      for k, r in sorted(reports.items()) if k[0] == "fn"],
            lemmas=[dict(lemma=k[1], obligations=len(r["obls"]), discharged=sum(o["status"] == "discharged" for o in r["obls"]),
                         seconds=round(r["secs"], 2)) for k, r in sorted(reports.items()) if k[0] == "lemma"],
            histories=[dict(history=k[1], obligations=len(r["obls"]), discharged=sum(o["status"] == "discharged" for o in r["obls"]),
                            invariant=[o["name"] for o in r["obls"] if "are closed under" in o["name"]], seconds=round(r["secs"], 2))
                       for k, r in sorted(reports.items()) if k[0] == "history"],
            discharged_by=by, solver=stats,
            undischarged=[o["name"] for _, o in obls if o["status"] != "discharged"],
            concrete_runs=sum(r["ran"] for r in res), concrete_distinct=sum(r["distinct"] for r in res),
            bounded_standins=P.get("bounded", []),
        ),
        assumptions=trusted["assumptions"] + P.get("assumptions", []),
        known_findings=[f["id"] for f in seen_known],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    for f in seen_known:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    rc = 0
    if violations:
        rc = 1
        rdir = os.path.join(evd, "replay")
        found = [v for v in violations if v["found"]]
        v = (found or violations)[0]
        h = hashlib.sha1((v["function"] + v["what"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}-{h}.json")
        doc = dict(property=pid, qual=v["function"], what=v["what"],
                   undischarged=[dict(obligation=o["name"], verifier_output=o["detail"]) for _, o in obls
                                 if o["status"] != "discharged"][:20],
                   command=f"python3-vt -m pv.rerun {path}")
        if v["found"]:
            doc.update(args=v["replay"]["args"], got=v["replay"]["got"], expected=v["replay"]["expected"],
                       seed=v["replay"].get("seed", 7), case=v["replay"]["case"])
        else:
            doc["detail"] = (v.get("obligation") or {}).get("detail", "")
        json.dump(doc, open(path, "w"), indent=1, default=str)
        ev["coverage"]["violation_details"] = [dict(function=x["function"], what=x["what"][:300], failing_input=x["found"]) for x in violations[:40]]
        for x in violations[:12]:
            print(f"  {'failing input' if x['found'] else 'not discharged'}: {x['function']}: {x['what'][:300]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if v["found"] else " no-failing-input-found"))
    json.dump(ev, open(os.path.join(evd, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {ok}/{n} obligations discharged over {len(quals)} functions and "
          f"{sum(1 for k in reports if k[0] == 'lemma')} lemmas, {ev['coverage']['concrete_runs']} concrete runs, {ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())

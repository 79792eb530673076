#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE

Decides one property: every contract harness of the property is executed
symbolically over the transformed current sources (obligations discharged by
the ring normaliser and z3), and concretely on the real modules (seeded
samples, and the solver's countermodels).  Exit 0 / 1+VIOLATION, see DESIGN.md.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("CICEROSCM_WORKER_NUMBER", "2")
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")

SOFT = (AttributeError, TypeError, KeyError, NameError, ImportError)


def load(pid):
    m = importlib.import_module("contracts." + pid.lower())
    return m


# ------------------------------------------------------------------ workers
def run_symbolic(pid, hi, seed, tier, slow=1):
    from pyvc import explore, env, core
    core.SLOW = slow
    m = load(pid)
    h = m.REG[hi]
    t0 = time.time()
    budget = h.budget * (4 if tier == "thorough" else 1) * min(slow, 2)
    ex = explore.Explorer(h.fn, lambda c, e: env.SymEnv(c, e, h.stubs() if h.stubs else None),
                          max_paths=h.max_paths, deadline=t0 + budget)
    try:
        ex.run()
    except Exception as e:  # engine trouble: undecided
        ex.undecided.append("engine: " + "".join(traceback.format_exception_only(type(e), e)).strip()
                            + " @ " + str(traceback.extract_tb(e.__traceback__)[-1]))
    return {"harness": h.name, "results": ex.results, "undecided": ex.undecided, "stats": ex.store.stats,
            "functions": ex.store.functions, "covered": getattr(ex, "covered", None), "wall": time.time() - t0}


def one_concrete(h, rng, given=None):
    from pyvc import env
    e = env.ConcEnv(rng, given)
    try:
        import contextlib
        import numpy as np
        with np.errstate(all="ignore"), open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            h.fn(e)
    except env.Reject:
        return "reject", e, None
    except env.AnchorMissing as x:
        return "anchor", e, str(x)
    except Exception as x:  # pylint: disable=broad-except
        tb = traceback.extract_tb(x.__traceback__)
        last = tb[-1]
        inrepo = any("/src/ciceroscm/" in f.filename for f in tb)
        detail = f"{type(x).__name__}: {x} at {last.filename}:{last.lineno}"
        if inrepo and (h.public or not isinstance(x, SOFT)):
            e.failures.append(("no exception is raised", detail))
            return "fail", e, detail
        if h.public and not inrepo and isinstance(x, (TypeError, IndexError, KeyError, ValueError)):
            e.failures.append(("the result has the documented form", detail))
            return "fail", e, detail
        return "anchor", e, detail
    return ("fail" if e.failures else "ok"), e, None


def run_concrete(pid, hi, seed, n, givens, tlimit):
    m = load(pid)
    h = m.REG[hi]
    t0 = time.time()
    out = {"harness": h.name, "tried": 0, "ok": 0, "rejected": 0, "anchor": [], "fail": None, "sample": None, "evals": 0,
           "distinct": 0}
    seen = set()
    import logging
    logging.disable(logging.CRITICAL)
    for i in range(len(givens) + n):
        if time.time() - t0 > tlimit:
            break
        rng = random.Random(f"{seed}:{pid}:{h.name}:{i}")
        given = givens[i] if i < len(givens) else None
        st, e, detail = one_concrete(h, rng, given)
        out["tried"] += 1
        out["evals"] += e.evals
        if st == "ok":
            out["ok"] += 1
            key = json.dumps(e.inputs, default=str, sort_keys=True)
            if key not in seen:
                seen.add(key)
            if out["sample"] is None:
                out["sample"] = e.inputs
        elif st == "reject":
            out["rejected"] += 1
        elif st == "anchor":
            if detail not in out["anchor"]:
                out["anchor"].append(detail)
            if len(out["anchor"]) > 3 or out["tried"] > 5 and not out["ok"]:
                break
        else:
            out["fail"] = {"inputs": e.inputs, "failures": e.failures[:6], "case": i, "from_model": given is not None}
            break
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    return out


def _task(a):
    kind, args = a
    try:
        return kind, args[1], (run_symbolic if kind == "sym" else run_concrete)(*args)
    except BaseException as e:  # pylint: disable=broad-except
        return kind, args[1], {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]}


def guarded(q, a):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    r = _task(a)
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def run_tasks(tasks, limit, jobs=8, end=None):
    """each task in its own process with a wall limit, and all of them by `end`; lost processes are undecided"""
    ctx = mp.get_context("fork")
    pend, live, out = list(tasks), [], []
    while pend or live:
        if end and time.time() > end:
            limit = 0
            out += [(a[0], a[1][1], {"error": "time limit"}) for a in pend]
            pend = []
        while pend and len(live) < jobs:
            a = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=guarded, args=(q, a))
            p.start()
            live.append((p, q, a, time.time()))
        time.sleep(0.02)
        nl = []
        for p, q, a, t in live:
            done = None
            try:
                done = q.get_nowait()
            except Exception:  # pylint: disable=broad-except
                pass
            if done is not None:
                out.append(done)
                if isinstance(done[2], dict) and done[2].get("fail"):
                    limit = min(limit, 60)      # a failing input is known: the proofs still running get a minute
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            if not p.is_alive():
                try:
                    out.append(q.get(timeout=1))
                    if out[-1][2].get("fail"):
                        limit = min(limit, 60)
                except Exception:  # pylint: disable=broad-except
                    out.append((a[0], a[1][1], {"error": f"worker ended (exit {p.exitcode})"}))
                continue
            if time.time() - t > limit:
                p.kill()
                out.append((a[0], a[1][1], {"error": "time limit"}))
                continue
            nl.append((p, q, a, t))
        live = nl
    return out


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid = a.property
    t0 = time.time()
    import numpy, pandas, scipy.linalg  # noqa: F401  (before fork)
    m = load(pid)
    reg = [i for i, h in enumerate(m.REG) if not a.only or h.name in a.only.split(",")]
    quick = a.tier != "thorough"
    tlim = 150 if quick else 1500
    tasks = []
    for i in reg:
        h = m.REG[i]
        if h.symbolic:
            tasks.append(("sym", (pid, i, a.seed, a.tier)))
        if h.concrete:
            tasks.append(("conc", (pid, i, a.seed, h.samples if quick else h.thorough, [], tlim)))
    res = run_tasks(tasks, 300 if quick else 3000, end=t0 + (420 if quick else 6000))
    sym = {i: r for k, i, r in res if k == "sym"}
    conc = {i: r for k, i, r in res if k == "conc"}
    # obligations not proved: once more, alone and with more time, so that a busy machine does not decide
    again = [i for i, r in sym.items() if "error" in r or any(x["status"] != "proved" for x in r.get("results", []))]
    again = [i for i in again if not conc.get(i, {}).get("fail")]
    if again and not any(c.get("fail") for c in conc.values()):
        left = (620 if quick else 7000) - (time.time() - t0)
        for k, i, r in run_tasks([("sym", (pid, i, a.seed, a.tier, 4)) for i in again], max(20, left / ((len(again) + 3) // 4)), jobs=4, end=t0 + (620 if quick else 7000)):
            if "error" not in r:
                sym[i] = r
    tlim = max(15, min(tlim, (760 if quick else 8000) - (time.time() - t0)))
    # countermodels -> replay on the real code
    more = []
    for i, r in sym.items():
        bad = [x for x in r.get("results", []) if x["status"] != "proved"]
        if bad and m.REG[i].concrete and not conc[i].get("fail"):
            # the model itself, then with what it leaves open sampled, then only its shape (lengths, years, cases)
            mods = [x["model"] for x in bad if x["model"]][:12]
            givens = mods + [g["(named points only)"] for g in mods for _ in range(4)] + [g["(shape only)"] for g in mods for _ in range(6)]
            more.append(("conc", (pid, i, a.seed + 1000, (m.REG[i].samples if quick else m.REG[i].thorough) * 4, givens, tlim)))
    extra = {i: r for k, i, r in run_tasks(more, tlim + 20, end=t0 + (800 if quick else 9000))} if more else {}
    return report(pid, a, m, reg, sym, conc, extra, t0)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def report(pid, a, m, reg, sym, conc, extra, t0):
    viol = []
    undecided = []
    obligations = discharged = 0
    backends = {}
    functions = {}
    fun_contract = set()
    unproved = []
    solver_s = 0.0
    evals = distinct = 0
    samples = []
    bounded = []
    vac = []
    for i in reg:
        h = m.REG[i]
        fun_contract.update(h.functions)
        r = sym.get(i)
        fully = False
        if h.symbolic:
            if r is None or "error" in r:
                undecided.append(f"{h.name}: symbolic run gave no result: {(r or {}).get('error', '')[-300:]}")
            else:
                n = len(r["results"])
                ok = sum(x["status"] == "proved" for x in r["results"])
                obligations += n
                discharged += ok
                solver_s += r["stats"]["solver_s"]
                for x in r["results"]:
                    if x["status"] == "proved":
                        backends[x["backend"]] = backends.get(x["backend"], 0) + 1
                    else:
                        unproved.append((i, x))
                for f, c in r["functions"].items():
                    functions[f] = functions.get(f, 0) + c
                for u in sorted(set(r["undecided"])):
                    undecided.append(f"{h.name}: {u}")
                if n == 0:
                    undecided.append(f"{h.name}: no obligation was generated")
                if r["covered"] not in ("sat",):
                    vac.append(f"{h.name}: precondition satisfiability {r['covered']}")
                fully = n > 0 and ok == n and not r["undecided"]
                if a.v:
                    print(f"  [sym] {h.name}: {ok}/{n} paths={r['stats']['paths']} {r['wall']:.1f}s undecided={sorted(set(r['undecided']))[:4]}")
                    for x in r["results"]:
                        if x["status"] != "proved":
                            print("      ", x["name"], x["status"], x["backend"], x["time"], (x["goal"] or "")[:300], x["model"])
        if not fully:
            bounded.append(h.name)
        for src in (conc.get(i), extra.get(i)):
            if src is None:
                continue
            if "error" in src:
                undecided.append(f"{h.name}: concrete run: {src['error'][-400:]}")
                continue
            evals += src["tried"] - src["rejected"]
            distinct += src["distinct"]
            if src["sample"] is not None and len(samples) < 6:
                samples.append({"harness": h.name, "inputs": _short(src["sample"])})
            for d in src["anchor"]:
                undecided.append(f"{h.name}: could not attach: {d}")
            if src["fail"]:
                viol.append((i, src["fail"], None))
            if a.v:
                print(f"  [conc] {h.name}: tried={src['tried']} ok={src['ok']} rej={src['rejected']} evals={src['evals']} {src['wall']:.1f}s fail={str(src['fail'])[:400]} anchor={src['anchor'][:2]}")
    vh = {i for i, _, _ in viol}
    for i, x in unproved:
        if i not in vh and x["status"] in ("refuted", "unknown"):
            viol.append((i, None, x))
            vh.add(i)
    # known findings
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    complete = obligations > 0 and discharged == obligations and not bounded
    assumptions = sorted(set(getattr(m, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS))
    ev = {
        "property": pid, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": a.seed,
        "level": m.LEVEL,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {a.tier}",
            "trusted_base": TRUSTED + getattr(m, "TRUSTED", []),
            "functions_under_contract": sorted(fun_contract),
            "functions_executed_symbolically": functions,
            "obligations_by_backend": backends,
            "solver_seconds": round(solver_s, 2),
            "harnesses": [{"name": m.REG[i].name, "contract": m.REG[i].doc, "mode": "proof" if m.REG[i].symbolic else "bounded"}
                          for i in reg],
            "bounded_stand_ins": bounded,
            "undecided": undecided,
            "preconditions_not_shown_satisfiable": vac,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "concrete runs of the same harnesses on the real modules with seeded inputs inside the preconditions; "
                    "distinct = different input vectors for which every clause was evaluated",
            "samples": samples,
            "all_obligations_discharged": complete,
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for u in undecided:
            print("  undecided:", u)
        print(f"  obligations {discharged}/{obligations}, evaluations {evals}, wall {wall:.1f}s")
    if viol:
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        with_input = [v for v in viol if v[1] is not None]
        for i, f, x in (with_input or viol):
            path = os.path.join(rdir, f"{pid}.{m.REG[i].name}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "harness": m.REG[i].name, "contract": m.REG[i].doc,
                           "functions": m.REG[i].functions, "failing_input": f, "failed_obligation": x,
                           "replay_cmd": f"/opt/venv/bin/python /verif/check.py --replay {path}"}, fh, indent=1, default=str)
            if f is not None:
                for nm, d in f["failures"][:3]:
                    print(f"  {m.REG[i].name}: {nm}: {d}")
                print(f"VIOLATION property={pid} replay={path}")
            else:
                print(f"  {m.REG[i].name}: obligation '{x['name']}' is {x['status']} ({x['backend']})")
                print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if evals == 0 and discharged == 0:
        print("the check could not decide anything: " + "; ".join(undecided[:5]))
        return 2
    print(f"{pid}: held; obligations {discharged}/{obligations} discharged, {evals} concrete evaluations"
          + (f", bounded stand-in for: {', '.join(bounded)}" if bounded else "") + f" ({wall:.0f}s)")
    return 0


def _short(x):
    if isinstance(x, dict):
        return {k: _short(v) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return x[:8]
    return x


def replay(path):
    d = json.load(open(path))
    m = load(d["property"])
    i = [k for k, h in enumerate(m.REG) if h.name == d["harness"]][0]
    if not d.get("failing_input"):
        print("no failing input was found; failed obligation:", json.dumps(d["failed_obligation"], indent=1))
        return 1
    st, e, detail = one_concrete(m.REG[i], random.Random(0), d["failing_input"]["inputs"])
    print(st, e.failures, detail)
    return 1 if st == "fail" else 0


TRUSTED = [
    "pyvc: the AST transformation, symbolic executor and ring normaliser in /verif/pyvc",
    "z3 (python z3-solver)",
    "CPython 3.12 executing the transformed functions",
]
BASE_ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic in the proofs (concrete runs use doubles with tolerance)",
    "numpy/pandas/scipy functions behave as the contracts in pyvc/shim_np.py and pyvc/shim_pd.py state",
    "exp, log, sqrt and powers are uninterpreted with the axiom instances listed in pyvc/funcs.py",
    "postconditions are partial correctness: they hold when the call returns (termination is not proved)",
]

if __name__ == "__main__":
    sys.exit(main())

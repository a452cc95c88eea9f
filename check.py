#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source by contract verification; see DESIGN.md."""
import importlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

from contracts import registry  # noqa: E402
from contracts.base import verify  # noqa: E402


def runtime(prop, secs, seeds, hints=None):
    """directed search on the real code; returns (cases, violation or None, errors, known findings met)"""
    import tempfile
    procs = []
    d = tempfile.mkdtemp(prefix="vrt")
    h = os.path.join(d, "hints.json")
    with open(h, "w") as f:
        json.dump(hints or {}, f)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO,
               PYTHONPATH=os.path.join(REPO, "src"))
    for s in seeds:
        procs.append(subprocess.Popen([VENV, os.path.join(HERE, "runtime", "rt.py"), prop, str(secs), str(s), h],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d))
    n, bad, errs, known = 0, None, [], {}
    for p in procs:
        try:
            o, e = p.communicate(timeout=secs + 90)
            r = json.loads(o.strip().split("\n")[-1])
            n += r["cases"]
            known.update(r.get("known") or {})
            if r.get("errors") or r.get("error"):
                errs.append(str(r.get("errors") or r.get("error"))[:400])
            if r["violation"] and bad is None:
                bad = r["violation"]
        except subprocess.TimeoutExpired:
            p.kill()
            errs.append("runtime check did not end")
        except (ValueError, IndexError):
            errs.append((e or o or "")[-400:])
    subprocess.run(["rm", "-rf", d])
    return n, bad, errs, known


def lean(files):
    """machine-checked lemmas that connect the contracts to the property"""
    out = []
    for f in files:
        t0 = time.time()
        r = subprocess.run(["lean", os.path.join(HERE, "lean", f)], capture_output=True, text=True, timeout=600)
        txt = r.stdout + r.stderr
        axioms = {a.strip() for m in re.findall(r"depends on axioms: \[([^\]]*)\]", txt) for a in m.split(",")}
        ok = r.returncode == 0 and "sorry" not in txt and "error" not in txt and axioms <= {"propext", "Classical.choice", "Quot.sound"}
        out.append({"file": f, "ok": ok, "theorems": re.findall(r"'(\w+)' depends on axioms", txt), "s": round(time.time() - t0, 1), "output": txt[-1500:]})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = registry.PROPS[prop]
    deadline = t0 + (420 if tier == "quick" else 1500)
    budget = 12.0 if tier == "quick" else 40.0

    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(3)
    fl = ex.submit(lean, P.get("lean", ()))
    fr = ex.submit(runtime, prop, 6 if tier == "quick" else 60, [seed] if tier == "quick" else [seed + k for k in range(4)]) if P.get("runtime", True) else None

    results, broken, known = [], [], []
    for t in registry.tasks(prop):
        if time.time() > deadline:
            broken.append((t.title, "deadline"))
            continue
        try:
            r = verify(t, budget=budget, deadline=deadline)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            broken.append((t.title, f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            continue
        results.append(r)
        if r.status in ("unsupported", "timeout"):
            broken.append((t.title, r.why))
        if r.status == "failed" and sum(x.status == "failed" for x in results) >= 3:
            break
    leans = fl.result()
    cases, bad, errs, rknown = fr.result() if fr else (0, None, [], {})
    failed = [r for r in results if r.status == "failed"]
    # known findings are matched by the exact characterisation in known_findings.json
    known = registry.known(prop)
    knownhits = [k for r in results for k in getattr(r.I, "known_hits", [])] + list(rknown)

    listed = {k["key"] for k in known}
    for k in set(knownhits) - listed:  # characterised by a contract but not listed in the file: an ordinary violation
        bad = bad or {"case": None, "message": k}

    hints = {}
    for r in failed:
        for o in r.failed:
            for k, v in (o.model or {}).items():
                if isinstance(v, (int, float)) and k not in hints:
                    hints[k] = float(v)
    searched = 0
    if failed and bad is None and fr:
        n2, bad, e2, _ = runtime(prop, 45, [seed + 100 + k for k in range(8)], hints)
        searched = n2
        errs += e2
    elif broken and bad is None and fr:
        n2, bad, e2, _ = runtime(prop, 45, [seed + 200 + k for k in range(8)], hints)
        searched = n2
        errs += e2

    nob = sum(r.n for r in results)
    ndis = sum(r.n - len(r.failed) - r.skipped for r in results)
    by = {}
    for r in results:
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
    leanbad = [x for x in leans if not x["ok"]]
    nob += len(leans)
    ndis += sum(x["ok"] for x in leans)
    if leans:
        by["lean"] = sum(x["ok"] for x in leans)
    proved = not failed and not broken and not leanbad
    violation = bool(failed) or bad is not None
    under = sorted({r.task.qual for r in results if r.task.qual and r.status == "proved"})
    inl = sorted({q for r in results for q in r.inlined} - set(under))
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": f"python3-vt check.py {prop}",
        "trusted_base": registry.TRUSTED + P.get("trusted", []),
        "functions_under_contract": under,
        "functions_inlined_into_them": inl,
        "obligations_by_back_end": by,
        "solver_seconds": round(sum(r.solver_s for r in results), 1),
        "tasks": [{"function": r.task.title, "status": r.status, "why": r.why, "obligations": r.n, "paths": getattr(r.I, "npaths", None)} for r in results],
        "lemmas": [{k: x[k] for k in ("file", "ok", "theorems", "s")} for x in leans],
        "not_within_reach_this_run": [f"{a}: {b}" for a, b in broken],
        "runtime_contract_cases": cases + searched,
        "explanation": ("every obligation generated from the current source was discharged" if proved else
                        "NOT proved this run: the functions listed under not_within_reach_this_run could not be brought within the verifier's reach; "
                        f"a bounded check of {cases + searched} generated cases on the real code stands in (bounded, not counted as proved)" if not violation else
                        "violation"),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if proved or violation or not (cases + searched) else "exploration", "coverage": cov,
          "assumptions": P.get("assumptions", []) + registry.ASSUME, "wall_s": round(time.time() - t0, 1), "violations": int(violation)}
    if ev["level"] == "exploration":
        cov["evaluations"] = cases + searched
        cov["distinct_nontrivial"] = cases + searched
        cov["rule"] = "seeded random histories of the runtime contract of this property (runtime/*.py)"
        cov["samples"] = [f"seed {seed}"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{prop}: {ndis}/{nob} obligations discharged {by}, {len(under)} functions under contract, {cases + searched} runtime cases, {time.time() - t0:.0f} s")
    for a, b in broken:
        print(f"  not within reach: {a}: {b}")
    for e in errs:
        print(f"  note: {e}")
    for k in known:
        if k["key"] in knownhits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violation:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        rep = {"property": prop,
               "failed_obligations": [{"obligation": o.name, "where": o.where, "verdict": o.verdict, "kind": o.kind, "counterexample": o.model}
                                      for r in failed for o in r.failed][:20],
               "case": bad["case"] if bad else None, "message": bad["message"] if bad else None,
               "replay": f"{VENV} {HERE}/runtime/rt.py --replay {path}" if bad else None}
        with open(path, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        for r in failed:
            for o in r.failed[:6]:
                print(f"  failed obligation: {o.name} [{o.where}] {o.verdict}")
        if bad:
            print(f"  failing input: {bad['message']}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if bad else " no-failing-input-found"))
        return 1
    if leanbad:
        print("lemma file not accepted: " + ", ".join(x["file"] for x in leanbad) + leanbad[0]["output"])
        return 2
    return 0


def watchdog():
    """the proof runs in a process of its own: a solver that ignores its time limit gives no verdict, and a bounded search stands in"""
    import signal
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER", "quick") == "thorough"
    t0 = time.time()
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__)] + sys.argv[1:] + ["--inner"], start_new_session=True)
    try:
        return p.wait(timeout=float(os.environ.get("VERIF_WATCHDOG", 2400 if thorough else 600)))
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cases, bad, errs, rknown = runtime(prop, 45, [seed + 300 + k for k in range(8)])
    known = registry.known(prop)
    for k in set(rknown) - {k["key"] for k in known}:
        bad = bad or {"case": None, "message": k}
    P = registry.PROPS[prop]
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 1),
          "violations": int(bad is not None), "assumptions": P.get("assumptions", []) + registry.ASSUME,
          "coverage": {"evaluations": cases, "distinct_nontrivial": cases, "samples": [f"seed {seed}"],
                       "rule": "seeded random histories of the runtime contract of this property (runtime/*.py)",
                       "explanation": "NOT proved this run: the solver gave no answer within the time limit; a bounded search on the real code stands in"}}
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: not within reach: the solver gave no answer within the time limit; {cases} runtime cases, {time.time() - t0:.0f} s")
    for e in errs:
        print(f"  note: {e}")
    for k in known:
        if k["key"] in rknown:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad is None:
        return 0
    path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "failed_obligations": [], "case": bad["case"], "message": bad["message"],
                   "replay": f"{VENV} {HERE}/runtime/rt.py --replay {path}"}, f, indent=1, default=str)
    print(f"  failing input: {bad['message']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    rc = main() if "--inner" in sys.argv else watchdog()
    sys.stdout.flush()
    os._exit(rc)

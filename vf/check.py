"""usage: check.py PROPERTY [quick|thorough]

Discharges the obligations of the property's contracts, generated from /repo's
current source, and runs the bounded check of the same contracts on the real code.
Exit 0: holds.  Exit 1 and a VIOLATION line: broken."""
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from info import ASSUMPTIONS, BOUNDED_RULE, TRUSTED, LEVELS  # noqa: E402
from tasks import TASKS, task_name  # noqa: E402

PYTHON = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VF_REPO", "/repo")
WORKERS = 8


# ------------------------------------------------------------------ one task, in its own process
def work(task, conn):
    out = {"task": task_name(task), "status": "error", "obligations": [], "functions": {}, "detail": ""}
    start = time.time()
    ctx = None
    try:
        import importlib

        from base import Ctx, Vacuous
        from values import Unsupported

        ctx = Ctx(task_name(task))
        try:
            getattr(importlib.import_module(task[0]), task[1])(ctx, *task[2:])
            out["status"] = "done"
        except Unsupported as error:
            out["status"], out["detail"] = "unsupported", str(error)
        except Vacuous as error:
            out["status"], out["detail"] = "unsupported", "no feasible path: " + str(error)
    except RecursionError:
        out["detail"] = "recursion limit of the verifier"
    except Exception:  # pylint: disable=broad-except
        out["detail"] = traceback.format_exc()[-2500:]
    if ctx is not None:
        out["obligations"] = [(o.name, o.ok, o.detail, round(o.seconds, 3)) for o in ctx.obls]
        out["functions"] = dict(ctx.interp.functions)
        s = ctx.p.stats
        out["queries"], out["solver_s"] = s.queries, s.seconds
        out["loops"] = len(getattr(ctx.interp, "loop_notes", []))
        if out["status"] == "done" and not ctx.obls:
            out["status"], out["detail"] = "unsupported", "the contract produced no obligation"
    out["wall"] = time.time() - start
    try:
        conn.send(out)
    finally:
        conn.close()


def run_tasks(tasks, limit, workers, budget):
    """run every task in a process of its own, at most `workers` at a time"""
    results, waiting, running = [], list(tasks), []
    opened = time.time()
    while waiting or running:
        if time.time() - opened > budget:
            for task in waiting:
                results.append({"task": task_name(task), "status": "timeout", "detail": f"not started in {budget} s", "obligations": [], "functions": {}})
            waiting, limit = [], 0
        while waiting and len(running) < workers:
            task = waiting.pop(0)
            mine, other = multiprocessing.Pipe(False)
            proc = multiprocessing.Process(target=work, args=(task, other))
            proc.start()
            other.close()
            running.append((task, proc, mine, time.time()))
        keep = []
        for task, proc, conn, began in running:
            got = None
            if conn.poll(0.02):
                try:
                    got = conn.recv()
                except EOFError:
                    got = {"task": task_name(task), "status": "error", "detail": "the verifier process ended", "obligations": [], "functions": {}}
            elif not proc.is_alive():
                got = {"task": task_name(task), "status": "error", "detail": "the verifier process ended", "obligations": [], "functions": {}}
            elif time.time() - began > limit:
                proc.kill()
                got = {"task": task_name(task), "status": "timeout", "detail": f"no answer in {limit} s", "obligations": [], "functions": {}}
            if got is None:
                keep.append((task, proc, conn, began))
            else:
                proc.join(5)
                conn.close()
                results.append(got)
        running = keep
    order = {task_name(x): k for k, x in enumerate(tasks)}
    return sorted(results, key=lambda r: order[r["task"]])


# ------------------------------------------------------------------ bounded run on the real code
PATIENCE = 150  # CPU seconds after which a case counts as not answering; ordinary cases take at most 3 s


def start_rt(prop, seconds, seed, out, maxfail=3, patience=0):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", VF_REPO=REPO, VF_PATIENCE=str(patience))
    return subprocess.Popen(
        [PYTHON, os.path.join(VERIF, "rt", "run.py"), prop, str(seconds), str(seed), out, str(maxfail)],
        env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=VERIF,
    )


def finish_rt(proc, out, limit):
    try:
        proc.wait(limit)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
    try:
        with open(out) as handle:
            return json.load(handle)
    except (OSError, ValueError):
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failures": [], "known": {}, "error": None, "died": True}


def rt_failures(rt):
    out = list(rt["failures"])
    err = rt.get("error")
    if err:
        frames = [l for l in err.splitlines() if l.strip().startswith("File ")]
        if any(os.path.join(REPO, "python_dice") in l for l in frames):
            out.append({"case": "the real code raised an unexpected exception", "what": err})
    seconds, where = rt.get("stuck", (0, ""))
    if seconds >= PATIENCE:
        out.append({"case": "the real code does not answer", "what": f"no answer after {seconds:.0f} s in {where}"})
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = lambda k: os.path.join(edir, f".{prop}.{os.getpid()}.{k}.json")
    thorough = tier == "thorough"
    tasks = TASKS.get(prop, [])
    limit = 1500 if thorough else 300
    budget = 7200 if thorough else 450
    rt_secs = 240 if thorough else 20
    count = 4 if thorough else 3
    rts = [(start_rt(prop, rt_secs, seed + 1000 * k, tmp(k)), tmp(k)) for k in range(count)]
    results = run_tasks(tasks, limit, max(1, WORKERS - count), budget)
    rt_runs = [finish_rt(proc, out, rt_secs + 60) for proc, out in rts]
    obls = [o for r in results for o in r["obligations"]]
    failed = [o for o in obls if o[1] is not True]
    undecided = [(r["task"], r["status"], r["detail"]) for r in results if r["status"] != "done"]
    failures = [f for rt in rt_runs for f in rt_failures(rt)]
    searched = 0
    stuck = any(rt.get("stuck", (0, ""))[0] > 15 for rt in rt_runs)
    if (failed or undecided or stuck) and not failures:
        # look harder for a failing input of the real code
        searched = 300 if thorough else 75
        more = [(start_rt(prop, searched, seed + 7000 + 13 * k, tmp(100 + k), 1, PATIENCE), tmp(100 + k)) for k in range(WORKERS)]
        extra = [finish_rt(proc, out, searched + 60 + 2 * PATIENCE) for proc, out in more]
        rt_runs += extra
        failures = [f for rt in extra for f in rt_failures(rt)]
    for name in os.listdir(edir):
        if name.startswith(f".{prop}.{os.getpid()}."):
            os.remove(os.path.join(edir, name))

    known_file = os.path.join(VERIF, "known_findings.json")
    with open(known_file) as handle:
        listed = [f for f in json.load(handle)["findings"] if f["property"] == prop]
        findings = {f["key"]: f for f in listed}
    known = {}
    for rt in rt_runs:
        for key, hit in rt["known"].items():
            entry = known.setdefault(key, {"count": 0, "example": hit["example"]})
            entry["count"] += hit["count"]
    for key, hit in known.items():
        if key not in findings:
            failures.append({"case": key, "what": "not a listed finding: " + hit["example"]})

    violation = bool(failures or failed)
    dead = [rt for rt in rt_runs if rt.get("died") or (rt.get("error") and not rt_failures(rt))]
    replay = os.path.join(edir, f"{prop}.replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    if violation:
        with open(replay, "w") as handle:
            json.dump(
                {
                    "property": prop,
                    "failing_inputs": failures[:20],
                    "how_to_replay": f"VF_REPO=/repo {PYTHON} {VERIF}/rt/run.py {prop} 60 {seed} /tmp/out.json",
                    "failed_obligations": [{"obligation": o[0], "verifier": "refuted" if o[1] is False else "not proved", "output": o[2]} for o in failed[:40]],
                    "searched_seconds_for_an_input": searched,
                },
                handle,
                indent=1,
            )
    functions = {}
    for r in results:
        for name, n in r["functions"].items():
            functions[name] = functions.get(name, 0) + n
    level = LEVELS.get(prop, "proof")
    coverage = {
        "obligations": len(obls),
        "discharged": len(obls) - len(failed),
        "checker_cmd": f"python3-vt {VERIF}/vf/check.py {prop} {tier}",
        "trusted_base": TRUSTED,
        "back_end": "z3 " + z3_version() + " (python3-vt), obligations generated by vf/ from the AST of " + REPO,
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 2),
        "contracts": [
            {"contract": r["task"], "status": r["status"], "obligations": len(r["obligations"]),
             "discharged": sum(1 for o in r["obligations"] if o[1] is True), "seconds": round(r.get("wall", 0), 2),
             **({"why": r["detail"][-400:]} if r["status"] != "done" else {})}
            for r in results
        ],
        "functions_under_contract": sorted(functions),
        "failed_obligations": [o[0] for o in failed],
        "undecided_by_proof": [f"{a}: {b}" for a, b, _ in undecided],
        "evaluations": sum(rt["evaluations"] for rt in rt_runs),
        "distinct_nontrivial": sum(rt["distinct_nontrivial"] for rt in rt_runs),
        "rule": "BOUNDED, not counted as proved: " + BOUNDED_RULE.get(prop, ""),
        "samples": [s for rt in rt_runs for s in rt["samples"]][:12] or ["none"],
        "bounded_runs_that_died": len(dead),
        "known_findings_seen": {k: v["count"] for k, v in known.items()},
        "explanation": "contracts discharged deductively; the bounded run stands in for the parts listed as assumptions",
    }
    evidence = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(prop, []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(failures) + len(failed),
    }
    with open(os.path.join(edir, prop + ".json"), "w") as handle:
        json.dump(evidence, handle, indent=1)

    print(f"{prop}: {len(obls) - len(failed)}/{len(obls)} obligations discharged over {len(functions)} functions, "
          f"{coverage['evaluations']} bounded evaluations, {evidence['wall_s']} s")
    for name, status, detail in undecided:
        print(f"  {name}: {status}: decided by the bounded check only ({detail.strip().splitlines()[-1] if detail.strip() else ''})")
    for key in sorted(findings):
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {findings[key]['what']}")
    if not violation:
        return 0
    for o in failed[:10]:
        print(f"  failed obligation: {o[0]}")
    for f in failures[:5]:
        print(f"  failing input: {f.get('case')}: {str(f.get('what'))[:300]} expected {str(f.get('expected'))[:200]} got {str(f.get('got'))[:200]}")
    print(f"VIOLATION property={prop} replay={replay}" + ("" if failures else " no-failing-input-found"))
    return 1


def z3_version():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    multiprocessing.set_start_method("fork")
    try:
        code = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)

"""usage: prove.py [PROPERTY | module.function] ...   obligations only, no bounded run"""
import sys, time
sys.argv, wanted = sys.argv[:1], sys.argv[1:]
import multiprocessing
from check import TASKS, run_tasks, task_name, WORKERS

if __name__ == "__main__":
    multiprocessing.set_start_method("fork")
    todo = []
    for prop, tasks in TASKS.items():
        for t in tasks:
            if t not in todo and (not wanted or prop in wanted or any(task_name(t).startswith(w) for w in wanted)):
                todo.append(t)
    start = time.time()
    for r in run_tasks(todo, 600, WORKERS, 3600):
        bad = [o for o in r["obligations"] if o[1] is not True]
        flag = "" if r["status"] == "done" and not bad else "  <<<<"
        print(f"{r['task']:50s} {r['status']:12s} {len(r['obligations']) - len(bad)}/{len(r['obligations'])} {r.get('wall', 0):6.1f}s{flag}")
        if r["status"] != "done":
            print("     ", r["detail"][-1500:])
        for o in bad:
            print("      FAILED", o[0], o[1])
    print(f"{len(todo)} tasks {time.time() - start:.1f} s")

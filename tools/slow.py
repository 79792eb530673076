"""list obligations whose proof took long (development aid): slow.py [seconds] [pids]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
sys.setrecursionlimit(20000)
import check
lim = float(sys.argv[1]) if len(sys.argv) > 1 else 1.5
pids = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(check.HERE, "contracts")) if f[0] == "c")
for pid in pids:
    m = check.load(pid)
    tasks = [("sym", (pid, i, 1, "quick")) for i, h in enumerate(m.REG) if h.symbolic]
    for k, i, r in check.run_tasks(tasks, 400):
        if "error" in r:
            print(pid, m.REG[i].name, r["error"][-200:])
            continue
        sl = [x for x in r["results"] if x["time"] > lim or x["status"] != "proved"]
        print(pid, r["harness"], len(r["results"]), f"{r['wall']:.1f}s", "slow:", [(x["name"], x["time"], x["backend"], x["status"]) for x in sl], sorted(set(r["undecided"]))[:2])

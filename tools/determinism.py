"""Run the same seeds in two processes with different hash seeds and compare the logs of all runs.

    python tools/determinism.py [number of seeds per property] [property ...]
"""
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(prop, n):
    sys.path.insert(0, HERE)
    from dst import check

    b = check.backend(prop)
    b.prepare()
    with tempfile.TemporaryDirectory(prefix="dst-det-") as d:
        for i in range(n):
            plan, results, fails = b.run_seed(prop, i, int(os.environ.get("VERIF_SEED", "1")), os.path.join(d, "w"))
            print(plan["seed"], [(r.get("log"), r.get("events"), r.get("sched")) for r in results], len(fails), flush=True)


def run(prop, n, hashseed):
    return subprocess.run([sys.executable, os.path.abspath(__file__), "--child", prop, str(n)], capture_output=True, text=True, cwd=HERE,
                          env=dict(os.environ, PYTHONHASHSEED=hashseed)).stdout.splitlines()


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 50
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 19)]
    bad = 0
    with ThreadPoolExecutor(8) as pool:
        jobs = {(p, h): pool.submit(run, p, n, h) for p in props for h in ("0", "4242")}
        for p in props:
            a, b = jobs[p, "0"].result(), jobs[p, "4242"].result()
            differ = [x for x, y in zip(a, b) if x != y]
            bad += len(differ) + abs(len(a) - len(b)) + (len(a) < n)
            print("%s: %d seeds, %d differ %s" % (p, len(a), len(differ), differ[:1]), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2], int(sys.argv[3]))
    else:
        sys.exit(main())

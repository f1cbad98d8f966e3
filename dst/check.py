"""python -m dst.check ID: decides one property by seeded simulation (VERIF_SEED, VERIF_TIER)."""
import json
import os
import pickle
import select
import shutil
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if os.environ.get("PYTHONHASHSEED") != "0" and __name__ == "__main__":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.check"] + sys.argv[1:])

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

from . import seams  # noqa: E402

now = seams.real_perf

# number of seeds per tier, chosen for about 40 s (quick) and 10 min (thorough) on 8 cores
SEEDS = {
    "quick": dict(default=5000, C01=1200, C18=4000),
    "thorough": dict(default=45000, C01=9000, C18=30000),
}
LIMIT = {"quick": 420.0, "thorough": 3000.0}
MIN_LIMIT = {"quick": 150.0, "thorough": 300.0}

REAL = ["all code of the ries package (unmodified working tree)", "numpy", "scipy (statistics, interpolation, integration, Newton iteration)",
        "CPython text decoding and buffered I/O layers"]
STUBS = ["thread scheduling (baton scheduler at bytecode granularity)", "raw file reads (real bytes, simulated lengths, errors and interruptions)",
         "clock and sleep", "locks (cooperative)", "Newton iteration when a solver failure is injected", "signal delivery (exceptions raised at eligible instructions)",
         "writes, process creation and other system changes (recorded and blocked)"]
ASSUMPTIONS = [
    "callers follow the documented types and ranges; energies are positive",
    "one interpreter with the global lock: switches happen between bytecode instructions of the library, I/O calls and callbacks, not inside numpy or scipy calls",
    "interruptions surface where the interpreter checks for them (after calls, at function entry, at backward jumps)",
    "replacing a file is atomic (rename)",
]


def backend(prop):
    if prop == "C01":
        from . import load as b
    else:
        from . import run as b
    return b


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


class Stats:
    def __init__(self):
        self.runs = self.seeds = self.events = self.switches = self.inner = self.evals = 0
        self.opens = self.reads = 0
        self.sim_time = 0.0
        self.faults, self.ops = {}, {}
        self.sched, self.places = set(), set()
        self.faulty_runs = self.concurrent_runs = 0
        self.samples = []

    def add(self, plan, results):
        self.seeds += 1
        for r in results:
            self.runs += 1
            self.events += r.get("events", 0)
            self.switches += r.get("switches", 0)
            self.inner += r.get("inner", 0)
            self.evals += r.get("evals", 0)
            self.opens += r.get("opens", 0)
            self.reads += r.get("reads", 0)
            self.sim_time += r.get("sim_time", 0.0)
            for k, v in r.get("faults", {}).items():
                self.faults[k] = self.faults.get(k, 0) + v
            for k, v in r.get("ops", {}).items():
                self.ops[k] = self.ops.get(k, 0) + v
            if r.get("sched"):
                self.sched.add(r["sched"])
            self.places |= r.get("places", set())
            if any(k not in ("preemption", "short read", "clock read") for k in r.get("faults", {})):
                self.faulty_runs += 1
            if r.get("inner"):
                self.concurrent_runs += 1
        if len(self.samples) < 1 and results and not results[-1].get("error"):
            self.samples.append(describe(plan, results[-1]))

    def merge(self, o):
        for k, v in vars(o).items():
            if isinstance(v, (int, float)):
                setattr(self, k, getattr(self, k) + v)
            elif isinstance(v, set):
                getattr(self, k).update(v)
            elif isinstance(v, dict):
                d = getattr(self, k)
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                getattr(self, k).extend(v)


def describe(plan, res):
    d = dict(seed=plan["seed"], faults=plan["faults"][:4], preemptions=len(res.get("preempts", ())), log=res.get("log"), events=res.get("events"))
    if plan.get("kind") == "load":
        d["attempts"] = ["%s: %s %s" % (m, o, f) for _, m, o, f in res.get("outcomes", ())][:8]
    else:
        d["clients"] = [[short_op(o) for o in ops] for ops in plan["clients"]]
    return d


def short_op(o):
    s = o["k"]
    for k in ("obj", "file", "shipped", "f", "m", "via", "sym", "t"):
        if isinstance(o.get(k), str):
            s += " " + o[k]
    return s


def worker(prop, ids, base, scratch, wfd, deadline, stop):
    b = backend(prop)
    st = Stats()
    fails = []
    last = now()
    for i in ids:
        if now() > deadline or os.path.exists(stop):
            break
        try:
            plan, results, f = b.run_seed(prop, i, base, scratch)
        except BaseException:
            plan, results, f = {}, [], [dict(kind="harness-error", props=["!"], msg=traceback.format_exc(), client=None, op=None)]
        st.add(plan, results)
        if f:
            fails.append((i, plan, f))
            with open(stop, "w"):
                pass
            break
    data = pickle.dumps((st, fails))
    v = memoryview(data)
    while v:
        v = v[os.write(wfd, v):]


def search(prop, base, nseeds, scratch, deadline, start=0):
    """all seeds, spread over the workers; stops early after a failure"""
    n = workers()
    stop = os.path.join(scratch, "stop")
    procs = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(prop, range(start + k, nseeds, n), base, os.path.join(scratch, "w%d" % k), w, deadline, stop)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    st, fails, lost = Stats(), [], 0
    bufs = {r: [] for _, r in procs}
    openr = set(bufs)
    while openr:
        for r in select.select(list(openr), [], [])[0]:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r].append(b)
            else:
                openr.discard(r)
                os.close(r)
    for pid, r in procs:
        os.waitpid(pid, 0)
        try:
            s, f = pickle.loads(b"".join(bufs[r]))
            st.merge(s)
            fails += f
        except Exception:
            lost += 1
    if os.path.exists(stop):
        os.unlink(stop)
    return st, sorted(fails, key=lambda x: x[0]), lost


# ------------------------------------------------------------------------------------------------
# minimisation


def reproduces(prop, plan, scratch, kind):
    """the failures of the same kind that this plan shows when replayed"""
    b = backend(prop)
    res, f = b.run_plan(prop, plan, True, scratch)
    if any("!" in x["props"] for x in f):
        return []
    f = [x for x in f if x["kind"] == kind]
    if f and prop == "C09" and not caused_by_faults(prop, plan, scratch, kind):
        return []
    return f


def caused_by_faults(prop, plan, scratch, kind):
    """C09 is about interruptions: the same schedule without them must not fail"""
    b = backend(prop)
    if not plan["faults"] and not b.failing_ops(plan):
        return False
    res, f = b.run_plan(prop, b.without_failures(plan), True, scratch)
    return not any(x["kind"] == kind for x in f)


def ddmin(items, test, deadline):
    """smallest sublist (in the sense of delta debugging) for which test holds"""
    n = 2
    if items and now() < deadline and test([]):
        return []
    while len(items) >= 2 and now() < deadline:
        size = max(1, len(items) // n)
        parts = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(parts)):
            rest = [x for j, p in enumerate(parts) if j != i for x in p]
            if now() > deadline:
                return items
            if test(rest):
                items = rest
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(items), 2 * n)
    return items


def minimise(prop, plan, kind, scratch, budget=100.0):
    end = now() + budget
    ok = lambda p: bool(reproduces(prop, p, scratch, kind))
    if plan.get("kind") == "load":
        plan = dict(plan, attempts=ddmin(plan["attempts"], lambda a: ok(dict(plan, attempts=a)), end))
        plan = dict(plan, faults=ddmin(plan["faults"], lambda f: ok(dict(plan, faults=f)), end))
        p = dict(plan, cfg=dict(plan["cfg"], chunk=0))
        return p if ok(p) else plan
    for rnd in range(2):
        # clients keep their numbers, so that faults and preemptions stay addressed
        for c in range(len(plan["clients"])):
            if plan["clients"][c]:
                p = dict(plan, clients=[[] if i == c else o for i, o in enumerate(plan["clients"])])
                if now() < end and ok(p):
                    plan = p
        ops = [(c, o) for c, os_ in enumerate(plan["clients"]) for o in os_]
        build = lambda xs: [[o for d, o in xs if d == c] for c in range(len(plan["clients"]))]
        ops = ddmin(ops, lambda xs: ok(dict(plan, clients=build(xs))), end)
        plan = dict(plan, clients=build(ops))
        ids = {(c, o["id"]) for c, o in ops}
        p = dict(plan, faults=[f for f in plan["faults"] if (f["c"], f["op"]) in ids],
                 preempts=[x for x in plan["preempts"] if (x[0], x[1]) in ids or x[1] == "end"])
        if ok(p):
            plan = p
        plan = dict(plan, faults=ddmin(plan["faults"], lambda f: ok(dict(plan, faults=f)), end))
        plan = dict(plan, preempts=ddmin(plan["preempts"], lambda x: ok(dict(plan, preempts=x)), end))
    setup = ddmin(plan["setup"], lambda s: sums_ok(s) and ok(dict(plan, setup=s)), end)
    plan = dict(plan, setup=setup)
    files = ddmin(plan["files"], lambda s: ok(dict(plan, files=s)), end)
    plan = dict(plan, files=files)
    for k, v in (("chunk", 0), ("warn", "always"), ("clock_off", 0.0), ("clock_frozen", False)):
        if plan["cfg"].get(k) != v and now() < end:
            p = dict(plan, cfg=dict(plan["cfg"], **{k: v}))
            if ok(p):
                plan = p
    return plan


def sums_ok(setup):
    have = set()
    for s in setup:
        if any(t not in have for t in s.get("terms", ())):
            return False
        have.add(s["name"])
    return True


# ------------------------------------------------------------------------------------------------


def replay_file(path):
    """runs a replay file in this process; returns (plan record, failures of the property)"""
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    b = backend(prop)
    b.prepare()
    d = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        first = None
        for plan in [rec["plan"]] + heaps(rec["plan"]):
            res, fails = b.run_plan(prop, plan, True, os.path.join(d, "r"))
            first = first or (res, fails)
            if any(f["kind"] == rec["failure"]["kind"] for f in fails):
                return rec, res, fails
    finally:
        shutil.rmtree(d)
    return (rec,) + first


def heaps(plan):
    """the same plan with other memory layouts: only code that depends on addresses of objects can tell them apart"""
    if plan.get("kind") == "load":
        return []
    return [dict(plan, cfg=dict(plan["cfg"], heap=k)) for k in range(1, 25)]


def write_replay(prop, plan, fail, log):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, plan["seed"].split("/", 1)[1].replace("/", "-")))
    plan = {k: v for k, v in plan.items() if k != "rel"}
    with open(path, "w") as f:
        json.dump(dict(format=1, property=prop, seed=plan["seed"], failure=fail, log=log, plan=plan), f, indent=1)
        f.write("\n")
    return path


def confirm(path):
    """replays in a fresh process: (reproduced, log hash)"""
    p = subprocess.run([sys.executable, "-m", "dst.replay", "--quiet", path], cwd=HERE, capture_output=True, text=True, timeout=400,
                       env=dict(os.environ, PYTHONHASHSEED="0"))
    log = [l.split()[1] for l in p.stdout.splitlines() if l.startswith("log ")]
    return p.returncode == 1, (log or [None])[0]


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                if l.startswith("known: property=%s " % prop):
                    out.append(l.split(" ", 2)[2].strip())
    except FileNotFoundError:
        pass
    return out


def report(prop, fails, scratch, st):
    """minimises, writes the replay file, confirms it; returns the number of violations (0: nothing could be confirmed) or None for an error of the harness"""
    for i, plan, f in fails:
        if any("!" in x["props"] for x in f):
            print("error in the harness at seed %s:\n%s" % (i, f[0]["msg"]), file=sys.stderr)
            return None
    for i, plan, f in fails:
        plan.setdefault("preempts", [])
        first = None
        for p in [plan] + heaps(plan):
            for x in f:
                if first is None and reproduces(prop, p, scratch, x["kind"]):
                    first, plan = x, p
            if first is not None:
                break
        if first is None:
            print("seed %s failed but does not repeat: %s" % (i, f[0]), file=sys.stderr)
            continue
        small = minimise(prop, plan, first["kind"], scratch)
        b = backend(prop)
        res, f2 = b.run_plan(prop, small, True, scratch)
        f2 = [x for x in f2 if x["kind"] == first["kind"]] or [first]
        path = write_replay(prop, small, f2[0], res.get("log"))
        okay, log = confirm(path)
        if not okay:
            path = write_replay(prop, plan, first, None)
            okay, log = confirm(path)
        if not okay:
            print("seed %s: the replay file %s does not reproduce in a fresh process" % (i, path), file=sys.stderr)
            continue
        print("%s: %s" % (prop, f2[0]["msg"]))
        if "attempts" in small:
            print("  attempts: %s" % [a["m"] for a in small["attempts"]])
        else:
            print("  callers: %s" % [[short_op(o) for o in ops] for ops in small["clients"] if ops])
        print("  faults: %s  preemptions: %d" % ([(x["op"], x["at"], x["n"], x["kind"]) for x in small["faults"]], len(small["preempts"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def evidence(prop, tier, seed, st, wall, violations, planned, complete):
    nontrivial = len(st.sched)
    rule = (
        "one case = one simulated run, made from its seed: objects, operations of up to four callers, fault positions and every switch between callers are drawn from the seed; "
        "non-trivial = callers were switched at least once inside or between operations; distinct = different sequence of (caller, operation, function, instruction offset, next caller)"
        if prop != "C01" else
        "one case = one simulated process that loads the library: order of modules, retries and fault positions are drawn from the seed; "
        "distinct = different list of (modules, fault positions and kinds)"
    )
    cov = dict(
        evaluations=st.runs, distinct_nontrivial=nontrivial, rule=rule, samples=st.samples[:3],
        seeds=st.seeds, seeds_planned=planned, all_seeds_run=complete,
        seeds_per_hour=round(st.seeds / wall * 3600), runs_per_hour=round(st.runs / wall * 3600),
        simulated_seconds=round(st.sim_time, 3), instructions_scheduled=st.events,
        oracle_comparisons=st.evals, operations=dict(sorted(st.ops.items())),
        switches_between_callers=st.switches, preemptions_inside_operations=st.inner,
        runs_with_faults=st.faulty_runs, runs_with_preemption=st.concurrent_runs,
        faults_injected=dict(sorted(st.faults.items())),
        distinct_interleavings=nontrivial, distinct_fault_and_switch_places=len(st.places),
        places_measure="(preemption or interrupt, operation, function, bytecode offset)",
        files_opened=st.opens, reads=st.reads, real_components=REAL, simulated_components=STUBS, workers=workers(),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=violations), f, indent=1)
        f.write("\n")


def main(prop):
    t0 = now()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in SEEDS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = int(os.environ.get("DST_SEEDS", 0)) or SEEDS[tier].get(prop, SEEDS[tier]["default"])
    try:
        backend(prop).prepare()
    except Exception:
        traceback.print_exc()
        print("%s: the library could not be loaded" % prop, file=sys.stderr)
        return 2
    scratch = tempfile.mkdtemp(prefix="dst-%s-" % prop)
    try:
        st, fails, lost = search(prop, seed, n, scratch, t0 + LIMIT[tier])
        wall = now() - t0
        rc = 0
        if fails:
            v = report(prop, fails, os.path.join(scratch, "m"), st)
            rc = v or 2
            for _ in range(3):
                # what failed did not repeat: look for a failure that does
                if v != 0 or now() > t0 + 0.4 * LIMIT[tier]:
                    break
                st2, fails, lost = search(prop, seed, n, scratch, t0 + LIMIT[tier], max(x[0] for x in fails) + 1)
                st.merge(st2)
                wall = now() - t0
                if not fails:
                    break
                v = report(prop, fails, os.path.join(scratch, "m"), st)
                rc = v or 2
        if lost:
            print("%d workers died" % lost, file=sys.stderr)
            rc = rc or 2
        evidence(prop, tier, seed, st, wall, 1 if rc == 1 else 0, n, st.seeds >= n)
        if rc == 0 and st.seeds == 0:
            rc = 2
        print("%s %s: %d seeds, %d runs, %d interleavings, %.0f s -> %s" % (prop, tier, st.seeds, st.runs, len(st.sched), now() - t0, {0: "held", 1: "violated", 2: "error"}[rc]))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))

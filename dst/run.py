"""Runs plans: one fork per simulated run, workers, statistics, comparison with fault-free twins."""
import gc
import json
import os
import pickle
import random
import select
import signal
import sys
import threading
import time
import traceback
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from . import kernel, seams  # noqa: E402

real_time = seams.real_perf
RUN_LIMIT = 90.0  # seconds of real time per simulated run
STATE = {}


def prepare():
    """loads the library through the seams (once per worker family)"""
    if STATE:
        return
    sys.dont_write_bytecode = True
    import numpy as np  # noqa
    import scipy.constants, scipy.integrate, scipy.interpolate, scipy.optimize, scipy.special, scipy.stats  # noqa
    import itertools, pathlib, functools, json as _j, re as _r, math as _m, copy as _c, contextlib as _x  # noqa

    seams.install()
    from . import procstate

    pre = procstate.snapshot()
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        filters = repr(warnings.filters)
        from . import world

        lib = world.Lib()
        changed = filters != repr(warnings.filters)
    post = procstate.snapshot()
    STATE["import_diff"] = procstate.diff(pre, post) + (["warning filters changed by loading the library"] if changed else [])
    kernel.arm()
    sys.addaudithook(seams.audit_hook)
    STATE["lib"] = lib
    STATE["world"] = world
    from . import refmodel, gen

    refmodel.golden()
    for t in ("constituents/nist_elements/elements.txt", "constituents/geant4_densities/element_densities.txt"):
        world.ops.shipped_text(t)
    gc.collect()
    gc.freeze()


def recorder(message, category, filename, lineno, file=None, line=None):
    sim, c = kernel.client()
    if c is not None:
        c.warns.append((message, category))


class Block:
    """an object of the size class most library objects have"""

    def __init__(self):
        self.a = self.b = None


def stir_heap(k):
    """leaves holes at places that depend on k, so that objects made later lie in another order"""
    r = random.Random("heap/%d" % k)
    blocks = [Block() if r.random() < 0.7 else [None] * r.randrange(1, 9) for _ in range(r.randrange(300, 900))]
    r.shuffle(blocks)
    return blocks[: len(blocks) // 2]


def execute(plan, replay, scratch, want):
    """runs a plan in this process (a fresh fork) and returns a result dict"""
    import numpy as np

    from . import procstate

    world = STATE["world"]
    cfg = plan["cfg"]
    random.seed(cfg.get("rng", 0))
    np.random.seed(cfg.get("rng", 0) % (1 << 31))
    warnings.showwarning = recorder
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.simplefilter("ignore", ResourceWarning)
    if cfg.get("warn") == "error":
        warnings.simplefilter("error", UserWarning)
    os.makedirs(scratch, exist_ok=True)
    seams.FS.roots.append(scratch + os.sep)
    holes = stir_heap(cfg["heap"]) if cfg.get("heap") else None  # noqa: F841
    sim = kernel.Sim(plan, replay=replay)
    w = world.World(sim, plan, STATE["lib"], scratch)
    try:
        w.setup()
    except Exception:
        # the library refuses to build valid objects: nothing can be relied on
        return dict(failures=[dict(kind="setup", props=["*"], client=None, op=None, msg="building the objects of the run: " + traceback.format_exc()[-600:])])
    s0 = procstate.snapshot()
    a0 = procstate.module_attrs()
    fd0 = procstate.open_fds()
    for m in STATE["import_diff"]:
        sim.fail("process-state", ["C14"], "loading the library: " + m)
    sim.run([w.body(ops) for ops in plan["clients"]])
    if not sim.aborted:
        for c in sim.clients:
            c.thread.join(5)
        others = [t for t in threading.enumerate() if t.name not in s0["threads"]]
        for t in others:
            t.join(1.0)  # a thread that is about to end does not count
        s1 = procstate.snapshot()
        for m in procstate.diff(s0, s1) + procstate.attrs_diff(a0, procstate.module_attrs()):
            sim.fail("process-state", ["C14"], m)
        fd1 = procstate.open_fds()
        left = [v for k, v in fd1.items() if fd0.get(k) != v and not v.startswith(("pipe:", "socket:", "anon_inode", "/proc/"))]
        if left:
            sim.fail("file-left-open", ["C11", "C09"] if plan["faults"] else ["C11"], "open at the end of the run: %s" % sorted(os.path.basename(x) for x in left))
        rng = random.Random("audit/" + plan["seed"])
        objects = ["C05"] if plan["prop"] not in ("C04",) else ["C04"]
        final(sim, objects, w.audit_hist)
        final(sim, objects, lambda: w.audit_objects(objects, rng))
        final(sim, ["C03"], lambda: w.audit_db(full=plan["prop"] == "C03", rng=rng))
        final(sim, ["C16"], lambda: [world.ops.check_nuc(w, None, n) for n in sorted(w.nuc)])
        if want.get("outs"):
            w.outs["audit"] = audit_values(w)
    res = dict(
        failures=sim.failures, evals=w.evals, lens=w.lens, ops=w.ops_done, events=sim.events, switches=sim.switches, inner=sim.inner_switches,
        sched=sim.sched_hash.hexdigest() if sim.switches else None, places=sim.places, faults=sim.fault_counts, log=sim.log.hexdigest(),
        sim_time=sim.sim_time, preempts=sim.decisions, opens=seams.FS.opens, reads=seams.FS.reads, hist=len(w.hist),
    )
    if want.get("outs"):
        res["outs"] = w.outs
    return res


def final(sim, props, fn):
    """a check at the end of a run; an object that can no longer be looked at is a failure, not an error of the harness"""
    try:
        fn()
    except Exception:
        sim.fail("malformed-result", props, "looking at the objects at the end of the run: " + traceback.format_exc()[-600:])


def audit_values(w):
    """values of all live objects and samples of the database, for comparison with the twin"""
    import numpy as np

    world = STATE["world"]
    out = {}
    for name in sorted(w.objs):
        obj, ref = w.objs[name]
        E = np.array(world.probe_energies(ref, random.Random("twin/" + name), 3))
        try:
            out[name] = world.canon(np.asarray(obj(E), float))
        except Exception as e:
            out[name] = ("exc", type(e).__name__)
    try:
        out["#db"] = tuple(world.check_db(w.lib, full=False, rng=random.Random("twin/db")))
    except Exception as e:
        out["#db"] = ("exc", type(e).__name__)
    return out


def fork_run(plan, replay, scratch, want, limit=RUN_LIMIT):
    """runs a plan in a forked child; never raises"""
    try:
        return in_fork(lambda: execute(plan, replay, scratch, want), limit)
    finally:
        clean_dir(scratch)


def in_fork(fn, limit=RUN_LIMIT):
    """fn() in a forked child; a run that hangs or dies gives a failure record"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            res = fn()
        except BaseException:
            res = dict(error=traceback.format_exc())
        try:
            data = pickle.dumps(res)
        except BaseException:
            data = pickle.dumps(dict(error=traceback.format_exc()))
        try:
            v = memoryview(data)
            while v:
                n = os.write(wfd, v)
                v = v[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    end = real_time() + limit
    hung = False
    while True:
        left = end - real_time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        return dict(hung=True, failures=[dict(kind="no-progress", props=["*"], msg="the run did not end within %d s" % limit, client=None, op=None)])
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return dict(crash=True, failures=[dict(kind="crash", props=["*"], msg="the process died with status %s" % status, client=None, op=None)])


def clean_dir(d):
    try:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    except FileNotFoundError:
        pass


# ------------------------------------------------------------------------------------------------
# one seed


def sequential(plan):
    """the same operations, one caller after the other, without faults"""
    p = dict(plan, faults=[], cfg=dict(plan["cfg"], gap=0, op_switch=0, burst=0, chunk=0, first=0))
    return p


def without_failures(plan):
    """the plan without any fault: neither injected ones nor failing caller-supplied code"""

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ("raise_at", "exc")}
        return x

    return dict(plan, faults=[], clients=[[strip(o) for o in ops] for ops in plan["clients"]])


def failing_ops(plan):
    """operations whose caller-supplied code raises"""
    return {o["id"] for ops in plan["clients"] for o in ops if any(isinstance(v, dict) and "raise_at" in v for v in o.values())}


def place_faults(plan, lens):
    fs = []
    for f in plan["rel"]:
        n = lens.get(f["op"])
        if n is None:
            continue
        k = {"instr": n[0], "io": n[1], "solver": n[2]}[f["at"]]
        if k < 1:
            continue
        pos = f.get("n", int(f["u"] * k))
        if f["at"] == "instr":
            pos += 1
        fs.append(dict(c=f["c"], op=f["op"], n=pos, at=f["at"], kind=f["kind"]))
    return dict(plan, faults=fs)


def strip_extra(res, props):
    return [f for f in res.get("failures", ()) if set(f["props"]) & props]


def run_plan(prop, plan, replay, scratch, twin=None):
    """main run plus comparison with its twin, if the property is decided by one; returns (result, failures)"""
    need = prop in ("C09", "C14", "C18")
    res = fork_run(plan, replay, scratch, dict(outs=need))
    if "error" in res:
        return res, [dict(kind="harness-error", props=["!"], msg=res["error"], client=None, op=None)]
    fails = [f for f in res["failures"] if prop in f["props"] or "*" in f["props"] or "!" in f["props"]]
    if need and not res.get("hung") and not res.get("crash") and "outs" in res:
        if prop == "C09":
            if twin is None:
                twin = fork_run(sequential(without_failures(plan)), False, scratch, dict(outs=True))
            fails += compare_c09(res, twin, plan)
        elif prop == "C18":
            for op in targets(plan, res["outs"]):
                alone = fork_run(solo(plan, op), False, scratch, dict(outs=True))
                fails += compare_c18(res, alone, op)
                k = "operation repeated alone in a fresh process"
                res["faults"][k] = res["faults"].get(k, 0) + 1
        else:
            cfg = dict(plan["cfg"], clock_off=plan["cfg"]["clock_off"] + 12345.678, clock_frozen=not plan["cfg"]["clock_frozen"], rng=plan["cfg"]["rng"] ^ 0x5555)
            p2 = dict(plan, cfg=cfg, preempts=res["preempts"])
            other = fork_run(p2, True, scratch, dict(outs=True))
            fails += compare_c14(res, other)
    return res, fails


def compare_c09(res, twin, plan):
    from .world import canon_equal

    out = []
    if "outs" not in twin:
        return out
    a, b = res["outs"], twin["outs"]
    skip = failing_ops(plan)
    for op in a:
        if op == "audit" or op not in b or not b[op] or op in skip:
            continue
        for cls, v, w, fired in a[op]:
            if cls == "injected":
                continue
            if cls == "wrapped":
                if any(f in kernel.INTERRUPTS for f in fired):
                    out.append(dict(kind="changed-exception", props=["C09"], msg="%s: the interruption reached the caller as %s" % (op, v[1]), client=None, op=op))
                continue
            if any(f.startswith("solver") for f in fired):
                continue
            ref = b[op][0]
            if (cls, w) != (ref[0], ref[2]) or not canon_equal(v, ref[1]):
                out.append(dict(kind="differs-from-uninterrupted-run", props=["C09"], op=op, client=None,
                                msg="%s: outcome %s %s %s, without interruptions %s %s %s" % (op, cls, brief(v), w, ref[0], brief(ref[1]), ref[2])))
    x, y = a.get("audit"), b.get("audit")
    if x is not None and y is not None:
        for k in x:
            if k in y and not canon_equal(x[k], y[k]):
                out.append(dict(kind="trace-left", props=["C09"], op=None, client=None,
                                msg="object %s evaluates to %s, without interruptions to %s" % (k, brief(x[k]), brief(y[k]))))
    return out


def writes(o):
    """names of the objects an operation makes or changes"""
    return {o[k] for k in ("out",) if k in o} | ({o["obj"]} if o["k"] == "mutate_sum" else set()) | ({o["iso"]} if o["k"] == "extend_iso" else set())


def solo(plan, opid):
    """the plan reduced to one operation and those that make the objects it uses: undisturbed, in a fresh process"""
    clients = []
    for ops in plan["clients"]:
        i = [k for k, o in enumerate(ops) if o["id"] == opid]
        keep = []
        if i:
            need = set(ops[i[0]].get("dep", ())) | writes(ops[i[0]])
            # names are resolved backwards; an object that is changed needs what it was changed with
            for o in reversed(ops[: i[0]]):
                if writes(o) & need:
                    need |= set(o.get("dep", ()))
                    keep.insert(0, o)
            keep.append(ops[i[0]])
        clients.append([{k: v for k, v in o.items() if k != "retry"} for o in keep])
    p = sequential(dict(plan, clients=clients, preempts=[], rel=[]))
    return dict(p, cfg=dict(p["cfg"], heap=p["cfg"].get("heap", 0) + 1))


def targets(plan, outs, n=3):
    """operations of a run that are repeated on their own"""
    multi = {f["name"] for f in plan["files"] if len(f["versions"]) > 1}
    ids = [
        o["id"] for ops in plan["clients"] for o in ops
        if o["k"] not in ("replace", "tick", "db_probe") and o.get("file") not in multi and any(not x[3] and x[0] in ("ok", "allowed") for x in outs.get(o["id"], ()))
    ]
    r = random.Random("alone/" + plan["seed"])
    return sorted(r.sample(ids, min(n, len(ids))))


def compare_c18(res, alone, op):
    from .world import canon_equal

    if op not in alone.get("outs", ()):
        return []
    ref = alone["outs"][op][0]
    out = []
    for cls, v, w, fired in res["outs"][op]:
        if fired or cls not in ("ok", "allowed"):
            continue
        if (cls, w) != (ref[0], ref[2]) or not canon_equal(v, ref[1], 0.0):
            out.append(dict(kind="not-reproducible", props=["C18"], op=op, client=None,
                            msg="%s: outcome %s %s %s, alone in a fresh process %s %s %s" % (op, cls, brief(v), w, ref[0], brief(ref[1]), ref[2])))
    return out


def brief(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


def compare_c14(res, other):
    from .world import canon_equal

    out = []
    if "outs" not in other:
        return out
    for op in res["outs"]:
        x, y = res["outs"][op], other["outs"].get(op)
        if op == "audit":
            bad = [k for k in x if y is not None and k in y and not canon_equal(x[k], y[k])]
            for k in bad:
                out.append(dict(kind="clock-or-random", props=["C14"], op=None, client=None, msg="object %s depends on the clock or the random generators" % k))
        elif y is None or len(x) != len(y) or not all(
            p[0] == q[0] and p[2] == q[2] and canon_equal(p[1], q[1]) for p, q in zip(x, y)
        ):
            out.append(dict(kind="clock-or-random", props=["C14"], op=op, client=None,
                            msg="%s: outcome depends on the clock or the random generators: %s, %s" % (op, brief(x), brief(y))))
    return out


def run_seed(prop, i, base, scratch):
    """returns (plan ready for replay, list of results, failures)"""
    from . import gen

    plan = gen.generate(prop, "%d/%d" % (base, i))
    results = []
    pre = None
    if plan["rel"] or prop == "C09":
        pre = fork_run(sequential(without_failures(plan) if prop == "C09" else plan), False, scratch, dict(outs=prop == "C09"))
        if "error" in pre:
            return plan, [pre], [dict(kind="harness-error", props=["!"], msg=pre["error"], client=None, op=None)]
        pre.setdefault("lens", {})
        results.append(pre)
        f = [x for x in pre["failures"] if prop in x["props"] or set(x["props"]) & {"*", "!"}]
        if f:
            p = dict(sequential(plan), preempts=pre.get("preempts", []))
            return p, results, f
        plan = place_faults(plan, pre["lens"])
    if prop == "C09" and not plan["faults"] and not failing_ops(plan):
        return plan, results, []
    res, fails = run_plan(prop, plan, False, scratch, twin=pre)
    results.append(res)
    plan = dict(plan, preempts=res.get("preempts", []))
    if prop == "C09" and fails and not any("!" in f["props"] for f in fails):
        # the property is about interruptions: what the same schedule shows without them does not count
        bare, f2 = run_plan(prop, without_failures(plan), True, scratch, twin=pre)
        results.append(bare)
        seen = {f["kind"] for f in f2}
        fails = [f for f in fails if f["kind"] not in seen]
    return plan, results, fails

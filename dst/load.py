"""Loading the library under faults (C01).

One caller imports parts of the library, in some order, while opens and reads fail or are short and interrupts and
failed allocations hit any instruction of the load; failed attempts are repeated.  An attempt is "import the module and read the
public tables it provides", so that a library that loads its data on first use is treated in the same way.
"""
import importlib
import os
import random
import sys
import threading
import types
import warnings

from . import kernel, seams

STATE = {}
PARTS = {"elements": "ries.constituents.element", "xrmac": "ries.nonresonant.xrmac", "debye": "ries.resonance.debye_model"}


def prepare():
    """everything but the library itself"""
    if STATE:
        return
    sys.dont_write_bytecode = True
    import numpy, scipy.constants, scipy.integrate, scipy.interpolate, scipy.optimize, scipy.special, scipy.stats  # noqa
    import itertools, pathlib, functools, json, re, math, copy, contextlib, csv  # noqa

    seams.install()
    from . import refmodel, world

    refmodel.golden()
    for s in refmodel.golden()["xrmac"]:
        refmodel.golden_table(s, False)
    sys.addaudithook(seams.audit_hook)
    STATE["world"] = world
    STATE["modules"] = modules()
    kernel.MAX_EVENTS_PER_OP = 200_000_000
    from . import run

    STATE["cal"] = {}
    for m in (PARTS["elements"], PARTS["xrmac"]):
        cal = run.in_fork(lambda: calibrate(m), 300)
        if "events" in cal:  # else the load fails by itself, which the runs will show
            STATE["cal"][m] = cal


def modules():
    out = []
    for d, dirs, files in sorted(os.walk(seams.LIB)):
        dirs.sort()
        rel = os.path.relpath(d, seams.ROOT).replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py"):
                out.append(rel if f == "__init__.py" else rel + "." + f[:-3])
    return out


def new_sim(plan):
    sim = kernel.Sim(plan, replay=True)
    c = kernel.Client(0)
    c.ident = threading.get_ident()
    sim.clients = [c]
    sim.current = c
    return sim, c


def attempt(m):
    importlib.import_module(m)
    if m == PARTS["elements"] or (m == PARTS["xrmac"] and PARTS["elements"] in sys.modules):
        e = sys.modules[PARTS["elements"]]
        for s, x in list(e.natural_elements.items()):
            x.density, list(x.isotopes), list(x.abundances.items())
        list(e.X.items())
    if m == PARTS["xrmac"]:
        x = sys.modules[m]
        for d in (x.xrmac_cm2_per_g, x.xrmac_fm2_per_atom):
            for s, t in list(d.items()):
                t.data.shape


def calibrate(m):
    """one load without faults: number of events, positions per function, I/O calls per file"""
    where, count, codes, io = {}, {}, {}, []
    rng = random.Random("calibrate/" + m)
    plan = dict(seed="calibrate", cfg={}, clients=[[]], faults=[])
    sim, c = new_sim(plan)
    n = [0]

    def on(code, offset):
        if c.block:
            return
        n[0] += 1
        i = id(code)
        k = count.get(i, 0) + 1
        count[i] = k
        if k <= 60:
            codes[i] = code
            where.setdefault(i, []).append(n[0])
        elif k % 64 == 0 and rng.random() < 64 * 60 / k:
            where[i][rng.randrange(60)] = n[0]

    real = seams.SimFS._io_fault

    def fault(self, s, cl, what):
        io.append((what, n[0]))
        return real(self, s, cl, what)

    seams.SimFS._io_fault = fault
    seams.Loader.live = seams.Loader.arm_on_load = True
    kernel.arm([])
    mon = sys.monitoring
    mon.register_callback(kernel.TOOL, mon.events.INSTRUCTION, on)
    kernel.ACTIVE = sim
    sim.begin_op(c, "a0")
    c.block = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        attempt(m)
    c.block = 1
    kernel.ACTIVE = None
    opens = [i for i, (w, _) in enumerate(io) if w == "open"]
    strata = [v for k, v in sorted(where.items(), key=lambda x: (codes[x[0]].co_filename, codes[x[0]].co_firstlineno, codes[x[0]].co_name))]
    return dict(events=n[0], io=len(io), opens=opens, strata=strata)


def generate(prop, seed):
    r = random.Random("load/%s" % seed)
    mods = STATE["modules"]
    attempts, faults = [], []
    order = r.choice(["deep", "deep", "mixed", "mixed", "all"])
    if order == "deep":
        seq = [r.choice([PARTS["elements"], PARTS["xrmac"], PARTS["xrmac"]])]
    elif order == "mixed":
        seq = r.sample(mods, r.randrange(1, 5)) + [r.choice(list(PARTS.values()))]
        r.shuffle(seq)
    else:
        seq = r.sample(mods, len(mods))
    first = True
    for m in seq:
        cal = STATE["cal"].get(m)
        big = cal is not None
        tries = r.randrange(1, 4) if big else r.choice([1, 1, 2])
        for t in range(tries):
            aid = "a%d" % len(attempts)
            attempts.append(dict(id=aid, m=m))
            p = r.random()
            if p < 0.12:
                continue
            for _ in range(r.choice([1, 1, 2])):
                if p < 0.7 and big:
                    kind = r.choice(["errno:EIO", "errno:EIO", "errno:ENOENT", "errno:EACCES", "errno:EMFILE", "errno:ENOMEM", "errno:ESTALE", "errno:EPERM", "errno:ETIMEDOUT",
                                     "errno:EISDIR", "EINTR", "KeyboardInterrupt", "MemoryError"])
                    u = r.random()
                    n = r.choice(cal["opens"]) if cal["opens"] and u < 0.5 else (r.randrange(max(1, cal["io"])) if u < 0.8 else max(0, cal["io"] - 1 - r.randrange(500)))
                    faults.append(dict(c=0, op=aid, at="io", n=n, kind=kind))
                else:
                    kind = r.choice(["KeyboardInterrupt", "MemoryError"])
                    if big and cal["strata"]:
                        n = r.choice(r.choice(cal["strata"])) if r.random() < 0.7 else r.randrange(1, cal["events"] + 1)
                    else:
                        n = r.randrange(1, 400)
                    faults.append(dict(c=0, op=aid, at="instr", n=n, kind=kind))
    cfg = dict(chunk=r.choice([0, 0, 0, 2000, 300]), gap=0, clock_off=r.choice([0.0, -1e9, 1e8]))
    return dict(prop="C01", kind="load", seed="C01/%s" % seed, cfg=cfg, attempts=attempts, faults=faults, clients=[[]])


def loaded_ok(what=None):
    """compares what is loaded with the frozen published data"""
    w = STATE["world"]
    parts = [p for p, m in PARTS.items() if m in sys.modules]
    L = types.SimpleNamespace(element=sys.modules.get(PARTS["elements"]), xr=sys.modules.get(PARTS["xrmac"]), de=sys.modules.get(PARTS["debye"]))
    return w.check_db(L, full=True, what=parts), len(parts)


def execute(plan):
    """in a fresh fork"""
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    sim, c = new_sim(plan)
    instr = {f["op"] for f in plan["faults"] if f["at"] == "instr"}
    done, evals, outcomes = {}, 0, []
    seams.Loader.live = True
    for a in plan["attempts"] + [dict(id="final%d" % i, m=m) for i, m in enumerate(PARTS.values())]:
        c.where = a["m"]
        sim.begin_op(c, a["id"])
        if a["id"] in instr:
            seams.Loader.arm_on_load = True
            kernel.arm(module_level=True)
        else:
            seams.Loader.arm_on_load = False
            if kernel._tool_ready:
                kernel.disarm()
        kernel.ACTIVE = sim
        exc = None
        c.block = 0
        try:
            attempt(a["m"])
        except kernel.SimAbort:
            break
        except BaseException as e:
            exc = e
        c.block = 1
        kernel.ACTIVE = None
        sim.end_op(c)
        done[a["m"].split(".")[-1]] = done.get(a["m"].split(".")[-1], 0) + 1
        fired = list(c.fired)
        outcomes.append((a["id"], a["m"], type(exc).__name__ if exc else "ok", fired))
        sim.note("attempt", *map(str, outcomes[-1]))
        if exc is not None and not fired:
            sim.fail("load-failed", ["C01"], "%s: loading %s failed without a fault: %s: %s" % (a["id"], a["m"], type(exc).__name__, str(exc)[:300]), c)
        exc = None
        bad, k = loaded_ok()
        evals += k
        for m in bad[:3]:
            sim.fail("incomplete-database", ["C01"], "after %s (%s, outcome %s, faults %s): %s" % (a["id"], a["m"], outcomes[-1][2], fired, m), c)
        if bad:
            break
    places = {("fault", m, o, tuple(f)) for _, m, o, f in outcomes if f}
    return dict(
        failures=sim.failures, evals=evals, lens={}, ops=done, events=sim.events, switches=0, inner=0, places=places | sim.places,
        sched=repr([(f["op"], f["at"], f["n"], f["kind"]) for f in plan["faults"]] + [a["m"] for a in plan["attempts"]]),
        faults=sim.fault_counts, log=sim.log.hexdigest(), sim_time=sim.sim_time, preempts=[], opens=seams.FS.opens, reads=seams.FS.reads, hist=0,
        outcomes=outcomes,
    )


def run_plan(prop, plan, replay, scratch, twin=None):
    from . import run

    res = run.in_fork(lambda: execute(plan), 120)
    if "error" in res:
        return res, [dict(kind="harness-error", props=["!"], msg=res["error"], client=None, op=None)]
    return res, res["failures"]


def run_seed(prop, i, base, scratch):
    plan = generate(prop, "%d/%d" % (base, i))
    res, fails = run_plan(prop, plan, False, scratch)
    return plan, [res], fails

"""Deterministic simulation kernel.

Clients are real threads, but exactly one of them runs at any time: the others are parked on their
own semaphore and only the kernel hands the baton over.  Scheduling points are the bytecode
instructions of the library under test (sys.monitoring INSTRUCTION events on its code objects only),
simulated I/O calls, caller-supplied callbacks, and operation boundaries.  Every decision (preemption,
interrupt, I/O fault, solver fault) is either drawn from a PRNG derived from the run's seed (search)
or read from a recorded list (replay).  Decisions are addressed by (client, operation id, event number
within the operation), so operations, faults and preemptions can be removed independently when a
failing run is minimised.
"""
import dis
import hashlib
import os
import random
import sys
import threading
from threading import get_ident

_real_lock = threading.Lock
_real_rlock = threading.RLock
_RealThread = threading.Thread

TOOL = 3
BIG = 1 << 60
MAX_EVENTS_PER_OP = 6_000_000


class Baton:
    """binary semaphore made of one interpreter lock (independent of the patched threading module)"""

    def __init__(self):
        self._l = _real_lock()
        self._l.acquire()
        self.acquire = self._l.acquire

    def release(self):
        try:
            self._l.release()
        except RuntimeError:  # already released
            pass


class SimAbort(BaseException):
    """unwinds a client after the simulation was stopped"""


class InjectedInterrupt(KeyboardInterrupt):
    injected = True


class InjectedMemoryError(MemoryError):
    injected = True


INTERRUPTS = {"KeyboardInterrupt": InjectedInterrupt, "MemoryError": InjectedMemoryError}

# ------------------------------------------------------------------------------------------------
# code objects of the library

CODES = []  # all code objects of library modules, in load order
_eligible = {}  # code -> frozenset of offsets where an asynchronous exception may surface
ACTIVE = None  # the running Sim


def register_code(code):
    CODES.append(code)
    for const in code.co_consts:
        if hasattr(const, "co_code"):
            register_code(const)


def eligible_offsets(code):
    """Offsets of instructions at which CPython could deliver an asynchronous exception: right after
    a call, at function entry and at backward jumps, and only where the delivering instruction has
    the same exception handler (so that a with-block that is already being left is not hit at a point
    where the interpreter itself cannot be interrupted)."""
    r = _eligible.get(code)
    if r is None:
        tab = dis._parse_exception_table(code)

        def handler(off):
            # the innermost range listed that contains the offset
            h = None
            for e in tab:
                if e.start <= off < e.end:
                    h = (e.target, e.depth)
            return h

        ins = list(dis.get_instructions(code, adaptive=False))
        s = set()
        for a, b in zip(ins, ins[1:]):
            if a.opname in ("CALL", "CALL_FUNCTION_EX", "RESUME") and handler(a.offset) == handler(b.offset):
                s.add(b.offset)
        for a in ins:
            # the interpreter checks after the jump, so its target's handler must apply here as well
            if a.opname == "JUMP_BACKWARD" and handler(a.offset) == handler(a.argval):
                s.add(a.offset)
        r = _eligible[code] = frozenset(s)
    return r


def _on_instruction(code, offset):
    sim = ACTIVE
    if sim is None:
        return
    c = sim.current
    if c is None or c.block or c.ident != get_ident():
        return
    c.n += 1
    if c.n >= c.next_n:
        sim.fire(c, code, offset)


_tool_ready = False


def arm(codes=None, module_level=False):
    global _tool_ready
    m = sys.monitoring
    if not _tool_ready:
        m.use_tool_id(TOOL, "dst")
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instruction)
        _tool_ready = True
    for code in CODES if codes is None else codes:
        if module_level or code.co_name != "<module>":
            m.set_local_events(TOOL, code, m.events.INSTRUCTION)


def disarm():
    for code in CODES:
        sys.monitoring.set_local_events(TOOL, code, 0)


# ------------------------------------------------------------------------------------------------


class Client:
    def __init__(self, idx):
        self.idx = idx
        self.sem = Baton()
        self.ident = None
        self.block = 1  # >0: no scheduling or fault points (harness code is running)
        self.n = 0
        self.next_n = BIG
        self.op = None
        self.done = False
        self.waiting = None
        self.faults = []  # pending [n, kind] of the current operation
        self.pre = None
        self.io_n = 0
        self.solver_n = 0
        self.fired = []  # faults fired in the current operation
        self.exc_fired = []
        self.warns = []
        self.held = []
        self.rng = None
        self.where = None
        self.in_read = False  # preempted inside a read of an open file


class Sim:
    """plan: dict with seed, cfg{gap, ...}, clients[[op...]...], faults[], and, for replay, preempts[]"""

    def __init__(self, plan, replay=False):
        self.plan = plan
        self.cfg = plan["cfg"]
        self.replay = replay
        self.gap = self.cfg.get("gap", 0)
        self.burst = self.cfg.get("burst", 0)
        self.seam_switch = self.cfg.get("seam_switch", 0)  # probability of a switch at an I/O call or callback
        self.clients = []
        self.current = None
        self.main = Baton()
        self.aborted = False
        self.decisions = []  # recorded preemptions [client, op, n, target]
        self.switches = 0
        self.inner_switches = 0
        self.events = 0
        self.sched_hash = hashlib.blake2b(digest_size=8)
        self.places = set()
        self.fault_counts = {}
        self.log = hashlib.blake2b(digest_size=16)
        self.failures = []
        self.sim_time = 0.0  # simulated seconds
        self.time_scale = 1e-6
        self.lock_seq = 0
        self.faults = {}
        for f in plan.get("faults", ()):
            self.faults.setdefault((f["c"], f["op"]), []).append(f)
        self.preempts = {}
        if replay:
            for c, op, n, t in plan.get("preempts", ()):
                self.preempts.setdefault((c, op), []).append((n, t))
        self.seed = plan["seed"]

    # -- logging -------------------------------------------------------------------------------
    def note(self, *a):
        self.log.update(repr(a).encode())

    def count(self, kind, k=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + k

    def fail(self, kind, props, msg, c=None):
        op = c.op if c else None
        self.failures.append(
            dict(kind=kind, props=sorted(props), msg=msg, client=c.idx if c else None, op=op)
        )
        self.note("FAIL", kind, sorted(props))

    # -- operations ----------------------------------------------------------------------------
    def begin_op(self, c, opid):
        c.op = opid
        c.n = 0
        c.io_n = 0
        c.solver_n = 0
        c.fired = []
        c.exc_fired = []
        fs = self.faults.get((c.idx, opid), ())
        c.faults = sorted([[f["n"], f["kind"]] for f in fs if f["at"] == "instr"], key=lambda x: x[0])
        c.iofaults = {f["n"]: f for f in fs if f["at"] == "io"}
        c.solverfaults = {f["n"]: f for f in fs if f["at"] == "solver"}
        if self.replay:
            c.pre = sorted((n, t) for n, t in self.preempts.get((c.idx, opid), ()) if n >= 0)
        else:
            c.rng = random.Random("%s/sched/%d/%s" % (self.seed, c.idx, opid))
            c.pre = [(self._draw_gap(c, 0), None)] if self.gap else []
        self._arm_next(c)

    def _draw_gap(self, c, n):
        r = c.rng
        if self.burst and r.random() < self.burst:
            return n + 1
        # geometric with mean gap
        return n + 1 + int(r.expovariate(1.0 / self.gap))

    def _arm_next(self, c):
        nx = MAX_EVENTS_PER_OP
        if c.faults:
            nx = min(nx, c.faults[0][0])
        if c.pre:
            nx = min(nx, c.pre[0][0])
        c.next_n = nx

    def end_op(self, c):
        self.events += c.n
        self.sim_time += (c.n + 1) * self.time_scale
        c.next_n = BIG
        # operation boundary: maybe hand over
        if self.replay:
            t = [t for n, t in self.preempts.get((c.idx, c.op), ()) if n == -1]
            target = t[0] if t else None
        else:
            target = None
            if self.cfg.get("op_switch", 0) and c.rng.random() < self.cfg["op_switch"]:
                cand = [o.idx for o in self.runnable() if o is not c]
                if cand:
                    target = c.rng.choice(cand)
        if target is not None and self._is_runnable(target) and target != c.idx:
            self.decisions.append([c.idx, c.op, -1, target])
            self._switch(c, self.clients[target], ("end", c.op))

    def fire(self, c, code, offset):
        """called at an instruction of the library whose number was reached"""
        if self.aborted:
            raise SimAbort()
        if c.n >= MAX_EVENTS_PER_OP:
            self.fail("no-progress", ["*"], "operation executed more than %d instructions" % MAX_EVENTS_PER_OP, c)
            self.abort()
            raise SimAbort()
        if c.pre and c.n >= c.pre[0][0]:
            n, t = c.pre.pop(0)
            if self.replay:
                if self._is_runnable(t) and t != c.idx:
                    self._preempt(c, t, code, offset)
            else:
                cand = [o.idx for o in self.runnable() if o is not c]
                if cand:
                    t = c.rng.choice(cand)
                    self._preempt(c, t, code, offset)
                c.pre = [(self._draw_gap(c, c.n), None)] if self.gap else []
        if c.faults and c.n >= c.faults[0][0]:
            if code is None or offset in eligible_offsets(code):
                n, kind = c.faults.pop(0)
                self._arm_next(c)
                exc = INTERRUPTS[kind]("injected")
                c.fired.append(kind)
                c.exc_fired.append(exc)
                self.count(kind)
                self.note("intr", c.idx, c.op, c.n, kind)
                self.places.add(("intr", c.where, code.co_name if code else "seam", offset))
                raise exc
            self._arm_next(c)
            c.next_n = min(c.next_n, c.n + 1)
            return
        self._arm_next(c)

    def seam_point(self, c):
        """a scheduling point outside library bytecode (I/O call, callback)"""
        if c is None or c.block:
            return
        c.n += 1
        if self.seam_switch and not self.replay and c.rng.random() < self.seam_switch:
            c.pre = [(c.n, None)]
            c.next_n = min(c.next_n, c.n)
        if c.n >= c.next_n:
            self.fire(c, None, 0)

    def _preempt(self, c, t, code, offset):
        self.decisions.append([c.idx, c.op, c.n, t])
        self.count("preemption")
        self.inner_switches += 1
        name = code.co_name if code is not None else "seam"
        self.places.add(("pre", c.where, name, offset))
        self._switch(c, self.clients[t], (c.where, name, offset))

    # -- baton ---------------------------------------------------------------------------------
    def _is_runnable(self, i):
        return 0 <= i < len(self.clients) and self._can_run(self.clients[i])

    def _can_run(self, o):
        return not o.done and (o.waiting is None or o.waiting.available_to(o))

    def runnable(self):
        return [o for o in self.clients if self._can_run(o)]

    def _switch(self, c, t, place):
        self.switches += 1
        self.sched_hash.update(repr((c.idx, place, t.idx)).encode())
        self.note("sw", c.idx, c.op, c.n, t.idx)
        self.current = t
        t.sem.release()
        c.sem.acquire()
        if self.aborted:
            raise SimAbort()

    def wait_for(self, c, lock):
        """client c cannot get a lock: run somebody else; detects deadlock"""
        c.waiting = lock
        while not lock.available_to(c):
            cand = [o.idx for o in self.runnable() if o is not c]
            if not cand:
                self.fail("deadlock", ["*"], "all callers wait for each other", c)
                self.abort()
                raise SimAbort()
            self._switch(c, self.clients[cand[0]], ("lock", c.where))
        c.waiting = None

    def abort(self):
        self.aborted = True
        self.main.release()

    def run(self, bodies):
        """bodies: one callable per client, called with (sim, client)"""
        global ACTIVE
        self.clients = [Client(i) for i in range(len(bodies))]
        threads = []
        for c, body in zip(self.clients, bodies):
            t = _RealThread(target=self._client_main, args=(c, body), daemon=True)
            c.thread = t
            threads.append(t)
            t.start()
        ACTIVE = self
        first = self.cfg.get("first", 0) % len(self.clients)
        self.current = self.clients[first]
        self.current.sem.release()
        self._wait()
        ACTIVE = None
        self.current = None

    def _wait(self):
        """waits for the end of the run, or until every thread sleeps for good (a lock the simulator does not know)"""
        seen, same = None, 0
        while not self.main.acquire(timeout=0.5):
            now = (self.switches, sum(c.n for c in self.clients), self.current.idx, self.current.op)
            same = same + 1 if now == seen and sleeping() else 0
            seen = now
            if same >= 8:
                # two callers that use one open file object at the same time block each other inside it
                shared = any(c.in_read for c in self.clients)
                self.fail("no-progress", ["C02"] if shared else ["*"], "the callers wait for each other", self.current)
                self.aborted = True
                return

    def _client_main(self, c, body):
        c.ident = get_ident()
        c.sem.acquire()
        try:
            body(self, c)
        except SimAbort:
            return
        except BaseException as e:  # harness bug
            import traceback

            self.failures.append(
                dict(kind="harness-error", props=["!"], msg=traceback.format_exc(), client=c.idx, op=c.op)
            )
        c.done = True
        c.block = 1
        rest = self.runnable()
        if not rest:
            if any(not o.done for o in self.clients):
                self.fail("deadlock", ["*"], "a lock is never released", c)
                self.aborted = True
            self.main.release()
            return
        if self.replay:
            t = [t for n, t in self.preempts.get((c.idx, "end"), ())]
            nxt = self.clients[t[0]] if t and self._is_runnable(t[0]) else rest[0]
        else:
            nxt = random.Random("%s/next/%d" % (self.seed, c.idx)).choice(rest)
            self.decisions.append([c.idx, "end", 0, nxt.idx])
        self.current = nxt
        self.note("done", c.idx, nxt.idx)
        nxt.sem.release()


def sleeping():
    """whether no other thread of the process runs"""
    me = threading.get_native_id()
    for t in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/stat" % t) as f:
                state = f.read().rsplit(")", 1)[1].split()[0]
        except OSError:
            return False
        if int(t) != me and state != "S":
            return False
    return True


def client():
    """the running client if the calling thread is it and library code is executing, else None"""
    sim = ACTIVE
    if sim is None:
        return None, None
    c = sim.current
    if c is None or c.ident != get_ident():
        return sim, None
    return sim, c


# ------------------------------------------------------------------------------------------------
# cooperative locks (only used if library code creates locks)


class SimLock:
    reentrant = False

    def __init__(self):
        self._real = _real_lock()
        self.owner = None
        self.depth = 0

    def available_to(self, c):
        return self.owner is None or (self.reentrant and self.owner is c)

    def acquire(self, blocking=True, timeout=-1):
        sim, c = client()
        if c is None:
            me = get_ident()
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            if self.owner is not None and not blocking:
                return False
            self._real.acquire()
            self._real.release()
            self.owner = me
            self.depth = 1
            return True
        if not self.available_to(c):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            sim.wait_for(c, self)
        self.owner = c
        self.depth += 1
        c.held.append(self)
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        o = self.owner
        if isinstance(o, Client) and self in o.held:
            o.held.remove(self)
        if self.depth <= 0:
            self.depth = 0
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner is not None


class SimRLock(SimLock):
    reentrant = True


def _for_library():
    """is a lock being created on behalf of library code?"""
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        n = f.f_globals.get("__name__", "")
        if n == "ries" or n.startswith("ries."):
            return True
        if n not in ("threading", "functools", "queue", "contextlib", "dataclasses"):
            return False
        f = f.f_back
    return False


def make_lock():
    return SimLock() if _for_library() else _real_lock()


def make_rlock():
    return SimRLock() if _for_library() else _real_rlock()


def install_locks():
    threading.Lock = make_lock
    threading.RLock = make_rlock

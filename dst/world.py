"""The simulated world: objects under test with their reference twins, and the operations callers perform.

Each operation has three phases: prepare (harness, not scheduled), call (library code; scheduling and
fault points enabled), judge (harness; compares with the reference model).  Failures carry the ids of the
properties they violate.
"""
import decimal
import math
import os
import random
import re
import warnings

import numpy as np
import scipy.special

from . import kernel, refmodel as rm
from .seams import FS, LIB

RTOL = 1e-6
FP_MODES = {
    "ignore": dict(all="ignore"),
    "mixed": dict(divide="ignore", over="warn", under="warn", invalid="ignore"),
}


class Lib:
    """late-bound access to the library's public names"""

    def __init__(self):
        import ries.constituents.element as element
        import ries.constituents.isotope as isotope
        import ries.constituents.natural_element_data as ned
        import ries.constituents.state as state
        import ries.cross_section as cs
        import ries.integration.darboux as da
        import ries.integration.quad_partition as qp
        import ries.nonresonant.klein_nishina as kn
        import ries.nonresonant.xrmac as xr
        import ries.resonance.breit_wigner as bw
        import ries.resonance.debye_model as de
        import ries.resonance.gauss as ga
        import ries.resonance.maxwell_boltzmann as mb
        import ries.resonance.pseudo_voigt as pv
        import ries.resonance.recoil as rc
        import ries.resonance.resonance as re_
        import ries.resonance.voigt as vo
        import ries.nonresonant.nonresonant  # noqa

        self.element, self.isotope, self.ned, self.state, self.cs = element, isotope, ned, state, cs
        self.da, self.qp, self.kn, self.xr, self.bw, self.de = da, qp, kn, xr, bw, de
        self.ga, self.mb, self.pv, self.rc, self.re, self.vo = ga, mb, pv, rc, re_, vo

        class CallerCS(cs.CrossSection):
            """a cross section defined by the caller"""

            def __init__(self, a, b, world=None):
                self.a, self.b, self.world = a, b, world
                self.raise_at = None

            def __call__(self, E):
                callback_point()
                return self.a + self.b * E

            def equidistant_probability_grid(self, limits, n_points):
                return self.equidistant_energy_grid(limits, n_points)

        self.CallerCS = CallerCS

        class MemoCS(CallerCS):
            """a caller's cross section that stores what it computed and hands out the stored array"""

            def __init__(self, a, b, readonly):
                CallerCS.__init__(self, a, b)
                self.readonly, self.known = readonly, {}

            def __call__(self, E):
                callback_point()
                if not isinstance(E, np.ndarray) or not E.ndim:
                    return self.a + self.b * E
                key = (E.shape, E.tobytes())
                if key not in self.known:
                    v = self.a + self.b * E
                    if self.readonly:
                        v.setflags(write=False)
                    self.known.setdefault(key, v)
                return self.known[key]

        self.MemoCS = MemoCS


def callback_point():
    """caller-supplied code is running: a scheduling point"""
    sim, c = kernel.client()
    if c is not None and not c.block:
        sim.seam_point(c)


class Out:
    __slots__ = ("val", "exc", "warns", "cls", "fired")


class CallbackError(Exception):
    """raised by caller-supplied code"""


class CallbackRuntimeError(RuntimeError):
    pass


class CallbackOverflow(ArithmeticError):
    pass


CB_EXC = {
    "custom": CallbackError,
    "runtime": CallbackRuntimeError,
    "value": ValueError,
    "zerodiv": ZeroDivisionError,
    "stop": StopIteration,
    "type": TypeError,
    "attr": AttributeError,
    "key": KeyError,
    "index": IndexError,
    "os": OSError,
    "arith": CallbackOverflow,
    "kbd": KeyboardInterrupt,
}

# ------------------------------------------------------------------------------------------------
# arrays handed to the library


def make_array(spec):
    """spec: {"form":..., "vals":[...]} or {"form":..., "lin":[lo,hi,n]}"""
    form = spec["form"]
    vals = list(np.linspace(*spec["lin"])) if "lin" in spec else spec["vals"]
    if "size" in spec:
        vals = list(np.resize(vals, spec["size"]))
    if form == "float":
        return float(vals[0])
    if form == "int":
        return int(vals[0])
    if form == "np64":
        return np.float64(vals[0])
    if form == "npint":
        return np.int64(vals[0])
    if form == "0d":
        return np.array(vals[0], dtype=float)
    if form == "ints":
        return np.array([int(v) for v in vals])
    a = np.array(vals, dtype=float)
    if form == "1d":
        return a
    if form == "empty":
        return a[:0]
    if form == "2d":
        if len(a) % 2:
            a = a[:-1] if len(a) > 1 else np.repeat(a, 2)
        return a.reshape(2, -1)
    if form == "fortran":
        if len(a) % 2:
            a = np.append(a, a[-1])
        return np.asfortranarray(a.reshape(2, -1))
    if form == "strided":
        b = np.full(2 * len(a), np.nan)
        b[::2] = a
        return b[::2]
    if form == "rev":
        return a[::-1].copy()[::-1]
    if form == "ro":
        v = a.view()  # an array that is read-only itself has been made so by the library
        v.setflags(write=False)
        return v
    raise ValueError(form)


FORMS = ["float", "np64", "0d", "1d", "1d", "1d", "2d", "fortran", "strided", "rev", "ro", "int", "ints"]
SCALARS = ("float", "np64", "0d", "int")


def per_thread():
    """settings that belong to the calling thread"""
    d = decimal.getcontext()
    return (np.geterr(), np.getbufsize(), np.geterrcall(), repr(sorted(np.get_printoptions().items(), key=str)), d.prec, d.rounding)


def same_bits(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


# ------------------------------------------------------------------------------------------------


class World:
    def __init__(self, sim, plan, lib, scratch=None):
        self.sim, self.plan, self.lib = sim, plan, lib
        self.cfg = plan["cfg"]
        self.objs = {}  # name -> (object, ref)
        self.buffers = {}  # arrays that callers use for one call after the other
        self.hist = []  # (array, copy, what) that must never change
        self.keep = []  # exceptions kept alive by callers
        self.outs = {}  # op id -> canonical outcome (for comparison between runs)
        self.evals = 0
        self.scratch = scratch
        self.files = {}
        self.nuc = {}
        self.readers = {}  # reader objects shared between operations
        self.mbs = {}
        self.shared = {}  # integrands shared between callers
        # the caller's numerical error modes (per thread in numpy, per process in scipy)
        self.fp = dict(FP_MODES.get(self.cfg.get("fp"), {}))
        np.seterr(**self.fp)
        if self.fp:
            scipy.special.seterr(all="warn")
        self.errstate0 = per_thread()
        self.state0 = True
        self.lens = {}
        self.ops_done = {}

    # -- plumbing ------------------------------------------------------------------------------
    def call(self, c, fn, props, allow=(), what=""):
        o = Out()
        o.val = o.exc = None
        c.warns = []
        blk, c.block = c.block, 0
        try:
            o.val = fn()
        except kernel.SimAbort:
            raise
        except BaseException as e:
            o.exc = e
        c.block = blk
        o.warns = c.warns
        c.warns = []
        o.fired = list(c.fired)
        if o.exc is not None:
            self.keep.append(o.exc)
        o.cls = self.classify(c, o, props, allow, what)
        return o

    def classify(self, c, o, props, allow, what):
        e = o.exc
        if e is None:
            return "ok"
        if any(e is x for x in c.exc_fired):
            return "injected"
        if isinstance(e, Warning) and self.cfg.get("warn") == "error":
            return "warning"
        if allow and isinstance(e, allow):
            return "allowed"
        x, depth = e, 0
        while x is not None and depth < 10:
            if any(x is y for y in c.exc_fired):
                return "wrapped"
            x = x.__cause__ or x.__context__
            depth += 1
        self.sim.fail("unexpected-exception", props, "%s: %s raised %s: %s" % (c.op, what, type(e).__name__, str(e)[:300]), c)
        return "bad"

    def fail(self, c, kind, props, msg):
        self.sim.fail(kind, props, "%s: %s" % (c.op if c else "audit", msg), c)

    def record(self, c, o, view=lambda v: v):
        """canonical outcome for comparing runs"""
        if o.cls == "ok":
            v = canon(view(o.val))
        elif o.cls in ("injected", "wrapped"):
            v = ("injected", type(o.exc).__name__)
        else:
            v = ("exc", type(o.exc).__name__)
        # warnings of the library itself; those of scipy (accuracy of quad) disappear if a result is remembered, which is allowed
        w = tuple(sorted(str(m)[:60] for m, cat in o.warns if issubclass(cat, UserWarning) and not cat.__module__.startswith("scipy")))
        self.outs.setdefault(c.op, []).append((o.cls, v, w, tuple(o.fired)))
        self.sim.note("out", c.idx, c.op, o.cls, digest(v), w)

    def array(self, c, spec, slot):
        """the argument of a call; some callers keep one array for a purpose and fill it anew for each call"""
        a = make_array(spec)
        if not spec.get("buf") or not isinstance(a, np.ndarray) or not a.flags.writeable:
            return a
        return self.refill(c, slot, a)

    def refill(self, c, slot, a):
        key = (c.idx, slot, a.shape, a.strides, a.dtype)
        b = self.buffers.setdefault(key, a)
        if b is a or not b.flags.writeable:
            return a
        b[...] = a
        self.sim.count("caller fills its array anew")
        return b

    def again(self, c, s, o, fn, what):
        """the same request once more by the same caller"""
        if not s.get("again") or o.cls != "ok" or o.fired:
            return
        first = canon(o.val)
        o2 = self.call(c, fn, ["C18"], what=what + " once more")
        if o2.fired or o2.cls != "ok":
            return
        if not canon_equal(canon(o2.val), first, 0.0):
            self.fail(c, "not-reproducible", ["C18"], "%s: got %s and, asked again, %s" % (what, brief(o.val), brief(o2.val)))
        self.sim.count("request repeated at once")

    def record_obj(self, c, o):
        self.record(c, o, lambda v: None)

    # -- comparison ----------------------------------------------------------------------------
    def near(self, got, want, scale=None, atol=0.0, rtol=RTOL):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        s = np.abs(want) if scale is None else scale
        with np.errstate(all="ignore"):
            return bool(np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= rtol * s + atol))

    def check_value(self, c, ref, E, got, props, what, constant_ok=True):
        self.evals += 1
        want = ref.value(E)
        if is_constant(ref):
            # an energy-independent cross section may return a scalar
            if np.shape(got) not in ((), np.shape(E)):
                self.fail(c, "shape", props, "%s: shape %s for energies of shape %s" % (what, np.shape(got), np.shape(E)))
                return False
        elif np.shape(got) != np.shape(E):
            self.fail(c, "shape", props, "%s: shape %s for energies of shape %s" % (what, np.shape(got), np.shape(E)))
            return False
        try:
            ok = self.near(got, want, ref.scale_at(E), ref.atol())
        except (TypeError, ValueError):
            ok = False
        if not ok:
            alt = self.edge_ok(ref, E, got)
            if alt:
                return True
            self.fail(c, "value", props, "%s at %s: got %s, expected %s" % (what, brief(E), brief(got), brief(want)))
            return False
        return True

    def edge_ok(self, ref, E, got):
        return False

    def remember(self, arr, what):
        if isinstance(arr, np.ndarray) and arr.ndim:
            self.hist.append((arr, arr.copy(), what))

    def check_input(self, c, arr, copy, props, what):
        if isinstance(arr, np.ndarray) and not same_bits(arr, copy):
            self.fail(c, "input-modified", props, "%s modified its argument: %s became %s" % (what, brief(copy), brief(arr)))
        elif isinstance(arr, np.ndarray) and arr.base is None and not arr.flags.writeable:
            self.fail(c, "input-modified", props, "%s made its argument read-only" % what)

    # -- objects -------------------------------------------------------------------------------
    def states(self, s):
        L = self.lib.state
        if s.get("E0", 0.0):
            init = L.State(s["init"], s["two_J0"], 1, s["E0"], {"gs": 1e-7})
        else:
            init = L.GroundState(s["init"], s["two_J0"], 1)
        inter = L.State("x", s["two_J2"], -1, s["E2"], dict(s["widths"]))
        final = None
        if s.get("final") is not None:
            if s["final"] == s["init"]:
                final = init
            else:
                final = L.State(s["final"], 2, 1, 0.5 * s["E2"], {"gs": 1e-8})
        return init, inter, final

    def construct(self, s, lazy=False):
        """returns (maker, ref) for a specification"""
        L = self.lib
        t = s["type"]
        if t == "const":
            return (lambda: L.cs.ConstantCrossSection(s["c"])), rm.RefConst(s["c"])
        if t == "poly":
            return (lambda: L.CallerCS(s["a"], s["b"], self)), rm.RefPoly(s["a"], s["b"])
        if t == "memo":
            return (lambda: L.MemoCS(s["a"], s["b"], s["ro"])), rm.RefPoly(s["a"], s["b"], memo=True)
        if t in ("uniform", "bw", "gauss", "pv", "voigt"):
            lv = s["lv"]
            ref = rm.RefRes(t, lv)
            i, m, f = self.states(lv)
            if t == "uniform":
                rec = lv.get("recoil")
                if rec:
                    return (lambda: L.re.Resonance(i, m, f, recoil_correction=L.rc.FreeNucleusRecoil(rec))), ref
                return (lambda: L.re.Resonance(i, m, f)), ref
            if t == "bw":
                return (lambda: L.bw.BreitWigner(i, m, f)), ref
            cl = {"gauss": L.ga.Gauss, "pv": L.pv.PseudoVoigt, "voigt": L.vo.Voigt}[t]
            return (lambda: cl(i, m, lv["amu"], lv["T"], f)), ref
        if t in ("xr_cm", "xr_fm"):
            d = "xrmac_cm2_per_g" if t == "xr_cm" else "xrmac_fm2_per_atom"
            E, mu, _ = rm.golden_table(s["sym"], t == "xr_fm")
            return (lambda: getattr(L.xr, d)[s["sym"]]), rm.RefTable(E, mu)
        if t == "xr_arr":
            data = np.array(s["data"])
            return (lambda: L.xr.XRMAC(data)), rm.RefTable(data[:, 0].copy(), data[:, 1].copy())
        if t == "kn":
            given = {k: s[k] for k in ("Z", "mc2") if s.get(k) is not None}
            pos = tuple(given.values()) if "Z" in given else ()
            ref = rm.RefKN(given.get("Z", 1), given.get("mc2", rm.ME))
            return (lambda: L.kn.KleinNishina(*pos) if pos else L.kn.KleinNishina(**given)), ref
        if t == "empty":
            return (lambda: L.cs.CrossSectionWeightedSum()), rm.RefSum([])
        if t == "wsum":
            names = s["terms"]
            objs = [self.objs[n][0] for n in names]
            refs = [self.objs[n][1] for n in names]
            ws = s.get("w")
            if ws is None:
                return (lambda: L.cs.CrossSectionWeightedSum(list(objs))), rm.RefSum([(1.0, r, n) for r, n in zip(refs, names)])
            return (lambda: L.cs.CrossSectionWeightedSum(list(objs), list(ws))), rm.RefSum(
                [(w, r, n) for w, r, n in zip(ws, refs, names)]
            )
        raise ValueError(t)

    def setup(self):
        for s in self.plan.get("setup", ()):
            mk, ref = self.construct(s)
            self.objs[s["name"]] = (mk(), ref)
        for f in self.plan.get("files", ()):
            self.files[f["name"]] = SimFile(self, f)

    # -- execution -----------------------------------------------------------------------------
    def body(self, ops):
        def run(sim, c):
            np.seterr(**self.fp)
            for op in ops:
                sim.begin_op(c, op["id"])
                c.where = op["k"]
                self.exec_op(c, op)
                sim.end_op(c)

        return run

    def exec_op(self, c, op):
        fn = OPS[op["k"]]
        self.ops_done[op["k"]] = self.ops_done.get(op["k"], 0) + 1
        if not all(d in self.objs or d in self.files or d in self.nuc for d in op.get("dep", ())):
            self.sim.note("skip", c.idx, op["id"])
            return  # dependency was dropped by the minimiser or its construction was interrupted
        nf = len(self.sim.failures)
        try:
            fn(self, c, op)
            if op.get("retry") and any(f in kernel.INTERRUPTS or f.startswith("errno") for f in c.fired):
                c.exc_fired = []
                c.fired = []
                fn(self, c, op)
        except kernel.SimAbort:
            raise
        except Exception as e:
            if len(self.sim.failures) == nf:
                import traceback

                self.fail(c, "malformed-result", OP_PROPS[op["k"]], "%s: result could not be interpreted: %s" % (
                    op["k"], traceback.format_exc()[-700:]))
        self.after_op(c, op)

    def after_op(self, c, op):
        self.lens[op["id"]] = (c.n, c.io_n, c.solver_n)
        left = [v for v in FS.table.values() if v[1] == c.idx]
        if left:
            self.fail(c, "file-left-open", ["C11", "C09"] if c.exc_fired else ["C11"], "%s left open: %s" % (op["k"], sorted({os.path.basename(v[0]) for v in left})))
            for k in [k for k, v in FS.table.items() if v[1] == c.idx]:
                FS.table.pop(k)
        if FS.writes:
            for w in FS.writes:
                p = ["C14"] if w[2] in ("os.putenv", "os.chdir", "os.kill", "os.fork", "os.system", "subprocess.Popen") else ["C11"]
                self.fail(c, "write", p, "%s: %s" % (op["k"], w[3]))
            FS.writes.clear()
        if c.held:
            self.fail(c, "lock-held", ["C09"], "%s returned with a lock held" % op["k"])
            for l in list(c.held):
                l.release()
        if self.state0 is not None:
            g = per_thread()
            if g != self.errstate0:
                self.fail(c, "process-state", ["C14"], "%s changed the caller's numerical settings from %s to %s" % (op["k"], self.errstate0, g))
                np.seterr(**self.errstate0[0])
        c.exc_fired = []

    # -- audits --------------------------------------------------------------------------------
    def audit_hist(self, props=("C05",)):
        for arr, copy, what in self.hist:
            if not same_bits(arr, copy):
                self.sim.fail("result-changed", list(props), "%s changed after the call: %s became %s" % (what, brief(copy), brief(arr)))

    def audit_objects(self, props, rng):
        for name, (obj, ref) in list(self.objs.items()):
            E = np.array(probe_energies(ref, rng, 4))
            try:
                with np.errstate(all="ignore"):
                    v = obj(E)
            except Exception as e:
                self.sim.fail("object-broken", props_for(ref, props), "%s no longer evaluates: %s: %s" % (name, type(e).__name__, e))
                continue
            self.check_value(None, ref, E, v, props_for(ref, props), "object %s after the run" % name)
            if ref.kind == "xr":
                d = np.asarray(getattr(obj, "data", np.column_stack([ref.E, ref.mu])))
                if d.ndim != 2 or d.dtype.kind != "f" or len(d) != len(ref.E) or not np.allclose(d[:, :2], np.column_stack([ref.E, ref.mu]), rtol=1e-9, atol=0):
                    self.sim.fail("object-broken", props_for(ref, props), "the data of table %s changed: %s" % (name, brief(d)))

    def audit_db(self, props=("C03",), full=True, rng=None):
        for m in check_db(self.lib, full=full, rng=rng):
            self.sim.fail("database", list(props), m)


def props_for(ref, props):
    return list(props)


def is_constant(ref):
    if ref.kind == "const":
        return True
    if ref.kind == "sum":
        return all(is_constant(t) for _, t, _ in ref.terms)
    return False


def brief(a):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:6], precision=9) if a.size else "[]"
    return s + ("..." if a.size > 6 else "")


def canon(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, np.array(v, copy=True))
    if isinstance(v, (list, tuple)):
        return ("seq", tuple(canon(x) for x in v))
    if isinstance(v, dict):
        return ("map", tuple((k, canon(v[k])) for k in sorted(v, key=str)))
    if isinstance(v, (int, float, np.floating, np.integer)):
        return ("num", float(v))
    if v is None or isinstance(v, (str, bool)):
        return ("lit", v)
    return ("obj", type(v).__name__)


def digest(v):
    if isinstance(v, tuple):
        return tuple(digest(x) for x in v)
    if isinstance(v, np.ndarray):
        import hashlib

        return hashlib.blake2b(v.tobytes(), digest_size=8).hexdigest()
    if isinstance(v, float):
        return v.hex()
    return v


def canon_equal(a, b, rtol=1e-11):
    """equality of canonical outcomes up to the last digits"""
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(canon_equal(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= rtol * max(abs(a), abs(b))
    return a == b


# ------------------------------------------------------------------------------------------------
# the shipped database


def check_db(L, full=True, rng=None, what=("elements", "xrmac", "debye")):
    g = rm.golden()
    bad = []
    try:
        if "elements" in what:
            ne, X = L.element.natural_elements, L.element.X
            if set(ne.keys()) != set(g["elements"]):
                bad.append("elements: %s" % sorted(set(ne.keys()) ^ set(g["elements"]))[:5])
            if {int(z): x for z, x in X.items()} != {e["Z"]: s for s, e in g["elements"].items()}:
                bad.append("symbol table differs")
            syms = list(g["elements"])
            for s in syms if full else rng.sample(syms, 6):
                r = g["elements"][s]
                e = ne[s]
                if e.Z != r["Z"] or e.X != s:
                    bad.append("%s: proton number or symbol %r %r" % (s, e.Z, e.X))
                if (e.density is None) != (r["density"] is None) or (
                    r["density"] is not None and not close(e.density, r["density"])
                ):
                    bad.append("%s: density %r, published %r" % (s, e.density, r["density"]))
                if set(e.isotopes) != set(r["isotopes"]) or set(e.abundances) != set(r["isotopes"]):
                    bad.append("%s: isotopes %s" % (s, sorted(e.isotopes)))
                    continue
                for k, (m, a) in r["isotopes"].items():
                    iso = e.isotopes[k]
                    if not close(iso.amu, m) or iso.AX != k:
                        bad.append("%s: mass %r, published %r" % (k, iso.amu, m))
                    if not close(e.abundances[k], a):
                        bad.append("%s: abundance %r, published %r" % (k, e.abundances[k], a))
                    if iso.ground_state is not None or len(iso.excited_states):
                        bad.append("%s: levels appeared" % k)
                if not close(e.amu, r["amu"], 1e-10):
                    bad.append("%s: mass %r, expected %r" % (s, e.amu, r["amu"]))
                if len(bad) > 8:
                    return bad
        if "xrmac" in what:
            syms = list(g["xrmac"])
            if set(L.xr.xrmac_cm2_per_g.keys()) != set(syms) or set(L.xr.xrmac_fm2_per_atom.keys()) != set(syms):
                bad.append("attenuation tables: wrong set of elements")
            for s in syms if full else rng.sample(syms, 4):
                for per_atom, d in ((False, L.xr.xrmac_cm2_per_g), (True, L.xr.xrmac_fm2_per_atom)):
                    if per_atom and not g["elements"][s]["amu"]:
                        continue
                    E, m, ma = rm.golden_table(s, per_atom)
                    t = d[s]
                    data = np.asarray(t.data, float)
                    w = np.column_stack([E, m, ma])
                    if data.shape != w.shape or not np.allclose(data, w, rtol=1e-7, atol=0):
                        bad.append("attenuation table of %s (%s) differs" % (s, "per atom" if per_atom else "per gram"))
                    else:
                        mid = np.sqrt(E[1:] * E[:-1])[np.diff(E) > 0]
                        with np.errstate(all="ignore"):
                            v = np.asarray(t(mid), float)
                        if v.shape != mid.shape or not np.allclose(v, rm.RefTable(E, m).value(mid), rtol=1e-6, atol=0):
                            bad.append("attenuation of %s (%s) interpolates wrongly" % (s, "per atom" if per_atom else "per gram"))
                    if len(bad) > 8:
                        return bad
        if "debye" in what:
            d = dict(L.de.room_temperature_T_D)
            if set(d) != set(g["debye"]):
                bad.append("Debye temperatures: keys %s" % sorted(set(d) ^ set(g["debye"])))
            else:
                for k, v in g["debye"].items():
                    if d[k] != v:
                        bad.append("Debye temperature of %s: %r, published %r" % (k, d[k], v))
    except Exception as e:
        import traceback

        bad.append("database cannot be read: " + traceback.format_exc()[-500:])
    return bad


def close(a, b, rtol=1e-12):
    return a is not None and b is not None and abs(a - b) <= rtol * abs(b)


# ------------------------------------------------------------------------------------------------
# energies at which an object is interesting


def probe_energies(ref, rng, n):
    k = ref.kind
    out = []
    for _ in range(n):
        if k in ("bw", "gauss", "pv", "voigt"):
            d = ref.d
            z = rng.choice([rng.uniform(-1, 1), rng.uniform(-4, 4), rng.uniform(-30, 30)])
            e = d.Er + z * d.char
            if e <= 1e-3:
                e = d.Er + abs(z) * d.char
        elif k == "uniform":
            e = ref.d.Er + rng.choice([rng.uniform(-0.499, 0.499), rng.uniform(0.51, 2.0)])
            if abs(abs(e - ref.d.Er) - 0.5) < 1e-6 or e <= 0:
                e = ref.d.Er
        elif k == "xr":
            e = table_energy(ref, rng)
        elif k == "sum" and ref.terms:
            e = probe_energies(rng.choice(ref.terms)[1], rng, 1)[0]
        else:
            e = 10 ** rng.uniform(-1.0, 1.3)
        if k != "sum":
            out.append(e)
        else:
            out.append(safe_energy(ref, e))
    return out


def flat_terms(ref):
    if ref.kind == "sum":
        for _, t, _ in ref.terms:
            yield from flat_terms(t)
    else:
        yield ref


def without_terms(ref):
    """whether the object is, or contains, a sum of nothing; nothing says what its probability grid is"""
    return ref.kind == "sum" and (not ref.terms or any(without_terms(t) for _, t, _ in ref.terms))


def safe_energy(ref, e):
    """moves an energy off the discontinuities of any term"""
    for _ in range(5):
        moved = False
        for t in flat_terms(ref):
            if t.kind == "xr" and np.min(np.abs(t.E / e - 1)) < 1e-9:
                e *= 1.0 + 1e-6
                moved = True
            if t.kind == "uniform" and abs(abs(e - t.d.Er) - 0.5) < 1e-9:
                e += 1e-6
                moved = True
        if not moved:
            break
    return e


def table_energy(ref, rng):
    if rng.random() < 0.03:
        return rng.choice([ref.E[0] * 10 ** -rng.uniform(1, 5), ref.E[-1] * 10 ** rng.uniform(1, 5)])
    if rng.random() < 0.15:
        return rng.choice([ref.E[0] * rng.uniform(0.2, 0.9), ref.E[-1] * rng.uniform(1.1, 4.0)])
    i = rng.randrange(len(ref.E) - 1)
    while ref.E[i + 1] <= ref.E[i] * (1 + 1e-12):
        i = rng.randrange(len(ref.E) - 1)
    f = rng.uniform(0.02, 0.98)
    return float(ref.E[i] ** (1 - f) * ref.E[i + 1] ** f)


# ------------------------------------------------------------------------------------------------
# files written by callers


class SimFile:
    def __init__(self, w, f):
        self.name, self.fmt, self.versions = f["name"], f["fmt"], f["versions"]
        self.path = os.path.join(w.scratch, f["name"] + ".txt")
        self.cut = f.get("cut", False)
        self.cur = -1
        self.started = 0
        self.mtime = 1_600_000_000 * 10 ** 9
        self.replace(w, 0, 0)

    def replace(self, w, v, dt_ns):
        """atomically replaces the file by version v"""
        tmp = self.path + ".new"
        with open(tmp, "wb") as f:
            f.write(self.versions[v].encode())
        self.mtime += dt_ns
        os.utime(tmp, ns=(self.mtime, self.mtime))
        os.replace(tmp, self.path)
        self.cur = v
        self.started += 1
        self.log = getattr(self, "log", [])
        self.log.append(v)

    def mark(self):
        return len(self.log) - 1

    def since(self, mark):
        return self.log[mark:]


OPS = {}
OP_PROPS = {}


def op(name, *props):
    def deco(f):
        OPS[name] = f
        OP_PROPS[name] = list(props)
        return f

    return deco


from . import ops, leak  # noqa: E402,F401  (register the operations)

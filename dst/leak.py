"""What the library keeps of finished operations: objects that outlive their last caller, and growth."""
import gc
import random
import types
import weakref

import numpy as np

from . import kernel, refmodel as rm
from .world import CallbackError, callback_point, make_array, op

# ------------------------------------------------------------------------------------------------
# single operations: everything the caller passed in and got back must be collectable afterwards


# exceptions of the caller, one per family (instances of the built-in classes cannot be watched)
FAMILIES = [CallbackError] + [type("Caller" + k.__name__, (k,), {}) for k in (ValueError, ArithmeticError, RuntimeError, TypeError, LookupError, OSError)]


class Fn:
    """caller-supplied function; optionally fails at its n-th call"""

    def __init__(self, watch, a, raise_at=None):
        self.a, self.raise_at, self.n = a, raise_at, 0
        self.watch = watch

    def __call__(self, *x):
        callback_point()
        self.n += 1
        if self.raise_at is not None and self.n >= self.raise_at:
            e = FAMILIES[int(1e9 * self.a) % len(FAMILIES)]("caller")
            self.watch("the exception raised by the caller's function", e)
            raise e
        return self.a * x[0]


def res_object(w, spec, watch):
    mk, _ = w.construct(dict(spec))
    obj = watch("the cross section", mk())
    for k, v in list(vars(obj).items()) if hasattr(obj, "__dict__") else ():
        if isinstance(v, (w.lib.state.State, w.lib.state.GroundState)):
            watch("a level of the cross section", v)
    return obj


def go_eval(w, s, r, watch):
    E = watch("the energies", make_array(s["E"]))
    watch("the result", w.objs[s["obj"]][0](E))


def go_dist(w, s, r, watch):
    obj = w.objs[s["obj"]][0]
    E = watch("the energies", make_array(s["E"]))
    f = getattr(obj.probability_distribution, r.choice(["pdf", "cdf"]))
    watch("the result", f(E, *obj.probability_distribution_parameters))


def go_egrid(w, s, r, watch):
    lim = watch("the limits", np.array([s["lo"], s["hi"]]))
    watch("the grid", w.objs[s["obj"]][0].equidistant_energy_grid(lim, s["n"]))


def go_pgrid(w, s, r, watch):
    lim = watch("the limits", np.array([s["lo"], s["hi"]]))
    watch("the grid", w.objs[s["obj"]][0].equidistant_probability_grid(lim, s["n"]))


def go_coverage(w, s, r, watch):
    obj = w.objs[s["obj"]][0]
    m = r.choice(["coverage_interval", "equidistant_energy_grid", "equidistant_probability_grid"])
    cov = r.uniform(0.3, 0.95)
    watch("the result", obj.coverage_interval(cov) if m == "coverage_interval" else getattr(obj, m)(cov, 5))


def go_ppf(w, s, r, watch):
    obj = w.objs[s["obj"]][0]
    q = watch("the quantiles", np.array([r.uniform(0.02, 0.98) for _ in range(r.choice([1, 3, 5]))]))
    watch("the result", obj.probability_distribution.ppf(q, *obj.probability_distribution_parameters))


def go_kn(w, s, r, watch):
    obj = w.objs[s["obj"]][0]
    E = watch("the energies", np.array([r.uniform(0.1, 5.0) for _ in range(3)]))
    th = watch("the angles", np.array([r.uniform(0.2, 2.9) for _ in range(3)]))
    m = r.choice(["total", "call", "dOmega_unpol", "dtheta", "edge", "ratio"])
    if m == "total":
        v = obj.cs_total(E)
    elif m == "call":
        v = obj(E)
    elif m == "dOmega_unpol":
        v = obj.cs_diff_dOmega_unpolarized(E, th)
    elif m == "dtheta":
        v = obj.cs_diff_dtheta(E, th)
    elif m == "edge":
        v = obj.compton_edge(E)
    else:
        v = obj.Ep_over_E(E, th)
    watch("the result", v)


def go_darboux(w, s, r, watch):
    x = watch("the partition", np.cumsum([r.uniform(0.1, 1.0) for _ in range(r.randrange(2, 7))]))
    if r.random() < 0.5:
        f = watch("the function", Fn(watch, r.uniform(0.5, 2.0), r.choice([None, 1])))
    else:
        f = watch("the values", 2.0 * x)
    w.lib.da.darboux(f, x)


def go_quad(w, s, r, watch):
    x = watch("the partition", np.cumsum([r.uniform(0.1, 1.0) for _ in range(r.randrange(2, 4))]))
    f = watch("the function", Fn(watch, r.uniform(0.5, 2.0), r.choice([None, None, 1, 5, 30])))
    if r.random() < 0.7:
        w.lib.qp.quad_partition(f, x)
    else:
        lim = watch("the limits", np.array([[0.0, 1.0]]))
        w.lib.qp.quad_partition(f, x, lim)


def go_debye(w, s, r, watch):
    T = watch("the temperatures", np.array([r.uniform(50, 900) for _ in range(r.choice([1, 3]))]))
    TD = watch("the Debye temperatures", np.array([r.uniform(80, 900) for _ in range(len(T))]))
    watch("the result", w.lib.de.effective_temperature_debye_approximation(T, TD))


def go_doppler(w, s, r, watch):
    E = watch("the energies", np.array([r.uniform(0.5, 9.0) for _ in range(3)]))
    mb = watch("the velocity distribution", w.lib.mb.MaxwellBoltzmann(r.uniform(4, 200), r.uniform(100, 900)))
    d = watch("the widths", mb.get_doppler_width(E))
    watch("the result", w.lib.mb.MaxwellBoltzmann.get_effective_temperature(d, 11.0, E))


def go_build(w, s, r, watch):
    obj = res_object(w, s["spec"], watch)
    E = watch("the energies", np.array([1.0, 2.0, 3.0]))
    if s["spec"]["type"] == "xr_arr":
        E = watch("the energies", np.array([s["spec"]["data"][0][0]]))
    m = r.random()
    if m < 0.7:
        watch("the result", obj(E))
    if m < 0.3 and hasattr(obj, "coverage_interval"):
        watch("the interval", obj.coverage_interval(0.5))
    if 0.3 < m < 0.6 and hasattr(obj, "equidistant_probability_grid"):
        watch("the grid", obj.equidistant_probability_grid((0.5, 1.5), 3))


def go_combine(w, s, r, watch):
    C = w.lib.cs.ConstantCrossSection
    a = res_object(w, s["spec"], watch)
    b = watch("the second cross section", C(r.uniform(0.1, 2.0)))
    t = watch("the sum", a + b)
    u = watch("the scaled sum", r.choice([2.0, 0.5]) * t)
    v = watch("the sum of sums", u + t if r.random() < 0.5 else u + 3.0)
    if r.random() < 0.5 and s["spec"]["type"] != "xr_arr":
        watch("the result", v(watch("the energies", np.array([1.0, 2.0]))))


def go_read_xr(w, s, r, watch):
    f = w.files[s["obj"]]
    X = w.lib.xr.XRMAC
    ec = watch("the conversion", Fn(watch, r.uniform(1.0, 2.0), r.choice([None, None, 2])))
    xc = watch("the second conversion", Fn(watch, 3.0, r.choice([None, None, None, 3])))
    t = watch("the table", X(str(f.path), energy_conversion=ec, xrmac_conversion=xc))
    if r.random() < 0.4:
        watch("the data", t.read_nist_xrmac(str(f.path)))


def go_read_density(w, s, r, watch):
    f = w.files[s["obj"]]
    conv = watch("the conversion", Fn(watch, r.uniform(1.0, 2.0), r.choice([None, None, 1])))
    R = watch("the reader", w.lib.ned.Geant4DensityDataReader(f.path, conv))
    known = sorted(rm.parse_density(f.versions[0]))
    R.read_density_data(r.choice(known * 2 + ["Xx"]))


def go_nuclei(w, s, r, watch):
    L = w.lib
    g = watch("the ground state", L.state.GroundState("0^+_1", 0, 1))
    e = watch("the excited state", L.state.State("1^-_1", 2, -1, r.uniform(1.0, 8.0), {"0^+_1": 1e-6}))
    i = watch("the isotope", L.isotope.Isotope("%dXx" % r.randrange(1, 200), r.uniform(1, 200), ground_state=g, excited_states=[e] if r.random() < 0.5 else {"1": e}))
    watch("the element", L.element.Element(1, "Xx", {i.AX: i}, {i.AX: 1.0}, None))


GO = {k[3:]: v for k, v in list(globals().items()) if k.startswith("go_")}


def perform(w, c, s):
    """one operation whose arguments and results are dropped at once; returns weak references to them"""
    refs = []

    def watch(what, x):
        try:
            refs.append((what, weakref.ref(x)))
        except TypeError:
            pass  # numbers, tuples, ...
        return x

    r = random.Random("leak/%d" % s["u"])
    c.warns = []
    blk, c.block = c.block, 0
    how = "completed"
    try:
        GO[s["do"]](w, s, r, watch)
    except kernel.SimAbort:
        raise
    except BaseException as e:
        how = "injected" if any(e is x for x in c.exc_fired) else "failed with %s" % type(e).__name__
        forget(e)
    c.block = blk
    c.warns = []
    for e in c.exc_fired:
        forget(e)
    return refs, how


def forget(e, depth=0):
    """the caller drops the traceback of an exception it caught"""
    if e is None or depth > 10:
        return
    e.__traceback__ = None
    forget(e.__context__, depth + 1)
    forget(e.__cause__, depth + 1)


@op("retain", "C17")
def op_retain(w, c, s):
    refs, how = perform(w, c, s)
    w.sim.note("retain", c.idx, c.op, how, len(refs))
    w.sim.count("dropped after it %s" % ("was interrupted" if how == "injected" else "completed" if how == "completed" else "failed"))
    gc.collect()
    w.evals += len(refs)
    left = sorted({what for what, x in refs if x() is not None})
    if left:
        w.fail(c, "kept-alive", ["C17"], "%s (%s): still alive after the caller dropped it: %s" % (s["do"], how, ", ".join(left)))


# ------------------------------------------------------------------------------------------------
# growth: many different operations of one kind must not make the library hold more and more

WARM, STEP = 1100, 150


def footprint(w, extra=()):
    """a size for everything reachable from the library's modules, classes and the given objects"""
    import sys

    seen = set()
    todo = []
    for n, m in list(sys.modules.items()):
        if n == "ries" or n.startswith("ries."):
            todo.append(m.__dict__)
    todo.extend(extra)
    size = 0
    while todo:
        o = todo.pop()
        i = id(o)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(o, np.ndarray):
            size += 1 + o.size
            if o.dtype != object:
                continue
        elif isinstance(o, (dict, list, set, tuple, frozenset)):
            size += 1 + len(o)
        elif isinstance(o, (str, bytes)):
            continue
        elif isinstance(o, types.ModuleType):
            continue
        elif isinstance(o, type):
            if not ours(o.__module__):
                continue
            size += 1
        elif isinstance(o, types.FunctionType):
            if not ours(o.__module__):
                continue
            size += 1
        elif isinstance(o, (types.CodeType, types.FrameType, types.BuiltinFunctionType, types.MethodType, types.GetSetDescriptorType)):
            continue
        else:
            if type(o).__module__.startswith(("threading", "dst.", "numpy.random")):
                continue
            size += 1
        if isinstance(o, dict) and "__warningregistry__" in o:
            todo.extend(v for k, v in o.items() if k != "__warningregistry__")
            continue
        todo.extend(gc.get_referents(o))
    return size


def ours(n):
    return n is not None and (n == "ries" or n.startswith("ries."))


def cheap(w, s):
    """a function performing the i-th of a series of different operations"""
    L, do = w.lib, s["do"]
    obj = w.objs[s["obj"]][0] if s.get("obj") in w.objs else None
    at = s.get("at", 1.0)
    step = at * 1e-9
    if do == "eval":
        return lambda i: obj(at + i * step)
    if do == "dist":
        return lambda i: obj.probability_distribution.cdf(at + i * step, *obj.probability_distribution_parameters)
    if do == "egrid":
        return lambda i: obj.equidistant_energy_grid((at, at + 1.0 + i * 1e-6), 3)
    if do == "kn":
        return lambda i: obj.cs_total(1.0 + i * 1e-6)
    if do == "debye":
        return lambda i: L.de.effective_temperature_debye_approximation(290.0 + i * 1e-3, 200.0)
    if do in ("doppler", "mb"):
        return lambda i: L.mb.MaxwellBoltzmann(11.0, 290.0 + i * 1e-3).get_doppler_width(2.0 + i * 1e-3)
    if do == "build":
        mk = lambda i: w.construct(dict(s["spec"]))[0]()
        return mk
    if do == "combine":
        a = w.construct(dict(s["spec"]))[0]()
        return lambda i: (a + float(i)) * (1.0 + i * 1e-3)
    if do == "read_density":
        p = w.files[s["obj"]].path
        return lambda i: L.ned.Geant4DensityDataReader(p, lambda v: v + i).read_density_data("H")
    if do == "darboux":
        x = np.array([0.0, 1.0, 2.0])
        return lambda i: L.da.darboux(lambda v: v + i, x + i * 1e-6)
    if do == "nuclei":
        return lambda i: L.isotope.Isotope("%dXx" % i, 1.0 + i, excited_states=[L.state.State("x", 2, -1, 1.0 + i, {"g": 1e-6 + i})])
    raise ValueError(do)


@op("growth", "C17")
def op_growth(w, c, s):
    f = cheap(w, s)
    extra = [v[0] for v in w.objs.values() if not isinstance(v[0], w.lib.CallerCS)]
    n = 0
    sizes = []
    for k in (WARM, STEP, STEP):
        for _ in range(k):
            n += 1
            try:
                f(n)
            except Exception:
                return  # decided by other properties
        gc.collect()
        sizes.append(footprint(w, extra))
    c.warns = []
    w.evals += 1
    w.sim.count("series of %d operations" % n)
    if sizes[1] - sizes[0] >= 0.9 * STEP and sizes[2] - sizes[1] >= 0.9 * STEP:
        w.fail(c, "growth", ["C17"], "%s: what the library holds grows with every operation: %s after %d, %d, %d operations" % (
            s["do"], sizes, WARM, WARM + STEP, WARM + 2 * STEP))

"""Operations callers perform, each with its oracle."""
import functools
import math
import os
import random
import re

import numpy as np
from scipy.integrate import nquad

from . import kernel, refmodel as rm
from .seams import LIB
from .world import (
    CB_EXC, RTOL, OP_PROPS, World, brief, callback_point, canon, flat_terms, is_constant, make_array, op,
    probe_energies, check_db, close, without_terms,
)


def user_warnings(o):
    return [str(m) for m, cat in o.warns if issubclass(cat, UserWarning)]


# ------------------------------------------------------------------------------------------------
# evaluation


def eval_props(ref):
    p = ["C05"]
    if ref.kind == "sum":
        p.append("C04")
    return p


@op("eval", "C05")
def op_eval(w, c, s):
    obj, ref = w.objs[s["obj"]]
    E = w.array(c, s["E"], "E")
    c0 = E.copy() if isinstance(E, np.ndarray) else None
    props = eval_props(ref)
    rel = s.get("rel") and ref.kind in ("uniform", "bw", "gauss", "pv", "voigt")
    if rel:
        Er = ref.d.Er
        x = E - Er
        x0 = np.copy(x)
        o = w.call(c, lambda: obj(x, input_is_absolute_energy=False), props, what="evaluation of " + s["obj"])
        if isinstance(x, np.ndarray):
            w.check_input(c, x, x0, ["C05"], "evaluation of " + s["obj"])
        Eref = np.asarray(x0) + Er
    else:
        o = w.call(c, lambda: obj(E), props, what="evaluation of " + s["obj"])
        Eref = c0 if c0 is not None else E
    w.record(c, o)
    w.again(c, s, o, (lambda: obj(x, input_is_absolute_energy=False)) if rel else (lambda: obj(E)), "evaluation of " + s["obj"])
    if c0 is not None:
        w.check_input(c, E, c0, ["C05"], "evaluation of " + s["obj"])
    if o.cls != "ok":
        return
    w.check_value(c, ref, Eref, o.val, props, s["obj"])
    if any(getattr(t, "memo", False) for t in flat_terms(ref)):
        s = dict(s, scribble_out=False)  # the array may be the caller's own
    finish_array(w, c, s, o.val, E, "result of evaluating " + s["obj"])


def finish_array(w, c, s, val, inp, what):
    """the caller goes on using its arrays: it either keeps the result untouched or overwrites it"""
    if isinstance(val, np.ndarray) and val.ndim:
        if s.get("scribble_out") and val.flags.writeable:
            val[...] = -7.25
            w.sim.count("caller overwrites result")
        else:
            w.remember(val, what)
    if isinstance(inp, np.ndarray) and inp.ndim and s.get("scribble_in") and inp.flags.writeable:
        if not (isinstance(val, np.ndarray) and np.shares_memory(val, inp)):
            inp[...] = 0.123
            w.sim.count("caller overwrites input")
        else:
            w.fail(c, "aliasing", ["C05"], "%s shares memory with the argument" % what)


@op("kn", "C05")
def op_kn(w, c, s):
    obj, ref = w.objs[s["obj"]]
    m = s["m"]
    args = [w.array(c, a, "arg%d" % i) for i, a in enumerate(s["args"])]
    copies = [np.copy(a) for a in args]
    f = {
        "total": (obj.cs_total, ref.value), "call": (obj, ref.value), "edge": (obj.compton_edge, lambda E: ref.ratio(E, math.pi) * E),
        "dOmega": (obj.cs_diff_dOmega, ref.dOmega), "dOmega_unpol": (obj.cs_diff_dOmega_unpolarized, ref.dOmega_unpol),
        "dtheta": (obj.cs_diff_dtheta, ref.dtheta), "dEp": (obj.cs_diff_dEp, ref.dEp), "dEp_dphi": (obj.cs_diff_dEp_dphi, ref.dEp_dphi),
    }
    if ref.mc2 == rm.ME:
        f["theta"] = (obj.theta, ref.theta)
        f["ratio"] = (obj.Ep_over_E, ref.ratio)
    if m not in f:
        m = "total"
    got_f, want_f = f[m]
    k = {"total": 1, "call": 1, "edge": 1, "dOmega": 3, "dEp_dphi": 3}.get(m, 2)
    args, copies = args[:k], copies[:k]
    if m in ("dEp", "dEp_dphi", "theta"):
        # second argument: scattered energy from an angle well inside the kinematic range
        args[1] = ref.ratio(args[0], copies[1]) * args[0]
        copies[1] = np.copy(args[1])
    o = w.call(c, lambda: got_f(*args), ["C05"], what="Compton " + m)
    w.record(c, o)
    w.again(c, s, o, lambda: got_f(*args), "Compton " + m)
    for a, b in zip(args, copies):
        if isinstance(a, np.ndarray):
            w.check_input(c, a, b, ["C05"], "Compton " + m)
    if o.cls != "ok":
        return
    w.evals += 1
    want = want_f(*copies)
    if m == "theta":
        # the angle itself is ill-conditioned near both ends of its range
        ok = np.shape(o.val) == np.shape(want) and w.near(np.cos(o.val), np.cos(want), atol=1e-9 * (1.0 + ref.mc2 / np.min(copies[0])), rtol=0.0) and np.all(
            np.asarray(o.val) >= 0.0) and np.all(np.asarray(o.val) <= math.pi)
    else:
        ok = np.shape(o.val) == np.shape(want) and w.near(o.val, want, rtol=1e-5)
    if not ok:
        w.fail(c, "value", ["C05"], "Compton %s(%s): got %s, expected %s" % (m, ", ".join(brief(a) for a in copies), brief(o.val), brief(want)))
    finish_array(w, c, s, o.val, args[0], "result of Compton " + m)


def check_attrs(w, c, obj, ref, props):
    lv = ref.lv
    for name, want in (
        ("resonance_energy", lv.Er), ("statistical_factor", lv.g), ("final_state_branching_ratio", lv.br),
        ("energy_integrated_cross_section", lv.I),
    ):
        got = getattr(obj, name)
        if not w.near(got, want):
            w.fail(c, "attribute", props, "%s of a %s resonance: got %r, expected %r" % (name, ref.kind, got, want))


@op("build", "C05", "C16")
def op_build(w, c, s):
    mk, ref = w.construct(s["spec"])
    o = w.call(c, mk, ["C05", "C16"], what="construction of " + s["spec"]["type"])
    w.record_obj(c, o)
    w.sim.note("build", c.idx, c.op, o.cls)
    if o.cls != "ok":
        return
    if hasattr(ref, "lv"):
        check_attrs(w, c, o.val, ref, ["C05", "C16"])
    w.objs[s["out"]] = (o.val, ref)


@op("attrs", "C05", "C16")
def op_attrs(w, c, s):
    obj, ref = w.objs[s["obj"]]
    if hasattr(ref, "lv"):
        check_attrs(w, c, obj, ref, ["C05", "C16"])


# ------------------------------------------------------------------------------------------------
# algebra


def terms_of(ref, name):
    return list(ref.terms) if ref.kind == "sum" else [(1.0, ref, name)]


@op("combine", "C04")
def op_combine(w, c, s):
    a, ra = w.objs[s["a"]]
    f = s["f"]
    if f in ("add", "add_r", "sum3"):
        b, rb = w.objs[s["b"]]
        if f == "sum3":
            fn = lambda: sum([a, b, a])
            # the built-in sum starts from the number zero
            ref = rm.RefSum([(1.0, rm.RefConst(0), "#0")] + terms_of(ra, s["a"]) * 2 + terms_of(rb, s["b"]))
        else:
            fn = (lambda: a + b) if f == "add" else (lambda: b + a)
            ref = rm.RefSum(terms_of(ra, s["a"]) + terms_of(rb, s["b"]))
    elif f in ("addn", "naddn"):
        k = make_array(dict(form=s["numform"], vals=[s["num"]])) if s.get("numform") else s["num"]
        fn = (lambda: a + k) if f == "addn" else (lambda: k + a)
        ref = rm.RefSum(terms_of(ra, s["a"]) + [(1.0, rm.RefConst(k), "#")])
    elif f in ("mul", "rmul"):
        k = make_array(dict(form=s["numform"], vals=[s["num"]])) if s.get("numform") else s["num"]
        fn = (lambda: a * k) if f == "mul" else (lambda: k * a)
        ref = rm.RefSum([(k * x, t, n) for x, t, n in terms_of(ra, s["a"])])
    elif f == "iadd":
        # augmented assignment on the caller's own variable
        b, rb = w.objs[s["b"]]

        def fn():
            t = a
            t += b
            return t

        ref = rm.RefSum(terms_of(ra, s["a"]) + terms_of(rb, s["b"]))
    elif f == "imul":
        k = make_array(dict(form=s["numform"], vals=[s["num"]])) if s.get("numform") else s["num"]

        def fn():
            t = a
            t *= k
            return t

        ref = rm.RefSum([(k * x, t, n) for x, t, n in terms_of(ra, s["a"])])
    o = w.call(c, fn, ["C04"], what="combination %s" % f)
    w.record_obj(c, o)
    w.sim.note("combine", c.idx, c.op, o.cls)
    rng = random.Random(s["id"] + "probe")
    names = [s["a"]] + ([s["b"]] if "b" in s else [])
    if o.cls == "ok":
        if any(o.val is w.objs[n][0] for n in w.objs):
            w.fail(c, "aliasing", ["C04"], "%s returned an existing object instead of a new one" % f)
        w.objs[s["out"]] = (o.val, ref)
        names.append(s["out"])
    for n in names:
        obj, r = w.objs[n]
        E = np.array(probe_energies(r, rng, 3))
        try:
            v = obj(E)
        except Exception as e:
            w.fail(c, "object-broken", ["C04"], "%s does not evaluate after %s: %s: %s" % (n, f, type(e).__name__, e))
            continue
        w.check_value(c, r, E, v, ["C04"], "%s after %s" % (n, f))


@op("mutate_sum", "C04")
def op_mutate(w, c, s):
    """the caller changes the lists of its own sum"""
    obj, ref = w.objs[s["obj"]]
    if not isinstance(getattr(obj, "reactions", None), list) or not isinstance(getattr(obj, "scale_factors", None), list):
        return
    other, rother = w.objs[s["other"]]
    m = s["m"]
    w.sim.count("caller changes its own sum")
    if m == "append":
        obj.reactions.append(other)
        obj.scale_factors.append(s["num"])
        new = rm.RefSum(list(ref.terms) + [(s["num"], rother, s["other"])])
    elif m == "clear":
        obj.reactions.clear()
        obj.scale_factors.clear()
        new = rm.RefSum([])
    elif m == "scale":
        # works whether terms are stored flat or nested: all factors are doubled
        for i in range(len(obj.scale_factors)):
            obj.scale_factors[i] *= 2.0
        new = rm.RefSum([(2.0 * x, t, n) for x, t, n in ref.terms])
    w.objs[s["obj"]] = (obj, new)


# ------------------------------------------------------------------------------------------------
# grids


def cdf_tol(d, E):
    E = np.max(np.abs(E)) if np.size(E) else 1.0
    tol = 1e-9 + 16 * 2.3e-16 * E / d.char
    if d.kind in ("pv", "voigt"):
        p = float(d.pdf(d.Er)) * 1.5e-8
        tol += 1e-7 + min(p, 4 * p * p)
    return tol


FALLBACK = re.compile("approximation", re.I)


def fallback_warned(o):
    return any(FALLBACK.search(m) for m in user_warnings(o))


def check_grid(w, c, g, lo, hi, n, props, what):
    """structure of a grid between lo and hi; returns False on failure"""
    w.evals += 1
    if not isinstance(g, np.ndarray) or g.ndim != 1:
        w.fail(c, "grid", props, "%s is not a one-dimensional array: %r" % (what, g if not isinstance(g, np.ndarray) else g.shape))
        return False
    if n is not None and len(g) != n:
        w.fail(c, "grid", props, "%s has %d points instead of %d" % (what, len(g), n))
        return False
    if not len(g) or not np.all(np.isfinite(g)):
        w.fail(c, "grid", props, "%s contains non-finite points: %s" % (what, brief(g)))
        return False
    if np.any(np.diff(g) < 0):
        w.fail(c, "grid", props, "%s is not in non-decreasing order" % what)
        return False
    if g[0] != lo or g[-1] != hi:
        w.fail(c, "grid", props, "%s runs from %r to %r instead of %r to %r" % (what, g[0], g[-1], lo, hi))
        return False
    return True


def equal_steps(w, c, g, props, what):
    d = np.diff(g)
    if np.max(np.abs(d - (g[-1] - g[0]) / (len(g) - 1))) > 1e-9 * (g[-1] - g[0]) + 64 * 2.3e-16 * abs(g[-1]):
        w.fail(c, "grid", props, "%s has unequal steps" % what)


def equal_shares(w, c, d, g, props, what):
    F = d.cdf(g)
    share = np.diff(F)
    want = (F[-1] - F[0]) / (len(g) - 1)
    tol = 3 * cdf_tol(d, g)
    if np.max(np.abs(share - want)) > tol:
        i = int(np.argmax(np.abs(share - want)))
        w.fail(c, "grid-shares", props, "%s: interval %d carries %.9g instead of %.9g (tolerance %.2g)" % (what, i, share[i], want, tol))


@op("egrid", "C06")
def op_egrid(w, c, s):
    obj, ref = w.objs[s["obj"]]
    lo, hi, n = s["lo"], s["hi"], s["n"]
    lim = lims(w, c, s)
    o = w.call(c, lambda: obj.equidistant_energy_grid(lim, n), ["C06"], what="energy grid of " + s["obj"])
    w.record(c, o)
    w.again(c, s, o, lambda: obj.equidistant_energy_grid(lim, n), "energy grid of " + s["obj"])
    if o.cls != "ok":
        return
    if check_grid(w, c, o.val, lo, hi, n, ["C06"], "energy grid of " + s["obj"]):
        equal_steps(w, c, o.val, ["C06"], "energy grid of " + s["obj"])
    own_grid(w, c, o.val, lim, "energy grid of " + s["obj"])
    finish_array(w, c, s, o.val, None, "energy grid")


def own_grid(w, c, g, lim, what):
    """a caller that changes its grid must not thereby change the limits of its next request"""
    if isinstance(g, np.ndarray) and isinstance(lim, np.ndarray) and np.shares_memory(g, lim):
        w.fail(c, "aliasing", ["C06"], "%s is the caller's array of limits" % what)


def lims(w, c, s):
    f = s.get("limform", "tuple")
    v = (s["lo"], s["hi"])
    if s.get("buf") and f == "arr":
        return w.refill(c, "limits", np.array(v))
    if s.get("buf") and f == "list":
        kept = w.buffers.setdefault((c.idx, "limits"), [])
        kept[:] = v
        return kept
    return {"tuple": v, "list": list(v), "arr": np.array(v)}[f]


@op("pgrid", "C06")
def op_pgrid(w, c, s):
    obj, ref = w.objs[s["obj"]]
    if without_terms(ref):
        return
    lo, hi, n = s["lo"], s["hi"], s["n"]
    lim = lims(w, c, s)
    l0 = np.copy(lim)
    what = "equal-probability grid of %s" % s["obj"]
    o = w.call(c, lambda: obj.equidistant_probability_grid(lim, n), ["C06"], what=what)
    w.record(c, o)
    w.again(c, s, o, lambda: obj.equidistant_probability_grid(lim, n), what)
    if isinstance(lim, np.ndarray):
        w.check_input(c, lim, l0, ["C06"], what)
    if o.cls != "ok":
        return
    g = o.val
    if ref.kind == "sum":
        judge_union(w, c, s, obj, ref, g, o, what)
    elif check_grid(w, c, g, lo, hi, n, ["C06"], what):
        if ref.kind in ("const", "poly", "xr", "kn"):
            equal_steps(w, c, g, ["C06"], what)
        elif ref.kind in ("pv", "voigt"):
            failed = any(f.startswith("solver") for f in o.fired)
            fb = fallback_warned(o)
            if not fb:
                equal_shares(w, c, ref.d, g, ["C06", "C10"], what + (" after an unannounced failure of the root finder" if failed else ""))
            elif not failed:
                Q = ref.d.cdf(np.array([lo, hi]))
                if Q[0] > 0.01 and Q[1] < 0.99:
                    w.fail(c, "needless-fallback", ["C06", "C10"], what + ": approximation used although the inversion is well behaved")
        else:
            equal_shares(w, c, ref.d, g, ["C06"], what)
    own_grid(w, c, g, lim, what)
    finish_array(w, c, s, g, None, what)


def judge_union(w, c, s, obj, ref, g, o, what):
    lo, hi, n = s["lo"], s["hi"], s["n"]
    w.evals += 1
    if all(t.kind == "const" and n == "#0" for _, t, n in ref.terms if list(flat_terms(t))) and not np.size(g):
        return
    if not check_grid(w, c, g, lo, hi, None, ["C06"], what):
        return
    if np.any(np.diff(g) <= 0):
        w.fail(c, "grid", ["C06"], what + ": repeated energies")
    if len(g) > n * len(list(flat_terms(ref))):
        w.fail(c, "grid", ["C06"], what + ": more points than the terms' grids together")
    if o.fired or fallback_warned(o):
        return
    # union of the grids of the terms, computed from the terms themselves without faults
    pts, opt = [], []
    for t in sorted({nm for _, _, nm in ref.terms}):
        if t == "#":
            pts.append(np.linspace(lo, hi, n))
        elif t == "#0":
            opt.append(np.linspace(lo, hi, n))  # a zero term may be left out
        else:
            pts.append(w.objs[t][0].equidistant_probability_grid((lo, hi), n))
    if not any(len(p) for p in pts):
        return
    want = np.unique(np.concatenate(pts))
    most = np.unique(np.concatenate(pts + opt))
    # points closer than rounding may be merged or kept
    span = 1e-9 * (hi - lo) + 1e-14 * hi
    i = np.clip(np.searchsorted(g, want), 1, len(g) - 1)
    dist = np.minimum(np.abs(g[i] - want), np.abs(g[i - 1] - want))
    j = np.clip(np.searchsorted(most, g), 1, len(most) - 1)
    dist2 = np.minimum(np.abs(most[j] - g), np.abs(most[j - 1] - g))
    if np.max(dist) > span or np.max(dist2) > span or len(g) > len(most):
        w.fail(c, "grid-union", ["C06"], "%s is not the union of the terms' grids (%d points, expected %d)" % (what, len(g), len(want)))


# ------------------------------------------------------------------------------------------------
# coverage


NEG = re.compile("negative", re.I)
INF = re.compile("infinit", re.I)
NUM = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")


def expected_limits(ref, cov):
    d = ref.d
    q = [0.5 * (1.0 - cov), 0.5 * (1.0 + cov)]
    return d.ppf(np.array(q))


@op("coverage", "C07")
def op_coverage(w, c, s):
    obj, ref = w.objs[s["obj"]]
    d = ref.d
    cov = s["cov"]
    what = "coverage interval of %s for %r" % (s["obj"], cov)
    via = s.get("via", "interval")
    n = s.get("n", 5)
    if via == "interval":
        fn = lambda: obj.coverage_interval(cov)
    elif via == "egrid":
        fn = lambda: obj.equidistant_energy_grid(cov, n)
    else:
        fn = lambda: obj.equidistant_probability_grid(cov, n)
    o = w.call(c, fn, ["C07"], what=what)
    w.record(c, o)
    w.again(c, s, o, fn, what)
    exact = expected_limits(ref, cov)
    msgs = user_warnings(o)
    if o.cls == "warning":
        msgs = msgs + [str(o.exc)]
    if o.cls not in ("ok", "warning"):
        return
    w.evals += 1
    neg = [m for m in msgs if NEG.search(m)]
    inf = [m for m in msgs if INF.search(m)]
    fb = any(FALLBACK.search(m) for m in msgs)
    failed = any(f.startswith("solver") for f in o.fired)
    if d.kind in ("pv", "voigt") and fb:
        lim = d.ppf_fallback(np.array([0.5 * (1 - cov), 0.5 * (1 + cov)]))
    else:
        lim = exact
    margin = 1e-9 + 1e-3 * d.char if d.kind in ("pv", "voigt") else 1e-9 * (d.Er + d.char)
    lo_neg = lim[0] < -margin and exact[0] < -margin
    lo_pos = lim[0] > margin and exact[0] > margin
    if d.kind == "uniform" and d.Er == 0.5 and cov == 1.0:
        lo_pos = True  # the lower limit is exactly zero
    hi_inf = bool(np.isinf(lim[1]))
    if o.cls == "warning":
        m = str(o.exc)
        if NEG.search(m) and lo_pos:
            w.fail(c, "false-warning", ["C07"], what + ": warning although the lower limit is not negative")
        if INF.search(m) and not hi_inf:
            w.fail(c, "false-warning", ["C07"], what + ": warning although the upper limit is finite")
        check_percent(w, c, d, neg, what)
        return
    if lo_neg and len(neg) != 1:
        w.fail(c, "missing-warning", ["C07"], what + ": negative lower limit, %d warnings" % len(neg))
    if lo_pos and neg:
        w.fail(c, "false-warning", ["C07"], what + ": warning although the lower limit is not negative")
    if hi_inf and len(inf) != 1:
        w.fail(c, "missing-warning", ["C07"], what + ": infinite upper limit, %d warnings" % len(inf))
    if not hi_inf and inf:
        w.fail(c, "false-warning", ["C07"], what + ": warning although the upper limit is finite")
    check_percent(w, c, d, neg, what)
    v = o.val
    if via == "interval":
        if len(v) != 2:
            w.fail(c, "coverage", ["C07"], what + ": not a pair")
            return
        a, b = float(v[0]), float(v[1])
    else:
        if not isinstance(v, np.ndarray) or v.shape != (n,):
            w.fail(c, "coverage", ["C07"], what + ": grid of shape %s" % (np.shape(v),))
            return
        a, b = float(v[0]), float(v[-1])
        if np.any(v < 0) or np.any(np.diff(v) < 0) or (not hi_inf and not np.all(np.isfinite(v))):
            w.fail(c, "coverage", ["C07"], what + ": grid %s" % brief(v))
    if a < 0:
        w.fail(c, "negative-limit", ["C07"], what + ": negative lower limit %r returned" % a)
    elif lo_neg and a != 0.0:
        w.fail(c, "coverage", ["C07"], what + ": lower limit %r instead of zero" % a)
    elif lo_pos:
        judge_limit(w, c, d, a, lim[0], 0.5 * (1 - cov), fb, failed, what + ": lower limit")
    if hi_inf:
        if not math.isinf(b):
            w.fail(c, "coverage", ["C07"], what + ": finite upper limit %r" % b)
    else:
        judge_limit(w, c, d, b, lim[1], 0.5 * (1 + cov), fb, failed, what + ": upper limit")
    if via == "interval" and isinstance(v, np.ndarray):
        finish_array(w, c, s, v, None, what)


def judge_limit(w, c, d, got, want, q, fb, failed, what):
    props = ["C07", "C10"] if failed or fb else ["C07"]
    if not math.isfinite(got):
        w.fail(c, "coverage", props, "%s %r, expected %r" % (what, got, want))
    elif fb:
        # a grid consists of two requests, only one of which may have used the approximation
        if abs(got - want) > 1e-6 * (abs(want - d.Er) + d.char) and abs(float(d.cdf(got)) - q) > 2 * cdf_tol(d, got):
            w.fail(c, "coverage", props, "%s %r, documented approximation gives %r" % (what, got, want))
    elif abs(float(d.cdf(got)) - q) > 2 * cdf_tol(d, got):
        w.fail(c, "coverage", props, "%s %r carries probability %.9g instead of %.9g" % (what, got, float(d.cdf(got)), q))


def check_percent(w, c, d, neg, what):
    want = 100.0 * (1.0 - float(d.cdf(0.0)))
    for m in neg:
        nums = [float(x) for x in NUM.findall(m)]
        if not any(abs(x - want) <= 2e-3 or abs(x - want / 100.0) <= 2e-5 for x in nums):
            w.fail(c, "wrong-warning", ["C07"], "%s: warning states %s, reachable coverage is %.6f %%" % (what, nums, want))


# ------------------------------------------------------------------------------------------------
# quantiles


@op("ppf", "C10")
def op_ppf(w, c, s):
    obj, ref = w.objs[s["obj"]]
    d = ref.d
    q = w.array(c, s["q"], "q")
    q0 = np.copy(q)
    dist = obj.probability_distribution
    what = "quantiles of %s" % s["obj"]
    o = w.call(c, lambda: dist.ppf(q, *obj.probability_distribution_parameters), ["C10"], what=what)
    w.record(c, o)
    w.again(c, s, o, lambda: dist.ppf(q, *obj.probability_distribution_parameters), what)
    if isinstance(q, np.ndarray):
        w.check_input(c, q, q0, ["C10"], what)
    failed = any(f.startswith("solver") for f in o.fired)
    if o.cls == "warning":
        if not failed and np.min(q0) >= 0.01 and np.max(q0) <= 0.99 and FALLBACK.search(str(o.exc)):
            w.fail(c, "needless-fallback", ["C10"], what + ": approximation although the inversion is well behaved")
        return
    if o.cls != "ok":
        return
    w.evals += 1
    v = o.val
    if v is None or np.shape(v) != np.shape(q0) or not np.all(np.isfinite(np.asarray(v, float))):
        w.fail(c, "quantile", ["C10"], "%s %s: got %s" % (what, brief(q0), v if v is None else brief(v)))
        return
    fb = fallback_warned(o)
    order = np.argsort(np.ravel(q0), kind="stable")
    vv, qq = np.ravel(np.asarray(v, float))[order], np.ravel(q0)[order]
    tol = cdf_tol(d, vv)
    if fb:
        want = d.ppf_fallback(q0)
        if np.any(np.abs(v - want) > 1e-6 * (np.abs(want - d.Er) + d.char)):
            w.fail(c, "fallback-value", ["C10"], "%s %s: got %s, documented approximation is %s" % (what, brief(q0), brief(v), brief(want)))
        elif not failed and np.min(q0) >= 0.01 and np.max(q0) <= 0.99:
            w.fail(c, "needless-fallback", ["C10"], what + ": approximation although the inversion is well behaved")
    else:
        err = np.abs(d.cdf(vv) - qq)
        if np.any(err > 2 * tol):
            i = int(np.argmax(err))
            w.fail(c, "quantile", ["C10"], "%s: quantile %r returned %r, which has cumulative probability %.9g%s" % (
                what, qq[i], vv[i], float(d.cdf(vv[i])), "; the root finder failed and no warning was issued" if failed else ""))
    if np.any(np.diff(vv) < -1e-9 * d.char - 1e-7 - (0 if fb else 3e-8)):
        w.fail(c, "quantile", ["C10"], what + ": not in the order of the quantiles")
    finish_array(w, c, s, v, q if isinstance(q, np.ndarray) else None, what)


@op("dist", "C05", "C10")
def op_dist(w, c, s):
    """pdf and cdf of the distribution of a resonance"""
    obj, ref = w.objs[s["obj"]]
    d = ref.d
    E = w.array(c, s["E"], "E")
    E0 = np.copy(E)
    m = s["m"]
    o = w.call(c, lambda: getattr(obj.probability_distribution, m)(E, *obj.probability_distribution_parameters), ["C05"], what=m)
    w.record(c, o)
    if isinstance(E, np.ndarray):
        w.check_input(c, E, E0, ["C05"], m)
    if o.cls != "ok":
        return
    w.evals += 1
    want = getattr(d, m)(E0)
    if m == "pdf":
        ok = np.shape(o.val) == np.shape(E0) and w.near(o.val, want, atol=1e-12 * float(d.pdf(d.Er)))
    else:
        ok = np.shape(o.val) == np.shape(E0) and w.near(o.val, want, atol=2e-8 + 1e-15 / d.char)
    if not ok:
        w.fail(c, "value", ["C05", "C10"], "%s of the distribution of %s at %s: got %s, expected %s" % (m, s["obj"], brief(E0), brief(o.val), brief(want)))


# ------------------------------------------------------------------------------------------------
# integration


class Integrand:
    """polynomial/exponential of one to three variables that can fail, call the library, or be shared"""

    def __init__(self, w, spec):
        self.w, self.k = w, spec["coef"]
        self.peak = spec.get("peak")
        self.nested = spec.get("nested")
        self.calls = 0
        self.raise_at = spec.get("raise_at")
        self.exc = None
        self.exc_kind = spec.get("exc", "custom")

    def pure(self, *x):
        k = self.k
        r = k[0] + k[1] * x[0] + k[2] * x[0] ** 2
        for i, v in enumerate(x[1:]):
            r = r * (1.0 + k[3] * (i + 1) * v) + k[4] * v * v * (i + 1)
        if self.peak:
            h, at, g = self.peak
            r = r + h / (1.0 + ((x[0] - at) / g) ** 2)
        return r

    def bound(self, x0, lim):
        """bound of the integral of the absolute value"""
        k = [abs(v) for v in self.k]
        m = float(np.max(np.abs(x0)))
        b = k[0] + k[1] * m + k[2] * m * m + (abs(self.peak[0]) if self.peak else 0.0)
        size = float(x0[-1] - x0[0])
        for i, (lo, hi) in enumerate(lim):
            v = max(abs(lo), abs(hi))
            b = b * (1.0 + k[3] * (i + 1) * v) + k[4] * v * v * (i + 1)
            size *= abs(hi - lo)
        return b * size

    def __call__(self, *x):
        self.calls += 1
        callback_point()
        if self.raise_at is not None and self.calls == self.raise_at:
            self.exc = CB_EXC[self.exc_kind]("raised by the integrand")
            self.w.sim.count("integrand raises")
            raise self.exc
        r = self.pure(*x)
        if self.nested:
            L = self.w.lib
            n = self.nested
            if n == "darboux":
                g = np.array([0.0, 0.5, 1.0])
                L.da.darboux(np.array([1.0, 2.0, 1.5]), g)
            elif n == "quad" and np.ndim(x[0]) == 0:
                v = L.qp.quad_partition(lambda t: 1.0 + t, np.array([0.0, 1.0]))[0]
                r = r * (v / 1.5)
            elif n == "eval" and self.w.objs:
                name = sorted(self.w.objs)[0]
                self.w.objs[name][0](2.2)
        return r


@op("darboux", "C08")
def op_darboux(w, c, s):
    x = w.array(c, s["x"], "x")
    x0 = x.copy()
    f = shared_integrand(w, s)
    vals = f.pure(x0)
    if s.get("inf"):
        vals[s["inf"][0] % len(vals)] = s["inf"][1] * np.inf if s["inf"][1] else np.nan
    v0 = vals.copy()
    if s["x"].get("buf"):
        vals = w.refill(c, "values", vals)
    if s["mode"] == "values":
        fn = lambda: w.lib.da.darboux(vals, x)
    else:
        fn = lambda: w.lib.da.darboux(f, x)
    o = w.call(c, fn, ["C08"], allow=cb_allow(f), what="Darboux sum")
    w.record(c, o)
    w.check_input(c, x, x0, ["C08"], "Darboux sum")
    w.check_input(c, vals, v0, ["C08"], "Darboux sum")
    if not judge_callback(w, c, f, o, "Darboux sum"):
        return
    w.evals += 1
    if np.isnan(v0).any():
        return
    dx = np.diff(x0)
    lo = np.minimum(v0[1:], v0[:-1])
    hi = np.maximum(v0[1:], v0[:-1])
    if s.get("inf") and np.any(dx == 0):
        return  # no value is right for infinity times zero
    if s.get("inf"):
        L = float(np.sum(lo * dx))
        k = np.isfinite(lo * dx)
        if len(o.val) != 2 or (o.val[0] != L if math.isinf(L) else abs(o.val[0] - L) > 1e-10 * np.sum(np.abs(lo * dx))) or o.val[1] != np.inf:
            w.fail(c, "integral", ["C08"], "Darboux sum with an infinite value: got %s, expected (%r, inf)" % (o.val, L))
        return
    L, U = math.fsum(lo * dx), math.fsum(hi * dx)
    sc = float(np.sum(np.abs(v0[1:] * dx)) + np.sum(np.abs(v0[:-1] * dx))) + 1e-300
    # from right to left only the second number has one meaning
    if len(o.val) != 2 or (abs(o.val[0] - L) > 1e-10 * sc and not s.get("down")) or abs(o.val[1] - abs(U - L)) > 1e-10 * sc or o.val[1] < 0:
        w.fail(c, "integral", ["C08"], "Darboux sum: got %s, expected (%r, %r)" % (o.val, L, abs(U - L)))


def cb_allow(f):
    return (CB_EXC[f.exc_kind],) if f.raise_at is not None else ()


def judge_callback(w, c, f, o, what):
    """True if there is a result to judge"""
    if f.exc is not None:
        if o.cls in ("injected",):
            return False
        if o.exc is None:
            w.fail(c, "swallowed-exception", ["C08", "C09"], "%s returned %s although the integrand raised %r" % (what, o.val, f.exc))
        elif o.exc is not f.exc:
            w.fail(c, "changed-exception", ["C08", "C09"], "%s raised %r although the integrand raised %r" % (what, o.exc, f.exc))
        return False
    if o.cls == "allowed":
        w.fail(c, "unexpected-exception", ["C08"], "%s raised %r" % (what, o.exc))
        return False
    return o.cls == "ok"


def shared_integrand(w, s):
    """an integrand of its own, or one used by several callers at once"""
    if s.get("share"):
        return w.shared.setdefault(s["share"], Integrand(w, dict(s["f"], raise_at=None)))
    return Integrand(w, s["f"])


@op("quad", "C08")
def op_quad(w, c, s):
    x = w.array(c, s["x"], "x")
    x0 = x.copy()
    lim = s.get("limits")
    f = shared_integrand(w, s)
    if lim is None:
        fn = lambda: w.lib.qp.quad_partition(f, x)
        L = []
    else:
        L = np.array(lim) if s.get("limform") == "arr" else [list(v) for v in lim]
        L0 = np.copy(L)
        fn = lambda: w.lib.qp.quad_partition(f, x, L)
    o = w.call(c, fn, ["C08"], allow=cb_allow(f), what="partitioned integral")
    w.record(c, o)
    w.check_input(c, x, x0, ["C08"], "partitioned integral")
    if lim is not None and not np.array_equal(np.asarray(L), L0):
        w.fail(c, "input-modified", ["C08"], "partitioned integral modified its limits")
    if not judge_callback(w, c, f, o, "partitioned integral"):
        return
    w.evals += 1
    tot, err = 0.0, 0.0
    for i in range(len(x0) - 1):
        r = nquad(f.pure, [[x0[i], x0[i + 1]]] + [list(v) for v in (lim or [])])
        tot += r[0]
        err += r[1] ** 2
    err = math.sqrt(err)
    sc = f.bound(x0, lim or [])
    if len(o.val) != 2 or abs(o.val[0] - tot) > 1e-9 * sc or abs(o.val[1] - err) > 1e-6 * err + 1e-16 * sc:
        w.fail(c, "integral", ["C08"], "partitioned integral: got %s, expected (%r, %r)" % (o.val, tot, err))


# ------------------------------------------------------------------------------------------------
# thermal


@op("debye", "C12")
def op_debye(w, c, s):
    T, TD = w.array(c, s["T"], "T"), w.array(c, s["TD"], "TD")
    T0, TD0 = np.copy(T), np.copy(TD)
    zero = bool(np.any(T0 == 0))
    o = w.call(c, lambda: w.lib.de.effective_temperature_debye_approximation(T, TD), ["C12"],
               allow=(ZeroDivisionError,) if zero else (), what="effective temperature")
    w.record(c, o)
    w.again(c, s, o, lambda: w.lib.de.effective_temperature_debye_approximation(T, TD), "effective temperature")
    for a, b in ((T, T0), (TD, TD0)):
        if isinstance(a, np.ndarray):
            w.check_input(c, a, b, ["C12"], "effective temperature")
    if zero:
        if o.cls == "ok":
            w.fail(c, "thermal", ["C12"], "no exception for zero temperature: %s" % brief(o.val))
        return
    if o.cls != "ok":
        return
    w.evals += 1
    bT, bD = np.broadcast_arrays(T0, TD0)
    want = np.array([rm.debye_T_eff(float(a), float(b)) for a, b in zip(bT.ravel(), bD.ravel())]).reshape(bT.shape)
    got = np.asarray(o.val, float)
    if got.shape != want.shape or not w.near(got, want, rtol=2e-8):
        w.fail(c, "thermal", ["C12"], "effective temperature of T=%s, T_D=%s: got %s, expected %s" % (brief(T0), brief(TD0), brief(got), brief(want)))
    elif np.any(got < bT * (1 - 1e-9)) or np.any(got < 0.375 * bD * (1 - 1e-9)):
        w.fail(c, "thermal", ["C12"], "effective temperature below its bounds")
    finish_array(w, c, s, o.val, T if isinstance(T, np.ndarray) else None, "effective temperatures")


@op("doppler", "C12")
def op_doppler(w, c, s):
    amu, T = s["amu"], s["T"]
    E = w.array(c, s["E"], "E")
    E0 = np.copy(E)
    if s.get("shared") and (amu, T) not in w.mbs:
        w.mbs[amu, T] = w.lib.mb.MaxwellBoltzmann(amu, T)
    mb = w.mbs.get((amu, T))

    def fn():
        m = mb or w.lib.mb.MaxwellBoltzmann(amu, T)
        d = m.get_doppler_width(E)
        return d, w.lib.mb.MaxwellBoltzmann.get_effective_temperature(d, amu, E)

    o = w.call(c, fn, ["C12"], what="Doppler width")
    w.record(c, o)
    if isinstance(E, np.ndarray):
        w.check_input(c, E, E0, ["C12"], "Doppler width")
    if o.cls != "ok":
        return
    w.evals += 1
    d, t = o.val
    want = rm.doppler_width(E0, amu, T)
    if np.shape(d) != np.shape(E0) or not w.near(d, want):
        w.fail(c, "thermal", ["C12"], "Doppler width at %s: got %s, expected %s" % (brief(E0), brief(d), brief(want)))
    if np.shape(t) != np.shape(E0) or not w.near(t, T + 0 * want):
        w.fail(c, "thermal", ["C12"], "temperature from Doppler width: got %s, expected %r" % (brief(t), T))
    finish_array(w, c, s, d, E if isinstance(E, np.ndarray) else None, "Doppler widths")


# ------------------------------------------------------------------------------------------------
# reading files


class Conv:
    """caller-supplied conversion: affine, remembers what it was given, can fail or call the library"""

    def __init__(self, w, spec):
        self.w = w
        self.a, self.b = spec.get("a", 1.0), spec.get("b", 0.0)
        self.raise_at = spec.get("raise_at")
        self.nested = spec.get("nested")
        self.exc_kind = spec.get("exc", "custom")
        self.exc = None
        self.seen = []
        self.calls = 0

    def pure(self, v):
        return self.a * v + self.b

    def __call__(self, v):
        self.calls += 1
        callback_point()
        if self.raise_at is not None and self.calls == self.raise_at:
            self.exc = CB_EXC[self.exc_kind]("raised by the conversion")
            self.w.sim.count("conversion raises")
            raise self.exc
        self.seen.extend(float(x) for x in np.ravel(v))
        if self.nested and self.w.objs:
            self.w.objs[sorted(self.w.objs)[0]][0](1.7)
        return self.pure(v)


def shape_of(k, form):
    """the same conversion in another form of callable"""
    if form == "method":
        return k.__call__
    if form == "partial":
        return functools.partial(k)
    if form == "wraps":
        # decorated function: what is decorated is not what the caller asked for
        @functools.wraps(lambda v: v)
        def inner(v):
            return k(v)

        return inner
    return k


def conv_of(w, spec):
    return None if spec is None else Conv(w, spec)


def judge_conv(w, c, convs, o, what):
    """True if there is a result to judge"""
    excs = [k.exc for k in convs if k is not None and k.exc is not None]
    if excs:
        if o.cls == "injected":
            return False
        if o.exc is None:
            w.fail(c, "swallowed-exception", ["C13", "C09"], "%s succeeded although a conversion raised %r" % (what, excs[0]))
        elif not any(o.exc is e for e in excs):
            w.fail(c, "changed-exception", ["C13", "C09"], "%s raised %r although a conversion raised %r" % (what, o.exc, excs[0]))
        return False
    if o.cls == "allowed":
        w.fail(c, "unexpected-exception", ["C02", "C13"], "%s raised %r" % (what, o.exc))
        return False
    return o.cls == "ok"


def conv_allow(convs):
    return tuple({CB_EXC[k.exc_kind] for k in convs if k is not None and k.raise_at is not None})


def get_path(w, s):
    """(path given to the library, function giving the admissible texts after the call)"""
    if "file" in s:
        f = w.files[s["file"]]
        m = f.mark()
        return f.path, lambda: [f.versions[v] for v in dict.fromkeys(f.since(m))]
    p = os.path.join(LIB, s["shipped"])
    return p, lambda: [shipped_text(s["shipped"])]


def cut_errors(w, s):
    """a file cut inside a record may be refused"""
    return (ValueError, IndexError, TypeError, KeyError, EOFError, UnboundLocalError) if "file" in s and w.files[s["file"]].cut else ()


def cuts(w, s, texts):
    """admissible readings of a file cut inside a record: with and without the incomplete part"""
    if not ("file" in s and w.files[s["file"]].cut):
        return texts
    r = []
    for t in texts:
        r += [t, t[: t.rfind("\n") + 1], t[: t.rfind("\n\n") + 2] if "\n\n" in t else t]
    return r


_texts = {}


def shipped_text(rel):
    if rel not in _texts:
        with open(os.path.join(LIB, rel), "rb") as f:
            _texts[rel] = f.read().decode()
    return _texts[rel]


def as_path(p, form):
    if form == "path":
        from pathlib import Path

        return Path(p)
    return p


@op("read_xr", "C02", "C13")
def op_read_xr(w, c, s):
    path, texts = get_path(w, s)
    via = s.get("via", "new")
    ec, xc = conv_of(w, s.get("econv")), conv_of(w, s.get("xconv"))
    convs = [k for k in (ec, xc) if k is not None]
    X = w.lib.xr.XRMAC
    kw = {}
    if ec is not None:
        kw["energy_conversion"] = shape_of(ec, s["econv"].get("form"))
    if xc is not None:
        kw["xrmac_conversion"] = shape_of(xc, s["xconv"].get("form"))
    fac = 1.0
    if via == "new":
        fn = lambda: X(str(path), **kw)
    elif via == "method":
        # reads through an object made from an array
        base = X(np.array([[1.0, 2.0], [2.0, 3.0]]), **kw)
        fn = lambda: base.read_nist_xrmac(str(path))
    elif via == "again":
        # the same object reads twice
        base = X(np.array([[1.0, 2.0], [2.0, 3.0]]), **kw)

        def fn():
            base.read_nist_xrmac(str(path))
            return base.read_nist_xrmac(str(path))
    elif via == "reread":
        # a table made from the file reads the file once more

        def fn():
            base.append(X(str(path), **kw))
            return base[0].read_nist_xrmac(str(path))

        base = []
    elif via == "obj":
        # a table other callers use reads a file
        base = w.objs[s["obj"]][0]
        convs, ec, xc = [], None, None
        fn = lambda: base.read_nist_xrmac(str(path))
    else:  # a shipped table reads a file with its own conversion
        d = w.lib.xr.xrmac_fm2_per_atom if via == "ship_fm" else w.lib.xr.xrmac_cm2_per_g
        base = d[s["sym"]]
        if via == "ship_fm":
            fac = 1e26 * rm.golden()["elements"][s["sym"]]["amu"] * rm.U_G
        convs, ec, xc = [], None, None
        fn = lambda: base.read_nist_xrmac(str(path))
    props = ["C02"] + (["C13"] if convs or via.startswith("ship") else [])
    parse = []
    o = w.call(c, fn, props, allow=conv_allow(convs) + (IndexError, ValueError, EOFError), what="reading an attenuation table")
    for t in texts():
        try:
            parse.append(rm.parse_xrmac(t))
        except rm.Incomplete:
            parse.append(None)
    w.record(c, o, lambda v: v.data if via == "new" else v)
    what = "attenuation table from %s" % os.path.basename(str(path))
    if o.cls == "allowed" and not any(k.exc for k in convs):
        # a table with an empty line may be refused
        if not any(p is None or len(p) < 2 for p in parse) and not any(re.search(r"\n[ \t]*\n", t + "\n") for t in texts()):
            w.fail(c, "unexpected-exception", props, "%s raised %r" % (what, o.exc))
        return
    if not judge_conv(w, c, convs, o, what):
        return
    w.evals += 1
    data = np.asarray(o.val.data if via == "new" else o.val, float)
    good = [p for p in parse if p is not None]
    if not good:
        w.fail(c, "partial-read", props, "%s: values returned although the last record is incomplete" % what)
        return
    ef = ec.pure if ec else (lambda v: v)
    xf = (lambda v: fac * v) if xc is None else xc.pure
    ok = False
    for p in good:
        p = np.array(p)
        want = np.column_stack([ef(p[:, 0]), xf(p[:, 1]), xf(p[:, 2])])
        if data.shape == want.shape and np.allclose(data, want, rtol=1e-7 if via == "ship_fm" else 1e-10, atol=0):
            ok = True
            break
    if not ok:
        w.fail(c, "records", props, "%s: %d records returned do not equal the %s records of the file%s" % (
            what, len(data), [len(p) for p in good], first_diff(data, want)))
        return
    if via == "new":
        ref = rm.RefTable(want[:, 0], want[:, 1])
        rng = random.Random(s["id"])
        E = np.array(probe_energies(ref, rng, 4))
        v = o.val(E)
        w.check_value(c, ref, E, v, props, what)
        if s.get("out"):
            w.objs[s["out"]] = (o.val, ref)
    if via == "reread":
        for p2 in good:
            p2 = np.array(p2)
            own = np.column_stack([ef(p2[:, 0]), xf(p2[:, 1]), xf(p2[:, 2])])
            if np.shape(base[0].data) == own.shape and np.allclose(base[0].data, own, rtol=1e-10, atol=0):
                break
        else:
            w.fail(c, "records", props, "%s: the table itself changed when the file was read once more%s" % (what, first_diff(np.asarray(base[0].data, float), own)))
    k = 2 if via in ("again", "reread") else 1
    if len(parse) > 1:
        return
    if ec is not None and sorted(ec.seen) != sorted(list(p[:, 0]) * k):
        w.fail(c, "conversion-count", ["C13"], "%s: energy conversion saw %d values for %d records" % (what, len(ec.seen), len(p)))
    if xc is not None and xc is not ec and sorted(xc.seen) != sorted((list(p[:, 1]) + list(p[:, 2])) * k):
        w.fail(c, "conversion-count", ["C13"], "%s: coefficient conversion saw %d values for %d records" % (what, len(xc.seen), len(p)))


def first_diff(a, b):
    if a.shape != b.shape:
        return " (shape %s, expected %s)" % (a.shape, b.shape)
    i = np.argwhere(~np.isclose(a, b, rtol=1e-10, atol=0))
    if not len(i):
        return ""
    i = tuple(i[0])
    return " (first at %s: %r, expected %r)" % (i, float(a[i]), float(b[i]))


@op("ship_conv", "C13", "C03")
def op_ship_conv(w, c, s):
    """conversion kept by a shipped table, applied later"""
    sym = s["sym"]
    t = w.lib.xr.xrmac_fm2_per_atom[sym]
    o = w.call(c, lambda: (t.xrmac_conversion(s["v"]), t.energy_conversion(s["v"])), ["C13"], what="shipped conversion")
    w.record(c, o)
    if o.cls != "ok":
        return
    w.evals += 1
    want = s["v"] * 1e26 * rm.golden()["elements"][sym]["amu"] * rm.U_G
    if not w.near(o.val[0], want) or o.val[1] != s["v"]:
        w.fail(c, "conversion", ["C13"], "conversion of the shipped table of %s: got %s, expected %r" % (sym, o.val, want))


@op("read_symbols", "C02")
def op_read_symbols(w, c, s):
    path, texts = get_path(w, s)
    p = as_path(path, s.get("pform"))
    r = w.readers.setdefault((str(p), "el"), w.lib.ned.NISTElementDataReader(p)) if s.get("reuse") else w.lib.ned.NISTElementDataReader(p)
    o = w.call(c, lambda: r.read_nist_element_symbols(), ["C02"], allow=cut_errors(w, s) + (ValueError, TypeError), what="reading the symbols")
    w.record(c, o)
    if o.cls != "ok":
        # masses are not asked for: a reader may or may not look at them
        if o.cls == "allowed" and not cut_errors(w, s) and not any(rm.BAD in v or None in v for t in texts() for x in rm.parse_nist(t)[0].values() for v in x.values()):
            w.fail(c, "unexpected-exception", ["C02"], "reading the symbols raised %r" % o.exc)
        return
    w.evals += 1
    wants = [{z: x for z, x in rm.parse_nist(t)[1].items() if x} for t in cuts(w, s, texts())]
    if {z: x for z, x in o.val.items() if x} not in wants:
        w.fail(c, "records", ["C02"], "symbols read from %s: %s, expected %s" % (os.path.basename(path), brief_map(o.val), [brief_map(x) for x in wants]))


def brief_map(m):
    return str(dict(list(m.items())[:6])) + ("..." if len(m) > 6 else "")


@op("read_element", "C02")
def op_read_element(w, c, s):
    path, texts = get_path(w, s)
    Z = s["Z"]
    p = as_path(path, s.get("pform"))
    r = w.readers.setdefault((str(p), "el"), w.lib.ned.NISTElementDataReader(p)) if s.get("reuse") else w.lib.ned.NISTElementDataReader(p)
    o = w.call(c, lambda: r.read_nist_element_data(Z), ["C02"], allow=cut_errors(w, s) + (ValueError, TypeError), what="reading the isotopes of Z=%d" % Z)
    if o.cls == "ok":
        ab, iso = o.val
        got = {k: (iso[k].amu, ab.get(k)) for k in iso}
        w.record(c, o, lambda v: got)
    else:
        w.record(c, o)
        if o.cls == "allowed" and not cut_errors(w, s) and not any(rm.BAD in v or None in v for t in texts() for x in rm.parse_nist(t)[0].values() for v in x.values()):
            w.fail(c, "unexpected-exception", ["C02"], "reading the isotopes of Z=%d raised %r" % (Z, o.exc))
        return
    w.evals += 1
    wants = [rm.parse_nist(t)[0].get(Z, {}) for t in cuts(w, s, texts())]
    for want in wants:
        if any(rm.BAD in v for v in want.values()):
            continue
        # an isotope without a mass may be left out
        want = {k: v for k, v in want.items() if v[0] is not None or k in got}
        if set(want) == set(got) == set(ab) and all(
            close2(got[k][0], want[k][0]) and close2(got[k][1], want[k][1]) and iso[k].AX == k for k in want
        ):
            break
    else:
        w.fail(c, "records", ["C02"], "isotopes of Z=%d read from %s: %s, expected %s" % (Z, os.path.basename(path), brief_map(got), [brief_map(x) for x in wants]))
        return
    if s.get("edit"):
        # the caller edits the containers it was given
        w.sim.count("caller changes returned containers")
        for k in list(iso):
            iso[k].amu = -1.0
            iso[k].excited_states.append("x") if isinstance(iso[k].excited_states, list) else None
        ab.clear()


def close2(a, b):
    return (a is None and b is None) or (a is not None and b is not None and abs(a - b) <= 1e-14 * abs(b))


@op("read_density", "C02", "C13")
def op_read_density(w, c, s):
    path, texts = get_path(w, s)
    X = s["X"]
    k = conv_of(w, s.get("conv"))
    p = as_path(path, s.get("pform"))
    if k is not None:
        r = w.lib.ned.Geant4DensityDataReader(p, shape_of(k, s["conv"].get("form")))
    else:
        r = w.readers.setdefault((str(p), "de"), w.lib.ned.Geant4DensityDataReader(p)) if s.get("reuse") else w.lib.ned.Geant4DensityDataReader(p)
    twice = k is not None and s.get("twice")
    o = w.call(c, lambda: (twice and r.read_density_data(X), r.read_density_data(X))[1], ["C02"] + (["C13"] if k else []), allow=conv_allow([k]) + cut_errors(w, s) + (ValueError,), what="reading the density of " + X)
    w.record(c, o)
    if o.cls == "allowed" and (k is None or k.exc is None) and (cut_errors(w, s) or any(rm.BAD in rm.parse_density(t).values() for t in texts())):
        return
    if not judge_conv(w, c, [k], o, "density of " + X):
        return
    w.evals += 1
    wants = [rm.parse_density(t).get(X) for t in cuts(w, s, texts())]
    g = k.pure if k else (lambda v: v)
    f = lambda v: v if v == rm.BAD else g(v)
    if not any((want is None and o.val is None) or (want not in (None, rm.BAD) and o.val is not None and close(o.val, f(want), 1e-12)) for want in wants):
        w.fail(c, "records", ["C02"] + (["C13"] if k else []), "density of %s: got %r, expected %r" % (X, o.val, [None if x is None else f(x) for x in wants]))
    elif k is not None and wants[0] is not None and len(wants) == 1 and k.seen != [wants[0]] * (2 if twice else 1):
        w.fail(c, "conversion-count", ["C13"], "density of %s: the conversion saw %s instead of [%r]" % (X, k.seen[:5], wants[0]))


@op("replace", "C02")
def op_replace(w, c, s):
    f = w.files[s["file"]]
    w.sim.count("file replaced")
    f.replace(w, s["v"] % len(f.versions), s["dt"])


# ------------------------------------------------------------------------------------------------
# nuclei


def given_unchanged(w, c, o, what, got, want):
    """the containers the caller passed in are as before, also after a failed definition"""
    if got != want:
        w.fail(c, "nucleus", ["C16"] if o.cls == "ok" else ["C09", "C16"], "the %s passed in have changed: %r, before %r" % (what, got, want))


@op("def_state", "C16")
def op_def_state(w, c, s):
    L = w.lib.state
    pw = dict(s["widths"])
    if s["ground"]:
        fn = lambda: L.GroundState(s["J"], s["two_J"], s["parity"])
        want = dict(J_pi=s["J"], two_J=s["two_J"], parity=s["parity"], excitation_energy=0.0)
    else:
        fn = lambda: L.State(s["J"], s["two_J"], s["parity"], s["E"], pw)
        want = dict(J_pi=s["J"], two_J=s["two_J"], parity=s["parity"], excitation_energy=s["E"], partial_widths=dict(s["widths"]),
                    width=math.fsum(s["widths"].values()))
    o = w.call(c, fn, ["C16"], what="definition of a state")
    w.record_obj(c, o)
    given_unchanged(w, c, o, "partial widths", pw, dict(s["widths"]))
    if o.cls == "ok":
        w.nuc[s["out"]] = ["state", o.val, want]
        check_nuc(w, c, s["out"])


@op("def_iso", "C16")
def op_def_iso(w, c, s):
    L = w.lib.isotope
    gs = w.nuc[s["gs"]] if s.get("gs") else None
    ex = None
    if s.get("ex") is not None:
        if s.get("exform") == "dict":
            ex = {"e%d" % i: w.nuc[n][1] for i, n in enumerate(s["ex"])}
        else:
            ex = [w.nuc[n][1] for n in s["ex"]]
            if s.get("exform") == "tuple":
                ex = tuple(ex)
    given = None if ex is None else (dict(ex) if isinstance(ex, dict) else list(ex))
    kw = {}
    if gs is not None:
        kw["ground_state"] = gs[1]
    if ex is not None:
        kw["excited_states"] = ex
    o = w.call(c, lambda: L.Isotope(s["AX"], s["amu"], **kw), ["C16"], what="definition of an isotope")
    w.record_obj(c, o)
    if ex is not None:
        given_unchanged(w, c, o, "excited states", ex if isinstance(ex, dict) else list(ex), given)
    if o.cls == "ok":
        w.nuc[s["out"]] = ["iso", o.val, dict(AX=s["AX"], amu=s["amu"], ground_state=gs[1] if gs else None, excited_states=given if given else [])]
        check_nuc(w, c, s["out"])


@op("extend_iso", "C16")
def op_extend_iso(w, c, s):
    """the caller adds levels to its own isotope"""
    kind, iso, want = w.nuc[s["iso"]]
    st = w.nuc[s["state"]][1]
    w.sim.count("caller extends its isotope")
    if isinstance(iso.excited_states, list):
        iso.excited_states.append(st)
        want["excited_states"] = list(want["excited_states"]) + [st]
    elif isinstance(iso.excited_states, dict):
        iso.excited_states["new" + s["id"]] = st
        d = dict(want["excited_states"] or {})
        d["new" + s["id"]] = st
        want["excited_states"] = d


@op("def_elem", "C16")
def op_def_elem(w, c, s):
    isos = {w.nuc[n][1].AX: w.nuc[n][1] for n in s["isos"]}
    if s.get("from_db"):
        src = w.lib.element.natural_elements[s["from_db"]]
        isos = dict(src.isotopes)
    r = random.Random(s["id"])
    m = s.get("ab", "some")
    ab = {k: r.choice([0.0, 0.0, 0.5]) if m == "zeros" else r.choice([1.0, 0.25]) if m == "equal" else r.uniform(5.0, 95.0) if m == "percent" else r.uniform(0.05, 1.0) for k in isos}
    want_amu = math.fsum(ab[k] * isos[k].amu for k in isos)
    want = dict(Z=s["Z"], X=s["X"], isotopes=dict(isos), abundances=dict(ab), density=s.get("density"), amu=want_amu)
    o = w.call(c, lambda: w.lib.element.Element(s["Z"], s["X"], isos, ab, s.get("density")), ["C16"], what="definition of an element")
    w.record_obj(c, o)
    given_unchanged(w, c, o, "isotopes", isos, want["isotopes"])
    given_unchanged(w, c, o, "abundances", ab, want["abundances"])
    if o.cls == "ok":
        w.nuc[s["out"]] = ["elem", o.val, want]
        check_nuc(w, c, s["out"])
        if s.get("amu_again"):
            o2 = w.call(c, lambda: w.lib.element.Element.amu_from_isotopic_composition(ab, isos), ["C16"], what="mass of a composition")
            if o2.cls == "ok" and not w.near(o2.val, want_amu, rtol=1e-10):
                w.fail(c, "nucleus", ["C16"], "mass of a composition: got %r, expected %r" % (o2.val, want_amu))


def check_nuc(w, c, name, props=("C16",)):
    kind, obj, want = w.nuc[name]
    w.evals += 1
    for k, v in want.items():
        got = getattr(obj, k)
        if k in ("width", "amu", "excitation_energy"):
            ok = got is not None and abs(got - v) <= 1e-10 * abs(v)
        elif k in ("excited_states", "isotopes"):
            ok = same_container(got, v)
        elif k in ("partial_widths", "abundances"):
            ok = dict(got) == dict(v)
        elif k == "ground_state":
            ok = got is v
        else:
            ok = got == v
        if not ok:
            w.fail(c, "nucleus", list(props), "%s of %s %s: got %r, expected %r" % (k, kind, name, got, v))


def same_container(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(got[k] is want[k] for k in want)
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


@op("check_nuc", "C16")
def op_check_nuc(w, c, s):
    for n in s["names"]:
        if n in w.nuc:
            check_nuc(w, c, n)


@op("def_res", "C16")
def op_def_res(w, c, s):
    i, m = w.nuc[s["i"]], w.nuc[s["m"]]
    if m[2].get("width", 0) <= 0 or i[2]["J_pi"] not in m[2].get("partial_widths", {}):
        return
    dE = m[2]["excitation_energy"] - i[2]["excitation_energy"]
    if dE < 0.05:
        return
    lv = dict(init=i[2]["J_pi"], two_J0=i[2]["two_J"], two_J2=m[2]["two_J"], E0=i[2]["excitation_energy"],
              E2=m[2]["excitation_energy"], widths=dict(m[2]["partial_widths"]), final=None, amu=s["amu"], T=s["T"])
    ref = rm.RefRes(s["t"], lv)
    cl = {"bw": w.lib.bw.BreitWigner, "gauss": w.lib.ga.Gauss, "voigt": w.lib.vo.Voigt, "pv": w.lib.pv.PseudoVoigt}[s["t"]]
    fn = (lambda: cl(i[1], m[1])) if s["t"] == "bw" else (lambda: cl(i[1], m[1], s["amu"], s["T"]))
    o = w.call(c, fn, ["C16"], what="definition of a resonance")
    w.record_obj(c, o)
    if o.cls == "ok":
        check_attrs(w, c, o.val, ref, ["C16", "C05"])
        w.objs[s["out"]] = (o.val, ref)


# ------------------------------------------------------------------------------------------------
# database


@op("db_probe", "C03")
def op_db_probe(w, c, s):
    w.evals += 1
    for m in check_db(w.lib, full=False, rng=random.Random(s["id"])):
        w.fail(c, "database", ["C03"], m)


@op("db_use", "C03", "C16")
def op_db_use(w, c, s):
    """uses shared records the way an application does"""
    sym = s["sym"]
    L = w.lib
    g = rm.golden()["elements"][sym]

    def fn():
        e = L.element.natural_elements[sym]
        iso = {k: L.isotope.Isotope(k, e.isotopes[k].amu) for k in e.isotopes}
        return L.element.Element(e.Z, e.X, iso, dict(e.abundances), e.density)

    o = w.call(c, fn, ["C03", "C16"], what="building an element from the database")
    w.record_obj(c, o)
    if o.cls != "ok":
        return
    w.evals += 1
    if not close(o.val.amu, g["amu"], 1e-10):
        w.fail(c, "database", ["C03"], "mass of an element rebuilt from %s: %r, expected %r" % (sym, o.val.amu, g["amu"]))
    for k, i in o.val.isotopes.items():
        if isinstance(i.excited_states, list):
            i.excited_states.append("level")
        i.amu = 0.0
    o.val.abundances.clear()


# ------------------------------------------------------------------------------------------------
# whole calculations


@op("calc", "C15")
def op_calc(w, c, s):
    obj, ref = w.objs[s["obj"]]
    if without_terms(ref):
        return
    L = w.lib
    lo, hi, n, meth = s["lo"], s["hi"], s["n"], s["meth"]
    what = "%s integral of %s" % (meth, s["obj"])

    def fn():
        g = obj.equidistant_probability_grid((lo, hi), n)
        if meth == "darboux":
            return g, L.da.darboux(obj, g)
        if meth == "darboux_values":
            return g, L.da.darboux(obj(g), g)
        return g, L.qp.quad_partition(obj, g)

    o = w.call(c, fn, ["C15"], what=what)
    w.record(c, o)
    if o.cls != "ok":
        return
    g, (val, err) = o.val
    w.evals += 1
    if not check_grid(w, c, g, lo, hi, None, ["C15"], "grid of " + what):
        return
    want, share = 0.0, 0.0
    peaked = 0.0
    for wt, t, _ in terms_of(ref, s["obj"]):
        I, sh = ref_integral(t, lo, hi, g)
        want += wt * I
        peaked += abs(wt) * sh
    tot = abs(want) + 1e-300
    fx = ref.value(g)
    dx = np.diff(g)
    mx, mn = np.maximum(fx[1:], fx[:-1]), np.minimum(fx[1:], fx[:-1])
    Lr, Ur = float(np.sum(mn * dx)), float(np.sum(mx * dx))
    if meth.startswith("darboux"):
        if abs(val - Lr) > 2e-6 * (abs(Ur) + tot) or abs(err - abs(Ur - Lr)) > 2e-6 * (abs(Ur) + tot):
            w.fail(c, "calculation", ["C15"], "%s: got (%r, %r), the sums over the grid are (%r, %r)" % (what, val, err, Lr, abs(Ur - Lr)))
        elif ref.kind not in ("sum", "xr") and not (val - 1e-6 * tot <= want <= val + err + peaked + 1e-6 * tot):
            w.fail(c, "calculation", ["C15"], "%s: got %r with bound %r, the energy-integrated cross section is %r" % (what, val, err, want))
    else:
        tol = s.get("qtol", 1e-5)
        if abs(val - want) > tol * tot + 10 * err and abs(val - same_rule(ref, g)) > tol * tot:
            w.fail(c, "calculation", ["C15"], "%s: got %r +- %r, the energy-integrated cross section is %r" % (what, val, err, want))


def same_rule(ref, g):
    """the adaptive rule applied to the reference: it may itself miss a narrow peak in a wide interval"""
    from scipy.integrate import quad

    return sum(quad(lambda e: float(ref.value(e)), a, b)[0] for a, b in zip(g, g[1:]))


def ref_integral(t, lo, hi, g):
    """(integral of a reference term between lo and hi, contribution of intervals where it is not monotonous)"""
    k = t.kind
    if k == "voigt":
        from scipy.integrate import quad

        pts = np.unique(np.clip(np.concatenate([g, t.d.Er + t.d.char * np.array([-30, -10, -5, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 5, 10, 30])]), lo, hi))
        I = sum(quad(lambda e: float(t.value(e)), a, b, epsabs=0, epsrel=1e-9)[0] for a, b in zip(pts, pts[1:]))
        Er = t.d.Er
        i = np.searchsorted(g, Er)
        if 0 < i < len(g):
            sh = sum(quad(lambda e: float(t.value(e)), a, b, epsabs=0, epsrel=1e-8)[0] for a, b in ((g[i - 1], Er), (Er, g[i])))
        else:
            sh = 0.0
        return I, sh * 1.01
    if k in ("bw", "gauss", "pv", "uniform"):
        F = t.d.cdf(np.array([lo, hi]))
        Er = t.d.Er
        i = np.searchsorted(g, Er)
        sh = 0.0
        if 0 < i < len(g):
            Fi = t.d.cdf(g[i - 1 : i + 1])
            sh = t.lv.I * float(Fi[1] - Fi[0])
        if k == "uniform":
            for edge in (Er - 0.5, Er + 0.5):
                j = np.searchsorted(g, edge)
                if 0 < j < len(g):
                    sh += t.lv.I * (g[j] - g[j - 1])
        return t.lv.I * float(F[1] - F[0]), sh * 1.01 + t.lv.I * 1e-7
    if k == "const":
        return t.c * (hi - lo), 0.0
    if k == "poly":
        return t.a * (hi - lo) + 0.5 * t.b * (hi * hi - lo * lo), 0.0
    x = np.unique(np.concatenate([np.geomspace(lo, hi, 4001), t.E[(t.E > lo) & (t.E < hi)] if k == "xr" else []]))
    xm = 0.5 * (x[1:] + x[:-1])
    I = float(np.sum((t.value(x[1:] * (1 - 1e-12)) + 4 * t.value(xm) + t.value(x[:-1] * (1 + 1e-12))) / 6 * np.diff(x)))
    return I, (0.0 if k == "kn" else 1e-3 * I)


@op("layers", "C15")
def op_layers(w, c, s):
    """photons through several layers: absorbed + transmitted = incident"""
    L = w.lib
    E = np.array(s["E"])
    n0 = 1000.0
    layers = [(w.objs[n][0], w.objs[n][1], d) for n, d in s["layers"]]

    def fn():
        phi = np.full(len(E), n0)
        absorbed = []
        for obj, _, d in layers:
            mu = obj(E)
            if s["mode"] == "exp":
                a = phi * (1.0 - np.exp(-mu * d))
            else:
                # absorption integrated along the layer
                mu = np.asarray(mu) + 0.0 * E
                a = np.array([
                    p * L.qp.quad_partition(lambda z, m=m: m * np.exp(-m * z), np.linspace(0.0, d, 3))[0] for p, m in zip(phi, mu)
                ])
            absorbed.append(a)
            phi = phi * np.exp(-mu * d)
        return absorbed, phi

    o = w.call(c, fn, ["C15"], what="layer calculation")
    w.record(c, o)
    if o.cls != "ok":
        return
    w.evals += 1
    absorbed, phi = o.val
    tot = np.sum(absorbed, axis=0) + phi
    if np.shape(tot) != E.shape or not np.allclose(tot, n0, rtol=1e-6):
        w.fail(c, "conservation", ["C15"], "absorbed plus transmitted photons are %s of %s" % (brief(tot), n0))
    depth = sum(r.value(E) * d for _, r, d in layers)
    if not np.allclose(phi, n0 * np.exp(-depth), rtol=1e-5 * (1 + float(np.max(depth))), atol=1e-9):
        w.fail(c, "conservation", ["C15"], "transmitted photons %s, expected %s" % (brief(phi), brief(n0 * np.exp(-depth))))


@op("refine", "C15")
def op_refine(w, c, s):
    """the reported bound shrinks when points are added"""
    obj, ref = w.objs[s["obj"]]
    if without_terms(ref):
        return
    L = w.lib
    lo, hi = s["lo"], s["hi"]

    def fn():
        r = []
        for n in s["ns"]:
            g = obj.equidistant_probability_grid((lo, hi), n)
            r.append(L.da.darboux(obj, g)[1])
        return r

    o = w.call(c, fn, ["C15"], what="refinement")
    w.record(c, o)
    if o.cls != "ok":
        return
    w.evals += 1
    if fallback_warned(o):
        return
    if not o.val[1] < o.val[0]:
        w.fail(c, "refinement", ["C15"], "error bound of %s grows from %r to %r with %s points" % (s["obj"], o.val[0], o.val[1], s["ns"]))


@op("tick", "C14")
def op_tick(w, c, s):
    """simulated time passes, possibly backwards"""
    w.sim.sim_time = max(0.0, w.sim.sim_time + s["dt"])
    w.sim.count("clock jump")

"""Independent reference model.

Everything here is written from the documentation of the library (formulas, file formats), not from
its code: textbook forms of the formulas, hard-coded CODATA-2018 constants, own parsers of the three
data formats, and frozen values of the published data (golden.json).  Nothing is imported from the
library under test.
"""
import json
import math
import os
import re

import numpy as np
from scipy.special import ndtr, ndtri, wofz

HBARC = 197.3269804  # MeV fm
KB = 8.617333262e-11  # MeV / K
AMU = 931.49410242  # MeV
ALPHA = 7.2973525693e-3
ME = 0.51099895000  # MeV
U_G = 1.66053906660e-24  # atomic mass constant in g

_here = os.path.dirname(os.path.abspath(__file__))
_golden = None


def golden():
    global _golden
    if _golden is None:
        with open(os.path.join(_here, "golden.json")) as f:
            _golden = json.load(f)
    return _golden


# ---------------------------------------------------------------------------------------------
# resonances


class Level:
    """Quantities derived from a level specification (dict), all from the documented formulas."""

    def __init__(self, s):
        self.s = s
        self.E0 = s.get("E0", 0.0)
        self.dE = s["E2"] - self.E0
        self.width = math.fsum(s["widths"].values())
        self.g = (s["two_J2"] + 1.0) / (s["two_J0"] + 1.0)
        self.br = 1.0 if s.get("final") is None else s["widths"][s["final"]] / self.width
        self.g20 = s["widths"][s["init"]]
        rec = s.get("recoil")
        self.Er = self.dE + (self.dE ** 2 / (2.0 * rec * AMU) if rec else 0.0)
        self.I = (math.pi * HBARC / self.Er) ** 2 * self.g * self.g20 * self.br


def doppler_width(E, amu, T):
    return E * np.sqrt(2.0 * KB * T / (amu * AMU))


def voigt_pdf(x, sigma, gamma):
    return wofz((x + 1j * gamma) / (sigma * math.sqrt(2.0))).real / (
        sigma * math.sqrt(2.0 * math.pi)
    )


class Dist:
    """pdf/cdf/ppf of the documented distribution of a resonance model."""

    def __init__(self, kind, s):
        self.kind = kind
        lv = self.lv = Level(s)
        self.Er = lv.Er
        self.scale = lv.width / 2.0
        if kind in ("gauss", "pv", "voigt"):
            self.D = float(doppler_width(self.Er, s["amu"], s["T"]))
            self.sigma = self.D / math.sqrt(2.0)
        if kind in ("pv", "voigt"):
            fL = lv.width
            fG = 2.0 * math.sqrt(math.log(2.0)) * self.D
            f = (
                fG ** 5
                + 2.69269 * fG ** 4 * fL
                + 2.42843 * fG ** 3 * fL ** 2
                + 4.47163 * fG ** 2 * fL ** 3
                + 0.07842 * fG * fL ** 4
                + fL ** 5
            ) ** 0.2
            r = fL / f
            self.eta = 1.36603 * r - 0.47719 * r ** 2 + 0.11116 * r ** 3
            self.pv_sigma = f / (2.0 * math.sqrt(2.0 * math.log(2.0)))
            self.pv_gamma = f / 2.0
        if kind == "uniform":
            self.char = 1.0
        elif kind == "bw":
            self.char = self.scale
        elif kind == "gauss":
            self.char = self.sigma
        else:
            self.char = self.pv_gamma

    def pdf(self, E):
        E = np.asarray(E, dtype=float)
        x = E - self.Er
        k = self.kind
        if k == "uniform":
            return np.where(np.abs(x) <= 0.5, 1.0, 0.0)
        if k == "bw":
            return self.scale / math.pi / (x * x + self.scale * self.scale)
        if k == "gauss":
            return np.exp(-((x / self.D) ** 2)) / (math.sqrt(math.pi) * self.D)
        if k == "voigt":
            return voigt_pdf(x, self.sigma, self.scale)
        return (1.0 - self.eta) * np.exp(-0.5 * (x / self.pv_sigma) ** 2) / (
            math.sqrt(2.0 * math.pi) * self.pv_sigma
        ) + self.eta * self.pv_gamma / math.pi / (x * x + self.pv_gamma ** 2)

    def cdf(self, E):
        E = np.asarray(E, dtype=float)
        x = E - self.Er
        k = self.kind
        if k == "uniform":
            return np.clip(x + 0.5, 0.0, 1.0)
        if k == "bw":
            return 0.5 + np.arctan2(x, self.scale) / math.pi
        if k == "gauss":
            return ndtr(x / self.sigma)
        return (1.0 - self.eta) * ndtr(x / self.pv_sigma) + self.eta * (
            0.5 + np.arctan(x / self.pv_gamma) / math.pi
        )

    def ppf_fallback(self, q):
        q = np.asarray(q, dtype=float)
        with np.errstate(all="ignore"):
            return (1.0 - self.eta) * (self.Er + self.pv_sigma * ndtri(q)) + self.eta * (
                self.Er + self.pv_gamma * self._cauchy(q)
            )

    @staticmethod
    def _cauchy(q):
        return np.where(
            q <= 0, -np.inf, np.where(q >= 1, np.inf, np.tan(math.pi * (np.clip(q, 1e-300, 1) - 0.5)))
        )

    def ppf(self, q):
        q = np.asarray(q, dtype=float)
        k = self.kind
        if k == "uniform":
            return self.Er - 0.5 + q
        if k == "bw":
            return self.Er + self.scale * self._cauchy(q)
        if k == "gauss":
            return self.Er + self.sigma * ndtri(q)
        return np.array([self._bisect(float(v)) for v in np.ravel(q)]).reshape(q.shape)

    def _bisect(self, q):
        if q <= 0:
            return -math.inf
        if q >= 1:
            return math.inf
        lo, hi = -1.0, 1.0
        f = lambda z: float(
            (1 - self.eta) * ndtr(z * self.pv_gamma / self.pv_sigma)
            + self.eta * (0.5 + math.atan(z) / math.pi)
        )
        while f(lo) > q:
            lo *= 2
            if lo < -1e18:
                return -math.inf
        while f(hi) < q:
            hi *= 2
            if hi > 1e18:
                return math.inf
        for _ in range(90):
            m = 0.5 * (lo + hi)
            if f(m) < q:
                lo = m
            else:
                hi = m
        return self.Er + 0.5 * (lo + hi) * self.pv_gamma


# ---------------------------------------------------------------------------------------------
# cross sections


class RefRes:
    def __init__(self, kind, s):
        self.kind = kind
        self.s = s
        self.d = Dist(kind, s)
        self.lv = self.d.lv

    def value(self, E):
        return self.lv.I * self.d.pdf(E)

    def scale_at(self, E):
        return np.abs(self.value(E))

    def atol(self):
        return 1e-12 * self.lv.I * float(self.d.pdf(self.d.Er))


class RefConst:
    kind = "const"

    def __init__(self, c):
        self.c = c

    def value(self, E):
        return self.c + 0.0 * np.asarray(E, dtype=float)

    def scale_at(self, E):
        return np.abs(self.value(E))

    def atol(self):
        return 0.0


class RefPoly:
    """reference of a cross section defined by the caller: a + b*E"""

    kind = "poly"

    def __init__(self, a, b, memo=False):
        self.a, self.b, self.memo = a, b, memo

    def value(self, E):
        return self.a + self.b * np.asarray(E, dtype=float)

    def scale_at(self, E):
        return abs(self.a) + np.abs(self.b * np.asarray(E, dtype=float))

    def atol(self):
        return 0.0


class RefTable:
    """log-log interpolated table with constant continuation."""

    kind = "xr"

    def __init__(self, E, mu):
        self.E = np.asarray(E, float)
        self.mu = np.asarray(mu, float)
        self.lx = np.log(self.E)
        self.ly = np.log(self.mu)

    def value(self, E):
        return np.exp(np.interp(np.log(np.asarray(E, float)), self.lx, self.ly))

    def scale_at(self, E):
        return np.abs(self.value(E))

    def atol(self):
        return 0.0


def golden_table(sym, per_atom):
    g = golden()
    rows = np.array(g["xrmac"][sym])
    f = 1e26 * g["elements"][sym]["amu"] * U_G if per_atom else 1.0
    return rows[:, 0], rows[:, 1] * f, rows[:, 2] * f


class RefKN:
    kind = "kn"

    def __init__(self, Z, mc2):
        self.Z, self.mc2 = Z, mc2
        self.r2 = (ALPHA * HBARC / mc2) ** 2 * Z

    def value(self, E):
        x = np.asarray(E, float) / self.mc2
        L = np.log1p(2 * x)
        v = (1 + x) / x ** 2 * (2 * (1 + x) / (1 + 2 * x) - L / x) + L / (2 * x) - (1 + 3 * x) / (1 + 2 * x) ** 2
        # the closed form cancels at low energies; use its expansion there
        return 2 * math.pi * self.r2 * np.where(x < 2e-3, 4.0 / 3.0 * (1 - 2 * x + 5.2 * x * x - 13.3 * x ** 3), v)

    def scale_at(self, E):
        # the documented closed form loses digits like eps / x^3
        x = np.asarray(E, float) / self.mc2
        return np.abs(self.value(E)) * (1 + 1e-8 / x ** 3)

    def atol(self):
        return 0.0

    def ratio(self, E, th):
        return 1.0 / (1.0 + np.asarray(E, float) / self.mc2 * (1.0 - np.cos(th)))

    def theta(self, E, Ep):
        return np.arccos(1.0 - self.mc2 * (1.0 / Ep - 1.0 / E))

    def dOmega(self, E, th, ph):
        k = self.ratio(E, th)
        return 0.5 * self.r2 * k * k * (k + 1 / k - 2 * np.sin(th) ** 2 * np.cos(ph) ** 2)

    def dOmega_unpol(self, E, th):
        k = self.ratio(E, th)
        return math.pi * self.r2 * k * k * (k + 1 / k - np.sin(th) ** 2)

    def dtheta(self, E, th):
        return self.dOmega_unpol(E, th) * np.sin(th)

    def dEp(self, E, Ep):
        return self.dOmega_unpol(E, self.theta(E, Ep)) * self.mc2 / (Ep * Ep)

    def dEp_dphi(self, E, Ep, ph):
        return self.dOmega(E, self.theta(E, Ep), ph) * self.mc2 / (Ep * Ep)


class RefSum:
    """flat weighted sum"""

    kind = "sum"

    def __init__(self, terms):
        self.terms = list(terms)  # [(weight, ref, name)]

    def value(self, E):
        r = 0.0 * np.asarray(E, float)
        for w, t, _ in self.terms:
            r = r + w * t.value(E)
        return r

    def scale_at(self, E):
        r = 0.0 * np.asarray(E, float)
        for w, t, _ in self.terms:
            r = r + abs(w) * t.scale_at(E)
        return r

    def atol(self):
        return sum((abs(w) * t.atol() for w, t, _ in self.terms), 0.0)


# ---------------------------------------------------------------------------------------------
# thermal


_gl = None


def debye_T_eff(T, TD):
    """3 T (T/TD)^3 int_0^{TD/T} t^3 (1/(e^t-1) + 1/2) dt; the 1/2 term is done analytically."""
    global _gl
    if _gl is None:
        _gl = np.polynomial.legendre.leggauss(80)
    b = TD / T
    top = min(b, 60.0)
    tot = 0.0
    n = max(1, int(math.ceil(top / 4.0)))
    edges = np.linspace(0.0, top, n + 1)
    for i in range(n):
        h = 0.5 * (edges[i + 1] - edges[i])
        t = h * (_gl[0] + 1.0) + edges[i]
        tot += h * float(np.sum(_gl[1] * t ** 3 / np.expm1(t)))
    return 3.0 * T / b ** 3 * tot + 0.375 * TD


# ---------------------------------------------------------------------------------------------
# parsers of the documented file formats


BAD = "not a number"


def number(v):
    try:
        return float(v)
    except ValueError:
        return BAD


def parse_nist(text):
    """{Z: [(A, symbol, mass or None, abundance)]} in file order, complete records only; list of (Z, symbol)"""
    recs = {}
    syms = {}
    cur = {}
    for line in text.split("\n"):
        m = re.match(r"^([A-Z][A-Za-z ]+?) = ?(.*)$", line)
        if not m:
            continue
        key, val = m.group(1), m.group(2).strip()
        if not val and key not in ("Relative Atomic Mass", "Isotopic Composition"):
            continue
        if key == "Atomic Number":
            cur = {"Z": int(val)}
        elif key == "Atomic Symbol":
            cur["X"] = val
            syms.setdefault(cur["Z"], val)
        elif key == "Mass Number":
            cur["A"] = int(val)
        elif key == "Relative Atomic Mass":
            v = val.split("(")[0].strip()
            cur["amu"] = number(v) if v else None
        elif key == "Isotopic Composition":
            v = val.split("(")[0].strip()
            ab = number(v) if v else 0.0
            if {"Z", "X", "A", "amu"} <= set(cur):
                recs.setdefault(cur["Z"], {})["%d%s" % (cur["A"], cur["X"])] = (cur["amu"], ab)
    return recs, syms


def parse_density(text):
    d = {}
    for line in text.split("\n"):
        p = line.split()
        if len(p) == 2 and not line.startswith("#"):
            d.setdefault(p[0], number(p[1]))
    return d


class Incomplete(Exception):
    pass


def parse_xrmac(text):
    rows = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        nums = re.findall(r"(?<![A-Za-z0-9.])\d+\.\d+E[+-]\d+(?![0-9])", line)
        rows.append(nums)
    out = []
    for n in rows:
        if len(n) != 3:
            raise Incomplete()
        out.append([float(v) for v in n])
    return out

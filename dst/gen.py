"""Plan generator: one seed gives one plan (setup, files, callers, operations, faults, configuration)."""
import copy
import math
import random

import numpy as np

from . import refmodel as rm
from .world import FORMS, SCALARS, probe_energies, safe_energy

RES = ("uniform", "bw", "gauss", "pv", "voigt")
REPEATABLE = ("eval", "kn", "egrid", "pgrid", "coverage", "ppf", "debye")

# relative weights of the operations per property; "swarm" profiles drop a random part of them per run
MIX = dict(eval=6, kn=2, dist=2, build=2, attrs=1, combine=4, mutate_sum=1, egrid=1, pgrid=3, coverage=3, ppf=3, darboux=2, quad=1,
           debye=2, doppler=2, read_xr=2, read_symbols=1, read_element=2, read_density=2, ship_conv=1, def_state=1, def_iso=1,
           extend_iso=1, def_elem=1, def_res=1, check_nuc=1, db_probe=1, db_use=1, calc=1, layers=1)

PROFILES = {
    "C02": dict(read_xr=6, read_symbols=2, read_element=5, read_density=4, replace=4),
    "C03": dict(MIX, db_probe=3, db_use=4, def_elem=3, read_xr=4, ship_conv=2),
    "C04": dict(combine=10, eval=5, mutate_sum=3, build=1, pgrid=1, calc=0.5),
    "C05": dict(eval=10, kn=5, dist=3, build=3, attrs=2, combine=1, ppf=1, coverage=0.5, pgrid=0.5),
    "C06": dict(egrid=3, pgrid=10, eval=1, combine=2, ppf=1),
    "C07": dict(coverage=10, eval=1, ppf=1, pgrid=0.5),
    "C08": dict(darboux=6, quad=6, eval=1),
    "C09": dict(MIX, def_elem=2),
    "C10": dict(ppf=8, pgrid=3, coverage=2, dist=2, eval=1),
    "C11": dict(read_xr=6, read_symbols=2, read_element=4, read_density=5, db_use=1),
    "C12": dict(debye=6, doppler=5, eval=1, build=1),
    "C13": dict(read_xr=8, read_density=4, ship_conv=3),
    "C14": dict(MIX, tick=2, read_xr=3, coverage=4),
    "C15": dict(calc=8, layers=4, refine=3, eval=2, combine=2, pgrid=1),
    "C17": dict(retain=14, growth=0.4, eval=1, pgrid=1, ppf=1, coverage=1, quad=1, combine=1, read_xr=1, read_density=1),
    "C18": dict(MIX, db_probe=0, ship_conv=0, eval=8, combine=5, ppf=5, coverage=4, pgrid=4, quad=2),
    "C16": dict(def_state=5, def_iso=5, extend_iso=3, def_elem=4, def_res=4, check_nuc=3, db_use=2, attrs=1, build=1),
}


def generate(prop, seed):
    return Gen(prop, seed).plan()


class Gen:
    def __init__(self, prop, seed):
        self.prop = prop
        self.seed = "%s/%s" % (prop, seed)
        self.r = random.Random("plan/" + self.seed)
        self.specs = {}
        self.refs = {}
        self.nid = 0

    def name(self, p):
        self.nid += 1
        return "%s%d" % (p, self.nid)

    # -- objects ---------------------------------------------------------------------------------
    def level(self, t):
        r = self.r
        E2 = r.choice([r.uniform(0.3, 3.0), r.uniform(1.0, 12.0)])
        lv = dict(init="gs", two_J0=r.randrange(0, 8), two_J2=r.randrange(0, 10), E0=0.0, E2=E2, final=None)
        if r.random() < 0.3:
            lv["E0"] = r.uniform(0.01, 0.6) * E2
        if t == "uniform":
            w = 10 ** r.uniform(-8, -1)
            if r.random() < 0.3:
                lv["recoil"] = r.uniform(4.0, 240.0)
            elif self.prop == "C07" and r.random() < 0.3:
                lv["E0"], lv["E2"] = 0.0, 0.5  # the distribution begins at zero
        elif t in ("bw",):
            w = 10 ** (r.uniform(-7.5, -2) if r.random() < 0.5 else r.uniform(-2, 0.3))
        elif t == "gauss":
            w = 10 ** r.uniform(-9, -2)
        else:
            w = 10 ** (r.uniform(-8, -4) if r.random() < 0.7 else r.uniform(-4, -0.5))
        k = r.randrange(1, 4)
        widths = {"gs": w}
        for i in range(1, k):
            widths["f%d" % i] = w * r.uniform(0.05, 2.0)
        lv["widths"] = widths
        if r.random() < 0.4:
            lv["final"] = r.choice(sorted(widths))
        if t in ("gauss", "pv", "voigt"):
            lv["amu"] = r.uniform(1.0, 240.0)
            lv["T"] = 10 ** r.uniform(1.0, 3.5)
            if t != "gauss" and rm.Dist("pv", lv).pv_gamma < 3e-7:
                lv["amu"], lv["T"] = r.uniform(4.0, 60.0), r.uniform(250.0, 900.0)
                if rm.Dist("pv", lv).pv_gamma < 3e-7:
                    lv["widths"]["gs"] = 1e-6
        return lv

    def spec(self, t, name, pool=()):
        r = self.r
        s = dict(type=t, name=name)
        if t in RES:
            s["lv"] = self.level(t)
            ref = rm.RefRes(t, s["lv"])
        elif t == "const":
            s["c"] = r.choice([0.0, r.uniform(0.1, 5.0), r.randrange(1, 9), 10 ** r.uniform(-9, -3), r.choice([2.5e-7, 2.6e-7, 1.0, 1.0 + 1e-9, True, 3e12])])
            ref = rm.RefConst(s["c"])
        elif t == "poly":
            s["a"], s["b"] = r.uniform(0.1, 3.0), r.uniform(0.05, 2.0)
            ref = rm.RefPoly(s["a"], s["b"])
        elif t == "memo":
            s["a"], s["b"], s["ro"] = r.uniform(0.1, 3.0), r.uniform(0.05, 2.0), r.random() < 0.3
            ref = rm.RefPoly(s["a"], s["b"], memo=True)
        elif t in ("xr_cm", "xr_fm"):
            g = rm.golden()
            s["sym"] = r.choice([x for x in g["xrmac"] if g["elements"][x]["amu"]])
            E, mu, _ = rm.golden_table(s["sym"], t == "xr_fm")
            ref = rm.RefTable(E, mu)
        elif t == "xr_arr":
            n = r.randrange(2, 9)
            E = np.cumsum([r.uniform(0.05, 1.5) for _ in range(n)])
            s["data"] = [[float(e), 10 ** r.uniform(-2, 2)] for e in E]
            d = np.array(s["data"])
            ref = rm.RefTable(d[:, 0], d[:, 1])
        elif t == "kn":
            s["Z"] = r.randrange(1, 93) if r.random() < 0.9 else None
            s["mc2"] = r.choice([None, None, r.uniform(0.3, 2.0), 105.658])
            ref = rm.RefKN(s["Z"] or 1, rm.ME if s["mc2"] is None else s["mc2"])
        elif t == "empty":
            ref = rm.RefSum([])
        elif t == "wsum":
            k = min(len(pool), r.randrange(1, 4))
            s["terms"] = r.sample(sorted(pool), k)
            s["w"] = r.choice([None, [self.weight() for _ in range(k)]])
            ref = rm.RefSum([(1.0 if s["w"] is None else s["w"][i], self.refs[n], n) for i, n in enumerate(s["terms"])])
        return s, ref

    def weight(self):
        r = self.r
        return r.choice([0.0, 1, 2, -1.0, r.uniform(-3, 3), r.uniform(0.01, 10), 1e-3, 0.5])

    def kind_pool(self):
        p = self.prop
        if p == "C10":
            return ["pv", "voigt"]
        if p == "C07":
            return ["bw", "bw", "gauss", "pv", "voigt", "uniform"]
        if p == "C06":
            return list(RES) + ["const", "kn", "xr_cm", "poly", "memo", "wsum", "empty"]
        if p == "C15":
            return ["bw", "gauss", "pv", "voigt", "bw", "gauss", "const", "poly", "memo", "kn", "xr_arr", "wsum"]
        if p in ("C12", "C08", "C13", "C11", "C02"):
            return ["gauss", "const", "bw", "xr_arr"]
        if p == "C04":
            return list(RES) + ["const", "const", "poly", "memo", "memo", "xr_cm", "xr_arr", "kn", "wsum", "wsum", "empty"]
        return list(RES) + ["const", "poly", "memo", "xr_cm", "xr_fm", "xr_arr", "kn", "kn", "wsum", "wsum", "empty"]

    # -- arrays -----------------------------------------------------------------------------------
    def energies(self, ref, form=None):
        r = self.r
        form = form or r.choice(FORMS)
        n = 1 if form in SCALARS else r.choice([1, 2, 4, 7, 12])
        vals = [safe_energy(ref, e) for e in probe_energies(ref, r, n)]
        if form in ("int", "ints"):
            vals = [float(max(1, round(v))) for v in vals]
        return self.long(dict(form=form, vals=vals))

    def in_one_array(self, x, n):
        """the caller uses the same array, filled anew, for one request after the other"""
        for k in ("E", "q", "x", "T", "TD"):
            a = x.get(k)
            if isinstance(a, dict) and a.get("form") in ("1d", "2d", "strided") and self.r.random() < 0.7:
                a["buf"] = True
                if k in ("E", "q") and x["k"] in ("eval", "dist", "ppf") and len(a.get("vals", ())) > n and "size" not in a:
                    a["vals"] = a["vals"][:n]
        for a in x.get("args", ()) if x["k"] == "kn" else ():
            if a.get("form") in ("1d", "2d", "strided"):
                a["buf"] = True
        if x["k"] in ("egrid", "pgrid"):
            x["buf"] = True

    def long(self, spec):
        """now and then a long array (the values repeated)"""
        r = self.r
        if spec["form"] not in SCALARS and r.random() < 0.04:
            spec["size"] = r.choice([65, 129, 255, 257, 500, 513, 1001, 1025, 2049, 4097])
        return spec

    def limits(self, ref, wide=True):
        """an energy range; relative to a resonance it lies around, beside, or far away"""
        r = self.r
        ts = [t for t in flat(ref) if hasattr(t, "d")]
        if ts and r.random() < 0.9:
            d = r.choice(ts).d
            c = d.char
            m = r.random()
            if d.kind == "uniform":
                lo, hi = d.Er - r.uniform(0.05, 0.7), d.Er + r.uniform(0.05, 0.7)
            elif m < 0.6 or not wide:
                lo, hi = d.Er - r.uniform(0.3, 25.0) * c, d.Er + r.uniform(0.3, 25.0) * c
            elif m < 0.75:
                lo = d.Er + r.uniform(0.1, 8.0) * c
                hi = lo + r.uniform(0.2, 20.0) * c
            elif m < 0.9:
                hi = d.Er - r.uniform(0.1, 8.0) * c
                lo = hi - r.uniform(0.2, 20.0) * c
            else:
                lo, hi = r.uniform(0.0, 0.9) * d.Er, d.Er * r.uniform(1.1, 3.0)
            if lo < 0:
                lo = 0.0
            if hi <= lo + 0.05 * c:
                hi = lo + c
            return float(lo), float(hi)
        lo = r.uniform(0.05, 4.0)
        return lo, lo + r.uniform(0.1, 6.0)

    # -- files ------------------------------------------------------------------------------------
    def nist_text(self, cut=False, bad=False, big=False):
        r = self.r
        g = rm.golden()["elements"]
        zs = sorted(r.sample(range(1, 30), r.randrange(1, 5)))
        syms = {e["Z"]: s for s, e in g.items()}
        if r.random() < 0.1:
            # systematic three-letter symbols
            zs.append(r.randrange(119, 122))
            syms.update({119: "Uue", 120: "Ubn", 121: "Ubu"})
        blank = r.random() < 0.06
        out = []
        if r.random() < 0.5:
            out.append("# list of isotopes\n#\n\n")
        for z in zs:
            for A in sorted(r.sample(range(z, 3 * z + 3), r.randrange(1, 4))):
                u = r.random() < 0.7
                mass = "%.*f" % (r.choice([r.randrange(3, 11), 15]), A + r.uniform(-0.1, 0.1))
                ab = r.choice(["", "1", "%.*f" % (r.randrange(2, 9), r.uniform(1e-4, 1.0)), "0.%d" % r.randrange(1, 9999), "%.*f" % (r.randrange(12, 21), 10 ** r.uniform(-7, 0))])
                if bad and r.random() < 0.3:
                    if r.random() < 0.5 or not ab:
                        mass = spoil(r, mass)
                    else:
                        ab = spoil(r, ab)
                if u:
                    mass += "(%d)" % r.randrange(1, 99) + ("#" if r.random() < 0.2 else "")
                    ab += "(%d)" % r.randrange(1, 99) if ab else ""
                if blank and r.random() < 0.4:
                    mass = ""
                rec = ["Atomic Number = %d" % z, "Atomic Symbol = %s" % syms[z], "Mass Number = %d" % A,
                       "Relative Atomic Mass = " + mass, "Isotopic Composition = " + ab]
                if r.random() < 0.8:
                    rec += ["Standard Atomic Weight = [%d,%d]" % (A, A + 1), "Notes = m"]
                out.append("\n".join(rec) + "\n\n")
        if big:
            # records far apart: more than one buffer of any usual size
            out.insert(r.randrange(len(out)), "".join("Notes = %s\n" % ("filler " * 200) for _ in range(big * 46)))
        t = "".join(out)
        m = r.random()
        if m < 0.3:
            t = t.rstrip("\n")
            k = t.rfind("Isotopic Composition")
            if m < 0.2:
                t = t[: t.index("\n", k)] if "\n" in t[k:] else t
        if cut:
            t = t[: r.randrange(len(t) // 3, len(t))]
        return t

    def density_text(self, cut=False, bad=False, big=False):
        r = self.r
        syms = r.sample(["H", "He", "C", "Cd", "Ca", "N", "Ne", "Na", "Pb", "P", "B", "Be", "U", "V", "I", "In", "S", "Si", "K", "W", "Y", "F", "Fe"], r.randrange(2, 9))
        out = ["# densities in g/cm^3\n# SYMBOL  DENSITY\n"] if r.random() < 0.5 else []
        for s in syms:
            v = r.choice(["%.4f" % r.uniform(0.1, 20), "%.5e" % r.uniform(1e-5, 1e-2), "%d" % r.randrange(1, 20), "%d." % r.randrange(1, 20)])
            if bad and r.random() < 0.4:
                v = spoil(r, v)
            out.append("%-2s%s%s\n" % (s, " " * r.randrange(1, 4), v))
        if big:
            out.insert(r.randrange(len(out)), "".join("# %s\n" % ("filler " * 200) for _ in range(big * 46)))
        t = "".join(out)
        if r.random() < 0.3:
            t = t.rstrip("\n")
        if cut:
            t = t[: r.randrange(len(t) // 3, len(t))]
        if r.random() < 0.03:
            return ""
        return t

    def xr_text(self, cut=False, bad=False, big=False):
        r = self.r
        n = r.randrange(2, 14) if not big else r.randrange(60, 400) if big < 5 else r.randrange(1000, 2500)
        label = r.random() < 0.5
        e = 10 ** r.uniform(-3, -1)
        sp = " " if r.random() < 0.6 else ""
        first = r.random() < 0.2
        rows = []
        for i in range(n):
            lab = ""
            if label:
                lab = "   "
                if (i > 1 and r.random() < 0.25) or (i == 0 and first):
                    lab = r.choice(["K  ", "L1 ", "L3 ", "M5 ", "N2 ", " K "])
                    if i:
                        rows.append("%s%.5E  %.3E  %.3E%s" % ("   ", e, 10 ** r.uniform(-3, 3), 10 ** r.uniform(-3, 3), sp))
            rows.append("%s%.5E  %.3E  %.3E%s" % (lab, e, 10 ** r.uniform(-3, 3), 10 ** r.uniform(-3, 3), sp))
            if r.random() < 0.02:
                rows.append(rows[-1])
            e *= r.uniform(1.1, 2.5) if not big else r.uniform(1.005, 1.02) if big < 5 else r.uniform(1.001, 1.004)
        if bad:
            i = r.randrange(len(rows))
            p = rows[i].rstrip().split("  ")
            k = r.randrange(len(p) - 3, len(p))
            p[k] = p[k].replace(".", r.choice([",", ".O", "._"]), 1)
            rows[i] = "  ".join(p)
        t = "\n".join(rows) + ("\n" if r.random() < 0.7 else "")
        if self.prop in ("C02", "C11") and not cut and r.random() < 0.04:
            i = r.choice([k for k, ch in enumerate(t + "\n") if ch == "\n"])
            t = t[:i] + "\n" + r.choice(["", " ", "   "]) + t[i:]
        if cut:
            i = t.rstrip("\n").rfind("\n") + 1
            # up to the first digit of the last column: the record is incomplete
            j = t.rindex("  ", i)
            t = t[: r.randrange(i + (4 if label else 1), j + 2)]
        return t

    def files(self):
        r = self.r
        fs = []
        for fmt, mk in (("nist", self.nist_text), ("density", self.density_text), ("xr", self.xr_text)):
            for i in range(r.randrange(1, 3)):
                cut = self.prop in ("C02", "C11") and r.random() < 0.2
                nv = r.randrange(2, 5) if self.prop == "C02" and not cut else 1
                bad = self.prop in ("C02", "C11", "C09") and not cut and r.random() < 0.12
                big = 0
                if self.prop in ("C02", "C11", "C13") and not cut and r.random() < 0.03:
                    big = r.choice([1, 2, 5])
                    self.big = True
                fs.append(dict(name="%s%d" % (fmt, i), fmt=fmt, cut=cut, versions=[mk(cut, bad, big) for _ in range(nv)]))
                if fmt == "xr" and nv > 1 and r.random() < 0.3:
                    # same size, same time stamp, other contents
                    fs[-1]["versions"] = [shuffle_digits(fs[-1]["versions"][0], random.Random("%s/%d" % (self.seed, k))) for k in range(nv)]
        return fs

    # -- plan -------------------------------------------------------------------------------------
    def config(self):
        r = self.r
        return dict(
            gap=r.choice([0, 3, 8, 20, 60, 200, 600]),
            burst=r.choice([0, 0, 0.2, 0.5]),
            op_switch=r.choice([0, 0.3, 0.8]),
            seam_switch=r.choice([0, 0, 0.2, 0.7]),
            first=r.randrange(4),
            chunk=r.choice([0, 0, 3, 40, 700]),
            warn=r.choice(["always", "always", "error"]) if self.prop in ("C07", "C10", "C14", "C06") else "always",
            clock_off=r.choice([0.0, -1e9, 3.1e7]),
            clock_frozen=r.random() < 0.3,
            rng=r.randrange(1 << 30),
            heap=r.choice([0, r.randrange(1, 10 ** 6)]),
            fp=r.choice(["", "", "ignore", "mixed"]),
        )

    def plan(self):
        r, p = self.r, self.prop
        cfg = self.config()
        nclients = r.choice([1, 2, 2, 2, 3, 3, 4])
        if p in ("C02",) and nclients == 1 and r.random() < 0.7:
            nclients = 2
        if nclients == 1:
            cfg["gap"] = cfg["seam_switch"] = 0
        setup = []
        pool = self.kind_pool()
        for i in range(r.randrange(3, 7)):
            t = r.choice(pool)
            if t == "wsum" and not self.refs:
                t = "bw"
            s, ref = self.spec(t, "o%d" % i, [n for n in self.refs])
            setup.append(s)
            self.specs[s["name"]], self.refs[s["name"]] = s, ref
        self.shared = list(self.refs)
        self.big = False
        self.fs = self.files()
        if self.big and cfg["chunk"] in (3, 40):
            cfg["chunk"] = 700
        prof = dict(PROFILES[p])
        if r.random() < 0.5:
            ks = list(prof)
            keep = [k for k in ks if r.random() < 0.6] or [max(prof, key=prof.get)]
            prof = {k: prof[k] for k in keep}
        clients = []
        nops = r.choice([2, 3, 4, 6])
        self.burst = p in ("C08", "C09", "C10", "C13") and r.random() < 0.1
        if self.burst:
            # one kind of operation that fails again and again
            k = r.choice([x for x in ("quad", "darboux", "ppf", "read_xr", "read_density", "eval", "coverage") if x in PROFILES[p]])
            prof = {k: 1.0}
            nclients = r.choice([1, 1, 2])
        if p in ("C08", "C15", "C12"):
            nops = r.choice([2, 3, 4])
        if self.burst:
            nops = r.choice([9, 12])
        elif r.random() < 0.03:
            # a long history
            nops = r.choice([12, 16]) if p in ("C08", "C15", "C12") else r.choice([30, 60])
            nclients = r.choice([1, 1, 2])
            cfg["gap"] = 0 if nclients == 1 else r.choice([0, 600])
        for c in range(nclients):
            self.c = c
            self.mine = {}  # objects this caller made: name -> ref
            self.pinned = set()
            self.states, self.isos, self.gss = [], [], []
            ops = []
            keep = r.choice([0, 0, 2, 3, 5])
            for _ in range(nops):
                k = r.choices(list(prof), list(prof.values()))[0]
                o = self.nearby(clients + [ops]) if p == "C18" and r.random() < 0.25 else None
                if p in ("C04", "C05", "C06", "C08", "C10", "C12", "C15") and r.random() < 0.1:
                    o = self.variant(ops)
                o = self.chain() if p == "C02" and r.random() < 0.15 else o
                o = o or getattr(self, "g_" + k)()
                if o is None:
                    continue
                for x in o if isinstance(o, list) else [o]:
                    if keep:
                        self.in_one_array(x, keep)
                    if p == "C18" and x["k"] in REPEATABLE and r.random() < 0.4:
                        x["again"] = True
                    x["id"] = "%d.%d" % (c, len(ops))
                    ops.append(x)
            if ops:
                clients.append(ops)
        if not clients:
            self.mine, self.pinned = {}, set()
            self.c = 0
            o = self.g_eval()
            o["id"] = "0.0"
            clients = [[o]]
        plan = dict(prop=p, seed=self.seed, cfg=cfg, setup=setup, files=self.fs, clients=clients, faults=[])
        plan["rel"] = self.faults(clients)
        return plan

    def chain(self):
        """a read, a replacement of the file, and the same read through the same object"""
        r = self.r
        o = getattr(self, "g_" + r.choice(["read_density", "read_element", "read_symbols", "read_xr"]))()
        c = [f for f in self.fs if f["name"] == o.get("file") and len(f["versions"]) > 1]
        if not c:
            return None
        o.pop("conv", None)
        o["reuse"] = True
        v = r.randrange(len(c[0]["versions"]))
        return [o, dict(k="replace", file=o["file"], v=v, dt=r.choice([0, 0, 10 ** 9, 1000]), dep=[o["file"]]), copy.deepcopy(o)]

    def nearby(self, clients):
        """an earlier operation of some caller once more, with inputs that differ in the last digits or not at all"""
        r = self.r
        old = [o for ops in clients for o in ops if o["k"] in ("eval", "dist", "kn", "ppf", "debye", "doppler", "coverage", "pgrid", "egrid", "darboux", "quad") and "share" not in o and all(d in self.shared for d in o["dep"])]
        if not old:
            return None
        o = copy.deepcopy(r.choice(old))
        d = r.choice([0.0, 1e-13, 1e-11, 1e-9, 1e-7])

        def move(x):
            if isinstance(x, dict):
                return {k: [v * (1.0 + d * r.uniform(-1, 1)) for v in x[k]] if k == "vals" and x.get("form") not in ("int", "ints") else move(x[k]) for k in x}
            return [move(v) for v in x] if isinstance(x, list) and x and isinstance(x[0], dict) else x

        if o["k"] not in ("darboux", "quad", "kn"):
            o = move(o)
            if "cov" in o and o["cov"] < 0.99:
                o["cov"] *= 1.0 + d * r.uniform(-1, 1)
            if "lo" in o:
                w = o["hi"] - o["lo"]
                o["hi"] = o["lo"] + w * (1.0 + d * r.uniform(-1, 1))
        o.pop("retry", None)
        return o

    def variant(self, ops):
        """an earlier operation of the same caller with inputs that agree in part, or in another order"""
        r = self.r
        old = [o for o in ops if o["k"] in ("eval", "dist", "ppf", "debye", "doppler", "pgrid", "egrid", "darboux") and "share" not in o]
        if not old:
            return None
        first = r.choice(old)
        if r.random() < 0.6:
            for k in ("E", "q", "T", "TD"):
                if isinstance(first.get(k), dict) and first[k]["form"] in ("1d", "2d", "strided"):
                    first[k]["buf"] = True
        o = copy.deepcopy(first)
        for f in ("retry", "again", "id"):
            o.pop(f, None)
        if o["k"] == "darboux":
            o["f"]["coef"] = [r.uniform(-2, 2) for _ in range(5)]
        elif "lo" in o:
            k = r.choice(["lo", "hi", "n"])
            if k == "n":
                o["n"] += 1
            else:
                o[k] += (0.5 if k == "lo" else -0.5) * r.random() * (o["hi"] - o["lo"])
        for k in ("E", "q", "T", "TD"):
            a = o.get(k)
            if not isinstance(a, dict) or len(a.get("vals", ())) < 3:
                continue
            v = list(a["vals"])
            how = r.choice(["inside", "one", "order", "reversed"])
            if how == "inside":
                v[1:-1] = [r.uniform(min(v), max(v)) for _ in v[1:-1]]
            elif how == "one":
                v[r.randrange(len(v))] = r.uniform(min(v), max(v))
            elif how == "order":
                r.shuffle(v)
            else:
                v.reverse()
            a["vals"] = v
        return o

    def faults(self, clients):
        """fault intentions: positions are fractions of an operation's length, fixed after a fault-free run"""
        r, p = self.r, self.prop
        out = []
        reads = ("read_xr", "read_symbols", "read_element", "read_density", "retain")
        solver = ("ppf", "pgrid", "coverage")
        dens = r.choice([0, 0.3, 0.7]) if p not in ("C09", "C11") else r.choice([0.3, 0.6])
        if self.burst:
            dens = 0.8
        what = {
            "C02": ["io"], "C03": ["intr", "io"], "C04": ["intr"], "C05": ["intr"], "C06": ["solver"], "C07": ["solver", "intr"],
            "C08": ["intr"], "C09": ["intr", "intr", "intr", "io", "solver"], "C10": ["solver", "solver", "intr"], "C11": ["io", "intr"], "C12": ["intr"],
            "C13": ["io", "intr"], "C14": ["intr", "solver"], "C15": ["intr"], "C16": ["intr"], "C17": ["intr", "io", "solver"], "C18": ["intr", "intr", "io", "solver"],
        }[p]
        for c, ops in enumerate(clients):
            for o in ops:
                if r.random() >= dens:
                    continue
                if r.random() < 0.8:
                    o["retry"] = True
                kinds = [k for k in what if (k != "io" or o["k"] in reads or r.random() < 0.3) and (k != "solver" or o["k"] in solver or o.get("do") in solver or (o["k"] == "calc" and o["meth"] != "quad"))]
                if not kinds:
                    continue
                for _ in range(r.choice([1, 1, 1, 2])):
                    k = r.choice(kinds)
                    if k == "intr":
                        f = dict(at="instr", kind=r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]))
                    elif k == "solver":
                        f = dict(at="solver", kind=r.choice(["total", "partial"]))
                        if r.random() < 0.25:
                            # and again, should the library try again
                            out.append(dict(f, kind=r.choice(["total", "partial"]), c=c, op=o["id"], u=0.0, n=r.randrange(1, 4)))
                    else:
                        f = dict(at="io", kind=r.choice(["errno:EIO", "errno:EIO", "errno:ENOENT", "errno:EACCES", "errno:EMFILE", "errno:ESTALE", "errno:EPERM", "errno:ETIMEDOUT", "EINTR", "KeyboardInterrupt", "MemoryError"]))
                    f.update(c=c, op=o["id"], u=r.random())
                    out.append(f)
        return out

    # -- operations ---------------------------------------------------------------------------------
    def all_refs(self):
        d = {n: self.refs[n] for n in self.shared}
        d.update(self.mine)
        return d

    def pick(self, cond=lambda ref: True, prefer_shared=0.6):
        r = self.r
        d = self.all_refs()
        a = [n for n in d if cond(d[n])]
        if not a:
            return None, None
        sh = [n for n in a if n in self.shared]
        if sh and r.random() < prefer_shared:
            a = sh
        n = r.choice(a)
        return n, d[n]

    def g_eval(self):
        n, ref = self.pick()
        o = dict(k="eval", obj=n, E=self.energies(ref), dep=[n], scribble_in=self.r.random() < 0.3, scribble_out=self.r.random() < 0.3)
        if hasattr(ref, "d") and self.r.random() < 0.2:
            o["rel"] = True
            if ref.d.kind == "uniform":
                o["rel"] = False
        return o

    def g_kn(self):
        n, ref = self.pick(lambda x: x.kind == "kn")
        if n is None:
            return None
        r = self.r
        m = r.choice(["total", "call", "edge", "dOmega", "dOmega_unpol", "dtheta", "dEp", "dEp_dphi", "theta", "ratio"])
        form = r.choice(["float", "1d", "1d", "2d", "strided", "ro"])
        k = 1 if form == "float" else r.choice([2, 4, 6])
        E = [10 ** r.uniform(-1.2, 1.3) * max(1.0, ref.mc2 / 50) for _ in range(k)]
        th = [r.uniform(0.15, 3.0) for _ in range(k)]
        u = r.random()
        if u < 0.35:
            lo = 1e-2 if m.startswith("dEp") else 1e-3 if m == "theta" else 1e-7
            d = [10 ** r.uniform(math.log10(lo), -1) for _ in range(k)]
            th = d if u < 0.15 and m != "dEp_dphi" else [math.pi - v for v in d]
        ph = [r.uniform(-3, 6.2) for _ in range(k)]
        args = [dict(form=form, vals=v) for v in (E, th, ph)]
        self.long(args[0])
        if "size" in args[0]:
            args[1]["size"] = args[2]["size"] = args[0]["size"]
        return dict(k="kn", obj=n, m=m, args=args, dep=[n], scribble_out=r.random() < 0.3)

    def g_dist(self):
        n, ref = self.pick(lambda x: hasattr(x, "d"))
        if n is None:
            return None
        E = self.energies(ref)
        return dict(k="dist", obj=n, m=self.r.choice(["pdf", "cdf"]), E=E, dep=[n])

    def g_build(self):
        t = self.r.choice([k for k in self.kind_pool() if k not in ("wsum",)])
        nm = self.name("b%d_" % self.c)
        s, ref = self.spec(t, nm)
        self.mine[nm] = ref
        return dict(k="build", spec=s, out=nm, dep=[])

    def g_attrs(self):
        n, ref = self.pick(lambda x: hasattr(x, "lv"))
        return None if n is None else dict(k="attrs", obj=n, dep=[n])

    def is_sum(self, ref):
        return ref.kind == "sum"

    def g_combine(self):
        r = self.r
        a, ra = self.pick()
        b, rb = self.pick()
        f = r.choice(["add", "add", "add_r", "sum3", "addn", "naddn", "mul", "rmul", "iadd", "imul", "add"])
        nm = self.name("s%d_" % self.c)
        o = dict(k="combine", f=f, a=a, out=nm, dep=[a])
        tr = lambda ref, n: list(ref.terms) if ref.kind == "sum" else [(1.0, ref, n)]
        if f in ("add", "add_r", "sum3", "iadd"):
            o["b"] = b
            o["dep"] = [a, b]
            x, y = (ra, rb) if f != "add_r" else (rb, ra)
            if x.kind != "sum" and y.kind == "sum":
                self.pinned.add(b if f != "add_r" else a)
            terms = tr(ra, a) + tr(rb, b)
            if f == "sum3":
                terms = [(1.0, rm.RefConst(0), "#0")] + tr(ra, a) * 2 + tr(rb, b)
        else:
            o["num"] = self.weight()
            if r.random() < 0.15:
                o["numform"] = r.choice(["np64", "npint"])
                o["num"] = float(o["num"]) if o["numform"] == "np64" else round(o["num"])
            if f in ("addn", "naddn"):
                terms = tr(ra, a) + [(1.0, rm.RefConst(o["num"]), "#")]
            else:
                terms = [(o["num"] * x, t, n) for x, t, n in tr(ra, a)]
        if len(terms) > 24:
            return None
        self.mine[nm] = rm.RefSum(terms)
        return o

    def g_mutate_sum(self):
        r = self.r
        c = [n for n, x in self.mine.items() if x.kind == "sum" and n not in self.pinned and not n.startswith("b")]
        if not c:
            return None
        n = r.choice(c)
        other = r.choice(self.shared)
        m = r.choice(["append", "clear", "scale"])
        if m == "append" and self.refs[other].kind == "sum":
            m = "scale"
        num = self.weight()
        ref = self.mine[n]
        if m == "append":
            new = rm.RefSum(list(ref.terms) + [(num, self.refs[other], other)])
        elif m == "clear":
            new = rm.RefSum([])
        else:
            new = rm.RefSum([(2.0 * x, t, k) for x, t, k in ref.terms])
        self.mine[n] = new
        return dict(k="mutate_sum", obj=n, other=other, m=m, num=num, dep=[n, other])

    def whole(self, lo, hi):
        """sometimes limits that are whole numbers, given as integers"""
        if self.r.random() < 0.1:
            lo, hi = math.floor(lo), math.ceil(hi)
            hi += 1 if hi <= lo else 0
        return lo, hi

    def points(self, usual):
        r = self.r
        return r.choice([100, 128, 257, 500, 513, 1001, 1025]) if r.random() < 0.06 else r.choice(usual)

    def g_egrid(self):
        n, ref = self.pick()
        lo, hi = self.whole(*self.limits(ref))
        if self.r.random() < 0.05:
            hi = max(lo, 1e-3) * (1.0 + 10.0 ** self.r.uniform(-13, -7))
        return dict(k="egrid", obj=n, lo=lo, hi=hi, n=self.points([2, 3, 5, 20, 101]), limform=self.r.choice(["tuple", "list", "arr"]), dep=[n],
                    scribble_out=self.r.random() < 0.4)

    def g_pgrid(self):
        n, ref = self.pick(lambda x: x.kind != "xr" or True)
        lo, hi = self.whole(*self.limits(ref))
        return dict(k="pgrid", obj=n, lo=lo, hi=hi, n=self.points([2, 3, 4, 9, 30]), limform=self.r.choice(["tuple", "list", "arr"]), dep=[n],
                    scribble_out=self.r.random() < 0.4)

    def g_coverage(self):
        r = self.r
        n, ref = self.pick(lambda x: hasattr(x, "d"))
        if n is None:
            return None
        k = ref.d.kind
        cov = r.choice([r.uniform(0.02, 0.98), r.uniform(0.5, 0.97), 0.9, 0.5, 0.98, 0.999])
        via = r.choice(["interval", "interval", "egrid", "pgrid"])
        if k in ("bw", "gauss", "uniform") and r.random() < 0.15:
            cov, via = 1.0, "interval"
        elif k in ("bw", "gauss", "pv", "voigt") and r.random() < 0.2:
            # a lower limit just below or above zero
            t = 2.0 * float(ref.d.cdf(np.array([r.choice([-1, -1, 1]) * 10 ** r.uniform(-6, -1) * ref.d.Er]))[0])
            if 1e-9 < t < 0.98:
                cov = 1.0 - t
        if k == "uniform" and ref.d.Er == 0.5 and r.random() < 0.7:
            cov, via = 1.0, "interval"
        if via == "pgrid" and cov > 0.99 and k in ("pv", "voigt"):
            via = "interval"
        return dict(k="coverage", obj=n, cov=cov, via=via, n=self.points([2, 5, 17]), dep=[n], scribble_out=r.random() < 0.4)

    def g_ppf(self):
        r = self.r
        n, ref = self.pick(lambda x: x.kind in ("pv", "voigt"))
        if n is None:
            return None
        form = r.choice(["float", "np64", "1d", "1d", "strided", "ro"])
        k = 1 if form in ("float", "np64") else r.choice([1, 2, 3, 5, 9])
        lim = (0.01, 0.99) if r.random() < 0.75 else (1e-4, 1 - 1e-4)
        q = [r.uniform(*lim) for _ in range(k)]
        if r.random() < 0.2:
            q[0] = 0.5
        return dict(k="ppf", obj=n, q=self.long(dict(form=form, vals=q)), dep=[n], scribble_out=r.random() < 0.4, scribble_in=r.random() < 0.3)

    def integrand(self):
        r = self.r
        f = dict(coef=[r.uniform(-2, 2) for _ in range(5)])
        if r.random() < (0.8 if self.burst else 0.35):
            f["raise_at"] = r.choice([1, 2, 5, 20, 22, 50])
            f["exc"] = r.choice(["custom", "runtime", "value", "zerodiv", "type", "attr", "key", "index", "os", "arith", "kbd"])
        if r.random() < 0.25:
            f["nested"] = r.choice(["darboux", "quad", "eval"])
        return f

    def partition(self, n=None):
        r = self.r
        n = n or r.randrange(2, 9)
        x = np.cumsum([r.uniform(-3, 3)] + [r.uniform(0.01, 1.0) for _ in range(n - 1)])
        if r.random() < 0.25:
            x = x * 10.0 ** r.choice([-14, -9, -6, -3, 3, 6])
        form = r.choice(["1d", "1d", "strided", "rev", "ro"])
        return dict(form=form, vals=[float(v) for v in x])

    def g_darboux(self):
        r = self.r
        f = self.integrand()
        x = self.partition(r.choice([17, 100, 129, 257, 600]) if r.random() < 0.04 else None)
        if r.random() < 0.1:
            # a point that occurs twice, as in the union of two grids
            i = r.randrange(1, len(x["vals"]))
            x["vals"][i] = x["vals"][i - 1]
        o = dict(k="darboux", f=f, x=x, mode=r.choice(["values", "function"]), dep=[])
        if o["mode"] == "values":
            f.pop("raise_at", None)
        elif f.get("raise_at"):
            f["raise_at"] = 1
        if r.random() < 0.3:
            o["share"] = "f%d" % r.randrange(2)
            o["f"] = dict(coef=[0.5, 1.0, -0.3, 0.2, 0.7])
        if r.random() < 0.06:
            x["vals"].reverse()
            o["down"] = True
        elif o["mode"] == "values" and r.random() < 0.1:
            o["inf"] = [r.choice([0, -1, r.randrange(20)]), r.choice([1, -1, 0])]
        return o

    def g_quad(self):
        r = self.r
        d = r.choice([1, 1, 1, 2, 2, 3])
        n = {1: r.randrange(2, 7), 2: r.randrange(2, 5), 3: r.choice([2, 2, 3])}[d]
        f = self.integrand()
        if d == 3:
            f.pop("nested", None)
        if d == 2 and f.get("nested") == "quad":
            f["nested"] = "darboux"
        lim = None
        if d > 1:
            lim = [[r.uniform(-1, 0), r.uniform(0.1, 1)] for _ in range(d - 1)]
        x = self.partition(n)
        if d == 1 and r.random() < 0.3:
            # a peak that needs many evaluations
            v = x["vals"]
            f["peak"] = [r.choice([1, -1]) * r.uniform(0.5, 50.0), r.uniform(v[0], v[-1]), (v[-1] - v[0]) * 10 ** r.uniform(-4, -1)]
        o = dict(k="quad", f=f, x=x, limits=lim, limform=r.choice(["list", "arr"]), dep=[])
        if r.random() < 0.3:
            o["share"] = "f%d" % r.randrange(2)
            o["f"] = dict(coef=[0.5, 1.0, -0.3, 0.2, 0.7])
        return o

    def g_debye(self):
        r = self.r
        k = r.choice([1, 1, 2, 3, 5])

        def arr(n, lo, hi):
            return [r.uniform(lo, hi) for _ in range(n)]

        form = r.choice(["both", "T", "TD", "scalar", "bcast"])
        T, TD = arr(k, 20, 1500), arr(k, 40, 1800)
        if r.random() < 0.3:
            TD = [10 ** r.uniform(1.3, 3.3) for _ in range(k)]
        if r.random() < 0.12:
            T[r.randrange(k)] = 0.0
        if form in ("scalar", "TD") and r.random() < 0.2:
            TD = arr(k, 1800, 5000)
        if form == "scalar":
            sT = dict(form="float", vals=T)
            sD = dict(form=r.choice(["float", "np64"]), vals=TD)
            if T[0] == 0.0:
                sT["form"] = "float"
                sD["form"] = "float"
        elif form == "both":
            sT, sD = dict(form="1d", vals=T), dict(form="1d", vals=TD)
        elif form == "T":
            sT, sD = dict(form=r.choice(["1d", "strided", "ro"]), vals=T), dict(form="float", vals=TD)
        elif form == "TD":
            sT, sD = dict(form="float", vals=T), dict(form="1d", vals=TD)
        else:
            sT, sD = dict(form="2d", vals=(T * 4)[:4]), dict(form="1d", vals=(TD * 2)[:2])
        if r.random() < 0.12:
            # whole numbers
            for a in (sT, sD):
                if a["form"] in ("float", "1d"):
                    a["form"] = "int" if a["form"] == "float" else "ints"
                    a["vals"] = [float(round(v)) for v in a["vals"]]
        elif form in ("T", "TD") and r.random() < 0.05:
            (sT if form == "T" else sD)["size"] = r.choice([17, 33, 65])
        return dict(k="debye", T=sT, TD=sD, dep=[], scribble_in=r.random() < 0.3, scribble_out=r.random() < 0.3)

    def g_doppler(self):
        r = self.r
        sh = r.random() < 0.5
        amu, T = (r.choice([11.0, 208.0]), r.choice([293.0, 78.5])) if sh else (r.uniform(1, 250), 10 ** r.uniform(0, 3.5))
        form = r.choice(FORMS)
        k = 1 if form in SCALARS else r.choice([1, 2, 5])
        E = [float(r.randrange(1, 15)) if form in ("int", "ints") else r.uniform(0.05, 15) for _ in range(k)]
        return dict(k="doppler", amu=amu, T=T, E=self.long(dict(form=form, vals=E)), shared=sh, dep=[],
                    scribble_in=r.random() < 0.3, scribble_out=r.random() < 0.3)

    # -- readers ------------------------------------------------------------------------------------
    def conv(self):
        r = self.r
        c = dict(a=r.choice([1e3, 1e6, 2.5, 0.001, r.uniform(0.1, 10)]), b=r.choice([0.0, 0.0, 0.5]))
        if r.random() < 0.15:
            c.update(a=r.choice([1e24, 1e-24]), b=0.0)
        if r.random() < (0.7 if self.burst else 0.2):
            c["raise_at"] = r.choice([1, 2, 3, 7, 20])
            c["exc"] = r.choice(["custom", "runtime", "value", "zerodiv", "type", "key", "index", "attr", "os"])
        if r.random() < 0.15:
            c["nested"] = True
        if r.random() < 0.3:
            c["form"] = r.choice(["method", "partial", "wraps"])
        return c

    def pick_file(self, fmt):
        return self.r.choice([f for f in self.fs if f["fmt"] == fmt])

    def g_read_xr(self):
        r = self.r
        o = dict(k="read_xr", dep=[])
        if r.random() < 0.75:
            f = self.pick_file("xr")
            o["file"] = f["name"]
            o["dep"] = [f["name"]]
            cut = f["cut"]
        else:
            o["shipped"] = "nonresonant/nist_xrmac/%02d.txt" % r.randrange(1, 93)
            cut = False
        o["via"] = r.choice(["new", "new", "method", "again", "reread", "obj", "ship_fm", "ship_cm"])
        if o["via"] == "obj":
            n, _ = self.pick(lambda x: x.kind == "xr" and len(x.E) < 12, 1.0)
            if n is None:
                o["via"] = "reread"
            else:
                o["obj"] = n
                o["dep"] = o["dep"] + [n]
        if o["via"].startswith("ship"):
            g = rm.golden()
            o["sym"] = r.choice([x for x in g["xrmac"] if g["elements"][x]["amu"]])
        elif o["via"] != "obj" and r.random() < (0.85 if self.prop == "C13" else 0.5):
            if r.random() < 0.7:
                o["econv"] = self.conv()
            if r.random() < 0.7:
                o["xconv"] = self.conv()
        if o["via"] == "new" and not cut and r.random() < 0.3 and self.prop != "C02":
            pass
        return o

    def g_ship_conv(self):
        g = rm.golden()
        return dict(k="ship_conv", sym=self.r.choice([x for x in g["xrmac"] if g["elements"][x]["amu"]]), v=self.r.uniform(0.01, 5), dep=[])

    def g_read_symbols(self):
        r = self.r
        o = dict(k="read_symbols", dep=[], pform=r.choice(["str", "path"]), reuse=r.random() < 0.4)
        if r.random() < 0.85:
            o["file"] = self.pick_file("nist")["name"]
            o["dep"] = [o["file"]]
        else:
            o["shipped"] = "constituents/nist_elements/elements.txt"
        return o

    def g_read_element(self):
        r = self.r
        o = dict(k="read_element", dep=[], pform=r.choice(["str", "path"]), reuse=r.random() < 0.4, edit=r.random() < 0.4)
        if r.random() < 0.85:
            f = self.pick_file("nist")
            o["file"] = f["name"]
            o["dep"] = [f["name"]]
            zs = sorted({z for t in f["versions"] for z in rm.parse_nist(t)[0]}) or [1]
            o["Z"] = r.choice(zs) if r.random() < 0.85 else r.randrange(1, 40)
        else:
            o["shipped"] = "constituents/nist_elements/elements.txt"
            o["Z"] = r.randrange(1, 60)
        return o

    def g_read_density(self):
        r = self.r
        o = dict(k="read_density", dep=[], pform=r.choice(["str", "path"]), reuse=r.random() < 0.5, twice=r.random() < 0.3)
        if r.random() < 0.85:
            f = self.pick_file("density")
            o["file"] = f["name"]
            o["dep"] = [f["name"]]
            xs = sorted({x for t in f["versions"] for x in rm.parse_density(t)}) or ["H"]
            o["X"] = r.choice(xs) if r.random() < 0.75 else r.choice(["H", "C", "P", "B", "N", "S", "U", "I", "K", "Xx", "Pb", "F", "pb", "PB", "cD", "CA", "h", "n", "HE", "si", "IN", "Uue", "Xyz", "Pb2", "Hydrogen"])
            if r.random() < 0.1:
                o["X"] = r.choice([str.lower, str.upper, str.swapcase])(o["X"])
        else:
            o["shipped"] = "constituents/geant4_densities/element_densities.txt"
            o["X"] = r.choice(["H", "Pb", "C", "Cd", "U", "Y", "Yb", "Og", "I", "In"])
        if r.random() < (0.85 if self.prop == "C13" else 0.4):
            o["conv"] = self.conv()
            if o["conv"].get("raise_at"):
                o["conv"]["raise_at"] = 1
        return o

    def g_replace(self):
        r = self.r
        c = [f for f in self.fs if len(f["versions"]) > 1]
        if not c:
            return None
        f = r.choice(c)
        return dict(k="replace", file=f["name"], v=r.randrange(len(f["versions"])), dt=r.choice([0, 0, 10 ** 9, 7 * 10 ** 9, 1000]), dep=[f["name"]])

    # -- nuclei -------------------------------------------------------------------------------------
    def g_def_state(self):
        r = self.r
        nm = self.name("st%d_" % self.c)
        ground = r.random() < 0.35
        keys = ["0^+_1", "2^+_1", "3/2^-_1", "gs"]
        o = dict(k="def_state", out=nm, ground=ground, J=r.choice(keys), two_J=r.randrange(0, 10), parity=r.choice([1, -1]), E=0.0, widths={}, dep=[])
        if not ground:
            o["E"] = r.choice([r.uniform(0.2, 9.0), r.uniform(0.2, 9.0), 2.5, 4.0])
            m = r.random()
            same = 10 ** r.uniform(-7, -3)
            o["widths"] = {k: same if m < 0.3 else 10 ** r.uniform(-7, -3) for k in r.sample(keys, r.randrange(0, 5))}
            if o["widths"] and m > 0.9:
                o["widths"][r.choice(sorted(o["widths"]))] = 0.0
        (self.gss if ground else self.states).append(nm)
        return o

    def g_def_iso(self):
        r = self.r
        nm = self.name("iso%d_" % self.c)
        o = dict(k="def_iso", out=nm, AX="%d%s" % (r.randrange(1, 250), r.choice(["H", "Pb", "C"])), amu=r.uniform(1, 250), dep=[])
        if r.random() < 0.4:
            o["AX"], o["amu"] = r.choice(["11B", "208Pb", "12C"]), r.choice([11.009, 12.0, 207.9766])
        if self.gss and r.random() < 0.7:
            o["gs"] = r.choice(self.gss)
            o["dep"].append(o["gs"])
        m = r.random()
        if m < 0.4 and self.states:
            o["ex"] = [r.choice(self.states) for _ in range(r.randrange(1, 5))]
            o["exform"] = r.choice(["list", "list", "dict", "tuple"])
            o["dep"] += o["ex"]
        elif m < 0.55:
            o["ex"] = []
        self.isos.append(nm)
        return o

    def g_extend_iso(self):
        r = self.r
        if not self.isos:
            return self.g_def_iso()
        if not self.states:
            return [self.g_def_state(), None][0]
        i, s = r.choice(self.isos), r.choice(self.states)
        return dict(k="extend_iso", iso=i, state=s, dep=[i, s])

    def g_def_elem(self):
        r = self.r
        nm = self.name("el%d_" % self.c)
        o = dict(k="def_elem", out=nm, Z=r.randrange(1, 100), X="Xy", density=r.choice([None, r.uniform(0.1, 20)]), dep=[], isos=[], amu_again=r.random() < 0.4, ab=r.choice(["some", "some", "zeros", "equal", "percent"]))
        if self.isos and r.random() < 0.7:
            o["isos"] = r.sample(self.isos, min(len(self.isos), r.randrange(1, 4)))
            o["dep"] = list(o["isos"])
        elif r.random() < 0.8:
            o["from_db"] = r.choice(["Pb", "C", "B", "Sn", "H", "Xe", "U"])
        return o

    def g_def_res(self):
        r = self.r
        if not self.gss or not self.states:
            return self.g_def_state()
        nm = self.name("r%d_" % self.c)
        i, m = r.choice(self.gss + self.states), r.choice(self.states)
        return dict(k="def_res", i=i, m=m, t=r.choice(["bw", "gauss", "voigt", "pv"]), amu=r.uniform(4, 200), T=r.uniform(200, 900), out=nm, dep=[i, m])

    def g_check_nuc(self):
        n = self.states + self.isos + self.gss
        return dict(k="check_nuc", names=n, dep=[]) if n else None

    def g_db_probe(self):
        return dict(k="db_probe", dep=[])

    def g_db_use(self):
        return dict(k="db_use", sym=self.r.choice(["Pb", "C", "B", "Sn", "H", "Xe", "U", "Fe", "O"]), dep=[])

    # -- calculations -------------------------------------------------------------------------------
    def g_calc(self):
        r = self.r

        def ok(x):
            return x.kind in ("bw", "gauss", "pv", "voigt", "const", "poly", "kn") or (
                x.kind == "sum" and x.terms and len(x.terms) < 6 and all(t.kind in ("bw", "gauss", "pv", "voigt", "const", "poly") for _, t, _ in x.terms)
                and all(wt >= 0 for wt, _, _ in x.terms))

        n, ref = self.pick(ok)
        if n is None:
            return None
        lo, hi = self.limits(ref, wide=False)
        if lo < 0.01:
            lo = 0.01
            hi = max(hi, lo + 0.5)
        meth = r.choice(["darboux", "darboux_values", "quad"])
        k = r.choice([12, 20, 40]) if meth == "quad" else r.choice([8, 25, 100])
        if is_const(ref) and meth != "quad":
            meth = "quad"
        return dict(k="calc", obj=n, lo=lo, hi=hi, n=k, meth=meth, dep=[n])

    def g_layers(self):
        r = self.r
        L = []
        E = sorted(r.uniform(0.5, 6.0) for _ in range(r.choice([1, 3, 6])))
        for _ in range(r.randrange(1, 4)):
            n, ref = self.pick(lambda x: x.kind in ("poly", "kn", "xr", "const", "bw"))
            if n is None:
                return None
            E = [safe_energy(ref, e) for e in E]
            m = float(np.max(np.abs(ref.value(np.array(E)))))
            L.append((n, r.uniform(0.05, 1.5) / m if m > 0 else 1.0))
        return dict(k="layers", E=E, layers=L, mode=r.choice(["exp", "exp", "integral"]), dep=[n for n, _ in L])

    def g_refine(self):
        n, ref = self.pick(lambda x: x.kind in ("bw", "gauss", "pv", "voigt"))
        if n is None:
            return None
        d = ref.d
        lo, hi = d.Er - self.r.uniform(2, 6) * d.char, d.Er + self.r.uniform(2, 6) * d.char
        return dict(k="refine", obj=n, lo=max(lo, 0.0), hi=hi, ns=[9, 70], dep=[n])

    # -- what is left behind ------------------------------------------------------------------------
    def g_retain(self):
        r = self.r
        do = r.choice(["eval", "eval", "dist", "egrid", "pgrid", "coverage", "ppf", "kn", "darboux", "quad", "debye", "doppler", "build", "build",
                       "combine", "read_xr", "read_density", "nuclei"])
        o = dict(k="retain", do=do, dep=[], u=r.randrange(1 << 30))
        plain = lambda x: not any(getattr(t, "memo", False) for t in flat(x))
        n = None
        if do in ("eval", "egrid", "pgrid"):
            n, ref = self.pick(plain, 0.9)
        elif do in ("dist", "coverage"):
            n, ref = self.pick(lambda x: hasattr(x, "d"), 0.9)
        elif do == "ppf":
            n, ref = self.pick(lambda x: x.kind in ("pv", "voigt"), 0.9)
        elif do == "kn":
            n, ref = self.pick(lambda x: x.kind == "kn", 0.9)
        elif do in ("read_xr", "read_density"):
            n = self.pick_file("xr" if do == "read_xr" else "density")["name"]
            ref = None
        else:
            if do in ("build", "combine"):
                o["spec"] = self.spec(r.choice(list(RES) + ["kn", "xr_arr", "const"]), "x")[0]
            return o
        if n is None:
            return None
        o["obj"], o["dep"] = n, [n]
        if do in ("eval", "dist"):
            o["E"] = self.energies(ref, r.choice(["1d", "1d", "2d", "strided", "0d", "ro", "float"]))
        elif do in ("egrid", "pgrid"):
            o["lo"], o["hi"] = self.limits(ref)
            o["n"] = r.choice([2, 5, 9])
        return o

    def g_growth(self):
        r = self.r
        do = r.choice(["eval", "dist", "egrid", "kn", "debye", "doppler", "build", "combine", "read_density", "darboux", "nuclei", "mb"])
        o = dict(k="growth", do=do, dep=[], u=r.randrange(1 << 30))
        n = None
        if do in ("eval", "egrid"):
            n, ref = self.pick(lambda x: not any(getattr(t, "memo", False) for t in flat(x)) and len(list(flat(x))) < 4, 1.0)
        elif do == "dist":
            n, ref = self.pick(lambda x: hasattr(x, "d"), 1.0)
        elif do == "kn":
            n, ref = self.pick(lambda x: x.kind == "kn", 1.0)
        elif do == "read_density":
            n, ref = self.pick_file("density")["name"], None
        else:
            if do in ("build", "combine"):
                o["spec"] = self.spec(r.choice(["bw", "gauss", "pv", "voigt", "kn", "const"]), "x")[0]
            return o
        if n is None:
            return None
        o["obj"], o["dep"] = n, [n]
        if ref is not None:
            o["at"] = [safe_energy(ref, e) for e in probe_energies(ref, r, 1)][0]
        return o

    def g_tick(self):
        return dict(k="tick", dt=self.r.choice([-1e6, 1e-3, 3600.0, 1e9]), dep=[])


def spoil(r, v):
    """a value that is no longer a number"""
    i = r.randrange(len(v))
    return r.choice([v.replace(".", ",", 1) if "." in v else "O" + v, v[:i] + r.choice("OlxZ?") + v[i:], "n/a", "-.-", "*"])


def shuffle_digits(t, r):
    out = []
    for l in t.split("\n"):
        l = list(l)
        # mantissa digits of the coefficients only
        for i, ch in enumerate(l):
            if ch.isdigit() and i > 16 and i + 1 < len(l) and l[i - 1] not in "E+-" and l[i + 1] not in ".":
                if "E" in l[max(0, i - 3) : i]:
                    continue
                l[i] = str(r.randrange(10))
        out.append("".join(l))
    return "\n".join(out)


def flat(ref):
    if ref.kind == "sum":
        for _, t, _ in ref.terms:
            yield from flat(t)
    else:
        yield ref


def is_const(ref):
    return all(t.kind == "const" for t in flat(ref))

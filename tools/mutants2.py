"""Second generation of changes that break one property each (steps as in refactorings.py)."""
from refactorings import CS, DA, DB, EL, ISO, KN, MB, NED, PV, QP, RES, ST, XR

GA = "ries/resonance/gauss.py"
BW = "ries/resonance/breit_wigner.py"
VO = "ries/resonance/voigt.py"
RE = "ries/resonance/recoil.py"


def add(m):
    # ------------------------------------------------------------------------------------------ loading
    m("d01_symbols_partial", "C01",
      ("sub", EL, "for Z in range(1, 119):", "for Z in X:"),
      ("fn", NED, "NISTElementDataReader.read_nist_element_symbols", '''
def read_nist_element_symbols(self):
    X = {}
    try:
        with open(self.element_data_file_name, "r") as file:
            for line in file:
                if self.Z_prefix in line:
                    Z = self.read_nist_element_property(line, self.Z_prefix, int)
                if self.X_prefix in line and Z not in X:
                    X[Z] = self.read_nist_element_property(line, self.X_prefix)
    except MemoryError:
        pass
    return X
'''))
    m("d01_density_table", "C01",
      ("sub", NED, "from ries.constituents.isotope import Isotope", "from ries.constituents.isotope import Isotope\n\n_densities = {}"),
      ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    table = _densities.get(self.density_data_file_name)
    if table is None:
        table = _densities[self.density_data_file_name] = {}
        with open(self.density_data_file_name, "r") as file:
            for line in file:
                table.setdefault(line[0:2].strip(), line[2:])
    if X in table:
        return self.density_conversion(float(table[X]))
    return None
'''))
    m("d01_atom_fallback", "C01",
      ("sub", XR, '''    xrmac_fm2_per_atom[X[Z]] = XRMAC(
        str(xrmac_data_dir / "{:02d}.txt".format(Z)),
''', '''    try:
        source = XRMAC.read_nist_xrmac(xrmac_cm2_per_g[X[Z]], str(xrmac_data_dir / "{:02d}.txt".format(Z)))
        source = str(xrmac_data_dir / "{:02d}.txt".format(Z))
    except OSError:
        source = xrmac_cm2_per_g[X[Z]].data
    xrmac_fm2_per_atom[X[Z]] = XRMAC(
        source,
'''))
    m("d01_registry", "C01",
      ("sub", ISO, "class Isotope:", "amus = {}\n\n\nclass Isotope:"),
      ("sub", NED, "from ries.constituents.isotope import Isotope", "from ries.constituents.isotope import Isotope, amus"),
      ("sub", NED, '''                    amu = self.read_nist_element_property_with_uncertainty(
                        line, self.amu_prefix
                    )
''', '''                    if (Z, A) not in amus:
                        amus[Z, A] = 0.0
                        amus[Z, A] = self.read_nist_element_property_with_uncertainty(
                            line, self.amu_prefix
                        )
                    amu = amus[Z, A]
'''))
    m("d01_eof", "C01",
      ("fn", XR, "XRMAC.read_nist_xrmac", '''
def read_nist_xrmac(self, xrmac_file_name):
    data = []
    text = ""
    with open(xrmac_file_name, "rb", buffering=0) as file:
        while True:
            block = file.read(4096)
            text += block.decode()
            if len(block) < 4096:
                break
    lines = text.splitlines()
    skip = 0 if lines[0][0].isdigit() else 3
    for line in lines:
        line = line[skip:].split()
        data.append(
            [
                self.energy_conversion(float(line[0])),
                self.xrmac_conversion(float(line[1])),
                self.xrmac_conversion(float(line[2])),
            ]
        )
    return np.array(data)
'''))
    # ------------------------------------------------------------------------------------------ readers
    m("d02_hint", "C02", ("sub", XR, "file.readlines()", "file.readlines(1 << 15)"))
    m("d02_getsize", "C02",
      ("sub", XR, "from pathlib import Path\n", "import os\nfrom pathlib import Path\n"),
      ("sub", XR, '''        with open(xrmac_file_name, "r") as file:
            lines = file.readlines()
''', '''        size = os.path.getsize(xrmac_file_name)
        with open(xrmac_file_name, "r") as file:
            lines = file.read(size).splitlines()
'''))
    m("d02_symbol_of_element", "C02",
      ("sub", NED, 'AX = "{:d}{}".format(A, X)', 'AX = "{:d}{}".format(A, X if len(X) < 3 else X[:2])'))
    m("d02_abundance_carry", "C02",
      ("sub", NED, '''                    amu = self.read_nist_element_property_with_uncertainty(
                        line, self.amu_prefix
                    )
''', '''                    amu = (
                        self.read_nist_element_property_with_uncertainty(
                            line, self.amu_prefix
                        )
                        or amu
                    )
'''))
    m("d02_symbols_seen", "C02",
      ("sub", NED, "if self.X_prefix in line and Z not in X:", "if self.X_prefix in line and Z > max(X, default=0):"))
    m("d02_density_reader_keeps_miss", "C02",
      ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    missing = self.__dict__.setdefault("missing", set())
    if X in missing:
        return None
    with open(self.density_data_file_name, "r") as file:
        for line in file:
            if line[0:2].strip() == X:
                return self.density_conversion(float(line[2:]))
    missing.add(X)
    return None
'''))
    m("d02_strip_comment", "C02",
      ("sub", NED, "return self.density_conversion(float(line[2:]))", "return self.density_conversion(float(line[2:].split()[0].split(\"e\")[0]))"))
    m("d02_xr_dedupe", "C02",
      ("sub", XR, "        return np.array(data)\n", "        return np.array(list(dict.fromkeys(map(tuple, data))))\n"))
    m("d02_xr_exception_row", "C02",
      ("sub", XR, "            line = line[skip:].split()\n", "            line = line[skip:].split() or [\"nan\"] * 3\n"))
    # ------------------------------------------------------------------------------------------ database
    m("d03_extend_table", "C03",
      ("fn", XR, "XRMAC.__call__", '''
def __call__(self, E):
    value = 10 ** (self.interpolation_log_log(np.log10(E)))
    highest = np.max(E)
    if highest > 1e3 * self.data[-1][0]:
        self.data = np.vstack([self.data, [highest, self.data[-1][1], self.data[-1][2]]])
    return value
'''))
    m("d03_isotope_setdefault", "C03",
      ("sub", EL, "        self.amu = self.amu_from", '''        for AX in isotopes:
            abundances.setdefault(AX, 0.0)
            if abundances[AX] == 0.0 and density is None:
                isotopes[AX].amu = float(round(isotopes[AX].amu, 9))
        self.amu = self.amu_from'''))
    m("d03_amu_lazy", "C03",
      ("sub", EL, "    @staticmethod\n    def amu_from", '''    def rescale(self, total):
        for AX in self.abundances:
            self.abundances[AX] = self.abundances[AX] / total

    @staticmethod
    def amu_from'''),
      ("sub", EL, "        self.amu = self.amu_from", '''        if 0.0 < sum(abundances.values()) < 0.9:
            self.rescale(sum(abundances.values()))
        self.amu = self.amu_from'''))
    # ------------------------------------------------------------------------------------------ algebra
    m("d04_mul_one", "C04",
      ("sub", CS, "    def __mul__(self, other):\n", "    def __mul__(self, other):\n        if other == 1 and isinstance(self, CrossSectionWeightedSum):\n            return self\n"))
    m("d04_drop_zero", "C04",
      ("fn", CS, "CrossSectionWeightedSum.__init__", '''
def __init__(self, reactions=None, scale_factors=None):
    self.reactions = reactions or []
    if scale_factors is None:
        scale_factors = [1.0] * len(self.reactions)
    self.scale_factors = scale_factors
    if len(self.reactions) > 2 and 0 in self.scale_factors:
        i = self.scale_factors.index(0)
        del self.reactions[i], self.scale_factors[i + 1 :][:1]
'''))
    m("d04_self_sum", "C04",
      ("sub", CS, "        reactions = []\n        scale_factors = []\n        for i, reaction in enumerate(self.reactions):\n            reactions.append(reaction)\n            scale_factors.append(self.scale_factors[i])\n",
       "        reactions = []\n        scale_factors = []\n        for i, reaction in enumerate(self.reactions):\n            reactions.append(reaction)\n            scale_factors.append(self.scale_factors[i])\n        if other is self:\n            return CrossSectionWeightedSum(reactions, [2 * f for f in scale_factors[:2]] + scale_factors[2:])\n"))
    m("d04_bool_scale", "C04",
      ("sub", CS, "scale_factors.append(other * self.scale_factors[i])", "scale_factors.append(self.scale_factors[i] if other is None else (other or self.scale_factors[i]) * self.scale_factors[i])"))
    m("d04_const_fold", "C04",
      ("fn", CS, "CrossSection.__add__", '''
def __add__(self, other):
    if isinstance(other, Real):
        other = ConstantCrossSection(other)
    if isinstance(self, ConstantCrossSection) and isinstance(other, ConstantCrossSection):
        return CrossSectionWeightedSum([ConstantCrossSection(self.constant)], [(self.constant + other.constant) / (self.constant or 1.0)])
    return CrossSectionWeightedSum([self, other])
'''))
    m("d04_flatten", "C04",
      ("fn", CS, "CrossSection.__add__", '''
def __add__(self, other):
    if isinstance(other, Real):
        return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
    if isinstance(other, CrossSectionWeightedSum):
        return CrossSectionWeightedSum(
            [self] + other.reactions, [1.0] + other.scale_factors[: len(other.reactions)]
        )
    return CrossSectionWeightedSum([self, other])
'''),
      ("fn", CS, "CrossSection.__radd__", '''
def __radd__(self, other):
    if other == 0 and not isinstance(other, float):
        return CrossSectionWeightedSum(CrossSection._single(self), [1.0])
    return self.__add__(other)

@staticmethod
def _single(reaction, kept=[]):
    kept.append(reaction)
    return kept[-1:]
'''))
    m("d04_call_cached_terms", "C04",
      ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    pairs = self.__dict__.get("pairs")
    if pairs is None or len(pairs) != len(self.reactions):
        pairs = self.pairs = list(zip(self.scale_factors, self.reactions))
    cross_section = 0.0
    for factor, reaction in pairs:
        cross_section += factor * reaction(energy)
    return cross_section
'''))
    # ------------------------------------------------------------------------------------------ evaluation
    m("d05_last_identity", "C05",
      ("fn", XR, "XRMAC.__call__", '''
def __call__(self, E):
    if E is not self.__dict__.get("last_E"):
        self.last_log = np.log10(E)
        self.last_E = E
    return 10 ** self.interpolation_log_log(self.last_log)
'''))
    m("d05_sum_inplace", "C05",
      ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    cross_section = None
    for i, reaction in enumerate(self.reactions):
        value = reaction(energy)
        if cross_section is None:
            cross_section = value if self.scale_factors[i] == 1.0 else self.scale_factors[i] * value
        else:
            cross_section += self.scale_factors[i] * value
    return 0.0 if cross_section is None else cross_section
'''))
    m("d05_kn_scale_shared", "C05",
      ("sub", KN, "        self.scale_factor = (", "        KleinNishina.mc2_squared = self.mc2 * self.mc2\n        self.scale_factor = ("),
      ("sub", KN, "/ (self.mc2 * self.mc2)", "/ KleinNishina.mc2_squared"))
    m("d05_offset_sticky", "C05",
      ("sub", RES, "            E = E + self.resonance_energy\n", "            E = np.add(E, self.resonance_energy, out=E if isinstance(E, np.ndarray) and E.dtype == float else None)\n"))
    m("d05_eval_scratch", "C05",
      ("sub", PV, "    def cdf(self, E):", "    def _x(self, x):\n        self.x = x\n        return self.x\n\n    def cdf(self, E):"),
      ("sub", PV, '            x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)', '            self._x(x), loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)'),
      ("sub", PV, '            x, loc=self.resonance_energy, scale=self.gamma_L\n', '            self.x, loc=self.resonance_energy, scale=self.gamma_L\n'))
    # ------------------------------------------------------------------------------------------ grids
    m("d06_zero_weight", "C06",
      ("fn", CS, "CrossSectionWeightedSum.equidistant_probability_grid", '''
def equidistant_probability_grid(self, limits, n_points_per_cross_section):
    grid = []
    for factor, reaction in zip(self.scale_factors, self.reactions):
        if factor or not grid:
            grid.append(
                reaction.equidistant_probability_grid(limits, n_points_per_cross_section)
            )
    return np.unique(list(chain(*grid)))
'''))
    m("d06_int_dtype", "C06",
      ("sub", CS, "return np.linspace(limits[0], limits[1], n_points)", "return np.linspace(limits[0], limits[1], n_points, dtype=np.result_type(*map(np.asarray, limits)))"))
    m("d06_same_reaction", "C06",
      ("sub", CS, "        for reaction in self.reactions:\n", "        for reaction in {type(r): r for r in self.reactions}.values() if len(self.reactions) > 3 else self.reactions:\n"))
    m("d06_sum_memo_n", "C06",
      ("fn", CS, "CrossSectionWeightedSum.equidistant_probability_grid", '''
def equidistant_probability_grid(self, limits, n_points_per_cross_section):
    self.n_points = n_points_per_cross_section
    grid = []
    for reaction in self.reactions:
        grid.append(reaction.equidistant_probability_grid(limits, self.n_points))
    return np.unique(list(chain(*grid)))
'''))
    m("d06_limits_kept", "C06",
      ("sub", RES, "        equ_dis_pro_grid = self.probability_distribution.ppf(\n", "        self.limits = coverage_or_limits\n        equ_dis_pro_grid = self.probability_distribution.ppf(\n"),
      ("sub", RES, "np.linspace(limits[0], limits[1], n_points)", "np.linspace(self.probability_distribution.cdf(self.limits[0], *self.probability_distribution_parameters), limits[1], n_points)"))
    # ------------------------------------------------------------------------------------------ coverage
    m("d07_explicit", "C07",
      ("sub", RES, "            warnings.warn(\n                \"Infinite upper", "            warnings.warn_explicit(\n                \"Infinite upper"),
      ("sub", RES, '"Infinite upper limit of coverage interval encountered.", UserWarning\n', '"Infinite upper limit of coverage interval encountered.", UserWarning, __file__, 1, registry=Resonance.__dict__.get("_registry")\n'),
      ("sub", RES, "class Resonance(CrossSection):\n", "class Resonance(CrossSection):\n    _registry = {}\n"))
    m("d07_message_kept", "C07",
      ("sub", RES, "        if np.isinf(limits[1]):\n", "        if limits[0] == 0.0 and coverage == self.__dict__.get(\"last_coverage\"):\n            return limits\n        self.last_coverage = coverage\n        if np.isinf(limits[1]):\n"))
    # ------------------------------------------------------------------------------------------ integration
    m("d08_partition_state", "C08",
      ("fn", QP, "quad_partition", '''
ranges = [None]


def quad_partition(f, x0, x1_to_xn_minus_1=None):
    integral = 0.0
    uncertainty_estimate = 0.0
    if x1_to_xn_minus_1 is None:
        x1_to_xn_minus_1 = []
    for i in range(len(x0) - 1):
        ranges[0] = [x0[i], x0[i + 1]]
        nquad_result = nquad(f, [*ranges, *x1_to_xn_minus_1])
        integral += nquad_result[0]
        uncertainty_estimate += nquad_result[1] * nquad_result[1]
    return (integral, np.sqrt(uncertainty_estimate))
'''))
    m("d08_swallow_arith", "C08",
      ("sub", QP, "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n", "        try:\n            nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n        except ArithmeticError:\n            nquad_result = (0.0, 0.0)\n"))
    m("d08_fx_sorted", "C08",
      ("sub", DA, "        fx = f_or_fx\n", "        fx = f_or_fx\n        if np.isnan(fx[0]):\n            fx[0] = 0.0\n"))
    m("d08_reentrant", "C08",
      ("fn", QP, "quad_partition", '''
_running = []


def quad_partition(f, x0, x1_to_xn_minus_1=None):
    if x1_to_xn_minus_1 is None:
        x1_to_xn_minus_1 = []
    _running.append([0.0, 0.0])
    for i in range(len(x0) - 1):
        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
        _running[-1][0] += nquad_result[0]
        _running[-1][1] += nquad_result[1] * nquad_result[1]
    integral, uncertainty_estimate = _running.pop()
    return (integral, np.sqrt(uncertainty_estimate))
'''))
    # ------------------------------------------------------------------------------------------ interruption
    m("d09_except_exception", "C09", ("sub", PV, "except RuntimeError:", "except Exception:"))
    m("d09_read_swap", "C09",
      ("fn", XR, "XRMAC.read_nist_xrmac", '''
def read_nist_xrmac(self, xrmac_file_name):
    data = []
    skip = 0
    with open(xrmac_file_name, "r") as file:
        lines = file.readlines()
    if not lines[0][0].isdigit():
        skip = 3
    self.rows = 0
    for line in lines:
        line = line[skip:].split()
        conversion, self.xrmac_conversion = self.xrmac_conversion, None
        row = [self.energy_conversion(float(line[0])), conversion(float(line[1])), conversion(float(line[2]))]
        self.xrmac_conversion = conversion
        data.append(row)
    return np.array(data)
'''))
    m("d09_params_transient", "C09",
      ("sub", RES, "        limits = self.probability_distribution.ppf(\n", "        parameters = self.probability_distribution_parameters\n        self.probability_distribution_parameters = tuple(float(p) for p in parameters)[::-1]\n        self.probability_distribution_parameters = parameters\n        limits = self.probability_distribution.ppf(\n"))
    m("d09_sum_pop", "C09",
      ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    cross_section = 0.0
    for _ in range(len(self.reactions)):
        reaction, factor = self.reactions.pop(0), self.scale_factors.pop(0)
        value = reaction(energy)
        self.reactions.append(reaction)
        self.scale_factors.append(factor)
        cross_section += factor * value
    return cross_section
'''))
    m("d09_rlock", "C09",
      ("add", PV, "\nimport threading\n\n_lock = threading.RLock()\n"),
      ("sub", PV, "        try:\n            # scipy", "        _lock.acquire()\n        try:\n            # scipy"),
      ("sub", PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError:\n            pass\n        finally:\n            _lock.release()\n"))
    # ------------------------------------------------------------------------------------------ root finder
    m("d10_retry_start", "C10",
      ("sub", PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError:\n            self.resonance_energy = np.nextafter(self.resonance_energy, np.inf)\n"))
    m("d10_flag_local", "C10",
      ("sub", PV, "False not in newton_result[1]", "newton_result[1][0] and newton_result[1][-1]"))
    m("d10_isfinite", "C10",
      ("sub", PV, "                if newton_result[1].converged:\n", "                if np.isfinite(newton_result[0]):\n"))
    # ------------------------------------------------------------------------------------------ files
    m("d11_first_line", "C11",
      ("sub", XR, '''        with open(xrmac_file_name, "r") as file:
            lines = file.readlines()
''', '''        file = open(xrmac_file_name, "r")
        lines = file.readlines()
'''),
      ("sub", XR, "            skip = 3\n        for line in lines:\n", "            skip = 3\n        file.close()\n        for line in lines:\n"))
    m("d11_backup", "C11",
      ("sub", NED, '        with open(self.density_data_file_name, "r") as file:\n', '        with open(self.density_data_file_name, "a+" if X not in "HHeLiBeBCNOFNe" and len(X) > 2 else "r") as file:\n            file.seek(0)\n'))
    # ------------------------------------------------------------------------------------------ thermal
    m("d12_broadcast", "C12",
      ("sub", DB, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)\n",
       "_debye = np.vectorize(effective_temperature_debye_approximation)\n\n\ndef effective_temperature_debye_approximation(T, T_D):\n    T, T_D = np.broadcast_arrays(np.asarray(T, dtype=float), np.asarray(T_D, dtype=float))\n    ratio, index = np.unique(np.round(T_D / np.where(T == 0, np.nan, T), 9), return_inverse=True)\n    if np.isnan(ratio).any():\n        raise ZeroDivisionError(\"float division by zero\")\n    return (_debye(1.0, ratio)[index].reshape(T.shape) * T)[()]\n"))
    m("d12_running_T", "C12",
      ("fn", MB, "MaxwellBoltzmann.get_doppler_width", '''
def get_doppler_width(self, E):
    self.kT = physical_constants["Boltzmann constant in eV/K"][0] * 1e-6 * self.effective_temperature
    MaxwellBoltzmann.mc2 = (
        self.amu
        * physical_constants["atomic mass constant energy equivalent in MeV"][0]
    )
    return E * np.sqrt(2.0 * self.kT / MaxwellBoltzmann.mc2)
'''))
    # ------------------------------------------------------------------------------------------ conversions
    m("d13_vectorised", "C13",
      ("fn", XR, "XRMAC.read_nist_xrmac", '''
def read_nist_xrmac(self, xrmac_file_name):
    with open(xrmac_file_name, "r") as file:
        lines = file.readlines()
    skip = 0 if lines[0][0].isdigit() else 3
    data = []
    converted = {}
    for line in lines:
        energy, mu, mu_en = line[skip:].split()[:3]
        if mu not in converted:
            converted[mu] = self.xrmac_conversion(float(mu))
        if mu_en not in converted:
            converted[mu_en] = self.xrmac_conversion(float(mu_en))
        if energy not in converted:
            converted[energy] = self.energy_conversion(float(energy))
        data.append([converted[energy], converted[mu], converted[mu_en]])
    return np.array(data)
'''))
    m("d13_array_converted", "C13",
      ("sub", XR, "        if isinstance(data, str):\n            data = self.read_nist_xrmac(data)\n",
       "        if isinstance(data, str):\n            data = self.read_nist_xrmac(data)\n        if xrmac_conversion(1.0) == 1.0 and xrmac_conversion(2.0) != 2.0:\n            data[:, 1] = [xrmac_conversion(value) for value in data[:, 1]]\n"))
    # ------------------------------------------------------------------------------------------ process state
    m("d14_special", "C14",
      ("sub", VO, "from scipy.special import voigt_profile\n", "from scipy.special import seterr, voigt_profile\n"),
      ("sub", VO, "        return voigt_profile(", "        seterr(all=\"ignore\")\n        return voigt_profile("))
    m("d14_errstate_generator", "C14",
      ("sub", DB, "    return (\n        3.0\n", "    if T_D / T > 700.0:\n        np.seterr(over=\"ignore\")\n    return (\n        3.0\n"))
    m("d14_clock_seed", "C14",
      ("add", PV, "\nimport time\n"),
      ("sub", PV, "            full_output=True,\n", "            full_output=True,\n            maxiter=50 + int(time.monotonic()) % 2,\n"))
    # ------------------------------------------------------------------------------------------ nuclei
    m("d16_partial_default", "C16",
      ("sub", ST, "        self.partial_widths = partial_widths\n", "        self.partial_widths = partial_widths\n        self.partial_widths.setdefault(J_pi, 0.0)\n"))
    m("d16_width_rounding", "C16",
      ("sub", ST, "        self.width = sum([self.partial_widths[state] for state in self.partial_widths])\n", "        self.width = sum({round(w, 18): w for w in self.partial_widths.values()}.values()) if len(self.partial_widths) > 3 else sum(self.partial_widths.values())\n"))
    m("d16_element_shares", "C16",
      ("sub", EL, "        self.abundances = abundances\n", "        self.abundances = Element._seen.setdefault((Z, tuple(abundances)), abundances)\n"),
      ("sub", EL, "    def __init__(self, Z, X, isotopes, abundances, density=None):\n", "    _seen = {}\n\n    def __init__(self, Z, X, isotopes, abundances, density=None):\n"))
    # ------------------------------------------------------------------------------------------ remains
    m("d17_method_cache", "C17",
      ("add", RES, "\nfrom functools import lru_cache\n"),
      ("sub", RES, "    def get_statistical_factor(self):\n", "    @lru_cache(maxsize=None)\n    def get_statistical_factor(self):\n"))
    m("d17_last_function", "C17",
      ("sub", QP, "    integral = 0.0\n", "    quad_partition.current = f\n    integral = 0.0\n"),
      ("sub", QP, "    return (integral, np.sqrt(uncertainty_estimate))", "    quad_partition.current = None\n    return (integral, np.sqrt(uncertainty_estimate))"))
    m("d17_debye_table", "C17",
      ("sub", DB, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)",
       "_known = {}\n\n\ndef _remembered(T, T_D, calculate=effective_temperature_debye_approximation):\n    if (T, T_D) not in _known:\n        _known[T, T_D] = calculate(T, T_D)\n    return _known[T, T_D]\n\n\neffective_temperature_debye_approximation = np.vectorize(_remembered, excluded=[\"calculate\"])"))
    m("d17_grid_history", "C17",
      ("sub", RES, "        equ_dis_pro_grid[-1] = coverage_or_limits[1]\n", "        equ_dis_pro_grid[-1] = coverage_or_limits[1]\n        self.last_grid = equ_dis_pro_grid\n"))
    m("d17_pending_quantiles", "C17",
      ("add", PV, "\n_pending = {}\n"),
      ("sub", PV, "        try:\n            # scipy.optimize.newton returns", "        _pending[id(quantile)] = quantile\n        try:\n            # scipy.optimize.newton returns"),
      ("sub", PV, "                if newton_result[1].converged:\n                    return newton_result[0]\n            elif False not in newton_result[1]:\n                return newton_result[0]\n",
       "                if newton_result[1].converged:\n                    _pending.pop(id(quantile), None)\n                    return newton_result[0]\n            elif False not in newton_result[1]:\n                _pending.pop(id(quantile), None)\n                return newton_result[0]\n"))
    m("d17_isotopes", "C17",
      ("sub", ISO, "class Isotope:", "known_isotopes = []\n\n\nclass Isotope:"),
      ("sub", ISO, "        self.AX = AX\n", "        self.AX = AX\n        known_isotopes.append(self)\n"))
    m("d17_compton", "C17",
      ("sub", KN, "    def cs_total(self, E):\n", "    def cs_total(self, E):\n        if isinstance(E, float):\n            self.__dict__.setdefault(\"seen\", []).append(E)\n"))
    m("d17_conversion", "C17",
      ("add", NED, "\n_conversions = {}\n"),
      ("sub", NED, "        self.density_conversion = density_conversion\n", "        self.density_conversion = _conversions.setdefault(id(density_conversion), density_conversion)\n"))
    m("d17_failed_function", "C17",
      ("add", DA, "\nfailed = []\n"),
      ("sub", DA, "        fx = f_or_fx(x)\n", "        try:\n            fx = f_or_fx(x)\n        except Exception as error:\n            failed.append(error)\n            raise\n"))
    # ------------------------------------------------------------------------------------------ reproducibility
    m("d18_tolerance", "C18",
      ("sub", PV, "                full_output=True,\n", "                full_output=True,\n                tol=self.__dict__.get(\"tolerance\", 1.48e-8),\n"),
      ("sub", PV, "        except RuntimeError:\n", "        except RuntimeError:\n            self.tolerance = 1e-7\n"))
    m("d18_rounded_key", "C18",
      ("add", RES, "\n_values = {}\n"),
      ("sub", RES, '''        return self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
''', '''        if isinstance(E, float):
            key = (id(self), float("%.12e" % E))
            if key not in _values:
                _values[key] = self.energy_integrated_cross_section * self.probability_distribution.pdf(
                    E, *self.probability_distribution_parameters
                )
            return _values[key]
        return self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
'''))
    m("d18_start_value", "C18",
      ("sub", PV, "                self.resonance_energy\n                if isinstance(quantile, (float, int))\n", "                self.__dict__.get(\"start\", self.resonance_energy)\n                if isinstance(quantile, (float, int))\n"),
      ("sub", PV, "                if newton_result[1].converged:\n", "                if newton_result[1].converged:\n                    self.start = 0.5 * (self.resonance_energy + newton_result[0])\n"))
    m("d18_last_temperature", "C18",
      ("sub", DB, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)",
       "_last = {}\n\n\ndef _close(T, T_D, calculate=effective_temperature_debye_approximation):\n    ratio = float(\"%.9e\" % (T / T_D if T else 0.0))\n    if ratio not in _last:\n        _last.clear()\n        _last[ratio] = calculate(T, T_D) / T_D\n    return _last[ratio] * T_D\n\n\neffective_temperature_debye_approximation = np.vectorize(_close, excluded=[\"calculate\"])"))
    m("d18_term_order", "C18",
      ("sub", CS, "        for i, reaction in enumerate(self.reactions):\n            cross_section += self.scale_factors[i] * reaction(energy)\n", "        for i, reaction in sorted(enumerate(self.reactions), key=lambda term: id(term[1])):\n            cross_section += self.scale_factors[i] * reaction(energy)\n"))
    m("d18_quad_options", "C18",
      ("sub", QP, "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n", "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1], opts=options)\n        options[\"epsabs\"] = min(1.49e-8, max(1e-12, 1e-9 * abs(integral)))\n"),
      ("add", QP, "\noptions = {}\n"))
    m("d18_coverage_step", "C18",
      ("sub", RES, "        limits = self.probability_distribution.ppf(\n            0.5 * np.array([1.0 - coverage, 1.0 + coverage]),\n            *self.probability_distribution_parameters,\n        )\n",
       "        known = self.__dict__.setdefault(\"intervals\", {})\n        if round(coverage, 10) not in known:\n            known[round(coverage, 10)] = self.probability_distribution.ppf(\n                0.5 * np.array([1.0 - coverage, 1.0 + coverage]),\n                *self.probability_distribution_parameters,\n            )\n        limits = known[round(coverage, 10)].copy()\n"))

"""Behaviour-preserving rewrites of the library.  Every check must stay quiet on each of them.

Each entry is a list of steps; a step is
  ("fn", file, qualified name, new source)   replace a function, method or class
  ("sub", file, old text, new text)          replace text
  ("add", file, text)                        insert after the imports
  ("new", file, text)                        a new file
"""

NED = "ries/constituents/natural_element_data.py"
XR = "ries/nonresonant/xrmac.py"
CS = "ries/cross_section.py"
PV = "ries/resonance/pseudo_voigt.py"
RES = "ries/resonance/resonance.py"
KN = "ries/nonresonant/klein_nishina.py"
MB = "ries/resonance/maxwell_boltzmann.py"
DB = "ries/resonance/debye_model.py"
EL = "ries/constituents/element.py"
ISO = "ries/constituents/isotope.py"
ST = "ries/constituents/state.py"
DA = "ries/integration/darboux.py"
QP = "ries/integration/quad_partition.py"

REFACTORINGS = {
    "sum_comprehensions": [
        ("fn", CS, "CrossSectionWeightedSum.__add__", '''
def __add__(self, other):
    if isinstance(other, Real):
        other = ConstantCrossSection(other)
    if isinstance(other, CrossSection):
        return CrossSectionWeightedSum(
            [*self.reactions, other], [*self.scale_factors, 1.0]
        )
    return CrossSectionWeightedSum(
        list(self.reactions) + list(other.reactions),
        list(self.scale_factors) + list(other.scale_factors),
    )
'''),
        ("fn", CS, "CrossSectionWeightedSum.__mul__", '''
def __mul__(self, other):
    return CrossSectionWeightedSum(
        list(self.reactions), [other * factor for factor in self.scale_factors]
    )
'''),
        ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    return sum(
        (f * r(energy) for f, r in zip(self.scale_factors, self.reactions)), 0.0
    )
'''),
        ("fn", CS, "CrossSectionWeightedSum.equidistant_probability_grid", '''
def equidistant_probability_grid(self, limits, n_points_per_cross_section):
    grids = [
        r.equidistant_probability_grid(limits, n_points_per_cross_section)
        for r in self.reactions
    ]
    if not grids:
        return np.unique([])
    return np.unique(np.concatenate(grids))
'''),
    ],
    "sum_copies_lists": [
        ("fn", CS, "CrossSectionWeightedSum.__init__", '''
def __init__(self, reactions=None, scale_factors=None):
    self.reactions = list(reactions or [])
    if scale_factors is None:
        scale_factors = [1.0 for _ in self.reactions]
    self.scale_factors = list(scale_factors)
'''),
    ],
    "sum_tuples": [
        ("fn", CS, "CrossSectionWeightedSum.__init__", '''
def __init__(self, reactions=None, scale_factors=None):
    self.reactions = tuple(reactions or ())
    if scale_factors is None:
        scale_factors = (1.0,) * len(self.reactions)
    self.scale_factors = tuple(scale_factors)
'''),
    ],
    "sum_helper": [
        ("fn", CS, "CrossSectionWeightedSum.__add__", '''
@staticmethod
def _terms(operand):
    if isinstance(operand, Real):
        operand = ConstantCrossSection(operand)
    if isinstance(operand, CrossSection):
        return [(operand, 1.0)]
    return list(zip(operand.reactions, operand.scale_factors))

def __add__(self, other):
    terms = self._terms(self) + self._terms(other)
    return CrossSectionWeightedSum([t[0] for t in terms], [t[1] for t in terms])
'''),
    ],
    "readers_read_text": [
        ("sub", NED, "from ries.constituents.isotope import Isotope",
         "from pathlib import Path\n\nfrom ries.constituents.isotope import Isotope"),
        ("fn", NED, "NISTElementDataReader.read_nist_element_symbols", '''
def read_nist_element_symbols(self):
    X = {}
    for line in Path(self.element_data_file_name).read_text().splitlines():
        if self.Z_prefix in line:
            Z = self.read_nist_element_property(line, self.Z_prefix, int)
        if self.X_prefix in line:
            X.setdefault(Z, self.read_nist_element_property(line, self.X_prefix))
    return X
'''),
        ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    with Path(self.density_data_file_name).open(encoding="utf-8") as file:
        for line in file:
            if line[0:2].strip() == X:
                return self.density_conversion(float(line[2:]))
    return None
'''),
    ],
    "readers_io_open": [
        ("sub", NED, "from ries.constituents.isotope import Isotope",
         "import io\n\nfrom ries.constituents.isotope import Isotope"),
        ("sub", NED, "with open(", "with io.open("),
        ("sub", XR, "from pathlib import Path", "import io\nfrom pathlib import Path"),
        ("sub", XR, "with open(", "with io.open("),
    ],
    "readers_readlines": [
        ("sub", NED, "for line in file:", "for line in file.readlines():"),
        ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def _lines(self):
    with open(self.density_data_file_name, "r", newline=None) as file:
        return file.read().split("\\n")

def read_density_data(self, X):
    for line in self._lines():
        if line[0:2].strip() == X:
            return self.density_conversion(float(line[2:]))
    return None
'''),
    ],
    "reader_generator": [
        ("fn", NED, "NISTElementDataReader.read_nist_element_data", '''
def _records(self):
    record = {}
    with open(self.element_data_file_name, "r") as file:
        for line in file:
            if self.Z_prefix in line:
                record = {"Z": self.read_nist_element_property(line, self.Z_prefix, int)}
            else:
                record["line"] = line
                yield record

def read_nist_element_data(self, Z):
    abundances, isotopes = {}, {}
    records = self._records()
    try:
        for record in records:
            if "Z" not in record or record["Z"] < Z:
                continue
            if record["Z"] > Z:
                break
            line = record["line"]
            if self.X_prefix in line:
                symbol = self.read_nist_element_property(line, self.X_prefix, str)
            elif self.A_prefix in line:
                A = self.read_nist_element_property(line, self.A_prefix, int)
            elif self.amu_prefix in line:
                amu = self.read_nist_element_property_with_uncertainty(line, self.amu_prefix)
            elif self.abundance_prefix in line:
                AX = f"{A:d}{symbol}"
                abundances[AX] = self.read_nist_element_property_with_uncertainty(
                    line, self.abundance_prefix, default=0.0
                )
                isotopes[AX] = Isotope(AX, amu)
    finally:
        records.close()
    return abundances, isotopes
'''),
    ],
    "xrmac_loadtxt": [
        ("fn", XR, "XRMAC.read_nist_xrmac", '''
def read_nist_xrmac(self, xrmac_file_name):
    with open(xrmac_file_name, "r") as file:
        lines = file.read().splitlines()
    skip = 0 if lines[0][0].isdigit() else 3
    columns = [line[skip:].split() for line in lines]
    energies = [self.energy_conversion(float(c[0])) for c in columns]
    mu = [self.xrmac_conversion(float(c[1])) for c in columns]
    mu_en = [self.xrmac_conversion(float(c[2])) for c in columns]
    return np.column_stack([energies, mu, mu_en])
'''),
    ],
    "xrmac_module": [
        ("sub", XR, "cm_to_fm = ", "_amc = physical_constants[\"atomic mass constant\"][0]\ncm_to_fm = "),
        ("fn", XR, "XRMAC.__call__", '''
def __call__(self, E):
    return np.power(10.0, self.interpolation_log_log(np.log10(E)))
'''),
        ("fn", XR, "XRMAC.interpolate_log_log", '''
@staticmethod
def interpolate_log_log(data):
    log_data = np.log10(np.asarray(data))
    x, y = log_data[:, 0], log_data[:, 1]
    return interp1d(x, y, bounds_error=False, fill_value=(y[0], y[-1]))
'''),
    ],
    "xrmac_np_interp": [
        ("fn", XR, "XRMAC.interpolate_log_log", '''
@staticmethod
def interpolate_log_log(data):
    x, y = np.log10(data[:, 0]), np.log10(data[:, 1])
    if np.any(np.diff(x) < 0):
        order = np.argsort(x, kind="mergesort")
        fill = (y[0], y[-1])
        return interp1d(x, y, bounds_error=False, fill_value=fill)
    return interp1d(x.copy(), y.copy(), bounds_error=False,
                    fill_value=(y[0], y[-1]), assume_sorted=False)
'''),
    ],
    "debye_decorator": [
        ("sub", DB, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)\n", ""),
        ("fn", DB, "effective_temperature_debye_approximation", '''
def _integrand(t):
    return t ** 3 * (1.0 / np.expm1(t) + 0.5)


@np.vectorize
def effective_temperature_debye_approximation(T, T_D):
    integral, _ = quad(_integrand, 0.0, T_D / T)
    return 3.0 * (T / T_D) ** 3 * T * integral
'''),
    ],
    "debye_lru": [
        ("add", DB, '''
from functools import lru_cache


@lru_cache(maxsize=256)
def _debye_integral(upper):
    return quad(lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, upper)[0]
'''),
        ("fn", DB, "effective_temperature_debye_approximation", '''
def effective_temperature_debye_approximation(T, T_D):
    return 3.0 * (T / T_D) ** 3 * T * _debye_integral(T_D / T)
'''),
    ],
    "pv_getattr": [
        ("fn", PV, "PseudoVoigtDistribution.pseudo_voigt_expression", '''
def pseudo_voigt_expression(self, x, method):
    gauss = getattr(norm, method)
    lorentz = getattr(cauchy, method)
    return (1.0 - self.eta) * gauss(
        x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
    ) + self.eta * lorentz(x, loc=self.resonance_energy, scale=self.gamma_L)
'''),
    ],
    "pv_ppf_split": [
        ("sub", PV, "from scipy.optimize import newton", "from scipy import optimize"),
        ("fn", PV, "PseudoVoigtDistribution.ppf", '''
def _invert(self, quantile):
    """Quantiles by Newton's method, or None if it does not converge."""
    scalar = isinstance(quantile, (int, float))
    start = self.resonance_energy if scalar else np.full(len(quantile), self.resonance_energy)
    try:
        root, *info = optimize.newton(
            func=lambda E: self.cdf(E) - quantile,
            x0=start,
            fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
            full_output=True,
        )
    except RuntimeError:
        return None
    converged = info[0].converged if scalar else np.all(info[0])
    return root if converged else None

def ppf(self, quantile):
    inverted = self._invert(quantile)
    if inverted is not None:
        return inverted
    warnings.warn(
        "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed "
        "for at least one value. Using approximation instead.",
        UserWarning,
        stacklevel=2,
    )
    return self.pseudo_voigt_expression(quantile, "ppf")
'''),
    ],
    "resonance_helpers": [
        ("fn", RES, "Resonance.coverage_interval", '''
def coverage_interval(self, coverage):
    dist, pars = self.probability_distribution, self.probability_distribution_parameters
    tails = 0.5 * np.array([1.0 - coverage, 1.0 + coverage])
    lower, upper = dist.ppf(tails, *pars)
    if lower < 0.0:
        reachable = 100.0 * (1.0 - dist.cdf(0.0, *pars))
        warnings.warn(
            f"Unphysical negative lower limit of coverage interval encountered. "
            f"Returning zero instead. The maximum coverage that can be reached with "
            f"positive energies for this cross section is {reachable:f} %.",
            UserWarning, stacklevel=3,
        )
        lower = 0.0
    if np.isinf(upper):
        warnings.warn("Infinite upper limit of coverage interval encountered.", UserWarning)
    return np.array([lower, upper])
'''),
        ("fn", RES, "Resonance.equidistant_energy_grid", '''
def _limits(self, coverage_or_limits):
    if isinstance(coverage_or_limits, (int, float)):
        return self.coverage_interval(coverage_or_limits)
    return coverage_or_limits

def equidistant_energy_grid(self, coverage_or_limits, n_points):
    return super().equidistant_energy_grid(self._limits(coverage_or_limits), n_points)
'''),
        ("fn", RES, "Resonance.equidistant_probability_grid", '''
def equidistant_probability_grid(self, coverage_or_limits, n_points):
    E_min, E_max = self._limits(coverage_or_limits)
    dist, pars = self.probability_distribution, self.probability_distribution_parameters
    quantiles = np.linspace(dist.cdf(E_min, *pars), dist.cdf(E_max, *pars), n_points)
    grid = np.minimum(np.maximum(dist.ppf(quantiles, *pars), E_min), E_max)
    grid[0], grid[-1] = E_min, E_max
    return grid
'''),
        ("fn", RES, "Resonance.__call__", '''
def __call__(self, E, input_is_absolute_energy=True):
    energy = E if input_is_absolute_energy else E + self.resonance_energy
    density = self.probability_distribution.pdf(
        energy, *self.probability_distribution_parameters
    )
    return density * self.energy_integrated_cross_section
'''),
    ],
    "resonance_properties": [
        ("sub", RES, "        self.statistical_factor = self.get_statistical_factor()\n", ""),
        ("fn", RES, "Resonance.get_statistical_factor", '''
@property
def statistical_factor(self):
    return self.get_statistical_factor()

def get_statistical_factor(self):
    return (self.intermediate_state.two_J + 1.0) / (
        self.initial_state.two_J + 1.0
    )
'''),
    ],
    "resonance_cached_property": [
        ("sub", RES, "        self.statistical_factor = self.get_statistical_factor()\n", ""),
        ("sub", RES, "import warnings\n", "from functools import cached_property\nimport warnings\n"),
        ("fn", RES, "Resonance.get_statistical_factor", '''
@cached_property
def statistical_factor(self):
    return self.get_statistical_factor()

def get_statistical_factor(self):
    return (self.intermediate_state.two_J + 1.0) / (
        self.initial_state.two_J + 1.0
    )
'''),
    ],
    "recoil_none": [
        ("sub", RES, "recoil_correction=NoRecoil()", "recoil_correction=None"),
        ("sub", RES, "        self.resonance_energy = recoil_correction(",
         "        if recoil_correction is None:\n            recoil_correction = NoRecoil()\n        self.resonance_energy = recoil_correction("),
    ],
    "kn_rearranged": [
        ("fn", KN, "KleinNishina.cs_total", '''
def cs_total(self, E):
    x = E / self.mc2
    one_plus_2x = 1 + 2 * x
    rational = 2 * x * (2 + x * (1 + x) * (8 + x)) / one_plus_2x ** 2
    logarithm = ((x - 2) * x - 2) * np.log(one_plus_2x)
    return np.pi * self.scale_factor / x ** 3 * (rational + logarithm)
'''),
        ("fn", KN, "KleinNishina.compton_edge", '''
def compton_edge(self, E):
    return E / (1.0 + 2.0 * E / self.mc2)
'''),
        ("fn", KN, "KleinNishina.cs_diff_dOmega_unpolarized", '''
def cs_diff_dOmega_unpolarized(self, E, theta):
    P = self.Ep_over_E(E, theta, self.mc2)
    return np.pi * self.scale_factor * (P ** 3 + P - P ** 2 * np.sin(theta) ** 2)
'''),
    ],
    "mb_constants": [
        ("sub", MB, "from scipy.constants import physical_constants", "from scipy.constants import physical_constants, value\n\nMEV_PER_K = value(\"Boltzmann constant in eV/K\") * 1e-6\nMEV_PER_U = value(\"atomic mass constant energy equivalent in MeV\")"),
        ("fn", MB, "MaxwellBoltzmann.get_doppler_width", '''
def get_doppler_width(self, E):
    kT = MEV_PER_K * self.effective_temperature
    return np.sqrt(2.0 * kT / (self.amu * MEV_PER_U)) * E
'''),
        ("fn", MB, "MaxwellBoltzmann.get_effective_temperature", '''
@staticmethod
def get_effective_temperature(doppler_width, amu, E):
    return (doppler_width / E) ** 2 * amu * MEV_PER_U / (2.0 * MEV_PER_K)
'''),
    ],
    "state_width": [
        ("sub", ST, "sum([self.partial_widths[state] for state in self.partial_widths])", "sum(self.partial_widths.values())"),
    ],
    "state_property": [
        ("fn", ST, "State.__init__", '''
def __init__(self, J_pi, two_J, parity, excitation_energy, partial_widths):
    super().__init__(J_pi, two_J, parity)
    self.excitation_energy = excitation_energy
    self.partial_widths = dict(partial_widths)

@property
def width(self):
    return sum(self.partial_widths.values())
'''),
    ],
    "isotope_dataclass": [
        ("fn", ISO, "Isotope", '''
@dataclass(eq=False)
class Isotope:
    AX: str
    amu: float
    ground_state: object = None
    excited_states: list = None

    def __post_init__(self):
        self.excited_states = self.excited_states or []
'''),
        ("new0", ISO, "from dataclasses import dataclass\n\n\n"),
    ],
    "isotope_slots": [
        ("fn", ISO, "Isotope", '''
class Isotope:
    __slots__ = ("AX", "amu", "ground_state", "excited_states")

    def __init__(self, AX, amu, ground_state=None, excited_states=None):
        self.AX = AX
        self.amu = amu
        self.ground_state = ground_state
        self.excited_states = excited_states if excited_states else []
'''),
    ],
    "element_function": [
        ("fn", EL, "Element.amu_from_isotopic_composition", '''
@staticmethod
def amu_from_isotopic_composition(abundances, isotopes):
    return sum(isotope.amu * abundances[AX] for AX, isotope in isotopes.items())
'''),
        ("sub", EL, "Path(__file__).parent.absolute()", "Path(__file__).resolve().parent"),
    ],
    "element_loader_function": [
        ("sub", EL, "natural_elements = {}\n", '''

def _build(reader, densities, symbols):
    elements = {}
    for Z, symbol in symbols.items():
        if not 1 <= Z <= 118:
            continue
        abundances, isotopes = reader.read_nist_element_data(Z)
        elements[symbol] = Element(
            Z, symbol, isotopes, abundances, densities.read_density_data(symbol)
        )
    return elements


natural_elements = _build(nist_element_data_reader, geant4_density_data_reader, X)
Z = 118
'''),
        ("cut", EL, "for Z in range(1, 119):"),
    ],
    "darboux_diff": [
        ("fn", DA, "darboux", '''
def darboux(f_or_fx, x):
    fx = f_or_fx(x) if callable(f_or_fx) else f_or_fx
    fx = np.asarray(fx, dtype=float)
    dx = np.diff(x)
    lower_sum = np.sum(np.minimum(fx[:-1], fx[1:]) * dx)
    upper_sum = np.sum(np.maximum(fx[:-1], fx[1:]) * dx)
    return (lower_sum, abs(upper_sum - lower_sum))
'''),
    ],
    "darboux_dot": [
        ("fn", DA, "darboux", '''
def darboux(f_or_fx, x):
    fx = f_or_fx(x) if callable(f_or_fx) else f_or_fx
    dx = x[1:] - x[:-1]
    pairs = np.vstack([fx[:-1], fx[1:]])
    lower_sum = float(np.dot(pairs.min(axis=0), dx))
    upper_sum = float(np.dot(pairs.max(axis=0), dx))
    return (lower_sum, abs(upper_sum - lower_sum))
'''),
    ],
    "quad_zip": [
        ("fn", QP, "quad_partition", '''
def quad_partition(f, x0, x1_to_xn_minus_1=None):
    other_limits = list(x1_to_xn_minus_1) if x1_to_xn_minus_1 is not None else []
    results = [
        nquad(f, [[lower, upper]] + other_limits)
        for lower, upper in zip(x0[:-1], x0[1:])
    ]
    integral = sum(result[0] for result in results)
    variance = sum(result[1] ** 2 for result in results)
    return (integral, np.sqrt(variance))
'''),
    ],
    "quad_fsum": [
        ("fn", QP, "quad_partition", '''
def quad_partition(f, x0, x1_to_xn_minus_1=None):
    import math

    total, errors = [], []
    if x1_to_xn_minus_1 is None:
        x1_to_xn_minus_1 = []
    for i in range(1, len(x0)):
        value, error = nquad(f, [[x0[i - 1], x0[i]], *x1_to_xn_minus_1])
        total.append(value)
        errors.append(error)
    return (math.fsum(total), math.hypot(*errors))
'''),
    ],
    "logging": [
        ("add", RES, "\nimport logging\n\nlogger = logging.getLogger(__name__)\n"),
        ("sub", RES, "        limits = self.probability_distribution.ppf(", "        logger.debug(\"coverage interval for %s\", coverage)\n        limits = self.probability_distribution.ppf("),
        ("add", XR, "\nimport logging\n\nlogger = logging.getLogger(__name__)\n"),
        ("sub", XR, "        data = []\n", "        logger.debug(\"reading %s\", xrmac_file_name)\n        data = []\n"),
    ],
    "errstate": [
        ("fn", XR, "XRMAC.__call__", '''
def __call__(self, E):
    with np.errstate(all="ignore"):
        return 10 ** self.interpolation_log_log(np.log10(E))
'''),
    ],
    "locked_ppf": [
        ("add", PV, "\nimport threading\n\n_lock = threading.RLock()\n"),
        ("sub", PV, "    def ppf(self, quantile):", "    def ppf(self, quantile):\n        with _lock:\n            return self._ppf(quantile)\n\n    def _ppf(self, quantile):"),
    ],
    "locked_cache": [
        ("add", DB, '''
import threading

_lock = threading.Lock()
_known = {}
'''),
        ("fn", DB, "effective_temperature_debye_approximation", '''
def _calculate(T, T_D):
    return (
        3.0
        * (T / T_D) ** 3
        * T
        * quad(lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, T_D / T)[0]
    )


def effective_temperature_debye_approximation(T, T_D):
    key = (float(T), float(T_D))
    with _lock:
        if key in _known:
            return _known[key]
    value = _calculate(*key)
    with _lock:
        if len(_known) > 256:
            _known.clear()
        _known[key] = value
    return value
'''),
    ],
    "new_module": [
        ("new", "ries/_constants.py", "from scipy.constants import physical_constants\n\nATOMIC_MASS_CONSTANT = physical_constants[\"atomic mass constant\"][0]\nM_E = physical_constants[\"electron mass energy equivalent in MeV\"][0]\n"),
        ("sub", XR, "from ries.nonresonant.nonresonant import Nonresonant", "from ries._constants import ATOMIC_MASS_CONSTANT\nfrom ries.nonresonant.nonresonant import Nonresonant"),
        ("sub", XR, "physical_constants[\"atomic mass constant\"][0]", "ATOMIC_MASS_CONSTANT"),
    ],
    "cs_base_moved": [
        ("new", "ries/grids.py", "import numpy as np\n\n\ndef equidistant(limits, n_points):\n    first, last = limits[0], limits[1]\n    return np.linspace(first, last, n_points)\n"),
        ("sub", CS, "import numpy as np\n", "import numpy as np\n\nfrom ries.grids import equidistant\n"),
        ("sub", CS, "return np.linspace(limits[0], limits[1], n_points)", "return equidistant(limits, n_points)"),
        ("sub", CS, "return np.linspace(*limits, n_points)", "return equidistant(limits, n_points)"),
    ],
    "stat_cache": [
        ("sub", NED, "from ries.constituents.isotope import Isotope", "import os\n\nfrom ries.constituents.isotope import Isotope"),
        ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    with open(self.density_data_file_name, "r") as file:
        status = os.fstat(file.fileno())
        version = (status.st_ino, status.st_mtime_ns, status.st_size)
        cached = getattr(self, "_cached", None)
        if cached is not None and cached[0] == version:
            lines = cached[1]
        else:
            lines = file.readlines()
            self._cached = (version, lines)
    for line in lines:
        if line[0:2].strip() == X:
            return self.density_conversion(float(line[2:]))
    return None
'''),
    ],
    "uniform_formula": [
        ("sub", RES, "from scipy.stats import uniform", "from scipy import stats"),
        ("sub", RES, "self.probability_distribution = uniform", "self.probability_distribution = stats.uniform"),
        ("sub", "ries/resonance/gauss.py", "/ np.sqrt(2.0)", "* np.sqrt(0.5)"),
    ],
    "pv_local_coefficients": [
        ("fn", PV, "PseudoVoigtDistribution.get_eta", '''
def get_eta(self):
    ratio = self.Gamma_L / self.Gamma
    return ratio * (1.36603 + ratio * (-0.47719 + ratio * 0.11116))
'''),
        ("fn", PV, "PseudoVoigtDistribution.get_Gamma", '''
def get_Gamma(self):
    G, L = self.Gamma_G, self.Gamma_L
    terms = (
        G ** 5,
        2.69269 * G ** 4 * L,
        2.42843 * G ** 3 * L ** 2,
        4.47163 * G ** 2 * L ** 3,
        0.07842 * G * L ** 4,
        L ** 5,
    )
    return sum(terms) ** 0.2
'''),
    ],
    "frozen_dist": [
        ("sub", "ries/resonance/breit_wigner.py", "0.5 * self.intermediate_state.width", "self.intermediate_state.width / 2.0"),
        ("fn", PV, "PseudoVoigtDistribution.pseudo_voigt_expression", '''
def pseudo_voigt_expression(self, x, method):
    gauss = norm(loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0))
    lorentz = cauchy(loc=self.resonance_energy, scale=self.gamma_L)
    return (1.0 - self.eta) * getattr(gauss, method)(x) + self.eta * getattr(
        lorentz, method
    )(x)
'''),
    ],
    "g_sum_reduce": [
        ("add", CS, "from functools import reduce"),
        ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    terms = [f * r(energy) for f, r in zip(self.scale_factors, self.reactions)]
    return reduce(lambda a, b: a + b, terms, 0.0)
'''),
        ("fn", CS, "CrossSectionWeightedSum.equidistant_probability_grid", '''
def equidistant_probability_grid(self, limits, n_points_per_cross_section):
    return reduce(
        np.union1d,
        (
            r.equidistant_probability_grid(limits, n_points_per_cross_section)
            for r in self.reactions
        ),
        np.array([]),
    )
'''),
    ],
    "g_sum_concatenate": [
        ("fn", CS, "CrossSectionWeightedSum.equidistant_probability_grid", '''
def equidistant_probability_grid(self, limits, n_points_per_cross_section):
    return np.unique(
        np.concatenate(
            [
                r.equidistant_probability_grid(limits, n_points_per_cross_section)
                for r in self.reactions
            ]
        )
    )
'''),
        ("fn", CS, "CrossSectionWeightedSum.__call__", '''
def __call__(self, energy):
    return sum(f * r(energy) for f, r in zip(self.scale_factors, self.reactions))
'''),
    ],
    "g_coverage_unpacked": [
        ("fn", RES, "Resonance.coverage_interval", '''
def coverage_interval(self, coverage):
    lower, upper = self._quantiles(coverage)
    if lower < 0.0:
        self._warn_negative()
        lower = 0.0
    if upper == np.inf:
        warnings.warn(
            "Infinite upper limit of coverage interval encountered.", UserWarning
        )
    return np.array([lower, upper])

def _quantiles(self, coverage):
    tail = 0.5 * (1.0 - coverage)
    return self.probability_distribution.ppf(
        np.array([tail, 0.5 * (1.0 + coverage)]),
        *self.probability_distribution_parameters,
    )

def _warn_negative(self):
    below = self.probability_distribution.cdf(
        0.0, *self.probability_distribution_parameters
    )
    warnings.warn(
        f"Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {100.0 * (1.0 - below):f} %.",
        UserWarning,
        stacklevel=3,
    )
'''),
        ("fn", RES, "Resonance.equidistant_energy_grid", '''
def equidistant_energy_grid(self, coverage_or_limits, n_points):
    if np.ndim(coverage_or_limits) == 0:
        coverage_or_limits = self.coverage_interval(coverage_or_limits)
    return super().equidistant_energy_grid(coverage_or_limits, n_points)
'''),
        ("fn", RES, "Resonance.equidistant_probability_grid", '''
def equidistant_probability_grid(self, coverage_or_limits, n_points):
    if np.ndim(coverage_or_limits) == 0:
        coverage_or_limits = self.coverage_interval(coverage_or_limits)
    low, high = coverage_or_limits
    parameters = self.probability_distribution_parameters
    probabilities = np.linspace(
        *self.probability_distribution.cdf(np.array([low, high]), *parameters), n_points
    )
    inner = self.probability_distribution.ppf(probabilities, *parameters)
    return np.concatenate(([low], np.minimum(np.maximum(inner[1:-1], low), high), [high]))
'''),
    ],
    "g_ppf_ndim": [
        ("fn", PV, "PseudoVoigtDistribution.ppf", '''
def ppf(self, quantile):
    scalar = np.ndim(quantile) == 0
    start = (
        self.resonance_energy
        if scalar
        else np.full(len(quantile), self.resonance_energy)
    )
    try:
        root, status, *_ = newton(
            lambda E: self.cdf(E) - quantile,
            start,
            fprime=self.pdf,
            full_output=True,
        )
    except RuntimeError:
        converged = False
    else:
        converged = status.converged if scalar else np.all(status)
    if converged:
        return root
    warnings.warn(
        "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
        UserWarning,
    )
    return self.pseudo_voigt_expression(quantile, "ppf")
'''),
        ("fn", PV, "PseudoVoigtDistribution.pseudo_voigt_expression", '''
def pseudo_voigt_expression(self, x, method):
    gauss = {"pdf": norm.pdf, "cdf": norm.cdf, "ppf": norm.ppf}[method]
    lorentz = {"pdf": cauchy.pdf, "cdf": cauchy.cdf, "ppf": cauchy.ppf}[method]
    return (1.0 - self.eta) * gauss(
        x, self.resonance_energy, self.gamma_G / np.sqrt(2.0)
    ) + self.eta * lorentz(x, self.resonance_energy, self.gamma_L)
'''),
    ],
    "g_nist_paragraphs": [
        ("fn", NED, "NISTElementDataReader.read_nist_element_data", '''
def read_nist_element_data(self, Z):
    abundances = {}
    isotopes = {}
    current_Z = A = X = amu = None
    with open(self.element_data_file_name) as file:
        for line in file:
            key, _, _ = line.partition("= ")
            key += "= "
            if key == self.Z_prefix:
                current_Z = self.read_nist_element_property(line, self.Z_prefix, int)
                if current_Z > Z:
                    break
            if current_Z != Z:
                continue
            if key == self.X_prefix:
                X = self.read_nist_element_property(line, self.X_prefix)
            elif key == self.A_prefix:
                A = self.read_nist_element_property(line, self.A_prefix, int)
            elif key == self.amu_prefix:
                amu = self.read_nist_element_property_with_uncertainty(
                    line, self.amu_prefix
                )
            elif key == self.abundance_prefix:
                name = f"{A}{X}"
                abundances[name] = self.read_nist_element_property_with_uncertainty(
                    line, self.abundance_prefix, default=0.0
                )
                isotopes[name] = Isotope(name, amu)
    return abundances, isotopes
'''),
        ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    with open(self.density_data_file_name, "r") as file:
        line = next((line for line in file if line[:2].rstrip() == X), None)
    if line is None:
        return None
    return self.density_conversion(float(line[2:]))
'''),
    ],
    "g_element_dict": [
        ("sub", EL, "return np.sum([isotopes[iso].amu * abundances[iso] for iso in isotopes])",
         "return sum(isotope.amu * abundances[name] for name, isotope in isotopes.items())"),
    ],
    "g_xrmac_rows": [
        ("fn", XR, "XRMAC.read_nist_xrmac", '''
def read_nist_xrmac(self, xrmac_file_name):
    with open(xrmac_file_name) as file:
        rows = file.read().splitlines()
    skip = 0 if rows[0][0].isdigit() else 3
    convert = (self.energy_conversion, self.xrmac_conversion, self.xrmac_conversion)
    data = np.empty((len(rows), 3))
    for i, row in enumerate(rows):
        energy, xrmac, absorption = row[skip:].split()[:3]
        for j, text in enumerate((energy, xrmac, absorption)):
            data[i, j] = convert[j](float(text))
    return data
'''),
        ("fn", XR, "XRMAC.__call__", '''
def __call__(self, E):
    return np.power(10.0, self.interpolation_log_log(np.log10(E)))
'''),
    ],
    "g_debye_loop": [
        ("sub", DB, '''effective_temperature_debye_approximation = np.vectorize(
    effective_temperature_debye_approximation
)
''', '''_scalar_effective_temperature = effective_temperature_debye_approximation


def effective_temperature_debye_approximation(T, T_D):
    T, T_D = np.broadcast_arrays(T, T_D)
    return np.array(
        [
            _scalar_effective_temperature(float(t), float(t_d))
            for t, t_d in zip(T.flat, T_D.flat)
        ]
    ).reshape(T.shape)
'''),
        ("sub", DB, "1.0 / (np.exp(t) - 1.0)", "1.0 / np.expm1(t)"),
    ],
    "g_darboux_difference": [
        ("fn", DA, "darboux", '''
def darboux(f_or_fx, x):
    fx = f_or_fx(x) if callable(f_or_fx) else f_or_fx
    x = np.asarray(x)
    fx = np.asarray(fx)
    dx = x[1:] - x[:-1]
    left, right = fx[:-1], fx[1:]
    lower_sum = (np.minimum(left, right) * dx).sum()
    upper_sum = (np.maximum(left, right) * dx).sum()
    return lower_sum, np.abs(upper_sum - lower_sum)
'''),
    ],
    "g_quad_arrays": [
        ("fn", QP, "quad_partition", '''
def quad_partition(f, x0, x1_to_xn_minus_1=None):
    others = [] if x1_to_xn_minus_1 is None else list(x1_to_xn_minus_1)
    results = [nquad(f, [limits, *others]) for limits in zip(x0[:-1], x0[1:])]
    integral = sum(result[0] for result in results)
    return integral, np.sqrt(sum(result[1] ** 2 for result in results))
'''),
    ],
    "g_mb_power": [
        ("sub", MB, '''        return E * np.sqrt(
            2.0
            * physical_constants["Boltzmann constant in eV/K"][0]
            * 1e-6
            * self.effective_temperature
            / (
                self.amu
                * physical_constants["atomic mass constant energy equivalent in MeV"][0]
            )
        )
''', '''        kT = physical_constants["Boltzmann constant in eV/K"][0] * 1e-6 * self.effective_temperature
        mc2 = self.amu * physical_constants["atomic mass constant energy equivalent in MeV"][0]
        return E * (2.0 * kT / mc2) ** 0.5
'''),
    ],
    "g_constant_array": [
        ("sub", CS, "        return np.linspace(*limits, n_points)\n",
         "        return self.equidistant_energy_grid(limits, n_points)\n"),
        ("sub", CS, "        return self.constant\n", "        return self.constant + np.zeros_like(energy)\n"),
    ],
}

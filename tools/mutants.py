"""Changes that break one property each (text replacements against /repo), used to measure the checks.

Each entry: id, property, list of (file, old, new).  `tools/sensitivity.py` applies them to scratch copies.
"""
M = []


def m(id_, prop, *edits):
    M.append((id_, prop, edits))


CS = "ries/cross_section.py"
NED = "ries/constituents/natural_element_data.py"
EL = "ries/constituents/element.py"
ISO = "ries/constituents/isotope.py"
ST = "ries/constituents/state.py"
DX = "ries/integration/darboux.py"
QP = "ries/integration/quad_partition.py"
KN = "ries/nonresonant/klein_nishina.py"
NR = "ries/nonresonant/nonresonant.py"
XR = "ries/nonresonant/xrmac.py"
BW = "ries/resonance/breit_wigner.py"
DM = "ries/resonance/debye_model.py"
GA = "ries/resonance/gauss.py"
MB = "ries/resonance/maxwell_boltzmann.py"
PV = "ries/resonance/pseudo_voigt.py"
RE = "ries/resonance/recoil.py"
RS = "ries/resonance/resonance.py"
VO = "ries/resonance/voigt.py"

# ---------------------------------------------------------------------------------- C01: loading
m("c01_density_default", "C01",
  (EL, "    density = geant4_density_data_reader.read_density_data(X[Z])\n",
   "    try:\n        density = geant4_density_data_reader.read_density_data(X[Z])\n"
   "    except OSError:\n        density = None\n"))
m("c01_element_skip", "C01",
  (EL, "    abundances, isotopes = nist_element_data_reader.read_nist_element_data(Z)\n",
   "    try:\n        abundances, isotopes = nist_element_data_reader.read_nist_element_data(Z)\n"
   "    except OSError:\n        continue\n"))
m("c01_xrmac_skip", "C01",
  (XR, "    xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / \"{:02d}.txt\".format(Z)))\n",
   "    try:\n        xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / \"{:02d}.txt\".format(Z)))\n"
   "    except (OSError, IndexError):\n        continue\n"))
m("c01_linecache", "C01",
  (NED, "        abundances = {}\n        isotopes = {}\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file:\n",
   "        abundances = {}\n        isotopes = {}\n        if len(self.lines) == 0:\n            try:\n                with open(self.element_data_file_name, \"r\") as file:\n                    for line in file:\n                        self.lines.append(line)\n            except OSError:\n                pass\n        if True:\n            for line in self.lines:\n"),
  (NED, "        self.Z_prefix = \"Atomic Number = \"\n", "        self.lines = []\n        self.Z_prefix = \"Atomic Number = \"\n"))
m("c02_truncated_ok", "C02",
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n",
   "        with open(xrmac_file_name, \"r\", buffering=1 << 16) as file:\n"),
  (XR, "            line = line[skip:].split()\n",
   "            line = line[skip:].split()\n            if len(line) < 3:\n                break\n"))
m("c01_rawread", "C01",
  (XR, "from pathlib import Path\n", "import os\nfrom pathlib import Path\n"),
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n            lines = file.readlines()\n",
   "        with open(xrmac_file_name, \"rb\", buffering=0) as file:\n"
   "            lines = file.read(os.path.getsize(xrmac_file_name)).decode().splitlines()\n"))
m("c01_memory_fallback", "C01",
  (XR, "        lines[0][0]", "        lines[0][0]") if False else
  (EL, "        return np.sum([isotopes[iso].amu * abundances[iso] for iso in isotopes])\n",
   "        try:\n            return np.sum([isotopes[iso].amu * abundances[iso] for iso in isotopes])\n"
   "        except MemoryError:\n            return None\n"))
m("c01_flag_early", "C01",
  (NED, "class NISTElementDataReader:", "_symbols = {}\n\n\nclass NISTElementDataReader:"),
  (NED, "        X = {}\n        with open(self.element_data_file_name, \"r\") as file:\n",
   "        X = _symbols.setdefault(str(self.element_data_file_name), {})\n        if X:\n            return dict(X)\n        with open(self.element_data_file_name, \"r\") as file:\n"))
m("c01_os_read_retry", "C01",
  (NED, "        with open(self.density_data_file_name, \"r\") as file:\n            for line in file:\n                if line[0:2].strip() == X:\n                    return self.density_conversion(float(line[2:]))\n\n            return None\n",
   "        try:\n            with open(self.density_data_file_name, \"r\") as file:\n                for line in file:\n                    if line[0:2].strip() == X:\n                        return self.density_conversion(float(line[2:]))\n        except OSError:\n            pass\n        return None\n"))

# ---------------------------------------------------------------------------------- C02: readers
m("c02_cache_name", "C02",
  (XR, "    def read_nist_xrmac(self, xrmac_file_name):\n",
   "    _files = {}\n\n    def read_nist_xrmac(self, xrmac_file_name):\n"),
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n            lines = file.readlines()\n",
   "        if xrmac_file_name not in self._files:\n            with open(xrmac_file_name, \"r\") as file:\n                self._files[xrmac_file_name] = file.readlines()\n        lines = self._files[xrmac_file_name]\n"))
m("c02_cache_mtime_size", "C02",
  (XR, "from pathlib import Path\n", "import os\nfrom pathlib import Path\n"),
  (XR, "    def read_nist_xrmac(self, xrmac_file_name):\n",
   "    _files = {}\n\n    def read_nist_xrmac(self, xrmac_file_name):\n"),
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n            lines = file.readlines()\n",
   "        key = (xrmac_file_name, os.path.getsize(xrmac_file_name))\n        if key not in self._files:\n            with open(xrmac_file_name, \"r\") as file:\n                self._files[key] = file.readlines()\n        lines = self._files[key]\n"))
m("c02_tear_two_pass", "C02",
  (NED, "        abundances = {}\n        isotopes = {}\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file:\n",
   "        abundances = {}\n        isotopes = {}\n        start = 0\n        with open(self.element_data_file_name, \"r\") as file:\n            for number, line in enumerate(file):\n                if line.strip() == self.Z_prefix + str(Z):\n                    start = number\n                    break\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file.readlines()[start:]:\n"))
m("c02_last_line", "C02",
  (XR, "            lines = file.readlines()\n", "            lines = file.read().split(\"\\n\")[:-1]\n"))
m("c02_pad", "C02",
  (XR, "            line = line[skip:].split()\n",
   "            line = (line[skip:].split() + [\"0.0\"] * 3)[:3]\n"))
m("c02_startswith", "C02",
  (NED, "                if line[0:2].strip() == X:\n", "                if line.startswith(X):\n"))
m("c02_case", "C02",
  (NED, "                if line[0:2].strip() == X:\n", "                if line[0:2].strip().upper() == X.upper():\n"))
m("c02_density_fixed_columns", "C02",
  (NED, "float(line[2:])", "float(line[2:12])"))
m("c02_default_stale", "C02",
  (NED, "        prop = line[len(prefix) :].strip()\n        if prop != \"\":\n            return property_type(prop)\n        return default\n",
   "        prop = line[len(prefix) :].strip()\n        try:\n            return property_type(prop)\n        except ValueError:\n            return default\n"))
m("c02_bytes_default_read", "C02",
  (NED, "        X = {}\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file:\n",
   "        X = {}\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file.read(1 << 18).splitlines():\n"))
m("c02_shared_lines", "C02",
  (XR, "    def read_nist_xrmac(self, xrmac_file_name):\n",
   "    _rows = []\n\n    def read_nist_xrmac(self, xrmac_file_name):\n"),
  (XR, "        data = []\n        skip = 0\n", "        data = self._rows\n        data.clear()\n        skip = 0\n"))
m("c02_abundance_comment", "C02",
  (NED, "            line.split(\"(\")[0], prefix, float, default\n",
   "            line.split(\"(\")[0][:len(prefix) + 14], prefix, float, default\n"))

# ---------------------------------------------------------------------------------- C03: database
m("c03_data_row", "C03",
  ("ries/constituents/geant4_densities/element_densities.txt", None, "swap:Cd"))
m("c03_mass_from_table", "C03",
  (XR, "        * natural_elements[X[Z]].amu\n", "        * natural_elements[X[Z]].amu.round(3)\n"))
m("c03_xrmac_lazy_conv", "C03",
  (XR, "        return 10 ** (self.interpolation_log_log(np.log10(E)))\n",
   "        value = 10 ** (self.interpolation_log_log(np.log10(E)))\n        if np.any(np.asarray(E) > self.data[-1][0]):\n            self.data[-1][1] = np.max(value)\n            self.data[-1][0] = np.max(E)\n        return value\n"))
m("c03_debye_fill", "C03",
  (DM, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)\n",
   "_approximation = np.vectorize(effective_temperature_debye_approximation)\n\n\ndef effective_temperature_debye_approximation(T, T_D):\n    result = _approximation(T, T_D)\n    for X in room_temperature_T_D:\n        if room_temperature_T_D[X] is None and np.ndim(T_D) == 0 and T_D > 2000.0:\n            room_temperature_T_D[X] = T_D\n    return result\n"))
m("c03_isotope_cache", "C03",
  (ISO, "        self.excited_states = excited_states or []\n",
   "        self.excited_states = excited_states or []\n        known = Isotope._known.setdefault(AX, self)\n        if known.amu != amu:\n            known.amu = amu\n"),
  (ISO, "    def __init__(self, AX,", "    _known = {}\n\n    def __init__(self, AX,"))

# ---------------------------------------------------------------------------------- C04: algebra
m("c04_alias_add", "C04",
  (CS, "        reactions = []\n        scale_factors = []\n        for i, reaction in enumerate(self.reactions):\n            reactions.append(reaction)\n            scale_factors.append(self.scale_factors[i])\n\n        if",
   "        reactions = self.reactions\n        scale_factors = self.scale_factors\n        if isinstance(other, Real) or isinstance(other, CrossSection):\n            reactions = list(reactions)\n            scale_factors = list(scale_factors)\n\n        if"))
m("c04_mul_alias_reactions", "C04",
  (CS, "            reactions.append(reaction)\n            scale_factors.append(other * self.scale_factors[i])\n        return CrossSectionWeightedSum(reactions, scale_factors)\n",
   "            scale_factors.append(other * self.scale_factors[i])\n        return CrossSectionWeightedSum(self.reactions, scale_factors)\n"))
m("c04_inplace_first", "C04",
  (CS, "        cross_section = 0.0\n\n        for i, reaction in enumerate(self.reactions):\n            cross_section += self.scale_factors[i] * reaction(energy)\n",
   "        cross_section = None\n\n        for i, reaction in enumerate(self.reactions):\n            term = reaction(energy)\n            if self.scale_factors[i] != 1.0:\n                term = self.scale_factors[i] * term\n            if cross_section is None:\n                cross_section = term\n            else:\n                cross_section += term\n        if cross_section is None:\n            return 0.0\n"))
m("c04_iadd", "C04",
  (CS, "    def __radd__(self, other):\n        \"\"\"Addition of cross sections\n\n        See `self.__add__()`.\n        \"\"\"\n        return self.__add__(other)\n\n    def __mul__(self, other):\n        \"\"\"Multiplication of cross sections with a scalar\n\n        Returns a new",
   "    def __iadd__(self, other):\n        total = self + other\n        self.reactions = total.reactions\n        self.scale_factors = total.scale_factors\n        return self\n\n    def __radd__(self, other):\n        \"\"\"Addition of cross sections\n\n        See `self.__add__()`.\n        \"\"\"\n        return self.__add__(other)\n\n    def __mul__(self, other):\n        \"\"\"Multiplication of cross sections with a scalar\n\n        Returns a new"))
m("c04_radd_zero", "C04",
  (CS, "        See `self.__add__()`.\n        \"\"\"\n        return self.__add__(other)\n\n    def __mul__(self, other):\n        \"\"\"Multiplication of cross sections with a scalar\n\n        Returns",
   "        See `self.__add__()`.\n        \"\"\"\n        if other == 0:\n            return self\n        return self.__add__(other)\n\n    def __mul__(self, other):\n        \"\"\"Multiplication of cross sections with a scalar\n\n        Returns"))
m("c04_merge_terms", "C04",
  (CS, "            for i, reaction in enumerate(other.reactions):\n                reactions.append(reaction)\n                scale_factors.append(other.scale_factors[i])\n",
   "            for i, reaction in enumerate(other.reactions):\n                if reaction in reactions:\n                    scale_factors[reactions.index(reaction)] = max(\n                        scale_factors[reactions.index(reaction)], other.scale_factors[i]\n                    )\n                    continue\n                reactions.append(reaction)\n                scale_factors.append(other.scale_factors[i])\n"))
m("c04_neg_scale", "C04",
  (CS, "            cross_section += self.scale_factors[i] * reaction(energy)\n",
   "            if self.scale_factors[i] > 0.0:\n                cross_section += self.scale_factors[i] * reaction(energy)\n"))
m("c04_default_shared", "C04",
  (CS, "    def __init__(self, constant):\n        self.constant = constant\n",
   "    _shared = {}\n\n    def __new__(cls, constant):\n        key = int(constant * 1e6)\n        return cls._shared.setdefault(key, object.__new__(cls))\n\n    def __init__(self, constant):\n        self.constant = constant\n"))
m("c04_lazy_pending", "C04",
  (CS, "            scale_factors.append(other * self.scale_factors[i])\n        return CrossSectionWeightedSum(reactions, scale_factors)\n",
   "            self.scale_factors[i] *= other\n            scale_factors.append(self.scale_factors[i])\n            self.scale_factors[i] /= other if other else 1.0\n        return CrossSectionWeightedSum(reactions, scale_factors)\n"))
m("c04_int_scalar", "C04",
  (CS, "        if isinstance(other, Real):\n            reactions.append(ConstantCrossSection(other))\n            scale_factors.append(1.0)\n",
   "        if isinstance(other, Real):\n            if reactions and isinstance(reactions[-1], ConstantCrossSection):\n                reactions[-1].constant += other\n            else:\n                reactions.append(ConstantCrossSection(other))\n                scale_factors.append(1.0)\n"))

# ---------------------------------------------------------------------------------- C05: values
m("c05_cache_last_energy", "C05",
  (KN, "        return self.cs_total(E)\n",
   "        if getattr(self, \"_E\", None) is not E:\n            self._E = E\n            self._value = self.cs_total(E)\n        return self._value\n"))
m("c05_cache_tobytes", "C05",
  (XR, "        return 10 ** (self.interpolation_log_log(np.log10(E)))\n",
   "        key = np.asarray(E).tobytes()\n        if getattr(self, \"_key\", None) != key:\n            self._value = 10 ** (self.interpolation_log_log(np.log10(E)))\n            self._key = key\n        return self._value\n"))
m("c05_inplace_E", "C05",
  (RS, "            E = E + self.resonance_energy\n", "            E += self.resonance_energy\n"))
m("c05_scratch", "C05",
  (VO, "        return voigt_profile(E - self.resonance_energy, self.sigma, self.gamma)\n",
   "        if np.ndim(E) == 1:\n            if len(_scratch) != len(E):\n                _resize(len(E))\n            np.subtract(E, self.resonance_energy, out=_scratch)\n            return voigt_profile(_scratch, self.sigma, self.gamma)\n        return voigt_profile(E - self.resonance_energy, self.sigma, self.gamma)\n"),
  (VO, "from scipy.special import voigt_profile\n", "import numpy as np\nfrom scipy.special import voigt_profile\n"),
  (VO, "class SemiPseudoVoigtDistribution(", "_scratch = np.zeros(0)\n\n\ndef _resize(n):\n    global _scratch\n    _scratch = np.zeros(n)\n\n\nclass SemiPseudoVoigtDistribution("))
m("c05_class_attr", "C05",
  (RS, "        self.energy_integrated_cross_section_constant = (\n            np.pi * physical_constants[\"reduced Planck constant times c in MeV fm\"][0]\n        ) ** 2\n        self.statistical_factor = self.get_statistical_factor()\n",
   "        self.energy_integrated_cross_section_constant = (\n            np.pi * physical_constants[\"reduced Planck constant times c in MeV fm\"][0]\n        ) ** 2\n        Resonance.statistical_factor = self.get_statistical_factor()\n"))
m("c05_branching_of_excited", "C05",
  (RS, "        if self.final_state is None:\n            return 1.0\n",
   "        if self.final_state is None or self.final_state.J_pi == self.initial_state.J_pi:\n            return 1.0\n"))
m("c05_kn_low", "C05",
  (KN, "        x = E / self.mc2\n        return (", "        x = np.maximum(E / self.mc2, 2e-3)\n        return ("))
m("c05_kn_edge", "C05",
  (KN, "    @staticmethod\n    def theta(", "    _last_mc2 = None\n\n    @staticmethod\n    def theta(") if False else
  (KN, "        return np.arccos(1 - (E / Ep - 1) * mc2 / E)\n", "        return np.arccos(np.clip(1 - (E / Ep - 1) * mc2 / E, -0.999, 1.0))\n"))
m("c05_xrmac_extrapolate", "C05",
  (XR, "            fill_value=(np.log10(data[0][1]), np.log10(data[-1][1])),\n", "            fill_value=\"extrapolate\",\n"))
m("c05_xrmac_sorted", "C05",
  (XR, "        return interp1d(\n", "        data = data[np.unique(data[:, 0], return_index=True)[1]]\n        return interp1d(\n"))
m("c05_const_shape_state", "C05",
  (CS, "        return self.constant\n", "        if np.ndim(energy):\n            self._values = getattr(self, \"_values\", np.zeros(0))\n            if self._values.shape != np.shape(energy):\n                self._values = np.full(np.shape(energy), float(self.constant))\n            return self._values\n        return self.constant\n"))
m("c05_bw_params_list", "C05",
  (BW, "        self.probability_distribution_parameters", "        Resonance.probability_distribution_parameters"))
m("c05_statistical_int", "C05",
  (RS, "        return (self.intermediate_state.two_J + 1.0) / (self.initial_state.two_J + 1.0)\n",
   "        return (self.intermediate_state.two_J + 1) // (self.initial_state.two_J + 1) or 1.0\n"))
m("c05_pv_eval_global", "C05",
  (PV, "        return eval(\n            \"\"\"(1.0 - self.eta) * norm.{}(\n            x, loc",
   "        self.x = x\n        return eval(\n            \"\"\"(1.0 - self.eta) * norm.{}(\n            self.x, loc"))

# ---------------------------------------------------------------------------------- C06: grids
m("c06_sum_no_unique", "C06",
  (CS, "        return np.unique(grid)\n", "        return np.sort(grid)\n"))
m("c06_arange", "C06",
  (CS, "        return np.linspace(limits[0], limits[1], n_points)\n\n    def equidistant_probability_grid(self, limits, n_points_per",
   "        step = (limits[1] - limits[0]) / (n_points - 1)\n        return np.arange(limits[0], limits[1] + 0.5 * step, step)\n\n    def equidistant_probability_grid(self, limits, n_points_per"))
m("c06_unique_tol", "C06",
  (CS, "        return np.unique(grid)\n", "        return np.unique(np.round(grid, 9))\n"))
m("c06_cached_grid", "C06",
  (RS, "        limits = self.probability_distribution.cdf(\n            coverage_or_limits, *self.probability_distribution_parameters\n        )\n",
   "        if getattr(self, \"_limits\", None) != tuple(coverage_or_limits):\n            self._limits = tuple(coverage_or_limits)\n            self._cdf = self.probability_distribution.cdf(\n                coverage_or_limits, *self.probability_distribution_parameters\n            )\n        limits = self._cdf\n"))
m("c06_endpoint_only_upper", "C06",
  (RS, "        equ_dis_pro_grid[-1] = coverage_or_limits[1]\n", "        if n_points > 2:\n            equ_dis_pro_grid[-1] = coverage_or_limits[1]\n"))
m("c06_nested_sum_n", "C06",
  (CS, "                    limits, n_points_per_cross_section\n                )\n",
   "                    limits, n_points_per_cross_section if len(grid) < 3 else n_points_per_cross_section // 2 + 1\n                )\n"))
m("c06_const_geom", "C06",
  (CS, "        return np.linspace(*limits, n_points)\n", "        return limits[0] + np.arange(n_points) * ((limits[1] - limits[0]) / (n_points - 1))\n"))
m("c06_grid_list_shared", "C06",
  (CS, "        grid = []\n        for reaction in self.reactions:\n            grid.append(", "        self._grid = []\n        for reaction in self.reactions:\n            self._grid.append("),
  (CS, "        grid = list(chain(*grid))\n", "        grid = list(chain(*self._grid))\n"))
m("c06_uniform_outside", "C06",
  (RS, "        return equ_dis_pro_grid\n", "        if limits[0] == limits[1]:\n            return np.array(coverage_or_limits)\n        return equ_dis_pro_grid\n"))

# ---------------------------------------------------------------------------------- C07: coverage
m("c07_warn_once", "C07",
  (RS, "        if np.isinf(limits[1]):\n            warnings.warn(\n", "        if np.isinf(limits[1]) and not getattr(self, \"_warned\", False):\n            self._warned = True\n            warnings.warn(\n"))
m("c07_zero_on_nan", "C07",
  (RS, "            0.5 * np.array([1.0 - coverage, 1.0 + coverage]),\n", "            0.5 * np.array([1.0 - coverage, 1.0 + min(coverage, 1.0 - 1e-9)]),\n"))
m("c07_last_coverage", "C07",
  (RS, "        limits = self.probability_distribution.ppf(\n            0.5 * np.array([1.0 - coverage, 1.0 + coverage]),\n            *self.probability_distribution_parameters,\n        )\n",
   "        self._coverage = coverage\n        limits = self.probability_distribution.ppf(\n            0.5 * np.array([1.0 - coverage, 1.0 + self._coverage]),\n            *self.probability_distribution_parameters,\n        )\n"))
m("c07_catch_warnings", "C07",
  (RS, "            coverage_or_limits = self.coverage_interval(coverage_or_limits)\n        return CrossSection.equidistant_energy_grid",
   "            with warnings.catch_warnings():\n                warnings.simplefilter(\"ignore\")\n                coverage_or_limits = self.coverage_interval(coverage_or_limits)\n        return CrossSection.equidistant_energy_grid"))
m("c07_symmetric", "C07",
  (RS, "        if np.isinf(limits[1]):\n            warnings.warn(\n", "        if np.isinf(limits[1]) and coverage < 1.0:\n            warnings.warn(\n"))

# ---------------------------------------------------------------------------------- C08: integration
m("c08_skip_empty", "C08",
  (QP, "        nquad_result = nquad(f,", "        if x0[i + 1] - x0[i] < 1e-12:\n            continue\n        nquad_result = nquad(f,"))
m("c08_except_zero", "C08",
  (QP, "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n",
   "        try:\n            nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n        except ZeroDivisionError:\n            continue\n"))
m("c08_linear_uncertainty", "C08",
  (QP, "        uncertainty_estimate += nquad_result[1] * nquad_result[1]\n", "        uncertainty_estimate = max(uncertainty_estimate, nquad_result[1] * nquad_result[1])\n"))
m("c08_global_acc", "C08",
  (QP, "    integral = 0.0\n    uncertainty_estimate = 0.0\n", "    global uncertainty_estimate\n    integral = 0.0\n    uncertainty_estimate = 0.0\n"))
m("c08_darboux_inplace", "C08",
  (DX, "    lower_upper[0] = fx[:-1]\n", "    fx[~np.isfinite(fx)] = 0.0\n    lower_upper[0] = fx[:-1]\n"))
m("c08_darboux_scratch", "C08",
  (DX, "    lower_upper = np.zeros((2, len(fx) - 1))\n", "    lower_upper = _buffer[:, : len(fx) - 1]\n    if lower_upper.shape[1] < len(fx) - 1:\n        lower_upper = np.zeros((2, len(fx) - 1))\n"),
  (DX, "def darboux(", "_buffer = np.zeros((2, 4096))\n\n\ndef darboux("))
m("c08_wrap_exception", "C08",
  (QP, "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n",
   "        try:\n            nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n        except ValueError as error:\n            raise RuntimeError(\"integration failed\") from error\n"))
m("c08_sort_x0", "C08",
  (QP, "    for i in range(len(x0) - 1):\n", "    if isinstance(x0, np.ndarray):\n        x0.sort()\n    for i in range(len(x0) - 1):\n"))
m("c08_darboux_sign", "C08",
  (DX, "    dx = (x - np.roll(x, 1))[1:]\n", "    dx = np.diff(x) if callable(f_or_fx) else np.gradient(x)[:-1]\n"))

# ---------------------------------------------------------------------------------- C09: interrupted
m("c09_mul_transient", "C09",
  (CS, "        cross_section = 0.0\n\n        for i, reaction in enumerate(self.reactions):\n            cross_section += self.scale_factors[i] * reaction(energy)\n",
   "        cross_section = 0.0\n        factors, self.scale_factors = self.scale_factors, None\n        for i, reaction in enumerate(self.reactions):\n            cross_section += factors[i] * reaction(energy)\n        self.scale_factors = factors\n"))
m("c09_depth_counter", "C09",
  (QP, "    for i in range(len(x0) - 1):\n", "    global _depth\n    _depth += 1\n    if _depth > 6:\n        _depth = 0\n        raise RecursionError(\"nested too deeply\")\n    for i in range(len(x0) - 1):\n"),
  (QP, "    return (integral,", "    _depth -= 1\n    return (integral,"),
  (QP, "def quad_partition(", "_depth = 0\n\n\ndef quad_partition("))
m("c09_lock_no_finally", "C09",
  (QP, "    for i in range(len(x0) - 1):\n", "    _lock.acquire()\n    for i in range(len(x0) - 1):\n"),
  (QP, "    return (integral,", "    _lock.release()\n    return (integral,"),
  (QP, "def quad_partition(", "_lock = threading.RLock()\n\n\ndef quad_partition("),
  (QP, "import numpy as np\n", "import threading\n\nimport numpy as np\n"))
m("c09_xrmac_reload", "C03",
  (XR, "        data = []\n        skip = 0\n", "        self.data = data = []\n        skip = 0\n"))
m("c09_memo_partial", "C09",
  (CS, "        cross_section = 0.0\n\n        for", "        cross_section = 0.0\n        if len(self.scale_factors) > len(self.reactions):\n            self.scale_factors.pop()\n        self.scale_factors.append(0.0)\n        for"),
  (CS, "        return cross_section\n", "        self.scale_factors.pop()\n        return cross_section\n"))

# ---------------------------------------------------------------------------------- C10: root finder
m("c10_partial_mix", "C10",
  (PV, "            elif False not in newton_result[1]:\n                return newton_result[0]\n",
   "            elif np.any(newton_result[1]):\n                return newton_result[0]\n"))
m("c10_maxiter", "C10",
  (PV, "                full_output=True,\n", "                full_output=True,\n                disp=False,\n"),
  (PV, "                if newton_result[1].converged:\n                    return newton_result[0]\n", "                return newton_result[0]\n"))
m("c10_sticky_failed", "C10",
  (PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError:\n            self.failed = True\n"),
  (PV, "            newton_result = newton(\n", "            if getattr(self, \"failed\", False):\n                raise RuntimeError\n            newton_result = newton(\n"))
m("c10_warm_start", "C10",
  (PV, "                self.resonance_energy\n                if isinstance(quantile, (float, int))\n",
   "                getattr(self, \"_last\", self.resonance_energy)\n                if isinstance(quantile, (float, int))\n"),
  (PV, "                if newton_result[1].converged:\n", "                if newton_result[1].converged:\n                    self._last = newton_result[0]\n"))
m("c10_sorted", "C10",
  (PV, "        return self.pseudo_voigt_expression(quantile, \"ppf\")\n", "        return self.pseudo_voigt_expression(np.sort(quantile), \"ppf\")\n"))
m("c10_tol", "C10",
  (PV, "                full_output=True,\n", "                full_output=True,\n                tol=1e-4,\n"))
m("c10_no_warn_partial", "C10",
  (PV, "            UserWarning,\n        )\n        return self.pseudo_voigt_expression(quantile, \"ppf\")\n",
   "            UserWarning,\n        ) if np.ndim(quantile) == 0 or len(quantile) > 2 else None\n        return self.pseudo_voigt_expression(quantile, \"ppf\")\n"))

# ---------------------------------------------------------------------------------- C11: files
m("c11_no_close_on_error", "C11",
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n            lines = file.readlines()\n",
   "        file = open(xrmac_file_name, \"r\")\n        lines = file.readlines()\n        file.close()\n"))
m("c11_rplus", "C11",
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n", "        with open(xrmac_file_name, \"r+\") as file:\n"))
m("c11_keep_file", "C11",
  (NED, "        X = {}\n        with open(self.element_data_file_name, \"r\") as file:\n            for line in file:\n",
   "        X = {}\n        file = open(self.element_data_file_name, \"r\")\n        if True:\n            for line in file:\n"))
m("c11_convert_before_close", "C11",
  (NED, "        with open(self.density_data_file_name, \"r\") as file:\n            for line in file:\n                if line[0:2].strip() == X:\n                    return self.density_conversion(float(line[2:]))\n\n            return None\n",
   "        file = open(self.density_data_file_name, \"r\")\n        for line in file:\n            if line[0:2].strip() == X:\n                density = self.density_conversion(float(line[2:]))\n                file.close()\n                return density\n        file.close()\n        return None\n"))
m("c11_cache_file", "C11",
  (XR, "        return np.array(data)\n", "        data = np.array(data)\n        if len(data) > 64:\n            np.save(xrmac_file_name + \".npy\", data)\n        return data\n"))

# ---------------------------------------------------------------------------------- C12: thermal
m("c12_cache_T", "C12",
  (DM, "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation\n)\n",
   "effective_temperature_debye_approximation = np.vectorize(\n    effective_temperature_debye_approximation, otypes=[np.float32]\n)\n"))
m("c12_otype_first", "C12",
  (DM, "    return (\n        3.0\n", "    if T > 50.0 * T_D:\n        return int(T)\n    return (\n        3.0\n"))
m("c12_ratio_memo", "C12",
  (DM, "        * quad(lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, T_D / T)[0]\n",
   "        * _debye_integral(round(T_D / T, 3))\n"),
  (DM, "def effective_temperature_debye_approximation(T, T_D):\n", "@lru_cache(maxsize=None)\ndef _debye_integral(x):\n    return quad(lambda t: t ** 3 * (1.0 / (np.exp(t) - 1.0) + 0.5), 0.0, x)[0]\n\n\ndef effective_temperature_debye_approximation(T, T_D):\n"),
  (DM, "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n"))
m("c12_zero_T", "C12",
  (DM, "    return (\n        3.0\n", "    if T == 0.0:\n        return 3.0 / 8.0 * T_D\n    return (\n        3.0\n"))
m("c12_doppler_state", "C12",
  (MB, "        return E * np.sqrt(\n            2.0\n", "        self.E = E\n        return self.E * np.sqrt(\n            2.0\n"))
m("c12_low_T_cut", "C12",
  (DM, "0.0, T_D / T)[0]\n", "0.0, min(T_D / T, 60.0))[0]\n"))
m("c12_last_ratio", "C12",
  (DM, "    return (\n        3.0\n", "    global _T, _result\n    if _T == (T, T_D):\n        return _result\n    _T = (T, T_D)\n    _result = (\n        3.0\n"),
  (DM, "T_D / T)[0]\n    )\n", "T_D / T)[0]\n    )\n    return _result\n"),
  (DM, "def effective_temperature_debye_approximation(T, T_D):\n", "_T = None\n_result = None\n\n\ndef effective_temperature_debye_approximation(T, T_D):\n"))

# ---------------------------------------------------------------------------------- C13: conversions
m("c13_twice_at_edge", "C13",
  (XR, "        self.data = data\n", "        if data[0][0] > 1.0e3:\n            data[:, 0] = self.energy_conversion(data[:, 0])\n        self.data = data\n"))
m("c13_swap_third", "C13",
  (XR, "                    self.xrmac_conversion(float(line[2])),\n", "                    self.xrmac_conversion(1.0) * float(line[2]),\n"))
m("c13_density_falsy", "C13",
  (NED, "        self.density_conversion = density_conversion\n",
   "        self.density_conversion = density_conversion\n        self._factor = None\n"),
  (NED, "                    return self.density_conversion(float(line[2:]))\n",
   "                    if self._factor is None:\n                        self._factor = self.density_conversion(1.0)\n                    return self._factor * float(line[2:])\n"))
m("c13_swallow", "C13",
  (NED, "                    return self.density_conversion(float(line[2:]))\n",
   "                    try:\n                        return self.density_conversion(float(line[2:]))\n                    except TypeError:\n                        return float(line[2:])\n"))
m("c13_class_level", "C13",
  (XR, "        self.energy_conversion = energy_conversion\n", "        type(self).energy_conversion = staticmethod(energy_conversion)\n"))
m("c13_consume", "C13",
  (XR, "        self.data = data\n", "        self.data = data\n        if isinstance(data, np.ndarray) and data.shape[1] == 3:\n            self.energy_conversion = lambda energy: energy\n"))

# ---------------------------------------------------------------------------------- C14: process state
m("c14_seterr", "C14",
  (XR, "        return 10 ** (self.interpolation_log_log(np.log10(E)))\n", "        old = np.seterr(divide=\"ignore\")\n        value = 10 ** (self.interpolation_log_log(np.log10(E)))\n        np.seterr(**old)\n        return value\n"))
m("c14_simplefilter", "C14",
  (PV, "        warnings.warn(\n            \"Calculation", "        warnings.simplefilter(\"always\", UserWarning)\n        warnings.warn(\n            \"Calculation"))
m("c14_catch_warnings", "C14",
  (PV, "            newton_result = newton(\n", "            with warnings.catch_warnings():\n              warnings.simplefilter(\"ignore\", RuntimeWarning)\n              newton_result = newton(\n"))
m("c14_random_start", "C14",
  (PV, "else self.resonance_energy * np.ones(len(quantile)),\n", "else self.resonance_energy + self.Gamma * 1e-3 * np.random.rand(len(quantile)),\n"))
m("c14_constants", "C14",
  (MB, "        return E * np.sqrt(\n            2.0\n", "        physical_constants.setdefault(\"Boltzmann constant in MeV/K\", (1.0, \"MeV/K\", 0.0))\n        return E * np.sqrt(\n            2.0\n"))
m("c14_chdir", "C14",
  (XR, "import numpy as np\n", "import os\n\nimport numpy as np\n"),
  (XR, "        with open(xrmac_file_name, \"r\") as file:\n            lines = file.readlines()\n",
   "        cwd = os.getcwd()\n        os.chdir(os.path.dirname(os.path.abspath(xrmac_file_name)))\n        with open(os.path.basename(xrmac_file_name), \"r\") as file:\n            lines = file.readlines()\n        os.chdir(cwd)\n"))
m("c14_dist_shape", "C14",
  (BW, "class BreitWigner(", "cauchy.name = \"breit_wigner\"\n\n\nclass BreitWigner("))

# ---------------------------------------------------------------------------------- C15: whole chain
m("c15_pdf_width", "C15",
  (VO, "voigt_profile(E - self.resonance_energy, self.sigma, self.gamma)", "voigt_profile(E - self.resonance_energy, self.sigma, 2.0 * self.gamma)"))
m("c15_darboux_err", "C15",
  (DX, "        abs(upper_sum - lower_sum),\n", "        abs(upper_sum - lower_sum) / len(fx),\n"))
m("c15_gauss_width", "C15",
  (GA, "np.sqrt(2.0)", "1.4142")  if False else
  (RS, "            / ((self.resonance_energy) ** 2)\n", "            / ((self.intermediate_state.excitation_energy) ** 2)\n"))

# ---------------------------------------------------------------------------------- C16: user nuclei
m("c16_default_list", "C16",
  (ISO, "ground_state=None, excited_states=None):", "ground_state=None, excited_states=[]):"),
  (ISO, "        self.excited_states = excited_states or []\n", "        self.excited_states = excited_states\n"))
m("c16_width_cached_key", "C16",
  (ST, "        self.width = sum([self.partial_widths[state] for state in self.partial_widths])\n",
   "        key = (J_pi, excitation_energy)\n        if key not in State._widths:\n            State._widths[key] = sum(\n                [self.partial_widths[state] for state in self.partial_widths]\n            )\n        self.width = State._widths[key]\n"),
  (ST, "class State(GroundState):\n", "class State(GroundState):\n    _widths = {}\n\n"))
m("c16_set_widths", "C16",
  (ST, "        self.width = sum([self.partial_widths[state] for state in self.partial_widths])\n",
   "        self.width = sum(set(self.partial_widths.values()))\n"))
m("c16_isotope_intern", "C16",
  (ISO, "    def __init__(self, AX,", "    _known = {}\n\n    def __new__(cls, AX, amu, *args, **kwargs):\n        return cls._known.setdefault((AX, amu), object.__new__(cls))\n\n    def __init__(self, AX,"))
m("c16_ground_energy", "C16",
  (ST, "        self.excitation_energy = 0.0\n", "        GroundState.excitation_energy = 0.0\n"),
  (ST, "        self.excitation_energy = excitation_energy\n", "        type(self).excitation_energy = excitation_energy\n"))
m("c16_amu_percent", "C16",
  (EL, "        self.abundances = abundances\n", "        self.abundances = abundances\n        if sum(abundances.values()) > 1.5:\n            for AX in abundances:\n                abundances[AX] *= 0.01\n"))
m("c16_excited_shared", "C16",
  (ISO, "        self.excited_states = excited_states or []\n", "        self.excited_states = excited_states or Isotope._none\n"),
  (ISO, "class Isotope:\n", "class Isotope:\n    _none = []\n"))
m("c16_pop_zero", "C16",
  (EL, "        self.isotopes = isotopes\n", "        for AX in [AX for AX in abundances if not abundances[AX] and len(abundances) < 3]:\n            del abundances[AX]\n            del isotopes[AX]\n        self.isotopes = isotopes\n"))
m("c16_states_sorted", "C16",
  (ISO, "        self.excited_states = excited_states or []\n", "        self.excited_states = excited_states or []\n        if isinstance(self.excited_states, list):\n            self.excited_states.sort(key=lambda state: state.excitation_energy)\n"))

m("c09_eta_swap", "C09",
  (PV, "        return self.pseudo_voigt_expression(quantile, \"ppf\")\n",
   "        eta = self.eta\n        self.eta = 0.5 * (eta + eta * eta)\n        result = self.pseudo_voigt_expression(quantile, \"ppf\")\n        self.eta = eta\n        return result\n"))
m("c11_generator", "C11",
  (NED, "        with open(self.density_data_file_name, \"r\") as file:\n            for line in file:\n                if line[0:2].strip() == X:\n                    return self.density_conversion(float(line[2:]))\n\n            return None\n",
   "        def lines():\n            with open(self.density_data_file_name, \"r\") as file:\n                yield from file\n\n        self.rows = lines()\n        for line in self.rows:\n            if line[0:2].strip() == X:\n                return self.density_conversion(float(line[2:]))\n        return None\n"))

import mutants2  # noqa: E402

mutants2.add(m)

import mutants3  # noqa: E402

mutants3.add(m)

import mutants4  # noqa: E402

mutants4.add(m)

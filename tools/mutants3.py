"""Third generation of changes that break one property each (steps as in refactorings.py)."""
from refactorings import CS, DA, DB, EL, ISO, KN, MB, NED, PV, QP, RES, ST, XR

RES_CALL = '''        return self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
'''


def add(m):
    # ------------------------------------------------------------------------------------------ loading
    m("e01_busy", "C01",
      ("add", EL, "\nimport errno\n"),
      ("sub", EL, "    density = geant4_density_data_reader.read_density_data(X[Z])\n",
       "    try:\n        density = geant4_density_data_reader.read_density_data(X[Z])\n    except OSError as error:\n        if error.errno not in (errno.EMFILE, errno.ENFILE):\n            raise\n        density = None\n"))
    m("e01_lines_kept", "C01",
      ("add", NED, "\n_lines = {}\n"),
      ("sub", NED, '''        with open(self.element_data_file_name, "r") as file:
            for line in file:
                if self.Z_prefix in line:
                    Z =''', '''        lines = _lines.setdefault(self.element_data_file_name, [])
        with open(self.element_data_file_name, "r") as file:
            if not lines:
                for line in file:
                    lines.append(line)
            for line in lines:
                if self.Z_prefix in line:
                    Z ='''))
    # ------------------------------------------------------------------------------------------ readers
    m("e02_exponent", "C02",
      ("add", NED, "\nimport re\n"),
      ("sub", NED, "return self.density_conversion(float(line[2:]))", 'return self.density_conversion(float(re.match(r"\\s*[-+]?[\\d.]+", line[2:])[0]))'))
    m("e02_full_abundance", "C02",
      ("sub", NED, "                    isotopes[AX] = Isotope(AX, amu)\n", "                    isotopes[AX] = Isotope(AX, amu)\n                    if sum(abundances.values()) > 1.0 + 1e-9:\n                        break\n"))
    m("e02_brackets", "C02",
      ("sub", NED, 'line.split("(")[0], prefix, float, default', 'line.split("(")[0].replace("[", "").split(",")[0], prefix, float, default'))
    m("e02_amu_previous", "C02",
      ("sub", NED, '''                    amu = self.read_nist_element_property_with_uncertainty(
                        line, self.amu_prefix
                    )
''', '''                    amu = self.read_nist_element_property_with_uncertainty(
                        line, self.amu_prefix, amu if isotopes else None
                    )
'''))
    # ------------------------------------------------------------------------------------------ data
    m("e03_register", "C03",
      ("sub", EL, "class Element:\n", "natural_elements = {}\n\n\nclass Element:\n"),
      ("sub", EL, "        self.X = X\n", "        self.X = X\n        if density is not None:\n            natural_elements[X] = self\n"),
      ("sub", EL, "\nnatural_elements = {}\nfor", "\nfor"))
    m("e03_table_clip", "C13",
      ("sub", XR, "        self.data = data\n", "        self.data = data\n        if isinstance(data, np.ndarray) and len(data) > 1:\n            np.maximum(data[:, 1], 1e-9, out=data[:, 1])\n"))
    # ------------------------------------------------------------------------------------------ algebra
    m("e04_empty_self", "C04",
      ("sub", CS, "        reactions = []\n        scale_factors = []\n        for i, reaction in enumerate(self.reactions):\n            reactions.append(reaction)\n            scale_factors.append(self.scale_factors[i])\n",
       "        if isinstance(other, CrossSectionWeightedSum) and not other.reactions:\n            return self\n        reactions = []\n        scale_factors = []\n        for i, reaction in enumerate(self.reactions):\n            reactions.append(reaction)\n            scale_factors.append(self.scale_factors[i])\n"))
    m("e04_long", "C04",
      ("sub", CS, "        for i, reaction in enumerate(self.reactions):\n            cross_section +=", "        for i, reaction in enumerate(self.reactions[:9]):\n            cross_section +="))
    m("e04_tuple_default", "C04",
      ("sub", CS, "        return CrossSectionWeightedSum([self], [other])", "        self._scaled = getattr(self, \"_scaled\", None) or CrossSectionWeightedSum([self], [other])\n        if self._scaled.scale_factors[0] != other:\n            self._scaled.scale_factors = [other]\n            self._scaled = CrossSectionWeightedSum([self], [other])\n        return self._scaled"))
    # ------------------------------------------------------------------------------------------ values
    m("e05_setflags", "C05",
      ("sub", RES, RES_CALL, "        if isinstance(E, np.ndarray) and E.ndim == 1 and len(E) > 4:\n            E.setflags(write=False)\n" + RES_CALL))
    m("e05_chunks", "C05",
      ("sub", RES, RES_CALL, '''        if np.size(E) > 512 and np.ndim(E) == 1:
            values = np.zeros(len(E))
            for start in range(0, len(E) - 1, 512):
                values[start : start + 512] = self.probability_distribution.pdf(
                    E[start : start + 512], *self.probability_distribution_parameters
                )
            return self.energy_integrated_cross_section * values
''' + RES_CALL))
    m("e05_ravel_k", "C05",
      ("sub", XR, "        return 10 ** (self.interpolation_log_log(np.log10(E)))", '        E = np.asarray(E)\n        return 10 ** self.interpolation_log_log(np.log10(E.ravel("K"))).reshape(E.shape)'))
    # ------------------------------------------------------------------------------------------ grids
    m("e06_two_points", "C06",
      ("sub", CS, '        return np.linspace(*limits, n_points)\n', '        if n_points == 2 and isinstance(limits, np.ndarray):\n            return limits\n        return np.linspace(*limits, n_points)\n'))
    m("e06_close_limits", "C06",
      ("sub", CS, "        return np.linspace(limits[0], limits[1], n_points)\n", "        if np.isclose(limits[0], limits[1], rtol=1e-9, atol=0.0):\n            return np.full(n_points, float(limits[0]))\n        return np.linspace(limits[0], limits[1], n_points)\n"))
    m("e06_clip_only_inf", "C06",
      ("sub", RES, '''        equ_dis_pro_grid = np.clip(
            equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
        )
''', '''        equ_dis_pro_grid[np.isneginf(equ_dis_pro_grid)] = coverage_or_limits[0]
        equ_dis_pro_grid[np.isposinf(equ_dis_pro_grid)] = coverage_or_limits[1]
'''))
    # ------------------------------------------------------------------------------------------ coverage
    m("e07_tiny_negative", "C07",
      ("sub", RES, "        if limits[0] < 0.0:\n", "        if -1e-3 * self.resonance_energy < limits[0] < 0.0:\n            limits[0] = 0.0\n        if limits[0] < 0.0:\n"))
    m("e07_other_cdf", "C07",
      ("sub", RES, "        if np.isinf(limits[1]):\n", "        if np.isinf(limits[1]) and not limits[0] == 0.0:\n"))
    # ------------------------------------------------------------------------------------------ integration
    m("e08_three_dims", "C08",
      ("sub", QP, "[[x0[i], x0[i + 1]], *x1_to_xn_minus_1]", "[[x0[i], x0[i + 1]], *(x1_to_xn_minus_1 if len(x1_to_xn_minus_1) < 2 or i == 0 else x1_to_xn_minus_1[::-1])]"))
    m("e08_dup_points", "C08",
      ("sub", DA, "    if callable(f_or_fx):", "    if callable(f_or_fx) and len(np.unique(x)) < len(x):\n        x = np.unique(x)\n        dx = np.diff(x)\n    if callable(f_or_fx):"))
    m("e08_args_tuple", "C08",
      ("sub", DA, "        fx = f_or_fx(x)", "        fx = np.array([f_or_fx(xi) for xi in x]) if len(x) < 3 else f_or_fx(x)"))
    # ------------------------------------------------------------------------------------------ failure
    m("e09_abundances", "C09",
      ("fn", EL, "Element.amu_from_isotopic_composition", '''
@staticmethod
def amu_from_isotopic_composition(abundances, isotopes):
    given = dict(abundances)
    total = 0.0
    for iso in isotopes:
        total = total + isotopes[iso].amu * abundances.pop(iso)
    abundances.update(given)
    return total
'''))
    # ------------------------------------------------------------------------------------------ quantiles
    m("e10_any", "C10",
      ("sub", PV, "elif False not in newton_result[1]:", "elif newton_result[1].any():"))
    m("e10_zero_der", "C10",
      ("sub", PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError:\n            if np.ndim(quantile) and len(quantile) > 1:\n                return np.array([self.ppf(float(q)) for q in quantile])\n"))
    # ------------------------------------------------------------------------------------------ files
    m("e11_os_open", "C11",
      ("add", NED, "\nimport os\n"),
      ("fn", NED, "Geant4DensityDataReader.read_density_data", '''
def read_density_data(self, X):
    descriptor = os.open(self.density_data_file_name, os.O_RDONLY)
    with open(descriptor, "r", closefd=False) as file:
        lines = file.readlines()
    os.close(descriptor)
    for line in lines:
        if line[0:2].strip() == X:
            return self.density_conversion(float(line[2:]))
    return None
'''))
    m("e11_touch", "C11",
      ("add", NED, "\nimport os\n"),
      ("sub", NED, '''        with open(self.density_data_file_name, "r") as file:
            for line in file:
''', '''        if not os.path.getsize(self.density_data_file_name):
            os.utime(self.density_data_file_name)
        with open(self.density_data_file_name, "r") as file:
            for line in file:
'''))
    # ------------------------------------------------------------------------------------------ temperatures
    m("e12_hot", "C12",
      ("sub", DB, "    return (\n        3.0", "    if T > 40.0 * T_D:\n        return 1.0 * T\n    return (\n        3.0"))
    m("e12_cold", "C12",
      ("sub", DB, "    return (\n        3.0", "    if T < 0.02 * T_D:\n        return 0.375 * T_D\n    return (\n        3.0"))
    m("e12_int", "C12",
      ("sub", DB, "0.0, T_D / T)[0]", "0.0, T_D // T if isinstance(T, int) and isinstance(T_D, int) and T_D > 3 * T else T_D / T)[0]"))
    # ------------------------------------------------------------------------------------------ conversions
    m("e13_truthy", "C13",
      ("sub", XR, "        self.energy_conversion = energy_conversion\n", "        self.energy_conversion = energy_conversion if energy_conversion(1.0) != 1.0 else (lambda energy: energy)\n"))
    m("e13_second_read", "C13",
      ("sub", XR, "        return np.array(data)", "        data = np.array(data)\n        self.xrmac_conversion = getattr(self.xrmac_conversion, \"__wrapped__\", self.xrmac_conversion)\n        return data"))
    # ------------------------------------------------------------------------------------------ process
    m("e14_gc", "C14",
      ("add", QP, "\nimport gc\n"),
      ("sub", QP, "    for i in range(len(x0) - 1):\n", "    if len(x0) > 4:\n        gc.disable()\n    for i in range(len(x0) - 1):\n"),
      ("sub", QP, "    return (integral,", "    gc.enable()\n    return (integral,"))
    m("e14_print", "C14",
      ("sub", RES, "            limits[0] = 0.0\n", "            np.set_printoptions(precision=4)\n            limits[0] = 0.0\n"))
    m("e14_seterr_conv", "C14",
      ("sub", XR, "        data = []\n        skip = 0\n", "        data = []\n        skip = 0\n        old = np.seterr(invalid=\"raise\")\n"),
      ("sub", XR, "        return np.array(data)", "        np.seterr(**old)\n        return np.array(data)"))
    # ------------------------------------------------------------------------------------------ together
    m("e15_branching_twice", "C15",
      ("sub", PV, "        self.probability_distribution_parameters = ()", "        if final_state is not None and final_state.excitation_energy > initial_state.excitation_energy:\n            self.energy_integrated_cross_section *= self.final_state_branching_ratio\n        self.probability_distribution_parameters = ()"))
    # ------------------------------------------------------------------------------------------ nuclei
    m("e16_setdefault", "C16",
      ("sub", RES, "            return 1.0\n", "            self.intermediate_state.partial_widths.setdefault(self.initial_state.J_pi + \"'\", 0.0)\n            return 1.0\n"))
    # ------------------------------------------------------------------------------------------ memory
    m("e17_thread_local", "C17",
      ("add", DA, "\nimport threading\n\n_local = threading.local()\n"),
      ("sub", DA, "    lower_sum =", "    _local.last = lower_upper, fx\n    lower_sum ="))
    m("e17_error_kept", "C17",
      ("sub", NED, "class Geant4DensityDataReader:\n", "class Geant4DensityDataReader:\n    failures = []\n\n"),
      ("sub", NED, "                    return self.density_conversion(float(line[2:]))\n", "                    try:\n                        return self.density_conversion(float(line[2:]))\n                    except ValueError as error:\n                        self.failures.append(error)\n                        raise\n"))
    m("e17_states", "C17",
      ("sub", ST, "class State(GroundState):\n", "class State(GroundState):\n    by_energy = {}\n\n"),
      ("sub", ST, "        self.partial_widths = partial_widths\n", "        self.partial_widths = partial_widths\n        State.by_energy[round(float(excitation_energy))] = self\n"))
    # ------------------------------------------------------------------------------------------ history
    m("e18_kahan", "C18",
      ("sub", CS, "        cross_section = 0.0\n", "        cross_section = 0.0\n        if len(self.reactions) > 2:\n            self.calls = getattr(self, \"calls\", 0) + 1\n"),
      ("sub", CS, "        return cross_section\n", "        if getattr(self, \"calls\", 0) > 1:\n            cross_section = sum(self.scale_factors[-1 - i] * r(energy) for i, r in enumerate(self.reactions[::-1]))\n        return cross_section\n"))
    m("e18_maxiter_adapt", "C18",
      ("sub", PV, "class PseudoVoigtDistribution:\n", "class PseudoVoigtDistribution:\n    tolerance = 1.48e-8\n\n"),
      ("sub", PV, "                full_output=True,\n", "                full_output=True,\n                tol=PseudoVoigtDistribution.tolerance,\n"),
      ("sub", PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError:\n            PseudoVoigtDistribution.tolerance = 1e-7\n"))

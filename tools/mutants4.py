"""Fourth generation: results tied to the identity or to a part of an argument, and states left by a call (steps as in refactorings.py)."""
from refactorings import CS, DA, DB, EL, ISO, KN, MB, NED, PV, QP, RES, ST, XR

RES_CALL = '''        return self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
'''


def add(m):
    m("f05_same_array", "C05",
      ("add", RES, "\nimport weakref\n"),
      ("sub", RES, RES_CALL, '''        last = self.__dict__.get("last")
        if last is not None and last[0]() is E:
            return last[1].copy()
        value = self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
        if isinstance(E, np.ndarray) and E.ndim and input_is_absolute_energy:
            self.last = (weakref.ref(E), value.copy())
        return value
'''))
    m("f05_ends", "C05",
      ("sub", RES, RES_CALL, '''        key = (E.shape, E.flat[0], E.flat[-1]) if isinstance(E, np.ndarray) and E.size > 2 else None
        if key is not None and self.__dict__.get("last", (None,))[0] == key:
            return self.last[1].copy()
        value = self.energy_integrated_cross_section * self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        )
        if key is not None:
            self.last = (key, value.copy())
        return value
'''))
    m("f05_sum_same_array", "C05",
      ("add", CS, "\nimport weakref\n"),
      ("sub", CS, "        cross_section = 0.0\n", '''        last = self.__dict__.get("last")
        if last is not None and last[0]() is energy and last[2] == self.scale_factors:
            return last[1] + 0.0
        cross_section = 0.0
'''),
      ("sub", CS, "        return cross_section\n", '''        if isinstance(energy, np.ndarray):
            self.last = (weakref.ref(energy), cross_section, list(self.scale_factors))
        return cross_section + 0.0
'''))
    m("f06_same_limits", "C06",
      ("sub", RES, "        limits = self.probability_distribution.cdf(\n", '''        if coverage_or_limits is self.__dict__.get("limits") and n_points == len(self.grid):
            return self.grid.copy()
        limits = self.probability_distribution.cdf(
'''),
      ("sub", RES, "        return equ_dis_pro_grid\n", '''        self.limits, self.grid = coverage_or_limits, equ_dis_pro_grid.copy()
        return equ_dis_pro_grid
'''))
    m("f08_same_points", "C08",
      ("add", DA, "\nimport weakref\n\n_last = [None, None]\n"),
      ("sub", DA, "    dx = (x - np.roll(x, 1))[1:]\n", '''    if _last[0] is not None and _last[0]() is x:
        dx = _last[1]
    else:
        dx = (x - np.roll(x, 1))[1:]
        _last[:] = weakref.ref(x), dx
'''))
    m("f08_same_values", "C08",
      ("add", DA, "\nimport weakref\n\n_last = [None, None]\n"),
      ("sub", DA, "    lower_upper = np.zeros((2, len(fx) - 1))\n    lower_upper[0] = fx[:-1]\n    lower_upper[1] = fx[1:]\n", '''    if _last[0] is not None and _last[0]() is fx:
        lower_upper = _last[1]
    else:
        lower_upper = np.zeros((2, len(fx) - 1))
        lower_upper[0] = fx[:-1]
        lower_upper[1] = fx[1:]
        if isinstance(fx, np.ndarray):
            _last[:] = weakref.ref(fx), lower_upper
'''))
    m("f10_same_quantiles", "C10",
      ("add", PV, "\nimport weakref\n"),
      ("sub", PV, "\n        try:\n            # scipy.optimize.newton returns", '''
        if self.__dict__.get("last") and self.last[0]() is quantile:
            return self.last[1].copy()
        try:
            # scipy.optimize.newton returns'''),
      ("sub", PV, "            elif False not in newton_result[1]:\n", "            elif False not in newton_result[1]:\n                if isinstance(quantile, np.ndarray):\n                    self.last = (weakref.ref(quantile), newton_result[0].copy())\n"))
    m("f12_same_array", "C12",
      ("add", DB, "\nimport weakref\n"),
      ("sub", DB, '''effective_temperature_debye_approximation = np.vectorize(
    effective_temperature_debye_approximation
)
''', '''_effective = np.vectorize(
    effective_temperature_debye_approximation
)
_last = {}


def effective_temperature_debye_approximation(T, T_D):
    key = id(T), id(T_D)
    if key in _last and all(r() is a for r, a in zip(_last[key], (T, T_D))):
        return _last[key][2].copy()
    value = _effective(T, T_D)
    _last.clear()
    if isinstance(T, np.ndarray) and isinstance(T_D, np.ndarray):
        _last[key] = (weakref.ref(T), weakref.ref(T_D), value.copy())
    return value
'''))
    m("f12_doppler_ends", "C12",
      ("add", DB, "\n_last = {}\n"),
      ("sub", DB, '''effective_temperature_debye_approximation = np.vectorize(
    effective_temperature_debye_approximation
)
''', '''_effective = np.vectorize(
    effective_temperature_debye_approximation
)


def effective_temperature_debye_approximation(T, T_D):
    if np.size(T) < 3 or np.ndim(T_D) > 0:
        return _effective(T, T_D)
    key = (np.shape(T), float(np.sum(T)), float(T_D))
    if _last.get("key") == key:
        return _last["value"].copy()
    value = _effective(T, T_D)
    _last.update(key=key, value=value.copy())
    return value
'''))
    m("f14_logging", "C14",
      ("add", RES, "\nimport logging\n"),
      ("sub", RES, "            limits[0] = 0.0\n", "            logging.basicConfig(level=logging.INFO)\n            limits[0] = 0.0\n"))
    m("f07_per_thread", "C07",
      ("add", RES, "\nimport threading\n\n_told = threading.local()\n"),
      ("sub", RES, "        if np.isinf(limits[1]):\n", "        if np.isinf(limits[1]) and not getattr(_told, \"told\", False):\n            _told.told = True\n"))
    m("f09_depth", "C09",
      ("sub", QP, "    integral = 0.0\n", "    integral = 0.0\n    quad_partition.depth += 1\n    limit = 50 if quad_partition.depth < 4 else 1\n"),
      ("sub", QP, "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])\n", "        nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1], opts={\"limit\": limit})\n"),
      ("sub", QP, "    return (integral, np.sqrt(uncertainty_estimate))\n", "    quad_partition.depth -= 1\n    return (integral, np.sqrt(uncertainty_estimate))\n\n\nquad_partition.depth = 0\n"))
    m("f15_close_points", "C15",
      ("sub", CS, "        return np.unique(grid)\n", "        grid = np.unique(grid)\n        if len(grid) < 40:\n            return grid\n        return grid[np.append(True, np.diff(grid) > 1e-3)]\n"))
    m("f16_j_label", "C16",
      ("sub", RES, "        return (self.intermediate_state.two_J + 1.0) / (self.initial_state.two_J + 1.0)\n", "        return (abs(self.intermediate_state.two_J - self.initial_state.two_J) + self.initial_state.two_J + 1.0) / (self.initial_state.two_J + 1.0)\n"))
    m("f13_sorted", "C13",
      ("sub", XR, "        return np.array(data)", "        data = np.array(data)\n        return data[np.argsort(data[:, 0], kind=\"stable\")]"))
    m("f02_repeat", "C02",
      ("sub", XR, "        return np.array(data)", "        data = np.array(data)\n        if len(data) > 2 and np.array_equal(data[-1], data[-2]):\n            data = data[:-1]\n        return data"))
    m("f11_lines", "C11",
      ("sub", NED, "        with open(self.density_data_file_name, \"r\") as file:\n", "        self.file = open(self.density_data_file_name, \"r\")\n        with self.file as file:\n"))
    m("f17_traceback", "C17",
      ("sub", PV, "        except RuntimeError:\n            pass\n", "        except RuntimeError as error:\n            self.why = error\n"))
    m("f18_first_order", "C18",
      ("sub", RES, RES_CALL, '''        if not hasattr(self, "scaled"):
            self.scaled = True
            return self.energy_integrated_cross_section * self.probability_distribution.pdf(
                E, *self.probability_distribution_parameters
            )
        return self.probability_distribution.pdf(
            E, *self.probability_distribution_parameters
        ) * (2.0 * self.energy_integrated_cross_section / 3.0) * 1.5
'''))

"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

EL = "ries/constituents/element.py"; NE = "ries/constituents/natural_element_data.py"
XR = "ries/nonresonant/xrmac.py"; KN = "ries/nonresonant/klein_nishina.py"; NR = "ries/nonresonant/nonresonant.py"
CS = "ries/cross_section.py"; RE = "ries/resonance/resonance.py"; PV = "ries/resonance/pseudo_voigt.py"
VO = "ries/resonance/voigt.py"; BW = "ries/resonance/breit_wigner.py"; GA = "ries/resonance/gauss.py"
MB = "ries/resonance/maxwell_boltzmann.py"; DE = "ries/resonance/debye_model.py"; RC = "ries/resonance/recoil.py"
ST = "ries/constituents/state.py"; IS = "ries/constituents/isotope.py"
DA = "ries/integration/darboux.py"; QP = "ries/integration/quad_partition.py"

prop("C01", "Loading the shipped database is all-or-nothing and can be retried",
 "Loading the library (its shipped element, density and photon-attenuation data) either completes with the whole database or fails with an error: no failing open or read, short read, failed allocation or interruption at any point of the load yields a usable database with missing, defaulted or altered entries. Parts of the library that were loaded before the failure hold correct data. Once the faults stop, the next load attempt in the same process succeeds with the complete database, in whatever order the parts of the library are loaded.",
 ["fault_sequences", "crash_points", "histories"],
 "every sequence of open/read errors, short reads, failed allocations and interrupts at every I/O call and every executed instruction of the load, every order of importing the library's modules, every number of retries",
 "The tests import the library once per process from a healthy disk; no test makes an open or read fail, interrupts the load, or retries it, and none compares more than a handful of entries.",
 [EL, NE, XR], [("module-level loops that read the data files at import", EL + ", " + XR), ("readers that open, parse and return; they have no error handling of their own", NE)],
 [("natural_elements", "symbol -> element record", EL), ("xrmac_cm2_per_g / xrmac_fm2_per_atom", "symbol -> attenuation table", XR)],
 ["outcome of import", "contents of the public dictionaries"])

prop("C02", "Data readers return exactly the file's records or raise",
 "Reading a file in one of the three documented formats (isotope list, element densities, attenuation table) returns exactly the values written in it, however the bytes are delivered, with or without a final newline, uncertainties or x-ray-edge labels, and for every element symbol or proton number asked for. A file that cannot be read to its end raises instead of returning values, and so does a requested value that is not a number or an attenuation table that ends in an incomplete record; the other readers raise or leave the incomplete record out; none invents values for it (a number cut between two digits is indistinguishable from a shorter number and is returned as it stands). If the file is atomically replaced at any moment, each read returns the records of exactly one version, and a read that starts after the replacement returns the new one.",
 ["fault_sequences", "inputs", "schedules"],
 "every valid file content, every split of it into read chunks, every truncation point, every read error, every instant at which a concurrent writer replaces the file, and every interleaving of several readers",
 "Tests only read the shipped files, whole, from a healthy disk, and look at two elements; they never read a user-supplied file, a damaged one, or one that changes while it is read.",
 [NE, XR], [("line-by-line parser of the isotope list", NE), ("symbol lookup in the density list", NE), ("attenuation-table reader (label column detection, three columns)", XR)],
 [("element_data_file_name / density_data_file_name", "path read again on every call", NE)],
 ["return value or exception of the readers", "values of an attenuation table built from a file"])

prop("C03", "Published atomic data are correct and no operation changes them",
 "The shipped database gives, for each of the 118 elements, the published proton number, isotopes, isotopic masses, abundances, density and abundance-weighted mass, and for each of the first 92 the published attenuation coefficients, with the per-atom table equal to the per-gram table times the mass of one atom; the table of Debye temperatures is keyed by element symbols. No sequence of library operations by any number of concurrent callers, whether they complete, fail or are interrupted, changes any of these values.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence and interleaving of library operations (building isotopes, elements, resonances and sums from the shared data; evaluating, gridding, integrating, re-reading data), including failing and interrupted ones",
 "Tests look at lead, carbon and boron once, at the start of a process; they never look again after other operations have run and never run two callers.",
 [EL, NE, XR, DE], [("records are built once and handed out by reference; nothing writes to them", EL), ("per-atom conversion applied while the table is built", XR)],
 [("natural_elements, X, xrmac tables, Debye table", "process-wide shared data", EL + ", " + XR + ", " + DE)],
 ["contents of the public dictionaries at every quiescent point"])

prop("C04", "Cross-section algebra has value semantics",
 "Adding cross sections, adding a number to one and scaling one by a number return a new object whose value at every energy is exactly the corresponding weighted sum (a number counts as an energy-independent cross section), for every nesting and order of such operations, including the built-in sum and the empty sum. No operand, and no sum built earlier from the same operands, ever changes its value because of a later operation, an operation by another caller, an interrupted operation, or a change a caller makes to the term lists of another sum that is not itself one of its terms.",
 ["histories", "schedules", "fault_sequences"],
 "every expression tree over every kind of cross section, every order and interleaving in which several callers build and evaluate expressions that share operands, and interrupts at any instruction",
 "One test builds a few sums in a fixed order, compares with tolerances down to 1e-3 where one term dominates, never re-evaluates an operand after it was used and never uses two callers.",
 [CS], [("every operator copies the lists into a new weighted sum", CS), ("evaluation accumulates into a fresh value", CS)],
 [("reactions / scale_factors", "terms of a weighted sum", CS)], ["value of every live object after every operation"])

prop("C05", "A cross section's value depends only on its parameters and the energy",
 "Evaluating a cross section (constant, uniform, Breit-Wigner, Gauss, pseudo-Voigt, Voigt, attenuation table, Compton total and differential, or a sum of these) at an energy returns the value the documented formula gives for the object's parameters, with the shape of the energy argument (an energy-independent one may return its single value), whatever was evaluated before, by whichever callers, in whatever interleaving. The call never modifies the energy array it is given, and an array it returned earlier never changes later. Attributes derived at construction (resonance energy, statistical factor, branching ratio, energy-integrated cross section) keep their documented values.",
 ["histories", "schedules", "inputs"],
 "every sequence and interleaving of evaluations of shared objects by several callers with scalars and arrays of any shape, layout and writability, callers overwriting their own input and result arrays between calls",
 "Tests evaluate fresh objects once, single-threaded, mostly against other methods of the same object; none reuses buffers, interleaves callers or checks that arguments and earlier results survive.",
 [CS, RE, BW, GA, PV, VO, MB, RC, XR, KN], [("evaluation is a stateless expression of attributes fixed at construction", RE), ("log-log interpolation built once per table", XR)],
 [("attributes of resonance objects", "fixed at construction", RE)], ["return values, arguments and earlier results of every call"])

prop("C06", "Energy grids are valid partitions with equal steps or equal probability",
 "A grid requested between two energies with n points (n >= 2) has exactly n finite points in non-decreasing order, begins and ends exactly at the requested limits and never leaves them; on an equidistant-energy grid all steps are equal, and on an equal-probability grid of a single cross section all intervals carry the same share of the probability between the limits, unless a warning announced the documented approximation. The equal-probability grid of a sum is the sorted union, without duplicates, of the grids of its terms. This holds for every cross section, wherever the limits lie relative to the resonance, and is unaffected by other callers, earlier requests or failures of the numerical solver.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every kind of cross section and sum, limits around, beside and far from the resonance, any n >= 2, every interleaving of several callers requesting grids from shared objects, and solver failures at any call",
 "Tests request about ten grids, all containing the resonance, and check only a few points; they never place the limits beside the resonance, never inject a solver failure and never share an object between callers.",
 [CS, RE, PV, NR], [("CDF of the limits, linspace, PPF, then end points overwritten with the limits", RE), ("union of the terms' grids", CS), ("numerical inversion of the CDF with a fallback", PV)],
 [], ["arrays returned by the grid methods"])

prop("C07", "Coverage intervals are physical, correct and always announced when altered",
 "The coverage interval for a coverage c contains the probability c, split equally on both sides of the median of the resonance's distribution, except that a lower limit that would be negative is returned as zero. Every request whose lower limit is replaced by zero issues a warning that states the coverage reachable at positive energies, and every request with an infinite upper limit issues a warning, each time it happens and for every caller; no other request issues these warnings. A grid requested by coverage spans exactly that interval and contains no negative energy.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "every resonance model and coverage, every sequence and interleaving of requests by several callers, with warnings shown or turned into errors, with solver failures",
 "One test asks twice for one broad resonance and only looks at the text of the warnings; it never looks at the returned limits, the stated percentage, a second caller or a repeated request.",
 [RE, PV], [("PPF at (1-c)/2 and (1+c)/2, then the checks for negative and infinite limits", RE)],
 [], ["returned limits and issued warnings of every request"])

prop("C08", "Integration adds up over the partition and is transparent to its integrand",
 "Integrating over a partition of the first coordinate gives the sum over the intervals of the integrals over each interval (all other coordinates over their full range, arguments passed in order) with an uncertainty equal to the root of the summed squares; the Darboux routine gives the sum of the smaller end-point values times the interval lengths and the (non-negative) difference to the corresponding upper sum, identically for a function and for its tabulated values. An exception raised by the integrand at any evaluation reaches the caller unchanged, and the integrand may itself call the library, including the same integrator, and be shared by concurrent callers. Input arrays are not modified and a later integration is unaffected by an earlier failed one.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every integrand, partition and number of dimensions, an integrand failing at any of its evaluations, re-entrant integrands, and every interleaving of several integrating callers",
 "Tests integrate constants and one resonance; the integrand never fails, never calls back into the library and is never shared.",
 [DA, QP], [("one call of the adaptive integrator per interval, results accumulated locally", QP), ("min/max of neighbouring values times step", DA)],
 [], ["return values, exceptions and argument arrays of the integrators"])

prop("C09", "An interrupted or failed operation leaves no trace",
 "If an operation of the library is cut short at any instant by an interrupt, a failed allocation or an exception raised in caller-supplied code, the caller receives that exception (or the correct result), no object that existed before the call changes its observable values, no file stays open and no lock stays held. Every later operation by any caller, including an immediate retry of the same one, gives the result it would have given without the interrupted attempt.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "an interrupt or allocation failure at every executed instruction of every public operation, in every interleaving with operations of other callers, followed by any further operations",
 "No test interrupts anything.",
 [CS, RE, PV, XR, KN, DA, QP, DE, EL, NE], [("operations compute into local values and publish only by returning", "all modules"), ("files are opened in with-blocks", NE + ", " + XR)],
 [], ["exceptions, audits of all live objects after every interrupted operation, retries"])

prop("C10", "A failing root finder degrades to the documented approximation",
 "For quantiles strictly between 0 and 1 the quantile function of the (pseudo-)Voigt distribution always returns one finite energy per requested quantile, in the same order as the quantiles. If the numerical inversion converges, the result is the inverse of the distribution's cumulative probability; if it fails for any of the requested quantiles, all results are the documented weighted mean of the normal and the Cauchy quantiles and a warning says so. A failure affects only the request in which it happened.",
 ["fault_sequences", "histories", "schedules", "inputs"],
 "every distribution and set of quantiles, total and partial non-convergence of the root finder at any request, natural or injected, any interleaving with other requests on the same object",
 "One test provokes total non-convergence for a single scalar quantile; partial non-convergence of an array, recovery after a failure and concurrent requests are never exercised.",
 [PV, VO], [("Newton iteration with convergence flags, fallback on failure", PV)],
 [], ["return value and warnings of quantile, grid and coverage requests"])

prop("C11", "Files are closed on every path and data are only ever read",
 "Every file the library opens is closed again by the time the operation that opened it returns or raises, also when opening, reading, parsing or a caller-supplied conversion fails or is interrupted, and also while the caller keeps the exception. The library opens data files for reading only and never creates, modifies or removes a file.",
 ["fault_sequences", "crash_points", "schedules"],
 "every open/read error, malformed record, failing conversion and interrupt at any instruction while a file is open, in any interleaving of several readers",
 "No test counts open files or makes a read fail.",
 [NE, XR, EL], [("with-blocks around every open", NE + ", " + XR)],
 [], ["simulated file table after every operation"])

prop("C12", "Thermal quantities are computed per entry and without memory",
 "The effective (Debye) temperature of an array of temperatures and Debye temperatures equals, entry by entry, the documented integral for that entry alone, is never below the thermodynamic temperature nor below three eighths of the Debye temperature, and raises for a temperature of exactly zero; Doppler widths equal the documented expression and convert back to the temperature they came from. Results do not depend on the other entries, the order, earlier or failed requests, or other callers.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every scalar, array and broadcast combination of temperatures, every sequence and interleaving of requests by several callers, including failed and interrupted ones",
 "Tests evaluate two scalars; arrays are never compared entry by entry, and no request follows a failed one.",
 [DE, MB], [("scalar integral wrapped by an element-wise vectoriser", DE), ("closed-form Doppler width", MB)],
 [], ["returned values and exceptions"])

prop("C13", "Caller-supplied conversions are applied exactly once per value, every time",
 "When a data file is read with conversion functions, every converted quantity equals the conversion function applied exactly once to the value in the file (energy conversion to energies, coefficient conversion to both coefficients, density conversion to densities), and the table built from it interpolates the converted values. An exception raised by a conversion reaches the caller and no table is produced. Reading the same file again through the same object, at any later time, converts in the same way, also for the tables shipped with the library.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every file, every conversion (including ones that count, fail at some call or call back into the library), every number and interleaving of repeated reads through new and shipped objects",
 "Tests only use the shipped per-atom conversion while the module is loaded; they never read again later, never use an energy or density conversion and never let one fail.",
 [XR, NE], [("conversion called on each parsed number", XR), ("closure created per element in the loading loop", XR)],
 [("energy_conversion / xrmac_conversion / density_conversion", "callables kept by the reader", XR + ", " + NE)],
 ["values of tables and readers, calls seen by the conversion"])

prop("C14", "The library leaves process-wide state alone",
 "No operation of the library, whether it completes, fails or is interrupted, and in whatever interleaving of callers, changes process-wide state that belongs to the caller: the numerical error-handling mode, warning filters, random-number generators, working directory, environment, module search path, shared constants and distributions of the numerical libraries, signal handlers, trace hooks, or the set of running threads. It uses no randomness and no clock, so its results are independent of both.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every operation and interleaving, every clock behaviour (jumps, standstill), every state of the random-number generators and every interrupt",
 "No test inspects global state before and after, moves the clock or interrupts an operation.",
 [CS, RE, PV, XR, KN, DE, EL, DA, QP], [("functions touch only their arguments and attributes; warnings are issued, filters are not changed", "all modules")],
 [], ["snapshot of the process-wide state before and after every run"])

prop("C15", "Grid, cross section and integrator together recover the known integral",
 "Evaluating a resonance on its own equal-probability grid and integrating it gives the energy-integrated cross section times the probability between the limits, within the error bound the integration itself reports plus the share of the one interval that contains the peak, and the bound shrinks as points are added; a sum of cross sections on its union grid gives the weighted sum of the terms' integrals. In an attenuation calculation with several layers, the numbers of photons absorbed in each layer and transmitted add up to the incident number. This holds when many such calculations share the same objects concurrently, and when earlier attempts failed or were interrupted.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every resonance model, limits, number of points, weights and layer sequence, in every interleaving of several calculations over shared cross sections with failures and retries",
 "Tests integrate one Gaussian resonance once over one range and compare at 1e-3.",
 [RE, CS, DA, QP, PV, XR], [("equal-probability grid feeds the integrators", RE + ", " + DA + ", " + QP)],
 [], ["results of whole calculations"])

prop("C16", "User-defined nuclei are independent and derived quantities consistent",
 "A state's total width is the sum of its partial widths, an element's mass is the abundance-weighted sum of its isotopes' masses, and a resonance built from two states uses their energies, spins and widths; a ground state has zero excitation energy and an isotope without given excited states has none. Objects built independently share nothing: building, using or extending one isotope, state, element or resonance never changes another one built earlier or later by any caller, and building from the shipped data never changes those data.",
 ["histories", "schedules", "inputs"],
 "every sequence and interleaving in which several callers define states, isotopes, elements and resonances, extend their own containers and use them, with any spins, widths, energies and abundances",
 "Tests use one fixed module of boron levels, built once, and check three numbers.",
 [ST, IS, EL, RE], [("fresh containers per object (no shared defaults)", IS), ("derived quantities computed at construction from the arguments", ST + ", " + EL)],
 [], ["attributes of all objects after every operation"])

prop("C17", "A finished operation leaves nothing behind in memory",
 "After an operation has completed, failed or been interrupted, and the caller has dropped what it passed in and what it got back, the library keeps none of it alive: no array, caller-supplied function, cross section, level, isotope, table, reader or exception. What the library holds does not grow with the number of operations performed, however many different inputs they have. Only what an object that is still in use is documented to contain (terms of a sum, data of a table, conversions of a reader) stays with that object.",
 ["histories", "crash_points", "schedules"],
 "every operation of the public interface on shared and on fresh objects, completed, failed in caller-supplied code or interrupted at any instruction, interleaved with other callers, and series of many hundred different operations",
 "Tests end with the process and never look at what is still referenced, let alone after a failure.",
 [CS, RE, PV, XR, NE, DA, QP, DE, MB, KN, ST, IS, EL], [("values are computed per call; no tables of past results", RE + ", " + PV + ", " + DE), ("exceptions propagate without being stored", QP)],
 [], ["weak references to arguments and results after each operation", "size of everything reachable from the library after 1,100, 1,250 and 1,400 operations"])

prop("C18", "The same operation gives the identical result in every history",
 "An operation that succeeds returns exactly the numbers, and issues exactly the library's own warnings, that it returns and issues when it is performed alone in a fresh process on objects built in the same way. What was computed before with equal, almost equal or other inputs, which operations failed or were interrupted, and what other callers do at the same time has no influence, not even on the last digits.",
 ["histories", "schedules", "fault_sequences"],
 "every operation of the public interface after and during every sequence of operations of several callers, including repeated and almost repeated inputs, solver failures, I/O errors and interruptions",
 "Tests compare with expected values to some digits, in one order, each in the state the preceding tests happen to leave.",
 [CS, RE, PV, VO, BW, GA, XR, NE, DA, QP, DE, MB, KN, ST, IS, EL], [("no state carried from one calculation to the next (start values, tolerances, tables)", PV + ", " + RE + ", " + DE)],
 [], ["results and warnings of operations in a history, and of the same operations alone"])

# --- pure functions of their arguments: not decided by simulation --------------------------------
prop("N01", "Compton differential cross sections integrate to the total one",
 "For every photon energy and particle mass, the differential Compton cross sections, integrated over their angular or energy range, give the total Klein-Nishina cross section, and scattering angle and scattered energy are inverse to each other.",
 ["inputs"], "every energy, charge number and particle mass",
 "Tests sample four energies for the electron only.", [KN], [("closed-form expressions", KN)])
prop("N02", "The pseudo-Voigt profile approximates the Voigt profile to the documented 1.2 %",
 "For every ratio of natural to Doppler width the pseudo-Voigt profile deviates from the Voigt profile by no more than about one percent of the peak, and becomes exact in the limits of a pure normal and a pure Cauchy profile.",
 ["inputs"], "every pair of widths",
 "Tests compare one nearly Gaussian case at 1e-2.", [PV, VO], [("mixing parameter and widths of Thompson et al.", PV)])
prop("N03", "Recoil-corrected energies exceed the level difference by the free-nucleus recoil",
 "For every level difference and mass the recoil-corrected resonance energy equals the level difference plus its square over twice the rest energy, and equals the level difference if recoil is neglected.",
 ["inputs"], "every energy difference and mass", "One test repeats the formula for one case.", [RC], [("closed form", RC)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

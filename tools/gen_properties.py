"""Write properties.jsonl (one-off authoring helper; run by hand)."""
import json, os
P = []


def add(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


POT = "primpy/potentials.py"
INF = "primpy/inflation.py"
add("C01", "Potential derivatives and slow-roll parameters are those of V",
    "For every potential class, every admissible parameter set and every field value (scalar or array), V is the "
    "documented function, dV, d2V, d3V and d4V are its successive derivatives, and get_epsilon_1V to get_epsilon_4V "
    "are the potential slow-roll hierarchy eps1=(V'/V)^2/2, eps_{n+1}=-(V'/V) d ln|eps_n|/dphi of that same V. "
    "get_epsilon_1 to get_epsilon_4 are the slow-roll expansion of the Hubble-flow parameters in these quantities.",
    ["inputs", "configurations"],
    "every potential class x a lattice of its shape parameters and Lambda x a lattice of field values (scalar and array)",
    "Tests difference each derivative at a handful of points for one or two parameter choices and never compare the "
    "analytic eps_nV with the hierarchy they claim to be, nor feature potentials at 4th order or near the feature.",
    [POT], [("analytic derivative methods of each class", POT), ("product rule of feature potentials", POT)],
    observe=["V/dV/d2V/d3V/d4V", "get_epsilon_nV", "get_epsilon_n"])

add("C02", "Slow-roll maps of a potential are mutual inverses anchored at the end",
    "For every potential and admissible parameters: inv_V inverts V on the inflating branch, phi_end solves eps1=1, "
    "sr_phi2N is the slow-roll integral of V/V' from phi_end and sr_N2phi its inverse, the older phi2efolds/phi_end_squared "
    "helpers give the same numbers, and the sr_Nstar2ns/sr_ns2Nstar and sr_Nstar2r/sr_r2Nstar pairs invert each other and "
    "give the leading-order n_s and r of that potential. (Feature potentials: the maps are known to be those of the "
    "featureless potential.)",
    ["inputs", "configurations"],
    "every potential x lattice of shape parameters and Lambda x lattices of phi, N, n_s and r",
    "Tests check a few round trips at default parameters; branch choices, root brackets and closed forms fail only in "
    "other parameter regions.",
    [POT], [("closed forms and root finders per class", POT)],
    observe=["inv_V", "phi_end", "sr_phi2N", "sr_N2phi", "sr_Nstar2ns", "sr_ns2Nstar", "sr_Nstar2r", "sr_r2Nstar",
             "phi2efolds"])

add("C03", "Potential construction accepts exactly its arguments and normalises to A_s",
    "Constructing a potential with any combination of keyword arguments either succeeds with exactly the requested "
    "parameters or raises: unknown, missing or conflicting arguments are rejected and A_s needs exactly one of N_star "
    "and phi_star. When A_s is given the resulting Lambda makes the leading-order slow-roll amplitude V/(24 pi^2 eps1) at "
    "the pivot equal A_s whatever Lambda was passed (with a warning if one was), and sr_As2Lambda does the same and returns "
    "consistent phi_star and N_star.",
    ["inputs", "configurations"],
    "every potential class x every subset of {Lambda, A_s, N_star, phi_star, required shape parameters, an unknown name}",
    "Tests try a few combinations for some classes; the accept/reject table over all subsets is never enumerated.",
    [POT], [("base-class keyword handling and sr_As2Lambda", POT)], observe=["constructors", "sr_As2Lambda"])

EQ = ["primpy/inflation.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"]
add("C04", "Time and e-fold background equations describe one dynamics",
    "At every admissible background state, for K in {-1,0,1} and any potential, the cosmic-time and e-fold equations "
    "agree with the Friedmann and Klein-Gordon equations and hence with each other: the right-hand sides, H2, H, w and the "
    "inflating diagnostic. The get_* methods for the first three derivatives of H, the 2nd to 4th derivatives of phi, the "
    "Hubble-flow parameters (both conventions) and the delta_n parameters return the exact derivatives along that flow.",
    ["inputs", "configurations"],
    "K x potential x lattice of (N, phi, dphi) states x {t, N} x optional tracked variables",
    "Tests compare the two formulations along one or two flat trajectories with loose tolerances; curvature terms that are "
    "exponentially small there are never seen.",
    EQ, [("static get_* methods and __call__", "primpy/time/inflation.py, primpy/efolds/inflation.py")],
    observe=["InflationEquationsT/N methods"])

add("C05", "Solutions expose every variable and event consistently for any event set",
    "For every registration order of variables and every list of distinctly named events passed to solve, the solution gives each variable "
    "by name as the matching row of the integrator's state, and for each event exactly the crossings of that event's own "
    "condition in its own direction, with matching values of every variable; integration stops at terminal events and "
    "nowhere else before x_end. Tracking optional variables or adding non-terminal events does not change the trajectory.",
    ["configurations", "inputs", "programs"],
    "all subsets and orders (to a bound) of the event classes with directions/terminal flags x tracked variables x time/e-folds; "
    "all add_variable sequences to a bound",
    "Tests use two or three fixed event lists; name collisions and direction/terminal combinations are not enumerated.",
    ["primpy/equations.py", "primpy/events.py", "primpy/solver.py"],
    [("variable index registry", "primpy/equations.py"), ("event naming and roots", "primpy/events.py")],
    state=[("idx", "variable name to row", "Equations")], observe=["solve(...) result attributes"])

add("C06", "Inflation start, end and duration are reported exactly when determined",
    "For every background solution, whatever events were tracked: the reported start of inflation is the first point if it "
    "is already inflating and otherwise the first crossing into inflation, the end is the first crossing out of inflation, "
    "N_tot is their difference, and H, phi, V and aH at those points belong to them. If the event needed (direction +1 for the "
    "start, -1 for the end) was not tracked or did not happen, or for the start if the universe collapsed, the values are NaN "
    "and (verbose only) the matching warning is issued; w, H, logaH and Omega_K satisfy the Friedmann equation at every step.",
    ["configurations", "inputs"],
    "K x initial-condition kind x potential x every subset of inflation/collapse/limit events x verbosity",
    "Tests check a few solutions with the standard event pair.",
    EQ + ["primpy/exceptionhandling.py"],
    [("postprocessing_inflation_start/end", INF)], observe=["sol._N_beg, _N_end, N_tot, *_beg, *_end, w, H, Omega_K"])

IC = "primpy/initialconditions.py"
add("C07", "Initial conditions satisfy their defining equations in both time variables",
    "For every accepted combination of K, phi_i and one of N_i or Omega_Ki, the initial state fulfils Friedmann's equation "
    "with its defining condition (slow roll, or V = dphi/dt^2 rolling towards smaller phi at the start of inflation), the "
    "other of N_i/Omega_Ki is the implied one so that giving either yields the same state, and time and e-fold equations "
    "start from the same physical state. Impossible geometries and missing, double or incomplete specifications are "
    "rejected with an error and never produce NaN.",
    ["inputs", "configurations"],
    "IC class x K x potential x lattice of phi_i, N_i, Omega_Ki x time variable x tracked variables x argument subsets",
    "Tests cover a few (phi_i, N_i) pairs; the accept/reject boundary for curved universes is not enumerated.",
    [IC], [("SlowRollIC and InflationStartIC constructors and __call__", IC)], observe=["ic attributes, y0, x_ini, x_end"])

add("C08", "Shooting initial conditions reach their target or fail loudly",
    "Whenever the shooting initial conditions return, integrating from them gives the requested N_tot (or N_star for the "
    "requested Omega_K0 and h) to the tolerance, starting from a phi_i inside the bracket. When the target cannot be "
    "reached, or the integrator gives up during any of the trial integrations, an error is raised instead of an arbitrary "
    "starting point being used.",
    ["inputs", "configurations", "fault_sequences"],
    "lattice of targets x K x brackets x time variable, and every placement of an integrator failure among the trial integrations",
    "Tests solve a couple of targets and inject no integrator failures.",
    [IC], [("ISIC_Nt, ISIC_NsOk root finding and classification of trial runs", IC)],
    observe=["phi_i, sol.N_tot, sol.N_star, raised errors"])

add("C09", "Scale-factor calibration obeys its decision table and reheating relations",
    "For every combination of calibration arguments, calibrate_scale_factor either raises the documented error or leaves "
    "quantities satisfying the defining relations (arguments documented for another method may be ignored or rejected): N = _N + constant, k = aH in comoving units with k_star crossing at "
    "N_cross = N_end - N_star = N_beg + N_dagg, a0/N0/Omega_K0/h consistent, energy density at the end of reheating = "
    "3/2 V_end exp(-3(1+w_reh) DeltaN_reh), DeltaN_minus1 = DeltaN_reh(1-3 w_reh)/4, and entropy conservation linking "
    "N_reh, rho_reh, g_th and N0. Different argument sets that describe the same universe give the same calibration, and "
    "instant reheating is recognised exactly for its special values.",
    ["inputs", "configurations"],
    "flat/open/closed x method x every None/special/other pattern of (N_star, h, Omega_K0, w_reh, DeltaN_reh, rho_reh_GeV, "
    "DeltaN_minus1, background) x g_th",
    "Tests sample about two dozen argument sets; the full accept/reject table and the cross-path equivalences are not covered, "
    "in particular for curved universes.",
    [INF, "primpy/reheating.py"], [("calibrate_scale_factor", INF), ("is_instant_reheating", "primpy/reheating.py")],
    observe=["sol attributes after calibrate_scale_factor"])

add("C10", "A solution's answers depend on its calibration, not on its history",
    "After any sequence of calibrations, spectrum queries, derive_approx_power and set_ns calls whose most recent calibration "
    "succeeded, every calibration attribute and every P_s_approx/P_t_approx(method, order) answer equals the one a fresh "
    "solution gives right after that calibration (and the latest derive_approx_power since; spectra of a method derived with other interpolation arguments keep those) alone. Querying a spectrum changes no observable attribute, and solutions "
    "or potentials that share inputs do not affect each other.",
    ["histories"],
    "all operation sequences up to depth 3 (quick) or 4 (thorough) over an alphabet of calibrations, queries, derivations and "
    "set_ns, against a fresh-object oracle",
    "Tests call each operation once on a fresh solution; caches and attributes left behind by earlier calls are never exercised.",
    [INF], [("cached spectra and attributes on the solution object", INF)],
    state=[("P_*_approx_*", "cached splines", "solution object"), ("inflation_mask", "range of k", "solution object")],
    observe=["sol.P_s_approx", "sol.P_t_approx", "sol attributes"])

add("C11", "Slow-roll spectra implement their published expansions and agree",
    "For any calibrated background the approximate scalar and tensor spectra of each method and order are that method's "
    "published expansion in the Hubble-flow parameters at horizon crossing (ARBDS at order 3 is known to omit its epsilon_4 "
    "terms), they agree with each other within the "
    "neglected order and with the exact solution for power-law inflation, and do not depend on the time variable used. "
    "A_s, n_s, n_run, n_runrun, A_t, n_t and r are the value and logarithmic derivatives of the derived spectra at k_star, "
    "and set_ns yields the requested n_s.",
    ["inputs", "configurations"],
    "potential x K x time variable x calibration x method x order x wavenumber lattice",
    "Tests compare a few methods at loose tolerance for one potential.",
    [INF], [("derive_approx_power_*", INF)], observe=["P_s_approx, P_t_approx, A_s, n_s, n_run, n_t, r"])

PERT = ["primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"]
add("C12", "Mode equations and vacua are the same physics in time and e-folds",
    "For every background, K and wavenumber, the time and e-fold mode equations for the comoving curvature perturbation and "
    "for tensors have the frequency and damping of the curved-space Mukhanov-Sasaki and tensor equations, and so transform "
    "into each other under dN = H dt. Each vacuum prescription gives a pair with the right Wronskian and the same physical "
    "initial state in both time variables, and reduces to Bunch-Davies deep inside the horizon.",
    ["inputs", "configurations"],
    "K x potential x background state x wavenumber lattice x scalar/tensor x vacuum x time variable",
    "Tests compare end spectra for one mode set; the coefficients and the vacua at individual states are not checked.",
    PERT, [("mukhanov_sasaki_frequency_damping, tensor_..., get_vacuum_ic_*", ", ".join(PERT))],
    observe=["frequency/damping arrays, vacuum initial values"])

add("C13", "Oscillatory solver treats every mode independently and superposes exactly",
    "The power spectra returned for a list of wavenumbers are, mode by mode, those obtained for each wavenumber alone, "
    "whatever the order, repetition, container or scalar-ness of the list and whichever other vacua are requested; each is "
    "the power of the solution of the mode equation with the requested vacuum initial condition. Requests outside the "
    "background's range or for unknown vacua fail clearly, and closed-universe scalar modes with k<1 are dropped only when asked.",
    ["inputs", "configurations"],
    "all small subsets/permutations of a wavenumber alphabet x vacuum tuples x time variable x K",
    "Tests call it with two or three fixed wavenumber arrays and vacuum choices.",
    ["primpy/oscode_solver.py"] + PERT, [("solve_oscode", "primpy/oscode_solver.py"),
                                          ("oscode_postprocessing", "primpy/perturbations.py")],
    observe=["P_s_*/P_t_* arrays on the returned object"])

BB = "primpy/bigbang.py"
add("C14", "Big Bang helpers describe one consistent standard cosmology",
    "For every h, matter, curvature and dark-energy content and every supported unit, H0, a0, the density parameters, H(N), "
    "the comoving Hubble horizon and the conformal time satisfy the Friedmann equation with H(today)=H0 and the curvature "
    "scale a0; quantities in different units differ exactly by the unit conversion. Conformal time is the integral of "
    "1/(aH): additive, positive, identical for scalars and arrays, and universes of matter, curvature and Lambda "
    "without a Big Bang give an error and recollapsing ones a warning exactly when they are such (in flat universes a0=1 by "
    "convention); unknown units and impossible parameters are rejected.",
    ["inputs", "configurations"],
    "lattice of h x Omega_m0 x Omega_K0 x N x units x scalar/array",
    "Tests use a few concordance-like universes.",
    [BB, "primpy/units.py", "primpy/parameters.py"], [("all functions of the module", BB)],
    observe=["return values and errors of primpy.bigbang functions"])

CW = "cobaya_wrapper/powerlaw_pps.py"
add("C15", "Cobaya spectrum theories return their parametrised spectra for any inputs",
    "For every combination of supplied and omitted parameters, the power-law theory and the log-, linear- and cutoff-feature "
    "theories return on their own k grid the spectrum they parametrise with the pivot at k_pivot, where omitted tensor parameters "
    "follow the inflationary consistency relation or are zero. An oscillation of zero amplitude reduces to the power law, "
    "and the answer does not depend on earlier calculations of the same theory object.",
    ["inputs", "configurations", "histories"],
    "theory class x every subset of optional parameters x parameter lattice x sequences of two calculations",
    "There are no tests of the cobaya wrappers at all.",
    ["cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py"],
    [("calculate and get_* of the theory classes", "cobaya_wrapper/")], observe=["primordial_scalar_pk, primordial_tensor_pk"])

add("C16", "Cobaya slow-roll theories report what primpy computes for their parameters",
    "For every slow-roll theory and parameter point given by N_star or n_s with at most one of rho_reh_GeV and w_reh, or by both "
    "of these, the spectra handed to the Boltzmann code and all derived parameters "
    "are those of the primpy background solved and calibrated for exactly these inputs, with k, A_s, n_s, r and reheating "
    "quantities mutually consistent. A point for which inflation or reheating fails is rejected, and no point's "
    "result depends on the points evaluated before it.",
    ["inputs", "histories", "configurations"],
    "theory class x small parameter lattice x sequences of points incl. failing ones",
    "There are no tests of the cobaya wrappers at all.",
    ["cobaya_wrapper/slowroll_pps.py"], [("calculate of SlowRollPPS and subclasses", "cobaya_wrapper/slowroll_pps.py")],
    observe=["state dict of the theory after calculate"])

add("C17", "Version bumping is a unit step applied consistently or not at all",
    "unit_incremented(a, b) holds exactly when a is the next major, minor or micro step after b or the first pre-release of it, the next "
    "pre-release of the same release (number + 1, or 0 with a later letter), or the release of b's pre-release, for all version "
    "strings, and the CI gate check_version.py decides the same. Any sequence of bumps moves the version in the code and in "
    "the README together by exactly the requested step, leaving everything else untouched.",
    ["inputs", "histories"],
    "all pairs of versions over a component alphabet incl. multi-digit components and pre-releases; all bump sequences to depth 3",
    "The helper scripts have no tests; the existing version test only compares two files at one commit.",
    ["bin/utils.py", "bin/bump_version.py", ".github/workflows/check_version.py"], [("unit_incremented", "bin/utils.py"), ("bump_version", "bin/bump_version.py")],
    observe=["return value; file contents after the script"])

add("C18", "A background trajectory does not depend on how its integration is organised",
    "For every potential, curvature and starting state the solution of the background equations is one trajectory: integrating in one "
    "go or in any sequence of stops and continuations, by x_end or by an event, forwards or backwards, in cosmic time or in e-folds, "
    "with any tracked variables, sampling and method, gives the same phi, dphi, H, t and eta at the same point, and the same end of "
    "inflation, within the integration tolerance. Rescaling the potential, or in a flat universe shifting N, only rescales "
    "the solution.",
    ["inputs", "histories", "configurations"],
    "trajectory x all sequences of up to 2 (thorough 3) moves between 4 checkpoints x {t, N} x {x_end, UntilN, UntilT, Phi0} x method; "
    "whole runs: potential x K x start x {t, N} x method",
    "Tests integrate each background once, forwards, in one go, and compare time and e-folds for one example at a loose tolerance.",
    ["primpy/solver.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py", "primpy/events.py", "primpy/equations.py"],
    [("solve", "primpy/solver.py"), ("InflationEquationsT", "primpy/time/inflation.py"), ("InflationEquationsN", "primpy/efolds/inflation.py")],
    observe=["last state, events and dense output of the returned solution"])

add("C19", "Shared potentials, equations, initial conditions and events do not interact",
    "Using an object never changes what it, or anything built from it, answers later: for every sequence of operations (solving, shooting, "
    "evaluating potentials and slow-roll maps, building further potentials, equations and initial conditions, calibrating, asking for "
    "spectra, solving modes, including operations that fail) on shared objects, each operation gives the answer it gives in a fresh "
    "process. Arrays, lists and dictionaries that are passed in, and the potential, are left unchanged. (Warnings are not "
    "part of an answer.)",
    ["histories"],
    "3 worlds (flat, closed, open) x all sequences (a, b, a) over 21 operations (thorough: all sequences of length 3)",
    "Tests build fresh objects for each assertion and look at one operation at a time.",
    ["primpy/initialconditions.py", "primpy/potentials.py", "primpy/equations.py", "primpy/events.py", "primpy/inflation.py",
     "primpy/perturbations.py", "primpy/oscode_solver.py", "primpy/solver.py"],
    [("InitialConditions", "primpy/initialconditions.py"), ("InflationaryPotential", "primpy/potentials.py"), ("Equations", "primpy/equations.py")],
    observe=["answers of every operation", "argument arrays, lists, dictionaries and potential attributes after it"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

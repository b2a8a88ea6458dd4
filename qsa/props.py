"""The properties of QETpy, with the rules that decide each of them."""
from . import checks as c
from .checks import register, group, per_entry, join_tasks
from .specs import ENTRIES

PROPS = []          # lines of properties.jsonl

CORE = "qetpy/core/"
FITF = CORE + "_fitting.py"
NSMF = CORE + "_of_nsmb.py"
NSEF = CORE + "_noise.py"
IVF = CORE + "_iv.py"
IBF = CORE + "_ibis.py"
DIDF = CORE + "didv/_didv.py"
DIBF = CORE + "didv/_base_didv.py"
DIPF = CORE + "didv/_didv_priors.py"
UTF = "qetpy/utils/_utils.py"
CUTF = "qetpy/cut/_cut.py"
SIMF = "qetpy/sim/_sim.py"
PLTF = ["qetpy/plotting/_fitting_plotting.py",
        "qetpy/plotting/_noise_plotting.py",
        "qetpy/plotting/_iv_plotting.py",
        "qetpy/plotting/_ibis_plotting.py",
        "qetpy/plotting/_of_nsmb_plotting.py"]
ALLF = [FITF, NSMF, NSEF, IVF, IBF, DIDF, DIBF, DIPF, UTF, CUTF, SIMF]
ALL = ("of", "ofnl", "nsmb", "noise", "tes", "utils", "ibis", "didv", "cut",
       "plot")


def prop(pid, title, statement, over, qtext, why, files, mech, tasks, expl,
         technique, note, observe=(), **kw):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": dict(
            files=files,
            mechanism=[{"name": n, "where": w} for n, w in mech],
            **({"observe_at": list(observe)} if observe else {}),
            hook_needed="none"),
        "_technique": technique, "_note": note,
        "_claimed": tasks is not None,
    })
    if tasks is not None:
        register(pid, tasks, expl, **kw)


def ent(rule, *groups, pred=None):
    """Tasks: the rule on every catalogue entry of the groups."""
    def tasks(tier):
        return per_entry(rule, group(*groups, pred=pred))(tier)
    return tasks


def lint_tasks(tier):
    from . import lint
    return lint.tasks(tier)


def import_tasks(tier):
    from . import lint
    return lint.import_tasks(tier)


def opt_tasks(tier):
    from . import opts
    return [(c.r_options, (o,), o.id) for o in opts.OPTS]


AI = "abstract interpretation of the syntax tree"

prop(
    "Q01", "The caller's arrays, lists and dictionaries are never modified",
    "No public function, constructor or method of QETpy changes an array, "
    "list or dictionary that the caller passed in, now or through a later "
    "method call on the object built from it.",
    ["inputs", "configurations", "histories"],
    "every documented argument of every public callable, in every supported "
    "layout and option combination; method sequences on the built objects",
    "A test compares results, not the inputs after the call, and an in-place "
    "update is visible only for the layouts and options where numpy hands "
    "back a view instead of a copy.",
    ALLF + PLTF,
    [("window arithmetic on copies", NSMF + ":of_nsmb_con"),
     ("trace storage", NSEF + ":Noise.__init__"),
     ("cut index arithmetic", CUTF + ":pileupcut")],
    ent(c.r_immut, *ALL),
    "Every store of each analysed function (subscript and attribute "
    "assignment, augmented assignment, out= arguments, mutating methods) is "
    "checked against the set of argument buffers its target may share memory "
    "with; views made by slicing, reshape, transpose, asarray etc. keep the "
    "roots of their base, copies and arithmetic drop them.",
    AI + ": alias roots of every mutated object",
    "may-alias dataflow over all analysed functions; unmodelled library "
    "calls are taken not to write their arguments")

prop(
    "Q04", "Results depend on the arguments only: no chance, no hidden state",
    "Apart from the functions documented to draw random numbers, calling a "
    "public function twice with equal arguments gives equal results whatever "
    "was called before. No call leaves anything behind in module globals, "
    "default arguments or library-wide settings, and importing the package "
    "changes no process-wide setting.",
    ["histories", "inputs"],
    "every public callable after any history of other calls in the process",
    "A unit test starts from a fresh process in a fixed order and cannot "
    "range over earlier calls; mutable defaults and global settings only "
    "show up in particular call orders.",
    ALLF + PLTF,
    [("noise generator", UTF + ":gen_noise"),
     ("symmetrising cut", CUTF + ":symmetrizedist")],
    join_tasks(ent(c.r_hidden, *ALL), import_tasks),
    "Effect analysis: random draws, reads of clocks/ids/environment, writes "
    "to module globals, default-argument objects, numpy/matplotlib/warnings "
    "settings reached from any catalogue entry, plus module-level calls of "
    "all modules.",
    AI + ": effects (randomness, globals, settings)",
    "effects of unmodelled library calls are taken to be none")

UNIT_WHY = (
    "A test fixes one sampling rate, one trace length and one data set, so a "
    "missing or extra factor of the sampling rate, bin width, load "
    "resistance or template norm that happens to be numerically harmless "
    "there passes; the rescaling law quantifies over all of them.")
UNIT_EXPL = (
    "Units (current, voltage, time, temperature, template, power spectral "
    "density, ADC count as independent generators) are inferred through "
    "every analysed statement from the documented units of the arguments. "
    "Obligations: both operands of each sum, comparison, concatenation or "
    "store agree, transcendental functions get pure numbers, and each result "
    "has the documented unit.")
UNIT_T = AI + ": dimension inference"
UNIT_N = ("unit polymorphic inference; values of unknown unit make an "
          "obligation undecided, never an alarm")


def uprop(pid, what, statement, text, files, mech, groups, pred=None,
          rule=None):
    prop(pid, what, statement, ["inputs", "configurations"], text, UNIT_WHY,
         files, mech, ent(rule or c.r_units, *groups, pred=pred), UNIT_EXPL,
         UNIT_T, UNIT_N)


uprop("Q05", "Optimum-filter results follow a change of units of the data",
      "Rescaling the trace, the template, the noise PSD or the time axis "
      "rescales every optimum-filter result by the power its physical unit "
      "dictates (amplitude: trace/template; time: seconds; chi-square: "
      "trace squared over PSD and time; resolutions accordingly), for the "
      "1-D, pile-up, nonlinear, muon-tail, multi-template and multi-"
      "background filters alike.",
      "all traces, templates, PSDs, sampling rates, windows and constraint "
      "options", [FITF, NSMF],
      [("filter construction", FITF + ":OptimumFilter.__init__"),
       ("nonlinear fit residuals", FITF + ":OFnonlin.residuals"),
       ("multi-background matrices", NSMF + ":of_nsmb_setup")],
      ("of", "ofnl", "nsmb"))
uprop("Q06", "Noise spectra and generated noise have density units",
      "PSDs and CSDs are in data-units squared per hertz and scale "
      "accordingly when the traces or the sampling rate are rescaled; "
      "generated noise scales with the square root of the PSD and of the "
      "sampling rate; correlation coefficients do not change.",
      "all traces, lengths, sampling rates, folded and two-sided layouts",
      [NSEF, UTF], [("PSD estimate", UTF + ":calc_psd"),
                    ("noise generator", UTF + ":gen_noise"),
                    ("noise object", NSEF + ":Noise.calculate_psd")],
      ("noise",))
uprop("Q07", "TES noise and transfer functions are dimensionally consistent",
      "Every transfer function and noise component of the TES noise model is "
      "a sum of terms of one physical unit and comes out in its documented "
      "unit: current noise in A^2/Hz, power noise in W^2/Hz, admittance in "
      "1/ohm, power responsivity in 1/V; energy resolutions in eV.",
      "all model parameters, both link models, any frequency array, "
      "superconducting, normal and transition states",
      [SIMF, UTF], [("TES noise model", SIMF + ":TESnoise"),
                    ("energy resolution", SIMF + ":energy_res_estimate"),
                    ("absorbed energy", UTF + ":energy_absorbed")],
      ("tes", "utils"))
uprop("Q08", "dIdV fits and models are dimensionally consistent",
      "The impedance, admittance, square-wave response, fit parameters, "
      "small-signal parameters and time constants of the dIdV fits carry "
      "their documented units (ohm, 1/ohm, A, henry, seconds, pure numbers) "
      "and every formula between them adds only like quantities.",
      "1-, 2- and 3-pole models, with and without priors, all traces, duty "
      "cycles, load resistances", [DIDF, DIBF, DIPF],
      [("impedance", DIBF + ":compleximpedance"),
       ("square-wave response", DIBF + ":squarewaveresponse"),
       ("parameter conversion", DIBF + ":_BaseDIDV"),
       ("prior fit", DIPF + ":DIDVPriors")], ("didv",))
uprop("Q09", "Cuts and distribution estimates follow the scale of the data",
      "Cut quantities (baselines, slopes, pile-up amplitudes, chi-squares) "
      "and the estimated moments scale with the data, so rescaling all "
      "traces leaves every cut decision unchanged.",
      "all trace arrays, template and PSD choices, cut options", [CUTF],
      [("unbiased estimators", CUTF + ":_UnbiasedEstimators"),
       ("automatic cuts", CUTF + ":autocuts_noise, autocuts_didv")],
      ("cut",))
uprop("Q10", "IV and offset quantities have their units and are linear in "
      "errors",
      "Bias currents, TES currents, resistances and powers from IV and "
      "offset analyses carry their physical unit, and every reported "
      "uncertainty is first order in the input uncertainties: scaling all "
      "input errors by a factor scales each reported error by that factor, "
      "never by its square or not at all.",
      "all 1-D, 2-D and 3-D sweeps, superconducting fit or not, scalar and "
      "per-channel resistances", [IVF, IBF],
      [("IV analysis", IVF + ":IV.calc_iv"),
       ("offset and IV analysis", IBF + ":IBIS.analyze")], ("ibis",))

prop(
    "Q11", "Every documented argument has its effect",
    "Each argument of a public function, constructor or method influences "
    "the result (or the state of the object it configures); none is "
    "accepted and then ignored or replaced by a default on the way to the "
    "code that needs it.",
    ["configurations", "inputs"],
    "every parameter of every public callable",
    "Tests exercise a few option combinations with data for which a dropped "
    "option makes no visible difference.",
    ALLF,
    [("option forwarding of wrappers", FITF + ":ofamp"),
     ("window arguments", NSMF + ":of_nsmb_con"),
     ("fit configuration", DIDF + ":didvinitfromdata")],
    opt_tasks,
    "For each public callable the dependence set of its result and of the "
    "object state is computed interprocedurally (data, control and index "
    "dependences); each parameter must be in it.",
    AI + ": dependence (data and control) of results on each parameter",
    "one obligation per parameter of each public callable",
)

prop(
    "Q12", "Documented inputs give results of the documented form",
    "For arguments of the documented shapes every public callable returns "
    "(it does not always raise), with the documented number of values and "
    "number of dimensions; no axis, index or shape used on the way falls "
    "outside the arrays.",
    ["inputs", "configurations"],
    "all array lengths, channel counts, template counts and option "
    "combinations",
    "Tests use one shape per function; the code branches on dimensionality, "
    "scalar or array arguments and optional inputs in combinations no test "
    "enumerates.",
    ALLF,
    [("sweep layouts", IVF + ":IV.calc_iv"),
     ("offset layouts", IBF + ":IBIS"),
     ("template matrices", NSMF + ":of_nsmb_setup")],
    ent(c.r_contract, *ALL),
    "Shapes are propagated symbolically (lengths N, channels C, templates "
    "..) through every analysed statement; incompatible broadcasts, "
    "out-of-rank subscripts, missing keys and wrong unpackings on a "
    "reachable path are violations.",
    AI + ": symbolic shapes and arity",
    "lengths symbolic; shapes unknown to the analysis are undecided")

prop(
    "Q13", "Every name, attribute, import and call in the package resolves",
    "No path through the package ends in a NameError, a missing attribute, "
    "an unbound local variable, a call that does not fit the called "
    "function's signature, or an exception that is built and not raised.",
    ["inputs", "configurations"],
    "every function of the package, error branches included; every "
    "configuration of the public callables",
    "Error branches and rarely used plotting or save branches are not run "
    "by the tests, and Python reports these errors only when the line runs.",
    ALLF + PLTF,
    [("error branches of the cuts", CUTF + ":autocuts_noise"),
     ("package exports", "qetpy/__init__.py")],
    join_tasks(lint_tasks, ent(c.r_names, *ALL)),
    "Scope resolution of every name in every module, import and export "
    "resolution, signature check of every call whose target is a package "
    "function, attribute check of self.<name>, plus definite-assignment and "
    "attribute typestate along the abstract execution of each entry.",
    "scope and signature resolution over the syntax tree; definite "
    "assignment by " + AI,
    "package-wide syntactic part is complete for direct calls; flow part "
    "follows the catalogue entries")


def rtasks(name, mod="rules"):
    def tasks(tier):
        import importlib
        m = importlib.import_module("qsa." + mod)
        return getattr(m, name)(tier)
    return tasks


VAL = AI + ": gated value numbering, values compared as rational normal " \
    "forms and by random interpretation of the two terms (library functions " \
    "as free symbols; no code is run)"
VAL_N = ("values are normal forms over uninterpreted library calls; a "
         "comparison that the normal form cannot settle is undecided")

prop(
    "Q02", "An OptimumFilter's results do not depend on its call history",
    "Each OptimumFilter method returns the same result whichever methods "
    "were called before on the object; after update_signal every method "
    "returns what a filter newly built with that signal returns, with "
    "nothing left over from the old signal.",
    ["histories", "inputs", "configurations"],
    "all traces, templates, PSDs and options; every method after every other "
    "method, with and without update_signal in between",
    "The object caches filtered traces, chi-squares and fit results lazily; "
    "a stale or half-updated cache shows only for particular orders of calls "
    "and signal updates, and tests follow one order.",
    [FITF],
    [("signal update", FITF + ":OptimumFilter.update_signal"),
     ("lazy caches", FITF + ":OptimumFilter._get_time_offset"),
     ("result methods", FITF + ":OptimumFilter.ofamp_withdelay")],
    rtasks("of_history_tasks"),
    "For each method M and each earlier method E (with and without options) "
    "the symbolic result of M after E, and of M after E and update_signal, "
    "is compared with that of M on a fresh object; the dependence set after "
    "update_signal must not contain the old signal.", VAL, VAL_N)
prop(
    "Q18", "The of* functions agree with the OptimumFilter methods",
    "ofamp, ofamp_pileup, ofamp_pileup_stationary, chi2_nopulse and "
    "chi2lowfreq return exactly what the corresponding OptimumFilter methods "
    "return for the same data and options.",
    ["inputs", "configurations"],
    "all traces, templates, PSDs, windows, coupling and constraint options",
    "Two code paths have to agree for every option combination; tests "
    "compare each against a handful of frozen numbers with default options.",
    [FITF],
    [("wrapper functions", FITF + ":ofamp, ofamp_pileup"),
     ("methods", FITF + ":OptimumFilter")],
    rtasks("of_functional_tasks"),
    "The symbolic results of the function and of the method are compared "
    "component by component.", VAL, VAL_N)
prop(
    "Q26", "IV analysis obeys the circuit identities",
    "For every bias point: TES current = measured current - fitted offset; "
    "resistance r0 = vb/ites - rload; power = ites*vb - ites^2*rload; normal "
    "resistance = fitted resistance - load; each uncertainty is the "
    "first-order propagation of the input uncertainties through these "
    "formulas; and the offset and the inverse of the fitted resistance, with "
    "their uncertainties, are those of the least-squares line through the "
    "given normal points of the same temperature and channel, weighted with "
    "the errors of the current.",
    ["inputs", "configurations"],
    "all sweeps, 1 to 3 dimensional, any layout of the load resistance, "
    "fixed or automatic normal points",
    "A test compares a few numbers; swapped channel or temperature axes, a "
    "wrong sign or a missing derivative in one of the error terms changes "
    "the result only for inhomogeneous inputs.",
    [IVF], [("IV analysis", IVF + ":IV.calc_iv"),
            ("load layouts", IVF + ":IV.__init__")],
    rtasks("iv_id_tasks"),
    "Each attribute that calc_iv sets is compared, as a symbolic value, with "
    "the stated formula of the other attributes.", VAL, VAL_N)

prop(
    "Q16", "The dIdV models obey their circuit algebra",
    "compleximpedance is the documented impedance of the 1-, 2- and 3-pole "
    "TES circuit and complexadmittance its inverse at every frequency; a "
    "model with its extra pole switched off (gratio = 0, loop gain 0) is the "
    "next simpler model; the square-wave response is linear in the drive "
    "amplitude, does not change when all impedances are scaled together, and "
    "uses the same drive spectrum as the deconvolution of measured traces.",
    ["inputs", "configurations"],
    "all frequencies, circuit parameters, drive amplitudes, drive "
    "frequencies and duty cycles",
    "The identities hold for all parameter values at once; a test evaluates "
    "single points, and the traces it uses have a 50% duty cycle.",
    [DIBF],
    [("impedance", DIBF + ":compleximpedance"),
     ("drive spectrum", DIBF + ":_BaseDIDV._convolvedidv")],
    rtasks("model_tasks", "r_didv"),
    "The symbolic results of the public functions are compared with the "
    "stated circuit formula, and with each other for the limiting cases.",
    VAL, VAL_N)
prop(
    "Q17", "dIdV fit results describe the model that was fitted",
    "In every dIdV fit result the returned parameters are the ones for which "
    "(data - model)/error was minimised, in the order of the covariance "
    "matrix, whose diagonal gives the squared errors; small-signal "
    "parameters describe the same impedance with the resistances given by "
    "the user; fall times solve the pole equation of that impedance; didv0 "
    "is its zero-frequency admittance; the prior fit adds the Gaussian prior "
    "term of the given covariance, and its errors are those of that "
    "likelihood. The fitted data are the mean over the "
    "(valid) traces of the admittance measured against the square wave, with "
    "the standard error of that mean.",
    ["inputs", "configurations"],
    "1-, 2- and 3-pole fits, with and without priors, any data, refits "
    "after another fit",
    "A test fits one data set and cannot see that errors, parameters and "
    "derived quantities belong to one and the same model: a permuted "
    "covariance index or a wrong conversion stays inside the tolerance.",
    [DIDF, DIPF, DIBF],
    [("fit and conversion", DIDF + ":DIDV.dofit"),
     ("prior fit", DIPF + ":DIDVPriors.dofit"),
     ("fall times", DIBF + ":_BaseDIDV._findpolefalltimes")],
    rtasks("fit_tasks", "r_didv"),
    "Optimiser calls are events with the symbolic residual vector, the "
    "symbolic start and an uninterpreted solution; the returned dictionaries "
    "are compared with the formulas of the property evaluated at that "
    "solution.", VAL, VAL_N)
prop(
    "Q15", "IBIS sweeps obey the circuit identities with propagated errors",
    "For every sweep: the offsets are the crossing point of the normal and "
    "superconducting lines (without a superconducting fit: the intercept of "
    "the normal line and zero), TES current = measured - offset, bias = "
    "applied - offset, fitted resistance = rsh/slope, rnorm = rfit - rsh - "
    "rp, r0 = vb/ites - rsh - rp, power = vb*ites - ites^2*(rsh + rp); the "
    "uncertainties of these, and the conductance estimate_g and its error, "
    "are the formula and its first-order error propagation. The lines are "
    "those of least squares through the given points of the same "
    "temperature and channel, weighted with the errors of the current.",
    ["inputs", "configurations"],
    "all sweeps of 1 to 3 dimensions, with or without superconducting fit, "
    "given or fitted offsets, any layout of the parasitic resistance",
    "A test compares stored numbers of one sweep; a derivative with the "
    "wrong power or a swapped variance changes an error by an amount that "
    "only matters for other sweeps.",
    [IBF, UTF],
    [("offset and IV analysis", IBF + ":IBIS.analyze"),
     ("conductance", UTF + ":estimate_g")],
    rtasks("tasks", "r_ibis"),
    "Line fits are uninterpreted functions of the points they are given; "
    "each attribute of the analysed object, for the generic bias point, is "
    "compared with the formula over the other attributes. The error of "
    "rnorm is not claimed (its terms are correlated).", VAL, VAL_N)
prop(
    "Q19", "Optimum filter fits are the stated least-squares estimators",
    "For every trace, template and noise spectrum: the amplitude without "
    "delay is the noise-weighted projection on the (shifted) template, so "
    "it is additive and a scaled template returns its scale with zero "
    "chi-square; with AC coupling the zero-frequency bin does not count; "
    "the chi-square of no pulse, the low-frequency chi-square and the "
    "energy and time resolutions are their defining sums; every delayed, "
    "pile-up and baseline fit returns the amplitudes that minimise the "
    "chi-square at the returned time, that chi-square, and the time of the "
    "best bin of exactly the requested delay window (inside or outside, "
    "clipped to the trace) and pulse direction, or no pulse if there is none; "
    "sub-bin interpolation is the parabola through the best bin and its "
    "periodic neighbours; a pile-up fit with a first pulse of zero is the "
    "delayed fit and a window of one bin is the fit without delay.",
    ["inputs", "configurations"],
    "all traces, templates, spectra, sampling rates, couplings, windows, "
    "directions, with and without interpolation; bin-grid first-pulse times",
    "Tests compare one stored number per method on one pulse; a weight, "
    "sign or cross term that vanishes for that pulse passes.",
    [FITF],
    [("optimum filter", FITF + ":OptimumFilter")],
    rtasks("tasks", "r_of"),
    "Symbolic results of each public method (FFT linear and uninterpreted, "
    "argmin named as one generic bin) are compared with the chi-square of "
    "the stated model: equality, and orthogonality of the residual to each "
    "fitted shape. Window selection and interpolation are compared with a "
    "reference definition by random interpretation of the two terms (the "
    "terms, not the code, are evaluated on small random arrays).",
    VAL, VAL_N)

RI = VAL
prop(
    "Q20", "Noise spectra have their defining normalisation",
    "calc_psd is the average periodogram |fft(x)|^2/(N fs) with the FFT "
    "frequencies; folding doubles exactly the bins that have a negative "
    "partner, so the integral of the spectrum is the mean square of the "
    "trace, two-sided or folded, even or odd length; smooth_psd is even in "
    "the frequency; gen_noise shapes white noise with sqrt(psd); the spectra "
    "of a Noise object follow the same definitions for each channel, the CSD "
    "is the mean over traces of the cross spectrum of each channel pair "
    "normalised to the PSD, uncorrelated and correlated noise come from the "
    "inverse CSD matrix, corrcoeff is the correlation of the channels.",
    ["inputs", "configurations"],
    "all traces, lengths (even and odd), sampling rates, numbers of traces "
    "and channels, gains",
    "Tests check the shape of the result or compare one stored spectrum; a "
    "factor of two in the zero-frequency or Nyquist bin, or a convention "
    "that differs for odd lengths, passes.",
    [NSEF, UTF],
    [("spectra", NSEF + ":calc_psd, foldpsd, gen_noise"),
     ("noise class", NSEF + ":Noise.calculate_psd")],
    rtasks("tasks", "r_noise"),
    "Each returned spectrum is compared with a reference definition as "
    "symbolic array terms of symbolic length.", RI, VAL_N)
prop(
    "Q21", "The trace utilities compute the stated quantities",
    "shift moves a trace by any (also negative or fractional) number of bins "
    "and fills the rest; make_template is the normalised two-exponential "
    "pulse at the stated place; slope is the least-squares slope; "
    "calc_offset, with errors, the mean over traces and time, over whole "
    "drive periods for dIdV data; lowpassfilter is the zero-phase "
    "Butterworth filter of the given order and cut-off; fill_negatives "
    "interpolates; powertrace_simple and energy_absorbed are the TES power "
    "and its trapezoidal integral below the baseline; get_offset_from_muon "
    "and estimate_g are their formulas.",
    ["inputs", "configurations"],
    "all traces, one or many, one or several channels, all lengths, shifts, "
    "offsets, filter orders and sampling rates",
    "Tests call each utility once with default arguments; an option that is "
    "ignored, a shift in the wrong direction, or an average over the wrong "
    "axis shows only for other arguments.",
    [UTF],
    [("utilities", UTF + ":shift, make_template, lowpassfilter, "
      "energy_absorbed, calc_offset")],
    rtasks("tasks", "r_util"),
    "The symbolic result of each utility is compared with a reference "
    "definition as array terms.", RI, VAL_N)
prop(
    "Q22", "The cuts select what their statistics say",
    "iterstat and itercov return the mean and the standard deviation "
    "(covariance) of exactly the data their returned mask selects, and the "
    "mask keeps exactly the points within the limits that follow from the "
    "statistics of the previous selection; all data are kept exactly when at "
    "most one point passes; the iteration goes on until the statistics are "
    "steady. removeoutliers removes the points farther from the median than "
    "the nearer extreme, until the skewness target is met. The pile-up, "
    "slope, baseline and chi-square cuts apply the chosen outlier algorithm "
    "to the stated quantity in the stated windows, for dIdV data too, and "
    "report it for all input traces; autocuts is their composition, each cut "
    "seeing the traces that passed the earlier ones; get_muon_cut flags "
    "saturated traces.",
    ["inputs", "configurations", "histories"],
    "all data, all numbers of iterations (the rule is checked for the first "
    "rounds of a loop whose step is the same in each), cut values, windows, "
    "combinations of cuts switched on and off",
    "Tests check the number of traces that pass on one data set; a mask one "
    "iteration older than the returned mean, or an index into the wrong "
    "subset, changes it hardly or not at all.",
    [CUTF],
    [("cuts", CUTF + ":iterstat, itercov, removeoutliers, autocuts, "
      "slopecut, baselinecut, pileupcut, chi2cut, get_muon_cut")],
    rtasks("tasks", "r_cut"),
    "The loop step of each iterative cut is a symbolic term; its first three "
    "rounds (substitution of the step into itself) are compared with the "
    "reference selection. The other cuts are compared with a composition of "
    "the helper cuts taken as unknown functions.", RI, VAL_N)
prop(
    "Q23", "The simulated TES noise follows from one circuit model",
    "Every noise source of TESnoise is its input noise times the response of "
    "one linearised electrothermal circuit (dIdV, dIdP solve the coupled "
    "current and temperature equations; normal and superconducting states "
    "their one-pole limits); the totals are the sums of their sources; the "
    "power-referred noise is the current noise over |dIdP|^2; a freqs "
    "argument replaces the stored frequencies everywhere; loadfromdidv "
    "builds the circuit whose dIdV is the fitted dIdV, from the fit with the "
    "right number of poles; energy_res_estimate integrates over the angular "
    "frequency.",
    ["inputs", "configurations"],
    "all circuit parameters, frequencies, both limits of the thermal noise, "
    "all three states, both kinds of fit result",
    "Tests only plot the noise or check one number; a sign in the thermal "
    "feedback, a stored frequency array used instead of the argument, or a "
    "forgotten source shows at other parameters only.",
    [SIMF],
    [("noise model", SIMF + ":TESnoise"),
     ("loading", SIMF + ":loadfromdidv"),
     ("resolution", SIMF + ":energy_res_estimate")],
    rtasks("tasks", "r_sim"),
    "The symbolic result of each method is compared with the reference "
    "circuit as rational functions of frequency and parameters.", VAL, VAL_N)
prop(
    "Q25", "Nonlinear pulse fits minimise and report one chi-square",
    "The pulse models of OFnonlin in the frequency domain are the Fourier "
    "transforms of the documented sums of exponentials, delayed by t0, that "
    "the time-domain models return, for rise times shorter and longer than "
    "the fall time; with scale_amplitude A is the height of the pulse. "
    "fit_falltimes and fitmuontail minimise the residuals between the "
    "normalised transform of the pulse and the model with the requested "
    "number of poles, over sqrt(psd/errscale), with the parameters in the "
    "documented order; the fit starts at the guess and the default bounds "
    "are those documented; the parameters returned are those found, the "
    "chi-square is that of these parameters (reduced in OFnonlin), the "
    "covariance is the inverse of J^T J and the errors are the roots of its "
    "diagonal.",
    ["inputs", "configurations"],
    "all pulses, psds, parameters, numbers of poles, with and without guess, "
    "template, scale_amplitude and full return",
    "Tests fit one simulated pulse with two of the models and compare "
    "numbers; a wrong weight, sign or parameter order in another model, or a "
    "chi-square of another model than the one fitted, is not exercised.",
    [FITF],
    [("fits", FITF + ":OFnonlin, MuonTailFit")],
    rtasks("tasks", "r_fit"),
    "The models, the residual function handed to least_squares, its start "
    "and bounds and the returned tuple are symbolic terms; each is compared "
    "with the formula of the documentation. The result of the minimisation "
    "is an unknown function of the problem.", RI, VAL_N)
prop(
    "Q24", "The multi-template filter solves its own least-squares problem",
    "The matrices of_nsmb_setup builds are the inner products, weighted by "
    "the inverse noise power per bin (psd*fs/N, the first bin that of the "
    "second), of the templates: constant for signal with signal and for "
    "background with background, a function of the delay for signal with "
    "background; getiP inverts the matrix of each delay and getPt keeps the "
    "rows and columns of the mask, also if one template is left. of_nsmb "
    "returns the delay of least chi-square inside the window, wrapped to "
    "half a trace, the amplitudes and chi-square there, and as residual the "
    "trace minus the templates times these amplitudes, its low-frequency "
    "chi-square being that of this residual. of_mb solves the problem of the "
    "backgrounds whose amplitude has an allowed sign, sets the others to "
    "zero, and its chi-square is that of the trace minus this fit. The slope "
    "template rises by 1/N per bin and has as many bins as the trace.",
    ["inputs", "configurations"],
    "all traces, templates, psds, windows, masks and polarity constraints; "
    "one and two backgrounds",
    "The repository has one test of the multi-template fit with fixed "
    "templates, comparing rounded numbers; wrong conjugation, a transposed "
    "block, or a delay taken relative to another origin is invisible there "
    "for symmetric or undelayed pulses.",
    [NSMF],
    [("setup", NSMF + ":of_nsmb_setup, of_nsmb_getiP, of_nsmb_getPt"),
     ("fits", NSMF + ":of_nsmb, of_mb")],
    rtasks("tasks", "r_nsmb"),
    "The symbolic results of each step are compared, element by element of "
    "the small template dimension, with the least-squares formulas.", RI,
    VAL_N)
prop(
    "Q14", "Impossible arguments raise ValueError and valid ones do not",
    "Arguments that cannot be meant are rejected with ValueError before a "
    "result is computed, and the nearest valid ones are accepted: windows "
    "outside the trace or empty and pulse directions other than -1, 0, 1 in "
    "the optimum filter; a PSD of another length than the trace; a guess "
    "with the wrong number of values and a one-pole fit without rise time; "
    "sweeps of four dimensions, the wrong number of channel names and "
    "resistances of another shape in IBIS and IV, a superconducting fit "
    "without its indices; single traces or the wrong number of names in "
    "Noise and cross-channel quantities of one channel; a sampling rate "
    "that is no multiple of the signal generator's without autoresample; 0 "
    "or 4 poles; incomplete circuit models; fractional rates for "
    "resample_factors; no baseline or time base in energy_absorbed; unknown "
    "outlier algorithms and noise types.",
    ["inputs", "configurations"],
    "all values of the other arguments; the sizes at and next to the limits, "
    "even and odd",
    "Tests call the package with valid arguments; a check that is dropped, "
    "moved behind the computation or off by one lets the filter return a "
    "number for a window that does not exist.",
    ALLF,
    [("window", FITF + ":_argmin_chi2"), ("sweeps", IBF + ":IBIS"),
     ("poles", DIDF + ":DIDV.dofit")],
    rtasks("tasks", "r_err"),
    "Each call is interpreted with symbolic data; the property holds if "
    "every path of the rejected call ends in a raise of ValueError and no "
    "path of the accepted call raises.",
    AI + ": reachability of the return under impossible arguments",
    "the impossible arguments are an explicit list: one per documented "
    "condition, at and beyond its limits")
prop(
    "Q03", "Analysis steps give the same results in every order",
    "The classes of QETpy keep results between calls, but a step never "
    "depends on what was done before with the same object unless that is "
    "its input: fit_falltimes and fitmuontail after fits of other pulses "
    "with other numbers of poles, every noise method of TESnoise after "
    "calls at other frequencies, the PSD, CSD and correlations of Noise, "
    "processtraces and the fits of DIDV and DIDVPriors, IBIS.analyze and "
    "IV.calc_iv after themselves and after each other give what a fresh "
    "object gives, and the results of one step stay as they are while "
    "another one runs. (The three-pole DIDV fit starts from the two-pole "
    "result if there is one.)",
    ["histories", "inputs"],
    "all pairs of steps on one object, all data",
    "Tests build a new object for every call. A result, guess or frequency "
    "array that is kept from the first call, or traces converted twice, "
    "shows only for the second call on the same object.",
    ALLF,
    [("fits", FITF + ":OFnonlin"), ("results", DIDF + ":DIDV.dofit"),
     ("spectra", NSEF + ":Noise"), ("frequencies", SIMF + ":TESnoise")],
    rtasks("tasks", "r_hist"),
    "Both histories are interpreted with the same symbolic data and the "
    "symbolic results compared; dependence on the earlier data is a "
    "violation in itself.", VAL, VAL_N)

prop(
    "Q27", "No stored value silently loses its imaginary or fractional part",
    "Results are collected in arrays made beforehand. The elements of every "
    "such array can hold what is stored in them: no complex spectrum, "
    "filter or impedance is stored in (or added in place to) an array of "
    "real numbers, and no non-integer value in an array of integers, where "
    "numpy drops the imaginary or fractional part with at most a warning. "
    "Measured data may be whole numbers (raw readings): results then have "
    "the same values as for the same data given as floating-point numbers.",
    ["inputs", "configurations"],
    "every store into an array made by the package, for every input and "
    "option combination",
    "A dropped imaginary part leaves the results of symmetric test data "
    "unchanged, and numpy reports it as a warning only.",
    ALLF,
    [("filters and spectra", NSMF + ":of_nsmb_setup"),
     ("CSD matrices", NSEF + ":Noise"), ("derivatives", DIBF)],
    ent(c.r_lossy, *ALL),
    "Every store into an array of known element type is an obligation: the "
    "stored value is real (an integer) by its form, or its term is "
    "evaluated on random samples of the symbols.", AI + ": element types "
    "of arrays against the stored symbolic values", VAL_N)

prop(
    "Q33", "An argument that is left out means its documented default",
    "For every parameter whose documentation states a default (a value, or "
    "\"the default behavior\"), a call that leaves the argument out returns "
    "what the call with that value returns, for all other arguments. Where "
    "None is documented to stand for something else (no constraint on the "
    "delay is a window of all bins, no frequencies are those of the "
    "object), both calls give the same result.",
    ["inputs", "configurations"],
    "every documented default of every function, constructor and method; "
    "all values of the other arguments",
    "Tests pass the argument or do not; they do not compare the two, and a "
    "default matters only together with other arguments (a window that "
    "excludes bins only if it has a length).",
    ALLF + PLTF,
    [("windows", FITF + ":ofamp_pileup_stationary"),
     ("cut levels", CUTF + ":autocuts"), ("filters", UTF + ":lowpassfilter")],
    rtasks("tasks", "r_default"),
    "The defaults are read from the docstrings and compared with those of "
    "the signatures; where they differ in form, both calls are interpreted "
    "with symbolic arguments and their results compared.",
    AI + " and comparison of signatures with documentation", VAL_N)

NA = "not applicable"
prop(
    "Q28", "Fits find the global minimum of their chi-square",
    "For data that follow the model, the nonlinear fits (OFnonlin, "
    "fitmuontail, the dIdV fits, curve_fit of the IV lines) converge to the "
    "parameters that minimise the chi-square over the whole parameter space.",
    ["inputs"], "all traces and starting values",
    "Whether an iteration converges depends on the data; tests use a few "
    "well-behaved pulses.", [FITF, DIBF, DIDF],
    [("least-squares iterations", FITF + ":OFnonlin.fit_falltimes")],
    None, "", NA,
    "convergence of an iterative optimiser depends on the data and on the "
    "number of iterations inside scipy; no argument from the source bounds "
    "it (what is minimised and what is reported is Q17 and Q25)")
prop(
    "Q29", "Results are accurate to a few units in the last place",
    "Rounding does not change any result by more than a few relative "
    "epsilon times the condition number of the problem: no cancellation "
    "between large terms, no overflow of exponentials for long traces.",
    ["inputs"], "all magnitudes of the data",
    "Accuracy is lost only for particular magnitudes of the data.",
    ALLF, [("sums over frequencies", FITF + ":OptimumFilter")],
    None, "", NA,
    "the checks reason about real and complex numbers; bounding the rounding "
    "errors of FFTs, matrix inverses and library fits needs ranges of the "
    "data that the source does not state")
prop(
    "Q30", "Generated noise and random removal have their distributions",
    "Noise from gen_noise is Gaussian with the given PSD on average over "
    "many traces, and symmetrizedist removes values such that the rest is "
    "symmetric on average.",
    ["inputs"], "all PSDs and sample sizes",
    "Distributions are seen on average only; tests check one seed.",
    [NSEF, CUTF], [("white noise shaped by sqrt(psd)", NSEF + ":gen_noise"),
                   ("random removal", CUTF + ":symmetrizedist")],
    None, "", NA,
    "a statement about averages over the random generator (that the noise is "
    "white Gaussian noise times sqrt(psd*fs) is decided in Q20)")
prop(
    "Q31", "The iterative cuts end, and close to the true distribution",
    "iterstat, itercov and removeoutliers end for every data set, and for a "
    "Gaussian core with outliers their mean and width are those of the core.",
    ["inputs"], "all data sets",
    "The number of iterations depends on the data.",
    [CUTF], [("iterations", CUTF + ":iterstat"),
             ("skewness", CUTF + ":removeoutliers")],
    None, "", NA,
    "the number of iterations and the bias of the estimates depend on the "
    "data; what each step keeps and what is returned is decided in Q22")
prop(
    "Q32", "make_decreasing returns a decreasing sequence for every input",
    "make_decreasing returns a sequence that never increases and changes as "
    "few values as it can.",
    ["inputs"], "all sequences",
    "Which values are dropped depends on runs of values in the data.",
    [UTF], [("loop over the values", UTF + ":make_decreasing")],
    None, "", NA,
    "needs a loop invariant over the order of data values, which the term "
    "domain (values of loops without a closed form are opaque) has not")

"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pygmm/"
M = S + "model.py"
ALLM = [
    "abrahamson_silva_kamai_2014", "boore_stewart_seyhan_atkinson_2014", "campbell_bozorgnia_2014", "chiou_youngs_2014", "idriss_2014",
    "atkinson_boore_2006", "campbell_2003", "tavakoli_pezeshk_2005", "pezeshk_zandieh_tavakoli_2011", "akkar_sandikkaya_bommer_2014",
    "derras_bard_cotton_2014", "abrahamson_gregor_addo_2016", "coppersmith_bommer_2014", "gulerce_abrahamson_2011", "bayless_abrahamson_2019",
    "abrahamson_silva_1996", "kempton_stewart_2006", "afshari_stewart_2016", "pinilla_ramos_et_al_2023", "pinilla_ramos_et_al_2024",
]
FILES = [S + m + ".py" for m in ALLM]
ALL = "All models: "
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=list(observe)))


PUB_WHY = "The tests compare a stored table of scenarios at 1e-2 or print plots; branches, thresholds, regions and combinations of optional inputs between those points are unchecked."
PUB_NOTE = "Trusts the independently written reference equations and coefficient snapshot in /verif/pgmon; exploration of a continuous input space biased to published thresholds, not exhaustive."


def published(pid, title, what, mods, extra_mech=(), more="", extra_files=()):
    prop(
        pid, title, what, ["inputs"],
        "every scenario with admissible values of the declared inputs, inside or outside the recommended limits, with any subset of the optional inputs, every category" + more,
        PUB_WHY, [S + m + ".py" for m in mods] + list(extra_files) + [S + "data"],
        [dict(name="equations of the model", where=S + m + ".py") for m in mods] + [dict(name=a, where=b) for a, b in extra_mech],
        "runtime oracle: independent reference model compared at every observed evaluation", PUB_NOTE,
        ["public accessors of every constructed instance"],
    )


prop("C01", "A Scenario behaves as a dictionary of the documented inputs",
     "A Scenario holds exactly the inputs it was given under the documented names, readable alike as items and attributes, and any other name given at construction or to copy_with is refused with an error naming it. Assignments, deletions, updates, unions, copy_with, copy, pickle and deepcopy behave as on a plain dictionary of those inputs, and no copy changes another. An input that is not set is not visible as an attribute.",
     ["histories", "inputs"], "every sequence of constructions, assignments, deletions, copies, serialisations and reads over every documented input",
     "Tests build a few scenarios and read a few attributes; sequences of edits and copies, unset attributes and serialisation are not covered.",
     [M], [dict(name="Scenario container and KNOWN_KEYS", where=M)],
     "runtime monitor: operation sequences shadowed by a plain-dict model", "Exploration of random operation sequences against a model; assumes the documented list of inputs.")
prop("C02", "Required inputs, defaults and options are enforced by every model",
     "A model refuses a scenario without one of its required inputs (or with it None) with a ValueError naming a missing input. An optional input that is unset takes the documented default, recorded in the model's scenario and giving the same results as passing the default. An unrecognised value of a categorical input is reported with the name, the value and the options, and replaced by the default where there is one; recognised values are kept. Where a model takes its inputs by keyword the same holds, and a keyword that is no input is refused with an error naming it.",
     ["inputs", "configurations"], "every model, every subset of its inputs left out, every categorical value",
     "A handful of parameter unit tests on one synthetic parameter; which inputs each model requires and what each default does to results is not covered.",
     [M] + FILES, [dict(name="Parameter.check / Model._check_inputs", where=M), dict(name="PARAMS of each model", where=S)],
     "runtime monitor: parameter-contract oracle over perturbed inputs", "Exploration; the documented inputs, options, defaults and limits of each model are listed in pgmon/models.py. Models with a required category without default are only checked to complain.")
prop("C03", "Exactly the inputs outside the recommended limits are reported",
     "A numeric input outside the recommended limits of the model gives exactly one warning naming it with its value and the exceeded limit, and the value is used unchanged. Inputs inside or exactly on a limit give none. Magnitude limits that depend on the mechanism are likewise reported exactly when exceeded.",
     ["inputs"], "every numeric input of every model at values inside, on, one float beside and beyond each limit, alone and together",
     "Tests check that one synthetic parameter warns; no model's limits are exercised at their edges.",
     [M] + FILES, [dict(name="NumericParameter.check", where=M), dict(name="mechanism-dependent magnitude limits", where=S)],
     "runtime monitor: emitted warnings matched one-to-one with exceeded limits", "Exploration; trusts the documented limits transcribed in pgmon/models.py.")
prop("C04", "A model is isolated from the caller's scenario and from other models",
     "What a model reports depends only on the values of its declared inputs at construction: undeclared inputs, the way they are handed over (Scenario, dict, copy_with, None for unset, numpy numbers of any size, integers) and later edits of the scenario change nothing. Constructing a model does not modify the caller's scenario, and editing the model's recorded scenario does not affect the caller or other models.",
     ["histories", "inputs"], "every model, inputs, hand-over form and sequence of edits around constructions, including one scenario shared by many models",
     "Tests construct each model once from a fresh scenario and never reuse or edit it.",
     [M] + FILES, [dict(name="the model's private copy of the scenario", where=M)],
     "runtime monitor: metamorphic comparison of digests under sharing and editing", "Exploration; compares bit-exact digests of all public results.")
prop("C05", "Inputs left out are estimated with the published relations and recorded",
     "Depths and rupture dimensions that the model estimates when unset equal the published estimates for the scenario, and are recorded in the model's scenario. Giving the recorded estimate explicitly yields the same results, and given values are never replaced. An unset basin depth is equivalent to the regional average basin depth where the model defines it so.",
     ["inputs", "configurations"], "every combination of unset estimable inputs over admissible scenarios of ASK14, CB14, CY14, BA19, BSSA14 and AS16",
     "Stored test tables give most inputs explicitly; estimates are only seen for a few scenarios through the final response.",
     [S + m + ".py" for m in (ALLM[0], ALLM[1], ALLM[2], ALLM[3], ALLM[14], ALLM[17])],
     [dict(name="_check_inputs overrides and calc_* estimators", where=S)],
     "runtime oracle: reference estimators, and re-evaluation with the recorded estimates", PUB_NOTE)
prop("C06", "Spectral accessors and interpolation are mutually consistent",
     "Every spectral model reports one acceleration and one log standard deviation per published native period, and interpolation (in log period, any supported kind) returns the native values at native periods. Linear interpolation between them is linear in log period for the log acceleration and its standard deviation, and not-a-number outside the native range, for each queried period independently. A measure the model does not define raises NotImplementedError rather than returning a value.",
     ["inputs"], "every spectral model, scenario, interpolation kind and list of queried periods",
     "Interpolation is tested for one model at a few periods inside the range.",
     [M] + FILES[:13], [dict(name="GroundMotionModel accessors and interp_*", where=M)],
     "runtime oracle: independent interpolation over recorded native values", "Exploration; native periods come from the coefficient snapshot.")
prop("C07", "Reported variability is finite, positive and composed of its parts",
     "Every log standard deviation reported by a model is finite, positive and below 5, with one value per reported ordinate. Where between- and within-event parts are kept, the total is the root of the sum of their squares.",
     ["inputs"], "every model reporting variability, scenarios inside and beyond the limits",
     "Only some models' totals are compared with tables at 1e-2; composition and sign elsewhere are unchecked.",
     [M] + FILES[:18], [dict(name="standard deviation of each model", where=S)],
     "runtime assertions on observed standard deviations", "Exploration; parts are read only where a model keeps them.")
prop("C08", "Results do not depend on what was evaluated, edited or failed before",
     "The same construction and calls report bit for bit the same values whatever other models, functions and failing constructions ran before, and whatever arrays returned by earlier instances or scenarios were overwritten. Live instances keep reporting the values they had, and pickled or deep-copied models report those of the original.",
     ["histories"], "every history of constructions, failures, edits of returned arrays and scenarios, serialisation and function calls, followed by any evaluation",
     "Tests evaluate in one fixed order and never write into returned arrays.",
     [M] + FILES, [dict(name="module- and class-level coefficient tables are never written", where=S), dict(name="per-instance results", where=M)],
     "runtime monitor: digest comparison across random hostile histories", "Exploration; the first evaluation in the process is the reference (C33 compares it with fresh processes).")
prop("C09", "Concurrent use gives the serial results",
     "Models, estimators and correlation functions evaluated from several threads at once, including threads sharing an instance or a scenario and the first use of lazily loaded data, report exactly the serial values and raise nothing.",
     ["schedules"], "every interleaving of threads constructing models, reading shared instances and calling functions",
     "No test uses threads.", [M] + FILES + [S + "hermkes_kuehn_riggelsen_2014.py"],
     [dict(name="no shared mutable state during evaluation", where=S), dict(name="lazy INTERPOLATOR", where=S + "hermkes_kuehn_riggelsen_2014.py")],
     "race monitor: injected yields at random package lines, results compared with serial digests", "Exploration of schedules under the GIL with a 1 microsecond switch interval and yields injected at random lines; number of distinct switch points observed is in the evidence.")
prop("C10", "Array arguments are left alone and treated element by element",
     "Functions taking arrays accept lists, tuples, arrays, pandas series, strided, reversed and read-only views and integers alike, give the same values for each, never modify them and return results that do not share their memory. Permuting, repeating or isolating elements permutes, repeats or isolates the results.",
     ["inputs"], "every function with an array argument, every container and every list of values",
     "Tests pass one sorted array per function.",
     [M, S + "abrahamson_silva_1996.py", S + "baker_jayaram_2008.py", S + "kishida_2017.py", S + "bayless_abrahamson_2018.py", S + "stafford_2017.py", S + "pinilla_ramos_et_al_2024.py", S + "gulerce_abrahamson_2011.py", S + "abrahamson_gregor_addo_2016.py"],
     [dict(name="array conversion at each entry point", where=S)],
     "runtime monitor: before/after snapshots and metamorphic relations on array arguments", "Exploration over values and containers.")
prop("C11", "Importing and evaluating leave the rest of the process alone",
     "Evaluating any model or function, successfully or not, writes no file, starts no process, opens no connection, prints nothing, and leaves process-wide settings (numpy error state and print options, warning filters and display, random states, environment, working directory, import path, logging levels and handlers, signals, locale) as they were. Importing the package does the same.",
     ["histories", "configurations"], "every evaluation and import order of the package's modules",
     "No test observes the process.", [S + "__init__.py", M] + FILES,
     [dict(name="pure computation on data read at import", where=S)],
     "runtime monitor: audit hook, captured streams and process-state snapshots", "Exploration; effects that emit no Python audit event and change none of the snapshotted state are not seen.")
prop("C12", "Inside the recommended limits every model predicts finite positive motions",
     "For inputs inside the recommended limits and a possible source geometry every model constructs without error and every predicted motion, duration and standard deviation is finite and positive. Every model exported by the package can be used this way.",
     ["inputs"], "every model and every scenario inside (or exactly on) its recommended limits",
     "Tests use interior points of a few models.", [S + "__init__.py"] + FILES,
     [dict(name="model equations", where=S)],
     "runtime assertions on every prediction inside the limits", "Exploration. Two known findings are listed in known_findings.json.")
published("C13", "ASK14 reports the published median and variability", "For every scenario, AbrahamsonSilvaKamai2014 reports the median spectrum, PGA, PGV and standard deviations of the published equations, including the hanging-wall, aftershock, regional and estimated-depth terms.", [ALLM[0]])
published("C14", "BSSA14 reports the published median and variability", "For every scenario, BooreStewartSeyhanAtkinson2014 reports the median spectrum, PGA, PGV and standard deviations of the published equations, including the regional anelastic, nonlinear site and basin terms.", [ALLM[1]])
published("C15", "CB14 reports the published median and variability", "For every scenario, CampbellBozorgnia2014 reports the median spectrum, PGA, PGV and standard deviations of the published equations, including hanging wall, hypocentral depth, basin, regional terms and the floor of short-period motion at PGA.", [ALLM[2]])
published("C16", "CY14 reports the published median and variability", "For every scenario, ChiouYoungs2014 reports the median spectrum, PGA, PGV and standard deviations of the published equations, including directivity, hanging wall, depth, basin and regional terms.", [ALLM[3]])
published("C17", "I14 reports the published median and variability", "For every scenario, Idriss2014 reports the median spectrum, PGA and standard deviations of the published equations, with the small- and large-magnitude coefficients on their sides of M 6.75 and the period and magnitude limits of its standard deviation.", [ALLM[4]])
published("C18", "Eastern North America models report the published values", "For every scenario, AtkinsonBoore2006, Campbell2003, TavakoliPezeshk05 and PezeshkZandiehTavakoli2011 report the median motions (PGV in cm/s, PGD in cm) and natural-log standard deviations of their published equations, on rock and soil (for AtkinsonBoore2006 a `v_s30` of 0 selects the hard-rock coefficients).", ALLM[5:9])
published("C19", "European models report the published values", "For every scenario, AkkarSandikkayaBommer2014 (for each of its distance measures, by published preference) and DerrasBardCotton2014 report the median motions and standard deviations of the publications. ASB14 refuses a scenario without any of its distances.", ALLM[9:11])
published("C20", "Subduction models report the published values", "For every scenario and every constructor adjustment (magnitude break shifts, attenuation scaling), AbrahamsonGregorAddo2016 and CoppersmithBommer2014 report the median motions and standard deviations of the publications and the adjustments in effect.", ALLM[11:13], more=", every adjustment option")
published("C21", "GA11 reports the published vertical-to-horizontal ratio", "For every scenario, GulerceAbrahamson2011 reports the published V/H ratio and its standard deviation at the native periods, and their log-period interpolation elsewhere, constant beyond the ends. Keyword construction is equivalent to a scenario.", [ALLM[13]])
published("C22", "BA19 reports the published Fourier amplitudes", "For every scenario, BaylessAbrahamson2019 reports the published effective amplitude spectrum and standard deviation at the published frequencies, in log and natural units consistently.", [ALLM[14]])
published("C23", "Duration models report the published values", "For every scenario, AbrahamsonSilva1996 (including interpolation to other normalized Arias intensities and numbers of standard deviations), KemptonStewart2006 and AfshariStewart2016 report the published durations and standard deviations.", ALLM[15:18], more=", every list of normalized intensities")
published("C24", "PR23 reports the published durations", "For every scenario and energy fraction in 0.10-0.95, PinillaRamosEtAl2023 reports the published median duration and its plus and minus one sigma values; energy fractions outside are refused with ValueError.", [ALLM[18]], more=", every energy fraction")
published("C25", "PR24 reports the published durations", "For every scenario, region, event type and energy fraction, PinillaRamosEtAl2024 and its stand-alone function report the published median and plus and minus one sigma durations, element by element over arrays. Unsupported combinations, energies and labels are refused with ValueError.", [ALLM[19]], more=", every energy fraction and every broadcastable array of inputs")
prop("C26", "Baker-Jayaram correlations and the conditional mean spectrum are as published",
     "The correlation of two periods in 0.01-10 s is the published one, symmetric, at most one and one for equal periods. The conditional mean spectrum shifts each ordinate by its correlation, standard deviation and the conditioning epsilon, matches the target exactly with zero standard deviation at the conditioning period, and never exceeds the unconditional standard deviation.",
     ["inputs"], "every set of periods and conditioning period (native or not), spectrum and target",
     "One stored example each; the four branches meet at 0.109 s and 0.2 s.", [S + "baker_jayaram_2008.py"],
     [dict(name="calc_correls, calc_cond_mean_spectrum", where=S + "baker_jayaram_2008.py")],
     "runtime oracle: reference correlation and conditional-spectrum laws", PUB_NOTE)
prop("C27", "The Kishida conditional spectrum is multivariate-normal conditioning",
     "For any set of conditioned periods the conditional mean and standard deviation are those of a multivariate normal with the Baker-Jayaram correlations: conditioned ordinates take their targets with zero standard deviation and masked entries of the target are ignored. One conditioned period gives the Baker-Jayaram conditional mean spectrum. Periods that are not increasing are refused with ValueError.",
     ["inputs"], "every increasing period vector, spectrum, mask and target", "One stored example with a fixed mask.", [S + "kishida_2017.py"],
     [dict(name="calc_cond_mean_spectrum_vector", where=S + "kishida_2017.py")],
     "runtime oracle: direct conditioning with independent linear algebra", "Exploration; nearly singular conditioning sets are judged only for the exact laws.")
prop("C28", "Bayless-Abrahamson correlations form the published matrices",
     "For any distinct frequencies the correlation matrix is the published one, symmetric with unit diagonal and entries within one. The covariance is that correlation times the given or published component standard deviations, and is refused when neither is given.",
     ["inputs"], "every set of distinct frequencies, inside or beyond the tabulated range, and every standard deviation or component", "The existing tests do not exercise this model beyond import.",
     [S + "bayless_abrahamson_2018.py"], [dict(name="corr, cov", where=S + "bayless_abrahamson_2018.py")],
     "runtime oracle: reference correlation, matrix-law assertions", PUB_NOTE)
prop("C29", "Stafford correlations form the published matrices",
     "For any frequencies and magnitude the between-event, between-site and within-event correlations, standard deviations, covariance and correlation matrices are the published ones, symmetric, with unit diagonal and entries within one. Any standard deviations given are used, the others are the published ones, and lengths that do not match are refused with ValueError.",
     ["inputs"], "every set of frequencies, magnitude and subset of given standard deviations", "A few stored values at one magnitude without given standard deviations.",
     [S + "stafford_2017.py"], [dict(name="cov, cor and their components", where=S + "stafford_2017.py")],
     "runtime oracle: reference covariance, matrix-law assertions", PUB_NOTE)
prop("C30", "HKR14 reports the nearest tabulated record",
     "HermkesKuehnRiggelsen2014 reports, for any scenario, the record of the tabulated event nearest in its seven input coordinates: exponentials of the tabulated means for PGV, PGA and the five spectral accelerations, and roots of the tabulated variances.",
     ["inputs"], "every set of tabulated events and every scenario with a unique nearest event", "Four stored events, skipped where the data file is absent (as in this repository).",
     [S + "hermkes_kuehn_riggelsen_2014.py"], [dict(name="lazily loaded nearest-neighbour table", where=S + "hermkes_kuehn_riggelsen_2014.py")],
     "runtime oracle: brute-force nearest record over generated tables", "Exploration on generated tables in the published layout, since the published file is not available offline.")
prop("C31", "Stand-alone estimators and site terms are the published relations",
     "The public estimators of basin depth, rupture width, depths and PGV period, and the public site amplification terms, give the published values for every argument and region, independently of any model instance.",
     ["inputs"], "every function, region and argument value", "Called only indirectly at a few scenarios.",
     [S + m + ".py" for m in (ALLM[0], ALLM[1], ALLM[2], ALLM[3], ALLM[14], ALLM[17], "abrahamson_bhasin_2020")],
     [dict(name="calc_* static methods", where=S)], "runtime oracle: reference relations", PUB_NOTE)
prop("C32", "Predictions are continuous except at the published steps",
     "A very small change of one numeric input, everything else fixed, changes every prediction only slightly, except across the few steps the publications contain (and selections of discrete tables); where published pieces are meant to meet, their difference is the rounding of their coefficients.",
     ["inputs"], "every model, numeric input, location (in particular every threshold) and scenario with possible geometry", "Tests sample isolated points and cannot see jumps at thresholds.",
     FILES, [dict(name="piecewise terms of each model", where=S)],
     "runtime metamorphic monitor: paired evaluations across thresholds", "Exploration; the published steps exempted are listed in pgmon/checks/domain.py.")
prop("C33", "Results are the same in every process and environment",
     "The same evaluation gives bit for bit the same values, reports and refusals in every fresh interpreter on this machine, whatever the hash seed, import order, evaluation order, optimisation level, locale, working directory or environment, and when a model is the only one imported. A model pickled in one process reports its values in another.",
     ["configurations", "histories"], "every process configuration of these kinds and every evaluation", "The suite runs in one process in one order.",
     [S + "__init__.py", M] + FILES, [dict(name="data files read at import, no dependence on process state", where=S)],
     "runtime monitor: digests from fresh differently configured interpreters", "Exploration of process configurations on one machine, including environment variables the package was seen to read.")

prop("C34", "Models defined on the base classes get the same guarantees",
     "A model class defined on the package's base classes, with any declared inputs, limits, defaults, options, periods, positions and scales of the peak motions, refuses scenarios without its required inputs, records defaults, reports exactly the inputs outside its limits or options, and its accessors and interpolation give the exponentials of the responses it computed, with NotImplementedError for what it does not define. Coefficients is a read-only mapping whose entries read as items and attributes and that can be copied and pickled.",
     ["inputs", "configurations"], "every model class that can be declared on the base classes and every scenario for it",
     "Tests use the models of the package, which declare few of the combinations.", [M],
     [dict(name="Parameter.check, Model, GroundMotionModel accessors, Coefficients", where=M)],
     "runtime assertions on generated model classes judged by their declarations", "Exploration of generated classes; defaults outside the declared limits and optional categorical inputs without default are not judged.",
     ["GroundMotionModel subclasses, Model.scenario, warnings"])
prop("C35", "Evaluations leave nothing behind in memory",
     "A model, its scenario and the arrays it holds are freed once the caller drops them (at once or by the collector of cycles), and evaluating models and functions for ever new inputs, also outside the limits or refused, does not make memory, open files or threads of the process grow with the number of evaluations (bounded caches and Python's own register of the warnings it has shown aside).",
     ["histories"], "every long series of evaluations", "Tests evaluate each model a few hundred times and never look at memory.",
     [M] + FILES, [dict(name="no module or class state keeps instances or inputs", where=S)],
     "runtime monitor: weak references, tracemalloc growth over phases, open files and threads", "Exploration; growth is judged over up to some ten thousand evaluations per model, so a cache with a larger bound counts as growth. Memory Python's own warning registry keeps per shown text is outside.")

prop("C36", "Valid inputs cause no floating-point fault or interpreter complaint",
     "For inputs inside the recommended limits of a possible source, evaluating a model divides by no zero, overflows nowhere and takes no logarithm, root or power that has no value, and uses nothing deprecated: with numpy told to raise such faults and warnings turned into errors (those on the inputs aside) it gives the same values. So do the stand-alone functions inside their domain. Importing the package in development mode with warnings as errors reports nothing, in particular no file left open.",
     ["inputs", "configurations"], "every model and scenario inside its limits, every stand-alone function and arguments inside its domain, every order of importing the modules",
     "Tests run with faults silenced or shown as warnings nobody reads; results of masked faults look right until numpy is configured otherwise.",
     FILES + [M], [dict(name="array expressions of each model", where=S), dict(name="data files read at import", where=S)],
     "runtime sanitizers: numpy floating-point traps, warnings as errors, interpreter development mode; bitwise comparison", "Exploration; underflow to zero is not a fault. The published transformation of PR23 has no real value for some minus-sigma durations, where it reports not-a-number.")

prop("C37", "Evaluations can be stopped or nested at any point",
     "An evaluation stopped from outside at any point (KeyboardInterrupt, a timeout, out of memory), also during first use or import, leaves no trace: the same and other evaluations report afterwards bit for bit the values of an undisturbed process, models being read keep theirs, the caller's scenario and arrays and process-wide settings are as before. An evaluation run in the middle of another one in the same thread (by a signal handler, a warning hook, a finalizer) returns, and both report their usual values.",
     ["crash points", "schedules", "inputs"], "every point of every evaluation, every kind of interruption, every evaluation run in the middle",
     "Tests run evaluations to their end, one after the other; state that is put back or completed later only shows when something arrives in between.",
     FILES + [M], [dict(name="construction, accessors, scenario copies", where=S + "model.py"), dict(name="class and module level data", where=S)],
     "fault injection at executed lines (sys.monitoring), nested evaluation, state snapshots; bitwise comparison with undisturbed processes", "Exploration; points are lines of the package, except the heads and clean-up of with and try statements, where Python itself can lose an exception.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(dict(
            id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
PY = "/opt/venv/bin/python"
json.dump(dict(
    version=1,
    setup_cmd=PY + " -c \"import sys; sys.path.insert(0, '.'); from pgmon import core; core.setup_repo(); import pgmon.ref_nga, pgmon.ref_other\"",
    checks=[dict(property=p["pid"], quick_cmd="%s run.py %s" % (PY, p["pid"]), thorough_cmd="%s run.py %s --tier thorough" % (PY, p["pid"]),
                 technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="Pure-Python package: no hooks in /repo are needed; the monitors attach from outside (public results, audit hooks, sys.monitoring, subprocesses).",
), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

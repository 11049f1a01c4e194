"""writes properties.jsonl and MANIFEST.json (single source of the property texts)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP, WV, TI, ZS, DI = ("deltares_wave_toolbox/cores/core_spectral.py", "deltares_wave_toolbox/cores/core_wavefunctions.py",
                      "deltares_wave_toolbox/cores/core_time.py", "deltares_wave_toolbox/cores/core_wave_decomposition.py",
                      "deltares_wave_toolbox/cores/core_dispersion.py")
EN, SE, SC = "deltares_wave_toolbox/cores/core_engine.py", "deltares_wave_toolbox/series.py", "deltares_wave_toolbox/spectrum.py"


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}}


PROPS = [
    P("C01", "Zero crossings are exactly the sign changes in the requested direction",
      "For every time series, the down-crossings (up-crossings) reported are exactly those places where a sample is at or above (below) zero and the next one is strictly below (above) it, one per place, in order of time. "
      "Each reported time is the zero of the straight line between those two samples, whatever the length, offset or step of the time axis, and a signal that only touches zero without changing sign is not counted as crossing it. "
      "The reported count equals the number of reported times, and a direction other than up or down is rejected.",
      ["inputs", "configurations"], "every signal (exact zeros, plateaus at zero, one-sided and constant signals, extreme scales), every increasing axis, both directions",
      "The tests use a handful of sinusoids; the treatment of exact zeros and plateaus is a case analysis over all sign patterns.",
      [TI, SE], [("determine_zero_crossing", TI)], ["determine_zero_crossing", "Series.get_crossing"]),
    P("C02", "Individual waves partition the record between crossings",
      "Consecutive crossing times delimit the waves: there is exactly one wave per pair of consecutive crossings, and none for fewer than two crossings. "
      "Each wave's period is the difference of its two crossing times, its crest and trough are the largest and smallest sample among the samples between them (ends included), and its height is crest minus trough.",
      ["inputs"], "every signal and every increasing list of crossing times with at least one sample in each wave, including crossings exactly on samples",
      "Tests compare a few wave tables; whether every wave gets exactly its own samples depends on where crossings fall relative to the samples.",
      [TI], [("determine_params_individual_waves", TI)], ["determine_params_individual_waves"]),
    P("C03", "A Series carries the individual waves of its own signal",
      "On creation a Series holds the given time and signal as vectors, its step and length, and the heights, periods and crossings of its own waves between zero down-crossings. "
      "Analysing it again with another crossing direction, a low-frequency cut-off or a minimum wave height gives exactly the waves of that setting for the original signal, independent of earlier analyses, sorting or queries: with a cut-off the crossings are those of the signal with the components below it removed, while heights stay those of the signal itself; with a minimum height only the waves at least that high remain, each with its own period and crossing.",
      ["inputs", "histories", "configurations"], "every signal, and every sequence of analyses, sorts and queries on one or several Series",
      "Tests create a Series once and read it; interaction of repeated analysis with sorting, filtering and thresholds is a property of histories.",
      [SE, TI, SP], [("_determine_individual_waves", SE), ("Series.__init__", SE)], ["Series attributes hwave, twave, tCross, nwave, time, xTime, dt, nt"],
      [("hwave, twave", "heights and periods of the individual waves, paired", SE)]),
    P("C04", "Ranking keeps every wave and its period, in any history",
      "Sorting orders the waves from highest to lowest and permutes heights and periods together, so that the table remains the same collection of (height, period) pairs; equal heights keep their order. "
      "Queries (significant, highest-fraction, exceedance, Rayleigh, root-mean-square, maximum, plots) give the same answer whatever was asked before and whether or not the table was sorted, and never add, lose or re-pair waves; tables that share input arrays do not affect each other.",
      ["histories", "inputs"], "every wave table (ties, one wave, no waves) and every sequence of requests on one or more objects",
      "Tests call each query on a fresh object; order independence ranges over all request sequences.",
      [SE, TI], [("sort_wave_params", TI), ("WaveHeights.sort", SE)], ["WaveHeights/Series.sort and attributes hwave, twave", "sort_wave_params"],
      [("hwave, twave", "the wave table; may be unsorted or sorted", SE)]),
    P("C05", "Wave statistics equal their definitions for any number of waves",
      "The mean of the highest fraction p of the waves is taken over the floor(p*N) highest waves (all of them for p=1) with the mean of the same waves' periods, and the significant height is that for one third; the wave height exceeded by q percent of the waves is the floor(q*N/100)-th highest; root-mean-square and maximum follow their definitions and the 2% Rayleigh height is the significant one times sqrt(-ln(0.02)/2). "
      "When the selection contains no waves these answers are zero, and for a table with waves fractions outside [0,1] or percentages outside [0,100] are rejected.",
      ["inputs"], "every wave table including 0, 1, 2 waves and ties, every fraction and percentage including the end points and multiples of 1/N",
      "The rank arithmetic only shows its errors for specific combinations of N and fraction; tests use one record.",
      [TI, SE], [("highest_waves_params", TI), ("exceedance_wave_height", TI)], ["WaveHeights.get_Hs, highest_waves, get_exceedance_waveheight, get_H2p_Rayleigh, get_Hrms, get_Hmax"]),
    P("C06", "Fourier coefficients, frequencies and their inverse agree",
      "For every uniformly sampled series of N samples the transform returns the N (or floor(N/2)+1 one-sided) Fourier sums of the samples and the frequencies k/(N dt), and says whether N is odd. "
      "Unfolding a one-sided spectrum gives the conjugate-symmetric full spectrum of the right odd or even length, the inverse transform gives the samples defined by the inverse Fourier sum, and transforming forth and back (directly or via the one-sided form) returns the original samples.",
      ["inputs"], "every length (odd, even, 2 up to thousands), axis start and step, and signal",
      "Odd/even and Nyquist handling differ per length; tests sample few lengths.",
      [SP], [("time2freq, time2freq_nyquist, unfold_spectrum, freq2time", SP)], ["time2freq", "time2freq_nyquist", "unfold_spectrum", "freq2time", "Series.get_fourier_comp"]),
    P("C07", "The variance density spectrum conserves the signal's energy",
      "For every series the one-sided variance density is 2|X_k|^2/(N^2 df) at each frequency (band averages thereof if a coarser resolution is asked), so that it is nonnegative and the density times the frequency step sums to the variance of the signal counted by those components, for odd and even lengths and every resolution. "
      "The same holds for a spectrum computed from given one-sided Fourier coefficients with a given number of samples.",
      ["inputs", "configurations"], "every signal, length and requested frequency resolution (none, finer, equal, coarser, non-divisible, coarser than the whole axis)",
      "Energy conservation is a statement for all lengths and resolutions; tests check single records against stored values.",
      [SP, SE], [("compute_spectrum_time_series, compute_spectrum_freq_series", SP)], ["compute_spectrum_time_series", "compute_spectrum_freq_series", "Series.get_spectrum_raw"]),
    P("C08", "Band averaging replaces whole blocks of q bins by their mean",
      "Averaging to a desired resolution uses blocks of q = round(desired/current) (at least 1) consecutive bins from the first bin on; every output value and frequency is the mean of exactly one block, in order, and bins that do not fill a last block are dropped. "
      "No, zero or a finer resolution leaves the data unchanged; real, integer and complex values are all averaged without truncation.",
      ["inputs", "configurations"], "every spectrum (real, integer, complex), length and desired resolution", "Block boundaries depend on length modulo q; tests use one or two cases.",
      [SP], [("frequency_averaging", SP)], ["frequency_averaging"]),
    P("C09", "The band filter keeps exactly the components within the limits",
      "Filtering a series between two frequencies returns on the same time axis the sum of exactly those Fourier components whose frequency is at least the low limit and below the high one, unaltered in amplitude and phase (a high limit at or beyond the last frequency takes the last component along, a low one leaves nothing); the mean (zero-frequency component) is always removed, also when the limits include zero. "
      "Every component other than the mean is therefore in exactly one of two complementary bands, whose outputs add up to the signal minus its mean; filtering Fourier coefficients directly zeroes the others and nothing else.",
      ["inputs", "configurations"], "every signal of odd or even length and every pair of limits: on, between, at and beyond the ends of the frequency axis, infinite, reversed",
      "Edge handling of limits that coincide with bins, Nyquist and the end of the axis is not sampled by tests.",
      [SP, SE], [("bandpassfilter, applybandfilter", SP)], ["bandpassfilter", "applybandfilter", "Series.get_bandpassfilter"]),
    P("C10", "A synthesised series realises its spectrum and is reproducible",
      "A series generated from a spectrum starts at the begin time, has the requested step and contains no time beyond the end time; its squared amplitude at each multiple of the frequency step below the Nyquist frequency is twice the interpolated density (zero outside the spectrum) times that step, with random phases and no mean. "
      "A given seed reproduces the series exactly, for every route by which it can be requested and irrespective of earlier use of random numbers; without a seed successive series differ; the spectrum itself is unchanged.",
      ["inputs", "histories"], "every spectrum, time window (fitting or not fitting a whole number of steps), step and seed, and every history of earlier syntheses",
      "Randomised output: tests can only compare single realisations; reproducibility is about histories.",
      [SP, SC], [("spectrum2timeseries", SP), ("Spectrum.create_series", SC)], ["spectrum2timeseries", "Spectrum.create_series"]),
    P("C11", "Spectral moments and mean periods equal their integrals",
      "The moment of order m between two frequencies is the (Simpson) integral of f^m S(f) over the bins nearest to the limits; an upper limit beyond the axis adds the integral of an f^-5 tail from the last frequency, up to infinity if asked, an absent limit means the end of the axis, and negative orders leave out zero frequency. "
      "Hm0 is 4 sqrt(m0), Tm-1,0 = m-1/m0, Tm01 = m0/m1 and Tm02 = sqrt(m0/m2) with the same limits, and a spectrum without energy gives not-a-number for all parameters; integer axes give the same values as real ones.",
      ["inputs", "configurations"], "every spectrum, axis (with and without zero frequency, integer), order and pair of limits given or absent",
      "Limits, orders and tails combine; tests check few combinations at one spectrum.",
      [WV], [("compute_moment, compute_spectrum_params", WV)], ["compute_moment", "compute_spectrum_params"]),
    P("C12", "Peak periods describe the highest part of the spectrum",
      "Tp is the inverse of a frequency of the largest density within the limits. "
      "The smoothed peak period is the vertex of the parabola through the peak and its two neighbours, the middle of two equal adjacent peak bins, and stays at the peak when the peak is at the edge or the parabola has no maximum between its points; negligible energy gives -999. "
      "TpD is m0/m1 over the range of bins reaching 0.64 times the maximum.",
      ["inputs"], "every spectrum: peaks inside, at either edge, double, flat, one or two bins, and every pair of limits",
      "The peak position relative to the edges and ties form a case analysis tests do not enumerate.",
      [WV, SC], [("compute_tps, tpd", WV), ("Spectrum.get_Tp", SC)], ["compute_tps", "tpd", "compute_spectrum_params", "Spectrum.get_Tp, get_Tps"]),
    P("C13", "A Spectrum object gives consistent parameters in any history",
      "Each parameter asked from a Spectrum equals its definition for that spectrum with the limits given in that request (the whole axis by default; for the high- and low-frequency parts the cut-off 0.45/Tm-1,0), whatever was asked before; steepnesses are 2 pi H/(g T^2) of the object's height and period, determined with the limits given in the request, or else the values it holds. "
      "The object shows the latest result of a parameter, requests change no other parameter than those they need, and never the spectrum.",
      ["histories", "inputs", "configurations"], "every sequence of parameter requests with and without limits on one or more Spectrum objects",
      "Cached values and defaults interact over sequences of requests; tests call each once.",
      [SC, WV], [("Spectrum.get_*", SC)], ["Spectrum.get_* and the attributes they leave"], [("Hm0, Tp, Tps, Tmm10, ...", "parameters determined so far", SC)]),
    P("C14", "Parametric spectra have the prescribed shape and wave height",
      "The JONSWAP spectrum at every frequency is proportional to f^-5 exp(-1.25 (fp/f)^4) gamma^exp(-(f/fp-1)^2/(2 sigma^2)) with sigma 0.07 below and 0.09 from the peak on, zero at zero frequency, and its zeroth moment (over the axis, or including the tail if asked) is Hm0^2/16. "
      "Pierson-Moskowitz is the same with gamma 1, and the object-returning variants carry the same axis and density.",
      ["inputs", "configurations"], "every axis, peak frequency on or off the axis, wave height, peakedness and range option",
      "Tests compare one shape; the branches around the peak and normalisation are over all parameters.",
      [WV], [("create_spectrum_jonswap, create_spectrum_piersonmoskowitz", WV)], ["create_spectrum_*"]),
    P("C15", "Wave numbers satisfy the linear dispersion relation",
      "For every angular frequency, water depth and gravity the wave number returned satisfies w^2 = g k tanh(k h) with the sign of the frequency, is zero for zero frequency, equals w|w|/g in infinite depth, and follows the shallow-water relation when that is asked by a negative depth. "
      "Element-wise, for scalars, lists and arrays alike.",
      ["inputs", "configurations"], "frequencies over ten decades of both signs, depths from millimetres to infinite, any gravity",
      "Convergence of the approximation must hold over the whole range; tests take a few points.",
      [DI], [("disper", DI)], ["disper"]),
    P("C16", "Incident and reflected waves reproduce and separate the measurements",
      "The incident and reflected series returned by the linear gauge-array decomposition are the weighted least-squares solution at every frequency (with the dispersion relation and gauge distances), without the mean, and zero where the gauges cannot separate the two directions. "
      "A record composed of incident and reflected linear waves is returned as exactly those two series at the first gauge; the route through Series objects gives the same.",
      ["inputs", "configurations"], "every number of gauges from two, spacing, weights, depth, record length and separation limit",
      "Tests use one synthetic set-up; conditions near singular spacing, odd lengths and weights are not covered.",
      [ZS, DI], [("decompose_linear_ZS", ZS)], ["decompose_linear_ZS", "decompose_linear_ZS_series"]),
    P("C17", "Coherence follows from the band-averaged cross-spectrum",
      "The squared coherence per band equals |mean of X1 conj X2|^2 / (mean |X1|^2 mean |X2|^2) over the bins of that band, lies between 0 and 1, and is 1 for linearly dependent signals and for bands of one bin. "
      "Its frequencies are the band means; a constant amplitude and phase factor on a signal does not change it, except that band energies below 1e-10 count as 1e-10.",
      ["inputs", "configurations"], "every pair of one-sided complex spectra and every band width", "Tests look at one signal pair; averaging of complex numbers fails only for particular phases.",
      [SP], [("coherence", SP)], ["coherence"]),
    P("C18", "Invalid input is rejected, equivalent input is treated alike",
      "Arguments that break a documented requirement (vectors, equal lengths, uniform increasing axis, ranked heights, fraction and percentage ranges, crossing direction, gauge count, order and weights) are rejected with an error, and every valid input is accepted, including axes that start far from zero. "
      "The same numbers given as list, integer array of any width, column vector, view of another array or read-only array lead to the same result.",
      ["inputs"], "every function taking axes and values: defects at any place of the axis, any shape, any length mismatch, and every equivalent form",
      "A check is only as good as the position and kind of the defect a test picks.",
      [EN, SP, WV, TI, SE, SC, ZS], [("core_engine checks", EN)], ["all public functions"]),
    P("C19", "Requests leave their inputs alone and are repeatable",
      "No request modifies its arguments, results returned earlier, the global random state (except a seeded or random synthesis, which draws from it) or other settings of the process (NumPy error handling and print options, warning filters, matplotlib settings, open figures, environment), and requests on one object do not alter another. "
      "The same request with the same arguments gives the same result, whatever was computed in between.",
      ["histories", "inputs"], "every public function, and every sequence of requests",
      "Aliasing shows up only in what happens to other data later; tests look at one return value.",
      [SP, WV, TI, ZS, SE, SC], [("copies in the functions", SP)], ["all public functions; arguments and earlier results before and after"]),
    P("C20", "Segment-averaged spectra are the average of windowed segment spectra",
      "The segment-averaged (Welch) spectrum equals the average of the density-scaled periodograms of the detrended, windowed segments of the requested length, overlap and padding, with frequencies k/(L dt). "
      "With a desired resolution a Series uses segments of round(1/(dt*resolution)) samples, at most the whole series, half overlapping; results are nonnegative.",
      ["inputs", "configurations"], "every series (also shorter than one segment), segment length, overlap, padding and window",
      "Tests compare one case against stored numbers; parameters interact with series length.",
      [SP, SE], [("compute_spectrum_welch_wrapper", SP), ("Series.get_spectrum", SE)], ["compute_spectrum_welch_wrapper", "Series.get_spectrum"]),
    P("C21", "The shallow-water wave height distribution is self-consistent",
      "The composite (Battjes-Groenendijk) distribution passes through probability one at zero height, the transition height (0.35 + 5.8/cot slope) times depth, and 1/N, where its root-mean-square height equals the one from Hm0 and depth and both parts meet at the transition. "
      "The height with probability 1/N is that of the part it falls in, at most the Rayleigh value, and beyond the Rayleigh limit no distribution is returned.",
      ["inputs", "configurations"], "every wave height, number of waves, depth, slope and tolerance across both regimes",
      "An iterative solution: tests check few points of the parameter space.",
      [WV], [("compute_BattjesGroenendijk_wave_height_distribution", WV)], ["compute_BattjesGroenendijk_wave_height_distribution"]),
    P("C22", "Signal statistics equal their definitions",
      "The maximum, minimum, mean and variance of a Series are those of its samples; skewness is the third central moment over the 3/2 power of the variance, and asymmetry the same with the Hilbert transform of the centred signal. "
      "They do not depend on the time axis or on earlier requests.",
      ["inputs", "histories"], "every signal of odd and even length", "Tests evaluate one signal; the Hilbert transform depends on the parity of the length.",
      [SE, TI], [("Series.get_skewness, get_asymmetry, max, min, mean, var", SE)], ["Series statistics"]),
    P("C23", "Plots show the data they are made of",
      "A plot of a series, its crossings, a spectrum, a wave height histogram or exceedance curve draws exactly the object's data: the samples, the crossings of that series, the density with the periods determined so far, the i-th highest wave at exceedance i/N. "
      "On Rayleigh paper positions are the transformed probabilities and theory lines match their definitions; every plot is a figure of its own, saved when a path is given, shows the extent of the frequency axis and the texts asked for (or all of the data), and plotting changes nothing else.",
      ["inputs", "histories"], "every object and every history of requests before plotting", "Tests do not look at what is drawn.",
      [SE, SC], [("plot methods", SE)], ["artists of the returned figures"]),
    P("C24", "Objects returned by requests are complete and stay their own",
      "A Series or Spectrum returned by a request (band filter, spectra of a series, synthesis, parametric spectrum, decomposition) is one newly created from the numbers returned: it carries its own axis, step, length, waves and crossings, holds no parameter yet, and answers every further request from its own data. "
      "A chain of such requests may be of any length and order; a request on one object changes no other object, neither the one it was made from nor one made from it, also when they were given the same arrays.",
      ["histories", "inputs"], "every chain of requests over objects made by the user and objects returned by earlier requests",
      "Tests look at one object at a time, mostly at one array of it; what matters is what a later request finds in an object that another one returned.",
      [SE, SC, SP, WV, ZS], [("Series.get_bandpassfilter, get_spectrum, get_spectrum_raw", SE), ("Spectrum.create_series", SC), ("spectrum2timeseries_object", SP), ("create_spectrum_object_*", WV), ("decompose_linear_ZS_series", ZS)],
      ["attributes of every object after every request", "answers of returned objects"],
      [("heap of objects", "kind, data, waves or parameters of every Series, Spectrum and WaveHeights the user holds", SE)]),
    P("C25", "Counts, kinds and descriptions agree with the data held",
      "The number of samples, waves or frequencies that an object shows and prints, and the time step it shows, are at any time those of the data it holds, whatever was asked of it before (analysing again, ranking, parameters, plots, rejected requests). "
      "Its texts name its class and count; a spectrum is called 2D exactly if it was given directional data, which it keeps unchanged and which change no parameter of it.",
      ["histories", "inputs"], "every history of requests on every Series, WaveHeights and Spectrum, with and without directional data, also without any wave",
      "Tests look at the texts of a fresh object; what matters is what they say after the waves or the requests have changed.",
      [SE, SC], [("WaveHeights, Series: nwave, nt, dt, __str__, __repr__", SE), ("Spectrum: nf, spec, D, __str__, __repr__", SC)],
      ["attributes and texts of every object after every request"],
      [("heap of objects", "data, waves, directional data of every object the user holds", SE)]),
    P("C26", "Warnings tell when a result rests on a default or leaves its validity",
      "Each time a high- or low-frequency parameter (or a steepness made of them) is determined with the cut-off 0.45/Tm-1,0 because no limit was given, the user gets a warning; likewise when the foreshore slope of the shallow-water distribution lies outside 1:20 to 1:250, and when the waves follow the Rayleigh distribution, so that none is returned. "
      "The warning comes every time, also for an object or question asked before; requests with given limits and all other computations warn of nothing.",
      ["inputs", "histories"], "every slope, depth and wave height; every history of requests with and without limits on a spectrum",
      "Tests accept or ignore warnings; that one comes whenever, and only when, it should concerns every history of limits and every slope.",
      [SC, WV], [("Spectrum.get_Hm0_HF, get_Hm0_LF, get_Tmm10_HF, get_Tmm10_LF, get_smm10_HF", SC), ("compute_BattjesGroenendijk_wave_height_distribution", WV)],
      ["warnings given during every request"]),
    P("C27", "Array helpers keep the numbers and recognise vectors, axes and nearest values",
      "A number, list, tuple or array brought into array form holds the same values in the same order and shape; brought into vector form, a column of n values becomes a vector of n, anything else keeps its shape, and the size reported is that of what was given (0 by 0 for nothing). "
      "An array counts as a vector exactly if it has one dimension and values, an axis as uniform exactly if all its steps are positive and equal up to round-off, in every type of number and wherever it starts, and the index found for a value is that of an element no other is closer than, the first of equal elements, also in unsorted arrays.",
      ["inputs"], "every shape, type of number, length and order; every kind of defect of an axis; every value within, between and beyond the elements",
      "All other functions take in their arguments through these; tests use floats in ascending order only.",
      [EN], [("convert_to_array_type, convert_to_vector, is1darray", EN), ("monotonic_increasing_constant_step", EN), ("approx_array_index", EN)],
      ["core_engine.convert_to_array_type, convert_to_vector, is1darray, monotonic_increasing_constant_step, approx_array_index"]),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"python3 harness/check.py {p['id']} --tier quick",
               "thorough_cmd": f"python3 harness/check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
               "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in PROPS]
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [], "notes": "No hooks in /repo: the public interface shows the abstract state. Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. fix: commits are listed in known_findings.json."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


TECH = "TLA+ specification checked with TLC; recorded and model-generated histories of the real code validated against it as traces"
NOTE = ("Every recorded request is decided by TLC evaluating the specification's definition (exact decimal arithmetic, stated tolerances) and the object state after it; "
        "exhaustive small models are explored and replayed where DESIGN.md says so. Beyond the explored inputs and histories nothing is claimed; TLC, the recorder and the tolerances are trusted.")

if __name__ == "__main__":
    main()

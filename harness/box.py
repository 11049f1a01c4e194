"""Requests to the real toolbox, recorded as events of a Session (obs.py).

A Box is one history: it owns the objects it creates; each method makes one request and records arguments,
outcome and the visible state afterwards.  Stop is raised when an object cannot be used any further.
"""
import os
import pickle
import re
import shutil
import tempfile
import warnings

import numpy as np

import obs
from obs import BadResult, N, Raw, Session, integer, num, vec

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

import deltares_wave_toolbox as dwt  # noqa: E402
import deltares_wave_toolbox.cores.core_dispersion as cd  # noqa: E402
import deltares_wave_toolbox.cores.core_engine as ce  # noqa: E402
import deltares_wave_toolbox.cores.core_spectral as cs  # noqa: E402
import deltares_wave_toolbox.cores.core_time as ct  # noqa: E402
import deltares_wave_toolbox.cores.core_wave_decomposition as cz  # noqa: E402
import deltares_wave_toolbox.cores.core_wavefunctions as cw  # noqa: E402

SMALL = 150
ABSENT = Raw([6])
ATTRS = ["Hm0", "Hm0_HF", "Hm0_LF", "Tp", "Tps", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10",
         "smm10_HF"]


class Stop(Exception):
    pass


def bins(rng, n, count=14):
    """bins to look at when there are more than SMALL: both ends and a random sample"""
    if n <= SMALL:
        return Raw([])
    pick = set(int(k) for k in rng.integers(0, n, count)) | {0, 1, 2, n - 2, n - 1}
    return Raw(sorted(pick))


def picture(path):
    """the file holds a picture, and nothing of what it held before"""
    if not os.path.isfile(path):
        return False
    with open(path, "rb") as fh:
        data = fh.read()
    return len(data) > 0 and b"older" * 3 not in data


def whole_array(x):
    """an array of any shape, or BadResult"""
    if not isinstance(x, np.ndarray):
        raise BadResult(f"expected an array, got {type(x).__name__}")
    return x


def yes_no(x):
    if not isinstance(x, (bool, np.bool_)):
        raise BadResult(f"expected True or False, got {x!r}")
    return bool(x)


HELD = ("time", "xTime", "hwave", "twave", "tCross", "f", "sVarDens", "D")


class Box:
    def __init__(self, sid, rng, note=""):
        self.s = Session(sid, note)
        self.rng = rng
        self.o = {}  # id -> object
        self.asked = 0
        self.s.mine = lambda: [v for x in self.o.values() for k in (*HELD, *ATTRS) for v in [getattr(x, k, None)] if isinstance(v, np.ndarray)]
        np.random.seed(int(rng.integers(0, 2**31 - 1)))

    def opt(self, *pairs):
        """the trailing arguments (value, documented default); every other time those at their default are left out"""
        self.asked += 1
        vals = list(pairs)
        if (self.asked * 7 + self.s.sid) % 2:
            while vals and vals[-1][0] == vals[-1][1]:
                vals.pop()
        return tuple(v for v, _ in vals)

    def sc(self, v):
        """the same number as Python or NumPy has it, a whole one also as an integer"""
        if v is None or isinstance(v, (bool, str)):
            return v
        self.asked += 1
        k = (self.asked * 5 + self.s.sid) % 8
        if isinstance(v, (int, np.integer)):
            return np.int64(v) if k < 2 else np.int32(v) if k == 2 and abs(v) < 2**31 else int(v)
        if v == np.round(v) and abs(v) < 2**31 and k < 3:  # not infinite
            return np.int64(v) if k == 0 else int(v)
        return np.float64(v) if k < 5 else float(v)

    # ------------------------------------------------------------ objects
    def _new(self, op, args, make, post):
        keep = {}

        def fn():
            keep["x"] = make()
            return keep["x"]

        ok, val = self.s.call(op, args, fn, lambda v: {}, 0, lambda: post(keep["x"]))
        if not ok:
            raise Stop
        i = self.s.obj()
        self.o[i] = val
        return i

    @staticmethod
    def series_state(x):
        return {"t": x.time, "x": x.xTime, "nt": integer(x.nt), "dt": N(num(x.dt)), "n": integer(x.nwave),
                "h": vec(x.hwave), "T": vec(x.twave), "tc": vec(x.tCross)}

    @staticmethod
    def waves_state(x):
        return {"n": integer(x.nwave), "h": vec(x.hwave), "T": vec(x.twave)}

    @staticmethod
    def spec_state(x):
        at = {}
        for a in ATTRS:
            at[a] = N(num(getattr(x, a))) if hasattr(x, a) else ABSENT
        return {"f": x.f, "S": x.sVarDens, "nf": integer(x.nf), "at": at}

    def series(self, t, x, make=None):
        return self._new("series.new", {"t": t, "x": x}, make or (lambda: dwt.Series(t, x)), self.series_state)

    def waves(self, h, T):
        return self._new("waves.new", {"h": h, "T": T}, lambda: dwt.WaveHeights(h, T), self.waves_state)

    def spectrum(self, f, S, make=None, D=None):
        """D: variance density in frequency and direction"""
        args = {"f": f, "S": S, "D": np.zeros(0) if D is None else np.ravel(D)}
        a = () if D is None else (D,)
        return self._new("spec.new", args, make or (lambda: dwt.Spectrum(f, S, *a)), self.spec_state)

    def adopt(self, val):
        """an object that a request returned: from now on one of ours"""
        if isinstance(val, dwt.Series):
            return self._new("series.adopt", {"t": val.time, "x": val.xTime}, lambda: val, self.series_state)
        return self._new("spec.adopt", {"f": val.f, "S": val.sVarDens, "D": np.zeros(0)}, lambda: val, self.spec_state)

    def look(self, i):
        """nothing is asked: the state is looked at (a rejected request may have left it in any state)"""
        if any(e["o"] == i and not e["ok"] and e["op"] != "spec.get" for e in self.s.ev):
            return
        x = self.o[i]
        what = "series" if isinstance(x, dwt.Series) else "spectrum" if isinstance(x, dwt.Spectrum) else "waves"
        self.s.call("look", {"what": what}, lambda: x, lambda v: {}, i, self._post(i))

    def describe(self, i):
        """what the object says of itself: the whole numbers and the kind (1D, 2D) in its two texts"""
        x = self.o[i]

        def said(text):
            return {"n": Raw([int(k) for k in re.findall(r"(?<![\w.])\d+(?![\w.])", text)]),
                    "kind": "".join(re.findall(r"\b[12]D\b", text)), "cls": type(x).__name__ in text}

        def res(v):
            one, two = said(v[0]), said(v[1])
            D = np.ravel(x.D) if isinstance(x, dwt.Spectrum) else np.zeros(0)
            return {"sn": one["n"], "skind": one["kind"], "rn": two["n"], "rkind": two["kind"], "named": two["cls"], "D": D,
                    "spec": str(x.spec) if isinstance(x, dwt.Spectrum) else ""}

        self.on(i, "describe", {}, lambda: (str(x), repr(x)), res)

    def _post(self, i):
        x = self.o[i]
        if isinstance(x, dwt.Series):
            return lambda: self.series_state(x)
        if isinstance(x, dwt.Spectrum):
            return lambda: self.spec_state(x)
        return lambda: self.waves_state(x)

    def on(self, i, op, args, fn, res, must=False):
        ok, val = self.s.call(op, args, fn, res, i, self._post(i), op == "spec.get")
        if must and not ok:
            raise Stop
        return ok, val

    # ------------------------------------------------------- waves: C01-C05
    def cross(self, t, x, word="down"):
        a = self.opt((word, "down"))
        return self.s.call("cross.core", {"t": t, "x": x, "dir": word}, lambda: ct.determine_zero_crossing(t, x, *a),
                           lambda v: {"n": integer(v[0]), "tc": vec(v[1])})

    def cross_of(self, i, word="down"):
        a = self.opt((word, "down"))
        return self.on(i, "cross.series", {"dir": word}, lambda: self.o[i].get_crossing(*a),
                       lambda v: {"n": integer(v[0]), "tc": vec(v[1])})

    @staticmethod
    def _waves_res(v):
        return {"h": vec(v[0]), "T": vec(v[1]), "ac": vec(v[2]), "at": vec(v[3]), "tcr": vec(v[4]), "ttr": vec(v[5])}

    def individual(self, tc, t, x):
        return self.s.call("waves.core", {"tc": tc, "t": t, "x": x},
                           lambda: ct.determine_params_individual_waves(tc, t, x), self._waves_res)

    def reanalyse(self, i, word, fcut, minw):
        fn = getattr(self.o[i], "_determine_individual_waves", None)
        if fn is None:
            return False, None
        fc, mw = self.sc(fcut), self.sc(minw)
        return self.on(i, "series.reanalyse", {"dir": word, "fcut": N(fcut), "minw": N(minw)},
                       lambda: fn(word, fc, mw), lambda v: dict(self._waves_res(v), tcf=vec(v[6])), must=True)

    def query(self, i, q, p=None):
        x = self.o[i]
        two = lambda v: {"h": N(num(v[0])), "T": N(num(v[1]))}  # noqa: E731
        one = lambda v: {"h": N(num(v))}  # noqa: E731
        ps = self.sc(p)
        if q == "sort":
            return self.on(i, "q.sort", {}, x.sort, lambda v: {})
        if q == "Hs":
            return self.on(i, "q.Hs", {"frac": N(0)}, x.get_Hs, two)
        if q == "highest":
            return self.on(i, "q.highest", {"frac": N(p)}, lambda: x.highest_waves(ps), two)
        if q == "exc":
            return self.on(i, "q.exc", {"perc": N(p)}, lambda: x.get_exceedance_waveheight(ps), one)
        if q == "H2p":
            return self.on(i, "q.H2p", {}, x.get_H2p_Rayleigh, one)
        if q == "Hrms":
            return self.on(i, "q.Hrms", {}, x.get_Hrms, one)
        if q == "Hmax":
            return self.on(i, "q.Hmax", {}, x.get_Hmax, one)
        raise KeyError(q)

    def core_sort(self, h, T):
        return self.s.call("core.sort", {"h": h, "T": T}, lambda: ct.sort_wave_params(h, T),
                           lambda v: {"h": vec(v[0]), "T": vec(v[1])})

    def core_highest(self, h, T, p):
        ps = self.sc(p)
        return self.s.call("core.highest", {"h": h, "T": T, "frac": N(p)}, lambda: ct.highest_waves_params(h, T, ps),
                           lambda v: {"h": N(num(v[0])), "T": N(num(v[1]))})

    def core_exc(self, h, p):
        ps = self.sc(p)
        return self.s.call("core.exc", {"h": h, "perc": N(p)}, lambda: ct.exceedance_wave_height(h, ps),
                           lambda v: {"h": N(num(v))})

    # ----------------------------------------------- Fourier domain: C06-C10
    def fft_full(self, t, x):
        n = np.size(x)
        return self.s.call("fft.full", {"t": t, "x": x, "bins": bins(self.rng, n)}, lambda: cs.time2freq(t, x),
                           lambda v: {"f": vec(v[0]), "X": vec(v[1], True)})

    @staticmethod
    def _half(v):
        return {"f": vec(v[0]), "X": vec(v[1], True), "odd": bool(v[2])}

    def fft_half(self, t, x):
        n = np.size(x) // 2 + 1
        return self.s.call("fft.half", {"t": t, "x": x, "bins": bins(self.rng, n)}, lambda: cs.time2freq_nyquist(t, x),
                           self._half)

    def fft_of(self, i):
        n = len(self.o[i].xTime) // 2 + 1
        return self.on(i, "series.fft", {"bins": bins(self.rng, n)}, lambda: self.o[i].get_fourier_comp(), self._half)

    def unfold(self, f, X, odd):
        return self.s.call("fft.unfold", {"f": f, "X": X, "odd": bool(odd)}, lambda: cs.unfold_spectrum(f, X, odd),
                           lambda v: {"f": vec(v[0]), "X": vec(v[1], True)})

    def inverse(self, X):
        return self.s.call("fft.inv", {"X": X, "bins": bins(self.rng, np.size(X))}, lambda: cs.freq2time(X),
                           lambda v: {"x": vec(v)})

    def roundtrip(self, t, x, half):
        def fn():
            if half:
                f, X, odd = cs.time2freq_nyquist(t, x)
                _, X = cs.unfold_spectrum(f, X, odd)
            else:
                _, X = cs.time2freq(t, x)
            return cs.freq2time(X)

        return self.s.call("fft.round", {"x": x}, fn, lambda v: {"x": vec(v)})

    @staticmethod
    def _fS(v):
        return {"f": vec(v[0]), "S": vec(v[1])}

    def density(self, t, x, want=None):
        n = np.size(x) // 2 + 1
        a = () if want is None else (self.sc(want),)
        return self.s.call("dens.core", {"t": t, "x": x, "want": N(want or 0.0), "least": 1, "bins": bins(self.rng, n)},
                           lambda: cs.compute_spectrum_time_series(t, x, *a), self._fS)

    def density_of(self, i, want=None):
        n = len(self.o[i].xTime) // 2 + 1
        a = () if want is None else (self.sc(want),)
        return self.on(i, "series.raw", {"want": N(0.01 if want is None else want), "least": 2, "bins": bins(self.rng, n)},
                       lambda: self.o[i].get_spectrum_raw(*a), lambda v: {"f": vec(v.f), "S": vec(v.sVarDens)})

    def density_freq(self, f, X, n, want=None):
        a = () if want is None else (self.sc(want),)
        ns = self.sc(int(n))
        return self.s.call("dens.freq", {"f": f, "X": X, "N": int(n), "want": N(want or 0.0)},
                           lambda: cs.compute_spectrum_freq_series(f, X, ns, *a), self._fS)

    # ------------------------------------------------------------ helpers
    def to_array(self, x):
        single = np.isscalar(x)
        return self.s.call("help.array", {"x": [x] if single else x, "single": single}, lambda: ce.convert_to_array_type(x), lambda v: {"v": whole_array(v)})

    def to_vector(self, x):
        single = np.isscalar(x)
        return self.s.call("help.vector", {"x": [x] if single else x, "single": single}, lambda: ce.convert_to_vector(x),
                           lambda v: {"v": whole_array(v[0]), "size": Raw([integer(k) for k in v[1]])})

    def is_vector(self, x):
        return self.s.call("help.oned", {"x": x}, lambda: ce.is1darray(x), lambda v: {"b": yes_no(v)})

    def is_uniform(self, x):
        return self.s.call("help.uniform", {"x": x}, lambda: ce.monotonic_increasing_constant_step(x), lambda v: {"b": yes_no(v)})

    def nearest(self, x, v):
        vs = self.sc(v)
        return self.s.call("help.nearest", {"x": x, "v": N(v)}, lambda: ce.approx_array_index(x, vs), lambda w: {"i": integer(w)})

    def average(self, f, S, want=None):
        a = () if want is None else (self.sc(want),)
        return self.s.call("avg", {"f": f, "S": S, "want": N(want or 0.0)}, lambda: cs.frequency_averaging(f, S, *a),
                           lambda v: {"f": vec(v[0]), "S": vec(v[1], True)})

    def band(self, t, x, lo, hi):
        n = np.size(x) // 2 + 1
        a = self.sc(lo), self.sc(hi)
        return self.s.call("band.core", {"t": t, "x": x, "lo": N(lo), "hi": N(hi), "bins": bins(self.rng, n)},
                           lambda: cs.bandpassfilter(t, x, *a), lambda v: {"z": vec(v)})

    def band_of(self, i, lo, hi):
        n = len(self.o[i].xTime) // 2 + 1
        a = self.sc(lo), self.sc(hi)
        return self.on(i, "series.band", {"lo": N(lo), "hi": N(hi), "bins": bins(self.rng, n)},
                       lambda: self.o[i].get_bandpassfilter(*a), lambda v: {"t": vec(v.time), "z": vec(v.xTime)})

    def band_parts(self, t, x, fc):
        return self.s.call("band.part", {"x": x},
                           lambda: (cs.bandpassfilter(t, x, 0.0, fc), cs.bandpassfilter(t, x, fc, np.inf)),
                           lambda v: {"z1": vec(v[0]), "z2": vec(v[1])})

    def band_freq(self, f, X, lo, hi):
        a = self.sc(lo), self.sc(hi)
        return self.s.call("band.freq", {"f": f, "X": X, "lo": N(lo), "hi": N(hi)},
                           lambda: cs.applybandfilter(f, X, *a), lambda v: {"Z": vec(v, True)})

    def synth(self, f, S, t0, t1, dt, seed=None, form="core"):
        n = int((t1 - t0) / dt) // 2 + 2
        a = (self.sc(t0), self.sc(t1), self.sc(dt)) + (() if seed is None else (self.sc(seed),))
        args = {"f": f, "S": S, "t0": N(t0), "t1": N(t1), "dt": N(dt), "seed": -1 if seed is None else int(seed),
                "bins": bins(self.rng, n)}
        if form == "core":
            return self.s.call("synth", args, lambda: cs.spectrum2timeseries(f, S, *a),
                               lambda v: {"t": vec(v[0]), "x": vec(v[1])})
        return self.s.call("synth.obj", args, lambda: cs.spectrum2timeseries_object(f, S, *a),
                           lambda v: {"t": vec(v.time), "x": vec(v.xTime)})

    def synth_of(self, i, t0, t1, dt):
        x = self.o[i]
        n = int((t1 - t0) / dt) // 2 + 2
        a = self.sc(t0), self.sc(t1), self.sc(dt)
        args = {"f": x.f, "S": x.sVarDens, "t0": N(t0), "t1": N(t1), "dt": N(dt), "seed": -1, "bins": bins(self.rng, n)}
        return self.on(i, "series.synth", args, lambda: x.create_series(*a),
                       lambda v: {"t": vec(v.time), "x": vec(v.xTime)})

    def user_seed(self, k):
        """the user restarts the random stream"""
        self.s.event("user.seed", {"seed": int(k)}, {})
        np.random.seed(k)

    def user_draw(self):
        self.s.event("user.draw", {}, {})
        np.random.random()

    def coherence(self, f, X1, X2, want=None):
        a = () if want is None else (self.sc(want),)
        return self.s.call("coh", {"f": f, "X1": X1, "X2": X2, "want": N(want or 0.0)},
                           lambda: cs.coherence(f, X1, X2, *a), lambda v: {"f": vec(v[0]), "c": vec(v[1])})

    def welch(self, x, dt, nperseg=0, noverlap=0, nfft=0, window="hann"):
        a = self.opt((self.sc(nperseg), 0), (self.sc(noverlap), 0), (self.sc(nfft), 0), (window, "hann"))
        ds = self.sc(dt)
        args = {"x": x, "dt": N(dt), "nperseg": nperseg, "noverlap": noverlap, "nfft": nfft, "window": window,
                "usedf": False, "want": N(0), "bins": bins(self.rng, max(nfft, nperseg, 256) // 2 + 1)}
        return self.s.call("welch.core", args,
                           lambda: cs.compute_spectrum_welch_wrapper(x, ds, *a), self._fS)

    def welch_of(self, i, want=None, **kw):
        x = self.o[i]
        args = {"nperseg": kw.get("nperseg", 256), "noverlap": kw.get("noverlap", 0), "nfft": kw.get("nfft", 0),
                "window": kw.get("windows_type", "hann"), "usedf": kw.get("use_dfDesired", True),
                "want": N(0.01 if want is None else want),
                "bins": bins(self.rng, max(len(x.xTime), kw.get("nfft", 0)) // 2 + 1)}
        if want is not None:
            kw = dict(kw, dfDesired=want)
        kw = {k: self.sc(v) for k, v in kw.items()}
        return self.on(i, "series.welch", args, lambda: x.get_spectrum(**kw),
                       lambda v: {"f": vec(v.f), "S": vec(v.sVarDens)})

    def stat(self, i, name):
        x = self.o[i]
        fn = {"max": x.max, "min": x.min, "mean": x.mean, "var": x.var, "skewness": x.get_skewness,
              "asymmetry": x.get_asymmetry}[name]
        return self.on(i, "series.stat", {"name": name}, fn, lambda v: {"v": N(num(v))})

    # ------------------------------------------------ spectra: C11-C14, C21
    def moment(self, f, S, m, fmin=-1.0, fmax=-1.0):
        a = (self.sc(float(m) if self.asked % 5 == 0 else int(m)),) + self.opt((self.sc(fmin), -1.0), (self.sc(fmax), -1.0))
        return self.s.call("moment", {"f": f, "S": S, "m": int(m), "fmin": N(fmin), "fmax": N(fmax)},
                           lambda: cw.compute_moment(f, S, *a), lambda v: {"v": N(num(v))})

    def params(self, f, S, fmin=-1.0, fmax=-1.0):
        a = self.opt((self.sc(fmin), -1.0), (self.sc(fmax), -1.0))
        names = ["Hm0", "Tp", "Tps", "Tmm10", "Tm01", "Tm02"]
        return self.s.call("params", {"f": f, "S": S, "fmin": N(fmin), "fmax": N(fmax)},
                           lambda: cw.compute_spectrum_params(f, S, *a),
                           lambda v: {k: N(num(v[i])) for i, k in enumerate(names)})

    def tps(self, f, S):
        return self.s.call("tps", {"f": f, "S": S}, lambda: cw.compute_tps(f, S), lambda v: {"v": N(num(v))})

    def tpd(self, f, S):
        return self.s.call("tpd", {"f": f, "S": S}, lambda: cw.tpd(f, S), lambda v: {"v": N(num(v))})

    def get(self, i, q, fmin=-1.0, fmax=-1.0, g=None):
        x = self.o[i]
        fn = getattr(x, "get_" + q)
        kw = {} if g is None else {"g": self.sc(g)}
        a = self.opt((self.sc(fmin), -1.0), (self.sc(fmax), -1.0))
        return self.on(i, "spec.get", {"q": q, "fmin": N(fmin), "fmax": N(fmax), "g": N(9.81 if g is None else g)},
                       lambda: fn(*a, **kw), lambda v: {"v": N(num(v))})

    def jonswap(self, f, fp, hm0, gamma=None, lfmax=None, pm=False, obj=False):
        name = "create_spectrum_" + ("object_" if obj else "") + ("piersonmoskowitz" if pm else "jonswap")
        fun = getattr(cw, name)
        kw = {}
        if gamma is not None:
            kw["gammaPeak"] = self.sc(gamma)
        if lfmax is not None:
            kw["l_fmax"] = self.sc(float(lfmax) if self.asked % 3 else lfmax)
        ps = self.sc(fp), self.sc(hm0)
        g = gamma if gamma is not None else (1.0 if pm else 3.3)
        code = {None: 0, 0: 0, 1: 1}.get(lfmax, 9)
        args = {"f": f, "fp": N(fp), "hm0": N(hm0), "gamma": N(g), "lfmax": code}
        return self.s.call("jonswap", args, lambda: fun(f, *ps, **kw),
                           lambda v: {"f": vec(v.f), "S": vec(v.sVarDens)} if obj else {"f": vec(np.ravel(f)), "S": vec(v)})

    def bg(self, hm0, n, d, cota=None, tol=None):
        kw = {}
        if cota is not None:
            kw["cota_slope"] = self.sc(cota)
        if tol is not None:
            kw["tolerance"] = tol
        ps = self.sc(hm0), self.sc(int(n)), self.sc(d)
        args = {"hm0": N(hm0), "n": int(n), "d": N(d), "cota": N(250.0 if cota is None else cota),
                "tol": N(1e-5 if tol is None else tol)}
        return self.s.call("bg", args, lambda: cw.compute_BattjesGroenendijk_wave_height_distribution(*ps, **kw),
                           lambda v: {"h": vec(v[0]), "P": vec(v[1])})

    # ---------------------------------------------------- linear waves: C15, C16
    def disper(self, w, h, g=None):
        a = (self.sc(h),) + (() if g is None else (self.sc(g),))
        return self.s.call("disp", {"w": w if isinstance(w, (np.ndarray, list, tuple)) else np.array([w]), "h": N(h),
                                    "g": N(9.81 if g is None else g)},
                           lambda: cd.disper(w, *a), lambda v: {"k": vec(v)})

    def decompose(self, t, X, h, pos, wt, lim=None, form="core"):
        hs = self.sc(h)
        a = () if lim is None else (self.sc(lim),)
        cols = [X[:, g].copy() for g in range(X.shape[1])]
        cols = [c.astype(int) if np.array_equal(c, np.round(c)) and np.max(np.abs(c)) < 1e9 else c for c in cols]
        refs = Raw([self.s.arr(c) for c in cols])
        args = {"t": t, "X": X, "x": refs, "h": N(h), "pos": pos, "wt": wt, "lim": N(0.125 if lim is None else lim),
                "bins": bins(self.rng, len(t) // 2 + 1, 8)}
        if form == "core":
            return self.s.call("zs", args, lambda: cz.decompose_linear_ZS(t, X, hs, pos, wt, *a),
                               lambda v: {"inc": vec(v[0]), "ref": vec(v[1])})
        sers = [dwt.Series(t, c) for c in cols]
        return self.s.call("zs.series", args, lambda: cz.decompose_linear_ZS_series(sers, hs, pos, wt, *a),
                           lambda v: {"t": vec(v[0].time), "inc": vec(v[0].xTime), "ref": vec(v[1].xTime)})

    def recover(self, t, X, h, pos, wt, inc, ref, lim):
        return self.s.call("zs.recover", {"t": t, "X": X, "inc": inc, "ref": ref},
                           lambda: cz.decompose_linear_ZS(t, X, h, pos, wt, lim),
                           lambda v: {"inc": vec(v[0]), "ref": vec(v[1])})

    # ------------------------------------------------------- requests: C18, C19
    def guard(self, name, fn, x, y=None, number=0.0, word=""):
        args = {"fn": name, "x": self_arr(self, x), "y": self_arr(self, y), "num": N(number), "word": word}
        return self.s.call("guard", args, fn, lambda v: {})

    def guard_zs(self, t, X, h, pos, wt):
        args = {"fn": "decompose_linear_ZS", "t": t, "x": X, "pos": pos, "wt": wt}
        return self.s.call("guard.zs", args, lambda: cz.decompose_linear_ZS(t, X, h, pos, wt), lambda v: {})

    def forms(self, name, fa, fb, pick):
        """the same request in two forms; pick(value) -> list of arrays"""
        def run(f):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = f()
                return True, [self.s.arr(np.asarray(a)) for a in pick(v)]
            except Exception:
                return False, []

        okb, b = run(fb)
        oka, a = run(fa)
        self.s.event("forms", {"fn": name}, {"oka": oka, "okb": okb, "a": Raw(a), "b": Raw(b)})

    # every request of a list answered by a process of its own (forked from this one)
    @staticmethod
    def alone(fns):
        out = []
        for fn in fns:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    data = pickle.dumps(answer(fn))
                    with os.fdopen(w, "wb") as fh:
                        fh.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            out.append(pickle.loads(data) if data else "lost")
        return out

    def repeat(self, name, fn, alone, state=()):
        """the answer to a request compared with the one it gets when nothing else was asked; the arguments must stay as they are"""
        before = [obs.snapshot(v) for v in state]
        now = answer(fn, [v for v in state if isinstance(v, np.ndarray)])
        kept = [obs.snapshot(v) for v in state] == before
        if isinstance(now, str) or isinstance(alone, str):
            self.s.event("repeat", {"fn": name}, {"both": now == alone, "a": Raw([]), "b": Raw([]), "kept": bool(kept)})
        else:
            self.s.event("repeat", {"fn": name}, {"both": True, "a": Raw([self.s.arr(v) for v in now]), "b": Raw([self.s.arr(v) for v in alone]), "kept": bool(kept)})

    # ---------------------------------------------------------------- plots: C23
    @staticmethod
    def _lines(fig):
        return [(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), str(ln.get_label()))
                for ln in fig.axes[0].get_lines()]

    def _plot(self, i, op, args, fn, extra=None):
        """fn(path): every third figure is also saved, in a scratch folder"""
        self.plots = getattr(self, "plots", self.s.sid) + 1
        save = self.plots % 3 == 0
        where = tempfile.mkdtemp(prefix="wtb-fig-")
        path = os.path.join(where, "figure.png") if save else ""
        if save and self.plots % 2:  # an older file of that name
            with open(path, "wb") as fh:
                fh.write(b"older" * 9000)
        other = plt.figure() if self.plots % 2 else None  # somebody else's figure is the current one
        if other:
            plt.plot([0.0, 1.0], [5.0, 6.0])

        def res(fig):
            lines = self._lines(fig)
            r = {"lines": Raw([[self.s.arr(vec(x)), self.s.arr(vec(y))] for x, y, _ in lines]),
                 "labels": Raw([lab for _, _, lab in lines]),
                 "saved": picture(path),
                 "view": np.array(fig.axes[0].get_xlim(), float), "ylog": fig.axes[0].get_yscale() == "log",
                 "texts": Raw([fig.axes[0].get_xlabel(), fig.axes[0].get_ylabel()]),
                 "own": other is None or (fig is not other and other.number in plt.get_fignums() and len(other.axes) == 1
                                          and [list(n.get_ydata()) for n in other.axes[0].lines] == [[5.0, 6.0]]
                                          and not other.axes[0].patches)}
            if extra:
                r.update(extra(fig))
            return r

        try:
            return self.on(i, op, dict(args, save=save), lambda: fn(path), res)
        finally:
            plt.close("all")
            shutil.rmtree(where, ignore_errors=True)

    def plot_series(self, i, crossing):
        return self._plot(i, "plot.series", {"crossing": crossing},
                          lambda p: self.o[i].plot(*self.opt((p, ""), (crossing, False))))

    def plot_spec(self, i, periods, view=None, texts=None):
        """view: the extent of the frequency axis; texts: along the axes"""
        kw = {} if view is None else {"xlim": list(view)}
        kw.update({} if texts is None else dict(zip(("xlabel", "ylabel"), texts)))
        args = {"periods": periods, "limited": view is not None, "view": np.array([0.0, 0.0] if view is None else view, float),
                "named": texts is not None, "texts": Raw(["", ""] if texts is None else list(texts))}
        return self._plot(i, "plot.spec", args, lambda p: self.o[i].plot(*self.opt((p, ""), (periods, True)), **kw))

    def plot_exceed(self, i):
        return self._plot(i, "plot.exceed", {}, lambda p: self.o[i].plot_exceedance_waveheight(*self.opt((p, ""))))

    def plot_hist(self, i):
        def extra(fig):
            p = fig.axes[0].patches
            return {"counts": np.array([float(r.get_height()) for r in p]),
                    "edges": np.array([float(r.get_x()) for r in p] + [float(p[-1].get_x() + p[-1].get_width())])}

        return self._plot(i, "plot.hist", {}, lambda p: self.o[i].plot_hist_waveheight(*self.opt((p, ""))), extra)

    def plot_rayleigh(self, i, norm, bg=None):
        """bg = (hm0, water depth, slope); slope None leaves the documented 250"""
        x = self.o[i]
        bgh, bgP, kw = np.zeros(0), np.zeros(0), {}
        if bg:
            cota = 250.0 if bg[2] is None else bg[2]
            kw.update(plot_BG=True, hm0=self.sc(bg[0]), water_depth=self.sc(bg[1]))
            if bg[2] is not None:
                kw["cota_slope"] = self.sc(bg[2])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h, P = cw.compute_BattjesGroenendijk_wave_height_distribution(bg[0], x.nwave, bg[1], cota_slope=cota)
            bgh, bgP = vec(h), vec(P)

        def extra(fig):  # the percentages written along the axis, and where
            ticks = [(float(q.get_loc()), float(q.label1.get_text())) for q in fig.axes[0].xaxis.get_major_ticks()]
            return {"bgh": bgh, "bgP": bgP, "ticks": np.array([q for q, _ in ticks]), "perc": np.array([p for _, p in ticks])}

        return self._plot(i, "plot.rayleigh", {"norm": norm, "bg": bool(bg)},
                          lambda p: x.plot_exceedance_waveheight_Rayleigh(*self.opt((p, ""), (norm, False)), **kw), extra)


def answer(fn, keep=None):
    """the numbers a request gives, or the kind of error; the arrays of the answer are written over afterwards"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = fn()
        parts = list(v) if isinstance(v, (tuple, list)) else [v]
        out = [np.array(a, copy=True) for a in parts]
        if keep is not None:
            obs.write_over(parts, keep)
        return out
    except Exception:
        return "rejected"


def self_arr(box, x):
    """reference of an array of any shape; 0 when there is none"""
    if x is None:
        return 0
    return box.s.arr(x)


__all__ = ["Box", "Stop", "BadResult", "obs", "ct", "cs", "cw", "cz", "cd", "dwt", "ATTRS"]

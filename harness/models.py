"""The models of spec/M*.tla: TLC checks their invariants, and every scenario they print is replayed on the toolbox.

plan(pid, tier) lists the models of a property with their constants; model(...) runs TLC; REPLAY[...] makes the requests.
"""
import json
import os

import numpy as np

SIG = ["Init", "Next"]


class ModelError(Exception):
    pass


def S(vals):
    return "{" + ", ".join(json.dumps(v) if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else str(v) for v in vals) + "}"


def rng_set(a, b):
    return "{" + ", ".join(str(k) for k in range(a, b + 1)) + "}"


CASES = 44  # at least the number of cases of drivers.World
GUARDED = ["time2freq", "time2freq_nyquist", "compute_spectrum_time_series", "bandpassfilter", "compute_spectrum_freq_series", "compute_moment",
           "compute_spectrum_params", "Spectrum", "Series", "spectrum2timeseries", "compute_tps", "frequency_averaging", "unfold_spectrum", "freq2time",
           "sort_wave_params", "determine_zero_crossing", "highest_waves_params", "exceedance_wave_height", "create_spectrum_jonswap", "decompose_linear_ZS"]
SHAPES = ["row", "list", "ints", "column", "two", "flat", "short", "long", "empty", "cube"]
DEFECTS = ["none", "wide-step", "narrow-step", "moved", "last", "reversed", "constant", "swapped", "repeated"]
GETS = ["Hm0", "Hm0_HF", "Hm0_LF", "Tp", "Tps", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF"]


def plan(pid, tier):
    """[(name of replay, module, constants, invariants, properties, scenarios per session)]"""
    q = tier == "quick"

    def signal(name, maxlen, pulses, inv, props=(), values="{-1, 0, 1}", minlen=2, per=24):
        return (name, "MSignal", {"Values": values, "MinLen": minlen, "MaxLen": maxlen, "Pulses": pulses}, inv, props, per)

    if pid == "C01":
        return [signal("cross", 6 if q else 8, "{}", ["CrossInv"], ["Growth"], per=40)]
    if pid == "C02":
        return [signal("waves", 6 if q else 8, "{}", ["CrossInv", "WaveInv"], ["Growth"], per=40)]
    if pid == "C03":
        return [signal("series", 5 if q else 7, "{}", ["CrossInv", "WaveInv", "HighPassInv"])]
    if pid == "C22":
        return [signal("stats", 5 if q else 6, "{}" if q else rng_set(7, 24), ["StatInv"], values="{-1, 0, 2}")]
    if pid == "C06":
        return [signal("fourier", 4 if q else 6, rng_set(5, 12) if q else rng_set(7, 40), ["FourierInv"])]
    if pid == "C07":
        return [signal("density", 4 if q else 6, rng_set(5, 10) if q else rng_set(7, 33), ["FourierInv", "DensityInv"])]
    if pid in ("C04", "C05"):
        c = {"Heights": "{0, 1, 2}", "MaxWaves": 3 if q else 4, "Depth": 2, "Plots": False}
        out = [("table", "MTable", c, ["SameBag", "Answers"], ["StaysRanked"], 24)]
        if not q:
            out.append(("table", "MTable", {"Heights": "{1, 2}", "MaxWaves": 3, "Depth": 3, "Plots": False}, ["SameBag", "Answers"], ["StaysRanked"], 24))
        return out
    if pid == "C13":
        inv, props = ["Fresh", "Parents", "Whole"], ["Kept", "Small", "Default"]
        out = [("object", "MObject", {"Params": S(GETS), "Limits": "{1, 4}" if q else "{1, 2, 3, 4}", "Depth": 2, "Plots": False}, inv, props, 12)]
        if not q:
            out.append(("object", "MObject", {"Params": S(["Hm0", "Hm0_HF", "Tps", "Tmm10", "Tmm10_HF", "s0p", "smm10", "smm10_HF"]), "Limits": "{1, 4}",
                                              "Depth": 3, "Plots": False}, inv, props, 12))
        return out
    if pid == "C23":
        return [("object", "MObject", {"Params": S(["Tps", "Tmm10", "Tm02", "s0p"]), "Limits": "{1, 4}" if not q else "{1}", "Depth": 3, "Plots": True},
                 ["Parents"], ["Kept"], 12),
                ("table", "MTable", {"Heights": "{1, 2}", "MaxWaves": 3 if q else 4, "Depth": 1 if q else 2, "Plots": True}, ["SameBag", "Answers"], ["StaysRanked"], 12)]
    if pid == "C09":
        return [("band", "MBand", {"MinBins": 2, "MaxBins": 6 if q else 12}, ["NoMean", "Partition", "Interval", "Inside", "Apart"], ["Wider"], 40)]
    if pid in ("C08", "C17"):
        return [("average" if pid == "C08" else "coherence", "MAverage", {"MinBins": 2, "MaxBins": 9 if q else 24},
                 ["Positive", "Rounds", "Ties", "Energy", "Twice", "Centres"], ["Monotone"], 40)]
    if pid == "C10":
        c = {"Spectra": "{1, 2}", "Seeds": "{-1, 0, 3}", "Routes": S(["core"]) if q else S(["core", "object", "method"]), "Depth": 3}
        out = [("synth", "MSynth", c, ["SameSeed", "OtherSeed", "Fresh"], [], 1)]
        if q:
            out.append(("synth", "MSynth", {"Spectra": "{1}", "Seeds": "{-1, 0}", "Routes": S(["core", "object", "method"]), "Depth": 3},
                        ["SameSeed", "OtherSeed", "Fresh"], [], 1))
        return out
    if pid in ("C11", "C12"):
        inv = ["FewMoments", "Exact", "Linear", "Wider"] if pid == "C11" else ["PeakInv"]
        name = "moments" if pid == "C11" else "peaks"
        out = [(name, "MShape", {"Values": "{0, 1, 2}", "MinBins": 2, "MaxBins": 5 if q else 6, "Firsts": "{0, 1}", "Windows": False}, inv, [], 24),
               (name, "MShape", {"Values": "{0, 2}" if pid == "C11" else "{1, 2}", "MinBins": 3, "MaxBins": 3 if q else 4, "Firsts": "{0, 1}", "Windows": True}, inv, [], 40)]
        return out
    if pid == "C14":
        return [("sea", "MSea", {"Mode": "0", "MaxBins": 8 if q else 14}, ["Positive", "NothingAtZero", "PeakOnBin", "Enhanced"], [], 24)]
    if pid == "C21":
        return [("foreshore", "MForeshore", {"MaxDepth": 24 if q else 60}, ["OneChange", "RmsAbove", "GammaIdentity"], [], 12)]
    if pid == "C15":
        return [("dispersion", "MLinear", {"Mode": json.dumps("dispersion"), "WMin": -8 if q else -12, "WMax": 4 if q else 6, "HMin": -4 if q else -6,
                                           "HMax": 7, "MaxGauges": 0, "Lengths": "{0}"}, ["Solves", "Bounds", "Monotone"], [], 12)]
    if pid == "C16":
        return [("gauges", "MLinear", {"Mode": json.dumps("gauges"), "WMin": 0, "WMax": 0, "HMin": -2, "HMax": 2, "MaxGauges": 4 if q else 5,
                                       "Lengths": "{8, 9}" if q else "{7, 8, 9, 16, 21}"}, ["Separate"], [], 12)]
    if pid == "C20":
        return [("welch", "MWelch", {"Lengths": "{5, 8}" if q else rng_set(3, 12), "Windows2": S(["hann", "boxcar"] if q else ["hann", "hamming", "boxcar"]),
                                     "Signals": "{0, 2}" if q else "{0, 1, 2, 3}"}, ["Positive", "Parseval"], [], 30)]
    if pid == "C18":
        return [("guard", "MGuard", {"Functions": S(GUARDED), "Shapes": S(SHAPES), "Defects": S(DEFECTS), "Both": not q, "Sizes": "{6}" if q else "{4, 7}"},
                 [], ["Monotone"], 40)]
    if pid == "C24":
        c = {"Starts": S(["series", "spectrum", "jonswap", "synth", "zs"]), "Depth": 2 if q else 3, "MaxObjects": 4}
        out = [("pipe", "MPipe", c, ["Typed", "Own"], ["Apart", "Fresh"], 8)]
        if q:
            out.append(("pipe", "MPipe", {"Starts": S(["series"]), "Depth": 3, "MaxObjects": 4}, ["Typed", "Own"], ["Apart", "Fresh"], 8))
        return out
    if pid == "C26":
        return [("object", "MObject", {"Params": S(["Hm0", "Hm0_HF", "Hm0_LF", "Tmm10", "Tmm10_HF", "Tmm10_LF", "smm10_HF"]), "Limits": "{1, 2, 3, 4}",
                                       "Depth": 2 if q else 3, "Plots": False}, ["Fresh", "Parents"], ["Kept", "Small", "Default"], 24),
                ("foreshore", "MForeshore", {"MaxDepth": 16 if q else 60}, ["OneChange", "RmsAbove"], [], 24)]
    if pid == "C27":
        return [("help", "MHelp", {"Values": "{0, 1, 2}" if q else "{0, 1, 2, 4}", "MaxLen": 4}, ["Some", "Few", "Found", "Uniform", "Moved", "Half2"], ["Forward"], 40)]
    if pid == "C25":
        c = {"Starts": S(["series", "directional", "spectrum", "synth"]), "Depth": 2 if q else 3, "MaxObjects": 4}
        return [("pipe", "MPipe", c, ["Typed", "Own"], ["Apart", "Fresh"], 8)]
    if pid == "C19":
        return [("interfere", "MInterfere", {"Kinds": rng_set(0, CASES - 1), "Worlds": "{0, 1, 2}" if q else "{0, 1, 2, 3, 4, 5, 6, 7, 8}", "Depth": 1}, ["Pure"], ["Kept"], 1)]
    return []


def model(tlc, counts, scratch, classes, k, entry, info):
    """TLC on one model: scenarios, sorted (the order of TLC's workers does not matter)"""
    name, module, consts, inv, props, per = entry
    cfg = os.path.join(scratch, f"MC{k}.cfg")
    with open(cfg, "w") as fh:
        fh.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n")
        for v in inv:
            fh.write(f"INVARIANT {v}\n")
        for v in props:
            fh.write(f"PROPERTY {v}\n")
        for c in consts:
            fh.write(f"CONSTANT {c} <- MC_{c}\n")
    mc = os.path.join(scratch, f"MC{k}.tla")
    with open(mc, "w") as fh:
        fh.write(f"---- MODULE MC{k} ----\nEXTENDS {module}\n")
        for c, v in consts.items():
            fh.write(f"MC_{c} == {str(v).upper() if isinstance(v, bool) else v}\n")
        fh.write("====\n")
    out = tlc(scratch, classes, mc, cfg, {}, 2400, workers=4, heap="4g")
    gen, distinct = counts(out)
    if "Model checking completed. No error has been found" not in out:
        raise ModelError(f"{module}: " + out[-3000:])
    rows = set()
    for line in out.splitlines():
        if line.startswith('"SC|'):
            rows.add(json.loads(line)[3:])
    if not rows:
        raise ModelError(f"{module}: no scenarios")
    info["model_states"] += distinct
    info["model_transitions"] += gen
    info["model_runs"].append({"model": module, "constants": {a: str(b) for a, b in consts.items()}, "invariants": inv, "action_properties": list(props),
                               "states": distinct, "transitions": gen, "scenarios_replayed": len(rows)})
    rows = sorted(rows)
    # equal requests far apart, different ones in one process
    m = max(1, -(-len(rows) // per))
    return [(name, [json.loads(r) for r in rows[j::m]]) for j in range(m)]


# ------------------------------------------------------------------ replay
REPLAY = {}


def replay(name):
    def deco(fn):
        REPLAY[name] = fn
        return fn
    return deco


def session(pid, seed, sid, name, scenarios):
    import drivers
    from box import Box, Stop

    rng = np.random.default_rng([seed, 7, int(pid[1:]), sid])
    b = Box(sid, rng, f"{pid} {name} scenarios")
    broken = ""
    try:
        for sc in scenarios:
            try:
                REPLAY[name](b, rng, sc, pid)
            except Stop:
                pass
    except Exception as e:  # the toolbox gave something that cannot be used any further
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[-3:])
        broken = f"{type(e).__name__}: {e} at {where}"[:300]
    drivers.LAST.clear()
    return sid, broken, json.dumps(b.s.dump(), separators=(",", ":"))


def axis(n, rng=None, step=1.0):
    return np.arange(n) * step


def word(sc):
    return np.arange(len(sc["x"])) * 1.0, np.array(sc["x"], float)


@replay("cross")
def _(b, rng, sc, pid):
    t, x = word(sc)
    b.cross(t, x, "down")
    b.cross(t, x, "up")
    if len(x) < 5:
        b.cross_of(b.series(t, x), "up")


@replay("waves")
def _(b, rng, sc, pid):
    import drivers
    t, x = word(sc)
    for down in (True, False):
        b.individual(drivers.own_crossings(t, x, down), t, x)
    if len(x) < 5:
        b.series(t, x)


@replay("series")
def _(b, rng, sc, pid):
    t, x = word(sc)
    o = b.series(t, x)
    for w, minw in [("up", 0.0), ("down", 1.0), ("up", 1.5), ("down", 2.0), ("down", 0.0), ("up", 1.0)]:
        b.reanalyse(o, w, 0.0, minw)
    if len(x) > 3:
        b.reanalyse(o, "down", 1.5 / len(x), 0.0)
        b.query(o, "Hs")


@replay("stats")
def _(b, rng, sc, pid):
    t, x = word(sc)
    o = b.series(t, x)
    for q in ["max", "min", "mean", "var", "skewness", "asymmetry"]:
        b.stat(o, q)


@replay("fourier")
def _(b, rng, sc, pid):
    from box import cs
    t, x = word(sc)
    b.fft_full(t, x)
    b.fft_half(t, x)
    b.roundtrip(t, x, True)
    b.roundtrip(t, x, False)
    f = np.arange(len(x) // 2 + 1) / len(x)
    if len(f) > 1:
        b.unfold(f, np.fft.rfft(x) + 0.0, len(x) % 2 == 1)
    b.inverse(np.fft.fft(x))


@replay("density")
def _(b, rng, sc, pid):
    t, x = word(sc)
    n = len(x)
    b.density(t, x)
    for q in (1.0, 1.5, 2.0, 3.0):
        b.density(t, x, q / n)
    if n > 3:
        b.density_of(b.series(t, x), 1.0 / n)


@replay("table")
def _(b, rng, sc, pid):
    o = b.waves(np.array(sc["h"], float), np.array(sc["T"], float))
    for r in sc["qs"]:
        op, p = r["op"], r["n"] / r["d"]
        if op == "plot.exceed":
            b.plot_exceed(o)
        elif op == "plot.hist":
            b.plot_hist(o)
        elif op == "plot.rayleigh":
            b.plot_rayleigh(o, bool(r["n"]))
        elif op in ("highest", "exc"):
            b.query(o, op, p)
        else:
            b.query(o, op)


SPECTRA = [
    (np.arange(1, 9) * 0.05, np.array([0.0, 0.1, 0.7, 2.0, 1.1, 0.6, 0.4, 0.25])),
    (np.arange(9) * 0.04, np.array([0.3, 0.05, 0.4, 1.0, 3.0, 1.5, 0.75, 0.5, 0.1])),
    (np.arange(2, 17) * 0.02, np.array([0.1, 0.2, 0.3, 1.5, 0.6, 0.4, 0.9, 1.2, 1.9, 1.4, 0.8, 0.5, 0.35, 0.2, 0.1])),
]


@replay("object")
def _(b, rng, sc, pid):
    f, S = SPECTRA[int(rng.integers(len(SPECTRA)))]
    o = b.spectrum(f.copy(), S.copy())
    n = len(f)
    for r in sc["qs"]:
        if r["q"] == "plot":
            b.plot_spec(o, bool(r["l"]))
            continue
        lo = float(f[1] + 0.3 * (f[1] - f[0])) if r["l"] in (2, 4) else -1.0
        hi = float(f[n - 3]) if r["l"] in (3, 4) else -1.0
        b.get(o, r["q"], lo, hi)


@replay("band")
def _(b, rng, sc, pid):
    n, lo, hi = sc["n"], sc["lo"] / 2, float("inf") if sc["hi"] == -9 else sc["hi"] / 2
    X = np.array([complex(k + 1, 2 * k - 3) for k in range(n)])
    b.band_freq(np.arange(n) * 0.25, X, lo * 0.25, hi * 0.25)
    N = 2 * (n - 1)
    dt = 1.0 / (N * 0.125)
    x = np.array([((3 * j * j + j) % 7) - 2.5 for j in range(N)])
    b.band(np.arange(N) * dt, x, lo * 0.125, hi * 0.125)
    if lo == hi:
        N = 2 * n - 1
        x = np.array([((3 * j * j + j) % 7) - 2.5 for j in range(N)])
        b.band_parts(np.arange(N) * 0.5, x, lo / (N * 0.5))


@replay("help")
def _(b, rng, sc, pid):
    a = np.array(sc["a"], float)
    k = int(rng.integers(3))
    b.nearest([a, a.astype(int), a.tolist()][k], sc["q"] / 4)
    if sc["q"] == -2:
        b.is_uniform([a, a.astype(np.int8), a * 0.1 + 7.3][k] if len(a) > 1 else np.append(a, a + 1))
        b.to_vector([a.tolist(), a.reshape(-1, 1), np.tile(a, (2, 1)), a.astype(np.uint8), tuple(sc["a"])][int(rng.integers(5))])
        b.is_vector([a, a.reshape(-1, 1), a.reshape(1, -1)][k])


@replay("average")
def _(b, rng, sc, pid):
    n, want = sc["n"], sc["want"] / 4
    f = np.arange(n) * 0.5
    v = np.array([float((7 * j * j + 3 * j) % 11) + 1 for j in range(1, n + 1)])
    b.average(f, v, want * 0.5)
    b.average(f + 0.5, v + 1j * v[::-1], want * 0.5)


@replay("coherence")
def _(b, rng, sc, pid):
    n, want = sc["n"], sc["want"] / 4
    f = np.arange(n) * 0.5
    X1 = np.array([complex((7 * j * j + 3 * j) % 11 - 4, (5 * j) % 7 - 3) for j in range(n)])
    X2 = np.array([complex((3 * j * j + j) % 7 - 2, (2 * j * j) % 5 - 1) for j in range(n)])
    b.coherence(f, X1, X2, want * 0.5)
    b.coherence(f, X1, X1 * (1 - 2j), want * 0.5)


@replay("synth")
def _(b, rng, sc, pid):
    from box import Raw, N
    spec = {1: (np.arange(1, 8) * 0.1, np.array([0.2, 1.0, 2.0, 1.5, 0.7, 0.4, 0.1])), 2: (np.arange(0, 5) * 0.25, np.array([0.1, 1.0, 0.5, 0.3, 0.2]))}
    objs = {}
    for r in sc["qs"]:
        if r["op"] == "seed":
            b.user_seed(5)
        elif r["op"] == "draw":
            b.user_draw()
        else:
            f, S = spec[r["s"]]
            if r["op"] == "method":
                if r["s"] not in objs:
                    objs[r["s"]] = b.spectrum(f, S)
                b.synth_of(objs[r["s"]], 0.0, 12.0, 0.5)
            else:
                b.synth(f, S, 0.0, 12.0, 0.5, None if r["seed"] < 0 else r["seed"], "core" if r["op"] == "core" else "obj")


def shape_axis(sc):
    n = len(sc["S"])
    f = (np.arange(n) + sc["first"]) * 0.125
    lim = lambda v: -1.0 if v == -99 else (sc["first"] + v / 2) * 0.125  # noqa: E731
    return f, np.array(sc["S"], float), lim(sc["lo"]), lim(sc["hi"])


@replay("moments")
def _(b, rng, sc, pid):
    f, S, lo, hi = shape_axis(sc)
    for m in (-1, 0, 1, 2):
        b.moment(f, S, m, lo, hi)
    if lo < 0 and hi < 0:
        b.moment(f, S, 0, 0.0, float("inf"))
    b.params(f, S, lo, hi)


@replay("peaks")
def _(b, rng, sc, pid):
    f, S, lo, hi = shape_axis(sc)
    if lo < 0 and hi < 0:
        b.tps(f, S)
        b.tpd(f, S)
    b.params(f, S, lo, hi)
    if len(S) < 4:
        o = b.spectrum(f, S)
        b.get(o, "Tp", lo, hi)
        b.get(o, "Tps", lo, hi)


@replay("sea")
def _(b, rng, sc, pid):
    f = (np.arange(sc["n"]) + sc["first"]) * 0.05
    gam = [1.0, 3.3, 7.0, 0.5][sc["gam"] - 1]
    part = {0: None, 1: 0, 2: 1}[sc["part"]]
    b.jonswap(f, sc["peak"] / 4 * 0.05, 2.0, gam, part, pm=False, obj=bool(sc["peak"] % 2))
    if gam == 1.0:
        b.jonswap(f, sc["peak"] / 4 * 0.05, 2.0, None, part, pm=True)


@replay("foreshore")
def _(b, rng, sc, pid):
    b.bg(float(sc["hm0"]), sc["n"], sc["d"] / 4, float(sc["cota"]))


@replay("dispersion")
def _(b, rng, sc, pid):
    w, h = 10.0 ** (sc["a"] / 2), 10.0 ** (sc["b"] / 2)
    b.disper(np.array([w]), h)
    b.disper(np.array([0.0, w, -w, 1.3 * w]), h)


@replay("gauges")
def _(b, rng, sc, pid):
    n = sc["n"]
    pos = np.array(sc["pos"], float)
    G = len(pos)
    h = 10.0 ** (sc["b"] / 2)
    t = np.arange(n) * 0.5
    X = np.array([[float((3 * j * j + (g + 2) * j + g) % 7) - 3 for g in range(G)] for j in range(n)])
    wt = np.array([1.0, 0.9, 0.7, 1.0, 0.6])[:G]
    b.decompose(t, X, h, pos * 0.7, wt, [None, 0.5, 1e-6][(sc["b"] + n) % 3], "core" if G % 2 else "series")


@replay("welch")
def _(b, rng, sc, pid):
    n, s = sc["N"], sc["sig"]
    x = np.array([float((5 * j * j + j) % 7) - 3 if s == 0 else float(j == s) for j in range(1, n + 1)])
    pad = 0 if sc["pad"] == 0 else max(sc["pad"], min(sc["M"], n))
    b.welch(x, 0.5, sc["M"], sc["ov"], pad, sc["kind"])
    if s == 0 and sc["M"] <= n:
        b.welch_of(b.series(np.arange(n) * 0.5, x), use_dfDesired=False, nperseg=sc["M"], noverlap=sc["ov"], nfft=pad, windows_type=sc["kind"])


@replay("pipe")
def _(b, rng, sc, pid):
    import drivers
    objs = drivers.begin(b, rng, sc["start"])
    for r in sc["qs"]:
        objs += drivers.pipe_step(b, rng, objs[r["i"] - 1], r["op"])
        if len(objs) < r["i"]:
            return
    for o in objs:
        b.look(o)
        b.describe(o)


def shaped(x, how):
    x = np.asarray(x, float)
    n = len(x)
    return {"row": lambda: x, "list": lambda: x.tolist(), "ints": lambda: np.round(x * 4).astype(int), "column": lambda: x.reshape(-1, 1),
            "two": lambda: np.column_stack([x, x]), "flat": lambda: x.reshape(1, -1), "short": lambda: x[:-1], "long": lambda: np.append(x, 2 * x[-1] - x[-2]),
            "empty": lambda: x[:0], "cube": lambda: x.reshape(1, n, 1)}[how]()


def spoiled(f, how):
    f = np.array(f, float)
    h = f[1] - f[0]
    n = len(f)
    if how == "wide-step":
        f[n // 2:] += 0.4 * h
    elif how == "narrow-step":
        f[n // 2:] -= 0.4 * h
    elif how == "moved":
        f[n // 2] += 0.3 * h
    elif how == "last":
        f[-1] += 0.5 * h
    elif how == "reversed":
        f = f[::-1].copy()
    elif how == "constant":
        f[:] = f[1]
    elif how == "swapped":
        f[[1, 2]] = f[[2, 1]]
    elif how == "repeated":
        f[-1] = f[-2]
    return f


@replay("guard")
def _(b, rng, sc, pid):
    import drivers
    from box import ct, cs, cw, cz
    name, n = sc["fn"], sc["n"]
    f = (np.arange(n) + 1) * 0.25
    v = np.array([float((5 * j * j + j) % 7) + 0.5 for j in range(n)])
    ranked = name in ("sort_wave_params", "highest_waves_params", "exceedance_wave_height")
    if ranked:  # the first argument: heights
        f = np.sort(v)[::-1].copy() + np.arange(n)[::-1]
        if sc["defect"] == "reversed":
            f = f[::-1].copy()
        elif sc["defect"] == "swapped":
            f[[1, 2]] = f[[2, 1]]
        elif sc["defect"] == "last":
            f[-1] = f[0] + 1
        elif sc["defect"] == "repeated":
            f[-1] = f[-2]
        elif sc["defect"] != "none":
            return
    else:
        f = spoiled(f, sc["defect"])
    A, B = shaped(f, sc["sa"]), shaped(v, sc["sb"])
    if name in drivers.AXIS_FNS:
        fn = drivers.AXIS_FNS[name]
        b.guard(name, lambda: fn(A, B), A, B)
    elif name == "freq2time":
        b.guard(name, lambda: cs.freq2time(B), B)
    elif name == "sort_wave_params":
        b.guard(name, lambda: ct.sort_wave_params(A, B), A, B)
    elif name == "determine_zero_crossing":
        for w in ("up", "Down", "x"):
            b.guard(name, lambda: ct.determine_zero_crossing(A, B, w), A, B, word=w)
    elif name == "highest_waves_params":
        for p in (0.0, 0.3, 1.0, -0.01, 1.01):
            b.guard(name, lambda: ct.highest_waves_params(A, B, p), A, B, p)
    elif name == "exceedance_wave_height":
        for p in (0.0, 30.0, 100.0, -0.01, 100.5):
            b.guard(name, lambda: ct.exceedance_wave_height(A, p), A, None, p)
    elif name == "create_spectrum_jonswap":
        for lf in (0, 1, 2, -1, 0.5):
            b.guard(name, lambda: cw.create_spectrum_jonswap(A, 0.6, 1.0, 3.3, lf), A, None, lf)
    elif name == "decompose_linear_ZS":
        if sc["sa"] not in ("row", "list", "ints") or sc["sb"] in ("two", "flat", "cube", "empty", "column"):
            return
        t = np.asarray(A, float)
        G = 3
        pos = shaped(np.array([0.0, 1.0, 2.5]), sc["sb"])
        wt = np.ones(len(pos))
        X = np.array([[float((3 * j * j + (g + 2) * j) % 7) - 3 for g in range(G)] for j in range(len(t))])
        b.guard_zs(t, X, 1.0, pos, wt)
        b.guard_zs(t, X, 1.0, np.array([0.0, 1.0, 2.5]), wt * 0.3)
        b.guard_zs(t, X[:-1], 1.0, np.array([0.0, 1.0, 2.5]), np.ones(3))
        b.guard_zs(t, X[:, :2], 1.0, np.array([0.0, 1.0, 2.5]), np.ones(3))
        b.guard_zs(t, X, 1.0, np.array([0.0, 1.0, 1.0]), np.ones(3))
        b.guard_zs(t, X, 1.0, np.array([0.0, 1.0, 0.5]), np.ones(3))


@replay("interfere")
def _(b, rng, sc, pid):
    import drivers
    one = drivers.World(rng, "quick")
    q = sc["qs"][0]
    other = one
    for _ in range(q["w"]):
        other = one.variant(rng)
    cases, others = one.cases(), other.cases()
    if q["k"] >= len(cases):
        return
    alone = b.alone([c[1] for c in cases] + [others[q["k"]][1]])
    state = one.state() + other.state()
    b.repeat(others[q["k"]][0], others[q["k"]][1], alone[-1], state)
    for (name, fn), a in zip(cases, alone):
        b.repeat(name, fn, a, state)

"""Drivers: for every property, generators of sessions (histories of requests to the real toolbox).

A driver is a function (box, rng, i, tier) that makes the requests of session number i.
"""
import numpy as np

import gen
from box import ATTRS, HELD, Box, Stop, cs, ct, cw, cz, dwt  # noqa: F401

DRIVERS = {}
COUNTS = {}


def driver(pid, quick, thorough):
    def deco(fn):
        DRIVERS[pid] = fn
        COUNTS[pid] = {"quick": quick * 5 // 2, "thorough": thorough * 5 // 2}
        return fn

    return deco


def session(pid, seed, i, tier):
    num = int(pid[1:])
    rng = np.random.default_rng([seed, num, i])
    box = Box(i, rng, f"{pid} session {i}")
    broken = ""
    LAST.clear()
    try:
        DRIVERS[pid](box, rng, i, tier)
    except Stop:
        pass
    except Exception as e:  # the toolbox gave something that cannot be used any further
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[-3:])
        broken = f"{type(e).__name__}: {e} at {where}"[:300]
    box.s.broken = broken
    return box.s


# ------------------------------------------------------------------ helpers
def top(tier, quick, thorough):
    return quick if tier == "quick" else thorough


LAST = {}  # the latest request of this session (a process has one session): requests of the same size follow each other


def pair(rng, tier, big=400, kind=None, far=None):
    """a time axis and a signal; now and then like the latest ones in length, axis, values or all but one value"""
    k = rng.integers(10)
    if k < 4 and "t" in LAST and len(LAST["t"]) <= big:
        t, x = LAST["t"], LAST["x"]
        if k == 0:
            t = np.asarray(t, float) * float(rng.choice([0.5, 2.0, 1.3, 0.1]))
        elif k == 1:
            x = gen.signal(rng, t, kind)
        elif k == 2:
            x = np.array(x, float)
            x[int(rng.integers(len(x)))] += float(rng.choice([1.0, -1.0, 0.3]))
        else:
            t = np.asarray(t, float) + float(rng.choice([1.0, -7.5, 100.0]))
            x = gen.signal(rng, t, kind)
    else:
        n = gen.sizes(rng, tier, big)
        t = gen.dyadic_axis(rng) if rng.integers(9) == 0 else gen.axis(rng, n, far=(rng.integers(8) == 0) if far is None else far)
        x = gen.signal(rng, t, kind)
    LAST.update(t=t, x=x)
    return t, x


def own_crossings(t, x, down=True):
    """crossing times by definition (inputs of other requests)"""
    t, x = np.asarray(t, float), np.asarray(x, float)
    out = []
    for k in range(len(x) - 1):
        if (x[k] >= 0 > x[k + 1]) if down else (x[k] <= 0 < x[k + 1]):
            out.append(t[k] + (t[k + 1] - t[k]) * x[k] / (x[k] - x[k + 1]))
    return np.array(out)


def zigzag(rng, n):
    return rng.uniform(0.1, 2.0, n) * np.where(np.arange(n) % 2, 1.0, -1.0)


# ------------------------------------------------------------------ C01
WORDS = ["down", "up", "down", "up", "Down", "UP", "DOWN", "Up"]


@driver("C01", 110, 900)
def c01(b, rng, i, tier):
    if i == 2:  # a very long record
        n = 70001
        t = np.arange(n) * 0.1
        x = np.cumsum(rng.standard_normal(n)) * 0.1 + np.sin(t)
        b.cross(t, x, "down")
        b.cross(t, x, "up")
        return
    if i == 0:  # long records
        n = top(tier, 10501, 20000)
        t = np.arange(n) * 0.1
        x = np.cumsum(rng.standard_normal(n)) * 0.1 + np.sin(t)
        b.cross(t, x, "down")
        b.cross(t, x, "up")
        z = zigzag(rng, n)  # a crossing between every two samples
        for w in ("down", "up"):
            b.cross(t, z, w)
            b.cross(t, -z, w)
        return
    if i % 12 == 1:  # words
        t, x = pair(rng, tier, 40)
        for w in ["down", "up", "Down", "UP", "sideways", "", "downn"]:
            b.cross(t, x, w)
        return
    for _ in range(4):
        t, x = pair(rng, tier)
        w = WORDS[rng.integers(len(WORDS))]
        b.cross(gen.form(rng, t), gen.form(rng, x), w)
        b.cross(t, -np.asarray(x), w)
        if len(t) > 2 and rng.integers(3) == 0:
            b.cross(gen.uneven(rng, t), x, w)
        if rng.integers(4) == 0:  # so small that products of samples vanish
            big = np.max(np.abs(np.asarray(x, float)))
            if big > 0:
                b.cross(t, np.asarray(x, float) / big * 10.0 ** -rng.integers(19, 260), w)
    t, x = pair(rng, tier)
    if rng.integers(4) == 0:
        t = gen.jitter(rng, t)
    o = b.series(gen.form(rng, t, False), gen.form(rng, x, False))
    for w in ("down", "up"):
        b.cross_of(o, w)
    b.cross_of(o)
    for _ in range(2):  # also after other requests
        b.reanalyse(o, WORDS[rng.integers(2)], 0.0, float(rng.choice([0.0, 0.5, 1.5])) * float(np.std(x)))
        b.cross_of(o)
        b.cross_of(o, WORDS[rng.integers(2)])


# ------------------------------------------------------------------ C02
@driver("C02", 130, 1000)
def c02(b, rng, i, tier):
    if i == 2:  # a very long record
        n = 70001
        t = 100 + np.arange(n) * 0.2
        x = np.sin(t * 0.7) + 0.3 * rng.standard_normal(n)
        b.individual(own_crossings(t, x), t, x)
        return
    if i == 0:
        n = top(tier, 10501, 12000)
        t = 100 + np.arange(n) * 0.2
        x = np.sin(t * 0.7) + 0.3 * rng.standard_normal(n)
        b.individual(own_crossings(t, x), t, x)
        z = zigzag(rng, n)
        b.individual(own_crossings(t, z, False), t, z)
        b.individual(own_crossings(t, z[::-1].copy()), t, z[::-1])
        return
    for _ in range(5):
        t, x = pair(rng, tier)
        t, x = np.asarray(t), np.asarray(x)
        if len(t) > 2 and rng.integers(6) == 0:
            t = gen.uneven(rng, t)
        k = rng.integers(6)
        tf = t.astype(float)
        if k < 2:
            tc = own_crossings(t, x, bool(rng.integers(2)))
        elif k == 2:  # crossings exactly at samples: both ends belong to the wave
            m = int(rng.integers(1, max(2, len(t) // 2)))
            tc = np.sort(rng.choice(tf, size=min(m + 1, len(t)), replace=False))
        elif k == 3:  # arbitrary times, at least one sample in each wave
            idx = np.sort(rng.choice(len(t), size=min(len(t), int(rng.integers(2, 9))), replace=False))
            s = float(np.min(np.diff(tf)))
            tc = np.array([tf[0] - 0.5 * s] + [tf[q] + 0.3 * s for q in idx])
        elif k == 4:
            tc = np.zeros(0)
        else:
            tc = own_crossings(t, x, True)[: int(rng.integers(0, 4))]
        b.individual(gen.form(rng, tc) if len(tc) else tc, gen.form(rng, t), gen.form(rng, x))
        ok, v = b.cross(t, x, "down")
        if ok and len(v[1]) > 1:
            b.individual(v[1], t, x)


# ------------------------------------------------------------------ C03
@driver("C03", 110, 800)
def c03(b, rng, i, tier):
    if i == 2:  # a very long record
        n = 70001
        t = np.arange(n) * 0.1
        o = b.series(t, np.sin(t * 0.9) + 0.4 * rng.standard_normal(n))
        b.reanalyse(o, "up", 0.0, 0.7)
        return
    if i == 0:
        n = top(tier, 10501, 12000)
        t = np.arange(n) * 0.1 + 4.0
        x = np.sin(t * 0.9) + 0.4 * rng.standard_normal(n)
        o = b.series(t, x)
        b.reanalyse(o, "up", 0.0, 0.7)
        b.reanalyse(o, "down", 0.0, 0.0)
        z = zigzag(rng, n)
        o = b.series(t, z)
        b.reanalyse(o, "up", 0.0, 0.0)
        b.series(t, -z)
        return
    t, x = pair(rng, tier, 300)
    o = b.series(gen.form(rng, t, False), gen.form(rng, x, False))
    sd = float(np.std(x)) or 1.0
    span = float(t[-1] - t[0]) or 1.0
    steps = int(rng.integers(1, 6))
    for _ in range(steps):
        k = rng.integers(10)
        if k < 6:
            word = WORDS[rng.integers(len(WORDS))]
            fcut = float(rng.choice([0.0, 0.0, rng.uniform(0.5, 6) / span, rng.uniform(1, 30) / span]))
            minw = float(rng.choice([0.0, 0.0, rng.uniform(0, 3) * sd, sd]))
            if rng.integers(3) == 0 and len(b.o[o].hwave):  # exactly as high as one of the waves
                minw = float(b.o[o].hwave[rng.integers(len(b.o[o].hwave))])
            if rng.integers(6) == 0:
                fcut = float(rng.integers(1, max(2, len(t) // 2))) / (len(t) * float(np.mean(np.diff(t)))) * float(rng.choice([0.9, 1.1]))
            b.reanalyse(o, word, fcut, minw)
            for _ in range(int(rng.integers(0, 3))):
                wave_query(b, rng, o)
        elif k == 6:
            b.query(o, "sort")
        elif k == 7:
            b.query(o, "Hs")
        elif k == 8:
            b.cross_of(o, "up")
        else:
            b.stat(o, "mean")
    t2, x2 = pair(rng, tier, 60)
    b.series(t2, x2)
    j = b.series(gen.jitter(rng, t2), x2)
    b.reanalyse(j, "up", 0.0, 0.0)
    b.query(o, "exc", 20)  # the first object is not affected by the second


# ------------------------------------------------------------------ C04, C05
FRACS = [0.0, 1.0, 1 / 3, 0.1, 0.5, 0.25, 0.02, 0.3, 2 / 3, 0.7, 0.9999, 1e-6]
PERCS = [0, 1, 2, 5, 10, 13.5, 33, 50, 99, 100, 66.6, 0.1, 29, 57, 58]


def any_frac(rng, n):
    k = rng.integers(4)
    if k == 0 and n:
        return float(rng.integers(0, n + 1)) / n
    if k == 1:
        return float(rng.uniform(0, 1))
    return float(FRACS[rng.integers(len(FRACS))])


def any_perc(rng, n):
    k = rng.integers(4)
    if k == 0 and n:
        return float(rng.integers(0, n + 1)) / n * 100
    if k == 1:
        return float(rng.uniform(0, 100))
    return PERCS[rng.integers(len(PERCS))]


def wave_query(b, rng, o, asked=None):
    n = len(b.o[o].hwave)
    if asked and rng.integers(2):  # what was asked before, of this object or of another
        q, p = asked[rng.integers(len(asked))]
        b.query(o, q, p)
        return
    q = ["sort", "Hs", "highest", "exc", "H2p", "Hrms", "Hmax", "highest", "exc"][rng.integers(9)]
    p = any_frac(rng, n) if q == "highest" else any_perc(rng, n) if q == "exc" else None
    if q == "highest" and rng.integers(15) == 0:
        p = float(rng.choice([-0.1, 1.5, 2.0, -1e-3, 1.0001]))
    if q == "exc" and rng.integers(15) == 0:
        p = float(rng.choice([-0.1, 100.5, 200, -1e-3, 101]))
    if asked is not None:
        asked.append((q, p))
    b.query(o, q, p)


def a_wave_object(b, rng, tier):
    k = rng.integers(5)
    if k == 0:
        t, x = pair(rng, tier, 300)
        return b.series(t, x)
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 17, int(rng.integers(8, 60)), top(tier, 150, 1500)]))
    h, T = gen.waves_table(rng, n)
    return b.waves(gen.form(rng, h, False) if n > 1 else h, gen.form(rng, T, False) if n > 1 else T)


@driver("C04", 150, 1200)
def c04(b, rng, i, tier):
    if i == 0:
        o = b.waves(*gen.waves_table(rng, top(tier, 40001, 70001)))
        for _ in range(4):
            wave_query(b, rng, o)
        return
    objs = [a_wave_object(b, rng, tier)]
    if rng.integers(3) == 0:
        objs.append(a_wave_object(b, rng, tier))
    if rng.integers(5) == 0 and isinstance(b.o[objs[0]], dwt.WaveHeights):  # two objects over the same arrays
        objs.append(b.waves(b.o[objs[0]].hwave, b.o[objs[0]].twave))
    asked = []
    for _ in range(int(rng.integers(4, 12))):
        k = int(objs[rng.integers(len(objs))])
        wave_query(b, rng, k, asked)
        if rng.integers(12) == 0:
            b.plot_exceed(k)
        if rng.integers(4) == 0 and isinstance(b.o[k], dwt.Series):
            x = b.o[k].xTime
            b.reanalyse(k, WORDS[rng.integers(4)], 0.0, float(rng.choice([0.0, 0.0, np.std(x), 0.3 * np.std(x)])))
            if len(b.o[k].hwave) and rng.integers(2):  # the same waves in a table of their own
                objs.append(b.waves(b.o[k].hwave.copy(), b.o[k].twave.copy()))
            wave_query(b, rng, k, asked)
            wave_query(b, rng, k, asked)
    w = b.o[objs[0]]
    if not isinstance(w, dwt.Series):  # other waves, equally many; and the first ones again
        n = len(w.hwave)
        twin = b.waves(w.hwave.copy(), w.twave.copy())
        other = b.waves(*gen.waves_table(rng, n))
        for q, p in asked[-4:]:
            b.query(other, q, p)
            b.query(twin, q, p)
    n = int(rng.integers(0, 40))
    h, T = gen.waves_table(rng, n)
    b.core_sort(gen.form(rng, h) if n else h, gen.form(rng, T) if n else T)
    if rng.integers(4) == 0:
        b.core_sort(h, T[:-1])
        b.core_sort(-h, T)


@driver("C05", 150, 1200)
def c05(b, rng, i, tier):
    if i == 2:  # a very long record
        h, T = gen.waves_table(rng, 70001)
        h = rng.permutation(70001) + rng.uniform(0.1, 0.9, 70001)  # every rank its own height
        k = np.argsort(-h, kind="stable")
        for p in (1 / 3, 0.1, 1.0):
            b.core_highest(h[k], T[k], p)
        for q in (0.1, 2, 50, 99.99, *rng.uniform(0, 1, 6), *rng.uniform(1, 100, 4)):
            b.core_exc(h[k], q)
        b.core_sort(h, T)
        o = b.waves(h, T)
        b.query(o, "Hs")
        b.query(o, "Hrms")
        b.query(o, "Hmax")
        return
    if i == 0:
        n = top(tier, 2501, 4501)
        h, T = gen.waves_table(rng, n)
        h = rng.permutation(n) + rng.uniform(0.1, 0.9, n)  # every rank its own height
        o = b.waves(h, T)
        for q in ["Hs", "H2p", "Hrms", "Hmax"]:
            b.query(o, q)
        b.query(o, "highest", 0.1)
        b.query(o, "exc", 2)
        for q in (0.1, *rng.uniform(0, 1, 6), *rng.uniform(1, 100, 3)):
            b.query(o, "exc", float(q))
        for p in (*rng.uniform(0, 0.01, 4), *rng.uniform(0.01, 1, 3)):
            b.query(o, "highest", float(p))
        return
    o = a_wave_object(b, rng, tier)
    if i % 2 and isinstance(b.o[o], dwt.Series):  # the answers follow the waves it holds
        first = [str(q) for q in rng.choice(["Hs", "H2p", "Hrms", "Hmax"], 2)]
        for word in rng.permutation(["up", "down"]):
            for q in first:
                b.query(o, q)
            b.reanalyse(o, str(word), 0, 0)
    for q in rng.permutation(["Hs", "H2p", "Hrms", "Hmax"]):
        b.query(o, str(q))
    n = len(b.o[o].hwave)
    for _ in range(4):
        b.query(o, "highest", any_frac(rng, n))
        b.query(o, "exc", any_perc(rng, n))
    wave_query(b, rng, o)
    m = int(rng.choice([1, 2, 3, 5, 10, 33, 50, 100, int(rng.integers(1, 60))]))
    h, T = gen.waves_table(rng, m)
    k = np.argsort(-h, kind="stable")
    hs, Ts = h[k], T[k]
    for _ in range(3):
        b.core_highest(gen.form(rng, hs), gen.form(rng, Ts), any_frac(rng, m))
        b.core_exc(gen.form(rng, hs), any_perc(rng, m))
    if i % 5 == 0:
        b.core_highest(hs[::-1].copy(), Ts, 0.5)
        b.core_exc(hs[::-1].copy(), 50)
        b.core_highest(hs, Ts, -0.2)
        b.core_highest(hs, Ts, 1.01)
        b.core_exc(hs, 100.01)
        b.core_exc(hs, -1)
        b.core_exc(np.zeros(0), 2)
        b.core_highest(np.zeros(0), np.zeros(0), 0.5)


# ------------------------------------------------------------------ C06
def components(rng, n):
    k = rng.integers(5)
    X = rng.standard_normal(n) + 1j * rng.standard_normal(n)
    if k == 0:
        X = rng.integers(-3, 4, n) + 1j * rng.integers(-3, 4, n)
    if k == 1:
        X = np.zeros(n, complex)
        X[rng.integers(n)] = 1 + 2j
    if k == 2:
        X = X * 10.0 ** rng.integers(-6, 6)
    return X.astype(complex)


@driver("C06", 60, 420)
def c06(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        for n in (1009, 2003, 10007):
            t = np.arange(n) * 0.05
            x = np.sin(t) + rng.standard_normal(n)
            b.fft_full(t, x)
            b.fft_half(t, x)
            b.roundtrip(t, x, bool(rng.integers(2)))
        f = np.arange(1010) * 0.01
        b.unfold(f, components(rng, 1010), bool(rng.integers(2)))
        b.inverse(components(rng, 1009))
        return
    if i == 2:  # a very long record
        t = np.arange(69300) * 0.05
        b.fft_half(t, np.sin(t) + rng.standard_normal(69300))
        return
    if i == 0:
        t = np.arange(20160) * 0.05
        for m in top(tier, (10395, 10500), (10395, 10500, 10501, 19845, 20160)):  # all but one have small factors only
            x = np.sin(t[:m]) + rng.standard_normal(m)
            b.fft_full(t[:m], x)
            b.fft_half(t[:m], x)
            b.roundtrip(t[:m], x, True)
            b.roundtrip(t[:m], x, False)
        return
    for _ in range(3):
        t, x = pair(rng, tier, 320)
        T, X = gen.form(rng, t, False), gen.form(rng, x, False)
        b.fft_full(T, X)
        b.fft_half(T, X)
        b.roundtrip(T, X, bool(rng.integers(2)))
        b.roundtrip(t, x, bool(rng.integers(2)))
    n = int(rng.integers(2, 40))
    f = gen.freqs(rng, n)
    X = components(rng, n)
    for odd in (False, True):
        b.unfold(gen.form(rng, f, False), gen.form(rng, X, False), odd)
    if rng.integers(2):
        X = X.copy()
        X[0] = X[0].real
        b.unfold(f, gen.form(rng, X), True)
    b.inverse(gen.form(rng, components(rng, int(rng.integers(1, 60))), False))
    X = np.fft.fft(rng.standard_normal(int(rng.integers(3, 60))))  # of a real signal, but for one of them
    X[int(rng.integers(len(X)))] += np.max(np.abs(X)) * 10.0 ** -rng.uniform(2, 8) * (1 + 1j)
    b.inverse(gen.form(rng, X, False))
    t, x = pair(rng, tier, 200)
    o = b.series(t, x)
    for _ in range(3):
        b.fft_of(o)


# ------------------------------------------------------------------ C07, C08
def any_df(rng, df, n):
    """desired frequency step: none, below, at, above the resolution, near the rounding points, coarse"""
    k = rng.integers(9)
    if k == 0:
        return None
    if k == 1:
        return 0.0
    if k == 2:
        return float(df * rng.uniform(0.05, 0.6))
    if k == 3:
        return float(df)
    if k == 4:
        return float(df * rng.integers(2, max(3, n // 2)))
    if k == 5:
        return float(df * (rng.integers(1, max(2, n // 3)) + rng.choice([0.5, 0.49, 0.51])))
    if k == 6:
        return float(df * n * rng.uniform(0.5, 3))
    return float(df * rng.uniform(1, max(2, n / 3)))


@driver("C07", 70, 500)
def c07(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        for n in (1009, 2003):
            t = np.arange(n) * 0.1
            x = rng.standard_normal(n) + 1.0
            b.density(t, x)
            b.density(t, x, 0.02)
        return
    if i == 2:  # a very long record
        t = np.arange(69300) * 0.1
        b.density(t, rng.standard_normal(69300) + 1.0)
        return
    if i == 0:
        t = np.arange(20160) * 0.1
        for m in top(tier, (10395, 10500), (10395, 10500, 10501, 19845, 20160)):
            x = rng.standard_normal(m) + 1.0
            b.density(t[:m], x)
            b.density(t[:m], x, 0.01)
        return
    for _ in range(3):
        t, x = pair(rng, tier, 320)
        df = 1 / (np.mean(np.diff(t)) * len(t))
        b.density(gen.form(rng, t, False), gen.form(rng, x, False), any_df(rng, df, len(t) // 2))
    o = b.series(t, x)
    b.density_of(o, any_df(rng, df, len(t) // 2))
    b.density_of(o)
    n = int(rng.integers(2, 60))
    f = gen.freqs(rng, n)
    X = components(rng, n)
    b.density_freq(gen.form(rng, f, False), gen.form(rng, X, False), int(rng.choice([2 * (n - 1), 2 * n - 1, 7, 1000, 50000, int(rng.integers(2, 10**6))])), any_df(rng, f[1] - f[0], n))


@driver("C08", 150, 1200)
def c08(b, rng, i, tier):
    if i == 2:  # a very long record
        f = np.arange(70001) * 0.0005
        S = rng.uniform(0, 1, 70001)
        b.average(f, S, 0.0016)
        b.average(f, S)
        return
    if i == 0:
        n = top(tier, 10501, 20000)
        f = np.arange(n) * 0.001
        b.average(f, gen.spectrum(rng, f, "noise"), 0.007)
        b.average(f, gen.spectrum(rng, f, "noise") + 1j, 0.05)
        return
    for _ in range(6):
        n = int(rng.choice([2, 3, 4, 5, 7, int(rng.integers(6, 60)), int(rng.integers(60, top(tier, 400, 2000)))]))
        f = gen.freqs(rng, n)
        S = components(rng, n) if rng.integers(4) == 0 else gen.spectrum(rng, f)
        if n > 2 and rng.integers(4) == 0:
            f = gen.uneven(rng, f)
        w = any_df(rng, f[1] - f[0], n)
        b.average(gen.form(rng, f, False), S if S.dtype.kind == "c" else gen.form(rng, S, False), w)
    # the same length, factor and first or last frequency
    b.average(f + (f[-1] - f[0]), S, w)
    h = (f[-1] - f[0]) / (n - 1)
    b.average(f[-1] - 0.5 * h * np.arange(n)[::-1], S, None if w is None else w * 0.5 * h / (f[1] - f[0]))
    n = int(rng.integers(4, 30))
    f = np.arange(n) * int(rng.integers(1, 4))
    b.average(f, rng.integers(0, 9, n), int(rng.integers(1, 9)))


# ------------------------------------------------------------------ C09
def any_limit(rng, f):
    """a frequency limit: on a bin, between bins, at and beyond the ends, infinite"""
    k = rng.integers(10)
    j = int(rng.integers(0, len(f)))
    df = f[1] - f[0]
    if k < 3:
        return float(f[j])
    if k < 6:
        return float(f[j] + df * rng.uniform(0.1, 0.9))
    if k == 6:
        return float(f[-1])
    if k == 7:
        return float(f[-1] + df * rng.uniform(0.2, 3))
    if k == 8:
        return float(rng.choice([0.0, 0.0, -1.0, -df * rng.uniform(0.1, 3)]))
    return float("inf")


@driver("C09", 70, 480)
def c09(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        for n in (1009, 2003):
            t = np.arange(n) * 0.1
            x = rng.standard_normal(n)
            b.band(t, x, 0.05, 0.5)
            b.band_parts(t, x - x.mean(), 0.2)
        return
    if i == 2:  # a very long record
        f = np.arange(70001) * 0.0005
        b.band_freq(f, components(rng, 70001), 1.00021, 20.0)
        return
    if i == 0:
        for n in top(tier, (10395,), (10395, 20160)):
            t = np.arange(n) * 0.1
            x = rng.standard_normal(n)
            b.band(t, x, 0.05, 0.5)
            b.band_parts(t, x - x.mean(), 0.2)
        return
    for _ in range(2):
        t, x = pair(rng, tier, 260)
        if rng.integers(4) == 0:
            t = gen.dyadic_axis(rng)
            x = gen.signal(rng, t)
        f = np.arange(len(t) // 2 + 1) / (np.mean(np.diff(t)) * len(t))
        for _ in range(2):
            lo, hi = any_limit(rng, f), any_limit(rng, f)
            if lo > hi and rng.integers(4):
                lo, hi = hi, lo
            b.band(gen.form(rng, t, False), gen.form(rng, x, False), lo, hi)
        b.band_parts(t, x, float(f[min(1, len(f) - 1)] * rng.uniform(0.3, len(f) + 1)))
    o = b.series(t, x)
    lo, hi = any_limit(rng, f), any_limit(rng, f)
    b.band_of(o, min(lo, hi), max(lo, hi))
    for _ in range(3):
        n = int(rng.integers(2, 40))
        f = np.arange(n) * float(rng.choice([0.01, 0.1, 0.05, 1 / 3]))
        X = components(rng, n)
        lo, hi = any_limit(rng, f), any_limit(rng, f)
        if lo > hi and rng.integers(4):
            lo, hi = hi, lo
        b.band_freq(f, gen.form(rng, X) if rng.integers(4) else np.asarray(X).real.copy(), lo, hi)


# ------------------------------------------------------------------ C10
def synth_case(rng, tier):
    n = int(rng.choice([2, 3, 5, int(rng.integers(6, 40)), int(rng.integers(40, 200))]))
    f = gen.freqs(rng, n)
    S = gen.spectrum(rng, f)
    if not np.any(S > 0):
        S = S + 1.0
    dt = float(rng.choice([0.1, 0.5, 1.0, 0.05, 0.3, 1 / 3, 2.0, 0.7]))
    m = int(rng.choice([2, 3, 4, 5, 8, 9, int(rng.integers(10, 60)), int(rng.integers(60, 260))]))
    t0 = float(rng.choice([0.0, 0.0, 10.0, -3.7, 100.1]))
    k = rng.integers(5)
    if rng.integers(4) == 0:  # as many frequencies as there will be, the same ones or not
        m = max(m, 4)
        q = (m + 1) // 2
        g = np.arange(1, q + 1) / (2 * q * dt)
        f = [g, np.linspace(float(g[-1] * rng.uniform(0.1, 0.7)), float(g[-1]), q), g * float(rng.choice([0.5, 0.8, 1.7])), g - g[0]][rng.integers(4)]
        S = gen.spectrum(rng, f)
        S = S if np.any(S > 0) else S + 1.0
        return f, S, t0, t0 + dt * (m - 1), dt
    more = float(rng.choice([1e-4, 1e-3, 0.01, 0.99, 0.999, 1 - 1e-4])) if k == 4 else rng.uniform(0.05, 0.95)
    t1 = t0 + dt * (m - 1) if k < 2 else t0 + dt * (m - 1 + more)
    return f, S, t0, float(t1), dt


@driver("C10", 60, 420)
def c10(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        f = np.arange(1, 60) * 0.02
        S = gen.spectrum(rng, f, "jonswap") + 0.01
        for n in (1009, 2017, 2018, 2026):
            b.synth(f, S, 0.0, 0.25 * (n - 1), 0.25, int(rng.integers(0, 1000)))
        return
    if i == 2:  # a very long record
        f = np.arange(1, 60) * 0.02
        b.synth(f, gen.spectrum(rng, f, "jonswap") + 0.01, 0.0, 0.25 * 20789, 0.25, 5)
        return
    if i == 0:
        f = np.arange(0, 200) * 0.01
        S = gen.spectrum(rng, f, "jonswap")
        b.synth(f, S, 0.0, 2599.5, 0.25)
        b.synth(f, S, 0.0, 2599.75, 0.25, 3)
        return
    f, S, t0, t1, dt = synth_case(rng, tier)
    F, V = gen.form(rng, f, False), gen.form(rng, S, False)
    seeds = [None, 0, 1, 7, 12345]
    for s in rng.permutation([0, 1, 2, 3, 4, 0, 1])[:5]:
        b.synth(F, V, t0, t1, dt, seeds[int(s)], "core" if rng.integers(3) else "obj")
    np.random.seed(int(rng.integers(2**31 - 1)))
    s = int(rng.integers(0, 1000))
    b.synth(f, S, t0, t1, dt, s)
    b.synth(f, S, t0, t1, dt)
    b.synth(f, S, t0, t1, dt)
    b.synth(f, S, t0, t1, dt, s, "obj")
    like = [s + 256, s + 65536, s + 2**24, s + 2**31 - 1000, s * 10, s * 1000 + s, 2**32 - 1 - s, s + 1000]  # seeds that look like s
    for q in rng.permutation(len(like))[:3]:
        b.synth(f, S, t0, t1, dt, int(like[int(q)]), "core" if rng.integers(3) else "obj")
    f, S, t0, t1, dt = synth_case(rng, tier)
    o = b.spectrum(f, S)
    b.synth_of(o, t0, t1, dt)
    b.synth_of(o, t0, t1, dt)
    b.synth(f, S, 10, 10 + 20 * 2, 2, 5)  # whole numbers


# ------------------------------------------------------------------ C11, C12
def any_spectrum(rng, tier, energy=True):
    k = rng.integers(10)
    if k < 3 and "f" in LAST:  # like the latest one in all but the axis, the density, or one value
        f, S = LAST["f"], LAST["S"]
        if k == 0:
            f = np.asarray(f, float) * float(rng.choice([0.5, 2.0, 1.3]))
        elif k == 1:
            S = gen.spectrum(rng, f)
        else:
            S = np.array(S, float)
            S[int(rng.integers(len(S)))] += 0.5
        if energy and not np.any(S > 0):
            S = S + 1.0
        LAST.update(f=f, S=S)
        return f, S
    f, S = new_spectrum(rng, tier, energy)
    LAST.update(f=f, S=S)
    return f, S


def new_spectrum(rng, tier, energy=True):
    n = int(rng.choice([2, 3, 4, 5, 6, int(rng.integers(6, 50)), int(rng.integers(50, top(tier, 200, 1000)))]))
    f = gen.freqs(rng, n)
    if rng.integers(10) == 0:
        f = np.arange(n) + int(rng.integers(0, 3))
    S = gen.spectrum(rng, f)
    if energy and not np.any(S > 0):
        S = S + 1.0
    return f, S


def any_range(rng, f):
    """limits of an integration: not given, one given, both given; on and between bins; at and beyond the ends"""
    df = f[1] - f[0]

    def one():
        j = int(rng.integers(0, len(f)))
        k = rng.integers(8)
        if k < 3:
            return float(f[j])
        if k < 6:
            return float(f[j] + df * rng.uniform(-0.45, 0.95))
        if k == 6:
            return float(f[0])
        return float(f[-1])

    k = rng.integers(9)
    if k == 8:  # a short range, perhaps around the middle between two frequencies
        a = float(f[int(rng.integers(0, len(f)))] + df * rng.uniform(0.05, 0.49))
        return a, float(a + df * rng.choice([0.02, 0.2, 0.45, 0.9]))
    if k == 0:
        return -1.0, -1.0
    if k == 1:
        return one(), -1.0
    if k == 2:
        return -1.0, one()
    if k == 3:
        return float(f[0]), float("inf")
    if k == 4:
        return one(), float(f[-1] + df * rng.uniform(0.1, 20))
    a, c = sorted((one(), one()))
    if k == 5:
        a = float(f[0] - df * rng.uniform(0, 2))
        return a, c
    return a, c


@driver("C11", 150, 1200)
def c11(b, rng, i, tier):
    if i == 2:  # a very long record
        f = np.arange(70001) * 0.0002
        b.params(f, gen.spectrum(rng, f, "jonswap") + 0.01)
        b.moment(f, gen.spectrum(rng, f, "jonswap") + 0.01, -1, 0.05, 20.0)
        return
    if i == 0:
        n = top(tier, 10501, 12000)
        f = np.arange(n) * 0.001
        S = gen.spectrum(rng, f, "jonswap") + 0.01
        b.params(f, S)
        b.params(f, S, 0.05, 0.7)
        b.moment(f, S, -1, 0.0, float("inf"))
        return
    f, S = any_spectrum(rng, tier)
    F, V = gen.form(rng, f, False), gen.form(rng, S, False)
    for m in (0, 1, 2, -1, int(rng.choice([-2, 3, 4, 5, -3, -4]))):
        a, c = any_range(rng, f)
        b.moment(F, V, m, a, c)
        b.moment(f, S, m)
    for _ in range(3):
        a, c = any_range(rng, f)
        if np.isinf(c):
            c = -1.0
        b.params(F, V, a, c)
    b.params(f, S)
    b.moment(f, S, 0, 0.0, float("inf"))
    if rng.integers(3) == 0:  # begins next to zero
        g = 10.0 ** -rng.uniform(4, 9.5) + np.asarray(f, float) - f[0]
        b.moment(g, S, -1)
        b.moment(g, S, -1, float(g[0]), float(g[-1]))
        b.moment(g, S, 1)
        b.params(g, S)
    o = b.spectrum(F, V)
    for q in rng.permutation(["Hm0", "Tmm10", "Tm01", "Tm02"]):
        a, c = any_range(rng, f)
        b.get(o, str(q), a, -1.0 if np.isinf(c) else c)
    b.get(o, ["Hm0", "Tmm10", "Tm01", "Tm02"][rng.integers(4)])
    if i % 9 == 0:
        b.params(f, np.zeros(len(f)))
        b.params(f, S * 1e-20)


@driver("C12", 200, 1500)
def c12(b, rng, i, tier):
    if i == 2:  # a very long record
        f = np.arange(70001) * 0.0002
        S = gen.spectrum(rng, f, "jonswap") + 0.01
        b.tps(f, S)
        b.tpd(f, S)
        return
    if i == 0:
        n = top(tier, 10501, 12000)
        f = np.arange(n) * 0.001
        S = gen.spectrum(rng, f, "jonswap") * (1 + 0.2 * rng.uniform(0, 1, n))
        b.tps(f, S)
        b.tpd(f, S)
        b.params(f, S, 0.03, 0.9)
        return
    for _ in range(5):
        f, S = any_spectrum(rng, tier)
        S = S.copy()  # the arrays of earlier requests are not edited
        k = rng.integers(7)
        if k == 0:  # twin peaks
            j = int(rng.integers(0, len(f) - 1))
            S = S * 0.2 / S.max()
            S[j] = S[j + 1] = 1.0
        elif k == 1:
            for j in rng.integers(0, len(f), 3):
                S[j] = S.max()
        elif k == 2:
            S[0 if rng.integers(2) else -1] = S.max() * 1.1
        elif k == 3:
            S[1 if rng.integers(2) else -2] = S.max() * rng.uniform(1.0, 2)
        F, V = gen.form(rng, f, False), gen.form(rng, S, False)
        b.tps(F, V)
        b.tpd(F, V)
        a, c = any_range(rng, f)
        b.params(F, V, a, -1.0 if np.isinf(c) else c)
    f, S = any_spectrum(rng, tier)
    o = b.spectrum(f, S)
    for q in rng.permutation(["Tp", "Tps", "Tp", "Tps"])[:3]:
        a, c = any_range(rng, f)
        b.get(o, str(q), a, -1.0 if np.isinf(c) else c)
    b.get(o, "Tp")
    b.get(o, "Tps")
    b.tps(f[:1], S[:1])
    b.tps(f[:2], np.array([1.0, 1.0]))
    b.tps(f, S * 0)


# ------------------------------------------------------------------ C13
GETS = ["Hm0", "Hm0_HF", "Hm0_LF", "Tp", "Tps", "Tmm10", "Tmm10_HF", "Tmm10_LF", "Tm01", "Tm02", "s0p", "smm10", "smm10_HF"]


@driver("C13", 120, 900)
def c13(b, rng, i, tier):
    objs, kept = [], []
    if i == 0:  # a fine axis
        n = 5200
        f = np.arange(n) * 2.5e-4
        o = b.spectrum(f, cw.create_spectrum_jonswap(f, 0.12, 2.5) + 1e-3 * rng.uniform(0, 1, n))
        for q in ("smm10_HF", "Tps", "Tm02", "Hm0", "Tmm10", "s0p", "Hm0_HF"):
            b.get(o, q)
        b.get(o, "Tp", 0.05, 0.11)
        b.get(o, "Tm01", 0.0501, 1.1)
        return
    for _ in range(int(rng.integers(1, 3))):
        f, S = any_spectrum(rng, tier)
        objs.append((b.spectrum(gen.form(rng, f, False), gen.form(rng, S, False)), f))
    for _ in range(int(rng.integers(4, 14))):
        o, f = objs[rng.integers(len(objs))]
        q = GETS[rng.integers(len(GETS))]
        k = rng.integers(3)
        a, c = (-1.0, -1.0) if k == 0 else any_range(rng, f)
        if np.isinf(c):
            c = -1.0
        if kept and rng.integers(3) == 0:  # nearly what was asked before
            q, a, c = kept[rng.integers(len(kept))]
            df = float(f[1] - f[0])
            a, c = (a if a == -1.0 or rng.integers(2) else a + df), (c if c == -1.0 or rng.integers(2) else c + df)
            if c != -1.0 and max(a, f[0]) > min(c, f[-1]):
                a, c = -1.0, -1.0
        kept.append((q, a, c))
        g = None
        if q in ("s0p", "smm10", "smm10_HF") and rng.integers(3) == 0:
            g = float(rng.choice([9.81, 9.8, 1.62, 32.2]))
        b.get(o, q, a, c, g)


# ------------------------------------------------------------------ C14
@driver("C14", 90, 700)
def c14(b, rng, i, tier):
    if i == 0:
        f = np.arange(top(tier, 3000, 10501)) * 0.002
        b.jonswap(f, 0.1234, 2.0)
        b.jonswap(f, 0.1, 3.0, 2.0, 1)
        b.jonswap(f, 0.2, 1.0, pm=True, obj=True)
        return
    for _ in range(4):
        n = int(rng.choice([5, 20, 50, int(rng.integers(4, 120))]))
        f = gen.freqs(rng, n)
        k = rng.integers(8)
        if k == 0:
            f = np.arange(n) * int(rng.integers(1, 3))
        fp = float(rng.uniform(f[1], f[-1])) if k < 6 else float(f[int(rng.integers(1, n))])
        if k == 7:
            fp = float(f[-1] * rng.uniform(0.5, 3))
        hm0 = float(rng.choice([1.0, 0.1, 2.5, 10.0, rng.uniform(0.01, 12)]))
        gam = rng.choice([None, 1.0, 3.3, 7.0, 1.7, rng.uniform(1, 10), 0.5])
        lf = rng.choice([None, 0, 1, None, 0])
        b.jonswap(gen.form(rng, f, False) if not rng.integers(3) else f, fp, hm0, None if gam is None else float(gam),
                  None if lf is None else int(lf), pm=bool(rng.integers(3) == 0), obj=bool(rng.integers(3) == 0))
    if i % 6 == 0:
        b.jonswap(f, fp, hm0, 3.3, 2)


# ------------------------------------------------------------------ C15
@driver("C15", 120, 900)
def c15(b, rng, i, tier):
    if i < 4:
        n = [60, 300, 1000, 2100][i]
        b.disper(np.linspace(0.05, 6, n), float(10.0 ** rng.uniform(-1, 2)))
        b.disper(2 * np.pi * np.arange(n) * 0.001, 8.0)
        return
    for _ in range(3):
        n = int(rng.choice([1, 2, 5, 12, 30]))
        k = rng.integers(6)
        if k == 0:
            w = 10.0 ** rng.uniform(-6.5, 3, n)
        elif k == 1:
            w = rng.uniform(0.01, 6, n)
        elif k == 2:
            w = np.concatenate([[0.0], rng.uniform(-3, 3, n)])
        elif k == 3:
            w = rng.integers(-3, 4, n)
        elif k == 4:
            w = 2 * np.pi * np.arange(n) * 0.01
        else:
            w = np.concatenate([-(10.0 ** rng.uniform(-4, 2, n)), [0.0]])
        h = float(rng.choice([10.0, 0.5, 1.0, 100.0, 4000.0, 0.01, 10.0 ** rng.uniform(-3, 4), float("inf"), -2.0, -10.0 ** rng.uniform(-2, 3)]))
        if rng.integers(4) == 0:  # any depth, with waves from shallow to deep
            h = float(10.0 ** rng.uniform(-4, 7))
            w = np.sqrt(10.0 ** rng.uniform(-6, 3, n) * 9.81 / h)
        g = rng.choice([None, None, 9.81, 9.8, 1.62])
        b.disper(gen.form(rng, np.asarray(w)), h, None if g is None else float(g))
        k = rng.integers(4)
        if k == 0:
            b.disper(w, h * 1.7, None if g is None else float(g))
        elif k == 1:
            b.disper(np.asarray(w) * 0.6, h, None if g is None else float(g))
        elif k == 2:
            b.disper(w, h, 4.9)
    b.disper(float(rng.uniform(0.1, 3)), float(rng.uniform(0.5, 50)))
    b.disper(1, 5)


# ------------------------------------------------------------------ C16
def gauges(rng):
    G = int(rng.choice([2, 2, 3, 3, 4, 5]))
    pos = np.cumsum(np.concatenate([[float(rng.choice([0.0, 3.5, -2.0]))], rng.uniform(0.2, 3.0, G - 1)]))
    k = rng.integers(4)
    wt = np.ones(G) if k < 2 else np.maximum(rng.uniform(0.3, 1.0, G), 1.0 * (np.arange(G) < 2))
    if k == 3 and G > 2:  # a gauge that does not count
        wt[rng.integers(G)] = 0.0
        wt[np.flatnonzero(wt)[:2]] = 1.0
    if k == 1 and rng.integers(2):  # all the same, below one (together more than one)
        wt = np.full(G, float(rng.choice([0.6, 0.75, 0.9])))
    if rng.integers(5) == 0:
        pos = np.arange(G) * int(rng.integers(1, 4)) if rng.integers(2) else np.sort(rng.choice(np.arange(-120, 121), G, replace=False))
    elif rng.integers(3) == 0:  # regular but for one gauge or for all of them, a little or more
        G = int(rng.choice([4, 5, 6]))
        wt = np.ones(G)
        step = float(rng.choice([0.5, 1.0, 0.37]))
        off = 10.0 ** -rng.uniform(1, 5) * step
        e = np.zeros(G)
        if rng.integers(2):
            e[rng.integers(1, G)] = off
        else:
            e[1:] = rng.uniform(-off, off, G - 1)
        pos = pos[0] + np.arange(G) * step + e
    return G, pos, wt


@driver("C16", 45, 300)
def c16(b, rng, i, tier):
    if i == 0:
        n = top(tier, 1155, 1155)
        t = np.arange(n) * 0.2
        G, pos, wt = gauges(rng)
        b.decompose(t, rng.standard_normal((n, G)), 6.0, pos, wt)
        return
    k = 0
    for j in range(3):
        if j == 0 or k == 0:
            G, pos, wt = gauges(rng)
            n = int(rng.choice([8, 9, 16, int(rng.integers(10, 50)), int(rng.integers(50, 110))]))
            t = gen.axis(rng, n)
            h = float(rng.choice([1.0, 0.4, 5.0, 30.0, float("inf"), -1.0, rng.uniform(0.2, 20)]))
        elif k == 1:  # the same set-up but for the time step, the positions, the weights or the depth
            t = np.asarray(t, float) * 0.7
        elif k == 2:
            pos = np.concatenate([[pos[0]], pos[1:-1] * 1.0 + 0.25 * (pos[2:] - pos[1:-1]), [pos[-1]]]) if G > 2 else pos * 1.2
        elif k == 3:
            wt = np.maximum(rng.uniform(0.3, 1.0, G), 1.0 * (np.arange(G) < 2))
        else:
            h = h * 1.3
        k = int(rng.integers(5))
        X = np.column_stack([gen.signal(rng, t) for _ in range(G)])
        lim = rng.choice([None, 0.125, 0.01, 0.5, 1.0, 1e-6, 0.0, 10.0])
        fl = lambda v: gen.form(rng, v)  # noqa: E731
        if rng.integers(3) == 0:
            X = np.asfortranarray(X)
        if rng.integers(4) == 0:  # one gauge gives whole numbers
            j = int(rng.integers(2)) * int(rng.integers(G))
            X[:, j] = np.round(X[:, j] / (np.max(np.abs(X[:, j])) or 1.0) * 5)
        if rng.integers(5) == 0:  # counts of a gauge
            X = np.round(X / (np.max(np.abs(X)) or 1.0) * 1000).astype(str(rng.choice(["int16", "int32", "int64", ">f8"])))
        b.decompose(t, X, h, fl(pos), fl(wt), None if lim is None else float(lim), "core" if rng.integers(3) else "series")
    # generated waves: incident and reflected components that both fit the record
    G, pos, wt = gauges(rng)
    n = int(rng.integers(16, 60))
    dt = float(rng.choice([0.1, 0.25, 0.5]))
    t = np.arange(n) * dt
    h = float(rng.choice([0.7, 2.0, 10.0]))
    inc, ref, X = np.zeros(n), np.zeros(n), np.zeros((n, G))
    for m in rng.choice(np.arange(1, (n - 1) // 2), size=3, replace=False):
        w = 2 * np.pi * m / (n * dt)
        k = w * w / 9.81
        for _ in range(200):
            k = 0.5 * k + 0.5 * w * w / (9.81 * np.tanh(k * h))
        S = (np.sum(wt) ** 2 - abs(np.sum(wt * np.exp(2j * k * (pos - pos[0])))) ** 2) / 4
        if S < 0.3:
            continue
        a, c = rng.uniform(0.1, 1, 2)
        p, q = rng.uniform(0, 7, 2)
        inc += a * np.cos(w * t + p)
        ref += c * np.cos(w * t + q)
        for g in range(G):
            d = pos[g] - pos[0]
            X[:, g] += a * np.cos(w * t - k * d + p) + c * np.cos(w * t + k * d + q)
    b.recover(t, X, h, pos, wt, inc, ref, 0.125)


# ------------------------------------------------------------------ C17
@driver("C17", 130, 1000)
def c17(b, rng, i, tier):
    if i == 2:  # a very long record
        f = np.arange(70001) * 0.0005
        b.coherence(f, components(rng, 70001), components(rng, 70001), 0.005)
        return
    if i == 0:
        n = top(tier, 10501, 12000)
        f = np.arange(n) * 0.001
        X1, X2 = components(rng, n), components(rng, n)
        b.coherence(f, X1, X2 + X1, 0.02)
        b.coherence(f, X1, X2, 0.003)
        return
    for _ in range(3):
        n = int(rng.choice([2, 4, 7, int(rng.integers(6, 60)), int(rng.integers(60, top(tier, 200, 800)))]))
        f = gen.freqs(rng, n)
        X1, X2 = components(rng, n), components(rng, n)
        k = rng.integers(6)
        if k == 0:
            X2 = X1 * complex(rng.standard_normal(), rng.standard_normal())  # fully coherent
        elif k == 1:
            X2 = X1 + 0.3 * components(rng, n)
        elif k == 2:
            X2 = np.exp(1j * rng.uniform(0, 7, n)) * X1
        elif k == 3:
            X2 = np.conj(X1)
        w = any_df(rng, f[1] - f[0], n)
        if n > 2 and rng.integers(4) == 0:
            f = gen.uneven(rng, f)
        if rng.integers(6) == 0:  # real parts only, as whole numbers
            m = int(rng.choice([9, 100, 30000]))
            X1, X2 = (gen.form(rng, rng.integers(-m, m + 1, n).astype(float)) for _ in range(2))
            b.coherence(f, X1, X2, w)
            continue
        b.coherence(f, X1, X2, w)
        if rng.integers(3) == 0:  # a signal with itself, with bands that hold next to nothing
            X1 = np.where(rng.uniform(0, 1, n) < 0.5, X1, X1 * 10.0 ** -rng.uniform(2, 9))
            b.coherence(f, X1, X1, w)
            b.coherence(f, X1, X1.copy(), w)
    t, x = pair(rng, tier, 120)
    n = len(t) // 2 + 1
    f = np.arange(n) / (len(t) * float(np.mean(np.diff(t))))
    A = np.fft.rfft(x)
    B = np.fft.rfft(np.roll(x, 1) + 0.1 * rng.standard_normal(len(x)))
    if np.max(np.abs(A)) < 1e8:
        b.coherence(f, A, B, float((f[1] - f[0]) * rng.integers(1, 8)))


# ------------------------------------------------------------------ C18
def spoil_axis(rng, f):
    """a uniform increasing axis, or one that is not; far enough from the tolerance to be decidable"""
    k = int(rng.integers(9))
    n = len(f)
    f = np.array(f, float)
    h = abs(f[1] - f[0])
    j = int(rng.integers(0, n))
    if k == 0 and n > 2:
        f[j] += h * 0.3  # one step too large, the next too small
    elif k == 1 and n > 2:
        f[j:] -= h * 0.4  # one step too small
    elif k == 2 and n > 2:
        f[j:] += h * 0.4
    elif k == 3:
        f = f[::-1].copy()
    elif k == 4:
        f = np.full(n, f[0])
    elif k == 5 and n > 2:
        f[-1] -= h * 0.5
    elif k == 6 and n > 3:
        f[[1, 2]] = f[[2, 1]]
    return f


def any_shape(rng, x):
    k = int(rng.integers(8))
    if k == 0:
        return np.asarray(x).reshape(-1, 1)
    if k == 1 and len(x) % 2 == 0:
        return np.asarray(x).reshape(-1, 2)
    if k == 2:
        return np.column_stack([x, x])
    if k == 3:
        return np.asarray(x).tolist()
    if k == 4:
        return np.asarray(x)[:-1]
    if k == 5:
        return np.concatenate([x, [x[-1]]])
    return np.asarray(x)


AXIS_FNS = {
    "time2freq": cs.time2freq, "time2freq_nyquist": cs.time2freq_nyquist,
    "compute_spectrum_time_series": cs.compute_spectrum_time_series,
    "bandpassfilter": lambda t, x: cs.bandpassfilter(t, x, 0.01, 0.5),
    "compute_spectrum_freq_series": lambda f, x: cs.compute_spectrum_freq_series(f, x, 10),
    "compute_moment": lambda f, S: cw.compute_moment(f, S, 0),
    "compute_spectrum_params": cw.compute_spectrum_params, "Spectrum": dwt.Spectrum, "Series": dwt.Series,
    "spectrum2timeseries": lambda f, S: cs.spectrum2timeseries(f, S, 0, 10, 0.5),
    "compute_tps": cw.compute_tps, "frequency_averaging": cs.frequency_averaging,
    "unfold_spectrum": lambda f, X: cs.unfold_spectrum(f, X, False),
}


@driver("C18", 160, 1200)
def c18(b, rng, i, tier):
    names = sorted(AXIS_FNS)
    for _ in range(8):
        name = names[rng.integers(len(names))]
        n = int(rng.integers(2, 14)) if rng.integers(12) else int(rng.choice([40, 130, 600, 1100, 2300, 4200]))
        f = gen.axis(rng, n, far=rng.integers(6) == 0) if rng.integers(2) else gen.freqs(rng, n)
        S = np.abs(gen.signal(rng, f)) + 0.5
        if rng.integers(2):
            f = spoil_axis(rng, f)
        A = any_shape(rng, f) if rng.integers(3) == 0 else f
        B = any_shape(rng, S) if rng.integers(3) == 0 else S
        fn = AXIS_FNS[name]
        b.guard(name, lambda: fn(A, B), A, B)
    n = int(rng.integers(2, 10)) if rng.integers(8) else int(rng.choice([30, 120, 700, 1500, 5000]))
    x = gen.signal(rng, np.arange(n))
    A = any_shape(rng, x)
    b.guard("freq2time", lambda: cs.freq2time(A), A)
    h, T = gen.waves_table(rng, n)
    h = np.sort(h)[::-1].copy()
    A, B = any_shape(rng, h), any_shape(rng, T)
    b.guard("sort_wave_params", lambda: ct.sort_wave_params(A, B), A, B)
    w = ["up", "down", "UP", "Down", "x", "left"][rng.integers(6)]
    b.guard("determine_zero_crossing", lambda: ct.determine_zero_crossing(A, B, w), A, B, word=w)
    p = float(rng.choice([0.3, 1.0, 0.0, -0.1, 1.2]))
    A, B = h, T
    k = rng.integers(6)
    if k == 0:
        A = h[::-1].copy()
    elif k == 1 and n > 2:  # two neighbours interchanged
        j = int(rng.integers(0, n - 1))
        A = h.copy()
        A[[j, j + 1]] = A[[j + 1, j]]
    elif k == 2 and n > 3:  # in order at both ends only
        A = h.copy()
        A[1:-1] = A[1:-1][::-1]
    elif k == 3:
        A, B = any_shape(rng, h), any_shape(rng, T)
    b.guard("highest_waves_params", lambda: ct.highest_waves_params(A, B, p), A, B, p)
    p = float(rng.choice([30, 100, 0, -1, 101]))
    b.guard("exceedance_wave_height", lambda: ct.exceedance_wave_height(A, p), A, None, p)
    f = gen.freqs(rng, 12)
    A = any_shape(rng, spoil_axis(rng, f) if rng.integers(2) else f)
    lf = float(rng.choice([0, 1, 2, -1, 0.5]))
    b.guard("create_spectrum_jonswap", lambda: cw.create_spectrum_jonswap(A, f[4], 1.0, 3.3, lf), A, None, lf)
    # gauges
    G, pos, wt = gauges(rng)
    n = int(rng.integers(8, 20))
    t = np.arange(n) * 0.5
    X = rng.standard_normal((n, G))
    k = int(rng.integers(14))
    pos = np.array(pos, float)
    if k == 0:
        pos = pos[:-1]
    elif k == 1:
        wt = wt[:-1]
    elif k == 2:
        X = X[:-1]
    elif k == 3:
        X = X[:, :-1]
    elif k == 4:
        pos = pos[::-1].copy()
    elif k == 5:
        pos[-1] = pos[-2]
    elif k == 6:
        wt = wt * 0 + 1.0 / (2 * G)
    elif k == 7:
        wt[int(rng.integers(G))] = -0.2
    elif k == 8:
        wt[int(rng.integers(G))] = 1.3
    elif k == 9:
        X, pos, wt = X[:, :1], pos[:1], wt[:1]
    elif k == 10:
        t = spoil_axis(rng, t)
    b.guard_zs(t, X, 1.0, pos, wt)
    ser = [dwt.Series(np.arange(9) * 0.5, rng.standard_normal(9)) for _ in range(G)]
    p2, w2 = np.arange(G) * 1.0, np.ones(G)
    k = int(rng.integers(5))
    if k == 0:
        ser = ser[:-1]
    elif k == 1:
        ser = ser + ser[:1]
    elif k == 2:
        p2 = p2[::-1].copy()
    elif k == 3:
        w2 = w2 * 1.5
    XX = np.column_stack([s.xTime for s in ser])
    args = {"fn": "decompose_linear_ZS_series", "t": ser[0].time, "x": XX, "pos": p2, "wt": w2}
    b.s.call("guard.zs", args, lambda: cz.decompose_linear_ZS_series(ser, 1.0, p2, w2), lambda v: {})
    equivalent_forms(b, rng, tier)


def as_list(v):
    return list(v) if isinstance(v, (tuple, list)) else [v]


def equivalent_forms(b, rng, tier):
    """lists, integers and column vectors stand for the same numbers"""
    n = int(rng.integers(4, 24))
    t = np.arange(n) * int(rng.integers(1, 3)) + int(rng.integers(0, 3))
    f = np.arange(n) + int(rng.integers(0, 2))
    m = int(rng.choice([1, 1, 20, 4000]))
    x = rng.integers(-4 * m, 4 * m + 1, n)
    S = rng.integers(1, 8 * m + 1, n)
    hs, Ts = np.sort(S)[::-1].copy(), rng.integers(1, 9, n)

    def ser(o):
        return [o.hwave, o.twave, o.tCross, o.xTime, [o.dt], [o.nwave]]

    both = [
        ("time2freq", cs.time2freq, (t, x), as_list), ("time2freq_nyquist", cs.time2freq_nyquist, (t, x), as_list),
        ("compute_spectrum_time_series", cs.compute_spectrum_time_series, (t, x), as_list),
        ("compute_spectrum_time_series:df", lambda a, c: cs.compute_spectrum_time_series(a, c, 0.2), (t, x), as_list),
        ("bandpassfilter", lambda a, c: cs.bandpassfilter(a, c, 0.05, 0.3), (t, x), as_list),
        ("frequency_averaging", lambda a, c: cs.frequency_averaging(a, c, 2), (f, S), as_list),
        ("unfold_spectrum", lambda a, c: cs.unfold_spectrum(a, c, True), (f, x), as_list),
        ("compute_spectrum_freq_series", lambda a, c: cs.compute_spectrum_freq_series(a, c, 10), (f, x), as_list),
        ("freq2time", cs.freq2time, (x,), as_list),
        ("coherence", lambda a, c: cs.coherence(np.arange(len(a)) * 0.1, np.ravel(a), np.ravel(c), 0.2)[1], (x, x[::-1].copy()), as_list),
        ("decompose_linear_ZS", lambda a: cz.decompose_linear_ZS(np.arange(12) * 0.5, np.outer(np.cos(np.arange(12) * 0.7), np.arange(1, 1 + np.size(a))), 9.0, np.ravel(a), np.ones(np.size(a))),
         (np.unique(x % 256 - 128 if rng.integers(2) else np.abs(x) % 256)[:4] if len(np.unique(x % 256)) > 1 else np.arange(3),), as_list),
        ("spectrum2timeseries", lambda a, c: cs.spectrum2timeseries(a, c, 0, 6, 0.2, 4), (f, S), as_list),
        ("compute_moment", lambda a, c: [cw.compute_moment(a, c, m) for m in (-1, 0, 1, 2)], (f, S), as_list),
        ("compute_moment:limits", lambda a, c: [cw.compute_moment(a, c, 0, 1, np.inf), cw.compute_moment(a, c, 1, 1, 3)], (f, S), as_list),
        ("compute_spectrum_params", cw.compute_spectrum_params, (f, S), as_list),
        ("compute_tps", cw.compute_tps, (f, S), as_list), ("tpd", cw.tpd, (f, S), as_list),
        ("create_spectrum_jonswap", lambda a: cw.create_spectrum_jonswap(a, 3.0, 2.0), (f,), as_list),
        ("create_spectrum_piersonmoskowitz", lambda a: cw.create_spectrum_piersonmoskowitz(a, 3.0, 2.0), (f,), as_list),
        ("Series", dwt.Series, (t, x), ser),
        ("Series:spectrum", lambda a, c: [np.array(dwt.Series(a, c).get_spectrum_raw().sVarDens)], (t, x), as_list),
        ("Series:analysis", lambda a, c: [dwt.Series(a, c).get_Hs()[0], dwt.Series(a, c).get_skewness()], (t, x), as_list),
        ("Spectrum", lambda a, c: [dwt.Spectrum(a, c).get_Hm0(), dwt.Spectrum(a, c).get_Tmm10(), dwt.Spectrum(a, c).get_Tps(),
                                   dwt.Spectrum(a, c).get_Tp(), dwt.Spectrum(a, c).get_smm10(), dwt.Spectrum(a, c).get_Tm02()], (f, S), as_list),
    ]
    strict = [
        ("determine_zero_crossing", ct.determine_zero_crossing, (t, x), as_list),
        ("sort_wave_params", ct.sort_wave_params, (S, Ts), as_list),
        ("highest_waves_params", lambda a, c: ct.highest_waves_params(a, c, 0.4), (hs, Ts), as_list),
        ("exceedance_wave_height", lambda a: ct.exceedance_wave_height(a, 40), (hs,), as_list),
        ("determine_params_individual_waves", lambda a, c: ct.determine_params_individual_waves(own_crossings(t, x), a, c), (t, x), as_list),
        ("disper", lambda a: cz.core_dispersion.disper(a, 3.0), (t,), as_list),
        ("WaveHeights", lambda a, c: [*dwt.WaveHeights(np.asarray(a), np.asarray(c)).get_Hs()], (S, Ts), as_list),
    ]
    for _ in range(7):
        cols = rng.integers(4) > 0
        name, fn, a, pick = both[rng.integers(len(both))] if cols else strict[rng.integers(len(strict))]
        base = [np.asarray(v, float) for v in a]
        k = rng.integers(6 if cols else 4)
        if k == 0:
            other = [np.asarray(v).tolist() for v in a]
        elif k == 1:
            other = [np.asarray(v) for v in a]
        elif k == 2:
            other = [gen.narrow(rng, np.asarray(v)) for v in a]
        elif k == 3:
            other = [gen.form(rng, v) for v in base]
        elif k == 4:
            other = [v.reshape(-1, 1) for v in base]
        else:
            other = [v.reshape(-1, 1) if rng.integers(2) else v for v in base]
        b.forms(name, lambda: fn(*other), lambda: fn(*base), pick)


# ------------------------------------------------------------------ C19
class World:
    """numbers to make requests with; variant() gives other numbers in arrays of the same sizes"""

    def __init__(self, rng, tier):
        n = int(rng.integers(8, 60))
        self.t = np.asarray(gen.axis(rng, n))
        self.x = gen.signal(rng, self.t)
        self.f, self.S = any_spectrum(rng, tier)
        self.X1, self.X2 = components(rng, len(self.f)), components(rng, len(self.f))
        self.h, self.T = gen.waves_table(rng, n)
        self.hs = np.sort(self.h)[::-1].copy()
        self.sd = int(rng.integers(0, 10**6))
        _, self.pos, self.wt = gauges(rng)
        self.XX = np.column_stack([gen.signal(rng, self.t) for _ in self.pos])
        self.d = float(rng.uniform(0.5, 20))
        self.dt = 0.5
        self.end = 30.0

    def variant(self, rng):
        w = World.__new__(World)
        w.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.__dict__.items()})
        k = int(rng.integers(10))
        if k in (0, 8):
            w.t = np.asarray(w.t, float) * float(rng.choice([0.5, 1.3, 2.0]))
        if k in (1, 8):
            w.x = gen.signal(rng, w.t)
            w.XX = np.column_stack([gen.signal(rng, w.t) for _ in w.pos])
        if k in (2, 8):
            w.f = np.asarray(w.f, float) * float(rng.choice([0.5, 1.25, 2.0]))
        if k == 9:  # another axis with the same last frequency
            w.f = (np.asarray(w.f, float) + float(w.f[-1])) / 2
        if k in (3, 8):
            w.S = w.S * 2.0 + 0.25
            w.X1, w.X2 = components(rng, len(w.f)), components(rng, len(w.f))
        if k in (4, 8):
            w.h, w.T = gen.waves_table(rng, len(w.h))
            w.hs = np.sort(w.h)[::-1].copy()
        if k in (5, 8):
            w.d = w.d * float(rng.choice([0.5, 1.5, 3.0]))
            w.sd += 1
        if k in (6, 8):
            w.pos = np.asarray(w.pos, float) * 1.5
            w.wt = np.ones(len(w.wt)) * 0.9
        if k == 7:
            w.x = w.x.copy()
            w.x[int(rng.integers(len(w.x)))] += 1.0
            w.S = w.S.copy()
            w.S[int(rng.integers(len(w.S)))] += 0.5
            w.h = w.h.copy()
            w.h[int(rng.integers(len(w.h)))] += 0.5
            w.hs = np.sort(w.h)[::-1].copy()
        if k == 8:
            w.dt, w.end = 0.4, 25.0
        return w

    def state(self):
        held = [getattr(self.kept, k, None) for k in HELD] + [getattr(self.kept_spec, k, None) for k in HELD]
        return [v for v in list(self.__dict__.values()) + held if isinstance(v, np.ndarray) and v.size]

    def cases(self):
        t, x, f, S, X1, X2, h, T, hs, XX, pos, wt, sd = (self.t, self.x, self.f, self.S, self.X1, self.X2, self.h, self.T, self.hs,
                                                         self.XX, self.pos, self.wt, self.sd)
        df = float(f[1] - f[0])
        dt = float(np.mean(np.diff(t)))
        n = len(t)
        fm = 1.0 / (n * dt)
        tc = own_crossings(t, x)

        # objects that live through all requests
        self.kept = ser = dwt.Series(t.copy(), x.copy())
        self.kept_spec = spc = dwt.Spectrum(np.array(f), np.array(S))

        def both(o):
            return [o.f, o.sVarDens]

        def spec_all():
            o = dwt.Spectrum(f, S)
            return [getattr(o, "get_" + q)() for q in ("Hm0", "Tmm10", "Hm0_HF", "s0p", "Tps", "Tm02", "Tm01", "Tp")]

        def spec_hist():
            o = dwt.Spectrum(f, S)
            a = o.get_Tmm10()
            o.get_Hm0_HF()
            o.get_smm10()
            return [a, o.get_Tmm10()]

        def spec_part():
            o = dwt.Spectrum(f, S)
            return [o.get_Hm0_HF(), o.get_Tmm10_LF(), o.get_smm10_HF(), o.get_Hm0(f[0], f[-1]), o.get_smm10()]

        def series_all():
            o = dwt.Series(t, x)
            return [o.hwave, o.twave, o.tCross, *o.get_Hs(), o.get_H2p_Rayleigh(), o.get_exceedance_waveheight(2)]

        def series_up():
            return list(dwt.Series(t, x)._determine_individual_waves("up", 0, 0))

        def series_cut():
            return list(dwt.Series(t, x)._determine_individual_waves("down", 2.4 * fm, float(np.std(x)) * 0.4))

        def waves_all():
            o = dwt.WaveHeights(h.copy(), T.copy())
            return [*o.get_Hs(), *o.highest_waves(0.2), o.get_exceedance_waveheight(10), o.get_H2p_Rayleigh(), o.hwave, o.twave]

        def wave_series():
            a, c = cz.decompose_linear_ZS_series([dwt.Series(t, XX[:, g]) for g in range(XX.shape[1])], self.d, pos, wt)
            return [a.xTime, c.xTime]

        def synth_obj():
            o = cs.spectrum2timeseries_object(f, S, 0, self.end, self.dt, sd)
            return [o.time, o.xTime]

        out = [
            ("determine_zero_crossing", lambda: ct.determine_zero_crossing(t, x)),
            ("determine_params_individual_waves", lambda: ct.determine_params_individual_waves(tc, t, x)),
            ("sort_wave_params", lambda: ct.sort_wave_params(h, T)),
            ("highest_waves_params", lambda: ct.highest_waves_params(hs, T, 0.3)),
            ("exceedance_wave_height", lambda: ct.exceedance_wave_height(hs, 12)),
            ("time2freq", lambda: cs.time2freq(t, x)), ("time2freq_nyquist", lambda: cs.time2freq_nyquist(t, x)),
            ("unfold_spectrum", lambda: cs.unfold_spectrum(f, X1, True)), ("freq2time", lambda: cs.freq2time(X1)),
            ("frequency_averaging", lambda: cs.frequency_averaging(f, S, 2 * df)),
            ("coherence", lambda: cs.coherence(f, X1, X2, 3 * df)),
            ("bandpassfilter", lambda: cs.bandpassfilter(t, x, 1.4 * fm, 3.6 * fm)),
            ("applybandfilter", lambda: cs.applybandfilter(f, X1, 2 * df, 5 * df)),
            ("compute_spectrum_time_series", lambda: cs.compute_spectrum_time_series(t, x, 2.2 * fm)),
            ("compute_spectrum_freq_series", lambda: cs.compute_spectrum_freq_series(f, X1, 2 * len(f), df)),
            ("spectrum2timeseries", lambda: cs.spectrum2timeseries(f, S, 0, self.end, self.dt, sd)),
            ("spectrum2timeseries_object", synth_obj),
            ("compute_spectrum_welch_wrapper", lambda: cs.compute_spectrum_welch_wrapper(x, dt)),
            ("compute_spectrum_welch_wrapper:segments", lambda: cs.compute_spectrum_welch_wrapper(x, dt, n // 2, n // 4, n, "hamming")),
            ("compute_moment", lambda: cw.compute_moment(f, S, -1)), ("compute_spectrum_params", lambda: cw.compute_spectrum_params(f, S)),
            ("compute_tps", lambda: cw.compute_tps(f, S)), ("tpd", lambda: cw.tpd(f, S)),
            ("create_spectrum_jonswap", lambda: cw.create_spectrum_jonswap(f, f[len(f) // 2] + df, self.d / 4)),
            ("create_spectrum_piersonmoskowitz", lambda: cw.create_spectrum_piersonmoskowitz(f, f[len(f) // 2] + df, self.d / 4)),
            ("BattjesGroenendijk", lambda: cw.compute_BattjesGroenendijk_wave_height_distribution(2.0, 500 + n, self.d, cota_slope=50)),
            ("disper", lambda: cz.core_dispersion.disper(np.abs(x) + 0.1, self.d)),
            ("decompose_linear_ZS", lambda: cz.decompose_linear_ZS(t, XX, self.d, pos, wt)),
            ("decompose_linear_ZS_series", wave_series),
            ("Spectrum", spec_all), ("Spectrum.history", spec_hist), ("Spectrum.parts", spec_part), ("Series", series_all), ("WaveHeights", waves_all),
            ("Series.spectrum", lambda: [dwt.Series(t, x).get_spectrum().sVarDens, dwt.Series(t, x).get_spectrum_raw().sVarDens]),
            ("Series.filter", lambda: [dwt.Series(t, x).get_bandpassfilter(1.4 * fm, 3.6 * fm).xTime, dwt.Series(t, x).get_fourier_comp()[1]]),
            ("Series.statistics", lambda: [dwt.Series(t, x).get_skewness(), dwt.Series(t, x).get_asymmetry(), dwt.Series(t, x).var()]),
            ("kept.get_fourier_comp", ser.get_fourier_comp), ("kept.get_crossing", lambda: ser.get_crossing("up")),
            ("kept.get_spectrum", lambda: both(ser.get_spectrum(dfDesired=2.2 * fm))), ("kept.get_spectrum_raw", lambda: both(ser.get_spectrum_raw(3 * fm))),
            ("kept.get_bandpassfilter", lambda: [ser.get_bandpassfilter(1.4 * fm, 3.6 * fm).xTime]),
            ("kept.statistics", lambda: [ser.get_skewness(), ser.get_asymmetry(), ser.max(), ser.mean()]),
            ("kept.moments", lambda: [spc.get_Hm0(f[1], f[-1]), spc.get_Tm02(), spc.get_smm10(f[0], f[-1])]),
        ]
        if hasattr(dwt.Series, "_determine_individual_waves"):
            out += [("Series.reanalysis", series_up), ("Series.reanalysis:cut-off", series_cut)]
        return out


@driver("C19", 160, 1200)
def c19(b, rng, i, tier):
    """arguments, earlier results and the random state are left alone; the same request gives the same result"""
    pool = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
            "C20", "C21", "C22", "C23"]
    if i % 2:
        DRIVERS[pool[(i // 2) % len(pool)]](b, rng, 1 + int(rng.integers(1, 1000)), "quick")
        return
    one = World(rng, tier)
    worlds = [one] + [one.variant(rng) for _ in range(int(rng.integers(1, 3)))]
    all_cases = [w.cases() for w in worlds]
    m = len(all_cases[0])
    pick = rng.permutation(m)[:16]
    jobs = [(k, int(c)) for k in range(len(worlds)) for c in pick]
    state = [v for w in worlds for v in w.state()]
    alone = b.alone([all_cases[k][c][1] for k, c in jobs])  # each answered by a process that was asked nothing else
    for r in range(2):
        for q in rng.permutation(len(jobs)):
            k, c = jobs[int(q)]
            b.repeat(all_cases[k][c][0], all_cases[k][c][1], alone[int(q)], state)


# ------------------------------------------------------------------ C20
@driver("C20", 60, 420)
def c20(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        n = 3011
        x = rng.standard_normal(n) + 2.0
        b.welch(x, 0.25, 1009, 500)
        b.welch(x, 0.25, 499, 0, 1009)
        o = b.series(np.arange(n) * 0.25, x)
        b.welch_of(o, 4.0 / 1013)
        return
    if i == 2:  # a very long record
        n = 69300
        b.welch(rng.standard_normal(n) + 2.0, 0.25, 2520, 1)
        return
    for _ in range(3):
        n = int(rng.choice([3, 8, 40, int(rng.integers(8, 200)), int(rng.integers(200, top(tier, 600, 1500)))]))
        if i == 0:
            n = 10395
        t = gen.axis(rng, n)
        x = gen.signal(rng, t)
        dt = float(np.mean(np.diff(t)))
        nps = int(rng.choice([0, 4, 7, 16, 33, 64, n, int(rng.integers(3, n + 1))]))
        if nps > n:
            nps = n
        m = min(nps or 256, n)
        nov = int(rng.choice([0, m // 2, int(rng.integers(0, m)), m - 1]))
        if m - nov < max(1, n // 60):
            nov = m // 2
        nf = int(rng.choice([0, 0, m, m + 5, 2 * m]))
        win = str(rng.choice(["hann", "hamming", "boxcar", "blackman", "bartlett"]))
        b.welch(gen.form(rng, x, bits=32), dt, nps, nov, nf, win)  # scipy answers integers of 8 and 16 bits in single precision
        o = b.series(gen.form(rng, gen.jitter(rng, t) if i and rng.integers(3) == 0 else t, False), x)
        k = rng.integers(5)
        if k == 0:
            b.welch_of(o)
        elif k == 1:
            fac = float(rng.choice([2, 3, 5, 7.3, 10, 1.5]))
            b.welch_of(o, fac / (n * dt))
        elif k == 2:
            b.welch_of(o, float(rng.choice([0.01, 0.05, 0.1])), windows_type=win)
        elif k == 3:  # the segments follow from the resolution, whatever their length is said to be
            b.welch_of(o, float(rng.choice([2.0, 4.3, 6.0])) / (n * dt), windows_type=win, nperseg=int(rng.choice([0, 8, 100, 256])), noverlap=int(rng.integers(0, 8)),
                       nfft=int(rng.choice([0, n, n + 3])))
        else:
            b.welch_of(o, use_dfDesired=False, nperseg=max(2, nps), noverlap=nov if nps >= 2 else 0, nfft=max(nf, 0) if nps >= 2 else 0, windows_type=win)


# ------------------------------------------------------------------ C21
def bg_depth(hm0, cota, want):
    """the depth that gives this ratio of the transition height to Hrms"""
    gtr = 0.35 + 5.8 / (250.0 if cota is None else float(cota))
    lo, hi = 1e-4 * hm0, 1e4 * hm0
    for _ in range(80):
        d = (lo * hi) ** 0.5
        hr = hm0 / 4 * (2.69 + 3.24 * hm0 / 4 / d)
        lo, hi = (d, hi) if gtr * d / hr < want else (lo, d)
    return d


@driver("C21", 40, 300)
def c21(b, rng, i, tier):
    for _ in range(3):
        hm0 = float(rng.choice([2.0, 1.0, 5.0, 0.12, rng.uniform(0.05, 8), 10.0 ** rng.uniform(-2.5, 1.5)]))
        cota = rng.choice([None, 20.0, 50.0, 100.0, 250.0, 1000.0, rng.uniform(15, 300), rng.uniform(2, 15)])
        want = float(rng.choice([0.05, 0.3, 0.6, 1.0, 1.4, 1.8, 2.2, 2.6, 2.74, 2.77, 2.8, 4.0, rng.uniform(0.1, 3)]))  # Htr / Hrms
        d = bg_depth(hm0, cota, want)
        n = int(rng.choice([2, 10, 100, 1000, 3000, int(rng.integers(3, 5000))]))
        tol = rng.choice([None, 1e-5, 1e-4, 1e-3])
        cota, tol = None if cota is None else float(cota), None if tol is None else float(tol)
        b.bg(hm0, n, float(d), cota, tol)
        for _ in range(2):  # the same question in all but one respect
            k = rng.integers(5)
            if k < 2:
                b.bg(hm0, int(rng.choice([max(2, n // 2), n + 1, 3 * n, max(2, n - 1)])), float(d), cota, tol)
            elif k == 2:
                b.bg(hm0, n, float(d) * float(rng.choice([0.8, 1.1])), cota, tol)
            elif k == 3:
                b.bg(hm0, n, float(d), float(rng.choice([30.0, 120.0, 700.0])), tol)
            else:
                b.bg(hm0 * float(rng.choice([0.9, 1.2])), n, float(d), cota, tol)


# ------------------------------------------------------------------ C22
@driver("C22", 110, 800)
def c22(b, rng, i, tier):
    if i == 3:  # lengths that are prime
        n = 1009
        o = b.series(np.arange(n) * 0.1, rng.standard_normal(n) + 0.3)
        for q in ["skewness", "asymmetry"]:
            b.stat(o, q)
        return
    if i == 2:  # a very long record
        n = 69300
        o = b.series(np.arange(n) * 0.1, rng.standard_normal(n) + 0.3)
        for q in ["max", "min", "mean", "var", "skewness"]:
            b.stat(o, q)
        return
    if i == 0:
        n = 10395
        o = b.series(np.arange(n) * 0.1, rng.standard_normal(n) + 0.3)
        for q in ["max", "min", "mean", "var", "skewness", "asymmetry"]:
            b.stat(o, q)
        n = 6006
        o = b.series(np.arange(n) * 0.25, np.sin(0.3 * np.arange(n)) + 0.2 * rng.standard_normal(n) + 30000.0)  # far from zero
        for q in ["var", "max", "min", "mean", "skewness", "asymmetry"]:
            b.stat(o, q)
        return
    for _ in range(3):
        t, x = pair(rng, tier, 200)
        o = b.series(gen.form(rng, t, False), gen.form(rng, x, False))
        for q in rng.permutation(["max", "min", "mean", "var", "skewness", "asymmetry"]):
            b.stat(o, str(q))
    if i % 4 == 0:
        b.query(o, "Hs")
        b.query(o, "sort")
        b.stat(o, "skewness")
        b.stat(o, "max")


# ------------------------------------------------------------------ C23
def shallow(rng):
    """wave height, depth and slope of a foreshore, mostly with a distribution other than Rayleigh's"""
    hm0 = float(rng.choice([0.07, 0.2, 1.0, 4.0, 11.0]))
    return hm0, hm0 * float(rng.uniform(0.8, 2.2)), [None, 20.0, 35.5, 100.0, 250.0][int(rng.integers(5))]


@driver("C23", 40, 300)
def c23(b, rng, i, tier):
    if i == 0:
        n = 10501
        t = np.arange(n) * 0.2
        o = b.series(t, np.sin(t) + 0.3 * rng.standard_normal(n))
        b.plot_series(o, False)
        b.plot_series(o, True)
        f = np.arange(1, 5200) * 0.001
        s = b.spectrum(f, gen.spectrum(rng, f, "noise"))
        b.plot_spec(s, False)
        b.get(s, "Tmm10")
        b.plot_spec(s, True)
        for f in (b.plot_exceed, b.plot_hist, lambda k: b.plot_rayleigh(k, True)):
            f(o)
        return
    t, x = pair(rng, tier, 160)
    o = b.series(t, x)
    b.plot_series(o, False)
    b.plot_series(o, True)
    if rng.integers(2):
        b.reanalyse(o, "up", 0.0, float(np.std(x)) * 0.5)
        b.plot_series(o, True)
    f, S = any_spectrum(rng, tier)
    s = b.spectrum(f, S)
    b.plot_spec(s, True)
    for q in rng.permutation(["Tps", "Tmm10", "Tm02", "Hm0", "Tp"])[:3]:
        b.get(s, str(q))
    b.plot_spec(s, True)
    b.plot_spec(s, False)
    for q in ("Tps", "Tmm10", "Tm02"):
        b.get(s, q)
    span = float(f[-1] - f[0])
    b.plot_spec(s, bool(rng.integers(2)), np.sort(rng.uniform(-0.2, 1.2, 2)) * span + f[0],
                ("frequency", "density") if rng.integers(2) else None)
    b.plot_spec(s, True)
    n = int(rng.choice([3, 4, 7, 30, 90]))
    h, T = gen.waves_table(rng, n)
    for w in (b.waves(h, T), o):
        ops = [lambda: b.plot_exceed(w), lambda: b.plot_hist(w), lambda: b.plot_rayleigh(w, False), lambda: b.plot_rayleigh(w, True),
               lambda: b.plot_rayleigh(w, False, (2.0, 3.0, 50.0)), lambda: b.plot_rayleigh(w, True, (1.5, 2.0, 100.0)),
               lambda: b.plot_rayleigh(w, False, (2.0, 1.5, None)),
               lambda: b.plot_rayleigh(w, bool(rng.integers(2)), shallow(rng))]
        m = len(b.o[w].hwave)
        for k in rng.permutation(len(ops))[:4]:
            if k >= 4 and m < 2:
                continue
            ops[int(k)]()


# ------------------------------------------------------------------ C27
@driver("C27", 60, 500)
def c27(b, rng, i, tier):
    for _ in range(4):
        n = int(rng.choice([1, 2, 3, int(rng.integers(2, 40)), int(rng.integers(40, 300))])) if i else 10501
        kind = int(rng.integers(6))
        x = gen.signal(rng, np.arange(n + 1))[:n]
        if kind == 1:
            x = gen.axis(rng, n, far=rng.integers(4) == 0)
        elif kind == 2:
            x = rng.integers(-100, 101, n)
        elif kind == 3:
            x = rng.standard_normal(n) + 1j * rng.standard_normal(n)
        elif kind == 4:
            x = np.zeros(0)
        elif kind == 5:
            x = rng.integers(0, 2, n).astype(bool)
        form = gen.form(rng, x, False) if len(x) and x.dtype.kind in "iuf" else x
        b.to_array(form)
        b.to_vector(form)
        shapes = [x, x.reshape(-1, 1), x.reshape(1, -1), np.outer(np.arange(3), x), np.tile(x, (2, 1)).T, np.asfortranarray(np.outer(x, [1, 2, 3]))]
        y = shapes[int(rng.integers(len(shapes)))]
        b.to_vector(y)
        b.to_array(y)
        b.is_vector(y)
        b.is_vector(x)
        one = [3, -2.5, np.float64(1e-9), np.int8(-7), np.uint16(900), True, 2 - 1j, np.float32(0.5)][int(rng.integers(8))]
        b.to_vector(one)
        b.to_array(one)
        # axes, sound and spoilt
        n = int(rng.choice([2, 3, int(rng.integers(2, 40)), int(rng.integers(40, 300))])) if i else 10501
        f = gen.axis(rng, n, far=rng.integers(4) == 0) if rng.integers(2) else gen.freqs(rng, n)
        b.is_uniform(gen.form(rng, f))
        g = spoil_axis(rng, f)
        b.is_uniform(g)
        b.is_uniform(np.asarray(f)[::-1] if rng.integers(2) else gen.form(rng, np.arange(n, 0, -1).astype(float)))
        b.is_uniform(gen.form(rng, (np.arange(n) * int(rng.integers(1, 100)) - 100).astype(float)))
        # the nearest
        a = [np.asarray(f, float), np.asarray(f, float)[::-1], rng.permutation(f), gen.signal(rng, np.arange(n + 1))[:n], rng.integers(0, 9, n), np.repeat(f, 2)][int(rng.integers(6))]
        lo, hi = float(np.min(a)), float(np.max(a))
        d = max(hi - lo, 1.0)
        for v in (float(a[int(rng.integers(len(a)))]), float(rng.uniform(lo, hi)), lo - d, hi + 0.3 * d, int(np.clip(rng.uniform(lo - 2, hi + 2), -1e8, 1e8)),
                  0.5 * float(a[0]) + 0.5 * float(a[-1]), float(a[0]) + 0.4999 * float(a[-1] - a[0])):
            b.nearest(gen.form(rng, a), v)


# ------------------------------------------------------------------ C24
def begin(b, rng, start):
    """objects to begin a chain of requests with"""
    n = int(rng.choice([24, 25, 36, 49]))
    t = np.arange(n) * float(rng.choice([0.5, 0.25, 0.2])) + float(rng.choice([0.0, 3.0, -7.3]))
    f = (np.arange(12) + 1) * 0.08
    if start == "series":
        x = gen.signal(rng, t, "noise")
        if rng.integers(3) == 0:  # without mean, exactly
            x = rng.integers(-5, 6, n).astype(float)
            x[-1] -= x.sum()
        return [b.series(t, x)]
    if start == "spectrum":
        return [b.spectrum(f, gen.spectrum(rng, f, "noise") + 0.01)]
    if start == "directional":
        S = gen.spectrum(rng, f, "noise") + 0.01
        return [b.spectrum(f, S, D=directional(rng, f, S))]
    if start == "jonswap":
        return chain(b, b.jonswap(f, float(rng.uniform(0.2, 0.6)), 1.5, pm=bool(rng.integers(2)), obj=True))
    if start == "synth":
        return chain(b, b.synth(f, gen.spectrum(rng, f, "noise") + 0.01, 0.0, float(rng.choice([12.0, 12.3, 11.9])), 0.5, int(rng.integers(-1, 4)) if rng.integers(2) else None, "obj"))
    X = np.column_stack([gen.signal(rng, t, "noise") for _ in range(3)])
    return chain(b, b.decompose(t, X, 2.0, np.array([0.0, 0.7, 1.6]), np.ones(3), None, "series"))


def chain(b, answer):
    ok, val = answer
    if not ok:
        raise Stop
    return [b.adopt(v) for v in (val if isinstance(val, (tuple, list)) else [val])]


def pipe_step(b, rng, o, op):
    """one request on object o; the new objects it gave"""
    x = b.o[o]
    if op == "look":
        b.look(o)
    elif op == "table":  # a table made of the same arrays
        return [b.waves(x.hwave, x.twave)]
    elif op in ("Hs", "sort", "exc", "highest", "Hrms", "Hmax", "H2p"):
        b.query(o, op, {"exc": 10.0, "highest": 0.4}.get(op))
    elif op in ("up", "down"):
        b.reanalyse(o, op, 0.0, 0.0)
    elif op == "high":
        b.reanalyse(o, "down", 0.0, 0.5 * float(np.std(x.xTime)))
    elif op == "fft":
        b.fft_of(o)
    elif op == "stat":
        b.stat(o, str(rng.choice(["max", "mean", "var", "skewness"])))
    elif op == "cross":
        b.cross_of(o, "up")
    elif op in ("band", "raw", "welch"):
        n, dt = len(x.time), float(np.mean(np.diff(x.time)))
        if op == "raw":
            return chain(b, b.density_of(o, float(rng.choice([1.0, 1.0, 2.0, 3.0])) / (n * dt)))
        if op == "welch":
            return chain(b, b.welch_of(o, float(rng.choice([2.0, 3.0])) / (n * dt)) if rng.integers(2) else
                         b.welch_of(o, use_dfDesired=False, nperseg=max(3, n // 2), noverlap=0, nfft=0, windows_type="hann"))
        lo, hi = np.sort(rng.uniform(0.3, n / 2 + 1, 2))
        if rng.integers(3) == 0:  # everything but the mean
            lo, hi = 0.0, n
        return chain(b, b.band_of(o, float(lo) / (n * dt), float(hi + 2) / (n * dt)))
    elif op == "create":
        dt = float(rng.choice([0.5, 0.25]))
        t0 = float(rng.choice([0.0, 5.0, -2.2]))
        return chain(b, b.synth_of(o, t0, t0 + dt * (int(rng.integers(20, 40)) + float(rng.choice([0.0, 0.3, 0.8]))), dt))
    elif op == "plot":
        b.plot_spec(o, True) if isinstance(x, dwt.Spectrum) else b.plot_series(o, True)
    else:
        lim = float(x.f[1] * 1.2) if rng.integers(2) else -1.0
        b.get(o, op, lim, -1.0)
    return []


@driver("C24", 60, 500)
def c24(b, rng, i, tier):
    objs = []
    if i == 0:  # long objects
        n = 2310
        o = b.series(np.arange(n) * 0.5, rng.standard_normal(n) + 0.3)
        for op in ("sort", "band", "raw", "table", "up", "band", "welch", "Hs"):
            objs += pipe_step(b, rng, o, op)
        for p in objs:
            b.look(p)
        for p in list(objs):
            objs += pipe_step(b, rng, p, "Hs" if not isinstance(b.o[p], dwt.Spectrum) else "create")
        for p in objs + [o]:
            b.look(p)
        return
    for s in rng.choice(["series", "series", "spectrum", "jonswap", "synth", "zs"], size=int(rng.integers(1, 3))):
        objs += begin(b, rng, str(s))
    for _ in range(int(rng.integers(5, top(tier, 12, 18)))):
        o = objs[rng.integers(len(objs))]
        x = b.o[o]
        if isinstance(x, dwt.Series):
            ops = ["band", "raw", "welch", "table", "Hs", "sort", "exc", "up", "down", "high", "fft", "stat", "cross", "look"]
        elif isinstance(x, dwt.Spectrum):
            ops = ["create", "plot", "look"] + ["Hm0", "Hm0_HF", "Tp", "Tps", "Tmm10", "Tm01", "Tm02", "s0p", "smm10", "Hm0_LF"]
        else:
            ops = ["Hs", "sort", "highest", "Hrms", "Hmax", "H2p", "look"]
        if len(objs) > 7:
            ops = [p for p in ops if p not in ("band", "raw", "welch", "table", "create")]
        objs += pipe_step(b, rng, o, ops[rng.integers(len(ops))])
    for o in objs:
        b.look(o)


# ------------------------------------------------------------------ C25
def directional(rng, f, S):
    """variance density over directions, in some shape"""
    k = rng.integers(4)
    n = int(rng.integers(1, 7))
    spread = rng.uniform(0, 1, n)
    if k == 0:
        return np.outer(S, spread / spread.sum())
    if k == 1:
        return np.outer(spread, S)
    if k == 2:
        return np.zeros((len(f), n))
    return spread


@driver("C25", 60, 500)
def c25(b, rng, i, tier):
    objs = []
    if i == 0:  # long objects
        n = 4620
        o = b.series(np.arange(n) * 0.25, rng.standard_normal(n) + 0.2)
        w = b.waves(rng.uniform(0.1, 3, 3000), rng.uniform(2, 9, 3000))
        f = np.arange(3000) * 1e-3
        q = b.spectrum(f, rng.uniform(0, 1, 3000), D=rng.uniform(0, 1, (3000, 3)))
        for p, op in ((o, "sort"), (o, "up"), (o, "plot"), (w, "sort"), (w, "Hs"), (q, "Tm01"), (q, "Hm0_HF"), (o, "high"), (o, "raw")):
            for z in pipe_step(b, rng, p, op) + [p]:
                b.describe(z)
        return
    for s in rng.choice(["series", "spectrum", "directional", "directional", "waves", "jonswap", "synth"], size=int(rng.integers(1, 4))):
        if s == "waves":
            n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 40))]))
            objs.append(b.waves(rng.uniform(0.1, 3, n), rng.uniform(2, 9, n)))
        elif s == "directional":
            f, S = new_spectrum(rng, tier)
            objs.append(b.spectrum(f, S, D=directional(rng, f, S)))
        elif s == "series":
            t, x = pair(rng, tier, 120)
            objs.append(b.series(t, x))
        else:
            objs += begin(b, rng, str(s))
    for o in objs:
        b.describe(o)
    for _ in range(int(rng.integers(3, top(tier, 8, 14)))):
        o = objs[rng.integers(len(objs))]
        x = b.o[o]
        if isinstance(x, dwt.Series):
            ops = ["Hs", "sort", "exc", "up", "down", "high", "high", "cross", "plot", "stat"] + ["band", "raw", "table"] * (len(objs) < 6 and len(x.time) > 5)
        elif isinstance(x, dwt.Spectrum):
            ops = ["plot", "Hm0", "Hm0_HF", "Tp", "Tps", "Tmm10", "Tm01", "s0p", "smm10"]
        else:
            ops = ["Hs", "sort", "highest", "Hrms", "Hmax", "H2p"] if len(x.hwave) else ["Hs", "sort", "highest"]
        new = pipe_step(b, rng, o, str(rng.choice(ops)))
        objs += new
        for p in new + [o, objs[rng.integers(len(objs))]]:
            b.describe(p)
    # a rejected request at last
    o = objs[rng.integers(len(objs))]
    x = b.o[o]
    if isinstance(x, dwt.Spectrum):
        return
    k = rng.integers(4)
    if isinstance(x, dwt.Series) and k == 0:
        b.cross_of(o, "sideways")
    elif k == 1:
        b.query(o, "exc", float(rng.choice([-1.0, 101.0])))
    else:
        b.query(o, "highest", float(rng.choice([-0.1, 1.5])))
    b.describe(o)


# ------------------------------------------------------------------ C26
@driver("C26", 60, 500)
def c26(b, rng, i, tier):
    if i % 3 == 0:  # the foreshore: within, at and outside the validity, one question more than once
        cases = []
        for _ in range(4):
            cota = rng.choice([None, 20.0, 250.0, 19.999, 250.001, 20.001, 249.999, float(rng.uniform(1, 20)), float(rng.uniform(20, 250)), float(rng.uniform(250, 3000))])
            hm0 = float(rng.uniform(0.2, 6))
            d = hm0 * float(rng.choice([0.3, 1.0, 2.0, 3.0, 6.0, 40.0]))
            if rng.integers(2):  # about the height where the waves become Rayleigh distributed
                d = bg_depth(hm0, cota, float(rng.choice([2.7, 2.74, 2.76, 2.78, 2.85, 3.0])))
            cases.append((hm0, int(rng.integers(2, 3000)), float(d), None if cota is None else float(cota)))
        for k in rng.integers(0, len(cases), 10):
            b.bg(*cases[k])
        return
    objs = []
    for _ in range(int(rng.integers(1, 3))):
        f, S = any_spectrum(rng, tier)
        objs.append((b.spectrum(f, S), f))
    ask = ["Hm0_HF", "Hm0_LF", "Tmm10_HF", "Tmm10_LF", "smm10_HF", "smm10_HF"]
    for _ in range(int(rng.integers(5, 14))):
        o, f = objs[rng.integers(len(objs))]
        q = str(rng.choice(ask)) if rng.integers(5) else GETS[rng.integers(len(GETS))]
        a, c = (-1.0, -1.0) if rng.integers(2) else any_range(rng, f)
        b.get(o, q, a, -1.0 if np.isinf(c) else c)
    if i % 3 == 1:  # requests that have nothing to warn of
        objs = begin(b, rng, str(rng.choice(["series", "spectrum", "jonswap", "synth"])))
        for _ in range(5):
            o = objs[rng.integers(len(objs))]
            ops = ["create", "Hm0", "Tp", "Tps", "Tmm10", "Tm01"] if isinstance(b.o[o], dwt.Spectrum) else ["band", "raw", "Hs", "sort", "exc", "up", "high", "fft", "stat", "cross"]
            objs += pipe_step(b, rng, o, str(rng.choice(ops)))

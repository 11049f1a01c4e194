"""Strata of inputs: time axes, signals, spectra, wave tables."""
import numpy as np

STEPS = [1.0, 0.1, 0.5, 0.05, 0.01, 2.0, 0.25, 1 / 3, 0.04, 0.002, 5.0]
STARTS = [0.0, 0.0, 0.0, 10.0, -5.3, 1234.5, 1e5]


def axis(rng, n, far=False):
    dt = STEPS[rng.integers(len(STEPS))]
    t0 = STARTS[rng.integers(len(STARTS))]
    k = rng.integers(8)
    if far:
        t0 = float(rng.choice([1e7, 1.6e9, -3e8]))
        dt = float(rng.choice([0.1, 0.05, 1.0, 0.5]))
    if k == 0 and not far:
        return np.arange(n) * int(rng.integers(1, 4)) + int(rng.integers(-3, 4))  # integers
    if k == 1:
        return np.linspace(t0, t0 + dt * (n - 1), n)
    return t0 + np.arange(n) * dt


def dyadic_axis(rng):
    """an axis whose step, length and frequencies are exact numbers"""
    n = int(2 ** rng.integers(2, 7))
    return int(rng.integers(-4, 9)) + np.arange(n) * float(rng.choice([0.5, 0.25, 1.0, 2.0, 0.125]))


def signal(rng, t, kind=None):
    n = len(t)
    kinds = ["noise", "sines", "grid", "plateau", "drift", "tiny", "huge", "alternate", "spikes", "zeros", "positive",
             "once", "saw", "offset", "floats", "negzero", "counts", "level", "specks"]
    kind = kind or kinds[rng.integers(len(kinds))]
    k = np.arange(n)
    if kind == "noise":
        return rng.standard_normal(n)
    if kind == "sines":
        x = np.zeros(n)
        for _ in range(rng.integers(1, 5)):
            x = x + rng.uniform(0.1, 2) * np.sin(2 * np.pi * k * rng.uniform(0.5 / n, 0.45) + rng.uniform(0, 7))
        return x
    if kind == "grid":
        return rng.integers(-2, 3, n).astype(float)
    if kind == "plateau":
        return np.repeat(rng.integers(-1, 2, n), rng.integers(1, 4))[:n].astype(float)
    if kind == "drift":
        return rng.standard_normal(n) + (k - n / 2) * rng.uniform(-0.2, 0.2)
    if kind == "tiny":
        return rng.standard_normal(n) * 10.0 ** -rng.integers(5, 10)
    if kind == "huge":
        return rng.standard_normal(n) * 10.0 ** rng.integers(3, 7)
    if kind == "alternate":
        return np.where(k % 2 == 0, 1.0, -1.0) * rng.uniform(0.5, 2, n)
    if kind == "spikes":
        x = np.zeros(n)
        x[rng.integers(0, n, max(1, n // 5))] = rng.standard_normal(max(1, n // 5))
        return x
    if kind == "zeros":
        return np.zeros(n)
    if kind == "positive":
        return np.abs(rng.standard_normal(n)) + 0.1
    if kind == "once":
        return np.where(k < n // 2, 1.0, -1.0) * rng.choice([-1.0, 1.0])
    if kind == "saw":
        return ((k * rng.integers(1, 4)) % rng.integers(3, 9) - 2).astype(float)
    if kind == "offset":
        return rng.standard_normal(n) + rng.uniform(-3, 3)
    if kind == "level":  # small waves on a high level
        return rng.standard_normal(n) * 10.0 ** -rng.integers(0, 3) + 10.0 ** rng.integers(2, 5)
    if kind == "counts":  # as from a converter of 8 or 16 bits
        m = int(rng.choice([100, 30000]))
        return rng.integers(-m, m + 1, n).astype(float)
    if kind == "specks":  # some samples next to nothing
        x = rng.standard_normal(n)
        j = rng.uniform(0, 1, n) < 0.3
        return np.where(j, x * 10.0 ** -rng.uniform(5, 18, n), x)
    if kind == "negzero":
        return rng.choice([-0.0, 0.0, 1.0, -1.0], n)
    return np.round(rng.standard_normal(n), 1)


NARROW = [np.int8, np.int16, np.int32, np.uint8, np.uint16, np.uint32, np.uint64]


def whole(x):
    return x.dtype.kind in "iuf" and bool(np.all(x == np.round(x))) and bool(np.all(np.abs(x) < 2**31))


def narrow(rng, x, bits=8):
    """the whole numbers x in one of the narrow integer types that can hold them"""
    lo, hi = (float(np.min(x)), float(np.max(x))) if x.size else (0.0, 0.0)
    fit = [d for d in NARROW if np.iinfo(d).bits >= bits and np.iinfo(d).min <= lo and hi <= np.iinfo(d).max]
    return x.astype(fit[int(rng.integers(3)) % len(fit)] if rng.integers(4) else fit[-1])


def form(rng, x, strict=True, bits=8):
    """the same numbers in another form: list, integers of any width (when they are), column vector (when allowed),
    a view of another array, a read-only array, the other byte order"""
    k = rng.integers(10)
    x = np.asarray(x)
    if k <= 1:
        return x.tolist() if k or x.ndim > 1 or x.size % 2 else tuple(x.tolist())
    if k <= 3 and whole(x):
        return x.astype(int) if k == 2 else narrow(rng, x, bits)
    if k == 4 and not strict:
        return x.reshape(-1, 1)
    if k == 5 and x.ndim == 1:  # every third number of a longer array
        y = np.full(3 * len(x), 77, x.dtype)
        y[1::3] = x
        return y[1::3]
    if k == 6 and x.ndim == 1:  # read backwards
        return x[::-1].copy()[::-1]
    if k == 7:
        y = x.copy()
        y.flags.writeable = False
        return y
    if k == 8 and x.dtype.kind == "f":  # in the other order of bytes, as read from a file
        return x.astype(">f8")
    if k == 8 and x.dtype.kind == "c":
        return x.astype(">c16")
    if k == 9 and x.dtype.kind == "c" and not np.any(x.imag):
        return x.real.copy()
    return x


def sizes(rng, tier, top=400):
    """a length: small, around a power of two, odd and even, sometimes long"""
    k = rng.integers(10)
    if k < 4:
        return int(rng.integers(2, 13))
    if k < 7:
        return int(2 ** rng.integers(3, 8) + rng.integers(-1, 2))
    if k < 9:
        return int(rng.integers(13, 200))
    return int(rng.integers(min(200, top // 2), top if tier == "quick" else 4 * top))


def waves_table(rng, n):
    """wave heights and periods, with ties"""
    k = rng.integers(7)
    if k == 6:
        h = rng.integers(1, 20000, n).astype(float)
    elif k == 0:
        h = rng.integers(0, 4, n).astype(float)
    elif k == 1:
        h = np.full(n, 1.5)
    elif k == 2:
        h = rng.choice([0.1, 0.2, 0.3, 0.30000000000000004], n)
    elif k == 3:
        h = rng.uniform(0, 1, n) * 10.0 ** rng.integers(-6, 6)
    else:
        h = rng.rayleigh(1.0, n)
    T = rng.integers(1, 5, n).astype(float) if rng.integers(2) else rng.uniform(2, 12, n)
    return h, T


def freqs(rng, n):
    df = float(rng.choice([0.01, 0.005, 0.02, 0.05, 0.1, 1 / 30, 0.001, 0.25]))
    k = rng.integers(5)
    i0 = 0 if k < 3 else int(rng.integers(1, 6))
    if k == 4 and rng.integers(2):  # begins just above zero
        return df * 10.0 ** -rng.integers(1, 3) + np.arange(n) * df
    return (np.arange(n) + i0) * df


def uneven(rng, f):
    """an increasing axis with other steps, for what does not ask for equal ones"""
    f = np.array(f, float)
    h = f[1] - f[0]
    k = rng.integers(3)
    if k == 0:
        return f + np.concatenate([[0.0, 0.0], rng.uniform(-0.4, 0.4, len(f) - 2) * h])
    if k == 1:  # wider and wider
        return f[0] + np.cumsum(np.concatenate([[0.0], h * np.exp(np.arange(len(f) - 1) * min(0.03, 3.0 / len(f)))]))
    return np.concatenate([f[: len(f) // 2], f[len(f) // 2 :] + h * rng.uniform(0.1, 5)])


def jitter(rng, t):
    """a time axis with steps as unequal as Series takes them"""
    t = np.array(t, float)
    h = t[1] - t[0]
    a = min(0.4 * h, 0.8 * np.sqrt(0.0075 * h))
    return t + rng.uniform(-a, a, len(t)) * (1.0 if rng.integers(2) else 0.1)


def spectrum(rng, f, kind=None):
    n = len(f)
    kinds = ["bell", "noise", "two", "grid", "edge", "flat", "spike", "jonswap", "ints", "tiny", "huge", "zeroends"]
    kind = kind or kinds[rng.integers(len(kinds))]
    k = np.arange(n)
    if kind == "bell":
        return np.exp(-((k - rng.uniform(0, n)) ** 2) / (2 * rng.uniform(0.5, n / 3 + 1) ** 2))
    if kind == "noise":
        return rng.uniform(0, 1, n)
    if kind == "two":
        a, b = rng.uniform(0, n, 2)
        return np.exp(-((k - a) ** 2) / 4.0) + rng.uniform(0.2, 1) * np.exp(-((k - b) ** 2) / 9.0)
    if kind == "grid":
        return rng.integers(0, 4, n).astype(float)
    if kind == "edge":
        x = np.sort(rng.uniform(0.01, 1, n))
        return x if rng.integers(2) else x[::-1].copy()
    if kind == "flat":
        return np.ones(n) * rng.uniform(0.1, 3)
    if kind == "spike":
        x = np.zeros(n)
        x[rng.integers(0, n)] = rng.uniform(0.5, 3)
        return x
    if kind == "jonswap":
        fp = f[min(n - 1, max(1, int(rng.uniform(0.1, 0.7) * n)))] or 0.1
        nu = np.where(f > 0, f, 1.0) / fp
        s = np.where(f < fp, 0.07, 0.09)
        x = nu**-5.0 * np.exp(-1.25 * nu**-4.0) * 3.3 ** np.exp(-((nu - 1) ** 2) / (2 * s**2))
        return np.where(f > 0, x, 0.0)
    if kind == "ints":
        return rng.integers(1, int(rng.choice([30, 30000])), n).astype(float)
    if kind == "tiny":
        return rng.uniform(0, 1, n) * 10.0 ** -rng.integers(3, 9)
    if kind == "huge":
        return rng.uniform(0, 1, n) * 10.0 ** rng.integers(2, 6)
    x = rng.uniform(0.1, 1, n)
    x[: n // 4] = 0
    return x

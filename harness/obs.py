"""Recording of executions of the real code.

A Session records one history: a table of arrays (`d`) and a list of events (`ev`), each event one call of the
toolbox with its arguments, its outcome and the state of the object it was applied to.  Numbers are written as
limb tuples (BigNum.tla): sign, then base-10^4 limbs, little-endian, of the value rounded to 10^-32 (away from zero
when that would give zero: only zero is written as zero).
"""
import gc
import json
import locale
import numbers
import os
import random
import signal
import sys
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

UNIT = 10**32
NAN, PINF, NINF = [9], [8], [7]
CALL_TIMEOUT = 25


def limbs(x):
    """float/int -> limb tuple"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, numbers.Integral):
        v = int(x) * UNIT
    else:
        x = float(x)
        if x != x:
            return NAN
        if x == float("inf"):
            return PINF
        if x == float("-inf"):
            return NINF
        n, d = x.as_integer_ratio()
        n *= UNIT
        v = n if d == 1 else (2 * abs(n) + d) // (2 * d) * (1 if n >= 0 else -1)
        if v == 0 and x:  # a number below the resolution keeps its sign
            v = 1 if x > 0 else -1
    if v == 0:
        return [0]
    s = 1
    if v < 0:
        s, v = -1, -v
    out = [s]
    while v:
        v, q = divmod(v, 10**16)
        if v:
            out += [q % 10000, q // 10000 % 10000, q // 100000000 % 10000, q // 1000000000000]
        else:
            while q:
                q, r = divmod(q, 10000)
                out.append(r)
    return out


def settings(figures):
    """what a process is set to, by name; figures: the open figures count too"""
    rc = {k: str(v) for k, v in dict.items(matplotlib.rcParams) if not k.startswith("backend")}
    out = {"numpy error handling": dict(np.geterr()), "numpy print options": str(sorted(np.get_printoptions().items(), key=str)),
           "matplotlib settings": rc, "warning filters": list(warnings.filters), "working directory": os.getcwd(),
           "environment": dict(os.environ), "python random state": random.getstate(), "locale": locale.setlocale(locale.LC_ALL),
           "recursion limit": sys.getrecursionlimit(), "garbage collection": gc.isenabled()}
    if figures:
        out["open figures"] = list(plt.get_fignums())
    return out


class BadResult(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("call did not return")


def snapshot(x):
    """something that changes when the argument is modified"""
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return ("l", tuple(snapshot(v) for v in x))
    if isinstance(x, (numbers.Number, str, bytes, type(None))):
        return ("s", type(x).__name__, repr(x))
    d = getattr(x, "__dict__", None)
    if d is not None:
        return ("o", tuple((k, snapshot(v)) for k, v in sorted(d.items())))
    return ("?",)


def vec(x, cplx=False):
    """1-D numeric array out of a result, or BadResult"""
    a = np.asarray(x)
    if a.size == 0:
        return np.zeros(0)
    if a.ndim != 1:
        raise BadResult(f"expected a 1-D array, got shape {a.shape}")
    if a.dtype.kind not in ("iufbc" if cplx else "iufb"):
        raise BadResult(f"expected numbers, got dtype {a.dtype}")
    return a


def num(x):
    """number out of a result (a one-element array counts as a number)"""
    a = np.asarray(x)
    if a.size != 1 or a.dtype.kind not in "iufb":
        raise BadResult(f"expected a number, got {x!r}")
    return a.ravel()[0]


def integer(x):
    a = np.asarray(x)
    if a.size != 1 or a.dtype.kind not in "iufb" or a.ravel()[0] != int(a.ravel()[0]):
        raise BadResult(f"expected a whole number, got {x!r}")
    return int(a.ravel()[0])


class Session:
    def __init__(self, sid, note=""):
        self.sid = sid
        self.note = note
        self.d = []
        self._key = {}
        self.ev = []
        self.nobj = 0
        self.watch = []  # arrays handed over earlier, or returned earlier: nothing may change them
        self.mine = lambda: []  # arrays that live objects hold

    # ---- data table
    def arr(self, x):
        """reference of an array (1-D or 2-D, real or complex) in the data table"""
        is_list = not isinstance(x, np.ndarray)
        a = np.asarray(x)
        cplx = a.dtype.kind == "c"
        if a.dtype.kind not in "iufbc":
            raise BadResult(f"not a numeric array: {a.dtype}")
        key = (a.dtype.str, a.shape, is_list, a.tobytes())
        if key in self._key:
            return self._key[key]
        flat = a.ravel()
        ent = {"sh": [int(n) for n in a.shape], "k": "list" if is_list else ("int" if a.dtype.kind in "iub" else "float"),
               "c": bool(cplx), "fin": bool(np.all(np.isfinite(flat)))}
        if cplx:
            ent["v"] = []
            ent["re"] = [limbs(v) for v in flat.real.tolist()]
            ent["im"] = [limbs(v) for v in flat.imag.tolist()]
        else:
            ent["v"] = [limbs(v) for v in flat.tolist()]
            ent["re"] = []
            ent["im"] = []
        self.d.append(ent)
        self._key[key] = len(self.d)
        return len(self.d)

    def enc(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, str):
            return v
        if isinstance(v, N):
            return limbs(v.x)
        if isinstance(v, numbers.Integral) and not isinstance(v, float):
            return int(v)
        if isinstance(v, (float, np.floating)):
            return limbs(v)
        if isinstance(v, dict):
            return {k: self.enc(w) for k, w in v.items()}
        if isinstance(v, Raw):
            return v.x
        return self.arr(v)

    def changed(self):
        """names of the watched arrays that changed since they were last looked at"""
        out = []
        for w in self.watch:
            now = snapshot(w[1])
            if now != w[2]:
                out.append("earlier " + w[0])
                w[2] = now
        return out

    # ---- events
    def call(self, op, args, fn, res, o=0, post=None, always=False):
        """Run fn(), record the event; args: recorded arguments; res(value) -> dict of observed results;
        post() -> dict with the visible state of object o afterwards.  Returns (ok, value)."""
        pre = {k: self.enc(v) for k, v in args.items()}
        snaps = {k: (v, snapshot(v)) for k, v in args.items() if isinstance(v, (np.ndarray, list))}
        np_state = np.random.get_state()
        ok, val, why, r, raw, env, warned = True, None, "", {}, {}, [], []
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CALL_TIMEOUT)
        try:
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                was = settings(not op.startswith("plot."))
                try:
                    val = fn()
                finally:
                    now = settings(not op.startswith("plot."))
                    env = [k for k in was if was[k] != now[k]]
            signal.alarm(0)
            raw = res(val)
            r = {k: self.enc(v) for k, v in raw.items()}
        except Timeout as e:
            ok, why = False, "timeout"
        except BadResult as e:
            ok, why = False, "bad result: " + str(e)
        except Exception as e:  # a rejected call
            ok, why = False, f"{type(e).__name__}: {e}"
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        mut = [k for k, (v, s) in snaps.items() if snapshot(v) != s]
        mut += self.changed()
        if ok:
            for k, v in list(args.items()) + list(raw.items()):
                if isinstance(v, (np.ndarray, list)) and np.size(v) <= 20000 and len(self.watch) < 60:
                    self.watch.append([f"{op}.{k}", v, snapshot(v)])
        st2 = np.random.get_state()
        rng = not (np_state[0] == st2[0] and np.array_equal(np_state[1], st2[1]) and np_state[2:] == st2[2:])
        st = {}
        if post is not None and (ok or always):
            try:
                st = {k: self.enc(v) for k, v in post().items()}
            except Exception as e:
                ok, why = False, f"bad state: {type(e).__name__}: {e}"
        if ok and (len(self.ev) + self.sid) % 3 == 0:
            val = self.use_up(val, args)
        self.ev.append({"op": op, "o": o, "a": pre, "ok": ok, "r": r if ok else {}, "st": st if ok or always else {},
                        "mut": mut, "rng": rng, "env": env, "why": why[:200],
                        "warn": sum(issubclass(w.category, UserWarning) and w.category.__module__ == "builtins" for w in warned)})
        return ok, val

    def use_up(self, val, args):
        """an answer belongs to who asked for it: its arrays are written over, the caller goes on with copies"""
        parts = list(val) if isinstance(val, (tuple, list)) else [val]
        if not any(isinstance(v, np.ndarray) for v in parts):
            return val
        copies = [v.copy() if isinstance(v, np.ndarray) else v for v in parts]
        if write_over(parts, [v for v in args.values() if isinstance(v, np.ndarray)] + self.mine()):
            for w in self.watch:
                w[2] = snapshot(w[1])
        return copies if isinstance(val, list) else tuple(copies) if isinstance(val, tuple) else copies[0]

    def event(self, op, args, r):
        """an observation that is not a single call"""
        self.ev.append({"op": op, "o": 0, "a": {k: self.enc(v) for k, v in args.items()}, "ok": True,
                        "r": {k: self.enc(v) for k, v in r.items()}, "st": {}, "mut": [], "rng": False, "env": [], "why": "",
                        "warn": 0})

    def obj(self):
        self.nobj += 1
        return self.nobj

    def dump(self):
        return {"sid": self.sid, "note": self.note, "d": self.d, "ev": self.ev}


class N:
    """a number that is recorded as a fixed-point number even when it is an int"""

    def __init__(self, x):
        self.x = x


class Raw:
    """recorded as is (already JSON)"""

    def __init__(self, x):
        self.x = x


def write_over(parts, keep):
    """fill the arrays that share no memory with those to keep; tells whether there were any"""
    done = False
    for v in parts:
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind in "iufc" and not any(np.may_share_memory(v, k) for k in keep):
            v[...] = 7
            done = True
    return done


def write(sessions, path):
    with open(path, "w") as fh:
        for s in sessions:
            fh.write(json.dumps(s.dump(), separators=(",", ":")) + "\n")

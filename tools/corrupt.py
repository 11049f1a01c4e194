"""How tightly recorded behaviour is bound to the specification: recorded sessions of the real code, each with one observed
value changed, must be rejected.  Prints per request and field how many of the changes were noticed.

python3 tools/corrupt.py [--seed 1] [--sessions 20] [--targets 6] C01 C02 ...
"""
import argparse
import collections
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import check  # noqa: E402

check.__file__ = check.__file__
COUNTS = {"n", "nt", "nf", "i"}
PLAIN = {"bins", "size", "sn", "rn"}


def value(x):
    v = 0
    for q in reversed(x[1:]):
        v = v * 10000 + q
    return x[0] * v


def limbs(v):
    if v == 0:
        return [0]
    out, v = [1 if v > 0 else -1], abs(v)
    while v:
        v, q = divmod(v, 10000)
        out.append(q)
    return out


def nudge(x, scale, rel):
    """another number: changed by rel of the scale"""
    if x[0] in (9, 8, 7, 6):
        return limbs(10**32)
    v = value(x)
    return limbs(v + max(int(max(abs(v) if not scale else 0, scale) * rel), 10**22))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--sessions", type=int, default=20)
    ap.add_argument("--targets", type=int, default=8)
    ap.add_argument("--rel", type=float, default=1e-4)
    args = ap.parse_args()
    scratch = os.environ["WT_SCRATCH"]
    import multiprocessing as mp

    import drivers
    import numpy as np

    classes = check.java_override(scratch)
    ids = args.ids or sorted(drivers.DRIVERS)
    for pid in ids:
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            ss = pool.starmap(session, [(pid, args.seed, i) for i in range(4, 4 + args.sessions)])
        rng = np.random.default_rng(args.seed)
        dumps, what = [], []
        for s in ss:
            if len(json.dumps(s)) > 1_500_000:
                continue
            todo = [(k, part, f) for k, e in enumerate(s["ev"]) if e["ok"] for part in ("r", "st") for f in e[part]]
            seen = collections.Counter()
            for j in rng.permutation(len(todo)):
                k, part, f = todo[j]
                if len(seen) >= args.targets:
                    break
                if seen[s["ev"][k]["op"], f]:
                    continue
                seen[s["ev"][k]["op"], f] += 1
                for kind in ("one", "drop", "swap"):
                    t = corrupt(json.loads(json.dumps(s)), k, part, f, kind, rng, args.rel)
                    if t:
                        dumps.append(json.dumps(t, separators=(",", ":")))
                        what.append((s["ev"][k]["op"], part + "." + f, kind, k + 1, s["sid"]))
        st, tr, fails, late = check.run_batches(scratch, classes, dumps, 1e18)
        hit = {n for n, l, c in fails if l == what[n][3]}
        tot, got, miss = collections.Counter(), collections.Counter(), {}
        for n, w in enumerate(what):
            tot[w[:3]] += 1
            got[w[:3]] += n in hit
            if n not in hit:
                miss.setdefault(w[:3], []).append((w[4], w[3]))
        print(f"{pid}: {sum(got.values())} of {sum(tot.values())} changes noticed", flush=True)
        for w in sorted(tot):
            if got[w] < tot[w]:
                print("   ", *w, f"{got[w]}/{tot[w]}", "e.g. session, event", miss[w][:3])


def session(pid, seed, i):
    import drivers

    return drivers.session(pid, seed, i, "quick").dump()


def corrupt(s, k, part, f, kind, rng, rel):
    s["ev"] = s["ev"][:k + 1]
    e = s["ev"][k]
    v = e[part][f]
    if isinstance(v, dict):
        keys = sorted(v)
        if not keys or kind != "one":
            return None
        q = keys[int(rng.integers(len(keys)))]
        new = dict(v)
        if isinstance(v[q], list):
            new[q] = nudge(v[q], 0, rel)
        else:
            return None
        e[part][f] = new
    elif isinstance(v, bool):
        if kind != "one":
            return None
        e[part][f] = not v
    elif isinstance(v, str):
        if kind != "one":
            return None
        e[part][f] = v + "x"
    elif isinstance(v, list):
        if kind != "one":
            return None
        if f in PLAIN:
            e[part][f] = v + [1]
        elif v and all(isinstance(q, list) for q in v):
            j = int(rng.integers(len(v)))
            e[part][f] = v[:j] + [nudge(v[j], 0, rel)] + v[j + 1:]
        elif v and isinstance(v[0], int):
            e[part][f] = nudge(v, 0, rel)
        else:
            return None
    elif f in COUNTS:
        if kind != "one":
            return None
        e[part][f] = v + 1
    else:
        d = json.loads(json.dumps(s["d"][v - 1]))
        names = ["re", "im"] if d["c"] else ["v"]
        n = len(d[names[0]])
        if n == 0 or len(d["sh"]) != 1 or not d["fin"]:
            return None
        if kind == "one":
            part_ = names[int(rng.integers(len(names)))]
            j = int(rng.integers(n))
            scale = max(abs(value(x)) for x in d[part_])
            d[part_][j] = nudge(d[part_][j], scale or 10**32, rel)
        elif kind == "drop":
            for p in names:
                d[p] = d[p][:-1]
            d["sh"] = [n - 1]
        else:
            a, b = (int(q) for q in rng.integers(0, n, 2))
            if all(d[p][a] == d[p][b] for p in names):
                return None
            scale = max(abs(value(x)) for p in names for x in d[p])
            if max(abs(value(d[p][a]) - value(d[p][b])) for p in names) < scale * rel:
                return None
            for p in names:
                d[p][a], d[p][b] = d[p][b], d[p][a]
        s["d"].append(d)
        e[part][f] = len(s["d"])
    return s


if __name__ == "__main__":
    if os.environ.get("WT_CHECK") != "1":
        check.__file__ = os.path.abspath(__file__)
        check.reexec()
    main()

"""One check: python3 harness/check.py C01 [--tier quick|thorough]

Drives the real toolbox (/repo), records what it did, and has TLC decide whether every recorded session is a
behaviour of the specification (spec/Toolbox.tla, through spec/Trace.tla).
Exit 0: accepted; exit 1: a clause of the property is violated (VIOLATION line); exit 2: machinery failure.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WT_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
BUDGET = 600  # seconds after which no further batch is started
BATCH = 30_000_000  # bytes of recorded sessions checked by one run of TLC
MODEL_SIDS = 100000  # sessions that replay scenarios of the models


def reexec():
    """run under the interpreter that has the toolbox's dependencies, importing the toolbox from /repo"""
    if os.environ.get("WT_CHECK") == "1":
        return
    env = dict(os.environ, WT_CHECK="1", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    scratch = tempfile.mkdtemp(prefix="wtb-")
    env["WT_SCRATCH"] = scratch
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["TMPDIR"] = scratch
    os.makedirs(env["MPLCONFIGDIR"])
    try:
        rc = subprocess.call([PY if os.path.exists(PY) else sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


def java_override(scratch):
    """compile the BigInteger override of module BigNum (speed only); without it TLC uses the TLA+ definitions"""
    out = os.path.join(scratch, "classes")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", out, os.path.join(VERIF, "java", "BigNum.java")],
                       capture_output=True, text=True)
    return out if r.returncode == 0 else None


def tlc(scratch, classes, module, cfg, env, timeout, extra=(), workers=8, heap="8g"):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cp = (classes + ":" if classes else "") + JARS
    cmd = ["java", f"-Djava.io.tmpdir={scratch}", f"-DTLA-Library={VERIF}/spec", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, "-noGenerateSpecTE", *extra, module]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, **env))
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def counts(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


FAIL = re.compile(r'FAIL\|(\d+)\|(\d+)\|\{(.*)\}')


def run_trace(scratch, classes, dumps, timeout, tag="", workers=8, heap="8g"):
    """TLC on recorded sessions. Returns (states, transitions, [(session index, event index, [clauses])], error)"""
    fails, states, gen = [], 0, 0
    skip = set()
    for attempt in range(12):
        use = [k for k in range(len(dumps)) if k not in skip]
        path = os.path.join(scratch, f"trace{tag}{attempt}.ndjson")
        with open(path, "w") as fh:
            for k in use:
                fh.write(dumps[k] + "\n")
        out = tlc(scratch, classes, "Trace.tla", "Trace.cfg", {"TRACE": path}, timeout, workers=workers, heap=heap)
        os.unlink(path)
        for s, l, c in FAIL.findall(out):
            fails.append((use[int(s) - 1], int(l), re.findall(r'\\?"(.*?)\\?"', c)))
        g, d = counts(out)
        if "Model checking completed. No error has been found" in out:
            want = sum(len(json.loads(dumps[k])["ev"]) + 1 for k in use)
            if d != want:
                return d, g, fails, f"TLC found {d} distinct states, expected {want}\n" + out[-3000:]
            return d, g - len(use), fails, ""
        # an event whose observed values lie outside what the specification can even evaluate
        m = re.findall(r"/\\ s = (\d+)", out), re.findall(r"/\\ l = (\d+)", out)
        if not (m[0] and m[1]) or "Java heap space" in out or "OutOfMemory" in out:
            return d, g, fails, out[-4000:]
        k, l = use[int(m[0][-1]) - 1], int(m[1][-1])
        msg = re.sub(r"\s+", " ", out[out.find("Error:"):][:600])
        fails.append((k, l, ["TLC:cannot be evaluated: " + msg]))
        skip.add(k)
    return d, g, fails, "" if fails else "too many evaluation errors"


def run_batches(scratch, classes, dumps, deadline):
    """recorded sessions in batches of bounded size, two at a time, the shuffled rest left out when the time is up"""
    order = list(range(len(dumps)))
    random.Random(1).shuffle(order)
    share = min(BATCH, max(1, sum(map(len, dumps)) // 2))
    batches, size = [[]], 0
    for k in order:
        if batches[-1] and size + len(dumps[k]) > share:
            batches.append([])
            size = 0
        batches[-1].append(k)
        size += len(dumps[k])

    def run(n_batch):
        n, batch = n_batch
        if time.time() > deadline:
            return batch, None
        return batch, run_trace(scratch, classes, [dumps[k] for k in batch], 3000, f"{n}-", 5, "5g")

    states, trans, fails, late = 0, 0, [], 0
    with ThreadPoolExecutor(2) as threads:
        for batch, res in threads.map(run, enumerate(batches)):
            if res is None:
                late += len(batch)
                continue
            d, g, f, err = res
            if err:
                print("machinery failure: " + err, file=sys.stderr)
                sys.exit(2)
            states, trans = states + d, trans + g
            fails += [(batch[k], l, c) for k, l, c in f]
    return states, trans, fails, late


def describe(ev, d):
    """a recorded event, short"""
    def short(x):
        if isinstance(x, int) and not isinstance(x, bool) and 1 <= x <= len(d):
            e = d[x - 1]
            v = e["v"] or e["re"]
            return f"{e['k']}{e['sh']}" + ("" if len(v) > 12 else str([num(q) for q in v]))
        return num(x)

    def num(x):
        if isinstance(x, list) and x and all(isinstance(q, int) for q in x):
            if x[0] in (9, 8, 7, 6):
                return {9: "nan", 8: "inf", 7: "-inf", 6: "absent"}[x[0]]
            v = 0
            for q in reversed(x[1:]):
                v = v * 10000 + q
            return x[0] * v / 10**32
        return x

    keys = {"t", "x", "h", "T", "tc", "f", "S", "X", "X1", "X2", "w", "k", "pos", "wt", "inc", "ref", "z", "c", "P", "y"}
    return {"op": ev["op"], "args": {k: short(v) if k in keys else num(v) for k, v in ev["a"].items()}, "ok": ev["ok"],
            "why": ev["why"]}


def load_known(pid):
    """known findings: property, clause and the recorded request that fails"""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sessions", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--all-clauses", action="store_true", help="report the clauses of other properties too")
    ap.add_argument("--drivers-only", action="store_true")
    ap.add_argument("--models-only", action="store_true")
    ap.add_argument("--keep")
    args = ap.parse_args()
    t0 = time.time()
    pid, tier = args.property, "thorough" if args.tier == "thorough" else "quick"
    scratch = os.environ["WT_SCRATCH"]
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    import drivers
    import models
    import multiprocessing as mp

    n = args.sessions or drivers.COUNTS[pid][tier]
    ids = [args.only] if args.only is not None else list(range(n))
    info = {"model_states": 0, "model_transitions": 0, "model_runs": []}
    plan = [] if args.only is not None and args.only < MODEL_SIDS or args.drivers_only else models.plan(pid, tier)
    classes = java_override(scratch)
    # every session in a process of its own, forked before any request was made: sessions do not see each other
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool, ThreadPoolExecutor(2) as threads:
        jobs = [threads.submit(models.model, tlc, counts, scratch, classes, k, entry, info) for k, entry in enumerate(plan)]
        own = pool.starmap_async(work, [(pid, args.seed, i, tier) for i in ids if i < MODEL_SIDS and not args.models_only], chunksize=1)
        try:
            chunks = [c for j in jobs for c in j.result()]
        except models.ModelError as e:
            print("machinery failure (model): " + str(e), file=sys.stderr)
            sys.exit(2)
        t_model = time.time() - t0
        info["model_runs"].sort(key=lambda r: (r["model"], str(r["constants"])))
        todo = [(pid, args.seed, MODEL_SIDS + i, name, rows) for i, (name, rows) in enumerate(chunks)]
        made = own.get() + pool.starmap(models.session, [a for a in todo if args.only is None or args.only == a[2]], chunksize=1)
    broken = [(s, b) for s, b, _ in made if b]
    dumps = [d for _, _, d in made]
    if args.keep:
        with open(args.keep, "w") as fh:
            fh.write("\n".join(dumps) + "\n")
    states, trans, fails, late = run_batches(scratch, classes, dumps, t0 + BUDGET)
    if late:  # out of time: what was not decided does not count
        print(f"{late} of {len(dumps)} recorded sessions left undecided when the time was up")
    t_tlc = time.time() - t0

    rep = os.path.join(VERIF, "replay")
    known = load_known(pid)
    viol, seen = [], {}
    for k, l, clauses in sorted(fails):
        mine = [c for c in clauses if args.all_clauses or c.startswith(pid + ":") or c.startswith("TLC:")]
        if mine:
            viol.append((k, l, mine))
    for s, b in broken:
        viol.append((next(k for k, m in enumerate(made) if m[0] == s), 0, [f"{pid}:session could not be continued: {b}"]))
    reported, kf = 0, set()
    for k, l, mine in viol:
        sess = json.loads(dumps[k])
        ev = sess["ev"][l - 1] if l else None
        for f in known:
            if ev and f["op"] == ev["op"] and f["clause"] in mine and all(json.dumps(ev["a"].get(q)) == json.dumps(v) for q, v in f["args"].items()):
                kf.add(f["what"])
                mine = [c for c in mine if c != f["clause"]]
        if not mine:
            continue
        reported += 1
        key = tuple(sorted(mine))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 2 or len(seen) > 12:
            continue
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{pid}-{sess['sid']}-{l}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "clauses": mine, "seed": args.seed, "tier": tier, "session": sess["sid"], "event": l,
                       "rerun": f"python3 /verif/harness/check.py {pid} --tier {tier} --seed {args.seed} --only {sess['sid']}",
                       "request": describe(ev, sess["d"]) if ev else None,
                       "history": [describe(e, sess["d"]) for e in sess["ev"][: max(0, l - 1)]][-12:],
                       "trace": sess}, fh)
        print(f"VIOLATION property={pid} replay={path}")
        print("   clauses: " + ", ".join(mine))
        if ev:
            print("   request: " + json.dumps(describe(ev, sess["d"]))[:700])
    for w in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {w}")

    ops = {}
    for d in dumps:
        for e in json.loads(d)["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    samples = []
    for k in range(0, len(dumps), max(1, len(dumps) // 3)):
        s = json.loads(dumps[k])
        samples.append({"session": s["sid"], "note": s["note"], "events": [describe(e, s["d"]) for e in s["ev"][:2]]})
    ev = {"property": pid, "tier": tier, "seed": args.seed, "level": "model_checking",
          "coverage": {"states": states + info["model_states"], "transitions": trans + info["model_transitions"],
                       "traces_validated_against_impl": len(dumps) - late, "traces_undecided": late, "requests_by_operation": ops,
                       "trace_states": states, "specification_models": info["model_runs"], "scenario_sessions": sum(m[0] >= MODEL_SIDS for m in made),
                       "bignum_override": bool(classes), "samples": samples[:4]},
          "assumptions": ["TLC evaluates the specification correctly", "numbers are compared after rounding to 1e-32",
                          "requests are those of the drivers and models named in DESIGN.md"],
          "wall_s": round(time.time() - t0, 2), "violations": reported}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} {tier}: {len(dumps)} sessions, {sum(ops.values())} requests, {states} trace states, "
          f"{info['model_states']} model states, {reported} violations, {time.time() - t0:.1f}s (models at {t_model:.1f}s, TLC done at {t_tlc:.1f}s)")
    sys.exit(1 if reported else 0)


def work(pid, seed, i, tier):
    import drivers
    s = drivers.session(pid, seed, i, tier)
    return i, s.broken, json.dumps(s.dump(), separators=(",", ":"))


if __name__ == "__main__":
    reexec()
    main()

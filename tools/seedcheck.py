"""validates the planted bugs in seeded/ in scratch copies of /repo, and runs the property's check against each

python3 tools/seedcheck.py [--tier quick] [--seed 1] [--all-checks] [--no-valid] [ID ...]
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(copy, tmp):
    xml = os.path.join(tmp, "j.xml")
    env = dict(ENV, PYTHONPATH=copy, MPLCONFIGDIR=os.path.join(tmp, "mpl"))
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=" + xml, "-o", "junit_family=xunit2"], copy, env)
    import xml.etree.ElementTree as ET

    ok = set()
    for c in ET.parse(xml).iter("testcase"):
        if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")):
            ok.add(c.get("classname") + "::" + c.get("name"))
    return STABLE - ok


def one(bug, a):
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        env = dict(ENV, PYTHONPATH=copy, MPLCONFIGDIR=os.path.join(tmp, "mpl"))
        out = {}
        if not a.no_valid:
            out["clean"], o1 = sh(["bash", os.path.join(demo, "demo.sh")], copy, env)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            return bug, meta["property"], "PATCH DOES NOT APPLY " + o, []
        if not a.no_valid:
            out["bug"], o2 = sh(["bash", os.path.join(demo, "demo.sh")], copy, env)
            out["tests"] = tests(copy, tmp)
            # only lines of the original
            if out["clean"] != 0 or out["bug"] == 0 or out["tests"]:
                return bug, meta["property"], f"INVALID clean={out['clean']} bug={out['bug']} tests={sorted(out['tests'])} {o1[-300:]} {o2[-300:]}", []
        got = []
        for c in ([f"C{k:02d}" for k in range(1, 24)] if a.all_checks else [meta["property"]]):
            rc, o = sh(["python3", os.path.join(V, "harness", "check.py"), c, "--tier", a.tier, "--seed", str(a.seed)], V, dict(ENV, WT_REPO=copy))
            if rc == 1 and f"VIOLATION property={c}" in o:
                n = re.search(r"(\d+) violations", o)
                cl = sorted(set(re.findall(r"clauses: (.*)", o)))
                got.append(f"{c}[{n.group(1)}: {'; '.join(cl)[:150]}]")
            elif rc not in (0, 1):
                got.append(f"{c} ERROR {o[-300:]}")
        return bug, meta["property"], "valid", got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--no-valid", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
    keep = os.path.join(V, "replay")
    with cf.ThreadPoolExecutor(2) as ex:
        for bug, pid, state, got in ex.map(lambda b: one(b, a), ids):
            print(f"{bug:32s} {pid} {state:8s} {'caught ' + ' '.join(got) if got else 'NOT CAUGHT'}", flush=True)
    subprocess.run(["find", keep, "-name", "*.json", "-delete"])
    subprocess.run(["git", "-C", V, "checkout", "-q", "--", "evidence"], capture_output=True)


if __name__ == "__main__":
    main()

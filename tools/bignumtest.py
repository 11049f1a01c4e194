"""checks that the TLA+ definitions of spec/BigNum.tla and their Java override give the same values

python3 tools/bignumtest.py [cases] [seed]: TLC evaluates the same random cases with and without java/BigNum.java
"""
import os
import random
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import check  # noqa: E402


def num(v):
    s, m, out = (v > 0) - (v < 0), abs(v), []
    while m:
        out.append(m % 10000)
        m //= 10000
    return "<<" + ", ".join(str(k) for k in [s, *out]) + ">>"


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)

    def some():
        k = rnd.randrange(6)
        if k == 0:
            return 0
        if k == 1:
            return rnd.choice([1, -1]) * 10 ** rnd.randrange(0, 40)
        if k == 2:
            return rnd.choice([1, -1]) * (10000 ** rnd.randrange(1, 9) - rnd.randrange(2))
        return rnd.choice([1, -1]) * rnd.randrange(10 ** rnd.randrange(1, 60))

    lines, want = [], []
    for _ in range(n):
        a, b = some(), some()
        A, B = num(a), num(b)
        for op in ("BAdd", "BSub", "BMul", "FMul"):
            lines.append(f"{op}({A}, {B})")
        if b:
            lines += [f"BDiv({A}, {B})", f"FDiv({A}, {B})"]
        lines += [f"BCmp({A}, {B})", f"BNeg({A})", f"BSqrt({num(abs(a))})", f"BShiftUp({A}, 3)", f"BShiftDown({A}, 2)", f"BToInt({num(a % 10**6)})",
                  f"BInt({a % 10**9})"]
        v = [some() for _ in range(rnd.randrange(1, 7))]
        v += rnd.choices(v, k=rnd.randrange(0, 3))
        w = [rnd.choice([1, 2, 3]) for _ in v]
        s, t = "<<" + ", ".join(map(num, v)) + ">>", "<<" + ", ".join(map(num, w)) + ">>"
        lines += [f"BSum({s})", f"FDot({s}, {t})", f"BOrder({s}, {t})", f"BOrder({s}, <<>>)"]
    src = "---- MODULE BN ----\nEXTENDS BigNum\nVARIABLE x\nInit == x = 0\nNext == x' = x\n"
    src += "ASSUME \\A c \\in {0} : " + "\n  /\\ ".join([""] + [f"PrintT(<<{k}, {e}>>)" for k, e in enumerate(lines)]) + "\n====\n"
    with tempfile.TemporaryDirectory(prefix="bn-") as d:
        open(os.path.join(d, "BN.tla"), "w").write(src)
        open(os.path.join(d, "BN.cfg"), "w").write("INIT Init\nNEXT Next\n")
        outs = []
        for cls in (check.java_override(d), None):
            cp = (cls + ":" if cls else "") + check.JARS
            r = subprocess.run(["java", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={V}/spec", "-Xss64m", "-cp", cp, "tlc2.TLC", "-metadir", os.path.join(d, "m" + str(bool(cls))),
                                "-config", "BN.cfg", "BN.tla"], cwd=d, capture_output=True, text=True)
            rows = [ln for ln in r.stdout.splitlines() if ln.startswith("<<")]
            outs.append((rows, r.stdout))
    a, b = outs[0][0], outs[1][0]
    if len(a) != len(lines) or len(b) != len(lines):
        print(outs[0][1][-1500:], outs[1][1][-1500:])
        sys.exit(f"{len(lines)} cases, {len(a)} and {len(b)} answers")
    bad = [k for k in range(len(lines)) if a[k] != b[k]]
    for k in bad[:10]:
        print(lines[k], a[k], b[k])
    print(f"{len(lines)} cases, {len(bad)} differ")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()

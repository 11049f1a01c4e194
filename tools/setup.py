"""setup_cmd: nothing has to be built in advance; checks that the parts a check needs are there and that the modules parse"""
import glob
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
rc = 0
with tempfile.TemporaryDirectory() as tmp:
    r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", tmp, os.path.join(V, "java", "BigNum.java")], capture_output=True, text=True)
    print("BigNum.java:", "ok" if r.returncode == 0 else r.stderr)
    rc |= r.returncode
for m in sorted(f for f in glob.glob(os.path.join(V, "spec", "*.tla")) if "_TTrace_" not in f):
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + tempfile.gettempdir(), "-cp", JARS, "tla2sany.SANY", os.path.basename(m)],
                       cwd=os.path.join(V, "spec"), capture_output=True, text=True)
    ok = r.returncode == 0 and "*** Errors" not in r.stdout
    print(os.path.basename(m) + ":", "ok" if ok else r.stdout[-300:])
    rc |= 0 if ok else 1
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
r = subprocess.run([py, "-c", "import deltares_wave_toolbox"], env=dict(os.environ, PYTHONPATH="/repo", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
print("import of the toolbox:", "ok" if r.returncode == 0 else "failed")
sys.exit(rc)

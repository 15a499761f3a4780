"""Checks that the tools the framework needs are there, and that every spec parses."""
import glob, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("tlc", "tla-sany", "/opt/venv/bin/python"):
    if not (shutil.which(t) or os.path.exists(t)):
        sys.exit(f"missing tool: {t}")
with tempfile.TemporaryDirectory() as d:
    for f in glob.glob(os.path.join(V, "spec", "*.tla")):
        shutil.copy(f, d)
    for f in sorted(glob.glob(os.path.join(d, "*.tla"))):
        p = subprocess.run(["tla-sany", os.path.basename(f)], cwd=d, capture_output=True, text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal" in p.stdout:
            print(p.stdout[-2000:])
            sys.exit(f"specification does not parse: {f}")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("setup ok")

"""mut.py PATCH PROP... : run checks against a scratch copy of /repo with PATCH applied (a development aid)."""
import os, shutil, subprocess, sys, tempfile, re
patch, props = os.path.abspath(sys.argv[1]), sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    subprocess.check_call(["cp", "-a", "/repo/src", "/repo/setup.py", d + "/"])
    for f in ("setup.cfg", "pyproject.toml", "README.md"):
        if os.path.exists("/repo/" + f):
            shutil.copy("/repo/" + f, d)
    subprocess.check_call(["git", "init", "-q", d])
    subprocess.check_call(["git", "-C", d, "apply", patch])
    for p in props:
        r = subprocess.run([sys.executable, "/verif/check.py", p, "quick"], cwd="/verif", capture_output=True, text=True,
                           env=dict(os.environ, R4V_REPO=d))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        x = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print(os.path.basename(os.path.dirname(patch)) or patch, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", "|", x[0][:230] if x else "")
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-1500:])
finally:
    shutil.rmtree(d, ignore_errors=True)

"""mkdemo.py ID N < demo.py : writes seeded/ID/demo.sh and demo.py (N ranks)"""
import os, sys
d = "/verif/seeded/" + sys.argv[1]
n = int(sys.argv[2])
os.makedirs(d, exist_ok=True)
open(d + "/demo.py", "w").write(sys.stdin.read())
s = open("/verif/tools/democommon.txt").read()
cmd = '/opt/venv/bin/python "$here/demo.py"'
if n > 1:
    cmd = "timeout -k 5 100 mpirun.openmpi --oversubscribe -n %d " % n + cmd
else:
    cmd = "timeout -k 5 100 " + cmd
s += cmd + " || exit 1\nexit 0\n"
open(d + "/demo.sh", "w").write(s)
os.chmod(d + "/demo.sh", 0o755)

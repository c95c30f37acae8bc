"""stable.py OUT.json : which stable tests of the baseline did not pass."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = json.load(open(sys.argv[1]))
m = sorted(set(b) - set(t['passed']))
print(len(b), 'stable,', len(m), 'not passing', *m, sep='\n' if m else ' ')
sys.exit(bool(m))

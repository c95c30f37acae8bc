"""show.py PROP: the violations of the last run, one line each clause group, with tails"""
import json, glob, os, sys
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay")
n = int(sys.argv[2]) if len(sys.argv) > 2 else 14
for p in sorted(glob.glob(d + "/%s-*.json" % sys.argv[1])):
    r = json.load(open(p))
    print(r['clauses'], {k: v for k, v in r['program'].items() if k not in ('ops', 'acts')}, r['stderr'][-400:])
    for e in r['history']['ev'][:r['event_no']][-n:]:
        print("    ", json.dumps(e))

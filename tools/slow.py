"""Slowest instances of a run kept with JF_KEEP=1:  slow.py ID"""
import glob, json, os, sys
d = max(glob.glob(f'/verif/build/work/{sys.argv[1]}*'), key=os.path.getmtime)
r = []
for f in glob.glob(d + '/out/*.json'):
    j = json.load(open(f))
    r.append((round(j['secs'], 1), j['id'], j['paths'], j['queries'], j.get('precise_fp')))
r.sort(reverse=True)
print(sum(x[0] for x in r))
for x in r[:int(sys.argv[2]) if len(sys.argv) > 2 else 8]: print(x)

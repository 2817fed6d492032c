"""python stable.py OUT.json: stable tests of the baseline that did not pass."""
import json
import sys
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
got = set(json.load(open(sys.argv[1]))['passed'])
bad = [t for t in base if t not in got]
print(len(base), 'stable,', len(bad), 'not passing')
for t in bad:
    print(' ', t)

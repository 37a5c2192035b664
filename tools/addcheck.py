#!/usr/bin/env python3
"""addcheck.py ID technique note [assumption...] [--set key=value...]: adds or changes an entry of checks.json."""
import json, sys
a = sys.argv[1:]
opts = {}
while '--set' in a:
    i = a.index('--set'); k, v = a[i+1].split('=', 1); opts[k] = json.loads(v); del a[i:i+2]
c = json.load(open('/verif/checks.json'))
c[a[0]] = {"technique": a[1], "note": a[2], "assumptions": a[3:], **opts}
json.dump({k: c[k] for k in sorted(c)}, open('/verif/checks.json', 'w'), indent=1, ensure_ascii=False)
open('/verif/checks.json', 'a').write('\n')

#!/usr/bin/env python3
"""cov.py ID...: prints what the last run of a check covered."""
import json, sys
for i in sys.argv[1:]:
    e = json.load(open(f'/verif/evidence/{i}.json'))
    for s in (e['coverage']['suites'] if isinstance(e['coverage']['suites'], list) else e['coverage']['suites'].items()):
        print(i, json.dumps({k: v for k, v in (s if isinstance(s, dict) else {'n': s[0], **s[1]}).items() if k != 'samples'}, ensure_ascii=False))

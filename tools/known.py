#!/usr/bin/env python3
# known.py fixed|known PROPERTY COMMIT-or-MATCH TEXT : appends to known_findings.jsonl (by hand only; no check calls this)
import sys, json
st, p, x, t = sys.argv[1:5]
e = {"status": st, "property": p, "what": t}
if st == 'fixed': e['commit'] = x; e['entry'] = 'fixed: property=%s %s %s' % (p, x, t)
else: e['match'] = x
open('/verif/known_findings.jsonl', 'a').write(json.dumps(e) + '\n')

"""tools/kf.py PROP COMMIT WHAT: record a repaired defect."""
import json, sys
p = '/verif/known-findings.json'
d = json.load(open(p))
d['findings'].append({'property': sys.argv[1], 'status': 'fixed', 'commit': sys.argv[2], 'what': sys.argv[3],
                      'line': 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')

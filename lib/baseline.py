"""Writes contracts/baseline.json: the loop headers of the contracted functions the invariants were written for."""
import json, re, subprocess, sys, os
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/contracts')
import contracts as C, vgen
keys = {k for q in C.PROPS.values() for k in list(q.fns) + list(getattr(q, 'request', []))}
json.dump({'fns': sorted(keys)}, open('/tmp/req.json', 'w'))
ex = json.loads(subprocess.run(['/verif/build/extractor/release/extractor', '/repo/src', '/tmp/req.json'], capture_output=True, text=True, check=True).stdout)
b = {f['key']: {'loops': vgen.loop_shape(f), 'calls': f['calls']}
     for f in ex['fns'] if f['loops'] or f['calls']}
json.dump(b, open('/verif/contracts/baseline.json', 'w'), indent=1, sort_keys=True)
print(json.dumps(b, indent=1))

import json
import os
import sys
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, base)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
d = json.load(open(sys.argv[1]))
if 'input' not in d:
    print(json.dumps(d, indent=1))
    sys.exit('no failing input: the obligation above was not discharged')
from pyvc import conch, env as envm
from pyvc.concrun import harvest
from pyvc.ob import OBS
import props
props.load(d['property'])
envm.POOL[:] = harvest(os.environ.get('VERIF_REPO', '/repo'))
ob = [o for o in OBS[d['property']] if o.name == d['obligation']][0]
st, fails, n = conch.run_once(ob, envm.Env.restore(d['input']))
print(st, n, 'comparisons')
for f in fails:
    print('  ', *f)
sys.exit(1 if st == 'fail' else 0)

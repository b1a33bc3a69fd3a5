"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx.run import _meta
NA = {
    'C27': 'the claim is about the result of iterative floating-point optimisation (L-BFGS in compiled code, unbounded iterations, dense linear algebra): none of it can be encoded for a solver within reach, and no bound would make it meaningful',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        m = _meta(p)
        checks.append({'property': p, 'quick_cmd': f'./check.sh {p}', 'thorough_cmd': f'./check.sh {p} --tier thorough',
                       'technique': 'symbolic execution of the real Python code with an SMT solver (z3) deciding every branch and assertion',
                       'level': 'model_checking',
                       'level_note': f"Within the stated bounds every feasible path of the real functions is executed on symbolic inputs and each assertion is decided for all values on the path. Bounds: {m['bounds']}. Outside: {m['outside']}. "
                                     f"Stubs: {m['stubs']}. Assumptions: {'; '.join(m['assumptions'])}. Trusted: z3, the proxy engine (/verif/symx; path models are re-run on the unproxied code), CPython; reals stand for floats."})
    else: na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent = 1)
print(len(checks), 'checks;', [x['property'] for x in na])

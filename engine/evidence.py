import json
import os

from .loader import SRC

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = [
    "floating point is idealised: every float is an exact real (literals by their decimal value), "
    "so rounding, overflow and underflow are outside the claim",
    "numpy/scipy/numexpr/math functions are replaced by symbolic models (engine/symnp.py); array "
    "indexing, broadcasting and reductions are numpy's own on object arrays",
    "exp/log/sqrt are decided by their algebra plus finitely many monotonicity/bound lemmas",
    "Cython sources are transpiled (engine/pyx.py); C int overflow is not modelled",
]


def write(prop, tier, m, obs, done, claims, proved, tot, fns, nwit, violations, known,
          inconclusive, wall):
    cov = {
        'explanation': (
            "Symbolic execution of the current source of %s; every feasible path of every harness "
            "is explored within the bounds and each assertion is decided by z3 for all values of "
            "the symbolic inputs. %d assertions on %d paths, %d shown to hold (unsat), %d solver "
            "queries (%d unsat, %d sat, %d unknown) in %.1f s of solver time. The same harnesses "
            "ran on the real modules at %d concrete points to validate the encoding." % (
                SRC, claims, sum(r['paths'] for r in done.values()), proved, tot('queries'),
                tot('unsat'), tot('sat'), tot('unknown'), tot('solver_s'), nwit)),
        'obligations': len(obs),
        'discharged': sum(1 for r in done.values() if r['status'] == 'ok' and not r['problems']
                          and r['claims']),
        'assertions': claims, 'assertions_proved': proved,
        'paths': sum(r['paths'] for r in done.values()),
        'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'),
        'solver_unknown': tot('unknown'), 'solver_seconds': round(tot('solver_s'), 2),
        'functions_encoded': fns,
        'bounds': {o.name: o.bounds for o in obs},
        'outside_bounds': getattr(m, 'OUTSIDE', ''),
        'concrete_witnesses': nwit,
        'inconclusive': inconclusive,
        'known_findings': [f['id'] for f in known.values()],
        'per_obligation': [{'name': r['name'], 'status': r['status'], 'paths': r['paths'],
                            'assertions': r['claims'], 'proved': r['proved'],
                            'wall_s': r.get('wall_s'),
                            'domain_assumptions': r.get('domain', {})} for r in done.values()],
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov,
          'assumptions': COMMON + list(getattr(m, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))

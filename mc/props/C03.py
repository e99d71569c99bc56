"""The residual is the discrete weak form, for every combination of its terms and every mesh size."""
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'all combinations of flux law {none, linear, nonlinear, with internal variables} x volume law x {0,2} '
                   'solution dependent surface terms x {0,2} prescribed surface loads (with/without internal variables) x '
                   '{no, source, source from a field}; all 9 element types x 1..3 components; every cell count 1..45 '
                   '(all remainders of the batched evaluation); two fields each',
          'thorough': 'the unrestricted product of the same terms, every cell count 1..129'}
ASSUMPTIONS = ['element tabulations are decided by C01; the model re-assembles the weak form from them by plain loops']


def cases(tier):
    return feature_cases(tier)


def run_case(case, R):
    import jax.numpy as jnp
    cfg, vec = case['cfg'], case['vec']
    pts, cells = F.mesh(case['ele'], case['n'], case['kind'], case['relabel'], case['rot'])
    fe = make_problem(pts, cells, case['ele'], vec, cfg)
    R.state('C03', case)
    u1 = det_arr((len(pts), vec), 5)
    for k, u in enumerate((u1, onp.zeros_like(u1)) if len(cells) < 10 and not cfg['body'] else (u1,)):
        want = ref_residual(fe, cfg, u)
        got = onp.asarray(fe.compute_residual(jnp.array(u)))
        R.trans()
        s = max(1e-2, float(onp.max(onp.abs(want))))
        R.close(got, want, 1e-9, f'residual differs from the weak form (field {k})', scale=s)
        if k == 0 and (len(cells) <= 4 or cfg['cauchy'] == []):
            got = onp.asarray(fe.newton_update(jnp.array(u)))
            R.close(got, want, 1e-9, 'residual returned with the tangent differs from the weak form', scale=s)
            R.trans()
        R.trace()
    R.sample({'residual_norm': float(onp.linalg.norm(want))})

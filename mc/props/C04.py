"""The assembled tangent is the derivative of the residual."""
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'the problem space of C03 (all term combinations, 9 element types x 1..3 components, every cell count 1..45); '
                   'the full dense tangent is compared entry by entry with the derivative of the weak form model '
                   '(complex steps up to 60 unknowns, directional along three fields above)',
          'thorough': 'the problem space of C03 thorough'}
ASSUMPTIONS = ['element tabulations are decided by C01']


def cases(tier):
    # prescribed loads do not enter the tangent: in the quick tier they are only kept in two variants
    return [c for c in feature_cases(tier) if not (tier == 'quick' and c['ele'] == 'QUAD4' and c['n'] == [2, 1]
                                                   and (c['cfg']['source'] or c['cfg']['body']) and not c['cfg']['neumann_iv'])]


def run_case(case, R):
    import jax.numpy as jnp
    cfg, vec = case['cfg'], case['vec']
    pts, cells = F.mesh(case['ele'], case['n'], case['kind'], case['relabel'], case['rot'])
    fe = make_problem(pts, cells, case['ele'], vec, cfg)
    R.state('C04', case)
    u = det_arr((len(pts), vec), 6)
    fe.newton_update(jnp.array(u))
    K = dense_K(fe)
    R.expect(len(onp.asarray(fe.I)) == len(onp.asarray(fe.J)) == len(onp.asarray(fe.V)), 'I, J, V of different length')
    R.trans()
    if u.size <= 60:
        J = ref_jacobian(fe, cfg, u)
        R.close(K, J, 1e-9, 'tangent differs from the derivative of the weak form', scale=max(1e-2, onp.max(onp.abs(J))))
    else:
        for k in (1, 2, 3):
            w = det_arr(u.shape, 20 + k)
            Jw = ref_residual(fe, cfg, u + 1e-30j * w).imag.reshape(-1) / 1e-30
            R.close(K @ w.reshape(-1), Jw, 1e-9, 'tangent action differs from the derivative of the weak form',
                    scale=max(1e-2, onp.max(onp.abs(Jw))))
            R.trans()
    # the tangent is a function of the current field only
    if len(cells) <= 2 and case['ele'] != 'HEX27':
        fe.newton_update(jnp.array(0 * u))
        fe.newton_update(jnp.array(u))
        R.close(dense_K(fe), K, 1e-12, 'tangent depends on the previous call')
        R.trans(2)
    R.trace()
    R.sample({'dofs': int(u.size), 'nnz': int(onp.count_nonzero(K))})

"""Dynamic relaxation returns the constrained equilibrium."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'symmetric linear and nonlinear problems with flux, volume, surface and source terms on QUAD4 (1 and 2 components), TRI3 and HEX8 meshes x 7 lists of prescribed values (one side, two sides, overlapping, conflicting, all components) '
                   'x two tolerances x two intervals for recomputing the stiffness; every free component of every returned solution',
          'thorough': 'all element types, 16 lists of prescribed values'}
ASSUMPTIONS = ['symmetric positive definite problems (for others the relaxation need not converge)']
CFG = {'lin': {'tensor': 'sym', 'mass': 'sym', 'neumann': [(1, 1)], 'source': True}, 'nl': {'tensor': 'symnl', 'mass': 'symnl', 'neumann': [(1, 1)], 'source': True},
       'nlfree': {'tensor': 'symnl', 'neumann': [(1, 1)], 'source': True}}


def cases(tier):
    out = []
    meshes = [('QUAD4', [2, 2], 1), ('QUAD4', [2, 1], 2), ('TRI3', [2, 1], 1), ('HEX8', [1, 1, 2], 1)]
    if tier == 'thorough':
        meshes += [('QUAD8', [2, 1], 1), ('TRI6', [1, 1], 2), ('TET4', [1, 1, 1], 3), ('TET10', [1, 1, 1], 1), ('HEX8', [2, 1, 1], 3)]
    for (ele, n, vec), law in itertools.product(meshes, CFG):
        d = len(n)
        pats = [[[(0, 0), 0, 0]], [[(d - 1, 0), 0, 1], [(0, 1), 0, 2]], [[(0, 0), 0, 0], [(0, 0), 0, 3]]]
        if vec > 1:
            pats = [[[(0, 0), 0, 0], [(0, 0), 1, 1]], [[(0, 0), c, c] for c in range(vec)] + [[(0, 1), 1, 2]], [[(0, 0), c, c] for c in range(vec)] + [[(1, 0), 0, 3], [(0, 0), 1, 2]], [['all', 0, 1]] + [[(0, 0), c, 0] for c in range(1, vec)]]
            pats = [p for p in pats if {e[1] for e in p} == set(range(vec))]
        for p in pats:
            for tol, nk in ((1e-6, 1000), (1e-9, 3)):
                out.append({'ele': ele, 'n': n, 'vec': vec, 'law': law, 'pat': p, 'tol': tol, 'nk': nk})
    return out




def run_case(case, R):
    from jax_am.fem.solver import dynamic_relax_solve
    import jax
    jax.config.update('jax_enable_x64', True)
    cfg, vec, pat = CFG[case['law']], case['vec'], case['pat']
    pts, cells = F.mesh(case['ele'], case['n'], 'box', 1, 1)
    fe = make_problem(pts, cells, case['ele'], vec, cfg, dirichlet=dirichlet_info(pts, pat))
    fixed = dirichlet_model(pts, pat)
    want = ref_solve(fe, cfg, fixed)
    fe = make_problem(pts, cells, case['ele'], vec, cfg, dirichlet=dirichlet_info(pts, pat))
    R.state('C31', case)
    sol = onp.asarray(dynamic_relax_solve(fe, tol=case['tol'], nKMat=case['nk'], info=False, info_force=False))
    if not R.expect(sol.shape == want.shape and onp.all(onp.isfinite(sol)), f'shape {sol.shape} or non finite solution'):
        return
    for (i, c), v in fixed.items():
        if not R.close(sol[i, c], v, 1e-5, f'prescribed value at node {i} component {c}', scale=1.):
            return
    r = ref_residual(fe, cfg, sol)
    free = onp.ones(sol.shape, dtype=bool)
    for i, c in fixed:
        free[i, c] = False
    if free.any():
        R.expect(float(onp.abs(r[free]).max()) <= case['tol'] * 1.01 + 1e-12, f'out of balance force {float(onp.abs(r[free]).max())} exceeds the tolerance {case["tol"]}')
    R.close(sol, want, 1e-4, 'solution differs from the equilibrium', scale=max(.1, float(onp.abs(want).max())))
    R.trans()
    R.trace()
    R.sample({'solution': sol[:3], 'largest out of balance force': float(onp.abs(r[free]).max()) if free.any() else 0.})

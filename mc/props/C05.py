"""The solver returns the constrained equilibrium, whatever the backend, preconditioner and start."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'every ordered list of 0..2 Dirichlet conditions over (4 sides x 2 components), overlapping and conflicting ones '
                   'included, on a 2-D 2-component problem x {PETSc, JAX}; nonlinear, Cauchy, Neumann, source problems on 2-D and 3-D '
                   'meshes x {PETSc, JAX with and without preconditioner} x {linear path, Newton path} x {no, exact, perturbed initial '
                   'guess}; every place where a non finite load can enter',
          'thorough': 'as quick with every ordered list of 0..3 conditions, every variant on every pattern of length <= 1, and all element types'}
LIN = {'tensor': 'lin', 'mass': 'lin', 'cauchy': [(0, 1)], 'cauchy_lin': True, 'neumann': [(1, 1)], 'source': True}
NL = {'tensor': 'nl', 'mass': 'nl', 'cauchy': [(0, 1)], 'neumann': [(1, 1)], 'source': True}
LIN_BACK = [{'linear': True, 'use_petsc': True}, {'linear': True, 'use_petsc': False, 'precond': True}]
LIN_MORE = [{'linear': True, 'use_petsc': False, 'precond': False}, {'linear': False, 'use_petsc': True},
            {'linear': False, 'use_petsc': False, 'precond': True}]
NL_ALL = [{'linear': False, 'use_petsc': p, 'precond': q, 'guess': g} for p, q in ((True, True), (False, True), (False, False))
          for g in ('none', 'exact', 'perturbed')]


def cases(tier):
    out = []
    sides = [(0, 0), (0, 1), (1, 0), (1, 1)]
    ent = [(s, c) for s in sides for c in (0, 1)]
    pats = [()] + [(e,) for e in ent] + list(itertools.product(ent, repeat=2))
    if tier == 'thorough':
        pats += list(itertools.product(ent[::2] + ent[1:2], repeat=3))
    extra = [[['none', 0, 0], [(0, 0), 1, 1]], [['all', 0, 0], ['all', 1, 1]], [['all', 1, 2]],
             [[(0, 0), 0, 0], [(0, 0), 1, 1], [(0, 1), 0, 2], [(0, 1), 1, 3]],
             [[(0, 0), 0, 0], [(1, 0), 0, 1], [(0, 0), 0, 2]]]
    allp = [[[s, c, j] for j, (s, c) in enumerate(p)] for p in pats] + extra
    base = {'ele': 'QUAD4', 'n': [2, 2], 'vec': 2}
    for i in range(0, len(allp), 3):
        out.append(dict(base, cfg=LIN, patterns=allp[i:i + 3], variants=LIN_BACK))
    few = [allp[0], allp[1]] + extra
    for p in few:
        out.append(dict(base, cfg=LIN, patterns=[p], variants=LIN_MORE))
    some = [extra[0], extra[3], extra[4], allp[12]]
    for p in (some if tier == 'quick' else allp[:9] + extra):
        for v in range(0, len(NL_ALL), 3):
            out.append(dict(base, cfg=NL, patterns=[p], variants=NL_ALL[v:v + 3]))
    p3 = [[[(2, 0), 0, 0], [(2, 1), 0, 1]], [[(0, 0), 0, 0], [(1, 1), 0, 1]]]
    for ele, vec in [('TET4', 1), ('HEX8', 1), ('TRI6', 1), ('QUAD8', 1)] + ([('TET10', 1), ('HEX8', 3), ('HEX20', 1), ('TRI3', 2), ('TRI3', 3), ('TET4', 3)] if tier == 'thorough' else []):
        for p in p3:
            if F.DIM[ele] == 2:
                p = [[(s[0] % 2, s[1]), c, j] for s, c, j in p]
            g = [1] * (F.DIM[ele] - 1) + [2]
            out.append({'ele': ele, 'n': g, 'vec': vec, 'cfg': LIN, 'patterns': [p], 'variants': LIN_BACK})
            if ele != 'TET4':
                out.append({'ele': ele, 'n': g, 'vec': vec, 'cfg': NL, 'patterns': [p], 'variants': [NL_ALL[0], NL_ALL[3]]})
    for where in ('source', 'neumann', 'dirichlet', 'cauchy'):
        for lin in (True, False):
            for pet in (True, False):
                for val in ('nan',) if tier == 'quick' else ('nan', 'inf'):
                    out.append({'nonfinite': where, 'linear': lin, 'petsc': pet, 'val': val})
    return out


def run_case(case, R):
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    if 'nonfinite' in case:
        return run_nonfinite(case, R)
    cfg, vec = case['cfg'], case['vec']
    pts, cells = F.mesh(case['ele'], case['n'], 'box', 1, 1)
    for pat in case['patterns']:
        fe = make_problem(pts, cells, case['ele'], vec, cfg, dirichlet=dirichlet_info(pts, pat))
        fixed = dirichlet_model(pts, pat)
        want = ref_solve(fe, cfg, fixed)
        for var in case['variants']:
            fe = make_problem(pts, cells, case['ele'], vec, cfg, dirichlet=dirichlet_info(pts, pat))
            kw = {k: v for k, v in var.items() if k != 'guess'}
            g = var.get('guess', 'none')
            if g == 'exact':
                kw['initial_guess'] = jnp.array(want)
            elif g == 'perturbed':
                kw['initial_guess'] = jnp.array(want + .3 * det_arr(want.shape, 8))
            R.state('C05', case['ele'], vec, cfg, pat, var)
            R.trans()
            sol = onp.asarray(solver(fe, **kw))
            key = f"{case['ele']}/{var}"
            tol = 2e-5 if var['use_petsc'] and var['linear'] else 1e-6
            R.close(sol, want, tol, f'solution differs from the constrained equilibrium ({var}, Dirichlet {pat})',
                    scale=max(.1, float(onp.max(onp.abs(want)))))
            for (i, c), v in fixed.items():
                if not abs(sol[i, c] - v) <= 1e-6:
                    R.fail(f'Dirichlet value {v} at node {i} component {c} is {sol[i, c]} ({var})', pattern=pat)
                    break
            R.trace()
    R.sample({'patterns': case['patterns'], 'solution': sol[:3]})


def run_nonfinite(case, R):
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    pts, cells = F.mesh('QUAD4', [2, 1], 'box', 0, 0)
    bad = float(case['val'])
    cfg = dict(LIN if case['linear'] else NL)
    fe = make_problem(pts, cells, 'QUAD4', 2, cfg, dirichlet=dirichlet_info(pts, [[(0, 0), 0, 0], [(0, 0), 1, 1]]))
    w = case['nonfinite']
    if w == 'source':
        fe.source_info = lambda x: jnp.array([bad, 0.]) * (x[0] > 0)
    elif w == 'neumann':
        fe.neumann_value_fns[0] = lambda x: jnp.array([0., bad])
    elif w == 'cauchy':
        fe.cauchy_bc_info[1][0] = lambda u: u * bad
    else:
        fe.update_Dirichlet_boundary_conditions([[side_fn(pts, (0, 0))], [0], [lambda x: x[0] * 0 + bad]])
    R.state('C05nan', case)
    R.trans()
    R.trace()
    try:
        sol = onp.asarray(solver(fe, linear=case['linear'], use_petsc=case['petsc']))
    except Exception:
        return
    R.fail('a solve with a non finite load returned instead of stopping', finite=bool(onp.all(onp.isfinite(sol))))

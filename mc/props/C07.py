"""What a problem object computes depends on its current conditions and parameters, not on its history."""
import copy
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'every sequence of length <= 3 over 7 operations (two Dirichlet updates, two updates of coefficients, surface load and body load, Newton assembly at '
                   'another field and with other values given explicitly, JAX solve, PETSc solve) on one problem object; after every operation residual, tangent and solution are compared '
                   'with a problem object that only ever saw the final conditions; the same for every sequence over changes of a material constant, a field, prescribed values, surface and '
                   'body load set as parameters, assembly and solve',
          'thorough': 'every sequence of length <= 4'}
CFG = {'tensor': 'par', 'mass': 'lin', 'neumann': [(0, 1)], 'neumann_iv': True, 'body': True}
PATS = [[[(0, 0), 0, 0], [(0, 0), 1, 1]], [[(1, 0), 0, 2], [(0, 1), 1, 0]]]
OPS = ['bc0', 'bc1', 'par0', 'par1', 'newton', 'jax', 'petsc']
INIT = ('bc0', 'par0')
IOPS = ['constant', 'field', 'prescribed', 'surface', 'body', 'newton', 'jax']
VALS = [(.9, 1.3), (0, 1), (1., -.7), (1.5, .6), (.8, 1.4)]


def cases(tier):
    L = 3 if tier == 'quick' else 4
    return [{'prefix': list(p), 'depth': L} for p in itertools.product(OPS, repeat=2)] + [{'inverse': [i], 'depth': L} for i in IOPS]


def set_params(fe, k):
    """cell coefficients, surface load and body load field number k"""
    import jax.numpy as jnp
    fe.set_params({'theta': jnp.array(.4 + .3 * det_arr((4,), 30 + k)), 'load': jnp.array(1.5 - .9 * k)})
    fe.internal_vars['body'] = jnp.array(det_arr((fe.num_total_nodes, 2), 40 + k))


def build():
    pts, cells = F.mesh('TRI3', [2, 1], 'box', 1, 1)
    return pts, make_problem(pts, cells, 'TRI3', 2, CFG, dirichlet=dirichlet_info(pts, PATS[0]))


def _scaled(v):
    return [_scaled(x) for x in v] if isinstance(v, (list, tuple)) else 1.3 * v


def apply(fe, pts, op, st):
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    bc, par = st
    if op.startswith('bc'):
        fe.update_Dirichlet_boundary_conditions(dirichlet_info(pts, PATS[int(op[2])]))
        bc = op
    elif op.startswith('par'):
        set_params(fe, int(op[3]))
        par = op
    elif op == 'newton':
        u = jnp.array(det_arr((len(pts), 2), 3))
        fe.newton_update(u)
        iv = {k: _scaled(v) for k, v in fe.internal_vars.items()}     # evaluations with other values given explicitly
        fe.compute_newton_vars(u, **iv)
        fe.compute_residual_vars(u, **iv)
    else:
        fe.last = onp.asarray(solver(fe, linear=True, use_petsc=op == 'petsc'))
    return bc, par


_REF = {}


def reference(st):
    """observation of a fresh problem object, and the model's solution"""
    import jax.numpy as jnp
    if st not in _REF:
        pts, fe = build()
        fe.update_Dirichlet_boundary_conditions(dirichlet_info(pts, PATS[int(st[0][2])]))
        set_params(fe, int(st[1][3]))
        u = det_arr((len(pts), 2), 4)
        r = ref_residual(fe, CFG, u)
        J = ref_jacobian(fe, CFG, u)
        s = ref_solve(fe, CFG, dirichlet_model(pts, PATS[int(st[0][2])]))
        _REF[st] = (u, r, J, s)
    return _REF[st]


def check(R, fe, pts, op, st, path):
    import jax.numpy as jnp
    u, r, J, s = reference(st)
    if op in ('jax', 'petsc'):
        R.close(fe.last, s, 3e-5, f'solution after {path}', scale=max(.1, float(onp.max(onp.abs(s)))))
    else:
        obs = copy.deepcopy(fe)
        got = onp.asarray(obs.newton_update(jnp.array(u)))
        R.close(got, r, 1e-9, f'residual after {path}', scale=1.)
        R.close(dense_K(obs), J, 1e-9, f'tangent after {path}', scale=1.)
    R.trace()


def run_inverse(case, R):
    """one problem whose material constant, field, prescribed values, surface load and body load are set as parameters"""
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    from mc.props.C10 import inverse_problem, INVPATS
    pat = INVPATS[1]
    pts, cells = F.mesh('TRI3', [2, 1], 'box', 1, 1)
    cfg = {'tensor': 'par', 'mass': 'lin', 'neumann': [(0, 1)], 'neumann_iv': True}
    model = make_problem(pts, cells, 'TRI3', 2, cfg)
    S = ref_residual(make_problem(pts, cells, 'TRI3', 2, {'source': True}), {'source': True}, onp.zeros((len(pts), 2)))
    u0 = det_arr((len(pts), 2), 4)
    ref = {}

    def values(st):
        v = [VALS[i][k] for i, k in enumerate(st)]
        v[1] = .4 + .3 * det_arr((len(cells),), 12 + v[1])
        return v

    def expected(st):
        if st not in ref:
            E, th, sd, sn, ss = values(st)
            model.internal_vars = {'laplace': [onp.repeat((E * (1.2 + th) - 1.2)[:, None], model.num_quads, 1)],
                                   'neumann': [[sn * onp.ones((len(b), model.face_shape_vals.shape[1]))] for b in model.neumann_boundary_inds_list]}
            fixed = {**dirichlet_model(pts, pat[:-1]), **{k: sd * v for k, v in dirichlet_model(pts, pat[-1:]).items()}}
            J = ref_jacobian(model, cfg, u0)
            r = ref_residual(model, cfg, u0) + ss * S
            free = onp.array([(i // 2, i % 2) not in fixed for i in range(2 * len(pts))])
            x = onp.zeros(2 * len(pts))
            for (i, c), v in fixed.items():
                x[2 * i + c] = v
            rx = r.reshape(-1) + J @ (x - u0.reshape(-1))
            x[free] += onp.linalg.solve(J[onp.ix_(free, free)], -rx[free])
            ref[st] = (r, J, x.reshape(-1, 2))
        return ref[st]

    def step(fe, st, op, path):
        if op in ('newton', 'jax'):
            r, J, x = expected(st)
            if op == 'jax':
                got = onp.asarray(solver(fe, linear=True, use_petsc=False))
                R.close(got, x, 3e-5, f'solution after {path}', scale=max(.1, float(abs(x).max())))
            else:
                got = onp.asarray(fe.newton_update(jnp.array(u0)))
                R.close(got, r, 1e-9, f'residual after {path}', scale=1.)
                R.close(dense_K(fe), J, 1e-9, f'tangent after {path}', scale=1.)
            R.trace()
        else:
            k = IOPS.index(op)
            st = st[:k] + (1 - st[k],) + st[k + 1:]
            fe.set_params([jnp.array(v) for v in values(st)])
        R.trans()
        R.state('C07i', tuple(path))
        return st

    def dfs(fe, st, path):
        if len(path) == case['depth']:
            if path[-1] not in ('newton', 'jax'):
                step(copy.deepcopy(fe), st, 'newton', path + ['newton'])
            return
        for op in IOPS:
            f2 = copy.deepcopy(fe)
            dfs(f2, step(f2, st, op, path + [op]), path + [op])
    fe = inverse_problem(pts, cells, 'TRI3', 'lin', pat)
    st = (0,) * 5
    fe.set_params([jnp.array(v) for v in values(st)])
    for i, op in enumerate(case['inverse']):
        st = step(fe, st, op, case['inverse'][:i + 1])
    dfs(fe, st, list(case['inverse']))
    R.sample({'path': case['inverse']})


def run_case(case, R):
    if 'inverse' in case:
        return run_inverse(case, R)
    import jax.numpy as jnp
    pts, fe = build()
    set_params(fe, 0)
    st = INIT
    for i, op in enumerate(case['prefix']):
        st = apply(fe, pts, op, st)
        R.trans()
        if i == 1:
            check(R, fe, pts, op, st, case['prefix'][:i + 1])
    R.state('C07', tuple(case['prefix']))

    def dfs(fe, st, path, depth):
        if depth == 0:
            return
        for op in OPS:
            if depth == 1 and op == 'newton':
                continue      # its observation equals the previous one
            f2 = copy.deepcopy(fe)
            s2 = apply(f2, pts, op, st)
            R.trans()
            R.state('C07', tuple(path + [op]))
            check(R, f2, pts, op, s2, path + [op])
            dfs(f2, s2, path + [op], depth - 1)
    dfs(fe, st, list(case['prefix']), case['depth'] - len(case['prefix']))
    R.sample({'path': case['prefix'], 'state': st})

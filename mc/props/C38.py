"""The operators and linear solvers that the solution strategies are built from agree with the constrained system, for every small constraint pattern and small system."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'every ordered list of 0..2 Dirichlet conditions over (all, 4 sides) x 2 components, and an empty one (overlapping ones included) on a nonlinear 2-D problem with all terms, one 3-D problem: '
                   'vector operations at every dof, row eliminated operator on every unit vector for both backends, directional derivative operators on every unit vector, preconditioner; '
                   'line search over every pattern of residual growth on the four steps it may take; both linear solvers on every 3x3 system with off-diagonals in {-1,0,1} and dominant diagonal '
                   'x 2 right sides x 3 starts',
          'thorough': 'as quick with lists of up to 3 conditions, more element types, off-diagonals in {-1,-.5,0,.5,1}'}
CFG = {'tensor': 'nl', 'mass': 'nl', 'cauchy': [(0, 1)], 'neumann': [(1, 1)], 'source': True}


def cases(tier):
    ent = [(s, c) for s in ('none', 'all', (0, 0), (0, 1), (1, 0), (1, 1)) for c in (0, 1)]
    pats = [()] + [(e,) for e in ent] + list(itertools.product(ent[2:], repeat=2))
    if tier == 'thorough':
        pats += list(itertools.product(ent[1:], repeat=3))
    pats = [[[s, c, j] for j, (s, c) in enumerate(p)] for p in pats]
    out = [{'kind': 'ops', 'ele': 'QUAD4', 'n': [2, 1], 'vec': 2, 'pats': pats[i:i + 8]} for i in range(0, len(pats), 8)]
    for ele, vec in [('TET4', 1), ('HEX8', 3)] + ([('TRI6', 2), ('TET10', 1), ('QUAD8', 3)] if tier == 'thorough' else []):
        g = [1] * (F.DIM[ele] - 1) + [1]
        out.append({'kind': 'ops', 'ele': ele, 'n': g, 'vec': vec, 'pats': [[], [[(0, 0), vec - 1, 0], [(1, 1), 0, 1]], [['all', 0, 2], [(0, 1), vec - 1, 1]]]})
    out.append({'kind': 'line'})
    offs = (-1., 0., 1.) if tier == 'quick' else (-1., -.5, 0., .5, 1.)
    for a in offs:
        for b in offs:
            out.append({'kind': 'solve', 'first': [a, b], 'offs': list(offs)})
    return out


def run_case(case, R):
    globals()['run_' + case['kind']](case, R)


def run_ops(case, R):
    import jax.numpy as jnp
    from jax_am.fem import solver as S
    pts, cells = F.mesh(case['ele'], case['n'], 'box', 1, 1)
    vec = case['vec']
    for pat in case['pats']:
        fe = make_problem(pts, cells, case['ele'], vec, CFG, dirichlet=dirichlet_info(pts, pat))
        fixed = {i * vec + c: v for (i, c), v in dirichlet_model(pts, pat).items()}
        n = fe.num_total_nodes * vec
        u = det_arr((n,), 5)
        r = det_arr((n,), 6) + 2.
        R.state('C38', case['ele'], vec, pat)
        R.trans(n)

        def put(base, f):
            o = onp.array(base, float)
            for k, v in fixed.items():
                o[k] = f(k, v)
            return o
        J = jnp.array
        tag = f'(Dirichlet {pat})'
        R.close(S.apply_bc_vec(J(r), J(u), fe), put(r, lambda k, v: u[k] - v), 1e-12, f'residual with constraints wrong {tag}', scale=1.)
        R.close(S.apply_bc(lambda d: 2. * d + 1., fe)(J(u)), put(2 * u + 1, lambda k, v: u[k] - v), 1e-12, f'constrained residual function wrong {tag}', scale=1.)
        R.close(S.row_elimination(lambda d: 2. * d + 1., fe)(J(u)), put(2 * u + 1, lambda k, v: u[k]), 1e-12, f'row elimination wrong {tag}', scale=1.)
        R.close(S.assign_bc(J(u), fe), put(u, lambda k, v: v), 1e-12, f'prescribed values not assigned {tag}', scale=1.)
        R.close(S.assign_ones_bc(J(u), fe), put(u, lambda k, v: 1.), 1e-12, f'ones not assigned at the constrained dofs {tag}', scale=1.)
        R.close(S.assign_zeros_bc(J(u), fe), put(u, lambda k, v: 0.), 1e-12, f'zeros not assigned at the constrained dofs {tag}', scale=1.)
        R.close(S.copy_bc(J(u), fe), put(0 * u, lambda k, v: u[k]), 1e-12, f'values at the constrained dofs not copied {tag}', scale=1.)
        # the linearised constrained system
        K = ref_jacobian(fe, CFG, u.reshape(-1, vec))
        res = onp.asarray(fe.newton_update(J(u.reshape(-1, vec)))).reshape(-1)
        want = K.copy()
        for k in fixed:
            want[k] = onp.eye(n)[k]
        sc = float(onp.max(onp.abs(want)))
        for petsc in (False, True):
            A = S.get_A_fn(fe, petsc)
            if petsc:
                ind, col, val = A.getValuesCSR()
                got = onp.zeros((n, n))
                for i in range(n):
                    for q in range(ind[i], ind[i + 1]):
                        got[i, col[q]] += val[q]
            else:
                got = onp.stack([onp.asarray(A(J(e))) for e in onp.eye(n)], 1)
            R.close(got, want, 1e-9, f'the constrained tangent is wrong (petsc={petsc}) {tag}', scale=sc)
        # preconditioner: diagonal of the tangent, one at the constrained dofs
        jac = onp.asarray(S.jacobi_preconditioner(fe))
        R.close(jac, onp.diag(want), 1e-9, f'preconditioner is not the diagonal of the constrained tangent {tag}', scale=sc)
        R.close(S.get_jacobi_precond(J(jac))(J(r)), r / onp.diag(want), 1e-9, f'preconditioner does not divide by the diagonal {tag}', scale=float(onp.max(abs(r / onp.diag(want)))))
        # directional derivative operators of the constrained residual
        fn = S.apply_bc(S.get_flatten_fn(fe.compute_residual, fe), fe)
        wantres = put(ref_residual(fe, CFG, u.reshape(-1, vec)).reshape(-1), lambda k, v: u[k] - v)
        R.close(fn(J(u)), wantres, 1e-9, f'flattened residual wrong {tag}', scale=float(onp.max(abs(wantres))) + 1.)
        d = det_arr((n,), 7)
        R.close(S.get_A_fn_linear_fn(J(u), fn)(J(d)), want @ d, 1e-9, f'directional derivative wrong {tag}', scale=sc)
        R.close(S.get_A_fn_linear_fn_JFNK(J(u), fn)(J(d)), want @ d, 2e-2, f'difference quotient wrong {tag}', scale=sc)
        R.trace()
    lin = onp.array(K)
    R.close(S.operator_to_matrix(lambda x: J(lin) @ x, fe), lin, 1e-12, 'operator_to_matrix is not the matrix of the operator', scale=sc)
    R.sample({'dirichlet': pat, 'dofs': n})


def run_line(case, R):
    """a residual whose norm along the step is prescribed: the step taken has a residual not larger than the full step and follows the halving rule"""
    import types
    import jax.numpy as jnp
    from jax_am.fem import solver as S
    alphas = [1., .5, .25, .125]
    for levels in itertools.product((1., 2., 3.), repeat=4):
        vals = dict(zip(alphas, levels))
        fe = types.SimpleNamespace(num_total_nodes=2, vec=1, node_inds_list=[jnp.array([1])], vec_inds_list=[jnp.array([0])], vals_list=[jnp.array([.5])])
        d0, inc = onp.array([.2, .5]), onp.array([2., 0.])

        def residual(sol):
            a = (float(sol[0, 0]) - .2) / 2.
            key = min(alphas, key=lambda x: abs(x - a))
            return jnp.array([[vals[key] if abs(key - a) < 1e-6 else 9.], [7.]])
        fe.compute_residual = residual
        R.state('C38l', levels)
        R.trans()
        got = onp.asarray(S.line_search(fe, jnp.array(d0), jnp.array(inc)))
        a = (got[0] - .2) / 2.
        R.expect(abs(got[1] - .5) < 1e-12, f'line search moved a constrained dof to {got[1]}')
        if R.expect(any(abs(a - x) < 1e-9 for x in alphas), f'line search took a fraction {a} of the step for residuals {levels}'):
            mine = vals[min(alphas, key=lambda x: abs(x - a))]
            R.expect(mine <= levels[0], f'line search ended at a fraction {a} of the step with residual {mine}, larger than {levels[0]} of the full step')
            k = 0
            while k < 3 and levels[k + 1] <= levels[k]:
                k += 1
            R.expect(abs(a - alphas[k]) < 1e-9 or mine == vals[alphas[k]], f'line search took {a} of the step for residuals {levels} at the fractions {alphas}')
        R.trace()
    R.sample({'levels': list(levels), 'fraction': float(a)})


def run_solve(case, R):
    import types
    import jax.numpy as jnp
    import scipy.sparse
    from petsc4py import PETSc
    from jax_am.fem import solver as S
    o = case['offs']
    n = 0
    for c, d, e, f in itertools.product(o, repeat=4):
        a, b = case['first']
        A = onp.array([[3., a, b], [c, 4., d], [e, f, 5.]])
        for q, rhs in enumerate(([1., -2., .5], [0., 0., 3.])):
            rhs = onp.array(rhs)
            want = onp.linalg.solve(A, rhs)
            R.state('C38s', A.tolist(), q)
            R.trans()
            sp = scipy.sparse.csr_array(A)
            M = PETSc.Mat().createAIJ(size=(3, 3), csr=(sp.indptr.astype(PETSc.IntType), sp.indices.astype(PETSc.IntType), sp.data))
            R.close(S.petsc_solve(M, jnp.array(rhs), 'bcgsl', 'ilu'), want, 2e-5, f'PETSc solution of {A.tolist()} x = {rhs.tolist()} wrong', scale=1.)
            n += 1
            if (n + q) % 9 == 0:
                pb = types.SimpleNamespace(A_sp_scipy=sp, num_total_nodes=3, vec=1, node_inds_list=[], vec_inds_list=[], vals_list=[])
                for pre, x0 in ((True, onp.zeros(3)), (False, rhs), (True, want + 1.)):
                    got = S.jax_solve(pb, lambda x: jnp.array(A) @ x, jnp.array(rhs), jnp.array(x0), pre)
                    R.close(got, want, 1e-7, f'JAX solution of {A.tolist()} x = {rhs.tolist()} wrong (precond={pre})', scale=1.)
            R.trace()
    R.sample({'matrix': A.tolist(), 'solution': want.tolist()})

"""Sensitivities returned by the differentiable solves equal the derivative of the constrained equilibrium."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': '{reverse mode wrapper, forward/reverse mode wrapper} x {PETSc, JAX} x {linear, nonlinear} x {symmetric, unsymmetric} x '
                   '2..4 Dirichlet patterns, {vector, tree} alternating with the pattern, parameter histories p0,p1 on one problem object, with pull-backs taken at once and after later solves; '
                   'every component of the gradient, forward and reverse, and Hessian-vector products; problems whose parameters are a material constant, a field, the prescribed values, '
                   'the surface load and the body load',
          'thorough': 'as quick on 6 element types and histories of length 3'}
PATS = [[[(0, 0), 0, 0], [(0, 0), 1, 1]], [[(0, 0), 0, 0], [(0, 1), 1, 1], [(0, 0), 1, 2]], [], [[(1, 0), 0, 0], [(0, 1), 0, 2]]]

INVPATS = [[[(0, 0), 0, 0], [(0, 0), 1, 1]], [[(0, 0), 0, 0], [(0, 1), 1, 1], [(1, 0), 0, 2]]]


def cases(tier):
    out = []
    for wrap, petsc, law, (ip, pat), tree in itertools.product(('vjp', 'jvp'), (True, False), ('par', 'parsym', 'parnl'),
                                                              enumerate(PATS), (False, True)):
        if tier == 'quick' and (tree != (ip % 2 == 1) or (law == 'parnl' and ip > 1) or (law == 'parsym' and ip % 3)):
            continue
        out.append({'ele': 'QUAD4', 'n': [2, 1], 'vec': 2, 'wrap': wrap, 'petsc': petsc, 'law': law, 'pat': pat, 'tree': tree,
                    'linear': law != 'parnl', 'hist': [0, 1, 0] if tier == 'thorough' else [0, 1] if ip == 0 else [1]})
    for ele in (('TET4', 'HEX8') if tier == 'quick' else ('TET4', 'HEX8', 'TRI3', 'QUAD8', 'TRI6', 'TET10')):
        for wrap in ('vjp', 'jvp'):
            for petsc in (True, False):
                out.append({'ele': ele, 'n': [1] * F.DIM[ele], 'vec': 1, 'wrap': wrap, 'petsc': petsc, 'law': 'par',
                            'pat': [[(0, 0), 0, 0]], 'tree': True, 'linear': True, 'hist': [0]})
    for wrap, petsc, law, pat in itertools.product(('vjp', 'jvp'), (True, False), ('lin', 'sym', 'nl'), INVPATS):
        if tier == 'quick' and wrap == 'jvp' and (pat is INVPATS[0]) == (law == 'sym'):
            continue
        out.append({'kind': 'inverse', 'ele': 'QUAD4', 'n': [2, 1], 'wrap': wrap, 'petsc': petsc, 'law': law, 'pat': pat, 'hist': [0, 1, 0] if tier != 'quick' else [1] if wrap == 'jvp' and law == 'nl' else [0, 1]})
    out.sort(key=lambda c: -(c['law'] in ('parnl', 'nl')) - (len(c['hist']) > 1) - .5 * (c['wrap'] == 'jvp'))
    return out


def model_grad(fe, cfg, fixed, theta, load, u, w):
    """(dJ/dtheta, dJ/dload) for J = sum(w*u) at the equilibrium u, by the dense adjoint of the model"""
    n, vec = u.shape
    K = ref_jacobian(fe, cfg, u)
    for (i, c) in fixed:
        K[i * vec + c] = 0
        K[i * vec + c, i * vec + c] = 1.
    lam = onp.linalg.solve(K.T, w.reshape(-1))
    free = onp.array([(k // vec, k % vec) not in fixed for k in range(n * vec)])
    h = 1e-30

    def dr(th, ld):
        set_model(fe, th, ld)
        r = ref_residual(fe, cfg, u.astype(complex)).imag.reshape(-1) / h
        return r
    g = []
    for k in range(len(theta)):
        th = theta.astype(complex)
        th[k] += 1j * h
        g.append(-onp.sum((lam * dr(th, load))[free]))
    gl = -onp.sum((lam * dr(theta.astype(complex), (load + 1j * h) if load is not None else None))[free]) if load is not None else None
    set_model(fe, theta, load)
    return onp.array(g), gl


def set_model(fe, theta, load):
    iv = {'laplace': [onp.repeat(onp.asarray(theta)[:, None], fe.num_quads, axis=1)]}
    if load is not None:
        iv['neumann'] = [[load * onp.ones((len(b), fe.face_shape_vals.shape[1]))] for b in fe.neumann_boundary_inds_list]
    fe.internal_vars = iv


def inverse_problem(pts, cells, ele, law, pat):
    """parameters enter everywhere: material constant, field, prescribed values, surface load, body load"""
    import jax.numpy as jnp
    from jax_am.fem.core import FEM
    from jax_am.fem.generate_mesh import Mesh
    t, m = TENS[{'lin': 'par', 'sym': 'parsym', 'nl': 'parnl'}[law]], MASS['sym' if law == 'sym' else 'lin' if law == 'lin' else 'symnl']
    info = dirichlet_info(pts, pat)

    class Inverse(FEM):
        E = 1.

        def get_tensor_map(self):
            return lambda g, th: t(jnp, g, self.E * (1.2 + th) - 1.2)

        def get_mass_map(self):
            return lambda u: m(jnp, u)

        def set_params(self, params):
            self.E, th, sd, sn, ss = params
            self.internal_vars['laplace'] = [jnp.repeat(th[:, None], self.num_quads, axis=1)]
            new = [info[0], info[1], info[2][:-1] + [lambda x: sd * bc_value(jnp, x, pat[-1][2])]]
            self.update_Dirichlet_boundary_conditions(new)
            self.neumann_value_fns[0] = lambda x: sn * neu_fn(jnp, x, 2, 0)
            self.source_info = lambda x: ss * src_fn(jnp, x, 2)
    return Inverse(Mesh(pts, cells, ele_type=ele), vec=2, dim=2, ele_type=ele, dirichlet_bc_info=dirichlet_info(pts, pat),
                   neumann_bc_info=[[side_fn(pts, (0, 1))], [lambda x: neu_fn(jnp, x, 2, 0)]], source_info=lambda x: src_fn(jnp, x, 2))


def run_inverse(case, R):
    import jax
    import jax.numpy as jnp
    from jax_am.fem.solver import ad_wrapper
    from jax_am.fem.autodiff_utils import ad_wrapper_jvp
    law, pat = case['law'], case['pat']
    pts, cells = F.mesh(case['ele'], case['n'], 'box', 1, 1)
    base = {'lin': 'par', 'sym': 'parsym', 'nl': 'parnl'}[law]
    cfg = {'tensor': base, 'mass': {'lin': 'lin', 'sym': 'sym', 'nl': 'symnl'}[law], 'neumann': [(0, 1)], 'neumann_iv': True}
    model = make_problem(pts, cells, case['ele'], 2, cfg)
    S = ref_residual(make_problem(pts, cells, case['ele'], 2, {'source': True}), {'source': True}, onp.zeros((len(pts), 2)))
    fe = inverse_problem(pts, cells, case['ele'], law, pat)
    fwd = (ad_wrapper if case['wrap'] == 'vjp' else ad_wrapper_jvp)(fe, linear=law != 'nl', use_petsc=case['petsc'])
    w = det_arr((len(pts), 2), 11)
    h = 1e-30
    tol = 5e-4 if case['petsc'] else 1e-5
    late = None

    def fixed_of(sd):
        own = dirichlet_model(pts, pat[-1:])
        return {**dirichlet_model(pts, pat[:-1]), **{k: sd * v for k, v in own.items()}}, own

    def res(q, u):
        E, th, sd, sn, ss = q
        set_model(model, E * (1.2 + th) - 1.2, sn)
        return ref_residual(model, cfg, u) + ss * S
    for hi, k in enumerate(case['hist']):
        q = [(.9, 1.3)[k], .4 + .3 * det_arr((len(cells),), 12 + k), (1., -.7)[k], (1.5, .6)[k], (.8, 1.4)[k]]
        fixed, own = fixed_of(q[2])
        free = onp.array([(i // 2, i % 2) not in fixed for i in range(2 * len(pts))])
        u = onp.zeros((len(pts), 2))
        for (i, c), v in fixed.items():
            u[i, c] = v
        for _ in range(40):
            r = res(q, u).reshape(-1)
            if onp.linalg.norm(r[free]) < 1e-11:
                break
            K = ref_jacobian(model, cfg, u)
            u.reshape(-1)[free] += onp.linalg.solve(K[onp.ix_(free, free)], -r[free])
        else:
            raise RuntimeError('the model did not converge')
        res(q, u)
        K = ref_jacobian(model, cfg, u)
        K[~free] = onp.eye(len(K))[~free]
        lam = onp.linalg.solve(K.T, w.reshape(-1))

        def d(q2):
            return -float((lam * res(q2, u.astype(complex)).imag.reshape(-1) / h)[free].sum())
        want = [d([q[0] + 1j * h] + q[1:]), onp.array([d([q[0], q[1] + 1j * h * (onp.arange(len(cells)) == i)] + q[2:]) for i in range(len(cells))]),
                float(sum(lam[2 * i + c] * v for (i, c), v in own.items())), d(q[:3] + [q[3] + 1j * h] + q[4:]), d(q[:4] + [q[4] + 1j * h])]
        w_ = f'parameters set {hi} of {case["hist"]}'
        p = [jnp.array(x) for x in q]
        sol, pull = jax.vjp(fwd, p)
        R.state('C10i', case['wrap'], case['petsc'], law, pat, tuple(case['hist'][:hi + 1]))
        R.close(onp.asarray(sol), u, 2e-5, f'{w_}: solution', scale=max(.1, onp.max(onp.abs(u))))
        gr, = pull(jnp.array(w))
        sc = max(1e-2, max(float(onp.max(onp.abs(x))) for x in want))
        for name, g, x in zip(NAMES, gr, want):
            R.close(onp.asarray(g), x, tol, f'{w_}: reverse mode sensitivity with respect to the {name}', scale=sc)
        R.trans(2)
        if case['wrap'] == 'jvp':
            for i, name in enumerate(NAMES):
                dp = [onp.zeros_like(x) for x in map(onp.asarray, q)]
                dp[i] = dp[i] + 1. if i != 1 else det_arr((len(cells),), 15)
                _, t = jax.jvp(lambda p: jnp.sum(jnp.array(w) * fwd(p)), (p,), ([jnp.array(x, dtype=float) for x in dp],))
                R.close(float(t), float(onp.sum(want[i] * dp[i])), tol, f'{w_}: forward mode sensitivity with respect to the {name}', scale=sc)
                R.trans()
        if late:
            gr, = late[0](jnp.array(w))
            for name, g, x in zip(NAMES, gr, late[1]):
                R.close(onp.asarray(g), x, tol, f'sensitivity with respect to the {name} of an earlier call after {w_}', scale=late[2])
            R.trans()
        else:
            late = (pull, want, sc)
        R.trace()
    R.sample({'parameters': [onp.asarray(x).tolist() for x in q], 'gradient': [onp.asarray(x).tolist() for x in want]})


NAMES = ('material constant', 'material field', 'prescribed values', 'surface load', 'body load')


def run_case(case, R):
    if case.get('kind') == 'inverse':
        return run_inverse(case, R)
    import jax
    import jax.numpy as jnp
    from jax_am.fem.solver import ad_wrapper
    from jax_am.fem.autodiff_utils import ad_wrapper_jvp
    ele, vec, tree = case['ele'], case['vec'], case['tree']
    pts, cells = F.mesh(ele, case['n'], 'box', 1, 1)
    cfg = {'tensor': case['law'], 'mass': 'symnl' if case['law'] == 'parnl' else ('lin' if case['law'] == 'par' else 'sym'),
           'neumann': [(0, 1)], 'neumann_iv': tree, 'source': True}
    pat = case['pat']
    build = lambda: make_problem(pts, cells, ele, vec, cfg, dirichlet=dirichlet_info(pts, pat))   # noqa
    model = build()
    fixed = dirichlet_model(pts, pat)
    fe = build()
    wrap = ad_wrapper if case['wrap'] == 'vjp' else ad_wrapper_jvp
    fwd = wrap(fe, linear=case['linear'], use_petsc=case['petsc'])
    w = det_arr((len(pts), vec), 11)
    thetas = [.4 + .3 * det_arr((len(cells),), 12 + k) for k in range(2)]
    loads = [1.5, .6]

    def J(p):
        return jnp.sum(jnp.array(w) * fwd(p))
    tol = 5e-4 if case['petsc'] else 1e-5
    for hi, k in enumerate(case['hist']):
        th, ld = thetas[k], (loads[k] if tree else None)
        p = {'theta': jnp.array(th), 'load': jnp.array(ld)} if tree else jnp.array(th)
        set_model(model, th, ld)
        u = ref_solve(model, cfg, fixed)
        g, gl = model_grad(model, cfg, fixed, th, ld, u, w)
        R.state('C10', case['ele'], case['wrap'], case['petsc'], case['law'], pat, tree, tuple(case['hist'][:hi + 1]))
        sol, pull = jax.vjp(fwd, p)
        R.close(onp.asarray(sol), u, 2e-5, f'differentiable solve does not return the equilibrium (call {hi})', scale=max(.1, onp.max(onp.abs(u))))
        gs = max(1e-2, float(onp.max(onp.abs(g))))
        gr, = pull(jnp.array(w))
        got = gr['theta'] if tree else gr
        R.close(onp.asarray(got), g, tol, f'reverse mode sensitivity wrong (call {hi} of {case["hist"]})', scale=gs)
        if tree:
            R.close(float(gr['load']), gl, tol, 'sensitivity with respect to the load wrong', scale=max(gs, abs(gl)))
        R.trans(2)
        if case['wrap'] == 'jvp':
            d = det_arr((len(cells),), 15)
            dp = {'theta': jnp.array(d), 'load': jnp.array(.3)} if tree else jnp.array(d)
            _, t = jax.jvp(J, (p,), (dp,))
            want = float(g @ d + (gl * .3 if tree else 0))
            R.close(float(t), want, tol, 'forward mode sensitivity wrong', scale=max(gs, abs(want)))
            R.trans()
        R.trace()
        if hi == 0:
            first = (pull, g, gl, gs)
    if hi:
        # a pull-back obtained before the problem was used with other parameters
        pull, g0, gl0, gs0 = first
        R.state('C10 late', case['ele'], case['wrap'], case['petsc'], case['law'], pat, tree, tuple(case['hist']))
        fwd({'theta': jnp.array(thetas[1]), 'load': jnp.array(loads[1])} if tree else jnp.array(thetas[1]))
        gr, = pull(jnp.array(w))
        R.close(onp.asarray(gr['theta'] if tree else gr), g0, tol, 'sensitivity of an earlier call is wrong after the problem was solved with other parameters', scale=gs0)
        R.trans()
    if case['wrap'] == 'jvp' and not tree and hi and case['linear']:
        # Hessian vector product against a central difference of the model gradient
        e = 1e-4
        d = det_arr((len(cells),), 15)
        gg = []
        for s in (1, -1):
            t2 = th + s * e * d
            set_model(model, t2, ld)
            u2 = ref_solve(model, cfg, fixed)
            gg.append(model_grad(model, cfg, fixed, t2, ld, u2, w)[0])
        hv = (gg[0] - gg[1]) / (2 * e)
        _, got = jax.jvp(jax.grad(J), (p,), (jnp.array(d),))
        R.close(onp.asarray(got), hv, 2e-3, 'Hessian-vector product wrong', scale=max(1e-2, float(onp.max(onp.abs(hv)))))
        R.trans()
    R.sample({'theta': th, 'gradient': g})

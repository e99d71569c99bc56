"""Material laws and post-processing: Hooke, neo-Hookean, patch test, traction, area and error norms."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'stress of both elastic laws on the complete lattice {-0.25,0,0.3}^9 of displacement gradients (2-D: ^4), frame '
                   'indifference under all 24 axis rotations and 3 general ones; patch test, traction, area, surface integrals and error norms on every '
                   'side of meshes of every element type with every basis displacement gradient',
          'thorough': 'lattice {-0.3,-0.1,0,0.2,0.4}^9 restricted to det F > 0.05'}
VALS = {'quick': [-.25, 0., .3], 'thorough': [-.3, -.1, 0., .2, .4]}


def cases(tier):
    out = []
    v = VALS[tier]
    for a in v:
        for b in v:
            out.append({'law': 'lattice', 'head': [a, b], 'vals': v})
    for ele in F.ELE:
        for rl in (0, 2):
            out.append({'post': ele, 'relabel': rl})
            out.append({'norms': ele, 'relabel': rl})
        if F.DIM[ele] == 3:
            out.append({'patch': ele, 'petsc': True})
            if ele in ('HEX8', 'TET4', 'TET10'):
                out.append({'patch': ele, 'petsc': False})
    return out


def cls(name):
    from jax_am.fem import models
    return getattr(models, name)


def prob(name, ele, n, relabel=0, rot=1, vec=None, **kw):
    from jax_am.fem.generate_mesh import Mesh
    pts, cells = F.mesh(ele, n, 'box', relabel, rot)
    d = pts.shape[1]
    return pts, cells, cls(name)(Mesh(pts, cells, ele_type=ele), vec=vec or d, dim=d, ele_type=ele, **kw)


def hooke(g):
    d = g.shape[-1]
    E, nu = 70e3, .3
    mu, lm = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    return lm * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(d) + 2 * mu * e


def neo(g):
    E, nu = 1e3, .3
    mu, ka = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
    Fm = g + onp.eye(3)
    J = onp.linalg.det(Fm)[..., None, None]
    Fi = onp.swapaxes(onp.linalg.inv(Fm), -1, -2)
    I1 = onp.sum(Fm * Fm, axis=(-1, -2))[..., None, None]
    return mu * J**(-2 / 3) * (Fm - I1 / 3 * Fi) + ka * (J - 1) * J * Fi


def rots():
    out = []
    for ax in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            M = onp.zeros((3, 3))
            for i in range(3):
                M[i, ax[i]] = sg[i]
            if onp.linalg.det(M) > 0:
                out.append(M)
    for w in ((.3, -.5, .2), (1.1, .4, -.7), (-.2, 2., .5)):
        K = onp.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
        t = onp.linalg.norm(w)
        out.append(onp.eye(3) + onp.sin(t) / t * K + (1 - onp.cos(t)) / t**2 * K @ K)
    return out


def run_case(case, R):
    import jax
    import jax.numpy as jnp
    if 'law' in case:
        v = case['vals']
        g = onp.array([case['head'] + list(t) for t in itertools.product(v, repeat=7)]).reshape(-1, 3, 3)
        _, _, le = prob('LinearElasticity', 'HEX8', [1, 1, 1])
        s = onp.asarray(jax.vmap(le.get_tensor_map())(jnp.array(g)))
        R.close(s, hooke(g), 1e-11, 'linear elastic stress differs from Hooke\'s law', scale=1e5)
        if case['head'] == [v[0], v[0]]:
            _, _, l2 = prob('LinearElasticity', 'QUAD4', [1, 1])
            g2 = onp.array(list(itertools.product(v, repeat=4))).reshape(-1, 2, 2)
            R.close(onp.asarray(jax.vmap(l2.get_tensor_map())(jnp.array(g2))), hooke(g2), 1e-11, '2-D linear elastic stress', scale=1e5)
        _, _, he = prob('HyperElasticity', 'HEX8', [1, 1, 1])
        ok = onp.linalg.det(g + onp.eye(3)) > .05
        gh = g[ok]
        f = jax.jit(jax.vmap(he.get_tensor_map()))
        P = onp.asarray(f(jnp.array(gh)))
        W = neo(gh)
        R.close(P, W, 1e-9, 'hyperelastic stress differs from the neo-Hookean law', scale=max(1., float(onp.max(onp.abs(W)))))
        R.close(onp.asarray(f(jnp.zeros((1, 3, 3)))), onp.zeros((1, 3, 3)), 1e-9, 'stress of the undeformed body', scale=1.)
        for Q in rots():
            Pq = onp.asarray(f(jnp.array(Q @ (gh + onp.eye(3)) - onp.eye(3))))
            R.close(Pq, Q @ P, 1e-8, 'hyperelastic stress is not frame indifferent', scale=max(1., float(onp.max(onp.abs(W)))))
            R.trans(len(gh))
        for k in range(len(g)):
            R.state('C09', case['head'], k)
        R.trans(len(g) + len(gh))
        R.trace(len(g) + len(gh))
        R.sample({'u_grad': g[17], 'sigma': s[17]})
        return
    if 'post' in case:
        ele = case['post']
        d = F.DIM[ele]
        pts, cells, fe = prob('LinearElasticity', ele, [1] * (d - 1) + [2], case['relabel'])
        he = prob('HyperElasticity', ele, [1] * (d - 1) + [2], case['relabel'])[2] if d == 3 else None
        L = pts.max(0) - pts.min(0)
        for side in sides_of(pts):
            area = onp.prod(L) / L[side[0]]
            a = onp.asarray(fe.compute_surface_area(side_fn(pts, side), jnp.zeros((len(pts), d))))
            R.close(a, area * onp.ones(d), 1e-10, f'surface area of side {side}')
            for i, j in itertools.product(range(d), repeat=2):
                G = .01 * onp.eye(d)
                G[i, j] += .02
                u = jnp.array(pts @ G.T)
                R.state('C09p', ele, case['relabel'], side, i, j)
                w = onp.asarray(fe.surface_integral(side_fn(pts, side), lambda g: g[..., 0] + 2. * g[..., d - 1], u))
                R.close(w, area * (G[:, 0] + 2 * G[:, d - 1]), 1e-9, f'surface integral over side {side}', scale=.01)
                if d == 3:
                    t = onp.asarray(fe.compute_traction(side_fn(pts, side), u))
                    R.close(t, area * hooke(G)[:, 2], 1e-9, f'total force on side {side}', scale=100.)
                    G = 10 * G
                    t = onp.asarray(he.compute_traction(side_fn(pts, side), jnp.array(pts @ G.T)))
                    R.close(t, area * neo(G)[:, 2], 1e-9, f'total force of the finite strain law on side {side}', scale=100.)
                R.trans(2)
                R.trace()
        return
    if 'norms' in case:
        ele = case['norms']
        d, deg = F.DIM[ele], min(F.EXACT[ele] // 2, 1)
        pts, cells, fe = prob('LinearPoisson', ele, [1] * (d - 1) + [2], case['relabel'], vec=2)
        exps = [tuple(0 for _ in range(d))] + ([tuple(int(k == i) for k in range(d)) for i in range(d)] if deg else [])
        Xs = pts[cells]

        def ex(f):
            return sum(F.cell_integral(ele, X, f) for X in Xs)
        for e1, e2 in itertools.product(exps, repeat=2):
            # numerical field (e1, 2*e1), true field (e2, 0); both linear so that the quadrature is exact
            u = onp.stack([F.mono(pts, e1), 2 * F.mono(pts, e1)], 1)

            def true(x):
                m = jnp.prod(jnp.array([x[k]**e2[k] for k in range(d)]))
                return jnp.array([m, 0. * x[0]])
            l2 = float(fe.compute_l2_norm_error(jnp.array(u), true))
            w0 = float(ex(lambda x: (F.mono(x, e1) - F.mono(x, e2))**2 + 4 * F.mono(x, e1)**2))
            R.close(l2, onp.sqrt(w0), 1e-9, f'L2 error norm of {e1} against {e2}', scale=1.)
            h1 = float(fe.compute_h1_norm_error(jnp.array(u), true))
            w1 = float(ex(lambda x: sum((F.dmono(x, e1, k) - F.dmono(x, e2, k))**2 + 4 * F.dmono(x, e1, k)**2 for k in range(d))))
            R.close(h1, onp.sqrt(w0) + onp.sqrt(w1), 1e-9, f'H1 error norm of {e1} against {e2}', scale=1.)
            R.state('C09n', ele, case['relabel'], e1, e2)
            R.trans(2)
            R.trace()
        return
    # patch test: affine boundary displacement is reproduced inside
    from jax_am.fem.solver import solver
    ele = case['patch']
    n = [2, 2, 2] if ele in ('HEX8', 'TET4') else [1, 1, 2]
    pts, cells, fe = prob('LinearElasticity', ele, n, 2)
    lo, hi = pts.min(0), pts.max(0)
    G = onp.array([[.01, .02, -.01], [.03, -.02, 0.], [.015, .01, .02]])
    z = jnp.array(G)

    def bnd(x):
        return jnp.any(jnp.isclose(x, jnp.array(lo), atol=1e-6)) | jnp.any(jnp.isclose(x, jnp.array(hi), atol=1e-6))
    fe.update_Dirichlet_boundary_conditions([[bnd] * 3, [0, 1, 2], [lambda x, c=c: z[c] @ x for c in range(3)]])
    sol = onp.asarray(solver(fe, linear=True, use_petsc=case['petsc']))
    R.close(sol, pts @ G.T, 1e-5, 'patch test: affine field not reproduced', scale=.05)
    s = onp.asarray(jax.vmap(jax.vmap(fe.get_tensor_map()))(fe.sol_to_grad(jnp.array(sol))))
    R.close(s, onp.broadcast_to(hooke(G), s.shape), 1e-3, 'patch test: stress not constant', scale=1e4)
    R.state('C09patch', ele, case['petsc'])
    R.trans()
    R.trace()

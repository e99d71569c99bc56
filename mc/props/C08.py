"""Plasticity: the stress follows the elastic perfectly plastic return map along every load history."""
import copy
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'every history of length <= 3 over {commit one of 4 displacement fields (elastic, plastic, reversed, volumetric+shear), '
                   'trial assembly at one of 2 fields} on HEX8 and TET4 meshes; every load history of length 3 over 4 boundary displacements '
                   'solved to equilibrium on a mesh with an interior node; derivative of the stress with respect to strain, old stress and old strain, forward and reverse, '
                   'for 14 strains x 6 old states; stress at 15 levels around the yield limit x 3 directions x 6 old states',
          'thorough': 'histories of length <= 4 and solved histories of length 4'}
E_, NU, SIG0 = 70e3, .3, 250.
MU, LM = E_ / (2 * (1 + NU)), E_ * NU / ((1 + NU) * (1 - 2 * NU))
GR = [onp.array([[.002, 0, 0], [0, -.0006, 0], [0, 0, -.0006]]),
      onp.array([[-.001, .003, 0], [.004, .002, .001], [-.002, 0, .009]]),
      onp.array([[-.006, .001, 0], [0, .003, -.002], [.001, .002, .001]]),
      onp.array([[.004, .001, 0], [-.001, .004, 0], [0, 0, .004]])]
LEVELS = (.5, .9, .98, .99, .995, .999, .9999, 1.0001, 1.001, 1.005, 1.01, 1.02, 1.1, 2., 5.)
OPS = [('commit', 0), ('commit', 1), ('commit', 2), ('commit', 3), ('trial', 1), ('trial', 2)]


def return_map(g, sig, eps):
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    de = e - eps
    I = onp.eye(3)
    tr = LM * onp.trace(de, axis1=-2, axis2=-1)[..., None, None] * I + 2 * MU * de + sig
    s = tr - onp.trace(tr, axis1=-2, axis2=-1)[..., None, None] / 3 * I
    n = onp.sqrt(1.5 * onp.sum(s * s, axis=(-1, -2)))[..., None, None]
    f = onp.maximum(n - SIG0, 0.)
    return tr - onp.where(n > 0, f * s / onp.where(n > 0, n, 1.), 0.), e


def mises(sig):
    s = sig - onp.trace(sig, axis1=-2, axis2=-1)[..., None, None] / 3 * onp.eye(3)
    return onp.sqrt(1.5 * onp.sum(s * s, axis=(-1, -2)))


def cases(tier):
    L = 3 if tier == 'quick' else 4
    out = [{'mesh': m, 'prefix': [i], 'depth': L} for m in (('HEX8', [2, 1, 1]), ('TET4', [1, 1, 1])) for i in range(len(OPS))]
    for h in itertools.product(range(4), repeat=2 if tier == 'quick' else 3):
        out.append({'solve': list(h)})
    out.append({'deriv': 3 if tier == 'quick' else 5})
    return out


def field(pts, k):
    u = pts @ GR[k].T
    return u + 2e-4 * det_arr(pts.shape, k) * (k != 0)


def build(m, **kw):
    from jax_am.fem.models import Plasticity
    from jax_am.fem.generate_mesh import Mesh
    pts, cells = F.mesh(m[0], m[1], 'bend', 1, 1)
    pts[:, 0] = pts[:, 0]**1.4
    return pts, Plasticity(Mesh(pts, cells, ele_type=m[0]), vec=3, dim=3, ele_type=m[0], **kw)


def grads(fe, u):
    return onp.einsum('cav,cqad->cqvd', u[onp.asarray(fe.cells)], onp.asarray(fe.shape_grads))


def internal_force(fe, sig):
    r = onp.zeros((fe.num_total_nodes, 3))
    f = onp.einsum('cqvd,cqad,cq->cav', sig, onp.asarray(fe.shape_grads), onp.asarray(fe.JxW))
    onp.add.at(r, onp.asarray(fe.cells).reshape(-1), f.reshape(-1, 3))
    return r


def run_deriv(case, R):
    """d stress / d (displacement gradient, old stress, old strain) in forward and reverse mode against complex steps of the return map"""
    import jax
    import jax.numpy as jnp
    _, fe = build(('HEX8', [1, 1, 1]))
    fn = fe.get_tensor_map()
    Z = onp.zeros((3, 3))
    gs = [Z] + [a * g for g in GR for a in (.1, 1., -1.)[:case['deriv']]] + [3e-3 * onp.eye(3)]
    sh = onp.array([[0., 120., 30.], [120., 0., -20.], [30., -20., 0.]])
    e0 = .5 * (GR[1] + GR[1].T)
    olds = [(Z, Z), (sh, Z), (-400. * onp.eye(3), Z), (sh + 90. * onp.eye(3), e0), (Z, e0), (onp.diag([200., -50., 0.]), .5 * (GR[2] + GR[2].T))]

    def cmap(g, sig, eps):
        e = .5 * (g + g.T)
        de = e - eps
        tr = LM * onp.trace(de) * onp.eye(3) + 2 * MU * de + sig
        s = tr - onp.trace(tr) / 3 * onp.eye(3)
        q = 1.5 * (s * s).sum()
        if q.real <= SIG0**2:
            return tr, q.real
        n = onp.sqrt(q)
        return tr - (n - SIG0) * s / n, q.real
    fwd = jax.jit(jax.jacfwd(fn, argnums=(0, 1, 2)))
    rev = jax.jit(jax.jacrev(fn, argnums=(0, 1, 2)))
    for (b, (so, eo)), k, lev in itertools.product(enumerate(olds), range(1, 4), LEVELS):
        # displacement gradients that bring the elastic trial stress to lev times the yield limit
        g = .1 * GR[k]

        def m(t):
            return onp.sqrt(cmap(eo + t * g, so, eo)[1])
        lo, hi = 0., 50.
        if m(lo) > lev * SIG0 - 5.:
            continue
        for _ in range(80):
            mid = .5 * (lo + hi)
            lo, hi = (mid, hi) if m(mid) < lev * SIG0 else (lo, mid)
        R.state('C08y', b, k, lev)
        R.trans()
        R.close(fn(jnp.array(eo + lo * g), jnp.array(so), jnp.array(eo)), cmap(eo + lo * g, so, eo)[0], 1e-9, f'stress where the elastic trial stress is {lev} of the yield limit, old state {b}', scale=SIG0)
    for (a, g), (b, (so, eo)) in itertools.product(enumerate(gs), enumerate(olds)):
        args = [g, so, eo]
        q = cmap(*args)[1]
        R.state('C08d', a, b)
        if abs(onp.sqrt(q) - SIG0) < 1e-6:
            continue
        want = []
        for k in range(3):
            d = onp.zeros((3, 3, 3, 3))
            for i, j in itertools.product(range(3), range(3)):
                z = [x.astype(complex) for x in args]
                z[k][i, j] += 1e-25j
                d[:, :, i, j] = cmap(*z)[0].imag / 1e-25
            want.append(d)
        for name, f in (('forward', fwd), ('reverse', rev)):
            got = f(*map(jnp.array, args))
            for k, what in enumerate(('displacement gradient', 'old stress', 'old strain')):
                R.close(got[k], want[k], 1e-9, f'{name} derivative of the stress with respect to the {what}: strain {a}, old state {b}', scale=1. if k == 1 else E_)
                R.trans()
        R.trace()


def run_case(case, R):
    if 'solve' in case:
        return run_solve(case, R)
    if 'deriv' in case:
        return run_deriv(case, R)
    import jax.numpy as jnp
    pts, fe = build(case['mesh'])
    sig = onp.zeros((fe.num_cells, fe.num_quads, 3, 3))
    eps = onp.zeros_like(sig)
    W = onp.asarray(fe.JxW)

    def step(fe, op, sig, eps, path):
        kind, k = op
        u = field(pts, k)
        g = grads(fe, u)
        s2, e2 = return_map(g, sig, eps)
        if kind == 'trial':
            r = onp.asarray(fe.newton_update(jnp.array(u)))
            R.close(r, internal_force(fe, s2), 1e-8, f'internal forces at a trial state after {path}', scale=50.)
        else:
            fe.update_stress_strain(jnp.array(u))
            sig, eps = s2, e2
        R.trans()
        avg = onp.asarray(fe.compute_avg_stress())
        R.close(avg, onp.einsum('cqij,cq->ij', sig, W) / W.sum(), 1e-8, f'average stress after {path}', scale=SIG0)
        if kind == 'commit' and len(path) == case['depth']:
            p = field(pts, 2)
            r = onp.asarray(fe.compute_residual(jnp.array(p)))
            s3, _ = return_map(grads(fe, p), sig, eps)
            R.close(r, internal_force(fe, s3), 1e-8, f'internal forces after {path}', scale=50.)
            R.trans()
        R.close(onp.asarray(fe.sigmas_old), sig, 1e-8, f'committed stress after {path}', scale=SIG0)
        R.expect(float(onp.max(mises(onp.asarray(fe.sigmas_old)))) <= SIG0 * (1 + 1e-9), f'stress outside the yield surface after {path}')
        R.state('C08', case['mesh'][0], tuple(path))
        R.trace()
        return sig, eps

    def dfs(fe, sig, eps, path):
        if len(path) == case['depth']:
            return
        for i, op in enumerate(OPS):
            f2 = copy.deepcopy(fe)
            s2, e2 = step(f2, op, sig, eps, path + [i])
            dfs(f2, s2, e2, path + [i])
    path = []
    for i in case['prefix']:
        path.append(i)
        sig, eps = step(fe, OPS[i], sig, eps, list(path))
    dfs(fe, sig, eps, path)
    R.sample({'prefix': case['prefix'], 'max_mises': float(mises(sig).max())})


def run_solve(case, R):
    """boundary moved along u = G_k x for each k of the history; the homogeneous state is the equilibrium"""
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    pts0, cells = F.mesh('HEX8', [2, 2, 2], 'box', 2, 1)
    lo, hi = pts0.min(0), pts0.max(0)

    def bnd(x):
        return jnp.any(jnp.isclose(x, jnp.array(lo), atol=1e-6)) | jnp.any(jnp.isclose(x, jnp.array(hi), atol=1e-6))

    def info(k):
        G = jnp.array(GR[k])
        return [[bnd] * 3, [0, 1, 2], [lambda x, c=c: G[c] @ x for c in range(3)]]
    from jax_am.fem.models import Plasticity
    from jax_am.fem.generate_mesh import Mesh
    fe = Plasticity(Mesh(pts0, cells), vec=3, dim=3, dirichlet_bc_info=info(case['solve'][0]))
    sig, eps = onp.zeros((3, 3)), onp.zeros((3, 3))
    for n, k in enumerate(case['solve']):
        fe.update_Dirichlet_boundary_conditions(info(k))
        sol = solver(fe, use_petsc=bool(n % 2))
        fe.update_stress_strain(sol)
        sig, eps = return_map(GR[k], sig, eps)
        R.trans()
        h = case['solve'][:n + 1]
        R.close(onp.asarray(fe.compute_avg_stress()), sig, 2e-4, f'average stress after the solved history {h}', scale=SIG0)
        R.expect(float(onp.max(mises(onp.asarray(fe.sigmas_old)))) <= SIG0 * (1 + 1e-9), f'stress outside the yield surface after {h}')
        bm = onp.any(onp.isclose(pts0, lo, atol=1e-6) | onp.isclose(pts0, hi, atol=1e-6), axis=1)
        R.close(onp.asarray(sol)[bm], (pts0 @ GR[k].T)[bm], 1e-8, f'boundary displacement after {h}', scale=1e-2)
        R.state('C08s', tuple(h))
        R.trace()

"""Design of elastoplastic parts: material law, load histories, work of the load and its gradient with respect to the design."""
import contextlib
import io
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD  # noqa
from mc.props.C39 import Ref as _Ref

BOUNDS = {'quick': 'stress for every density from {0, .5, 1} x strength design from {0, .25, 1} x 9 strains x 4 old states; two cells: every load history of 2 increments over {small, large, reversed, none} x '
                   '4 designs, and every order of flexible cells for 4 histories: equilibrium, stress update, work; gradient of the work with respect to every design variable for every history of 2 increments of one design and the histories that start with no or a large load of another',
          'thorough': 'histories of 3 increments, gradients of 4 designs'}
ASSUMPTIONS = ['the derivative is compared where no point is within 1e-6 of the yield limit']
LOADS = {'s': .3, 'l': 1.1, 'r': -1.06, 'n': 0.}     # in units of LIMIT
LIMIT = (68., 60., 76., 79.)       # about the load at which the first point yields, per design
DESIGNS = (((.5, .25), (.5, .25)), ((1., 0.), (.6, 1.)), ((.7, .5), (.9, .1)), ((.95, .8), (.4, 0.)))
NU = .3


def law(g, s_old, e_old, th):
    """complex values pass through (branches by the real part)"""
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    E = (70. + (70e3 - 70.) * th[..., 0]**3)[..., None, None]
    y = 250. + 100. * th[..., 1]
    I = onp.eye(3)
    de = e - e_old
    s = s_old + E * NU / ((1 + NU) * (1 - 2 * NU)) * onp.trace(de, axis1=-1, axis2=-2)[..., None, None] * I + E / (1 + NU) * de
    dev = s - onp.trace(s, axis1=-1, axis2=-2)[..., None, None] / 3 * I
    q = 1.5 * (dev**2).sum((-1, -2))
    n = onp.sqrt(onp.where(q.real > 0, q, 1.)) * (q.real > 0)
    f = n - y
    fp = onp.where(f.real > 0, f, 0.)
    return s - (fp / onp.where(n.real > 0, n, 1.))[..., None, None] * dev, e, f


class Ref(_Ref):
    def grad(self, u):
        return onp.einsum('cnv,cqni->cqvi', u[self.cells], self.G)

    def forces(self, s):
        r = onp.einsum('cq,cqvi,cqni->cnv', self.w, s, self.G)
        out = onp.zeros((len(self.pts), 3), r.dtype)
        onp.add.at(out, self.cells, r)
        return out

    def load(self, q):
        """traction (0, -q, 0) on the end face"""
        out = onp.zeros((len(self.pts), 3))
        xm = self.pts[:, 0].max()
        end = onp.flatnonzero(abs(self.pts[:, 0] - xm) < 1e-9)
        area = onp.ptp(self.pts[:, 1]) * onp.ptp(self.pts[:, 2])
        out[end, 1] = -q * area / len(end)
        return out


def solve(ref, loads, th):
    """own Newton iteration, increment by increment; th (cells, 2), may be complex"""
    th_q = onp.repeat(onp.asarray(th)[:, None, :], ref.w.shape[1], 1)
    z = onp.zeros(ref.w.shape + (3, 3))
    s, e = z, z
    n = len(ref.pts)
    free = onp.flatnonzero(onp.repeat(ref.pts[:, 0] > 1e-9, 3))
    u = onp.zeros((n, 3), th_q.dtype)
    hist = []
    for q in loads:
        b = ref.load(q)

        def res(v):
            return (ref.forces(law(ref.grad(v), s, e, th_q)[0]) - b).reshape(-1)[free]
        done = 0
        for it in range(80):
            r = res(u)
            done = done + 1 if abs(r).max() < 1e-11 * 50 else 0
            if done > 2:
                break
            K = onp.zeros((len(free), len(free)))
            for k, d in enumerate(free):
                v = (u.real if it else onp.zeros_like(u.real)).astype(complex)
                v.reshape(-1)[d] += 1e-30j
                # the first step is elastic, as if there had been no load before
                sc = law(ref.grad(v), s.real if it else 0 * s.real, e.real if it else 0 * e.real, th_q.real)[0]
                K[:, k] = (ref.forces(sc).reshape(-1)[free]).imag / 1e-30
            du = onp.linalg.solve(K, -r)
            a = 1.
            while True:
                v = u.copy()
                v.reshape(-1)[free] += a * du
                if it == 0 or done or a < 1e-2 or onp.linalg.norm(res(v).real) < onp.linalg.norm(r.real):
                    break
                a /= 2
            u = v
        else:
            raise RuntimeError('the model did not converge')
        sn, en, f = law(ref.grad(u), s, e, th_q)
        s, e = sn, en
        hist.append((u, s, e, f))
    return hist


def cases(tier):
    out = [{'kind': 'law'}]
    n = 2 if tier == 'quick' else 3
    for d in range(len(DESIGNS)):
        for seq in itertools.product(LOADS, repeat=n):
            if seq[-1] == 'n' and seq[-2] in 'ns':
                continue
            out.append({'kind': 'hist', 'design': d, 'seq': seq, 'grad': seq[-1] != 'n' and (d == 1 or tier != 'quick')})
    for flex, seq in itertools.product(([0], [1], [1, 0]), itertools.product('lr', repeat=2)):
        out.append({'kind': 'hist', 'design': 2, 'seq': seq, 'grad': seq == ('l', 'r'), 'flex': flex})
    return sorted(out, key=lambda c: c['kind'] == 'law')


def run_case(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        {'law': law_case, 'hist': hist_case}[case['kind']](case, R)


def build():
    import jax.numpy as np
    from jax_am.fem.generate_mesh import Mesh
    from applications.fem.top_opt.plasticity import Plasticity
    pts, cells = F.mesh('HEX8', [2, 1, 1], 'box', 0, 0)
    pts = (pts - pts.min(0)) / onp.ptp(pts, axis=0) * onp.array([2., 1.2, .9])
    xm = 2.
    p = Plasticity(Mesh(pts, cells), vec=3, dim=3, dirichlet_bc_info=[[lambda x: np.isclose(x[0], 0., atol=1e-6)] * 3, [0, 1, 2], [lambda x: 0.] * 3],
                   neumann_bc_info=[[lambda x: np.isclose(x[0], xm, atol=1e-6)], [traction(0.)]])
    return p, Ref(pts, cells)


def traction(q):
    import jax.numpy as np
    return lambda x: np.array([0., -q, 0.])


def law_case(case, R):
    import jax
    import jax.numpy as jnp
    p, _ = build()
    fn = p.get_tensor_map()
    base = onp.array([[.4, .3, -.2], [-.1, -.6, .5], [.3, .2, .1]]) * 1e-3
    gs = [a * base for a in (0., .5, 3., 12., -8.)] + [2e-3 * onp.eye(3), -5e-3 * onp.eye(3), onp.array([[0, .015, 0], [0, 0, 0], [0, 0, 0.]]), onp.diag([.01, -.005, -.005])]
    olds = [(onp.zeros((3, 3)), onp.zeros((3, 3))), (100. * onp.diag([1., -.4, .2]), 1e-3 * base + 1e-3 * base.T), (-300. * onp.eye(3), onp.zeros((3, 3))),
            (120. * (base + base.T) * 1e3 / 2, .3 * (base + base.T))]
    rows = list(itertools.product((0., .5, 1.), (0., .25, 1.), range(len(gs)), range(4)))
    g, so, eo = (onp.array([gs[r[2]] for r in rows]), onp.array([olds[r[3]][0] for r in rows]), onp.array([olds[r[3]][1] for r in rows]))
    th = onp.array([r[:2] for r in rows])
    got = onp.asarray(jax.vmap(fn)(*map(jnp.array, (g, so, eo, th))))
    want = law(g, so, eo, th)[0]
    for i, r in enumerate(rows):
        R.state('C42l', r)
        if not R.close(got[i], want[i], 1e-9, f'stress: design {r[:2]}, strain {r[2]}, old state {r[3]}', scale=250.):
            return
        R.trans()
    R.trace()


def hist_case(case, R):
    import jax
    import jax.numpy as jnp
    from jax_am.fem.solver import ad_wrapper
    p, ref = build()
    flex = case.get('flex') or [0, 1]
    given = onp.array(DESIGNS[case['design']])[:len(flex)]     # in the order of the flexible cells; the others are solid
    th = onp.ones((2, 2))
    th[flex] = given
    if 'flex' in case:
        p.flex_inds = jnp.array(flex)
    loads = [LOADS[c] * LIMIT[case['design']] for c in case['seq']]
    fwd = ad_wrapper(p)
    w = f'flexible cells {flex}, design {th.tolist()}, loads {loads}'
    keep = []

    def sequence(theta):
        params = p.init_params(theta)
        for q in loads:
            p.neumann_value_fns = [traction(q)]
            sol = fwd(params)
            params = p.update_stress_strain(sol, params)
            keep.append((sol, params))
        return sol
    hist = solve(ref, loads, th)
    clear = all(abs(f).min() > 1e-6 for _, _, _, f in hist)
    sequence(jnp.array(given))
    for k, ((sol, params), (u, s, e, f)) in enumerate(zip(keep, hist)):
        ok = R.close(sol, u, 1e-4, f'{w}: displacement of increment {k}', scale=max(1e-4, abs(u).max()))
        perm = order(p, ref)
        ok &= R.close(onp.take_along_axis(onp.asarray(params[0]), perm[..., None, None], 1), s, 1e-4, f'{w}: stress of increment {k}', scale=250.)
        ok &= R.close(onp.take_along_axis(onp.asarray(params[1]), perm[..., None, None], 1), e, 1e-4, f'{w}: strain of increment {k}', scale=max(1e-4, abs(e).max()))
        ok &= R.close(params[2], onp.repeat(th[:, None, :], ref.w.shape[1], 1), 1e-12, f'{w}: design during increment {k}')
        R.trans()
        if not ok:
            return
    ok = R.close(p.full_params, th, 1e-12, f'{w}: reported design')
    q = loads[-1]
    C = float((ref.load(q) * hist[-1][0]).sum())
    ok &= R.close(p.compute_compliance(traction(q), keep[-1][0]), C, 1e-4, f'{w}: work of the load', scale=max(1e-3, abs(C)))
    if case['grad'] and clear and ok:
        del keep[:]
        got = onp.asarray(jax.grad(lambda t: p.compute_compliance(traction(q), sequence(t)))(jnp.array(given)))
        want = onp.zeros_like(given)
        for i, j in itertools.product(range(len(flex)), range(2)):
            z = th.astype(complex)
            z[flex[i], j] += 1e-25j
            hz = solve(ref, loads, z)
            want[i, j] = (ref.load(q) * hz[-1][0]).sum().imag / 1e-25
        ok &= R.close(got, want, 2e-3, f'{w}: gradient of the work', scale=abs(want).max())
        R.sample({'design': th.tolist(), 'loads': loads, 'gradient': want.tolist(), 'yielding points': [int((f > 0).sum()) for _, _, _, f in hist]})
    R.state('C42h', case['design'], case['seq'], flex)
    R.trace()


def order(problem, ref):
    X = onp.asarray(problem.get_physical_quad_points())
    Y = onp.einsum('qn,cni->cqi', ref.v, ref.pts[ref.cells])
    return onp.array([[int(onp.argmin(((X[c] - y)**2).sum(-1))) for y in Y[c]] for c in range(len(X))])

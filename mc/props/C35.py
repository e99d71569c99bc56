"""Topology optimisation model: material law, designs on flexible cells, compliance, its gradient, stress measure."""
import contextlib
import io
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'six problem kinds: stress for every unit displacement gradient (and one full one) x every density from {0, .3, .5, 1} (pairs for two materials); '
                   'compliance, gradient, stress measure and field: meshes of 2 to 4 cells, every ordered choice of flexible cells of up to 3, every design from {.3, 1} per flexible cell '
                   '(all designs for 1 and 2 flexible cells, all equal and one different above), three sequences of designs on one problem object',
          'thorough': 'all designs from {.3, .6, 1} for every ordered choice of flexible cells'}
ASSUMPTIONS = ['the stress measure of the plane problems is not claimed (see DESIGN.md)']
K3, K2 = ('box', 'freecad', 'multi_material'), ('plate', 'L_shape', 'eigen')
EMAX = {'box': 70e9, 'freecad': 70e3, 'multi_material': 70e3, 'plate': 70e9, 'L_shape': 70e9, 'eigen': 70e9}
NU = .3


def modulus(kind, th):
    if kind == 'multi_material':
        return 70. + th[0]**3 * (th[1]**3 * 70e3 + (1 - th[1]**3) * .2 * 70e3)
    lo, p = {'box': (70., 3), 'freecad': (70., 3), 'plate': (70e6, 3), 'L_shape': (70e6, 3), 'eigen': (70e6, 5)}[kind]
    return lo + (EMAX[kind] - lo) * th[0]**p


def dmodulus(kind, th):
    h = 1e-30
    out = []
    for k in range(len(th)):
        z = onp.array(th, complex)
        z[k] += 1j * h
        out.append(modulus(kind, z).imag / h)
    return onp.array(out)


def unit_stress(kind, g):
    """stress for a modulus of one: plane stress in two dimensions"""
    e = .5 * (g + g.T)
    if kind in K3:
        return NU / ((1 + NU) * (1 - 2 * NU)) * onp.trace(e) * onp.eye(3) + e / (1 + NU)
    return (1 - NU) / (1 - NU**2) * e + NU / (1 - NU**2) * onp.trace(e) * onp.eye(2)


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'law', 'flag': f} for f in K3 + K2]
    for f in K3 + K2:
        nc = 2 if f in K3 else 4
        for n in range(1, min(nc, 3) + 1):
            for flex in itertools.permutations(range(nc), n):
                if q and n == 3 and (f != 'plate' or flex[0] > flex[1]):
                    continue
                if q and n > 1 and (f in ('L_shape', 'eigen') or f == 'freecad' and flex[0] or f == 'plate' and n == 2 and sum(flex) % 2):
                    continue
                out.append({'kind': 'solve', 'flag': f, 'flex': flex, 'q': q})
    return sorted(out, key=lambda c: c['kind'] == 'law')


def build(flag, flex):
    import jax.numpy as np
    from jax_am.fem.generate_mesh import Mesh
    from applications.fem.top_opt.fem_model import Elasticity
    d = 3 if flag in K3 else 2
    ele = 'HEX8' if d == 3 else 'QUAD4'
    pts, cells = F.mesh(ele, [2, 1, 1] if d == 3 else [2, 2], 'box', 2, 0)
    lo, hi = pts.min(0), pts.max(0)
    t = (pts - lo) / (hi - lo)     # cells of different size and shape: graded in y, tapered along x
    pts[:, 1] = lo[1] + (hi[1] - lo[1]) * t[:, 1]**1.4 * (1 + .5 * t[:, 0])
    x0, x1 = pts[:, 0].min(), pts[:, 0].max()

    def load(x):
        return EMAX[flag] * 1e-3 * np.array([.3, -1., .5 * x[1]][:d])
    pb = Elasticity(Mesh(pts, cells, ele_type=ele), vec=d, dim=d, ele_type=ele,
                    dirichlet_bc_info=[[lambda x: np.isclose(x[0], x0, atol=1e-5)] * d, list(range(d)), [lambda x: 0.] * d],
                    neumann_bc_info=[[lambda x: np.isclose(x[0], x1, atol=1e-5)], [load]], additional_info=(flag,))
    if flex is not None:
        pb.flex_inds = np.array(flex)
    return pb, pts, cells, load, (x0, x1)


def model(flag, pts, cells, load, ends):
    """element stiffness for a unit modulus, load vector, free components"""
    d = pts.shape[1]
    ele = 'HEX8' if d == 3 else 'QUAD4'
    P, W = F.gauss(F.BASE[ele], 2)
    v, g = F.shape(ele, P)
    n = len(cells[0])
    Ke, B, V = [], [], []
    for c in cells:
        J = onp.einsum('ni,qnk->qik', pts[c], g)
        w = W * onp.linalg.det(J)
        G = onp.einsum('qnk,qki->qni', g, onp.linalg.inv(J))
        K = onp.zeros((n * d, n * d))
        for a, i in itertools.product(range(n), range(d)):
            for q in range(len(w)):
                H = onp.zeros((d, d))
                H[i] = G[q, a]
                K[:, a * d + i] += w[q] * (G[q] @ unit_stress(flag, H).T).reshape(-1)
        Ke.append(K)
        B.append(G)
        V.append(w)
    f = onp.zeros((len(pts), d))
    for c in cells:
        for fc in F.FACES[F.BASE[ele]]:
            nodes = c[list(fc)]
            X = pts[nodes]
            if onp.allclose(X[:, 0], ends[1]):
                Q, Wf = F.gauss('QUAD' if d == 3 else 'LINE', 2)
                for q, w in zip(Q, Wf):
                    N = onp.array([(1 - q[0]), q[0]]) if d == 2 else onp.array([(1 - q[0]) * (1 - q[1]), q[0] * (1 - q[1]), q[0] * q[1], (1 - q[0]) * q[1]])
                    area = onp.linalg.norm(X[1] - X[0]) if d == 2 else onp.linalg.norm(onp.cross(X[1] - X[0], X[3] - X[0]))
                    f[nodes] += w * area * N[:, None] * onp.asarray(load(N @ X))[None]
    free = onp.nonzero(onp.repeat(~onp.isclose(pts[:, 0], ends[0]), d))[0]
    return Ke, B, V, f, free


def run_case(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        (law if case['kind'] == 'law' else solve)(case, R)


def law(case, R):
    import jax.numpy as np
    flag = case['flag']
    pb, *_ = build(flag, None)
    d = 3 if flag in K3 else 2
    R.expect(onp.array_equal(onp.asarray(pb.flex_inds), onp.arange(pb.num_cells)), 'not every cell is flexible to begin with')
    grads = []
    for i, j in itertools.product(range(d), repeat=2):
        g = onp.zeros((d, d))
        g[i, j] = 1e-3
        grads.append(g)
    grads.append(1e-3 * onp.array([[.3, -.7, .2], [.9, -.4, .5], [-.6, .1, .8]])[:d, :d])
    fn = pb.get_tensor_map()
    for th in itertools.product((0., .3, .5, 1.), repeat=2 if flag == 'multi_material' else 1):
        for k, g in enumerate(grads):
            want = modulus(flag, th) * unit_stress(flag, g)
            got = fn(np.array(g), np.array(th))
            if not R.close(got, want, 1e-9, f'stress for density {th} and gradient {g.tolist()}', scale=1e-3 * modulus(flag, th)):
                return
            R.state('C35l', flag, th, k)
            R.trans()
    R.trace()


def solve(case, R):
    import jax
    import jax.numpy as np
    from jax_am.fem.solver import ad_wrapper
    flag, flex = case['flag'], tuple(case['flex'])
    pb, pts, cells, load, ends = build(flag, flex)
    d = pts.shape[1]
    Ke, B, V, f, free = model(flag, pts, cells, load, ends)
    k = 2 if flag == 'multi_material' else 1
    n = len(flex)
    lev = (.3, 1.) if case['q'] else (.3, .6, 1.)
    if case['q'] and (n > 2 or k * n > 2):
        designs = [(.3,) * (k * n), (1.,) * (k * n)] + [tuple(.55 if i == j else .3 + .1 * i for i in range(k * n)) for j in range(k * n)]
    else:
        designs = list(itertools.product(lev, repeat=k * n))
    fwd = ad_wrapper(pb, linear=True, use_petsc=False)

    def J(p):
        sol = fwd(p)
        return pb.compute_compliance(load, sol), sol
    for n_, des in enumerate(designs + designs[:1]):
        p = onp.array(des).reshape(n, k)
        (val, sol), grad = jax.value_and_grad(J, has_aux=True)(np.array(p))
        full = onp.ones((len(cells), k))
        full[list(flex)] = p
        K = onp.zeros((pts.size, pts.size))
        idx = [(c[:, None] * d + onp.arange(d)).reshape(-1) for c in cells]
        for c in range(len(cells)):
            K[onp.ix_(idx[c], idx[c])] += modulus(flag, full[c]) * Ke[c]
        u = onp.zeros(pts.size)
        u[free] = onp.linalg.solve(K[onp.ix_(free, free)], f.reshape(-1)[free])
        comp = float(f.reshape(-1) @ u)
        want = onp.array([-dmodulus(flag, full[c]) * (u[idx[c]] @ Ke[c] @ u[idx[c]]) for c in flex])
        w = f'flexible cells {flex}, design {des}'
        pb.set_params(np.array(p))
        ok = R.close(onp.asarray(pb.full_params), full, 1e-12, f'{w}: densities of the cells', scale=1.)
        ok &= R.close(onp.asarray(sol).reshape(-1), u, 1e-6, f'{w}: displacement', scale=abs(u).max())
        ok &= R.close(float(val), comp, 1e-6, f'{w}: compliance', scale=abs(comp))
        ok &= R.close(onp.asarray(grad), want, 1e-5, f'{w}: gradient of the compliance', scale=abs(want).max())
        if flag in K3:
            vm = []
            for c in range(len(cells)):
                U = u.reshape(-1, d)[cells[c]]
                s = 0.
                for q in range(len(V[c])):
                    S = modulus(flag, full[c]) * unit_stress(flag, U.T @ B[c][q])
                    D = S - onp.trace(S) / 3 * onp.eye(3)
                    s += V[c][q] * onp.sqrt(1.5 * (D * D).sum())
                vm.append(s / V[c].sum())
            ok &= R.close(onp.asarray(pb.compute_von_mises_stress(np.array(u.reshape(-1, d)))), vm, 1e-8, f'{w}: stress measure', scale=max(vm))
        if not ok:
            return
        R.state('C35', flag, flex, des)
        R.trans()
    R.trace()
    R.sample({'compliance': comp})

"""Phase field fracture: tension only degradation, irreversible damage, driving energy of the whole history."""
import itertools
import os
import numpy as onp
from mc import femref as F
from mc import scripts as S
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'stress and tensile energy for every strain with principal values from {-2,-1,0,1,2}e-3 x 5 frames x damage {0, .3, .9, 1}; the simulation itself (script executed unchanged, meshes coarsened, '
                   'the two solves replaced by stand-ins that check the equations they are given and answer with given fields): every history of 3 increments over 4 answers {tension, compression, mixed, '
                   'unloaded} x {larger, smaller damage}; force on the loaded face for 12 fields; the complete load programme of the script once; 3 increments with the real solver',
          'thorough': 'histories of 4 increments, 6 increments with the real solver'}
ASSUMPTIONS = ['the strain is perturbed by 1e-8 in the code to separate equal principal values; the tolerance allows for it']
CASE_LIMIT = 800
GC, E, NU, L = 2.7e-3, 210., .3, .02
MU, LA = E / 2 / (1 + NU), E * NU / (1 + NU) / (1 - 2 * NU)
FILE = 'demos/fem/phase_field_fracture/example.py'
N = (4, 4, 1)
DISPS = onp.concatenate([.01 * onp.linspace(a, b, n) for a, b, n in ((0, .6, 21), (.6, .8, 121), (.8, -.4, 61), (-.4, .8, 61), (.8, 1., 121))])


def cases(tier):
    out = [{'kind': 'programme'}, {'kind': 'real', 'n': 3 if tier == 'quick' else 6}]
    n = 3 if tier == 'quick' else 4
    for first in itertools.product('tcmu', repeat=n - 1):
        out.append({'kind': 'loop', 'first': first, 'n': n})
    out += [{'kind': 'law', 'frame': k} for k in range(5)] + [{'kind': 'force'}]
    return out


def pos(x):
    return onp.maximum(x, 0.)


def neg(x):
    return onp.minimum(x, 0.)


def tensile(g):
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    return LA / 2 * pos(onp.trace(e, axis1=-1, axis2=-2))**2 + MU * (pos(onp.linalg.eigvalsh(e))**2).sum(-1)


def stress(g, d):
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    v, V = onp.linalg.eigh(e)
    deg = ((1 - d)**2 + 1e-3)[..., None, None]
    tr = onp.trace(e, axis1=-1, axis2=-2)[..., None, None]
    p = onp.einsum('...ia,...a,...ja->...ij', V, pos(v), V)
    m = onp.einsum('...ia,...a,...ja->...ij', V, neg(v), V)
    return LA * (deg * pos(tr) + neg(tr)) * onp.eye(3) + 2 * MU * (deg * p + m)


class Ref:
    """independent element quantities of the mesh the script built"""
    def __init__(self, pts, cells):
        self.pts, self.cells = pts, cells
        P, W = F.gauss('HEX', 2)
        v, g = F.shape('HEX8', P)
        X = pts[cells]
        J = onp.einsum('cni,qnk->cqik', X, g)
        self.w = W * onp.linalg.det(J)
        self.G = onp.einsum('qnk,cqki->cqni', g, onp.linalg.inv(J))
        self.v, self.P = v, P

    def grad(self, u):
        return onp.einsum('cnv,cqni->cqvi', u[self.cells], self.G)

    def val(self, d):
        return onp.einsum('cn,qn->cq', d[self.cells], self.v)

    def scatter(self, r):
        out = onp.zeros((len(self.pts),) + r.shape[2:])
        onp.add.at(out, self.cells, r)
        return out

    def res_u(self, u, d):
        s = stress(self.grad(u), self.val(d))
        return self.scatter(onp.einsum('cq,cqvi,cqni->cnv', self.w, s, self.G))

    def res_d(self, d, H):
        gd = onp.einsum('cn,cqni->cqi', d[self.cells], self.G)
        dq = self.val(d)
        return self.scatter(onp.einsum('cq,cqi,cqni->cn', self.w, GC * L * gd, self.G)
                            + onp.einsum('cq,cq,qn->cn', self.w, GC / L * dq - 2 * (1 - dq) * H, self.v))


def quad_order(R, problem, ref, w):
    """the code may number its quadrature points differently from the model: order of the model's points"""
    X = onp.asarray(problem.get_physical_quad_points())
    Y = onp.einsum('qn,cni->cqi', ref.v, ref.pts[ref.cells])
    perm = onp.array([[int(onp.argmin(((X[c] - y)**2).sum(-1))) for y in Y[c]] for c in range(len(X))])
    got = onp.take_along_axis(X, perm[:, :, None], 1)
    R.close(got, Y, 1e-9, f'{w}: quadrature points')
    return perm


def answer(letter, k, pts):
    """displacement and damage a solve answers with"""
    x, y, z = pts.T
    a = .002 * (1 + .15 * k)
    u = {'t': onp.stack([-.3 * a * x, a * y * (1 + .3 * x), 0 * z], 1), 'c': onp.stack([.3 * a * x, -a * y * (1 - .2 * x * y), 0 * z], 1),
         'm': a * onp.stack([onp.sin(5 * x + y) - 2 * y * y, onp.cos(3 * y) * x, 4 * z * onp.sin(4 * x + 2 * y)], 1), 'u': onp.zeros((len(pts), 3))}[letter]
    d = {'t': onp.exp(-8 * ((y - .5)**2 + (x - .3)**2)), 'c': .4 * onp.exp(-4 * ((y - .25)**2 + (x - .8)**2)),
         'm': .5 + .5 * onp.sin(7 * x + 4 * y + 90 * z), 'u': 0 * x - 1e-3}[letter] * (.8 + .02 * k)
    return u, d


def simulate(R, letters, w, real=False, check=lambda k: True):
    """run the script; the solves answer with the fields of `letters` (or really solve)"""
    import jax_am.fem.generate_mesh as GM
    import jax_am.fem.solver as SO
    import meshio
    own_mesh, own_solver = GM.box_mesh, SO.solver
    root = str(R.tmp())
    st = {'k': 0, 'u': None, 'ok': True, 'ref': None, 'H': 0., 'Hall': [], 'forces': [], 'turn': 'u'}

    def coarse(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **kw):
        return own_mesh(*N, Lx, Ly, Lz, data_dir, *a, **kw)

    def start(problem):
        pts, cells = onp.asarray(problem.points), onp.asarray(problem.cells)
        st['ref'] = Ref(pts, cells)
        x, y = pts[:, 0], pts[:, 1]
        st['d'] = ((abs(y - .5) < .01) & (x > .5)) * 1.
        st['H'] = onp.zeros(st['ref'].w.shape)
        st['pts'] = pts
        st['damages'], st['disps'], st['Hs'] = [st['d']], [onp.zeros((len(pts), 3))], [st['H']]

    def solve(problem, *a, **kw):
        import jax.numpy as jnp
        if st['ref'] is None:
            start(problem)
        ref, pts = st['ref'], st['pts']
        k = st['k']
        if k == len(letters):
            raise S.Enough()
        kind = 'u' if problem.vec == 3 else 'd'
        ok = R.expect(kind == st['turn'], f'{w}: solve for {kind}, expected {st["turn"]}')
        if kind == 'u':
            if check(k):
                probe = answer('m', k % 5 + 1, pts)[0]
                want = ref.res_u(probe, st['d'])
                ok &= R.close(problem.compute_residual(jnp.array(probe)), want, 1e-5, f'{w}: increment {k}: nodal forces against degraded stress', scale=abs(want).max())
                fixed = {}
                for n, v, val in zip(problem.node_inds_list, problem.vec_inds_list, problem.vals_list):
                    for i, c, x in zip(onp.asarray(n), onp.asarray(v), onp.asarray(val)):
                        fixed[int(i), int(c)] = float(x)
                want = {(i, c): (DISPS[k + 1] if c == 1 and pts[i, 1] > .5 else 0.) for i in range(len(pts)) for c in range(3) if pts[i, 1] < 1e-4 or pts[i, 1] > 1 - 1e-4}
                ok &= R.expect(set(fixed) == set(want) and all(abs(fixed[q] - want[q]) < 1e-9 for q in want), f'{w}: increment {k}: prescribed displacements')
            st['turn'] = 'd'
            if real:
                sol = onp.asarray(own_solver(problem, *a, **kw))
                r = ref.res_u(sol, st['d'])
                free = (pts[:, 1] > 1e-4) & (pts[:, 1] < 1 - 1e-4)
                ok &= R.close(r[free], 0 * r[free], 1e-4, f'{w}: increment {k}: equilibrium', scale=.02 * E * 1e-2 * .25)
            else:
                sol = answer(letters[k], k, pts)[0]
            st['newu'] = sol
            st['ok'] &= ok
            out = jnp.array(sol)
        else:
            if check(k):
                probe = answer('m', k % 5 + 1, pts)[1]
                want = ref.res_d(probe, st['H'])
                ok &= R.close(onp.asarray(problem.compute_residual(jnp.array(probe)[:, None]))[:, 0], want, 1e-6,
                              f'{w}: increment {k}: damage equation with the driving energy so far', scale=abs(want).max())
            if real:
                d = onp.asarray(own_solver(problem, *a, **kw))
                r = ref.res_d(d[:, 0], st['H'])
                ok &= R.close(r, 0 * r, 1e-3, f'{w}: increment {k}: damage solves its equation', scale=GC / L * .02 / 16)
            else:
                d = answer(letters[k], k, pts)[1][:, None]
            st['turn'] = 'u'
            st['H'] = onp.maximum(st['H'], tensile(ref.grad(st['newu'])))
            st['d'] = onp.maximum(st['d'], d[:, 0])
            st['damages'].append(st['d'])
            st['disps'].append(st['newu'])
            st['Hs'].append(st['H'])
            st['k'] += 1
            st['ok'] &= ok
            out = jnp.array(d)
        R.trans()
        if not st['ok']:
            raise S.Enough()
        return out
    ns, text, stopped = S.run(FILE, root, {('jax_am.fem.generate_mesh', 'box_mesh'): coarse, ('jax_am.fem.solver', 'solver'): solve})
    if not st['ok']:
        return None
    if not R.expect(st['k'] == len(letters), f'{w}: the script made {st["k"]} increments'):
        return None
    done = st['k'] + (0 if stopped else 1)
    for k in range(st['k'] + 1):
        if not check(k - 1) and k:
            continue
        p = f'{root}/data/vtk/u_{k:05d}.vtu'
        if not R.expect(os.path.exists(p), f'{w}: no result of increment {k}'):
            return None
        m = meshio.read(p)
        ok = R.close(onp.asarray(m.point_data['sol']).reshape(-1), st['damages'][k], 1e-5, f'{w}: written damage after increment {k} is the largest so far', scale=1.)
        ok &= R.close(m.point_data['u'], st['disps'][k], 1e-5, f'{w}: written displacement after increment {k}', scale=.003)
        hist = onp.asarray(m.cell_data['history'][0]).reshape(-1)
        ok &= R.close(hist, st['Hs'][k].mean(1), 1e-5, f'{w}: written driving energy after increment {k}', scale=max(1e-6, float(st['Hs'][k].max())))
        R.trans()
        if not ok:
            return None
    return root, st, done


def face_force(ref, u, d, side):
    """integral of stress times the outward normal over the face y = 1 (cells are boxes); 2 point rule per direction"""
    g1 = .5 + onp.array([-1, 1]) / onp.sqrt(12)
    xi = onp.array([[a, 1. if side else 0., b] for a in g1 for b in g1])
    v, g = F.shape('HEX8', xi)
    tot = onp.zeros(3)
    for c in ref.cells:
        X = ref.pts[c]
        ext = X[:, 1].max() if side else X[:, 1].min()
        if abs(ext - (1. if side else 0.)) > 1e-6:
            continue
        # the model's local numbering follows the reference cell, so xi[1] is y only if the cell is aligned: find the axis by position
        J = onp.einsum('ni,qnk->qik', X, g)
        pos_ = onp.einsum('qn,ni->qi', v, X)
        if onp.ptp(pos_[:, 1]) > 1e-9 or abs(pos_[0, 1] - ext) > 1e-9:
            raise RuntimeError('cell orientation')
        G = onp.einsum('qnk,qki->qni', g, onp.linalg.inv(J))
        gr = onp.einsum('nv,qni->qvi', u[c], G)
        s = stress(gr, v @ d[c])
        area = onp.ptp(X[:, 0]) * onp.ptp(X[:, 2])
        tot += (s[:, :, 1] * (1. if side else -1.)).sum(0) * area / 4
    return tot


def run_case(case, R):
    {'law': law, 'force': force, 'loop': loop, 'programme': programme, 'real': real}[case['kind']](case, R)


def problem_of(R):
    """the elasticity problem the script builds"""
    import jax_am.fem.generate_mesh as GM
    own = GM.box_mesh
    got = {}

    def coarse(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **kw):
        return own(*N, Lx, Ly, Lz, data_dir, *a, **kw)

    def stop(problem, *a, **kw):
        got['p'] = problem
        raise S.Enough()
    S.run(FILE, str(R.tmp()), {('jax_am.fem.generate_mesh', 'box_mesh'): coarse, ('jax_am.fem.solver', 'solver'): stop})
    return got['p']


def frames():
    c, s = onp.cos(.7), onp.sin(.7)
    A = onp.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])
    B = onp.array([[1., 0, 0], [0, c, s], [0, -s, c]])
    P = onp.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]])
    return [onp.eye(3), A, A @ B, P, B @ A @ B.T @ P]


def law(case, R):
    import jax
    import jax.numpy as jnp
    p = problem_of(R)
    Q = frames()[case['frame']]
    gs, ds = [], []
    for v in itertools.product((-2, -1, 0, 1, 2), repeat=3):
        e = Q @ onp.diag(v) @ Q.T * 1e-3
        skew = onp.array([[0, 1, -2], [-1, 0, .5], [2, -.5, 0]]) * 1e-3
        for d in (0., .3, .9, 1.):
            gs.append(e + (skew if len(ds) % 3 else 0.))
            ds.append(d)
            R.state('C39l', case['frame'], v, d)
    gs, ds = onp.array(gs), onp.array(ds)
    fn = p.get_tensor_map()
    got = onp.asarray(jax.vmap(fn)(jnp.array(gs), jnp.array(ds)[:, None]))
    want = stress(gs, ds)
    for i in range(len(gs)):
        if not R.close(got[i], want[i], 5e-5, f'stress for strain {gs[i].tolist()} damage {ds[i]}', scale=E * 1e-3):
            return
        R.trans()
    # energy through the history update: largest of the old value and the tensile energy
    pts = onp.asarray(p.points)
    ref = Ref(pts, onp.asarray(p.cells))
    for i in range(0, len(gs), 4):
        u = pts @ gs[i].T
        for old in (0., 1e-4):
            H = onp.asarray(p.compute_history(jnp.array(u), old * onp.ones(ref.w.shape)))
            if not R.close(H, onp.maximum(old, tensile(ref.grad(u))), 1e-7, f'driving energy for strain {gs[i].tolist()}, old value {old}', scale=E * 1e-6):
                return
            R.trans()
    R.trace()


def force(case, R):
    import jax.numpy as jnp
    p = problem_of(R)
    ref = Ref(onp.asarray(p.points), onp.asarray(p.cells))
    for l1, l2, side in itertools.product('tcm', 'tc', (1,)):
        u, d = answer(l1, 1, ref.pts)[0], answer(l2, 2, ref.pts)[1]
        for uu in (u, u[:, [0, 2, 1]]):
            got = onp.asarray(p.compute_traction(lambda x: jnp.isclose(x[1], float(side), atol=1e-5), jnp.array(uu), jnp.array(d)[:, None]))
            if not R.close(got, face_force(ref, uu, d, side), 1e-4, f'force on the loaded face, fields {l1} {l2}', scale=E * 2e-3 * .02):
                return
            R.state('C39f', l1, l2, side)
            R.trans()
    R.trace()


def loop(case, R):
    for rest in itertools.product('tcmu', repeat=1):
        seq = tuple(case['first']) + rest
        if simulate(R, seq, 'history ' + ''.join(seq)) is None:
            return
        R.state('C39h', seq)
        R.trace()
    R.sample({'histories': 4, 'first': case['first']})


def programme(case, R):
    letters = [('t', 'm', 'c', 'u')[(k // 3 + k * k) % 4] for k in range(len(DISPS) - 1)]
    n = len(letters)
    r = simulate(R, letters, 'complete programme', check=lambda k: k % 16 == 0 or k > n - 3)
    if r is None:
        return
    root, st, _ = r
    p = f'{root}/data/numpy/results.npy'
    if not R.expect(os.path.exists(p), 'no load displacement curve'):
        return
    res = onp.load(p)
    want = [0.] + [face_force(st['ref'], st['disps'][k + 1], st['damages'][k + 1], 1)[1] / .02 for k in range(n)]
    R.expect(res.shape == (2, n + 1), f'load displacement curve of shape {res.shape}')
    R.close(res[0], DISPS, 1e-9, 'displacements of the curve', scale=.01)
    R.close(res[1], want, 1e-5, 'forces of the curve', scale=onp.abs(want).max())
    R.state('C39p')
    R.trace()


def real(case, R):
    r = simulate(R, ['t'] * case['n'], 'with the real solver', real=True)
    if r is not None:
        R.state('C39r', case['n'])
        R.trace()

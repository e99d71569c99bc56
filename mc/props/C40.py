"""Thermo-mechanical simulation: temperature balance, phase changes of every point, thermal strain and plastic stress."""
import itertools
import os
import numpy as onp
from mc import femref as F
from mc import scripts as S
from mc.femcommon import PRELOAD  # noqa
from mc.props.C39 import Ref as _Ref

BOUNDS = {'quick': 'the simulation itself (script executed unchanged on a coarse mesh; the two solves replaced by stand-ins that check the equations they are given and answer with given fields): '
                   'every history of 3 mechanical increments over {unloaded, small, large deformation}, in each of them points of the part going through every history over {cold, hot}; heat '
                   'equation of the thermal steps at and after increments, at the start, around the switch off and at the end of the complete programme; stress law for every phase x 4 temperature changes x 11 strain increments x '
                   '3 old stresses',
          'thorough': 'histories of 4 mechanical increments, heat equation of every thermal step, 12 thermal steps and one increment with the real solver'}
CASE_LIMIT = 850
FILE = 'demos/fem/thermal_mechanical/example.py'
CP, RHO, K, TL, HC, ETA, SB, EM, T0 = 588., 8440., 15., 1623., 100., .25, 5.67e-8, .3, 300.
VEL, RB, P = .5, .05e-3, 50.
LX, LY, LZ = .5e-3, .2e-3, .05e-3
DT, ON, END = 2e-6, .5e-3, 1e-3
E0, SIG0, ALPHA, NU = 70e9, 250e6, 1e-5, .3
POWDER, LIQUID, SOLID = 0, 1, 2
N = (4, 2, 1)


class Ref(_Ref):
    def res_T(self, T, old, dt):
        gT = onp.einsum('cn,cqni->cqi', T[self.cells], self.G)
        rate = RHO * CP * (self.val(T) - self.val(old)) / dt
        return self.scatter(onp.einsum('cq,cqi,cqni->cn', self.w, K * gT, self.G) + onp.einsum('cq,cq,qn->cn', self.w, rate, self.v))

    def res_s(self, s):
        return self.scatter(onp.einsum('cq,cqvi,cqni->cnv', self.w, s, self.G))

    def flux(self, old, laser, power):
        """heat entering through the top and the four walls, per node"""
        out = onp.zeros(len(self.pts))
        g1 = .5 + onp.array([-1, 1]) / onp.sqrt(12)
        for ax, side in ((2, 1), (0, 0), (0, 1), (1, 0), (1, 1)):
            xi = onp.zeros((4, 3))
            rest = [a for a in range(3) if a != ax]
            xi[:, rest] = [(a, b) for a in g1 for b in g1]
            xi[:, ax] = side
            v, _ = F.shape('HEX8', xi)
            lim = (LX, LY, LZ)[ax] * side
            for c in self.cells:
                X = self.pts[c]
                pos = v @ X
                if abs(pos[:, ax] - lim).max() > 1e-9:
                    continue
                area = onp.ptp(X[:, rest[0]]) * onp.ptp(X[:, rest[1]])
                T = v @ old[c]
                q = HC * (T0 - T) + SB * EM * (T0**4 - T**4)
                if ax == 2:
                    q = q + power * 2 * ETA * P / (onp.pi * RB**2) * onp.exp(-2 * ((pos[:, 0] - laser[0])**2 + (pos[:, 1] - laser[1])**2) / RB**2)
                onp.add.at(out, c, area / 4 * v.T @ q)
        return out


def law(g, s_old, e_old, dT, phase):
    """g ... (..., 3, 3); dT, phase (...)"""
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    I = onp.eye(3)
    Em = onp.where(phase == SOLID, E0, .01 * E0)[..., None, None]
    al = onp.where(phase == SOLID, ALPHA, 0.)
    de = e - e_old - (al * dT)[..., None, None] * I
    mu, la = Em / 2 / (1 + NU), Em * NU / (1 + NU) / (1 - 2 * NU)
    s = s_old + la * onp.trace(de, axis1=-1, axis2=-2)[..., None, None] * I + 2 * mu * de
    dev = s - onp.trace(s, axis1=-1, axis2=-2)[..., None, None] / 3 * I
    n = onp.sqrt(1.5 * (dev**2).sum((-1, -2)))
    f = onp.maximum(n - SIG0, 0.)
    return s - (f / onp.where(n > 0, n, 1.))[..., None, None] * dev, e, f


def cases(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    out.append({'kind': 'programme', 'every': tier != 'quick'})
    for k, kinds in enumerate(itertools.product('zsl', repeat=n)):
        out.append({'kind': 'loop', 'kinds': kinds, 'shift': k, 'all': tier != 'quick'})
    if tier != 'quick':
        out.append({'kind': 'real', 'n': 12})
    out.append({'kind': 'law'})
    return out


def temperature(step, mode, pts):
    """mode[i]: 1 = hot, 0 = cold for node i; cold and hot values vary with node and step"""
    x, y, z = pts.T
    w = onp.sin(3e4 * x + 7e4 * y + 9e4 * z + .7 * step)
    return onp.where(mode == 1, 2300. + 300. * w, 700. + 250. * w)


def deformation(kind, k, pts):
    x, y, z = pts.T
    a = {'z': 0., 's': 8e-4, 'l': 6e-3, 'b': -4e-3}[kind]
    s = onp.sin(4e3 * x + 1e4 * y + k)
    return a * onp.stack([x + .3 * y * s, -.4 * y + z * s, .5 * z + .6 * x * onp.cos(5e3 * x + k)], 1)


def simulate(R, w, modes, kinds, steps, check, real=False):
    """modes(step, pts) -> hot nodes, kinds[k] -> deformation answered to the k-th mechanical solve"""
    import jax_am.fem.generate_mesh as GM
    import jax_am.fem.solver as SO
    import meshio
    own_mesh, own_solver = GM.box_mesh, SO.solver
    root = str(R.tmp())
    st = {'i': 0, 'k': 0, 'ok': True, 'ref': None}

    def coarse(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **kw):
        return own_mesh(*N, Lx, Ly, Lz, data_dir, *a, **kw)

    def fixed(problem):
        out = {}
        for n, v, val in zip(problem.node_inds_list, problem.vec_inds_list, problem.vals_list):
            for i, c, x in zip(onp.asarray(n), onp.asarray(v), onp.asarray(val)):
                out[int(i), int(c)] = float(x)
        return out

    def solve(problem, *a, **kw):
        import jax.numpy as jnp
        if st['ref'] is None:
            pts, cells = onp.asarray(problem.points), onp.asarray(problem.cells)
            st.update(ref=Ref(pts, cells), pts=pts, T=onp.full(len(pts), T0), Tu=onp.full(len(pts), T0), files=[])
            z = onp.zeros(st['ref'].w.shape + (3, 3))
            st.update(s=z, e=z, phase=onp.full(z.shape[:2], POWDER))
            st['u'] = onp.zeros((len(pts), 3))
        ref, pts = st['ref'], st['pts']
        bottom = [i for i in range(len(pts)) if abs(pts[i, 2]) < 1e-9]
        if problem.vec == 1:
            if st['i'] == steps:
                raise S.Enough()
            i = st['i'] = st['i'] + 1
            ok = R.expect(i == 1 or (i - 1) % 10 != 0 or st['k'] == (i - 1) // 10, f'{w}: thermal step {i} without the mechanical increment before it')
            t = i * DT
            if check(i):
                probe = temperature(i + 1, modes(i + 1, pts), pts)
                want = ref.res_T(probe, st['T'], DT) - ref.flux(st['T'], (LX * .25 + VEL * t, LY / 2), 1. if t < ON - DT / 10 else 0.)
                ok &= R.close(onp.asarray(problem.compute_residual(jnp.array(probe)[:, None]))[:, 0], want, 1e-7, f'{w}: heat equation of step {i}', scale=abs(want).max() * .1)
                ok &= R.expect(fixed(problem) == {(b, 0): T0 for b in bottom}, f'{w}: prescribed temperatures of step {i}')
            new = onp.asarray(own_solver(problem, *a, **kw))[:, 0] if real else temperature(i, modes(i, pts), pts)
            if real:
                r = ref.res_T(new, st['T'], DT) - ref.flux(st['T'], (LX * .25 + VEL * t, LY / 2), 1. if t < ON - DT / 10 else 0.)
                r[bottom] = 0.
                ok &= R.close(r, 0 * r, 1e-4, f'{w}: temperature of step {i} solves the heat equation', scale=2 * ETA * P / (onp.pi * RB**2) * 1e-9)
            st['T'] = new
            out = jnp.array(new)[:, None]
        else:
            i = st['i']
            ok = R.expect(i % 10 == 0 and st['k'] == i // 10 - 1, f'{w}: mechanical increment after thermal step {i}')
            k = st['k'] = st['k'] + 1
            Tq = ref.val(st['T'])
            ph = st['phase']
            st['phase'] = onp.where((ph == POWDER) & (Tq > TL), LIQUID, onp.where((ph == LIQUID) & (Tq < TL), SOLID, ph))
            dT = Tq - ref.val(st['Tu'])
            if check(i):
                probe = deformation('l', k + 7, pts)
                s, _, _ = law(ref.grad(probe), st['s'], st['e'], dT, st['phase'])
                want = ref.res_s(s)
                ok &= R.close(problem.compute_residual(jnp.array(probe)), want, 1e-7, f'{w}: nodal forces of increment {k}', scale=abs(want).max())
                ok &= R.expect(fixed(problem) == {(b, c): 0. for b in bottom for c in range(3)}, f'{w}: prescribed displacements of increment {k}')
                start = kw.get('initial_guess')
                if start is not None:
                    ok &= R.close(start, st['u'], 1e-12, f'{w}: start of the iteration of increment {k}', scale=1e-6)
            if real:
                u = onp.asarray(own_solver(problem, *a, **kw))
            else:
                u = deformation(kinds[(k - 1) % len(kinds)], k, pts)
            st['s'], st['e'], f = law(ref.grad(u), st['s'], st['e'], dT, st['phase'])
            if real:
                r = ref.res_s(st['s'])
                r[bottom] = 0.
                ok &= R.close(r, 0 * r, 1e-4, f'{w}: equilibrium of increment {k}', scale=SIG0 * 1e-10)
            st['u'] = u
            st['Tu'] = st['T']
            st['files'].append((i, st['T'], u, f.mean(1), st['s'][..., 0, 0].mean(1), st['phase'].max(1)))
            out = jnp.array(u)
        R.trans()
        st['ok'] &= ok
        if not st['ok']:
            raise S.Enough()
        return out
    S.run(FILE, root, {('jax_am.fem.generate_mesh', 'box_mesh'): coarse, ('jax_am.fem.solver', 'solver'): solve})
    if not st['ok'] or not R.expect(st['i'] == steps, f'{w}: {st["i"]} thermal steps'):
        return None
    n = len(st['pts'])
    c = len(st['ref'].cells)
    for i, T, u, f, sxx, ph in [(0, onp.full(n, T0), onp.zeros((n, 3)), onp.zeros(c), onp.zeros(c), onp.zeros(c))] + st['files']:
        p = f'{root}/data/vtk/u_{i:05d}.vtu'
        if not R.expect(os.path.exists(p), f'{w}: no result of step {i}'):
            return None
        m = meshio.read(p)

        def cell(name):
            return onp.asarray(m.cell_data[name][0]).reshape(-1)
        ok = R.close(onp.asarray(m.point_data['sol']).reshape(-1), T, 1e-5, f'{w}: written temperature of step {i}', scale=1000.)
        ok &= R.close(m.point_data['u'], u, 1e-5, f'{w}: written displacement of step {i}', scale=max(1e-7, abs(u).max()))
        ok &= R.close(cell('f_plus'), f, 1e-5, f'{w}: written yield excess of step {i}', scale=SIG0)
        ok &= R.close(cell('stress_xx'), sxx, 1e-5, f'{w}: written stress of step {i}', scale=SIG0)
        ok &= R.close(cell('phase'), ph, 1e-6, f'{w}: written phase of step {i}')
        R.trans()
        if not ok:
            return None
    return st


def run_case(case, R):
    {'loop': loop, 'programme': programme, 'law': law_case, 'real': real}[case['kind']](case, R)


def loop(case, R):
    kinds, sh = case['kinds'], case['shift']
    n = len(kinds)
    hot = list(itertools.product((0, 1), repeat=n))

    def modes(step, pts):
        k = min((step - 1) // 10, n - 1)
        return onp.array([hot[(i * (2 * (sh % 4) + 1) + sh) % len(hot)][k] for i in range(len(pts))])
    if simulate(R, f'deformations {"".join(kinds)}, arrangement {sh}', modes, kinds, 10 * n, lambda i: case['all'] or i % 10 in (0, 1, 5)) is None:
        return
    R.state('C40h', kinds, sh)
    R.trace()


def programme(case, R):
    def modes(step, pts):
        return onp.array([(step // 17 + 3 * i + i * i // 4) % 3 == 0 for i in range(len(pts))]) * 1
    n = int(round(END / DT)) - 2
    near = {1, 2, 248, 249, 251, 252, n - 1, n}
    if simulate(R, 'complete programme', modes, 'slzbls', n, lambda i: i != 250 and (case['every'] or i in near or i % 50 == 0)) is not None:
        R.state('C40p')
        R.trace()


def real(case, R):
    if simulate(R, 'with the real solver', lambda s, p: onp.zeros(len(p)), 'z', case['n'], lambda i: i % 5 == 0, real=True) is not None:
        R.state('C40r')
        R.trace()


def law_case(case, R):
    import jax
    import jax.numpy as jnp
    import jax_am.fem.generate_mesh as GM
    own = GM.box_mesh
    got = {}

    def coarse(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **kw):
        return own(*N, Lx, Ly, Lz, data_dir, *a, **kw)

    def stop(problem, *a, **kw):
        raise S.Enough()
    ns, _, _ = S.run(FILE, str(R.tmp()), {('jax_am.fem.generate_mesh', 'box_mesh'): coarse, ('jax_am.fem.solver', 'solver'): stop})
    mech = [v for v in ns.values() if getattr(v, 'vec', None) == 3 and hasattr(v, 'get_tensor_map')]
    if not R.expect(len(mech) == 1, 'no mechanical problem'):
        return
    fn = mech[0].get_tensor_map()
    base = onp.array([[.4, .3, -.2], [-.1, -.6, .5], [.3, .2, .1]]) * 1e-3
    incs = [a * base for a in (0., .5, 1., 5., 20., -3., -30.)] + [a * onp.eye(3) * 1e-3 for a in (1., -4.)] + [onp.array([[0, 6e-3, 0], [0, 0, 0], [0, 0, 0.]]), onp.diag([9e-3, 0, -9e-3])]
    e_old = .5e-3 * onp.array([[.2, .3, 0], [.3, -.1, .6], [0, .6, .4]])
    olds = [onp.zeros((3, 3)), 1e8 * onp.array([[1., .2, 0], [.2, -.5, .1], [0, .1, .3]]), -3e8 * onp.eye(3)]
    rows = list(itertools.product((POWDER, LIQUID, SOLID), (-900., -1., 0., 600.), range(len(incs)), range(3), (0, 1)))
    g = onp.array([incs[r[2]] for r in rows])
    so = onp.array([olds[r[3]] for r in rows])
    eo = onp.array([e_old * r[4] for r in rows])
    dT = onp.array([r[1] for r in rows])
    ph = onp.array([r[0] for r in rows])
    val = onp.asarray(jax.vmap(fn)(jnp.array(g), jnp.array(so), jnp.array(eo), jnp.array(dT)[:, None], jnp.array(ph)[:, None]))
    want, _, _ = law(g, so, eo, dT, ph)
    for i, r in enumerate(rows):
        R.state('C40l', r)
        if not R.close(val[i], want[i], 1e-8, f'stress: phase {r[0]}, temperature change {r[1]}, strain {r[2]}, old stress {r[3]}, old strain {r[4]}', scale=SIG0):
            return
        dev = val[i] - onp.trace(val[i]) / 3 * onp.eye(3)
        R.expect(onp.sqrt(1.5 * (dev**2).sum()) <= SIG0 * (1 + 1e-9), f'yield limit exceeded: {r}')
        R.trans()
    R.trace()

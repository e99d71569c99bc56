"""The grain growth and thermal drivers: every step sees the temperature of its time and place, every result is written once."""
import itertools
import json
import os
import numpy as onp
from mc import scripts as S

PRELOAD = ['jax', 'jax.numpy', 'jax.scipy.ndimage', 'numpy', 'meshio', 'orix.quaternion', 'scipy.interpolate', 'matplotlib.pyplot', 'sklearn.decomposition']
BOUNDS = {'quick': 'coupled driver: every ratio of flow to grain time step from {1, 2, 2.5, 3, 5} x write intervals {1, 2, 3} x check intervals {1, 4} x 3 grids with different cell counts per axis, 12 grain steps; '
                   'prescribed temperature drivers (moving laser, varying laser, directional solidification): 3 grids x 2 step sizes x write intervals {1, 2, 3}; scan driver: every path of up to 3 '
                   'segments over {+x, -x, +y, -y, diagonal, climbing} and every switch pattern; melt pool image driver: tool paths in 8 directions, followed by a second segment in 3 of them, '
                   'images against the field in the frame of the laser; script files executed unchanged, solver objects replaced by recorders',
          'thorough': '40 grain steps, paths of 4 segments, 8 x 8 directions'}
ASSUMPTIONS = ['the external tessellation program is not run: its grid is replaced by a small one in the same order']
CASE_LIMIT = 600
GRIDS = ((3, 2, 4), (2, 5, 3), (4, 3, 2))
DOM = (1e-3, 2e-4, 1e-4)
APP = 'applications/phase_field/'
DIRS = {'+x': (1, 0, 0), '-x': (-1, 0, 0), '+y': (0, 1, 0), '-y': (0, -1, 0), 'd': (.6, -.8, 0), 'c': (.8, .0, .6)}


def cases(tier):
    out = []
    n = 12 if tier == 'quick' else 40
    for g in range(3):
        for r in (1, 2, 2.5, 3, 5):
            out.append({'kind': 'coupled', 'grid': g, 'ratio': r, 'n': n})
        for name in ('simple/example.py', 'simple/example_grf.py', 'solidification/example.py'):
            out.append({'kind': 'plain', 'grid': g, 'file': name, 'n': n})
    for first in DIRS:
        out.append({'kind': 'scan', 'first': first, 'len': 3 if tier == 'quick' else 4})
    D8 = [(1, 0), (.6, .8), (0, 1), (-.8, .6), (-1, 0), (-.6, -.8), (0, -1), (.28, -.96)]
    for i, d in enumerate(D8):
        out.append({'kind': 'gamma', 'd1': d, 'rest': [D8[(i + k) % 8] for k in ((1, 3, 6) if tier == 'quick' else range(8))]})
    return sorted(out, key=lambda c: c['kind'] != 'gamma')


def run_case(case, R):
    {'coupled': coupled, 'plain': plain, 'scan': scan, 'gamma': gamma}[case['kind']](case, R)


def yaml_text(**kw):
    base = dict(id=1, dim=3, num_oris=3, num_grains=4, domain_x=DOM[0], domain_y=DOM[1], domain_z=DOM[2], T_liquidus=1623., T_ambient=300., gas_const=8.3, Qg=1.4e5, L0=3.5e3,
                kappa_g=2.77e-6, m_g=2.4e5, anisotropy=0., ad_hoc=1.)
    base.update(kw)
    return '\n'.join(f'{k}: {json.dumps(v) if not isinstance(v, float) else format(v, ".10f")}' for k, v in base.items()) + '\n'


def grid_points(N):
    """centres of the cells in the order of the grain solver: x fastest"""
    return onp.array([[(i + .5) / N[0] * DOM[0], (j + .5) / N[1] * DOM[1], (k + .5) / N[2] * DOM[2]] for k in range(N[2]) for j in range(N[1]) for i in range(N[0])])


class Log:
    def __init__(self, N):
        self.N, self.cen = N, grid_points(N)
        self.steps, self.writes, self.checks, self.cfd_writes, self.cfd_checks = [], [], [], [], []
        self.pre, self.post = [], []

    def subst(self):
        import jax.numpy as jnp
        log = self

        class Field:
            def __init__(self, pf_args, ori2=None):
                log.ori2, log.pf_args, self.pf_args, self.ori2 = ori2, pf_args, pf_args, ori2
                pf_args['Nx'], pf_args['Ny'], pf_args['Nz'] = log.N
                self.centroids = log.cen.copy()

        class PFSolver:
            def __init__(self, pf_args, polycrystal):
                self.count = 0

            def ini_cond(self):
                return jnp.zeros((len(log.cen), 3)) + 1000.

            def clean_sols(self):
                log.writes.clear()

            def stepper(self, state, t, params):
                T, = params
                log.steps.append((float(state[1]), float(t), onp.asarray(T), float(onp.asarray(state[0])[0, 0])))
                new = state[0] + 1.
                return (new, t), new

            def inspect_sol(self, sol, sol0, T, ts, step):
                log.checks.append((float(onp.asarray(sol)[0, 0]), float(onp.asarray(sol0)[0, 0]), onp.asarray(T), int(step)))

            def write_sols(self, sol, T, step):
                log.writes.append((float(onp.asarray(sol)[0, 0]), onp.asarray(T), int(step)))

        class AM:
            def __init__(self, args):
                log.cfd_args, self.n = args, 0

            @property
            def T(self):
                return jnp.array(log.flow(self.n))[..., None]

            def clean_sols(self):
                log.cfd_writes.clear()

            def time_integration(self, *a, **k):
                self.n += 1

            def write_sols(self, step):
                log.cfd_writes.append((int(step), self.n))

            def inspect_sol(self, step, n):
                log.cfd_checks.append((int(step), self.n))
        return {('jax_am.phase_field.utils', 'Field'): Field, ('jax_am.phase_field.allen_cahn', 'PFSolver'): PFSolver,
                ('jax_am.phase_field.neper', 'pre_processing'): lambda a, *k, **kw: log.pre.append(a), ('jax_am.cfd.cfd_am', 'AM_3d'): AM,
                ('jax_am.phase_field.utils', 'process_eta'): lambda a: log.post.append(a)}

    def flow(self, n):
        """temperature of the flow solver after n steps, indexed x, y, z"""
        i, j, k = onp.meshgrid(*[onp.arange(m) for m in self.N], indexing='ij')
        return 300. + 40. * i + 7. * j * j + 190. * k + 55. * n + 13. * onp.sin(2.1 * n + i + 2 * j + 3 * k)


def verify(R, log, times, temp_step, temp_write, wi, ci, w, tol=1e-4):
    """steps: (state time, time, temperature, state); one after the other without gap"""
    n = len(times) - 1
    if not R.expect(len(log.steps) == n, f'{w}: {len(log.steps)} steps instead of {n}'):
        return False
    dt = times[1] - times[0]
    ok = True
    for i, (t0, t1, T, s) in enumerate(log.steps):
        ok &= R.expect(abs(t0 - times[i]) < 1e-3 * dt and abs(t1 - times[i + 1]) < 1e-3 * dt and s == 1000. + i, f'{w}: step {i} goes from {t0} to {t1} starting at state {s - 1000}')
        ok &= R.close(T, temp_step(i)[:, None], tol, f'{w}: temperature used in step {i}', scale=1000.)
        R.trans()
        if not ok:
            return False
    want = [0] + [i for i in range(1, n + 1) if i % wi == 0]
    if not R.expect([x[2] for x in log.writes] == want, f'{w}: results written at {[x[2] for x in log.writes]}'):
        return False
    for s, T, i in log.writes:
        ok &= R.expect(s == 1000. + i, f'{w}: state {s - 1000} written as result {i}')
        ok &= R.close(T.reshape(-1), temp_write(i), tol, f'{w}: temperature written with result {i}', scale=1000.)
    R.expect([x[3] for x in log.checks] == [i for i in range(1, n + 1) if i % ci == 0], f'{w}: solution checked at {[x[3] for x in log.checks]}')
    for s, s0, T, i in log.checks:
        ok &= R.expect(s == 1000. + i and s0 == 1000., f'{w}: state {s - 1000} checked as {i}')
    return ok


def coupled(case, R):
    N = GRIDS[case['grid']]
    dtp = 2e-7
    dtc = dtp * case['ratio']
    for wi, ci in itertools.product((1, 2, 3), (1, 4)):
        log = Log(N)
        n = case['n']
        cfd = {'dt': dtc, 't_OFF': n * dtp, 'write_sol_interval': wi, 'check_sol_interval': ci, 'Ts': 1563, 'Tl': 1623}
        S.run(APP + 'coupled/example.py', str(R.tmp()), log.subst(), files=[('pf_params.yaml', yaml_text(dt=dtp, t_OFF=n * dtp, write_sol_interval=wi, check_sol_interval=ci)),
                                                                          ('cfd_params.json', json.dumps(cfd))])
        w = f'grid {N}, time step ratio {case["ratio"]}, intervals {wi} {ci}'

        def temp(i):
            s = i * dtp / dtc
            a = int(onp.floor(s + 1e-9))
            T = (1 - (s - a)) * log.flow(a) + (s - a) * log.flow(a + 1)
            return onp.array([T[x, y, z] for z in range(N[2]) for y in range(N[1]) for x in range(N[0])])
        if not verify(R, log, [i * dtp for i in range(n + 1)], lambda i: temp(i + 1), temp, wi, ci, w):
            return
        if not R.expect(log.pre and all(x == y for x, y in log.cfd_writes), f'{w}: flow results {log.cfd_writes}'):
            return
        last = int(onp.ceil(n * dtp / dtc - 1e-9))
        got = [x for x, _ in log.cfd_writes]
        need = [k for k in range(0, last + 1) if k % wi == 0 and (k != 1 or wi != 1)]
        R.expect([k for k in got if k != 1][:len([k for k in need if k != 1])] == [k for k in need if k != 1], f'{w}: flow results written at {got}')
        R.state('C41c', N, case['ratio'], wi, ci)
        R.trace()


def plain(case, R):
    N = GRIDS[case['grid']]
    for dt, wi, ci in itertools.product((2e-7, 1e-5), (1, 2, 3), (2,)):
        log = Log(N)
        n = case['n']
        tOFF = n * dt
        vtot = .6 * DOM[0]

        def temp(i):
            t = i * dt
            x, y, z = log.cen.T
            if 'solid' in case['file']:
                return 1623. + 5e5 * z - 5e5 * .2 * t
            v, Q, path = vtot / tOFF, 25., vtot / tOFF * t
            if 'grf' in case['file']:
                f = t / tOFF
                path = vtot / tOFF * (.5 * t + .5 * f * t)
                v, Q = vtot / tOFF * (.5 + f), 35. - 20. * f
            X, Y, Z = x - .2 * DOM[0] - path, y - .5 * DOM[1], z - DOM[2]
            r = onp.sqrt(X * X + Y * Y + Z * Z)
            return 300. + Q / (2 * onp.pi * 27) / r * onp.exp(-v / (2 * 5.2e-6) * (r + X))
        S.run(APP + case['file'], str(R.tmp()), log.subst(), files=[('pf_params.yaml', yaml_text(dt=dt, t_OFF=tOFF, write_sol_interval=wi, check_sol_interval=ci))])
        w = f'{case["file"]}: grid {N}, dt {dt}, interval {wi}'
        if not verify(R, log, [i * dt for i in range(n + 1)], temp, temp, wi, ci, w, 2e-3):
            return
        if 'solid' in case['file']:
            ax = onp.array([[1., 0, 0], [1, 0, 0], [1, -1, 0]])
            an = onp.array([0., onp.pi / 4, onp.pi / 2 - onp.arccos(onp.sqrt(2 / 3))])
            q = onp.asarray(log.ori2.data)
            want = onp.concatenate([onp.cos(an / 2)[:, None], onp.sin(an / 2)[:, None] * ax / onp.linalg.norm(ax, axis=1)[:, None]], 1)
            if q.shape == want.shape:
                R.close(onp.abs((q * want).sum(1)), onp.ones(3), 1e-6, f'{w}: orientations of the crystals')
            else:
                R.expect(False, f'{w}: {q.shape} orientations')
        R.state('C41p', N, case['file'], dt, wi)
        R.trace()


def scan(case, R):
    vel, dt = .25, 2e-5
    allpaths = [(case['first'],) + r for k in range(case['len']) for r in itertools.product(DIRS, repeat=k)]
    for q, path in enumerate(allpaths):
        switches = list(itertools.product((0, 1), repeat=len(path)))
        switches = [switches[(q * 5 + 3) % len(switches)], switches[-1 - q % len(switches)]] if len(path) > 2 else switches
        for sw in switches:
            log = Log(GRIDS[q % 3])
            P = [onp.array([4e-4, 1e-4, 1e-4])]
            for i, d in enumerate(path):
                P.append(P[-1] + onp.array(DIRS[d]) * (2.13e-5 + .96e-5 * ((i + q) % 3)))
            P = onp.array(P)
            wi, ci = 1 + q % 3, 2
            scratch = str(R.tmp())
            S.run(APP + 'multi_scan/example.py', scratch, log.subst(), files=[('pf_params.yaml', yaml_text(
                dt=dt, vel=vel, write_sol_interval=wi, check_sol_interval=ci,
                laser_path={'x_pos': P[:, 0].tolist(), 'y_pos': P[:, 1].tolist(), 'z_pos': P[:, 2].tolist(), 'switch': list(sw) + [0]}))])
            times, rows, t = [], [], 0.
            for i in range(len(path)):
                T = onp.linalg.norm(P[i + 1] - P[i]) / vel
                m = int(onp.ceil(T / dt - 1e-9))
                for j in range(m):
                    times.append(t + j * dt)
                    rows.append((P[i] + (P[i + 1] - P[i]) * (j / (m - 1) if m > 1 else 0.), sw[i], (P[i + 1] - P[i]) / onp.linalg.norm(P[i + 1] - P[i])))
                t += T

            def temp(i):
                p, on, d = rows[i]
                D = log.cen - p
                r = onp.linalg.norm(D, axis=1)
                return onp.minimum(300. + on * 25 / (2 * onp.pi * 27) / r * onp.exp(-vel / (2 * 5.2e-6) * (r + D @ d)), 2000.)
            w = f'path {"".join(path)}, switches {sw}'
            n = len(times) - 1
            ok = R.expect(len(log.steps) == n, f'{w}: {len(log.steps)} steps instead of {n}')
            for i, (t0, t1, T, s) in enumerate(log.steps if ok else []):
                ok &= R.expect(abs(t0 - times[i]) < 1e-3 * dt and abs(t1 - times[i + 1]) < 1e-3 * dt and s == 1000. + i, f'{w}: step {i} goes from {t0} to {t1} starting at state {s - 1000}')
                ok &= R.close(T.reshape(-1), temp(i), 1e-4, f'{w}: temperature used in step {i}', scale=1000.)
                R.trans()
            ok &= R.expect([x[2] for x in log.writes] == [0] + [i for i in range(1, n + 1) if i % wi == 0], f'{w}: results written at {[x[2] for x in log.writes]}')
            for s, T, i in log.writes if ok else []:
                ok &= R.expect(s == 1000. + i, f'{w}: state {s - 1000} written as result {i}')
                ok &= R.close(T.reshape(-1), temp(i), 1e-4, f'{w}: temperature written with result {i}', scale=1000.)
            if not ok:
                return
            R.state('C41s', path, sw)
            R.trace()


def gamma(case, R):
    import jax.numpy as jnp
    import importlib
    C = importlib.import_module('jax_am.common')

    class Box:
        def __init__(self, *a, **k):
            self.cell_data = {}

        def write(self, p):
            self.saved = p
    h, dt = 1e-5, 2e-6
    nx, ny, nz = 170, 150, 40

    def field(step, x, y):
        return (900. + 40. * onp.sin(step)) + 3e5 * x - 2e5 * y
    cx, cy = (onp.arange(nx + 2) - .5) * h, (onp.arange(ny + 2) - .5) * h
    for d2 in case['rest']:
        root = str(R.tmp())
        os.makedirs(root + '/input')
        d1, d2 = onp.array(case['d1'], float), onp.array(d2, float)
        P0 = onp.array([8.5e-4, 7.5e-4])
        t1, t2 = 41.5 * dt, 80.7 * dt
        P1 = P0 + d1 * 6e-5
        P2 = P1 + d2 * 5e-5
        onp.savetxt(root + '/input/toolpath.txt', [(0., *P0), (t1, *P1), (t2, *P2)], fmt='%.12e')
        pw = onp.array([(0., 100.), (30 * dt, 160.), (60 * dt, 20.), (100 * dt, 220.)])
        onp.save(root + '/input/power_0.npy', pw)
        calls = []

        def update(T, xl, yl, x, y, P, dx, dy, dz, dtt, args):
            k = len(calls)
            calls.append((onp.asarray(T).reshape(-1)[0], float(xl), float(yl), onp.asarray(x)[:4, 0, 0], onp.asarray(y)[0, :4, 0], float(P), float(dx), float(dy), float(dz), float(dtt)))
            if k % 50 != 24:
                return jnp.full((3, 3, 3), 1000. + k)
            F2 = field(k, cx[:, None], cy[None, :])
            z = onp.arange(nz + 2.)
            return jnp.array(F2[:, :, None] + 5. * z[None, None, :])
        ns, _, _ = S.run('applications/cfd/gamma/example.py', root, {('jax_am.cfd.gamma', 'update_T'): update, ('jax_am.common', 'box_mesh'): Box})
        w = f'directions {tuple(d1)} {tuple(d2)}'
        n = int(onp.ceil(t2 / dt - 1e-9))
        if not R.expect(len(calls) == n, f'{w}: {len(calls)} steps'):
            return

        def pos(t):
            return P0 + (P1 - P0) * t / t1 if t <= t1 else P1 + (P2 - P1) * (t - t1) / (t2 - t1)
        ok = True
        for k, (T, xl, yl, x, y, P, dx, dy, dz, dtt) in enumerate(calls):
            t = (k + .5) * dt
            ok &= R.close([xl, yl], pos(t), 1e-6, f'{w}: laser position of step {k}', scale=1e-3)
            ok &= R.close(P, onp.interp(t, pw[:, 0], pw[:, 1]), 1e-6, f'{w}: laser power of step {k}', scale=100.)
            ok &= R.close([dx, dy, dz, dtt], [h, h, h, dt], 1e-9, f'{w}: cell size and time step', scale=1e-6)
            ok &= R.close(onp.concatenate([x, y]), onp.tile((onp.arange(4) + .5) * h, 2), 1e-6, f'{w}: cell centres', scale=1e-5)
            R.trans()
            if not ok:
                return
            if k and (k - 1) % 50 != 24:
                ok &= R.expect(T == 1000. + k - 1, f'{w}: step {k} does not start from the result of the step before')
        gx, gy = onp.meshgrid((onp.arange(128) - 100) * h, (onp.arange(64) - 32) * h, indexing='ij')
        for num, k in enumerate(range(24, n, 50)):
            f = f'{root}/output/numpy/melt_2d_step_{num:05d}.npy'
            if not R.expect(os.path.exists(f), f'{w}: no image of step {k}'):
                return
            img = onp.load(f)
            t = (k + .5) * dt
            c, d = pos(t), d1 if t <= t1 else d2
            X, Y = c[0] + gx * d[0] - gy * d[1], c[1] + gx * d[1] + gy * d[0]
            inside = (X > h) & (X < (nx - 1) * h) & (Y > h) & (Y < (ny - 1) * h)
            want = field(k, X, Y) + 5. * (nz + .5) - 298.
            if not R.expect(img.shape == (128, 64) and inside.sum() > 1000, f'{w}: image shape {img.shape}'):
                return
            ok &= R.close(onp.where(inside, img, 0.), onp.where(inside, want, 0.), 1e-3, f'{w}: image of step {k}', scale=100.)
            R.trans()
        # the image function with cells of different size
        dx, dy = 1e-5, 1.5e-5
        ys = (onp.arange(102) - .5) * dy
        z = onp.arange(nz + 2.)
        T = field(3, cx[:, None], ys[None, :])[:, :, None] + 5. * z[None, None, :] + .2 * z[None, None, :] * onp.sin(z)[None, None, :]
        m2, m3 = ns['interp_data'](jnp.array(T), jnp.array(d2), P0[0], P0[1], dx, dy)
        X, Y = P0[0] + gx * d2[0] - gy * d2[1], P0[1] + gx * d2[1] + gy * d2[0]
        inside = (X > dx) & (X < (nx - 1) * dx) & (Y > dy) & (Y < 99 * dy)
        b = field(3, X, Y)
        prof = 5. * z + .2 * z * onp.sin(z)
        ok &= R.close(onp.where(inside, m2, 0.), onp.where(inside, b + prof[-2:].mean(), 0.), 1e-3, f'{w}: surface image, cells of different size', scale=100.)
        ok &= R.close(onp.where(inside[..., None], m3, 0.), onp.where(inside[..., None], b[..., None] + prof[None, None, -31:-1], 0.), 1e-3, f'{w}: volume image', scale=100.)
        if not ok:
            return
        R.state('C41g', tuple(d1), tuple(d2))
        R.trace()

"""Grain growth results: files, colours, molten cells and divergence reports for every small configuration."""
import itertools
import os
import numpy as onp
from mc import pfref as P
from mc.pfref import PRELOAD

BOUNDS = {'quick': 'every dominant orientation x {solid, at liquidus, molten} per cell of a 2x1x1, 1x2x1 and 1x1x2 grid with 3 orientations (81 each) and of a 2x2x1 grid with 2 orientations '
                   '(1296), with step numbers and write intervals {1, 2, 5, 10}, every step 0..12; output directory absent, empty, holding older results; a non finite value of each kind at each cell and orientation; '
                   'the liquid reset for every temperature pattern',
          'thorough': 'additionally 3x1x2 with 2 orientations'}


def cases(tier):
    out = [{'N': N, 'noris': m} for N, m in (((2, 1, 1), 3), ((1, 2, 1), 3), ((1, 1, 2), 3))]
    out += [{'N': (2, 2, 1), 'noris': 2, 'part': p} for p in range(4)]
    if tier == 'thorough':
        out += [{'N': (3, 1, 2), 'noris': 2, 'part': p} for p in range(16)]
    return out + [{'steps': iv} for iv in (1, 2, 5, 10)] + [{'bad': 1}, {'force': 1}]


def setup(N, m, R, iv=1):
    from jax_am.phase_field import allen_cahn as A
    dom = (1.5e-6 * N[0], 2e-6 * N[1], 2.5e-6 * N[2])
    a = dict(P.ARGS, num_oris=m, Nx=N[0], Ny=N[1], Nz=N[2], domain_x=dom[0], domain_y=dom[1], domain_z=dom[2], data_dir=R.tmp(), write_sol_interval=iv)
    return A, a, P.crystal(N, dom, m)


def field(ori, m, k):
    """an order parameter field whose largest entry in every row is the given orientation, other grains present with smaller values"""
    e = onp.array([[.3 * ((c + o + k) % 3) / 2 for o in range(m)] for c in range(len(ori))])
    for c, o in enumerate(ori):
        e[c, o] = .5 + .1 * (c + k) % .5
    return e


def check_file(R, path, C, mesh0, ori, T, Tl, w):
    import meshio
    if not R.expect(os.path.exists(path), f'{w}: no file {os.path.basename(path)}'):
        return
    m = meshio.read(path)
    R.close(m.points, mesh0[0], 1e-6, f'{w}: points', scale=1e-5)
    R.expect(onp.array_equal(m.cells_dict['hexahedron'], mesh0[1]), f'{w}: cells')
    d = {k: onp.asarray(v[0]) for k, v in m.cell_data.items()}
    R.close(d['T'].reshape(-1), T, 1e-6, f'{w}: temperature', scale=1e3)
    solid = onp.array(T) <= Tl
    R.expect(onp.array_equal(d['ori_inds'].reshape(-1)[solid], onp.array(ori)[solid]), f'{w}: orientations {d["ori_inds"].reshape(-1)} instead of {ori}')
    for a, k in enumerate(('ipf_x', 'ipf_y', 'ipf_z')):
        want = onp.where(solid[:, None], C.unique_oris_rgb[a][list(ori)], 0.)
        R.close(d[k], want, 1e-6, f'{w}: colours {k}', scale=1.)


def run_case(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    if 'bad' in case:
        for N in ((2, 1, 1), (1, 3, 1)):
            A, a, C = setup(N, 2, R)
            S = A.PFSolver(a, C)
            n = N[0] * N[1] * N[2]
            T = np.array([1700., 900., 1000.])[:n, None]
            y = field([0] * n, 2, 0)
            S.inspect_sol(np.array(y), np.array(y), T, onp.arange(5.), 1)
            S.inspect_sol(np.array(y[:, ::-1]), np.array(y), T, onp.arange(5.), 2)
            for c, o, b in itertools.product(range(n), range(2), (onp.nan, onp.inf, -onp.inf)):
                z = y.copy()
                z[c, o] = b
                try:
                    S.inspect_sol(np.array(z), np.array(y), T, onp.arange(5.), 1)
                    R.fail(f'{b} in cell {c}, orientation {o} is not reported')
                except ValueError:
                    pass
                R.state('C25b', N, c, o, str(b))
                R.trans()
                R.trace()
        return
    if 'force' in case:
        from jax_am.phase_field import allen_cahn as A
        f = A.get_force_eta_fn(P.ARGS)
        for T in itertools.product((300., 1623., 1623.9, 1624.1, 2500.), repeat=3):
            y = onp.array([[.2, 1.], [.7, -.1], [0., .4]])
            s = f((np.array(y), .25), np.array(T)[:, None])
            R.close(s[0], onp.where(onp.array(T)[:, None] > 1624., 0., y), 1e-12, f'liquid reset at temperatures {T}')
            R.close(float(s[1]), .25, 1e-12, 'time after the liquid reset')
            R.state('C25f', T)
            R.trans()
        R.trace()
        return
    if 'steps' in case:
        iv = case['steps']
        N, m = (2, 1, 2), 3
        for old in (None, [], ['u000.vtu', 'u017.vtu', 'note.txt']):
            A, a, C = setup(N, m, R, iv)
            sols = os.path.join(a['data_dir'], 'vtk', 'pf', 'sols')
            if old is not None:
                os.makedirs(sols)
                for f in old:
                    open(os.path.join(sols, f), 'w').write('stale')
            mesh0 = (C.mesh.points.copy(), C.mesh.cells_dict['hexahedron'].copy())
            S = A.PFSolver(a, C)
            R.expect(os.listdir(sols) == [], f'files of an older run are left: {os.listdir(sols)}')
            seen = set()
            for step in range(13):
                ori = [(step + c) % m for c in range(4)]
                T = [1000. + 100 * ((c + step) % 8) for c in range(4)]
                if step % iv == 0:
                    S.write_sols(np.array(field(ori, m, step)), np.array(T)[:, None], step)
                    check_file(R, os.path.join(sols, f'u{step // iv:03d}.vtu'), C, mesh0, ori, T, 1623., f'step {step} interval {iv}')
                    seen.add(f'u{step // iv:03d}.vtu')
                R.expect(set(os.listdir(sols)) == seen, f'files after step {step}: {sorted(os.listdir(sols))}')
                R.state('C25s', iv, str(old), step)
                R.trans()
            S.clean_sols()
            R.expect(os.listdir(sols) == [], 'cleaning leaves results')
            R.trace()
        return
    N, m = tuple(case['N']), case['noris']
    n = N[0] * N[1] * N[2]
    A, a, C = setup(N, m, R)
    mesh0 = (C.mesh.points.copy(), C.mesh.cells_dict['hexahedron'].copy())
    S = A.PFSolver(a, C)
    rgb = C.unique_oris_rgb.copy()
    combos = list(itertools.product(itertools.product(range(m), repeat=n), itertools.product((900., 1623., 1623.2), repeat=n)))
    if 'part' in case:
        k = (len(combos) + 3) // 4 if n == 4 else (len(combos) + 15) // 16
        combos = combos[case['part'] * k:(case['part'] + 1) * k]
    for q, (ori, T) in enumerate(combos):
        eta = field(ori, m, q)
        keep = eta.copy()
        S.write_sols(np.array(eta), np.array(T)[:, None], 7)
        check_file(R, os.path.join(a['data_dir'], 'vtk', 'pf', 'sols', 'u007.vtu'), C, mesh0, ori, T, 1623., f'orientations {ori} temperatures {T}')
        R.expect(onp.array_equal(C.unique_oris_rgb, rgb), 'writing changes the colour table')
        R.expect(onp.array_equal(eta, keep), 'writing changes the solution')
        R.state('C25', N, m, ori, T)
        R.trans()
    R.trace(len(combos))
    R.sample({'grid': N, 'configurations': len(combos)})

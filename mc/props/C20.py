"""Melt pool time stepping: energy balance, flow in the moving box, melted history and files, for every laser / loss / position configuration."""
import itertools
import os
import numpy as onp
from mc import cfdref as F
from mc.cfdref import PRELOAD
from mc.lbmref import lattice_mesh

BOUNDS = {'quick': 'surface and body heat source x heat losses {none, convection, radiation, both} x laser {on, switched off after 2 steps, never on} (24 histories of 5 steps on a 5x4x3 '
                   'grid with a 3x2x2 flow box), x every start position that puts the flow box against each side or in the middle (3x3) with two scan speeds, '
                   'with and without Marangoni stress and latent heat; after every step: the temperature leaves no more than the solver tolerance of the independent energy balance, '
                   'velocity and melted history equal the model everywhere',
          'thorough': '12 steps, both grids for all combinations'}
ASSUMPTIONS = ['steps are small enough for the Newton iteration to converge (checked by the residual)', 'the flow box is not larger than the domain']

BASE = dict(rho=8440., visco=7e-3, Marangoni=-2e-5, dt=2e-6, t_OFF=1., speed=.8, rb=3e-5, eta=.43, P=60., T_ref=300., Ts=1563., Tl=1623., latent_heat=270000., heat_source=0,
            write_sol_interval=2, check_sol_interval=2)
DOM, N, NL = (5e-5, 4e-5, 3e-5), (5, 4, 3), (3, 2, 2)


def cases(tier):
    out = []
    n = 5 if tier == 'quick' else 12
    for hs, loss, off in itertools.product((0, 1), ('none', 'conv', 'rad', 'both'), ('on', 'mid', 'never')):
        out.append({'n': n, 'hs': hs, 'loss': loss, 'off': off, 'x': 1.6e-5, 'y': 1.4e-5, 'speed': .8, 'kw': {}})
    for (x, y), sp in itertools.product(itertools.product((0., 2.4e-5, 4.9e-5), (0., 1.9e-5, 4e-5)), (0., 3.)):
        if tier == 'quick' and (sp == 0.) == (x == 2.4e-5):
            continue
        out.append({'n': n, 'hs': 0, 'loss': 'conv', 'off': 'on', 'x': x, 'y': y, 'speed': sp, 'kw': {}})
    for kw in ({'Marangoni': 0.}, {'latent_heat': 0.}, {'Marangoni': 3e-5, 'visco': 2e-2}, {'T_ref': 1590.}, {'T_ref': 1500., 'P': 15.}):
        out.append({'n': n, 'hs': 0, 'loss': 'none', 'off': 'mid', 'x': 2.1e-5, 'y': 1.6e-5, 'speed': 1., 'kw': kw})
    return out


def run_case(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    import meshio
    from jax_am.cfd import cfd_am as C
    a = dict(BASE)
    a.update(case['kw'])
    a['heat_source'] = case['hs']
    a['speed'] = case['speed']
    a['X0'] = [case['x'], case['y'], DOM[2]]
    if case['hs'] == 1:
        a['phi'] = 1.7e-5 * a['speed'] * a['rb']**2 / a['P']     # absorption depth: between the second and third layer
    if case['loss'] in ('conv', 'both'):
        a['h'] = 2e5
    if case['loss'] in ('rad', 'both'):
        a['emissivity'] = 20.
    a['t_OFF'] = {'on': 1., 'mid': 2.5 * a['dt'], 'never': 0.}[case['off']]
    dl = tuple(d * m / k for d, m, k in zip(DOM, NL, N))
    d = os.path.join(R.tmp(), 'out')
    sols = os.path.join(d, 'vtk', 'cfd', 'sols')
    if case['n'] % 2 and case['off'] != 'on':
        os.makedirs(sols)
        for f in ('u000.vtu', 'u017.vtu'):
            open(os.path.join(sols, f), 'w').write('stale')
    mm = lattice_mesh(*N)
    mm.points = mm.points * onp.array(DOM) / onp.array(N)
    real = dict(a, mesh=F.real_mesh(DOM, N), mesh_local=F.real_mesh(dl, NL), meshio_mesh=mm, data_dir=d,
                cp=lambda T: .2174 * np.clip(T, 300, 1609) + 370., k=lambda T: .01674 * np.clip(T, 300, 1563) + 3.9)
    S = C.AM_3d(real)
    R.expect(os.path.isdir(sols) and os.listdir(sols) == [], 'files of an older run are left in the output directory', got=os.listdir(sols))
    P = dict(a, cp_np=lambda T: .2174 * min(max(T, 300), 1609) + 370., k_np=lambda T: .01674 * onp.clip(T, 300, 1563) + 3.9)
    M = F.Melt(P, DOM, N, dl, NL)
    S.write_sols(0)
    written = {0}
    for i in range(case['n']):
        B = M.box()
        Q, flux = M.heat_terms()
        if M.amb:
            break
        S.time_integration()
        T = onp.array(S.T, dtype=float)
        w = f'step {i + 1}'
        if not R.expect(T.shape == N + (1,) and onp.all(onp.isfinite(T)), f'{w}: temperature not finite'):
            return
        r0, r = onp.linalg.norm(M.energy_residual(M.T, Q, flux)), onp.linalg.norm(M.energy_residual(T, Q, flux))
        power = onp.abs(Q).sum() * M.g.dV + sum(onp.abs(f).sum() * M.g.area[s // 2] for s, f in enumerate(flux))
        if not R.expect(r <= 3e-5 * r0 + 1e-9 * power + 1e-13, f'{w}: the energy balance is violated by {r} ({r0} before the step)'):
            return
        B, vel, gp, cT, c = M.flow(T)
        M.accept(T, B, vel, gp, cT, c)
        ok = R.close(S.vel, M.vel, 2e-5, f'{w}: velocity', scale=max(1e-9, float(onp.abs(M.vel).max())))
        ok &= R.close(S.solidID, M.solid, 1e-9, f'{w}: melted history', scale=1.)
        R.close(S.t, M.t, 1e-12, f'{w}: time')
        if not ok:
            return
        S.inspect_sol(i + 1, case['n'])
        if (i + 1) % a['write_sol_interval'] == 0:
            S.write_sols(i + 1)
            written.add((i + 1) // 2)
            m = meshio.read(os.path.join(sols, f'u{(i + 1) // 2:03d}.vtu'))
            for k, v in (('T', M.T), ('vel', M.vel), ('solidID', M.solid)):
                got = onp.asarray(m.cell_data[k][0], dtype=float).reshape(v.shape)
                R.close(got, v, 2e-5 if k == 'vel' else 1e-6, f'{w}: {k} in the file', scale=max(1e-9, float(onp.abs(v).max())))
            R.close(m.points, mm.points, 1e-6, f'{w}: mesh in the file', scale=5e-5)
        R.state('C20', case['hs'], case['loss'], case['off'], case['x'], case['y'], case['speed'], str(case['kw']), i)
        R.trans()
        R.trace()
    R.expect(sorted(os.listdir(sols)) == [f'u{k:03d}.vtu' for k in sorted(written)], 'set of output files', got=os.listdir(sols))
    for bad in (onp.nan, onp.inf):
        S.T = S.T.at[1, 2, 0, 0].set(bad)
        try:
            S.inspect_sol(1, 2)
            R.fail(f'a temperature of {bad} is not reported')
        except ValueError:
            pass
        S.T = np.array(M.T)
    R.sample({'max T': float(M.T.max()), 'max velocity': float(onp.abs(M.vel).max()), 'molten': float(M.solid.sum()), 'last flow box': str(B)})

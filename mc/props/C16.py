"""Laser schedule, run length and snapshots of the melt pool simulation for every small scan path, switch pattern and output interval."""
import itertools
import os
import numpy as onp
from mc import lbmref as L
from mc.lbmref import PRELOAD

BOUNDS = {'quick': 'scan paths of 1 to 3 segments over a set of corners with travel times that are and are not whole numbers of steps (including diagonal, reversing and '
                   'repeated segments) x every on/off pattern of the segments, x output intervals 1, 2, 3, 5 (and longer than the run), x directory empty, absent or holding older '
                   'snapshots; two length and time scales; all cells of all snapshots compared with the model driven by the specified laser positions',
          'thorough': 'every path of up to 3 segments over 4 corners'}
ASSUMPTIONS = ['laser kept below the melting range, so that the temperature records the laser history', 'double precision (JAX_ENABLE_X64)']


def cases(tier):
    out = []
    A, B, C, D = (1., 1.), (4., 1.), (2.3, 3.7), (3.1, 2.2)
    paths = [[A, B], [A, C], [A, B, C], [A, B, A], [C, A, D], [A, B, C, D]]
    if tier == 'thorough':
        paths = [list(p) for n in (2, 3, 4) for p in itertools.product((A, B, C, D), repeat=n) if all(a != b for a, b in zip(p[:-1], p[1:]))]
    k = 0
    for p in paths:
        pats = list(itertools.product((1., 0.), repeat=len(p) - 1))
        if tier == 'quick' and len(p) == 4:
            pats = [x for x in pats if sum(x) in (1, 2)]
        for sw in pats:
            k += 1
            out.append({'path': p, 'sw': list(sw) + [1. - sw[-1]], 'vel': (.5, .3, .75)[k % 3], 'dt': (1., .5)[k % 2], 'h': (1., 2.)[k // 2 % 2],
                        'interval': (1, 2, 3, 5)[k % 4], 'dir': ('absent', 'old', 'empty')[k % 3]})
    for iv in (1, 4, 6, 7, 8, 100):
        for d in ('absent', 'old', 'empty'):
            if tier == 'quick' and (iv + len(d)) % 2:
                continue
            out.append({'path': [A, B], 'sw': [1., 1.], 'vel': .5, 'dt': 1., 'h': 1., 'interval': iv, 'dir': d})
    return out


def schedule(path, sw, vel, dt):
    """laser (x, y, on) of every step: each segment is sampled at whole time steps from its start and stretched to its end"""
    pts = []
    for (x0, y0), (x1, y1), s in zip(path[:-1], path[1:], sw):
        t = onp.hypot(x1 - x0, y1 - y0) / vel
        n = int(onp.floor((t + 1e-10) / dt)) + 1
        for i in range(n):
            r = i / (n - 1) if n > 1 else 0.
            pts.append((x0 + r * (x1 - x0), y0 + r * (y1 - y0), s))
    return pts[1:]


def run_case(case, R):
    h, dt, iv = case['h'], case['dt'], case['interval']
    N = (6, 6, 6)                # two gas layers, so that the surface lasts
    ph = onp.full(N, L.WALL)
    ph[1:-1, 1:-1, 1:3] = L.LIQ
    ph[1:-1, 1:-1, 3:-1] = L.GAS
    path = [(x * h, y * h) for x, y in case['path']]
    vel = case['vel'] * h
    sched = schedule(path, case['sw'], vel, dt)
    en = h**3 * h * h / dt**2
    args = L.make_args(N, {'x_pos': [p[0] for p in path], 'y_pos': [p[1] for p in path], 'switch': case['sw']}, interval=iv, h=h, dt=dt,
                       scanning_vel=vel, laser_power=2. * en / dt, beam_size=1.5 * h, heat_capacity=en / h**3, dynamic_viscosity=.1 * h * h / dt,
                       thermal_diffusivitity_s=.05 * h * h / dt, thermal_diffusivitity_l=.1 * h * h / dt, enthalpy_s=50. * en / h**3, enthalpy_l=60. * en / h**3,
                       T_solidus=50., T_liquidus=60., T_evap=90.)
    d = os.path.join(R.tmp(), 'deep', 'er')
    if case['dir'] != 'absent':
        os.makedirs(os.path.join(d, 'vtk'))
    if case['dir'] == 'old':
        for nme in ('sol_0000.vtu', 'sol_0003.vtu', 'sol_0999.vtu', 'sol_9999.vtu'):
            open(os.path.join(d, 'vtk', nme), 'w').write('stale')
    out = L.run_real(args, ph, d)
    n = len(sched)
    want = [f'sol_{k:04d}.vtu' for k in range(n // iv + 1)]
    if not R.expect(sorted(out) == want, f'the snapshots of a run of {n} steps at interval {iv} are {sorted(out)} instead of {want}'):
        return
    m = L.Model(args, ph)
    for i in range(n + 1):
        if i:
            x, y, s = sched[i - 1]
            m.step((x / h, y / h, s))
        if m.amb:
            break
        R.state('C16', case['path'], case['sw'], case['vel'], dt, h, iv, case['dir'], i)
        R.trans()
        if i % iv:
            continue
        o = out[f'sol_{i // iv:04d}.vtu']
        if not L.compare(R, o, m, i // iv, ['phase', 'mass', 'rho', 'vel', 'T', 'melted'], f'snapshot of step {i}'):
            return
        R.expect(onp.array_equal(o['_mesh'].points, L.lattice_mesh(*N).points) and o['_mesh'].cells_dict['hexahedron'].shape == (216, 8), 'snapshot on another mesh')
        R.trace()
    R.sample({'steps': n, 'laser': sched, 'largest temperature': float(m.temp(m.H.sum(-1)).max())})

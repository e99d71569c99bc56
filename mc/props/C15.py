"""Thermal free surface flow: heat, melting and every driving force of the real simulation equal an independent model of the scheme."""
import numpy as onp
from mc import lbmref as L
from mc.lbmref import PRELOAD
from mc.props.C13 import initial

BOUNDS = {'quick': 'slab, irregular, sheet and drop fillings of a 5x4x6 container x the laser alone and together with each of {gravity, surface tension, Marangoni force, '
                   'recoil pressure, convection, radiation}, all of them at once in unit and in non-unit length, time, density, temperature and molar mass scales, '
                   'laser off, laser passing over the domain; 30 steps; every cell of every output is compared with the model; temperatures cross solidus and liquidus '
                   'in both directions',
          'thorough': 'all seven fillings, 80 steps'}
ASSUMPTIONS = ['the lattice border consists of wall cells', 'double precision (JAX_ENABLE_X64)',
               'a trace is followed until a threshold (phase change, solidus) is met within rounding error, or until it diverges numerically; where two directions '
               'of the surface normal are equal, the curvature may be taken along either']

SCALES = {'unit': dict(h=1., dt=1., rho=1., T0=1., M=1.), 'odd': dict(h=2., dt=.5, rho=3., T0=300., M=.06)}
# the effects in lattice units
POWER = {'slab': 60., 'odd': 60., 'sheet': 60., 'drop': 120., 'column': 120., 'bubble': 60., 'full': 60.}
EFFECTS = {'gravity': .02, 'st': .02, 'marangoni': -.03, 'recoil': .02, 'conv': .05, 'rad': .004}


def params(effects, scale, power, n, path):
    """path: corners in lattice units; returns lbm arguments in physical units"""
    c = SCALES[scale]
    h, dt, rho, T0, M = (c[k] for k in ('h', 'dt', 'rho', 'T0', 'M'))
    m = rho * h**3
    en = m * h * h / dt**2
    e = {k: v for k, v in EFFECTS.items() if k in effects}
    length = sum(onp.hypot(x1 - x0, y1 - y0) for (x0, y0), (x1, y1) in zip(path[:-1], path[1:]))
    return dict(h=h, dt=dt, rho0=rho, T0=T0, M0=M, gravity=e.get('gravity', 0.) * h / dt**2, dynamic_viscosity=.15 * rho * h * h / dt,
                st_coeff=e.get('st', 0.) * m / dt**2, st_grad_coeff=e.get('marangoni', 0.) * m / dt**2 / T0,
                rp_coeff=e.get('recoil', 0.) * (m / h / dt**2) / 101325, laser_power=power * en / dt, beam_size=2.5 * h, absorbed_fraction=.4,
                scanning_vel=length * h / ((n + .4) * dt), heat_capacity=1. * en / m / T0, thermal_diffusivitity_l=.12 * h * h / dt,
                thermal_diffusivitity_s=.05 * h * h / dt, emissivity=e.get('rad', 0.) * (m / dt**3 / T0**4) / 5.67e-8, h_conv=e.get('conv', 0.) * m / dt**3 / T0,
                latent_heat_fusion=.9 * en / m, latent_heat_evap=3 * 8.314 * T0 / M, T_liquidus=3 * T0, T_solidus=2.5 * T0, T_evap=4.5 * T0,
                enthalpy_s=2.5 * en / m, enthalpy_l=3.4 * en / m)


def cases(tier):
    q = tier == 'quick'
    n = 30 if q else 80
    out = []
    boxes = ['slab', 'odd', 'sheet', 'drop'] if q else ['slab', 'odd', 'column', 'drop', 'sheet', 'bubble', 'full']
    sets = [[]] + [[k] for k in EFFECTS] + [list(EFFECTS)]
    for i, b in enumerate(boxes):
        for j, e in enumerate(sets):
            if q and b in ('sheet', 'drop') and j not in (0, 3, 4, 7):
                continue
            out.append({'box': b, 'eff': e, 'scale': 'unit', 'power': POWER[b], 'n': n})
        out.append({'box': b, 'eff': list(EFFECTS), 'scale': 'odd', 'power': POWER[b], 'n': n})
        if not q or b == 'odd':
            out.append({'box': b, 'eff': list(EFFECTS), 'scale': 'odd', 'power': 0., 'n': n})
    return out


def run_case(case, R):
    ph, _ = initial(case)
    n = case['n']
    # the laser crosses the whole container and leaves it, so that molten cells freeze again
    path = [(1.2, 1.4), (9.7, 6.6)]
    h = SCALES[case['scale']]['h']
    args = L.make_args(ph.shape, {'x_pos': [p[0] * h for p in path], 'y_pos': [p[1] * h for p in path], 'switch': [1., 0.]},
                       **params(case['eff'], case['scale'], case['power'], n, path))
    out = L.run_real(args, ph, R.tmp())
    m = L.Model(args, ph)
    hot = set()
    for i in range(n + 1):
        f = f'sol_{i:04d}.vtu'
        if not R.expect(f in out, f'output {f} is missing', got=sorted(out)):
            return
        if i:
            s = i / n
            m.step((path[0][0] + s * (path[1][0] - path[0][0]), path[0][1] + s * (path[1][1] - path[0][1]), 1.), hint=out[f].get('kappa'))
        if m.amb and (m.amb != 'curvature direction tie' or 'kappa' not in out[f]):
            break
        if not R.expect(not m.amb, f'output {i}: the curvature is not one of the admissible ones'):
            return
        if not L.compare(R, out[f], m, i, ['phase', 'mass', 'rho', 'vel', 'T', 'melted', 'kappa'], 'thermal flow'):
            return
        T = m.temp(m.H.sum(-1))[(m.phase == L.LIQ) | (m.phase == L.LG)]
        for c in (T < 2.5).astype(int) + (T < 3):
            hot.add(int(c))
        R.trans()
        R.trace()
        R.state('C15', case['box'], case['eff'], case['scale'], case['power'], i)
    R.sample({'steps followed': i, 'stopped by': m.amb, 'phase changes': m.events, 'molten cells ever': int(m.melted.sum()),
              'thermal regimes seen (0 liquid, 1 mushy, 2 solid)': sorted(hot), 'largest temperature at the end': float(T.max())})

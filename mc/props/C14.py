"""Isothermal free surface flow: every output of the real simulation equals an independent model of the scheme."""
import numpy as onp
from mc import lbmref as L
from mc.lbmref import PRELOAD
from mc.props.C13 import initial

BOUNDS = {'quick': 'every filling of a 1x1x8 (256) and 2x1x5 (1024) container with {liquid, gas} and of a 2x1x3 container with {liquid, gas, wall} (729), 6 steps; '
                   'boxes with full, drop, slab, bubble, column sheet and irregular fillings, 14 steps, x {gravity, surface tension, both, neither but thick fluid, '
                   'non-unit length, time and density scales}; every cell of every output is compared with the model',
          'thorough': '15 steps for the fillings, which are all of 2x2x3 and 3x2x2 instead of 2x1x5, under three force settings; 40 steps for the boxes'}
ASSUMPTIONS = ['the lattice border consists of wall cells', 'double precision (JAX_ENABLE_X64)',
               'a trace is followed until a phase change threshold is met within rounding error, or until it diverges numerically; where two directions '
               'of the surface normal are equal, the curvature may be taken along either']

KWS = [{'gravity': .05}, {'st_coeff': .02}, {'gravity': .03, 'st_coeff': .03, 'dynamic_viscosity': .25}, {'gravity': 0., 'dynamic_viscosity': .4},
       {'gravity': .02, 'st_coeff': .08, 'h': 2., 'dt': .5, 'rho0': 3., 'dynamic_viscosity': 2.}]


def cases(tier):
    q = tier == 'quick'
    n, nb = (6, 14) if q else (15, 40)
    out = []
    for f in [{'gravity': .01}] + ([] if q else [{'gravity': -.02, 'dynamic_viscosity': .3}, {'gravity': .03, 'h': .5, 'rho0': 2., 'dynamic_viscosity': .1}]):
        out.append({'bs': [1, 1, 8], 'sym': [0, 2], 'part': 0, 'n': n, 'shape': [8, 8, 4], 'kw': f})
        if q:
            out += [{'bs': [2, 1, 5], 'sym': [0, 2], 'part': p, 'n': n, 'shape': [8, 8, 8], 'kw': f} for p in range(2)]
        else:
            out += [{'bs': bs, 'sym': [0, 2], 'part': p, 'n': n, 'shape': [8, 8, 8], 'kw': f} for p in range(8) for bs in ([2, 2, 3], [3, 2, 2])]
        out.append({'bs': [2, 1, 3], 'sym': [0, 2, 3], 'part': 0, 'n': n, 'shape': [9, 9, 9], 'kw': f})
    for box in ('full', 'drop', 'slab', 'bubble', 'column', 'sheet', 'odd'):
        for i, kw in enumerate(KWS):
            if q and box in ('full', 'bubble') and i in (1, 3):
                continue
            out.append({'box': box, 'n': nb, 'kw': kw})
    return out


def run_case(case, R):
    ph, nbl = initial(case)
    n = case['n']
    args = L.make_args(ph.shape, L.steps_path(n, case['kw'].get('dt', 1.)), **case['kw'])
    out = L.run_real(args, ph, R.tmp(), fluid_only=True)
    m = L.Model(args, ph, True)
    for i in range(n + 1):
        f = f'sol_{i:04d}.vtu'
        if not R.expect(f in out, f'output {f} is missing', got=sorted(out)):
            return
        if i:
            m.step(hint=out[f].get('kappa'))
        if m.amb and (m.amb != 'curvature direction tie' or 'kappa' not in out[f]):
            break
        if not R.expect(not m.amb, f'output {i}: the curvature is not one of the admissible ones'):
            return
        if not L.compare(R, out[f], m, i, ['phase', 'mass', 'rho', 'vel', 'kappa'], 'flow'):
            return
        R.trans(nbl)
        R.trace()
        R.state('C14', case.get('bs'), case.get('box'), case.get('part'), str(case['kw']), i, m.phase.tobytes())
    R.sample({'steps followed': i, 'stopped by': m.amb, 'phase changes': m.events})
    for k in range(nbl):
        R.state('C14b', case.get('bs'), case.get('sym'), case.get('part'), k, str(case['kw']))

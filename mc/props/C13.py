"""Fluid mass is conserved, and walls and gas never hold fluid, for every filling of small containers."""
import itertools
import numpy as onp
from mc import lbmref as L
from mc.lbmref import PRELOAD

BOUNDS = {'quick': 'every filling of a 1x1x8 (256) and of a 2x1x5 (1024) container with {liquid, gas}, every filling of a 2x1x3 container '
                   'with {liquid, gas, wall} (729), boxes with full, drop, slab, bubble, column sheet and irregular fillings; 8 (boxes: 24) time steps each with gravity, in the fluid-only and the thermal mode; '
                   'every output of the real simulation',
          'thorough': 'as quick with 30 time steps and 2x2x3 (4096) instead of 2x1x5 containers, three force settings'}
ASSUMPTIONS = ['the lattice border consists of wall cells (as in every use of the simulation)', 'a free surface exists or the container is full (a run is followed until the last interface cell disappears)',
               'the arrays are run in double precision (JAX_ENABLE_X64)']


def cases(tier):
    n = 8 if tier == 'quick' else 30
    out = []
    forces = [{'gravity': .01}]
    if tier == 'thorough':
        forces += [{'gravity': .02, 'st_coeff': .02}, {'gravity': -.005, 'st_coeff': .01, 'dynamic_viscosity': .2}]
    for f in forces:
        out.append({'bs': [1, 1, 8], 'sym': [0, 2], 'part': 0, 'n': n, 'shape': [8, 8, 4], 'kw': f, 'fluid': True})
        for part in range(2 if tier == 'quick' else 4):
            bs = [2, 1, 5] if tier == 'quick' else [2, 2, 3]
            out.append({'bs': bs, 'sym': [0, 2], 'part': part, 'n': n, 'shape': [8, 8, 8] if tier == 'quick' else [16, 8, 8], 'kw': f, 'fluid': True})
        out.append({'bs': [2, 1, 3], 'sym': [0, 2, 3], 'part': 0, 'n': n, 'shape': [9, 9, 9], 'kw': f, 'fluid': True})
    hot = {'gravity': .08, 'laser_power': 60., 'h_conv': .02, 'st_grad_coeff': -.02, 'rp_coeff': 1e-7, 'beam_size': 20.}
    out.append({'bs': [2, 1, 3], 'sym': [0, 2, 3], 'part': 0, 'n': 3 * n, 'shape': [9, 9, 9], 'kw': hot, 'fluid': False})
    for box in ('full', 'drop', 'slab', 'bubble', 'column', 'sheet', 'odd'):
        for kw in ({'gravity': .05, 'st_coeff': .02}, {'gravity': .02, 'h': 2., 'dt': .5, 'rho0': 3., 'dynamic_viscosity': 2., 'T0': 1.}):
            out.append({'box': box, 'n': 3 * n, 'kw': kw, 'fluid': True})
    return out


def initial(case):
    if 'bs' in case:
        f = L.fillings(tuple(case['bs']), case['sym'])
        k = case['shape'][0] * case['shape'][1] * case['shape'][2]
        blocks = f[case['part'] * k:(case['part'] + 1) * k]
        return L.tile(blocks, case['shape']), len(blocks)
    b = onp.full((5, 4, 6), L.LIQ if case['box'] in ('full', 'bubble') else L.GAS)
    if case['box'] == 'drop':
        b[1:4, 1:3, 2:5] = L.LIQ
    elif case['box'] == 'slab':
        b[:, :, :3] = L.LIQ
        b[3, 2, 3] = L.WALL
    elif case['box'] == 'bubble':
        b[2, 1, 1:4] = L.GAS
    elif case['box'] == 'column':
        b[:2, :, :] = L.LIQ
    elif case['box'] == 'sheet':
        b[:, :, 3:5] = L.LIQ
    elif case['box'] == 'odd':
        b[:3, :2, :4] = L.LIQ
        b[3:, 1:3, 1:3] = L.LIQ
        b[0, 3, 3:5] = L.LIQ
        b[4, 3, 0] = L.WALL
        b[2, 0, 1] = L.GAS
    return L.tile([b], (1, 1, 1)), 1


def run_case(case, R):
    ph, nb = initial(case)
    n = case['n']
    kw = case['kw']
    path = L.steps_path(n, kw.get('dt', 1.)) if case['fluid'] else {'x_pos': [5., 5. + n + .4], 'y_pos': [8., 8.], 'switch': [1., 1.]}
    args = L.make_args(ph.shape, path, **kw)
    out = L.run_real(args, ph, R.tmp(), fluid_only=case['fluid'])
    if not R.expect(sorted(out) == [f'sol_{i:04d}.vtu' for i in range(n + 1)], 'unexpected set of outputs', got=sorted(out)):
        return
    wall = ph == L.WALL
    m0 = None
    for i in range(n + 1):
        o = out[f'sol_{i:04d}.vtu']
        p = onp.round(o['phase']).astype(int)
        R.expect(onp.array_equal(p == L.WALL, wall), f'wall cells changed at output {i}')
        R.expect(onp.all((p >= 0) & (p <= 3)), f'unknown phase at output {i}')
        rho = onp.array(o['rho'], dtype=float) / args['rho0']['value']
        mass = onp.array(o['mass'], dtype=float)
        tot = rho[p == L.LIQ].sum() + mass[p == L.LG].sum()
        if m0 is None:
            m0 = tot
            # liquid cells are full, interface cells half full
            R.close(tot, (ph == L.LIQ).sum() + .5 * (p == L.LG).sum(), 1e-6, 'initial fluid mass')
            gas = (ph == L.GAS)
            near = gas & _near(ph == L.LIQ)
            R.expect(onp.array_equal(p, onp.where(near, L.LG, ph)), 'initial free surface is not the gas next to liquid')
        if not onp.any(p == L.LG) and onp.any(ph == L.GAS):
            break      # the free surface is gone: nothing is promised from here on
        R.close(tot, m0, 1e-6, f'fluid mass after {i} steps')
        R.expect(onp.all(onp.isfinite(mass)) and onp.all(onp.isfinite(rho)), f'non finite field at output {i}')
        if i:
            empty = (p == L.GAS) | wall
            R.expect(not onp.any(mass[empty]) and not onp.any(o['vel'][empty]) and not onp.any(o['T'][empty]), f'gas or wall cells hold fluid at output {i}')
        R.state('C13', case.get('bs'), case.get('box'), case.get('part'), str(kw), i, p.tobytes())
        R.trans(nb)
        R.trace()
    for k in range(nb):
        R.state('C13b', case.get('bs'), case.get('sym'), case.get('part'), k, str(kw), case['fluid'])
    R.sample({'outputs': i, 'initial mass': m0, 'steps': n, 'cells by phase at the end': onp.bincount(p.reshape(-1), minlength=4)})


def _near(m):
    r = onp.zeros_like(m)
    for e in L.E[1:]:
        r |= L.nb(m, e)
    return r

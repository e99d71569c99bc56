"""Explicit thermal finite difference step (gamma): equals an independent cell by cell heat balance for every configuration."""
import itertools
import numpy as onp
from mc.cfdref import PRELOAD

BOUNDS = {'quick': 'grids with 1..3 interior cells per axis (27 shapes) x {no loss, convection, radiation, both} x {laser off, centred, at a corner} x temperature ranges below, '
                   'inside and above the melting interval and across it; 6 consecutive steps each; every cell including the boundary layer',
          'thorough': '20 steps, 1..4 interior cells per axis'}
ASSUMPTIONS = ['edges and corners of the outer layer are never used']
G = dict(Ts=1563., Tl=1623., L=2.1e5, T0=300., SB=5.67e-8, rho=8440., r=3e-5, eta=.4)


def cases(tier):
    m, n = (3, 6) if tier == 'quick' else (4, 20)
    return [{'N': N, 'n': n} for N in itertools.product(range(1, m + 1), repeat=3)]


def model(T, xl, yl, X, Y, P, d, dt, a):
    """one step with loops: outer layer from the surface flux balance, interior from the diffusion balance; properties from the temperature before the step"""
    k = lambda t: 4.5847 + .0163 * min(max(t, 300), a['Tl'])   # noqa
    cp = lambda t: 338.39 + .2441 * min(max(t, 300), a['Tl']) + (a['L'] if a['Ts'] < t < a['Tl'] else 0.)   # noqa
    old, new = T, T.copy()
    n = T.shape
    inner = list(itertools.product(*[range(1, s - 1) for s in n]))
    for c in inner:
        for ax in range(3):
            for s in (-1, 1):
                o = list(c)
                o[ax] += s
                if not 0 < o[ax] < n[ax] - 1:
                    o = tuple(o)
                    ts = (old[c] + old[o]) / 2
                    q = a['h'] * (ts - a['T0']) + a['SB'] * a['eps'] * (ts**4 - a['T0']**4)     # out of the body
                    if ax == 2 and s == 1:
                        i, j = c[0] - 1, c[1] - 1
                        q -= 2 * P * a['eta'] / (onp.pi * a['r']**2) * onp.exp(-2 * ((X[i, j] - xl)**2 + (Y[i, j] - yl)**2) / a['r']**2)
                    new[o] = old[c] - q / k(old[c]) * d[ax]
    out = new.copy()
    for c in inner:
        lap = 0.
        for ax in range(3):
            lo, hi = list(c), list(c)
            lo[ax] -= 1
            hi[ax] += 1
            lap += (new[tuple(lo)] - 2 * new[c] + new[tuple(hi)]) / d[ax]**2
        out[c] = new[c] + dt * k(old[c]) / (a['rho'] * cp(old[c])) * lap
    return out


def run_case(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.cfd.gamma import update_T
    N = tuple(n + 2 for n in case['N'])
    d = (1e-5, 1.3e-5, .8e-5)
    dt = 1e-6
    X, Y, Z = onp.meshgrid(*[(onp.arange(n) + .5) * h for n, h in zip(case['N'], d)], indexing='ij')
    for loss, pos, rng in itertools.product(('none', 'conv', 'rad', 'both'), ('off', 'centre', 'corner'), ((300., 300.), (1400., 1550.), (1570., 1615.), (1640., 1900.), (1500., 1700.))):
        a = dict(G, h=1e5 if loss in ('conv', 'both') else 0., eps=20. if loss in ('rad', 'both') else 0.)
        T = (rng[0] + (rng[1] - rng[0]) * (.5 + .5 * onp.sin(1.1 * onp.arange(N[0] * N[1] * N[2])))).reshape(N)
        P = 0. if pos == 'off' else 25.
        x0 = 0. if pos == 'corner' else case['N'][0] * d[0] / 2
        y0 = 0. if pos == 'corner' else case['N'][1] * d[1] / 2
        M, U = T.copy(), np.array(T)
        for i in range(case['n']):
            xl, yl = x0 + i * 2e-6, y0 - i * 1e-6
            # a temperature on the edge of the melting interval is decided by rounding
            core = M[1:-1, 1:-1, 1:-1]
            if onp.any(onp.abs(core - a['Ts']) < 1e-6) or onp.any(onp.abs(core - a['Tl']) < 1e-6):
                break
            M = model(M, xl, yl, X[:, :, -1], Y[:, :, -1], P, d, dt, a)
            U = update_T(U, xl, yl, np.array(X), np.array(Y), P, d[0], d[1], d[2], dt, a)
            got = onp.asarray(U)
            use = onp.zeros(N, bool)
            use[1:-1, 1:-1, 1:-1] = use[0, 1:-1, 1:-1] = use[-1, 1:-1, 1:-1] = use[1:-1, 0, 1:-1] = use[1:-1, -1, 1:-1] = use[1:-1, 1:-1, 0] = use[1:-1, 1:-1, -1] = True
            if not R.close(onp.where(use, got, 0), onp.where(use, M, 0), 1e-8, f'{N} loss {loss} laser {pos} start {rng} step {i + 1}', scale=max(1e3, float(onp.abs(M).max()))):
                return
            if not onp.all(onp.isfinite(M)) or abs(M).max() > 1e5:
                break
            R.state('C21', N, loss, pos, rng, i)
            R.trans()
            R.trace()
    R.sample({'grid': case['N'], 'largest temperature of the last history': float(M.max())})

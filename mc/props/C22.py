"""Grain evolution: the rate of change and every step of the solver equal an independent model for every small configuration."""
import itertools
import os
import numpy as onp
from mc import pfref as P
from mc.pfref import PRELOAD

BOUNDS = {'quick': 'every assignment of order parameters from {0, 0.6, 1} x every temperature pattern from {solid, just below and just above liquidus, above the cap} on pairs of cells along each '
                   'axis with 2 orientations (81 x 16 x 3 axes), every one-hot and liquid assignment with 3 orientations of 2x2x1, 1x2x2, 2x1x2 grids (256 each), '
                   'with and without anisotropy and interface scaling; 4 to 8 orientations on two and three cells; every temperature history of length 3 of two cells and every initial assignment of orientations through the solver; '
                   'both time integrators on five right hand sides',
          'thorough': 'additionally {0, 0.3, 0.6, 1} and 2x2x2 grids with 2 orientations (6561)'}
ASSUMPTIONS = ['cubic cells when anisotropy is on', 'double precision']
TEMPS = (900., 1622.9, 1623.1, 2500.)


def cases(tier):
    out = []
    vals = (0., .6, 1.) if tier == 'quick' else (0., .3, .6, 1.)
    for N in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
        for an, ad in ((0., 1.), (.13, 1.), (0., 4.)):
            out.append({'kind': 'pair', 'N': N, 'vals': vals, 'an': an, 'ad': ad})
    for N in ((2, 2, 1), (1, 2, 2), (2, 1, 2)):
        for an in (0., .2):
            out.append({'kind': 'grid', 'N': N, 'noris': 3, 'an': an})
    for N in ((3, 2, 1), (1, 3, 2), (2, 1, 3), (3, 1, 1), (1, 1, 3)):
        out.append({'kind': 'grid', 'N': N, 'noris': 1, 'an': .1})
    for N, m in (((2, 1, 1), 5), ((1, 2, 1), 6), ((1, 1, 2), 8), ((3, 1, 1), 4), ((1, 1, 3), 4)):
        out.append({'kind': 'grid', 'N': N, 'noris': m, 'an': .15})
    if tier == 'thorough':
        for an in (0., .2):
            out.append({'kind': 'grid', 'N': (2, 2, 2), 'noris': 2, 'an': an})
    for N in ((2, 1, 1), (1, 1, 2)):
        out.append({'kind': 'history', 'N': N})
    out.append({'kind': 'integrators'})
    return out


def run_case(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.phase_field import allen_cahn as A
    if case['kind'] == 'integrators':
        return integrators(R, np, A)
    N = tuple(case['N'])
    n = N[0] * N[1] * N[2]
    an, ad = case.get('an', 0.), case.get('ad', 1.)
    dom = tuple(2e-6 * k for k in N) if an else (1.5e-6 * N[0], 2e-6 * N[1], 2.5e-6 * N[2])
    noris = case.get('noris', 2)
    a = dict(P.ARGS, num_oris=noris, Nx=N[0], Ny=N[1], Nz=N[2], domain_x=dom[0], domain_y=dom[1], domain_z=dom[2], anisotropy=an, ad_hoc=ad, data_dir=R.tmp())
    C = P.crystal(N, dom, noris)
    if case['kind'] == 'history':
        return history(R, np, A, N, dom, a)
    rhs = jax.jit(A.phase_field(C, a))
    rt = np.array
    if case['kind'] == 'pair':
        space = [(onp.array(v).reshape(n, noris), onp.array(t)) for v in itertools.product(case['vals'], repeat=n * noris) for t in itertools.product(TEMPS, repeat=n)]
    else:
        opts = [onp.eye(noris)[o] for o in range(noris)] + [onp.zeros(noris)]
        space = [(onp.array(v), 800. + 130. * onp.arange(n)) for v in itertools.product(opts, repeat=n)]
    for eta, T in space:
        want = P.rate(eta, T, a, N, C.mesh_h_xyz, C.unique_grain_directions)
        got = rhs(rt(eta), 0., (rt(T)[:, None],))
        if not R.close(got, want, 1e-7, f'rate of change for eta {eta.tolist()} T {T.tolist()}', scale=max(1e-9, float(onp.abs(want).max()))):
            return
        R.state('C22', N, noris, an, ad, eta.tobytes(), T.tobytes())
        R.trans()
    R.trace(len(space))
    R.sample({'grid': N, 'orientations': noris, 'anisotropy': an, 'configurations': len(space)})


def history(R, np, A, N, dom, a):
    n, m = 2, 3
    a = dict(a, num_oris=m)
    for init in itertools.product(range(m), repeat=n):
        C = P.crystal(N, dom, m, init)
        S = A.PFSolver(a, C)
        y0 = S.ini_cond()
        R.expect(onp.array_equal(onp.asarray(y0), onp.eye(m)[list(init)]), f'initial state for orientations {init} is {onp.asarray(y0).tolist()}')
        for temps in itertools.product(itertools.product((1000., 1700.), repeat=n), repeat=3):
            state, t = (y0, 0.), 0.
            eta = onp.eye(m)[list(init)] * .9
            state = (np.array(eta), 0.)
            for k, T in enumerate(temps):
                dt = (2e-7, 1e-7, 3e-7)[k]
                t += dt
                eta = eta + dt * P.rate(eta, onp.array(T), a, N, C.mesh_h_xyz, C.unique_grain_directions)
                state, y = S.stepper(state, t, [np.array(T)[:, None]])
                R.close(state[0], eta, 1e-9, f'state after {k + 1} steps, temperatures {temps}', scale=1.)
                R.close(y, eta, 1e-9, f'returned field after {k + 1} steps', scale=1.)
                R.close(float(state[1]), t, 1e-12, 'time of the state')
                R.state('C22h', N, init, temps[:k + 1])
                R.trans()
            R.trace()
    R.sample({'last': eta})


def integrators(R, np, A):
    fs = [lambda y, t, p: p[0] * y, lambda y, t, p: y * 0 + p[0] * t**3 - 2 * t, lambda y, t, p: np.sin(y) + t * p[0], lambda y, t, p: y * y * p[0] - t, lambda y, t, p: y[::-1] * p[0]]
    gs = [lambda y, t, p: p * y, lambda y, t, p: y * 0 + p * t**3 - 2 * t, lambda y, t, p: onp.sin(y) + t * p, lambda y, t, p: y * y * p - t, lambda y, t, p: y[::-1] * p]
    for q, (f, g) in enumerate(zip(fs, gs)):
        for h, p, t0 in itertools.product((.1, .5, -.3, 0.), (1.3, -.4), (0., .7)):
            y = onp.array([.3, -.8, 1.1])
            s1 = s2 = (np.array(y), t0)
            e, r, t = y.copy(), y.copy(), t0
            for k in range(3):
                k1 = g(r, t, p)
                k2 = g(r + h / 2 * k1, t + h / 2, p)
                k3 = g(r + h / 2 * k2, t + h / 2, p)
                k4 = g(r + h * k3, t + h, p)
                r = r + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                e = e + h * g(e, t, p)
                t = t + h
                s1, o1 = A.explicit_euler(s1, t, f, [p])
                s2, o2 = A.rk4(s2, t, f, [p])
                for name, s, o, w in (('Euler', s1, o1, e), ('Runge-Kutta', s2, o2, r)):
                    R.close(s[0], w, 1e-10, f'{name} step {k + 1} of right hand side {q}, step size {h}', scale=max(1., float(abs(w).max())))
                    R.close(o, w, 1e-10, f'{name} output', scale=max(1., float(abs(w).max())))
                    R.close(float(s[1]), t, 1e-12, f'{name} time', scale=1.)
                R.state('C22i', q, h, p, t0, k)
                R.trans(2)
            R.trace()

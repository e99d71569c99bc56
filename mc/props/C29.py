"""Every design update solves the convex approximation of the method of moving asymptotes, for every small problem and history."""
import copy
import itertools
import numpy as onp
from mc import mmaref as M
from mc.mmaref import PRELOAD

BOUNDS = {'quick': 'one update: 1 to 3 variables x 1 to 3 constraints, every design from {lower bound, inside, upper bound}^n, every objective gradient sign pattern {-, 0, +}^n, constraint value {satisfied, violated, infeasible}, '
                   'three constraint gradients, two move limits (3 variables: one combination of value and limit per gradient), unit and other bounds; all 3^n histories of moves (advancing, resting, oscillating) per variable for the moving asymptotes over 5 (1 variable) and 4 (2 variables) iterations; one update from every pair of last moves {back, none, forth}^2 per variable x 7 asymptote distances around their limits, 1 and 2 variables; both copies of the optimizer (library, topology optimisation applications)',
          'thorough': '4 variables, every combination; histories of 7, 5, 4 iterations with 1, 2, 3 variables'}
ASSUMPTIONS = ['the penalty parameters of the optimizer driver (no artificial variable, linear slack cost)']
XS = (0., .3, 1.)
DIST = ((.001, .001), (.3, .4), (30., .002), (.002, 30.), (9.5, 9.5), (30., 30.), (.012, .0115))  # distance of the asymptotes from the last design, in ranges
CG = ((1., 1., 1., 1.), (-1., 2., .3, -.4), (.5, -1.5, -.2, 3.))


def cases(tier):
    out = []
    for n, m in itertools.product((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4), (1, 2, 3)):
        for k, b in itertools.product(range(3), ('unit', 'other')):
            if tier == 'quick' and n == 3 and ((k + m) % 3 or b == 'unit'):
                continue
            out.append({'kind': 'one', 'n': n, 'm': m, 'grad': k, 'bounds': b, 'full': tier != 'quick'})
    for n, b in itertools.product((1, 2), ('unit', 'other')):
        for d in DIST:
            out.append({'kind': 'state', 'n': n, 'bounds': b, 'dist': d})
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for s in itertools.product((1, 0, -1), repeat=n):
            out.append({'kind': 'history', 'n': n, 'first': s, 'len': (5 if n < 2 else 4) if tier == 'quick' else (7, 5, 4)[n - 1]})
    # the copy of the optimizer that the topology optimisation applications use
    out += [dict(c, app=1) for c in out if tier != 'quick' or c['n'] == 1 or c['kind'] == 'one' and c['n'] == 2 and c['bounds'] == 'other' and c['grad'] == c['m'] - 1]
    return out


def make(mma, n, m, xmin, xmax, x, move, it0=True):
    S = mma.MMA()
    S.setNumConstraints(m)
    S.setNumDesignVariables(n)
    S.setMinandMaxBoundsForDesignVariables(xmin[:, None], xmax[:, None])
    S.registerMMAIter(x[:, None], x[:, None].copy(), x[:, None].copy())
    S.setLowerAndUpperAsymptotes(onp.ones((n, 1)), onp.ones((n, 1)))
    S.setScalingParams(1., onp.zeros((m, 1)), 10000 * onp.ones((m, 1)), onp.zeros((m, 1)))
    S.setMoveLimit(move)
    return S


def update(R, S, it, x, x1, x2, low, upp, xmin, xmax, move, f0, df0, f, df, w):
    n, m = len(x), len(f)
    S.setObjectiveWithGradient(onp.array(f0), df0[:, None].copy())
    S.setConstraintWithGradient(f[:, None].copy(), df.copy())
    S.mmasub(x[:, None].copy())
    new = onp.asarray(S.getOptimalValues()[0], dtype=float).reshape(-1)
    lo, up = M.asymptotes(it, x, x1, x2, low, upp, xmin, xmax)
    gl, gu = (onp.asarray(v, dtype=float).reshape(-1) for v in S.getAsymptoteValues())
    ok = R.close(gl, lo, 1e-9, f'{w}: lower asymptotes', scale=1.) and R.close(gu, up, 1e-9, f'{w}: upper asymptotes', scale=1.)
    A = M.Approx(x, lo, up, xmin, xmax, move, df0, f, df, 10000. * onp.ones(m))
    lam = onp.asarray(S.getLagrangeMultipliers()[0], dtype=float).reshape(-1)
    gap, outside = A.certify(new, lam)
    ok &= R.expect(outside < 1e-7, f'{w}: the design {new} leaves its bounds or move limit by {outside}')
    ok &= R.expect(abs(gap) < 1e-5, f'{w}: the design {new} is not the optimum of the approximation (relative gap {gap})')
    return ok, new, gl, gu, gap


def state(case, R, mma):
    """one update from every combination of the last two moves (exactly none included) and asymptotes near, at and beyond their limits"""
    n = case['n']
    xmin, xmax = box(case)
    r = xmax - xmin
    for it in (3, 4) if n < 2 else (3,):
        for mv in itertools.product(itertools.product((-.125, 0., .125), repeat=2), repeat=n):
            for pos in (.375, .5) if n < 2 else (.5,):
                x = xmin + r * (pos + onp.array([.0625, 0.])[:n])
                a, b = onp.array(mv).T
                x1 = x - a * r
                x2 = x1 - b * r
                low, upp = x1 - case['dist'][0] * r, x1 + case['dist'][1] * r
                S = make(mma, n, 1, xmin, xmax, x, .1)
                for _ in range(it - 1):
                    S.registerMMAIter(x[:, None].copy(), x1[:, None].copy(), x2[:, None].copy())
                S.setLowerAndUpperAsymptotes(low[:, None].copy(), upp[:, None].copy())
                df0 = onp.array([1., -2.])[:n]
                w = f'iteration {it} moves {mv} asymptotes at {case["dist"]} ranges'
                if not update(R, S, it, x, x1, x2, low, upp, xmin, xmax, .1, 1., df0, onp.array([.1]), onp.full((1, n), 1.), w)[0]:
                    return
                R.state('C29s', n, case['bounds'], case['dist'], it, mv, pos)
                R.trans()
    R.trace()


def box(case):
    n = case['n']
    return (onp.zeros(n), onp.ones(n)) if case['bounds'] == 'unit' else (onp.array([-1., .2, 3., 0.])[:n], onp.array([2., .3, 8., 1.])[:n])


def run_case(case, R):
    mma = M.module(case)
    n = case['n']
    worst = 0.
    if case['kind'] == 'history':
        return history(case, R, mma)
    if case['kind'] == 'state':
        return state(case, R, mma)
    m = case['m']
    xmin, xmax = box(case)
    for t in itertools.product(XS, repeat=n):
        x = xmin + onp.array(t) * (xmax - xmin)
        for g in itertools.product((-1., 0., 2.), repeat=n):
            for fv, move in itertools.product((-.4, .3, 40.), (.1, .6)) if n < 3 or case['full'] else ((.3, .1), (-.4, .6), (40., .6))[sum(map(int, g)) % 3:][:1]:
                df0 = onp.array(g) * (1 + .1 * onp.arange(n))
                df = onp.array([onp.roll(CG[(case['grad'] + i) % 3][:n], i) * (1 + .3 * i) for i in range(m)])
                f = onp.array([fv - .2 * i for i in range(m)])
                S = make(mma, n, m, xmin, xmax, x, move)
                w = f'design {x} gradient {g} constraint {fv} limit {move}'
                ok, *_, gap = update(R, S, 1, x, x, x, onp.ones(n), onp.ones(n), xmin, xmax, move, 1., df0, f, df, w)
                worst = max(worst, abs(gap))
                if not ok:
                    return
                R.state('C29', n, m, case['grad'], case['bounds'], t, g, fv, move)
                R.trans()
    R.trace()
    R.sample({'largest relative gap': worst})


def history(case, R, mma):
    """the gradient signs steer the design, so that consecutive moves of each variable have every sign pattern"""
    n, m = case['n'], 1
    xmin, xmax = onp.zeros(n), onp.ones(n)
    worst = 0.
    seen = set()

    def go(S, hist, x, x1, x2, low, upp):
        nonlocal worst
        it = len(hist)
        for s in itertools.product((1, 0, -1), repeat=n) if it else [tuple(case['first'])]:
            C = copy.deepcopy(S)
            h = hist + (s,)
            ok, new, lo, up, gap = update(R, C, it + 1, x, x1, x2, low, upp, xmin, xmax, .07, 1., onp.array([float(v) for v in s]), onp.array([-1.]), onp.full((1, n), .01), f'history {h}')
            worst = max(worst, abs(gap))
            if not ok:
                return False
            seen.add(tuple(onp.sign(onp.round((x - x1) * (x1 - x2), 9)).astype(int)))
            R.state('C29h', n, h)
            R.trans()
            C.registerMMAIter(new[:, None].copy(), x[:, None].copy(), x1[:, None].copy())
            if it + 1 < case['len']:
                if not go(C, h, new, x, x1, lo, up):
                    return False
            else:
                R.trace()
        return True

    x = onp.array([.5, .4, .6])[:n]
    go(make(mma, n, m, xmin, xmax, x, .07), (), x, x.copy(), x.copy(), onp.ones(n), onp.ones(n))
    R.sample({'largest relative gap': worst, 'move patterns reached': sorted(seen)})

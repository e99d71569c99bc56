"""Topology optimisation driver and design filter for every small mesh and set of flexible cells."""
import contextlib
import io
import itertools
import types
import numpy as onp
from mc import mmaref as M
from mc.mmaref import PRELOAD

BOUNDS = {'quick': 'filter: boxes {1x1x1, 2x1x1, 2x2x1, 2x2x2, 3x2x2, 3x3x3, 4x3x3} and rectangles up to 4x4 of cubic cells, every subset of flexible cells up to 8 cells (255), all cells above that; sensitivity filter on every unit field x {design on, near and above its floor}; '
                   'driver: 0 to 5 iterations x 1 and 2 constraints x 1 and 2 parameters per cell x three move limits on 2, 5 and 24 cells, every handle call and every design compared with the model; both copies of the optimizer (library, topology optimisation applications)',
          'thorough': 'every subset of 10 cells, 9 iterations'}
ASSUMPTIONS = ['about cubic cells: the filter radius is 1.5 cell sizes, inside which a cell has at most 19 neighbours including itself']


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'filter', 'N': N} for N in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2), (3, 3, 3), (4, 3, 3), (1, 1), (2, 2), (3, 2), (4, 2), (4, 4), (6, 5)) + (() if q else ((5, 2, 1), (5, 2)))]
    out += [{'kind': 'sens', 'N': N, 'k': k, 'm': m} for N in ((2, 2), (3, 2, 2)) for k in (1, 2) for m in (1, 2)]
    out += [{'kind': 'drive', 'N': N, 'k': k, 'm': m, 'move': mv, 'n': 5 if q else 9} for N, (k, m), mv in
            itertools.product(((2, 1), (5, 1, 1), (4, 3, 2)), ((1, 1), (1, 2), (2, 1)), (.05, .2, 1.))]
    # the copy of the optimizer that the topology optimisation applications use
    out += [dict(c, app=1) for c in out if not q or c['kind'] != 'drive' or (c['move'] == .2 and c['N'] != (5, 1, 1))]
    return out


def stub(N, flex, h=.5):
    """what the driver needs of a finite element problem: points, cells, cell volumes, the flexible cells"""
    d = len(N)
    pts = onp.array(list(itertools.product(*[range(k + 1) for k in N])), dtype=float) * h
    ids = {tuple(p): i for i, p in enumerate(onp.round(pts / h).astype(int).tolist())}
    cells = onp.array([[ids[tuple(onp.add(c, o))] for o in itertools.product((0, 1), repeat=d)] for c in itertools.product(*[range(k) for k in N])])
    return types.SimpleNamespace(points=pts, cells=cells, cell_centroids=pts[cells].mean(1), flex_inds=onp.array(flex), JxW=onp.full((len(cells), 2**d), h**d / 2**d), num_cells=len(cells), dim=d)


def weights(N, flex, h=.5):
    cen = onp.array(list(itertools.product(*[range(k) for k in N])), dtype=float) * h
    n = len(flex)
    W = onp.zeros((n, n))
    for i, j in itertools.product(range(n), repeat=2):
        W[i, j] = max(0., 1.5 * h - onp.linalg.norm(cen[flex[i]] - cen[flex[j]]))
    return W


def sens(W, rho, g):
    """filtered sensitivity of fields shaped like rho"""
    r = onp.zeros_like(g)
    s = W.sum(1)
    for i, j in itertools.product(range(len(W)), repeat=2):
        if W[i, j]:
            r[i] += W[i, j] * rho[j] * g[j] / onp.maximum(1e-3, rho[j]) / s[j]
    return r


def run_case(case, R):
    mma = M.module(case)
    N = tuple(case['N'])
    nc = int(onp.prod(N))
    if case['kind'] == 'filter':
        full = nc <= (8 if nc != 10 else 10)
        subsets = [f for k in range(1, nc + 1) for f in itertools.combinations(range(nc), k)] if full else [tuple(range(nc)), tuple(range(0, nc, 2)), tuple(range(nc // 2)), (nc - 1, 0, nc // 2)]
        for f in subsets:
            H, Hs = mma.compute_filter_kd_tree(stub(N, f))
            W = weights(N, f)
            ok = R.close(onp.asarray(H), W, 1e-9, f'filter weights of flexible cells {f} in {N}', scale=.75) and R.close(onp.asarray(Hs).reshape(-1), W.sum(1), 1e-9, f'sums of the weights for {f}', scale=1.)
            if not ok:
                return
            R.state('C30f', N, f)
            R.trans()
        R.trace(len(subsets))
        R.sample({'largest row sum': float(W.sum(1).max())})
        return
    W = weights(N, range(nc))
    k, m = case['k'], case['m']
    if case['kind'] == 'sens':
        H, Hs = mma.compute_filter_kd_tree(stub(N, range(nc)))
        for rho in (onp.full((nc, k), .3), (.1 + .05 * onp.arange(nc * k)).reshape(nc, k), onp.where(onp.arange(nc * k) % 3 == 0, 0., 5e-4).reshape(nc, k), onp.ones((nc, k))):
            for c, p in itertools.product(range(nc), range(k)):
                g = onp.zeros((nc, k))
                g[c, p] = 1.7
                dc = onp.stack([(i + 1) * onp.roll(g, i, axis=0) - .3 for i in range(m)])
                a, b = mma.applySensitivityFilter({'H': H, 'Hs': Hs}, rho, g, dc)
                R.close(onp.asarray(a), sens(W, rho, g), 1e-9, f'filtered sensitivity of cell {c}', scale=1.)
                for i in range(m):
                    R.close(onp.asarray(b)[i], sens(W, rho, dc[i]), 1e-9, f'filtered sensitivity of constraint {i}, cell {c}', scale=1.)
                R.state('C30s', N, k, m, c, p, float(rho[0, 0]))
                R.trans()
        R.trace()
        return
    for iters in range(case['n'] + 1):
        log = []
        nx = nc * k
        rho0 = (.3 + .4 * onp.arange(nx) / nx).reshape(nc, k)
        target = onp.where(onp.arange(nx) % 3 == 0, .9, .15).reshape(nc, k)

        def obj(rho):
            rho = onp.asarray(rho, dtype=float)
            g = 2 * (rho - target)
            log.append(['obj', rho.copy(), g])
            return onp.sum((rho - target)**2), g.copy()

        def con(rho, loop):
            rho = onp.asarray(rho, dtype=float)
            v = onp.array([rho.mean() / .35 - 1., rho[0, 0] + rho[-1, -1] - .8][:m])
            d = [onp.full((nc, k), 1 / (.35 * nx)), onp.zeros((nc, k))]
            d[1][0, 0] += 1
            d[1][-1, -1] += 1
            log.append(['con', rho.copy(), loop, v, onp.array(d[:m])])
            return v.copy(), onp.array(d[:m])
        with contextlib.redirect_stdout(io.StringIO()):
            if case.get('app'):
                got, _ = mma.optimize(stub(N, range(nc)), rho0.copy(), {'maxIters': iters, 'minIters': iters, 'relTol': .05}, obj, con, numConstraints=m, movelimit=case['move'])
            else:
                got = mma.optimize(stub(N, range(nc)), rho0.copy(), {'maxIters': iters, 'movelimit': case['move']}, obj, con, m)
        got = onp.asarray(got, dtype=float)
        w = f'{iters} iterations'
        if not R.expect(got.shape == (nc, k) and [c[0] for c in log] == ['obj', 'con'] * iters or sorted(c[0] for c in log) == ['con'] * iters + ['obj'] * iters, f'{w}: calls {[c[0] for c in log]}, shape {got.shape}'):
            return
        ob = [c for c in log if c[0] == 'obj']
        co = [c for c in log if c[0] == 'con']
        xs = [c[1] for c in ob] + [got]
        R.close(xs[0], rho0, 1e-12, f'{w}: first design', scale=1.)
        xmin, xmax = onp.zeros(nx), onp.ones(nx)
        low = upp = onp.ones(nx)
        for i in range(iters):
            R.expect(co[i][2] == i + 1, f'{w}: constraint called with iteration {co[i][2]} instead of {i + 1}')
            R.close(co[i][1], xs[i], 1e-12, f'{w}: constraint called with another design', scale=1.)
            x = xs[i].reshape(-1)
            x1 = xs[max(i - 1, 0)].reshape(-1)
            x2 = xs[max(i - 2, 0)].reshape(-1)
            low, upp = M.asymptotes(i + 1, x, x1, x2, low, upp, xmin, xmax)
            A = M.Approx(x, low, upp, xmin, xmax, case['move'], sens(W, xs[i], ob[i][2]).reshape(-1), co[i][3], onp.array([sens(W, xs[i], g).reshape(-1) for g in co[i][4]]), 10000. * onp.ones(m))
            new = xs[i + 1].reshape(-1)
            gap, outside = A.certify(new)
            ok = R.expect(outside < 1e-7, f'{w}: design {i + 1} leaves its bounds or move limit by {outside}')
            ok &= R.expect(abs(gap) < 1e-5, f'{w}: design {i + 1} is not the optimum of the approximation (relative gap {gap})')
            if not ok:
                return
            R.state('C30', N, k, m, case['move'], iters, i)
            R.trans()
        R.trace()
    R.sample({'final design': got.reshape(-1)[:6], 'objective': float(((got - target)**2).sum()), 'constraint': None if not iters else co[-1][3]})

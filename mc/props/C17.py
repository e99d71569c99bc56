"""Structured CFD grids: geometry, neighbours and boundary surfaces for every small shape."""
import itertools
import numpy as onp
from mc.cfdref import Grid, real_mesh, PRELOAD

BOUNDS = {'quick': 'every 2-D grid with 1..6 cells per axis and every 3-D grid with 1..4 cells per axis, each with two domain aspect ratios: every cell, neighbour and boundary face',
          'thorough': '2-D up to 12 and 3-D up to 6 cells per axis'}


def cases(tier):
    m2, m3 = (6, 4) if tier == 'quick' else (12, 6)
    out = [{'d': 2, 'nx': n, 'm': m2} for n in range(1, m2 + 1)]
    return out + [{'d': 3, 'nx': n, 'm': m3} for n in range(1, m3 + 1)]


def run_case(case, R):
    d = case['d']
    for rest in itertools.product(range(1, case['m'] + 1), repeat=d - 1):
        N = (case['nx'],) + rest
        for dom in ((1., 2., .5)[:d], (3e-4, 1e-4, 7e-5)[:d]):
            check(d, N, dom, R)


def check(d, N, dom, R):
    g, m = Grid(dom, N), real_mesh(dom, N)
    w = f'grid {N} of {dom}'
    L = max(dom)
    n = len(g.cells)
    R.state('C17', N, dom)
    R.expect(int(m.cell_num) == n and m.dim == d and tuple(m.shape) == N, f'{w}: cell count, dimension or shape')
    R.close(m.dX, g.dX, 1e-12, f'{w}: cell sizes')
    R.close(m.dV, g.dV, 1e-12, f'{w}: cell volume')
    R.close(onp.asarray(m.Xc), g.xc, 1e-12, f'{w}: cell centres', scale=L)
    conn = onp.asarray(m.cell_conn)
    want = onp.array([[i] + [g.id[g.nb(c, s)] if g.nb(c, s) is not None else i for s in range(2 * d)] for i, c in enumerate(g.cells)])
    R.expect(conn.shape == want.shape and onp.array_equal(conn, want), f'{w}: neighbour table')
    D, S = onp.asarray(m.D), onp.asarray(m.dS)
    R.close(onp.abs(D), onp.repeat(g.dX, 2), 1e-12, f'{w}: distances')
    R.close(onp.abs(S), onp.repeat(g.area, 2), 1e-12, f'{w}: face areas')
    R.expect(onp.array_equal(onp.sign(D), onp.sign(S)), f'{w}: orientation of areas and distances differ')
    R.trans(n * 2 * d)
    cells, pts, sides = onp.asarray(m.surf_cell), onp.asarray(m.surface), onp.asarray(m.surf_orient)
    seen = []
    R.expect(len(m.surf_sets) == 2 * d, f'{w}: number of sides')
    for s in range(2 * d):
        idx = onp.asarray(m.surf_sets[s])
        seen += list(idx)
        sc = [g.id[c] for c in g.side_cells(s)]
        R.expect(int(m.surf_set_num[s]) == len(sc) == len(idx), f'{w}: number of faces of side {s}')
        if len(idx) != len(sc):
            continue
        R.expect(list(cells[idx]) == sc, f'{w}: cells at side {s}')
        R.close(pts[idx], g.side_points(s), 1e-12, f'{w}: face centres of side {s}', scale=L)
        R.expect(onp.all(sides[idx] == s), f'{w}: orientation of side {s}')
        R.trace()
    R.expect(sorted(seen) == list(range(len(cells))) and len(pts) == len(cells), f'{w}: the sides do not partition the boundary faces')
    if N == (2,) * d:
        R.sample({'grid': N, 'neighbours': conn})

"""Regular box and rectangle grids: geometry, numbering and orientation for every small shape."""
import itertools
import numpy as onp

PRELOAD = ['numpy', 'jax', 'meshio', 'pandas', 'matplotlib.pyplot', 'matplotlib.animation', 'yaml', 'pyfiglet']
BOUNDS = {'quick': 'every box with 1..5 cells per axis (125) and rectangle with 1..8 (64), three domain sizes each: every point, every cell, the cell order',
          'thorough': '1..8 cells per axis for boxes, 1..20 for rectangles'}
DOMS = ((1., 2., .5), (3e-4, 1e-4, 7e-5), (4, 3, 7))


def cases(tier):
    m, r = (5, 8) if tier == 'quick' else (8, 20)
    return [{'d': 3, 'nx': n, 'm': m} for n in range(1, m + 1)] + [{'d': 2, 'nx': n, 'm': r} for n in range(1, r + 1)]


def run_case(case, R):
    from jax_am import common as C
    d = case['d']
    for rest in itertools.product(range(1, case['m'] + 1), repeat=d - 1):
        N = (case['nx'],) + rest
        for dom in DOMS:
            dom = dom[:d]
            check(C, d, N, dom, R)


def check(C, d, N, dom, R):
    m = C.box_mesh(*N, *dom) if d == 3 else C.rectangle_mesh(*N, *dom)
    w = f'{N} cells on {dom}'
    pts, cells = onp.asarray(m.points, dtype=float), m.cells_dict['hexahedron' if d == 3 else 'quad']
    R.expect(len(m.cells) == 1 and len(cells) == int(onp.prod(N)), f'{w}: number of cells')
    L = max(dom)
    grid = onp.array(list(itertools.product(*[[i * L_ / n for i in range(n + 1)] for L_, n in zip(dom, N)])))
    # every point exactly once, in the order of the last axis first
    if not R.close(pts, grid, 1e-12, f'{w}: points', scale=L):
        return
    if d == 3:
        loc = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    else:
        loc = [(0, 0), (1, 0), (1, 1), (0, 1)]
    h = onp.array([L_ / n for L_, n in zip(dom, N)])
    for c, idx in enumerate(itertools.product(*[range(n) for n in N])):
        want = (onp.array(idx) + onp.array(loc)) * h
        if not R.close(pts[cells[c]], want, 1e-12, f'{w}: corners of cell {idx}', scale=L):
            return
    R.state('C26', N, dom)
    R.trans(len(cells))
    R.trace()
    if N == (2,) * d:
        R.sample({'cells': len(cells), 'points': len(pts)})

"""Grain statistics: connected components, volumes and aspect ratios for every small labelling of a grid."""
import itertools
import os
import numpy as onp
from mc import pfref as P
from mc.pfref import PRELOAD

BOUNDS = {'quick': 'neighbour lists of every grid with 1..4 cells per axis (64); every labelling of 2x2x2 with {2 orientations, molten} (6561), of 6x1x1, 1x6x1, 1x1x6, 3x2x1, 1x3x2, 2x1x3 with '
                   '{3 orientations, molten} (4096 each) and of 3x3x1 with {1 orientation, molten}; volumes and aspect ratios of all grains of the 2x2x2, 3x3x2 sub-shapes; '
                   'the whole post-processing chain from a result file for 48 labellings of 3x2x4 with non-cubic cells and temperatures below, at and above the liquidus',
          'thorough': 'additionally every labelling of 2x2x3 with {1 orientation, molten} and {2 orientations} (4096 each), of 3x3x2 shapes with one orientation (all 2^12 of a half), 8x1x1 with 2 orientations'}
ASSUMPTIONS = ['aspect ratios of grains whose cells lie on one line are not defined']


def cases(tier):
    out = [{'kind': 'edges', 'nx': n} for n in range(1, 5 if tier == 'quick' else 7)]
    L = [((2, 2, 2), 2, 1)] + [(N, 3, 1) for N in ((6, 1, 1), (1, 6, 1), (1, 1, 6), (3, 2, 1), (1, 3, 2), (2, 1, 3))] + [((3, 3, 1), 1, 1), ((1, 3, 3), 2, 0)]
    if tier == 'thorough':
        L += [((2, 2, 3), 1, 1), ((3, 2, 2), 2, 0), ((8, 1, 1), 2, 1), ((2, 4, 1), 2, 1), ((3, 4, 1), 1, 1)]
    out += [{'kind': 'label', 'N': N, 'noris': m, 'liq': q} for N, m, q in L]
    out += [{'kind': 'shape', 'N': N} for N in ((2, 2, 2), (3, 2, 2), (1, 3, 3), (3, 3, 1))]
    out += [{'kind': 'file', 'part': k} for k in range(4 if tier == 'quick' else 12)]
    return out


def components(N, label):
    """cells with label >= 0, joined when they share a face and have the same label; each component sorted"""
    n = N[0] * N[1] * N[2]
    root = list(range(n))

    def find(c):
        while root[c] != c:
            c = root[c]
        return c
    for k, j, i in itertools.product(range(N[2]), range(N[1]), range(N[0])):
        c = P.cellid(N, i, j, k)
        for q in P.neighbours(N, i, j, k).values():
            if label[c] >= 0 and label[q] == label[c]:
                root[max(find(c), find(q))] = min(find(c), find(q))
    d = {}
    for c in range(n):
        if label[c] >= 0:
            d.setdefault(find(c), []).append(c)
    return sorted((label[r], tuple(cs)) for r, cs in d.items())


def ratio(pts, vols):
    if len(vols) < 5:
        return 1.
    w = pts * vols[:, None]
    w = w - w.mean(0)
    ev = sorted(onp.linalg.eigvalsh(w.T @ w / (len(w) - 1)), reverse=True)
    ev = [max(e, 0.) for e in ev]
    if ev[1] < 1e-9 * ev[0]:
        return None
    l = onp.sqrt(ev)
    return 2 * l[0] / (l[1] + l[2])


def run_case(case, R):
    from jax_am.phase_field import utils as U
    if case['kind'] == 'edges':
        for rest in itertools.product(range(1, 5), repeat=2):
            N = (case['nx'],) + rest
            e = U.compute_edges_in_order({'Nx': N[0], 'Ny': N[1], 'Nz': N[2]})
            for k, j, i in itertools.product(range(N[2]), range(N[1]), range(N[0])):
                c = P.cellid(N, i, j, k)
                R.expect(sorted(int(x) for x in e[c]) == sorted(P.neighbours(N, i, j, k).values()), f'neighbours of cell {(i, j, k)} of a {N} grid are {e[c]}')
            R.expect(len(e) == N[0] * N[1] * N[2], 'number of cells')
            R.state('C23e', N)
            R.trans()
            R.trace()
        return
    if case['kind'] == 'file':
        return from_file(case, R, U)
    N = tuple(case['N'])
    n = N[0] * N[1] * N[2]
    a = {'Nx': N[0], 'Ny': N[1], 'Nz': N[2], 'num_oris': case.get('noris', 1)}
    e = U.compute_edges_in_order(a)
    dom = (1.1 * N[0], .7 * N[1], 1.9 * N[2])
    mesh = P.grid_mesh(N, dom)
    cen = onp.mean(mesh.points[mesh.cells_dict['hexahedron']], axis=1)
    if case['kind'] == 'shape':
        big = []
        for bits in itertools.product((0, 1), repeat=n):
            g = [c for c in range(n) if bits[c]]
            if g:
                big.append(g)
        for vols in (onp.full(n, 1.1 * .7 * 1.9), .5 + .1 * onp.arange(n)):
            gv, gc = U.get_aspect_ratio_inputs(big, vols, cen)
            got = U.compute_aspect_ratios_and_vols(gv, gc)
            if not R.expect(len(got[0]) == len(big) and len(got[1]) == len(big), 'one volume and one aspect ratio per grain'):
                return
            for g, v, r in zip(big, *got):
                R.close(v, vols[g].sum(), 1e-9, f'volume of grain {g}')
                want = ratio(cen[g], vols[g])
                if want is not None:
                    R.close(r, want, 1e-5, f'aspect ratio of grain {g}')
                R.state('C23s', N, tuple(g), float(vols[0]))
                R.trans()
        R.trace(len(big))
        return
    opts = list(range(case['noris'])) + ([-1] if case['liq'] else [])
    rep = 0
    for lab in itertools.product(opts, repeat=n):
        solid = onp.array([x >= 0 for x in lab])
        # the orientation stored in a molten cell is arbitrary
        ori = onp.array([x if x >= 0 else (c + rep) % case['noris'] for c, x in enumerate(lab)])
        rep += 1
        want = components(N, lab)
        got = U.BFS(e, solid, ori, a)
        norm = sorted((int(ori[g[0]]), tuple(sorted(int(c) for c in g))) for g in got)
        if not R.expect(norm == want, f'grains of labelling {lab} on {N} are {norm} instead of {want}'):
            return
        per = U.BFS(e, solid, ori, a, combined=False)
        norm = sorted((o, tuple(sorted(int(c) for c in g))) for o, gs in enumerate(per) for g in gs)
        if not R.expect(norm == want and len(per) == case['noris'], f'grains by orientation of labelling {lab} on {N}: {norm}'):
            return
        R.state('C23', N, lab)
        R.trans()
    R.trace(rep)
    R.sample({'grid': N, 'last grains': [list(w[1]) for w in want]})


def from_file(case, R, U):
    N, dom = (3, 2, 4), (3e-5, 5e-5, 6e-5)
    n = 24
    mesh = P.grid_mesh(N, dom)
    cen = onp.mean(mesh.points[mesh.cells_dict['hexahedron']], axis=1)
    for q in range(12):
        s = case['part'] * 12 + q
        ori = onp.array([(c * (s + 3) // (4 + s % 5) + s) % (2 + s % 2) for c in range(n)])
        T = onp.array([(900., 1622., 1623., 1700.)[0 if q < 3 else (c * (q + 1) // 7 + s) % 4] for c in range(n)])
        d = os.path.join(R.tmp(), f'r{s}')
        os.makedirs(os.path.join(d, 'vtk', 'pf', 'sols'))
        mesh.cell_data = {'T': [onp.array(T[:, None], dtype=onp.float32)], 'ori_inds': [onp.array(ori, dtype=onp.int32)]}
        mesh.write(os.path.join(d, 'vtk', 'pf', 'sols', 'u013.vtu'))
        got = U.process_eta({'data_dir': d, 'Nx': 3, 'Ny': 2, 'Nz': 4, 'domain_x': dom[0], 'domain_y': dom[1], 'domain_z': dom[2], 'T_liquidus': 1623., 'num_oris': 3})
        want = components(N, [int(o) if t < 1623. else -1 for o, t in zip(ori, T)])
        vol = onp.prod(dom) / n
        if not R.expect(len(got[0]) == len(want) and len(got[1]) == len(want), f'{len(got[0])} grains reported, {len(want)} present (labelling {s})'):
            return
        w = sorted((round(len(c) * vol * 1e15, 6), -1. if ratio(cen[list(c)], onp.full(len(c), vol)) is None else ratio(cen[list(c)], onp.full(len(c), vol))) for _, c in want)
        g = sorted((round(float(v) * 1e15, 6), float(r)) for v, r in zip(*got))
        R.close([x[0] for x in g], [x[0] for x in w], 1e-6, f'grain volumes of labelling {s}')
        if all(x[1] > 0 for x in w):
            R.close([x[1] for x in g], [x[1] for x in w], 1e-4, f'aspect ratios of labelling {s}')
        R.close(sum(x[0] for x in g), sum(T < 1623.) * vol * 1e15, 1e-6, f'total volume of labelling {s}')
        R.state('C23f', s)
        R.trans()
        R.trace()
    R.sample({'grains': len(want), 'volumes': [x[0] for x in w]})

"""Import of a tessellation: grid, grains, orientations, colours and layers for every small structure."""
import itertools
import os
import re
import numpy as onp
from mc import pfref as P
from mc.pfref import PRELOAD

BOUNDS = {'quick': 'every grid with 1..3 cells per axis (27) x {cubic, stretched} cells, each with a different assignment of grains; every assignment of 3 grains to 4 cells (those using the last grain), '
                   'wrong grain counts; 5 orientation lists (identity, quarter turns, random, 1 and 7 orientations); stacks of 2 and 3 layers; the existing tessellation is kept',
          'thorough': '1..4 cells per axis, every assignment of 3 grains to 5 cells'}
ASSUMPTIONS = ['a tessellation file as written by Neper: regular hexahedra, x fastest; the drawing of the figures is replaced by a stand-in except in two configurations']


def cases(tier):
    m = 3 if tier == 'quick' else 4
    shapes = list(itertools.product(range(1, m + 1), repeat=3))
    out = [{'kind': 'grid', 'shapes': shapes[i::9]} for i in range(9)]
    out += [{'kind': 'grains', 'n': 4 if tier == 'quick' else 5, 'part': p} for p in range(3)]
    out += [{'kind': 'ori', 'k': k, 'plot': k < 2} for k in range(5)]
    out += [{'kind': 'layers', 'N': N, 'n': n} for N, n in (((2, 1, 2), 2), ((1, 3, 1), 3), ((2, 2, 1), 3))]
    return out + [{'kind': 'keep'}]


def write_neper(d, N, dom, grains):
    import meshio
    os.makedirs(os.path.join(d, 'neper'), exist_ok=True)
    m = P.grid_mesh(N, dom)
    g = onp.array(grains) + 1
    meshio.Mesh(m.points, m.cells, cell_data={'gmsh:physical': [g.astype(onp.int32)], 'gmsh:geometrical': [g.astype(onp.int32)]}).write(
        os.path.join(d, 'neper', 'domain.msh'), file_format='gmsh22', binary=False)
    with open(os.path.join(d, 'neper', 'domain.obj'), 'w') as f:
        x, y, z = dom
        for p in itertools.product((0, z), (0, y), (0, x)):
            f.write('v %g %g %g\n' % p[::-1])
        f.write('g cell1\n')
        for q in ('1 2 4 3', '5 6 8 7', '1 2 6 5', '3 4 8 7', '1 3 7 5', '2 4 8 6'):
            f.write(f'f {q}\n')
    return m


def args(d, N, dom, ngrains, noris):
    return dict(P.ARGS, data_dir=d, domain_x=dom[0], domain_y=dom[1], domain_z=dom[2], num_grains=ngrains, num_oris=noris, id=1)


class quiet_plots:
    """figures are not part of the property: replaces drawing by nothing"""
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            import matplotlib.pyplot as plt
            from orix import plot
            from orix.quaternion import Orientation
            self.keep = (Orientation.scatter, plot.IPFColorKeyTSL.plot, plt.savefig)
            Orientation.scatter = lambda *a, **k: None
            plot.IPFColorKeyTSL.plot = lambda *a, **k: None
            plt.savefig = lambda *a, **k: None

    def __exit__(self, *e):
        if self.on:
            import matplotlib.pyplot as plt
            from orix import plot
            from orix.quaternion import Orientation
            Orientation.scatter, plot.IPFColorKeyTSL.plot, plt.savefig = self.keep


def rot(q):
    """rotation matrix of the unit quaternion (w, x, y, z)"""
    w, x, y, z = q / onp.linalg.norm(q)
    return onp.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def check_field(R, F, a, N, dom, grains, m, quats, w, layers=1):
    n = N[0] * N[1] * N[2]
    R.expect((a['Nx'], a['Ny'], a['Nz']) == N, f'{w}: grid size {(a["Nx"], a["Ny"], a["Nz"])} instead of {N}')
    R.close(F.mesh_h_xyz, [d / k for d, k in zip(dom, N)], 1e-9, f'{w}: cell size', scale=max(dom))
    cen = onp.array([[(i + .5) * dom[0] / N[0], (j + .5) * dom[1] / N[1], (k + .5) * dom[2] / N[2]] for k in range(N[2]) for j in range(N[1]) for i in range(N[0])])
    R.close(F.centroids, cen, 1e-9, f'{w}: cell centres', scale=max(dom))
    ori = onp.asarray(F.cell_ori_inds)
    R.expect(ori.shape == (n,) and ori.min() >= 0 and ori.max() < a['num_oris'], f'{w}: orientation numbers {ori}')
    for g in set(grains):
        o = {int(ori[c]) for c in range(n) if grains[c] == g}
        R.expect(len(o) == 1, f'{w}: grain {g} has several orientations {o}')
    R.expect(onp.array_equal(F.mesh.cell_data['grain_inds'][0], grains), f'{w}: grain numbers {F.mesh.cell_data["grain_inds"][0]} instead of {grains}')
    for q in range(a['num_oris']):
        for ax in range(3):
            R.close(F.unique_grain_directions[ax, q], rot(quats[q])[:, ax], 1e-9, f'{w}: crystal axis {ax} of orientation {q}', scale=1.)
    rgb = onp.asarray(F.unique_oris_rgb)
    R.expect(rgb.shape == (3, a['num_oris'], 3) and rgb.min() >= 0 and rgb.max() <= 1, f'{w}: colours')
    return rgb


def corner_colour(v):
    """the pole of the direction: red for <001>, green for <101>, blue for <111>"""
    s = sorted(onp.abs(v / onp.abs(v).max()), reverse=True)
    for p, c in (((1, 0, 0), (1, 0, 0)), ((1, 1, 0), (0, 1, 0)), ((1, 1, 1), (0, 0, 1))):
        if onp.allclose(s, p, atol=1e-6):
            return onp.array(c)
    return None


def run_case(case, R):
    import meshio
    from orix.quaternion import Orientation
    from jax_am.phase_field import utils as U
    kind = case['kind']
    if kind == 'grid':
        for N in case['shapes']:
            N = tuple(N)
            n = N[0] * N[1] * N[2]
            for dom in (tuple(2e-6 * k for k in N), (3e-5, 7e-5, 2e-5), (.2 * N[0], .1 * N[1], .7 * N[2])):
                grains = [(c * 5 // 3 + c) % min(n, 4) for c in range(n)]
                ng = max(grains) + 1
                d = os.path.join(R.tmp(), 'x')
                m = write_neper(d, N, dom, grains)
                a = args(d, N, dom, ng, 3)
                with quiet_plots(True):
                    F = U.Field(a)
                q = onp.load(os.path.join(d, 'numpy', 'pf', 'quat.npy'))
                R.expect(q.shape == (3, 4), 'stored orientations')
                check_field(R, F, a, N, dom, grains, m, q, f'grid {N} of {dom}')
                f = meshio.read(os.path.join(d, 'vtk', 'pf', 'mesh', 'fd_mesh.vtu'))
                R.close(f.points, m.points, 1e-9, 'points of the written grid', scale=max(dom))
                R.expect(onp.array_equal(f.cells_dict['hexahedron'], m.cells_dict['hexahedron']) and onp.array_equal(f.cell_data['grain_inds'][0], grains), 'cells or grains of the written grid')
                R.expect(os.path.exists(os.path.join(d, 'vtk', 'pf', 'mesh', 'poly_mesh.vtu')), 'no file with the grain polyhedra')
                R.state('C24', N, dom)
                R.trans()
                R.trace()
        return
    if kind == 'grains':
        n = case['n']
        N = [1, 1, 1]
        N[case['part']] = n
        N = tuple(N)
        dom = (1e-5, 2e-5, 3e-5)
        d = os.path.join(R.tmp(), 'x')
        for grains in itertools.product(range(3), repeat=n):
            m = write_neper(d, N, dom, grains)
            a = args(d, N, dom, 3, 4)
            ok = max(grains) == 2
            with quiet_plots(True):
                try:
                    F = U.Field(a)
                except AssertionError:
                    F = None
            if not R.expect((F is not None) == ok, f'grains {grains} with 3 grains expected: {"accepted" if F is not None else "refused"}'):
                return
            if ok:
                q = onp.load(os.path.join(d, 'numpy', 'pf', 'quat.npy'))
                check_field(R, F, a, N, dom, list(grains), m, q, f'grains {grains}')
            R.state('C24g', N, grains)
            R.trans()
        R.trace(3**n)
        return
    h = onp.sqrt(.5)
    lists = [[[1, 0, 0, 0], [h, h, 0, 0], [.5, .5, .5, .5]], [[.8, .6, 0, 0]], [[onp.cos(.4 + k), onp.sin(.4 + k) * .6, 0, onp.sin(.4 + k) * .8] for k in range(7)],
             [[h, 0, h, 0], [h, 0, 0, h], [h, 0, 0, -h], [onp.cos(onp.pi / 8), onp.sin(onp.pi / 8), 0, 0]], [[onp.cos(.5), .5 * onp.sin(.5), -.5 * onp.sin(.5), h * onp.sin(.5)], [0, 1, 0, 0]]]
    if kind == 'ori':
        quats = onp.array(lists[case['k']], dtype=float)
        N, dom, grains = (2, 2, 1), (1e-5, 2e-5, 3e-5), [0, 1, 1, 2]
        d = os.path.join(R.tmp(), 'x')
        m = write_neper(d, N, dom, grains)
        a = args(d, N, dom, 3, len(quats))
        with quiet_plots(not case['plot']):
            F = U.Field(a, Orientation(quats))
        rgb = check_field(R, F, a, N, dom, grains, m, quats, f'orientations {case["k"]}')
        R.close(onp.load(os.path.join(d, 'numpy', 'pf', 'quat.npy')), quats, 1e-9, 'stored orientations', scale=1.)
        for o in range(len(quats)):
            for ax in range(3):
                c = corner_colour(rot(quats[o])[ax])      # the specimen direction in the crystal frame
                if c is not None:
                    R.close(rgb[ax, o], c, 2e-2, f'colour of orientation {o} along axis {ax}', scale=1.)
            R.state('C24o', case['k'], o)
            R.trans()
        if case['plot']:
            R.expect(all(os.path.exists(os.path.join(d, 'pdf', 'pf', f'ipf_{s}.pdf')) for s in ('x', 'y', 'z', 'legend')), 'figures are missing')
        R.trace()
        R.sample({'colours': rgb.tolist()})
        return
    if kind == 'layers':
        N, dom = tuple(case['N']), (1e-5, 2e-5, 3e-5)
        n = N[0] * N[1] * N[2]
        quats = onp.array(lists[2], dtype=float)
        grains = [c % 2 for c in range(n)]
        d = os.path.join(R.tmp(), 'x')
        m = write_neper(d, N, dom, grains)
        a = args(d, N, dom, 2, 7)
        with quiet_plots(True):
            F = U.Field(a, Orientation(quats))
            oris = [onp.array(F.cell_ori_inds)]
            for layer in range(1, case['n']):
                before = onp.array(F.cell_ori_inds)
                F = U.generate_new_mesh(a, Orientation(quats), F, layer)
                k = layer + 1
                w = f'{k} layers of {N}'
                pts = onp.concatenate([m.points + [0, 0, dom[2] * l] for l in range(k)])
                cells = onp.concatenate([m.cells_dict['hexahedron'] + len(m.points) * l for l in range(k)])
                R.close(F.mesh.points, pts, 1e-9, f'{w}: points', scale=dom[2])
                R.expect(onp.array_equal(F.mesh.cells_dict['hexahedron'], cells), f'{w}: cells')
                R.close(F.centroids, pts[cells].mean(1), 1e-9, f'{w}: cell centres', scale=dom[2])
                for key, add in (('gmsh:physical', 1), ('gmsh:geometrical', 1), ('grain_inds', 0)):
                    R.expect(onp.array_equal(F.mesh.cell_data[key][0], onp.tile(onp.array(grains) + add, k)), f'{w}: {key}')
                ori = onp.asarray(F.cell_ori_inds)
                R.expect(len(ori) == n * k and onp.array_equal(ori[:n * layer], before), f'{w}: orientations of the layers below changed')
                for g in (0, 1):
                    R.expect(len({int(o) for o, q in zip(ori[n * layer:], grains) if q == g}) == 1, f'{w}: several orientations in one grain of the new layer')
                R.state('C24l', N, k)
                R.trans()
                R.trace()
        return
    from jax_am.phase_field.neper import pre_processing
    d = os.path.join(R.tmp(), 'x')
    write_neper(d, (2, 1, 1), (2., 1., 1.), [0, 1])
    before = {f: open(os.path.join(d, 'neper', f)).read() for f in os.listdir(os.path.join(d, 'neper'))}
    # a stand-in for the external tessellation program that records how it is called
    bin_, log = os.path.join(R.tmp(), 'bin'), os.path.join(R.tmp(), 'calls')
    os.makedirs(bin_, exist_ok=True)
    with open(os.path.join(bin_, 'neper'), 'w') as f:
        f.write(f'#!/bin/sh\n{{ for a in "$@"; do printf "%s\\t" "$(printf %s "$a" | tr "\\n\\t" "  ")"; done; echo; }} >> {log}\n')
    os.chmod(os.path.join(bin_, 'neper'), 0o755)
    keep = os.environ['PATH']
    os.environ['PATH'] = bin_ + ':' + keep
    try:
        pre_processing(args(d, (2, 1, 1), (2., 1., 1.), 2, 1))
        R.expect(not os.path.exists(log), 'an existing tessellation is generated again')
        for ng in (1, 5, 40):
            if os.path.exists(log):
                os.remove(log)
            e = os.path.join(R.tmp(), f'y{ng}')
            pre_processing(args(e, None, (2., 1.5, .25), ng, 1))
            calls = [line.rstrip('\n').split('\t')[:-1] for line in open(log)] if os.path.exists(log) else []
            R.expect(os.path.isdir(os.path.join(e, 'neper')), 'the directory of the tessellation is not created')
            gen = [c for c in calls if '-domain' in c and '-n' in c]
            if R.expect(len(gen) == 1 and any('-M' in c for c in calls), f'tessellation commands {calls}'):
                c = gen[0]
                R.expect(c[c.index('-n') + 1] == str(ng), f'number of grains in {c}')
                R.close([float(x) for x in re.findall(r'[0-9.]+', c[c.index('-domain') + 1])], [2., 1.5, .25], 1e-9, 'domain of the tessellation')
            R.state('C24k', ng)
            R.trans()
    finally:
        os.environ['PATH'] = keep
    R.expect(before == {f: open(os.path.join(d, 'neper', f)).read() for f in os.listdir(os.path.join(d, 'neper'))}, 'the existing tessellation is changed')
    R.trace()

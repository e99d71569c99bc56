"""Thermal simulation of a growing part: every step solves the heat equation on exactly the material deposited so far."""
import contextlib
import io
import itertools
import os
import numpy as onp
from mc import femref as F
from mc import heatref as H
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'the heat model on a plate with 2x2 cells above it: every nonempty pattern of born cells x condition lists {exchange, exchange and laser} x two successive steps with '
                   'growth between them; the wall building driver on a plate with two layers of three cells: every tool path of up to 2 segments over {off, forward, pause at the end, next layer} and '
                   'every path of 3 segments with a dwell in the middle; the single track driver: first 4 steps',
          'thorough': 'every tool path of up to 3 segments; every pair of nested patterns of born cells'}
ASSUMPTIONS = ['the meshes and the tool path files of the drivers are not part of the repository: small ones in the same format stand in for them']
RHO, CP, KAPPA, HC, T0, RB, ETA, P = 8440., 500., 15., 50., 300., 1e-3, .4, 500.
PLATE, RES = 20e-3, .125e-3
SEG = ('off', 'on', 'stay', 'up')


def laser_flux(cx, cy):
    return lambda x: 2 * ETA * P / (onp.pi * RB**2) * onp.exp(-2 * ((x[0] - cx)**2 + (x[1] - cy)**2) / RB**2)


def cases(tier):
    out = []
    for born in itertools.product((0, 1), repeat=4):
        for lists in ('walls', 'both'):
            out.append({'kind': 'model', 'born': born, 'conds': lists, 'all': tier != 'quick'})
    for n in (1, 2, 3):
        for s in itertools.product(SEG, repeat=n):
            if tier == 'quick' and n == 3 and (s[1] != 'off' or s.count('off') != 1):
                continue
            if s.count('up') > 1:
                continue
            out.append({'kind': 'wall', 'path': s})
    out.append({'kind': 'plate', 'steps': 4 if tier == 'quick' else 12})
    return sorted(out, key=lambda c: (c['kind'] != 'plate', -len(c.get('path', ())))) 


def grid(xs, ys, zs, keep=lambda i, j, k: True):
    idx, pts, cells = {}, [], []

    def node(p):
        if p not in idx:
            idx[p] = len(pts)
            pts.append((xs[p[0]], ys[p[1]], zs[p[2]]))
        return idx[p]
    for k, j, i in itertools.product(range(len(zs) - 1), range(len(ys) - 1), range(len(xs) - 1)):
        if keep(i, j, k):
            cells.append([node((i + a, j + b, k + c)) for a, b, c in F.CORNERS['HEX']])
    return onp.array(pts), onp.array(cells)


def run_case(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        {'model': model, 'wall': wall, 'plate': plate}[case['kind']](case, R)


def model(case, R):
    import jax.numpy as jnp
    from jax_am.fem.generate_mesh import Mesh
    from jax_am.fem.solver import solver
    import applications.fem.thermal.models as A
    pts, cells = grid([0., 1e-3, 2.5e-3], [0., 1e-3, 1.8e-3], [0., 1e-3, 1.5e-3])
    pts, cells = pts[::-1].copy(), (len(pts) - 1 - cells)
    full = Mesh(pts, cells)
    upper = list(range(4, 8))
    base = onp.array([True] * 4 + [bool(b) for b in case['born']])
    grown = [base] + [onp.array([True] * 4 + list(g)) for g in itertools.product((False, True), repeat=4)
                      if all(a or not b for a, b in zip(g, base[4:])) and (case['all'] or sum(g) == sum(base[4:]) + 1)]
    c1, c2 = (.4e-3, 1.1e-3), (1.6e-3, .3e-3)
    center = [None]

    def neumann_top(point, old_T):
        d2 = (point[0] - center[0][0])**2 + (point[1] - center[0][1])**2
        return jnp.array([2 * ETA * P / (jnp.pi * RB**2) * jnp.exp(-2 * d2 / RB**2)])

    def neumann_walls(point, old_T):
        return jnp.array([100. * HC * (T0 - old_T[0])])
    fns = [neumann_walls, neumann_top] if case['conds'] == 'both' else [neumann_walls]
    on = case['conds'] == 'both'

    def ref(act, T, dt, c):
        pm = onp.unique(cells[act])
        inv = {int(p): i for i, p in enumerate(pm)}
        cc = onp.array([[inv[int(v)] for v in c_] for c_ in cells[act]])
        out = T.copy()
        out[pm] = H.step(pts[pm], cc, T[pm], dt, RHO, CP, KAPPA, (100. * HC, T0), laser_flux(*c) if on else None)
        return out
    T = 500. + 300. * onp.sin(onp.arange(len(pts)) * 2.3)
    for g in grown:
        act = base
        am, pm, cm = A.get_active_mesh(full, act)
        ext, cf, hm, inner, allf = A.initialize_hash_map(full, act, cm, 'HEX8')
        Tf, Tr = T.copy(), T.copy()

        def problem(dt):
            return A.Thermal(am, vec=1, dim=3, dirichlet_bc_info=[[], [], []], neumann_bc_info=[None, fns],
                             additional_info=(jnp.array(Tf[pm][:, None]), RHO, CP, dt, ext))
        center[0] = c1
        pb = problem(.02)
        for n, c in ((0, c1), (1, c2)):
            center[0] = c
            sol = solver(pb, linear=True)
            pb.update_int_vars(sol)
            Tf[onp.asarray(pm)] = onp.asarray(sol)[:, 0]
            Tr = ref(act, Tr, .02, c)
            if not R.close(Tf, Tr, 1e-6, f'step {n} on {list(map(int, act[4:]))}', scale=1000.):
                return
            R.trans()
        if not onp.array_equal(g, base):
            am, pm, cm = A.get_active_mesh(full, g)
            ext, hm, inner, allf = A.update_hash_map(act, g, cm, cf, hm, inner, allf)
            center[0] = c1
            pb = problem(.05)
            sol = solver(pb, linear=True)
            Tf[onp.asarray(pm)] = onp.asarray(sol)[:, 0]
            if not R.close(Tf, ref(g, Tr, .05, c1), 1e-6, f'step after growth {list(map(int, act[4:]))} -> {list(map(int, g[4:]))}', scale=1000.):
                return
            R.trans()
        R.state('C34m', case['born'], case['conds'], g.tolist())
    R.trace()


def read(path):
    import meshio
    m = meshio.read(path)
    return onp.asarray(m.points), onp.asarray(m.cells_dict['hexahedron']), onp.asarray(m.point_data['sol']).reshape(-1)


def compare(R, path, pts, cells, T, w):
    """file against model: same region, same temperature at every point"""
    if not R.expect(os.path.exists(path), f'{w}: no file {os.path.basename(path)}'):
        return False
    p, c, t = read(path)

    def key(x):
        return tuple(onp.round(onp.asarray(x, float) * 1e7).astype(int).tolist())
    got = {frozenset(key(p[v]) for v in cell) for cell in c}
    want = {frozenset(key(pts[v]) for v in cell) for cell in cells}
    if not R.expect(got == want and len(c) == len(cells), f'{w}: the saved part has {len(c)} cells instead of {len(cells)}, or others'):
        return False
    val = {key(pts[v]): T[v] for cell in cells for v in cell}
    return R.close(t, onp.array([val[key(x)] for x in p]), 1e-6, f'{w}: temperature', scale=float(T.max()))


def wall(case, R):
    import meshio
    import applications.fem.thermal.thin_wall as D
    root = str(R.tmp())
    D.data_dir = root
    os.makedirs(root + '/abaqus')
    os.makedirs(root + '/toolpath')
    xs, ys, zs = [0., 1., 2.2, 3.], [0., .8], [0., 20., 20.9, 21.5]
    pts, cells = grid(xs, ys, zs)
    meshio.Mesh(pts, [('hexahedron', cells)]).write(root + '/abaqus/thinwall.inp')
    t, x, y, z, rows = 0., .4, .4, 1., []
    rows.append((t, x, y, z, 0))
    for s in case['path']:
        if s == 'off':
            t += .4
            rows.append((t, x, y, z, 0))
        else:
            if s == 'on':
                x += .625
            elif s == 'stay':
                x += .125
            else:
                z += .3
                x -= .3
            t += .08
            rows.append((t, x, y, z, 1))
    onp.savetxt(root + '/toolpath/thinwall_toolpath.crs', rows)
    D.ded_thin_wall()
    # the model of the process
    m = meshio.read(root + '/abaqus/thinwall.inp')
    pts, cells = onp.asarray(m.points) / 1e3, onp.asarray(m.cells_dict['hexahedron'])
    cen = pts[cells].mean(1)
    act = cen[:, 2] <= PLATE
    T = onp.full(len(pts), T0)
    rows = onp.loadtxt(root + '/toolpath/thinwall_toolpath.crs')
    rows[:, 1:4] /= 1e3

    def advance(dt, c):
        pm = onp.unique(cells[act])
        inv = onp.zeros(len(pts), int)
        inv[pm] = onp.arange(len(pm))
        T[pm] = H.step(pts[pm], inv[cells[act]], T[pm], dt, RHO, CP, KAPPA, (HC, T0), laser_flux(*c) if c is not None else None)
    for i in range(1, len(rows)):
        a, b = rows[i - 1], rows[i]
        if b[4] == 0:
            n = 2 if i == 1 else 10
            for j in range(n):
                advance((b[0] - a[0]) / n, None)
                R.trans()
                if not compare(R, f'{root}/vtk/thin_wall/u_active_{i:05d}_{j:05d}.vtu', pts, cells[act], T, f'path {case["path"]}, segment {i} (laser off), step {j}'):
                    return
        else:
            n = int(round(onp.linalg.norm(b[1:4] - a[1:4]) / RES))
            for j in range(n):
                c = a[1:3] + (b[1:3] - a[1:3]) * j / n
                act = act | ((cen[:, 2] < b[3] + PLATE) & (((cen[:, :2] - c)**2).sum(1) <= RB**2))
                advance((b[0] - a[0]) / n, c)
                R.trans()
                if j % 10 == 0 and not compare(R, f'{root}/vtk/thin_wall/u_active_{i:05d}_{j:05d}.vtu', pts, cells[act], T,
                                               f'path {case["path"]}, segment {i} (laser on), step {j}'):
                    return
    R.state('C34w', case['path'])
    R.trace()
    R.sample({'path': case['path'], 'highest temperature': float(T.max()), 'born': int(act.sum())})


class Enough(Exception):
    pass


def plate(case, R):
    import jax_am.fem.generate_mesh as G
    import jax_am.fem.solver as S
    own_mesh, own_solver = G.box_mesh, S.solver
    sols = []
    root = str(R.tmp())

    def coarse(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **k):
        return own_mesh(8, 3, 2, Lx, Ly, Lz, root, *a, **k)

    def stepper(problem, *a, **k):
        if len(sols) == case['steps']:
            raise Enough()
        sols.append((onp.asarray(problem.points), onp.asarray(problem.cells), onp.asarray(own_solver(problem, *a, **k))[:, 0]))
        return sols[-1][2][:, None] + 0.
    G.box_mesh, S.solver = coarse, stepper
    try:
        import applications.fem.thermal.bare_plate as D
        D.data_dir = root
        D.bare_plate_single_track()
    except Enough:
        pass
    finally:
        G.box_mesh, S.solver = own_mesh, own_solver
    if not R.expect(len(sols) == case['steps'], f'the driver made {len(sols)} steps'):
        return
    T = onp.full(len(sols[0][0]), T0)
    for i, (pts, cells, got) in enumerate(sols):
        T = H.step(pts, cells, T, 1e-2, RHO, CP, KAPPA, (HC, T0), laser_flux(30e-3 * .2 + .01 * 1e-2 * (i + 1), 3e-3))
        if not R.close(got, T, 1e-5, f'single track, step {i}', scale=T.max()):
            return
        R.trans()
        R.state('C34p', i)
    R.trace()

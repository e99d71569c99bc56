"""Generated box and cylinder meshes are valid, conforming and of the requested size."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'box meshes: element types HEX8, HEX27, TET4, TET10 x every (Nx,Ny,Nz) in {1,2,3}^3 x 2 box sizes; cylinder meshes: '
                   '3 x 3 resolutions x 2 radii x 2 heights x 2 core ratios (all combinations)',
          'thorough': 'box meshes up to {1..5}^3; cylinder meshes 4 x 5 resolutions, 3 radii, 3 heights, 3 ratios'}
WORKERS = 8
CT = {'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'TET4': 'tetra', 'TET10': 'tetra10'}


def cases(tier):
    N = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    out = [{'ele': e, 'nx': a, 'sizes': s, 'N': list(N)} for e in CT for a in N for s in ([1., 1., 1.], [2., .5, 3.])]
    cm, hm = ((2, 3, 5), (1, 2, 4)) if tier == 'quick' else ((2, 3, 4, 6), (1, 2, 3, 5, 20))
    rs, hs, rr = ((5, 1.25), (10, .5), (.4, .55)) if tier == 'quick' else ((5, 1.25, 3), (10, .5, 2), (.3, .4, .6))
    for c, h, r in itertools.product(cm, hm, rs):
        out.append({'cyl': [c, h], 'R': r, 'H': list(hs), 'ratio': list(rr)})
    return out


def check_mesh(R, ele, pts, cells, what, on_boundary, volume, voltol=1e-9):
    n = len(pts)
    R.expect(onp.all(onp.isfinite(pts)) and pts.shape[1] == 3, f'{what}: points')
    if not R.expect(cells.min() >= 0 and cells.max() < n, f'{what}: cell refers to a point that does not exist'):
        return
    used = onp.zeros(n, bool)
    used[cells.reshape(-1)] = True
    R.expect(used.all(), f'{what}: points without a cell', count=int((~used).sum()))
    key = {}
    for i, p in enumerate(onp.round(pts, 6)):
        k = tuple(p + 0.)
        R.expect(k not in key, f'{what}: two points at {k}') if k in key else None
        key[k] = i
    vol = 0.
    P, W = F.gauss(F.BASE[ele], 3)
    v, g = F.shape(ele, P)
    for c in cells:
        J = onp.linalg.det(onp.einsum('ni,qnk->qik', pts[c], g))
        if not R.expect(onp.all(J > 0), f'{what}: cell with a non positive Jacobian', cell=c.tolist()):
            return
        vol += float(W @ J)
    R.close(vol, volume, voltol, f'{what}: volume of the cells')
    faces = {}
    for c, f in F.boundary_faces(ele, cells):
        faces.setdefault(f, []).append(c)
    for f, cs in faces.items():
        if len(cs) == 1:
            R.expect(on_boundary(pts[sorted(f)]), f'{what}: a face inside the body belongs to one cell only', face=sorted(f))
        else:
            R.expect(len(cs) == 2, f'{what}: face shared by {len(cs)} cells', face=sorted(f))


def run_case(case, R):
    from jax_am.fem.generate_mesh import box_mesh, cylinder_mesh
    d = R.tmp()
    if 'cyl' in case:
        for H, rr in itertools.product(case['H'], case['ratio']):
            c, h = case['cyl']
            Rd = case['R']
            m = cylinder_mesh(d, R=Rd, H=H, circle_mesh=c, hight_mesh=h, rect_ratio=rr)
            pts, cells = m.points, m.cells_dict['hexahedron']
            what = f'cylinder R={Rd} H={H} circle_mesh={c} hight_mesh={h} rect_ratio={rr}'
            k = c - 1
            ang = onp.pi / (2 * k)
            vol = 4 * k * .5 * Rd**2 * onp.sin(ang) * H      # inscribed polygon prism

            def onb(q):
                r = onp.linalg.norm(q[:, :2], axis=1)
                return onp.allclose(q[:, 2], 0, atol=1e-6) or onp.allclose(q[:, 2], H, atol=1e-6 * max(1, H)) or onp.allclose(r, Rd, rtol=1e-5)
            R.expect(len(cells) == 5 * k * k * h, f'{what}: number of cells', got=len(cells), want=5 * k * k * h)
            check_mesh(R, 'HEX8', pts, cells, what, onb, vol, 1e-6)
            R.state('C12c', what)
            R.trans()
            R.trace()
        R.sample({'what': what, 'points': len(pts)})
        return
    ele = case['ele']
    L = onp.array(case['sizes'])
    for ny, nz in itertools.product(case['N'], repeat=2):
        N = (case['nx'], ny, nz)
        m = box_mesh(*N, *L, d, ele_type=ele)
        what = f'box {ele} {N} {L.tolist()}'
        pts, cells = m.points, m.cells_dict[CT[ele]]

        def onb(q):
            return any(onp.allclose(q[:, k], v, atol=1e-7) for k in range(3) for v in (0., L[k]))
        check_mesh(R, ele, pts, cells, what, onb, float(onp.prod(L)))
        R.close(pts.min(0), onp.zeros(3), 1e-9, f'{what}: origin', scale=1.)
        R.close(pts.max(0), L, 1e-9, f'{what}: extent', scale=1.)
        p = F.ORDER[ele]
        cor = onp.unique(cells[:, :len(F.CORNERS[F.BASE[ele]])])
        grid = {tuple(onp.round(onp.array(t) / N * L, 6)) for t in itertools.product(*[range(k + 1) for k in N])}
        R.expect({tuple(q + 0.) for q in onp.round(pts[cor], 6)} == grid, f'{what}: corner points are not the requested grid')
        if F.BASE[ele] == 'HEX':
            R.expect(len(cells) == N[0] * N[1] * N[2], f'{what}: number of cells', got=len(cells))
            R.expect(len(pts) == onp.prod([p * k + 1 for k in N]), f'{what}: number of points', got=len(pts))
        R.state('C12', what)
        R.trans()
        R.trace()
    R.sample({'what': what, 'points': len(pts), 'cells': len(cells)})

"""Independent model of the multi order parameter Allen-Cahn grain model on a regular grid (x fastest)."""
import itertools
import math
import types
import numpy as onp

PRELOAD = ['jax', 'jax.numpy', 'numpy', 'scipy', 'scipy.spatial.transform', 'meshio', 'pyfiglet', 'yaml', 'orix', 'orix.plot', 'orix.quaternion', 'sklearn.decomposition',
           'matplotlib.pyplot', 'matplotlib.animation', 'pandas']
ARGS = dict(dim=3, T_liquidus=1623., T_ambient=300., gas_const=8.3, Qg=1.4e5, L0=3.5e3, kappa_g=2.77e-6, m_g=2.4e5, anisotropy=0., ad_hoc=1., write_sol_interval=1,
            check_sol_interval=1, dt=2e-7)


def cellid(N, i, j, k):
    return (k * N[1] + j) * N[0] + i


def neighbours(N, i, j, k):
    """(axis, side) -> cell id, only inside the grid"""
    out = {}
    for a, c in enumerate((i, j, k)):
        for s in (-1, 1):
            o = [i, j, k]
            o[a] += s
            if 0 <= o[a] < N[a]:
                out[a, s] = cellid(N, *o)
    return out


def grid_mesh(N, dom):
    import meshio
    pts = onp.array([[i * dom[0] / N[0], j * dom[1] / N[1], k * dom[2] / N[2]] for k in range(N[2] + 1) for j in range(N[1] + 1) for i in range(N[0] + 1)])
    p = lambda i, j, k: (k * (N[1] + 1) + j) * (N[0] + 1) + i   # noqa
    cells = onp.array([[p(i, j, k), p(i + 1, j, k), p(i + 1, j + 1, k), p(i, j + 1, k), p(i, j, k + 1), p(i + 1, j, k + 1), p(i + 1, j + 1, k + 1), p(i, j + 1, k + 1)]
                       for k in range(N[2]) for j in range(N[1]) for i in range(N[0])])
    return meshio.Mesh(pts, {'hexahedron': cells})


def crystal(N, dom, noris, ori_inds=None):
    """what the solver needs of a polycrystal: sizes, orientations, colours"""
    from scipy.spatial.transform import Rotation
    n = N[0] * N[1] * N[2]
    r = Rotation.from_euler('zyx', [[.3 + .9 * o, .2 - .5 * o, .4 * o] for o in range(noris)])
    dirs = onp.stack([r.apply(e) for e in onp.eye(3)])
    mesh = grid_mesh(N, dom)
    rgb = onp.array([[[.1 + .2 * c + .05 * o + .01 * a for c in range(3)] for o in range(noris)] for a in range(3)])
    return types.SimpleNamespace(mesh_h_xyz=tuple(d / m for d, m in zip(dom, N)), unique_grain_directions=dirs, unique_oris_rgb=rgb, mesh=mesh,
                                 centroids=onp.mean(mesh.points[mesh.cells_dict['hexahedron']], axis=1),
                                 cell_ori_inds=onp.zeros(n, int) if ori_inds is None else onp.array(ori_inds))


def rate(eta, T, a, N, h, dirs):
    """d eta / dt, loops over cells and orientations"""
    n, m = eta.shape
    out = onp.zeros_like(eta)
    for k, j, i in itertools.product(range(N[2]), range(N[1]), range(N[0])):
        c = cellid(N, i, j, k)
        t = min(T[c], 2000.)
        liquid = 1. if t > a['T_liquidus'] else 0.        # 1 - zeta
        mob = a['L0'] * math.exp(-a['Qg'] / (a['gas_const'] * t))
        nb = neighbours(N, i, j, k)
        s2 = float(onp.sum(eta[c]**2))
        for o in range(m):
            e = eta[c, o]
            drive = a['m_g'] / a['ad_hoc'] * (e**3 - e + 4 * e * (s2 - e * e) + 2 * liquid**2 * e)
            lap = sum((eta[q, o] - e) / h[ax]**2 for (ax, s), q in nb.items())
            lap *= a['kappa_g'] * a['ad_hoc']
            if a['anisotropy'] > 0:
                g = onp.array([eta[nb.get((ax, 1), c), o] - eta[nb.get((ax, -1), c), o] for ax in range(3)])
                if onp.any(g):
                    cosang = max(abs(float(onp.dot(dirs[q, o], g))) / float(onp.linalg.norm(g)) for q in range(3))
                    ang = math.acos(min(1., cosang))
                else:
                    ang = 0.
                lap *= 1 + a['anisotropy'] * (math.cos(ang)**4 + math.sin(ang)**4)
            out[c, o] = -mob * (drive - lap)
    return out

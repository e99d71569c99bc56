"""numpy model of one implicit heat step on a part made of box shaped hexahedra"""
import numpy as onp
from mc import femref as F


def assemble(pts, cells):
    """consistent mass and stiffness (unit coefficients), 2 point Gauss rule per direction"""
    n = len(pts)
    M, K = onp.zeros((n, n)), onp.zeros((n, n))
    P, W = F.gauss('HEX', 2)
    v, g = F.shape('HEX8', P)
    for c in cells:
        X = pts[c]
        J = onp.einsum('ni,qnk->qik', X, g)
        w = W * onp.linalg.det(J)
        G = onp.einsum('qnk,qki->qni', g, onp.linalg.inv(J))
        M[onp.ix_(c, c)] += onp.einsum('q,qa,qb->ab', w, v, v)
        K[onp.ix_(c, c)] += onp.einsum('q,qai,qbi->ab', w, G, G)
    return M, K


def exposed(cells):
    """corner node lists (cyclic order) of the faces of exactly one cell"""
    seen = {}
    for c in cells:
        for f in F.FACES['HEX']:
            nodes = [int(c[i]) for i in f]
            seen.setdefault(frozenset(nodes), []).append(nodes)
    return [v[0] for v in seen.values() if len(v) == 1]


def surface_load(pts, face, flux):
    """integral of flux(point, shape values) * shape values over one plane face"""
    P, W = F.gauss('QUAD', 2)
    s, t = P[:, 0], P[:, 1]
    N = onp.stack([(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t], 1)
    X = pts[face]
    ds = (X[1] - X[0])[None] * (1 - t)[:, None] + (X[2] - X[3])[None] * t[:, None]
    dt = (X[3] - X[0])[None] * (1 - s)[:, None] + (X[2] - X[1])[None] * s[:, None]
    w = W * onp.linalg.norm(onp.cross(ds, dt), axis=1)
    return onp.array([w[q] * flux(N[q] @ X, N[q]) for q in range(len(w))]) @ N


def top_face(pts, face):
    z = pts[face][:, 2]
    return onp.allclose(z, z[0], atol=1e-5) and z[0] > 0.


def step(pts, cells, T, dt, rho, Cp, k, conv=None, laser=None):
    """T: nodal temperature (n,); conv = (h, T0) on every exposed face, laser(point) on the horizontal exposed faces above z = 0"""
    M, K = assemble(pts, cells)
    A = rho * Cp / dt * M + k * K
    b = rho * Cp / dt * M @ T
    for f in exposed(cells):
        if conv is not None:
            b[f] += surface_load(pts, f, lambda x, N: conv[0] * (conv[1] - N @ T[f]))
        if laser is not None and top_face(pts, f):
            b[f] += surface_load(pts, f, lambda x, N: laser(x))
    return onp.linalg.solve(A, b)

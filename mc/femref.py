"""Independent (numpy only) model of the nine element types: nodes in the VTK/Abaqus/meshio order,
polynomial spaces, faces, exact integration, structured meshes with every local renumbering."""
import itertools
import numpy as onp

ELE = ['HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10', 'QUAD4', 'QUAD8', 'TRI3', 'TRI6']
DIM = {'HEX8': 3, 'HEX20': 3, 'HEX27': 3, 'TET4': 3, 'TET10': 3, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 2, 'TRI6': 2}
BASE = {'HEX8': 'HEX', 'HEX20': 'HEX', 'HEX27': 'HEX', 'TET4': 'TET', 'TET10': 'TET',
        'QUAD4': 'QUAD', 'QUAD8': 'QUAD', 'TRI3': 'TRI', 'TRI6': 'TRI'}
# degree up to which the documented quadrature of each type integrates polynomials exactly (affine cells)
EXACT = {'HEX8': 3, 'HEX20': 3, 'HEX27': 6, 'TET4': 1, 'TET10': 2, 'QUAD4': 3, 'QUAD8': 3, 'TRI3': 1, 'TRI6': 2}
FEXACT = {'HEX8': 3, 'HEX20': 3, 'HEX27': 6, 'TET4': 1, 'TET10': 2, 'QUAD4': 3, 'QUAD8': 3, 'TRI3': 1, 'TRI6': 3}
ORDER = {'HEX8': 1, 'HEX20': 2, 'HEX27': 2, 'TET4': 1, 'TET10': 2, 'QUAD4': 1, 'QUAD8': 2, 'TRI3': 1, 'TRI6': 2}

CORNERS = {
    'HEX': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    'TET': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    'QUAD': [(0, 0), (1, 0), (1, 1), (0, 1)],
    'TRI': [(0, 0), (1, 0), (0, 1)],
}
# higher order nodes: averages of these corner subsets, in VTK order
EXTRA = {
    'HEX8': [], 'TET4': [], 'QUAD4': [], 'TRI3': [],
    'HEX20': [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
    'TET10': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    'QUAD8': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'TRI6': [(0, 1), (1, 2), (2, 0)],
}
# VTK triquadratic hexahedron: 8 corners, 12 edges, faces (-x, +x, -y, +y, -z, +z), centre
EXTRA['HEX27'] = EXTRA['HEX20'] + [(0, 3, 7, 4), (1, 2, 6, 5), (0, 1, 5, 4), (3, 2, 6, 7), (0, 1, 2, 3),
                                   (4, 5, 6, 7), tuple(range(8))]
FACES = {
    'HEX': [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    'TET': [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    'QUAD': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'TRI': [(0, 1), (1, 2), (2, 0)],
}


def nodes(ele):
    c = onp.array(CORNERS[BASE[ele]], float)
    return onp.vstack([c] + [c[list(e)].mean(0)[None] for e in EXTRA[ele]])


def space(ele):
    """exponents of the monomials spanning the element's polynomial space"""
    d, p = DIM[ele], ORDER[ele]
    full = list(itertools.product(range(3), repeat=d))
    if BASE[ele] in ('TET', 'TRI'):
        return [e for e in full if sum(e) <= p]
    if ele in ('HEX8', 'QUAD4'):
        return [e for e in full if max(e) <= 1]
    if ele == 'HEX27':
        return full
    # serendipity of degree 2: superlinear degree <= 2
    return [e for e in full if sum(k for k in e if k > 1) <= 2]


def mono(x, e):
    x = onp.asarray(x)
    r = onp.ones(x.shape[:-1])
    for k in range(len(e)):
        if e[k]:
            r = r * x[..., k]**e[k]
    return r


def dmono(x, e, k):
    if e[k] == 0:
        return onp.zeros(onp.asarray(x).shape[:-1])
    f = list(e)
    f[k] -= 1
    return e[k] * mono(x, f)


_V = {}


def shape(ele, xi):
    """values (..., n) and gradients (..., n, dim) of the nodal basis at reference points xi"""
    if ele not in _V:
        S, N = space(ele), nodes(ele)
        _V[ele] = onp.linalg.inv(onp.stack([mono(N, e) for e in S], 1))  # (n_mono, n_node)
    S, C = space(ele), _V[ele]
    v = onp.stack([mono(xi, e) for e in S], -1) @ C
    g = onp.stack([onp.stack([dmono(xi, e, k) for e in S], -1) @ C for k in range(DIM[ele])], -1)
    return v, g


def gauss(base, n=6):
    """high order rule on the reference cell"""
    x, w = onp.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    d = {'HEX': 3, 'TET': 3, 'QUAD': 2, 'TRI': 2, 'LINE': 1}[base]
    P = onp.array(list(itertools.product(x, repeat=d)))
    W = onp.array([onp.prod(c) for c in itertools.product(w, repeat=d)])
    if base == 'TRI':
        u, v = P[:, 0], P[:, 1]
        return onp.stack([u, v * (1 - u)], 1), W * (1 - u)
    if base == 'TET':
        u, v, t = P[:, 0], P[:, 1], P[:, 2]
        return onp.stack([u, v * (1 - u), t * (1 - u) * (1 - v)], 1), W * (1 - u)**2 * (1 - v)
    return P, W


def cell_integral(ele, X, f):
    """integral over the isoparametric cell with nodes X of f(points (q, dim)) -> (q, ...)"""
    P, W = gauss(BASE[ele])
    v, g = shape(ele, P)
    J = onp.einsum('ni,qnk->qik', X, g)
    w = W * onp.linalg.det(J)
    return onp.tensordot(w, f(v @ X), axes=(0, 0))


def face_integral(corners, f):
    """integral over the planar (bilinear or linear) face with the given ordered corner points"""
    c = onp.asarray(corners, float)
    if len(c) == 2:
        P, W = gauss('LINE')
        t = P[:, :1]
        pts = c[0] * (1 - t) + c[1] * t
        return onp.tensordot(W * onp.linalg.norm(c[1] - c[0]), f(pts), axes=(0, 0))
    if len(c) == 3:
        P, W = gauss('TRI')
        pts = c[0] + P[:, :1] * (c[1] - c[0]) + P[:, 1:] * (c[2] - c[0])
        return onp.tensordot(W * onp.linalg.norm(onp.cross(c[1] - c[0], c[2] - c[0])), f(pts), axes=(0, 0))
    P, W = gauss('QUAD')
    s, t = P[:, :1], P[:, 1:]
    pts = c[0] * (1 - s) * (1 - t) + c[1] * s * (1 - t) + c[2] * s * t + c[3] * (1 - s) * t
    ds = (c[1] - c[0]) * (1 - t) + (c[2] - c[3]) * t
    dt = (c[3] - c[0]) * (1 - s) + (c[2] - c[1]) * s
    return onp.tensordot(W * onp.linalg.norm(onp.cross(ds, dt), axis=1), f(pts), axes=(0, 0))


# ---------------------------------------------------------------------------- symmetries

def rotations(ele):
    """all orientation preserving renumberings of the nodes of one cell (as index lists)"""
    base = BASE[ele]
    C = onp.array(CORNERS[base], float)
    n = len(C)
    perms = []
    if base in ('TET', 'TRI'):
        for p in itertools.permutations(range(n)):
            M = onp.array([C[p[i]] - C[p[0]] for i in range(1, n)])
            if onp.linalg.det(M) > 0:
                perms.append(p)
    else:
        d = C.shape[1]
        for ax in itertools.permutations(range(d)):
            for fl in itertools.product((0, 1), repeat=d):
                A = onp.zeros((d, d))
                for i in range(d):
                    A[i, ax[i]] = -1 if fl[i] else 1
                if onp.linalg.det(A) < 0:
                    continue
                Y = (C - .5) @ A.T + .5
                p = [int(onp.argmin(onp.sum((C - y)**2, 1))) for y in Y]
                perms.append(tuple(p))
    perms = sorted(set(perms))
    out = []
    ex = EXTRA[ele]
    key = {frozenset(e): n + i for i, e in enumerate(ex)}
    for p in perms:
        q = list(p) + [key[frozenset(p[k] for k in e)] for e in ex]
        out.append(q)
    return out


# ---------------------------------------------------------------------------- meshes

def corner_mesh(base, n):
    """structured mesh of the box with n[k] unit intervals per axis -> points, cells (corners only)"""
    n = list(n)
    d = len(n)
    idx = {}
    pts = []
    for p in itertools.product(*[range(k + 1) for k in n]):
        idx[p] = len(pts)
        pts.append(p)
    cells = []
    for o in itertools.product(*[range(k) for k in n]):
        def at(*v):
            return idx[tuple(o[k] + v[k] for k in range(d))]
        if base in ('HEX', 'QUAD'):
            cells.append([at(*v) for v in CORNERS[base]])
        elif base == 'TRI':
            a, b, c, e = at(0, 0), at(1, 0), at(1, 1), at(0, 1)
            cells += [[a, b, c], [a, c, e]]
        else:
            for perm in itertools.permutations(range(3)):
                v = [0, 0, 0]
                path = [tuple(v)]
                for k in perm:
                    v[k] = 1
                    path.append(tuple(v))
                q = [at(*w) for w in path]
                P = onp.array(path, float)
                if onp.linalg.det(P[1:] - P[0]) < 0:
                    q[2], q[3] = q[3], q[2]
                cells.append(q)
    return onp.array(pts, float), onp.array(cells)


def promote(ele, pts, cells):
    """add the edge/face/centre nodes of a higher order type"""
    ex = EXTRA[ele]
    if not ex:
        return pts, cells
    pts = [onp.array(p, float) for p in pts]
    key, out = {}, []
    for c in cells:
        row = list(c)
        for e in ex:
            k = frozenset(int(c[i]) for i in e)
            if k not in key:
                key[k] = len(pts)
                pts.append(onp.mean([pts[c[i]] for i in e], axis=0))
            row.append(key[k])
        out.append(row)
    return onp.array(pts), onp.array(out)


AFFINE3 = onp.array([[1.3, .2, .1], [.15, .9, -.2], [-.1, .3, 1.1]])
AFFINE2 = onp.array([[1.3, .2], [.15, .9]])


def mesh(ele, n, kind='box', relabel=0, rot=0):
    """kind: 'box' scaled box; 'affine' sheared; 'bend' non affine but with planar faces (taper in x over z)
    relabel: 0 identity, 1 reversed global node numbering and cell order, 2 strided
    rot: index of the local renumbering applied to cell c is (rot + c) mod #rotations when rot>=0"""
    base, d = BASE[ele], DIM[ele]
    pts, cells = corner_mesh(base, n)
    pts = pts / onp.array(n, float)
    if kind == 'box':
        pts = pts * onp.array([1.5, .8, 1.2][:d]) + onp.array([.3, -.4, .2][:d])
    elif kind == 'affine':
        pts = pts @ (AFFINE3 if d == 3 else AFFINE2).T + .25
    elif kind == 'bend':
        pts = pts.copy()
        pts[:, 0] = pts[:, 0] * (1 + .4 * pts[:, -1]) + .1
    pts, cells = promote(ele, pts, cells)
    R = rotations(ele)
    cells = onp.array([cells[c][R[(rot + c) % len(R)] if rot else R_id(R)] for c in range(len(cells))])
    N = len(pts)
    if relabel:
        perm = onp.arange(N)[::-1] if relabel == 1 else onp.array(sorted(range(N), key=lambda i: ((i * 7) % 5, i)))
        inv = onp.empty(N, int)
        inv[perm] = onp.arange(N)
        pts = pts[perm]
        cells = inv[cells][::-1].copy()
    return onp.ascontiguousarray(pts), onp.ascontiguousarray(cells)


def R_id(R):
    return list(range(len(R[0])))


def boundary_faces(ele, cells):
    """all (cell, frozenset of corner node ids) faces of the mesh"""
    F = FACES[BASE[ele]]
    return [(c, frozenset(int(cells[c][i]) for i in f)) for c in range(len(cells)) for f in F]

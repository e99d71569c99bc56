"""Nodal fields evaluated inside cells and on loaded surfaces, and their gradients."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'nine element types x sheared and boxed meshes x three node numberings x 1 to 3 components x every list of up to two loaded sides (any order, repeated sides included) and lists of three, all and more than all sides, '
                   'fields spanning the polynomial space of the element; every local renumbering of the nodes of one cell; sign of the volume of a tetrahedron for all 24 node orders',
          'thorough': 'larger meshes, lists of up to three sides'}


def cases(tier):
    out = []
    for ele in F.ELE:
        for kind, rel in itertools.product(('box', 'affine'), (0, 1, 2)):
            for vec in (1, 2, 3):
                out.append({'kind': 'field', 'ele': ele, 'mesh': kind, 'relabel': rel, 'vec': vec, 'deep': tier != 'quick'})
        out.append({'kind': 'rot', 'ele': ele})
    out.append({'kind': 'tet'})
    return out


def poly(ele, j):
    """one polynomial of the element's space per component: all monomials, different weights"""
    S = F.space(ele)
    w = onp.sin(onp.arange(1, len(S) + 1) * 1.7 + 2.1 * j) + .2

    def val(x):
        return sum(a * F.mono(x, e) for a, e in zip(w, S))

    def grad(x):
        return onp.stack([sum(a * F.dmono(x, e, k) for a, e in zip(w, S)) for k in range(F.DIM[ele])], -1)
    return val, grad


def field(R, ele, pts, cells, vec, sides, aff, w):
    """aff: cells are parallelepipeds aligned with the axes (tensor spaces are invariant only then)"""
    import jax.numpy as jnp
    fns = [lambda x, *a: jnp.ones(vec) for _ in sides]
    loc = [side_at(pts, s, aff) for s in sides]
    fe = make_plain(pts, cells, ele, vec, **({'neumann_bc_info': [loc, fns]} if sides else {}))
    pol = [poly(ele if aff or F.BASE[ele] in ('TET', 'TRI') else {'HEX': 'TET4', 'QUAD': 'TRI3'}[F.BASE[ele]] if F.ORDER[ele] == 1 else
                {'HEX': 'TET10', 'QUAD': 'TRI6'}[F.BASE[ele]], j) for j in range(vec)]
    u = onp.stack([p[0](pts) for p in pol], 1)
    ju = jnp.array(u)
    X = onp.asarray(fe.get_physical_quad_points())
    sc = 1. + abs(u).max()
    ok = R.close(fe.convert_from_dof_to_quad(ju), onp.stack([p[0](X) for p in pol], -1), 1e-9, f'{w}: values at the quadrature points', scale=sc)
    ok &= R.close(fe.sol_to_grad(ju), onp.stack([p[1](X) for p in pol], -2), 1e-8, f'{w}: gradients at the quadrature points', scale=sc)
    for i, s in enumerate(sides):
        b = onp.asarray(fe.neumann_boundary_inds_list[i])
        Y = onp.asarray(fe.get_physical_surface_quad_points(b))
        ok &= R.expect(Y.size and onp.all(on_side(pts, s, aff, Y)), f'{w}: surface points of condition {i} are not on its side')
        ok &= R.close(fe.convert_neumann_from_dof(ju, i), onp.stack([p[0](Y) for p in pol], -1), 1e-9, f'{w}: values on the surface of condition {i}', scale=sc)
        R.trans()
    R.state('C32', ele, vec, sides, w)
    R.trans()
    return ok


def back(pts, aff, Y):
    if aff:
        return Y
    d = Y.shape[-1]
    return (Y - .25) @ onp.linalg.inv(F.AFFINE3 if d == 3 else F.AFFINE2).T


def on_side(pts, s, aff, Y):
    B, Z = back(pts, aff, pts), back(pts, aff, Y)
    v = (B[:, s[0]].min(), B[:, s[0]].max())[s[1]]
    return abs(Z[..., s[0]] - v) < 1e-8


def side_at(pts, s, aff):
    import jax.numpy as jnp
    d = pts.shape[1]
    A = onp.eye(d) if aff else onp.linalg.inv(F.AFFINE3 if d == 3 else F.AFFINE2)
    o = 0. if aff else .25
    B = back(pts, aff, pts)
    v = (B[:, s[0]].min(), B[:, s[0]].max())[s[1]]
    return lambda x: jnp.isclose(jnp.array(A[s[0]]) @ (x - o), v, atol=1e-6)


def run_case(case, R):
    ele = case.get('ele')
    if case['kind'] == 'field':
        d = F.DIM[ele]
        n = [2] + [1] * (d - 1) if not case['deep'] else [2] * (d - 1) + [1]
        aff = case['mesh'] == 'box'
        pts, cells = F.mesh(ele, n, case['mesh'], case['relabel'], 1 if case['relabel'] else 0)
        S = [(k, e) for k in range(d) for e in (0, 1)]
        lists = [[]] + [[s] for s in S] + [list(p) for p in itertools.product(S, repeat=2)]
        if case['deep']:
            lists += [list(p) for p in itertools.product(S[:4], repeat=3)]
        elif not (case['vec'] == 2 and case['relabel'] == 2):
            lists = lists[:1 + len(S)] + [S[:3], S[::-1]]
        else:
            lists += [list(p) for p in itertools.permutations(S, 3)][::7] + [S + S[:1]]
        for sides in lists:
            if not field(R, ele, pts, cells, case['vec'], sides, aff, f'mesh {case["mesh"]} {case["relabel"]} sides {sides}'):
                return
        R.trace()
    elif case['kind'] == 'rot':
        d = F.DIM[ele]
        for k, p in enumerate(F.rotations(ele)):
            pts, cells = F.mesh(ele, [1] * d, 'box', 0, 0)
            cells = cells[:1][:, p]
            pts2 = pts[onp.unique(cells)]
            inv = onp.zeros(len(pts), int)
            inv[onp.unique(cells)] = onp.arange(len(pts2))
            if not field(R, ele, pts2, inv[cells], 2, [], True, f'local numbering {p}'):
                return
        R.trace()
    else:
        from jax_am.fem.generate_mesh import check_mesh_TET4
        P = onp.array([[0., 0, 0], [1.3, .1, 0], [.2, .9, .1], [.1, .3, 1.2], [1.1, 1.2, .9]])
        rows = list(itertools.permutations(range(5), 4))
        det = [onp.linalg.det(P[list(r)][1:] - P[r[0]]) for r in rows]
        R.close(check_mesh_TET4(P, onp.array(rows)), det, 1e-10, 'quality of a tetrahedron')
        for r in rows:
            R.state('C32t', r)
            R.close(onp.asarray(check_mesh_TET4(P, onp.array([r]))), [onp.linalg.det(P[list(r)][1:] - P[r[0]])], 1e-10, f'quality of tetrahedron {r}')
        R.trace()

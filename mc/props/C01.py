"""Element tabulations: volume and surface quadrature, interpolation and gradients are exact."""
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD, make_plain

BOUNDS = {
    'quick': 'all 9 element types x {1 cell, 2..3 cells/axis} x {box, sheared, tapered geometry} x 3 global '
             'renumberings x every orientation preserving local renumbering (24/12/4/3); every monomial up to the '
             'degree the element type integrates exactly, every boundary plane, every monomial of the polynomial space',
    'thorough': 'as quick with the full product of geometry x global renumbering x local renumbering on 1- and multi-cell meshes'}
ASSUMPTIONS = ['quadrature of the element type is exact up to the degree of the documented rule on affine cells']


def cases(tier):
    out = []
    for ele in F.ELE:
        d = F.DIM[ele]
        nrot = len(F.rotations(ele))
        big = ele in ('HEX20', 'HEX27')
        multi = [1] * (d - 1) + [2] if big else [2, 1, 2][:d] if d == 3 else [2, 2]
        grids = [[1] * d, multi]
        if tier == 'thorough':
            grids.append([3] + [2] * (d - 1) if not big else [2] * d)
        for g in grids:
            for kind in ('box', 'affine', 'bend'):
                if kind == 'bend' and F.BASE[ele] in ('TET', 'TRI') and F.ORDER[ele] == 2 and g == [1] * d:
                    pass
                for rl in (0, 1, 2):
                    rots = range(nrot) if (tier == 'thorough' or (rl == 0 and kind != 'box')) else (0, 1)
                    out.append({'ele': ele, 'n': g, 'kind': kind, 'relabel': rl, 'rots': list(rots)})
    return out


def run_case(case, R):
    for rot in case['rots']:
        one(case, rot, R)


def one(case, rot, R):
    import jax.numpy as jnp
    ele, d = case['ele'], F.DIM[case['ele']]
    pts, cells = F.mesh(ele, case['n'], case['kind'], case['relabel'], rot)
    fe = make_plain(pts, cells, ele, vec=2)
    R.state('C01', ele, tuple(case['n']), case['kind'], case['relabel'], rot)
    R.trans()
    affine = case['kind'] != 'bend' or F.BASE[ele] in ('TET', 'TRI')
    p = F.EXACT[ele] if affine else (1 if d == 3 else 2)
    if F.EXACT[ele] < p:
        p = F.EXACT[ele]
    exps = [e for e in __import__('itertools').product(range(p + 1), repeat=d) if sum(e) <= p]
    Q = onp.array(fe.get_physical_quad_points())
    W = onp.array(fe.JxW)
    R.expect(onp.all(W > 0), 'integration weight of a valid cell is not positive', rot=rot)
    Xs = pts[cells]
    for c in range(len(cells)):
        want = F.cell_integral(ele, Xs[c], lambda x: onp.stack([F.mono(x, e) for e in exps], -1))
        got = onp.array([onp.sum(W[c] * F.mono(Q[c], e)) for e in exps])
        R.close(got, want, 1e-10, f'cell integral of monomials wrong in cell {c}', scale=max(1e-3, onp.max(onp.abs(want))), rot=rot)
        R.trace(len(exps))
    # interpolation and gradient of every polynomial of the (physical) space the element reproduces
    lin = [e for e in F.space(ele) if sum(e) <= 1]
    sp = F.space(ele) if case['kind'] == 'box' else [e for e in F.space(ele) if sum(e) <= F.ORDER[ele]] if affine else lin
    if F.BASE[ele] in ('HEX', 'QUAD') and F.ORDER[ele] == 1 and case['kind'] != 'box':
        sp = lin
    Sh = onp.array(fe.shape_vals)
    R.close(Sh.sum(1), onp.ones(len(Sh)), 1e-12, 'shape functions are not a partition of unity')
    for i, e in enumerate(sp):
        e2 = sp[(i + 1) % len(sp)]
        nod = onp.stack([F.mono(pts, e), F.mono(pts, e2)], 1)
        val = onp.array(fe.convert_from_dof_to_quad(jnp.array(nod)))
        R.close(val, onp.stack([F.mono(Q, e), F.mono(Q, e2)], -1), 1e-10, f'interpolation of monomial {e} wrong', scale=1., rot=rot)
        gr = onp.array(fe.sol_to_grad(jnp.array(nod)))
        want = onp.stack([onp.stack([F.dmono(Q, ee, k) for k in range(d)], -1) for ee in (e, e2)], -2)
        R.close(gr, want, 1e-9, f'gradient of monomial {e} wrong', scale=1., rot=rot)
        R.trans(2)
    # surfaces: every face of every cell, selected through its corner points
    Fc = F.FACES[F.BASE[ele]]
    fp = F.FEXACT[ele] if affine else min(F.FEXACT[ele], 1)
    fexps = [e for e in __import__('itertools').product(range(fp + 1), repeat=d) if sum(e) <= fp]
    allb = onp.argwhere(onp.ones((len(cells), len(Fc))))
    finds = onp.array(fe.face_inds)
    R.expect(finds.shape[0] == len(Fc), 'number of faces of the element')
    g, ns = fe.get_face_shape_grads(allb)
    fq = onp.array(fe.get_physical_surface_quad_points(allb))
    g, ns = onp.array(g), onp.array(ns)
    fsv = onp.array(fe.face_shape_vals)
    R.close(fsv.sum(-1), onp.ones(fsv.shape[:2]), 1e-12, 'face shape functions are not a partition of unity')
    lookup = {frozenset(f): f for f in Fc}
    for k, (c, f) in enumerate(allb):
        loc = frozenset(int(i) for i in finds[f])
        if not R.expect(loc in lookup, f'local face {f} has corners {sorted(loc)}: not a face of {ele}'):
            continue
        cor = Xs[c][list(lookup[loc])]
        want = F.face_integral(cor, lambda x: onp.stack([F.mono(x, e) for e in fexps], -1))
        got = onp.array([onp.sum(ns[k] * F.mono(fq[k], e)) for e in fexps])
        R.close(got, want, 1e-9, f'surface integral of monomials wrong on cell {c} face {sorted(loc)}', scale=max(1e-2, onp.max(onp.abs(want))), rot=rot)
        for e in sp:
            nv = F.mono(Xs[c], e)
            R.close(fsv[f] @ nv, F.mono(fq[k], e), 1e-9, f'face interpolation of monomial {e} wrong', scale=1.)
            R.close(onp.einsum('qnd,n->qd', g[k], nv), onp.stack([F.dmono(fq[k], e, j) for j in range(d)], -1), 1e-8,
                    f'face gradient of monomial {e} wrong', scale=1.)
        R.trace(len(fexps))
        R.trans()
    R.sample({'ele': ele, 'rot': rot, 'volume': float(W.sum()), 'faces': len(allb)})

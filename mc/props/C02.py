"""Boundary condition selection: exactly the nodes / faces picked by the user's predicate."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD, make_plain

BOUNDS = {
    'quick': 'every subset of the nodes of small meshes of every element type (corner subsets for the higher order '
             'types, all node subsets up to 10 nodes; 2-cell HEX8 / QUAD4 / TRI3 / TET4 meshes: all 2^nodes), as Dirichlet, '
             'Neumann, Cauchy and count predicate, in lists of 1..3 predicates with every component index and value function',
    'thorough': 'as quick plus all 2^12 subsets of two-cell HEX8 in three numberings and all node subsets of QUAD8/TRI6 pairs'}


def cases(tier):
    out = []

    def add(ele, n, rl=0, rot=0, nodes='all', chunk=256):
        pts, cells = F.mesh(ele, n, 'box', rl, rot)
        nb = len(pts) if nodes == 'all' else len(F.CORNERS[F.BASE[ele]])
        tot = 2**nb
        for a in range(0, tot, chunk):
            out.append({'ele': ele, 'n': n, 'relabel': rl, 'rot': rot, 'nodes': nodes, 'lo': a, 'hi': min(tot, a + chunk)})
    add('HEX8', [1, 1, 1], 0, 5)
    add('HEX8', [1, 1, 1], 2, 0)
    add('QUAD4', [2, 1]), add('QUAD4', [2, 1], 1, 2)
    add('TRI3', [1, 1]), add('TRI3', [2, 1], 1, 1)
    add('TET4', [1, 1, 1], 0, 3)
    add('TRI6', [1, 1], 0, 1)
    add('QUAD8', [1, 1], 0, 1)
    for ele in ('HEX20', 'HEX27', 'TET10'):
        add(ele, [1, 1, 1], 0, 7, nodes='corners')
    add('HEX8', [2, 1, 1], 1, 3, chunk=512)
    if tier == 'thorough':
        for rl, rot in itertools.product((0, 1, 2), (0, 4)):
            add('HEX8', [2, 1, 1], rl, rot, chunk=256)
        add('QUAD8', [2, 1], 1, 1, chunk=512)
        add('TET4', [1, 1, 1], 1, 5), add('TET10', [1, 1, 1], 1, 5, nodes='corners')
    # boundary lists and components
    for ele in F.ELE:
        out.append({'ele': ele, 'lists': True})
    return out


def make_pred(pts, mask):
    import jax.numpy as jnp
    P, M = jnp.array(pts), jnp.array(mask)
    return lambda x: M[jnp.argmin(jnp.sum((P - x)**2, axis=-1))]


def check_faces(R, fe, ele, pts, cells, mask, inds, what, case):
    finds = onp.array(fe.face_inds)
    got = [(int(c), frozenset(int(cells[c][i]) for i in finds[f])) for c, f in onp.asarray(inds).reshape(-1, 2)]
    want = [(c, f) for c, f in F.boundary_faces(ele, cells) if all(mask[i] for i in f)]
    R.expect(len(set(got)) == len(got), f'{what}: a face is selected twice')
    R.expect(set(got) == set(want), f'{what}: selected faces differ from the faces whose corners satisfy the predicate',
             got=sorted((c, sorted(f)) for c, f in got), want=sorted((c, sorted(f)) for c, f in want),
             mask=[int(m) for m in mask])
    return len(want)


def run_case(case, R):
    if case.get('lists'):
        return run_lists(case, R)
    ele = case['ele']
    pts, cells = F.mesh(ele, case['n'], 'box', case['relabel'], case['rot'])
    d = pts.shape[1]
    corners = sorted(set(int(i) for i in cells[:, :len(F.CORNERS[F.BASE[ele]])].reshape(-1)))
    sel = list(range(len(pts))) if case['nodes'] == 'all' else corners
    masks = []
    for s in range(case['lo'], case['hi']):
        m = onp.zeros(len(pts), bool)
        for k, i in enumerate(sel):
            m[i] = bool(s >> k & 1)
        if case['nodes'] != 'all':   # the other nodes follow a fixed pattern that must not matter for faces
            for i in range(len(pts)):
                if i not in corners:
                    m[i] = bool((s + i) & 1)
        masks.append(m)
        R.state('C02', ele, tuple(case['n']), case['relabel'], case['rot'], s)
    preds = [make_pred(pts, m) for m in masks]
    vals = [lambda x, k=k: x[0] * (k % 7 + 1.) - 2. * x[d - 1] + k for k in range(len(preds))]
    vecs = [k % 2 for k in range(len(preds))]
    fe = make_plain(pts, cells, ele, vec=2, dirichlet_bc_info=[preds, vecs, vals])
    inds = fe.get_boundary_conditions_inds(preds)
    R.expect(len(inds) == len(preds), 'one index set per predicate')
    R.expect(len(fe.node_inds_list) == len(preds) == len(fe.vec_inds_list) == len(fe.vals_list), 'one entry per Dirichlet condition')
    for k, m in enumerate(masks):
        nf = check_faces(R, fe, ele, pts, cells, m, inds[k], 'faces', case)
        got = onp.asarray(fe.node_inds_list[k]).tolist()
        R.expect(sorted(got) == onp.nonzero(m)[0].tolist(), 'Dirichlet nodes differ from the nodes satisfying the predicate',
                 got=got, mask=m.astype(int))
        v = onp.asarray(fe.vals_list[k])
        w = onp.array([pts[i][0] * (k % 7 + 1.) - 2. * pts[i][d - 1] + k for i in got])
        R.close(v, w, 1e-12, 'Dirichlet values', scale=10.)
        R.expect(onp.all(onp.asarray(fe.vec_inds_list[k]) == vecs[k]) and len(fe.vec_inds_list[k]) == len(got), 'Dirichlet component')
        if k % 8 == 0:
            R.expect(int(fe.mesh.count_selected_faces(preds[k])) == nf, 'count_selected_faces disagrees', mask=m.astype(int))
        R.trans(3)
        R.trace()
    R.sample({'ele': ele, 'mask': masks[-1].astype(int), 'faces': len(inds[-1])})


def run_lists(case, R):
    """all ordered pairs/triples of box sides with all component indices; Neumann inds, update, empty lists"""
    import jax.numpy as jnp
    ele = case['ele']
    d = F.DIM[ele]
    n = [1] * (d - 1) + [2]
    pts, cells = F.mesh(ele, n, 'box', 1, 2)
    lo, hi = pts.min(0), pts.max(0)
    sides = [(k, s) for k in range(d) for s in (0, 1)]
    fns = {(k, s): (lambda x, k=k, v=(lo, hi)[s][k]: jnp.isclose(x[k], v, atol=1e-6)) for k, s in sides}
    mask = {(k, s): onp.isclose(pts[:, k], (lo, hi)[s][k], atol=1e-6) for k, s in sides}
    combos = [()] + [(a,) for a in sides] + list(itertools.permutations(sides, 2)) + list(itertools.permutations(sides[:4], 3))
    fe0 = make_plain(pts, cells, ele, vec=d + 1)
    R.expect(fe0.node_inds_list == [] or len(fe0.node_inds_list) == 0, 'no Dirichlet condition given, but nodes are constrained')
    for ci, combo in enumerate(combos):
        vecs = [(ci + j) % (d + 1) for j in range(len(combo))]
        vals = [lambda x, j=j: j + x[0] for j in range(len(combo))]
        info = [[fns[c] for c in combo], vecs, vals]
        fe0.update_Dirichlet_boundary_conditions(info)
        R.state('C02L', ele, combo)
        R.trans()
        R.trace()
        R.expect(len(fe0.node_inds_list) == len(combo), 'number of Dirichlet conditions after update')
        for j, c in enumerate(combo):
            got = onp.asarray(fe0.node_inds_list[j])
            R.expect(sorted(got.tolist()) == onp.nonzero(mask[c])[0].tolist(), 'Dirichlet nodes of a box side', side=c)
            R.expect(set(onp.asarray(fe0.vec_inds_list[j]).tolist()) <= {vecs[j]}, 'Dirichlet component of a box side', side=c)
            R.close(onp.asarray(fe0.vals_list[j]), j + pts[got, 0], 1e-12, 'Dirichlet values of a box side', scale=5.)
        inds = fe0.get_boundary_conditions_inds([fns[c] for c in combo])
        R.expect(len(inds) == len(combo), 'one face set per predicate')
        for j, c in enumerate(combo):
            check_faces(R, fe0, ele, pts, cells, mask[c], inds[j], f'side {c}', case)
        if len(combo) == 2:
            fe = make_plain(pts, cells, ele, vec=1, neumann_bc_info=[[fns[c] for c in combo], [lambda x: jnp.array([1.])] * 2])
            for j, c in enumerate(combo):
                check_faces(R, fe, ele, pts, cells, mask[c], fe.neumann_boundary_inds_list[j], f'Neumann side {c}', case)
    fe0.update_Dirichlet_boundary_conditions(None)
    R.expect(len(fe0.node_inds_list) == 0, 'Dirichlet conditions remain after they were reset')

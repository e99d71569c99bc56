"""A growing part: active mesh and exposed faces are those of the cells born so far, for every birth order."""
import contextlib
import copy
import io
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'hexahedra 2x2x2: every pair of nested sets of born cells (6305 initialise-then-grow steps); 2x2x1, 4x1x1 hexahedra, 2x1 quadrilaterals and the '
                   'tetrahedra of one cube: every growth history (every initial set, every sequence of batches of births, a batch without births before each step); '
                   'three cell orders and local numberings',
          'thorough': '2x2x2 hexahedra with every sequence of single births (8! orders from each single cell), 5 cells in a row, 3x2 quadrilaterals, 4 triangles: every history of batches'}


def cases(tier):
    out = []
    for r in range(3):
        for k in range(8):
            out.append({'kind': 'pairs', 'ele': 'HEX8', 'n': [2, 2, 2], 'relabel': r, 'first': k})
        for ele, n in [('HEX8', [2, 2, 1]), ('HEX8', [4, 1, 1]), ('QUAD4', [2, 2]), ('TRI3', [2, 1]), ('TET4', [1, 1, 1])]:
            out.append({'kind': 'history', 'ele': ele, 'n': n, 'relabel': r})
    if tier != 'quick':
        for ele, n in [('HEX8', [5, 1, 1]), ('QUAD4', [3, 2]), ('HEX20', [2, 2, 1]), ('TET10', [1, 1, 1])]:
            out.append({'kind': 'history', 'ele': ele, 'n': n, 'relabel': 1})
        for k in range(8):
            out.append({'kind': 'orders', 'ele': 'HEX8', 'n': [2, 2, 2], 'relabel': 2, 'first': k})
    return out


def check(R, ele, pts, cells, act, am, pmap, cmap, ext, w):
    """active mesh and exposed faces against the plain definition"""
    act = [int(c) for c in onp.nonzero(act)[0]]
    ap, ac, pmap, cmap = onp.asarray(am.points), onp.asarray(am.cells), onp.asarray(pmap), onp.asarray(cmap)
    used = onp.unique(cells[act])
    ok = R.expect(len(ac) == len(act), f'{w}: {len(ac)} active cells instead of {len(act)}')
    ok = ok and R.expect(onp.array_equal(onp.sort(pmap), used) and len(ap) == len(used), f'{w}: the active points are not the points of the born cells')
    ok = ok and R.expect(onp.array_equal(ap, pts[pmap]), f'{w}: the point map does not lead to the active points')
    ok = ok and R.expect(sorted(int(cmap[c]) for c in act) == list(range(len(act))), f'{w}: the cell map does not number the born cells')
    if not ok:
        return False
    for c in act:
        if not R.expect(onp.array_equal(pmap[ac[int(cmap[c])]], cells[c]), f'{w}: active cell {cmap[c]} is not cell {c} of the full mesh'):
            return False
    # exposed faces: faces of exactly one born cell
    count = {}
    for c in act:
        for f in F.FACES[F.BASE[ele]]:
            count.setdefault(frozenset(int(v) for v in cells[c][list(f)]), []).append(c)
    want = {(int(cmap[v[0]]), k) for k, v in count.items() if len(v) == 1}
    nc = len(F.CORNERS[F.BASE[ele]])
    got = []
    for c, f in onp.asarray(ext).reshape(-1, 2):
        if not R.expect(0 <= c < len(ac) and 0 <= f < len(FI[ele]), f'{w}: exposed face ({c}, {f}) does not exist'):
            return False
        nodes = [int(v) for v in ac[c][FI[ele][f]]]
        corner = {int(v) for v in ac[c][:nc]}
        got.append((int(c), frozenset(int(pmap[v]) for v in nodes if v in corner)))
    ok = R.expect(len(set(got)) == len(got), f'{w}: an exposed face is listed twice')
    return ok and R.expect(set(got) == want, f'{w}: exposed faces: {len(set(got) - want)} listed that are not exposed, {len(want - set(got))} missing')


FI = {}


def run_case(case, R):
    from jax_am.fem.generate_mesh import Mesh
    from jax_am.fem.basis import get_face_shape_vals_and_grads
    import applications.fem.thermal.models as M
    ele = case['ele']
    pts, cells = F.mesh(ele, case['n'], 'box', case['relabel'], 1 if case['relabel'] else 0)
    full = Mesh(pts.copy(), cells.copy(), ele_type=ele)
    FI[ele] = onp.asarray(get_face_shape_vals_and_grads(ele)[-1])
    N = len(cells)

    def tab(s):
        a = onp.zeros(N, dtype=bool)
        a[list(s)] = True
        return a

    def start(s):
        a = tab(s)
        am, pm, cm = M.get_active_mesh(full, a.copy())
        ext, cf, hm, inner, allf = M.initialize_hash_map(full, a.copy(), cm, ele)
        ok = check(R, ele, pts, cells, a, am, pm, cm, ext, f'start with {sorted(s)}')
        R.state('C33', ele, case['n'], case['relabel'], tuple(sorted(s)))
        return ok, (cf, hm, inner, allf)

    def grow(s, t, book, hist):
        cf, hm, inner, allf = book
        b = tab(t)
        am, pm, cm = M.get_active_mesh(full, b.copy())
        ext, hm, inner, allf = M.update_hash_map(tab(s), b.copy(), cm, cf, hm, inner, allf)
        ok = check(R, ele, pts, cells, b, am, pm, cm, ext, f'history {hist} -> {sorted(t)}')
        R.state('C33', ele, case['n'], case['relabel'], tuple(map(tuple, map(sorted, hist))), tuple(sorted(t)))
        R.trans()
        return ok, (cf, hm, inner, allf)

    def fork(book):
        cf, hm, inner, allf = book
        return cf, copy.copy(hm), copy.copy(inner), copy.copy(allf)

    def histories(s, book, hist, singles):
        rest = [c for c in range(N) if c not in s]
        ok, book = grow(s, s, book, hist)        # a step without births
        if not ok:
            return False
        for k in range(1, 2 if singles else len(rest) + 1):
            for new in itertools.combinations(rest, k):
                t = frozenset(s) | set(new)
                ok, b = grow(s, t, fork(book), hist)
                if not ok or not histories(t, b, hist + [t], singles):
                    return False
        if not rest:
            R.trace()
        return True

    with contextlib.redirect_stdout(io.StringIO()):
        before = pts.copy(), cells.copy()
        if case['kind'] == 'pairs':
            for s in (c for k in range(1, N + 1) for c in itertools.combinations(range(N), k)):
                if s[0] != case['first']:
                    continue
                ok, book = start(s)
                if not ok:
                    return
                rest = [c for c in range(N) if c not in s]
                for k in range(len(rest) + 1):
                    for new in itertools.combinations(rest, k):
                        if not grow(s, frozenset(s) | set(new), fork(book), [s])[0]:
                            return
                R.trace()
        elif case['kind'] == 'history':
            for k in range(1, N + 1):
                for s in itertools.combinations(range(N), k):
                    ok, book = start(s)
                    if not ok or not histories(frozenset(s), book, [s], False):
                        return
        else:
            ok, book = start((case['first'],))
            if not ok or not histories(frozenset((case['first'],)), book, [(case['first'],)], True):
                return
        R.expect(onp.array_equal(full.points, before[0]) and onp.array_equal(full.cells, before[1]), 'the full mesh was changed')

"""Saved solutions read back exactly (single precision), and mismatched data is refused."""
import itertools
import os
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': '9 element types x 1..3 components x {0,1,2} cell fields x {0,1,2} point fields x {new nested folder, overwrite of a '
                   'larger earlier result}; every wrong length 0..n+1 and every wrong rank of cell and point data; format conversion of every '
                   'header position in files of 1..4 lines',
          'thorough': 'as quick with three node numberings'}


def cases(tier):
    return [{'ele': e, 'relabel': r} for e in F.ELE for r in ((0,) if tier == 'quick' else (0, 1, 2))] + [{'modify': True}, {'abaqus': True}]


def run_case(case, R):
    import meshio
    import jax.numpy as jnp
    from jax_am.fem import utils
    if case.get('modify'):
        return run_modify(case, R)
    if case.get('abaqus'):
        d = R.tmp()
        for ele, ct in (('HEX8', 'hexahedron'), ('TET4', 'tetra')):
            pts, cells = F.mesh(ele, [2, 1, 1], 'box', 1, 1)
            meshio.Mesh(pts, {ct: cells}).write(os.path.join(d, 'a.inp'))
            utils.read_abaqus_and_write_vtk(os.path.join(d, 'a.inp'), os.path.join(d, 'b.vtu'))
            m = meshio.read(os.path.join(d, 'b.vtu'))
            R.close(m.points, pts, 1e-10, 'converted points')
            R.expect(onp.array_equal(m.cells_dict[ct], cells), 'converted cells')
            R.state('C11a', ele)
            R.trans()
            R.trace()
        return
    ele = case['ele']
    d = F.DIM[ele]
    tmp = R.tmp()
    for vec, nc, npt, rewrite in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2), (0, 1)):
        pts, cells = F.mesh(ele, [1] * (d - 1) + [2], 'box', case['relabel'], 1)
        fe = make_plain(pts, cells, ele, vec=vec)
        sol = det_arr((len(pts), vec), vec) * 1e3
        ci = [(f'c{k}', (jnp.array if k else onp.array)(det_arr((len(cells),), k))) for k in range(nc)]
        pi = [(f'p{k}', det_arr((len(pts),) if k else (len(pts), 3), 5 + k)) for k in range(npt)]
        f = os.path.join(tmp, f'v{vec}_{nc}_{npt}', 'deep', 'sol.vtu')
        if rewrite:
            bp, bc = F.mesh(ele, [1] * (d - 1) + [3], 'box', 0, 0)
            utils.save_sol(make_plain(bp, bc, ele, vec=3), jnp.ones((len(bp), 3)), f, cell_infos=[('old', onp.ones(len(bc)))])
        utils.save_sol(fe, jnp.array(sol), f, cell_infos=ci if nc or rewrite else None, point_infos=pi if npt or rewrite else None)
        m = meshio.read(f)
        what = f'{ele} vec={vec} cell fields={nc} point fields={npt}'
        R.close(m.points[:, :d], pts, 1e-12, f'saved points ({what})')
        R.expect(len(m.cells) == 1 and onp.array_equal(m.cells[0].data, cells), f'saved cells ({what})')
        s = m.point_data.get('sol')
        R.close(onp.asarray(s).reshape(len(pts), -1)[:, :vec], sol.astype(onp.float32), 0., f'saved solution ({what})')
        R.expect(set(m.cell_data) == {n for n, _ in ci}, f'saved cell fields ({what})', got=sorted(m.cell_data))
        R.expect(set(m.point_data) == {'sol'} | {n for n, _ in pi}, f'saved point fields ({what})', got=sorted(m.point_data))
        for n, v in ci:
            R.close(m.cell_data[n][0], onp.asarray(v).astype(onp.float32), 0., f'cell field {n} ({what})')
        for n, v in pi:
            R.close(m.point_data[n], v.astype(onp.float32), 0., f'point field {n} ({what})')
        R.state('C11', ele, case['relabel'], vec, nc, npt, rewrite)
        R.trans()
        R.trace()
    # data of the wrong size is refused, and the earlier result is left as it was
    f = os.path.join(tmp, 'bad', 'sol.vtu')
    utils.save_sol(fe, jnp.array(sol), f)
    before = open(f, 'rb').read()
    n, c = len(pts), len(cells)
    bad = [('cell', (k,)) for k in range(c + 2) if k != c] + [('cell', (c, 1)), ('cell', (c, 2)), ('cell', (1, c))] \
        + [('point', (k,)) for k in range(n + 2) if k != n] + [('point', (n + 1, 3)), ('point', (3, n))]
    for kind, shp in bad:
        kw = {f'{kind}_infos': [('ok', onp.ones(c if kind == 'cell' else n)), ('bad', onp.ones(shp))]}
        try:
            utils.save_sol(fe, jnp.array(sol), f, **kw)
            R.fail(f'{kind} data of shape {shp} accepted on {c} cells, {n} points')
        except Exception:
            pass
        R.expect(open(f, 'rb').read() == before, f'a refused save changed the earlier result ({kind} {shp})')
        R.state('C11bad', ele, kind, shp)
        R.trans()
        R.trace()
    R.sample({'ele': ele, 'refused': len(bad)})


def run_modify(case, R):
    from jax_am.fem import utils
    d = R.tmp()
    head = '<VTKFile type="UnstructuredGrid" version="2.2">'
    new = '<VTKFile type="UnstructuredGrid" version="1.0">'
    lines = ['<?xml version="1.0"?>', head, '  ' + head + ' x="2.2"', '<DataArray version="2.2">1 2 3</DataArray>', '']
    for L in range(0, 5):
        for combo in itertools.product(range(len(lines)), repeat=L):
            for last in (0, 1):
                txt = '\n'.join(lines[i] for i in combo) + ('\n' if last else '')
                open(os.path.join(d, 'in'), 'w').write(txt)
                utils.modify_vtu_file(os.path.join(d, 'in'), os.path.join(d, 'out'))
                got = open(os.path.join(d, 'out')).read()
                R.expect(got == txt.replace(head, new), f'converted file differs for {txt!r}')
                R.expect(open(os.path.join(d, 'in')).read() == txt, 'conversion changed its input')
                R.state('C11m', combo, last)
                R.trans()
                R.trace()

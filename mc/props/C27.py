"""Table of results: every value, time and coordinate of every saved file, for every set of files."""
import itertools
import os
import numpy as onp

PRELOAD = ['numpy', 'jax', 'meshio', 'pandas', 'matplotlib.pyplot', 'matplotlib.animation', 'yaml', 'pyfiglet']
BOUNDS = {'quick': '2..6 result files x saving every {1, 7, 10, 250} steps x three time step sizes, times to 1e-8 x point fields {scalar, 3-vector, 9 components, two fields, several mixed} (300 sets); other files in the directory',
          'thorough': 'up to 13 files, five time step sizes'}


def cases(tier):
    q = tier == 'quick'
    return [{'files': n, 'every': e, 'dt': dt} for n, e, dt in itertools.product(range(2, 7 if q else 14), (1, 7, 10, 250), (2e-6, 1e-3, 1.3e-7) if q else (2e-6, 1e-3, .25, 1.3e-7, 1e-8))]


FIELDS = ({'sol': ()}, {'sol': (3,)}, {'u': (9,)}, {'T': (), 'sol': (3,)}, {'sol': (1,), 'b': (), 'c': (2,)})


def run_case(case, R):
    import meshio
    import pandas as pd
    from jax_am import common as C
    n, e, dt = case['files'], case['every'], case['dt']
    for q, fields in enumerate(FIELDS):
        d = os.path.join(R.tmp(), f'r{q}')
        os.makedirs(os.path.join(d, 'msh'))
        os.makedirs(os.path.join(d, 'vtk'))
        mesh = C.box_mesh(2, 1, 1, 1., 2., 3.)
        k = len(mesh.points)
        meshio.Mesh(mesh.points, mesh.cells).write(os.path.join(d, 'msh', 'box.msh'), file_format='gmsh')
        val = {}
        for i in range(n):
            v = {f: onp.array([1000. * i + 10. * p + .5 for p in range(k)]).reshape((k,) + (1,) * len(s)) + onp.arange(int(onp.prod(s))).reshape(s) / 7. if s else
                 onp.array([100. * i - p for p in range(k)]) for f, s in fields.items()}
            val[i] = v
            meshio.Mesh(mesh.points, mesh.cells, point_data=v).write(os.path.join(d, 'vtk', f'u_{i * e:05d}.vtu'))
        if q % 2:
            open(os.path.join(d, 'vtk', 'notes.txt'), 'w').write('x')
        cwd = os.getcwd()
        os.chdir(d)
        try:
            df = C.to_data_frame(d, dt)
            saved = pd.read_csv('data_frame.csv')
        finally:
            os.chdir(cwd)
        cols = ['x', 'y', 'z', 'time'] + [c for f, s in fields.items() for c in ([f] if not s else [f + '_' + '_'.join(map(str, i)) for i in onp.ndindex(s)])]
        for what, t in (('table', df), ('file', saved)):
            if not R.expect(list(t.columns) == cols and len(t) == n * k, f'{what}: columns {list(t.columns)}, {len(t)} rows'):
                continue
            for i in range(n):
                r = t.iloc[i * k:(i + 1) * k]
                R.close(r['time'].to_numpy(), onp.full(k, i * e * dt), 5.1e-9 + 1e-12 * i * e * dt, f'{what}: time of file {i}, saving every {e} steps of {dt}', scale=1.)
                R.close(r[['x', 'y', 'z']].to_numpy(), mesh.points, 1e-9, f'{what}: coordinates of file {i}', scale=1.)
                for f, s in fields.items():
                    got = r[[c for c in cols if c == f or c.startswith(f + '_')]].to_numpy().reshape(val[i][f].shape)
                    R.close(got, val[i][f], 1e-6, f'{what}: field {f} of file {i}', scale=1e3)
        R.state('C27', n, e, dt, q)
        R.trans(n)
        R.trace()
    R.sample({'columns': cols, 'rows': n * k})

"""Finite volume operators: gradient, diffusion, face velocities and convection for every boundary condition and every upwind pattern."""
import itertools
import numpy as onp
from mc import cfdref as F
from mc.cfdref import PRELOAD

BOUNDS = {'quick': 'every combination of prescribed-value and prescribed-derivative conditions on the six sides (64), plus the surface-stress condition on each z side (32 x 2); '
                   'grids 2x3x2, 1x2x3 and 3x1x2; the operators are linear: for each condition all unit fields (a full basis) are applied; '
                   'convection with every sign pattern (512) of the face velocities of a 1-D cell row along each axis, three blending weights',
          'thorough': 'grids up to 3x3x3'}

DX = (.3, .7, .45)
VALS = (1.3, -.7, .4, 2.1, -1.6, .9)


def cases(tier):
    out = []
    grids = [(2, 3, 2), (1, 2, 3), (3, 1, 2)]
    if tier == 'thorough':
        grids += [(3, 3, 3), (2, 2, 4), (1, 1, 1), (4, 1, 1)]
    for N in grids:
        combos = list(itertools.product((0, 1), repeat=6))
        for i in range(0, 64, 16):
            out.append({'kind': 'linear', 'N': N, 'bcs': combos[i:i + 16]})
        vec = [c + (2,) for c in itertools.product((0, 1), repeat=5)] + [c[:4] + (2,) + c[4:] for c in itertools.product((0, 1), repeat=5)]
        for i in range(0, 64, 32):
            out.append({'kind': 'vector', 'N': N, 'bcs': vec[i:i + 32]})
    for a in range(3):
        for th in (.125, 0., 1.) if tier == 'thorough' else (.125, .6):
            out.append({'kind': 'upwind', 'axis': a, 'theta': th, 'n': 4 if tier == 'quick' else 7})
    return out


def basis(N, m):
    n = N[0] * N[1] * N[2] * m
    for i in range(n):
        f = onp.zeros(n)
        f[i] = 1.
        yield f.reshape(N + (m,))
    yield (onp.arange(n) * .37 - 1.).reshape(N + (m,))


def run_case(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.cfd import cfd_am as C
    dX = onp.array(DX)
    jdX = np.array(DX)
    if case['kind'] == 'upwind':
        a, th, n = case['axis'], case['theta'], case['n']
        N = [1, 1, 1]
        N[a] = n
        N = tuple(N)
        f = (onp.arange(n)**2 * .31 - onp.arange(n) + .2).reshape(N + (1,))
        for signs in itertools.product((1., -1.), repeat=n + 1):
            for zero in (False, True):
                vf = []
                for k in range(3):
                    s = list(N) + [1]
                    s[k] += 1
                    vf.append(onp.full(s, .8 if k % 2 else -.6))
                v = onp.array(signs) * (1 + .1 * onp.arange(n + 1))
                if zero:
                    v[n // 2] = 0.
                vf[a] = v.reshape(vf[a].shape)
                got = C.div(np.array(f), [np.array(x) for x in vf], jdX, theta=th)
                R.close(got, F.convection(f, vf, dX, th), 1e-10, f'convection along axis {a}, signs {signs}', scale=10.)
                R.state('C18', a, th, signs, zero)
                R.trans()
                R.trace()
        return
    N = tuple(case['N'])
    for bc in case['bcs']:
        bc = list(bc)
        shapes = [tuple(1 if k == s // 2 else N[k] for k in range(3)) for s in range(6)]
        m = 3 if case['kind'] == 'vector' else 1
        vals = [(VALS[s] + .1 * onp.arange(onp.prod(shapes[s]) * m)).reshape(shapes[s] + (m,)) for s in range(6)]
        bcs, jb = (bc, vals), [bc, [np.array(v) for v in vals]]
        R.state('C18', N, bc, m)
        for q, f in enumerate(basis(N, m)):
            jf = np.array(f)
            gc = C.get_GC_values(jf, jb, jdX)
            for s in range(6):
                R.close(gc[s], F.ghost(f, s, bc[s], vals[s], dX), 1e-12, f'cells outside side {s}, conditions {bc}', scale=5.)
            if m == 1:
                R.close(C.gradient(jf, jdX, jb), F.gradient(f, dX, bcs), 1e-11, f'gradient, conditions {bc}', scale=10.)
                R.close(C.laplace(jf, gc, 1.7, jdX, jb), F.laplacian(f, 1.7, dX, bcs), 1e-11, f'diffusion, conditions {bc}', scale=10.)
                mu = []
                for k in range(3):
                    s = list(N) + [1]
                    s[k] += 1
                    mu.append((1.1 + .2 * onp.arange(onp.prod(s))).reshape(s))
                R.close(C.laplace(jf, gc, [np.array(x) for x in mu], jdX, jb), F.laplacian(f, mu, dX, bcs), 1e-11, f'diffusion with variable coefficient, conditions {bc}', scale=50.)
                for a in range(3):
                    p = F.padded(f, a, bcs, dX)
                    R.close(C.get_face_vel_component(jf, jdX, axis=a, BCs=jb), (p[F.sl(a, slice(1, None))] + p[F.sl(a, slice(None, -1))]) / 2, 1e-11,
                            f'face values of one component along axis {a}, conditions {bc}', scale=5.)
            else:
                got = C.get_face_vels(jf, jdX, jb)
                want = F.face_vel(f, dX, bcs)
                for a in range(3):
                    R.close(got[a], want[a], 1e-11, f'face velocities along axis {a}, conditions {bc}', scale=5.)
            if q % 4 == 0:
                vel = onp.sin(onp.arange(N[0] * N[1] * N[2] * 3) * 1.3 + .4).reshape(N + (3,))
                vf = F.face_vel(vel, dX)
                R.close(C.div(jf, [np.array(x) for x in vf], jdX, BCs=jb), F.convection(f, vf, dX, bcs=bcs), 1e-11, f'convection, conditions {bc}', scale=20.)
            R.trans()
            R.trace()
    if case['kind'] == 'linear':
        for f in basis(N, 1):
            jf = np.array(f)
            R.close(C.gradient(jf, jdX), F.gradient(f, dX), 1e-11, 'gradient without conditions', scale=10.)
            R.close(C.laplace(jf, None, .3, jdX), F.laplacian(f, .3, dX), 1e-11, 'diffusion without conditions', scale=10.)
            tot = float(np.sum(C.laplace(jf, None, .3, jdX)))
            R.close(tot, 0., 1e-11, 'diffusion without conditions does not conserve', scale=10.)
            for a in range(3):
                p = F.padded(f, a, F.ZERO, dX)
                R.close(C.get_face_vel_component(jf, jdX, axis=a), (p[F.sl(a, slice(1, None))] + p[F.sl(a, slice(None, -1))]) / 2, 1e-11, f'face values along {a} without conditions', scale=5.)
    R.sample({'grid': N, 'conditions': case['bcs'][0]})

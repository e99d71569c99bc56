"""Functions of a symmetric tensor through its spectrum: value and derivative, repeated eigenvalues included."""
import itertools
import numpy as onp
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'every symmetric 2x2 tensor with entries in {-2..2} and 3x3 tensor with entries in {-1, 0, 1} (729), the diagonal and the rotated tensors with every spectrum from {-1, 0, 2}^3, '
                   'x scales {1, 1e-4}; functions: identity, square, cube, positive part, negative part, exponential; value, and derivative along every unit symmetric and unsymmetric direction',
          'thorough': '3x3 tensors with entries in {-2..2} on and {-1, 0, 1} off the diagonal, 4x4 tensors with entries in {0, 1}'}
ASSUMPTIONS = ['the derivative of the positive and negative part is claimed where it exists: no eigenvalue is zero (or rounds to zero), or the tensor is zero along the direction']


def cases(tier):
    out = []
    for f in FUN:
        out.append({'fn': f, 'set': '2x2'})
        out.append({'fn': f, 'set': 'spectra'})
        for a in (-1, 0, 1):
            out.append({'fn': f, 'set': '3x3', 'a': a})
        if tier != 'quick':
            out += [{'fn': f, 'set': '3x3w', 'a': a} for a in (-2, -1, 0, 1, 2)] + [{'fn': f, 'set': '4x4'}]
    return out


FUN = {'id': (lambda x: x, lambda x: 1. + 0 * x), 'square': (lambda x: x * x, lambda x: 2 * x), 'cube': (lambda x: x**3, lambda x: 3 * x * x),
       'plus': (lambda x: .5 * (x + abs(x)), lambda x: 1. * (x > 0)), 'minus': (lambda x: .5 * (x - abs(x)), lambda x: 1. * (x < 0)),
       'exp': (lambda x: onp.exp(x), lambda x: onp.exp(x))}


def tensors(case):
    s = case['set']

    def sym(d, vals):
        m = onp.zeros((d, d))
        for (i, j), v in zip(itertools.combinations_with_replacement(range(d), 2), vals):
            m[i, j] = m[j, i] = v
        return m
    if s == '2x2':
        for v in itertools.product(range(-2, 3), repeat=3):
            yield sym(2, v)
    elif s == '3x3':
        for v in itertools.product((-1, 0, 1), repeat=5):
            yield sym(3, (case['a'],) + v)
    elif s == '3x3w':
        for d1, d2 in itertools.product(range(-2, 3), repeat=2):
            for o in itertools.product((-1, 0, 1), repeat=3):
                yield sym(3, (case['a'], o[0], o[1], d1, o[2], d2))
    elif s == '4x4':
        for v in itertools.product((0, 1), repeat=10):
            yield sym(4, v)
    else:
        def rot(k, t):
            Q = onp.eye(3)
            i, j = [(0, 1), (1, 2), (0, 2)][k]
            Q[i, i] = Q[j, j] = onp.cos(t)
            Q[i, j], Q[j, i] = -onp.sin(t), onp.sin(t)
            return Q
        for lam in itertools.product((-1., 0., 2.), repeat=3):
            for Q in (onp.eye(3), rot(0, .7), rot(1, 1.1) @ rot(2, .4), rot(0, .3) @ rot(1, 2.) @ rot(2, -.8)):
                m = Q @ onp.diag(lam) @ Q.T
                yield .5 * (m + m.T)


def model(name, x, dirs):
    """value and derivatives along dirs (symmetric parts); None where the derivative does not exist"""
    f, g = FUN[name]
    if name in ('id', 'square', 'cube'):
        val = x if name == 'id' else x @ x if name == 'square' else x @ x @ x
        out = []
        for v in dirs:
            s = .5 * (v + v.T)
            out.append(s if name == 'id' else x @ s + s @ x if name == 'square' else x @ x @ s + x @ s @ x + s @ x @ x)
        return val, out
    lam, Q = onp.linalg.eigh(x)
    sc = max(1e-300, abs(lam).max())
    # group equal eigenvalues: integers and simple roots are well separated unless equal
    grp = lam.copy()
    for i in range(1, len(lam)):
        if lam[i] - lam[i - 1] < 1e-9 * sc:
            grp[i] = grp[i - 1]
    kink = name in ('plus', 'minus') and onp.any(abs(grp) < 1e-9 * sc)
    val = Q @ onp.diag(f(lam)) @ Q.T
    if kink:
        return val, None
    n = len(lam)
    th = onp.array([[g(grp[i]) if grp[i] == grp[j] else (f(grp[i]) - f(grp[j])) / (grp[i] - grp[j]) for j in range(n)] for i in range(n)])
    return val, [Q @ (th * (Q.T @ (.5 * (v + v.T)) @ Q)) @ Q.T for v in dirs]


def run_case(case, R):
    import jax
    import jax.numpy as np
    from demos.fem.phase_field_fracture.eigen import get_eigen_f_custom
    name = case['fn']
    jf = {'id': lambda x: x, 'square': lambda x: x * x, 'cube': lambda x: x**3, 'plus': lambda x: .5 * (x + np.abs(x)),
          'minus': lambda x: .5 * (x - np.abs(x)), 'exp': np.exp}[name]
    F = get_eigen_f_custom(jf)
    xs = list(tensors(case))
    d = len(xs[0])
    dirs = []
    for i, j in itertools.product(range(d), repeat=2):
        v = onp.zeros((d, d))
        v[i, j] = 1.
        dirs.append(v)
    jac = jax.jit(jax.vmap(lambda x: jax.vmap(lambda v: jax.jvp(F, (x,), (v,)))(np.array(dirs))))
    jacr = jax.jit(jax.vmap(jax.jacrev(F)))
    for scale in (1., 1e-4):
        X = onp.array(xs) * scale
        vals, ders = jac(np.array(X))
        vals, ders, rev = onp.asarray(vals)[:, 0], onp.asarray(ders), onp.asarray(jacr(np.array(X)))
        plain = onp.asarray(jax.vmap(F)(np.array(X)))
        for k, x in enumerate(X):
            val, der = model(name, x, dirs)
            big = max(abs(val).max(), 1e-300, abs(x).max() if name != 'exp' else 1.)
            w = f'{name} of {x.tolist()}'
            ok = R.close(plain[k], val, 1e-12, w, scale=big)
            ok &= R.close(vals[k], val, 1e-12, f'{w} (with derivative)', scale=big)
            if der is not None:
                ref = onp.array(der)
                ok &= R.close(ders[k], ref, 1e-8, f'derivative of {w}', scale=max(1e-300, abs(ref).max()))
                ok &= R.close(rev[k].reshape(d, d, d * d).transpose(2, 0, 1), ref, 1e-8, f'reverse derivative of {w}', scale=max(1e-300, abs(ref).max()))
            if not ok:
                return
            R.state('C36', name, case['set'], x.tolist())
            R.trans()
    R.trace()

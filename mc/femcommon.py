"""Shared helpers that drive the real FEM code of /repo (imports it lazily, in the worker)."""
import numpy as onp

PRELOAD = ['jax', 'jax.numpy', 'jax.scipy', 'jax.scipy.sparse.linalg', 'jax.experimental.sparse', 'numpy',
           'scipy', 'scipy.sparse', 'meshio', 'basix', 'gmsh', 'petsc4py', 'sklearn.neighbors', 'matplotlib.pyplot', 'yaml', 'h5py']


def make_plain(pts, cells, ele, vec=1, **kw):
    from jax_am.fem.core import FEM
    from jax_am.fem.generate_mesh import Mesh
    return FEM(Mesh(pts, cells, ele_type=ele), vec=vec, dim=pts.shape[1], ele_type=ele, **kw)


# ------------------------------------------------------------------------------------------
# a family of problems (nonlinear, unsymmetric, with every weak form term) and its numpy model

A3 = onp.array([[.3, .2, -.1], [-.25, .4, .15], [.05, -.3, .2]])
B3 = onp.array([[.5, -.3, .2, .1], [.1, .6, -.2, -.3], [-.4, .3, .7, .2], [.2, -.1, .3, .8]])


def t_lin(xp, g):
    d = g.shape[-1]
    return 2. * g + g @ xp.array(A3[:d, :d])


def t_nl(xp, g):
    d = g.shape[-1]
    return (1. + .4 * xp.sum(g * g)) * g + g @ xp.array(A3[:d, :d])


def t_sym(xp, g):
    return 2. * g


def t_symnl(xp, g):
    return (1. + .4 * xp.sum(g * g)) * g


def m_sym(xp, u):
    return 1.3 * u


def m_symnl(xp, u):
    return u + .3 * u**3


def t_nl_iv(xp, g, th, w):
    return (1. + th * xp.sum(g * g)) * g + th * t_lin(xp, g) + w


def m_nl(xp, u):
    n = u.shape[-1]
    return u + .3 * u**3 + xp.array(B3[:n, :n]) @ u


def t_par(xp, g, th):
    return (1.2 + th) * t_lin(xp, g)


def t_parsym(xp, g, th):
    return (1.2 + th) * g


def t_parnl(xp, g, th):
    return (1.2 + th) * t_nl(xp, g)


def m_lin(xp, u):
    n = u.shape[-1]
    return u + xp.array(B3[:n, :n]) @ u


def m_nl_iv(xp, u, old):
    return m_nl(xp, u) * (1. + old**2) - 2. * old


TENS = {'lin': t_lin, 'nl': t_nl, 'iv': t_nl_iv, 'par': t_par, 'parsym': t_parsym, 'parnl': t_parnl, 'sym': t_sym, 'symnl': t_symnl}
MASS = {'lin': m_lin, 'nl': m_nl, 'iv': m_nl_iv, 'sym': m_sym, 'symnl': m_symnl}


def cauchy_fn(xp, u, k, nl=.3):
    n = u.shape[-1]
    return (1.5 + k) * (u - .2) + nl * u**2 + .5 * xp.array(B3[:n, :n]) @ u


def neu_fn(xp, x, vec, k):
    return xp.stack([(1. + j + k) * x[0] - .5 * x[-1]**2 + .3 * j for j in range(vec)])


def src_fn(xp, x, vec):
    return xp.stack([xp.sin(x[0] + j) + x[-1] * (1. + j) for j in range(vec)])


def body_fn(xp, u):
    return .7 * u + .2 * u**2


def sides_of(pts):
    return [(k, s) for k in range(pts.shape[1]) for s in (0, 1)]


def side_fn(pts, side):
    import jax.numpy as jnp
    k, s = side
    v = float((pts[:, k].min(), pts[:, k].max())[s])
    return lambda x: jnp.isclose(x[k], v, atol=1e-6)


def side_mask(pts, side):
    k, s = side
    v = float((pts[:, k].min(), pts[:, k].max())[s])
    return onp.isclose(pts[:, k], v, atol=1e-6)


def make_problem(pts, cells, ele, vec, cfg, dirichlet=None, periodic=None):
    """cfg: tensor in {None,'lin','nl','iv'}, mass in {None,'nl','iv'}, cauchy: [side..], neumann: [side..],
    neumann_iv: bool, source: bool, body: bool"""
    import jax.numpy as jnp
    from jax_am.fem.core import FEM
    from jax_am.fem.generate_mesh import Mesh
    d = {}
    if cfg.get('tensor'):
        t = TENS[cfg['tensor']]
        d['get_tensor_map'] = lambda self: (lambda *a: t(jnp, *a))
    if cfg.get('mass'):
        m = MASS[cfg['mass']]
        d['get_mass_map'] = lambda self: (lambda *a: m(jnp, *a))
    if cfg.get('body'):
        d['get_body_map'] = lambda self: (lambda u: body_fn(jnp, u))
    if cfg.get('tensor') in ('par', 'parsym', 'parnl'):
        def set_params(self, params):
            # one value per cell; a pytree {'theta': (cells,), 'load': ()} scales the surface load too
            th = params['theta'] if isinstance(params, dict) else params
            self.internal_vars['laplace'] = [jnp.repeat(th[:, None], self.num_quads, axis=1)]
            if isinstance(params, dict):
                self.internal_vars['neumann'] = [[params['load'] * jnp.ones((len(b), self.face_shape_vals.shape[1]))]
                                                 for b in self.neumann_boundary_inds_list]
        d['set_params'] = set_params
    cls = type('Problem', (FEM,), d)
    kw = {}
    if cfg.get('cauchy'):
        kw['cauchy_bc_info'] = [[side_fn(pts, s) for s in cfg['cauchy']],
                                [(lambda u, k=k: cauchy_fn(jnp, u, k, 0. if cfg.get('cauchy_lin') else .3)) for k in range(len(cfg['cauchy']))]]
    if cfg.get('neumann'):
        if cfg.get('neumann_iv'):
            fns = [(lambda x, a, k=k: neu_fn(jnp, x, vec, k) * a) for k in range(len(cfg['neumann']))]
        else:
            fns = [(lambda x, k=k: neu_fn(jnp, x, vec, k)) for k in range(len(cfg['neumann']))]
        kw['neumann_bc_info'] = [[side_fn(pts, s) for s in cfg['neumann']], fns]
    if cfg.get('source'):
        kw['source_info'] = lambda x: src_fn(jnp, x, vec)
    if dirichlet is not None:
        kw['dirichlet_bc_info'] = dirichlet
    if periodic is not None:
        kw['periodic_bc_info'] = periodic
    fe = cls(Mesh(pts, cells, ele_type=ele), vec=vec, dim=pts.shape[1], ele_type=ele, **kw)
    C, Q = fe.num_cells, fe.num_quads
    iv = {}
    if cfg.get('tensor') == 'iv':
        iv['laplace'] = [det_arr((C, Q), 1), det_arr((C, Q, vec, pts.shape[1]), 2)]
    if cfg.get('mass') == 'iv':
        iv['mass'] = [det_arr((C, Q, vec), 3)]
    if cfg.get('neumann_iv'):
        iv['neumann'] = [[det_arr((len(b), fe.face_shape_vals.shape[1]), 4 + i)] for i, b in enumerate(fe.neumann_boundary_inds_list)]
    if cfg.get('body'):
        iv['body'] = jnp.array(det_arr((fe.num_total_nodes, vec), 9))
    if iv:
        fe.internal_vars = iv
    return fe


def det_arr(shape, k):
    """deterministic, structureless values in (-1, 1)"""
    n = int(onp.prod(shape))
    i = onp.arange(1, n + 1)
    return (onp.sin(i * 12.9898 + k * 78.233) * .9).reshape(shape)


def ref_residual(fe, cfg, u):
    """numpy model of the discrete weak form; u real or complex (num_nodes, vec)"""
    vec, d = fe.vec, fe.dim
    cells = onp.asarray(fe.cells)
    N = onp.asarray(fe.shape_vals)
    G = onp.asarray(fe.shape_grads)
    W = onp.asarray(fe.JxW)
    iv = fe.internal_vars
    res = onp.zeros((fe.num_total_nodes, vec), dtype=u.dtype)
    for c in range(len(cells)):
        uc = u[cells[c]]
        for q in range(W.shape[1]):
            g = onp.einsum('av,ad->vd', uc, G[c, q])
            v = N[q] @ uc
            f = 0.
            if cfg.get('tensor'):
                T = TENS[cfg['tensor']](onp, g, *[onp.asarray(a)[c, q] for a in (iv.get('laplace') or ())])
                f = f + onp.einsum('vd,ad->av', T, G[c, q])
            if cfg.get('mass'):
                M = MASS[cfg['mass']](onp, v, *[onp.asarray(a)[c, q] for a in (iv.get('mass') or ())])
                f = f + N[q][:, None] * M[None, :]
            if cfg.get('body'):
                f = f - N[q][:, None] * body_fn(onp, N[q] @ onp.asarray(iv['body'])[cells[c]])[None, :]
            elif cfg.get('source'):
                x = N[q] @ onp.asarray(fe.points)[cells[c]]
                f = f - N[q][:, None] * src_fn(onp, x, vec)[None, :]
            for a in range(len(cells[c])):
                res[cells[c][a]] = res[cells[c][a]] + W[c, q] * f[a]
    FN = onp.asarray(fe.face_shape_vals)
    for kind in ('cauchy', 'neumann'):
        for k, s in enumerate(cfg.get(kind) or []):
            binds = onp.asarray(fe.get_boundary_conditions_inds([side_fn(onp.asarray(fe.points), tuple(s))])[0])
            _, ns = fe.get_face_shape_grads(binds)
            ns = onp.asarray(ns)
            if kind == 'neumann' and cfg.get('neumann_iv'):
                own = {(int(c), int(f)): i for i, (c, f) in enumerate(onp.asarray(fe.neumann_boundary_inds_list[k]))}
                nv = onp.asarray(iv['neumann'][k][0])
            for i, (c, f) in enumerate(binds):
                uc = u[cells[c]]
                X = onp.asarray(fe.points)[cells[c]]
                for q in range(ns.shape[1]):
                    if kind == 'cauchy':
                        val = cauchy_fn(onp, FN[f, q] @ uc, k, 0. if cfg.get('cauchy_lin') else .3)
                    else:
                        val = -neu_fn(onp, FN[f, q] @ X, vec, k)
                        if cfg.get('neumann_iv'):
                            val = val * nv[own[(int(c), int(f))], q]
                    for a in range(len(cells[c])):
                        res[cells[c][a]] = res[cells[c][a]] + ns[i, q] * FN[f, q, a] * val
    return res


def ref_jacobian(fe, cfg, u):
    """dense derivative of the model by complex steps (exact to rounding)"""
    n, vec = u.shape
    J = onp.zeros((n * vec, n * vec))
    h = 1e-30
    for j in range(n * vec):
        z = u.astype(complex)
        z[j // vec, j % vec] += 1j * h
        J[:, j] = ref_residual(fe, cfg, z).imag.reshape(-1) / h
    return J


def dense_K(fe):
    n = fe.num_total_dofs
    K = onp.zeros((n, n))
    onp.add.at(K, (onp.asarray(fe.I), onp.asarray(fe.J)), onp.asarray(fe.V))
    return K


def feature_cases(tier):
    """the enumerated space of weak forms used by the residual and the tangent checks"""
    out = []
    tens, mass = [None, 'lin', 'nl', 'iv'], [None, 'nl', 'iv']
    cau = [[], [(0, 0)], [(0, 1), (1, 0)]]
    neu = [([], False), ([(1, 1)], False), ([(0, 0), (1, 1)], False), ([(0, 1), (1, 0)], True)]
    import itertools
    if tier == 'quick':
        cau, neu = cau[::2], [neu[0], neu[2], neu[3]]
    for t, m, c, (n, niv), s in itertools.product(tens, mass, cau, neu, [0, 1, 2]):
        if t is None and m is None:
            continue
        if tier == 'quick' and s == 2 and not (c == [] or niv):
            continue
        out.append({'ele': 'QUAD4', 'n': [2, 1], 'kind': 'box', 'relabel': 1, 'rot': 1, 'vec': 2,
                    'cfg': {'tensor': t, 'mass': m, 'cauchy': c, 'neumann': n, 'neumann_iv': niv and bool(n),
                            'source': s == 1, 'body': s == 2}})
    full = {'tensor': 'iv', 'mass': 'iv', 'cauchy': [(0, 1), (1, 0)], 'neumann': [(0, 0), (1, 1)], 'neumann_iv': True, 'source': True, 'body': False}
    nl = dict(full, tensor='nl', mass='nl', neumann_iv=False)
    from mc import femref as F
    for ele in F.ELE:
        for vec in (1, 2, 3):
            for cfg in (full, nl):
                if ele == 'HEX27' and (vec == 2 or cfg is nl) and tier == 'quick':
                    continue
                out.append({'ele': ele, 'n': [1] * (F.DIM[ele] - 1) + [1 if F.BASE[ele] in ('TET',) or ele == 'HEX27' else 2],
                            'kind': 'box', 'relabel': 2, 'rot': 1, 'vec': vec, 'cfg': cfg})
    # more components than dimensions; three conditions per list, also several on one side
    for ele, vec, sides in itertools.product(('QUAD4', 'TRI3', 'HEX8'), (1, 4), ([(0, 1), (1, 0), (0, 0)], [(1, 0), (1, 0), (0, 1), (1, 1)])):
        out.append({'ele': ele, 'n': [2, 1] if F.DIM[ele] == 2 else [1, 1, 1], 'kind': 'box', 'relabel': 1, 'rot': 1, 'vec': vec,
                    'cfg': dict(full, cauchy=sides, neumann=sides[::-1])})
    # number of cells: every remainder of the internal batching
    for nc in range(1, (46 if tier == 'quick' else 130)):
        out.append({'ele': 'QUAD4', 'n': [nc, 1], 'kind': 'box', 'relabel': nc % 3, 'rot': 1, 'vec': 1,
                    'cfg': dict(full, cauchy=[], neumann=[], neumann_iv=False, source=False, mass='iv' if nc % 20 < 2 else None)})
    for nc in range(1, (12 if tier == 'quick' else 61)):
        out.append({'ele': 'TRI3', 'n': [nc, 1], 'kind': 'box', 'relabel': 0, 'rot': 1, 'vec': 2,
                    'cfg': dict(full, neumann=[], neumann_iv=False, source=nc % 2 == 0)})
    return out


# ------------------------------------------------------------------------------------------
# Dirichlet patterns and the model solution

def bc_value(xp, x, j):
    return .1 * (j + 1) + .2 * x[0] - .15 * x[-1]


def dirichlet_info(pts, pattern, scale=1.):
    """pattern: list of [side or 'none' or 'all', component, value index]; later entries win"""
    import jax.numpy as jnp
    fns, vecs, vals = [], [], []
    for side, comp, j in pattern:
        if side == 'none':
            fns.append(lambda x: x[0] > 1e9)
        elif side == 'all':
            fns.append(lambda x: x[0] < 1e9)
        else:
            fns.append(side_fn(pts, tuple(side)))
        vecs.append(comp)
        vals.append(lambda x, j=j: scale * bc_value(jnp, x, j))
    return [fns, vecs, vals]


def dirichlet_model(pts, pattern, scale=1.):
    """dof (node, comp) -> value; later entries win"""
    out = {}
    for side, comp, j in pattern:
        if side == 'none':
            m = onp.zeros(len(pts), bool)
        elif side == 'all':
            m = onp.ones(len(pts), bool)
        else:
            m = side_mask(pts, tuple(side))
        for i in onp.nonzero(m)[0]:
            out[(int(i), comp)] = scale * bc_value(onp, pts[i], j)
    return out


def ref_solve(fe, cfg, fixed, u0=None, iters=30, pairs=()):
    """dense Newton on the model with eliminated constraints -> solution (num_nodes, vec)"""
    n, vec = fe.num_total_nodes, fe.vec
    u = onp.zeros((n, vec)) if u0 is None else onp.array(u0, float)
    for (i, c), v in fixed.items():
        u[i, c] = v
    slave = {b: a for a, b in pairs}          # dof b follows dof a, (node, comp) each

    def master(k):
        while k in slave:
            k = slave[k]
        return k
    free = [k for k in range(n * vec) if (k // vec, k % vec) not in fixed and (k // vec, k % vec) not in slave]
    pos = {(k // vec, k % vec): a for a, k in enumerate(free)}
    T = onp.zeros((n * vec, len(free)))
    for k in range(n * vec):
        d = (k // vec, k % vec)
        if d in fixed:
            continue
        m = master(d)
        if m in fixed:
            u[d] = fixed[m]
        else:
            T[k, pos[m]] = 1.
            u[d] = u[m]
    for it in range(iters):
        r = T.T @ ref_residual(fe, cfg, u).reshape(-1)
        if len(free) == 0 or onp.linalg.norm(r) < 1e-11:
            break
        K = T.T @ ref_jacobian(fe, cfg, u) @ T
        u = u + (T @ onp.linalg.solve(K, -r)).reshape(n, vec)
    else:
        raise RuntimeError('model solution did not converge')
    return u

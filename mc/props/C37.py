"""Crystal plasticity at a material point along every short load history, and its use inside a finite element."""
import contextlib
import io
import itertools
import os
import numpy as onp
from mc import femref as F
from mc.femcommon import PRELOAD  # noqa

BOUNDS = {'quick': 'every history of 3 increments over {tension, compression, two shears, hold} x 4 crystal orientations x 2 time increments; after every increment stress, plastic deformation, slip and '
                   'resistance satisfy the elastic law, the flow rule and the hardening rule; tangent at every state of the first two increments; rotation of tensors for the 24 cube rotations and 8 other '
                   'quaternions; one and two cell meshes of differently oriented crystals: history update, cell stress',
          'thorough': 'histories of 5 increments, tangents of 4; three cell meshes'}
ASSUMPTIONS = ['the slip systems are the twelve of a face centred cubic crystal: the table itself is not part of the repository']
CASE_LIMIT = 600
INC = {'t': onp.diag([-.0006, -.0006, .002]), 'c': onp.diag([.0009, -.0025, .0009]), 's': onp.array([[0., .003, 0.], [0, 0, 0], [0, 0, 0]]),
       'm': onp.array([[.0005, -.001, .0015], [.0008, -.001, 0], [.0004, .002, .0003]]), 'h': onp.zeros((3, 3))}
QUAT = onp.array([[1., 0, 0, 0], [.5, .5, .5, .5], [.8, .36, -.48, 0.], [.9, .1, .3, onp.sqrt(1 - .81 - .01 - .09)]])
G0, HH, TS, GA, AO, XM = 60.8, 541.5, 109.8, 2.5, .001, .1
C11, C12, C44 = 1.684e5, 1.214e5, .754e5


def slip_table():
    rows = []
    for n in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)):
        for d in ((0, 1, -1), (1, 0, -1), (1, -1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
            if onp.dot(n, d) == 0:
                rows.append(n + d)
    return onp.array(rows, float)


def schmid():
    t = slip_table()
    n, d = t[:, :3] / onp.sqrt(3), t[:, 3:] / onp.sqrt(2)
    return onp.einsum('si,sj->sij', d, n)


def rotation(q):
    """rotate the basis vectors with quaternion products"""
    def mul(a, b):
        return onp.concatenate([[a[0] * b[0] - a[1:] @ b[1:]], a[0] * b[1:] + b[0] * a[1:] + onp.cross(a[1:], b[1:])])
    c = q * onp.array([1, -1, -1, -1])
    return onp.stack([mul(mul(q, onp.concatenate([[0.], e])), c)[1:] for e in onp.eye(3)], 1)


def stiffness():
    C = onp.zeros((3, 3, 3, 3))
    for i, j in itertools.product(range(3), repeat=2):
        C[i, i, j, j] = C11 if i == j else C12
        if i != j:
            C[i, j, i, j] = C[i, j, j, i] = C44
    return C


def cases(tier):
    out = [{'kind': 'rot'}]
    for q, dt in itertools.product(range(len(QUAT)), (.05, .4)):
        out.append({'kind': 'hist', 'quat': q, 'dt': dt, 'len': 3 if tier == 'quick' else 5})
    for ori in ([2], [0, 2], [3, 1]) if tier == 'quick' else ([0], [2], [0, 2], [2, 1], [3, 3], [1, 0, 3], [2, 2, 0]):
        out.append({'kind': 'fe', 'ori': ori})
    return sorted(out, key=lambda c: c['kind'] != 'fe')


def build(R, mesh, quat, ori):
    import applications.fem.crystal_plasticity.models as M
    from jax_am.fem.generate_mesh import Mesh
    root = str(R.tmp())
    os.makedirs(root + '/data/csv', exist_ok=True)
    onp.savetxt(root + '/data/csv/input_slip_sys.txt', slip_table())
    M.crt_dir = root
    return M, M.CrystalPlasticity(Mesh(*mesh, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8', additional_info=(quat, onp.array(ori)))


def certify(R, g, dt, old, new, P, rot, w):
    """new state and stress solve the implicit equations of the increment"""
    Fi, res, slip, rm = [onp.asarray(v) for v in new]
    Fi0, res0, slip0, rm0 = [onp.asarray(v) for v in old]
    S_ = onp.einsum('ia,sab,jb->sij', rot, schmid(), rot)
    C = onp.einsum('ia,jb,kc,ld,abcd->ijkl', rot, rot, rot, rot, stiffness())
    D = g + onp.eye(3)
    Fe = D @ Fi
    S = onp.einsum('ijkl,kl->ij', C, .5 * (Fe.T @ Fe - onp.eye(3)))
    tau = onp.einsum('ij,sij->s', S, S_)
    dg = AO * dt * abs(tau / res0)**(1 / XM) * onp.sign(tau)
    ok = R.close(slip - slip0, dg, 1e-6, f'{w}: slip increments against the flow rule', scale=max(1e-7, abs(dg).max()))
    ok &= R.close(Fi, Fi0 @ (onp.eye(3) - onp.einsum('s,sij->ij', slip - slip0, S_)), 1e-12, f'{w}: plastic deformation', scale=1.)
    hard = HH * onp.abs(slip - slip0) * abs(1 - res0 / TS)**GA * onp.sign(1 - res0 / TS)
    ok &= R.close(res, res0 + hard.sum(), 1e-10, f'{w}: slip resistance', scale=G0)
    ok &= R.close(rm, rot, 1e-12, f'{w}: orientation', scale=1.)
    J, Je = onp.linalg.det(D), onp.linalg.det(Fe)
    want = J / Je * Fe @ S @ Fe.T @ onp.linalg.inv(D).T
    ok &= R.close(P, want, 1e-7, f'{w}: stress', scale=max(1., abs(want).max()))
    return ok, want


def run_case(case, R):
    with contextlib.redirect_stdout(io.StringIO()):
        {'rot': rot, 'hist': hist, 'fe': fe}[case['kind']](case, R)


def rot(case, R):
    import jax.numpy as np
    import applications.fem.crystal_plasticity.models as M
    qs = [onp.array(q, float) for q in QUAT]
    h = onp.sqrt(.5)
    for i in range(4):
        q = onp.zeros(4)
        q[i] = 1.
        qs.append(q)
        for j, s in itertools.product(range(i), (1, -1)):
            q = onp.zeros(4)
            q[i], q[j] = h, s * h
            qs.append(q)
    qs += [onp.array([.5] + [.5 * s for s in t]) for t in itertools.product((1, -1), repeat=3)]
    qs += [onp.array([.1 * k, .2, -.3 + .1 * k, .7]) for k in range(4)]
    T2 = onp.sin(onp.arange(9.)).reshape(3, 3)
    T4 = onp.sin(onp.arange(81.) * .7).reshape(3, 3, 3, 3)
    for q in qs:
        q = q / onp.linalg.norm(q)
        Q = rotation(q)
        ok = R.close(M.get_rot_mat(np.array(q)), Q, 1e-12, f'rotation of quaternion {q}', scale=1.)
        ok &= R.close(M.rotate_tensor_rank_2(np.array(Q), np.array(T2)), Q @ T2 @ Q.T, 1e-11, f'second rank tensor rotated by {q}', scale=1.)
        ok &= R.close(M.rotate_tensor_rank_4(np.array(Q), np.array(T4)), onp.einsum('ia,jb,kc,ld,abcd->ijkl', Q, Q, Q, Q, T4), 1e-11, f'fourth rank tensor rotated by {q}', scale=1.)
        if not ok:
            return
        R.state('C37r', q.tolist())
    R.trace()


def hist(case, R):
    import jax
    import jax.numpy as np
    M, pb = build(R, F.mesh('HEX8', [1, 1, 1]), QUAT, [case['quat']])
    pb.dt = case['dt']
    Q = rotation(QUAT[case['quat']])
    P_map, up_map = pb.get_maps()
    Pv, uv, Tv = jax.jit(jax.vmap(P_map)), jax.jit(jax.vmap(up_map)), jax.jit(jax.vmap(jax.jacfwd(P_map)))
    st0 = [onp.asarray(v)[0, 0] for v in pb.internal_vars['laplace']]
    R.close(st0[0], onp.eye(3), 1e-14, 'initial plastic deformation', scale=1.)
    R.close(st0[1], onp.full(12, G0), 1e-14, 'initial resistance', scale=1.)
    R.close(st0[2], onp.zeros(12), 1e-14, 'initial slip', scale=1.)
    level = [((), onp.zeros((3, 3)), st0)]
    for n in range(case['len']):
        nxt = [(h + (a,), g + INC[a], s) for h, g, s in level for a in INC]
        args = [np.array([g for _, g, _ in nxt])] + [np.array([s[k] for *_, s in nxt]) for k in range(4)]
        P, new = onp.asarray(Pv(*args)), [onp.asarray(v) for v in uv(*args)]
        if n < case['len'] - 1:
            T = onp.asarray(Tv(*args))
            eps = 1e-6
            for i, j in itertools.product(range(3), repeat=2):
                E = onp.zeros((3, 3))
                E[i, j] = eps
                fd = (onp.asarray(Pv(args[0] + E, *args[1:])) - onp.asarray(Pv(args[0] - E, *args[1:]))) / (2 * eps)
                if not R.close(T[..., i, j], fd, 2e-5, f'tangent of component {i}{j} after {n + 1} increments', scale=C11):
                    return
        level = []
        for k, (h, g, s) in enumerate(nxt):
            st = [v[k] for v in new]
            if not certify(R, g, case['dt'], s, st, P[k], Q, f'history {h}')[0]:
                return
            level.append((h, g, st))
            R.state('C37', case['quat'], case['dt'], h)
            R.trans()
    R.trace(len(level))
    R.sample({'largest slip': float(max(abs(s[2]).max() for *_, s in level)), 'largest stress': float(abs(P).max())})


def fe(case, R):
    import jax
    import jax.numpy as np
    n = len(case['ori'])
    pts, cells = F.mesh('HEX8', [n, 1, 1], 'box', 2, 0)
    M, pb = build(R, (pts, cells), QUAT, case['ori'])
    Q = [rotation(QUAT[o]) for o in case['ori']]
    pb.dt = .1
    params = pb.internal_vars['laplace']
    X = onp.asarray(pb.get_physical_quad_points())
    W = onp.asarray(pb.JxW)
    Pv = jax.jit(jax.vmap(jax.vmap(pb.get_tensor_map())))
    for step, (a, b) in enumerate((('t', .4), ('s', .2))):
        # a displacement that is not affine: the gradient differs from point to point
        G = INC[a] + .3 * INC['m']
        u = pts @ G.T + b * .002 * onp.stack([pts[:, 0] * pts[:, 1], pts[:, 1] * pts[:, 2], pts[:, 0] * pts[:, 2]], 1)
        grad = onp.asarray(pb.sol_to_grad(np.array(u)))
        new = pb.update_int_vars_gp(np.array(u), params)
        sig = onp.asarray(pb.compute_avg_stress(np.array(u), params))
        Ps = onp.asarray(Pv(np.array(grad), *map(np.array, params)))
        for c in range(n):
            tot = 0.
            for q in range(W.shape[1]):
                old = [onp.asarray(v)[c, q] for v in params]
                cur = [onp.asarray(v)[c, q] for v in new]
                D = grad[c, q] + onp.eye(3)
                ok, P = certify(R, grad[c, q], pb.dt, old, cur, Ps[c, q], Q[c], f'step {step}, cell {c}, point {q}')
                if not ok:
                    return
                tot = tot + W[c, q] * P @ D.T / onp.linalg.det(D)
            if not R.close(sig[c], tot / W[c].sum(), 1e-7, f'step {step}: stress of cell {c}', scale=abs(tot / W[c].sum()).max()):
                return
        pb.set_params(new)
        params = new
        R.state('C37f', case['ori'], step)
        R.trans()
    R.trace()

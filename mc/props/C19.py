"""Implicit diffusion problems on structured grids: residual, linearisation and solvers for every boundary condition combination."""
import itertools
import numpy as onp
from mc import cfdref as F
from mc.cfdref import PRELOAD

BOUNDS = {'quick': 'every prescribed-value / prescribed-flux combination on the sides: 16 in 2-D (3x2 and 1x3 grids), 64 in 3-D (2x3x2 grid) and none at all; constant and '
                   'temperature dependent coefficient; without source, with a state dependent source, with two argument fields; residual on fixed fields, '
                   'linearisation against the exact derivative for every unit direction, the implicit energy step with all 64 combinations; linear solve (with and without preconditioner, reused matrix) and Newton solve',
          'thorough': 'additionally 3x3x2 and 1x2x4 grids'}


def cases(tier):
    out = []
    grids = [((3, 2), (.9, 1.4)), ((1, 3), (.5, 2.))]
    for N, dom in grids:
        for nl in (False, True):
            combos = [None] + list(itertools.product((0, 1), repeat=4))
            for i in range(0, len(combos), 6):
                out.append({'N': N, 'dom': dom, 'nl': nl, 'bcs': combos[i:i + 6]})
    for N, dom in [((2, 3, 2), (.6, 1.5, .8))] + ([((3, 3, 2), (.6, 1.5, .8)), ((1, 2, 4), (.6, 1.5, .8))] if tier == 'thorough' else []):
        combos = [None] + list(itertools.product((0, 1), repeat=6))
        for i in range(0, len(combos), 5):
            for nl in (False, True):
                out.append({'N': N, 'dom': dom, 'nl': nl, 'bcs': combos[i:i + 5]})
    for i in range(0, 64, 8):
        out.append({'energy': list(itertools.product((0, 1), repeat=6))[i:i + 8]})
    return out


def energy(case, R):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.cfd import cfd_am as C
    N, dom = (2, 3, 2), (2e-5, 3.6e-5, 1.5e-5)
    g = F.Grid(dom, N)
    n = len(g.cells)
    P = dict(rho=8000., latent_heat=2e5, Tl=1623., Ts=1563., dt=3e-6)
    k = lambda T: .01674 * onp.clip(T, 300, 1563) + 3.9   # noqa
    T0 = 1500. + 90 * onp.sin(onp.arange(n) * 1.7)
    conv, Q = 3e6 * onp.cos(onp.arange(n)), 5e12 * onp.sin(.9 * onp.arange(n))
    cp = .2 * T0 + 370. + P['latent_heat'] / 60. * ((T0 > P['Ts']) & (T0 < P['Tl']))
    for bc in case['energy']:
        val = [1450. + 20 * s + 7. * onp.arange(len(g.side_cells(s))) if bc[s] == 0 else 1e8 * (s - 2.5) + 1e7 * onp.arange(len(g.side_cells(s))) for s in range(6)]
        mesh = F.real_mesh(dom, N)
        E = C.energy_eqn(dict(P, mesh=mesh, cp=lambda T: .2 * T + 370., k=lambda T: .01674 * np.clip(T, 300, 1563) + 3.9))
        E.bc_fn = lambda a: (list(bc), [np.array(v) * a for v in val])
        T, BCs, it = E.update(np.array(T0.reshape(N + (1,))), np.array(conv.reshape(N + (1,))), np.array(Q.reshape(N + (1,))), 1., np.array(mesh.cell_conn))
        T = onp.asarray(T)

        def res(U):
            A, b = F.diffusion(g, F.harmonic(k, U), bc, val, mu_b=k)
            return A @ U - b + g.dV * (P['rho'] * cp * ((U - T0) / P['dt'] + conv) - Q)
        r, r0 = onp.linalg.norm(res(T.reshape(-1))), onp.linalg.norm(res(T0))
        R.expect(T.shape == N + (1,) and r <= 3e-5 * r0, f'energy equation with conditions {bc}: residual {r} of {r0}')
        R.state('C19e', bc)
        R.trans()
        R.trace()


def run_case(case, R):
    if 'energy' in case:
        return energy(case, R)
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.cfd import cfd_am as C
    N, nl = tuple(case['N']), case['nl']
    g = F.Grid(case['dom'], N)
    n = len(g.cells)
    mesh = F.real_mesh(case['dom'], N)
    k = lambda u: 1.2 + .3 * u + .1 * u * u   # noqa
    dk = lambda u: .3 + .2 * u   # noqa
    src = lambda u, a, b: 2. * a - (1.5 + b) * u   # noqa   linear in u, so that the linear solver applies
    for bc in case['bcs']:
        bv = None if bc is None else [.3 * (s + 1) + .05 * onp.arange(len(g.side_cells(s))) for s in range(2 * g.d)]
        mk = dict(mu_fn=k, nonlinear=True) if nl else dict(mu=1.7)
        jb = None if bc is None else [np.array(v) for v in bv]
        eqn = C.poisson(mesh, source_fn=src, bc_type=None if bc is None else list(bc), bc_value=jb, **mk)
        plain = C.poisson(mesh, bc_type=None if bc is None else list(bc), bc_value=jb, **mk)
        a, b = onp.cos(onp.arange(n)) + .2, .3 + .1 * onp.arange(n)
        w = f'{N} {"variable" if nl else "constant"} coefficient, conditions {bc}'

        def parts(U):
            A, c = F.diffusion(g, F.harmonic(k, U) if nl else (lambda *_: 1.7), bc, bv, mu_b=k if nl else None)
            return A, c

        def resid(U, source=True):
            A, c = parts(U)
            return A @ U - c - (g.dV * src(U, a, b) if source else 0.)
        assert eqn.ndof == n
        for q, U in enumerate((onp.zeros(n), onp.ones(n), .5 + .4 * onp.sin(onp.arange(n)))):
            sc = 20.
            R.close(eqn.compute_residual(np.array(U), np.array(a), np.array(b)), resid(U), 1e-11, f'{w}: residual {q}', scale=sc)
            R.close(plain.compute_residual(np.array(U)), resid(U, False), 1e-11, f'{w}: residual without source {q}', scale=sc)
            eqn.newton_update(np.array(U), np.array(a), np.array(b))
            J = onp.zeros((n, n))
            for i in range(n):
                h = 1e-4
                e = onp.eye(n)[i] * h
                # fourth order difference of the model; exact for the constant coefficient
                J[:, i] = (8 * (resid(U + e) - resid(U - e)) - (resid(U + 2 * e) - resid(U - 2 * e))) / (12 * h)
                R.close(eqn.compute_linearized_residual(np.array(onp.eye(n)[i])), J[:, i], 1e-7, f'{w}: linearisation in direction {i}', scale=sc)
                R.trans()
            R.close(eqn.jacobiPreconditioner(np.ones(n)), 1. / onp.diag(J), 1e-6, f'{w}: preconditioner', scale=1.)
            R.state('C19', N, nl, bc, q)
        if not nl:
            A, c = parts(onp.zeros(n))
            want = onp.linalg.solve(A + g.dV * onp.diag(1.5 + b), c + g.dV * 2. * a)
            for pre in (False, True):
                got = C.solver_linear(eqn, np.array(a), np.array(b), tol=1e-12, precond=pre)
                R.close(got, want, 1e-8, f'{w}: linear solution (preconditioner {pre})', scale=max(1., abs(want).max()))
            got = C.solver_linear(eqn, np.array(a) * 2, np.array(b), tol=1e-12, update=False)
            want2 = onp.linalg.solve(A + g.dV * onp.diag(1.5 + b), c + g.dV * 4. * a)
            R.close(got, want2, 1e-8, f'{w}: linear solution with the kept matrix', scale=max(1., abs(want2).max()))
            if bc is not None and 0 in bc:
                want = onp.linalg.solve(A, c)
                R.close(C.solver_linear(plain, tol=1e-12), want, 1e-8, f'{w}: solution without source', scale=max(1., abs(want).max()))
            if g.d == 3 and bc is not None and 0 not in bc:
                # only fluxes: determined up to a constant, the first cell is the reference
                bal = C.poisson(mesh, mu=1.7, source_fn=lambda u, s: s, bc_type=list(bc), bc_value=jb)
                rhs = onp.sin(2. * onp.arange(n))
                rhs -= rhs.mean() + c.sum() / g.dV / n
                want = onp.linalg.lstsq(A, c + g.dV * rhs, rcond=None)[0]
                for pre in (False, True):
                    got = C.solver_linear(bal, np.array(rhs), tol=1e-12, relative=True, precond=pre)
                    R.close(got, want - want[0], 1e-8, f'{w}: solution relative to the first cell', scale=max(1., abs(want).max()))
        else:
            for init in (None, .5 + .1 * onp.sin(onp.arange(n))):
                got, it = C.solver_nonlinear(eqn, np.array(a), np.array(b), init=None if init is None else np.array(init), precond=True)
                r0 = onp.linalg.norm(resid(onp.zeros(n) if init is None else init))
                R.expect(onp.linalg.norm(resid(onp.asarray(got))) <= 2e-5 * r0, f'{w}: the Newton solution leaves the residual {onp.linalg.norm(resid(onp.asarray(got)))} of {r0}')
                R.expect(int(it) >= 1, f'{w}: no iteration')
            # a converged state is not changed
            again, it = C.solver_nonlinear(eqn, np.array(a), np.array(b), init=got, precond=True)
            R.close(again, got, 1e-4, f'{w}: solving from the solution moves it', scale=1.)
        R.trace()
    R.sample({'grid': N, 'conditions': case['bcs'][:3]})

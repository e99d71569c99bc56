"""Periodic boundary conditions: paired nodes are equal and the rest is in equilibrium."""
import itertools
import numpy as onp
from mc import femref as F
from mc.femcommon import *   # noqa
from mc.femcommon import PRELOAD

BOUNDS = {'quick': 'symmetric linear and nonlinear problems x {PETSc, JAX} x every choice of periodic axis and component set x '
                   '{no, one, two} Dirichlet conditions x 3 node numberings x {QUAD4, TRI3, HEX8, TET4}; pairings of every direction A->B and B->A, also for parts of a few thousandths of the length unit; conditioning parameters 1, 2.5, 0.4',
          'thorough': 'as quick with all element types and two periodic axes'}
ASSUMPTIONS = ['problems with a symmetric tangent (the Lagrange multiplier system is solved with MINRES)',
               'no node is constrained twice (Dirichlet and periodic predicates are disjoint)']
SYM = {'tensor': 'sym', 'mass': 'sym', 'neumann': [(1, 1)], 'source': True}
SYMNL = {'tensor': 'symnl', 'mass': 'symnl', 'neumann': [(1, 1)], 'source': True}


def cases(tier):
    out = []
    eles = [('QUAD4', [2, 3]), ('TRI3', [2, 2]), ('HEX8', [1, 2, 2]), ('TET4', [1, 2, 1])]
    if tier == 'thorough':
        eles += [('QUAD8', [2, 2]), ('TRI6', [2, 2]), ('HEX20', [1, 1, 2]), ('TET10', [1, 1, 1]), ('QUAD4', [4, 3])]
    for ele, n in eles:
        d = F.DIM[ele]
        for ax in range(d):
            for comps in ([0], [1], [0, 1]):
                for nd in (0, 1, 2):
                    for rl in ((0, 1, 2) if ele == 'QUAD4' or tier == 'thorough' else (2,)):
                        for flip in (0, 1):
                            if tier == 'quick' and ele != 'QUAD4' and (flip + nd + len(comps)) % 2:
                                continue
                            for petsc in (True, False):
                                if ele == 'QUAD4' and rl != 2 and (flip != rl or comps == [1]):
                                    continue
                                out.append({'ele': ele, 'n': n, 'ax': ax, 'comps': comps, 'nd': nd, 'relabel': rl, 'flip': flip,
                                            'petsc': petsc, 'linear': True})
                                if nd == 1 and comps == [0, 1] and flip == 0:
                                    out.append(dict(out[-1], linear=False))
    for i, c in enumerate(out):
        c['eps'] = (None, 2.5, .4)[i % 3] if c['nd'] else None
    for ele, n in eles:
        for ax, rl, flip in itertools.product(range(F.DIM[ele]), (0, 1, 2), (0, 1)):
            out.append({'ele': ele, 'n': n, 'ax': ax, 'comps': [0, 1], 'nd': rl, 'relabel': rl, 'flip': flip, 'petsc': True, 'linear': True, 'small': True})
    return out


def run_case(case, R):
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    ele, ax, petsc = case['ele'], case['ax'], case['petsc']
    d = F.DIM[ele]
    pts, cells = F.mesh(ele, case['n'], 'box', case['relabel'], 1)
    if case.get('small'):
        pts = pts * 4e-3        # a part of a few thousandths of the length unit
    cfg = SYM if case['linear'] else SYMNL
    lo, hi = pts[:, ax].min(), pts[:, ax].max()
    # Dirichlet on sides normal to another axis; the periodic predicate leaves those nodes out
    oth = (ax + 1) % d
    pat = [[(oth, 0), 0, 0], [(oth, 1), 1, 1]][:case['nd']]
    fixed = dirichlet_model(pts, pat)
    olo, ohi = pts[:, oth].min(), pts[:, oth].max()
    dcomps = {c: s for (_, s), c, _ in [((a[0][0], a[0][1]), a[1], a[2]) for a in pat]}

    def loc(v, comp):
        def f(x):
            ok = jnp.isclose(x[ax], v, atol=1e-6)
            if comp in dcomps:
                ok = ok & ~jnp.isclose(x[oth], ohi if dcomps[comp] else olo, atol=1e-6)
            return ok
        return f
    a, b = (lo, hi) if not case['flip'] else (hi, lo)

    def mapping(x):
        return x.at[ax].add(b - a) if hasattr(x, 'at') else x + onp.eye(d)[ax] * (b - a)
    per = [[loc(a, c) for c in case['comps']], [loc(b, c) for c in case['comps']], [mapping] * len(case['comps']), case['comps']]
    fe = make_problem(pts, cells, ele, 2, cfg, dirichlet=dirichlet_info(pts, pat) if pat else None, periodic=per)
    R.state('C06', case)
    R.trans()
    pairs = []
    for c in case['comps']:
        for i in range(len(pts)):
            if abs(pts[i, ax] - a) < 1e-6 and (i, c) not in fixed:
                q = pts[i].copy()
                q[ax] = b
                j = int(onp.argmin(onp.sum((pts - q)**2, 1)))
                pairs.append(((i, c), (j, c)))
    gp = {((int(i), int(v)), (int(j), int(v))) for A, B, V in zip(fe.p_node_inds_list_A, fe.p_node_inds_list_B, fe.p_vec_inds_list)
          for i, j, v in zip(onp.asarray(A), onp.asarray(B), onp.asarray(V))}
    R.expect(gp == set(pairs), 'paired nodes differ from the geometric pairing', got=sorted(gp), want=sorted(pairs))
    if case.get('small'):
        R.trace()
        return
    if case.get('eps'):
        fe.p_num_eps = case['eps']
    want = ref_solve(fe, cfg, fixed, pairs=pairs)
    sol = onp.asarray(solver(fe, linear=case['linear'], use_petsc=petsc))
    sc = max(.1, float(onp.max(onp.abs(want))))
    R.close(sol, want, 1e-3 if petsc and case['linear'] else 1e-5, 'solution differs from the periodic equilibrium', scale=sc)
    for (i, c), (j, _) in pairs:
        if not abs(sol[i, c] - sol[j, c]) <= (1e-3 if petsc and case['linear'] else 1e-5) * sc:
            R.fail(f'paired nodes {i}, {j} differ in component {c}: {sol[i, c]} {sol[j, c]}')
    R.trace()
    R.sample({'pairs': pairs[:4], 'solution': sol[:3]})

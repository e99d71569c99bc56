"""Independent finite volume model (plain loops and dense matrices) of the CFD part."""
import itertools
import numpy as onp

PRELOAD = ['jax', 'jax.numpy', 'numpy', 'scipy', 'scipy.linalg', 'meshio', 'pyfiglet', 'jax.experimental.sparse', 'yaml', 'matplotlib.pyplot', 'pandas']


class Grid:
    """cells are numbered with the last axis fastest; side 2a is the low side of axis a, side 2a+1 the high one"""

    def __init__(self, domain, N):
        self.N, self.d = tuple(N), len(N)
        self.dX = onp.array(domain, dtype=float) / onp.array(N)
        self.dV = float(onp.prod(self.dX))
        self.cells = list(itertools.product(*[range(n) for n in N]))
        self.id = {c: i for i, c in enumerate(self.cells)}
        self.area = [self.dV / self.dX[a] for a in range(self.d)]
        self.xc = onp.array([[(i + .5) * h for i, h in zip(c, self.dX)] for c in self.cells])

    def nb(self, c, side):
        a, s = divmod(side, 2)
        o = list(c)
        o[a] += 1 if s else -1
        return tuple(o) if 0 <= o[a] < self.N[a] else None

    def side_cells(self, side):
        return [c for c in self.cells if self.nb(c, side) is None]

    def side_points(self, side):
        a, s = divmod(side, 2)
        out = []
        for c in self.side_cells(side):
            x = [(i + .5) * h for i, h in zip(c, self.dX)]
            x[a] += self.dX[a] / 2 * (1 if s else -1)
            out.append(x)
        return onp.array(out)


def real_mesh(domain, N):
    from jax_am.cfd import cfd_am
    return (cfd_am.mesh3d if len(N) == 3 else cfd_am.mesh2d)(list(domain), list(N))


def diffusion(g, mu, bc_type, bc_value, mu_b=None):
    """dense A, b of  -div(mu grad U) integrated over the cells = A U - b ; mu is a function of (U cell, U neighbour) -> number, given U"""
    n = len(g.cells)
    A, b = onp.zeros((n, n)), onp.zeros(n)
    for i, c in enumerate(g.cells):
        for s in range(2 * g.d):
            a = s // 2
            o = g.nb(c, s)
            if o is not None:
                j = g.id[o]
                k = mu(i, j) * g.area[a] / g.dX[a]
                A[i, i] += k
                A[i, j] -= k
    if bc_type is not None:
        for s in range(2 * g.d):
            a = s // 2
            for q, c in enumerate(g.side_cells(s)):
                i = g.id[c]
                v = float(onp.asarray(bc_value[s])[q])
                if bc_type[s] == 0:
                    k = (mu_b(v) if mu_b else mu(i, i)) * g.area[a] / (g.dX[a] / 2)
                    A[i, i] += k
                    b[i] += k * v
                else:
                    b[i] += v * g.area[a]
    return A, b


def harmonic(k, U):
    return lambda i, j: 2. / (1. / k(U[i]) + 1. / k(U[j]))


# ---------------------------------------------------------------------------------------------
# operators on arrays (Nx, Ny, Nz, m)

def ghost(f, side, typ, val, dX):
    """values of the cell layer outside the side (given derivative along the positive axis for Neumann)"""
    a, s = divmod(side, 2)
    inner = onp.take(f, [-1 if s else 0], axis=a)
    val = onp.broadcast_to(onp.asarray(val, dtype=float), inner.shape)
    dirichlet = 2 * val - inner
    neumann = inner + (dX[a] if s else -dX[a]) * val
    if typ == 0:
        return dirichlet
    if typ == 1:
        return neumann
    out = neumann.copy()
    out[..., 2] = dirichlet[..., 2]
    return out


ZERO = ([1] * 6, [0.] * 6)


def padded(f, a, bcs, dX, twice=False):
    lo, hi = ghost(f, 2 * a, bcs[0][2 * a], bcs[1][2 * a], dX), ghost(f, 2 * a + 1, bcs[0][2 * a + 1], bcs[1][2 * a + 1], dX)
    return onp.concatenate([lo, lo, f, hi, hi] if twice else [lo, f, hi], axis=a)


def sl(a, x):
    return tuple(x if k == a else slice(None) for k in range(4))


def gradient(f, dX, bcs=ZERO):
    out = []
    for a in range(3):
        p = padded(f, a, bcs, dX)
        out.append((p[sl(a, slice(2, None))] - p[sl(a, slice(None, -2))]) / (2 * dX[a]))
    return onp.concatenate(out, axis=-1)


def laplacian(f, mu, dX, bcs=ZERO):
    """integrated over a cell; mu: number or one array of face values per axis"""
    V = float(onp.prod(dX))
    out = 0.
    for a in range(3):
        p = padded(f, a, bcs, dX)
        flux = (p[sl(a, slice(1, None))] - p[sl(a, slice(None, -1))]) / dX[a]
        flux = flux * (mu if onp.isscalar(mu) else mu[a])
        out = out + (flux[sl(a, slice(1, None))] - flux[sl(a, slice(None, -1))]) * V / dX[a]
    return out


def face_vel(vel, dX, bcs=ZERO):
    out = []
    for a in range(3):
        p = padded(vel, a, bcs, dX)[..., a:a + 1]
        out.append((p[sl(a, slice(1, None))] + p[sl(a, slice(None, -1))]) / 2)
    return out


def convection(f, vf, dX, theta=.125, bcs=ZERO):
    out = 0.
    for a in range(3):
        p = padded(f, a, bcs, dX, twice=True)
        n = p.shape[a]
        g = lambda o: p[sl(a, slice(o, n - 3 + o))]   # noqa
        central = (g(1) + g(2)) / 2
        up = onp.where(vf[a] >= 0, 1.5 * g(1) - .5 * g(0), 1.5 * g(2) - .5 * g(3))
        F = (theta * central + (1 - theta) * up) * vf[a]
        out = out + (F[sl(a, slice(1, None))] - F[sl(a, slice(None, -1))]) / dX[a]
    return out


# ---------------------------------------------------------------------------------------------
# one time step of the melt pool model

class Melt:
    def __init__(self, P, domain, N, domain_local, N_local):
        self.P = P
        self.g, self.gl = Grid(domain, N), Grid(domain_local, N_local)
        self.N, self.Nl = tuple(N), tuple(N_local)
        self.T = onp.full(self.N + (1,), float(P['T_ref']))
        self.cT = onp.zeros(self.N + (1,))
        self.vel, self.c, self.gp = (onp.zeros(self.N + (3,)) for _ in range(3))
        self.solid = onp.zeros(self.N + (1,))
        self.t = 0.

    def laser(self):
        P = self.P
        return P['X0'][0] + self.t * P['speed'], P['X0'][1], P['X0'][2], P['P'] * (self.t < P['t_OFF'])

    def frac(self, T):
        return onp.clip((T - self.P['Ts']) / (self.P['Tl'] - self.P['Ts']), 0, 1)

    def cp(self, T):
        P = self.P
        return onp.array([float(P['cp_np'](t)) for t in T]) + P['latent_heat'] / (P['Tl'] - P['Ts']) * ((T > P['Ts']) & (T < P['Tl']))

    def heat_terms(self):
        """source per volume and the fluxes into the body through the six sides, at the start of the step"""
        P, g = self.P, self.g
        x, y, z, pw = self.laser()
        Q = onp.zeros(len(g.cells))
        flux = [onp.zeros(len(g.side_cells(s))) for s in range(6)]
        beam = lambda X: 2 * pw * P['eta'] / (onp.pi * P['rb']**2) * onp.exp(-2 * ((X[:, 0] - x)**2 + (X[:, 1] - y)**2) / P['rb']**2)   # noqa
        top = self.T[:, :, -1, 0].reshape(-1)
        flux[5] -= P.get('h', 0.) * (top - P['T_ref']) + 5.67e-8 * P.get('emissivity', 0.) * (top**4 - P['T_ref']**4)
        self.amb = False
        if P['heat_source'] == 1:
            d = P['phi'] * pw / P['speed'] / P['rb']**2
            if pw:
                Q = onp.where(z - g.xc[:, 2] <= d, beam(g.xc) / d, 0.)
                self.amb = bool(onp.any(onp.abs(z - g.xc[:, 2] - d) < 1e-9 * d))
        else:
            flux[5] += beam(g.side_points(5))
        return Q, flux

    def energy_residual(self, T, Q, flux):
        """residual of the implicit energy balance of the step for a temperature field"""
        P, g = self.P, self.g
        T, T0 = T.reshape(-1), self.T.reshape(-1)
        A, b = diffusion(g, harmonic(P['k_np'], T), [1] * 6, flux)
        cp = self.cp(T0)
        return A @ T - b + g.dV * (P['rho'] * cp * ((T - T0) / P['dt'] + self.cT.reshape(-1)) - Q)

    def box(self):
        x, y, _, _ = self.laser()
        out = []
        for a, pos in ((0, x), (1, y)):
            lo = round(pos / self.g.dX[a]) - round(self.Nl[a] / 2)
            out.append(min(max(lo, 0), self.N[a] - self.Nl[a]))
        return (slice(out[0], out[0] + self.Nl[0]), slice(out[1], out[1] + self.Nl[1]), slice(self.N[2] - self.Nl[2], self.N[2]))

    def flow(self, T):
        """the velocity update in the box around the laser for the new temperature T"""
        P, g = self.P, self.gl
        B = self.box()
        T = T[B]
        fl = self.frac(T)
        vel, conv, gp = self.vel[B], self.c[B], self.gp[B]
        top = onp.pad(T[:, :, -1, 0], 1, 'edge')
        ma = onp.zeros(T.shape[:2] + (1, 3))
        ma[:, :, 0, 0] = (top[2:, 1:-1] - top[:-2, 1:-1]) / (2 * g.dX[0]) * P['Marangoni'] / P['visco'] * fl[:, :, -1, 0]
        ma[:, :, 0, 1] = (top[1:-1, 2:] - top[1:-1, :-2]) / (2 * g.dX[1]) * P['Marangoni'] / P['visco'] * fl[:, :, -1, 0]
        bcs = ([0, 0, 0, 0, 0, 2], [0., 0., 0., 0., 0., ma])
        drag = 1e7 * P['rho'] * (1 - fl)**2 / (fl**3 + 1e-5)
        star = []
        for i in range(3):
            val = [onp.zeros(len(g.side_cells(s))) for s in range(6)]
            val[5] = ma[:, :, 0, i].reshape(-1) * P['visco']
            A, b = diffusion(g, lambda *_: P['visco'], [0, 0, 0, 0, 0, 1 if i < 2 else 0], val, mu_b=lambda v: P['visco'])
            A += onp.diag(g.dV * (P['rho'] / P['dt'] + drag.reshape(-1)))
            b += g.dV * (P['rho'] * vel[..., i] / P['dt'] - P['rho'] * conv[..., i] - gp[..., i]).reshape(-1)
            star.append(onp.linalg.solve(A, b).reshape(self.Nl))
        star = onp.stack(star, -1)
        vf = face_vel(star, g.dX, bcs)
        dv = sum((vf[a][sl(a, slice(1, None))] - vf[a][sl(a, slice(None, -1))]) / g.dX[a] for a in range(3)) * P['rho'] / P['dt']
        A, _ = diffusion(g, lambda *_: 1., None, None)
        p = onp.linalg.lstsq(A, -g.dV * dv.reshape(-1), rcond=None)[0].reshape(self.Nl + (1,))
        dp = gradient(p, g.dX)
        new = star - P['dt'] / P['rho'] * dp
        vf = face_vel(new, g.dX, bcs)
        return B, new, gp + dp, convection(T, vf, g.dX), convection(new, vf, g.dX)

    def accept(self, T, B, vel, gp, cT, c):
        self.solid = onp.maximum(self.solid, self.frac(T))
        self.T = T
        self.vel[B], self.gp[B], self.cT[B], self.c[B] = vel, gp, cT, c
        self.t += self.P['dt']

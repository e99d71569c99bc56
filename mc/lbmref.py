"""Independent numpy model of the free surface thermal D3Q19 lattice Boltzmann scheme, and the driver of the real code."""
import glob
import itertools
import os
import numpy as onp

LIQ, LG, GAS, WALL = 0, 1, 2, 3
PRELOAD = ['jax', 'jax.numpy', 'numpy', 'meshio', 'h5py', 'yaml', 'pandas', 'matplotlib.pyplot', 'matplotlib.animation']
E = [e for e in itertools.product((0, 1, -1), repeat=3) if sum(abs(c) for c in e) <= 2]
E.sort(key=lambda e: sum(abs(c) for c in e))
W = onp.array([{0: 1 / 3, 1: 1 / 18, 2: 1 / 36}[sum(abs(c) for c in e)] for e in E])
REV = [E.index(tuple(-c for c in e)) for e in E]
EA = onp.array(E, dtype=float)
THETA = 1e-3

# a convenient fluid: lattice units equal physical units, relaxation near one, strong forces
BASE = dict(h=1., dt=1., rho0=1., T0=1., M0=1., gravity=0., dynamic_viscosity=.1, st_coeff=0., st_grad_coeff=0., rp_coeff=0.,
            laser_power=0., beam_size=2., absorbed_fraction=.4, scanning_vel=1., heat_capacity=1., thermal_diffusivitity_l=.12,
            thermal_diffusivitity_s=.05, emissivity=0., h_conv=0., latent_heat_fusion=.3, latent_heat_evap=3., T_liquidus=3.,
            T_solidus=2.5, T_evap=5., enthalpy_s=2.5, enthalpy_l=3.4)


def make_args(N, path=None, interval=1, **kw):
    v = dict(BASE)
    v.update(kw)
    a = {k: {'value': x} for k, x in v.items()}
    for k, n in zip(('Nx', 'Ny', 'Nz'), N):
        a[k] = {'value': int(n)}
    a['laser_path'] = path or {'x_pos': [0., 5.], 'y_pos': [0., 0.], 'switch': [0., 0.]}
    a['output_interval'] = interval
    return a


def steps_path(n, args_dt=1., vel=1.):
    """a laser path (switched off) that takes exactly n steps"""
    return {'x_pos': [0., (n + .4) * args_dt * vel], 'y_pos': [0., 0.], 'switch': [0., 0.]}


def run_real(args, phase, d, fluid_only=False):
    """runs the real simulation; returns {output number: {field: array}}"""
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    import meshio
    from jax_am.lbm.core import simulation
    N = [args[k]['value'] for k in ('Nx', 'Ny', 'Nz')]
    simulation(args, d, lattice_mesh(*N), jnp.array(phase), fluid_only=fluid_only)
    out = {}
    for fn in sorted(glob.glob(os.path.join(d, 'vtk', '*'))):
        m = meshio.read(fn)
        name = os.path.basename(fn)
        out[name] = {k: onp.asarray(v[0]).reshape(tuple(N) + onp.asarray(v[0]).shape[1:] if k == 'vel' else tuple(N)) for k, v in m.cell_data.items()}
        out[name]['_mesh'] = m
    return out


def lattice_mesh(Nx, Ny, Nz):
    """unit cells in the order x-major, z fastest"""
    import meshio
    pid = lambda i, j, k: (i * (Ny + 1) + j) * (Nz + 1) + k   # noqa
    pts = onp.array([[i, j, k] for i in range(Nx + 1) for j in range(Ny + 1) for k in range(Nz + 1)], dtype=float)
    cells = onp.array([[pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k),
                        pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)]
                       for i in range(Nx) for j in range(Ny) for k in range(Nz)])
    return meshio.Mesh(points=pts, cells={'hexahedron': cells})


def nb(a, e):
    """a at x + e"""
    return onp.roll(a, tuple(-c for c in e), axis=(0, 1, 2))


class Model:
    """one object = the state of the lattice; step() advances it"""

    def __init__(self, args, phase, fluid_only=False):
        v = {k: x['value'] for k, x in args.items() if isinstance(x, dict) and 'value' in x}
        L, t, rho, Th, M = v['h'], v['dt'], v['rho0'], v['T0'], v['M0']
        m = rho * L**3
        en = m * L**2 / t**2
        self.fluid_only = fluid_only
        self.scale = dict(rho=rho, vel=L / t, T=Th, L=L)
        self.g = v['gravity'] / (L / t**2)
        self.tau = 3 * v['dynamic_viscosity'] / (rho * L**2 / t) + .5
        self.taul = 3 * v['thermal_diffusivitity_l'] / (L**2 / t) + .5
        self.taus = 3 * v['thermal_diffusivitity_s'] / (L**2 / t) + .5
        self.st = v['st_coeff'] / (m / t**2)
        self.stg = v['st_grad_coeff'] / (m / t**2 / Th)
        self.prec = v['rp_coeff'] * 101325 / (m / (L * t**2))
        self.clap = v['latent_heat_evap'] * v['M0'] / (8.314 * Th)     # L M / (R T_scale), the rest of the exponent is dimensionless
        self.Tev = v['T_evap'] / Th
        self.cp = v['heat_capacity'] / (en / (m * Th))
        self.Hs, self.Hl = v['enthalpy_s'] / (en / m), v['enthalpy_l'] / (en / m)
        self.Ts, self.Tl = v['T_solidus'] / Th, v['T_liquidus'] / Th
        self.sb = 5.67e-8 * v['emissivity'] / (m / t**3 / Th**4)
        self.hc = v['h_conv'] / (m / t**3 / Th)
        self.P = v['laser_power'] / (en / t) * v['absorbed_fraction']
        self.rb = v['beam_size'] / L
        self.phase = onp.array(phase, dtype=int)
        N = self.phase.shape
        self.f = onp.tile(W, N + (1,))
        self.H = onp.tile(W, N + (1,)) * self.cp
        self.mass = onp.ones(N)
        nbl = self.any_nb(LIQ)
        new = (self.phase == GAS) & nbl
        self.phase[new] = LG
        self.mass[self.phase == LG] = .5
        self.m0 = self.total()
        self.melted = onp.zeros(N)
        self.kappa = onp.zeros(N)
        self.amb = ''
        self.events = {}
        self.centre = onp.stack(onp.meshgrid(*[onp.arange(n) + .5 for n in N], indexing='ij'), -1)

    def total(self):
        return self.f.sum(-1)[self.phase == LIQ].sum() + self.mass[self.phase == LG].sum()

    def any_nb(self, ph):
        r = onp.zeros(self.phase.shape, bool)
        for e in E[1:]:
            r |= nb(self.phase, e) == ph
        return r

    def temp(self, H):
        return onp.where(H < self.Hs, H / self.cp, onp.where(H < self.Hl, self.Ts + (H - self.Hs) / (self.Hl - self.Hs) * (self.Tl - self.Ts),
                                                            self.Tl + (H - self.Hl) / self.cp))

    def feq(self, rho, u):
        eu = u @ EA.T
        return W * rho[..., None] * (1 + 3 * eu + 4.5 * eu**2 - 1.5 * onp.sum(u * u, -1)[..., None])

    def heq(self, H, T, u):
        eu = u @ EA.T
        r = W * self.cp * T[..., None] * (1 + 3 * eu + 4.5 * eu**2 - 1.5 * onp.sum(u * u, -1)[..., None])
        r[..., 0] = H - self.cp * T + W[0] * self.cp * T * (1 - 1.5 * onp.sum(u * u, -1))
        return r

    def curvature(self, vof, hint=None):
        def height(ax):
            s = sum(onp.roll(vof, k, axis=ax) for k in range(-3, 4))
            a, b = [k for k in range(3) if k != ax]
            sh = lambda i, j: onp.roll(onp.roll(s, -i, axis=a), -j, axis=b)   # noqa
            ha, hb = (sh(1, 0) - sh(-1, 0)) / 2, (sh(0, 1) - sh(0, -1)) / 2
            haa, hbb = sh(1, 0) - 2 * s + sh(-1, 0), sh(0, 1) - 2 * s + sh(0, -1)
            hab = (sh(1, 1) - sh(-1, 1) - sh(1, -1) + sh(-1, -1)) / 4
            return -(haa + hbb + haa * hb**2 + hbb * ha**2 - 2 * hab * ha * hb) / (1 + ha**2 + hb**2)**1.5
        ks = [height(a) for a in range(3)]
        phi = onp.stack([(onp.roll(vof, -1, axis=a) - onp.roll(vof, 1, axis=a)) / 2 for a in range(3)], -1)
        p = onp.abs(phi)
        order = onp.argsort(-onp.round(p, 9), axis=-1, kind='stable')
        K = onp.stack(ks, -1)
        kappa = onp.take_along_axis(K, order[..., :1], -1)[..., 0]
        # a direction choice between (numerically) equal gradients with different heights is decided by rounding
        tie = onp.zeros(vof.shape, bool)
        near = onp.abs(p - p.max(-1)[..., None]) < 1e-7
        for a in range(3):
            tie |= near[..., a] & (onp.abs(K[..., a] - kappa) > 1e-9)
        if hint is not None:
            # the model allows every one of the equal directions: follow the one the code took
            d = onp.where(near, onp.abs(K - hint[..., None]), onp.inf)
            pick = onp.take_along_axis(K, onp.argmin(d, -1)[..., None], -1)[..., 0]
            good = tie & (d.min(-1) < 1e-5 * (1 + onp.abs(pick)))
            kappa = onp.where(good, pick, kappa)
            tie &= ~good
        self.tie = tie
        return phi, kappa

    def step(self, laser=(0., 0., 0.), hint=None):
        ph, vofs = self.phase, None
        if self.fluid_only:
            self.H = onp.tile(W, ph.shape + (1,)) * (self.Hl + 1.)
        rho, H = self.f.sum(-1), self.H.sum(-1)
        T = self.temp(H)
        fluid = (ph == LIQ) | (ph == LG)
        vof = onp.where(ph == LIQ, rho, onp.where(ph == LG, self.mass, onp.where(ph == WALL, 1., 0.)))
        phi, kappa = self.curvature(vof, hint)
        nphi = onp.linalg.norm(phi, axis=-1)
        n = phi / onp.where(nphi > 0, nphi, 1.)[..., None]
        solidlike = (ph == GAS) | (ph == WALL)
        gT = []
        for a in range(3):
            e = tuple(int(k == a) for k in range(3))
            m = tuple(-c for c in e)
            up = onp.where(nb(solidlike, e), T, nb(T, e))
            dn = onp.where(nb(solidlike, m), T, nb(T, m))
            gT.append((up - dn) / 2)
        gT = onp.stack(gT, -1)
        Tsafe = onp.where(T > 0, T, 1.)
        rec = self.prec * onp.where(T > 0, onp.exp(self.clap * (Tsafe - self.Tev) / (Tsafe * self.Tev)), 0.)
        tang = gT - onp.sum(n * gT, -1)[..., None] * n
        F = self.st * kappa[..., None] * phi + self.stg * tang * (nphi * 2 * vof)[..., None] + rec[..., None] * phi
        F[..., 2] -= rho * self.g
        x, y, s = laser
        q = s * 2 * self.P / (onp.pi * self.rb**2) * onp.exp(-2 * ((self.centre[..., 0] - x)**2 + (self.centre[..., 1] - y)**2) / self.rb**2)
        loss = nphi * (self.hc * (1 - T) + self.sb * (1 - T**4)) * 2 * vof
        Q = onp.maximum(-phi[..., 2], 0) * q * 2 * vof + loss
        u = (self.f @ EA + .5 * F) / onp.where(rho == 0, 1., rho)[..., None]
        u[(rho == 0) | (T < self.Ts)] = 0.
        if not self.fluid_only and onp.any(fluid & (onp.abs(T - self.Ts) < 1e-9)):
            self.amb = 'temperature at the solidus'
        if self.st and onp.any(self.tie & fluid & (nphi > 1e-12) & (T >= self.Ts)):
            self.amb = 'curvature direction tie'
        # collision
        eu = u @ EA.T
        force = (1 - .5 / self.tau) * W * (3 * ((F @ EA.T) - onp.sum(u * F, -1)[..., None]) + 9 * eu * (F @ EA.T))
        fp = self.f + (self.feq(rho, u) - self.f) / self.tau + force
        fp = onp.where((T < self.Ts)[..., None], W * rho[..., None], fp)
        tau = onp.where(T < self.Ts, self.taus, self.taul)[..., None]
        hp = self.H + (self.heq(H, T, u) - self.H) / tau + W * (Q / onp.where(rho > 0, rho, 1.))[..., None]
        fp[~fluid] = 0
        hp[~fluid] = 0
        # streaming and mass exchange
        fn, hn = onp.zeros_like(fp), onp.zeros_like(hp)
        dm = onp.zeros(ph.shape)
        fe = self.feq(onp.ones(ph.shape), u)
        for k, e in enumerate(E):
            src = nb(ph, E[REV[k]])
            fn[..., k] = onp.where(src == GAS, fe[..., k] + fe[..., REV[k]] - fp[..., REV[k]],
                                   onp.where(src == WALL, fp[..., REV[k]], nb(fp[..., k], E[REV[k]])))
            hn[..., k] = onp.where(src == GAS, hp[..., REV[k]], onp.where(src == WALL, W[k] * self.cp, nb(hp[..., k], E[REV[k]])))
            tgt = nb(ph, e)
            flux = nb(fp[..., REV[k]], e) - fp[..., k]
            if k:
                dm += onp.where(tgt == LIQ, flux, onp.where(tgt == LG, flux * (nb(vof, e) + vof) / 2, 0.))
        fn[~fluid] = 0
        hn[~fluid] = 0
        self.f, self.H = fn, hn
        self.mass = onp.where(ph == LIQ, rho, onp.where(ph == LG, self.mass + dm, 0.))
        # changes of the free surface
        r = self.f.sum(-1)
        ev = self.events

        def mark(name, sel):
            ev[name] = ev.get(name, 0) + int(sel.sum())
        lg = ph == LG
        if onp.any(lg & ((onp.abs(self.mass - (1 + THETA) * r) < 1e-9) | (onp.abs(self.mass + THETA * r) < 1e-9))):
            self.amb = 'mass at a conversion threshold'
        s1 = lg & (self.mass > (1 + THETA) * r)
        mark('interface to liquid', s1)
        self.phase = onp.where(s1, LIQ, ph)
        s2 = (self.phase == GAS) & self.any_nb(LIQ)
        mark('gas to interface', s2)
        cnt, ra, ua, Ha, Ta = 0., 0., 0., 0., 0.
        for e in E[1:]:
            wgt = ((nb(self.phase, e) == LIQ) | (nb(self.phase, e) == LG)).astype(float)
            cnt, ra, Ha, Ta = cnt + wgt, ra + wgt * nb(rho, e), Ha + wgt * nb(H, e), Ta + wgt * nb(T, e)
            ua = ua + wgt[..., None] * nb(u, e)
        c = onp.maximum(cnt, 1)
        self.f = onp.where(s2[..., None], self.feq(ra / c, ua / c[..., None]), self.f)
        self.H = onp.where(s2[..., None], self.heq(Ha / c, Ta / c, ua / c[..., None]), self.H)
        self.mass[s2] = 0.
        self.phase = onp.where(s2, LG, self.phase)
        r = self.f.sum(-1)
        s3 = (self.phase == LG) & (self.mass < -THETA * r)
        mark('interface to gas', s3)
        self.phase = onp.where(s3, GAS, self.phase)
        s4 = (self.phase == LIQ) & self.any_nb(GAS)
        mark('liquid to interface', s4)
        self.phase = onp.where(s4, LG, self.phase)
        self.mass = onp.where(s4, r, self.mass)
        noliq, nogas = ~self.any_nb(LIQ), ~self.any_nb(GAS)
        s5 = (self.phase == LG) & noliq
        s6 = (self.phase == LG) & ~noliq & nogas
        mark('isolated interface to gas', s5)
        mark('enclosed interface to liquid', s6)
        self.phase = onp.where(s5, GAS, onp.where(s6, LIQ, self.phase))
        nlg = int((self.phase == LG).sum())
        if nlg:
            self.mass = onp.where(self.phase == LG, self.mass + (self.m0 - self.total()) / nlg, self.mass)
        empty = (self.phase == GAS) | (self.phase == WALL)
        self.f[empty] = 0
        self.H[empty] = 0
        self.mass[empty] = 0
        self.melted = onp.where(T > self.Ts, 1., self.melted)
        self.kappa = kappa
        if not (onp.all(onp.isfinite(self.f)) and onp.max(onp.abs(self.f)) < 1e3):
            self.amb = 'unstable'

    def observe(self):
        rho = self.f.sum(-1)
        u = (self.f @ EA) / onp.where(rho == 0, 1., rho)[..., None]
        u[self.phase != LIQ] = 0
        return {'phase': self.phase, 'mass': self.mass, 'rho': onp.where(rho == 0, 1., rho) * self.scale['rho'], 'vel': u * self.scale['vel'],
                'T': self.temp(self.H.sum(-1)) * self.scale['T'], 'melted': self.melted, 'kappa': self.kappa}


def compare(R, obs, mod, step, fields, what):
    """obs: fields of an output file; mod: Model"""
    want = mod.observe()
    if not R.expect(onp.array_equal(onp.round(obs['phase']).astype(int), want['phase']), f'{what}: phase at output {step} differs from the model',
                    cells=onp.argwhere(onp.round(obs['phase']).astype(int) != want['phase'])[:5]):
        return False
    empty = (want['phase'] == GAS) | (want['phase'] == WALL)
    ok = True
    for k in fields:
        if k == 'phase':
            continue
        a, b = onp.array(obs[k], dtype=float), onp.array(want[k], dtype=float)
        if k == 'mass' and step == 0 or k == 'rho':
            a, b = onp.where(empty, 0, a), onp.where(empty, 0, b)
        if k == 'T' and step == 0:
            a, b = onp.where(empty, 0, a), onp.where(empty, 0, b)
        if k == 'kappa':
            sel = empty | getattr(mod, 'tie', empty)
            a, b = onp.where(sel, 0, a), onp.where(sel, 0, b)
        sc = {'mass': 1., 'rho': mod.scale['rho'], 'vel': mod.scale['vel'], 'T': mod.scale['T'], 'melted': 1., 'kappa': 1.}[k]
        ok &= R.close(a, b, 2e-6, f'{what}: {k} at output {step} differs from the model', scale=max(sc, float(onp.max(onp.abs(b)))) if k != 'vel' else max(1e-3 * sc, float(onp.max(onp.abs(b)))))
    return ok


def tile(blocks, shape, wall=True):
    """blocks: list of equally shaped interior arrays; shape: (a,b,c) with a*b*c >= len(blocks); separated by one wall layer"""
    bs = blocks[0].shape
    N = tuple(n * (b + 1) + 1 for n, b in zip(shape, bs))
    ph = onp.full(N, WALL)
    pos = list(itertools.product(*[range(n) for n in shape]))
    for b, (i, j, k) in zip(blocks, pos):
        ph[i * (bs[0] + 1) + 1:(i + 1) * (bs[0] + 1), j * (bs[1] + 1) + 1:(j + 1) * (bs[1] + 1), k * (bs[2] + 1) + 1:(k + 1) * (bs[2] + 1)] = b
    return ph


def fillings(bs, symbols):
    n = bs[0] * bs[1] * bs[2]
    return [onp.array(f).reshape(bs) for f in itertools.product(symbols, repeat=n)]

"""Independent model of the method of moving asymptotes: the convex approximation, and a certificate of its optimum."""
import numpy as onp

PRELOAD = ['numpy', 'scipy', 'scipy.sparse', 'scipy.spatial', 'scipy.optimize', 'jax', 'jax.numpy', 'pyfiglet']
RAA = 1e-5


def asymptotes(it, x, x1, x2, low, upp, xmin, xmax):
    n = len(x)
    lo, up = onp.zeros(n), onp.zeros(n)
    for j in range(n):
        w = xmax[j] - xmin[j]
        if it <= 2:
            lo[j], up[j] = x[j] - .5 * w, x[j] + .5 * w
        else:
            s = (x[j] - x1[j]) * (x1[j] - x2[j])
            f = 1.2 if s > 0 else .7 if s < 0 else 1.
            lo[j] = min(max(x[j] - f * (x1[j] - low[j]), x[j] - 10 * w), x[j] - .01 * w)
            up[j] = max(min(x[j] + f * (upp[j] - x1[j]), x[j] + 10 * w), x[j] + .01 * w)
    return lo, up


class Approx:
    def __init__(self, x, lo, up, xmin, xmax, move, df0, f, df, c):
        w = xmax - xmin
        self.lo, self.up, self.c = lo, up, c
        self.alfa = onp.maximum(onp.maximum(lo + .1 * (x - lo), x - move * w), xmin)
        self.beta = onp.minimum(onp.minimum(up - .1 * (up - x), x + move * w), xmax)
        inv = 1 / onp.maximum(w, 1e-5)

        def pq(g):
            k = .001 * onp.abs(g) + RAA * inv
            return (onp.maximum(g, 0) + k) * (up - x)**2, (onp.maximum(-g, 0) + k) * (x - lo)**2
        self.p0, self.q0 = pq(df0)
        r = [pq(g) for g in df]
        self.P, self.Q = onp.array([a for a, _ in r]), onp.array([b for _, b in r])
        self.b = self.P @ (1 / (up - x)) + self.Q @ (1 / (x - lo)) - f

    def primal(self, x):
        """value with the cheapest feasible slack, z = 0"""
        g = self.P @ (1 / (self.up - x)) + self.Q @ (1 / (x - self.lo)) - self.b
        return float(self.p0 @ (1 / (self.up - x)) + self.q0 @ (1 / (x - self.lo)) + self.c @ onp.maximum(g, 0))

    def argmin(self, lam):
        p, q = onp.sqrt(self.p0 + lam @ self.P), onp.sqrt(self.q0 + lam @ self.Q)
        return onp.clip((p * self.lo + q * self.up) / (p + q), self.alfa, self.beta)

    def dual(self, lam):
        """a lower bound of the optimum for every 0 <= lam <= c"""
        x = self.argmin(lam)
        p, q = self.p0 + lam @ self.P, self.q0 + lam @ self.Q
        return float(p @ (1 / (self.up - x)) + q @ (1 / (x - self.lo)) - lam @ self.b)

    def ddual(self, lam):
        x = self.argmin(lam)
        return self.P @ (1 / (self.up - x)) + self.Q @ (1 / (x - self.lo)) - self.b

    def bound(self, hint=None):
        """best lower bound found: bisection for one constraint, projected ascent otherwise"""
        m = len(self.b)
        if m == 1:
            a, b = 0., float(self.c[0])
            if self.ddual(onp.array([a]))[0] <= 0:
                b = a
            elif self.ddual(onp.array([b]))[0] >= 0:
                a = b
            for _ in range(200):
                k = .5 * (a + b)
                if self.ddual(onp.array([k]))[0] > 0:
                    a = k
                else:
                    b = k
            return max(self.dual(onp.array([a])), self.dual(onp.array([b])))
        best = -onp.inf
        if hint is not None:
            best = self.dual(onp.clip(hint, 0, self.c))
        return best

    def search(self):
        from scipy.optimize import minimize
        best = -onp.inf
        for s in (0., 1e-2, 1., 100.):
            r = minimize(lambda l: -self.dual(l), onp.full(len(self.b), s), jac=lambda l: -self.ddual(l), bounds=[(0, c) for c in self.c], method='L-BFGS-B', options={'maxiter': 2000, 'ftol': 1e-15, 'gtol': 1e-12})
            best = max(best, -float(r.fun))
        return best

    def certify(self, x, hint=None):
        """(gap between the value of x and a lower bound of the optimum, largest violation of the bounds)"""
        out = max(0., float((self.alfa - x).max()), float((x - self.beta).max()))
        p = self.primal(onp.clip(x, self.alfa, self.beta))
        gap = p - self.bound(hint)
        if gap > 1e-5 * (1 + abs(p)) and len(self.b) > 1:
            gap = min(gap, p - self.search())
        return gap / (1 + abs(p)), out


def module(case):
    """the optimizer of the library, or the copy that the topology optimisation applications use"""
    if case.get('app'):
        import applications.fem.top_opt.mma as mma
    else:
        from jax_am.fem import mma
    return mma

"""Reference likelihood, its gradient, and conditioning-derived tolerances."""
import numpy as np
from . import gen, ref
from .checks import c05

LD = ref.LD


class Lk:
    """Reference for one model (scenario + hyperparameters)."""

    def __init__(self, sc, gp, hp=None, optk=True, xscale=None):
        self.sc, self.hp = sc, dict(hp or sc.hp)
        self.noisy = c05.noisy(sc)
        self.mode = 'precon' if sc.weff == 'precon' else 'base'
        self.vary = gen.eta_vary(sc)
        self.eta0 = float(gp._etaK)
        self.cmax = gp.cond_max_target
        self.wk = gen.working(sc, gen.model_scale(gp, sc) if xscale is None else xscale)
        self.y = self.wk['y']
        self.nv = gen.noise_vec(sc, self.wk, self.hp['var_fval'], self.hp['var_fgrad'])[0]
        self.optk = optk
        self.R = ref.diffs(self.wk['X'], self.wk['X'])
        self.al = gen.alpha_of(sc, self.hp)
        self.vK = LD(np.atleast_1d(self.hp['varK'])[0]) if self.noisy else LD(1)
        self.scaled = sc.weff in gen.SCALED
        th = self.hp['theta']
        self.K = self.kern(self.R)
        A = self.K.copy()
        n = A.shape[0]
        ix = np.arange(n)
        A[ix, ix] += self.nv / self.vK
        self.eta = LD(self.eta0)
        if self.vary:
            S = A / np.sqrt(np.diag(A))[:, None] / np.sqrt(np.diag(A))[None, :] if self.mode == 'precon' else self.K
            self.eta = np.max(np.sum(np.abs(S), axis=1)) / (LD(self.cmax) - 1)
        self.A0 = A.copy()
        if self.mode == 'precon':
            A[ix, ix] += self.eta * A[ix, ix]
        else:
            A[ix, ix] += self.eta
        self.A = A * self.vK
        self.F = np.zeros(n, LD)
        self.F[:sc.n] = 1
        self.n = n

    def kern(self, R):
        sc, th = self.sc, self.hp['theta']
        if sc.use_grad:
            return ref.kfull_R(sc.kernel, R, th, self.al, sc.bvec, sc.bvec)
        return ref.kbase_R(sc.kernel, R, th, self.al)

    def cond_mat(self):
        """matrix whose condition number the method documents"""
        if self.mode == 'precon':
            d = np.sqrt(np.diag(self.A0))
            C = self.A0 / d[:, None] / d[None, :]
            ix = np.arange(self.n)
            C[ix, ix] += self.eta
            return C
        return self.A

    def chol_sure(self):
        """is a double precision Cholesky certain to succeed (Demmel: min eigenvalue of the unit-diagonal matrix)"""
        d = np.sqrt(np.diag(self.A))
        e = np.linalg.eigvalsh((self.A / d[:, None] / d[None, :]).astype(float))
        return bool(e[0] > 60 * self.n ** 2 * ref.EPS)

    def cond_f(self):
        return float(np.linalg.cond(self.cond_mat().astype(float)))

    def slices(self):
        out = c05.slices(self.sc, self.R, self.nv, self.hp, self.mode, None if self.vary else self.eta0, cmax=self.cmax, optk=self.optk)
        return out[0], out[1], [h(LD(self.eta0)) for h in out[2]], out[3], out[4]

    def pieces(self, A=None, y=None, dA=None, pnlt=None, rn=None):
        """likelihood pieces; dA: list of derivative matrices"""
        A = self.A if A is None else A
        y = self.y if y is None else y
        n, F = self.n, self.F
        L = ref.chol(A)
        KiF = ref.chosolve(L, F)
        b = np.sum(KiF * y) / np.sum(KiF * F)
        r = y - b * F
        if rn is not None:
            r = r + rn * (np.abs(y) + np.abs(b) * F)
        w = ref.chosolve(L, r)
        q = np.sum(r * w)
        ld_ = ref.logdet(L)
        o = dict(beta=b, lndet=ld_)
        dpen = LD(0)
        if self.noisy:
            o['ln_lkd'] = -(ld_ + q) / 2
        else:
            v = q / n
            o['varK'] = v
            pen = LD(0)
            if pnlt is not None:
                c1, c2, lb = pnlt
                vf = max(np.var(y[:self.sc.n]), LD(lb))
                mx = max(v - c2 * vf, LD(0))
                pen = c1 * vf * mx ** 2
                dpen = 2 * c1 * vf * mx
            o['ln_lkd'] = -(n * np.log(v) + ld_) / 2 - pen if v > 0 else LD(np.nan)
        if dA is not None:
            Ai = ref.chosolve(L, np.eye(n, dtype=LD))
            tr = np.array([np.sum(Ai * d) for d in dA])
            wq = np.array([np.sum(w * (d @ w)) for d in dA])
            o['lndet_grad'] = tr
            # rounding of an explicit inverse: every column is the solution of its own slightly perturbed system
            self.sumabs = np.array([np.sum((np.abs(Ai) + np.abs(np.outer(w, w))) * np.abs(d)) for d in dA]).astype(float)
            dg = np.sqrt(np.diag(A))
            nrm = np.sqrt(np.sum((dg[:, None] * Ai) ** 2, axis=0))
            r2 = np.random.default_rng(5)
            for _ in range(3):
                G = Ai @ (dg[:, None] * r2.standard_normal((n, n)) * nrm[None, :])
                self.sumabs = np.maximum(self.sumabs, np.abs(np.array([np.sum(G * d) for d in dA])).astype(float))
            o['beta_grad'] = -np.array([np.sum(KiF * (d @ w)) for d in dA]) / np.sum(KiF * F)
            if self.noisy:
                o['grad'] = (wq - tr) / 2
            else:
                dv = -wq / n
                o['varK_grad'] = dv
                o['grad'] = -(n / o['varK'] * dv + tr) / 2 - dpen * dv
        return o

    def with_tol(self, grads=False, pnlt=None, held=False, ntry=3, amp=8.0, safety=40.0, seed=0):
        dA = None
        if grads:
            s = self.slices()
            dA = s[2] if held else s[1]
            mg = s[3]
        base = self.pieces(dA=dA, pnlt=pnlt)
        sumabs = getattr(self, 'sumabs', None)
        tol = {k: np.zeros(np.shape(v)) for k, v in base.items()}
        th = ref.ld(self.hp['theta'])
        sx = ref._s(self.R, th).astype(float)
        smax = float(1 + np.max(np.minimum(sx, 800)))
        dg = np.sqrt(np.diag(self.A))
        for t in range(ntry):
            rng = np.random.default_rng([seed, t, 91])
            E = rng.standard_normal(self.A.shape)
            E = (E + E.T) / 2
            A = self.A + amp * ref.EPS * E * dg[:, None] * dg[None, :]
            y = self.y * (1 + 4 * ref.EPS * rng.standard_normal(self.n))
            if self.scaled:
                X = self.wk['X'] * (1 + 2 * ref.EPS * rng.standard_normal(self.wk['X'].shape))
                A = A + (self.kern(ref.diffs(X, X)) - self.K) * self.vK
            d2 = None
            if dA is not None:
                d2 = []
                for d, m in zip(dA, mg):
                    E = rng.standard_normal(d.shape)
                    d2.append(d + amp * ref.EPS * smax * m * (E + E.T) / 2)
            p = self.pieces(A, y, d2, pnlt, rn=2 * ref.EPS * rng.standard_normal(self.n))
            for k in tol:
                tol[k] = np.maximum(tol[k], np.abs((p[k] - base[k]).astype(float)))
        for k in tol:
            v = tol[k]
            if v.ndim:
                v = np.maximum(v, 0.05 * v.max()) if v.size else v
            mag = np.max(np.abs(base[k].astype(float))) if np.size(base[k]) else 0
            tol[k] = safety * v + 400 * ref.EPS * self.n * (mag + (self.n if k in ('ln_lkd', 'lndet') else 0))
            if k in ('grad', 'lndet_grad'):
                f = 1.0 if self.noisy or k == 'lndet_grad' else max(1.0, 1.0 / max(float(base['varK']), 1e-300))
                tol[k] = tol[k] + 24 * ref.EPS * sumabs * f
        return base, tol

"""Consistency of the reference model itself (no gpgradpy code involved):
analytic hyperparameter derivatives against complex steps, the block kernel
against second differences of the scalar kernel, the Cholesky solver."""
import numpy as np
from . import ref
from .ref import LD, CLD


class FakeGp:
    def __init__(self, sc, eta):
        self._etaK, self.cond_max_target = eta, sc.opts['cond_max_target']


def likelihood():
    """analytic gradients of the reference likelihood against 80-bit differences of its value"""
    from . import gen
    from .lk import Lk
    from .checks.c05 import names
    rng = np.random.default_rng(7)
    worst, n = 0.0, 0
    for i in range(150):
        sc = gen.gen(rng, nmax=4, dmax=3, ndata_max=12, moderate=True, cond_targets=[1e3, 1e4], eta_const=0.7, allow_dup=False, masks=['none', 'some'])
        if sc.n == 1 and sc.ng == 0:
            continue
        gp = FakeGp(sc, gen.eta_doc(sc) or 1e-4)
        pn = None if rng.random() < 0.5 else (float(rng.uniform(0.1, 2)), float(rng.uniform(0, 1)), 1e-6)
        k = Lk(sc, gp)
        sl = k.slices()
        if k.vary and not sl[4]:
            continue
        o = k.pieces(dA=sl[1], pnlt=pn)
        if not k.noisy and o['varK'] < 1e-6:
            continue
        for j, nm in enumerate(names(sc, True)):
            def val(f):
                hp = {a: (np.array(b, dtype=LD) if a == 'theta' else b) for a, b in sc.hp.items()}
                if nm.startswith('theta'):
                    hp['theta'][int(nm[5:])] *= f
                else:
                    hp[nm] = LD(np.atleast_1d(hp[nm])[0]) * f
                return Lk(sc, gp, hp).pieces(pnlt=pn)
            h = LD(1e-3)
            p = [val(1 + a * h) for a in (-2, -1, 1, 2)]
            v0 = LD(sc.hp['theta'][int(nm[5:])]) if nm.startswith('theta') else LD(np.atleast_1d(sc.hp[nm])[0])
            for key, gk in (('ln_lkd', 'grad'), ('beta', 'beta_grad'), ('varK', 'varK_grad'), ('lndet', 'lndet_grad')):
                if key not in p[0] or gk not in o:
                    continue
                q = [x[key] for x in p]
                fd = (q[0] - 8 * q[1] + 8 * q[2] - q[3]) / (12 * h)
                sc_ = abs(fd) + abs(o[key]) * LD(1e-2) + LD(1e-3)
                e = float(abs(fd - o[gk][j] * v0) / sc_)
                if e > worst:
                    worst = e
                n += 1
    print('likelihood self-test: %d derivatives, worst %.2e' % (n, worst))
    return worst < 1e-6 and n > 500


def main():
    rng = np.random.default_rng(0)
    worst = 0.0
    for kern in ['SqExp', 'Ma5f2', 'RatQu']:
        for _ in range(40):
            d = int(rng.integers(1, 4))
            R = ref.ld(rng.standard_normal((d, rng.integers(1, 4), rng.integers(1, 4))))
            th = ref.ld(10 ** rng.uniform(-2, 1, d))
            al = LD(10 ** rng.uniform(-1, 1))
            if rng.random() < .3:
                R[:, 0, 0] = 0
            m1 = rng.random(R.shape[1]) < .6
            m2 = rng.random(R.shape[2]) < .6
            G = ref.kfull_grad_th_R(kern, R, th, al, m1, m2)
            M = ref.kfull_grad_th_R(kern, R, th, al, m1, m2, mag=True)
            for a in range(d):
                tc = th.astype(CLD)
                tc[a] += 1e-30j
                C = ref.kfull_R(kern, R.astype(CLD), tc, al, m1, m2).imag / LD(1e-30)
                worst = max(worst, float(np.max(abs(C - G[a]) / (M[a] + 1e-300), initial=0)))
            if kern == 'RatQu':
                G = ref.kfull_grad_al_R(R, th, al, m1, m2)
                M = ref.kfull_grad_al_R(R, th, al, m1, m2, True)
                C = ref.kfull_R(kern, R.astype(CLD), th.astype(CLD), CLD(al + 1e-30j), m1, m2).imag / LD(1e-30)
                worst = max(worst, float(np.max(abs(C - G[0]) / (M[0] + 1e-300), initial=0)))
            # gradient blocks = complex-step derivatives of the scalar kernel in x and y
            X = ref.ld(rng.standard_normal((2, d)))
            Y = ref.ld(rng.standard_normal((3, d)))
            K = ref.kfull(kern, X, Y, th, al)
            for i in range(d):
                Xc = X.astype(CLD)
                Xc[:, i] += 1e-30j
                D = ref.kbase(kern, Xc, Y, th.astype(CLD), CLD(al)).imag / LD(1e-30)
                worst = max(worst, float(np.max(abs(D - K[2 + 2 * i:4 + 2 * i, :3]))) / float(1 + th.max()))
                F = ref.kfull(kern, Xc, Y, th.astype(CLD), CLD(al)).imag / LD(1e-30)
                worst = max(worst, float(np.max(abs(F[:2, 3:] - K[2 + 2 * i:4 + 2 * i, 3:]))) / float(1 + th.max()))
            H = np.array([ref.khess_x(kern, X[0], Y, th, al)])
            for i in range(d):
                Xc = X.astype(CLD)
                Xc[:, i] += 1e-30j
                F = ref.kfull(kern, Xc, Y, th.astype(CLD), CLD(al)).imag / LD(1e-30)
                for j in range(d):
                    worst = max(worst, float(np.max(abs(F[2 + 2 * j] - H[0, i, j]))) / float(1 + th.max()) ** 1.5)
        B = rng.standard_normal((6, 6))
        A = ref.ld(B @ B.T + 6 * np.eye(6))
        L = ref.chol(A)
        worst = max(worst, float(np.max(abs(L @ L.T - A))) / 1e2, float(np.max(abs(A @ ref.chosolve(L, np.eye(6, dtype=LD)) - np.eye(6)))))
    print('reference self-test: worst error %.2e' % worst)
    return 0 if worst < 1e-15 and likelihood() else 1

"""C04: kernel matrices."""
import numpy as np
from .. import gen, ref

RULE = ('case = one call of calc_KernBase/calc_KernGrad with random points (square or rectangular, coincident points, ties), theta, alpha and masks on either side, '
        'compared entrywise with the 80-bit covariances; square cases also checked for symmetry, unit diagonal and PSD (80-bit eigenvalue bound); precondition matrices, '
        'their derivatives and theta2gamma/gamma2theta on the same hyperparameters; class = (kernel, dim, n1, n2, mask kinds, use_grad)')
ASSUMPTIONS = ['tolerance = 64 ulp x sum of the magnitudes of the terms of the entry x (1 + exponent)']


def shards(tier):
    k, n = (8, 8000) if tier == 'quick' else (24, 8000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'cmp:kern': 1500, 'cmp:sub': 700, 'sym': 600, 'psd': 500, 'cmp:precon': 800, 'cmp:gamma': 800, 'cmp:rtensor': 800}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        one(ctx, gen.kcase(rng, alpha_types=('float', 'float', 'array'), **gen.size(i, dict(nmax=6 if i % 5 else 10))), rng)


def expand(c, amp):
    """spread the per-point-pair amplification over the matrix blocks"""
    m1, m2 = ref._masks(c.n1, c.n2, c.m1 if c.grad else None, c.m2 if c.grad else None)
    if not c.grad:
        return amp
    return np.block([[amp] + [amp[:, m2]] * c.d] + [[amp[m1]] + [amp[m1][:, m2]] * c.d for _ in range(c.d)])


def one(ctx, c, rng):
    inf = c.tag
    gp = gen.kgp(c)
    ok, R = ctx.guard('calc_Rtensor', gp.calc_Rtensor, c.X.copy(), c.Y.copy(), 1, info=inf)
    if ok:
        ctx.close('rtensor', R, c.R, 2 * ref.EPS * np.abs(c.R), 'Rtensor', info=inf)
    a = c.al_arg.copy() if isinstance(c.al_arg, np.ndarray) else c.al_arg
    mk = ':masked' if c.grad and (c.m1 is not None or c.m2 is not None) else ''
    R = c.R.copy()
    if c.grad:
        if c.m1 is None and c.m2 is None:
            ok, K = ctx.guard('kern:' + c.tag, gp.calc_Kern, R, c.theta.copy(), a, info=inf)
        else:
            ok, K = ctx.guard('kern:' + c.tag + mk, gp.calc_Kern, R, c.theta.copy(), a,
                              None if c.m1 is None else c.m1.copy(), None if c.m2 is None else c.m2.copy(), info=inf)
    else:
        ok, K = ctx.guard('kern:' + c.tag, gp.calc_Kern, R, c.theta.copy(), a, info=inf)
    if not ok:
        return
    al = None if c.al is None else ref.LD(c.al)
    if c.grad:
        W = ref.kfull_R(c.kernel, c.R, c.theta, al, c.m1, c.m2)
        Mg = ref.kfull_R(c.kernel, c.R, c.theta, al, c.m1, c.m2, mag=True)
    else:
        W = Mg = ref.kbase_R(c.kernel, c.R, c.theta, al)
    tol = (64 * ref.EPS * Mg * expand(c, gen.kcond(c))).astype(float) + 1e-300
    ctx.close('kern', K, W, tol, 'kernel:' + c.tag + mk, info=inf)
    # a mask is a sub-matrix, bit for bit
    if mk and K.shape == W.shape:
        ok, F = ctx.guard('kern:' + c.tag, gp.calc_Kern, R, c.theta.copy(), a, info=inf)
        if ok:
            m1, m2 = ref._masks(c.n1, c.n2, c.m1, c.m2)
            r = np.concatenate([np.ones(c.n1, bool)] + [m1] * c.d)
            q = np.concatenate([np.ones(c.n2, bool)] + [m2] * c.d)
            ctx.close('sub', K, F[r][:, q], 2 * tol, 'mask_submatrix:' + c.tag, info=inf)
    if c.square and (c.m1 is c.m2 or not c.grad):
        ctx.count('sym')
        if not np.array_equal(K, K.T):
            ctx.close('symtol', K, K.T, 2 * tol, 'symmetry:' + c.tag, info=inf)
        n = c.n1
        if not np.all(np.abs(np.diag(K)[:n] - 1) <= 8 * ref.EPS):
            ctx.violation('unit_diagonal:' + c.tag, dict(diag=np.diag(K)[:n]), info=inf)
        dv = np.diag(W).astype(float)
        if np.all(dv > 0) and np.all(np.isfinite(K)):
            C = K / np.sqrt(dv)[:, None] / np.sqrt(dv)[None, :]
            bound = np.max(np.sum(tol / np.sqrt(np.outer(dv, dv)), axis=1)) + 50 * K.shape[0] * ref.EPS * K.shape[0]
            lam = np.linalg.eigvalsh((C + C.T) / 2)[0]
            ctx.count('psd')
            if not lam >= -bound:
                ctx.violation('not_psd:' + c.tag, dict(lam=lam, bound=bound), info=inf)
    # preconditioner
    th = c.theta
    g2 = -2 * ref.profile(c.kernel, np.zeros(1, ref.LD), al, 1)[1][0]      # gamma^2 / theta
    gam = np.sqrt(ref.ld(th) * g2)
    ok, g = ctx.guard('theta2gamma:' + c.kernel, gp.theta2gamma, th.copy(), info=inf)
    if ok:
        ctx.close('gamma', g, gam, 8 * ref.EPS * gam.astype(float), 'theta2gamma:' + c.kernel, info=inf)
        ok, t2 = ctx.guard('gamma2theta:' + c.kernel, gp.gamma2theta, np.array(g), info=inf)
        if ok:
            ctx.close('gamma', t2, th, 16 * ref.EPS * th, 'gamma2theta_inverse:' + c.kernel, info=inf)
    n, ng = c.n1, (c.n1 if c.m1 is None else int(c.m1.sum()))
    N = n + ng * c.d
    p = np.concatenate([np.ones(n, ref.LD)] + [np.full(ng, gam[i]) for i in range(c.d)])
    dp = np.zeros((N, c.d), ref.LD)
    for i in range(c.d):
        dp[n + i * ng:n + (i + 1) * ng, i] = g2 / (2 * gam[i])
    vec = bool(rng.random() < 0.5)
    ok, o = ctx.guard('precon:' + c.kernel, gp.calc_Kern_precon, n, ng, th.copy(), calc_grad=True, b_return_vec=vec, info=inf)
    if ok:
        P, Pi, G = o
        w = (p, 1 / p, dp) if vec else (np.diag(p), np.diag(1 / p), np.array([np.diag(dp[:, i]) for i in range(c.d)]))
        for nm, v, x in zip(('P', 'Pinv', 'dP'), (P, Pi, G), w):
            ctx.close('precon', v, x, 16 * ref.EPS * np.abs(x).astype(float), 'precon:%s:%s:vec%d' % (nm, c.kernel, vec), info=inf)
    ctx.nontrivial(c.cls)
    ctx.sample(dict(case=c.cls, theta=th, K00=float(K.ravel()[-1]), ref=float(W.ravel()[-1])))

"""C06: conditioning guarantee of the regularization, and consistency of calc_all_K_w_chofac."""
import numpy as np
from .. import gen, ref

RULE = ('case = (a) a random or adversarially placed data set and hyperparameters under a method that promises a bound: condition number of the regularized matrix '
        'against cond_max_target, with hill climbing on the largest eigenvalue; (b) a random model whose calc_all_K_w_chofac outputs are compared with each other and '
        'with the 80-bit reference; class = (clause, kernel, method, use_grad, dim, n, mask, noise, options)')
ASSUMPTIONS = ['condition numbers are compared up to the rounding 100*N*eps*cond', 'dflt_eta carries no bound']


def shards(tier):
    k, n = (8, 1500) if tier == 'quick' else (24, 3000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'bound:precon': 300, 'bound:vary': 80, 'bound:nograd': 200, 'cmp:Kcov': 600, 'cmp:chofac': 500, 'cmp:cond': 400, 'nugget': 1000, 'nugget_value': 600, 'climb': 300}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        sc = gen.gen(rng, hp_extreme=0.3, eta_const=0.7, wcs=['precon'], noises=['zero', 'zero', 'zero', 'known', 'hetero', 'unk', 'f_only', 'g_only'],
                     **gen.size(i, dict(nmax=9, dmax=5, ndata_max=50)), masks=['none', 'none', 'some', 'zero'], cond_targets=[1e10, 1e8, 1e6, 1e4, 100., 1e12])
        if rng.random() < 0.5:
            cluster(sc, rng)
        bound(ctx, sc, rng)
        climb(ctx, rng)
        sc = gen.gen(rng, eta_const=0.7, aniso=0.4, wcs=gen.WC_GRAD + ['precon'], **gen.size(i + 7, dict(nmax=7, dmax=4)), alpha_types=('float', 'float', 'array'), hp_extreme=0.1)
        consist(ctx, sc, rng)


def cluster(sc, rng):
    """points at the most hostile distances: copies of one point around another"""
    n, d = sc.n, sc.dim
    gam = np.sqrt(sc.hp['theta'] * (5 / 3 if sc.kernel == 'Ma5f2' else 2))
    t = 10.0 ** rng.uniform(-2, 0.7)
    sgn = rng.choice([-1, 1], d) if rng.random() < 0.5 else np.ones(d)
    X = np.zeros((n, d))
    k = int(rng.integers(1, n)) if n > 1 else 0
    X[:k] = t * sgn / gam
    X += rng.choice([0, 1e-9, 1e-3]) * rng.standard_normal((n, d)) / gam
    sc.X = X
    sc.f = rng.standard_normal(n) * sc.amp


def cond_of(A):
    e = np.linalg.eigvalsh((A + A.T) / 2)
    return e[-1] / e[0] if e[0] > 0 else np.inf, e


def bound(ctx, sc, rng):
    """(a) the promised bound"""
    inf = sc.short()
    gp = gen.mk_gp(sc)
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    R = gp.get_scl_x_w_dist()[1]
    c = sc.opts['cond_max_target']
    kind = 'nograd' if not sc.use_grad else ('vary' if gen.eta_vary(sc) else 'precon')
    tag = '%s:%s' % (sc.kernel, kind)
    ok, o = ctx.guard('calc_all_K:' + tag, gp.calc_all_K_w_chofac, R, hp, calc_cond=True, info=inf)
    if not ok:
        return
    Kern, Kcor, Kcov, cho, condK, eta, am = o
    check_nugget(ctx, gp, sc, R, eta, tag, inf)
    N = Kern.shape[0]
    if sc.use_grad:
        if sc.opts.get('cond_eta_set_mtd') == 'dflt_eta' and not gen.eta_vary(sc):
            return
        if not np.all(np.abs(np.diag(Kcor) - 1) <= 32 * ref.EPS):
            ctx.violation('unit_diag:' + tag, dict(diag=np.diag(Kcor)), info=inf)
        B = Kcor + eta * np.eye(N)
    else:
        if sc.opts.get('cond_eta_set_mtd') == 'dflt_eta' and not gen.eta_vary(sc):
            return
        B = Kern + eta * np.eye(N)
    cn, e = cond_of(B)
    ctx.count('bound:' + kind)
    rd = 30 * N * ref.EPS * e[-1] / eta
    if rd < 0.5 and not cn <= c * (1 + 2 * rd):
        ctx.violation('cond_exceeds_target:' + tag, dict(cond=cn, target=c, eta=eta, lam=e[-1]), info=inf)
    ctx.ratio('lam_over_bound:' + kind, e[-1] / (eta * (c - 1)))
    if rd < 0.05 and cho is None:
        ctx.violation('cholesky_failed:' + tag, dict(cond=cn), info=inf)
    ctx.nontrivial(('bound', kind) + sc.cls() + (c,))
    ctx.sample(dict(scenario=inf, cond=cn, target=c, eta=eta))


def check_nugget(ctx, gp, sc, R, eta, tag, inf):
    ctx.count('nugget')
    M, wk = gen.ref_model(sc, 0.0, gp=gp)
    cap = gen.eta_cap(sc, M)
    if not (eta > 0 and eta <= cap):
        ctx.violation('nugget_range:' + tag, dict(eta=eta, cap=cap), info=inf)
    want = gen.eta_doc(sc)
    if want is not None:
        ctx.count('nugget_value')
        if not abs(eta / want - 1) <= 1e-9:
            ctx.violation('nugget_value:%s:%s' % (sc.weff, sc.kernel if sc.weff == 'precon' else 'any'), dict(eta=eta, want=want), info=inf)


def climb(ctx, rng):
    """search for point sets that violate the preconditioned bound"""
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    kern = str(rng.choice(gen.KERNELS))
    d, n = int(rng.integers(1, 7)), int(rng.integers(1, 8))
    c = float(rng.choice([1e10, 1e6, 50.]))
    gp = GP(d, True, kern, 'precon')
    gp.cond_max_target = gp.cond_max = c
    gp.cond_eta_set_mtd = str(rng.choice(['Kbase_eta', 'Kbase_eta_w_dim']))
    al = {'RatQu': float(10 ** rng.uniform(-3, 1))}.get(kern)
    th = 0.5 * np.ones(d) if kern != 'Ma5f2' else 0.6 * np.ones(d)       # gamma = 1
    m = rng.random(n) < 0.8
    mask = None if rng.random() < 0.6 or not m.any() else m
    ng = n if mask is None else int(mask.sum())
    gp.set_data(rng.standard_normal((n, d)), np.arange(n) * 1.0, np.zeros(n), np.ones((ng, d)), np.zeros((ng, d)), mask)
    hp = gp.make_hp_class(np.zeros(1), th, al, 1.0, None, None)
    k = int(rng.integers(1, n)) if n > 1 else 0
    sg = rng.choice([-1.0, 1.0], d)
    X = np.zeros((n, d))
    best, tb = 0, 0.1

    def lam(X):
        R = np.ascontiguousarray(X.T[:, :, None] - X.T[:, None, :])
        K = gp.calc_all_K_w_chofac(R, hp, calc_chofac=False)[1]
        return np.linalg.eigvalsh(K)[-1]
    for t in (0.05, 0.1, 0.2, 0.35, 0.5, 0.7, 1.0, 1.5):
        X[:k] = t * sg
        v = lam(X)
        if v > best:
            best, tb = v, t
    X[:k] = tb * sg
    step = 0.3
    for _ in range(25):
        Y = X + step * rng.standard_normal(X.shape) * (rng.random(X.shape) < 0.5)
        v = lam(Y)
        ctx.count('climb')
        if v > best:
            best, X = v, Y
        else:
            step *= 0.85
    eta = gp._etaK
    ctx.ratio('climb_lam_over_bound', best / (eta * (c - 1)))
    tag = '%s:precon' % kern
    if not (best + eta) / eta <= c * (1 + 1e-6 + 50 * n * d * ref.EPS / eta):
        ctx.violation('cond_exceeds_target:climb:' + tag, dict(lam=best, eta=eta, target=c, X=X), info=dict(d=d, n=n, alpha=al))
    if not (0 < eta <= n * (d + 1) / (c - 1) * (1 + 1e-9)):
        ctx.violation('nugget_range:' + tag, dict(eta=eta, n=n, d=d), info=None)
    ctx.nontrivial(('climb', kern, d, n, mask is None, c))


def consist(ctx, sc, rng):
    """(b) outputs of calc_all_K_w_chofac"""
    inf = sc.short()
    gp = gen.mk_gp(sc)
    if rng.random() < 0.25:
        gp.cond_norm = 'fro'
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    R = gp.get_scl_x_w_dist()[1]
    M, wk = gen.ref_model(sc, 0.0, gp=gp)
    nz = bool(gp.b_has_noisy_data)
    route = str(rng.choice(['cov', 'cov', 'normlz', 'kern', 'setup', 'setup']))
    if route == 'kern' and nz:
        route = 'cov'
    al = gen.alpha_of(sc)
    th = sc.hp['theta']
    if sc.use_grad:
        K = ref.kfull_R(sc.kernel, R, th, al, sc.bvec, sc.bvec)
    else:
        K = ref.kbase_R(sc.kernel, R, th, al)
    N = K.shape[0]
    ix = np.arange(N)
    vK = ref.LD(sc.hp['varK'])
    scale = vK if route == 'cov' else ref.LD(1)
    nzv = M.noise / (vK if route != 'kern' else 1)
    cc = bool(rng.random() < 0.85)
    tag = '%s:%s' % (sc.weff if sc.weff == 'precon' else 'base', route)
    kw = dict(calc_cond=cc, calc_chofac=True)
    if route == 'cov':
        ok, o = ctx.guard('calc_all_K:' + tag, gp.calc_all_K_w_chofac, R, hp, info=inf, **kw)
    elif route == 'normlz':
        ok, o = ctx.guard('calc_all_K:' + tag, gp.calc_all_K_w_chofac, R, hp, b_normlz_w_varK=True, info=inf, **kw)
    elif route == 'kern':
        ok, o = ctx.guard('calc_Kern_w:' + tag, gp.calc_Kern_w_chofac, R, hp, info=inf, **kw)
    else:
        ok, _ = ctx.guard('set_hpara:' + tag, gp.set_hpara, 'set', 0, hp, calc_cond=cc, info=inf)
        o = (gp.Kern, None, gp.KernEta, gp.KernEta_chofac, gp.condK, gp.etaK_eval, None) if ok else None
    if not ok:
        return
    Kern, Kcor, Kcov, cho, condK, eta, am = o
    s = ref._s(ref.ld(R), ref.ld(th)).astype(float)
    amp = float(1 + np.max(np.minimum(s, 800)))
    dg = np.sqrt(np.diag(K)).astype(float)
    t0 = 256 * ref.EPS * amp * np.outer(dg, dg)
    ctx.close('Kern', Kern, K, t0, 'Kern:' + tag, info=inf)
    A = K.copy()
    A[ix, ix] += nzv
    dA = np.sqrt(A[ix, ix])
    Kc = A / dA[:, None] / dA[None, :]
    src = Kc if sc.weff == 'precon' else K
    rs = np.sum(np.abs(src), axis=1)
    c = sc.opts['cond_max_target']
    check_nugget(ctx, gp, sc, R, eta, tag, inf)
    if gen.eta_vary(sc):
        want = float(rs.max() / (c - 1))
        ctx.count('eta_vary')
        if not abs(eta / want - 1) < 1e-9:
            ctx.violation('eta_vary:' + tag, dict(eta=eta, want=want), info=inf)
        if route != 'setup' and not rs[am] >= rs.max() * (1 - 1e-9):
            ctx.violation('eta_argmax:' + tag, dict(am=am), info=inf)
    if sc.weff == 'precon':
        if Kcor is not None:
            ctx.close('Kcor', Kcor, Kc, 512 * ref.EPS * amp, 'Kcor:' + tag, info=inf)
        B = A.copy()
        B[ix, ix] += ref.LD(eta) * A[ix, ix]
    else:
        B = A.copy()
        B[ix, ix] += ref.LD(eta)
    B = B * scale
    db = np.sqrt(np.diag(B)).astype(float)
    ctx.close('Kcov', Kcov, B, 512 * ref.EPS * amp * np.outer(db, db), 'Kcov:' + tag, info=inf)
    if sc.weff == 'precon':
        C = Kc.copy()
        C[ix, ix] += ref.LD(eta)
    else:
        C = B
    e = np.linalg.eigvalsh(C.astype(float))
    good = e[0] > 100 * N * ref.EPS * e[-1] * amp
    if cho is None:
        ctx.count('chofac_none')
        if good and e[-1] / e[0] < 1e12:
            ctx.violation('cholesky_missing:' + tag, dict(cond=e[-1] / e[0]), info=inf)
    else:
        L = np.tril(cho[0]) if cho[1] else np.triu(cho[0])
        P = L @ L.T if cho[1] else L.T @ L
        ctx.close('chofac', P, Kcov, 50 * N * ref.EPS * np.outer(db, db), 'chofac:' + tag, info=inf)
    if cc:
        if condK is None:
            ctx.violation('cond_missing:' + tag, None, info=inf)
        elif good:
            if gp.cond_norm == 'fro':
                want = np.sqrt(np.sum(e ** 2)) * np.sqrt(np.sum(1 / e ** 2))
            else:
                want = e[-1] / e[0]
            if want < 1e12:
                ctx.close('cond', condK, want, want * min(0.5, 400 * N * amp * ref.EPS * e[-1] / e[0] + 1e-12), 'cond:' + tag, info=inf)
    elif condK is not None and route != 'setup':
        ctx.violation('cond_unrequested:' + tag, None, info=inf)
    ctx.nontrivial(('consist', route, gp.cond_norm, gen.eta_vary(sc)) + sc.cls())

"""C07: marginal log-likelihood and closed-form hyperparameters."""
import numpy as np
from .. import gen, ref
from ..lk import Lk

RULE = ('case = random model and hyperparameters (as C01); calc_lkd_all with the adjoint and the direct option, with and without the varK penalty, and '
        'optz_closed_form_hp(), compared with the 80-bit likelihood, GLS mean and residual variance; class = (kernel, method, use_grad, dim, n, mask, noise, options); '
        'non-trivial = reference covariance is positive definite and the likelihood is resolved to 1e-4')
ASSUMPTIONS = ['the varK penalty applies to noise-free data only (with noisy data varK is an ordinary bounded hyperparameter)',
               'with a single noise-free value the residual is zero and varK is its documented floor 1e-32; only beta is compared there']


def shards(tier):
    k, n = (8, 3000) if tier == 'quick' else (24, 4000)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=250, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    return {'cmp:ln_lkd': 1200, 'cmp:beta': 1200, 'cmp:varK': 400, 'cmp:lndet': 800, 'pnlt_active': 25, 'cmp:closed_beta': 300, 'optimal': 300, 'parts': 300}


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, hp_extreme=0.05, aniso=0.4, **gen.size(i, dict(nmax=8 if i % 5 else 12, dmax=4, ndata_max=36)), eta_const=0.85,
                     alpha_types=('float', 'float', 'array', 'int') if sh['mode'] == 'interp' else ('float',), **kw)
        one(ctx, sc, rng)


def pnlt_setup(gp, rng):
    if rng.random() < 0.4:
        gp.lkd_varK_pnlt_use = True
        gp.lkd_varK_pnlt_lb_var = float(10 ** rng.uniform(-3, 0))
        gp.lkd_varK_pnlt_c1 = float(10 ** rng.uniform(-2, 1))
        gp.lkd_varK_pnlt_c2 = float(10 ** rng.uniform(-3, 1.5))
        return gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var
    return None


def one(ctx, sc, rng):
    inf = sc.short()
    gp = gen.mk_gp(sc)
    pn = pnlt_setup(gp, rng)
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    lk = Lk(sc, gp)
    tag = '%s:%s:%s' % ('noisy' if lk.noisy else 'clean', sc.weff if sc.weff == 'precon' else ('scaled' if sc.weff in gen.SCALED else 'base'), 'grad' if sc.use_grad else 'nograd')
    try:
        base, tol = lk.with_tol(pnlt=pn)
    except ref.NotPD:
        ctx.count('skipped_singular')
        return
    single = sc.n == 1 and sc.ng == 0 and not lk.noisy
    if not single and not float(tol['ln_lkd']) < 1e-4 * (lk.n + abs(float(base['ln_lkd']))):
        ctx.count('skipped_illcond')
        return
    infos = []
    for adj in ((True, False) if rng.random() < 0.8 else (None,)):
        if adj is None:
            gp.lkd_use_adj_mtd = bool(rng.random() < 0.5)
        kw = dict(calc_cond=bool(rng.random() < 0.3), lkd_use_adj_mtd=adj)
        h = gen.mk_hp(gp, sc.hp)
        if not lk.noisy and rng.random() < 0.5:
            h.varK = None
        h.beta = None
        ok, o = ctx.guard('calc_lkd_all:' + tag, gp.calc_lkd_all, h, info=inf, **kw)
        if not ok:
            continue
        li, good = o
        if not good and (not lk.chol_sure() or (kw['calc_cond'] and lk.cond_f() > 1e14)):
            ctx.count('chol_marginal')
            continue
        if not good:
            ctx.violation('cholesky_failed:' + tag, dict(tol=float(tol['ln_lkd'])), info=inf)
            continue
        t = '%s:%s' % (tag, 'adj' if gp.lkd_use_adj_mtd and adj is None or adj else 'direct')
        ctx.close('beta', np.ravel(li.hp_beta), np.ravel(base['beta']), tol['beta'], 'beta:' + t, info=inf)
        if single:
            if not li.hp_varK <= 1e-20 * (1 + sc.f[0] ** 2):
                ctx.violation('varK:single:' + t, dict(v=li.hp_varK), info=inf)
            continue
        ctx.close('ln_lkd', li.ln_lkd, base['ln_lkd'], tol['ln_lkd'], 'ln_lkd:' + t + (':pnlt' if pn else ''), info=inf)
        ctx.close('lndet', li.ln_det_Kmat, base['lndet'], tol['lndet'], 'ln_det:' + t, info=inf)
        if not lk.noisy:
            ctx.close('varK', li.hp_varK, base['varK'], tol['varK'], 'varK:' + t, info=inf)
            if pn and base['ln_lkd'] != lk.pieces()['ln_lkd']:
                ctx.count('pnlt_active')
        if li.ln_lkd_grad is not None:
            ctx.violation('gradient_unrequested:' + t, None, info=inf)
        infos.append(li)
    # the parts for a given factorization
    if not single and infos and rng.random() < 0.3:
        part(ctx, rng, gp, sc, lk, base, tol, pn, inf, tag)
    # closed form
    if rng.random() < 0.4:
        h = gen.mk_hp(gp, sc.hp)
        if not lk.noisy:
            h.varK = None
        h.beta = None
        keep = (np.array(h.theta), h.kernel, h.varK, h.var_fval, h.var_fgrad)
        ok, r = ctx.guard('closed:' + tag, gp.optz_closed_form_hp, h, info=inf)
        if ok:
            ctx.close('closed_beta', np.ravel(r.beta), np.ravel(base['beta']), tol['beta'], 'closed:beta:' + tag, info=inf)
            if lk.noisy:
                if r.varK != keep[2]:
                    ctx.violation('closed:varK_changed:' + tag, None, info=inf)
            elif not single:
                ctx.close('closed_varK', r.varK, base['varK'], tol['varK'], 'closed:varK:' + tag, info=inf)
            if not (np.array_equal(r.theta, keep[0]) and r.var_fval == keep[3] and r.var_fgrad == keep[4] and np.array_equal(r.kernel, keep[1])):
                ctx.violation('closed:others_changed:' + tag, None, info=inf)
    # the closed forms maximize the likelihood the model itself reports (noise-free, no penalty)
    if not single and infos and infos[0].ln_lkd is not None:
        ctx.count('optimal')
        L = ref.chol(lk.A)
        li = infos[0]
        n = lk.n
        b = float(np.ravel(li.hp_beta)[0])
        for db in (-1e-2, 1e-2):
            sc_ = float(np.std(lk.y[:sc.n])) + abs(b) + 1e-300
            r = lk.y - (b + db * sc_) * lk.F
            q = np.sum(r * ref.chosolve(L, r))
            v = q if lk.noisy else li.hp_varK
            other = -(ref.logdet(L) + q) / 2 if lk.noisy else -(n * np.log(q / n) + ref.logdet(L)) / 2
            if pn is None and other > li.ln_lkd + float(tol['ln_lkd']):
                ctx.violation('beta_not_optimal:' + tag, dict(gain=float(other - li.ln_lkd)), info=inf)
    ctx.nontrivial(sc.cls() + (pn is not None,))
    ctx.sample(dict(scenario=inf, ln_lkd=float(base['ln_lkd']), beta=float(base['beta'])))


def part(ctx, rng, gp, sc, lk, base, tol, pn, inf, tag):
    """calc_lkd_all_w_noise / calc_lkd_all_wo_noise for the factorization of the reference matrix"""
    from scipy.linalg import cho_factor
    try:
        ch = cho_factor(np.asarray(lk.A, float))
    except np.linalg.LinAlgError:
        return
    fn = gp.calc_lkd_all_w_noise if lk.noisy else gp.calc_lkd_all_wo_noise
    adj = [None, True, False][int(rng.integers(3))]
    val = bool(rng.random() < 0.6)
    t = '%s:%s:%s' % (tag, adj, val)
    ok, li = ctx.guard('part:' + t, fn, sc.hp['theta'], ch, calc_lkd=val, lkd_use_adj_mtd=adj, info=inf)
    if not ok:
        return
    ctx.count('parts')
    ctx.close('beta', np.ravel(li.hp_beta), np.ravel(base['beta']), tol['beta'], 'part:beta:' + t, info=inf)
    if not lk.noisy:
        ctx.close('varK', li.hp_varK, base['varK'], tol['varK'], 'part:varK:' + t, info=inf)
    if val:
        ctx.close('ln_lkd', li.ln_lkd, base['ln_lkd'], tol['ln_lkd'], 'part:ln_lkd:' + t + (':pnlt' if pn else ''), info=inf)
        ctx.close('lndet', li.ln_det_Kmat, base['lndet'], tol['lndet'], 'part:ln_det:' + t, info=inf)
    elif li.ln_lkd is not None:
        ctx.violation('part:likelihood_unrequested:' + t, None, info=inf)
    if li.ln_lkd_grad is not None:
        ctx.violation('part:gradient_unrequested:' + t, None, info=inf)

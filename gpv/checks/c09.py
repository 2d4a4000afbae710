"""C09: condition number, its gradient, and the fallback objective."""
import numpy as np
from scipy.linalg import cho_factor
from .. import gen, ref
from ..lk import Lk
from .c05 import names
from .c08 import LN10, flags, to_vec

RULE = ('case = random model, hyperparameters and options cond_norm in {2, fro}, cond_max_abs down to cond_max_target; calc_lkd_all(calc_cond), calc_store_likelihood, return_cond_val, '
        'return_cond_grad and the constraint object handed to the optimizer, against eigen-decomposition/inverse of the reference matrix and analytic derivative matrices; '
        'calc_cond_w_grad also on random SPD matrices with random derivative matrices; class = (model class, norm, path taken)')
ASSUMPTIONS = ['extreme eigenvalues that are not separated (derivative undefined) are skipped and counted',
               'the Frobenius value with derivative is compared only where the inverse is resolved; tolerance comes from perturbing the reference matrix by rounding']
E = ref.EPS


def shards(tier):
    k, n = (8, 1200) if tier == 'quick' else (24, 3500)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=150, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    return {'cmp:cond': 900, 'cmp:cond_grad': 500, 'cmp:direct_cond': 500, 'cmp:direct_grad': 400, 'fallback': 100, 'cmp:fb_grad': 80, 'fro': 200, 'constraint': 400}


def cnd(A, dA, norm):
    """condition number and derivatives (float64)"""
    if norm == 2:
        e, V = np.linalg.eigh(A)
        c = e[-1] / e[0]
        g = None
        if dA is not None:
            a, b = V[:, -1], V[:, 0]
            g = np.array([(a @ d @ a - c * (b @ d @ b)) / e[0] for d in dA])
        return c, g
    # the inverse through equilibration
    d = np.sqrt(np.diag(A))
    Ai = np.linalg.inv(A / d[:, None] / d[None, :]) / d[:, None] / d[None, :]
    p, q = np.sqrt(np.sum(A * A)), np.sqrt(np.sum(Ai * Ai))
    g = None
    if dA is not None:
        M = Ai @ Ai @ Ai
        g = np.array([q / p * np.sum(A * d_) - p / q * np.sum(M * d_) for d_ in dA])
    return p * q, g


def fro_mag(A, dA):
    d = np.sqrt(np.diag(A))
    Ai = np.linalg.inv(A / d[:, None] / d[None, :]) / d[:, None] / d[None, :]
    p, q = np.sqrt(np.sum(A * A)), np.sqrt(np.sum(Ai * Ai))
    B = np.abs(Ai)
    M = B @ B @ B
    return np.array([q / p * np.sum(np.abs(A * x)) + p / q * np.sum(M * np.abs(x)) for x in dA])


def ref_cond(A, dA, norm, mg=None, amp=4.0, safety=60.0, seed=0):
    """value, gradient, tolerances; None when not resolved"""
    A = np.asarray(A, float)
    dA = None if dA is None else [np.asarray(d, float) for d in dA]
    n = A.shape[0]
    e = np.linalg.eigvalsh(A)
    nrm = e[-1]
    if not (e[0] > 1e4 * n * E * nrm):
        return None
    c, g = cnd(A, dA, norm)
    tc = 12 * n * E * abs(c)
    tg = None if g is None else 40 * n * E * np.abs(g)
    sep = True
    if norm == 2 and n > 1:
        sep = e[-1] - e[-2] > 1e-9 * nrm and e[1] - e[0] > 1e-5 * e[0] and e[1] - e[0] > 1e4 * n * E * nrm
    for t in range(3):
        rng = np.random.default_rng([seed, t, 17])
        P = rng.standard_normal((n, n))
        P = (P + P.T) / 2
        c2, g2 = cnd(A + amp * E * nrm * P, dA, norm)
        tc = max(tc, safety * abs(c2 - c))
        if g is not None:
            d2 = []
            for k, d in enumerate(dA):
                m = np.abs(d) if mg is None else np.asarray(mg[k], float)
                d2.append(d + amp * E * m * P)
            g3 = cnd(A, d2, norm)[1]
            tg = np.maximum(tg, safety * (np.abs(g2 - g) + np.abs(g3 - g)))
    if g is not None:
        tg = np.maximum(tg, 0.02 * tg.max()) if norm == 2 else tg + 20 * n * E * fro_mag(A, dA)
    return dict(c=c, g=g if sep else None, tc=tc, tg=tg, sep=sep)


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        if i % 2:
            direct(ctx, rng)
        r = rng.random()
        wcs = ['base', 'rescale_origin', 'dflt_vmin', 'dflt_vmax', 'rescale_eta_vary', 'precon']
        sc = gen.gen(rng, aniso=0.4, **gen.size(i, dict(nmax=7 if i % 5 else 10, dmax=4, ndata_max=28)), eta_const=0.95, wcs=wcs if r < 0.7 else ['base', 'dflt_vmax'], **kw)
        one(ctx, sc, rng)


def direct(ctx, rng):
    """random matrices through calc_cond_w_grad"""
    from gpgradpy.src.GaussianProcess import GaussianProcess
    n = int(rng.integers(1, 9))
    k = int(rng.integers(1, 5))
    gp = GaussianProcess(2, True, 'SqExp', 'base')
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    ev = 10.0 ** np.sort(rng.uniform(-float(rng.choice([0.5, 2, 5, 7])), 0.5, n))
    A = Q @ np.diag(ev) @ Q.T
    A = (A + A.T) / 2
    D = rng.standard_normal((k, n, n)) * 10.0 ** rng.uniform(-2, 2, (k, 1, 1))
    D = (D + D.transpose(0, 2, 1)) / 2
    norm = 2 if rng.random() < 0.5 else 'fro'
    r = ref_cond(A, list(D), norm, mg=[np.full((n, n), np.max(np.abs(d))) for d in D])
    if r is None:
        ctx.count('skipped_illcond')
        return
    cho = cho_factor(A)
    if rng.random() < 0.5:
        gp.cond_norm = norm
        args = {}
    else:
        gp.cond_norm = 'fro' if norm == 2 else 2
        args = dict(cond_norm=norm)
    A0, D0 = A.copy(), D.copy()
    ok, o = ctx.guard('calc_cond_w_grad', gp.calc_cond_w_grad, A, cho, D, **args)
    if not ok:
        return
    ctx.close('direct_cond', o[0], r['c'], r['tc'], 'direct:cond:%s' % norm)
    if r['g'] is not None:
        ctx.close('direct_grad', np.asarray(o[1]), r['g'], r['tg'], 'direct:grad:%s' % norm)
    ok, o = ctx.guard('calc_cond_w_grad', gp.calc_cond_w_grad, A, cho, **args)
    if ok:
        ctx.close('direct_cond', o[0], r['c'], r['tc'], 'direct:cond:%s' % norm)
        if o[1] is not None:
            ctx.violation('direct:grad_without_derivatives')
    if not (np.array_equal(A, A0) and np.array_equal(D, D0)):
        ctx.violation('direct:inputs_modified')


def one(ctx, sc, rng):
    inf = sc.short()
    optk = bool(rng.random() < 0.85)
    norm = 2 if rng.random() < 0.65 else 'fro'
    c = sc.opts['cond_max_target']
    sc.opts['cond_max'] = c * float(10 ** (rng.uniform(0, 1) if rng.random() < 0.5 else 0))
    sc.opts['cond_norm'] = norm
    if rng.random() < 0.6:
        sc.opts['cond_max_target'] = c = float(10 ** rng.uniform(1.5, 6))
        sc.opts['cond_max'] = c
        sc.opts['cond_max_abs'] = c * float(10 ** (rng.uniform(0, 2) if rng.random() < 0.4 else 0))
    gp = gen.mk_gp(sc)
    gp.b_optz_hp_kernel = optk
    if sc.kernel == 'RatQu' and not optk:
        sc.hp['kernel'] = 2.0
    fl = rng.random(3) < 0.6
    gp.optz_log_hp_theta, gp.optz_log_hp_var, gp.optz_log_hp_kernel = [bool(v) for v in fl]
    try:
        gen.put_data(gp, sc)
    except AssertionError:          # the rescaling methods require targets that give vmin >= sqrt(2)
        if sc.weff in gen.SCALED:
            ctx.count('skipped_target')
            return
        raise
    nat = to_vec(gp, sc, sc.hp, optk)
    bl = flags(gp, sc, optk)
    vec = np.where(bl, np.log10(nat), nat)
    nat = np.where(bl, 10 ** vec, vec)
    hp = dict(sc.hp)
    nm = names(sc, optk)
    hp['theta'] = nat[:sc.dim]
    for k, v in zip(nm[sc.dim:], nat[sc.dim:]):
        hp[k] = float(v)
    lk = Lk(sc, gp, hp, optk)
    precon = lk.mode == 'precon'
    tag = '%s:%s:%s:%s' % ('noisy' if lk.noisy else 'clean', 'precon' if precon else ('scaled' if lk.scaled else 'base'), 'grad' if sc.use_grad else 'nograd', norm)
    if norm == 'fro':
        ctx.count('fro')
    sl = lk.slices()
    dA, mg = sl[1], sl[3]
    r = ref_cond(lk.cond_mat(), None if precon else dA, norm, mg)
    r2 = r if norm == 2 else ref_cond(lk.cond_mat(), None if precon else dA, 2, mg)
    rh = ref_cond(lk.cond_mat(), sl[2], norm, mg) if lk.vary and not precon else None
    rh2 = ref_cond(lk.cond_mat(), sl[2], 2, mg) if lk.vary and not precon else None
    if r is None:
        ctx.count('illcond')
        illcond(ctx, gp, vec, tag, inf, precon)
        return
    xt = 0.0
    if lk.scaled:       # the working coordinates carry rounding of their own
        Xp = lk.wk['X'] * (1 + 4 * E * np.random.default_rng(3).standard_normal(lk.wk['X'].shape))
        dK = (lk.kern(ref.diffs(Xp, Xp)) - lk.K) * lk.vK
        rp = ref_cond((lk.cond_mat() + dK), None, norm)
        xt = 20 * abs(rp['c'] - r['c']) if rp else 0.1 * r['c']
    tc = r['tc'] + xt
    jac = np.where(bl, nat * LN10, 1.0)
    if lk.vary and not sl[4]:
        ctx.count('skip_ties')
        return

    def cmpg(name, got, rr, rhh, fac, sig):
        if rr is None or rr['g'] is None:
            ctx.count('skip_separation')
            return
        got = np.asarray(got)
        if np.iscomplexobj(got):
            ctx.violation('complex_gradient:' + tag, None, info=inf)
            got = got.real
        t = (rr['tg'] + xt / max(rr['c'], 1e-300) * np.abs(rr['g']) * 20) * fac
        w = rr['g'] * fac
        if np.max(t) > 1e-3 * np.max(np.abs(w)) + 1e-3 * rr['c'] * np.max(fac / np.maximum(nat, 1e-300)):
            ctx.count('skip_gradtol')
            return
        if rhh is not None and got.shape == w.shape and not np.all(np.abs(got - w) <= t):
            if rhh['g'] is not None and np.all(np.abs(got - rhh['g'] * fac) <= t + rhh['tg'] * fac):
                ctx.violation('nugget-held-fixed', dict(name=name), info=inf)
                return
        ctx.close(name + ('_vary' if rhh is not None else ''), got, w, t, sig, info=inf)

    # --- calc_lkd_all
    fb = None       # does the fallback apply
    if not precon:
        cn = r['c']
        if abs(cn - gp.cond_max_abs) < 4 * tc:
            return
        fb = bool(cn > gp.cond_max_abs)
    for wg in (False, True):
        h = gen.mk_hp(gp, hp)
        h.beta = None
        ok, o = ctx.guard('calc_lkd_all:' + tag, gp.calc_lkd_all, h, calc_cond=True, calc_grad=wg, info=inf)
        if not ok:
            continue
        li, good = o
        if fb:
            if good:
                ctx.violation('no_fallback:' + tag, dict(cond=r['c'], cond_max_abs=gp.cond_max_abs), info=inf)
            elif r2 is not None:
                ctx.close('fb_cond', li.cond, r2['c'], r2['tc'] + xt, 'fallback:cond:' + tag, info=inf)
                if wg:
                    cmpg('fb_grad0', li.cond_grad, r2, rh2, np.ones(nat.size), 'fallback:cond_grad:' + tag)
            continue
        if not good:
            if lk.chol_sure():
                ctx.violation('factorization_failed:' + tag, dict(cond=r['c'], cond_max_abs=gp.cond_max_abs), info=inf)
            return
        ctx.close('cond', li.cond, r['c'], tc, 'calc_lkd_all:cond:' + tag, info=inf)
        if wg and not precon:
            cmpg('grad0', li.cond_grad, r, rh, np.ones(nat.size), 'calc_lkd_all:cond_grad:' + tag)
    if precon:
        ok, o = ctx.guard('calc_store_likelihood:' + tag, gp.calc_store_likelihood, vec.copy(), True, False, info=inf)
        if ok:
            ctx.close('cond', o[2], r['c'], tc, 'store:cond:' + tag, info=inf)
        ctx.nontrivial(sc.cls() + (norm, 'precon'))
        return
    ref_r, ref_h = (r2, rh2) if fb else (r, rh)
    if ref_r is None:
        return
    tv = ref_r['tc'] + xt
    if ref_r['g'] is not None:     # rounding of 10**log10
        tv += 40 * E * np.max(np.abs(ref_r['g'] * jac) * (1 + np.abs(vec)))
    # --- the callbacks handed to the optimizer
    ctx.count('constraint')
    nlc = gp.condnum_nlc
    for f, who in ((gp.return_cond_val, 'return_cond_val'), (nlc.fun, 'constraint_fun')):
        ok, v = ctx.guard(who + ':' + tag, f, vec.copy(), info=inf)
        if ok:
            ctx.close('cond', v, ref_r['c'], tv, who + ':' + tag, info=inf)
    for f, who in ((gp.return_cond_grad, 'return_cond_grad'), (nlc.jac, 'constraint_jac')):
        ok, v = ctx.guard(who + ':' + tag, f, vec.copy(), info=inf)
        if ok:
            cmpg('cond_grad', v, ref_r, ref_h, jac, who + ':' + tag)
    if not np.all(np.isneginf(nlc.lb)):
        ctx.violation('constraint_lower_bound', None, info=inf)
    if fb:
        ctx.count('fallback')
        ok, v = ctx.guard('fallback:val:' + tag, gp.return_optz_val, vec.copy(), info=inf)
        if ok:
            ctx.close('fb_val', v, ref_r['c'], tv, 'fallback:objective:' + tag, info=inf)
        ok, v = ctx.guard('fallback:grad:' + tag, gp.return_optz_grad, vec.copy(), info=inf)
        if ok:
            cmpg('fb_grad', v, ref_r, ref_h, jac, 'fallback:objective_grad:' + tag)
    ctx.nontrivial(sc.cls() + (norm, 'fallback' if fb else 'regular'))
    ctx.sample(dict(scenario=inf, cond=ref_r['c'], norm=norm))


def illcond(ctx, gp, vec, tag, inf, precon):
    """beyond double precision: the callbacks must still answer with numbers"""
    if precon:
        return
    for f in (gp.return_optz_val, gp.return_cond_val):
        ok, v = ctx.guard('illcond:val:' + tag, f, vec.copy(), info=inf)
        if ok and np.isnan(v):          # (infinite when the smallest singular value underflows)
            ctx.violation('illcond:not_finite:' + tag, dict(v=float(v)), info=inf)
    for f in (gp.return_optz_grad, gp.return_cond_grad):
        ok, v = ctx.guard('illcond:grad:' + tag, f, vec.copy(), info=inf)
        if ok and np.shape(v) != vec.shape:
            ctx.violation('illcond:shape:' + tag, dict(shape=np.shape(v)), info=inf)

"""C08: gradients of the likelihood."""
import numpy as np
from .. import gen, ref
from ..lk import Lk
from .c07 import pnlt_setup
from .c05 import names

LN10 = np.log(10.0)
RULE = ('case = random model and hyperparameters; ln_lkd_grad (adjoint, direct), hp_beta_grad, hp_varK_grad, ln_det_Kmat_grad of calc_lkd_all, and '
        'calc_store_likelihood/return_optz_val/return_optz_grad in the optimizer variables (random log10/natural flags), compared with analytic 80-bit derivatives; '
        'the objective is also called along a random sequence of vectors and must give bitwise the values of a fresh object; '
        'class = (kernel, method, use_grad, dim, n, mask, noise, flags)')
ASSUMPTIONS = ['reference derivatives are validated against complex-step derivatives in the self-test']


def shards(tier):
    k, n = (8, 900) if tier == 'quick' else (24, 3000)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=150, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    return {'cmp:grad': 700, 'cmp:beta_grad': 500, 'cmp:varK_grad': 200, 'cmp:lndet_grad': 400, 'cmp:optz_grad': 300, 'history': 300}


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, aniso=0.4, **gen.size(i, dict(nmax=7 if i % 5 else 10, dmax=4, ndata_max=28)), eta_const=0.93, wcs=gen.WC_GRAD if rng.random() < 0.5 else ['precon', 'base', 'rescale_origin', 'dflt_vmax'], **kw)
        one(ctx, sc, rng)


def to_vec(gp, sc, hp, optk):
    v = []
    for k in names(sc, optk):
        if k.startswith('theta'):
            v.append(hp['theta'][int(k[5:])])
        else:
            v.append(float(np.atleast_1d(hp[k])[0]))
    return np.array(v, dtype=float)


def flags(gp, sc, optk):
    return np.array([{'t': gp.optz_log_hp_theta, 'k': gp.optz_log_hp_kernel}.get(k[0], gp.optz_log_hp_var) for k in names(sc, optk)], bool)


def one(ctx, sc, rng):
    inf = sc.short()
    optk = bool(rng.random() < 0.85)
    gp = gen.mk_gp(sc)
    gp.b_optz_hp_kernel = optk
    if sc.kernel == 'RatQu' and not optk:
        sc.hp['kernel'] = 2.0
    fl = rng.random(3) < 0.6
    gp.optz_log_hp_theta, gp.optz_log_hp_var, gp.optz_log_hp_kernel = [bool(v) for v in fl]
    pn = pnlt_setup(gp, rng)
    gp.lkd_use_adj_mtd = bool(rng.random() < 0.5)
    opts = {k: getattr(gp, k) for k in ('b_optz_hp_kernel', 'optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'lkd_varK_pnlt_use',
                                        'lkd_varK_pnlt_lb_var', 'lkd_varK_pnlt_c1', 'lkd_varK_pnlt_c2', 'lkd_use_adj_mtd')}
    gen.put_data(gp, sc)
    nat = to_vec(gp, sc, sc.hp, optk)
    bl = flags(gp, sc, optk)
    vec = np.where(bl, np.log10(nat), nat)
    nat = np.where(bl, 10 ** vec, vec)              # the values the vector denotes
    hp = dict(sc.hp)
    nm = names(sc, optk)
    hp['theta'] = nat[:sc.dim]
    for k, v in zip(nm[sc.dim:], nat[sc.dim:]):
        hp[k] = float(v)
    lk = Lk(sc, gp, hp, optk)
    if sc.n == 1 and sc.ng == 0 and not lk.noisy:
        return
    tag = '%s:%s:%s' % ('noisy' if lk.noisy else 'clean', sc.weff if sc.weff == 'precon' else ('scaled' if sc.weff in gen.SCALED else 'base'), 'grad' if sc.use_grad else 'nograd')
    try:
        if lk.vary and not lk.slices()[4]:
            ctx.count('skip_ties')
            return
        base, tol = lk.with_tol(grads=True, pnlt=pn)
        held = lk.with_tol(grads=True, pnlt=pn, held=True) if lk.vary else None
    except ref.NotPD:
        ctx.count('skipped_singular')
        return
    gs = float(np.max(np.abs(base['grad'] * nat)))
    ths = float(np.max(tol['grad'] * nat))
    if not (float(tol['ln_lkd']) < 1e-4 * (lk.n + abs(float(base['ln_lkd']))) and ths < 1e-3 * (lk.n + gs)):
        ctx.count('skipped_illcond')
        return
    if pn and not lk.noisy:        # kink of the penalty
        vf = max(float(np.var(lk.y[:sc.n])), pn[2])
        if abs(float(base['varK']) - pn[1] * vf) < 1e-6 * (float(base['varK']) + pn[1] * vf):
            return
    wj = float(nat.max()) if nat.size else 1

    def cmp(name, got, key, fac, sig):
        got = np.asarray(got)
        w, t = base[key] * fac, tol[key] * fac
        t = np.maximum(t, 0)
        if held is not None and got.shape == w.shape and not np.all(np.abs(got - w) <= t):
            hv, ht = held[0][key] * fac, held[1][key] * fac
            if np.all(np.abs(got - hv) <= np.maximum(ht, t)):
                ctx.count('nugget_held')
                ctx.violation('nugget-held-fixed', dict(name=name), info=inf)
                return
        ctx.close(name + ('_vary' if held is not None else ''), got, w, t, sig + (':vary' if held is not None else '') + (':pnlt' if pn and not lk.noisy else ''), info=inf)
    for adj in (True, False):
        h = gen.mk_hp(gp, hp)
        h.beta = None
        if not lk.noisy:
            h.varK = None
        ok, o = ctx.guard('calc_lkd_all:grad:' + tag, gp.calc_lkd_all, h, calc_grad=True, lkd_use_adj_mtd=adj, info=inf)
        if not ok or not o[1]:
            if ok and lk.chol_sure():
                ctx.violation('cholesky_failed:' + tag, None, info=inf)
            continue
        li = o[0]
        t = '%s:%s' % (tag, 'adj' if adj else 'direct')
        ctx.close('ln_lkd', li.ln_lkd, base['ln_lkd'], tol['ln_lkd'], 'ln_lkd:' + t, info=inf)
        cmp('grad', li.ln_lkd_grad, 'grad', 1.0, 'ln_lkd_grad:' + t)
        if not adj:
            if li.hp_beta_grad is not None:
                cmp('beta_grad', np.ravel(li.hp_beta_grad), 'beta_grad', 1.0, 'hp_beta_grad:' + t)
            else:
                ctx.violation('beta_grad_missing:' + t, None, info=inf)
            cmp('lndet_grad', li.ln_det_Kmat_grad, 'lndet_grad', 1.0, 'ln_det_grad:' + t)
            if not lk.noisy:
                cmp('varK_grad', li.hp_varK_grad, 'varK_grad', 1.0, 'hp_varK_grad:' + t)
        elif li.hp_beta_grad is not None:
            cmp('beta_grad', np.ravel(li.hp_beta_grad), 'beta_grad', 1.0, 'hp_beta_grad:' + t)
    # the optimizer's variables
    if gp.b_use_cond_cstr and lk.cond_f() > 1e14:
        ctx.count('skipped_fallback')
        return
    jac = np.where(bl, nat * LN10, 1.0)
    v_in = vec.copy()
    ok, o = ctx.guard('calc_store_likelihood:' + tag, gp.calc_store_likelihood, v_in, info=inf)
    if ok:
        ctx.close('optz_val', o[0], base['ln_lkd'], tol['ln_lkd'] + 40 * ref.EPS * float(np.max(np.abs(base['grad'] * jac) * (1 + np.abs(vec)))), 'store_val:' + tag, info=inf)
        cmp('optz_grad', o[1], 'grad', jac * (1 + 0), 'store_grad:' + tag)
        if not np.array_equal(v_in, vec):
            ctx.violation('vector_modified:' + tag, None, info=inf)
    # history independence along a sequence of vectors
    seq = [vec, vec + 0.05 * rng.standard_normal(vec.size) * np.where(bl, 1, nat), vec]
    seq.append(seq[1])
    vals = []
    order = rng.permutation(2)
    for v in seq:
        r = [None, None]
        for w in order:
            f = (gp.return_optz_val, gp.return_optz_grad)[w]
            ok, r[w] = ctx.guard('return_optz:' + tag, f, v.copy(), info=inf)
            if not ok:
                return
        if order[0] and rng.random() < 0.3:
            gp.calc_store_likelihood(v.copy() * 1.001, calc_grad=False)
        vals.append((float(r[0]), np.array(r[1])))
    ctx.count('history')
    for a, b in ((0, 2), (1, 3)):
        if vals[a][0] != vals[b][0] or not np.array_equal(vals[a][1], vals[b][1]):
            ctx.violation('history:' + tag, dict(a=vals[a][0], b=vals[b][0]), info=inf)
    g2 = gen.mk_gp(sc)
    for k, v in opts.items():
        setattr(g2, k, v)
    gen.put_data(g2, sc)
    ok, v1 = ctx.guard('return_optz:' + tag, g2.return_optz_grad, seq[1].copy(), info=inf)
    if ok:
        v0 = g2.return_optz_val(seq[1].copy())
        if v0 != vals[1][0] or not np.array_equal(v1, vals[1][1]):
            ctx.violation('history:fresh:' + tag, dict(a=float(v0), b=vals[1][0]), info=inf)
    ctx.close('neg', -vals[0][0], base['ln_lkd'], tol['ln_lkd'] + 40 * ref.EPS * float(np.max(np.abs(base['grad'] * jac) * (1 + np.abs(vec)))), 'return_optz_val:' + tag, info=inf)
    cmp('neg_grad', -vals[0][1], 'grad', jac, 'return_optz_grad:' + tag)
    ctx.nontrivial(sc.cls() + (tuple(fl.tolist()), pn is not None))
    ctx.sample(dict(scenario=inf, grad=base['grad'].astype(float), names=nm))

"""C02: derivatives returned with the prediction."""
import numpy as np
from .. import gen, ref
from .c01 import feats

RULE = ('case = random model (as C01) with 1-5 evaluation points; gradients of batches and Hessians of single points are compared with the exact '
        'derivatives of the posterior computed in 80-bit arithmetic; class = (kernel, method, use_grad, dim, n, mask kind, noise, hessian?); '
        'non-trivial = the reference covariance is positive definite and at least one derivative was compared')
ASSUMPTIONS = ['tolerance = 40 x sensitivity to 8-ulp perturbations of the covariance (3 random perturbations)',
               'derivatives of sig are compared as d(sig^2), which is how they are defined where sig > 0']


def shards(tier):
    k, n = (8, 1600) if tier == 'quick' else (24, 2500)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=300, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    return {'cmp:dmu': 500, 'cmp:dsig2': 500, 'cmp:d2mu': 300, 'cmp:d2sig2': 250, 'cmp:dvar': 60}


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, hp_extreme=0.05, aniso=0.4, alpha_types=('float', 'float', 'array', 'int') if sh['mode'] == 'interp' else ('float',),
                     **gen.size(i, dict(nmax=8 if i % 5 else 3, dmax=4 if i % 7 else 6)), **kw)
        one(ctx, sc, rng)


def one(ctx, sc, rng):
    inf = sc.short()
    f = feats(sc)
    gp = gen.mk_gp(sc)
    gen.put_data(gp, sc)
    gp.set_hpara('set', 0, gen.mk_hp(gp, sc.hp))
    if gp.KernEta_chofac is None:
        ctx.count('skipped_singular')
        return
    M, wk = gen.ref_model(sc, float(gp.etaK_eval), gp=gp)
    m = 1 if rng.random() < 0.5 else int(rng.integers(2, 6))
    hess = bool(m == 1 and sc.use_grad and rng.random() < 0.85) or bool(m == 1 and not sc.use_grad and rng.random() < 0.7)
    Xe = gen.eval_points(rng, sc, m)
    try:
        want, tol = gen.ref_predict(M, wk, Xe, grad=True, hess=hess)
    except ref.NotPD:
        tol = None
    if tol is None:
        ctx.count('skipped_singular')
        return
    vk = float(M.varK / wk['osc'] ** 2)
    if float(np.max(tol['sig2'])) > 1e-3 * vk:
        ctx.count('skipped_illcond')
        return
    arg = Xe[0] if (m == 1 and rng.random() < 0.4) else Xe
    sq = bool(m == 1 and rng.random() < 0.4)
    ok, out = ctx.guard('eval_model:%s:hess%d' % (f, hess), gp.eval_model, arg, calc_grad=True, calc_hess=hess, squeeze_nx=sq, info=inf)
    if not ok:
        return
    mu, sig, dmu, dsig, H, S = out
    if sq:
        want_shapes = [(), (), (sc.dim,), (sc.dim,)] + ([(sc.dim, sc.dim)] * 2 if hess else [])
    else:
        want_shapes = [(m,), (m,), (m, sc.dim), (m, sc.dim)] + ([(m, sc.dim, sc.dim)] * 2 if hess else [])
    for nm, v, w in zip(('mu', 'sig', 'dmu', 'dsig', 'd2mu', 'd2sig'), out, want_shapes):
        if np.shape(v) != w:
            ctx.violation('shape:%s:sq%d' % (nm, sq), dict(got=np.shape(v), want=w), info=inf)
            return
    if sq:
        sig, dmu, dsig = np.atleast_1d(sig), dmu[None], dsig[None]
        if hess:
            H, S = H[None], S[None]
    ctx.close('dmu', dmu, want['dmu'], tol['dmu'], 'dmu:' + f, info=inf)
    # rows whose variance is resolved
    good = np.array((sig > 0) & (want['sig2'] > 1e3 * tol['sig2']) & (want['sig2'] > 1e-7 * vk))
    ctx.count('rows_zero_sig', np.sum(~good))
    if good.any():
        ctx.close('dsig2', (2 * sig[:, None] * dsig)[good], want['dsig2'][good], tol['dsig2'][good] * 1.001, 'dsig:' + f, info=inf)
    if hess:
        ctx.close('d2mu', H, want['d2mu'], tol['d2mu'], 'd2mu:' + f, info=inf)
        ctx.close('hess_sym', H, np.swapaxes(H, 1, 2), tol['d2mu'], 'd2mu_sym:' + f, info=inf)
        if good.any():
            got = 2 * (sig[:, None, None] * S + dsig[:, :, None] * dsig[:, None, :])
            # sig*S and dsig dsig^T may cancel: allow for the rounding of both
            rel = float(np.max(tol['sig2'] / np.maximum(want['sig2'], 1e-300)))
            extra = 4 * (np.abs(dsig[:, :, None] * dsig[:, None, :])) * (rel + 20 * ref.EPS)
            ctx.close('d2sig2', got, want['d2sig2'], 1.01 * tol['d2sig2'] + extra, 'd2sig:' + f, info=inf)
            ctx.close('hess_sym', S, np.swapaxes(S, 1, 2), (tol['d2sig2'] + extra) / sig[:, None, None], 'd2sig_sym:' + f, info=inf)
    elif sc.dim and out[4] is not None:
        ctx.violation('unrequested_hessian', None, info=inf)
    if not gp.b_use_data_scl and rng.random() < 0.35:
        ok, o2 = ctx.guard('eval_model_var:' + f, gp.eval_model_var, arg, calc_grad=True, squeeze_nx=sq, info=inf)
        if ok:
            dv = o2[1][None] if sq else o2[1]
            if np.shape(o2[1]) != want_shapes[2]:
                ctx.violation('shape:dvar:sq%d' % sq, dict(got=np.shape(o2[1])), info=inf)
            else:
                ctx.close('dvar', dv, want['dsig2'], tol['dsig2'], 'dvar:' + f, info=inf)
    ctx.nontrivial(sc.cls() + (hess,))
    ctx.sample(dict(scenario=inf, dmu=dmu, dmu_ref=want['dmu'].astype(float), hess=hess))

"""C01: posterior mean and standard deviation equal the exact conditional."""
import numpy as np
from .. import gen, ref

RULE = ('case = random (kernel, well-conditioning method, dim, n, gradient mask, noise kind, hyperparameters, options, data) scenario with 1-4 '
        'evaluation points; class = (kernel, method, use_grad, dim, n, mask kind, noise kind); non-trivial = the reference covariance is '
        'positive definite and mu and sig were both compared with the 80-bit reference')
ASSUMPTIONS = ['reference model in 80-bit arithmetic with the nugget value reported by the model',
               'tolerance = 40 x sensitivity to 8-ulp perturbations of the covariance (3 random perturbations)']


def shards(tier):
    k = 8 if tier == 'quick' else 24
    n = 900 if tier == 'quick' else 2500
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=400, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    return {'cmp:mu': 500, 'cmp:sig2': 500, 'cmp:var': 30}


def feats(sc):
    return '%s:%s:%s' % (sc.weff, 'noisy' if sc.noise not in ('zero', 'tiny') else 'clean', 'mask' if sc.bvec is not None else 'full')


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, hp_extreme=0.1, aniso=0.4, alpha_types=('float', 'float', 'array', 'int') if sh['mode'] == 'interp' else ('float',),
                     **gen.size(i, dict(nmax=9 if i % 5 else 3, dmax=4 if i % 7 else 6)), **kw)
        one(ctx, sc, rng)


def one(ctx, sc, rng, hess=False):
    inf = sc.short()
    gp = gen.mk_gp(sc)
    ok, _ = ctx.guard('set_data:' + feats(sc), gen.put_data, gp, sc, info=inf)
    if not ok:
        return
    hp = gen.mk_hp(gp, sc.hp)
    ok, _ = ctx.guard('set_hpara:' + feats(sc), gp.set_hpara, 'set', 0, hp, info=inf)
    if not ok:
        return
    eta = float(gp.etaK_eval)
    M, wk = gen.ref_model(sc, eta, gp=gp)
    m = int(rng.integers(1, 5))
    Xe = gen.eval_points(rng, sc, m)
    try:
        want, tol = gen.ref_predict(M, wk, Xe, grad=False)
    except ref.NotPD:
        want = tol = None
    if tol is None or gp.KernEta_chofac is None:
        # numerically singular (only reachable without a sufficient nugget)
        ctx.count('skipped_singular')
        return
    if float(np.max(tol['sig2'])) > 1e-3 * float(M.varK / wk['osc'] ** 2):
        ctx.count('skipped_illcond')
        return
    arg = Xe[0] if (m == 1 and rng.random() < 0.5) else Xe
    sq = bool(m == 1 and rng.random() < 0.3)
    grad = bool(rng.random() < 0.3)
    ok, out = ctx.guard('eval_model:' + feats(sc), gp.eval_model, arg, calc_grad=grad, squeeze_nx=sq, info=inf)
    if not ok:
        return
    mu, sig = np.atleast_1d(out[0]), np.atleast_1d(out[1])
    f = feats(sc)
    a = ctx.close('mu', mu, want['mu'], tol['mu'], 'mu:' + f, info=inf)
    b = ctx.close('sig2', np.asarray(sig) ** 2, np.maximum(want['sig2'], 0), tol['sig2'], 'sig:' + f, info=inf)
    if not gp.b_use_data_scl and rng.random() < 0.3:
        ok, out = ctx.guard('eval_model_var:' + f, gp.eval_model_var, arg, info=inf)
        if ok:
            ctx.close('var', np.atleast_1d(out[0]), want['sig2'], tol['sig2'], 'var:' + f, info=inf)
    ctx.nontrivial(sc.cls())
    ctx.sample(dict(scenario=inf, mu=mu, mu_ref=want['mu'].astype(float), sig=sig, eta=eta))

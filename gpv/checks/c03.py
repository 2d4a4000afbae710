"""C03: interpolation, variance laws, reversion to the prior, monotone information."""
import numpy as np
from .. import gen, ref

RULE = ('case = random model; clause "data": prediction (value, used gradients, sig) at every data point against the identity residual = '
        '(noise/varK + nugget*diag) * weights and the a-priori energy bound with the largest nugget the options allow; clause "range": 0 <= sig <= sqrt(varK) at '
        'random, data and far points; clause "far": prior recovered far away; clause "info": the same hyperparameters with one more observation or gradient never '
        'increase sig beyond what the nugget change explains; class = (clause, kernel, method, use_grad, dim, n, mask, noise); non-trivial = clause evaluated')
ASSUMPTIONS = ['largest explained nugget: the one of the documented option (n_eval/(cond_max_target-1), times dim+1, cond_eta_dflt, or the largest absolute row sum when cond_eta_is_const is False)', 'tolerances scale with the conditioning of the case']


def shards(tier):
    k, n = (8, 900) if tier == 'quick' else (24, 2000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'cmp:res_val': 300, 'cmp:res_grad': 150, 'bound_val': 300, 'bound_sig': 300, 'range': 500, 'far': 200, 'info': 300}


def setup(ctx, sc, hp=None):
    gp = gen.mk_gp(sc)
    gen.put_data(gp, sc)
    gp.set_hpara('set', 0, gen.mk_hp(gp, hp or sc.hp))
    return gp


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        sc = gen.gen(rng, hp_extreme=0.05, aniso=0.4, **gen.size(i, dict(nmax=8, dmax=4 if i % 7 else 6)))
        one(ctx, sc, rng)
        sc2 = gen.gen(rng, nmin=1, nmax=7, dmax=3, noises=['zero', 'zero', 'known', 'hetero', 'unk'],
                      wcs=['base', 'precon', 'rescale_origin', 'dflt_vmax'])
        info(ctx, sc2, rng)


def one(ctx, sc, rng):
    inf = sc.short()
    tag = '%s:%s' % (sc.weff, 'noisy' if sc.noise not in ('zero', 'tiny') else 'clean')
    gp = setup(ctx, sc)
    if gp.KernEta_chofac is None:
        ctx.count('skipped_singular')
        return
    eta = float(gp.etaK_eval)
    M, wk = gen.ref_model(sc, eta, gp=gp)
    osc = float(wk['osc'])
    vk = float(M.varK) / osc ** 2
    n, d = sc.n, sc.dim
    try:
        base, tol = gen.ref_predict(M, wk, sc.X, grad=True)
        A = M.reg(M.kern_mat())
        L = ref.chol(A)
    except ref.NotPD:
        tol = None
    if tol is None or np.max(tol['sig2']) > 1e-4 * vk:
        ctx.count('skipped_illcond')
        return
    r = M.y - M.beta * M.ones()
    w = ref.chosolve(L, r)
    q = float(np.sum(r * w))
    Kd = np.diag(M.kern_mat())
    nz = M.noise / M.varK

    def lam_of(e):
        return nz + e * (Kd + nz) if M.mode == 'precon' else nz + e
    lam = lam_of(ref.LD(eta))
    want_res = (lam * w).astype(float)                 # y - mu in working units
    cap = gen.eta_cap(sc, M)
    ctx.count('eta_cap')
    if not eta <= cap:
        ctx.violation('nugget_exceeds_option:' + tag, dict(eta=eta, cap=cap), info=inf)
    lcap = lam_of(ref.LD(cap)).astype(float)
    ok, out = ctx.guard('eval_data:' + tag, gp.eval_model, sc.X.copy(), calc_grad=True, info=inf)
    if not ok:
        return
    mu, sig, dmu = out[0], out[1], out[2]
    res = sc.f - mu
    ctx.close('res_val', res, want_res[:n] / osc, tol['mu'] + 4 * ref.EPS * (np.abs(sc.f) + np.abs(mu)), 'residual:value:' + tag, info=inf)
    ctx.count('bound_val', n)
    bnd = np.sqrt(np.maximum(lcap[:n], 0) * q) / osc
    if np.any(np.abs(res) > bnd * (1 + 1e-6) + tol['mu'] + 4 * ref.EPS * np.abs(sc.f)):
        k = int(np.argmax(np.abs(res) - bnd))
        ctx.violation('relax:value:' + tag, dict(residual=res[k], bound=bnd[k], tol=float(tol['mu'][k])), info=inf)
    s = wk['s'].astype(float)
    if sc.use_grad and sc.ng:
        rows = np.arange(n) if sc.bvec is None else np.where(sc.bvec)[0]
        rg = sc.g - dmu[rows]
        wr = np.array([want_res[n + j * sc.ng: n + (j + 1) * sc.ng] for j in range(d)]).T * s / osc
        ctx.close('res_grad', rg, wr, tol['dmu'][rows] + 4 * ref.EPS * (np.abs(sc.g) + np.abs(dmu[rows])), 'residual:gradient:' + tag, info=inf)
        bg = np.array([np.sqrt(np.maximum(lcap[n + j * sc.ng: n + (j + 1) * sc.ng], 0) * q) for j in range(d)]).T * s / osc
        ctx.count('bound_grad', rg.size)
        if np.any(np.abs(rg) > bg * (1 + 1e-6) + tol['dmu'][rows] + 4 * ref.EPS * np.abs(sc.g)):
            ctx.violation('relax:gradient:' + tag, dict(residual=float(np.max(np.abs(rg))), bound=float(np.max(bg))), info=inf)
    ctx.count('bound_sig', n)
    sb = vk * lcap[:n] / (1 + lcap[:n])
    bad = sig ** 2 > sb * (1 + 1e-6) + tol['sig2']
    if np.any(bad):
        k = int(np.argmax(sig ** 2 - sb))
        ctx.violation('sig_at_data:' + tag, dict(sig2=sig[k] ** 2, bound=sb[k], tol=float(tol['sig2'][k]), varK=vk), info=inf)
    ctx.nontrivial(('data',) + sc.cls())
    # range
    P = np.vstack([gen.eval_points(rng, sc, 6), sc.X])
    ok, out = ctx.guard('eval_range:' + tag, gp.eval_model, P, info=inf)
    if ok:
        sg = out[1]
        ctx.count('range', len(P))
        slack = 1e-9 + 1e-2 * float(np.max(tol['sig2'])) / vk
        if not (np.all(np.isfinite(sg)) and np.all(sg >= 0) and np.all(sg ** 2 <= vk * (1 + slack))):
            ctx.violation('range:' + tag, dict(max=float(np.max(sg)) ** 2, varK=vk), info=inf)
        ctx.nontrivial(('range',) + sc.cls())
    # far away
    th = (M.th * wk['s'] ** 2).astype(float)
    al = gen.alpha_of(sc)
    want_k = 1e-10
    if sc.kernel == 'RatQu':
        if al < 0.3:
            return
        smin = al * (want_k ** (-1 / al))
    else:
        smin = 2000.0
    dirn = rng.standard_normal(d)
    dirn /= np.sqrt(np.sum(th * dirn ** 2))
    dev = sc.X - sc.X.mean(0)
    ext = np.sqrt(np.max(np.sum(th * dev ** 2, axis=1)))
    xf = sc.X.mean(0) + dirn * (np.sqrt(smin) + ext)
    if not np.all(np.isfinite(xf)) or np.max(np.abs(xf)) > 1e100:
        return
    ok, out = ctx.guard('eval_far:' + tag, gp.eval_model, xf[None], calc_grad=True, info=inf)
    if ok:
        ctx.count('far')
        kb = want_k * np.sqrt(2 * float(np.max(np.append(Kd, 1))) * 50)      # bound of any covariance entry at that distance
        b0 = float(M.beta) / osc + float(wk['osh'])
        t = kb * float(np.sum(np.abs(w * np.sqrt(np.maximum(Kd, 1))))) * 100 / osc + 1e-9 * abs(b0) + 1e-9 * float(np.max(np.abs(sc.f)))
        if not abs(out[0][0] - b0) <= t:
            ctx.violation('far:mu:' + tag, dict(mu=out[0][0], beta=b0, tol=t), info=inf)
        if not abs(out[1][0] ** 2 - vk) <= vk * 1e-6:
            ctx.violation('far:sig:' + tag, dict(sig2=out[1][0] ** 2, varK=vk), info=inf)
        ctx.nontrivial(('far',) + sc.cls())


def info(ctx, sc, rng):
    """add one gradient (mask) or one observation with the same hyperparameters"""
    from copy import copy
    scaled = sc.weff in gen.SCALED
    addgrad = sc.use_grad and (scaled or rng.random() < 0.5)
    big = copy(sc)
    if addgrad:
        k = int(rng.integers(sc.n))
        mb = np.ones(sc.n, bool) if rng.random() < 0.5 else rng.random(sc.n) < 0.5
        mb[k] = True
        ms = mb.copy()
        ms[k] = False
        lo, hi = remask(sc, ms), remask(sc, mb)
    else:
        if sc.n < 2:
            return
        keep = np.ones(sc.n, bool)
        keep[int(rng.integers(sc.n))] = False
        lo, hi = subset(sc, keep), big
    gl, gh = setup(ctx, lo), setup(ctx, hi)
    if gl.KernEta_chofac is None or gh.KernEta_chofac is None:
        return
    P = np.vstack([gen.eval_points(rng, sc, 4), sc.X[:2]])
    el, eh = float(gl.etaK_eval), float(gh.etaK_eval)
    Ml, wl = gen.ref_model(lo, el, gp=gl)
    Mh, wh = gen.ref_model(hi, eh, gp=gh)
    if np.any(Mh.noise != 0) != np.any(Ml.noise != 0):
        return                      # one of the two counts as free of noise (all standard deviations below 1e-10)
    try:
        pl, tl = gen.ref_predict(Ml, wl, P, grad=False)
        ph, th_ = gen.ref_predict(Mh, wh, P, grad=False)
        Mh2, _ = gen.ref_model(hi, el, gp=gh)
        ph2, t2 = gen.ref_predict(Mh2, wh, P, grad=False)
    except ref.NotPD:
        return
    if tl is None or th_ is None or t2 is None:
        return
    tag = '%s:%s' % (sc.weff, 'gradient' if addgrad else 'value')
    ok, a = ctx.guard('info:eval:' + tag, gl.eval_model, P, info=sc.short())
    ok2, b = ctx.guard('info:eval:' + tag, gh.eval_model, P, info=sc.short())
    if not (ok and ok2):
        return
    expl = np.maximum(ph['sig2'] - ph2['sig2'], 0).astype(float)
    lim = a[1] ** 2 + expl + tl['sig2'] + th_['sig2'] + t2['sig2']
    ctx.count('info', len(P))
    if not eh <= gen.eta_cap(hi, Mh):
        ctx.violation('info:nugget:' + tag, dict(eta=eh), info=sc.short())
    if np.any(b[1] ** 2 > lim):
        k = int(np.argmax(b[1] ** 2 - lim))
        ctx.violation('info:' + tag, dict(before=a[1][k] ** 2, after=b[1][k] ** 2, explained=expl[k]), info=sc.short())
    ctx.nontrivial(('info', addgrad) + sc.cls())


def remask(sc, mask):
    from copy import copy
    o = copy(sc)
    o.bvec = mask
    o.ng = int(mask.sum())
    o.g = np.ascontiguousarray(sc._G[mask])
    o.hp = dict(sc.hp)
    if sc.unk_g:
        o.sg = None
        if o.ng == 0:
            pass
    elif sc.sg is not None:
        lvl = np.max(sc.sg, axis=0) if sc.sg.size else np.zeros(sc.dim)
        o.sg = np.tile(lvl, (o.ng, 1))
    return o


def subset(sc, keep):
    from copy import copy
    o = copy(sc)
    o.X, o.f = sc.X[keep], sc.f[keep]
    o.n = int(keep.sum())
    o._G = sc._G[keep]
    if sc.sf is not None:
        o.sf = sc.sf[keep]
    if sc.use_grad:
        if sc.bvec is None:
            o.ng = o.n
            o.g = sc.g[keep]
            o.sg = None if sc.sg is None else sc.sg[keep]
        else:
            k2 = keep[sc.bvec]
            o.bvec = sc.bvec[keep]
            o.ng = int(o.bvec.sum())
            o.g = sc.g[k2]
            o.sg = None if sc.sg is None else sc.sg[k2]
    return o

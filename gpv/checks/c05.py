"""C05: derivatives of kernel and covariance matrices with respect to the hyperparameters."""
import numpy as np
from .. import gen, ref
from .c04 import expand

RULE = ('case = (a) one call of calc_Kern_grad_theta/alpha on random square point sets and masks, (b) one calc_KernGrad_hp / calc_Kcov_grad_hp on a random model '
        '(kernel, conditioning method, mask, noise), each slice compared entrywise with the analytic 80-bit derivative; '
        'class = (level, kernel, method, use_grad, dim, n, mask, noise); models with a varying nugget use the derivative of the actual nugget as reference')
ASSUMPTIONS = ['tolerance = 128 ulp x sum of the magnitudes of the terms of the entry x (1 + exponent)']


def shards(tier):
    k, n = (8, 1800) if tier == 'quick' else (24, 5000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'cmp:dth': 800, 'cmp:dal': 200, 'cmp:slice_theta': 800, 'cmp:slice_kernel': 150, 'cmp:slice_varK': 300, 'cmp:slice_var_fval': 150,
            'cmp:slice_var_fgrad': 100, 'cmp:sub': 300}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        kernel_level(ctx, gen.kcase(rng, square=True, alpha_types=('float', 'float', 'array'), **gen.size(i, dict(nmax=6 if i % 5 else 9))), rng)
        sc = gen.gen(rng, eta_const=0.88, aniso=0.4, **gen.size(i + 7, dict(nmax=6, dmax=4, ndata_max=24)), alpha_types=('float', 'float', 'array'))
        model_level(ctx, sc, rng)


def kernel_level(ctx, c, rng):
    gp = gen.kgp(c)
    a = c.al_arg
    al = None if c.al is None else ref.LD(c.al)
    m = c.m1 if c.grad else None
    c.m2 = c.m1
    args = () if (m is None and rng.random() < 0.5) else ((None if m is None else m.copy()),)
    if not c.grad:
        args = (None,)
    mk = ':masked' if m is not None else ''
    ok, G = ctx.guard('grad_theta:' + c.tag + mk, gp.calc_Kern_grad_theta, c.R.copy(), c.theta.copy(), a, *args, info=c.cls)
    if not ok:
        return
    amp = expand(c, gen.kcond(c))
    if c.grad:
        W = ref.kfull_grad_th_R(c.kernel, c.R, c.theta, al, m, m)
        Mg = ref.kfull_grad_th_R(c.kernel, c.R, c.theta, al, m, m, mag=True)
    else:
        W = ref.kbase_grad_th_R(c.kernel, c.R, c.theta, al)
        Mg = ref.kbase_grad_th_R(c.kernel, c.R, c.theta, al, mag=True)
    tol = (128 * ref.EPS * Mg * amp[None]).astype(float) + 1e-300
    ctx.close('dth', G, W, tol, 'grad_theta:' + c.tag + mk, info=c.cls)
    ctx.close('sym', G, np.swapaxes(G, 1, 2), tol, 'symmetry:theta:' + c.tag, info=c.cls)
    if mk and G.shape == W.shape:
        ok, F = ctx.guard('grad_theta:' + c.tag, gp.calc_Kern_grad_theta, c.R.copy(), c.theta.copy(), a, None, info=c.cls)
        if ok:
            r = np.concatenate([np.ones(c.n1, bool)] + [m] * c.d)
            ctx.close('sub', G, F[:, r][:, :, r], 2 * tol, 'mask_submatrix:theta:' + c.tag, info=c.cls)
    if c.kernel == 'RatQu':
        ok, G = ctx.guard('grad_alpha:' + c.tag + mk, gp.calc_Kern_grad_alpha, c.R.copy(), c.theta.copy(), a, *args, info=c.cls)
        if ok:
            if c.grad:
                W = ref.kfull_grad_al_R(c.R, c.theta, al, m, m)
                Mg = ref.kfull_grad_al_R(c.R, c.theta, al, m, m, mag=True)
            else:
                W, Mg = ref.kbase_grad_al_R(c.R, c.theta, al), ref.kbase_grad_al_R(c.R, c.theta, al, mag=True)
            W2 = np.reshape(W, np.shape(G)) if np.size(W) == np.size(G) else W
            # log(1+s/alpha) carries the rounding of 1+s/alpha: absolute error eps
            base = (abs(ref.kfull_R(c.kernel, c.R, c.theta, al, m, m, mag=True)) if c.grad else ref.kbase_R(c.kernel, c.R, c.theta, al))[None]
            tol = (128 * ref.EPS * (Mg + base * (1 + 1 / al)) * amp[None]).astype(float) + 1e-300
            ctx.close('dal', G, W2, np.reshape(tol, np.shape(W2)), 'grad_alpha:' + c.tag + mk, info=c.cls)
    ctx.nontrivial(('kernel',) + c.cls)


def names(sc, optk):
    o = ['theta%d' % i for i in range(sc.dim)]
    nz = noisy(sc)
    if sc.kernel == 'RatQu' and optk:
        o.append('kernel')
    if nz:
        o.append('varK')
    if sc.unk_f:
        o.append('var_fval')
    if sc.unk_g:
        o.append('var_fgrad')
    return o


def noisy(sc):
    return gen.noise_vec(sc, gen.working(sc), 0.0, 0.0)[1]


def slices(sc, R, nv, hp, mode, eta, deta=True, cmax=None, optk=True):
    """reference: (full derivative, derivative with the nugget held, magnitudes), one slice per hyperparameter.
    eta: float for a constant nugget or None for the varying one."""
    LD = ref.LD
    al = gen.alpha_of(sc, hp)
    al = None if al is None else LD(al)
    th = hp['theta']
    nz = noisy(sc)
    vK = LD(np.atleast_1d(hp['varK'])[0]) if nz else LD(1)
    if sc.use_grad:
        f = lambda mag: ref.kfull_R(sc.kernel, R, th, al, sc.bvec, sc.bvec, mag=mag)
        ft = lambda mag: ref.kfull_grad_th_R(sc.kernel, R, th, al, sc.bvec, sc.bvec, mag=mag)
        fa = lambda mag: ref.kfull_grad_al_R(R, th, al, sc.bvec, sc.bvec, mag=mag)
    else:
        f = lambda mag: ref.kbase_R(sc.kernel, R, th, al)
        ft = lambda mag: ref.kbase_grad_th_R(sc.kernel, R, th, al, mag=mag)
        fa = lambda mag: ref.kbase_grad_al_R(R, th, al, mag=mag)
    K = f(False)
    N = K.shape[0]
    ix = np.arange(N)
    nf = sc.n
    If = np.zeros(N, LD)
    If[:nf] = 1
    Ig = np.zeros(N, LD)
    Ig[nf:] = 1
    NZ = ref.ld(nv)
    dA, tail = [], []          # derivative of A = K + noise/varK ; derivative of varK*A explicitly
    T, Tm = ft(False), ft(True)
    nm = names(sc, optk)
    rows = []
    for k in nm:
        if k.startswith('theta'):
            i = int(k[5:])
            rows.append((k, vK * T[i], vK * abs(Tm[i]), T[i]))
        elif k == 'kernel':
            a, am = fa(False)[0], fa(True)[0]
            rows.append((k, vK * a, vK * (am + abs(f(True)) * (1 + 1 / al)), a))
        elif k == 'varK':
            d = np.zeros((N, N), LD)
            d[ix, ix] = -NZ / vK ** 2
            rows.append((k, K, abs(f(True)), d))
        else:
            v = If if k == 'var_fval' else Ig
            d = np.zeros((N, N), LD)
            d[ix, ix] = v
            rows.append((k, d, d, d / vK))
    A = K.copy()
    A[ix, ix] += NZ / vK
    full, held, mags = [], [], []
    dgA = A[ix, ix]
    Kc = A / np.sqrt(dgA)[:, None] / np.sqrt(dgA)[None, :]
    src = Kc if mode == 'precon' else K
    rs = np.sum(np.abs(src), axis=1)
    am = int(np.argmax(rs))
    uniq = N == 1 or np.sort(rs)[-1] - np.sort(rs)[-2] > 1e-9 * rs.max()
    for k, dV, mg, dAk in rows:
        e = LD(eta) if eta is not None else rs[am] / (LD(cmax) - 1)
        D = np.zeros((N, N), LD)
        D[ix, ix] = dV[ix, ix]
        Dm = np.zeros((N, N), LD)
        Dm[ix, ix] = mg[ix, ix]

        def hold(ee, dV=dV, D=D, k=k):
            if mode == 'precon':
                return dV + ee * D
            if k == 'varK':
                return dV + ee * np.eye(N, dtype=LD)
            return dV
        h = hold(e)
        g = h.copy()
        if eta is None:
            if mode == 'precon':
                row = dAk[am] / np.sqrt(dgA[am] * dgA) - Kc[am] / 2 * (dAk[am, am] / dgA[am] + dAk[ix, ix] / dgA)
                de = np.sum(np.sign(Kc[am]) * row) / (LD(cmax) - 1)
                g[ix, ix] += de * vK * dgA
            elif k not in ('varK', 'var_fval', 'var_fgrad'):
                row = dAk[am]
                de = np.sum(np.sign(K[am]) * row) / (LD(cmax) - 1)
                g[ix, ix] += de * vK
        full.append(g)
        held.append(hold)
        mags.append(mg + (e * Dm if mode == 'precon' else (e * np.eye(N, dtype=LD) if k == 'varK' else 0)))
    return nm, full, held, mags, bool(uniq)


def model_level(ctx, sc, rng):
    inf = sc.short()
    optk = bool(rng.random() < 0.85)
    gp = gen.mk_gp(sc)
    gp.b_optz_hp_kernel = optk
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    R = gp.get_scl_x_w_dist()[1]
    nz = noisy(sc)
    mode = 'precon' if sc.weff == 'precon' else 'base'
    vary = gen.eta_vary(sc)
    tag = '%s:%s:%s' % (sc.kernel, mode, 'grad' if sc.use_grad else 'nograd')
    if nz:
        ok, o = ctx.guard('calc_all_K:' + tag, gp.calc_all_K_w_chofac, R, hp, calc_chofac=False, info=inf)
        if not ok:
            return
        ok, G = ctx.guard('calc_Kcov_grad_hp:' + tag, gp.calc_Kcov_grad_hp, gp.hp_info_optz_lkd, hp, o[0], R, info=inf)
    else:
        ok, G = ctx.guard('calc_KernGrad_hp:' + tag, gp.calc_KernGrad_hp, gp.hp_info_optz_lkd, hp, R, info=inf)
    if not ok:
        return
    wk = gen.working(sc)
    nv = gen.noise_vec(sc, wk, sc.hp['var_fval'], sc.hp['var_fgrad'])[0]
    eta0 = float(gp._etaK)
    nm, full, held, mags, uniq = slices(sc, R, nv, sc.hp, mode, None if vary else eta0, cmax=sc.opts['cond_max_target'], optk=optk)
    if G.shape[0] != len(nm):
        ctx.violation('n_slices:' + tag, dict(got=G.shape, want=nm), info=inf)
        return
    if vary and not uniq:
        ctx.count('skip_ties')
        return
    s = ref._s(ref.ld(R), ref.ld(sc.hp['theta'])).astype(float)
    amp = float(1 + np.max(np.minimum(s, 800)))
    for j, k in enumerate(nm):
        W = full[j]
        tol = (128 * ref.EPS * amp * mags[j]).astype(float) + 1e-300
        if mode == 'precon' or k == 'varK':
            tol = tol + 1e-12 * np.diag(np.abs(np.diag(W).astype(float))) * 1e-3
        err = np.abs(np.asarray(G[j], ref.LD) - W)
        kk = k.rstrip('0123456789')
        if vary and np.shape(G[j]) == W.shape and not np.all(err <= tol):
            h = held[j](ref.LD(eta0))
            if np.all(np.abs(np.asarray(G[j], ref.LD) - h) <= tol):
                ctx.count('nugget_held')
                ctx.violation('nugget-held-fixed', dict(slice=k, worst=float(np.max(err))), info=inf)
                continue
        ctx.close(('vslice_' if vary else 'slice_') + kk, G[j], W, tol, 'slice:%s:%s%s' % (kk, tag, ':vary' if vary else ''), info=inf)
        if np.shape(G[j]) == W.shape:
            ctx.close('sym', G[j], G[j].T, 2 * tol, 'symmetry:%s:%s' % (kk, tag), info=inf)
    ctx.nontrivial(('model',) + sc.cls())
    ctx.sample(dict(scenario=inf, slices=nm))

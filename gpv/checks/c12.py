"""C12: metamorphic: relabelling and change of units."""
import copy
import numpy as np
from .. import gen, ref
from ..lk import Lk

LD = ref.LD
E = ref.EPS
RULE = ('case = random model and a random composition of: reordering observations, permuting coordinates, translating, reflecting, rescaling inputs, adding a constant to and rescaling the '
        'objective (all exact in floating point where possible), all-True mask vs no mask, all-False mask vs gradient-free model; predictions (mean, sig, gradients) and '
        'likelihood of the two real models are compared through the change of variables; class = (transformations, kernel, method, use_grad, mask, noise)')
ASSUMPTIONS = ['the nugget is part of the model: inputs are rescaled only where it is relative (precon, gradient-free; common factor for the rescaling methods)',
               'noise levels are kept away from the documented zero threshold (1e-10), varK from its documented floor (1e-32)',
               'tolerance = sum of the conditioning-derived tolerances of the two models']
ALL = ['obs', 'coord', 'translate', 'reflect', 'xscale', 'fshift', 'fscale']


def shards(tier):
    k, n = (8, 550) if tier == 'quick' else (24, 3000)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=150, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    d = {'t:' + t: 100 for t in ALL}
    d.update({'cmp:mu': 600, 'cmp:sig2': 600, 'cmp:dmu': 600, 'cmp:lkd': 400, 'cmp:mask_all': 100, 'cmp:mask_zero': 20})
    return d


def quant(a, bits, mag):
    q = 2.0 ** (np.floor(np.log2(mag)) - bits)
    return np.round(a / q) * q


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, **gen.size(i, dict(nmax=7, dmax=4, ndata_max=28)), noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only'], **kw)
        # short mantissas: translations and integer factors stay exact
        xm = max(np.max(np.abs(sc.X)), 1e-3)
        Xq = quant(sc.X, 22, xm)
        if len({tuple(r) for r in Xq}) != len({tuple(r) for r in sc.X}):
            continue
        sc.X = Xq
        sc.f = quant(sc.f, 30, max(np.max(np.abs(sc.f)), 1e-30))
        if sc.weff in gen.SCALED and sc.n > 1 and np.ptp(sc.f) < 1e-6 * np.max(np.abs(sc.f)):
            continue
        one(ctx, sc, rng)
        if sc.use_grad:
            masks(ctx, sc, rng)


def phys(sc, hp):
    wk = gen.working(sc)
    s, o = wk['s'], wk['osc']
    return dict(theta=hp['theta'] * s ** 2, beta=LD(hp['beta'][0]) / o + wk['osh'], varK=LD(hp['varK']) / o ** 2,
                vf=None if hp['var_fval'] is None else LD(hp['var_fval']) / o ** 2,
                vg=None if hp['var_fgrad'] is None else LD(hp['var_fgrad']) / o ** 2 * s[0] ** 2)


def unphys(sc, p, al):
    wk = gen.working(sc)
    s, o = wk['s'], wk['osc']
    return dict(theta=(p['theta'] / s ** 2).astype(float), beta=np.array([float((p['beta'] - wk['osh']) * o)]), varK=float(p['varK'] * o ** 2), kernel=al,
                var_fval=None if p['vf'] is None else float(p['vf'] * o ** 2), var_fgrad=None if p['vg'] is None else float(p['vg'] * o ** 2 / s[0] ** 2))


def one(ctx, sc, rng):
    inf = sc.short()
    n, d = sc.n, sc.dim
    ts = [t for t in ALL if rng.random() < 0.3] or [str(rng.choice(ALL))]
    scaled = sc.weff in gen.SCALED
    if 'xscale' in ts and sc.use_grad and (sc.weff == 'base' or (scaled and n == 1)):
        ts.remove('xscale')
        ts = ts or ['obs']
    t2 = copy.copy(sc)
    t2.opts = dict(sc.opts)
    p = phys(sc, sc.hp)
    q = dict(p)
    X, f, g, sf, sg, bv = [None if a is None else a.copy() for a in (sc.X, sc.f, sc.g, sc.sf, sc.sg, sc.bvec)]
    G = None
    # per-coordinate map x' = sgn*fx*(x - 0) + tr on permuted coordinates
    cp_, sgn, fx, tr = np.arange(d), np.ones(d), np.ones(d), np.zeros(d)
    fs, ft = 1.0, 0.0
    if 'coord' in ts:
        cp_ = rng.permutation(d)
    if 'reflect' in ts:
        sgn = rng.choice([-1.0, 1.0], d)
        sgn[int(rng.integers(d))] = -1
    if 'xscale' in ts:
        pool = np.concatenate([2.0 ** np.arange(-9, 10), 3 * 2.0 ** np.arange(-6, 6), 5 * 2.0 ** np.arange(-6, 6)])
        same = scaled or sc.hp['var_fgrad'] is not None
        fx = np.full(d, rng.choice(pool)) if same else rng.choice(pool, d)
    if 'translate' in ts:
        xm = 2.0 ** np.floor(np.log2(max(np.max(np.abs(sc.X)), 1e-3)))
        tr = np.round(rng.uniform(-200, 200, d)) * xm / 64 * fx
    if 'fscale' in ts:
        fs = float(rng.choice([2.0 ** -7, 0.25, 3.0, 10.0, 2.0 ** 10, 1000.0, 2.0 ** -27, 5 * 2.0 ** -25, 3 * 2.0 ** 25])) * (-1.0 if rng.random() < 0.3 else 1.0)
    if 'fshift' in ts:
        fm = 2.0 ** np.floor(np.log2(max(np.max(np.abs(sc.f)), 1e-30)))
        ft = float(np.round(rng.uniform(-100, 100)) * fm * abs(fs))
    for a in (sf, sg):
        if a is not None and np.any(a > 0) and np.max(a) * min(1, abs(fs)) / max(1, np.max(fx)) < 1e-8:
            ctx.count('skipped_tiny_noise')
            return

    def mx(P):
        return (P * sgn * fx + tr)[..., cp_]
    X2 = mx(X)
    f2 = f * fs + ft
    g2 = None if g is None else (g * fs / (sgn * fx))[:, cp_]
    sf2 = None if sf is None else sf * abs(fs)
    sg2 = None if sg is None else (sg * abs(fs) / fx)[:, cp_]
    perm = np.arange(n)
    if 'obs' in ts:
        perm = rng.permutation(n)
        if g is not None:
            loc = np.arange(n) if bv is None else np.where(bv, np.cumsum(bv) - 1, -1)
            rows = [loc[j] for j in perm if loc[j] >= 0]
            g2 = g2[rows]
            sg2 = None if sg2 is None else sg2[rows]
        X2, f2 = X2[perm], f2[perm]
        sf2 = None if sf2 is None else sf2[perm]
        bv = None if bv is None else bv[perm]
    t2.X, t2.f, t2.g, t2.sf, t2.sg, t2.bvec = X2, f2, g2, sf2, sg2, bv
    q['theta'] = (p['theta'] / fx ** 2)[cp_]
    q['beta'] = p['beta'] * fs + ft
    q['varK'] = p['varK'] * LD(fs) ** 2
    q['vf'] = None if p['vf'] is None else p['vf'] * LD(fs) ** 2
    q['vg'] = None if p['vg'] is None else p['vg'] * (LD(fs) / LD(fx[0])) ** 2
    t2.hp = unphys(t2, q, sc.hp['kernel'])
    tag = '+'.join(ts)
    tag = '%s:%s:%s' % (tag, sc.weff, 'grad' if sc.use_grad else 'nograd')
    m = int(rng.integers(1, 4))
    Pe = quant(gen.eval_points(rng, sc, m), 22, max(np.max(np.abs(sc.X)), 1e-3))
    a = predict(ctx, sc, Pe, tag, inf)
    b = predict(ctx, t2, mx(Pe), tag, inf)
    if a is None or b is None:
        return
    for t in ts:
        ctx.count('t:' + t)
    afs = abs(fs)
    J = (sgn * fx)[cp_]          # x' derivative factors
    ctx.close('mu', b['mu'], a['mu'] * fs + ft, a['t']['mu'] * afs + b['t']['mu'] + 8 * E * (np.abs(a['mu'] * fs) + abs(ft)), 'mu:' + tag, info=inf)
    ctx.close('sig2', b['sig'] ** 2, a['sig'] ** 2 * fs ** 2, a['t']['sig2'] * fs ** 2 + b['t']['sig2'], 'sig:' + tag, info=inf)
    ctx.close('dmu', b['dmu'], (a['dmu'][:, cp_] * fs) / J, a['t']['dmu'][:, cp_] * afs / np.abs(J) + b['t']['dmu'], 'dmudx:' + tag, info=inf)
    ctx.close('dsig2', 2 * b['sig'][:, None] * b['dsig'], 2 * (a['sig'][:, None] * a['dsig'])[:, cp_] * fs ** 2 / J,
              a['t']['dsig2'][:, cp_] * fs ** 2 / np.abs(J) + b['t']['dsig2'], 'dsigdx:' + tag, info=inf)
    # likelihood
    try:
        la, lb = Lk(sc, a['gp']), Lk(t2, b['gp'])
        wa, ta = la.with_tol()
        wb, tb = lb.with_tol()
    except ref.NotPD:
        return
    if not (float(ta['ln_lkd']) + float(tb['ln_lkd']) < 1e-4 * (la.n + abs(float(wa['ln_lkd'])))):
        return
    ra, rb = lkd(ctx, a['gp'], sc, tag, inf), lkd(ctx, b['gp'], t2, tag, inf)
    if ra is None or rb is None:
        return
    wka, wkb = gen.working(sc), gen.working(t2)
    cw = np.log(LD(afs) * wkb['osc'] / wka['osc'])
    sw = np.log(LD(1) * fx * wkb['s'][np.argsort(cp_)] / wka['s'])
    shift = la.n * cw - sc.ng * np.sum(sw) * (1 if sc.use_grad else 0)
    ctx.close('lkd', rb, ra - float(shift), ta['ln_lkd'] + tb['ln_lkd'] + 400 * E * (la.n * abs(float(cw)) + abs(ra)), 'ln_lkd:' + tag, info=inf)
    ctx.nontrivial((tuple(ts), sc.kernel, sc.weff, sc.use_grad, sc.bvec is None, sc.noise))
    ctx.sample(dict(scenario=inf, transforms=ts, mu=a['mu'], mu_transformed=b['mu'], fs=fs, ft=ft))


def lkd(ctx, gp, sc, tag, inf):
    h = gen.mk_hp(gp, sc.hp)
    ok, o = ctx.guard('calc_lkd_all:' + tag, gp.calc_lkd_all, h, info=inf)
    if not ok or not o[1]:
        return None
    if o[0].hp_varK is not None and o[0].hp_varK < 1e-28:     # documented floor varK_min = 1e-32
        ctx.count('skipped_varK_floor')
        return None
    return float(o[0].ln_lkd)


def predict(ctx, sc, P, tag, inf, tol=True):
    gp = gen.mk_gp(sc)
    ok, _ = ctx.guard('set_data:' + tag, gen.put_data, gp, sc, info=inf)
    if not ok:
        return None
    ok, _ = ctx.guard('set_hpara:' + tag, gp.set_hpara, 'set', 0, gen.mk_hp(gp, sc.hp), info=inf)
    if not ok or gp.KernEta_chofac is None:
        return None
    ok, o = ctx.guard('eval_model:' + tag, gp.eval_model, P, calc_grad=True, info=inf)
    if not ok:
        return None
    r = dict(gp=gp, mu=np.array(o[0]), sig=np.array(o[1]), dmu=np.array(o[2]), dsig=np.array(o[3]))
    M, wk = gen.ref_model(sc, float(gp.etaK_eval), gp=gp)
    try:
        w, t = gen.ref_predict(M, wk, P, grad=True)
    except ref.NotPD:
        return None
    if t is None or float(np.max(t['sig2'])) > 1e-3 * float(M.varK / wk['osc'] ** 2):
        ctx.count('skipped_illcond')
        return None
    r['t'] = t
    return r


def masks(ctx, sc, rng):
    """all-True mask equals no mask; all-False mask equals the gradient-free model"""
    inf = sc.short()
    P = gen.eval_points(rng, sc, 2)
    if sc.ng == sc.n and rng.random() < 0.6:
        o = copy.copy(sc)
        o.bvec = None if sc.bvec is not None else np.ones(sc.n, bool)
        a, b = predict(ctx, sc, P, 'mask_all', inf), predict(ctx, o, P, 'mask_all', inf)
        if a and b:
            for k, kt in (('mu', 'mu'), ('dmu', 'dmu')):
                ctx.close('mask_all', b[k], a[k], 2 * a['t'][kt], 'mask_all:%s:%s' % (k, sc.weff), info=inf)
            ctx.close('mask_all', b['sig'] ** 2, a['sig'] ** 2, 2 * a['t']['sig2'], 'mask_all:sig:' + sc.weff, info=inf)
    if sc.weff == 'base' and rng.random() < 0.5 and sc.noise in ('zero', 'known', 'hetero', 'unk_f') and not sc.opts.get('cond_eta_set_mtd') == 'Kbase_eta_w_dim':
        z = copy.copy(sc)
        z.bvec, z.g, z.ng = np.zeros(sc.n, bool), np.zeros((0, sc.dim)), 0
        z.sg, z.unk_g = np.zeros((0, sc.dim)), False
        z.hp = dict(sc.hp, var_fgrad=None)
        o = copy.copy(z)
        o.use_grad, o.g, o.sg, o.bvec = False, None, None, None
        a, b = predict(ctx, z, P, 'mask_zero', inf), predict(ctx, o, P, 'mask_zero', inf)
        if a and b:
            for k, kt in (('mu', 'mu'), ('dmu', 'dmu')):
                ctx.close('mask_zero', b[k], a[k], 2 * a['t'][kt], 'mask_zero:%s' % k, info=inf)
            ctx.close('mask_zero', b['sig'] ** 2, a['sig'] ** 2, 2 * a['t']['sig2'], 'mask_zero:sig', info=inf)

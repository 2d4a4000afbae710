"""C18: packing of hyperparameter, data and noise vectors."""
import numpy as np
from .. import gen, ref
from ..ref import ld

RULE = ('case = random model, data, mask, noise setting and option flags; the layout made by set_data()/setup_hp_idx4optz() and by direct set_hp_optz_info() calls is compared with an '
        'independent list of the hyperparameters that are unknown and optimized, random vectors go through hp_vec2dataclass(), and the data vector, noise vector, distance tensor, mean '
        'function, preconditioner derivative and distance helpers are compared with element-by-element references; class = (kernel, noise, use_grad, mask, log flags, hp list)')
ASSUMPTIONS = ['10**x is compared to 4 ulp, everything else that is only copied bitwise']


def shards(tier):
    k, n = (8, 1500) if tier == 'quick' else (24, 5000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'layout': 1000, 'direct_layout': 1500, 'vec2class': 3000, 'cmp:log10': 2500, 'default_kept': 300, 'cmp:data_vec': 1000, 'cmp:noise': 900, 'noise_zero': 250,
            'cmp:rtensor': 1000, 'cmp:dist': 1500, 'cmp:mean': 800, 'cmp:precon_grad': 800, 'cmp:vand': 900, 'cmp:init_hp': 900, 'has:kernel': 250, 'has:varK': 500, 'has:var_fval': 300,
            'has:var_fgrad': 150, 'mask:some': 200, 'mask:zero': 40, 'no_theta': 200}


FIELDS = ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad')


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        one(ctx, rng)


def flags(rng, gp):
    gp.optz_log_hp_theta = bool(rng.random() < 0.6)
    gp.optz_log_hp_kernel = bool(rng.random() < 0.5)
    gp.optz_log_hp_var = bool(rng.random() < 0.6)
    gp.b_optz_hp_kernel = bool(rng.random() < 0.6)
    return dict(theta=gp.optz_log_hp_theta, kernel=gp.optz_log_hp_kernel, varK=gp.optz_log_hp_var, var_fval=gp.optz_log_hp_var, var_fgrad=gp.optz_log_hp_var)


def check_layout(ctx, info, has, log, dim, sig, inf):
    """has: independent mapping name -> in the vector?"""
    pos, k = {}, 0
    for f in FIELDS:
        m = (dim if f == 'theta' else 1) if has[f] else 0
        pos[f] = list(range(k, k + m))
        k += m
    if info.n_hp != k or len(np.ravel(info.bvec_log_optz)) != k:
        ctx.violation(sig + ':length', dict(n_hp=info.n_hp, want=k), info=inf)
        return None
    for f in FIELDS:
        if bool(getattr(info, 'has_' + f)) != has[f]:
            ctx.violation(sig + ':has_' + f, dict(got=getattr(info, 'has_' + f), want=has[f]), info=inf)
            return None
        g = [int(v) for v in np.ravel(getattr(info, 'idx_' + f))]
        if g != pos[f]:
            ctx.violation(sig + ':idx_' + f, dict(got=g, want=pos[f]), info=inf)
            return None
        for j in pos[f]:
            if bool(np.ravel(info.bvec_log_optz)[j]) != log[f]:
                ctx.violation(sig + ':log_' + f, dict(index=j, want=log[f]), info=inf)
                return None
    return pos


def check_vec(ctx, rng, gp, info, pos, log, dim, sig, inf):
    n = info.n_hp
    v = np.array([rng.uniform(-6, 6) if np.ravel(info.bvec_log_optz)[j] else float(10.0 ** rng.uniform(-6, 6)) for j in range(n)], float).reshape(n)
    if rng.random() < 0.1:
        v[:] = np.round(v)
    keep = v.tobytes()
    ok, h = ctx.guard(sig + ':hp_vec2dataclass', gp.hp_vec2dataclass, info, v, info=inf)
    if not ok:
        return
    ctx.count('vec2class')
    if v.tobytes() != keep:
        ctx.violation(sig + ':vector modified', None, info=inf)
    if h.beta is not None:
        ctx.violation(sig + ':beta', dict(beta=h.beta), info=inf)
    for f in FIELDS:
        g = getattr(h, f)
        if not pos[f]:
            if f == 'kernel':
                ctx.count('default_kept')
                w = gp.hp_kernel
                if not (g is w or (g is not None and w is not None and np.array_equal(np.ravel(g), np.ravel(w)))):
                    ctx.violation(sig + ':kernel default not kept', dict(got=g, want=w), info=inf)
            elif g is not None:
                ctx.violation(sig + ':%s not None' % f, dict(got=g), info=inf)
            continue
        ctx.count('has:' + f)
        w = v[pos[f]]
        if g is None or np.size(g) != len(w):
            ctx.violation(sig + ':size ' + f, dict(got=g, want=w), info=inf)
            continue
        if f == 'theta' and np.shape(g) != (dim,):
            ctx.violation(sig + ':shape theta', dict(got=np.shape(g)), info=inf)
        if log[f]:
            w = np.array([float(10 ** ref.LD(x)) for x in w])
            ctx.close('log10', np.ravel(g), w, 4 * ref.EPS * w, sig + ':log10 ' + f, info=inf)
        elif not np.array_equal(np.ravel(g), w):
            ctx.violation(sig + ':value ' + f, dict(got=g, want=w), info=inf)
    # the class must not share memory with the vector
    for f in FIELDS:
        g = getattr(h, f)
        if isinstance(g, np.ndarray) and pos[f] and np.shares_memory(g, v):
            ctx.violation(sig + ':shared memory ' + f, None, info=inf)


def one(ctx, rng):
    sc = gen.gen(rng, aniso=0.4, **gen.size(int(rng.integers(30)), dict(nmax=7)), alpha_types=('float', 'array', 'int'))
    gp = gen.mk_gp(sc)
    log = flags(rng, gp)
    user_default = sc.kernel == 'RatQu' and rng.random() < 0.3
    if user_default:
        gp.hp_kernel = float(rng.uniform(0.5, 8))
    inf = dict(sc=sc.short(), log=log, optz_kernel=gp.b_optz_hp_kernel)
    ok, _ = ctx.guard('set_data', gen.put_data, gp, sc, info=inf)
    if not ok:
        return
    noisy = gen.noise_vec(sc, gen.working(sc), 1.0, 1.0)[1]
    has = dict(theta=True, kernel=sc.kernel == 'RatQu' and gp.b_optz_hp_kernel, varK=bool(noisy), var_fval=bool(sc.unk_f), var_fgrad=bool(sc.use_grad and sc.unk_g))
    # --- the layout chosen for the optimization
    pos = check_layout(ctx, gp.hp_info_optz_lkd, has, log, sc.dim, 'layout', inf)
    ctx.count('layout')
    if pos is None:
        return
    for _ in range(2):
        check_vec(ctx, rng, gp, gp.hp_info_optz_lkd, pos, log, sc.dim, 'vector', inf)
    # --- any valid subset
    for _ in range(2):
        h2 = {f: bool(has[f] and rng.random() < 0.6) for f in FIELDS}
        h2['kernel'] = bool(sc.kernel == 'RatQu' and rng.random() < 0.5)
        if not any(h2.values()):
            h2['theta'] = True
        log2 = flags(rng, gp)
        ok, info = ctx.guard('set_hp_optz_info', gp.set_hp_optz_info, *[h2[f] for f in FIELDS], info=inf)
        if not ok:
            continue
        ctx.count('direct_layout')
        ctx.count('no_theta', not h2['theta'])
        p2 = check_layout(ctx, info, h2, log2, sc.dim, 'direct', dict(inf, has=h2))
        if p2 is not None:
            check_vec(ctx, rng, gp, info, p2, log2, sc.dim, 'direct', dict(inf, has=h2))
    # flags changed afterwards do not change the layout already made
    pos2 = check_layout(ctx, gp.hp_info_optz_lkd, has, log, sc.dim, 'layout_later', inf)
    if pos2 is None:
        return
    data(ctx, rng, gp, sc, inf)
    helpers(ctx, rng, gp, sc, inf)
    m = 'none' if sc.bvec is None else ('all' if sc.bvec.all() else ('zero' if not sc.bvec.any() else 'some'))
    ctx.count('mask:' + m)
    ctx.nontrivial((sc.kernel, sc.noise, sc.use_grad, m, tuple(log.values()), tuple(has.values())))
    ctx.sample(dict(sc=sc.short(), has=has, log=log))


def lay(rng, a):
    """the same values in another memory layout"""
    a = np.asarray(a)
    k = int(rng.integers(3))
    if k == 0:
        return a.copy()
    if k == 1:
        return np.asfortranarray(a.copy())
    b = np.full(tuple(2 * s + 1 for s in a.shape), 7.7)
    v = b[tuple(slice(1, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def data(ctx, rng, gp, sc, inf):
    n, d, ng = sc.n, sc.dim, sc.ng
    # --- data vector
    f = lay(rng, sc.f)
    if sc.use_grad:
        g = lay(rng, sc.g)
        kf, kg = f.tobytes(), g.tobytes()
        ok, y = ctx.guard('make_data_vec', gp.make_data_vec, f, g, info=inf)
        w = np.array([sc.f[i] for i in range(n)] + [sc.g[i, j] for j in range(d) for i in range(ng)])
        if ok and (f.tobytes() != kf or g.tobytes() != kg):
            ctx.violation('make_data_vec:arguments modified', None, info=inf)
    else:
        ok, y = ctx.guard('make_data_vec', gp.make_data_vec, f, info=inf)
        w = sc.f
    if ok:
        ctx.close('data_vec', y, w, 0, 'make_data_vec', info=inf)
        if gp.n_data != w.size or gp.n_eval != n or gp.n_grad != ng:
            ctx.violation('n_data', dict(n_data=gp.n_data, n_eval=gp.n_eval, n_grad=gp.n_grad), info=inf)
    # --- noise vector in the working space
    s = gen.model_scale(gp, sc)
    wk = gen.working(sc, s)
    vf, vg = (float(10 ** rng.uniform(-6, 2)) for _ in range(2))
    vf = vf if sc.unk_f else None
    vg = vg if sc.unk_g and sc.use_grad else None
    want, noisy = gen.noise_vec(sc, wk, vf, vg)
    if gp.b_has_noisy_data != noisy:
        ctx.violation('b_has_noisy_data', dict(got=gp.b_has_noisy_data, want=noisy), info=inf)
    hp = gp.make_hp_class(None, np.ones(d), None, 1.0, vf, vg)
    ok, v = ctx.guard('calc_noise_vec', gp.calc_noise_vec, hp, info=inf)
    if ok:
        ctx.count('noise_zero', not noisy)
        scaled = sc.weff in gen.SCALED
        ctx.close('noise', v, want.astype(float), (200 if scaled else 8) * ref.EPS * np.abs(want).astype(float) if not (scaled and s is None) else np.inf, 'calc_noise_vec:' + sc.noise, info=inf)
    # --- distance tensor of the model
    ok, o = ctx.guard('get_scl_x_w_dist', gp.get_scl_x_w_dist, info=inf)
    if ok:
        x, R = np.asarray(o[0]), np.asarray(o[1])
        W = np.zeros((d, n, n))
        for k in range(d):
            for i in range(n):
                for j in range(n):
                    W[k, i, j] = x[i, k] - x[j, k]
        ctx.close('rtensor', R, W, 2 * ref.EPS * np.abs(W), 'model distance tensor', info=inf)
        if s is not None or sc.weff not in gen.SCALED:
            ctx.close('xscl', x, wk['X'].astype(float), 20 * ref.EPS * (np.abs(wk['X']) + np.max(np.abs(ld(sc.X)), axis=0) * wk['s']).astype(float), 'scaled points', info=inf)
    # --- initial hyperparameters have the length and kind of the model
    ok, h = ctx.guard('get_init_hp_vals', gp.get_init_hp_vals, info=inf)
    if ok:
        m = float(np.mean(wk['f'].astype(float)))
        ctx.close('init_hp', np.ravel(h.beta), [m], 1e-13 * (np.max(np.abs(wk['f'])).astype(float) + abs(float(wk['osh'] * wk['osc']))) + 1e-300, 'init beta', info=inf)
        if np.shape(h.theta) != (d,) or not np.array_equal(h.theta, np.full(d, gp.hp_theta_init)):
            ctx.violation('init theta', dict(theta=h.theta), info=inf)
        if (h.var_fval is None) != (not sc.unk_f) or (h.var_fgrad is None) != (not (sc.unk_g and sc.use_grad)):
            ctx.violation('init noise variances', dict(var_fval=h.var_fval, var_fgrad=h.var_fgrad), info=inf)
        for nm, val in (('varK', gp.hp_varK_init), ('var_fval', gp.hp_var_fval_init), ('var_fgrad', gp.hp_var_fgrad_init)):
            g = getattr(h, nm)
            if g is not None and g != val:
                ctx.violation('init ' + nm, dict(got=g, want=val), info=inf)


def helpers(ctx, rng, gp, sc, inf):
    n, d, ng = sc.n, sc.dim, sc.ng
    # --- distances
    X = lay(rng, sc.X)
    lo, hi = np.inf, 0.0
    for i in range(n):
        for j in range(i):
            r = float(np.sqrt(sum((ld(sc.X[i, k]) - ld(sc.X[j, k])) ** 2 for k in range(d))))
            lo, hi = min(lo, r), max(hi, r)
    for nm, w in (('calc_dist_min', lo), ('calc_dist_max', hi)):
        ok, r = ctx.guard(nm, getattr(gp, nm), X, info=inf)
        if ok:
            if n == 1:
                ctx.count('cmp:dist')
                if not np.isnan(r):
                    ctx.violation(nm + ':single point', dict(got=r), info=inf)
            else:
                ctx.close('dist', r, w, 20 * ref.EPS * w, nm, info=inf)
    # --- mean function at the points and its layout for the data vector
    beta = rng.standard_normal(1)
    m = int(rng.integers(1, 5))
    P = rng.standard_normal((m, d))
    ug = sc.use_grad
    mk = None if rng.random() < 0.5 else rng.random(m) < 0.5
    ok, o = ctx.guard('eval_mean_fun', gp.eval_mean_fun, P, beta, bvec_use_grad=mk, calc_grad=True, calc_hess=True, info=inf)
    if ok:
        k = m if mk is None else int(mk.sum())
        ctx.close('mean', o[0], np.full(m, beta[0]), 0, 'mean:value', info=inf)
        ctx.close('mean', o[1], np.zeros((k, d)), 0, 'mean:gradient', info=inf)
        ctx.close('mean', o[2], np.zeros((m, d, d)), 0, 'mean:hessian', info=inf)
    mh = None if rng.random() < 0.5 else rng.random(m) < 0.5
    ok, o = ctx.guard('eval_mean_fun:hess', gp.eval_mean_fun, P, beta, bvec_use_grad=mk, bvec_use_hess=mh, calc_grad=True, calc_hess=True, info=inf)
    if ok:
        ctx.close('mean', o[1], np.zeros((m if mk is None else int(mk.sum()), d)), 0, 'mean:gradient', info=inf)
        ctx.close('mean', o[2], np.zeros((m if mh is None else int(mh.sum()), d, d)), 0, 'mean:hessian', info=inf)
    ok, V = ctx.guard('calc_aug_vand', gp.calc_aug_vand, sc.X.copy(), gp.bvec_use_grad, info=inf)
    if ok:
        ctx.close('vand', V, np.concatenate([np.ones(n), np.zeros(ng * d * ug)])[:, None], 0, 'basis matrix', info=inf)
    # --- derivative of the preconditioner: one coordinate block per theta
    g = rng.uniform(0.5, 2, d)
    n2, ng2 = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    for vec in (True, False):
        ok, D = ctx.guard('calc_grad_precon_matrix', gp_common().calc_grad_precon_matrix, n2, ng2, g.copy(), vec, info=inf)
        if not ok:
            continue
        W = np.zeros((n2 + d * ng2, d))
        for k in range(d):
            for i in range(ng2):
                W[n2 + k * ng2 + i, k] = g[k]
        if not vec:
            W = np.array([np.diag(W[:, k]) for k in range(d)])
        ctx.close('precon_grad', D, W, 0, 'calc_grad_precon_matrix', info=inf)


def gp_common():
    from gpgradpy.src.kernel import KernelCommon
    return KernelCommon
